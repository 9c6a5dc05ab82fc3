"""Rules about accesses which are allowed (C13)"""
from ..terms import T, cval, is_num, show, walk
from .util import *
from .views import LOOKUPS, PSET, conv_opaque

V = "openscm.core.views."
ERR = "openscm.errors."
TYPES = frozenset(["openscm.core.parameters.ParameterType.from_timeseries_type", "openscm.core.time.InterpolationType.from_interpolation_type",
                   "openscm.core.time.ExtrapolationType.from_extrapolation_type"])
READS = (V + "ScalarView.value", V + "TimeseriesView.values", V + "GenericView.value", V + "_Timeseries.__getitem__", V + "TimeseriesView.length", V + "TimeseriesView.lock")
WRITES = (V + "ScalarView.value.setter", V + "TimeseriesView.values.setter", V + "GenericView.value.setter", V + "_Timeseries.__setitem__", V + "TimeseriesView.unlock")
NAMED = tuple(PSET + "." + n for n in ("scalar", "timeseries", "generic", "info"))


def positive(a):
    """(atom, sign)"""
    s = True
    while a.op == "not":
        a, s = a.args[0], not s
    return a, s


def fld(t, name):
    return t.op == "attr" and t.args[1] == name


def count(t):
    return t.op == "len" or t.op == "call" and show(t).startswith("len(")


def has_children(a, v):
    """Is the atom with this value: there are children?"""
    if a.op == "lt" and a.args[0].op == "len" and fld(a.args[0].args[0], "children") and is_num(a.args[1]):
        return not v if cval(a.args[1]) == 1 else None
    if a.op == "truth" and fld(a.args[0], "children"):
        return v
    if a.op == "exists":
        return v
    return None


def flag(name, want):
    def test(a, v):
        return v == want if a.op == "truth" and fld(a.args[0], name) else None
    return test


def other_type(a, v):
    if a.op == "eq" and any(fld(x, "parameter_type") for x in a.args):
        return not v
    return None


def generic(a, v):
    if a.op == "eq" and any(x.op == "enum" and x.args[1] == "GENERIC" for x in a.args):
        return v
    return None


def length(a, v):
    if a.op == "eq" and any(x.op == "len" for y in a.args for x in walk(y)):
        return not v
    if a.op == "lt" and any(x.op == "len" for y in a.args for x in walk(y)) and not has_children(a, v):
        return None if fld(a.args[0], "children") or a.args[0].op == "len" and fld(a.args[0].args[0], "children") else v
    return None


def nameless(a, v):
    if a.op == "truth" and not any(x.op == "attr" and x.args[1] not in ("_root", "_name") for x in walk(a.args[0])):
        return not v
    if a.op == "lt" and a.args[0].op == "len" and is_num(a.args[1]) and cval(a.args[1]) == 1 and not fld(a.args[0].args[0], "children"):
        return v
    if a.op == "eq" and any(fld(x, "_name") for x in a.args):
        return not v
    return None


READONLY = [("children", has_children)]
REASONS = {
    ERR + "ParameterReadonlyError": READONLY,
    ERR + "ParameterEmptyError": [("has_been_written_to", flag("has_been_written_to", False))],
    ERR + "ParameterTypeError": [("parameter_type", other_type)],
    ERR + "ParameterAggregationError": [("children", has_children)],
    ERR + "ParameterWrittenError": [("has_been_written_to", flag("has_been_written_to", True))],
    ERR + "ParameterReadError": [("has_been_read_from", flag("has_been_read_from", True))],
    ERR + "RegionAggregatedError": [("_has_been_aggregated", flag("_has_been_aggregated", True))],
    ERR + "TimeseriesPointsValuesMismatchError": [("len", length)],
    "builtins.ValueError": [("name", nameless)],
}
FAIL = {"read": {"ParameterEmptyError"}, "write": {"ParameterEmptyError", "ParameterReadonlyError", "ParameterTypeError", "TimeseriesPointsValuesMismatchError"},
        "access": {"ParameterTypeError", "ParameterAggregationError", "ParameterWrittenError", "ParameterReadError", "RegionAggregatedError", "ValueError"}}
TEXT = {"read": "reading", "write": "writing", "access": "accessing a parameter or region"}


def legal(ctx):
    for kind, qs in (("read", READS), ("write", WRITES), ("access", NAMED)):
        for q in qs:
            if ctx.p.functions.get(q) is None:
                ctx.unk("C13." + kind, q, "does not exist (any more)")
                continue
            ctx.guard("C13." + kind, q, _legal, ctx, kind, q)


def _legal(ctx, kind, q):
    rule = "C13." + kind
    good = 0
    many = q == PSET + ".timeseries"  # looking up is the same as for scalars
    for o in ctx.run(q, opaque=lambda x: conv_opaque(x) or many and (x in LOOKUPS or x in TYPES)):
        if o.kind == "return":
            good += 1
            continue
        last = [e for e in o.flat() if e.kind in ("raise", "implicit_raise")]
        if not last or last[-1].kind != "raise":
            continue  # errors of the operations themselves
        exc = o.exc()
        at = last[-1].loc
        name = exc.rsplit(".", 1)[-1] if exc else "?"
        if exc is None or exc == "?":
            ctx.unk(rule, q, "raises something")
            continue
        if name not in FAIL[kind]:
            known = exc.startswith(("builtins.", ERR))
            facts = why(o)
            if not known:
                ctx.unk(rule, q, "raises %s" % exc)
            else:
                ctx.bad(rule, q, "%s fails with %s%s" % (TEXT[kind], name, facts), at)
            continue
        test = REASONS[exc]
        found, unclear = False, None
        for a, v in o.order:
            a, s = positive(a)
            v = v if s else not v
            for field, t in test:
                r = t(a, v)
                if r:
                    found = True
                elif r is None and any(x.op == "attr" and x.args[1] == field or x.op == field for x in walk(a)) and a.op not in ("isnone",):
                    unclear = unclear or a
        if found:
            ctx.holds(rule, q)
        elif unclear is not None or exc == "builtins.ValueError" and not o.order:
            ctx.unk(rule, q, "raises %s because of %s" % (name, show(unclear)[:100] if unclear is not None else "nothing"))
        else:
            ctx.bad(rule, q, "%s fails with %s for another reason than documented%s" % (TEXT[kind], name, why(o)), at)
    if good:
        ctx.holds(rule, q)
    else:
        ctx.bad(rule, q, "%s never succeeds" % TEXT[kind], ctx.loc(q))


MARKS = ("has_been_written_to", "version")


def no_write(ctx):
    """Asking for a parameter and reading it never count as writing it"""
    rule = "C03.access"
    for q in NAMED + READS:
        if ctx.p.functions.get(q) is None:
            ctx.unk(rule, q, "does not exist (any more)")
            continue
        ctx.guard(rule, q, _no_write, ctx, rule, q)


def _no_write(ctx, rule, q):
    many = q == PSET + ".timeseries"
    for o in ctx.run(q, opaque=lambda x: conv_opaque(x) or many and (x in LOOKUPS or x in TYPES)):
        fresh = {id(e.a[0]) for e in o.flat() if e.kind in ("new", "rnew")}
        for e in o.flat():
            if e.kind != "setattr" or e.a[1] not in MARKS:
                continue
            obj, name, val = e.a[:3]
            if is_const(val) and not cval(val) or val is mk("attr", obj, name):
                continue
            if is_const(val) or id(obj) in fresh or name == "version":
                return ctx.bad(rule, q, "reading or asking for a parameter sets its %s to %s%s" % (name, show(val)[:60], why(o)), e.loc)
            r = tv(o, val)
            if r is True:
                return ctx.bad(rule, q, "reading or asking for a parameter marks it as written to%s" % why(o), e.loc)
            if r is None:
                ctx.unk(rule, q, "%s set to %s" % (name, show(val)[:80]))
        ctx.holds(rule, q)


def why(o):
    return " (if %s)" % ", ".join(("" if v else "not ") + show(a)[:60] for a, v in o.order[-3:]) if o.order else ""


RULES = {
    "C13": {"rules": [legal],
            "explain": "All paths of the accessors and of reads and writes through views: every path which ends with a raised exception must have the documented reason of this exception among its conditions."},
}
