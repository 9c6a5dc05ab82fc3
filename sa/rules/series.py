"""Rules about guessing types, interpolating and resampling (D08, D11, D12)"""
import re

from ..check import Unknown, describe, implied
from ..terms import cval, is_num, is_str
from ..terms import sub as _sub
from .frames import BASE, CONV, M, OFFS, PTYPE, S, TP, UC, VOL, core
from .select import Wrong
from .util import *

GUESS = M + "parameter_type.guess_parameter_type"
REG = "_unit_registry"


def sub(t, a, b):
    return _sub(t, {a: b})


# ---------------------------------------------------------------------- D12
NAMES = {
    "AVERAGE_TIMESERIES": [
        "Emissions|CO2", "Emissions", "Emissions|CO2|MAGICC AFOLU", "CO2_EMIS", "CH4_GWPEMIS", "Ocean Heat Flux", "Flux", "Heat Flux|Deep",
        "CO2_RF", "TOTAL_ERF_EFFRF", "CO2_PEFFRF", "SO4_SRF", "Radiative Forcing", "Radiative Forcing|CO2", "HEATUPTAKE_EBALANCE_TOTAL",
        # the first pattern decides
        "Emissions|X_CONC", "Surface Temperature Flux", "Atmospheric Concentrations|Flux", "X_EMIS_CONC", "X_RF_TEMP",
    ],
    "POINT_TIMESERIES": [
        "Atmospheric Concentrations|CO2", "CO2_CONC", "Surface Temperature", "Surface Temperature|World", "GLOBALTEMP", "TEMP",
        "Primary Energy", "", "Net Emissions", "emissions|CO2", "EMIS", "RF", "My Radiative Forcing", "Ocean Heat Uptake", "flux", "Population|HEATUPTAKE_EBALANCE_TOTAL",
    ],
}


def decide(t, name, text):
    """Value of a condition for a certain name: True / False / Unknown"""
    t = sub(t, name, const(text))
    return bool(value(t))


def value(t):
    """Value of a term without variables"""
    if is_const(t):
        return cval(t)
    if t.op == "not":
        return not value(t.args[0])
    if t.op == "truth":
        return bool(value(t.args[0]))
    if t.op == "isnone":
        return value(t.args[0]) is None
    if t.op == "and":
        return all(value(x) for x in t.args)
    if t.op == "or":
        return any(value(x) for x in t.args)
    if t.op == "lt":
        return value(t.args[0]) < value(t.args[1])
    if t.op == "eq":
        return value(t.args[0]) == value(t.args[1])
    if t.op == "in" and is_str(t.args[0]) and is_str(t.args[1]):
        return cval(t.args[0]) in cval(t.args[1])
    if t.op == "len":
        return len(value(t.args[0]))
    if t.op in ("list", "tuple"):
        return [value(x) for x in t.args]
    if t.op == "call" and call_name(t) == "re.compile" and not t.args[2]:
        flags = [value(x) for x in t.args[1]]
        return re.compile(*flags)
    if t.op == "call" and call_name(t) in ("re.match", "re.search", "re.fullmatch") and not t.args[2]:
        return getattr(re, call_name(t)[3:])(*[value(x) for x in t.args[1]])
    if t.op == "ext" and t.args[0].startswith("re.") and t.args[0][3:].isupper():
        return getattr(re, t.args[0][3:])
    if t.op == "call" and call_name(t) == "builtins.str" and len(t.args[1]) == 1:
        return str(value(t.args[1][0]))
    m = method(t) if t.op in ("call", "mcall") else None
    if m and not m[3] and m[1] in ("match", "search", "fullmatch", "startswith", "endswith", "lower", "upper", "strip", "split", "replace"):
        return getattr(value(m[0]), m[1])(*[value(x) for x in m[2]])
    raise Unknown("condition %s" % show(t)[:150])


def d12(ctx):
    ctx.guard("D12.unit", GUESS, _d12, ctx)


UNDEF = ("pint.errors.UndefinedUnitError", "openscm.core.units.UndefinedUnitError", "pint.UndefinedUnitError", "builtins.AttributeError", "builtins.Exception", "builtins.BaseException")


def fallible(t, unit):
    """Is the unit looked up in the registry here?"""
    return t.op in ("call", "mcall", "rcall") and contains(t, unit) and any(
        y.op == "sym" and (REG in y.args[0] or len(y.args) > 1 and isinstance(y.args[1], tuple) and str(y.args[1][-1]).endswith("UnitRegistry")) for y in walk(t))


def _d12(ctx):
    f = ctx.p.need_function(GUESS)
    outs = ctx.run(GUESS, opaque=core, volatile=VOL)
    name, unit = param(ctx, f, 0), param(ctx, f, 1)
    loc = ctx.loc(f)
    given, lookup = [], []
    names = []
    caught = False
    for o in outs:
        calls = [e.a[0] for e in o.flat() if e.kind == "call" and fallible(e.a[0], unit)]
        failed = [e for e in o.flat() if e.kind == "implicit_raise" and fallible(e.a[1], unit)]
        has = implied(o, mk("isnone", unit)) is False and implied(o, mk("lt", mk("len", unit), const(1))) is False or implied(o, btruth(unit)) is True
        no = implied(o, mk("isnone", unit)) is True or implied(o, mk("lt", mk("len", unit), const(1))) is True or implied(o, btruth(unit)) is False
        if failed:
            e = failed[0]
            cls = e.a[0] if isinstance(e.a[0], str) else str(e.a[0].args[0]) if e.a[0].op in ("ext", "class") else show(e.a[0])
            if cls in UNDEF:
                if o.kind == "raise":
                    ctx.bad("D12.unit", GUESS, "an unknown unit makes guessing fail: %s (%s)" % (o.exc(), desc(o)), loc)
                    continue
                caught = True
            names.append(o)
        elif calls and o.kind == "return":
            lookup.append(o)
        elif no or not calls and not has:
            names.append(o)
        elif has and not calls:
            if o.kind == "return":
                ctx.bad("D12.unit", GUESS, "the unit is not looked up (%s)" % desc(o), loc)
        if o.kind == "raise" and not failed:
            ctx.bad("D12.unit", GUESS, "guessing fails: %s (%s)" % (o.exc(), desc(o)), loc)
    if not lookup:
        ctx.unk("D12.unit", GUESS, "the unit is not looked up", loc)
        return
    if not caught:
        ctx.bad("D12.unit", GUESS, "an unknown unit makes guessing fail", loc)
    else:
        ctx.holds("D12.unit", GUESS)
    for o in lookup:
        ctx.guard("D12.dimension", GUESS, _dimension, ctx, o, unit, name, loc)
    ctx.guard("D12.name", GUESS, _names, ctx, names, name, unit, loc)


def type_of_result(o, name=None, text=None):
    v = o.value
    if o.kind == "return" and name is not None:
        v = evaluate(v, name, text)
    if o.kind == "return" and v.op == "enum" and v.args[0] == PTYPE:
        return v.args[1]
    raise Unknown("result %s" % show(o.value)[:100])


def _dimension(ctx, o, unit, name, loc):
    """Averages: the dimension of the unit contains time"""
    r = None
    for a, x in o.order:
        if not fallible_in(a, unit):
            if contains(a, name):
                decide(a, name, "Emissions")
                ctx.bad("D12.dimension", GUESS, "the name decides about a series with a known unit (%s)" % desc(o), loc)
                return
            continue
        neg = a.op == "not"
        a = a.args[0] if neg else a
        x = x != neg
        if a.op == "lt" and is_num(a.args[1]) and a.args[0].op == "len":
            continue
        if a.op == "in" and a.args[0] is const("[time]") and any(y.op == "attr" and y.args[1] == "dimensionality" for y in walk(a.args[1])):
            r = x if r is None else Unknown
        elif a.op == "in" and is_str(a.args[0]) and any(y.op == "attr" and y.args[1] == "dimensionality" for y in walk(a.args[1])):
            ctx.bad("D12.dimension", GUESS, "the dimension is searched for %s (%s)" % (show(a.args[0]), desc(o)), loc)
            return
        else:
            raise Unknown("condition %s" % show(a)[:150])
    if r is None:
        ctx.bad("D12.dimension", GUESS, "the dimension of the unit does not decide (%s)" % desc(o), loc)
        return
    if r is Unknown:
        raise Unknown("several conditions")
    want = "AVERAGE_TIMESERIES" if r else "POINT_TIMESERIES"
    got = type_of_result(o)
    if got != want:
        ctx.bad("D12.dimension", GUESS, "a unit %s time gives %s (%s)" % ("with" if r else "without", got, desc(o)), loc)
    else:
        ctx.holds("D12.dimension", GUESS)


def fallible_in(a, unit):
    return any(fallible(y, unit) for y in walk(a))


def simp_items(t):
    """item k of a known tuple"""
    m = {}
    for x in walk(t):
        if x.op == "item" and x.args[0].op in ("tuple", "list") and is_num(x.args[1]) and 0 <= cval(x.args[1]) < len(x.args[0].args):
            m[x] = x.args[0].args[cval(x.args[1])]
    return _sub(t, m) if m else t


def evaluate(t, name, text):
    """An accumulation over a table for a certain name"""
    if t.op == "last" and t.args and t.args[0].op == "comp":
        raise Unknown("result %s" % show(t)[:100])
    if t.op != "fold" or t.args[2].op not in ("list", "tuple"):
        return t
    cur, lv, src = t.args[0], t.args[1], t.args[2]
    for x in src.args:
        for case in t.args[3]:
            conds, body = case[0], case[1]
            body = body[0] if isinstance(body, tuple) else body
            ok = True
            for a, v in conds:
                a = simp_items(sub(sub(a, mk("elem", src), x), lv, cur))
                if decide(a, name, text) != v:
                    ok = False
                    break
            if ok:
                cur = simp_items(sub(sub(body, mk("elem", src), x), lv, cur))
                break
        else:
            raise Unknown("result %s" % show(t)[:100])
    return cur


def _names(ctx, outs, name, unit, loc):
    """Decision list of the paths without usable unit, applied to representative names"""
    kinds = {}
    for o in outs:
        failed = any(e.kind == "implicit_raise" for e in o.flat())
        empty = implied(o, mk("lt", mk("len", unit), const(1))) is True
        kinds.setdefault("an unknown unit" if failed else "an empty unit" if empty else "no unit", []).append(o)
    for kind, os in sorted(kinds.items()):
        for want, texts in NAMES.items():
            for text in texts:
                hits = []
                for o in os:
                    ok = True
                    for a, x in o.order:
                        if not contains(a, name):
                            continue
                        if decide(a, name, text) != x:
                            ok = False
                            break
                    if ok:
                        hits.append(o)
                got = {type_of_result(o, name, text) for o in hits if o.kind == "return"}
                if len(got) != 1 or any(o.kind != "return" for o in hits):
                    raise Unknown("%s: %s" % (text, got))
                if got != {want}:
                    ctx.bad("D12.name", GUESS, "a series with %s named %r is taken as %s instead of %s" % (kind, text, got.pop(), want), loc)
                else:
                    ctx.holds("D12.name", GUESS)


# ---------------------------------------------------------------------- D11
def d11(ctx):
    ctx.guard("D11.steps", OFFS + "generate_range", _steps, ctx)
    ctx.guard("D11.rule", OFFS + "to_offset", _offset, ctx)
    ctx.guard("D11.resample", S + ".resample", _resample, ctx)


def _steps(ctx):
    Q = OFFS + "generate_range"
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    start, end, off = (param(ctx, f, i) for i in range(3))
    outs = ctx.run(Q)
    first, last = mk("mcall", off, "rollback", (start,), ()), mk("mcall", off, "rollforward", (end,), ())
    lvs = {}
    for o in outs:
        loops = list(o.it.loops.values())
        if len(loops) > 1:  # the ones of this path
            seen = [a for a, _ in o.order] + [x for e in o.events if e.kind != "loop" for x in e.a if isinstance(x, T)] + [
                x for e in o.events if e.kind == "loop" for cs, es in e.a[1] for x in [c[0] for c in cs] + [y for z in es for y in z.a if isinstance(y, T)]]
            loops = [l for l in loops if any(contains(a, lv) for a in seen for lv in l["vars"])]
        if len(loops) != 1 or len(loops[0]["vars"]) != 1:
            raise Unknown("%d loops" % len(loops))
        (lv, (init, steps)), = loops[0]["vars"].items()
        key = (lv, init, tuple((tuple(c), n) for c, n in steps))
        cases = lvs.setdefault(key, [])
        outside = []
        part = None
        for e in o.events:
            if e.kind == "iteration":
                part = []
            elif e.kind == "loop":
                for conds, evs in e.a[1]:
                    cases.append((dict(conds), [x.a[0] for x in evs if x.kind == "yield"], "next" if not any(c[1] and c[0] == mk("lt", last, lv) for c in conds) else "stop", o))
            elif e.kind == "yield":
                (outside if part is None else part).append(e.a[0])
        if part is not None:
            cases.append((dict(o.order), part, "raise" if o.kind == "raise" else "stop", o))
        if outside or o.kind == "raise" and part is None:
            raise Unknown("outside of the loop: %s" % desc(o))
    for (lv, init, steps), cases in lvs.items():
        _one_range(ctx, Q, loc, lv, init, steps, cases, first, last, start, end, off)


def _one_range(ctx, Q, loc, lv, init, steps, cases, first, last, start, end, off):
    rule = "D11.steps"
    if init != first:
        if contains(init, first) or contains(init, mk("mcall", off, "rollforward", (start,), ())) or init == start:
            ctx.bad(rule, Q, "the first point is %s instead of the start rolled back" % show(init)[:120], loc)
        else:
            raise Unknown("first point %s" % show(init)[:120])
    else:
        ctx.holds(rule, Q)
    nexts = (mk("mcall", off, "apply", (lv,), ()), mk("+", lv, off), mk("+", off, lv))
    for conds, n in steps:
        if n not in nexts:
            if understood(n, nexts + (first, last)):
                ctx.bad(rule, Q, "the next point is %s" % show(n)[:150], loc)
            else:
                raise Unknown("next point %s" % show(n)[:120])
        else:
            ctx.holds(rule, Q)
        fwd = [dict(conds).get(mk("lt", lv, x)) for x in nexts] + [not v if v is not None else None for v in (dict(conds).get(mk("not", mk("lt", lv, x))) for x in nexts)]
        if True in fwd:
            ctx.holds("D11.increasing", Q)
        elif any(contains(a, x) for a, _ in conds for x in nexts) and not any(dict(conds).get(mk("lt", x, lv)) is False for x in nexts):
            raise Unknown("condition %s" % [show(a)[:80] for a, _ in conds])
        else:
            ctx.bad("D11.increasing", Q, "a rule which does not move forward is not rejected", loc)
    past = mk("lt", last, lv)
    rejected = False
    for conds, ys, how, o in cases:
        p = conds.get(past)
        if p is None:
            ends = [a for a in conds if contains(a, lv) and not any(contains(a, x) for x in nexts)]
            if len(ends) == 1 and ends[0].op in ("lt", "eq") and all(not x.op == "lv" for y in ends[0].args if y is not lv for x in walk(y)):
                ctx.bad("D11.last", Q, "the points end by %s instead of the first point after the end rolled forward" % show(ends[0])[:150], loc)
                continue
            raise Unknown("end of the range: %s" % [show(a)[:80] for a in conds])
        if p:
            if ys or how == "raise":
                ctx.bad("D11.last", Q, "a point after the end is given or rejected", loc)
            else:
                ctx.holds("D11.last", Q)
            continue
        if how == "stop":
            ctx.bad("D11.last", Q, "the range stops before the end", loc)
        elif ys != [lv]:
            if ys and all(y in nexts or y is lv for y in ys) or not ys and how == "next":
                ctx.bad("D11.last", Q, "a step gives %s" % ([show(y)[:80] for y in ys] or "no point"), loc)
            elif how == "next":
                raise Unknown("a step gives %s" % [show(y)[:80] for y in ys])
        else:
            ctx.holds("D11.last", Q)
        if how == "raise":
            rejected = True
            if any(conds.get(mk("lt", lv, x)) is False or conds.get(mk("not", mk("lt", lv, x))) is True for x in nexts):
                if o.exc() != "builtins.ValueError":
                    ctx.bad("D11.increasing", Q, "a rule which does not move forward raises %s" % o.exc(), loc)
                else:
                    ctx.holds("D11.increasing", Q)
            else:
                ctx.bad("D11.increasing", Q, "a rule is rejected although it moves forward (%s)" % desc(o), loc)
    if not rejected:
        ctx.bad("D11.increasing", Q, "a rule which does not move forward is not rejected", loc)


def offsets_name(t, names):
    return t.op == "call" and call_name(t) and call_name(t).rsplit(".", 1)[-1] in names


def plain(t):
    """Without the conversions which keep the date"""
    while True:
        if offsets_name(t, ("as_datetime", "normalize_date", "localize_pydatetime")) and t.args[1]:
            t = t.args[1][0]
        elif t.op in ("call", "mcall") and method(t) and method(t)[1] == "to_pydatetime" and not method(t)[2]:
            t = method(t)[0]
        else:
            return t


def moved(t, off, dt):
    """(number of steps, offset of one step, how) by which a date is moved; None: not at all"""
    t = plain(t)
    if t is dt:
        return (0, None, None)
    if t.op == "+" and len(t.args) == 2:
        a, b = t.args
        for a, b in ((a, b), (b, a)):
            if plain(a) is dt:
                m = method(b)
                if m and m[1] == "to_pytimedelta" and m[0].op == "attr" and m[0].args[1] == "delta":
                    return step(m[0].args[0], off) + ("delta",)
                if b.op == "attr" and b.args[1] == "delta":
                    return step(b.args[0], off) + ("delta",)
                if b.op in ("call", "mcall") or b is off:
                    return step(b, off) + ("own",)
        raise Unknown("date %s" % show(t)[:150])
    if t.op == "-" and plain(t.args[0]) is dt:
        n, s = step(t.args[1], off)
        return (-n, s, "own")
    m = method(t)
    if m and m[1] == "__wrapped__" and m[0].op == "attr" and m[0].args[1] == "apply" and len(m[2]) == 2 and m[0].args[0] is m[2][0] and plain(m[2][1]) is dt:
        return step(m[2][0], off) + ("wrapped",)
    if m and m[1] == "apply" and len(m[2]) == 1 and plain(m[2][0]) is dt:
        return step(m[0], off) + ("own",)
    if m and m[0] is off and m[1] in ("rollforward", "rollback", "_rollforward", "_rollback") and len(m[2]) == 1:
        return (m[1], off, "own")
    raise Unknown("date %s" % show(t)[:150])


def step(s, off):
    """(n, term of the offset) of an offset of the same rule"""
    if s is off:
        return ("n", s)
    if s.op in ("neg", "usub") or s.op == "*" and is_num(s.args[0]):
        n, x = step(s.args[-1], off)
        return (-n if s.op != "*" else cval(s.args[0]) * n), s
    m = method(s)
    cls = m and m[0] is off and m[1] == "__class__"
    pos, kw = (m[2], m[3]) if cls else (None, None)
    if not cls and s.op == "call" and s.args[0].op == "call" and call_name(s.args[0]) == "builtins.type" and s.args[0].args[1] == (off,):
        pos, kw = s.args[1], s.args[2]
    if pos is None:
        raise Unknown("offset %s" % show(s)[:150])
    kw = dict(kw)
    n = pos[0] if pos else kw.get("n", const(1))
    if not is_num(n):
        if n == mk("attr", off, "n"):
            return ("n", s)
        if n == mk("neg", mk("attr", off, "n")) or n == mk("*", const(-1), mk("attr", off, "n")):
            return ("-n", s)
        raise Unknown("offset %s" % show(s)[:150])
    if kw.get("**") != mk("attr", off, "kwds"):
        raise Wrong("the step of the rule is made without its settings, like the month of AS-JUL (%s)" % show(s)[:100])
    z = kw.get("normalize")
    if z is not None and z != mk("attr", off, "normalize"):
        raise Unknown("offset %s" % show(s)[:150])
    return (cval(n), s)


def _offset(ctx):
    Q = OFFS + "to_offset"
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    rule = param(ctx, f, 0)
    outs = ctx.run(Q, opaque=core, volatile=VOL)
    ok = False
    for o in outs:
        parsed = [e.a[0] for e in o.flat() if e.kind == "call" and offsets_name(e.a[0], ("to_offset",)) and e.a[0].args[1] == (rule,)]
        off = parsed[0] if parsed else None
        if off is None:
            raise Unknown("the rule is not parsed by pandas")
        business = None
        known = 0
        for a, x in o.order:
            if a.op == "isinst" and a.args[0] is off and str(a.args[1]).endswith("BusinessMixin"):
                business = x or business
                known += 1
            else:
                m = method(a.args[0]) if a.op == "truth" else None
                if m and m[1] == "startswith" and m[0] == mk("attr", off, "rule_code") and m[2] == (const("B"),):
                    business = x or business
                    known += 1
        if o.kind == "raise":
            if not business:
                if any(contains(a, off) for a, _ in o.order[known:]):
                    raise Unknown("rejected rules: %s" % desc(o))
                ctx.bad("D11.business", Q, "rules are rejected which are not about business days (%s)" % desc(o), loc)
            elif o.exc() != "builtins.ValueError":
                ctx.bad("D11.business", Q, "rules about business days raise %s" % o.exc(), loc)
            else:
                ctx.holds("D11.business", Q)
            continue
        if business or known < 2:
            if known < 2 and not business and any(
                    a.op in ("isinst", "truth", "eq", "in") and contains(a, off) and not contains(a, mk("attr", off, "apply")) and not str(a.args[1:]).endswith(("Tick',)", "Nano',)", "BusinessMixin',)"))
                    and not (method(a.args[0]) or (0, 0))[1] == "startswith" for a, _ in o.order):
                raise Unknown("rejected rules: %s" % desc(o))
            ctx.bad("D11.business", Q, "rules about business days are not rejected (%s)" % desc(o), loc)
            continue
        if plain(o.value) is not off:
            raise Unknown("result %s" % show(o.value)[:100])
        ctx.holds("D11.business", Q)
        ok = True
        ctx.guard("D11.rule", Q, _methods, ctx, o, off, loc, Q)
    if not ok:
        ctx.bad("D11.rule", Q, "all rules are rejected", loc)


def fact(facts, off, kind, name=None):
    """Value of hasattr(off.apply, "__wrapped__") or isinstance(off, name)"""
    for a, x in facts:
        if kind == "wrapped" and a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) == "builtins.hasattr" and a.args[0].args[1] == (mk("attr", off, "apply"), const("__wrapped__")):
            return x
        if kind == "isinst" and a.op == "isinst" and a.args[0] is off and str(a.args[1]).rsplit(".", 1)[-1] == name:
            return x
    return None


def needs(facts, off):
    """Does pandas' own function of this offset only work for its own timestamps?"""
    w = fact(facts, off, "wrapped")
    if w is None or w:
        return True
    return fact(facts, off, "isinst", "Tick") is not False and fact(facts, off, "isinst", "Nano") is not True


def _methods(ctx, o, off, loc, Q):
    set_ = {}
    for e in o.flat():
        if e.kind == "setattr" and e.a[0] is off:
            set_[e.a[1]] = e.a[2]
    dt = mk("sym", "dt", ("any",))
    for name, n in (("apply", "n"), ("rollforward", 1), ("rollback", -1)):
        if name not in set_:
            if name != "apply" or needs(o.order, off):
                ctx.bad("D11." + name, Q, "%s of the rule is pandas' own, which is limited to the range of its timestamps (%s)" % (name, desc(o)[:300]), loc)
            else:
                ctx.holds("D11." + name, Q)
            continue
        s = o.it.fork(o.st)
        k = len(s.order)
        for s2, v in o.it.call(s, set_[name], [dt], {}, [], None):
            facts = s2.order[k:]
            if v is None:
                ctx.bad("D11." + name, Q, "%s fails" % name, loc)
                continue
            v = o.it.freeze(s2, v)
            if any(a.op == "truth" and x and a.args[0].op == "call" and call_name(a.args[0]) in ("pandas.isnull", "pandas.isna") for a, x in facts):
                continue
            # which offsets are made
            on = None
            for a, x in facts:
                m = method(a.args[0]) if a.op == "truth" else None
                if m and m[0] is off and m[1] in ("onOffset", "is_on_offset") and len(m[2]) == 1 and plain(m[2][0]) is dt:
                    on = x
            try:
                got, st, how = moved(v, off, dt)
            except Wrong as e:
                ctx.bad("D11." + name, Q, "%s: %s" % (name, e), loc)
                continue
            want = n if name == "apply" else 0 if on else n
            if name != "apply" and on is None:
                if got == name:
                    ctx.bad("D11." + name, Q, "%s is pandas' own, which is limited to the range of its timestamps" % name, loc)
                    continue
                ctx.bad("D11." + name, Q, "%s does not check whether the date is on the rule" % name, loc)
                continue
            if got != want:
                ctx.bad("D11." + name, Q, "%s moves a date %s by %s instead of %s steps" % (name, "on the rule" if on else "", got, want), loc)
                continue
            if how == "own" and needs(list(o.order) + list(facts), st):
                ctx.bad("D11." + name, Q, "%s uses the offset's own arithmetic, which is limited to the range of pandas' timestamps (%s)" % (name, show(plain(v))[:120]), loc)
            elif how == "delta" and not fact(list(o.order) + list(facts), st, "isinst", "Tick"):
                raise Unknown("step %s" % show(v)[:120])
            else:
                ctx.holds("D11." + name, Q)


def _resample(ctx):
    Q = S + ".resample"
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    me = self_of(Q.rsplit(".", 1)[0])
    rule, kwargs = param(ctx, f, 1), None
    outs = ctx.run(Q, opaque=lambda q: core(q) or q.startswith(OFFS) or q.endswith(".interpolate"), volatile=VOL)
    for o in outs:
        if o.kind == "raise":
            fails(ctx, "D11.resample", Q, o, "resampling fails", loc)
            continue
        v = o.value
        if v.op != "rcall" or not v.args[0].endswith(".interpolate"):
            raise Unknown("result %s" % show(v)[:120])
        pos, kw = list(v.args[1]), dict(v.args[2])
        target = pos[1] if len(pos) > 1 else kw.get("target_times")
        if pos[0] is not me or target is None:
            raise Unknown("interpolation %s" % show(v)[:120])
        star = kw.get("**")
        if star is None or star.op != "sym":
            ctx.bad("D11.resample", Q, "the options of the interpolation are not passed on (%s)" % show(v)[:150], loc)
        else:
            ctx.holds("D11.resample", Q)
        while target.op == "call" and call_name(target) in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and len(target.args[1]) == 1 or target.op in ("list", "comp") and len(target.args) == 1:
            target = target.args[1][0] if target.op == "call" else target.args[0]
            if target.op == "spread":
                target = target.args[0]
        if target.op != "rcall" or target.args[0] != OFFS + "generate_range":
            raise Unknown("times %s" % show(target)[:150])
        args = list(target.args[1]) + [x for _, x in target.args[2]]
        if len(args) != 3:
            raise Unknown("times %s" % show(target)[:150])
        want = mk("rcall", OFFS + "to_offset", (rule,), ())
        if args[2] != want:
            if args[2].op == "rcall" and args[2].args[0] == OFFS + "to_offset":
                ctx.bad("D11.resample", Q, "the rule is %s" % show(args[2])[:120], loc)
            else:
                raise Unknown("rule %s" % show(args[2])[:150])
        ends = [end_of(a, me) for a in args[:2]]
        if ends != ["first", "last"]:
            ctx.bad("D11.resample", Q, "the range goes from the %s to the %s time" % tuple(ends), loc)
        else:
            ctx.holds("D11.resample", Q)


def end_of(t, me):
    """Which time of the time axis"""
    t = plain(t)
    src = mk("attr", me, "_time_points")
    if not contains(t, src):
        raise Unknown("time %s" % show(t)[:150])
    if t.op == "item" and is_num(t.args[1]) and cval(t.args[1]) in (0, -1):
        return "first" if cval(t.args[1]) == 0 else "last"
    if t.op == "item" and is_num(t.args[1]) and is_const(t.args[1]):
        return "%d." % cval(t.args[1])
    n = call_name(t) if t.op == "call" else None
    m = method(t)
    n = m[1] if m and not m[2] else n.rsplit(".", 1)[-1] if n else None
    if n in ("min", "max"):
        return "first" if n == "min" else "last"
    raise Unknown("time %s" % show(t)[:150])


RULES = {
    "D11": {"rules": [d11], "explain": "Loop of generate_range (first point, step, end, progress), the methods which to_offset replaces, evaluated on a symbolic date, and the call resample makes."},
    "D12": {"rules": [d12], "explain": "The decision list extracted from the guessing function: which conditions on dimension and name lead to which type; the patterns of the table are applied to representative names of every kind."},
}
