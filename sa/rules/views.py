"""Rules about views of parameters (C02-C09)"""
from ..check import Unknown, changes, implied, table
from .util import *

PARAM = "openscm.core.parameters._Parameter"
PINFO = "openscm.core.parameters.ParameterInfo"
PTYPE = "openscm.core.parameters.ParameterType"
PSET = "openscm.core.parameterset.ParameterSet"
V = "openscm.core.views."
SCALAR, SERIES, GENERIC, TS = V + "ScalarView", V + "TimeseriesView", V + "GenericView", V + "_Timeseries"
UC = "openscm.core.units.UnitConverter"
TC = "openscm.core.time.TimeseriesConverter"
ERR = "openscm.errors."


def conv_opaque(q):
    return q in (UC + ".convert_from", UC + ".convert_to", TC + ".convert_from", TC + ".convert_to", UC + ".__init__", TC + ".__init__")


def conv_only(q):
    return q in (UC + ".convert_from", UC + ".convert_to", TC + ".convert_from", TC + ".convert_to")


def view_opaque(q):
    return q in (SCALAR, SERIES, GENERIC)


# looking up and creating regions and parameters (helpers made from other functions are followed)
LOOKUPS = frozenset([PSET + n for n in ("._get_or_create_region", "._get_region", "._get_or_create_parameter")]
                    + ["openscm.core.regions._Region.get_" + n for n in ("or_create_subregion", "subregion", "or_create_parameter", "parameter")]
                    + [PARAM + ".get_" + n for n in ("or_create_child_parameter", "subparameter")])


def access_opaque(q):
    return view_opaque(q) or q == PARAM + ".attempt_read" or q in LOOKUPS


def ptype(name):
    return mk("enum", PTYPE, name)


# ---------------------------------------------------------------------- C02
def access(ctx):
    rule = "C02.access"
    f = ctx.p.need_function(PARAM + ".attempt_read")
    outs = ctx.run(f.qualname)
    me = self_of(PARAM)
    pt, unit, tp = param(ctx, f, 1), param(ctx, f, 2), param(ctx, f, 3)
    it = outs[0].it
    eq = lambda x: it.eqatom(pt, x)
    kids = attr(me, "children")
    atoms = {"untyped": mk("isnone", attr(me, "parameter_type")), "same": eq(attr(me, "parameter_type")), "children": nonempty(kids),
             "scalar": eq(ptype("SCALAR")), "generic": eq(ptype("GENERIC")), "average": eq(ptype("AVERAGE_TIMESERIES"))}

    def expect(case, o):
        if sum((case["scalar"], case["generic"], case["average"])) > 1:
            return None
        ch = changes(o, me)
        if not case["untyped"] and not case["same"]:
            r = raises(o, ERR + "ParameterTypeError")
            return r or (True if not ch else "an access with a wrong type changes the parameter")
        if case["children"] and case["generic"]:
            r = raises(o, ERR + "ParameterAggregationError")
            return r or (True if not ch else "a rejected generic access changes the parameter")
        if o.kind == "raise":
            return "a valid access is rejected"
        if not case["untyped"]:
            bad = set(ch) & {"unit", "parameter_type", "time_points", "data", "version"}
            return "a later access changes %s" % ", ".join(sorted(bad)) if bad else True
        if ch.get("parameter_type") is not pt:
            return "the first access does not fix the type"
        if ch.get("unit") is not unit and not (case["generic"] and "unit" not in ch):
            return "the first access does not fix the unit"
        if not (case["scalar"] or case["generic"]):
            t = ch.get("time_points")
            if t is None:
                return "the first access does not fix the time points"
            if t is tp:
                return "the caller's time points are kept without copying them"
            if strip_copy(t) is not tp:
                raise Unknown("time points %s" % show(t))
            if not_fresh(t):
                return "the caller's time points are kept without copying them"
        return True

    table(ctx, rule, f.qualname, outs, atoms, expect, ctx.loc(f))


def descendants_checked(ctx):
    """An aggregated access is an access to all descendants (in the same type)"""
    rule = "C02.descendants"
    f = ctx.p.need_function(PARAM + ".attempt_read")
    outs = ctx.run(f.qualname)
    me = self_of(PARAM)
    pt = param(ctx, f, 1)
    kids = attr(me, "children")

    def expect(case, o):
        if not case["children"] or o.kind == "raise":
            return None
        calls = [c for c in rcalls(o, PARAM + ".attempt_read") if c.args[1][0] is mk("val", kids)]
        if not calls:
            if any(x.op in ("val", "elem") and contains(x, kids) for e in o.flat() for x in walk(tuple(y for y in e.a if isinstance(y, (T, tuple))))):
                raise Unknown("children are treated in another way")
            return "children are not told that they are read as part of an aggregated parameter"
        if any(c.args[1][1] is not pt for c in calls):
            return "children are accessed with another type"
        first = [i for i, e in enumerate(o.events) if e.kind == "setattr" and e.a[0] is me]
        loops = [i for i, e in enumerate(o.events) if e.kind == "loop"]
        if first and loops and min(first) < min(loops):
            return "the parameter is changed before its children have been checked"
        return True

    table(ctx, rule, f.qualname, outs, {"children": nonempty(kids)}, expect, ctx.loc(f))


def fresh_call(t):
    n = call_name(t)
    if n == "numpy.array":
        kw = dict(t.args[2])
        return kw.get("copy", TRUE) is TRUE
    if n in ("numpy.copy", "copy.copy", "copy.deepcopy", "numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones"):
        return True
    if t.op == "mcall" and t.args[1] == "copy" or t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "copy":
        return True
    return t.op in ("+", "-", "*", "/", "deepcopy")


def not_fresh(t):
    """Is an array certainly not a copy?"""
    while True:
        if fresh_call(t):
            return False
        n = call_name(t)
        if n in ("numpy.asarray", "numpy.array", "typing.cast") and t.args[1]:
            t = t.args[1][-1 if n == "typing.cast" else 0]
            continue
        if t.op in ("sym", "attr", "item", "dget"):
            return True
        return None


ACCESS = [("scalar", SCALAR, "SCALAR"), ("generic", GENERIC, "GENERIC"), ("timeseries", SERIES, None)]


def accessors(ctx):
    """Views are only handed out after the access has been checked and recorded"""
    for name, view, want in ACCESS:
        ctx.guard("C02.accessors", PSET + "." + name, _accessor, ctx, name, view, want)


def _accessor(ctx, name, view, want):
    rule = "C02.accessors"
    f = ctx.p.need_function(PSET + "." + name)
    outs = ctx.run(f.qualname, opaque=access_opaque)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        if o.value.op != "rnew" or o.value.args[0] != view:
            ctx.unk(rule, f.qualname, "returns %s" % show(o.value), ctx.loc(f))
            continue
        a = ctor_args(ctx, o.value)
        calls = rcalls(o, PARAM + ".attempt_read")
        mine = [c for c in calls if c.args[1][0] is a[0]]
        if not mine:
            if rcalls(o) and not calls and any(c.args[0].rsplit(".", 1)[-1] not in ("_get_or_create_parameter", "_get_or_create_region") for c in rcalls(o)):
                ctx.unk(rule, f.qualname, "unknown access", ctx.loc(f))
                continue
            ctx.bad(rule, f.qualname, "a view is handed out without telling the parameter that it is read: " + desc(o), ctx.loc(f))
            continue
        got = mine[-1].args[1]
        wantt = ptype(want) if want else None
        if want is None:
            wantt = a[3]
        if got[1] is not wantt:
            ctx.bad(rule, f.qualname, "the parameter is accessed as %s, the view is of type %s" % (show(got[1]), show(wantt)), ctx.loc(f))
            continue
        if name != "generic":
            u = named_param(ctx, f, "unit")
            if got[2] is not u or a[1] is not u:
                ctx.bad(rule, f.qualname, "the requested unit is not used for parameter and view: " + desc(o), ctx.loc(f))
                continue
        if name == "timeseries":
            tp = named_param(ctx, f, "time_points")
            if got[3] is not tp and strip_copy(got[3]) is not tp or strip_copy(a[2]) is not tp:
                ctx.bad(rule, f.qualname, "the requested time points are not used for parameter and view: " + desc(o), ctx.loc(f))
                continue
            if contains(a[3], lambda x: x.op == "sym" and x.args[0] == "interpolation") or contains(a[4], lambda x: x.op == "sym" and x.args[0] == "extrapolation"):
                ctx.bad(rule, f.qualname, "interpolation options are mixed up", ctx.loc(f))
                continue
            if not ok_option(a[4], "interpolation") or not ok_option(a[5], "extrapolation"):
                ctx.unk(rule, f.qualname, "interpolation options", ctx.loc(f))
                continue
        ctx.holds(rule, f.qualname)
    if not n:
        ctx.unk(rule, f.qualname, "no path returns a view")


def ok_option(t, name):
    return contains(t, lambda x: x.op == "sym" and x.args[0] == name)


# ---------------------------------------------------------------------- C03
def empty_reads(ctx):
    for q in (SCALAR + ".value", GENERIC + ".value", SERIES + ".values"):
        ctx.guard("C03.reads", q, _empty_read, ctx, q)


def _empty_read(ctx, q):
    rule = "C03.reads"
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    me = self_of(f.cls.qualname)
    par = attr(me, "_parameter")
    kids, written = nonempty(attr(par, "children")), btruth(attr(par, "has_been_written_to"))
    atoms = {"written": written}
    if q != GENERIC + ".value":
        atoms["children"] = kids
    if q == SERIES + ".values":
        it = outs[0].it
        atoms["cached"] = mk("and", mk("not", mk("isnone", attr(me, "_data"))), it.eqatom(attr(par, "version"), attr(me, "_version")))

    def expect(case, o):
        if case.get("children"):
            return None
        if not case["written"] and not case.get("cached"):
            if o.kind == "return" and case.get("cached") is None and "cached" in case:
                raise Unknown("cache")
            if o.kind == "return" and implied(o, btruth(attr(me, "_pending"))) is not False and q == SERIES + ".values" and \
                    implied(o, mk("isnone", attr(me, "_data"))) is False:
                return None  # pending values of this view
            r = raises(o, ERR + "ParameterEmptyError")
            return r or True
        if case["written"]:
            return True if o.kind == "return" else "reading a written parameter fails with %s" % o.exc()
        return None

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))
    # data never reaches a result without the check
    for o in outs:
        if o.kind != "return":
            continue
        vals = [o.value] + [e.a[2] for e in o.events if e.kind == "setattr"]
        if any(contains(v, attr(par, "data")) for v in vals):
            r = implied(o, written)
            if r is True:
                ctx.holds(rule + ".data", q)
            elif r is False or not any("has_been_written_to" in fields_of_atom(a) or "version" in fields_of_atom(a) for a, _ in o.order):
                ctx.bad(rule + ".data", q, "data of a parameter which has not been written to is returned: " + desc(o), ctx.loc(f))
            else:
                ctx.unk(rule + ".data", q, desc(o))
        for x in walk(o.value):
            if x.op == "attr" and x.args[1] == "data" and x.args[0] is not par:
                ctx.bad(rule + ".data", q, "data of another parameter is returned without check: " + show(o.value), ctx.loc(f))


def aggregated_empty_reads(ctx):
    """Aggregates are read through the checking getters of all children"""
    rule = "C03.children"
    for q, cls in ((SCALAR + ".value", SCALAR), (SERIES + ".values", SERIES)):
        ctx.guard(rule, q, _aggregated_empty_read, ctx, rule, q, cls)


def _aggregated_empty_read(ctx, rule, q, cls):
    f = ctx.p.need_function(q)
    me = self_of(cls)
    kids = nonempty(attr(me, "_parameter", "children"))
    views = attr(me, "_child_data_views")
    state = {"empty", "has_been_written_to", "data", "version"}

    def check(t):
        sums = [x for x in walk(t) if x.op == "sum"]
        for x in walk(t):
            if x.op == "attr" and x.args[1] in ("data", "_data") and contains(x.args[0], lambda y: y.op in ("elem", "each") and y.args[0] is views):
                return "children are read without the check whether they have been written to: " + show(x)
        if not sums:
            raise Unknown("aggregate %s" % show(t))
        for x in sums:
            for its, conds, v in flat_gens(x.args[0]):
                for c, _ in conds:
                    if any(y.op == "attr" and y.args[1] in state for y in walk(c)):
                        return "children which have not been written to are left out: %s" % show(c)
                if v.op != "rcall" or v.args[0] != q:
                    raise Unknown("summand %s" % show(v))
        return True

    for o in ctx.run(q, opaque=conv_opaque):
        if o.kind != "return" or implied(o, kids) is not True:
            continue
        vals = [o.value] if cls == SCALAR else [e.a[2] for e in stores(o, me, "_data")] + \
            [e.a[0].args[1][1] for e in o.events if e.kind == "call" and call_name(e.a[0]) == "numpy.copyto"]
        for v in vals:
            try:
                r = check(v)
            except Unknown as e:
                ctx.unk(rule, q, str(e))
                continue
            if r is True:
                ctx.holds(rule, q)
            else:
                ctx.bad(rule, q, r, ctx.loc(f))


def emptiness(ctx):
    rule = "C03.empty"
    f = ctx.p.need_function(PINFO + ".empty")
    me = self_of(PINFO)
    w = btruth(attr(me, "_parameter", "has_been_written_to"))
    outs = ctx.run(f.qualname)

    def expect(case, o):
        if o.kind != "return":
            return "asking whether a parameter is empty fails"
        if is_const(o.value):
            return True if bool(o.value.args[1]) == (not case["written"]) else "empty is %s" % show(o.value)
        want = mk("not", attr(me, "_parameter", "has_been_written_to")), mk("not", w)
        if o.value in want:
            return True
        if o.value in (w, attr(me, "_parameter", "has_been_written_to")):
            return "empty is true for written parameters"
        return judge(o.value, list(want), "empty")

    table(ctx, rule, f.qualname, outs, {"written": w}, expect, ctx.loc(f))
    f = ctx.p.need_function(PINFO + ".ensure")
    outs = ctx.run(f.qualname)

    def expect2(case, o):
        if case["written"]:
            return True if o.kind == "return" else "requiring a written parameter fails"
        return raises(o, ERR + "ParameterEmptyError") or True

    table(ctx, rule, f.qualname, outs, {"written": w}, expect2, ctx.loc(f))


ITEM_READS = ["__getitem__", "__iter__", "__repr__", "__array__", "__array_ufunc__"]


def rw_opaque(q):
    return q in (SERIES + "._read", SERIES + "._write")


def held_values(ctx, rule="C03.held"):
    """Operations of a values object obtained earlier go through the view"""
    ctx.p.need_function(SERIES + "._read")
    for m in ITEM_READS:
        ctx.guard(rule, TS + "." + m, _held, ctx, rule, m)
    ctx.guard(rule, TS + ".arithmetic", _arith, ctx, rule)


def f_of(ctx, q):
    return ctx.p.need_function(q)


def _outputs(ctx, rule, q, f, o):
    """Results which are written to a timeseries are published through its view"""
    given = [(a, v) for a, v in o.order if a.op in ("truth", "isnone", "exists", "in") and contains(a.args, const("out"))
             and not contains(a.args, param(ctx, f, 1))]
    if not given or any((a.op == "isnone") is v for a, v in given):
        return  # no outputs
    writes = [x for e in o.events for x in ([e] if e.kind == "rcall" else
              [y for _, evs in e.a[1] for y in evs if y.kind == "rcall"] if e.kind == "loop" else [])
              if x.a[0].args[0] == SERIES + "._write"]
    if writes:
        return ctx.holds(rule + ".out", q)
    if any(implied(o, a) is True for a, _ in o.order if contains(a, const(NotImplemented)) or "NotImplemented" in show(a)):
        return ctx.holds(rule + ".out", q)
    others = [e for e in o.flat() if e.kind in ("rcall", "mutcall")]
    if any(e.kind == "rcall" and not e.a[0].args[0].endswith("._read") for e in others):
        return ctx.unk(rule + ".out", q, desc(o))
    ctx.bad(rule + ".out", q, "results which are written to a timeseries are not published: " + desc(o), ctx.loc(q))


def refreshed(o, view):
    return any(c.args[1][0] is view for c in rcalls(o, SERIES + "._read"))


def _held(ctx, rule, m):
    q = TS + "." + m
    if q not in ctx.p.functions:
        ctx.unk(rule, q, "does not exist")
        return
    outs = ctx.run(q, opaque=rw_opaque)
    me = self_of(TS)
    buf, view = attr(me, "_ndarray"), attr(me, "_parameter_view")
    for o in outs:
        if o.kind != "return":
            continue
        uses = contains(o.value, buf) or any(contains(tuple(x for x in e.a if isinstance(x, (T, tuple))), buf) for e in o.flat() if e.kind in ("yield", "loop", "call"))
        if m == "__array_ufunc__":
            if rule.startswith("C05"):
                _outputs(ctx, rule, q, f_of(ctx, q), o)
            # all inputs of the same kind are refreshed
            ok = False
            for e in o.events:
                if e.kind == "loop" and e.a[0] is not None:
                    for conds, evs in e.a[1]:
                        for x in evs:
                            if x.kind == "rcall" and x.a[0].args[0] == SERIES + "._read":
                                ok = True
            if ok:
                ctx.holds(rule, q)
            elif refreshed(o, view):
                ctx.unk(rule, q, "only the object itself is read again")
            elif rcalls(o, SERIES + "._read"):
                ctx.unk(rule, q, "refreshed in another way")
            else:
                ctx.bad(rule, q, "operands are used without reading the current data: " + desc(o), ctx.loc(q))
            continue
        if not uses and o.value.op != "new":
            continue
        if refreshed(o, view):
            ctx.holds(rule, q)
        elif rcalls(o):
            ctx.unk(rule, q, "refreshed in another way")
        else:
            ctx.bad(rule, q, "values are used without reading the current data: " + desc(o), ctx.loc(q))


def _arith(ctx, rule):
    q = TS + "._create_arithmetic_method"
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=rw_opaque)
    for o in outs:
        if o.kind != "return" or o.value.op != "func":
            raise Unknown("arithmetic methods")
        me, other = self_of(TS), mk("sym", "other", ("any",))
        for x in again(o, o.value.args[0], [me, other]):
            if x.kind != "return":
                continue
            if contains(x.value, attr(me, "_ndarray")) and not refreshed(x, attr(me, "_parameter_view")):
                ctx.bad(rule, q, "arithmetic uses values without reading the current data: " + desc(x), ctx.loc(f))
            elif contains(x.value, attr(other, "_ndarray")) and not refreshed(x, attr(other, "_parameter_view")):
                ctx.bad(rule, q, "arithmetic uses values of the other operand without reading the current data: " + desc(x), ctx.loc(f))
            else:
                ctx.holds(rule, q)


# ---------------------------------------------------------------------- C04
def child_views(ctx):
    for view in (SCALAR, SERIES):
        ctx.guard("C04.children", view + ".__init__", _child_views, ctx, view)


def _child_views(ctx, view):
    rule = "C04.children"
    q = view + ".__init__"
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=view_opaque)
    me = self_of(view)
    par = param(ctx, f, 1)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        has = implied(o, nonempty(attr(par, "children")))
        st = stores(o, me, "_child_data_views")
        if has is False:
            continue
        if not st:
            if has is True:
                ctx.bad(rule, q, "no views of the children are created: " + desc(o), ctx.loc(f))
            else:
                ctx.unk(rule, q, desc(o))
            continue
        n += 1
        gens = flat_gens(st[-1].a[2])
        verdict = _collects(ctx, view, f, o, par, gens, me, set())
        if verdict is True:
            ctx.holds(rule, q)
        else:
            ctx.bad(rule, q, verdict, ctx.loc(f))
    if not n:
        ctx.unk(rule, q, "no path creates views of children")


def _collects(ctx, view, f, o, par, gens, me, seen):
    """Do the elements stand for all leaves below `par`?"""
    kids = attr(par, "children")
    for its, conds, v in gens:
        if conds:
            if all(c_is_about_kids(c, kids) for c, b in conds):
                return "only some of the children are read (%s)" % show(mk("x", *[c for c, b in conds]))
            raise Unknown("conditions on children")
    if not gens:
        return "no child is read"
    if len(gens) != 1:
        # more than one source: leaves read twice or direct and indirect
        raise Unknown("%d sources" % len(gens))
    its, conds, v = gens[0]
    kid = mk("val", kids)
    if not iterates(its[0], kids):
        if strip_iter(its[0]) is not None and contains(its[0], kids):
            return "not all children are read: %s" % show(its[0])
        raise Unknown("iteration over %s" % show(its[0]))
    if len(its) == 1:
        if v.op == "rnew":
            return "only direct children are read, not their descendants"
        raise Unknown(show(v))
    g = its[1]
    if g.op != "rcall" or len(its) != 2 or v is not mk("elem", g):
        raise Unknown(show(g))
    if len(g.args[1]) < 1 or g.args[1][-1] is not kid and g.args[1][0] is not kid:
        return "descendants of something else are read: %s" % show(g)
    name = g.args[0]
    if name in seen:
        return True
    P = mk("sym", "$p", ("cls", PARAM))
    if "<locals>" in name:
        sub_o = again(o, name, [P] + list(g.args[1][1:]))
    else:
        raise Unknown("recursion through %s" % name)
    for x in sub_o:
        if x.kind != "return":
            return "collecting views fails with %s" % x.exc()
        has = implied(x, nonempty(attr(P, "children")))
        gg = flat_gens(x.value)
        if has is True:
            r = _collects(ctx, view, f, x, P, gg, me, seen | {name})
            if r is not True:
                return r
        elif has is False:
            r = _leaf(ctx, view, f, o, P, gg, me)
            if r is not True:
                return r
        else:
            raise Unknown("recursion")
    return True


def c_is_about_kids(c, kids):
    return contains(c, mk("val", kids)) or contains(c, mk("key", kids))


def strip_iter(t):
    if t.op == "item" or t.op == "slice" or call_name(t) in ("itertools.islice", "builtins.list"):
        return t
    return None


def _leaf(ctx, view, f, o, P, gens, me):
    if len(gens) != 1 or gens[0][0]:
        return "a leaf is read %d times" % len(gens) if all(not g[0] for g in gens) else "leaf"
    v = gens[0][2]
    if v.op not in ("rnew", "new"):
        raise Unknown("leaf view %s" % show(v))
    if v.args[0] != view:
        return "leaves are read through another kind of view"
    a = ctor_args(ctx, v)
    if a[0] is not P:
        return "the view of a leaf is a view of something else"
    names = ["parameter", "unit", "time points", "timeseries type", "interpolation type", "extrapolation type"]
    for i in range(1, len(a)):
        want = param(ctx, f, i + 1)
        got = strip_copy(a[i]) if i == 2 else a[i]
        if got is not want:
            if understood(got, [want]):
                return "leaves are not read with the %s of the view but %s" % (names[i], show(got))
            raise Unknown(show(got))
    return True


def child_sums(ctx):
    rule = "C04.sum"
    for q, cls, prop in ((SCALAR + ".value", SCALAR, "value"), (SERIES + ".values", SERIES, "values")):
        ctx.guard(rule, q, _child_sum, ctx, rule, q, cls, prop)


def _child_sum(ctx, rule, q, cls, prop):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    me = self_of(cls)
    kids = nonempty(attr(me, "_parameter", "children"))
    views = attr(me, "_child_data_views")

    def is_sum(t):
        t = strip_as(t)
        if t.op in ("/", "//") and is_sum(t.args[0]) is True:
            return "the sum is divided by %s" % show(t.args[1])
        if t.op in ("*", "-", "+") and any(x.op == "sum" and is_sum(x) is True for x in t.args) and \
                all(x.op == "sum" or is_const(x) for x in t.args):
            return "not the sum but %s" % show(t)
        if t.op == "sum" and (t.args[0].op == "setof" or call_name(t.args[0]) in ("builtins.set", "builtins.frozenset")):
            return "equal values are only counted once"
        if t.op != "sum" or t.args[1] is not const(0) and t.args[1] is not const(0.0):
            if t.op in ("sum",):
                return "sum starts with %s" % show(t.args[1])
            raise Unknown("aggregate %s" % show(t))
        gens = flat_gens(t.args[0])
        if len(gens) != 1:
            raise Unknown(show(t))
        its, conds, v = gens[0]
        if conds:
            return "children are only summed under conditions"
        if its != (views,):
            if understood(its[0], [views]):
                return "sum over %s" % show(its[0])
            raise Unknown(show(its[0]))
        if v.op == "rcall" and v.args[0] == q and v.args[1] == (mk("elem", views),):
            return True
        raise Unknown("summand %s" % show(v))

    n = 0
    for o in outs:
        if o.kind != "return" or implied(o, kids) is not True:
            if o.kind == "return" and implied(o, kids) is None and cls == SERIES:
                continue
            if o.kind == "return" and implied(o, kids) is None:
                ctx.unk(rule, q, desc(o))
            continue
        n += 1
        try:
            if cls == SCALAR:
                r = is_sum(o.value)
            else:
                vals = [e.a[2] for e in stores(o, me, "_data")] + \
                    [e.a[0].args[1][1] for e in o.events if e.kind == "call" and call_name(e.a[0]) == "numpy.copyto"]
                if not vals:
                    if implied(o, btruth(attr(me, "_pending"))) is True:
                        continue
                    if understood_reads(o):
                        r = "an aggregated timeseries is not read again"
                    else:
                        raise Unknown("no new data")
                else:
                    r = is_sum(vals[-1])
        except Unknown as e:
            ctx.unk(rule, q, str(e))
            continue
        if r is True:
            ctx.holds(rule, q)
        else:
            ctx.bad(rule, q, "%s: %s" % (r, desc(o)), ctx.loc(f))
    if not n:
        ctx.unk(rule, q, "no path reads children")


def understood_reads(o):
    return all(e.kind in ("enter", "leave", "setattr", "new") or e.kind == "call" and call_name(e.a[0]) in ("numpy.asarray",) for e in o.events)


# ---------------------------------------------------------------------- C05
def reads_current(ctx):
    """_read refreshes the buffer unless nothing has changed"""
    rule = "C05.read"
    q = SERIES + ".values"
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    me = self_of(SERIES)
    par = attr(me, "_parameter")
    it = outs[0].it
    atoms = {"nodata": mk("isnone", attr(me, "_data")), "children": nonempty(attr(par, "children")),
             "current": it.eqatom(attr(par, "version"), attr(me, "_version")), "pending": btruth(attr(me, "_pending"))}

    def expect(case, o):
        if o.kind != "return":
            v = changes(o, me).get("_version")
            if v is not None and v is attr(par, "version") and not case["current"]:
                if not stores(o, me, "_data"):
                    return "a failed reading marks the old data as current"
            return None
        ch = changes(o, par)
        if ch:
            return "reading changes the parameter (%s)" % ", ".join(sorted(ch))
        newdata = stores(o, me, "_data")
        copied = [e for e in o.events if e.kind == "call" and call_name(e.a[0]) == "numpy.copyto" and e.a[0].args[1][0] is attr(me, "_data")]
        if any(e.kind == "setitem" and e.a[0] is attr(me, "_data") for e in o.events):
            copied.append(1)
        ver = changes(o, me).get("_version")
        if case["nodata"]:
            if not newdata:
                return "nothing is read at the first time"
        elif case["pending"]:
            return None
        elif case["children"] or not case["current"]:
            if not newdata and not copied:
                return "changed data is not read again"
            if newdata and not copied and attr(me, "_timeseries") not in [e.a[0] for e in o.events if e.kind == "setattr"]:
                if changes(o, me).get("_timeseries") is None:
                    return "the values object which has been handed out keeps the old data"
        else:
            if newdata or copied:
                return True
            if ver is not None and ver is not attr(par, "version"):
                return "the version read is changed without reading"
            return True
        if ver is None and not case["children"] or ver is not None and ver is not attr(par, "version"):
            return "the version of the data read is not remembered" if ver is None and case["nodata"] else (
                "the version of the data read is not remembered" if ver is None else "a wrong version is remembered: %s" % show(ver))
        return True

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))
    ver, mine = attr(par, "version"), attr(me, "_version")
    for o in outs:
        if o.kind != "return" or implied(o, atoms["nodata"]) is True or implied(o, atoms["pending"]) is True:
            continue
        if stores(o, me, "_data") or any(e.kind == "setitem" or e.kind == "call" and call_name(e.a[0]) == "numpy.copyto" for e in o.events):
            continue
        for case in stale(o, ver, mine):
            ctx.bad(rule, q, "data is not read again although %s: %s" % (case, desc(o)), ctx.loc(f))
    for o in outs:
        if o.kind != "return":
            continue
        v = o.value
        if v.op == "new":
            b = o.heap.get((v, "_ndarray"))
            cur = o.heap.get((me, "_data")) or attr(me, "_data")
            if b is None:
                ctx.unk(rule + ".handle", q, "values object %s" % show(v))
            elif strip_as(b) is cur:
                ctx.holds(rule + ".handle", q)
            elif understood(b, [cur], ("numpy.array", "numpy.asarray", ".copy", "numpy.copy")):
                ctx.bad(rule + ".handle", q, "the values object does not use the buffer of the view but %s" % show(b), ctx.loc(f))
            else:
                ctx.unk(rule + ".handle", q, show(b))


STALE = {"none": "the cache has been discarded", "lt": "the parameter has a newer version"}


def stale(o, ver, mine):
    """Cases of the version of the cache in which the path is taken and the cache is out
    of date (versions are never negative and do not decrease)"""
    def val(a, r):
        if a.op == "not":
            x = val(a.args[0], r)
            return None if x is None else not x
        if a.op == "isnone":
            return r == "none" if a.args[0] is mine else False if a.args[0] is ver else None
        if a.op == "eq" and set(a.args) == {ver, mine}:
            return False
        if a.op == "lt" and a.args == (mine, ver):
            return True if r == "lt" else None
        if a.op == "lt" and a.args == (ver, mine):
            return False if r == "lt" else None
        if a.op == "truth" and a.args[0] is mine:
            return False if r == "none" else None
        return None

    for r, text in STALE.items():
        if all(val(a, r) in (None, v) for a, v in o.order):
            # everything else which is asked about the versions makes it undecided
            odd = [a for a, v in o.order if val(a, r) is None and (contains(a, ver) or contains(a, mine)) and
                   not (a.op == "truth" and a.args[0] is mine)]
            if not odd:
                yield text


def strip_as(t):
    while call_name(t) == "numpy.asarray" and t.args[1]:
        t = t.args[1][0]
    return t


def scalar_reads_pure(ctx):
    rule = "C05.read"
    for q in (SCALAR + ".value", GENERIC + ".value"):
        f = ctx.p.need_function(q)
        me = self_of(f.cls.qualname)
        par = attr(me, "_parameter")
        for o in ctx.run(q, opaque=conv_opaque):
            if o.kind == "return":
                ch = changes(o, par)
                if ch:
                    ctx.bad(rule, q, "reading changes the parameter (%s)" % ", ".join(sorted(ch)), ctx.loc(f))
                elif implied(o, nonempty(attr(par, "children"))) is not True and not contains(o.value, attr(par, "data")):
                    if understood(o.value, [attr(par, "data")], (UC + ".convert_from",)):
                        ctx.bad(rule, q, "reading does not give the data of the parameter but %s" % show(o.value), ctx.loc(f))
                    else:
                        ctx.unk(rule, q, show(o.value))
                else:
                    ctx.holds(rule, q)


WRITERS = [SCALAR + ".value.setter", GENERIC + ".value.setter", SERIES + ".values.setter", SERIES + ".unlock", TS + ".__setitem__"]


def view_par(f):
    me = self_of(f.cls.qualname)
    view = attr(me, "_parameter_view") if f.cls.qualname == TS else me
    return view, attr(view, "_parameter")


def versions(ctx):
    rule = "C05.version"
    for q in WRITERS:
        ctx.guard(rule, q, _versions, ctx, rule, q)


def _versions(ctx, rule, q):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    view, par = view_par(f)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        ch = changes(o, par)
        data, ver = "data" in ch, "version" in ch
        if not data and not ver:
            continue
        n += 1
        # the placeholder which is set by the first access is no write
        if not data:
            ctx.bad(rule, q, "the version changes without new data: " + desc(o), ctx.loc(f))
        elif not ver:
            ctx.bad(rule, q, "new data does not increase the version: " + desc(o), ctx.loc(f))
        else:
            old = attr(par, "version")
            want = [mk("+", old, const(1)), mk("+", const(1), old)]
            if ch["version"] in want:
                ctx.holds(rule, q)
            elif understood(ch["version"], want):
                ctx.bad(rule, q, "the version is set to %s instead of being increased by one" % show(ch["version"]), ctx.loc(f))
            else:
                ctx.unk(rule, q, show(ch["version"]))
            if f.cls.qualname in (SERIES, TS):
                mine = changes(o, view).get("_version")
                fl = attr(view, "_data")
                if mine is None:
                    # stays behind: it will read again, which is fine
                    ctx.holds(rule + ".cache", q)
                elif mine is ch["version"] or mine is NONE:
                    ctx.holds(rule + ".cache", q)
                elif understood(mine, want):
                    ctx.bad(rule + ".cache", q, "the cache is marked with version %s, which is not the one of its data: %s" % (show(mine), desc(o)), ctx.loc(f))
                else:
                    ctx.unk(rule + ".cache", q, show(mine))
    if not n:
        ctx.unk(rule, q, "no path writes")


def held_values_c05(ctx):
    held_values(ctx, "C05.held")


def item_assignment(ctx):
    """Items are assigned in the current data, and then published"""
    rule = "C05.items"
    q = TS + ".__setitem__"
    f = ctx.p.need_function(q)
    ctx.p.need_function(SERIES + "._read")
    ctx.p.need_function(SERIES + "._write")
    me = self_of(TS)
    buf, view = attr(me, "_ndarray"), attr(me, "_parameter_view")
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            continue
        seq = []
        for e in o.events:
            if e.kind == "setitem" and e.a[0] is buf:
                seq.append("set")
                if e.a[1] is not param(ctx, f, 1) or e.a[2] is not param(ctx, f, 2):
                    if understood(e.a[1], [param(ctx, f, 1)]) and understood(e.a[2], [param(ctx, f, 2)]):
                        ctx.bad(rule, q, "another item or value is assigned", ctx.loc(f))
                    else:
                        ctx.unk(rule, q, "assigned value")
            elif e.kind == "rcall" and e.a[0].args[1][:1] == (view,):
                seq.append(e.a[0].args[0].rsplit("._", 1)[-1])
        if "set" not in seq:
            ctx.unk(rule, q, "no assignment")
        elif "write" not in seq[seq.index("set"):]:
            ctx.bad(rule, q, "an assigned item is not published", ctx.loc(f))
        elif "read" not in seq[:seq.index("set")]:
            ctx.bad(rule, q, "an item is assigned in data which may be out of date, all of which is published", ctx.loc(f))
        else:
            ctx.holds(rule, q)


# ---------------------------------------------------------------------- C06
def chain(t, bases):
    """Conversions which a base passes on the way to t -> ([(converter, direction, object)], base)"""
    seen = []
    x = t
    while x not in bases and x.op == "rcall" and x.args[0] in (UC + ".convert_from", UC + ".convert_to", TC + ".convert_from", TC + ".convert_to") and len(x.args[1]) == 2:
        seen.append((x.args[0].rsplit(".", 2)[-2], x.args[0].rsplit(".", 1)[-1], x.args[1][0]))
        x = x.args[1][1]
    return seen, x


def conversions(ctx):
    rule = "C06.chain"
    todo = [
        (SCALAR + ".value", "convert_from", ["UnitConverter"]), (SCALAR + ".value.setter", "convert_to", ["UnitConverter"]),
        (SERIES + ".values", "convert_from", ["TimeseriesConverter", "UnitConverter"]),
        (SERIES + ".values.setter", "convert_to", ["TimeseriesConverter", "UnitConverter"]),
        (SERIES + ".unlock", "convert_to", ["TimeseriesConverter", "UnitConverter"]),
        (TS + ".__setitem__", "convert_to", ["TimeseriesConverter", "UnitConverter"]),
    ]
    for q, d, want in todo:
        ctx.guard(rule, q, _conversion, ctx, rule, q, d, want)


def _conversion(ctx, rule, q, direction, want):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    view, par = view_par(f)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        if direction == "convert_from":
            if implied(o, nonempty(attr(par, "children"))) is True:
                continue
            if f.cls.qualname == SCALAR:
                vals = [o.value]
            else:
                vals = [e.a[2] for e in stores(o, view, "_data")] + \
                    [e.a[0].args[1][1] for e in o.events if e.kind == "call" and call_name(e.a[0]) == "numpy.copyto"]
            bases = [attr(par, "data")]
        else:
            vals = [e.a[2] for e in stores(o, par, "data")][-1:]
            if f.cls.qualname == SCALAR:
                bases = [param(ctx, f, 1)]
            else:
                bases = [attr(view, "_data")] + [strip_copy(e.a[2]) for e in stores(o, view, "_data")] + [e.a[2] for e in stores(o, view, "_data")]
                if q.endswith("values.setter"):
                    bases.append(param(ctx, f, 1))
        for v in vals:
            n += 1
            seen, base = chain(v, bases)
            if base not in bases and strip_copy(base) not in bases:
                if understood(base, bases, (UC + ".convert_from", UC + ".convert_to", TC + ".convert_from", TC + ".convert_to", "numpy.asarray", "numpy.array", "numpy.full", ".copy")):
                    ctx.bad(rule, q, "value %s is not converted from %s" % (show(v), show(bases[0])), ctx.loc(f))
                else:
                    ctx.unk(rule, q, show(v))
                continue
            got = sorted(k for k, _, _ in seen)
            if got != sorted(want):
                ctx.bad(rule, q, "value passes conversions %s instead of %s: %s" % (got, want, show(v)), ctx.loc(f))
            elif any(d != direction for _, d, _ in seen):
                ctx.bad(rule, q, "value is converted in the wrong direction: %s" % show(v), ctx.loc(f))
            elif any(c.op != "attr" or c.args[0] is not view for _, _, c in seen):
                ctx.unk(rule, q, "other converters: %s" % show(v))
            else:
                ctx.holds(rule, q)
    if not n:
        ctx.unk(rule, q, "no value")


def converters(ctx):
    rule = "C06.converters"
    for view in (SCALAR, SERIES):
        ctx.guard(rule, view + ".__init__", _converters, ctx, rule, view)


def _converters(ctx, rule, view):
    q = view + ".__init__"
    f = ctx.p.need_function(q)
    par = param(ctx, f, 1)
    for o in ctx.run(q, opaque=lambda x: conv_opaque(x) or view_opaque(x)):
        if o.kind != "return":
            continue
        inits = {c.args[0]: c.args[1][1:] + tuple(v for _, v in c.args[2]) for c in rcalls(o, name="__init__")}
        u = inits.get(UC + ".__init__")
        if u is None:
            ctx.unk(rule, q, "no unit converter")
            continue
        want = (attr(par, "unit"), param(ctx, f, 2))
        if u[:2] != want:
            ctx.bad(rule, q, "unit converter from %s" % show(u), ctx.loc(f)) if all(understood(x, list(want)) for x in u) else ctx.unk(rule, q, show(u))
            continue
        if len(u) > 2 and u[2] is not NONE:
            ctx.bad(rule, q, "views convert with a context", ctx.loc(f))
            continue
        if view == SERIES:
            t = inits.get(TC + ".__init__")
            if t is None:
                ctx.unk(rule, q, "no time converter")
                continue
            want = (attr(par, "time_points"),) + tuple(param(ctx, f, i) for i in range(3, 7))
            bad = [i for i, (a, b) in enumerate(zip(t, want)) if a is not b and strip_copy(a) is not b]
            if bad or len(t) != 5:
                if all(understood(x, list(want)) for x in t):
                    ctx.bad(rule, q, "time converter %s" % show(t), ctx.loc(f))
                else:
                    ctx.unk(rule, q, show(t))
                continue
        ctx.holds(rule, q)


def view_info(ctx):
    rule = "C06.info"
    for view in (SCALAR, SERIES):
        q = view + ".unit"
        ctx.guard(rule, q, _view_unit, ctx, rule, view, q)
    ctx.guard(rule, TC + ".lengths", _lengths, ctx, rule)
    for q in (UC + ".source", UC + ".target"):
        ctx.guard(rule, q, _uc_field, ctx, rule, q)


def init_field(ctx, cls, i):
    """Name of the field in which __init__ keeps its i-th argument"""
    f = ctx.p.need_function(cls + ".__init__")
    want = param(ctx, f, i)
    me = self_of(cls)
    r = None
    for o in ctx.run(f.qualname):
        if o.kind == "return":
            x = {fld for (ob, fld), v in o.heap.items() if ob is me and strip_copy(v) is want}
            r = x if r is None else r & x
    if not r:
        raise Unknown("argument %d of %s is not kept" % (i, cls))
    return r


def _view_unit(ctx, rule, view, q):
    f = ctx.p.need_function(q)
    tgt = init_field(ctx, UC, 2)
    src = init_field(ctx, UC, 1)
    me = self_of(view)
    for o in ctx.run(q):
        v = o.value if o.kind == "return" else None
        conv = attr(me, "_unit_converter")
        if v in [attr(conv, x) for x in tgt]:
            ctx.holds(rule, q)
        elif v is not None and understood(v, [attr(conv, "_target")]):
            ctx.bad(rule, q, "the unit of the view is %s" % show(v), ctx.loc(f))
        else:
            ctx.unk(rule, q, show(v) if v is not None else "fails")


def _uc_field(ctx, rule, q):
    f = ctx.p.need_function(q)
    me = self_of(UC)
    want = [attr(me, x) for x in init_field(ctx, UC, 1 if q.endswith("source") else 2)]
    for o in ctx.run(q):
        if o.kind == "return" and o.value in want:
            ctx.holds(rule, q)
        elif o.kind == "return" and understood(o.value, want):
            ctx.bad(rule, q, "is %s" % show(o.value), ctx.loc(f))
        else:
            ctx.unk(rule, q, "not understood")


def _lengths(ctx, rule):
    me = self_of(TC)
    for prop, i in (("source_length", 1), ("target_length", 2)):
        q = TC + "." + prop
        f = ctx.p.need_function(q)
        fld = init_field(ctx, TC, i)
        outs = ctx.run(q)
        typ = [attr(me, x) for x in init_field(ctx, TC, 3)]
        atoms = {"average": outs[0].it.eqatom(typ[0], ptype("AVERAGE_TIMESERIES"))}
        lens = [mk("len", attr(me, x)) for x in fld]

        def expect(case, o):
            if o.kind != "return":
                return "fails"
            want = [mk("-", x, const(1)) for x in lens] + [mk("+", x, const(-1)) for x in lens] if case["average"] else lens
            return judge(o.value, want + [mk("-", x, const(0)) for x in lens] * (not case["average"]), "length")

        table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))
    q = SERIES + ".length"
    f = ctx.p.need_function(q)
    for o in ctx.run(q, opaque=lambda x: x.startswith(TC + ".")):
        c = rcalls(o)
        if o.kind == "return" and o.value.op == "rcall" and o.value.args[0] == TC + ".target_length":
            ctx.holds(rule, q)
        elif o.kind == "return" and o.value.op == "rcall" and o.value.args[0] == TC + ".source_length":
            ctx.bad(rule, q, "the length of a view is the one of the parameter", ctx.loc(f))
        else:
            ctx.unk(rule, q, "length")
    q = SERIES + ".values.setter"
    f = ctx.p.need_function(q)
    v = param(ctx, f, 1)
    for o in ctx.run(q, opaque=lambda x: conv_opaque(x) or x in (TC + ".target_length", TC + ".source_length")):
        for a, _ in o.order:
            if a.op == "eq" and mk("len", v) in a.args:
                other = [x for x in a.args if x is not mk("len", v)][0]
                if other.op == "rcall" and other.args[0] == TC + ".source_length":
                    ctx.bad(rule, q, "the number of values is compared with the number of time points of the parameter", ctx.loc(f))
                elif other.op == "rcall" and other.args[0] == TC + ".target_length":
                    ctx.holds(rule, q)
                else:
                    ctx.unk(rule, q, show(other))


# ---------------------------------------------------------------------- C07
PURE_CALLS = {"builtins.len", "numpy.asarray", "numpy.full", "numpy.array", "builtins.isinstance", "builtins.float"}


def rejected_writes(ctx):
    rule = "C07.atomic"
    for q in WRITERS:
        ctx.guard(rule, q, _rejected, ctx, rule, q)


PERSIST = {"data", "version", "has_been_written_to", "has_been_read_from"}


def _rejected(ctx, rule, q):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    view, par = view_par(f)
    for o in outs:
        if o.kind == "raise":
            ch = set(changes(o, par)) & PERSIST
            pend = changes(o, view).get("_pending")
            if implied(o, nonempty(attr(par, "children"))) is True and pend is not None and \
                    not (pend is FALSE or pend is attr(view, "_pending") or tv(o, pend) is False):
                ctx.bad(rule, q, "a write to an aggregated parameter which is rejected with %s stays pending in the view, "
                        "which does not read the parameter any more: %s" % (o.exc(), desc(o)), ctx.loc(f))
            elif ch:
                ctx.bad(rule, q, "a write which is rejected with %s changes %s of the parameter: %s" % (o.exc(), ", ".join(sorted(ch)), desc(o)), ctx.loc(f))
            else:
                ctx.holds(rule, q)
            continue
        first = None
        for i, e in enumerate(o.events):
            if e.kind == "setattr" and e.a[0] is par and e.a[1] in PERSIST:
                first = i
                break
        if first is None:
            continue
        late = []
        unknown = []
        for e in o.events[first:]:
            if e.kind == "rcall" and conv_opaque(e.a[0].args[0]):
                late.append(e.a[0])
            elif e.kind == "call":
                n = call_name(e.a[0])
                if n in ("numpy.copyto",):
                    late.append(e.a[0])
                elif n not in PURE_CALLS:
                    unknown.append(e.a[0])
            elif e.kind == "rcall":
                unknown.append(e.a[0])
        if late:
            ctx.bad(rule, q, "%s can fail after the parameter has been changed: %s" % (show(late[0]), desc(o)), ctx.loc(f))
        elif unknown:
            ctx.unk(rule, q, "%s after the parameter has been changed" % show(unknown[0]))
        else:
            ctx.holds(rule, q)


def wrong_length(ctx):
    rule = "C07.length"
    q = SERIES + ".values.setter"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    v = param(ctx, f, 1)
    outs = ctx.run(q, opaque=lambda x: conv_opaque(x) or x == TC + ".target_length" or x == TC + ".source_length")
    par = attr(me, "_parameter")
    L = None
    for o in outs:
        for a, b in o.order:
            if a.op == "eq" and mk("len", v) in a.args:
                L = a
    if L is None:
        for o in outs:
            if o.kind == "return" and stores(o, par, "data"):
                if any(contains(a, v) for a, _ in o.order):
                    ctx.unk(rule, q, "length check")
                else:
                    ctx.bad(rule, q, "values of any length are accepted: " + desc(o), ctx.loc(f))
                return
        return
    other = [x for x in L.args if x is not mk("len", v)][0]
    if other.op == "rcall" and other.args[0] == TC + ".target_length":
        ctx.holds(rule, q)
    elif other.op == "rcall" and other.args[0] == TC + ".source_length":
        ctx.bad(rule, q, "the length is compared with the one of the parameter", ctx.loc(f))
    else:
        ctx.unk(rule, q, show(L))

    def expect(case, o):
        if case["children"]:
            r = raises(o, ERR + "ParameterReadonlyError", ERR + "TimeseriesPointsValuesMismatchError")
            return r or True
        if not case["right"]:
            r = raises(o, ERR + "TimeseriesPointsValuesMismatchError")
            if r:
                return r
            if changes(o, me).get("_data") is not None or any(call_name(e.a[0]) == "numpy.copyto" for e in o.events if e.kind == "call"):
                return "values of wrong length change the buffer"
            return True
        return None

    table(ctx, rule, q, outs, {"right": L, "children": nonempty(attr(par, "children"))}, expect, ctx.loc(f))


def cache_after_failure(ctx):
    """While data is published, the cache is invalid, so that a failure discards it"""
    rule = "C07.cache"
    for q in (SERIES + ".values.setter", TS + ".__setitem__", SERIES + ".unlock"):
        ctx.guard(rule, q, _cache_after_failure, ctx, rule, q)


def _cache_after_failure(ctx, rule, q):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=conv_opaque)
    view, par = view_par(f)
    n = 0
    for o in outs:
        conv = [i for i, e in enumerate(o.events) if e.kind == "rcall" and e.a[0].args[0].endswith(".convert_to")]
        if not conv or not (o.kind == "return" and stores(o, par, "data")):
            if o.kind == "raise" and conv and not o.exc().endswith("InsufficientDataError"):
                if changes(o, view).get("_version") is NONE:
                    ctx.holds(rule, q)
                elif "_version" in changes(o, view) or True:
                    v = changes(o, view).get("_version")
                    ctx.bad(rule, q, "after a failed write the view shows the rejected values: " + desc(o), ctx.loc(f))
            continue
        n += 1
        before = [e for e in o.events[:conv[0]] if e.kind == "setattr" and e.a[0] is view and e.a[1] == "_version"]
        touched = [e for e in o.events[:conv[0]] if (e.kind == "setitem" and e.a[0] is not None) or (e.kind == "setattr" and e.a[0] is view and e.a[1] == "_data")
                   or (e.kind == "call" and call_name(e.a[0]) == "numpy.copyto")]
        if before and before[-1].a[2] is NONE:
            ctx.holds(rule, q)
        elif not touched and q != SERIES + ".unlock":
            ctx.holds(rule, q)
        elif any(e.kind == "except" for e in o.flat()):
            ctx.unk(rule, q, "errors are handled")
        else:
            ctx.bad(rule, q, "if the conversion fails, the view keeps showing the rejected values: " + desc(o), ctx.loc(f))
    if not n:
        ctx.unk(rule, q, "no path publishes")


def accepted_writes(ctx):
    """Only parameters of the right type are written"""
    rule = "C07.checked"
    types = {SCALAR + ".value.setter": "SCALAR", GENERIC + ".value.setter": "GENERIC"}
    for q in WRITERS:
        ctx.guard(rule, q, _accepted, ctx, rule, q, types.get(q))


def _accepted(ctx, rule, q, want):
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=lambda x: conv_opaque(x) or x == PARAM + ".attempt_write")
    view, par = view_par(f)
    n = 0
    for o in outs:
        if o.kind != "return" or not stores(o, par, "data"):
            continue
        n += 1
        cert = implied(o, btruth(attr(view, "_writable")))
        calls = [(i, e) for i, e in enumerate(o.events) if e.kind == "rcall" and e.a[0].args[0] == PARAM + ".attempt_write"]
        if cert is True:
            ctx.holds(rule, q)
            continue
        first = [i for i, e in enumerate(o.events) if e.kind == "setattr" and e.a[0] is par and e.a[1] == "data"][0]
        if not calls:
            if any("has_been_written_to" in fields_of_atom(a) or "children" in fields_of_atom(a) and False for a, _ in o.order):
                ctx.unk(rule, q, desc(o))
            else:
                ctx.bad(rule, q, "data is stored without write access: " + desc(o), ctx.loc(f))
            continue
        if calls[0][0] > first:
            ctx.bad(rule, q, "data is stored before write access is obtained: " + desc(o), ctx.loc(f))
            continue
        a = calls[0][1].a[0].args[1]
        if a[0] is not par:
            ctx.bad(rule, q, "write access to another parameter is obtained", ctx.loc(f))
        elif want and a[1] is not ptype(want):
            ctx.bad(rule, q, "write access is obtained with type %s" % show(a[1]), ctx.loc(f))
        else:
            ctx.holds(rule, q)
    if not n:
        ctx.unk(rule, q, "no path writes")


# ---------------------------------------------------------------------- C09
def locks(ctx):
    rule = "C09.lock"
    ctx.guard(rule, SERIES + ".lock", _lock, ctx, rule)
    ctx.guard(rule, SERIES + ".unlock", _unlock, ctx, rule)
    for q in (SERIES + ".values.setter", TS + ".__setitem__"):
        ctx.guard(rule, q, _locked_write, ctx, rule, q)
    ctx.guard(rule, SERIES + ".__init__", _lock_init, ctx, rule)
    ctx.guard(rule, SERIES + ".values", _locked_read, ctx, rule)


def _lock(ctx, rule):
    q = SERIES + ".lock"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    for o in ctx.run(q, opaque=conv_opaque):
        ch = changes(o, me)
        if changes(o, attr(me, "_parameter")):
            ctx.bad(rule, q, "locking changes the parameter", ctx.loc(f))
        elif o.kind != "return":
            ctx.bad(rule, q, "locking fails with %s" % o.exc(), ctx.loc(f))
        elif ch.get("_locked") is not TRUE and implied(o, btruth(attr(me, "_locked"))) is not True:
            ctx.bad(rule, q, "the view is not locked", ctx.loc(f)) if ch.get("_locked", FALSE).op == "const" else ctx.unk(rule, q, show(ch["_locked"]))
        elif "_pending" in ch and implied(o, btruth(attr(me, "_locked"))) is not False and ch["_pending"] is not attr(me, "_pending"):
            ctx.bad(rule, q, "locking again forgets or invents pending writes", ctx.loc(f))
        else:
            ctx.holds(rule, q)


def _unlock(ctx, rule):
    q = SERIES + ".unlock"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    par = attr(me, "_parameter")
    outs = ctx.run(q, opaque=conv_opaque)
    atoms = {"pending": btruth(attr(me, "_pending")), "children": nonempty(attr(par, "children")),
             "current": outs[0].it.eqatom(attr(par, "version"), attr(me, "_version")), "written": btruth(attr(par, "has_been_written_to"))}

    def expect(case, o):
        ch = changes(o, par)
        mine = changes(o, me)
        if case["children"] and case["pending"]:
            return None
        if o.kind == "return":
            lk = mine.get("_locked")
            if lk is not FALSE and implied(o, btruth(attr(me, "_locked"))) is not False:
                return "the view stays locked"
        if not case["pending"]:
            if o.kind != "return":
                return "unlocking without pending writes fails with %s" % o.exc()
            if ch:
                return "unlocking without a write changes %s of the parameter" % ", ".join(sorted(ch))
            return True
        if o.kind != "return":
            return True
        if "data" not in ch:
            return "pending values are not published"
        if len(stores(o, par, "version")) != 1:
            return "pending values are published %d times" % len(stores(o, par, "version"))
        pend = tv(o, mine.get("_pending", attr(me, "_pending")))
        if pend is True:
            return "the view stays pending, so that the same values are published again"
        if pend is None and mine.get("_pending") is not attr(me, "_locked"):
            raise Unknown("pending %s" % show(mine["_pending"]))
        return True

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))


def _locked_write(ctx, rule, q):
    f = ctx.p.need_function(q)
    view, par = view_par(f)
    outs = ctx.run(q, opaque=conv_opaque)
    atoms = {"locked": btruth(attr(view, "_locked")), "children": nonempty(attr(par, "children"))}

    def expect(case, o):
        if case["children"]:
            return None
        ch = changes(o, par)
        if o.kind != "return":
            return None
        mine = changes(o, view)
        pend = mine.get("_pending")
        if case["locked"]:
            if ch:
                return "a write through a locked view changes %s of the parameter" % ", ".join(sorted(ch))
            if pend is attr(view, "_locked") or tv(o, attr(view, "_pending") if pend is None else pend) is True:
                pass
            elif pend is None or tv(o, pend) is False:
                return "a write through a locked view is not remembered"
            else:
                raise Unknown("pending %s" % show(pend))
            v = mine.get("_version")
            return True
        if "data" not in ch or "version" not in ch:
            return "a write is not published"
        if len(stores(o, par, "version")) != 1:
            return "a write is published %d times" % len(stores(o, par, "version"))
        if pend is not None and tv(o, pend) is True and pend is not attr(view, "_pending"):
            return "a published write stays pending"
        return True

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))


def _lock_init(ctx, rule):
    q = SERIES + ".__init__"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    for o in ctx.run(q, opaque=lambda x: conv_opaque(x) or view_opaque(x)):
        if o.kind != "return":
            continue
        for fld in ("_locked", "_pending"):
            v = o.heap.get((me, fld))
            if v is FALSE:
                ctx.holds(rule, q)
            elif v is not None and is_const(v) and v.args[1]:
                ctx.bad(rule, q, "a new view is %s" % fld[1:], ctx.loc(f))
            else:
                ctx.unk(rule, q, "%s is %s" % (fld, v and show(v)))


def _locked_read(ctx, rule):
    """Reading does not lose values which are still to be published"""
    q = SERIES + ".values"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    outs = ctx.run(q, opaque=conv_opaque)
    atoms = {"pending": btruth(attr(me, "_pending")), "nodata": mk("isnone", attr(me, "_data"))}

    def expect(case, o):
        if not case["pending"] or case["nodata"]:
            return None
        if stores(o, me, "_data") or any(e.kind == "call" and call_name(e.a[0]) == "numpy.copyto" for e in o.events):
            return "reading a locked view overwrites its pending values"
        ch = changes(o, me)
        if "_pending" in ch and ch["_pending"] is not TRUE:
            return "reading a locked view forgets that it has pending values"
        return True

    table(ctx, rule, q, outs, atoms, expect, ctx.loc(f))


# ---------------------------------------------------------------------- C08
def sharing(ctx):
    rule = "C08.copies"
    ctx.guard(rule, SERIES + ".values.setter", _setter_copies, ctx, rule)
    for q in (SERIES + ".values.setter", SERIES + ".unlock", TS + ".__setitem__"):
        ctx.guard(rule, q + " (data)", _data_fresh, ctx, rule, q)
    ctx.guard(rule, SERIES + ".values", _read_fresh, ctx, rule)
    ctx.guard(rule, PARAM + ".attempt_read", _points_fresh, ctx, rule)
    ctx.guard(rule, TC + ".__init__", _tc_fresh, ctx, rule)


def _setter_copies(ctx, rule):
    q = SERIES + ".values.setter"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    v = param(ctx, f, 1)
    for o in ctx.run(q, opaque=conv_opaque):
        for e in stores(o, me, "_data"):
            r = not_fresh(e.a[2])
            if r is True:
                ctx.bad(rule, q, "the view keeps the array which is assigned instead of a copy: " + desc(o), e.loc)
            elif r is None:
                ctx.unk(rule, q, show(e.a[2]))
            else:
                ctx.holds(rule, q)


def conv_fresh(ctx, q, seen=()):
    """Does a conversion always return a new array? True/False/None"""
    f = ctx.p.need_function(q)
    arg = param(ctx, f, 1)
    res = True
    for o in ctx.run(q):
        if o.kind != "return":
            continue
        v = o.value
        if v is arg or not_fresh(v) and contains(v, arg):
            return False
        if fresh_call(v):
            continue
        if v.op in ("call", "mcall"):
            # results of scipy / numpy functions other than asarray are new arrays
            n = call_name(v)
            if n in ("numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d"):
                res = None
            continue
        if v.op in ("comp", "concat", "list"):
            continue
        res = None
    return res


def _data_fresh(ctx, rule, q):
    f = ctx.p.need_function(q)
    view, par = view_par(f)
    n = 0
    for o in ctx.run(q, opaque=conv_opaque):
        if o.kind != "return":
            continue
        for e in stores(o, par, "data"):
            v = e.a[2]
            if v.op in ("const", "ext", "class", "enum"):
                continue  # placeholder of a first access
            if not_fresh(v) is True:
                ctx.bad(rule, q, "the buffer of the view becomes the data of the parameter: " + desc(o), e.loc)
                continue
            if v.op == "rcall":
                n += 1
                x, r = v, False
                while x.op == "rcall" and conv_opaque(x.args[0]):
                    c = conv_fresh(ctx, x.args[0])
                    if c:
                        r = True
                    elif c is None and r is False:
                        r = None
                    x = x.args[1][1]
                if r is True:
                    ctx.holds(rule, q)
                elif r is False:
                    ctx.bad(rule, q, "the converted data can be the buffer of the view itself: " + show(v), e.loc)
                else:
                    ctx.unk(rule, q, show(v))
            elif not_fresh(v) is False:
                ctx.holds(rule, q)
            else:
                ctx.unk(rule, q, show(v))


def _read_fresh(ctx, rule):
    q = SERIES + ".values"
    f = ctx.p.need_function(q)
    me = self_of(SERIES)
    for o in ctx.run(q, opaque=conv_opaque):
        if o.kind != "return":
            continue
        for e in stores(o, me, "_data"):
            v = e.a[2]
            if v.op == "rcall":
                x, r = v, False
                while x.op == "rcall" and conv_opaque(x.args[0]):
                    c = conv_fresh(ctx, x.args[0])
                    r = True if c or r is True else (None if c is None else r)
                    x = x.args[1][1]
                if r is True:
                    ctx.holds(rule, q)
                elif r is False:
                    ctx.bad(rule, q, "the view hands out the data of the parameter itself: " + show(v), e.loc)
                else:
                    ctx.unk(rule, q, show(v))
            elif v.op == "sum":
                ctx.holds(rule, q)
            elif not_fresh(v) is True:
                ctx.bad(rule, q, "the view hands out the data of the parameter itself: " + show(v), e.loc)
            elif not_fresh(v) is False:
                ctx.holds(rule, q)
            else:
                ctx.unk(rule, q, show(v))
        if o.value is attr(me, "_parameter", "data"):
            ctx.bad(rule, q, "the view hands out the data of the parameter itself", ctx.loc(f))


def _points_fresh(ctx, rule):
    q = PARAM + ".attempt_read"
    f = ctx.p.need_function(q)
    me = self_of(PARAM)
    for o in ctx.run(q):
        for e in stores(o, me, "time_points"):
            r = not_fresh(e.a[2])
            if r is True:
                ctx.bad(rule, q, "the parameter keeps the caller's time points", e.loc)
            elif r is None:
                ctx.unk(rule, q, show(e.a[2]))
            else:
                ctx.holds(rule, q)


def _tc_fresh(ctx, rule):
    q = TC + ".__init__"
    f = ctx.p.need_function(q)
    me = self_of(TC)
    src, tgt = param(ctx, f, 1), param(ctx, f, 2)
    for o in ctx.run(q):
        for (ob, fld), v in o.heap.items():
            if ob is me and (contains(v, src) or contains(v, tgt)):
                r = shares(v)
                if r is True:
                    ctx.bad(rule, q, "the converter keeps the caller's time points as %s" % fld, ctx.loc(f))
                elif r is None:
                    ctx.unk(rule, q, show(v))
                else:
                    ctx.holds(rule, q)


def shares(t):
    """like not_fresh, where astype and other methods give new arrays"""
    if t.op == "mcall" and t.args[1] == "astype" or t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "astype":
        kw = dict(t.args[-1])
        return None if "copy" in kw else False
    return not_fresh(t)


def read_access(ctx):
    from .legal import no_write
    no_write(ctx)


RULES = {
    "C02": {"rules": [access, descendants_checked, accessors],
            "explain": "All paths of the function which grants access are compared with the decision table of (untyped, same type, children, kind); "
            "every path of the view factories is checked for the access and its arguments."},
    "C03": {"rules": [empty_reads, aggregated_empty_reads, emptiness, held_values, read_access],
            "explain": "All paths of the getters: data only reaches a result when the written flag is known to be set; operations of handles go through the reading function."},
    "C04": {"rules": [child_views, child_sums],
            "explain": "Structural induction over the recursive collection of views of descendants, and normal form of the sums."},
    "C05": {"rules": [reads_current, scalar_reads_pure, versions, held_values_c05, item_assignment],
            "explain": "Decision table of the cache (no data, children, version, pending) on all read paths; version discipline on all write paths."},
    "C06": {"rules": [conversions, converters, view_info],
            "explain": "Conversion chains of all values read and stored, arguments of the converters, reported unit and length."},
    "C07": {"rules": [rejected_writes, wrong_length, cache_after_failure, accepted_writes],
            "explain": "Commit point analysis of all write paths: no step which can fail follows the first lasting effect; rejected paths have none."},
    "C08": {"rules": [sharing], "explain": "Ownership of every array stored by views, parameters and converters."},
    "C09": {"rules": [locks], "explain": "Lock, pending and publication as a finite state machine over all paths."},
}
