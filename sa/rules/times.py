"""Rules about time points and conversion of timeseries (T01-T06)"""
import re

from ..algebra import Algebra, DivisionByZero
from ..arrays import Arr, Arrays, Lin, Narrow, Tup, Val, lin
from ..check import Unknown, implied
from ..terms import cval, is_num, is_str, sub
from .util import *
from .views import LOOKUPS

MOD = "openscm.core.time"
TC = MOD + ".TimeseriesConverter"
PT = "openscm.core.parameters.ParameterType"
IT = MOD + ".InterpolationType"
ET = MOD + ".ExtrapolationType"
IDE = "openscm.errors.InsufficientDataError"
AVERAGE, POINT = mk("enum", PT, "AVERAGE_TIMESERIES"), mk("enum", PT, "POINT_TIMESERIES")
LINEAR, CONSTANT, NOEXT = mk("enum", ET, "LINEAR"), mk("enum", ET, "CONSTANT"), mk("enum", ET, "NONE")


class Case:
    """A conversion: path of the constructor with a path of convert_from / convert_to"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.q = TC + "." + name
        self.f = ctx.p.need_function(self.q)
        self.values = param(ctx, self.f, 1)
        g = ctx.p.need_function(TC + ".__init__")
        self.src, self.tgt, self.tt, self.it_, self.et = [param(ctx, g, i) for i in range(1, 6)]
        self.me = self_of(TC)
        self.inits = [o for o in ctx.run(TC + ".__init__") if o.kind == "return"]
        self.paths = ctx.run(self.q)
        if not self.inits:
            raise Unknown("the constructor does not return")

    def fields(self, init):
        return {k[1]: v for k, v in init.heap.items() if k[0] is self.me}

    def each(self):
        for init in self.inits:
            fs = self.fields(init)
            m = {attr(self.me, k): v for k, v in fs.items()}
            for o in self.paths:
                yield init, fs, m, o

    def grid(self):
        """(grid of the values, grid of the result)"""
        return (self.src, self.tgt) if self.name == "convert_from" else (self.tgt, self.src)

    def poss(self, o, fs, par, member):
        """May the path be taken when the constructor got this enum member?"""
        for k, v in fs.items():
            if v is par:
                if implied(o, o.it.eqatom(attr(self.me, k), member)) is False:
                    return False
        return True

    def types(self, o, fs):
        return [t for t in (AVERAGE, POINT) if self.poss(o, fs, self.tt, t)]

    def extrapolations(self, o, fs):
        return [t for t in (LINEAR, CONSTANT, NOEXT) if self.poss(o, fs, self.et, t)]


def interp_calls(t):
    return {x for x in walk(t) if x.op == "call" and call_name(x) in ("scipy.interpolate.interp1d", "scipy.interpolate.interpolate.interp1d")}


def kwargs(ctx, t, names):
    """Arguments of a library call by name"""
    r = dict(zip(names, t.args[1]))
    for x in t.args[2]:
        if not (isinstance(x, tuple) and len(x) == 2):
            raise Unknown("arguments of %s" % show(t)[:60])
        r[x[0]] = x[1]
    return r


INTERP1D = ("x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted")


# positions within the series: (name, value of n = number of values, index of the interval)
def places(avg):
    s, t = Lin(0, {"s": 1}), Lin(0, {"t": 1})
    return [("first", 3 + t, lin(0)), ("interior", s + t + 3, s + 1), ("last", 3 + t, 2 + t)]


class World:
    """Array model of a conversion for one place of the series"""

    def __init__(self, case, n, avg, events):
        self.alg = Algebra()
        self.n = n
        sg, tg = case.grid()
        m = Lin(2, {"u": 1}) + (1 if avg else 0)
        self.m = m
        self.ar = Arrays(self.alg, {}, events)
        self.ar.whole_atoms = {case.src, case.tgt}
        self.sg, self.tg = sg, tg
        self.sec = {}
        self.ar.bases[case.values] = self.ar.base(case.values, n)
        for g, l in ((sg, n + 1 if avg else n), (tg, m)):
            self.ar.bases[g] = self.ar.base(g, l, ("dt", "resolution of " + show(g)))
        self.values = self.ar.bases[case.values]

    def time(self, g, i):
        return self.ar.at(self.ar.bases[g], i).r


def used_grids(case, o, m, avg):
    """Interpolation used on a path: (terms x, y, keyword arguments), value of the path"""
    v = sub(o.value, m)
    c = interp_calls(v)
    if not c:
        for t in stored(sub_events(o.events, m), v):
            c |= interp_calls(t)
    if len(c) != 1:
        raise Unknown("%d interpolations in %s" % (len(c), show(o.value)[:80]))
    (c,) = c
    return v, c, kwargs(case.ctx, c, INTERP1D)


def stored(evs, v):
    """What is stored in arrays that are part of a value"""
    for e in evs:
        if e.kind == "setitem" and any(x is e.a[0] for x in walk(v)):
            yield e.a[2]
        elif e.kind == "loop":
            for _, ev in e.a[1]:
                yield from stored(ev, v)


def sub_events(evs, m):
    from ..interp import Event

    def term(x):
        if isinstance(x, T):
            return sub(x, m)
        return x

    r = []
    for e in evs:
        if e.kind in ("setitem", "delitem", "mutcall", "augassign", "call"):
            r.append(Event(e.kind, tuple(term(x) for x in e.a), e.loc, e.nfacts))
        elif e.kind == "loop":
            r.append(Event(e.kind, (term(e.a[0]), [(tuple(term(c) for c in cs), sub_events(ev, m)) for cs, ev in e.a[1]]), e.loc, e.nfacts))
    return r


# ---------------------------------------------------------------------- T01
def averages(ctx):
    for name in ("convert_from", "convert_to"):
        q = TC + "." + name
        ctx.guard("T01.averages", q, _averages, ctx, name, q)


def _averages(ctx, name, q):
    case = Case(ctx, name)
    n = 0
    for init, fs, m, o in case.each():
        if o.kind != "return" or AVERAGE not in case.types(o, fs):
            continue
        n += 1
        ctx.guard("T01.averages", q, _average_path, ctx, case, q, o, m)
    if not n:
        ctx.bad("T01.averages", q, "average series are not converted", ctx.loc(case.f))


def _average_path(ctx, case, q, o, m):
    v, c, a = used_grids(case, o, m, True)
    loc = ctx.loc(case.f)
    evs = sub_events(o.events, m)
    k = a.get("kind", const("linear"))
    if not (is_const(k) and cval(k) in ("linear", 1)):
        ctx.bad("T01.linear", q, "the interpolation is %s" % show(k), loc)
    else:
        ctx.holds("T01.linear", q)
    for place, nn, i in places(True):
        ctx.guard("T01.averages", q, _average_place, ctx, case, q, a, evs, place, nn, i, loc)


def _average_place(ctx, case, q, a, evs, place, nn, i, loc):
    w = World(case, nn, True, evs)
    al = w.alg
    try:
        X, Y = w.ar.arr(a["x"]), w.ar.arr(a["y"])
        ok = True
        for what, z in (("points", X), ("values", Y)):
            if z.shape != (nn * 2 + 1,):
                if (z.shape[0] - (nn * 2 + 1)).key()[0] is None:
                    raise Unknown("length")
                ctx.bad("T01.points", q, "%s %s of the linearization for %s values" % (z.shape[0], what, nn), loc)
                ok = False
        if not ok:
            return
        xs = [w.ar.at(X, i * 2 + j).r for j in range(3)]
        ys = [w.ar.at(Y, i * 2 + j).r for j in range(3)]
        scale = al.div(xs[0], w.time(w.sg, i))
        t0, t1 = (al.mul(scale, w.time(w.sg, i + j)) for j in range(2))
        mid = al.div(al.add(t0, t1), al.const(2))
        for what, got, want in (("start", xs[0], t0), ("middle", xs[1], mid), ("end", xs[2], t1)):
            if al.eq(got, want) and not has_index(al, scale):
                ctx.holds("T01.points", q)
            else:
                ctx.bad("T01.points", q, "the %s of the %s interval is at %s" % (what, place, al.show(got)), loc)
        want = w.ar.at(w.values, i).r
        got = al.div(al.add(al.add(ys[0], ys[2]), al.mul(al.const(2), ys[1])), al.const(4))
        if al.eq(got, want):
            ctx.holds("T01.averages", q)
        else:
            ctx.bad("T01.averages", q, "the average over the %s interval is %s instead of its value" % (place, al.show(got)[:200]), loc)
        if place != "first":
            want = al.div(al.add(want, w.ar.at(w.values, i - 1).r), al.const(2))
            if al.eq(ys[0], want):
                ctx.holds("T01.edges", q)
            else:
                ctx.bad("T01.edges", q, "at the start of the %s interval the value is %s instead of the mean of the adjacent averages" % (place, al.show(ys[0])[:200]), loc)
        for y in ys:
            if any(al.atoms[k][0] == "unset" for p in (y.n, y.d) for mm in p for k, _ in mm):
                ctx.bad("T01.edges", q, "a value is not set", loc)
    except IndexError as e:
        ctx.bad("T01.points", q, "%s: %s" % (place, e), loc)
    except DivisionByZero:
        ctx.bad("T01.points", q, "division by zero", loc)


def has_index(al, r):
    """Does a scale factor depend on the position?"""
    return any(al.atoms[k][0] in ("at", "var", "unset") for p in (r.n, r.d) for m in p for k, _ in m)


# ---------------------------------------------------------------------- T02, T03
def conversions(ctx):
    for name in ("convert_from", "convert_to"):
        q = TC + "." + name
        ctx.guard("T02.convert", q, _conversions, ctx, name, q)


def too_short(o, values, k=3):
    return implied(o, mk("lt", mk("len", values), const(k)))


def _conversions(ctx, name, q):
    case = Case(ctx, name)
    loc = ctx.loc(case.f)
    rule = "T02"
    reported = {}
    explicit = False
    for o in case.paths:
        short = too_short(o, case.values)
        if o.kind == "raise":
            x = o.exc()
            imp = [e for e in o.flat() if e.kind == "implicit_raise"]
            if short is True:
                ctx.holds("T02.short", q) if x == IDE else ctx.bad("T02.short", q, "a series of less than three values raises %s" % x, loc)
            elif imp:
                kind = imp[-1].a[0]
                if kind == "ValueError" or "ValueError" in str(kind):
                    if x == IDE:
                        reported[o] = True
                        ctx.holds("T02.outside", q)
                    else:
                        ctx.bad("T02.outside", q, "targets outside the source range raise %s" % x, loc)
                elif x == IDE and kind in ("Exception", "BaseException", "NotImplementedError"):
                    ctx.unk("T02.outside", q, "%s becomes InsufficientDataError" % kind)
            elif x == IDE:
                explicit = True
            elif short is None and any(y is case.values for a, _ in o.order for y in walk(a)) and x == IDE:
                ctx.bad("T02.short", q, "a series of three values is rejected", loc)
        else:
            if short is False:
                ctx.holds("T02.short", q)
            elif short is True:
                ctx.bad("T02.short", q, "a series of less than three values is converted", loc)
            else:
                lens = [a for a, _ in o.order if any(y is case.values for y in walk(a))]
                if all(a.op == "lt" and a.args[0] is mk("len", case.values) and is_num(a.args[1]) for a in lens):
                    ctx.bad("T02.short", q, "a series of less than three values is converted", loc)
                else:
                    ctx.unk("T02.short", q, "condition on the length of the values")
    # which paths exist for which configuration
    for tt in (AVERAGE, POINT):
        for et in (LINEAR, CONSTANT, NOEXT):
            construct = "%s[%s,%s]" % (q, tt.args[1], et.args[1])
            n = 0
            caught = None
            for init, fs, m, o in case.each():
                if tt not in case.types(o, fs) or et not in case.extrapolations(o, fs):
                    continue
                if implied(o, mk("lt", mk("len", case.values), const(3))) is True:
                    continue
                if o.kind == "raise":
                    if o in reported:
                        caught = True
                    if o.exc() == "builtins.NotImplementedError":
                        ctx.bad("T02.convert", construct, "the conversion is not implemented", loc)
                    continue
                n += 1
                ctx.guard("T02.convert", construct, _conversion, ctx, case, construct, o, m, init, tt, et, loc)
            if not n:
                ctx.bad("T02.convert", construct, "no path converts", loc)
            if et is NOEXT:
                if caught:
                    ctx.holds("T02.outside", construct)
                elif explicit:
                    ctx.unk("T02.outside", construct, "explicit check of the range")
                else:
                    ctx.bad("T02.outside", construct, "targets outside the source range do not raise InsufficientDataError", loc)


def _conversion(ctx, case, construct, o, m, init, tt, et, loc):
    v, c, a = used_grids(case, o, m, tt is AVERAGE)
    avg = tt is AVERAGE
    evs = sub_events(o.events, m)
    nn = Lin(3, {"t": 1})
    w = World(case, nn, avg, evs)
    al = w.alg
    # extrapolation
    fv, be = a.get("fill_value"), a.get("bounds_error", const(None))
    if not is_const(be):
        raise Unknown("bounds_error=%s" % show(be))
    fail = None
    if et is LINEAR:
        if not (fv is not None and is_str(fv) and cval(fv) == "extrapolate") or cval(be) is True:
            fail = "linear extrapolation uses fill_value=%s, bounds_error=%s" % (fv and show(fv), show(be))
    elif et is CONSTANT:
        if fv is not None and fv.op in ("tuple", "list") and len(fv.args) == 2:
            lo, hi = (w.ar.val(x) for x in fv.args)
            vals = (w.ar.at(w.values, 0), w.ar.at(w.values, -1))
            if not w.ar.same(lo, vals[0]) or not w.ar.same(hi, vals[1]) or cval(be) is not False:
                fail = "constant extrapolation uses %s and %s, bounds_error=%s" % (al.show(lo.r), al.show(hi.r), show(be))
        elif fv is None or is_const(fv):
            fail = "constant extrapolation uses fill_value=%s" % (fv and show(fv))
        else:
            raise Unknown("fill_value=%s" % show(fv))
    else:
        if cval(be) is False or fv is not None and is_str(fv):
            fail = "without extrapolation fill_value=%s, bounds_error=%s" % (fv and show(fv), show(be))
        elif fv is not None and not is_const(fv) and show(fv) != "numpy.nan" and cval(be) is not True:
            raise Unknown("fill_value=%s" % show(fv))
    if fail:
        ctx.bad("T02.extrapolation", construct, fail, loc)
    else:
        ctx.holds("T02.extrapolation", construct)
    k = a.get("kind", const("linear"))
    if not is_const(k):
        raise Unknown("kind=%s" % show(k))
    ctx.holds("T02.kind", construct) if cval(k) in ("linear", 1) else ctx.bad("T02.kind", construct, "interpolation is %s" % show(k), loc)
    # grids
    try:
        X, Y = w.ar.arr(a["x"]), w.ar.arr(a["y"])
        if avg:
            first = (w.ar.at(X, 0).r, w.ar.at(X, -1).r)
        else:
            if X.shape != (nn,) or Y.shape != (nn,):
                ctx.bad("T02.grid", construct, "%s points and %s values for %s values" % (X.shape[0], Y.shape[0], nn), loc)
                return
            i = Lin(0, {"i": 1})
            X.shape = Y.shape = (nn,)
            first = (X.get(i).r, None)
            y = Y.get(i).r
            if al.eq(y, w.values.get(i).r):
                ctx.holds("T02.values", construct)
            else:
                ctx.bad("T02.values", construct, "the interpolated values are %s" % al.show(y), loc)
        unit_s = grid_scale(ctx, construct, w, case, first[0], w.sg, lin(0) if avg else Lin(0, {"i": 1}), loc)
        if unit_s is None:
            return
        if avg:
            unit_l = grid_scale(ctx, construct, w, case, first[1], w.sg, nn, loc)
            # result
            res = Arrays.arr(w.ar, v)
            if res.shape != (w.m - 1,):
                ctx.bad("T02.result", construct, "%s values for %s target points" % (res.shape[0], w.m), loc)
                return
            for i in (lin(0), w.m - 2, None):
                ww, ii = (w, i)
                if i is None:
                    ww = World(case, nn, avg, evs)
                    ww.m = Lin(3, {"u": 1, "i": 1})
                    ww.ar.bases[ww.tg] = ww.ar.base(ww.tg, ww.m, ("dt", "resolution of " + show(ww.tg)))
                    res2, ii = ww.ar.arr(v), Lin(0, {"i": 1}) + 1
                    # 1 <= i+1 <= m-2
                    got = ww.ar.at(res2, ii).r
                else:
                    got = ww.ar.at(res, i).r
                al2 = ww.alg
                s = al2.const(unit_s) if not hasattr(unit_s, "n") else unit_s
                if ww is not w and hasattr(unit_s, "n"):
                    raise Unknown("unit of time")
                lo, hi = (al2.mul(s, ww.time(ww.tg, ii + j)) for j in range(2))
                want = al2.div(al2.atom("integral", (c, lo, hi)), al2.add(hi, lo, -1))
                if al2.eq(got, want):
                    ctx.holds("T02.result", construct)
                    ctx.holds("T03.unit", construct)
                else:
                    verdict(ctx, construct, al2, got, want, case, loc, c)
        else:
            if not (v.op == "call" and v.args[0] is c and len(v.args[1]) == 1):
                raise Unknown("result %s" % show(v)[:80])
            Z = w.ar.arr(v.args[1][0])
            if Z.shape != (w.m,):
                ctx.bad("T02.result", construct, "%s values for %s target points" % (Z.shape[0], w.m), loc)
                return
            i = Lin(0, {"j": 1})
            unit_t = grid_scale(ctx, construct, w, case, Z.get(i).r, w.tg, i, loc)
            if unit_t is None:
                return
            if unit_t == unit_s:
                ctx.holds("T02.result", construct)
                ctx.holds("T03.unit", construct)
            else:
                ctx.bad("T03.unit", construct, "source and target are in different units of time", loc)
    except IndexError as e:
        ctx.bad("T02.grid", construct, str(e), loc)
    except Narrow as e:
        ctx.bad("T03.narrow", construct, "time points are converted to %s" % e, loc)
    except DivisionByZero:
        ctx.bad("T02.grid", construct, "division by zero", loc)


def grid_scale(ctx, construct, w, case, got, g, i, loc):
    """Unit of a point of the grid: a constant, or None (reported)"""
    al = w.alg
    want = al.atom("at", (g, const(repr(i))))
    s = al.div(got, want)
    q = al.is_const(s)
    if q is not None:
        if q > 0:
            return q
    names = {al.atoms[k][0] for p in (s.n, s.d) for mm in p for k, _ in mm}
    if "ticks" in names and names <= {"ticks"}:
        ctx.bad("T03.unit", construct, "time points are used in the resolution in which they are given", loc)
        return None
    others = [al.atoms[k][1][0] for p in (got.n, got.d) for mm in p for k, _ in mm if al.atoms[k][0] == "at"]
    if any(x is not g for x in others):
        ctx.bad("T02.direction", construct, "%s is used as %s" % (al.show(got)[:80], "source" if g is w.sg else "target"), loc)
    else:
        ctx.bad("T02.grid", construct, "point %s of the grid is at %s" % (i, al.show(got)[:80]), loc)
    return None


def verdict(ctx, construct, al, got, want, case, loc, c):
    names = {al.atoms[k][0] for p in (got.n, got.d) for mm in p for k, _ in mm}
    if names <= {"at", "integral", "int"} or "ticks" in names and names <= {"at", "integral", "ticks"}:
        if "ticks" in names:
            ctx.bad("T03.unit", construct, "time points are used in the resolution in which they are given", loc)
        else:
            ctx.bad("T02.result", construct, "a value is %s instead of %s" % (brief(al, got, c), brief(al, want, c)), loc)
    else:
        raise Unknown("value %s" % al.show(got)[:80])


def brief(al, r, c):
    return al.show(r).replace(show(c), "f")[:200]


def lengths(ctx):
    rule = "T02.length"
    for name, i in (("source_length", 1), ("target_length", 2)):
        q = TC + "." + name
        ctx.guard(rule, q, _length, ctx, rule, q, i)


def _length(ctx, rule, q, i):
    f = ctx.p.need_function(q)
    g = ctx.p.need_function(TC + ".__init__")
    me = self_of(TC)
    grid, tt = param(ctx, g, i), param(ctx, g, 3)
    other = param(ctx, g, 3 - i)
    for init in ctx.run(TC + ".__init__"):
        if init.kind != "return":
            continue
        fs = {k[1]: v for k, v in init.heap.items() if k[0] is me}
        m = {attr(me, k): v for k, v in fs.items()}
        for o in ctx.run(q):
            if o.kind != "return":
                ctx.bad(rule, q, desc(o), ctx.loc(f))
                continue
            for t, off in ((AVERAGE, 1), (POINT, 0)):
                if any(v is tt and implied(o, o.it.eqatom(attr(me, k), t)) is False for k, v in fs.items()):
                    continue
                al = Algebra()
                n = Lin(3, {"n": 1})
                ar = Arrays(al, {})
                ar.bases[grid] = ar.base(grid, n, ("dt", "a"))
                ar.bases[other] = ar.base(other, Lin(3, {"m": 1}), ("dt", "b"))
                got = ar.val(sub(o.value, m))
                if got.n is None:
                    raise Unknown(show(o.value))
                if got.n == n - off:
                    ctx.holds(rule, q)
                else:
                    ctx.bad(rule, q, "%s values for %s time points of type %s" % (got.n, n, t.args[1]), ctx.loc(f))


def comparisons(ctx):
    """T03: grids are only compared in the same unit"""
    rule = "T03.compare"
    q = TC + ".__init__"
    ctx.guard(rule, q, _comparisons, ctx, rule, q)


def _comparisons(ctx, rule, q):
    g = ctx.p.need_function(q)
    src, tgt = param(ctx, g, 1), param(ctx, g, 2)
    seen = set()
    for o in ctx.run(q):
        for a, _ in o.order:
            if a in seen or not (any(x is src for x in walk(a)) and any(x is tgt for x in walk(a))):
                continue
            seen.add(a)
            if a.op not in ("lt", "eq", "le"):
                raise Unknown("condition %s" % show(a)[:80])
            al = Algebra()
            ar = Arrays(al, {})
            for x in (src, tgt):
                ar.bases[x] = ar.base(x, Lin(3, {show(x): 1}), ("dt", "resolution of " + show(x)))
            units = []
            for x in a.args:
                v = ar.val(x)
                atoms = [al.atoms[k] for p in (v.r.n, v.r.d) for mm in p for k, _ in mm]
                if v.kind != "num":
                    units.append("dt")
                    continue
                at = [y for y in atoms if y[0] == "at"]
                if len(at) != 1:
                    raise Unknown("comparison %s" % show(a)[:80])
                s = al.div(v.r, al.atom("at", at[0][1]))
                qn = al.is_const(s)
                units.append(qn if qn is not None else al.show(s))
            if units[0] == units[1] and not isinstance(units[0], str) or set(units) == {"dt"}:
                ctx.holds(rule, q)
            else:
                ctx.bad(rule, q, "source and target are compared in different units of time", ctx.loc(g))
    if not seen:
        ctx.holds(rule, q)


# ---------------------------------------------------------------------- T04
FROM = [(PT + ".from_timeseries_type", PT, {"average": "AVERAGE_TIMESERIES", "point": "POINT_TIMESERIES"}),
        (IT + ".from_interpolation_type", IT, None), (ET + ".from_extrapolation_type", ET, None)]
CASEFREE = ("lower", "upper", "casefold", "capitalize", "title", "swapcase")


def spellings(ctx):
    for q, cls, names in FROM:
        ctx.guard("T04.spelling", q, _spellings, ctx, q, cls, names)
    q = PT + ".timeseries_type_to_string"
    ctx.guard("T04.roundtrip", q, _roundtrip, ctx, q)


def only(ctx, q, args):
    """Result of a function for given values: (kind, value or exception); raises Unknown if it depends on something else"""
    r = set()
    for o in ctx.run(q, args=args):
        r.add((o.kind, o.value if o.kind == "return" else o.exc()))
    if len(r) != 1:
        raise Unknown("%d results for %s" % (len(r), ", ".join(show(x) for x in args.values())))
    return r.pop()


def variants(n):
    return sorted({n.lower(), n.upper(), n.title(), n.lower()[:-1] + n[-1].upper(), n[0].lower() + n[1:].upper()})


def _spellings(ctx, q, cls, names):
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    par = param(ctx, f, 1)
    members = list(ctx.p.enum_members(cls))
    table = names or {n.lower(): n for n in members}
    for n, m in table.items():
        want = mk("enum", cls, m)
        for s in variants(n):
            kind, v = only(ctx, q, {par.args[0]: const(s)})
            if kind == "return" and v is want:
                ctx.holds("T04.spelling", q)
            else:
                ctx.bad("T04.spelling", q, "%r gives %s instead of %s" % (s, show(v) if kind == "return" else v, m), loc)
    for m in members:
        want = mk("enum", cls, m)
        kind, v = only(ctx, q, {par.args[0]: want})
        if m in table.values():
            if kind == "return" and v is want:
                ctx.holds("T04.member", q)
            else:
                ctx.bad("T04.member", q, "%s gives %s" % (m, show(v) if kind == "return" else v), loc)
        elif kind == "raise" and v == "builtins.ValueError":
            ctx.holds("T04.rejected", q)
        else:
            ctx.bad("T04.rejected", q, "%s gives %s" % (m, show(v) if kind == "return" else v), loc)
    if names:
        for s in ["", "scalar", "generic", "average_timeseries", "points", "averages", "avg", "p"]:
            kind, v = only(ctx, q, {par.args[0]: const(s)})
            if kind == "raise" and v == "builtins.ValueError":
                ctx.holds("T04.rejected", q)
            else:
                ctx.bad("T04.rejected", q, "%r gives %s" % (s, show(v) if kind == "return" else v), loc)
        for v in (const(None), const(5), const(2)):
            kind, r = only(ctx, q, {par.args[0]: v})
            if kind == "raise" and r == "builtins.ValueError":
                ctx.holds("T04.rejected", q)
            else:
                ctx.bad("T04.rejected", q, "%s gives %s" % (show(v), show(r) if kind == "return" else r), loc)
    # any other letter case
    for o in ctx.run(q):
        if o.kind == "raise" and o.exc() not in ("builtins.ValueError", "builtins.KeyError"):
            ctx.unk("T04.rejected", q, o.exc())
        if implied(o, mk("isinst", par, "builtins.str")) is False:
            continue
        terms = [a for a, _ in o.order] + ([o.value] if o.kind == "return" else [])
        if all(casefree(t, par) for t in terms):
            ctx.holds("T04.case", q)
        else:
            ctx.bad("T04.case", q, "the result depends on the letter case: %s" % "; ".join(show(t) for t in terms if not casefree(t, par))[:150], loc)


def casefree(t, par):
    if t is par:
        return False
    if t.op == "isinst":
        return True
    if t.op == "mcall" and t.args[1] in CASEFREE and t.args[0] is par:
        return True
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in CASEFREE and t.args[0].args[0] is par:
        return True
    return all(casefree(x, par) for x in subterms(t))


def subterms(t):
    r = []

    def go(x):
        if isinstance(x, T):
            r.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    for x in t.args:
        go(x)
    return r


def _roundtrip(ctx, q):
    f = ctx.p.need_function(q)
    par = param(ctx, f, 1)
    back = FROM[0][0]
    bp = param(ctx, ctx.p.need_function(back), 1)
    for m in ctx.p.enum_members(PT):
        e = mk("enum", PT, m)
        kind, v = only(ctx, q, {par.args[0]: e})
        if e in (AVERAGE, POINT):
            if kind != "return" or not is_str(v):
                ctx.bad("T04.roundtrip", q, "%s gives %s" % (m, show(v) if kind == "return" else v), ctx.loc(f))
                continue
            kind, w = only(ctx, back, {bp.args[0]: v})
            if kind == "return" and w is e:
                ctx.holds("T04.roundtrip", q)
            else:
                ctx.bad("T04.roundtrip", q, "%s gives %r, which is not %s" % (m, cval(v), m), ctx.loc(f))
        elif kind == "raise" and v == "builtins.ValueError":
            ctx.holds("T04.roundtrip", q)
        else:
            ctx.bad("T04.roundtrip", q, "%s gives %s" % (m, show(v) if kind == "return" else v), ctx.loc(f))


def uses_opaque(q):
    return q in LOOKUPS or q.endswith("._Parameter.attempt_read") or q == "openscm.core.views.TimeseriesView"


def uses(ctx):
    """The spellings are interchangeable where they are used"""
    q = "openscm.core.parameterset.ParameterSet.timeseries"
    ctx.guard("T04.uses", q, _uses, ctx, q)
    q = MOD + ".create_time_points"
    ctx.guard("T04.uses", q, _uses_create, ctx, q)


def _uses(ctx, q):
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    ps = [named_param(ctx, f, n) for n in ("timeseries_type", "interpolation", "extrapolation")]
    combos = [(PT, "average", "AVERAGE_TIMESERIES", 0), (PT, "Point", "POINT_TIMESERIES", 0), (IT, "LINEAR", "LINEAR", 1), (IT, "linear", "LINEAR", 1)]
    combos += [(ET, s, m, 2) for m in ctx.p.enum_members(ET) for s in (m.lower(), m)]
    seen = {}
    for cls, s, m, i in combos:
        a, b = ({p.args[0]: v} for p, v in ((ps[i], const(s)), (ps[i], mk("enum", cls, m))))
        ra, rb = (trace(ctx, q, x) for x in (a, b))
        if ra == rb:
            ctx.holds("T04.uses", q)
        else:
            d = sorted(ra ^ rb)
            ctx.bad("T04.uses", q, "%s=%r is not the same as %s: %s" % (ps[i].args[0], s, m, d[0][:150] if d else ""), loc)


def plain(t):
    """Text of a value without the numbers of new objects"""
    return re.sub(r"(#|@)\d+", "", re.sub(r"\brnew\(([\w.]+), \d+", r"rnew(\1", show(t)))


def trace(ctx, q, args):
    """What a call does: results and calls"""
    r = set()
    for o in ctx.run(q, opaque=uses_opaque, args=args):
        ev = [plain(e.a[0]) if isinstance(e.a[0], T) else "" for e in o.flat() if e.kind in ("rcall", "rnew", "setattr")]
        r.add("%s %s" % (plain(o.value) if o.kind == "return" else o.exc(), "; ".join(x for x in ev if "from_" not in x)))
    return frozenset(r)


def _uses_create(ctx, q):
    f = ctx.p.need_function(q)
    p = param(ctx, f, 3)
    for s, m in (("average", AVERAGE), ("Point", POINT), ("AVERAGE", AVERAGE)):
        a, b = only(ctx, q, {p.args[0]: const(s)}), only(ctx, q, {p.args[0]: m})
        if a == b:
            ctx.holds("T04.uses", q)
        else:
            ctx.bad("T04.uses", q, "%r is not the same as %s" % (s, m.args[1]), ctx.loc(f))


# ---------------------------------------------------------------------- T05
ARRAY_KINDS = {  # category: (array kind, classes of the array type, classes of the first element)
    "datetime64": ("M", {"numpy.datetime64"}, {"numpy.datetime64"}),
    "float": ("f", {"numpy.float64", "numpy.floating", "numpy.inexact", "numpy.number", "builtins.float"}, {"numpy.float64", "numpy.floating", "numpy.number", "builtins.float"}),
    "int": ("i", {"numpy.int64", "numpy.signedinteger", "numpy.integer", "numpy.number"}, {"numpy.int64", "numpy.integer", "numpy.number"}),
    "str": ("U", {"numpy.str_", "builtins.str", "numpy.character"}, {"numpy.str_", "builtins.str"}),
    "object:datetime": ("O", {"numpy.object_"}, {"datetime.datetime", "datetime.date"}),
    "object:datetime64": ("O", {"numpy.object_"}, {"numpy.datetime64"}),
    "object:int": ("O", {"numpy.object_"}, {"builtins.int"}),
    "object:float": ("O", {"numpy.object_"}, {"builtins.float"}),
    "object:str": ("O", {"numpy.object_"}, {"builtins.str"}),
}
DTYPE_OF = {"builtins.int": {"numpy.int64", "numpy.signedinteger", "numpy.integer", "numpy.number"},
            "builtins.float": ARRAY_KINDS["float"][1], "builtins.str": ARRAY_KINDS["str"][1], "numpy.datetime64": {"numpy.datetime64"},
            "datetime.datetime": {"numpy.object_"}}
RANGE = ("pandas.to_datetime", "pandas.DatetimeIndex", "pandas.Timestamp", "pandas.date_range", "pandas.PeriodIndex", "pandas.Index")


def base_array(t, v):
    """Is the term the values (as array)?"""
    while t is not v:
        if t.op == "call" and call_name(t) in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.atleast_1d", "numpy.copy") and t.args[1] and not [k for k, _ in t.args[2] if k == "dtype"] and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] == "copy":
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "copy":
            t = t.args[0].args[0]
        else:
            return False
    return True


class Times:
    def __init__(self, v, cat):
        self.v, self.cat = v, cat
        self.kind, self.arr, self.elt = ARRAY_KINDS[cat] if cat != "empty" else ("f", set(), set())

    def classes(self, t):
        """Classes of a type expression"""
        if t.op == "attr" and t.args[1] == "type":
            d = t.args[0]
            if d.op == "attr" and d.args[1] == "dtype" and base_array(d.args[0], self.v):
                return self.arr
            if d.op == "call" and call_name(d) == "numpy.dtype" and len(d.args[1]) == 1:
                c = self.classes(d.args[1][0])
                for x, y in DTYPE_OF.items():
                    if x in c:
                        return y
                return c
        if t.op == "call" and call_name(t) == "builtins.type" and self.is_elem(t.args[1][0]):
            return self.elt
        if t.op == "attr" and t.args[1] == "dtype" and base_array(t.args[0], self.v):
            return self.arr
        raise Unknown("type %s" % show(t))

    def is_elem(self, t):
        return t.op == "item" and base_array(t.args[0], self.v) and is_const(t.args[1])

    def atom(self, a):
        """Truth of a condition"""
        if a.op == "lt" and a.args[0].op == "len" and base_array(a.args[0].args[0], self.v) and is_num(a.args[1]):
            k = cval(a.args[1])
            if self.cat == "empty":
                return 0 < k
            if k <= 1:
                return False
            raise Unknown(show(a))
        if a.op in ("lt", "eq") and any(x.op == "attr" and x.args[1] in ("size", "ndim") for x in a.args):
            x = [x for x in a.args if x.op == "attr"][0]
            if x.args[1] == "size" and base_array(x.args[0], self.v):
                y = [z for z in a.args if z is not x][0]
                if is_num(y) and a.op == "eq" and cval(y) == 0 or a.op == "lt" and is_num(y) and a.args[0] is x and cval(y) == 1:
                    return self.cat == "empty"
            raise Unknown(show(a))
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if x.op == "attr" and x.args[1] == "kind" and is_str(y) and x.args[0].op == "attr" and x.args[0].args[1] == "dtype" and base_array(x.args[0].args[0], self.v):
                    if self.cat == "empty":
                        raise Unknown(show(a))
                    return cval(y) == self.kind
                if x.op == "attr" and x.args[1] == "dtype" and base_array(x.args[0], self.v):
                    n = y.args[0] if y.op == "ext" else cval(y) if is_str(y) else None
                    if n in ("builtins.object", "object", "O"):
                        return self.kind == "O"
        if a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) in ("builtins.issubclass", "numpy.issubdtype") and self.cat != "empty":
            t, c = a.args[0].args[1][:2]
            cs = [c] if c.op != "tuple" else list(c.args)
            if all(x.op in ("ext", "class") for x in cs):
                return any(x.args[0] in self.classes(t) for x in cs)
        if a.op == "isinst" and self.is_elem(a.args[0]) and self.cat != "empty":
            c = a.args[1]
            return (c.args[0] if isinstance(c, T) else c) in self.elt
        raise Unknown("condition %s" % show(a))


def formats(ctx):
    q = MOD + ".TimePoints"
    ctx.p.need_class(q)
    ctx.guard("T05.format", q, _formats, ctx, q)


def backing(ctx, q):
    """Field behind the property TimePoints.values"""
    me = self_of(q)
    r = {o.value for o in ctx.run(q + ".values") if o.kind == "return"}
    if len(r) != 1:
        raise Unknown("values of TimePoints")
    (v,) = r
    x = strip_copy(v)
    if x.op != "attr" or x.args[0] is not me:
        raise Unknown("values of TimePoints are %s" % show(v))
    return x.args[1]


def _formats(ctx, q):
    f = ctx.p.need_function(q + ".__init__")
    loc = ctx.loc(f)
    me = self_of(q)
    v = param(ctx, f, 1)
    field = backing(ctx, q)
    outs = ctx.run(q + ".__init__")
    for cat in ["empty"] + list(ARRAY_KINDS):
        construct = q + "[" + cat + "]"
        n = 0
        seen = set()
        for o in outs:
            try:
                if any(Times(v, cat).atom(a) != val for a, val in o.order if relevant(a, v)):
                    continue
            except Unknown as e:
                # the path may be excluded by another condition
                if excluded(o, v, cat):
                    continue
                ctx.unk("T05.format", construct, str(e))
                continue
            n += 1
            imp = [e for e in o.flat() if e.kind == "implicit_raise"]
            if o.kind == "raise":
                if not imp:
                    ctx.bad("T05.format", construct, "time points given as %s are rejected with %s" % (cat, o.exc()), loc)
                continue
            for e in o.flat():
                if e.kind in ("setitem", "delitem", "mutcall", "augassign") and strip_view(e.a[0], v):
                    ctx.bad("T05.caller", construct, "the array that is passed in is changed", loc)
                if e.kind == "call" and any(k == "copy" for k, _ in call_kw(e.a[0])):
                    pass
            got = o.heap.get((me, field))
            if got is None:
                raise Unknown("field %s is not set" % field)
            ctx.guard("T05.format", construct, _format, ctx, construct, got, v, cat, {str(e.a[0]) for e in imp}, loc, seen)
        if not n:
            ctx.unk("T05.format", construct, "no path for %s" % cat)
        if "number" in seen and not seen & {"ValueError", "Exception", "BaseException"}:
            ctx.bad("T05.format", construct, "strings that are not numbers are rejected (ValueError is not handled)", loc)


def strip_view(t, v):
    """May a change of `t` change the caller's array?"""
    while t is not v:
        if t.op == "call" and call_name(t) in ("numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.ravel") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "slice" or t.op == "mcall" and t.args[1] in ("view", "reshape", "ravel"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("view", "reshape", "ravel"):
            t = t.args[0].args[0]
        else:
            return False
    return True


def relevant(a, v):
    return any(x is v for x in walk(a))


def excluded(o, v, cat):
    for a, val in o.order:
        try:
            if relevant(a, v) and Times(v, cat).atom(a) != val:
                return True
        except Unknown:
            continue
    return False


def casts(t):
    """(innermost value, list of types from the inside to the outside)"""
    r = []
    while True:
        if t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy", "numpy.ascontiguousarray") and t.args[1]:
            d = dict(x for x in t.args[2] if isinstance(x, tuple)).get("dtype") or (t.args[1][1] if len(t.args[1]) > 1 else None)
            if d is not None:
                r.append(d)
            t = t.args[1][0]
            continue
        m = method(t)
        if m and m[1] == "astype" and m[2]:
            r.append(m[2][0])
            t = m[0]
            continue
        if m and m[1] == "copy":
            t = m[0]
            continue
        return t, r[::-1]


ROUNDING = ("numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint", "numpy.trunc", "numpy.around", "numpy.fix", "builtins.round", "builtins.int", "numpy.float32", "numpy.float16")
SEC = ("datetime64[s]", "<M8[s]", "M8[s]")


def names(ds):
    return [cval(d) if is_str(d) else d.args[0] if d.op == "ext" else show(d) for d in ds]


def _format(ctx, construct, got, v, cat, handled, loc, seen):
    rule = "T05.format"
    x, ds = casts(got)
    ds = names(ds)
    for y in walk(got):
        if y.op == "call" and call_name(y) in RANGE or y.op in ("ext",) and y.args[0] in RANGE:
            ctx.bad("T05.range", construct, "times go through %s, which has a restricted range" % (call_name(y) or y.args[0]), loc)
            return
    if "datetime64[ns]" in ds or "<M8[ns]" in ds or "M8[ns]" in ds:
        ctx.bad("T05.range", construct, "times go through nanosecond timestamps", loc)
        return
    if not ds or ds[-1] not in SEC:
        if ds and ds[-1].startswith("datetime64["):
            ctx.bad(rule, construct, "the resolution is %s" % ds[-1], loc)
            return
        raise Unknown("times are %s" % show(got)[:80])
    if cat == "empty":
        ok = x.op == "list" and not x.args or base_array(x, v)
        ctx.holds(rule, construct) if ok else ctx.unk(rule, construct, show(got)[:80])
        return
    pre = ds[:-1]
    kind = cat.split(":")[-1]
    if kind in ("datetime", "datetime64"):
        if base_array(x, v):
            coarse = [d for d in pre if d in ("datetime64[D]", "datetime64[M]", "datetime64[Y]", "datetime64[h]", "datetime64[m]", "datetime64[W]")]
            if coarse:
                ctx.bad(rule, construct, "times are cut to %s" % coarse[0], loc)
            elif all(d in SEC or d in ("datetime64[us]", "datetime64[ms]", "datetime64", "builtins.object") for d in pre):
                ctx.holds(rule, construct)
            else:
                raise Unknown("casts %s" % ", ".join(ds))
        elif y_mean(x, v):
            ctx.bad(rule, construct, "times given as %s are taken as %s" % (cat, y_mean(x, v)), loc)
        else:
            raise Unknown("times are %s" % show(got)[:80])
        return
    if kind == "int":
        _int_years(ctx, rule, construct, x, pre, v, loc)
        return
    if kind == "float":
        _float_years(ctx, rule, construct, x, pre, v, loc)
        return
    # strings: a year as number or a date
    u = ufunc(x)
    if u is None:
        if base_array(x, v) and not pre:
            ctx.bad(rule, construct, "strings are only understood in the format of numpy", loc)
            return
        raise Unknown("times are %s" % show(got)[:80])
    fn, a = u
    if fn.op == "ext" and fn.args[0] in ("dateutil.parser.parse", "dateutil.parser._parser.parse"):
        if base_array(a, v) and handled:
            seen.update(handled)
            ctx.holds(rule, construct)
        elif base_array(a, v):
            ctx.bad(rule, construct, "years given as strings are not understood", loc)
        else:
            raise Unknown("argument %s" % show(a)[:80])
        return
    b, bs = casts(a)
    if base_array(b, v) and names(bs) in (["builtins.float"], ["numpy.float64"], ["float"]):
        if handled:
            raise Unknown("handled error")
        seen.add("number")
        _float_function(ctx, rule, construct, fn, loc)
        return
    raise Unknown("times are %s" % show(got)[:80])


def y_mean(x, v):
    u = ufunc(x)
    if u and any(y is v for y in walk(u[1])):
        return "strings" if u[0].op == "ext" else "years"
    if x.op == "-" and base_array(x.args[0], v):
        return "years"
    return None


def ufunc(x):
    """(function, array) of an elementwise application"""
    if x.op == "call" and x.args[0].op == "call" and call_name(x.args[0]) in ("numpy.frompyfunc", "numpy.vectorize") and len(x.args[1]) == 1:
        return x.args[0].args[1][0], x.args[1][0]
    if x.op in ("comp",) and len(x.args[1]) == 1 and not x.args[1][0][0] and len(x.args[1][0][1]) == 1:
        it, e = x.args[0], x.args[1][0][1][0]
        el = mk("elem", it)
        return mk("lam", "", (((), sub(e, {el: mk("sym", "$0", ("any",))})),)), it
    return None


def _int_years(ctx, rule, construct, x, pre, v, loc):
    if any(d in ("numpy.int16", "numpy.int8", "int16", "int8", "numpy.uint8", "numpy.uint16") for d in pre):
        ctx.bad(rule, construct, "years are narrowed", loc)
        return
    al = Algebra()
    a = al.atom("year", ())
    al.leaf = lambda t: a if base_array(casts(t)[0], v) and all(d in ("builtins.int", "numpy.int64", "int64", "int") for d in names(casts(t)[1])) else None
    got = al(x)
    if [y for y in al.leaves(got)]:
        if ufunc(x):
            raise Unknown("elementwise %s" % show(x)[:60])
        raise Unknown("years are %s" % show(x)[:60])
    if not al.eq(got, al.add(a, al.const(1970), -1)):
        ctx.bad(rule, construct, "integer years y are converted by %s" % al.show(got), loc)
    elif pre in (["datetime64[Y]"], ["<M8[Y]"], ["M8[Y]"]):
        ctx.holds(rule, construct)
    elif pre and pre[0].startswith("datetime64["):
        ctx.bad(rule, construct, "years since 1970 are taken as %s" % pre[0], loc)
    elif not pre:
        ctx.bad(rule, construct, "years since 1970 are taken as seconds", loc)
    else:
        raise Unknown("casts %s" % ", ".join(pre))


def _float_years(ctx, rule, construct, x, pre, v, loc):
    u = ufunc(x)
    if u is None or pre:
        if base_array(x, v) and not pre:
            ctx.bad(rule, construct, "years are taken as seconds", loc)
            return
        if any(p.startswith("datetime64[Y]") for p in pre):
            ctx.bad(rule, construct, "the fraction of years is lost", loc)
            return
        raise Unknown("years are %s" % show(x)[:60])
    fn, a = u
    b, bs = casts(a)
    if not base_array(b, v):
        if b.op == "call" and call_name(b) in ROUNDING and b.args[1] and base_array(casts(b.args[1][0])[0], v):
            ctx.bad(rule, construct, "the fraction of years is changed by %s" % call_name(b), loc)
            return
        raise Unknown("argument %s" % show(a)[:80])
    if any(n in ("builtins.int", "numpy.int64", "int64") for n in names(bs)):
        ctx.bad(rule, construct, "the fraction of years is lost", loc)
        return
    _float_function(ctx, rule, construct, fn, loc)


def _float_function(ctx, rule, construct, fn, loc):
    """x -> start of year int(x) + seconds of that year * fraction"""
    if fn.op != "lam" or len(fn.args[1]) != 1:
        raise Unknown("function %s" % show(fn)[:80])
    conds, body = fn.args[1][0]
    if conds:
        raise Unknown("condition %s" % show(conds[0])[:80])
    xs = [t for t in walk(body) if t.op == "sym" and t.args[0] == "$0"]
    if not xs:
        raise Unknown("function %s" % show(body)[:80])
    x = xs[0]
    al = Algebra()

    def leaf(t):
        n = call_name(t) if t.op == "call" else None
        if n in ("builtins.int", "math.floor", "math.trunc", "numpy.floor", "numpy.trunc") and t.args[1][0] is x:
            return al.atom("year", ())
        if n == "math.modf":
            return None
        if t is x:
            return al.add(al.atom("year", ()), al.atom("fraction", ()))
        if n in ("builtins.int", "builtins.round") and len(t.args[1]) == 1:
            return al.atom("whole", (al(t.args[1][0]),)) if n == "builtins.int" else al.atom("round", (al(t.args[1][0]),))
        if n == "numpy.datetime64":
            u = cval(t.args[1][1]) if len(t.args[1]) > 1 and is_str(t.args[1][1]) else "?"
            return al.atom("date " + u, (al(t.args[1][0]),))
        if n == "numpy.timedelta64":
            u = cval(t.args[1][1]) if len(t.args[1]) > 1 and is_str(t.args[1][1]) else "?"
            k = {"s": 1, "m": 60, "h": 3600, "D": 86400}.get(u)
            if k is None:
                return al.atom("time " + u, (al(t.args[1][0]),))
            return al.mul(al.const(k), al(t.args[1][0]))
        if n in ("datetime.datetime", "datetime.date"):
            a = list(t.args[1]) + [const(1)] * (3 - len(t.args[1]))
            if [cval(y) if is_const(y) else None for y in a[1:3]] == [1, 1] and not t.args[2] and len(t.args[1]) <= 3:
                return al.atom("start", (al(a[0]),))
        m = method(t)
        if m and m[1] == "total_seconds" and not m[2]:
            return al(m[0])
        return None

    al.leaf = leaf
    got = al(body)
    y, fr, one = al.atom("year", ()), al.atom("fraction", ()), al.const(1)
    length = al.add(al.atom("start", (al.add(y, one),)), al.atom("start", (y,)), -1)
    want = al.add(al.atom("date Y", (al.add(y, al.const(1970), -1),)), al.atom("whole", (al.mul(length, fr),)))
    want2 = al.add(al.atom("date Y", (al.add(y, al.const(1970), -1),)), al.atom("round", (al.mul(length, fr),)))
    if al.eq(got, want) or al.eq(got, want2):
        ctx.holds(rule, construct)
        return
    lv = al.leaves(got)
    if lv:
        raise Unknown("function %s" % show(lv[0])[:80])
    ctx.bad(rule, construct, "year + fraction is converted to %s" % al.show(got)[:200], loc)


def accessors(ctx):
    q = MOD + ".TimePoints"
    for name, comp in (("years", "year"), ("months", "month"), ("days", "day"), ("hours", "hour"), ("weekdays", "weekday")):
        ctx.guard("T05.accessor", q + "." + name, _accessor, ctx, q, name, comp)
    ctx.guard("T05.accessor", q + ".to_index", _to_index, ctx, q)


def elementwise(t, field, me):
    """(what is taken of each element, source) of a per-element accessor"""
    x, ds = casts(t)
    if x.op == "call" and x.args[0].op == "call" and call_name(x.args[0]) in ("numpy.vectorize", "numpy.frompyfunc"):
        fn, args = x.args[0].args[1][0], x.args[1]
        src = args[0]
        if fn.op == "ext" and fn.args[0] == "builtins.getattr" and len(args) == 2 and is_str(args[1]):
            return cval(args[1]), src
        if fn.op == "ext" and fn.args[0].startswith("datetime.datetime."):
            return fn.args[0].rsplit(".", 1)[1], src
        if fn.op == "attr" and fn.args[0].op == "ext" and fn.args[0].args[0] == "datetime.datetime":
            return fn.args[1], src
        if fn.op == "call" and call_name(fn) in ("operator.attrgetter", "operator.methodcaller") and is_str(fn.args[1][0]):
            return cval(fn.args[1][0]), src
        if fn.op == "lam" and len(fn.args[1]) == 1 and not fn.args[1][0][0] and len(args) == 1:
            return of_elem(fn.args[1][0][1], lambda y: y.op == "sym" and y.args[0] == "$0"), src
        raise Unknown("function %s" % show(fn)[:60])
    if x.op == "comp" and len(x.args[1]) == 1 and not x.args[1][0][0]:
        return of_elem(x.args[1][0][1][0], lambda y: y is mk("elem", x.args[0])), x.args[0]
    raise Unknown("accessor %s" % show(t)[:80])


def of_elem(b, is_el):
    if b.op == "attr" and is_el(b.args[0]):
        return b.args[1]
    m = method(b)
    if m and is_el(m[0]) and not m[2]:
        return m[1]
    if b.op == "call" and call_name(b) == "builtins.getattr" and is_el(b.args[1][0]) and is_str(b.args[1][1]):
        return cval(b.args[1][1])
    raise Unknown("element %s" % show(b)[:60])


def objects(src, field, me):
    """Are these the time points as datetime objects?"""
    x, ds = casts(src)
    if x is not attr(me, field):
        raise Unknown("times %s" % show(src)[:80])
    ds = names(ds)
    for d in ds:
        if d in ("datetime64[ns]", "M8[ns]", "<M8[ns]"):
            return "nanosecond timestamps"
        if d in ("datetime64[D]", "datetime64[M]", "datetime64[Y]", "datetime64[h]", "datetime64[m]"):
            return d
    if not ds or ds[-1] not in ("builtins.object", "object", "O") or not all(d in SEC or d in ("builtins.object", "object", "O", "datetime64[us]", "datetime64[ms]") for d in ds):
        raise Unknown("casts %s" % ", ".join(ds))
    return None


def restricted(t):
    for y in walk(t):
        if y.op == "call" and call_name(y) in RANGE[:-2]:
            return call_name(y)
    return None


def _accessor(ctx, q, name, comp):
    f = ctx.p.need_function(q + "." + name)
    me, field = self_of(q), backing(ctx, q)
    for o in ctx.run(q + "." + name):
        if o.kind != "return":
            ctx.bad("T05.accessor", f.qualname, desc(o), ctx.loc(f))
            continue
        r = restricted(o.value)
        if r:
            ctx.bad("T05.range", f.qualname, "times go through %s, which has a restricted range" % r, ctx.loc(f))
            continue
        what, src = elementwise(o.value, field, me)
        why = objects(src, field, me)
        if what != comp:
            ctx.bad("T05.accessor", f.qualname, "the %s of each time point is returned" % what, ctx.loc(f))
        elif why and not (why == "datetime64[D]" and comp != "hour" or why == "datetime64[h]"):
            ctx.bad("T05.accessor", f.qualname, "times go through %s" % why, ctx.loc(f))
        else:
            ctx.holds("T05.accessor", f.qualname)


def _to_index(ctx, q):
    f = ctx.p.need_function(q + ".to_index")
    me, field = self_of(q), backing(ctx, q)
    rule = "T05.accessor"
    for o in ctx.run(f.qualname):
        t = o.value
        r = restricted(t)
        if r:
            ctx.bad("T05.range", f.qualname, "times go through %s, which has a restricted range" % r, ctx.loc(f))
            continue
        if t.op != "call" or call_name(t) != "pandas.Index":
            raise Unknown("index %s" % show(t)[:80])
        a = kwargs(ctx, t, ("data", "dtype", "copy", "name"))
        why = objects(a["data"], field, me)
        d = a.get("dtype")
        if why:
            ctx.bad(rule, f.qualname, "times go through %s" % why, ctx.loc(f))
        elif d is None or d.op == "ext" and d.args[0] != "builtins.object":
            ctx.bad("T05.range", f.qualname, "the index has type %s" % (show(d) if d is not None else "datetime64[ns]"), ctx.loc(f))
        elif "name" not in a or not is_str(a["name"]) or cval(a["name"]) != "time":
            ctx.bad(rule, f.qualname, "the index is named %s" % (show(a["name"]) if "name" in a else None), ctx.loc(f))
        else:
            ctx.holds(rule, f.qualname)


# ---------------------------------------------------------------------- T06
def created(ctx):
    q = MOD + ".create_time_points"
    ctx.p.need_function(q)
    ctx.guard("T06.points", q, _created, ctx, q)


def _created(ctx, q):
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    start, period, num, tt = (param(ctx, f, i) for i in range(4))
    for t, more in ((AVERAGE, 1), (POINT, 0), (const("average"), 1), (const("Average"), 1), (const("point"), 0)):
        construct = "%s[%s]" % (q, t.args[1] if t.op == "enum" else cval(t))
        for o in ctx.run(q, args={tt.args[0]: t}):
            if o.kind != "return":
                ctx.bad("T06.points", construct, desc(o), loc)
                continue
            ctx.guard("T06.points", construct, _created_path, ctx, construct, o, start, period, num, more, loc)


def _created_path(ctx, construct, o, start, period, num, more, loc):
    al = Algebra()
    n = Lin(2, {"n": 1})
    ar = Arrays(al, {}, o.events)
    s, p = al.atom("start", ()), al.atom("period", ())
    ar.bases[start] = Val(s, ("dt", "resolution of the start"))
    ar.bases[period] = Val(p, ("dt", "resolution of the period"))
    ar.bases[num] = ar.of_lin(n)
    try:
        a = ar.arr(o.value)
        if a.shape != (n + more,):
            ctx.bad("T06.points", construct, "%s time points for %s values" % (a.shape[0], n), loc)
            return
        ctx.holds("T06.count", construct)
        i = Lin(0, {"i": 1})
        for what, k, want in (("first", lin(0), s), ("i-th", i, al.add(s, al.mul(ar.of_lin(i).r, p)))):
            v = a.get(k)
            if not al.eq(v.r, want):
                nm = {al.atoms[k2][0] for q2 in (v.r.n, v.r.d) for m in q2 for k2, _ in m}
                if nm <= {"start", "period", "var", "ticks", "int"}:
                    ctx.bad("T06.spacing", construct, "the %s time point is %s" % (what, al.show(v.r)), loc)
                    return
                raise Unknown("time point %s" % al.show(v.r)[:80])
            if v.kind != ("dt", 1):
                if v.kind == "num" or isinstance(v.kind[1], int):
                    ctx.bad("T06.spacing", construct, "time points are not in seconds", loc)
                    return
                ctx.unk("T06.spacing", construct, "resolution of the time points")
                return
        ctx.holds("T06.spacing", construct)
    except IndexError as e:
        ctx.bad("T06.points", construct, str(e), loc)
    except Narrow as e:
        ctx.bad("T06.spacing", construct, "times are converted to %s" % e, loc)


RULES = {
    "T01": {"rules": [averages], "explain": "Element formulas of the points and values handed to the interpolation are derived symbolically for any number of values (first, interior and last interval) and compared as rational normal forms."},
    "T02": {"rules": [conversions, lengths], "only": True, "explain": "For all combinations of types and extrapolations on all paths: guards, interpolation arguments, grids and element formula of the result."},
    "T03": {"rules": [conversions, comparisons], "only": True, "explain": "Unit-of-measure tracking from the constructor's arguments through all casts to each use of the grids."},
    "T04": {"rules": [spellings, uses], "explain": "Each member and spelling is propagated as a constant through the functions; letter case by provenance (only case-converted uses)."},
    "T05": {"rules": [formats, accessors], "explain": "Decision table over kinds of arrays on all paths of TimePoints; the chain of casts and elementwise functions of each is compared with its meaning."},
    "T06": {"rules": [created], "explain": "Length and element formula of the grid as rational normal forms for any number of values, start and period."},
}
