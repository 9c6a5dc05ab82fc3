"""Rules about the conversion between parameter sets and data frames (D09)"""
import re

from ..check import Unknown, implied
from ..terms import cval, is_num, is_str
from ..terms import sub as _sub
from .append import bound_args
from .frames import PSET, PTYPE, S, TP, VOL, core, run
from .ops import DATA, ITYPE, ETYPE, ME, META, TIMES, extended, flat_events, is_times, norm, type_name
from .select import Wrong
from .series import GUESS
from .util import *

TO = S + ".to_parameterset"
FROM = "openscm.scmdataframe.convert_openscm_to_scmdataframe"
REGION = "openscm.core.regions._Region"
PARAMETER = "openscm.core.parameters._Parameter"
INFO = "openscm.core.parameters.ParameterInfo"
SERIES_COLUMNS = ("variable", "region", "unit", "parameter_type")
WORLD = ("World",)


def d09(ctx):
    ctx.p.need_function(TO)
    ctx.p.need_function(FROM)
    ctx.guard("D09.to", TO, _to, ctx)
    ctx.guard("D09.from", FROM, _from, ctx)


def to_core(q):
    return core(q) or q == GUESS


def cls(q):
    return ("cls", q)


def texts(t):
    """The strings of a literal collection"""
    if is_str(t):
        return {cval(t)}
    if t.op in ("list", "tuple", "set") and all(is_str(x) for x in t.args):
        return {cval(x) for x in t.args}
    return None


def region_of(a):
    """Region named by the arguments of a view; None: the default"""
    r = a.get("region")
    if r is None:
        return None
    if r.op in ("tuple", "list") and all(is_str(x) for x in r.args) and tuple(cval(x) for x in r.args) == WORLD or is_str(r) and cval(r) == "World":
        return None
    return r


def view_calls(evs, name):
    return [e.a[0] for e in evs if e.kind == "rcall" and e.a[0].args[0] == PSET + "." + name]


def writes(evs):
    """(view, value) of what is written to views"""
    r = []
    for e in evs:
        if e.kind == "rcall" and "setter" in e.a[0].args[0] and len(e.a[0].args[1]) == 2:
            r.append((e.a[0].args[1][0], e.a[0].args[1][1]))
    return r


# --------------------------------------------------------------- data frame -> parameter set
class Rows:
    """Terms in which the entries of the metadata of the series at hand are `field` terms"""

    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.over = norm(it)

    def label(self, t):
        """Is it the label of the series of this iteration?"""
        e = mk("elem", self.it)
        m = method(self.it)
        if t in (mk("key", self.it), mk("item", e, const(0)), mk("key", DATA), mk("key", META)):
            return bool(m) and m[1] in ("items", "iteritems", "iterrows")
        return t is e and self.labels()

    def labels(self):
        i = self.over
        if i.op == "call" and call_name(i) in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(i.args[1]) == 1:
            i = norm(i.args[1][0])
        m = method(i)
        if m and m[1] in ("tolist", "to_list", "keys") and not m[2]:
            i = m[0]
        return i in (DATA, mk("attr", DATA, "columns"), mk("attr", META, "index"))

    def kind(self):
        """What is iterated over: labels, series of the data, rows of the metadata"""
        m = method(self.over)
        if self.labels():
            return "labels"
        if m and m[0] is DATA and m[1] in ("items", "iteritems") and not m[2]:
            return "data"
        if m and m[0] is META and m[1] == "iterrows" and not m[2]:
            return "meta"
        return None

    def row(self, t):
        """Is it the row of the metadata of the series?"""
        if t.op == "item" and t.args[0] == mk("attr", META, "loc"):
            return self.label(t.args[1]) or t.args[1].op == "tuple" and len(t.args[1].args) == 2 and self.label(t.args[1].args[0]) and t.args[1].args[1].op == "slice"
        m = method(self.over)
        if self.kind() == "meta":
            return t in (mk("item", mk("elem", self.it), const(1)), mk("val", self.it), mk("val", META))
        return False

    def field(self, t):
        """Name of the column of which it is the entry for the series"""
        if t.op == "item":
            if self.row(t.args[0]) and is_str(t.args[1]):
                return cval(t.args[1])
            x = t.args[0]
            if x.op == "attr" and x.args[1] in ("loc", "at") and x.args[0] is META and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
                i, c = t.args[1].args
                if self.label(i) and is_str(c):
                    return cval(c)
            if x.op == "attr" and x.args[1] in ("loc", "at"):
                x = x.args[0]
            if x.op == "item" and x.args[0] is META and is_str(x.args[1]) and self.label(t.args[1]):
                return cval(x.args[1])
        m = method(t)
        if m and m[1] in ("pop", "get") and self.row(m[0]) and len(m[2]) == 1 and is_str(m[2][0]):
            return cval(m[2][0])
        if m and m[1] == "to_dict" and False:
            return None
        return None

    def __call__(self, t):
        return self.fold(norm(t))

    def fold(self, t):
        if isinstance(t, tuple):
            return tuple(self.fold(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        n = self.field(t)
        if n is not None:
            r = mk("sym", "entry:" + n, ("any",))
        else:
            args = self.fold(t.args)
            r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
        self.memo[t] = r
        return r


def entry(n):
    return mk("sym", "entry:" + n, ("any",))


def _to(ctx):
    f = ctx.p.functions[TO]
    loc = ctx.loc(f)
    given = named_param(ctx, f, "parameterset")
    ok = 0
    for o in run(ctx, TO, opaque=to_core):
        same_meta, model = _requirements(ctx, o, loc)
        if o.kind == "raise":
            if o.exc() != "builtins.ValueError":
                fails(ctx, "D09.to", TO, o, "raises %s" % o.exc(), loc)
            elif same_meta is not False and model is not False:
                if same_meta is None or model is None:
                    ctx.unk("D09.to", TO, "error for unknown reasons (%s)" % desc(o), loc)
                else:
                    fails(ctx, "D09.to", TO, o, "fails for a data frame with the same metadata for all series", loc)
            else:
                ok += 1
            continue
        for first, v, what in ((True, same_meta, "data frames with different metadata for the series"), (False, model, "data of a climate model")):
            if v is False:
                ctx.bad("D09.to", TO, "no error for %s" % what, loc)
            elif v is None:
                if first and not any(contains(norm(a), META) and not contains(a, const("climate_model")) for a, _ in o.order) or not first and not any(
                        contains(a, const("climate_model")) for a, _ in o.order):
                    ctx.bad("D09.to", TO, "%s are accepted" % what, loc)
                else:
                    ctx.unk("D09.to", TO, "it is unknown whether %s are rejected" % what, loc)
        isn = implied(o, mk("isnone", given))
        P = o.value
        if P is None:
            raise Unknown("value")
        if isn is False and P is not given:
            ctx.bad("D09.to", TO, "the parameter set given is not the one returned", loc)
            continue
        if isn is True and not (P.op == "rnew" and P.args[0] == PSET):
            ctx.bad("D09.to", TO, "no new parameter set is returned", loc)
            continue
        if isn is None and P.op == "rnew":
            ctx.bad("D09.to", TO, "the parameter set given is not the one returned", loc)
            continue
        if isn is None and P is not given and not (P.op == "or" and P.args[0] is given):
            raise Unknown("parameter set %s" % show(P)[:100])
        ok += 1
        _series(ctx, o, P, loc)
        _entries(ctx, o, P, loc)
    ctx.holds("D09.to", TO)
    if not ok:
        raise Unknown("no paths")


def distinct(t):
    """Is it the metadata which do not belong to single series, without repetitions?  -> True/False/None"""
    m = method(t)
    if not m or m[1] != "drop_duplicates":
        return None
    if m[2] or m[3]:
        return False if any(k == "subset" for k, _ in m[3]) or m[2] else None
    return shared(m[0])


def shared(t):
    """Is it the part of the metadata without the columns which belong to single series?"""
    t = norm(t)
    m = method(t)
    if m and norm(m[0]) is META and m[1] == "drop":
        kw = dict(m[3])
        cols = m[2][0] if m[2] else kw.get("columns", kw.get("labels"))
        ax = kw.get("axis", m[2][1] if len(m[2]) > 1 else None)
        if cols is None or kw.get("columns") is None and (ax is None or not (ax is const(1) or ax is const("columns"))):
            return None
        got = texts(cols)
        if got is None:
            return None
        return got == set(SERIES_COLUMNS)
    if t is META:
        return False
    if t.op == "item" and t.args[0] is META:
        c = t.args[1]
        if c.op == "call" and call_name(c) == "builtins.list" and len(c.args[1]) == 1:
            c = c.args[1][0]
        if c.op == "comp" and c.args[0] in (META, mk("attr", META, "columns")):
            left = None
            el = mk("elem", c.args[0])
            for conds, vals in c.args[1]:
                if not vals:
                    continue
                if vals != (el,) and vals != el or left is not None:
                    return None
                left = set()
                for a, b in conds:
                    x = texts(a.args[1]) if a.op == "in" and a.args[0] is el else texts(mk("list", *[y for y in a.args if y is not el])) if a.op == "eq" and el in a.args else None
                    if b or x is None:
                        return None
                    left |= x
            return None if left is None else left == set(SERIES_COLUMNS)
    return None


def _requirements(ctx, o, loc):
    """(all series have the same metadata, no climate model is given) on this path"""
    sm = md = None
    for a, b in o.order:
        a = norm(a)
        if a.op == "lt" and a.args[0].op == "len" and is_num(a.args[1]):
            d = distinct(a.args[0].args[0])
            if d is None:
                continue
            if d is False:
                ctx.bad("D09.to", TO, "what has to be the same for all series is not all of the metadata but %s" % show(a.args[0].args[0])[:150], loc)
            if cval(a.args[1]) != 2:
                if cval(a.args[1]) > 2:
                    ctx.bad("D09.to", TO, "data frames with different metadata are accepted", loc)
                continue
            sm = b
        elif a.op in ("lt", "eq") and len(a.args) == 2 and all(x.op == "len" for x in a.args) and any(distinct(x.args[0]) for x in a.args):
            ctx.bad("D09.to", TO, "data frames with different metadata are accepted (%s)" % show(a)[:150], loc)
        elif a.op == "eq" and a.args[0].op == "len" and distinct(a.args[0].args[0]) and a.args[1] is const(1):
            sm = b
        elif a.op == "eq" and any(x is const("unspecified") for x in a.args):
            x = [y for y in a.args if y is not const("unspecified")]
            if len(x) == 1:
                m = method(x[0])
                if m and m[1] == "get" and m[2] and m[2][0] is const("climate_model") or x[0].op == "item" and x[0].args[1] is const("climate_model"):
                    md = b
        elif a.op == "in" and a.args[0] is const("climate_model") and not b:
            md = True
    return sm, md


def is_row(it, t):
    return t in (mk("elem", it), mk("key", it), mk("val", it)) or t.op == "item" and t.args[0] is mk("elem", it)


def _series(ctx, o, P, loc):
    """Every series is written"""
    loops = [e for e in o.events if e.kind == "loop" and any(view_calls(flat_events(evs), "timeseries") for _, evs in e.a[1])]
    if not loops:
        raise Unknown("no series are written in a loop")
    if len(loops) > 1:
        raise Unknown("%d loops" % len(loops))
    e = loops[0]
    R = Rows(e.a[0])
    k = R.kind()
    if k is None:
        x = R.over
        if x.op in ("slice", "slice3") or x.op == "item" and x.args[1].op in ("slice", "slice3") or x.op == "call" and call_name(x) in ("builtins.set",):
            ctx.bad("D09.to", TO, "not all series are written: %s" % show(x)[:120], loc)
            return
        raise Unknown("series of %s" % show(x)[:120])
    types = set()
    for conds, evs in e.a[1]:
        evs = list(flat_events(evs))
        if any(x.kind == "raise" for x in evs):
            continue
        try:
            types |= _one(ctx, R, k, conds, evs, P, loc)
        except Wrong as w:
            ctx.bad("D09.to", TO, str(w), loc)
            return
    if types < {True, False}:
        ctx.bad("D09.to", TO, "there are only series with%s interval ends" % ("" if True in types else "out"), loc)


def _one(ctx, R, k, conds, evs, P, loc):
    views = view_calls(evs, "timeseries")
    if not views:
        raise Wrong("a series is not written (%s)" % text_of(R, conds))
    if len(views) > 1:
        raise Unknown("several views")
    a = {n: R(v) for n, v in bound_args(ctx, PSET + ".timeseries", views[0]).items()}
    ps = views[0].args[1][0]
    if ps is not P:
        raise Wrong("the view is one of another parameter set: %s" % show(ps)[:80])
    for n, want in (("name", "variable"), ("unit", "unit"), ("region", "region")):
        got = a.get(n)
        if got is None:
            raise Wrong("series are written without their %s" % n)
        if got is not entry(want):
            if is_entry(got) or got.op == "const":
                raise Wrong("the %s of a series is %s" % (n, name_of(got)))
            raise Unknown("%s %s" % (n, show(got)[:100]))
    for n in ("interpolation", "extrapolation"):
        if n in a:
            raise Unknown(n)
    # the type: that of the series, or the guessed one if there is none
    t = a.get("timeseries_type")
    missing = None  # is there no type?
    for x in evs:
        if x.kind == "except" and "KeyError" in str(x.a):
            missing = True
    for c, b in conds:
        c = R(c)
        if c.op == "in" and c.args[0] is const("parameter_type"):
            missing = not b
        if c.op == "isnone" and is_entry(c.args[0]):
            missing = b
    kinds = None
    if t is None:
        raise Wrong("series are written without their type")
    if t.op == "rcall" and t.args[0] == PTYPE + ".from_timeseries_type" and t.args[1][-1] is entry("parameter_type") or t is entry("parameter_type"):
        if missing:
            raise Unknown("type where there is none")
    elif t.op == "rcall" and t.args[0] == GUESS:
        g = {n: v for n, v in bound_args(ctx, GUESS, t).items()}
        names = list(ctx.p.functions[GUESS].node.args.args)
        got = [g.get(x.arg) for x in names[:2]]
        if got != [entry("variable"), entry("unit")]:
            raise Wrong("the type is guessed from %s" % ", ".join(name_of(x) for x in got if x is not None))
        if not missing:
            raise Wrong("the type is guessed where it is given") if missing is False or not any(x.kind == "except" for x in evs) else Unknown("guessed type")
    elif t.op == "enum" or t.op == "const":
        kinds = type_name(t)
        if kinds is None:
            raise Wrong("the type is %s" % show(t)[:60])
        if not any(R(c).op == "eq" and b and t in R(c).args for c, b in conds):
            raise Wrong("the type is always %s" % show(t)[:60])
    else:
        raise Unknown("type %s" % show(t)[:100])
    avg = None
    for c, b in conds:
        c = R(c)
        if c.op == "eq":
            for x, y in (c.args, c.args[::-1]):
                if type_name(y) is not None and (x is t or x is entry("parameter_type") or x.op == "rcall" and x.args[0] in (PTYPE + ".from_timeseries_type", GUESS)):
                    if x is entry("parameter_type") and is_str(y):
                        raise Unknown("types compared as text")
                    avg = type_name(y) if b else not type_name(y)
    tp = a.get("time_points")
    if tp is None:
        raise Wrong("no time points")
    x = extended(tp)
    if avg is None:
        if is_times(tp) or x is not None and is_times(x):
            raise Wrong("the interval ends do not depend on the type of the series")
        raise Unknown("kind of series")
    if avg:
        if x is None or not is_times(x):
            if is_times(tp):
                raise Wrong("average series are written without the end of the last interval")
            if any(y.op == "lv" for y in walk(tp)):
                raise Wrong("the time points of a series depend on the series before it: %s" % show(tp)[:100])
            if x is None and tp.op == "call":
                bad_extension(tp)
            raise Unknown("interval ends %s" % show(tp)[:120])
    elif not is_times(tp):
        if any(y.op == "lv" for y in walk(tp)):
            raise Wrong("the time points of a series depend on the series before it: %s" % show(tp)[:100])
        if x is not None and is_times(x):
            raise Wrong("point series are written with interval ends")
        raise Unknown("time points %s" % show(tp)[:120])
    # the values
    ws = [w for w in writes(evs) if w[0] is views[0]]
    if not ws:
        raise Wrong("the values of a series are not written (%s)" % text_of(R, conds))
    if len(ws) > 1:
        raise Unknown("written several times")
    v = norm(ws[0][1])
    while True:
        m = method(v)
        if v.op == "attr" and v.args[1] == "values":
            v = v.args[0]
        elif m and m[1] in ("to_numpy",) and not m[2] and not m[3]:
            v = m[0]
        elif v.op == "call" and call_name(v) in ("numpy.asarray", "numpy.array") and len(v.args[1]) == 1 and not v.args[2]:
            v = v.args[1][0]
        elif m and m[1] == "astype" and len(m[2]) == 1 and m[2][0] in (ext("builtins.float"), const("float")):
            v = m[0]
        else:
            break
    good = False
    if v.op == "item":
        s, i = v.args
        if s is DATA and R.label(i):
            good = True
        elif s == mk("attr", DATA, "loc") and i.op == "tuple" and len(i.args) == 2 and i.args[0].op == "slice" and R.label(i.args[1]):
            good = True
        elif k == "data" and s is mk("elem", R.it) and i is const(1):
            good = True
    elif k == "data" and v in (mk("val", R.it), mk("val", DATA)):
        good = True
    if not good:
        if contains(v, DATA):
            raise Wrong("the values written are %s" % show(v)[:120])
        raise Unknown("values %s" % show(v)[:100])
    known = ("eq", "in", "isnone", "truth")
    for c, b in conds:
        if R(c).op not in known:
            raise Unknown("condition %s" % show(c)[:80])
    return {avg}


def bad_extension(t):
    for x in walk(t):
        if x.op == "call" and call_name(x) in ("numpy.concatenate", "numpy.append", "numpy.hstack"):
            raise Wrong("the end of the last interval of average series is %s" % show(t)[:200])


def is_entry(t):
    return t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("entry:")


def name_of(t):
    return t.args[0][6:] if is_entry(t) else show(t)[:60]


def text_of(R, conds):
    return ", ".join(("" if b else "not ") + show(R(c))[:80] for c, b in conds) or "in every case"


# ----------------------------------------------------------------- metadata -> parameters
PROBES = [("ECS (K)", "ECS", "K"), ("a b (W / m^2)", "a b", "W / m^2"), ("A|B (K)", "A|B", "K"), ("Rate (W / (m**2 * s))", "Rate", "W / (m**2 * s)"), ("A (high) (K)", "A (high)", "K"),
          ("A (high) (1 / (m * s) / (kg))", "A (high)", "1 / (m * s) / (kg)"), ("x (dimensionless)", "x", "dimensionless"), ("n", None, None), ("A|B", None, None), ("two words", None, None)]


def shared_of(t):
    """Is it the metadata which all series share, as a mapping?"""
    t = norm(t)
    m = method(t)
    if m and m[1] == "squeeze" and not m[2] and not m[3]:
        return distinct(m[0])
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "iloc" and t.args[1] is const(0):
        x = t.args[0].args[0]
        d = distinct(x)
        return shared(x) if d is None else d
    return None


def _entries(ctx, o, P, loc):
    """Every entry of the metadata is written"""
    loops = []
    for e in o.events:
        if e.kind != "loop":
            continue
        m = method(e.a[0])
        if m and m[1] in ("items", "iteritems") and shared_of(m[0]) is not None:
            loops.append((e, m[0]))
        elif shared_of(e.a[0]) is not None:
            loops.append((e, e.a[0]))
        elif any(view_calls(flat_events(evs), n) for n in ("scalar", "generic") for _, evs in e.a[1]):
            raise Unknown("entries of %s" % show(e.a[0])[:100])
    if not loops:
        ctx.bad("D09.to", TO, "the metadata is not written", loc)
        return
    if len(loops) > 1:
        raise Unknown("%d loops" % len(loops))
    e, src = loops[0]
    if shared_of(src) is False:
        ctx.bad("D09.to", TO, "it is not all of the metadata which is written: %s" % show(src)[:150], loc)
        return
    it = e.a[0]
    el = mk("elem", it)
    keys, vals = {mk("item", el, const(0)), mk("key", it), mk("key", src)}, {mk("item", el, const(1)), mk("val", it), mk("val", src)}
    if it is src:
        keys.add(mk("key", src))
    K, V = mk("sym", "entry name", ("str",)), mk("sym", "entry value", ("any",))
    mp = {k: K for k in keys}
    mp.update({v: V for v in vals})
    kinds = set()
    for conds, evs in e.a[1]:
        evs = list(flat_events(evs))
        if any(x.kind == "raise" for x in evs):
            raise Unknown("error for an entry")
        try:
            kinds.add(_entry(ctx, conds, evs, P, K, V, mp))
        except Wrong as w:
            ctx.bad("D09.to", TO, str(w), loc)
            return
    if kinds != {"scalar", "generic"}:
        ctx.bad("D09.to", TO, "entries of the metadata become %s parameters only" % " and ".join(sorted(kinds)), loc)


def _entry(ctx, conds, evs, P, K, V, mp):
    def s(t):
        return _sub(norm(t), {norm(k): v for k, v in mp.items()})

    views = [(n, t) for n in ("scalar", "generic", "timeseries") for t in view_calls(evs, n)]
    if not views:
        raise Wrong("an entry of the metadata is not written")
    if len(views) > 1:
        raise Unknown("several views of an entry")
    n, t = views[0]
    if t.args[1][0] is not P:
        raise Wrong("an entry of the metadata is written to another parameter set")
    a = {k: s(v) for k, v in bound_args(ctx, PSET + "." + n, t).items()}
    if region_of(a) is not None:
        raise Wrong("an entry of the metadata is written to the region %s" % show(region_of(a))[:60])
    ws = [w for w in writes(evs) if w[0] is t]
    if len(ws) != 1:
        raise Wrong("the value of an entry is not written") if not ws else Unknown("several writes")
    v = s(ws[0][1])
    if v is not V:
        if v.op == "call" and call_name(v) in ("builtins.float",) and v.args[1] == (V,) and n == "scalar":
            pass
        elif v.op in ("const", "sym") or v.op == "call" and call_name(v) in CHANGING | {"builtins.str", "builtins.repr"} and v.args[1] == (V,):
            raise Wrong("the value of an entry is %s" % show(v)[:60])
        else:
            raise Unknown("value %s" % show(v)[:80])
    # what the name is split into
    matched, pattern, how = None, None, None
    for c, b in conds:
        c = s(c)
        x = c.args[0] if c.op in ("truth", "isnone") else c
        hit = b if c.op == "truth" else not b if c.op == "isnone" else None
        r = match_of(ctx, x, K)
        if hit is None or r is None:
            raise Unknown("condition %s" % show(c)[:100])
        matched, pattern, how = hit, r[0], r[1]
        M = x
    if n == "generic":
        if matched is None:
            return "generic"
        if matched:
            raise Wrong("entries with a unit become generic parameters")
        if a.get("name") is not K:
            raise Wrong("the name of a generic parameter is %s" % show(a.get("name"))[:60])
        return "generic"
    if n != "scalar":
        raise Wrong("an entry of the metadata becomes a timeseries")
    if matched is None:
        raise Unknown("parts of the name")
    if not matched:
        raise Wrong("entries without a unit become scalar parameters")
    parts = {}
    for what in ("name", "unit"):
        x = a.get(what)
        if x is None:
            raise Wrong("no %s is given" % what)
        strip = []
        m = method(x)
        while m and m[1] in TEXTS and not m[3] and all(is_str(y) for y in m[2]):
            strip.insert(0, (m[1], [cval(y) for y in m[2]]))
            x, m = m[0], method(m[0])
        if m and m[1] == "group" and m[0] is M and len(m[2]) == 1 and m[2][0].op == "const":
            parts[what] = (cval(m[2][0]), strip)
        elif x.op == "item" and x.args[0] is M and x.args[1].op == "const":
            parts[what] = (cval(x.args[1]), strip)
        elif x.op == "item" and method(x.args[0]) and method(x.args[0])[1] == "groups" and method(x.args[0])[0] is M and x.args[1].op == "const":
            parts[what] = (cval(x.args[1]) + 1, strip)
        elif any(method(y) and method(y)[1] == "split" and method(y)[0] is K and len(method(y)[2]) == 1 and is_str(method(y)[2][0]) and cval(method(y)[2][0]).strip() == "(" for y in walk(x)):
            raise Wrong("names and units with parentheses are split at the first parenthesis: %s" % show(x)[:100])
        else:
            raise Unknown("%s %s" % (what, show(x)[:100]))
    for text, name, unit in PROBES:
        g = getattr(re.compile(pattern), how)(text)
        if (g is None) != (name is None):
            raise Wrong("an entry like '%s' is%s taken as one with a unit by the pattern %s" % (text, "" if g else " not", pattern))
        if g is None:
            continue
        for what, want in (("name", name), ("unit", unit)):
            i, strip = parts[what]
            got = g.group(i)
            for how_, args_ in strip if got is not None else ():
                got = getattr(got, how_)(*args_)
            if got != want:
                raise Wrong("the %s of an entry like '%s' is '%s' by the pattern %s" % (what, text, got, pattern))
    return "scalar"


TEXTS = ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "casefold", "replace", "rstrip")


def match_of(ctx, x, K):
    """(pattern, method) of a match of the name of the entry with a literal pattern"""
    m = method(x)
    if m and m[1] in ("match", "fullmatch", "search") and len(m[2]) == 1 and m[2][0] is K and not m[3]:
        c = m[0]
        if c.op == "call" and call_name(c) == "re.compile" and len(c.args[1]) == 1 and is_str(c.args[1][0]) and not c.args[2]:
            return cval(c.args[1][0]), m[1]
    if x.op == "call" and call_name(x) in ("re.match", "re.fullmatch", "re.search") and len(x.args[1]) == 2 and is_str(x.args[1][0]) and x.args[1][1] is K and not x.args[2]:
        return cval(x.args[1][0]), call_name(x).split(".")[1]
    return None


# --------------------------------------------------------------- parameter set -> data frame
def contributions(t, gens=(), conds=()):
    """Entries of a dictionary or elements of a list: [(loops, conditions, "entry"/"rest", term)]"""
    if t.op == "dict":
        return [(gens, conds, "entry", mk("tuple", k, v)) for k, v in t.args]
    if t.op in ("list", "set"):
        return [(gens, conds, "entry", x) for x in t.args]
    if t.op in ("dictupd", "concat"):
        r = []
        for x in t.args:
            r += contributions(x, gens, conds)
        return r
    if t.op in ("dictcomp", "comp"):
        r = []
        for cs, vals in t.args[1]:
            vals = vals if isinstance(vals, tuple) else (vals,)
            for v in vals:
                g, c = gens + (t.args[0],), conds + tuple(cs)
                if v.op == "spread":
                    r += contributions(v.args[0], g, c)
                else:
                    r.append((g, c, "entry", v))
            if not vals:
                r.append((gens + (t.args[0],), conds + tuple(cs), "none", None))
        return r
    if t.op == "spread":
        return contributions(t.args[0], gens, conds)
    if t.op == "const" and t.args[1] is None:
        return []
    return [(gens, conds, "rest", t)]


def over(src, d):
    """Is this an iteration over all values of the dictionary?  -> the possible terms for a value"""
    d = {d, norm(d)}
    m = method(src)
    r = []
    if m and m[0] in d and m[1] in ("values", "items") and not m[2]:
        if m[1] == "values":
            r = [mk("elem", src), mk("val", m[0])]
        else:
            r = [mk("item", mk("elem", src), const(1)), mk("val", m[0]), mk("val", src)]
    elif src in d:
        r = [mk("val", src), mk("item", src, mk("key", src)), mk("item", src, mk("elem", src))]
    elif src.op == "call" and call_name(src) in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(src.args[1]) == 1:
        x = over(src.args[1][0], list(d)[0])
        return x + [mk("elem", src), mk("item", mk("elem", src), const(1))] if x else None
    return r or None


def partial(src, d):
    """Is it an iteration over a part of the dictionary?"""
    return src.op in ("item", "slice", "slice3") and any(x in (d, norm(d)) for x in walk(src))


def no_children(a, b, p):
    """What a condition says about the parameter p having no children"""
    c = mk("attr", p, "children")
    if a.op == "truth" and a.args[0] is c:
        return not b
    if a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0] is c and a.args[1] is const(1):
        return b
    if a.op == "eq" and a.args[0].op == "len" and a.args[0].args[0] is c and a.args[1] is const(0):
        return b
    return None


class Walk:
    """The parameters which are found in a region and in those below it"""

    def __init__(self, ctx, o, loc):
        self.ctx, self.o, self.loc = ctx, o, loc
        self.done = set()
        self.form = None  # how what is found is described: roles of the parts of an entry

    def wrong(self, text):
        raise Wrong(text)

    # what is known of an entry
    def role(self, t, p, past):
        """What does this term say about the parameter p below past?"""
        name = mk("attr", p, "name")
        one = mk("tuple", name)
        full = [mk("concat", past, one), mk("+", past, one)]
        if past.op == "tuple":
            full.append(mk("tuple", *past.args, name))
        if t in full or t.op == "rcall" and t.args[0] == PARAMETER + ".full_name" and t.args[1] == (p,) or t == mk("attr", p, "full_name"):
            return "name"
        region = mk("attr", p, "region")
        if t == mk("attr", region, "full_name") or t.op == "rcall" and t.args[0] == REGION + ".full_name" and t.args[1] == (region,):
            return "region"
        if t is p or t.op in ("rnew", "new") and t.args[0] == INFO and t.args[2] == (p,):
            return "info"
        return None

    def entry(self, t, p, past):
        """Roles of the parts of an entry"""
        r = {}

        def go(x, path):
            k = self.role(x, p, past)
            if k is not None:
                r[path] = k
            elif x.op == "tuple":
                for i, y in enumerate(x.args):
                    go(y, path + (i,))
            else:
                if contains(x, mk("attr", p, "region")) and (x.op == "attr" or x.op == "rcall" and len(x.args[1]) == 1) and (x.args[0] if x.op == "attr" else x.args[1][0]) is mk("attr", p, "region"):
                    raise Wrong("the region of a parameter is described by %s" % show(x)[:100])
                if contains(x, p) and x.op in ("tuple", "attr"):
                    raise Wrong("a parameter is described by %s" % show(x)[:100])
                raise Unknown("a parameter is described by %s" % show(x)[:100])

        go(t, ())
        if self.form is None:
            self.form = r
        elif self.form != r:
            raise Wrong("parameters are described in different ways: %s" % show(t)[:100])
        return r

    def below(self, entries, p, past):
        """Are exactly the parameters without children at or below p found?"""
        seen = set()
        for gens, conds, kind, t in entries:
            leaf, other = None, []
            for a, b in conds:
                x = no_children(a, b, p)
                if x is None:
                    other.append((a, b))
                else:
                    leaf = x
            if kind == "none":
                if other:
                    raise Wrong("parameters are left out: %s" % ", ".join(("" if b else "not ") + show(a)[:80] for a, b in other))
                raise Wrong("parameters with%s children are left out" % ("out" if leaf else ""))
            if kind == "entry":
                if gens and over(gens[0], mk("attr", p, "children")) and not any(k == "rest" for _, _, k, _ in entries):
                    raise Wrong("only one level of children is looked at")
                if gens:
                    raise Unknown("entry in a loop over %s" % show(gens[0])[:80])
                if leaf is None:
                    raise Unknown("parameter with children")
                if not leaf:
                    raise Wrong("parameters with children are found as well")
                self.entry(t, p, past)
            else:
                if not gens and t.op == "rcall" and any(contains(x, mk("attr", p, "children")) for x in t.args[1]):
                    raise Wrong("only one of the children is looked at: %s" % show(t)[:80])
                if len(gens) != 1:
                    raise Unknown("parameters in %s" % show(t)[:80])
                vs = over(gens[0], mk("attr", p, "children"))
                if vs is None:
                    if partial(gens[0], mk("attr", p, "children")):
                        raise Wrong("only a part of the children is looked at: %s" % show(gens[0])[:80])
                    raise Unknown("children %s" % show(gens[0])[:80])
                if leaf is True:
                    raise Unknown("children of none")
                self.recursion(t, vs, p, past)
            seen.add((kind, tuple(other)))
        kinds = {k for k, _ in seen}
        if kinds != {"entry", "rest"}:
            raise Wrong("parameters with%s children are not found" % ("" if "rest" not in kinds else "out"))
        for k in kinds:
            if ((k, ()) not in seen) and not covered([set(c) for x, c in seen if x == k]):
                raise Wrong("parameters are left out: only those with %s are found" % "; ".join(", ".join(("" if b else "not ") + show(a)[:80] for a, b in c) for x, c in seen if x == k))

    def recursion(self, t, children, p, past):
        """The same for a child"""
        if t.op != "rcall":
            raise Unknown("parameters in %s" % show(t)[:80])
        q = t.args[0]
        pos, kw = list(t.args[1]), dict(call_kw(t))
        fn = self.func(q)
        names = [x.arg for x in fn.node.args.args]
        bound = dict(zip(names, pos))
        bound.update(kw)
        ci = [n for n, v in bound.items() if v in children]
        if len(ci) != 1:
            raise Unknown("recursion with %s" % show(t)[:100])
        pi = None
        for n, v in bound.items():
            if n == ci[0]:
                continue
            if self.role(v, p, past) == "name":
                pi = n
            elif v is past or v == mk("tuple", mk("attr", p, "name")) or v == mk("attr", p, "name"):
                raise Wrong("the names of parameters below others are made of %s" % show(v)[:80])
            else:
                raise Unknown("recursion with %s" % show(v)[:80])
        if q in self.done:
            if self.done_names != (ci[0], pi):
                raise Unknown("recursion in different ways")
            return
        self.done.add(q)
        self.done_names = (ci[0], pi)
        child = mk("sym", "child parameter", cls(PARAMETER))
        above = mk("sym", "names above", ("any",))
        args = []
        for n in names:
            if n == ci[0]:
                args.append(child)
            elif n == pi:
                args.append(above)
            elif n in bound:
                raise Unknown("argument %s" % n)
            else:
                break
        entries = []
        n = len(self.o.order)
        for o in again(self.o, q, args):
            if o.kind != "return":
                raise Unknown("errors while looking for parameters")
            facts = tuple(o.order[n:])
            entries += [(g, facts + c, k, x) for g, c, k, x in contributions(o.value)] or [((), facts, "none", None)]
        self.below(entries, child, above)

    def func(self, q):
        f = self.o.it.lambdas.get(q) or self.ctx.p.functions.get(q)
        if f is None:
            raise Unknown("function %s" % q)
        return f

    def region(self, entries, events, R, top, empty=()):
        """All parameters of a region and of those below it"""
        params, children = mk("attr", R, "_parameters"), mk("attr", R, "_children")
        groups = {}
        rec = []
        for gens, conds, kind, t in entries:
            if not gens:
                raise Unknown("parameters %s" % (show(t)[:80] if t is not None else ""))
            if over(gens[0], params):
                groups.setdefault(gens[0], []).append((gens[1:], conds, kind, t))
            elif over(gens[0], children):
                rec.append((gens, conds, kind, t))
            elif partial(gens[0], params) or partial(gens[0], children):
                raise Wrong("only a part is looked at: %s" % show(gens[0])[:80])
            else:
                raise Unknown("parameters in %s" % show(gens[0])[:80])
        if not groups and "_parameters" not in empty:
            raise Wrong("the parameters of a region are not looked at")
        if len(groups) > 1:
            raise Unknown("several loops over parameters")
        for src, es in groups.items():
            ps = [p for p in over(src, params) if any(any(contains(a, p) for a, _ in c) or t is not None and contains(t, p) for _, c, _, t in es)]
            if len(ps) != 1:
                raise Unknown("parameters of %s" % show(src)[:80])
            self.below(es, ps[0], mk("tuple"))
        # regions below
        if not rec:
            for e in events:
                if e.kind != "loop":
                    continue
                vs = over(e.a[0], children)
                if vs is None:
                    if partial(e.a[0], children):
                        raise Wrong("only a part of the regions is looked at: %s" % show(e.a[0])[:80])
                    continue
                for conds, evs in e.a[1]:
                    calls = [x.a[0] for x in evs if x.kind == "rcall" and any(v in x.a[0].args[1] or v in dict(call_kw(x.a[0])).values() for v in vs)]
                    if not calls or not calls[-1].args[0].startswith(FROM[:FROM.rfind(".")]):
                        if conds:
                            raise Wrong("regions are left out: %s" % ", ".join(("" if b else "not ") + show(a)[:80] for a, b in conds))
                        raise Unknown("regions below others")
                    rec.append(((e.a[0],), (), "effect", calls[-1]))
        if not rec and "_children" in empty:
            return
        if not rec:
            raise Wrong("regions below %s are not looked at" % ("the root" if top else "others"))
        ok = False
        for gens, conds, kind, t in rec:
            if kind == "none" or conds and len({(g, t) for g, c, k, t in rec}) == 1 and len(rec) == 1:
                raise Wrong("regions are left out: %s" % ", ".join(("" if b else "not ") + show(a)[:80] for a, b in conds))
            if kind == "entry" and not any(k in ("rest", "effect") and x.op == "rcall" and any(v in x.args[1] for v in over(g[0], children)) for g, _, k, x in rec):
                raise Wrong("only one level of regions is looked at")
            if kind == "entry" or t.op != "rcall" or len(gens) != 1:
                raise Unknown("regions below others: %s" % show(t)[:80])
            vs = over(gens[0], children)
            f = self.func(t.args[0])
            names = [x.arg for x in f.node.args.args]
            bound = dict(zip(names, t.args[1]))
            bound.update(dict(call_kw(t)))
            ci = [n for n, v in bound.items() if v in vs]
            if len(ci) != 1 or len(bound) != 1:
                raise Unknown("recursion with %s" % show(t)[:100])
            ok = True
            if top:
                self.regions_below(t.args[0], kind)
        if not ok:
            raise Unknown("regions below others")

    def regions_below(self, q, kind):
        r = mk("sym", "region below", cls(REGION))
        n = len(self.o.order)
        for o in again(self.o, q, [r]):
            if o.kind != "return":
                raise Unknown("errors for a region")
            facts = o.order[n:]
            events = o.events[len(self.o.events):]
            if kind == "effect":
                changed = [(k, v) for k, v in o.heap.items() if self.o.heap.get(k) is not None and self.o.heap.get(k) is not v]
                if len(changed) > 1:
                    raise Unknown("a region changes %d values" % len(changed))
                entries = []
                if changed:
                    old, new = self.o.heap[changed[0][0]], changed[0][1]
                    if new.op not in ("dictupd", "concat") or new.args[0] is not old:
                        raise Unknown("parameters of a region: %s" % show(new)[:80])
                    entries = contributions(mk(new.op, *new.args[1:]))
            else:
                entries = contributions(o.value)
            empty = set()
            for a, b in facts:
                for x in ("_parameters", "_children"):
                    d = mk("attr", r, x)
                    if a.op == "truth" and a.args[0] is d and not b or a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0] is d and a.args[1] is const(1) and b:
                        empty.add(x)
            try:
                self.region(entries, events, r, False, empty)
            except Wrong as w:
                raise Wrong(str(w) + (" if %s" % desc_of(facts) if facts else ""))


def desc_of(facts):
    return ", ".join(("" if b else "not ") + show(a)[:80] for a, b in facts)


def covered(sets):
    """Do these conjunctions of conditions cover everything?"""
    if any(not s for s in sets):
        return True
    atoms = {a for s in sets for a, _ in s}
    if not sets or len(atoms) > 6:
        return False
    a = next(iter(atoms))
    return all(covered([{x for x in s if x[0] is not a} for s in sets if (a, not b) not in s]) for b in (True, False))


def _from(ctx):
    f = ctx.p.functions[FROM]
    loc = ctx.loc(f)
    outs = run(ctx, FROM)
    pset = param(ctx, f, 0)
    done = [o for o in outs if o.kind == "return"]
    if not done:
        raise Unknown("no paths return")
    for o in done:
        try:
            _walks(ctx, o, pset, f, loc)
        except Wrong as w:
            ctx.bad("D09.from", FROM, str(w), loc)
            return
    rejected = set()
    for o in outs:
        if o.kind == "return":
            continue
        if o.exc() != "builtins.ValueError":
            fails(ctx, "D09.from", FROM, o, "raises %s" % o.exc(), loc)
            return
        k = kind_of([(a, b) for a, b in o.order], lambda a: any(x.op == "attr" and x.args[1] == "parameter_type" or x.op == "rcall" and x.args[0].endswith(".parameter_type") for x in a.args))
        w = [b for a, b in o.order if world(a, lambda x: True)]
        if k in ("generic", "scalar") and w == [False]:
            rejected.add(k)
        elif w == [True] or k in ("point", "average"):
            ctx.bad("D09.from", FROM, "%s parameters are rejected (%s)" % (k, desc(o)), loc)
            return
        else:
            raise Unknown("error for unknown reasons (%s)" % desc(o))
    if rejected != {"generic", "scalar"}:
        ctx.bad("D09.from", FROM, "%s parameters outside of the world region are accepted" % " and ".join(sorted({"generic", "scalar"} - rejected)), loc)
        return
    ctx.holds("D09.from", FROM)


def world(a, isregion):
    """Is this the comparison of a region with the world?"""
    if a.op != "eq":
        return False
    for x, y in (a.args, a.args[::-1]):
        if y.op == "tuple" and all(is_str(z) for z in y.args) and tuple(cval(z) for z in y.args) == WORLD and isregion(x):
            return True
    return False


def kind_of(conds, istype):
    """Which kind of parameter is it by these conditions?"""
    left = {"generic", "scalar", "point", "average"}
    known = {"GENERIC": "generic", "SCALAR": "scalar", "POINT_TIMESERIES": "point", "AVERAGE_TIMESERIES": "average"}

    for a, b in conds:
        names = None
        if a.op in ("eq", "is") and istype(a):
            names = {known.get(x.args[1]) for x in a.args if x.op == "enum" and x.args[0] == PTYPE}
        elif a.op == "in" and a.args[1].op in ("tuple", "list", "set") and istype(a):
            names = {known.get(x.args[1]) for x in a.args[1].args if x.op == "enum" and x.args[0] == PTYPE}
        if names:
            left = left & names if b else left - names
    return left.pop() if len(left) == 1 else "timeseries" if left == {"point", "average"} else None


def _walks(ctx, o, pset, f, loc):
    root = mk("attr", pset, "_root")
    # the loop over what was found
    loops = [e for e in o.events if e.kind == "loop" and any(view_calls(flat_events(evs), n) for _, evs in e.a[1] for n in ("scalar", "generic", "timeseries"))]
    if len(loops) != 1:
        raise Unknown("%d loops over parameters" % len(loops))
    e = loops[0]
    it = e.a[0]
    m = method(it)
    el = mk("elem", it)
    if m and m[1] == "items" and not m[2]:
        D, at_ = m[0], {(0,): [mk("key", m[0]), mk("key", it), mk("item", el, const(0))], (1,): [mk("val", m[0]), mk("val", it), mk("item", el, const(1))]}
    elif m and m[1] == "values" and not m[2]:
        D, at_ = m[0], {(1,): [el, mk("val", m[0])]}
    else:
        D, at_ = it, {(): [el]}
    w = Walk(ctx, o, loc)
    entries = contributions(D)
    direct = [x for x in o.events if x.kind == "loop" and x is not e]
    w.region(entries, direct, root, True)
    if D.op in ("dict", "dictupd", "dictcomp"):
        key = {role for path, role in w.form.items() if path[:1] == (0,)}
        if not key >= {"name", "region"} and "info" not in key:
            raise Wrong("parameters of the same name in different regions replace each other")
    # terms for the parts of what was found
    mp = {}
    N, G, I = mk("sym", "name of parameter", ("any",)), mk("sym", "region of parameter", ("any",)), mk("sym", "parameter", ("any",))
    sym = {"name": N, "region": G, "info": I}
    for path, role in w.form.items():
        if path in at_:
            heads, rest = at_[path], ()
        elif path[:1] in at_:
            heads, rest = at_[path[:1]], path[1:]
        elif () in at_:
            heads, rest = at_[()], path
        else:
            continue
        for h in heads:
            for i in rest:
                h = mk("item", h, const(i))
            mp[h] = sym[role]

    def s(t):
        return described(fold(t, mp), N, G, I)

    _stored(ctx, o, e, s, pset, N, G, I, f)


def fold(t, mp, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(fold(x, mp, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    if t in mp:
        r = mp[t]
    else:
        args = fold(t.args, mp, memo)
        r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
    memo[t] = r
    return r


def described(t, N, G, I, memo=None):
    """Attributes of the parameter found"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(described(x, N, G, I, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    args = described(t.args, N, G, I, memo)
    r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
    n = None
    if r.op == "attr" and r.args[0] is I:
        n = r.args[1]
    elif r.op == "rcall" and r.args[0].startswith(INFO + ".") and r.args[1] == (I,):
        n = r.args[0].rsplit(".", 1)[1]
    if n == "name":
        r = N
    elif n == "region":
        r = G
    elif n in ("unit", "parameter_type"):
        r = mk("sym", n + " of parameter", ("any",))
    memo[t] = r
    return r


def joined(t):
    """x, when t is the hierarchical name x as text"""
    m = method(t)
    if m and m[1] == "join" and len(m[2]) == 1 and (is_str(m[0]) and cval(m[0]) == "|" or m[0].op == "attr" and m[0].args[1] == "data_hierarchy_separator" or m[0].op == "global"):
        return m[2][0]
    if t.op == "join" and len(t.args) == 2:
        return t.args[1]
    return None


def single(t):
    if t.op in ("list", "tuple") and len(t.args) == 1:
        return t.args[0]
    return None


def _stored(ctx, o, e, s, pset, N, G, I, f):
    U, K = mk("sym", "unit of parameter", ("any",)), mk("sym", "parameter_type of parameter", ("any",))
    kinds, strange = {}, []
    for conds, evs in e.a[1]:
        evs = list(flat_events(evs))
        cs = [(s(a), b) for a, b in conds]
        k = kind_of(cs, lambda a: K in a.args)
        if any(x.kind == "raise" for x in evs):
            continue
        if k is None:
            raise Unknown("kind of parameter (%s)" % ", ".join(("" if b else "not ") + show(a)[:60] for a, b in cs))
        for a, b in cs:
            if a.op == "eq" and K in a.args or a.op == "in" and a.args[0] is K or a.op == "is" and K in a.args:
                continue
            if world(a, lambda x: x is G):
                continue
            if contains(a, K) or contains(a, N) or contains(a, G) or contains(a, I) or contains(a, U):
                if not any(view_calls(evs, n) for n in ("generic", "scalar", "timeseries")):
                    raise Wrong("parameters are left out if %s%s" % ("" if b else "not ", show(a)[:100]))
            if a.op == "eq" and any(contains(x, G) and x.op in ("slice", "slice3", "item", "len") for x in a.args):
                raise Wrong("only a part of the region is looked at: %s" % show(a)[:100])
            strange.append((a, b, [tuple(conds)]))
        w = [b for a, b in cs if world(a, lambda x: x is G)]
        if k in ("generic", "scalar"):
            if w != [True]:
                if not any(view_calls(evs, n) for n in ("generic", "scalar", "timeseries")):
                    raise Wrong("%s parameters outside of the world region are left out" % k)
                raise Wrong("%s parameters outside of the world region are accepted" % k)
            _meta_entry(ctx, k, evs, s, pset, N, G, U)
        else:
            if w:
                raise Unknown("series of the world")
        kinds.setdefault(k, []).append((cs, evs))
    for k in ("generic", "scalar"):
        if k not in kinds:
            raise Wrong("there is nothing for %s parameters" % k)
    if not ("point" in kinds and "average" in kinds or "timeseries" in kinds):
        raise Wrong("there is nothing for timeseries")
    _frame(ctx, o, e, s, pset, kinds, N, G, U, K, f, strange)


def _meta_entry(ctx, k, evs, s, pset, N, G, U):
    """The entry of the metadata for a generic or scalar parameter"""
    vs = [(n, t) for n in ("generic", "scalar", "timeseries") for t in view_calls(evs, n)]
    if not vs:
        raise Wrong("%s parameters are left out" % k)
    if len({t for _, t in vs}) != 1:
        raise Unknown("views")
    n, t = vs[0]
    if n != k:
        raise Wrong("%s parameters are read as %s" % (k, n))
    a = {x: s(v) for x, v in bound_args(ctx, PSET + "." + n, t).items()}
    if t.args[1][0] is not pset:
        raise Unknown("view of %s" % show(t.args[1][0])[:60])
    if a.get("name") is not N:
        raise Wrong("the parameter which is read is %s" % show(a.get("name"))[:60]) if a.get("name") in (G, U) or a["name"].op == "item" else Unknown("name")
    if region_of(a) is not None and region_of(a) is not G:
        raise Unknown("region %s" % show(region_of(a))[:60])
    if k == "scalar" and a.get("unit") is not U:
        raise Unknown("unit %s" % show(a.get("unit"))[:60]) if a.get("unit") is None or a["unit"].op != "const" else Wrong("scalar parameters are read in %s" % show(a["unit"]))
    sets = [x for x in evs if x.kind == "setitem" and x.a[0].op == "ref"]
    if len(sets) != 1:
        if not sets and not any(x.kind in ("mutcall", "setitem") for x in evs):
            raise Wrong("%s parameters are not stored" % k)
        raise Unknown("%d entries" % len(sets))
    key, v = s(sets[0].a[1]), single(sets[0].a[2])
    if v is None:
        v = sets[0].a[2]
    if not (v.op == "rcall" and v.args[0].split("@")[0].endswith(".value") and v.args[1] == (t,)):
        if v.op == "const" or s(v) in (N, G, U):
            raise Wrong("the value of a %s parameter is %s" % (k, show(v)[:60]))
        raise Unknown("value %s" % show(v)[:80])
    if k == "generic":
        if joined(key) is not N:
            raise key_error(key, N, k)
    else:
        parts = text_parts(key)
        if len(parts) != 4 or joined(parts[0]) is not N or parts[1] != " (" or parts[2] is not U or parts[3] != ")":
            raise key_error(key, N, k)


def key_error(key, N, k):
    if contains(key, N):
        return Wrong("the entry of a %s parameter is called %s" % (k, show(key)[:100]))
    return Unknown("entry %s" % show(key)[:100])


def text_parts(t):
    """Parts of a text which is put together"""
    r = []

    def go(x):
        if is_str(x):
            if r and isinstance(r[-1], str):
                r[-1] += cval(x)
            else:
                r.append(cval(x))
        elif x.op == "fmt":
            for y in x.args:
                go(y)
        elif x.op in ("+", "concat"):
            for y in x.args:
                go(y)
        else:
            r.append(x)

    go(t)
    return r


def appended(e, o):
    """[(conds, {list: values appended})] for the cases of the loop"""
    r = []
    for conds, evs in e.a[1]:
        d = {}
        for x in flat_events(evs):
            if x.kind == "mutcall" and x.a[1] in ("append",) and len(x.a[2]) == 1:
                d.setdefault(x.a[0], []).append(x.a[2][0])
            elif x.kind == "mutcall":
                raise Unknown("%s of %s" % (x.a[1], show(x.a[0])[:60]))
        r.append((conds, d))
    return r


def by_case(t, it, e):
    """Values of a list made in the loop: {conds: values}"""
    if t.op == "concat" and t.args and t.args[0].op == "list" and not t.args[0].args:
        t = t.args[1] if len(t.args) == 2 else t
    if t.op != "comp" or t.args[0] is not it:
        return None
    return {tuple(c): v if isinstance(v, tuple) else (v,) for c, v in t.args[1]}


def _frame(ctx, o, e, s, pset, kinds, N, G, U, K, f, strange):
    news = [x for x in o.flat() if x.kind in ("rcall",) and x.a[0].args[0] == S + ".__init__"] or [x for x in o.flat() if x.kind == "rnew" and "ScmDataFrame" in x.a[0].args[0]]
    if len(news) != 1:
        raise Unknown("%d data frames" % len(news))
    call = news[0].a[0]
    a = bound_args(ctx, S + ".__init__", call)
    it = e.a[0]
    # metadata
    cols = a.get("columns")
    if cols is None:
        raise Unknown("columns")
    cols = o.heap.get((cols, "$"), cols) if cols.op == "ref" else cols
    base, later = {}, []

    def parts(t):
        if t.op == "dict":
            for k, v in t.args:
                if not is_str(k):
                    raise Unknown("entry %s" % show(k)[:60])
                base[cval(k)] = v
        elif t.op == "dictupd":
            for x in t.args:
                parts(x)
        elif t.op == "dictcomp" and t.args[0] is it:
            later.append(t)
        else:
            raise Unknown("metadata %s" % show(t)[:100])

    parts(cols)
    for n in ("climate_model", "scenario", "model"):
        v = base.get(n)
        if v is None:
            raise Wrong("there is no %s" % n)
        v = single(v) or v
        if v is not named_param(ctx, f, n):
            raise Wrong("the %s is %s" % (n, show(v)[:60])) if v.op in ("const", "sym") else Unknown("%s %s" % (n, show(v)[:60]))
    # series: what is appended for them, by case
    app = appended(e, o)
    tables = {}
    for n in SERIES_COLUMNS:
        v = base.get(n)
        if v is None:
            raise Wrong("there is no %s" % n)
        b = by_case(v, it, e)
        if b is None:
            b = {}
            for conds, d in app:
                b[tuple(conds)] = tuple(y for l, ys in d.items() if l.op == "item" and l.args[1] is const(n) for y in ys)
            if not any(b.values()):
                raise Unknown("column %s: %s" % (n, show(v)[:80]))
        tables[n] = b
    data = a.get("data")
    C = untransposed(data)
    if C is None:
        raise Unknown("data %s" % show(data)[:100])
    tables["data"] = by_case(C, it, e)
    if tables["data"] is None:
        raise Unknown("data %s" % show(C)[:100])
    tp = norm(a.get("index")) if a.get("index") is not None else None
    want = named_param(ctx, f, "time_points")
    if tp is None:
        raise Wrong("the time points are not given")
    if not points(tp, want):
        if extended(tp) is not None and points(norm(extended(tp)), want):
            raise Wrong("the index has the end of the last interval as well")
        raise Unknown("index %s" % show(tp)[:80])
    for a, b, case in strange:
        if any(x in (N, G, U, K) or x.op == "lvlist" or x.op == "rcall" for x in walk(a)) and any(
                not rows(t, case[0]) for t in tables.values()):
            raise Wrong("%s is not stored for a series if %s%s" % (", ".join(n for n, t in tables.items() if not rows(t, case[0])), "" if b else "not ", show(a)[:100]))
    if strange:
        free = all(any(x is want for x in walk(a)) and not any(x.op in ("sym", "elem", "attr", "rcall") and x is not want for x in walk(a)) for a, _, _ in strange)
        for k in ("point", "average") if free else ():  # conditions on the argument alone can be met
            for cs, evs in kinds.get(k, ()):
                orig = [tuple(c) for c, x in e.a[1] if list(flat_events(x)) == evs]
                try:
                    _one_series(ctx, k, evs, {n: rows(t, c) for n, t in tables.items() for c in orig[:1]}, s, pset, N, G, U, K, want)
                except Unknown:
                    pass
        raise Unknown("condition %s" % show(strange[0][0])[:100])
    for k in ("point", "average", "timeseries"):
        for cs, evs in kinds.get(k, ()):
            orig = [tuple(c) for c, x in e.a[1] if list(flat_events(x)) == evs]
            if len(orig) != 1:
                raise Unknown("cases")
            _one_series(ctx, k, evs, {n: rows(t, orig[0]) for n, t in tables.items()}, s, pset, N, G, U, K, want)
    for k in ("generic", "scalar"):
        for cs, evs in kinds.get(k, ()):
            orig = [tuple(c) for c, x in e.a[1] if list(flat_events(x)) == evs]
            if len(orig) == 1 and any(rows(t, orig[0]) for t in tables.values()):
                raise Wrong("%s parameters become series" % k)


def rows(table, conds):
    """Values for a case of the loop"""
    if conds in table:
        return table[conds]
    r = [v for c, v in table.items() if set(c) <= set(conds)]
    if len(r) != 1:
        return () if not r else r[0] if all(x == r[0] for x in r) else ()
    return r[0]


def untransposed(t):
    """Rows x, when t is the table with the columns x"""
    m = method(t)
    if t.op == "attr" and t.args[1] == "T":
        x = t.args[0]
    elif m and m[1] == "transpose" and not m[2]:
        x = m[0]
    elif t.op == "call" and call_name(t) == "numpy.transpose" and len(t.args[1]) == 1:
        x = t.args[1][0]
    elif t.op == "call" and call_name(t) == "numpy.column_stack" and len(t.args[1]) == 1:
        return t.args[1][0]
    else:
        return None
    while x.op == "call" and call_name(x) in ("numpy.atleast_2d", "numpy.asarray", "numpy.array", "numpy.vstack") and len(x.args[1]) == 1 and not x.args[2]:
        x = x.args[1][0]
    return x


def points(t, want):
    """Is it the time points given?"""
    while t.op == "call" and call_name(t) in ("numpy.asarray", "numpy.array", "numpy.copy") and len(t.args[1]) == 1 or method(t) and method(t)[1] in ("astype", "copy") and method(t)[0] is not None:
        t = t.args[1][0] if t.op == "call" else method(t)[0]
    return t is want


def _one_series(ctx, k, evs, got, s, pset, N, G, U, K, want):
    vs = view_calls(evs, "timeseries")
    if not vs:
        raise Wrong("%s series are left out" % k)
    if len(set(vs)) != 1:
        raise Unknown("%d views" % len(vs))
    t = vs[0]
    a = {x: norm(s(v)) for x, v in bound_args(ctx, PSET + ".timeseries", t).items()}
    if t.args[1][0] is not pset:
        raise Unknown("view of %s" % show(t.args[1][0])[:60])
    for n, w in (("name", N), ("region", G), ("unit", U)):
        v = a.get(n)
        if v is not w:
            if v is None or v in (N, G, U, K) or v.op in ("const", "tuple") or n == "region" and region_of({"region": v}) is None:
                raise Wrong("the %s of the series which is read is %s" % (n, show(v)[:60] if v is not None else "not given"))
            raise Unknown("%s %s" % (n, show(v)[:60]))
    for n in ("interpolation", "extrapolation"):
        if n in a:
            raise Unknown(n)
    ty = a.get("timeseries_type")
    kind = None
    if ty is None:
        kind = "point"
    elif ty is K:
        kind = k
    elif type_name(ty) is not None:
        kind = "average" if type_name(ty) else "point"
    else:
        raise Unknown("type %s" % show(ty)[:60])
    if kind != k:
        raise Wrong("%s series are read as %s ones" % (k, kind))
    tp = a.get("time_points")
    if tp is None:
        raise Wrong("no time points")
    x = extended(tp)
    if k == "timeseries":
        raise Wrong("the interval ends do not depend on the type of the series") if points(tp, want) or x is not None and points(x, want) else Unknown("time points")
    if k == "average":
        if x is None or not points(x, want):
            if points(tp, want):
                raise Wrong("average series are read without the end of the last interval")
            if x is None and tp.op == "call":
                bad_extension(tp)
            raise Unknown("interval ends %s" % show(tp)[:120])
    elif not points(tp, want):
        if x is not None and points(x, want):
            raise Wrong("point series are read with interval ends")
        raise Unknown("time points %s" % show(tp)[:120])
    for n, vals in got.items():
        if len(vals) != 1:
            raise Wrong("%d values of %s are stored for one %s series" % (len(vals), n, k))
        v = norm(vals[0])
        if n == "data":
            while v.op == "call" and call_name(v) in ("numpy.asarray", "numpy.array", "builtins.list") and len(v.args[1]) == 1:
                v = v.args[1][0]
            if not (v.op == "rcall" and v.args[0].split("@")[0].endswith(".values") and norm(v.args[1][0]) is norm(t)):
                raise Unknown("values %s" % show(v)[:100])
            continue
        v = norm(s(vals[0]))
        if n in ("variable", "region"):
            w = N if n == "variable" else G
            if joined(v) is not w:
                if v in (N, G, U, K) or joined(v) is not None or v.op == "item":
                    raise Wrong("the %s of a series is %s" % (n, show(v)[:80]))
                raise Unknown("%s %s" % (n, show(v)[:80]))
        elif n == "unit":
            if v is not U:
                raise Wrong("the unit of a series is %s" % show(v)[:80]) if v.op in ("const", "sym") else Unknown("unit %s" % show(v)[:80])
        elif v.op == "rcall" and v.args[0] == PTYPE + ".timeseries_type_to_string" and len(v.args[1]) == 2:
            y = v.args[1][1]
            if y is not K and (type_name(y) is None or ("average" if type_name(y) else "point") != k):
                raise Wrong("the type of %s series is %s" % (k, show(y)[:60])) if y.op in ("enum", "const") else Unknown("type %s" % show(y)[:60])
        elif is_str(v):
            if cval(v) != k:
                raise Wrong("the type of %s series is %s" % (k, cval(v)))
        elif v is not K:
            raise Unknown("type %s" % show(v)[:80])


RULES = {
    "D09": {"rules": [d09], "explain": "The walks over regions and parameters are decided by induction over the trees, and what every path stores for a parameter or a series is compared with its name, region, unit and type."},
}
