"""Rules about filters of data frames (D04-D06)"""
import re

from ..check import Unknown, describe, implied
from ..terms import cval, is_num, is_str
from ..terms import sub as _sub
from .frames import BASE, FILT, S, TP, VOL, core
from .util import *

PM = FILT + "pattern_match"


def sub(t, a, b):
    return _sub(t, {a: b})


class Wrong(Exception):
    """The construct is understood and does something else than it has to"""


def opq(q):
    return core(q) or q == PM


def kwdict(keys):
    return mk("dict", *[(const(k), const(True) if k == "regexp" else mk("sym", "v_" + k, ("any",))) for k in keys])


def v_(k):
    return mk("sym", "v_" + k, ("any",))


def run_filter(ctx, keys, keep=True, inplace=False):
    f = ctx.p.need_function(S + ".filter")
    a = {"kwargs": kwdict(keys)}
    if f.node.args.kwarg is None:
        raise Undecided("keyword arguments of filter")
    a = {f.node.args.kwarg.arg: kwdict(keys), "keep": const(keep), "inplace": const(inplace)}
    return ctx.run(S + ".filter", opaque=opq, volatile=VOL, args=a)


# ---------------------------------------------------------------------- elementwise meaning of arrays
def simp(t):
    """item k of a comprehension without conditions"""
    if t.op == "item" and t.args[0].op == "comp" and t.args[1].op == "const":
        c = t.args[0]
        if len(c.args[1]) == 1 and not c.args[1][0][0]:
            return sub(c.args[1][0][1][0], mk("elem", c.args[0]), mk("item", c.args[0], t.args[1]))
    return t


def deep_simp(t):
    m = {}
    for x in walk(t):
        y = simp(x)
        if y is not x:
            m[x] = y
    for _ in range(3):
        for a, b in list(m.items()):
            t = sub(t, a, b)
    return t


def members(coll, x):
    """What a collection contains -> [(conditions, kind, ...)]"""
    if coll.op in ("list", "tuple", "set"):
        return [((), "eq", deep_simp(y)) for y in coll.args]
    if coll.op == "concat":
        return [m for y in coll.args for m in (members(y.args[0], x) if y.op == "spread" else members(y, x))]
    if coll.op == "spread":
        return members(coll.args[0], x)
    if coll.op == "call" and call_name(coll) in ("builtins.list", "builtins.tuple", "builtins.set", "numpy.array", "numpy.asarray", "builtins.sorted") and len(coll.args[1]) == 1:
        return members(coll.args[1][0], x)
    if coll.op == "call" and call_name(coll) in ("builtins.range", "numpy.arange") and not coll.args[2]:
        a = coll.args[1]
        if len(a) == 1:
            a = (const(0),) + a
        if len(a) == 2:
            return [((), "range", deep_simp(a[0]), deep_simp(a[1]))]
    if coll.op == "comp":
        r = []
        for conds, vals in coll.args[1]:
            for y in vals:
                if y.op == "elem" and y.args[0] is coll.args[0]:
                    r += [(tuple(conds) + m[0],) + m[1:] for m in members(coll.args[0], x)] if coll.args[0].op != "sym" else [(tuple(conds), "eq", y)]
                else:
                    r.append((tuple(conds), "eq", deep_simp(y)))
        return r
    if coll.op == "fold" and coll.args[0].op in ("list", "set") and not coll.args[0].args:
        lv = coll.args[1]
        r = []
        for c in coll.args[3]:
            conds, body = c[0], c[1][0] if isinstance(c[1], tuple) else c[1]
            if body is lv:
                continue
            if body.op == "concat" and body.args[0].op == "spread" and body.args[0].args[0] is lv:
                for y in body.args[1:]:
                    r += [(tuple(conds) + m[0],) + m[1:] for m in members(y.args[0] if y.op == "spread" else mk("list", y) if y.op not in ("comp", "list", "call", "concat", "fold") else y, x)]
            elif not contains(body, lv):
                members(body, x)
                raise Wrong("only the last of several values is used")
            else:
                raise Unknown("collection %s" % show(coll)[:200])
        return r
    if coll.op == "sym":
        return [((), "in", coll)]
    if coll.op == "slice" and coll.args[0].op == "sym" and all(y.op == "const" for y in coll.args[1:]):
        if all(y is NONE for y in coll.args[1:]):
            return members(coll.args[0], x)
        raise Wrong("only some of the values are used: %s" % show(coll))
    raise Unknown("collection %s" % show(coll)[:200])


def alternatives(t, x):
    """A formula about an element x of the data -> the values for which it is true"""
    if t.op == "eq" and (t.args[0] is x or t.args[1] is x):
        return [((), "eq", deep_simp(t.args[1] if t.args[0] is x else t.args[0]))]
    if t.op == "in" and t.args[0] is x:
        return members(t.args[1], x)
    if t.op == "or":
        return [a for y in t.args for a in alternatives(y, x)]
    if t.op == "not" and t.args[0].op in ("eq", "in"):
        alternatives(t.args[0], x)
        raise Wrong("the values are excluded instead of selected")
    if t.op == "exists" and t.args[0].op == "comp" and t.args[0].args[0].op == "sym":
        c = t.args[0]
        if len(c.args[1]) == 1 and not c.args[1][0][0]:
            return [(cs, "in", c.args[0]) if k == "eq" and val is mk("elem", c.args[0]) else (cs, k, val, *more)
                    for cs, k, val, *more in alternatives(c.args[1][0][1][0], x)]
    if t.op == "and" and len(t.args) == 2:
        lo = hi = None
        for y in t.args:
            neg = y.op == "not"
            z = y.args[0] if neg else y
            if z.op != "lt":
                raise Unknown("condition %s" % show(t)[:200])
            a, b = z.args
            if neg and a is x:
                lo = b
            elif neg and b is x:
                hi = mk("+", a, const(1))
            elif b is x:
                lo = mk("+", a, const(1))
            elif a is x:
                hi = b
        if lo is not None and hi is not None:
            return [((), "range", deep_simp(lo), deep_simp(hi))]
    raise Unknown("condition %s" % show(t)[:200])


def time_leaf(t):
    """(data, values which are selected)"""
    if t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "call" and call_name(t) in ("numpy.isin", "numpy.in1d") and len(t.args[1]) == 2 and not t.args[2]:
        return t.args[1][0], members(t.args[1][1], mk("elem", t.args[1][0]))
    if t.op == "comp":
        x = mk("elem", t.args[0])
        r = []
        for conds, vals in t.args[1]:
            if len(vals) != 1:
                raise Unknown("mask %s" % show(t)[:200])
            v = vals[0]
            if v.op == "const" and isinstance(v.args[1], bool):
                if not v.args[1]:
                    continue
                if not conds:
                    raise Unknown("mask %s" % show(t)[:200])
                pos = [c for c in conds if c[1]]
                if len(pos) != 1:
                    raise Unknown("mask %s" % show(t)[:200])
                r += alternatives(pos[0][0], x)
                continue
            if conds:
                raise Unknown("mask %s" % show(t)[:200])
            r += alternatives(v, x)
        return t.args[0], r
    raise Unknown("mask %s" % show(t)[:200])


def neutral(t):
    if t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray") and t.args[1]:
        t = t.args[1][0]
    if t.op == "repeat":
        return t.args[0].op == "list" and all(y is TRUE for y in t.args[0].args)
    if t.op == "call" and call_name(t) == "numpy.ones":
        return any(k == "dtype" and w in (ext("builtins.bool"), ext("numpy.bool_")) for k, w in t.args[2]) or len(t.args[1]) > 1 and t.args[1][1] is ext("builtins.bool")
    if t.op == "call" and call_name(t) == "numpy.full" and len(t.args[1]) > 1:
        return t.args[1][1] is TRUE
    if t.op == "comp":
        return all(v == (TRUE,) for _, v in t.args[1])
    return False


def strip_values(t):
    while True:
        if t.op == "attr" and t.args[1] == "values":
            t = t.args[0]
        elif t.op == "rcall" and t.args[0].endswith(".values") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] in ("to_numpy", "copy"):
            t = t.args[0]
        elif t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray") and len(t.args[1]) == 1 and t.args[1][0].op in ("rcall", "attr", "mcall"):
            t = t.args[1][0]
        else:
            return t


NEWAXIS = (ext("numpy.newaxis"), NONE)


def mask_parts(ctx, t, axis="meta"):
    """Conjunction of masks -> [(axis, leaf)]"""
    if t.op == "inv":
        u = t.args[0]
        if u.op == "inv":
            return mask_parts(ctx, u.args[0], axis)
        if u.op == "|":
            return [p for y in u.args for p in mask_parts(ctx, mk("inv", y), axis)]
        mask_parts(ctx, u, axis)
        raise Wrong("a part of the selection is inverted")
    if t.op == "|":
        for y in t.args:
            mask_parts(ctx, y, axis)
        raise Wrong("restrictions are alternatives instead of being combined")
    if t.op == "&" or t.op == "call" and call_name(t) == "numpy.logical_and" and len(t.args[1]) == 2 and not t.args[2]:
        a, b = t.args if t.op == "&" else t.args[1]
        return mask_parts(ctx, a, axis) + mask_parts(ctx, b, axis)
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        i, j = t.args[1].args
        full = i.op in ("slice3", "slice") and all(y is NONE for y in i.args)
        fullj = j.op in ("slice3", "slice") and all(y is NONE for y in j.args)
        if full and j in NEWAXIS:
            return mask_parts(ctx, t.args[0], "time")
        if fullj and i in NEWAXIS:
            return mask_parts(ctx, t.args[0], "meta")
        raise Unknown("mask %s" % show(t)[:200])
    if t.op == "mcall" and t.args[1] == "reshape" and t.args[2] in ((const(-1), const(1)), (mk("tuple", const(-1), const(1)),)):
        return mask_parts(ctx, t.args[0], "time")
    if t.op == "call" and call_name(t) in ("numpy.outer", "numpy.logical_and.outer", "numpy.multiply.outer") and len(t.args[1]) == 2:
        return mask_parts(ctx, t.args[1][0], "time") + mask_parts(ctx, t.args[1][1], "meta")
    if neutral(t):
        return []
    u = strip_values(t)
    if u.op == "rcall" and u.args[0] == PM:
        return [(axis, ("pattern", pattern_args(ctx, u)))]
    return [(axis, ("time",) + time_leaf(t))]


def pattern_args(ctx, u):
    a = ctx.p.functions[PM].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    r = dict(zip(names, u.args[1]))
    r.update({k: w for k, w in u.args[2]})
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for n in names:
        if n not in r and n in d:
            try:
                import ast
                r[n] = const(ast.literal_eval(d[n]))
            except ValueError:
                r[n] = ext("default:" + n)
    return {i: r.get(n) for i, n in enumerate(names)}, names


def column(t):
    """Name of the metadata column"""
    t = strip_values(t)
    while t.op == "mcall" and t.args[1] in ("copy", "astype"):
        t = t.args[0]
    if t.op != "item":
        raise Unknown("column %s" % show(t)[:100])
    base, k = t.args
    if base.op == "attr" and base.args[1] == "loc" and k.op == "tuple":
        base, k = base.args[0], k.args[1]
    while base.op == "mcall" and base.args[1] == "copy":
        base = base.args[0]
    if base is not attr(self_of(S), "_meta"):
        raise Unknown("column of %s" % show(base)[:100])
    return k


def meta_columns(o, k):
    """Is k a metadata column on this path?"""
    for a, x in o.order:
        if a.op == "in" and a.args[0] is const(k) and contains(a.args[1], mk("attr", self_of(S), "_meta")):
            return x
    return None


def result(o, me, inplace):
    ret = me if inplace else o.value
    data, meta = o.heap.get((ret, "_data")), o.heap.get((ret, "_meta"))
    if data is None or meta is None:
        raise Unknown("the result is not understood: %s" % show(o.value)[:100])
    return ret, data, meta


def where_of(data):
    """(frame which is masked, mask, dropped axes)"""
    dropped = []
    while True:
        m = method(data)
        if m is None:
            raise Unknown("data %s" % show(data)[:200])
        obj, n, pos, kw = m
        kw = dict(kw)
        if n == "dropna" and not pos:
            dropped.append((kw.pop("axis", const(0)), kw.pop("how", const("any")), tuple(sorted(kw))))
            data = obj
        elif n == "where" and len(pos) == 1 and not kw:
            return obj, pos[0], False, dropped, data
        elif n == "mask" and len(pos) == 1 and not kw:
            return obj, pos[0], True, dropped, data
        elif n in ("copy",):
            data = obj
        else:
            raise Unknown("data %s" % show(data)[:200])


def flip(t):
    n = False
    while t.op == "inv" or t.op == "call" and call_name(t) == "numpy.logical_not":
        t = t.args[0] if t.op == "inv" else t.args[1][0]
        n = not n
    return t, n


SETS = [
    (), ("variable",), ("variable", "level"), ("level", "variable"), ("level",), ("scenario",), ("foo",),
    ("year",), ("month",), ("day",), ("hour",), ("time",), ("year", "month"), ("scenario", "region"),
    ("hour", "year"), ("hour", "month"), ("hour", "day"), ("year", "hour"), ("year", "time"), ("time", "year"), ("day", "hour"),
    ("region", "scenario"), ("scenario", "variable"), ("scenario", "level"), ("level", "region"), ("year", "model"), ("foo", "year"), ("variable", "year", "scenario"),
    ("variable", "regexp"), ("scenario", "regexp"), ("regexp", "level"),
]
META = ("model", "scenario", "region", "variable", "unit")
DATA = {"year": "years", "month": "months", "hour": "hours"}


def d04(ctx):
    for keys in SETS:
        for keep in (True, False):
            if keep is False and len(keys) != 1 and keys != ("variable", "year", "scenario"):
                continue
            if "month" in keys or "day" in keys:
                if keep is False:
                    continue
            ctx.guard("D04.filter", "filter(%s)" % ", ".join(keys + (() if keep else ("keep=False",))), _d04, ctx, keys, keep)


def _d04(ctx, keys, keep):
    f = ctx.p.need_function(S + ".filter")
    outs = run_filter(ctx, keys, keep)
    loc = ctx.loc(f)
    cons = "filter(%s)" % ", ".join(keys + (() if keep else ("keep=False",)))
    me = self_of(S)
    n = 0
    for o in outs:
        unknown = [k for k in keys if k == "foo" and meta_columns(o, k) is False]
        if unknown:
            n += 1
            r = raises(o, "builtins.ValueError")
            if r:
                ctx.bad("D04.unknown", cons, "filtering by an unknown key: %s (%s)" % (r, desc(o)), loc)
            else:
                ctx.holds("D04.unknown", cons)
            continue
        if o.kind != "return" or any(k in ("level", "regexp") and meta_columns(o, k) for k in keys):
            continue
        n += 1
        try:
            _, data, meta = result(o, me, False)
            obj, m, inverse, dropped, w = where_of(data)
            m, neg = flip(m)
            parts = mask_parts(ctx, m)
        except Unknown as e:
            ctx.unk("D04.filter", cons, str(e), loc)
            continue
        except Wrong as e:
            ctx.bad("D04.filter", cons, "%s (%s)" % (e, desc(o)), loc)
            continue
        msg = None
        if (neg != inverse) != (not keep):
            msg = "the selection is %s" % ("inverted" if keep else "not inverted")
        try:
            msg = msg or _parts(ctx, o, keys, parts)
            if not (obj.op == "attr" and obj.args[1] == "_data"):
                raise Unknown("data %s" % show(obj)[:100])
            for ax, how, rest in dropped:
                if how is not const("all") or rest:
                    msg = msg or "series or times with some missing values are dropped"
            axes = [show(a) for a, _, _ in dropped]
            ok = {"0", "'index'", "'rows'"}, {"1", "'columns'"}
            for want, what in zip(ok, ("times", "series")):
                if not any(a in want for a in axes):
                    msg = msg or "%s without remaining values are kept" % what
            msg = msg or _meta_rows(ctx, meta, w, data)
        except Unknown as e:
            ctx.unk("D04.filter", cons, str(e), loc)
            continue
        if msg:
            ctx.bad("D04.filter", cons, "%s (%s)" % (msg, desc(o)), loc)
        else:
            ctx.holds("D04.filter", cons)
    if not n:
        ctx.unk("D04.filter", cons, "no path is covered", loc)


def _meta_rows(ctx, meta, w, data):
    """Are exactly the rows with remaining data kept in the metadata?"""
    while meta.op == "mcall" and meta.args[1] == "copy":
        meta = meta.args[0]
    if meta.op != "item":
        raise Unknown("metadata %s" % show(meta)[:200])
    base, k = meta.args
    if base.op == "attr" and base.args[1] == "loc":
        base = base.args[0]
        if k.op == "attr" and k.args[1] == "columns" and k.args[0] is data:
            return None
    if k.op == "tuple" and len(k.args) == 2:
        k = k.args[0]
    k = strip_values(k)
    k, neg = flip(k)

    def present(t):
        """Which cells?  1: not missing, -1: missing"""
        t, n = flip(t)
        m = method(t)
        if m is None or m[0] is not w and m[0] is not data:
            raise Unknown("rows %s" % show(k)[:200])
        s = {"isna": -1, "isnull": -1, "notna": 1, "notnull": 1}.get(m[1])
        if s is None:
            raise Unknown("rows %s" % show(k)[:200])
        return -s if n else s

    def axis(kw, pos):
        a = dict(kw).get("axis", pos[0] if pos else const(0))
        return a in (const(0), const("index"), const("rows"))

    if k.op == "lt" and (is_num(k.args[0]) or is_num(k.args[1])):
        c, s = k.args
        gt = is_num(c)
        if not gt:
            c, s = s, c
        c = cval(c)
        m = method(s)
        if m and m[1] == "count" and m[0] is w:
            p = 1
        elif m and m[1] == "sum":
            p = present(m[0])
        else:
            raise Unknown("rows %s" % show(k)[:200])
        if not axis(m[3], m[2]):
            return "metadata are selected by times"
        if p == 1 and (gt and not neg and 0 <= c < 1 or not gt and neg and 0 < c <= 1):
            return None
        return "metadata are kept for other series than those with remaining values"
    m = method(k)
    if m and m[1] in ("any", "all"):
        p = present(m[0])
        if not axis(m[3], m[2]):
            return "metadata are selected by times"
        if (m[1], p, neg) in (("any", 1, False), ("all", -1, True)):
            return None
        return "metadata are kept for other series than those with remaining values"
    try:
        mask_parts(ctx, k)
    except Wrong:
        pass
    return "metadata are selected without regard to the remaining values"


def _parts(ctx, o, keys, parts):
    """None or what is wrong about the masks"""
    f = ctx.p.functions[S + ".filter"]
    want, seen = [], []
    for k in keys:
        if k == "regexp" or k == "level" and "variable" in keys:
            continue
        if k in META:
            want.append((k, "meta", k))
        elif k == "level":
            want.append((k, "meta", "variable"))
        elif meta_columns(o, k) or k == "foo":
            want.append((k, "meta", k))
        else:
            want.append((k, "time", k))
    left = list(parts)
    for k, ax, c in want:
        hit = None
        for p in left:
            a, leaf = p
            if ax == "meta" and leaf[0] == "pattern":
                x, names = leaf[1]
                if column(x[0]) is const(c) and x[1] is (const("*") if k == "level" else v_(k)):
                    hit = p
            elif ax == "time" and leaf[0] == "time":
                if any(y is v_(k) for m in leaf[2] for z in m[2:] for y in walk(z)):
                    hit = p
        if hit is None:
            if any(l[1][0] == "pattern" for l in left) or any(l[1][0] == "time" for l in left) or not left:
                return "%s is not restricted by the filter on %s" % ("the series" if ax == "meta" else "the time axis", k)
        left.remove(hit)
        if hit[0] != ax:
            return "the filter on %s is applied along the wrong axis" % k
        if ax == "meta":
            x, names = hit[1][1]
            idx = {n: i for i, n in enumerate(names)}
            lev = x[2]
            wl = v_("level") if (k == "variable" and "level" in keys or k == "level") else NONE
            if lev is not wl:
                if not lev.op == "const" and lev is not v_("level"):
                    raise Unknown("level %s" % show(lev))
                return "the filter on %s is restricted to level %s instead of %s" % (k, show(lev), show(wl))
            rx = x[idx.get("regexp", 3)]
            if k == "level":
                if "regexp" in keys and rx is not FALSE:
                    return "the pattern * is used as regular expression"
            else:
                wr = TRUE if "regexp" in keys else FALSE
                if rx is not wr:
                    if rx.op != "const":
                        r = tv(o, rx)
                        if r is not (wr is TRUE):
                            raise Unknown("regexp %s" % show(rx))
                    else:
                        return "regular expressions are %s" % ("not used" if wr is TRUE else "used without being asked for")
            hn = x[idx.get("has_nan", 4)]
            if hn is not named_param(ctx, f, "has_nan"):
                if hn.op == "const" or hn.op == "not":
                    return "the treatment of missing metadata is not the one asked for"
                raise Unknown("has_nan %s" % show(hn))
            sp = x[idx.get("separator", 5)]
            if sp is not attr(self_of(S), "data_hierarchy_separator") and sp.op not in ("classattr", "ext", "const"):
                raise Unknown("separator %s" % show(sp))
    if left:
        return "there are restrictions which have not been asked for: %s" % "; ".join(show(l[1])[:100] if hasattr(l[1], "op") else str(l[1][0]) for l in left)
    return None


# ---------------------------------------------------------------------- D06
def conv(part, e):
    """Is e the number of the month / weekday of a name? -> (name, code)"""
    name = {"month": ("tm_mon", "month"), "day": ("tm_wday", "weekday")}[part]
    if e.op == "attr" and e.args[1] == name[0]:
        c = e.args[0]
        if c.op == "call" and call_name(c) == "time.strptime" and len(c.args[1]) == 2:
            return c.args[1]
    if e.op == "attr" and e.args[1] == "month" and name[1] == "month" or e.op == "mcall" and e.args[1] == name[1]:
        c = e.args[0]
        if c.op == "call" and call_name(c) == "datetime.datetime.strptime" and len(c.args[1]) == 2:
            return c.args[1]
    if e.op == "attr" and e.args[1].startswith("tm_"):
        raise Wrong("names are converted to %s" % e.args[1])
    raise Unknown("number %s" % show(e)[:150])


CODES = {"month": {"%b", "%B"}, "day": {"%a", "%A"}}


def d06(ctx):
    for k in ("year", "month", "day", "hour", "time"):
        ctx.guard("D06.filter", k, _d06, ctx, k)


def _d06(ctx, k):
    f = ctx.p.need_function(S + ".filter")
    outs = run_filter(ctx, (k,))
    loc = ctx.loc(f)
    me = self_of(S)
    v = v_(k)
    n = 0
    codes = set()
    unknown = False
    for o in outs:
        if meta_columns(o, k):
            continue
        try:
            r = _d06_path(ctx, o, k, v, me, codes)
        except Wrong as e:
            r = str(e)
        except Unknown as e:
            ctx.unk("D06.filter", k, "%s (%s)" % (e, desc(o)), loc)
            unknown = True
            continue
        if r is None:
            continue
        n += 1
        if r is True:
            ctx.holds("D06.filter", k)
        else:
            ctx.bad("D06.filter", k, "filter by %s: %s (%s)" % (k, r, desc(o)), loc)
    if not n:
        ctx.unk("D06.filter", k, "no path is covered", loc)
    elif k in CODES and not unknown:
        for c in sorted(CODES[k]):
            if c in codes:
                ctx.holds("D06.names", k)
            else:
                ctx.bad("D06.names", k, "%s names are not understood (format %s)" % ("abbreviated" if c.islower() else "full", c), loc)


def all_ints(o, v):
    """Are all elements ints on this path?"""
    e = mk("isinst", mk("elem", v), "builtins.int")
    for a, x in o.order:
        if a.op in ("all?", "forall") and contains(a, e) and not contains(a, mk("not", e)):
            return x
        if a.op == "exists" and contains(a, mk("not", e)):
            return not x
    return None


def any_int(o, v):
    e = mk("isinst", mk("elem", v), "builtins.int")
    for a, x in o.order:
        if a.op == "exists" and contains(a, e) and not contains(a, mk("not", e)):
            return x
    return None


def _d06_path(ctx, o, k, v, me, codes):
    isint = implied(o, mk("isinst", v, "builtins.int"))
    isstr = implied(o, mk("isinst", v, "builtins.str"))
    if k == "year":
        it = implied(o, mk("isinst", v, "typing.Iterable"))
        ai = all_ints(o, v)
        if isint is not True and (it is False or ai is False):
            return True if raises(o, "builtins.TypeError") is None else "a year which is not an int is accepted"
        if o.kind == "raise":
            if o.exc() == "builtins.AssertionError":
                return None
            if isint is True or ai is True:
                return "years are rejected"
            if any_int(o, v) is False and o.exc() == "builtins.TypeError":
                return None
            raise Unknown("path is not understood")
        if isint is not True and ai is not True:
            if any_int(o, v) is True:
                return "years of which only some are ints are accepted"
            if not mentions(o, v, (), ("builtins.int",)):
                return "years which are not ints are accepted"
            raise Unknown("type of the years")
    elif k == "time":
        dt = implied(o, mk("isinst", v, "datetime.datetime"))
        ai = any_int(o, v)
        if isint is True or ai is True:
            if dt is True:
                return None  # nothing is both
            return True if raises(o, "builtins.TypeError") is None else "a time which is an int is accepted"
        if o.kind == "raise":
            return None if o.exc() == "builtins.AssertionError" else "times are rejected"
        if dt is not True and ai is not False:
            if not mentions(o, v, (), ("builtins.int",)):
                return "times which are ints are accepted"
            raise Unknown("type of the times")
    elif o.kind == "raise" and o.exc() != "builtins.ValueError":
        if o.exc() == "builtins.AssertionError":
            return None
        raise Unknown("raises %s" % o.exc())
    if o.kind == "raise":
        if k in CODES:
            return _backwards(o, k, v)
        return "values are rejected"
    _, data, meta = result(o, me, False)
    obj, m, inverse, dropped, w = where_of(data)
    m, neg = flip(m)
    leaves = [leaf for ax, leaf in mask_parts(ctx, m) if ax == "time"]
    if len(leaves) != 1 or leaves[0][0] != "time":
        raise Unknown("mask %s" % show(m)[:200])
    _, d, alts = leaves[0]
    tp = attr(me, "_time_points")
    d = deep_strip(d)
    names = isstr is True or implied(o, mk("isinst", mk("item", v, const(0)), "builtins.str")) is True
    empty = implied(o, mk("lt", mk("len", v), const(1))) is True
    if k == "time":
        good = d.op == "rcall" and d.args[0].split("@")[0] == TP + ".values" or d is attr(tp, "values") or d is attr(tp, "_values")
        comp = "values"
    else:
        comp = "weekdays" if k == "day" and names else "days" if k == "day" else DATA[k]
        good = d.op == "rcall" and d.args[0].split("@")[0] == TP + "." + comp and d.args[1] == (tp,)
    if not good and not (empty and k == "day"):
        if d.op == "rcall" and d.args[0].startswith(TP + "."):
            return "compared with %s instead of %s of the time points" % (d.args[0].split("@")[0].rsplit(".", 1)[1], comp)
        raise Unknown("compared with %s" % show(d)[:100])
    if not names:
        for a in alts:
            conds, kind, val = a[0], a[1], a[2]
            if kind in ("eq", "in") and val is v or kind == "eq" and val is mk("elem", v):
                continue
            if kind == "eq" and val.op == "call" and call_name(val) == "builtins.int":
                return "values are rounded"
            if kind == "range" and val.op == "call" and call_name(val) in ("builtins.min", "numpy.min") and val.args[1] == (v,):
                return "everything between the values asked for is selected"
            if understood(val, [v]):
                return "compared with %s instead of the values asked for" % show(val)[:100]
            raise Unknown("compared with %s" % show(val)[:100])
        scalar = isint is True or k == "time" and implied(o, mk("isinst", v, "datetime.datetime")) is True
        if alts and scalar and any(a[1] != "eq" for a in alts) or not alts and not empty:
            raise Unknown("compared with %s" % [show(a[2])[:60] for a in alts])
        return True
    base = v if isstr is True else mk("elem", v)
    got = {"eq": 0, "range": 0}
    dash = mk("in", const("-"), base)
    for a in alts:
        conds, kind = a[0], a[1]
        fact = dict(conds)
        has = fact.get(dash, implied(o, dash))
        if kind == "eq":
            nm, code = conv(k, a[2])
            check_code(k, code)
            codes.add(cval(code))
            if nm is not base:
                if contains(nm, base) and nm.op == "item":
                    return "only one end of a range is selected"
                raise Unknown("name %s" % show(nm)[:100])
            if has is True:
                return "a range is used like a single name"
            if has is None:
                raise Unknown("ranges are not told from names")
            got["eq"] += 1
        elif kind == "range":
            lo, hi = a[2], a[3]
            if has is not True:
                raise Unknown("a range for %s" % show(base))
            off = 0
            if hi.op == "+" and is_num(hi.args[1]):
                off, hi = cval(hi.args[1]), hi.args[0]
            elif hi.op == "+" and is_num(hi.args[0]):
                off, hi = cval(hi.args[0]), hi.args[1]
            (ln, lc), (hn, hc) = conv(k, lo), conv(k, hi)
            check_code(k, lc)
            check_code(k, hc)
            sp = mk("mcall", base, "split", (const("-"),), ())
            if off != 1:
                return "the last %s of a range is %s" % (k, "not included" if off == 0 else "not the one asked for")
            if ln is not mk("item", sp, const(0)) or hn is not mk("item", sp, const(1)) and hn is not mk("item", sp, const(-1)):
                if understood(ln, [sp]) and understood(hn, [sp]) and ln.op == hn.op == "item" and ln.args[0] is sp:
                    return "a range goes from %s to %s" % (show(ln), show(hn))
                raise Unknown("range from %s to %s" % (show(ln)[:80], show(hn)[:80]))
            back = mk("lt", conv_like(a[3], hi), lo)
            known = None
            facts = list(conds) + list(o.order)
            for at, x in facts:
                at2 = deep_simp(at)
                if at2.op == "lt" and at2.args[0] is hi and at2.args[1] is lo:
                    known = x
                if at2.op == "lt" and at2.args[0] is lo and at2.args[1] is hi and x:
                    known = False
                if at2.op == "not" and at2.args[0].op == "lt" and at2.args[0].args == (hi, lo):
                    known = not x
            if known is not False:
                if any(contains(deep_simp(at), hi) and not contains(at, attr(me, "_data")) for at, x in facts):
                    raise Unknown("condition on ranges")
                return "ranges running backwards are accepted"
            got["range"] += 1
        else:
            raise Unknown("alternative %s" % kind)
    if isstr is True:
        need = ["range"] if implied(o, dash) is True else ["eq"]
    else:
        need = ["eq", "range"]
    for x in need:
        if not got[x]:
            return "%s are ignored" % {"eq": "single names", "range": "ranges"}[x]
    return True


def conv_like(a, b):
    return b


def check_code(k, c):
    if not is_str(c):
        raise Unknown("format %s" % show(c))
    if cval(c) not in CODES[k]:
        raise Wrong("names are read with the format %s" % cval(c))


def deep_strip(d):
    return strip_copy(d) if d.op in ("call", "mcall") else d


def mentions(o, v, names, types):
    """Do conditions of the path talk about types of the value or of its elements?"""
    for a, _ in o.order:
        for y in walk(a):
            if y.op == "isinst" and y.args[1] in types and contains(y, v):
                return True
            if y.op in ("call", "rcall", "mcall") and contains(y, v):
                return True
    return False


def _backwards(o, k, v):
    """A rejected name: only for ranges running backwards or names which cannot be read"""
    for a, x in o.order:
        a = deep_simp(a)
        if a.op == "lt" and x:
            try:
                lo, hi = conv(k, a.args[1]), conv(k, a.args[0])
            except (Unknown, Wrong):
                continue
            if lo[0].op == hi[0].op == "item" and lo[0].args[1] is const(0) and hi[0].args[1] in (const(1), const(-1)):
                return True
            if lo[0].op == hi[0].op == "item" and hi[0].args[1] is const(0):
                return "ranges running forward are rejected"
        if a.op == "lt" and not x:
            try:
                lo, hi = conv(k, a.args[0]), conv(k, a.args[1])
            except (Unknown, Wrong):
                continue
            if lo[0].op == hi[0].op == "item" and lo[0].args[1] is const(0):
                return "ranges of one %s are rejected" % k
    if any(e.kind in ("implicit_raise",) for e in o.flat()):
        return None
    raise Unknown("rejected for an unknown reason")


# ---------------------------------------------------------------------- D05
ALPHABET = "ab1 _-.^$*+?{}[]\\|()/&#~\t%,:;<>=!@\"'`"


def image(t, s, text):
    """Text which a term about the string s gives for a certain text"""
    if t is s:
        return text
    if is_str(t):
        return cval(t)
    if t.op == "call" and call_name(t) == "builtins.str" and len(t.args[1]) == 1:
        return image(t.args[1][0], s, text)
    if t.op == "call" and call_name(t) == "re.escape" and len(t.args[1]) == 1:
        return re.escape(image(t.args[1][0], s, text))
    if t.op == "fmt" or t.op == "+":
        return "".join(image(x, s, text) for x in t.args)
    if t.op == "mcall" and t.args[1] == "replace" and len(t.args[2]) == 2 and all(is_str(x) for x in t.args[2]):
        return image(t.args[0], s, text).replace(cval(t.args[2][0]), cval(t.args[2][1]))
    if t.op == "mcall" and t.args[1] in ("strip", "lower", "upper", "rstrip", "lstrip") and all(is_str(x) for x in t.args[2]):
        return getattr(image(t.args[0], s, text), t.args[1])(*[cval(x) for x in t.args[2]])
    if t.op == "mcall" and t.args[1] == "join" and is_str(t.args[0]) and len(t.args[2]) == 1 and t.args[2][0].op == "comp":
        c = t.args[2][0]
        src = c.args[0]
        if len(c.args[1]) == 1 and not c.args[1][0][0] and src.op == "mcall" and src.args[1] == "split" and len(src.args[2]) == 1 and is_str(src.args[2][0]):
            ps = image(src.args[0], s, text).split(cval(src.args[2][0]))
            el = c.args[1][0][1][0]
            x = mk("elem", src)
            return cval(t.args[0]).join(image(el, x, p) for p in ps)
    raise Unknown("pattern %s" % show(t)[:200])


def pattern_table(t, s):
    """How a pattern is built from a filter string: prefix, suffix and what stands for each character"""
    empty = image(t, s, "")
    one = {c: image(t, s, c) for c in ALPHABET}
    pre = ""
    # split the text around the characters: prefix + image + suffix
    for i in range(len(empty) + 1):
        p, q = empty[:i], empty[i:]
        if all(w.startswith(p) and w.endswith(q) and len(w) >= len(empty) for w in one.values()):
            img = {c: w[len(p): len(w) - len(q)] for c, w in one.items()}
            ok = True
            for a in ALPHABET:
                for b in ALPHABET:
                    if image(t, s, a + b) != p + img[a] + img[b] + q:
                        ok = False
            if ok:
                return p, q, img
    raise Unknown("pattern %s is not built character by character" % show(t)[:200])


SPECIAL = set(".^$*+?{}[]\\|()")


def literal(c, img):
    """Does the text of the pattern match exactly this character?"""
    return img == c and c not in SPECIAL or img == "\\" + c and not c.isalnum() or img == "[" + c + "]" and c not in "^\\"


def d05(ctx):
    ctx.guard("D05.pattern", PM, _d05, ctx)
    for q in (PM,):
        ctx.guard("D05.missing", q, _missing, ctx)


def _pm(ctx, regexp, has_nan=True):
    if PM not in ctx.p.functions:
        raise Unknown("function pattern_match")
    f = ctx.p.functions[PM]
    return f, ctx.run(PM, volatile=VOL, opaque=core, args={"regexp": const(regexp), "has_nan": const(has_nan)})


def base_col(t, col):
    """Is it the column (with missing values replaced)?  -> True"""
    while t is not col:
        m = method(t)
        if m and m[1] in ("copy", "fillna", "where", "mask", "replace"):
            t = m[0]
            continue
        if t.op == "call" and call_name(t) in ("pandas.Series", "builtins.list", "numpy.array", "numpy.asarray") and t.args[1]:
            t = t.args[1][0]
            continue
        if t.op == "attr" and t.args[1] == "values":
            t = t.args[0]
            continue
        return False
    return True


def elementwise(t, col, X):
    """Formula about the value X of a row of the column col (Y: as it is in the original column)"""
    if t.op in ("|", "&", "or", "and"):
        return mk("or" if t.op in ("|", "or") else "and", *[elementwise(x, col, X) for x in t.args])
    if t.op == "inv":
        return mk("not", elementwise(t.args[0], col, X))
    if t.op == "const" and isinstance(t.args[1], bool):
        return t
    if t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray", "pandas.Series", "builtins.list") and t.args[1]:
        return elementwise(t.args[1][0], col, X)
    if t.op == "call" and call_name(t) == "numpy.zeros":
        return FALSE
    if t.op == "repeat" and t.args[0].op == "list" and len(t.args[0].args) == 1:
        return t.args[0].args[0]
    if t.op == "comp" and base_col(t.args[0], col):
        r = []
        for conds, vals in t.args[1]:
            if len(vals) != 1:
                raise Unknown("mask %s" % show(t)[:200])
            r.append(mk("and", *([formula(a, v) for a, v in conds] + [vals[0]])))
        return sub(mk("or", *r), mk("elem", t.args[0]), X)
    if t.op == "mcall" and t.args[1] == "isin" and len(t.args[2]) == 1 and base_col(t.args[0], col):
        c = t.args[2][0]
        if c.op == "comp" and base_col(c.args[0], col):
            r = []
            for conds, vals in c.args[1]:
                if vals != (mk("elem", c.args[0]),):
                    raise Unknown("mask %s" % show(t)[:200])
                r.append(mk("and", *[formula(a, v) for a, v in conds]))
            return sub(mk("or", *r), mk("elem", c.args[0]), X)
    if t.op == "eq":
        for a, b in (t.args, t.args[::-1]):
            if base_col(a, col):
                return mk("eq", X, b)
            m = method(a)
            if m and m[1] == "astype" and base_col(m[0], col) and m[2] and m[2][0] in (ext("builtins.str"), const("str")) and b.op == "call" and call_name(b) == "builtins.str":
                raise Wrong("the texts of values are compared instead of the values: %s" % show(t)[:100])
    if t.op == "mcall" and t.args[1] in ("apply", "map") and base_col(t.args[0], col) and len(t.args[2]) == 1 and t.args[2][0].op == "lam":
        cases = t.args[2][0].args[1]
        y = mk("sym", "$0")
        for z in walk(t.args[2][0]):
            if z.op == "sym" and z.args[0] == "$0":
                y = z
        return sub(mk("or", *[mk("and", *([formula(a, v) for a, v in cs] + [body])) for cs, body in cases]), y, X)
    if t.op == "foldop":
        raise Unknown("fold %s" % show(t)[:100])
    raise Unknown("mask %s" % show(t)[:200])


def formula(a, v):
    return a if v else mk("not", a)


def norm(t):
    """Conditions without neutral operands, nested or single ones"""
    if t.op == "not":
        x = norm(t.args[0])
        if x.op == "not":
            return x.args[0]
        if x.op == "const":
            return FALSE if cval(x) else TRUE
        return mk("not", x)
    if t.op in ("and", "or"):
        zero, one = (FALSE, TRUE) if t.op == "and" else (TRUE, FALSE)
        r = []
        for x in t.args:
            x = norm(x)
            for y in x.args if x.op == t.op else (x,):
                if y is zero:
                    return zero
                if y is not one and y not in r:
                    r.append(y)
        if not r:
            return one
        return r[0] if len(r) == 1 else mk(t.op, *r)
    return t


def sources(t):
    """[(conditions, value which is searched for, mask)] of the result of the function"""
    if t.op == "foldop":
        init, c = t.args[0], t.args[1]
        if c.op != "comp":
            raise Unknown("fold %s" % show(t)[:100])
        r = []
        for conds, vals in c.args[1]:
            for v in vals:
                if v.op != "opnd" or v.args[0] != "|":
                    if v.op == "opnd":
                        raise Wrong("alternatives are combined with %s" % v.args[0])
                    raise Unknown("fold %s" % show(v)[:100])
                r.append((tuple(conds), v.args[1]))
        return init, r
    if t.op == "fold":
        for cs in t.args[3]:
            body = cs[1][0] if isinstance(cs[1], tuple) else cs[1]
            if body is not t.args[1] and not contains(body, t.args[1]):
                raise Wrong("only the last of several values is used")
    return None, [((), t)]


def _d05(ctx):
    X = mk("sym", "$row", ("str",))
    for regexp in (False, True):
        f, outs = _pm(ctx, regexp)
        col, values, level = param(ctx, f, 0), param(ctx, f, 1), param(ctx, f, 2)
        sep = named_param(ctx, f, "separator")
        loc = ctx.loc(f)
        for o in outs:
            rule = "D05.regexp" if regexp else "D05.pattern"
            try:
                if o.kind == "raise":
                    _level_error(ctx, o, level, loc)
                    continue
                init, cases = sources(o.value)
                if init is not None and elementwise(init, col, X) is not FALSE:
                    ctx.bad(rule, PM, "rows match without being asked for (%s)" % desc(o), loc)
                single = implied(o, mk("isinst", values, "builtins.str"))
                scalar = single is True or implied(o, mk("isinst", values, "typing.Iterable")) is False
                s = values if scalar else mk("elem", values)
                for conds, m in cases:
                    facts = dict(conds)

                    def known(a):
                        x = facts.get(a)
                        return x if x is not None else implied(o, a)

                    isstr = known(mk("isinst", s, "builtins.str"))
                    t = norm(elementwise(m, col, X))
                    if isstr is False:
                        if t not in (mk("eq", X, s), mk("eq", s, X)):
                            raise Unknown("comparison %s" % show(t)[:200])
                        ctx.holds(rule, PM)
                        continue
                    if isstr is None:
                        raise Unknown("strings are not told from other values")
                    _string(ctx, o, known, rule, regexp, t, X, s, level, sep, loc)
            except Wrong as e:
                ctx.bad(rule, PM, "%s (%s)" % (e, desc(o)), loc)
            except Unknown as e:
                ctx.unk(rule, PM, str(e), loc)


def _string(ctx, o, known, rule, regexp, t, X, s, level, sep, loc):
    ands = t.args if t.op == "and" else () if t is TRUE else (t,)
    pats, rest = [], []
    for a in ands:
        b = a.args[0] if a.op == "truth" else mk("not", a.args[0]) if a.op == "isnone" else a
        if a.op == "not" and a.args[0].op == "isnone":
            b = a.args[0].args[0]
        m = method(b) if b.op in ("mcall", "call") else None
        if b.op == "call" and call_name(b) in ("re.match", "re.fullmatch", "re.search") and len(b.args[1]) == 2 and not b.args[2]:
            m = (mk("call", ext("re.compile"), (b.args[1][0],), ()), call_name(b)[3:], (b.args[1][1],), ())
        if m and m[0].op == "call" and call_name(m[0]) == "re.compile":
            pats.append((m[0], m[1], m[2]))
        else:
            rest.append(a)
    if len(pats) != 1:
        if not pats and not rest:
            raise Wrong("the pattern is not compared with names")
        raise Unknown("condition %s" % show(t)[:200])
    c, how, args = pats[0]
    if args != (X,):
        raise Unknown("matched with %s" % show(args)[:100])
    if len(c.args[1]) != 1 or c.args[2]:
        raise Wrong("names are matched with flags: %s" % show(c)[:200])
    pre, suf, img = pattern_table(c.args[1][0], s)
    if regexp:
        if pre or suf or any(w != ch for ch, w in img.items()):
            raise Wrong("a regular expression is changed: %s" % show(c)[:200])
        if how != "match":
            raise Wrong("regular expressions are used with %s" % how)
    else:
        bad = [ch for ch, w in img.items() if ch != "*" and not literal(ch, w)]
        if bad:
            raise Wrong("characters %s do not stand for themselves in patterns: %s" % (" ".join(bad), show(c)[:200]))
        if img["*"] not in (".*", "(.*)", "(?:.*)", ".*?"):
            raise Wrong("* stands for %s" % img["*"])
        if how not in ("match", "fullmatch", "search"):
            raise Unknown("method %s" % how)
        end = suf in ("$", r"\Z") or how == "fullmatch" and not suf
        beg = pre in ("", "^", r"\A") and how in ("match", "fullmatch") or pre in ("^", r"\A")
        if not end or not beg:
            if pre in ("", "^", r"\A", ".*") and suf in ("", ".*", "$", r"\Z"):
                raise Wrong("only the %s of names is compared with the pattern" % ("beginning" if beg else "end"))
            raise Unknown("pattern %s" % show(c)[:200])
    ctx.holds(rule, PM)
    # levels
    nolevel = known(mk("isnone", level))
    if nolevel is None and implied(o, btruth(level)) is False:
        raise Wrong("level 0 is ignored")
    if nolevel is True:
        if rest:
            raise Wrong("without level there is a further condition: %s" % show(rest[0])[:200])
        ctx.holds("D05.level", PM)
        return
    if nolevel is None:
        raise Unknown("level")
    if len(rest) != 1:
        if not rest:
            raise Wrong("the level is ignored")
        raise Unknown("conditions %s" % show(tuple(rest))[:200])
    _level(ctx, known, rest[0], X, s, level, sep)
    ctx.holds("D05.level", PM)


def last_is(known, level, c):
    """Does the level string end with this character?"""
    forms = [btruth(mk("mcall", level, "endswith", (const(c),), ())),
             mk("eq", mk("item", level, const(-1)), const(c)), mk("eq", const(c), mk("item", level, const(-1))),
             mk("eq", mk("slice", level, const(-1), NONE, NONE), const(c))]
    for a in forms:
        r = known(a)
        if r is not None:
            return r
    return None


def depth_term(t, X, s, sep):
    """Is it the number of separators in what remains of the name without the pattern?"""
    off = 0
    if t.op == "-" and is_num(t.args[1]):
        off, t = -cval(t.args[1]), t.args[0]
    elif t.op == "+" and is_num(t.args[1]):
        off, t = cval(t.args[1]), t.args[0]
    if t.op == "len":
        m = method(t.args[0])
        if m and m[1] == "findall" and m[0].op == "call" and call_name(m[0]) == "re.compile" and len(m[2]) == 1:
            p = m[0].args[1][0]
            if p is sep:
                raise Wrong("the separator is used as regular expression")
            if not (p.op == "call" and call_name(p) == "re.escape" and p.args[1] == (sep,)):
                raise Unknown("separator %s" % show(p)[:100])
            rest = m[2][0]
        elif t.args[0].op == "call" and call_name(t.args[0]) == "re.findall" and len(t.args[0].args[1]) == 2:
            p, rest = t.args[0].args[1]
            if not (p.op == "call" and call_name(p) == "re.escape" and p.args[1] == (sep,)):
                raise Unknown("separator %s" % show(p)[:100])
        elif m and m[1] == "split" and m[2] == (sep,):
            rest, off = m[0], off + 1
        else:
            raise Unknown("depth %s" % show(t)[:200])
    elif t.op == "mcall" and t.args[1] == "count" and t.args[2] == (sep,):
        rest = t.args[0]
    else:
        raise Unknown("depth %s" % show(t)[:200])
    m = method(rest)
    if rest is X:
        raise Wrong("the depth is counted in the whole name")
    if not m or m[0] is not X or m[1] != "replace" or len(m[2]) < 2 or m[2][1] is not const(""):
        raise Unknown("depth counted in %s" % show(rest)[:200])
    try:
        for w in ("*a", "a*", "a*b"):
            if image(m[2][0], s, w) != w.replace("*", ""):
                raise Wrong("the depth is counted in what remains without %s instead of the pattern without its asterisks" % show(m[2][0])[:100])
        pre, suf, img = pattern_table(m[2][0], s)
    except Unknown:
        raise Unknown("pattern in %s" % show(rest)[:200])
    if pre or suf or any(w != ("" if ch == "*" else ch) for ch, w in img.items()):
        raise Wrong("the depth is counted in what remains without %s" % show(m[2][0])[:100])
    if len(m[2]) > 2 or m[3]:
        raise Unknown("depth counted in %s" % show(rest)[:200])
    return off


def _level(ctx, known, c, X, s, level, sep):
    isstr = known(mk("isinst", level, "builtins.str"))
    if isstr is None:
        raise Unknown("kind of level")
    neg = c.op == "not"
    z = c.args[0] if neg else c
    if isstr is False:
        if z.op == "eq" and not neg:
            for a, b in (z.args, z.args[::-1]):
                if a is level:
                    if depth_term(b, X, s, sep) != 0:
                        raise Wrong("levels are counted from another number")
                    return
        if z.op == "lt":
            raise Wrong("a level given as number is not compared for equality: %s" % show(c)[:150])
        raise Unknown("level %s" % show(c)[:200])
    minus, plus = last_is(known, level, "-"), last_is(known, level, "+")
    num = mk("call", ext("builtins.int"), (mk("slice", level, NONE, const(-1), NONE),), ())
    if z.op == "eq" and not neg:
        raise Wrong("a level with suffix is compared for equality")
    if z.op != "lt":
        raise Unknown("level %s" % show(c)[:200])
    a, b = z.args
    at = {x for x in walk(z) if x.op == "call" and call_name(x) == "builtins.int"}
    if contains(a, level) and not contains(b, level):
        n, d, upper = a, b, neg  # not (n < d): d <= n
        strict = not neg
        kind = "-" if neg else "+"
    elif contains(b, level) and not contains(a, level):
        n, d = b, a
        strict = not neg
        kind = "+" if neg else "-"
    else:
        raise Unknown("level %s" % show(c)[:200])
    if n is not num and n is not mk("call", ext("builtins.int"), (mk("mcall", level, "rstrip", (const("+-"),), ()),), ()):
        raise Unknown("level %s" % show(n)[:100])
    off = depth_term(d, X, s, sep)
    # kind "-": d + off <= n (or < n); "+": d + off >= n (or > n); d + off counts separators
    if strict:
        off = off + 1 if kind == "-" else off - 1
    if off != 0:
        raise Wrong("levels are compared strictly or with an offset: %s" % show(c)[:200])
    if kind == "-" and minus is not True or kind == "+" and plus is not True:
        if minus is True or plus is True:
            raise Wrong("levels with suffix %s give levels %s" % ("-" if minus else "+", "above" if kind == "+" else "below"))
        raise Unknown("suffix of the level")


def _level_error(ctx, o, level, loc):
    isstr = implied(o, mk("isinst", level, "builtins.str"))
    none = implied(o, mk("isnone", level))

    def known(a):
        return implied(o, a)

    if any(e.kind == "implicit_raise" for e in o.flat()) and (isstr is not True or none is not False):
        return
    if isstr is True and none is False:
        minus, plus = last_is(known, level, "-"), last_is(known, level, "+")
        if minus is False and plus is False:
            r = raises(o, "builtins.ValueError")
            if r:
                ctx.bad("D05.level", PM, "a level string without suffix: %s (%s)" % (r, desc(o)), loc)
            else:
                ctx.holds("D05.level", PM)
            return
        if minus is True or plus is True:
            if o.exc() == "builtins.ValueError" and not any(e.kind == "implicit_raise" for e in o.flat()):
                ctx.bad("D05.level", PM, "a level with suffix is rejected (%s)" % desc(o), loc)


def _missing(ctx):
    """Missing metadata are compared like empty strings, if asked for"""
    for has_nan in (True, False):
        f, outs = _pm(ctx, False, has_nan)
        col = param(ctx, f, 0)
        loc = ctx.loc(f)
        for o in outs:
            if o.kind != "return":
                continue
            found, odd = False, False
            for e in o.flat():
                if e.kind == "setitem":
                    base, key, val = e.a[0], e.a[1], e.a[2]
                    b = base.args[0] if base.op == "attr" and base.args[1] in ("loc", "iloc") else base
                    if base_col(b, col):
                        if val is const("") and null_mask(key, col):
                            found = True
                        else:
                            odd = True
            r = o.value
            for x in walk(r):
                m = method(x) if x.op in ("mcall", "call") else None
                if m and m[1] == "fillna" and base_col(m[0], col):
                    if m[2] == (const(""),):
                        found = True
                    else:
                        odd = True
                if m and m[1] in ("where", "mask", "replace") and base_col(m[0], col):
                    odd = True
            strings = implied(o, mk("isinst", param(ctx, f, 1), "builtins.str"))
            if odd:
                ctx.unk("D05.missing", PM, "handling of missing metadata", loc)
            elif has_nan and not found and strings is not False:
                ctx.bad("D05.missing", PM, "missing metadata are not compared like empty strings (%s)" % desc(o), loc)
            elif not has_nan and found:
                ctx.bad("D05.missing", PM, "missing metadata are compared like empty strings without being asked for (%s)" % desc(o), loc)
            else:
                ctx.holds("D05.missing", PM)


def null_mask(t, col):
    if t.op == "mcall" and t.args[1] in ("isnull", "isna") and base_col(t.args[0], col):
        return True
    if t.op == "call" and call_name(t) in ("pandas.isnull", "pandas.isna") and len(t.args[1]) == 1 and base_col(t.args[1][0], col):
        return True
    if t.op == "comp" and base_col(t.args[0], col):
        x = mk("elem", t.args[0])
        null = {mk("call", ext("pandas." + n), (x,), ()) for n in ("isnull", "isna")}
        got = False
        for conds, vals in t.args[1]:
            v = vals[0]
            isstr = dict(conds).get(mk("isinst", x, "builtins.str"))
            if v in null or v.op == "truth" and v.args[0] in null:
                got = True
            elif v is FALSE and isstr is True:
                pass
            else:
                return False
        return got
    return False


RULES = {
    "D04": {"rules": [d04], "explain": "The public filter operation is analysed for every kind of key and for combinations of keys: the conjunction of masks applied to the data is normalised and compared with what each key asks for."},
    "D05": {"rules": [d05], "explain": "The row-wise condition which the matcher computes is extracted; how the pattern is built is decided as a character-wise translation for all special characters, the level test as a normal form."},
    "D06": {"rules": [d06], "explain": "For each time key, all kinds of values: which component of the time points is compared with which values; ranges, formats and rejections."},
}
