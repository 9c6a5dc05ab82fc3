"""Rules about appending data frames (D10)"""
from ..check import Unknown, implied
from ..terms import cval, is_str, show
from ..terms import sub as _sub
from .align import names_of_columns
from .frames import BASE, S, TP, run
from .ops import norm
from .util import *

Q = BASE + "df_append"
NAN = (ext("numpy.nan"), ext("numpy.NaN"), ext("numpy.NAN"), ext("math.nan"), ext("pandas.NA"), NONE, mk("call", ext("builtins.float"), (const("nan"),), ()))
FR = mk("sym", "frames", ("any",))
OTHER_STATISTICS = ("sum", "first", "last", "median", "min", "max", "prod", "std", "head", "tail", "nth", "count", "size")


def d10(ctx):
    ctx.p.need_function(Q)
    ctx.guard("D10.options", Q, _d10, ctx)
    ctx.guard("D10.append", S + ".append", _append, ctx)


# ------------------------------------------------------------------------ the frames
class Frames:
    """Terms in which `FR` stands for the data frames which are appended: those given and the new ones made of everything else"""

    def __init__(self, ctx, o, dfs):
        self.dfs = dfs
        self.memo = {}
        self.each = mk("elem", dfs)
        self.made = {e.a[0].args[1][0] for e in o.flat() if e.kind == "rcall" and e.a[0].args[0] == S + ".__init__" and len(e.a[0].args[1]) == 2
                     and e.a[0].args[1][1] is self.each and not e.a[0].args[2]}
        self.raw = False  # is something done with what is given as it is?

    def __call__(self, t):
        return self.fold(norm(t))

    def fold(self, t):
        if isinstance(t, tuple):
            return tuple(self.fold(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        r = None
        if t.op == "comp" and t.args[0] is self.dfs:
            r = self.comp(t)
        if r is None:
            args = self.fold(t.args)
            r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
        if r.op == "item" and r.args[1].op == "idx" and r.args[1].args[0] is r.args[0]:
            r = mk("elem", r.args[0])
        if r.op == "elem" and r.args[0].op == "comp" and len(r.args[0].args[1]) == 1 and r.args[0].args[1][0][0] == ():
            v = r.args[0].args[1][0][1]
            r = v[0] if isinstance(v, tuple) and len(v) == 1 else v if not isinstance(v, tuple) else r
        if r.op == "comp" and r.args[0] is FR and r.args[1] == (((), (mk("elem", FR),)),):
            r = FR
        self.memo[t] = r
        return r

    def comp(self, t):
        cases = {}
        for conds, vals in t.args[1]:
            k = [(a, x) for a, x in conds if a.op == "isinst" and a.args[0] is self.each]
            if len(k) != 1:
                return None
            a, x = k[0]
            rest = tuple(self.fold(c) for c in conds if c[0] is not a)
            m = {self.each: mk("elem", FR)} if x else {n: mk("elem", FR) for n in self.made}
            vals = tuple(self.fold(v) for v in vals)
            if not x and any(contains(v, self.each) for v in vals):
                return None
            cases.setdefault(x, set()).add((tuple((_sub(c, m), y) for c, y in rest), tuple(self.fold(_sub(v, m)) for v in vals)))
        if set(cases) != {True, False} or cases[True] != cases[False]:
            return None
        return mk("comp", FR, tuple(sorted(cases[True], key=repr)))


def names_all(fr, t):
    """Are these the metadata columns of all the frames?  True / text / None"""
    t = fr(t)
    while t.op == "call" and call_name(t) in ("builtins.set", "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.frozenset", "pandas.unique") and len(t.args[1]) == 1:
        t = t.args[1][0]
    e = mk("elem", FR)
    cols = mk("attr", mk("attr", e, "meta"), "columns")
    if t.op == "concat" and len(t.args) == 1 and t.args[0].op == "spread":
        t = t.args[0].args[0]
    if t.op == "sum" and t.args[0].op == "comp" and t.args[0].args[0] is FR and t.args[1] in (const(0), mk("list")):
        cases = t.args[0].args[1]
    elif t.op == "comp" and t.args[0].op == "comp" and t.args[0].args[0] is FR:
        cases = t.args[0].args[1]
    elif t.op == "comp" and t.args[0] is FR:
        cases = t.args[1]
    elif method(t) and method(t)[1] == "union" and len(method(t)[2]) == 1 and method(t)[2][0].op in ("spread", "starred"):
        c = method(t)[2][0].args[0]
        if c.op != "comp" or c.args[0] is not FR:
            return None
        cases = c.args[1]
    else:
        if not contains(t, FR):
            return None
        if understood(t, [cols, FR], ("builtins.set", ".tolist")) and any(x.op == "item" and x.args[0] is FR for x in walk(t)):
            return "only the metadata columns of some data frames are kept"
        return None
    if len(cases) != 1 or len(cases[0][1]) != 1:
        return None
    conds, (v,) = cases[0]
    v = strip_copy(v)
    if v.op == "spread":
        v = strip_copy(v.args[0])
    if norm_columns(v) is not cols:
        return None
    if conds:
        return "metadata columns of some data frames are left out"
    return True


def norm_columns(t):
    """Columns of metadata however they are reached"""
    if method(t) and method(t)[1] in ("tolist", "to_list", "keys"):
        b = method(t)[0]
        return norm_columns(mk("attr", b, "columns") if method(t)[1] == "keys" else b)
    if t.op == "attr" and t.args[1] == "columns" and t.args[0].op == "attr" and t.args[0].args[1] in ("meta", "_meta"):
        return mk("attr", mk("attr", t.args[0].args[0], "meta"), "columns")
    if t.op == "attr" and t.args[1] in ("meta", "_meta"):
        return mk("attr", mk("attr", t.args[0], "meta"), "columns")
    return t


# ------------------------------------------------------------------------ options
def _d10(ctx):
    f = ctx.p.functions[Q]
    loc = ctx.loc(f)
    dfs, inplace, msg = named_param(ctx, f, "dfs"), named_param(ctx, f, "inplace"), named_param(ctx, f, "duplicate_msg")
    first = mk("isinst", mk("item", dfs, const(0)), S)
    outs = run(ctx, Q)
    for o in outs:
        ctx.guard("D10.options", Q, _outcome, ctx, o, dfs, inplace, msg, loc)


def _outcome(ctx, o, dfs, inplace, msg, loc):
    fr = Frames(ctx, o, dfs)
    first = None
    dup = None  # are there values for the same metadata and time?
    rows = None  # is the same metadata there more than once?
    for a, x in o.order:
        n = fr(a)
        if a.op == "isinst" and norm(a.args[0]) is mk("item", dfs, const(0)):
            first = x
            continue
        k = duplicates(fr, n)
        if k == "values":
            dup = x
        elif k == "rows":
            rows = x
        elif k == "some":
            ctx.bad("D10.options", Q, "duplicates are only noticed if there are some for all times or series", loc)
            return
        elif contains(n, msg) or contains(n, inplace):
            if n.op == "isnone" and o.kind != "raise" and not contains(n, msg):
                continue
        elif n.op == "isnone" and understood_frame(n.args[0]):
            if x:
                return  # a frame of pandas is never None
        else:
            raise Unknown("condition %s" % show(a)[:200])
    want_msg = tv(o, msg)
    inpl = tv(o, inplace)
    if want_msg is None:
        want_msg = None
    warned = [e for e in o.flat() if e.kind == "call" and call_name(e.a[0]) == "warnings.warn"]
    text = {m: fits_text(o, msg, m) for m in ("warn", "return", "other")}
    exist = False if rows is False or dup is False else dup
    if o.kind == "raise":
        exc = o.exc().rsplit(".", 1)[-1]
        if exc == "TypeError" and inpl and first is False:
            return ctx.holds("D10.inplace", Q)
        if exc == "ValueError" and want_msg and exist and not text["warn"] and not text["return"]:
            return ctx.holds("D10.options", Q)
        return fails(ctx, "D10.options", Q, o, "appending fails with %s" % exc, loc)
    if inpl and first is False:
        ctx.bad("D10.inplace", Q, "appending in place to something which is no data frame of this kind is accepted (%s)" % desc(o), loc)
        return
    if want_msg is None and exist is not False and any(text.values()) and not all(text.values()):
        want_msg = True
    if want_msg is not False and exist is None and (warned or any(text.values()) and not all(text.values())):
        raise Unknown("options %s" % desc(o))
    if want_msg and exist and not (text["warn"] or text["return"]):
        ctx.bad("D10.options", Q, "duplicates are not handled as requested, an unknown request is accepted", loc)
        return
    if want_msg and exist is None and rows is None:
        ctx.bad("D10.options", Q, "the request how to handle duplicates is not respected (%s)" % desc(o), loc)
        return
    v = o.value
    if want_msg and exist and text["return"] and not text["warn"]:
        if v is None or not hasattr(v, "op") or v.op == "const" or frame(v):
            ctx.bad("D10.options", Q, "duplicates are not returned as requested", loc)
            return
        ctx.guard("D10.returned", Q, _joined, ctx, o, fr, v, dfs, loc)
        return
    if bool(warned) != bool(want_msg and exist and text["warn"]):
        ctx.bad("D10.options", Q, "a warning about duplicates is %s (%s)" % ("given" if warned else "not given", desc(o)), loc)
        return
    if want_msg and exist and text["warn"] and text["return"]:
        raise Unknown("options %s" % desc(o))
    # the object
    if inpl:
        ret = mk("item", dfs, const(0))
        if v is not NONE:
            ctx.bad("D10.inplace", Q, "appending in place returns %s" % show(v)[:80], loc)
            return
    elif inpl is False:
        ret = v
        if not (hasattr(v, "op") and fr(v) is mk("item", FR, const(0))):
            if v.op in ("new", "rnew"):
                raise Unknown("result %s" % show(v)[:100])
            ctx.bad("D10.inplace", Q, "the result is %s instead of a data frame like the first one" % show(fr(v))[:100], loc)
            return
    else:
        raise Unknown("in place or not (%s)" % desc(o))
    ctx.holds("D10.options", Q)
    ctx.holds("D10.inplace", Q)
    fin = {k: o.heap.get((ret, k)) for k in ("_data", "_meta", "_time_points")}
    if any(x is None for x in fin.values()):
        ctx.bad("D10.result", Q, "%s of the result is not set (%s)" % (", ".join(k for k, x in fin.items() if x is None), desc(o)), loc)
        return
    ctx.guard("D10.values", Q, _final, ctx, o, fr, fin, dfs, loc)


def frame(v):
    return v.op in ("deepcopy", "rnew", "new") or v.op == "call" and call_name(v) == "copy.copy"


def understood_frame(t):
    return t.op in ("mcall", "call", "item") and bool(method(t) or call_name(t))


def fits_text(o, sym, text):
    from .ops import fits

    return fits(o, sym, text)


def duplicates(fr, n):
    """What kind of duplicates is asked for?"""
    if n.op == "truth":
        n = n.args[0]
    c = 0
    full, was = False, n
    while method(n) and method(n)[1] in ("any", "max", "all") or n.op == "call" and call_name(n) == "numpy.any" and len(n.args[1]) == 1:
        if method(n):
            full = full or method(n)[1] == "all"
            n = method(n)[0]
        else:
            n = n.args[1][0]
            c += 1
        c += 1
    if full:
        return "some" if n.op == "lt" and n.args[0] is const(1) and method(n.args[1]) and method(n.args[1])[1] in ("sum", "count") else None
    if n.op == "attr" and n.args[1] == "values":
        n = n.args[0]
    if not c:
        return None
    m = method(n)
    if m and m[1] == "duplicated" and m[0].op == "attr" and m[0].args[1] == "index" and (not m[2] or is_const(m[2][0])):
        return "rows"
    if m and m[1] == "duplicated" and c:
        return None
    if n.op == "lt" and n.args[0] is const(1):
        m = method(n.args[1])
        if not m:
            return None
        if m[1] == "sum" and c == 2:
            g = method(m[0])
            if not g or g[1] != "groupby":
                return None
            x = g[0]
            while method(x) and method(x)[1] == "astype":
                x = method(x)[0]
            if x.op in ("inv", "not") and method(x.args[0]) and method(x.args[0])[1] in ("isnull", "isna"):
                return "values"
            if method(x) and method(x)[1] in ("notnull", "notna"):
                return "values"
        if m[1] == "count" and c == 2:
            g = method(m[0])
            if g and g[1] == "groupby":
                return "values"
    return None


# ------------------------------------------------------------------------ values
def unwrap_data(t):
    """(mean of groups, sorted?) of the final data"""
    sort = flip = False
    cast = False
    while True:
        if t.op == "attr" and t.args[1] == "T":
            flip = not flip
            t = t.args[0]
            continue
        m = method(t)
        if not m:
            break
        x, n, pos, kw = m
        kw = dict(kw)
        if n == "transpose" and not pos:
            flip = not flip
        elif n == "astype":
            pass
        elif n == "sort_index":
            ax = kw.get("axis") or (pos[0] if pos else const(0))
            rowwise = ax in (const(0), const("index"), const("rows"))
            if kw.get("ascending", TRUE) is not TRUE:
                return None, "times are sorted backwards", None
            if set(kw) - {"axis", "ascending"}:
                return None, None, None
            if rowwise != flip:
                sort = True
            else:
                return None, None, None
        elif n == "reset_index":
            if kw.get("drop") is not TRUE and not (len(pos) > 1 and pos[1] is TRUE):
                return None, None, None
        elif n in ("reindex", "loc", "dropna", "fillna", "drop_duplicates", "head", "tail"):
            return None, "the appended data is changed by %s" % n, None
        else:
            break
        t = x
    return t, sort, not flip


def _final(ctx, o, fr, fin, dfs, loc):
    data, meta = fr(fin["_data"]), fr(fin["_meta"])
    g, sort, ok = unwrap_data(data)
    if g is None:
        if sort:
            ctx.bad("D10.values", Q, sort, loc)
            return
        raise Unknown("data %s" % show(data)[-200:])
    m = method(g)
    by = method(m[0]) if m else None
    if not m or not by or by[1] != "groupby":
        if m and m[1] in ("drop_duplicates",):
            ctx.bad("D10.mean", Q, "duplicates are dropped instead of averaged", loc)
            return
        if g.op == "item" and g.args[1].op in ("inv", "not") and method(g.args[1].args[0]) and method(g.args[1].args[0])[1] == "duplicated":
            ctx.bad("D10.mean", Q, "duplicates are dropped instead of averaged", loc)
            return
        if m and m[1] in ("set_index",):
            ctx.bad("D10.mean", Q, "values for the same metadata are not combined", loc)
            return
        raise Unknown("data %s" % show(g)[-200:])
    if ok:
        ctx.bad("D10.values", Q, "rows and columns of the data are exchanged", loc)
        return
    if m[1] != "mean":
        if m[1] in OTHER_STATISTICS:
            ctx.bad("D10.mean", Q, "duplicates are combined by their %s" % m[1], loc)
            return
        raise Unknown("combination by %s" % m[1])
    if m[2] or set(dict(m[3])) - {"axis", "numeric_only"}:
        raise Unknown("mean %s" % show(m[3])[:100])
    x = by[0]
    kw = dict(by[3])
    names = by[2][0] if by[2] else kw.get("level") or kw.get("by")
    if len(by[2]) > 1 or set(kw) - {"level", "by", "sort", "observed", "dropna", "as_index"} or names is None or kw.get("as_index", TRUE) is not TRUE:
        raise Unknown("groups %s" % show(kw)[:100])
    drop = kw.get("dropna") is not FALSE
    if sort:
        ctx.holds("D10.times", Q)
    else:
        ctx.bad("D10.times", Q, "times are not sorted after appending", loc)
    # all metadata columns
    s = strip_copy(names)
    while s.op == "call" and call_name(s) in ("builtins.list", "builtins.sorted") and len(s.args[1]) == 1:
        s = strip_copy(s.args[1][0])
    if not (s.op == "attr" and s.args[1] == "names" and s.args[0] is mk("attr", x, "index")):
        r = names_all(fr, s)
        if r is None:
            if names_of_columns(s) and s.op == "list" or s.op == "-" or method(s) and method(s)[1] == "difference":
                ctx.bad("D10.mean", Q, "values are combined for the same %s, other metadata may differ" % show(s)[:100], loc)
                return
            raise Unknown("groups by %s" % show(s)[-150:])
        if r is not True:
            ctx.bad("D10.mean", Q, r, loc)
            return
    ctx.holds("D10.mean", Q)
    # metadata: that of the groups
    while meta.op == "item" and names_of_columns(meta.args[1]):
        meta = meta.args[0]
    mm = method(meta)
    back = None
    chain = []
    while mm and mm[1] in ("reset_index", "replace", "where", "mask", "astype", "infer_objects", "to_frame"):
        chain.append(mm)
        meta = mm[0]
        mm = method(meta)
    if meta.op == "attr" and meta.args[1] == "index":
        meta = meta.args[0]
    if meta is not g or not any(c[1] in ("to_frame", "reset_index") for c in chain):
        raise Unknown("metadata %s" % show(meta)[-200:])
    back = [c for c in chain if c[1] == "replace"]
    if any(c[1] in ("where", "mask") for c in chain) or len(back) > 1:
        raise Unknown("metadata %s" % show(fin["_meta"])[-200:])
    fill_back = None
    if back:
        a, b = replaced(back[0])
        if a is None:
            raise Unknown("metadata %s" % show(fin["_meta"])[-200:])
        if b not in NAN:
            ctx.bad("D10.missing", Q, "missing metadata is given as %s" % show(b), loc)
            return
        fill_back = a
    ctx.guard("D10.joined", Q, _joined, ctx, o, fr, x, dfs, loc, (fill_back, drop))


def replaced(m):
    """(what, by what) of a replacement"""
    kw = dict(m[3])
    pos = list(m[2])
    if len(pos) == 1 and pos[0].op == "dict" and not kw:
        its = pos[0].args
        if len(its) == 1 and isinstance(its[0], tuple) and len(its[0]) == 2:
            return its[0]
        return None, None
    a = pos[0] if pos else kw.get("to_replace")
    b = pos[1] if len(pos) > 1 else kw.get("value")
    if set(kw) - {"to_replace", "value"} or a is None or b is None:
        return None, None
    return a, b


def _joined(ctx, o, fr, x, dfs, loc, fills=None):
    """The joint data with one row for each series of each frame"""
    x = fr(x)
    m = method(x)
    fill = None
    keyed = False
    frame_terms = {x}
    while m and m[1] in ("set_index", "reset_index", "sort_index", "fillna", "replace"):
        x, n, pos, kw = m
        kw = dict(kw)
        if n == "set_index":
            if len(pos) != 1 or set(kw) - {"inplace", "drop"}:
                raise Unknown("index %s" % show(kw)[:80])
            r = names_all(fr, pos[0])
            if r is None:
                raise Unknown("index %s" % show(pos[0])[-150:])
            if r is not True:
                ctx.bad("D10.columns", Q, r, loc)
                return
            keyed = True
        elif n == "reset_index":
            if pos or kw:
                raise Unknown("index %s" % show(kw)[:80])
        elif n in ("fillna", "replace"):
            raise Unknown("replacing in %s" % show(x)[-150:])
        frame_terms.add(x)
        m = method(x)
    if m and m[1] in ("head", "tail", "drop_duplicates", "dropna", "first", "last"):
        ctx.bad("D10.series", Q, "only a part of the series is kept (%s)" % m[1], loc)
        return
    if not (x.op == "call" and call_name(x) == "pandas.concat"):
        raise Unknown("joint data %s" % show(x)[-200:])
    # missing metadata gets a value by which pandas can group
    for e in o.flat():
        if e.kind == "setitem" and fr(e.a[0]) in frame_terms:
            k, v = fr(e.a[1]), fr(e.a[2])
            r = names_all(fr, k)
            src = method(v)
            if r is None or not src or src[1] not in ("replace", "fillna") or src[0].op != "item" or src[0].args[0] not in frame_terms:
                raise Unknown("stored to the joint data: %s" % show(v)[-150:])
            r2 = names_all(fr, src[0].args[1])
            if r2 is None:
                raise Unknown("columns %s" % show(src[0].args[1])[-100:])
            if src[1] == "replace":
                a, b = replaced(src)
                if a is None or a not in NAN:
                    raise Unknown("stored to the joint data: %s" % show(v)[-150:])
            else:
                b = src[2][0] if src[2] else dict(src[3]).get("value")
                if b is None or set(dict(src[3])) - {"value"}:
                    raise Unknown("stored to the joint data: %s" % show(v)[-150:])
            if r is True and r2 is True:
                fill = b
            else:
                ctx.bad("D10.missing", Q, r if r is not True else r2, loc)
                return
        elif e.kind in ("mutcall", "delitem", "setattr") and fr(e.a[0]) in frame_terms and not (e.kind == "setattr" and e.a[1] in ("name", "names")):
            raise Unknown("change of the joint data: %s" % show(e.a[0])[-150:])
    kw = dict(x.args[2])
    if len(x.args[1]) != 1:
        raise Unknown("joint data %s" % show(x)[-200:])
    if kw.get("join", const("outer")) is not const("outer"):
        ctx.bad("D10.times", Q, "only times which all data frames have are kept", loc)
        return
    if kw.get("axis", const(0)) not in (const(0), const("index"), const("rows")) or kw.get("ignore_index", FALSE) is not FALSE or set(kw) - {"join", "axis", "sort", "copy", "ignore_index"}:
        raise Unknown("joint data %s" % show(kw)[:150])
    ctx.holds("D10.times", Q)
    ls = x.args[1][0]
    if ls.op != "comp" or ls.args[0] is not FR:
        if ls.op == "comp" and part_of(ls.args[0]):
            ctx.bad("D10.series", Q, "not all data frames are appended: %s" % show(ls)[:150], loc)
            return
        raise Unknown("joint data of %s" % show(ls)[:200])
    if len(ls.args[1]) != 1 or len(ls.args[1][0][1]) != 1:
        raise Unknown("joint data of %s" % show(ls)[:200])
    conds, (v,) = ls.args[1][0]
    if conds:
        ctx.bad("D10.series", Q, "some data frames are left out (%s)" % show(conds[0][0])[:100], loc)
        return
    order = None
    m = method(v)
    e = mk("elem", FR)
    while m and m[1] in ("reorder_levels", "sort_index", "reset_index"):
        if m[1] == "reorder_levels":
            r = names_all(fr, m[2][0] if m[2] else dict(m[3]).get("order", NONE))
            if r is None:
                raise Unknown("order of the metadata %s" % show(v)[-150:])
            order = r
        elif m[1] == "reset_index":
            if m[2] or m[3]:
                raise Unknown("series %s" % show(v)[-150:])
            order = True  # joined by the names of the columns
        v = m[0]
        m = method(v)
    if m and m[1] == "timeseries" and m[0] is e:
        if m[2] and m[2][0] is not NONE or m[3]:
            ctx.bad("D10.series", Q, "only some of the metadata is kept: %s" % show(v)[-100:], loc)
            return
    elif v.op == "rcall" and v.args[0] == S + ".timeseries" and v.args[1] == (e,) and not v.args[2]:
        pass
    elif m and m[0] is not e and method(m[0]) and m[1] == "timeseries":
        ctx.bad("D10.series", Q, "only a part of the data frames is appended: %s" % show(v)[-100:], loc)
        return
    elif m and m[1] in ("head", "tail", "dropna") and contains(v, e):
        ctx.bad("D10.series", Q, "only a part of the data frames is appended: %s" % show(v)[-100:], loc)
        return
    else:
        raise Unknown("series %s" % show(v)[-150:])
    if order is None:
        ctx.bad("D10.columns", Q, "metadata columns of different data frames are joined by position", loc)
        return
    if order is not True:
        ctx.bad("D10.columns", Q, order, loc)
        return
    ctx.holds("D10.series", Q)
    ctx.guard("D10.columns", Q, _completed, ctx, o, fr, fill, dfs, loc)
    if fills is None:
        ctx.holds("D10.returned", Q)
        return
    back, drop = fills
    if not drop:
        raise Unknown("grouping with missing metadata")
    if fill is None:
        ctx.bad("D10.missing", Q, "pandas leaves out series with missing metadata in one of the columns by which they are grouped", loc)
    elif back is None:
        ctx.bad("D10.missing", Q, "missing metadata is given as %s" % show(fill)[:60], loc)
    elif back is not fill:
        ctx.bad("D10.missing", Q, "missing metadata is filled with %s, but %s is taken away" % (show(fill)[:60], show(back)[:60]), loc)
    else:
        ctx.holds("D10.missing", Q)
        ctx.guard("D10.fill", Q, _fill, ctx, fr, fill, loc)


def _completed(ctx, o, fr, fill, dfs, loc):
    """Every frame gets the metadata columns it does not have"""
    found = False
    for e in o.events:
        if e.kind != "loop":
            continue
        src = strip_loop(fr(e.a[0]))
        if src.op == "call" and call_name(src) == "builtins.enumerate" and src.args[1] or src.op == "call" and show(src).startswith("enumerate(") and src.args[1]:
            src = src.args[1][0]
        if src.op in ("slice", "slice3") and src.args[0] is FR or src.op == "item" and src.args[0] is FR and src.args[1].op in ("slice", "slice3"):
            if any(e2.kind == "loop" and (names_all(fr, e2.a[0]) is not None or missing_names(fr, e2.a[0]) is not None) for _, evs in e.a[1] for e2 in evs):
                ctx.bad("D10.columns", Q, "only some of the data frames get the metadata columns they do not have (%s)" % show(src)[:60], loc)
                return
        if src is not FR:
            continue
        for conds, evs in e.a[1]:
            for e2 in evs:
                if e2.kind != "loop":
                    continue
                r = names_all(fr, e2.a[0])
                sub = None
                if r is None:
                    sub = missing_names(fr, e2.a[0])
                    if sub is None:
                        continue
                for conds2, evs2 in e2.a[1]:
                    for c in evs2:
                        a = set_call(fr, c)
                        if a is None:
                            continue
                        who, val, name = a
                        if who is not mk("elem", FR) or name is not mk("elem", fr(e2.a[0])):
                            raise Unknown("metadata set %s" % show(c.a[0])[-150:])
                        found = True
                        if r not in (None, True):
                            ctx.bad("D10.columns", Q, r, loc)
                            return
                        here = [x for a, x in list(conds) + list(conds2) if is_there(fr, a, name)]
                        other = [a for a, x in list(conds) + list(conds2) if not is_there(fr, a, name)]
                        if other:
                            raise Unknown("condition %s" % show(other[0])[-150:])
                        if sub is None and True in here:
                            ctx.bad("D10.columns", Q, "metadata which is there is overwritten", loc)
                            return
                        if sub is None and not here:
                            ctx.bad("D10.columns", Q, "metadata which is there is overwritten", loc)
                            return
                        if val not in NAN and val is not fill:
                            ctx.bad("D10.missing", Q, "missing metadata is filled with %s, but %s is taken as missing" % (show(val)[:60], show(fill)[:60] if fill is not None else "nothing"), loc)
                            return
    if not found:
        raise Unknown("completion of the metadata")
    ctx.holds("D10.columns", Q)


def strip_loop(t):
    while t.op == "call" and call_name(t) in ("builtins.enumerate", "builtins.list", "builtins.iter", "builtins.tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def missing_names(fr, t):
    t = fr(t)
    while t.op == "call" and call_name(t) in ("builtins.set", "builtins.list", "builtins.sorted", "builtins.tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "-":
        a, b = t.args
    elif method(t) and method(t)[1] == "difference" and len(method(t)[2]) == 1:
        a, b = method(t)[0], method(t)[2][0]
    else:
        return None
    while b.op == "call" and call_name(b) in ("builtins.set", "builtins.list") and len(b.args[1]) == 1:
        b = b.args[1][0]
    if norm_columns(b) is not mk("attr", mk("attr", mk("elem", FR), "meta"), "columns"):
        return None
    return names_all(fr, a)


def set_call(fr, e):
    """(frame, value, name) of setting metadata"""
    t = None
    if e.kind in ("call", "mutcall", "rcall") and hasattr(e.a[0], "op"):
        t = fr(e.a[0])
        m = method(t)
        if e.kind == "mutcall":
            m = (t, e.a[1], fr(e.a[2]), fr(e.a[3]))
        if t.op == "rcall" and t.args[0] == S + ".set_meta" and t.args[1]:
            m = (t.args[1][0], "set_meta", t.args[1][1:], t.args[2])
        if m and m[1] == "set_meta":
            kw = dict(m[3])
            val = m[2][0] if m[2] else kw.get("meta")
            name = m[2][1] if len(m[2]) > 1 else kw.get("name")
            if kw.get("index", NONE) is not NONE or len(m[2]) > 2:
                raise Unknown("metadata set %s" % show(t)[-150:])
            return m[0], val, name
    if e.kind == "setitem" and fr(e.a[0]) is mk("elem", FR):
        return fr(e.a[0]), fr(e.a[2]), fr(e.a[1])
    return None


def is_there(fr, a, name):
    a = fr(a)
    return a.op == "in" and a.args[0] is name and norm_columns(a.args[1]) is mk("attr", mk("attr", mk("elem", FR), "meta"), "columns")


def _fill(ctx, fr, fill, loc):
    """The value for missing metadata is none which any of the frames has"""
    if is_const(fill):
        ctx.bad("D10.fill", Q, "metadata with the value %s becomes missing" % show(fill), loc)
        return
    if fill.op != "fold":
        raise Unknown("value for missing metadata %s" % show(fill)[:150])
    init, lv, src, cases = fill.args
    if src.op != "while":
        raise Unknown("value for missing metadata %s" % show(fill)[:150])
    if len(cases) != 1:
        raise Unknown("value for missing metadata %s" % show(fill)[:150])
    conds, step = cases[0]
    if len(conds) != 1:
        raise Unknown("value for missing metadata %s" % show(fill)[:150])
    a, x = conds[0]
    used = is_used(fr(a), lv)
    if not used:
        raise Unknown("condition of the loop %s" % show(a)[-150:])
    if not x:
        ctx.bad("D10.fill", Q, "a value is taken for missing metadata which some metadata has", loc)
        return
    st = step[0] if isinstance(step, tuple) and len(step) == 1 else step
    if used is not True:
        ctx.bad("D10.fill", Q, used, loc)
        return
    if not (hasattr(st, "op") and st.op in ("+", "-", "*") and any(y is lv for y in st.args) and all(y is lv or is_const(y) for y in st.args)):
        raise Unknown("step %s" % show(step)[:100])
    ctx.holds("D10.fill", Q)


def part_of(t):
    """A part of the frames"""
    return t.op in ("slice", "slice3") and t.args[0] is FR and any(x is not NONE and is_const(x) for x in t.args[1:3]) or t.op == "item" and t.args[0] is FR and t.args[1].op in ("slice", "slice3")


def is_used(a, lv):
    if a.op != "exists":
        return None
    c = a.args[0]
    e = mk("elem", FR)
    if c.op != "comp":
        return None
    if c.args[0] is not FR:
        if part_of(c.args[0]):
            return "the value for missing metadata may be used in some of the data frames"
        return None
    if len(c.args[1]) != 1 or c.args[1][0][0] or len(c.args[1][0][1]) != 1:
        return None
    v = c.args[1][0][1][0]
    if v.op == "truth":
        v = v.args[0]
    n = 0
    while method(v) and method(v)[1] == "any" or v.op == "attr" and v.args[1] == "values":
        if v.op == "attr":
            v = v.args[0]
            n += 1
            continue
        v = method(v)[0]
        n += 1
    m = method(v)
    if n == 2 and m and m[1] == "isin" and m[0] in (mk("attr", e, "meta"), mk("attr", e, "_meta")) and len(m[2]) == 1 and m[2][0].op in ("list", "tuple", "set") and lv in m[2][0].args:
        return True
    if n == 2 and v.op == "eq" and lv in v.args and any(x in (mk("attr", e, "meta"), mk("attr", e, "_meta")) for x in v.args):
        return True
    return None


# ------------------------------------------------------------------------ the method
def _append(ctx):
    q = S + ".append"
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    me, other = self_of(S), named_param(ctx, f, "other")
    kwargs = f.node.args.kwarg
    for o in ctx.run(q, opaque=lambda x: x in (Q, S + ".__init__")):
        if o.kind == "raise":
            fails(ctx, "D10.append", q, o, "appending fails", loc)
            continue
        rs = [t for t in rcalls(o, Q)]
        if len(rs) != 1:
            raise Unknown("%d calls of %s" % (len(rs), Q))
        a = bound_args(ctx, Q, rs[0])
        isf = [x for t, x in o.order if t.op == "isinst" and t.args[0] is other]
        d = a.get("dfs")
        if d is None or d.op not in ("list", "tuple") or not d.args:
            raise Unknown("frames %s" % show(d)[:100])
        if d.args[0] is not me:
            ctx.bad("D10.append", q, "the data frame itself does not come first", loc)
            continue
        if len(d.args) != 2:
            ctx.bad("D10.append", q, "%d data frames are appended" % len(d.args), loc)
            continue
        second = d.args[1]
        ok = None
        if isf == [True] or not isf and second is other and kwargs is None:
            ok = second is other
        elif isf == [False]:
            if second is other:
                ok = False if kwargs is not None else True
            else:
                for e in o.flat():
                    if e.kind in ("rcall", "call") and contains(e.a[0], other):
                        t = e.a[0]
                        ks = dict(call_kw(t)).get("**")
                        if t.op == "rcall" and t.args[0] == S + ".__init__" and t.args[1][:1] == (second,) or t is second or e.kind == "call" and second is t:
                            ok = other in (t.args[1][1:2] if t.op == "rcall" else t.args[1][:1]) and ks is not None and ks.op == "sym" and kwargs is not None and ks.args[0] == kwargs.arg
                if ok is None and second.op == "rnew":
                    ks = dict(second.args[3]).get("**")
                    ok = second.args[2][:1] == (other,) and ks is not None and ks.args[0] == kwargs.arg
        if ok is None:
            raise Unknown("appended %s" % show(second)[:100])
        if not ok:
            ctx.bad("D10.append", q, "what is appended is not the given data with the given options (%s)" % show(second)[:100], loc)
            continue
        for n in ("inplace", "duplicate_msg"):
            if a.get(n) is not named_param(ctx, f, n):
                ctx.bad("D10.append", q, "the option %s is not passed on" % n, loc)
                break
        else:
            inpl = tv(o, named_param(ctx, f, "inplace"))
            v = o.value
            if v is rs[0] or inpl is True and v is NONE:
                ctx.holds("D10.append", q)
            elif v is NONE:
                ctx.bad("D10.append", q, "the result is not returned", loc)
            else:
                raise Unknown("result %s" % show(v)[:100])


def bound_args(ctx, q, t):
    f = ctx.p.functions[q]
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    r = dict(zip(names, t.args[1]))
    r.update(dict(call_kw(t)))
    return r


RULES = {
    "D10": {"rules": [d10], "explain": "On every path of appending, the result is followed back through grouping, joining and completion of the metadata to the series of all the data frames; "
            "which duplicates are asked for and what is done with them is compared with the options."},
}
