"""Rules about the three parts of a data frame staying in line (D07)

Of each final value the axes are followed back through the operations it is made by:
rows(data), columns(data) and rows(meta) are one of
  ("orig",)        the axis the data frame had before
  ("at", t)        exactly the labels t
  ("range", axis)  consecutive numbers, one for each label of an axis
  ("some", m)      those columns of a frame which have values (m: mask of values)
  ("new", t)       an axis about which nothing is known but that t has it
"""
from ..check import Unknown, implied
from ..terms import call_name, cval, is_str
from ..terms import sub as _sub
from .frames import BASE, FIELDS, S, TP, VOL, core, run
from .ops import DATA, ME, META, TIMES, norm
from .util import *

# methods which keep both axes
KEEP = frozenset("astype copy apply applymap where mask fillna replace round abs interpolate assign_ isna isnull notna notnull".split())
OPS = (S + ".filter", S + ".rename", S + ".set_meta", S + ".__setitem__", S + ".interpolate", S + ".convert_unit", BASE + "df_append", S + ".__init__")


def d07(ctx):
    for q in OPS:
        ctx.p.need_function(q)
        ctx.guard("D07.axes", q, _d07, ctx, q)
    from .frames import accessors
    accessors(ctx)
    q = S + ".timeseries"
    ctx.p.need_function(q)
    ctx.guard("D07.table", q, _table, ctx, q)
    for n in ("head", "tail"):
        q = S + "." + n
        ctx.p.need_function(q)
        ctx.guard("D07.table", q, _part, ctx, q, n)


class Axes:
    def __init__(self, o):
        self.o = o
        self.set = {}
        for e in o.flat():
            if e.kind == "setattr" and e.a[1] in ("index", "columns"):
                self.set[norm(e.a[0]), e.a[1]] = e.a[2]
        self.memo = {}

    def rows(self, t):
        return self._axis(t, 0)

    def cols(self, t):
        return self._axis(t, 1)

    def _axis(self, t, k):
        key = norm(t), k
        if key not in self.memo:
            self.memo[key] = ("new", norm(t))
            self.memo[key] = self._find(norm(t), k)
        return self.memo[key]

    def _find(self, t, k):
        v = self.set.get((t, ("index", "columns")[k]))
        if v is not None:
            return self.labels(v)
        if t.op == "attr" and t.args[1] in ("_data", "_meta") and t.args[0] is not None:
            if (t.args[1], k) in (("_data", 0), ("_data", 1)):
                return ("orig", norm(t.args[0]), "time" if k == 0 else "series")
            if k == 0:
                return ("orig", norm(t.args[0]), "series")
            return ("new", t)
        if t.op == "attr" and t.args[1] == "T":
            return self._axis(t.args[0], 1 - k)
        if t.op == "item":
            x, key = t.args
            if x.op == "attr" and x.args[1] == "loc":
                rk = key.args[k] if key.op == "tuple" and len(key.args) == 2 else key if k == 0 else None
                if rk is None or rk.op in ("slice", "slice3") and all(a in (NONE, None) for a in rk.args):
                    return self._axis(x.args[0], k)
                return self.labels(rk)
            if k == 0 and (names_of_columns(key) or is_str(key)):
                return self._axis(x, 0)
            m = value_mask(key)
            if m is not None and k == 0:
                return ("some", m)
            if k == 1 and names_of_columns(key):
                return self.labels(key)
            return ("new", t)
        m = method(t)
        if m:
            x, n, pos, kw = m
            kw = dict(kw)
            ax = kw.get("axis") or (pos[0] if pos and n in ("dropna",) else pos[1] if n == "drop" and len(pos) > 1 else None)
            if n in KEEP:
                return self._axis(x, k)
            if n in ("transpose",) and not pos:
                return self._axis(x, 1 - k)
            if n in ("assign", "join") and k == 0:
                return self._axis(x, 0) if n == "assign" else ("new", t)
            if n == "rename" and k == 0 and "columns" in kw and "index" not in kw and not pos:
                return self._axis(x, 0)
            if n == "rename_axis":
                return self._axis(x, k)
            if n == "sort_index" and (ax in (None, const(0)) and k == 1 or ax in (const(1), const("columns")) and k == 0):
                return self._axis(x, k)
            if n == "dropna":
                a = {const(0): 0, const("index"): 0, const("rows"): 0, const(1): 1, const("columns"): 1, None: 0}.get(ax)
                if a is None:
                    return ("new", t)
                if a != k:
                    return self._axis(x, k)
                if k == 1 and kw.get("how") is const("all") and set(kw) <= {"how", "axis"}:
                    return ("some", self.whole(x))
                return ("new", t)
            if n == "drop":
                if ("columns" in kw and "index" not in kw or ax in (const(1), const("columns"))) and k == 0:
                    return self._axis(x, 0)
                return ("new", t)
            if n == "reset_index" and k == 0:
                return ("range", self._axis(x, 0)) if kw.get("drop") is TRUE else ("new", t)
            if n == "reset_index" and k == 1 and kw.get("drop") is TRUE:
                return self._axis(x, 1)
            if n == "set_index" and k == 0 and pos:
                return self.labels(pos[0]) if not is_str(pos[0]) and pos[0].op not in ("list", "concat", "comp") else ("new", t)
            if n == "reindex" and (pos or "index" in kw) and k == 0:
                return self.labels(kw.get("index") or pos[0])
            if n == "to_frame" and k == 0:
                ix = kw.get("index") or (pos[0] if pos else TRUE)
                if ix in (NONE, FALSE):
                    return ("range", self.labels(x))
                return self.labels(x)
            return ("new", t)
        n = call_name(t) if t.op == "call" else None
        if n == "pandas.DataFrame":
            kw = dict(t.args[2])
            v = kw.get(("index", "columns")[k])
            if v is None and len(t.args[1]) > 1 + k:
                v = t.args[1][1 + k]
            if v is not None:
                return self.labels(v)
            return ("new", t)
        return ("new", t)

    def whole(self, t):
        """The mask of which values are there"""
        t = norm(t)
        m = method(t)
        while m and m[1] == "dropna" and dict(m[3]).get("axis") in (const(0), None) and dict(m[3]).get("how") is const("all"):
            t = m[0]
            m = method(t)
        return t

    def labels(self, v):
        """The axis with these labels"""
        v = norm(v)
        while v.op == "attr" and v.args[1] in ("values", "array"):
            v = v.args[0]
        m = method(v)
        if m and m[1] in ("copy", "to_list", "tolist"):
            return self.labels(m[0])
        if v.op == "attr" and v.args[1] == "index":
            return self._axis(v.args[0], 0)
        if v.op == "attr" and v.args[1] == "columns":
            return self._axis(v.args[0], 1)
        return ("at", v)


def names_of_columns(k):
    """A list of column names (not a mask)"""
    if k.op in ("list", "tuple"):
        return all(is_str(x) for x in k.args)
    if k.op == "+":
        return all(names_of_columns(x) for x in k.args)
    if k.op == "concat":
        return all(names_of_columns(x.args[0] if x.op in ("spread", "starred") else x) for x in k.args)
    if k.op == "call" and call_name(k) in ("builtins.sorted", "builtins.list", "builtins.set") and len(k.args[1]) == 1:
        return names_of_columns(k.args[1][0])
    if k.op == "-":
        return names_of_columns(k.args[0])
    if k.op == "attr" and k.args[1] == "columns":
        return True
    if k.op == "comp":
        return names_of_columns(k.args[0]) and all(v == (mk("elem", k.args[0]),) for _, v in k.args[1])
    m = method(k)
    if m and m[1] in ("difference", "union", "intersection", "tolist", "to_list"):
        return names_of_columns(m[0])
    return False


def value_mask(k):
    """d, when this mask tells which columns of d have any value"""
    k = norm(k)
    if k.op == "attr" and k.args[1] == "values":
        k = k.args[0]
    m = method(k)
    if m and m[1] in ("any", "max") and (dict(m[3]).get("axis") in (const(0), const("index"), None)) and (not m[2] or m[2][0] in (const(0),)):
        return _present(m[0])
    x = None
    if k.op == "lt" and k.args[0] is const(0):
        x = k.args[1]
    elif k.op == "not" and k.args[0].op == "lt" and k.args[0].args[1] is const(1):
        x = k.args[0].args[0]
    if x is not None:
        m = method(x)
        if m and m[1] in ("sum",) and (dict(m[3]).get("axis") in (const(0), const("index"), None)):
            return _present(m[0])
        if m and m[1] == "count" and (dict(m[3]).get("axis") in (const(0), const("index"), None)):
            return norm(m[0])
    if k.op in ("inv", "not"):
        m = method(k.args[0])
        if m and m[1] == "all" and (dict(m[3]).get("axis") in (const(0), const("index"), None)):
            m = method(m[0])
            if m and m[1] in ("isna", "isnull"):
                return norm(m[0])
    return None


def _present(t):
    m = method(t)
    if m and m[1] in ("notna", "notnull"):
        return norm(m[0])
    if t.op in ("inv", "not"):
        m = method(t.args[0])
        if m and m[1] in ("isna", "isnull"):
            return norm(m[0])
    return None


def frames_of(o, q):
    """Objects whose parts are stored or changed on this path (the result or the frame itself)"""
    r = []
    if q.endswith(".__init__"):
        return [ME]
    for e in o.flat():
        x = None
        if e.kind == "setattr" and e.a[1] in FIELDS:
            x = e.a[0]
        elif e.kind in ("setattr", "setitem", "mutcall", "delitem"):
            for y in walk(e.a[0]):
                if y.op == "attr" and y.args[1] in FIELDS:
                    x = y.args[0]
        if x is not None and x not in r and x.op != "lv":
            r.append(x)
    return r


def _d07(ctx, q):
    init = q.endswith(".__init__")
    outs = run(ctx, q, opaque=core) if init else run(ctx, q)
    loc = ctx.loc(q)
    for o in outs:
        if o.kind != "return":
            continue
        ax = Axes(o)
        for x in frames_of(o, q):
            fin = {f: o.heap.get((x, f), mk("attr", x, f)) for f in FIELDS}
            if init and any((x, f) not in o.heap for f in FIELDS):
                ctx.bad("D07.parts", q, "%s is not set (%s)" % (", ".join(f for f in FIELDS if (x, f) not in o.heap), desc(o)), loc)
                continue
            ctx.guard("D07.time", q, _time, ctx, q, o, ax, fin, loc)
            ctx.guard("D07.series", q, _series, ctx, q, o, ax, fin, loc)
            if init or q.endswith(("df_append", "set_meta", "__setitem__")):
                ctx.guard("D07.order", q, _order, ctx, q, o, x, fin, init or q.endswith("df_append"), loc)


def folded(t):
    return t.op in ("fold", "last", "lv", "foldop")


def _time(ctx, q, o, ax, fin, loc):
    d, tp = fin["_data"], norm(fin["_time_points"])
    if folded(d) or folded(tp):
        raise Unknown("%s / %s" % (show(d)[:80], show(tp)[:80]))
    rows = ax.rows(d)
    if tp.op == "attr" and tp.args[1] == "_time_points":
        whose = norm(tp.args[0])
        if rows == ("orig", whose, "time") or rows[0] == "at" and same_times(rows[1], tp):
            ctx.holds("D07.time", q)
        elif rows[0] == "new" and known_change(rows[1]):
            ctx.bad("D07.time", q, "the data has other times, %s, but the time points stay the same (%s)" % (show(rows[1])[:120], desc(o)), loc)
        elif rows[0] == "at":
            ctx.bad("D07.time", q, "the data gets the times %s, but the time points stay the same (%s)" % (show(rows[1])[:120], desc(o)), loc)
        else:
            raise Unknown("times %s" % show(rows[-1] if hasattr(rows[-1], "op") else d)[:150])
        return
    if rows[0] == "at" and same_times(rows[1], tp):
        ctx.holds("D07.time", q)
        return
    if rows[0] == "orig":
        # time points made from those of the data itself
        if tp.op == "rnew" and tp.args[0] == TP and tp.args[2] and ax.labels(tp.args[2][0]) == rows:
            ctx.holds("D07.time", q)
            return
        if tp.op == "rnew" and contains(tp, lambda y: y.op == "sym" and y is not ME):
            ctx.bad("D07.time", q, "the time points are %s, but the data keeps its times (%s)" % (show(tp)[:120], desc(o)), loc)
            return
    if tp.op == "rnew" and tp.args[0] == TP and rows[0] in ("new", "at"):
        x = tp.args[2][0] if tp.args[2] else None
        if x is not None and ax.labels(x) == rows:
            if contains(x, lambda y: y.op == "sym" and y is not ME):
                ctx.bad("D07.time", q, "the times of the data stay in the form in which they were given, unlike the time points (%s)" % desc(o), loc)
                return
            raise Unknown("times of %s" % show(d)[:100])
        m = method(rows[1])
        if rows[0] == "new" and m and m[1] in ("dropna", "drop", "sort_index", "head", "tail", "drop_duplicates", "reindex") and not contains(m[0], lambda y: y.op == "mcall" and y.args[1:] == rows[1].args[1:]):
            before = ax.rows(m[0])
            if before[0] == "at" and same_times(before[1], tp):
                ctx.bad("D07.time", q, "the times of the data are changed by %s after the time points were taken (%s)" % (m[1], desc(o)), loc)
                return
        if rows[0] == "at" and rows[1].op == "rcall" and rows[1].args[0] == TP + ".to_index":
            ctx.bad("D07.time", q, "the times of the data are those of %s, the time points are %s" % (show(rows[1].args[1][0])[:100], show(tp)[:100]), loc)
            return
    raise Unknown("times %s / %s" % (show(rows[-1] if hasattr(rows[-1], "op") else d)[:150], show(tp)[:100]))


def same_times(ix, tp):
    return ix.op == "rcall" and ix.args[0] == TP + ".to_index" and norm(ix.args[1][0]) is tp


def known_change(t):
    m = method(t)
    return bool(m) and m[1] in ("dropna", "drop", "sort_index", "reindex", "head", "tail", "resample", "append", "drop_duplicates", "sort_values") or \
        t.op == "item" or t.op == "call" and call_name(t) in ("pandas.concat", "pandas.DataFrame", "pandas.merge")


def _series(ctx, q, o, ax, fin, loc):
    d, m = fin["_data"], fin["_meta"]
    if folded(d) or folded(m):
        raise Unknown("%s / %s" % (show(d)[:80], show(m)[:80]))
    cols, rows = ax.cols(d), ax.rows(m)
    added(ctx, q, o, d, loc)
    if q.endswith((".__init__", "df_append")):
        while cols[0] == "range" and rows[0] == "range" and cols != rows and cols[1][0] == "range":
            cols = cols[1]
    if cols == rows and (cols[0] != "new" or q.endswith(".__init__")):
        ctx.holds("D07.series", q)
        return
    if cols[0] == "some" and rows[0] == "some":
        if cols[1] is not rows[1]:
            ctx.bad("D07.series", q, "series are left out where %s has no values, but metadata where %s has none" % (show(cols[1])[:100], show(rows[1])[:100]), loc)
            return
    for a, b, what, other in ((cols, rows, "series of the data", "metadata"), (rows, cols, "metadata", "series of the data")):
        if a[0] == "some" and b[0] == "orig":
            ctx.bad("D07.series", q, "%s without values are left out, but not of the %s (%s)" % (what, other, desc(o)), loc)
            return
        if a[0] != "range" and b[0] == "range" and b[1] == a:
            ctx.bad("D07.series", q, "%s are numbered anew, but not the %s (%s)" % (other, what, desc(o)), loc)
            return
    if rows[0] == "new" and cols[0] == "orig":
        t = rows[1]
        if known_change(t) and t.op != "item" or t.op == "call" and call_name(t) == "pandas.merge" or contains(t, lambda y: call_name(y) == "pandas.merge" if y.op == "call" else False):
            ctx.bad("D07.series", q, "the rows of the metadata are not in line with the data any more: %s" % show(t)[:120], loc)
            return
    if cols[0] == "orig" and rows[0] == "at" and (contains(rows[1], lambda y: call_name(y) in ("builtins.sorted", "builtins.reversed") and y.op == "call" and len(y.args[1]) == 1 and ax.labels(y.args[1][0]) == cols)
                                                  or method(rows[1]) and method(rows[1])[1] in SHIFT and ax.labels(method(rows[1])[0])[0] == "orig"):
        ctx.bad("D07.series", q, "the rows of the metadata are brought into another order: %s" % show(rows[1])[:120], loc)
        return
    if cols[0] == "orig" and rows[0] == "range" and rows[1][0] == "new" and merged(rows[1][1]):
        ctx.bad("D07.series", q, "the rows of the merged metadata are numbered anew, but not the series of the data (%s)" % desc(o), loc)
        return
    raise Unknown("series %s / metadata %s" % (cols, tuple(show(x)[:120] if hasattr(x, "op") else x for x in rows)))


def merged(t):
    """Rows of a merge in the order in which the merge leaves them"""
    while True:
        m = method(t)
        if t.op == "call" and call_name(t) == "pandas.merge" or m and m[1] == "merge":
            return True
        if not m or m[1] not in ("reset_index", "set_index", "drop", "copy", "rename"):
            return False
        t = m[0]


def added(ctx, q, o, d, loc):
    """Nothing is added to or removed from the data in place"""
    n = norm(d)
    for e in o.flat():
        if e.kind == "mutcall" and norm(e.a[0]) is n and e.a[1] in ("drop", "dropna", "insert", "pop"):
            raise Unknown("%s of the data in place" % e.a[1])


def required(k):
    return k.op == "list" and [cval(x) if is_str(x) else None for x in k.args] == ["model", "scenario", "region", "variable", "unit"]


def _order(ctx, q, o, x, fin, must, loc):
    m = fin["_meta"]
    if m is mk("attr", x, "_meta"):
        ctx.holds("D07.order", q)  # one more column at the end, or times only
        return
    n = norm(m)
    while n.op == "item" and n.args[0].op == "attr" and n.args[0].args[1] == "loc" and not is_str(n.args[1]) and n.args[1].op != "tuple":
        n = n.args[0].args[0]  # rows only
    if n.op == "item" and not is_str(n.args[1]):
        k = n.args[1]
        if k.op == "+" and required(k.args[0]):
            rest = k.args[1]
        elif k.op == "concat" and len(k.args) == 2 and required(k.args[0]):
            rest = k.args[1].args[0] if k.args[1].op in ("spread", "starred") else k.args[1]
        elif names_of_columns(k) and (call_name(k) == "builtins.sorted" or k.op == "list"):
            ctx.bad("D07.order", q, "the columns of the metadata are %s instead of the required ones first" % show(k)[:120], loc)
            return
        else:
            raise Unknown("order %s" % show(k)[:150])
        if call_name(rest) != "builtins.sorted":
            if names_of_columns(rest):
                ctx.bad("D07.order", q, "the further columns of the metadata are not sorted: %s" % show(rest)[:120], loc)
                return
            raise Unknown("order %s" % show(rest)[:150])
        if rest.args[2]:
            raise Unknown("order %s" % show(rest)[:150])
        others = rest.args[1][0]
        while call_name(others) in ("builtins.list", "builtins.set", "builtins.tuple") and len(others.args[1]) == 1:
            others = others.args[1][0]
        if others.op == "-":
            a, b = others.args
        elif method(others) and method(others)[1] == "difference" and len(method(others)[2]) == 1:
            a, b = method(others)[0], method(others)[2][0]
        elif others.op == "comp" and len(others.args[1]) == 1 and len(others.args[1][0][0]) == 1 and others.args[1][0][1] == (mk("elem", others.args[0]),):
            (c, want), = others.args[1][0][0]
            if c.op != "in" or want is not False or c.args[0] is not mk("elem", others.args[0]):
                raise Unknown("order %s" % show(others)[:150])
            a, b = others.args[0], c.args[1]
        else:
            raise Unknown("order %s" % show(others)[:150])
        a, b = inner(a), inner(b)
        if a is mk("attr", n.args[0], "columns") and required(b):
            ctx.holds("D07.order", q)
            return
        raise Unknown("order %s" % show(others)[:150])
    if must:
        if method(n) or n.op == "call":
            ctx.bad("D07.order", q, "the columns of the metadata are not brought into order: %s" % show(n)[:120], loc)
            return
    elif contains(n, lambda y: y.op == "call" and call_name(y) == "pandas.merge"):
        ctx.bad("D07.order", q, "the columns of the merged metadata are not brought into order: %s" % show(n)[:120], loc)
        return
    elif n.op == "attr" or method(n) and method(n)[1] in ("assign",):
        ctx.holds("D07.order", q)
        return
    raise Unknown("order %s" % show(n)[:150])


# methods after which rows are others or in another order
SHIFT = frozenset("sort_index sort_values drop_duplicates sample head tail dropna drop unique sort reindex nlargest".split())


def _table(ctx, q):
    """The wide table: each row is a series, labelled by the metadata of that series"""
    loc = ctx.loc(q)
    key = named_param(ctx, ctx.p.need_function(q), "meta")
    for o in run(ctx, q, opaque=core):
        whole = implied(o, mk("isnone", key))
        if whole is None:
            want = (META, mk("item", META, key)) if not o.facts else ()
            if not want or o.kind == "return":
                raise Unknown("columns %s" % desc(o))
        want = norm(META if whole else mk("item", META, key))
        dup = [(a, v) for a, v in facts_of(o) if contains(a, lambda y: y.op == "mcall" and y.args[1] in ("duplicated", "drop_duplicates"))]
        if o.kind != "return":
            if o.kind == "raise" and o.exc() == "builtins.ValueError" and any(v for _, v in dup):
                continue
            raise Unknown("%s raises" % desc(o))
        if not dup:
            if any(contains(a, lambda y: y is META) for a, _ in facts_of(o)):
                raise Unknown("duplicates %s" % desc(o))
            ctx.bad("D07.table", q, "series whose metadata are the same are not refused (%s)" % desc(o), loc)
            continue
        for a, v in dup:
            b = norm(a.args[0]) if a.op == "truth" else None
            m = b is not None and method(b)
            g = m and m[1] in ("any", "max", "all") and not m[2] and not m[3] and method(m[0])
            if not g or g[1] != "duplicated" or g[2] or set(dict(g[3])) - {"keep"}:
                if g and g[1] == "duplicated":
                    ctx.bad("D07.table", q, "only some columns are looked at for duplicates: %s" % show(b)[:120], loc)
                    continue
                raise Unknown("duplicates %s" % show(a)[:120])
            if m[1] == "all" or v:
                ctx.bad("D07.table", q, "series whose metadata are the same are not refused: %s" % desc(o), loc)
            elif norm(g[0]) is want:
                ctx.holds("D07.table", q)
            elif norm(g[0]) in (META, norm(mk("item", META, key))):
                ctx.bad("D07.table", q, "duplicates are looked for in %s" % show(g[0])[:80], loc)
            else:
                raise Unknown("duplicates of %s" % show(g[0])[:120])
        flips, t, raw, label = 0, o.value, o.value, None
        while True:
            for (x, f), v in o.heap.items():
                if x is t and f in ("index", "columns"):
                    if (f == "columns") != bool(flips % 2) and norm(t) is not DATA:
                        raise Unknown("labels")
                    label = (f, v, flips)
            m = method(t)
            if t.op == "attr" and t.args[1] == "T":
                flips, t = flips + 1, t.args[0]
            elif m and m[1] == "transpose" and not m[2] and not m[3]:
                flips, t = flips + 1, m[0]
            elif m and m[1] == "copy":
                t = m[0]
            else:
                break
        if norm(t) is not DATA:
            m = method(t)
            if m and m[1] in SHIFT and norm(m[0]) is DATA or \
                    t.op == "item" and norm(t.args[0]) is DATA and contains(t.args[1], lambda y: y.op == "mcall" and y.args[1] in SHIFT and norm(y.args[0]) in (META, want)):
                ctx.bad("D07.table", q, "the rows are %s" % show(t)[:120], loc)
                continue
            raise Unknown("table %s" % show(o.value)[:120])
        if flips % 2 == 0:
            ctx.bad("D07.table", q, "series are columns instead of rows (%s)" % desc(o), loc)
            continue
        if label is None:
            ctx.bad("D07.table", q, "series do not get their metadata (%s)" % desc(o), loc)
            continue
        f, v, n = label
        # the series are the columns of the data, the rows of what is turned around once
        if f != ("columns" if (flips - n) % 2 == 0 else "index"):
            ctx.bad("D07.table", q, "the times are labelled by %s" % show(v)[:120], loc)
            continue
        ctx.guard("D07.table", q, _labels, ctx, q, v, want, loc)


def facts_of(o):
    f = o.facts
    return list(f.items()) if hasattr(f, "items") else list(f)


def _labels(ctx, q, v, want, loc):
    n = call_name(v) if v.op == "call" else None
    if n not in ("pandas.MultiIndex.from_arrays", "pandas.MultiIndex.from_frame", "pandas.MultiIndex.from_tuples"):
        raise Unknown("labels %s" % show(v)[:120])
    kw = dict(v.args[2])
    parts = list(v.args[1][:1]) + [kw[k] for k in ("arrays", "tuples", "df") if k in kw]
    names = kw.get("names") or (v.args[1][2] if len(v.args[1]) > 2 else None)
    if len(parts) != 1:
        raise Unknown("labels %s" % show(v)[:120])
    t = norm(parts[0])
    wrong = []

    def base(t):
        t = norm(t)
        while True:
            m = method(t)
            if t.op == "attr" and t.args[1] in ("values", "T", "columns"):
                t = norm(t.args[0])
            elif m and m[1] in ("to_numpy", "tolist", "to_list", "copy", "astype", "transpose", "reset_index"):
                t = norm(m[0])
            elif m and m[1] in SHIFT:
                wrong.append(m[1])
                t = norm(m[0])
            elif call_name(t) in ("builtins.list", "builtins.tuple") and t.op == "call" and len(t.args[1]) == 1:
                t = norm(t.args[1][0])
            elif call_name(t) in ("builtins.sorted", "builtins.set", "builtins.reversed") and t.op == "call" and len(t.args[1]) == 1:
                wrong.append(call_name(t).split(".")[1])
                t = norm(t.args[1][0])
            else:
                return t

    for x, what in ((t, "labels"), (names, "names of the labels")):
        if x is None:
            if n.endswith("from_frame"):
                continue
            ctx.bad("D07.table", q, "the labels have no names", loc)
            return
        b = base(x)
        if what != "labels" and b is not want and b.op == "item" and b.args[0] is META and want.op == "item":
            b = want if b.args[1] is want.args[1] else b
        if what != "labels" and want.op == "item" and b is want.args[1]:
            b = want
        if b is not want:
            if b is META or b.op == "item" and b.args[0] is META:
                ctx.bad("D07.table", q, "the %s are %s" % (what, show(x)[:120]), loc)
                return
            raise Unknown("%s %s" % (what, show(x)[:120]))
        if wrong:
            ctx.bad("D07.table", q, "the %s are those of other series: changed by %s" % (what, ", ".join(wrong)), loc)
            return
    # shape: one array for each column, or one tuple for each row
    flips = 0
    x = t
    while x.op == "attr" and x.args[1] in ("values", "T"):
        flips += x.args[1] == "T"
        x = norm(x.args[0])
    if x is want and (flips % 2 == 1) != n.endswith("from_arrays") and t is not want:
        ctx.bad("D07.table", q, "rows and columns of the labels are exchanged: %s" % show(v)[:120], loc)
        return
    ctx.holds("D07.table", q)


def _part(ctx, q, n):
    loc = ctx.loc(q)
    for o in run(ctx, q, opaque=lambda f: core(f) or f == S + ".timeseries"):
        if o.kind != "return":
            raise Unknown("%s raises" % desc(o))
        m = method(norm(o.value))
        if m and m[1] in ("head", "tail") and m[0].op == "rcall" and m[0].args[0] == S + ".timeseries":
            if m[1] != n:
                ctx.bad("D07.table", q, "%s of the table is handed out" % m[1], loc)
            elif len(m[0].args[1]) > 1:
                raise Unknown("columns")
            else:
                ctx.holds("D07.table", q)
        else:
            raise Unknown("value %s" % show(o.value)[:120])


def inner(t):
    while call_name(t) in ("builtins.list", "builtins.set", "builtins.tuple") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


RULES = {
    "D07": {"rules": [d07], "explain": "The axes of the final data, metadata and time points of every path of every operation that stores them are followed back through the pandas operations which "
            "made them and compared, together with the order of the columns where metadata is made anew. Of the wide table the data, its labels and the test for duplicates are decided on every path."},
}
