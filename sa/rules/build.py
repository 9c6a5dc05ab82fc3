"""Rules about the construction of data frames (D15)"""
from ..check import Unknown, implied
from ..terms import cval, is_num, is_str
from .frames import BASE, S, TP, core, run
from .ops import norm
from .select import Wrong
from .util import *

Q = S + ".__init__"
REQ = ("model", "scenario", "region", "variable", "unit")
MEM = mk("sym", "self", ("cls", S))
OTHER, DATES = "(other)", "(times)"
CONVERSIONS = {"builtins.float": "number", "builtins.int": "number", "datetime.datetime.strptime": "date", "dateutil.parser.parse": "date", "dateutil.parser.isoparse": "date",
               "pandas.to_datetime": "date", "pandas.Timestamp": "date", "datetime.datetime.fromisoformat": "date"}
FRAME, SERIES = "pandas.DataFrame", "pandas.Series"


def d15(ctx):
    ctx.p.need_function(Q)
    f = ctx.p.functions[Q]
    data, index = param(ctx, f, 1), named_param(ctx, f, "index")
    columns = named_param(ctx, f, "columns")
    try:
        outs = run(ctx, Q, opaque=core)
    except Exception as e:  # pragma: no cover
        ctx.unk("D15.build", Q, str(e), ctx.loc(f))
        return
    loc = ctx.loc(f)
    kinds = {}
    for o in outs:
        if not contradicts(o):
            kinds.setdefault(kind_of(o, data, columns), []).append(o)
    for k in sorted(kinds, key=str):
        ctx.guard("D15.%s" % k, Q, one_kind, ctx, k, kinds[k], data, index, columns, loc)
    for k in ("columns", "frame", "table", "file"):
        if k not in kinds:
            ctx.unk("D15.%s" % k, Q, "nothing is made of a %s" % k, loc)


def contradicts(o):
    """Is the path impossible, as copies are of the same class as what is copied?"""
    seen = {}
    for a, b in o.order:
        if a.op == "isinst" and seen.setdefault(norm(a), b) != b:
            return True
    return False


def isinst(o, x, *classes):
    """Is the value an instance of the class on this path?"""
    for c in classes:
        for a, b in o.order:
            if a.op == "isinst" and norm(a.args[0]) is x and a.args[1] == c:
                return b
    return None


def kind_of(o, data, columns):
    c = implied(o, mk("isnone", columns))
    if c is None and columns.op == "sym":
        c = None if tv(o, columns) is None else not tv(o, columns)
    if c is False:
        return "columns"
    if isinst(o, data, S):
        return "frame"
    if isinst(o, data, FRAME) or isinst(o, data, SERIES):
        return "table"
    if any(a.op == "isinst" and norm(a.args[0]) is data and "IamDataFrame" in str(a.args[1]) and b for a, b in o.order):
        return "iam"
    if isinst(o, data, "builtins.str"):
        return "file"
    if isinst(o, data, "builtins.list") and any(a.op == "isinst" and a.args[0].op in ("item", "elem") and norm(a.args[0].args[0]) is data and b for a, b in o.order):
        return "files"
    return "rest"


def one_kind(ctx, k, outs, data, index, columns, loc):
    rule = "D15." + k
    returns = 0
    unknown = None
    for o in outs:
        try:
            if o.kind == "raise":
                failure(ctx, k, o, data)
            else:
                returns += 1
                {"columns": from_columns, "frame": from_frame, "table": from_table, "iam": from_table, "file": from_table, "files": refused, "rest": refused}[k](ctx, k, o, data, index, columns)
        except Wrong as w:
            ctx.bad(rule, Q, "%s (%s)" % (w, short(o)), loc)
            return
        except Unknown as u:
            unknown = unknown or "%s (%s)" % (u, short(o))
    if unknown:
        ctx.unk(rule, Q, unknown, loc)
        return
    if not returns and k not in ("files", "rest"):
        ctx.bad(rule, Q, "nothing can be made of a %s" % k, loc)
        return
    ctx.holds(rule, Q)
    if k == "table":
        if any(getattr(o.it, "lost", False) for o in outs):
            ctx.bad("D15.missing", Q, "pandas leaves out rows with missing metadata when a long table is pivoted", loc)
        else:
            ctx.holds("D15.missing", Q)


def short(o):
    return ", ".join(("" if b else "not ") + show(a)[:70] for a, b in o.order)[:400]


def refused(ctx, k, o, data, index, columns):
    if k == "files":
        raise Wrong("a list of files is accepted")
    d, m = final(o)
    if k == "rest":
        raise Unknown("what is made of other objects")


# ------------------------------------------------------------------------------- errors
def failure(ctx, k, o, data):
    """Is there a reason for the error?"""
    want = None
    for a, b in o.order:
        x = reason(norm(a), b, o, data)
        if x is not None:
            want = x
    if k == "files":
        want = ("builtins.ValueError", "lists of files are not supported")
    if k in ("rest", "files"):
        for c, n in ((S, "data frame"), (FRAME, "pandas.DataFrame"), (SERIES, "pandas.Series"), ("builtins.str", "file name")):
            if isinst(o, data, c) is None:
                raise Wrong("a %s is refused" % n)
    if k == "rest" and want is None:
        want = ("builtins.TypeError", "this is not supported")
    if want is None:
        if consistency(o):
            raise Unknown("error if sizes differ")
        if not any(e.kind == "raise" for e in o.events) and any(e.kind == "implicit_raise" for e in o.flat()):
            raise Unknown("error %s" % o.exc())
        a, b = o.order[-1] if o.order else (None, None)
        if a is not None and reason_like(norm(a)):
            raise Unknown("error for unknown reasons")
        raise Wrong("%s without a reason" % o.exc())
    exc = o.exc() or ""
    if exc == want[0] or want[0] == "builtins.OSError" and exc in ("builtins.FileNotFoundError", "builtins.IOError"):
        return
    raise Wrong("%s where %s" % (exc, want[1]))


def reason_like(a):
    for x in walk(a):
        if x.op == "mcall" and x.args[1] not in ("to_frame", "endswith", "issubset", "keys", "tolist", "pivot_table", "drop", "items"):
            return True
        if x.op == "call" and call_name(x) not in ("builtins.set", "builtins.list", "builtins.tuple", "os.path.exists", "os.path.isfile", "pandas.DataFrame", "pandas.read_csv", "pandas.read_excel", "pandas.ExcelFile"):
            return True
        if x.op in ("fold", "comp", "any", "all", "foldop", "rcall", "last", "lam"):
            return True
    return False


def reason(a, b, o, data):
    V = "builtins.ValueError"
    if a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) in ("os.path.exists", "os.path.isfile") and not b:
        return "builtins.OSError", "there is no such file"
    r = required(a)
    if r is not None and r[0] is not None and b != r[2]:
        return V, "columns are missing"
    if a.op == "in" and is_str(a.args[0]) and cval(a.args[0]) in ("year", "time"):
        y = {cval(x.args[0]): v for x, v in o.order if x.op == "in" and is_str(x.args[0]) and cval(x.args[0]) in ("year", "time")}
        if len(y) == 2 and y["year"] == y["time"]:
            return V, "it is not clear which is the time"
    if a.op == "truth" and a.args[0].op in ("fold", "comp") and not b or a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0].op == "comp" and a.args[1] is const(1) and b:
        return V, "there are no times"
    if a.op == "not" or a.op == "eq" and a.args[0].op == "len" and a.args[1].op == "len" and not b:
        return V, "the length of a column is not the number of series"
    if a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0].op in ("val", "elem", "item") and a.args[1] in (const(1), const(2)) and b == (a.args[1] is const(1)):
        return V, "the length of a column is not the number of series"
    return None


# -------------------------------------------------------------------------- what is made
def final(o):
    d, m = o.heap.get((MEM, "_data")), o.heap.get((MEM, "_meta"))
    if d is None or m is None:
        raise Unknown("data")
    return norm(d), norm(m)


def unsorted(m):
    """Metadata before its columns are sorted"""
    if m.op == "item" and contains(m.args[1], mk("attr", m.args[0], "columns")) and m.args[1].op != "comp":
        m = m.args[0]
    return m


def numbers(d):
    """Data before the conversion to numbers"""
    x = method(d)
    if x and x[1] == "astype":
        if len(x[2]) == 1 and x[2][0] in (ext("builtins.float"), const("float"), const("float64"), ext("numpy.float64")):
            return x[0]
        raise Wrong("values are converted to %s" % show(x[2][0])[:40]) if len(x[2]) == 1 and x[2][0].op in ("ext", "const") else Unknown("values")
    if x and x[1] == "apply" or d.op == "call":
        raise Unknown("numbers %s" % show(d)[:80])
    raise Wrong("values are not converted to floating point numbers")


def unlabelled(m, o):
    """Metadata before series with the same labels are told apart; (metadata, is this done?)"""
    x = method(m)
    if x and x[1] == "reset_index" and dict(x[3]).get("drop") is TRUE:
        return x[0], True
    return m, False


def unique_fact(o):
    r = None
    for a, b in o.order:
        a = norm(a)
        if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] in ("is_unique", "has_duplicates"):
            r = b if a.args[0].args[1] == "is_unique" else not b
    return r


def parts(o):
    d, m = final(o)
    d = numbers(d)
    m = unsorted(m)
    m, renumbered = unlabelled(m, o)
    u = unique_fact(o)
    given = [e for e in o.events if e.kind == "setattr" and norm(e.a[0]) is d and e.a[1] == "columns"]
    if renumbered and u is False:
        if not given:
            raise Unknown("labels of the data")
        if not contains(norm(given[-1].a[2]), mk("mcall", m, "reset_index", (), (("drop", TRUE),))):
            raise Wrong("the data keeps its labels although the metadata is renumbered")
    if u is False and not renumbered:
        since = [i for i, (a, b) in enumerate(o.order) if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] in ("is_unique", "has_duplicates")][-1]
        raise Unknown("series with the same label") if any(contains(norm(e.a[2]), m) and e.a[0] is not MEM for e in o.flat() if e.nfacts > since and e.kind == "setattr" and len(e.a) > 2 and isinstance(e.a[2], T)) else Wrong(
            "series with the same label are not told apart")
    if u is None and not renumbered:
        raise Wrong("series with the same label are not told apart")
    time_axis(o, d)
    return d, m


def time_axis(o, d):
    """The times are those of the data"""
    tp = o.heap.get((MEM, "_time_points"))
    t = tp is not None and norm(tp)
    if not (t is not False and t.op == "rnew" and t.args[0] == TP and len(t.args[2]) == 1):
        raise Unknown("times %s" % (show(tp)[:80] if tp is not None else ""))
    v = t.args[2][0]
    x = d.args[0] if d.op == "mcall" and d.args[1] == "sort_index" else d
    ix = {mk("attr", y, "index") for y in (d, x, mk("mcall", d, "astype", (ext("builtins.float"),), ()))}
    ix |= {norm(e.a[2]) for e in o.events if e.kind == "setattr" and norm(e.a[0]) is d and e.a[1] == "index"}
    if v.op == "attr" and v.args[1] == "values":
        v = v.args[0]
    elif method(v) and method(v)[1] in ("to_numpy", "copy") and not method(v)[2]:
        v = method(v)[0]
    if v not in ix:
        if any(contains(v, i) for i in ix) and (v.op in ("slice", "slice3", "item") or method(v) and method(v)[1] in LOSSY or v.op == "call" and call_name(v) in CHANGING):
            raise Wrong("the times are %s" % show(v)[-60:])
        raise Unknown("times %s" % show(v)[:80])
    sets = [e for e in o.events if e.kind == "setattr" and norm(e.a[0]) in {i.args[0] for i in ix} and e.a[1] == "index" and contains(norm(e.a[2]), t)]
    if not sets:
        if any(e.kind == "mutcall" and e.a[1] == "set_index" for e in o.events) or any(contains(norm(x), t) for x in (o.heap[(MEM, "_data")],)):
            raise Unknown("index of the data")
        raise Wrong("the data keeps its index although times are stored separately")
    w = norm(sets[-1].a[2])
    if not (w.op == "rcall" and w.args[0].endswith(".to_index")):
        raise Unknown("index %s" % show(sets[-1].a[2])[:80])


def from_frame(ctx, k, o, data, index, columns):
    d, m = parts(o)
    for got, n in ((d, "_data"), (m, "_meta")):
        if got is not mk("attr", data, n):
            if got.op == "attr" and got.args[0] is data:
                raise Wrong("%s is %s of the other data frame" % (n, got.args[1]))
            if contains(got, mk("attr", data, n)) and (got.op in ("item", "slice") or method(got) and method(got)[1] in ("dropna", "head", "tail", "drop_duplicates", "drop", "iloc")):
                raise Wrong("%s is %s" % (n, show(got)[:100]))
            raise Unknown("%s is %s" % (n, show(got)[:100]))


# ---------------------------------------------------------------------- data and columns
def from_columns(ctx, k, o, data, index, columns):
    d, m = parts(o)
    x = d
    if not (x.op == "call" and call_name(x) == FRAME and x.args[1] and x.args[1][0] is data or x is data):
        raise Unknown("data %s" % show(x)[:100])
    if x.op == "call" and (len(x.args[1]) > 1 or x.args[2]):
        if any(n == "index" for n, _ in x.args[2]) or len(x.args[1]) > 1:
            raise Wrong("the data is looked up with the new index instead of being labelled with it")
        raise Unknown("data %s" % show(x)[:100])
    _given_required(o, columns)
    # the index
    given = implied(o, mk("isnone", index))
    sets = [e for e in o.events if e.kind == "setattr" and len(e.a) == 3 and norm(e.a[0]) is x and e.a[1] == "index"]
    made = [i for i, e in enumerate(o.events) if e.kind == "rnew" and e.a[0].args[0] == TP and contains(norm(e.a[0]), mk("attr", x, "index"))]
    before = [e for e in sets if not made or o.events.index(e) < made[0]]
    if given is False:
        if not before:
            raise Wrong("the index given is not used") if made else Unknown("index")
        v = norm(before[-1].a[2])
        if not contains(v, index):
            raise Wrong("the index is %s" % show(v)[:80])
    elif given is True:
        if before:
            raise Wrong("the index of the data is replaced by %s" % show(before[-1].a[2])[:80])
    elif not any(contains(norm(e.a[2]), index) for e in before):
        raise Wrong("the index given is not used") if not any(contains(a, index) for a, _ in o.order) else Unknown("index")
    # the metadata
    if not (m.op == "call" and call_name(m) == FRAME and m.args[1]):
        raise Unknown("metadata %s" % show(m)[:100])
    kw = dict(call_kw(m))
    ix = kw.get("index", m.args[1][1] if len(m.args[1]) > 1 else None)
    if ix is None or ix is not mk("attr", x, "columns"):
        raise Wrong("the metadata has not the labels of the data") if ix is None else Unknown("labels %s" % show(ix)[:80])
    n = mk("len", mk("attr", x, "columns"))
    ns = {n, mk("item", mk("attr", x, "shape"), const(1))}
    _entries(m.args[1][0], columns, ns)


def whole_dict(t, columns):
    return t is columns or t.op == "dictupd" and all(x is columns or x.op == "dict" and not x.args for x in t.args)


def _given_required(o, columns):
    requirement([(norm(a), b) for a, b in o.order], lambda of: whole_dict(of, columns))


def _entries(t, columns, ns):
    """Every column of the metadata has its value(s) for all series"""
    while t.op == "dictupd" and len(t.args) == 2 and whole_dict(t.args[0], columns):
        t = t.args[1]
    if t.op != "dictcomp":
        if whole_dict(t, columns):
            raise Unknown("entries as they are")
        raise Unknown("entries %s" % show(t)[:100])
    src = t.args[0]
    m = method(src)
    d = m[0] if m and m[1] == "items" else src
    if not whole_dict(d, columns):
        raise Unknown("entries of %s" % show(src)[:80])
    keys = (mk("key", d), mk("key", src), mk("item", mk("elem", src), const(0)))
    vals = (mk("val", d), mk("val", src), mk("item", mk("elem", src), const(1)), mk("item", d, mk("key", d)))
    if src is d:
        keys += (mk("elem", d),)
    for conds, es in t.args[1]:
        if isinstance(es, tuple) and len(es) != 1:
            raise Wrong("a column of the metadata is left out") if not es else Unknown("entries")
        e = es[0] if isinstance(es, tuple) else es
        if e.op != "tuple" or len(e.args) != 2:
            raise Unknown("entry %s" % show(e)[:80])
        if e.args[0] not in keys:
            raise Wrong("a column of the metadata is called %s" % show(e.args[0])[:80]) if any(contains(e.args[0], x) for x in keys) else Unknown("entry %s" % show(e)[:80])
        v = e.args[1]
        one = text = None  # is the value a single one?  a text?
        single, equal = None, None
        for a, b in conds:
            if a.op == "isinst" and a.args[0] in vals:
                if a.args[1] == "builtins.str":
                    one, text = True if b else one, b
                elif b and "Iterable" not in str(a.args[1]) and "Sequence" not in str(a.args[1]):
                    text = False
                elif "Iterable" in str(a.args[1]):
                    one = not b if not b or one is None else one
            if a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0] in vals and is_num(a.args[1]):
                if cval(a.args[1]) == 2 and b:
                    single = True
                if cval(a.args[1]) == 2 and not b:
                    single = False
            if a.op == "eq" and any(x.op == "len" and x.args[0] in vals for x in a.args):
                y = [x for x in a.args if not (x.op == "len" and x.args[0] in vals)]
                if y and y[0] in ns:
                    equal = b
                if y and y[0] is const(1):
                    single = b
        rep = v.op == "repeat" and v.args[1] in ns
        w = v.args[0] if rep else v
        if v.op == "repeat" and not rep:
            raise Wrong("entries are repeated %s times" % show(v.args[1])[:40]) if v.args[1].op in ("const", "len") else Unknown("entries repeated")
        listed = w.op == "call" and call_name(w) in ("builtins.list", "builtins.tuple") and len(w.args[1]) == 1 and w.args[1][0] in vals
        packed = w.op in ("list", "tuple") and len(w.args) == 1 and w.args[0] in vals
        if w.op in ("list", "tuple") and len(w.args) == 1 and w.args[0].op == "item" and w.args[0].args[1] is const(0) and any(contains(w.args[0].args[0], x) for x in vals) and rep and single is not True:
            raise Wrong("columns of another length are accepted")
        if packed:
            if one is False:
                raise Wrong("several values of a column become a single entry")
            if not rep and one is None:
                raise Unknown("entries")
            continue
        if w in vals and one is True:
            continue
        if w.op == "concat" and not rep and equal is not True and (single is True or one is True):
            parts_ = [x.args[0] if x.op == "spread" else x for x in w.args]
            fill = [x for x in parts_ if x.op == "repeat" and x.args[0].op == "list" and len(x.args[0].args) == 1 and is_const(x.args[0].args[0])]
            if fill and any(contains(x, y) for x in parts_ for y in vals):
                raise Wrong("a single entry is given to one series only, the others get %s" % show(fill[0].args[0].args[0])[:40])
        if not listed and w not in vals:
            y = [x for x in walk(w) if x in vals]
            if w.op in ("const", "sym") or y and (w.op in ("item", "slice", "slice3") or w.op == "call" and call_name(w) in CHANGING or method(w) and method(w)[1] in CHANGING):
                raise Wrong("the entries of a column are %s" % show(v)[:100])
            raise Unknown("entries %s" % show(v)[:100])
        if text is None and one is not True:
            raise Wrong("a text becomes one entry per letter")
        if rep:
            if single is not True:
                raise Wrong("columns with several entries are repeated")
            continue
        if w in vals and one is not True:
            raise Wrong("entries with an index of their own are not given to the series in turn")
        if equal is not True and not (single is True):
            if equal is False:
                raise Wrong("columns of another length are accepted")
            raise Unknown("length of the columns")


# ------------------------------------------------------------------------------- tables
def required(a):
    """(the required names or None, what they are looked for in, are they there if this is so?), when this is a test whether they are there"""
    if a.op == "lt" and a.args[0].op == "len" and a.args[1] is const(1):
        r = _missing(a.args[0].args[0])
        return r and r + (True,)
    if a.op == "in" and is_str(a.args[0]) and cval(a.args[0]) in REQ:
        return (cval(a.args[0]),), inside(a.args[1]), True
    if a.op != "truth":
        return None
    m = method(a.args[0])
    if m and m[1] == "issubset" and len(m[2]) == 1:
        if literal(m[0]) is None and literal(m[2][0]) is not None and set(literal(m[2][0])) <= set(REQ):
            raise Wrong("only the required columns are allowed")
        return literal(m[0]), inside(m[2][0]), True
    if m and m[1] == "issuperset" and len(m[2]) == 1:
        if literal(m[2][0]) is None and literal(m[0]) is not None and set(literal(m[0])) <= set(REQ):
            raise Wrong("only the required columns are allowed")
        return literal(m[2][0]), inside(m[0]), True
    if m and m[1] == "isdisjoint" and len(m[2]) == 1 and literal(m[0]):
        raise Wrong("one of the required columns is enough")
    r = _missing(a.args[0])
    return r and r + (False,)


def _missing(t):
    """(required names, what they are looked for in) if these are the names which are missing"""
    if t.op == "call" and call_name(t) in CHANGING_SETS and len(t.args[1]) == 1:
        return _missing(t.args[1][0])
    m = method(t)
    if m and m[1] == "difference" and len(m[2]) == 1:
        t = mk("-", m[0], m[2][0])
    if t.op == "-" and literal(t.args[0]) is not None:
        return literal(t.args[0]), inside(t.args[1])
    if t.op == "comp" and literal(t.args[0]) is not None:
        el = mk("elem", t.args[0])
        cs = flat_cases(t)
        if len(cs) == 1 and cs[0][1] is el and len(cs[0][0]) == 1 and cs[0][0][0][0].op == "in" and cs[0][0][0][0].args[0] is el and not cs[0][0][0][1]:
            return literal(t.args[0]), inside(cs[0][0][0][0].args[1])
    return None


CHANGING_SETS = ("builtins.list", "builtins.set", "builtins.sorted", "builtins.tuple")


def requirement(facts, there):
    """How many facts are known when the required columns are known to be there"""
    names, last = set(), None
    for i, (a, b) in enumerate(facts):
        q = required(a)
        if q is None or not there(q[1]):
            continue
        if q[0] is None:
            raise Unknown("required columns")
        if b == q[2]:
            names |= set(q[0])
            last = i if last is None else last
        elif len(q[0]) > 1:
            raise Wrong("tables without the required columns are accepted")
    if not names:
        if any(set(REQ) <= {cval(x) for x in walk(a) if is_str(x)} and any(there(x) for x in walk(a)) and not about_other(a) for a, b in facts):
            raise Unknown("required columns")
        raise Wrong("tables without the required columns are accepted")
    if names != set(REQ):
        raise Wrong("the required columns are %s" % ", ".join(sorted(names)))
    return last


def about_other(a):
    """Is this about the other columns only, or about what is made in the end?"""
    return any(x.op == "-" and literal(x.args[1]) is not None and literal(x.args[0]) is None for x in walk(a)) or any(method(x) and method(x)[1] in ("pivot_table", "drop") for x in walk(a)) or any(
        x.op == "comp" and any(c.op == "in" and not b for cs, _ in flat_cases(x) for c, b in cs) for x in walk(a))


def literal(t):
    if t.op == "call" and call_name(t) in ("builtins.set", "builtins.list", "builtins.frozenset", "builtins.tuple", "builtins.sorted") and len(t.args[1]) == 1:
        return literal(t.args[1][0])
    if t.op in ("list", "tuple", "set") and all(is_str(x) for x in t.args):
        return tuple(cval(x) for x in t.args)
    return None


def inside(t):
    while True:
        m = method(t)
        if t.op == "call" and call_name(t) in ("builtins.set", "builtins.list", "builtins.tuple") and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif m and m[1] in ("keys", "tolist") and not m[2]:
            t = m[0]
        else:
            return t


def source(o, k, data):
    """Tables which may be what is given"""
    if k == "table":
        base = data
    elif k == "iam":
        base = mk("attr", data, "data")
    else:
        return None
    ser = isinst(o, base, SERIES)
    fr = isinst(o, base, FRAME)
    m = mk("mcall", base, "to_frame", (), ())
    if ser:
        return [m]
    if ser is False or fr:
        return [base]
    return [base, m]


def read_file(ctx, o, X, data):
    """Is this the table in the file?"""
    if X.op != "call" or call_name(X) not in ("pandas.read_csv", "pandas.read_excel"):
        return False
    if not X.args[1] or X.args[1][0] is not data:
        y = X.args[1][0] if X.args[1] else None
        if not (y is not None and y.op == "call" and call_name(y) == "pandas.ExcelFile" and y.args[1] and y.args[1][0] is data):
            raise Unknown("file %s" % show(X)[:80])
    csv = None
    for a, b in o.order:
        m = method(a.args[0]) if a.op == "truth" else None
        if m and m[1] == "endswith" and norm(m[0]) is data and len(m[2]) == 1 and is_str(m[2][0]):
            csv = (csv or False) or b if cval(m[2][0]) in ("csv", ".csv") else csv
    if not any(a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) in ("os.path.exists", "os.path.isfile") and a.args[0].args[1] == (data,) and b for a, b in o.order):
        raise Wrong("it is not checked whether the file exists") if not any(e.kind == "except" for e in o.flat()) else Unknown("missing files")
    if csv is None:
        ends = [cval(m[2][0]) for a, b in o.order for m in [a.op == "truth" and method(a.args[0])] if m and m[1] == "endswith" and len(m[2]) == 1 and is_str(m[2][0])]
        if ends:
            raise Wrong("csv files are not told apart by their names, but those ending with %s" % ends[0])
        raise Unknown("kind of file")
    if csv != (call_name(X) == "pandas.read_csv"):
        raise Wrong("a %s file is read by %s" % ("csv" if csv else "Excel", call_name(X)))
    # options
    f = ctx.p.functions[Q]
    kw = f.node.args.kwarg
    star = [v for n, v in call_kw(X) if n in ("**", None)] if False else [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "**" else None for x in X.args[2]]
    star = [x for x in star if x is not None]
    if kw is not None:
        opts = [x for s_ in star for x in walk(s_) if x.op == "sym" and x.args[0] == kw.arg]
        if not opts:
            raise Wrong("options are not passed on to %s" % call_name(X))
    sheet = [v for n, v in [x for x in X.args[2] if isinstance(x, tuple) and len(x) == 2] if n == "sheet_name"]
    for s_ in star:
        for x in walk(s_):
            if x.op == "dict":
                sheet += [v for n, v in x.args if n is const("sheet_name")]
    if call_name(X) == "pandas.read_excel":
        several = asked = None
        for a, b in o.order:
            if a.op == "lt" and a.args[0].op == "len" and a.args[0].args[0].op == "attr" and a.args[0].args[0].args[1] == "sheet_names" and a.args[1] is const(2):
                several = not b
            if a.op == "isnone" and a.args[0].op == "dget" and a.args[0].args[1] is const("sheet_name"):
                asked = not b
            elif a.op == "in" and a.args[0] is const("sheet_name"):
                asked = b
        over = [x for s_ in star for x in walk(s_) if x.op == "dictupd" and x.args[-1].op == "dict" and any(n is const("sheet_name") for n, _ in x.args[-1].args)]
        if sheet and sheet[0] is const("data"):
            if several is False or asked is True:
                raise Wrong("the sheet 'data' is read although %s" % ("another one is asked for" if asked else "there is only one"))
            if several is None or asked is None and over:
                raise Wrong("the sheet 'data' is read although %s" % ("there may be only one" if several is None else "another one may be asked for"))
        elif sheet and is_str(sheet[0]):
            raise Wrong("the sheet %s is read" % cval(sheet[0]))
        elif sheet:
            raise Unknown("sheet %s" % show(sheet[0])[:40])
        elif several and asked is False or several is None and asked is None:
            raise Wrong("the sheet 'data' is not read")
    elif sheet:
        raise Unknown("sheet")
    return True


def table_of(d):
    """(form, table, what is done)"""
    m = method(d)
    if d.op == "attr" and d.args[1] == "value" or d.op == "item" and d.args[1] is const("value"):
        x = method(d.args[0])
        if x and x[1] == "pivot_table":
            return "long", x[0], x
    if m and m[1] == "pivot_table":
        return "long", m[0], m
    if m and m[1] == "transpose" and not m[2]:
        d = mk("attr", m[0], "T")
    if d.op == "attr" and d.args[1] == "T":
        x = method(d.args[0])
        if x and x[1] == "drop":
            return "wide", x[0], x
        if x and x[1] in LOSSY:
            raise Wrong("the data is the result of %s" % x[1])
        if d.args[0].op == "item":
            return "wide", d.args[0].args[0], d.args[0]
        if d.args[0].op == "attr":
            raise Unknown("table %s" % show(d)[:80])
    if m and m[1] in LOSSY:
        raise Wrong("the data is the result of %s" % m[1])
    if m and m[1] == "drop":
        raise Wrong("the data is not transposed")
    raise Unknown("data %s" % show(d)[:120])


LOSSY = ("dropna", "drop_duplicates", "head", "tail", "fillna", "query", "sample", "interpolate", "ffill", "bfill", "abs", "round", "clip", "cumsum", "diff", "shift", "iloc")


def from_table(ctx, k, o, data, index, columns):
    d, m = parts(o)
    sm = method(d)
    resorted = False
    if sm and sm[1] == "sort_index":
        d, resorted = sm[0], not sm[2] and not sm[3]
    form, X, how = table_of(d)
    # columns in lower case may be another table
    renamed = None
    while True:
        x = method(X)
        if x and x[1] == "rename" and renamed is None:
            renamed, X = (how, dict(x[3])), x[0]
            raise Unknown("columns renamed in a copy")
        break
    want = source(o, k, data)
    if want is None:
        x = method(X)
        if not read_file(ctx, o, x[0] if x and x[1] == "to_frame" and isinst(o, x[0], SERIES) else X, data):
            raise Unknown("table %s" % show(X)[:80])
    elif X not in want:
        x = method(X)
        y = x[0] if x and x[1] == "to_frame" else X
        if contains(y, want[0]) and (y.op in ("item", "slice", "slice3") or method(y) and method(y)[1] in LOSSY):
            raise Wrong("not all of the table is used: %s" % show(X)[:80])
        raise Unknown("table %s" % show(X)[:80])
    facts = [(norm(a), b) for a, b in o.order]
    lower_at = lowered(o, X)
    unindexed(o, X, facts)
    # required columns
    if requirement(facts, lambda of: columns_of(of, X)) < lower_at:
        raise Wrong("the names of the columns are looked at before they are converted to lower case")
    # the form
    has = {}
    for a, b in facts:
        if a.op == "in" and is_str(a.args[0]) and columns_of(inside(a.args[1]), X):
            has[cval(a.args[0])] = b
    if has.get("value") is None:
        if set(has) - {"year", "time"} - set(REQ):
            raise Wrong("the form of the table depends on a column %s" % ", ".join(sorted(set(has) - {"year", "time"} - set(REQ))))
        raise Unknown("form of the table")
    if has["value"] != (form == "long"):
        raise Wrong("a table with%s a column 'value' is read as one of the %s form" % ("" if has["value"] else "out", form))
    if form == "long":
        long_table(o, X, d, m, how, has)
    else:
        wide_table(o, X, d, m, how)
    # the order of times
    if form == "wide" and not resorted and not any(e.kind == "mutcall" and e.a[1] == "sort_index" and norm(e.a[0]) is d and not e.a[2] and not any(n in ("ascending", "axis") for n, _ in e.a[3]) for e in o.flat()):
        raise Wrong("the data is not sorted by time")


def columns_of(t, X):
    """Are these the columns of the table?"""
    t = inside(t)
    return t is mk("attr", X, "columns") or t is X


def lowered(o, X):
    """How many facts are known when the names of the columns are converted to lower case"""
    C = mk("attr", X, "columns")
    for e in o.flat():
        v = None
        if e.kind == "mutcall" and e.a[1] == "rename" and norm(e.a[0]) is X:
            kw = dict(e.a[3])
            if kw.get("inplace") is not TRUE:
                continue
            v = kw.get("columns")
            if v is None and e.a[2]:
                raise Unknown("rename")
        elif e.kind == "setattr" and norm(e.a[0]) is X and e.a[1] == "columns":
            v = e.a[2]
        if v is None:
            continue
        v = norm(v)
        if v.op == "lam" or v.op == "func":
            raise Unknown("names in lower case")
        if v.op not in ("dictcomp", "comp"):
            m = method(v)
            if m and m[1] == "lower":
                raise Unknown("names in lower case")
            raise Unknown("names %s" % show(v)[:80])
        src = v.args[0]
        cases = flat_cases(v)
        seen = False
        for conds, x in cases:
            if x.op == "tuple" and v.op == "dictcomp":
                key, x = x.args
            else:
                key = None
            el = base_elem(src)
            y = method(x)
            if y and y[1] in ("lower", "casefold") and not y[2]:
                z = y[0]
                if z.op == "call" and call_name(z) == "builtins.str" and len(z.args[1]) == 1:
                    z = z.args[1][0]
                if z not in el or key is not None and key not in el:
                    raise Unknown("names %s" % show(x)[:60])
                if any(not (a.op == "isinst" and a.args[1] == "builtins.str") for a, b in conds + conditions(src)):
                    raise Wrong("only some names of columns are converted to lower case")
                seen = True
            elif x in el or x.op == "call" and call_name(x) == "builtins.str" and x.args[1][0] in el:
                pass
            elif y and y[1] in ("upper", "title", "capitalize", "strip"):
                raise Wrong("names of columns are converted to %s" % y[1])
            else:
                raise Unknown("names %s" % show(x)[:60])
        if seen:
            if not columns_of(base_source(src), X):
                raise Unknown("names of %s" % show(src)[:60])
            return e.nfacts
    raise Wrong("the names of the columns are not converted to lower case")


def flat_cases(t):
    r = []
    for conds, vals in t.args[1]:
        for v in vals if isinstance(vals, tuple) else (vals,):
            r.append((tuple(conds), v))
    return r


def base_source(src):
    """What is iterated over in the end, if only some of it is"""
    while src.op == "comp":
        src = src.args[0]
    return src


def base_elem(src):
    r = {mk("elem", src), mk("key", src)}
    while src.op == "comp":
        src = src.args[0]
        r |= {mk("elem", src), mk("key", src)}
    return r


def conditions(src):
    r = ()
    while src.op == "comp":
        for c, _ in flat_cases(src):
            r += c
        src = src.args[0]
    return r


def unindexed(o, X, facts):
    """Entries in the index become columns, exactly if there are any"""
    names = None
    for i, (a, b) in enumerate(facts):
        if contains(a, mk("attr", mk("attr", X, "index"), "names")) or contains(a, mk("attr", mk("attr", X, "index"), "name")):
            if a.op == "eq" and any(x.op == "list" and len(x.args) == 1 and x.args[0] is NONE for x in a.args):
                names = not b
            elif a.op == "isnone":
                names = names or not b
            else:
                raise Unknown("names of the index: %s" % show(a)[:80])
    done = [e for e in o.flat() if e.kind == "mutcall" and e.a[1] == "reset_index" and norm(e.a[0]) is X]
    for e in done:
        kw = dict(e.a[3])
        if kw.get("drop") is TRUE:
            raise Wrong("entries in the index are dropped")
        if kw.get("inplace") is not TRUE:
            raise Unknown("reset_index")
    if names is None:
        raise Wrong("entries in the index are not used") if not done else Wrong("a meaningless index becomes metadata")
    if names and not done:
        raise Wrong("entries in the index are not used")
    if not names and done:
        raise Wrong("a meaningless index becomes metadata")
    if done:
        i = [n for n, (a, b) in enumerate(facts) if required(a) is not None]
        if i and i[0] < done[0].nfacts:
            raise Wrong("the required columns are looked for before entries in the index are used")


# ------------------------------------------------------------------ names of columns as sets
ALL = frozenset(REQ) | {"year", "time", "value", OTHER}


def tokens(t, X, known=None):
    """Which columns are these?"""
    t0 = t
    known = known or {}
    if t in known:
        return known[t]
    if columns_of(t, X) and t is not X or t is X:
        return ALL
    if is_str(t):
        return frozenset([cval(t)])
    if t.op in ("list", "tuple", "set"):
        r = frozenset()
        for x in t.args:
            if x.op == "spread":
                r |= tokens(x.args[0], X, known)
            elif is_str(x):
                r |= {cval(x)}
            else:
                raise Unknown("columns %s" % show(t0)[:100])
        return r
    if t.op in ("concat", "+", "|"):
        r = frozenset()
        for x in t.args:
            r |= tokens(x, X, known)
        return r
    if t.op == "spread":
        return tokens(t.args[0], X, known)
    if t.op == "-":
        return tokens(t.args[0], X, known) - tokens(t.args[1], X, known)
    if t.op == "call" and call_name(t) in ("builtins.set", "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.frozenset") and len(t.args[1]) == 1:
        return tokens(t.args[1][0], X, known)
    m = method(t)
    if m and m[1] in ("difference", "union") and len(m[2]) == 1:
        a, b = tokens(m[0], X, known), tokens(m[2][0], X, known)
        return a - b if m[1] == "difference" else a | b
    if m and m[1] == "tolist" and not m[2]:
        return tokens(m[0], X, known)
    if t.op in ("slice", "slice3") and tokens(t.args[0], X, known):
        raise Wrong("only some columns are used: %s" % show(t)[-60:])
    if t.op == "fold" and t.args[0].op in ("list", "set") and not t.args[0].args:
        if all(v is t.args[1] or v.op == "list" and v.args == (mk("elem", t.args[2]),) for _, v in t.args[3]):
            raise Wrong("only the last of the columns is used")
    if t.op == "comp":
        base = tokens(t.args[0], X, known)
        el = mk("elem", t.args[0])
        r = frozenset()
        for conds, v in flat_cases(t):
            if v is not el:
                raise Unknown("columns %s" % show(t0)[:100])
            s = base
            for a, b in conds:
                if a.op == "in" and a.args[0] is el:
                    x = tokens(a.args[1], X, known)
                elif a.op == "eq" and el in a.args:
                    x = tokens([y for y in a.args if y is not el][0], X, known)
                else:
                    raise Unknown("columns %s" % show(a)[:100])
                s = s & x if b else s - x
            r |= s
        return r
    raise Unknown("columns %s" % show(t0)[:100])


def named(s):
    return ", ".join(sorted(s))


def long_table(o, X, d, m, how, has):
    for n, other in (("year", "time"), ("time", "year")):
        if has.get(n) is None:
            if has.get(other) is not None and not any(a.op not in ("in", "truth") and contains(a, const(n)) for a, _ in o.order):
                raise Wrong("a table with %s is accepted" % ("both year and time" if has[other] else "neither year nor time"))
            raise Unknown("time column")
    if has["year"] == has["time"]:
        raise Wrong("a table with %s is accepted" % ("both year and time" if has["year"] else "neither year nor time"))
    t, no = ("year", "time") if has["year"] else ("time", "year")
    kw = dict(how[3])
    pos = how[2]
    names = ("values", "index", "columns", "aggfunc", "fill_value", "margins", "dropna", "margins_name", "observed")
    a = dict(zip(names, pos))
    a.update(kw)
    if a.get("index") not in (const(t), mk("list", const(t))):
        raise Wrong("the time is in %s" % show(a.get("index"))[:60]) if a.get("index") is not None and is_str(a["index"]) else Unknown("time %s" % (show(a["index"])[:60] if "index" in a else ""))
    v = a.get("values")
    if v is not None and v is not const("value"):
        raise Unknown("values %s" % show(v)[:60])
    f = a.get("aggfunc")
    if f is not None and f not in (const("mean"), ext("numpy.mean")):
        raise Wrong("several values for the same series and time are combined by %s" % show(f)[:40]) if f.op in ("const", "ext") else Unknown("aggfunc")
    for n in ("fill_value", "margins", "dropna", "observed"):
        if n in a and a[n] not in (NONE, FALSE):
            if n == "dropna" and a[n] is TRUE:
                continue
            raise Wrong("missing values are replaced by %s" % show(a[n])[:40]) if n == "fill_value" else Unknown(n)
    got = tokens(a["columns"], X) if "columns" in a else frozenset()
    want = ALL - {t, "value"}
    if got - {no} != want - {no}:
        miss, more = want - got - {no}, got - want - {no}
        raise Wrong("series are told apart by %s" % named(got) if miss else "the metadata includes %s" % named(more))
    if not any(e.kind == "mutcall" and e.a[1] in ("fillna", "replace") and norm(e.a[0]) is X or e.kind == "setitem" and norm(e.a[0]) is X for e in o.flat()):
        o.it.lost = True
    # metadata: the labels of the series
    if m.op == "mcall" or m.op == "attr":
        x = method(m)
        if x and x[1] == "to_frame" and x[0] is mk("attr", d, "columns"):
            return
        if x and x[1] == "reset_index":
            return
    x = method(m)
    if x and x[1] == "to_frame":
        if contains(x[0], mk("attr", d, "columns")):
            raise Wrong("the metadata is %s" % show(m)[:100])
    raise Unknown("metadata %s" % show(m)[:120])


def wide_table(o, X, d, m, how):
    comps = [x for x in walk(d) if x.op == "comp"]
    known, loops = {}, set()
    for c in comps:
        if c.args[0] in o.it.loops and "cases" in o.it.loops[c.args[0]] or c.args[0] in nloops(o):
            known[c] = time_columns(o, c, X)
            loops.add(c.args[0])
    base = frozenset(REQ) | {OTHER}
    if isinstance(how, tuple):
        kw = dict(how[3])
        cols = kw.get("columns", kw.get("labels", how[2][0] if how[2] else None))
        ax = kw.get("axis", how[2][1] if len(how[2]) > 1 else None)
        if cols is None or "columns" not in kw and (ax is None or ax not in (const(1), const("columns"))):
            raise Unknown("columns dropped")
        got = relabel(tokens(cols, X, known))
        if got != base:
            raise Wrong("columns which are not taken for times are %s instead of the required and the other ones" % named(got))
    else:
        got = relabel(tokens(how.args[1], X, known))
        if got != {DATES}:
            raise Wrong("columns which are taken for times are %s" % named(got))
    # the metadata
    x = method(m)
    labels = None
    if x and x[1] == "set_index" and len(x[2]) == 1:
        labels, m0 = x[2][0], x[0]
    else:
        m0 = m
    if m0 is X:
        raise Wrong("the metadata is the whole table")
    if m0.op != "item":
        raise Unknown("metadata %s" % show(m)[:100])
    if m0.args[0] is not X:
        raise Unknown("metadata of %s" % show(m0.args[0])[:80])
    for c in [y for y in walk(m0.args[1]) if y.op == "comp"]:
        if c not in known and (c.args[0] in o.it.loops or c.args[0] in nloops(o)):
            known[c] = time_columns(o, c, X)
    got = relabel(tokens(m0.args[1], X, known))
    if got != base:
        raise Wrong("the metadata consists of %s" % named(got))
    if labels is not None and labels is not mk("attr", d, "columns") and labels is not mk("attr", X, "index"):
        raise Unknown("labels %s" % show(labels)[:80])
    # are there any times?
    if not any(any(x in loops or x in {norm(y) for y in loops} for x in walk(norm(a))) and a.op in ("truth", "lt", "eq") and not (a.args[0].op == "attr") for a, b in o.order):
        raise Wrong("tables without times are accepted")


def relabel(s):
    s = set(s)
    if "value" in s:
        s -= {"value"}
    s -= {"year", "time"}
    return frozenset(s)


def nloops(o):
    r = {}
    for it, d in o.it.loops.items():
        if "cases" in d:
            r.setdefault(norm(it), []).append((it, d))
    return r


def time_columns(o, c, X):
    """Which columns are collected here: those which are times, or the others"""
    src = c.args[0]
    base = tokens(src, X)
    cands = nloops(o).get(src) or []
    if base & frozenset(REQ) and not any(a.op in ("eq", "in") for it, d in cands for cs, _, _, _ in d["cases"] for a, b in cs):
        raise Wrong("columns which are required, e.g. %s, are looked at as times or others" % sorted(base & frozenset(REQ))[0])
    if OTHER not in base:
        raise Unknown("columns %s" % show(src)[:60])
    for it, d in cands:
        el = mk("elem", it)
        lists = set()
        for conds, evs, env, ls in d["cases"]:
            lists |= set(ls)
        for l in lists:
            taken = [bool(ls.get(l) is not None and ls[l] is not l) for _, _, _, ls in d["cases"]]
            if norm(tuple(tuple(x[0]) for x, t in zip(d["cases"], taken) if t)) == tuple(tuple(cs) for cs, v in flat_cases(c)):
                return classify(o, d, l, taken, el, base, X)
    raise Unknown("how %s are found" % show(c)[:80])


def conversions(evs, el):
    """[(kind of conversion, did it succeed?)]"""
    r = []
    evs = [e for e in evs]
    for i, e in enumerate(evs):
        if e.kind == "call" and call_name(e.a[0]) in CONVERSIONS and contains(e.a[0], el):
            failed = any(x.kind == "implicit_raise" and len(x.a) > 1 and x.a[1] is e.a[0] for x in evs[i + 1:])
            exc = [x.a[0] for x in evs[i + 1:] if x.kind == "implicit_raise" and len(x.a) > 1 and x.a[1] is e.a[0]]
            r.append((CONVERSIONS[call_name(e.a[0])], not failed, exc))
    return r


def classify(o, d, l, taken, el, base, X):
    """Are the columns in the list the times or the others?  Every case must agree"""
    verdict = None
    tried = set()
    for (conds, evs, env, ls), t in zip(d["cases"], taken):
        isdate = None
        names = base
        for a, b in conds:
            if a.op == "eq" and el in a.args or a.op == "in" and a.args[0] is el:
                x = tokens(norm(a.args[1] if a.op == "in" or a.args[0] is el else a.args[0]), X)
                names = names & x if b else names - x
            elif a.op == "isinst" and a.args[0] is el:
                if "datetime" in str(a.args[1]) or "Timestamp" in str(a.args[1]) or a.args[1] in ("builtins.int", "builtins.float", "numbers.Number"):
                    isdate = isdate or b
                    tried.add("instance" if "datetime" in str(a.args[1]) or "Timestamp" in str(a.args[1]) else "number")
                else:
                    raise Unknown("condition %s" % show(a)[:80])
            else:
                raise Unknown("condition %s" % show(a)[:80])
        if names & frozenset(REQ):
            if not names <= frozenset(REQ) or t or any(x is TRUE for x in env.values()):
                raise Wrong("columns which are required, e.g. %s, are looked at as times or others" % sorted(names & frozenset(REQ))[0])
            continue
        cs = conversions(evs, el)
        if any(x.kind == "raise" for x in evs):
            raise Unknown("error for a column")
        tried |= {k for k, _, _ in cs}
        time = bool(isdate) or any(ok for _, ok, _ in cs)
        if not time and not any(k == "date" for k, _, _ in cs):
            raise Wrong("columns are not taken for times without having been read as dates")
        if not time and "number" not in tried:
            raise Wrong("columns with years as numbers are not taken for times")
        v = (time == t)
        if verdict is None:
            verdict = v
        elif verdict != v:
            raise Wrong("columns which are%s times are taken for %s" % ("" if time else " not", "times" if verdict == t else "metadata"))
        # the flag
        for n, x in env.items():
            if x is TRUE and not time:
                raise Wrong("columns which are not times are counted as such")
            if x is FALSE:
                raise Wrong("whether there are times depends on the last column only")
    if not any(any(x is TRUE for x in env.values()) for _, _, env, _ in d["cases"]) and any(env for _, _, env, _ in d["cases"]) and False:
        raise Wrong("no times are found")
    flagged = [any(x is TRUE for x in env.values()) for _, _, env, _ in d["cases"]]
    if any(flagged):
        for (conds, evs, env, ls), t, fl in zip(d["cases"], taken, flagged):
            if any(a.op == "eq" and el in a.args and b for a, b in conds):
                continue
            time = (t == verdict)
            if time and not fl:
                raise Wrong("columns which are times are not counted as such")
    if "instance" not in tried and "date" in tried and False:
        raise Unknown("dates")
    return frozenset([DATES]) if verdict else frozenset([OTHER])


RULES = {
    "D15": {"rules": [d15], "explain": "The final data and metadata of every path of construction are followed back to the table, file or data frame given: which columns become metadata and which times, what is read, and which errors are raised for which reason."},
}
