"""Rules about operations on whole data frames (D03, D07, D08, D09, D10, D13, D14, D15)"""
from ..check import Unknown, implied
from ..terms import cval, is_num, is_str
from ..terms import sub as _sub
from .frames import BASE, CONV, M, OFFS, PTYPE, S, TP, UC, VOL, core
from .select import Wrong
from .series import GUESS, value
from .util import *

ME = mk("sym", "self", ("cls", S))
DATA, META, TIMES = mk("attr", ME, "_data"), mk("attr", ME, "_meta"), mk("attr", ME, "_time_points")
ITYPE = "openscm.core.time.InterpolationType"
ETYPE = "openscm.core.time.ExtrapolationType"


def norm(t, memo=None):
    """Copies are the same value, and so is what is created in different places from the same"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(norm(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    if t.op == "deepcopy":
        r = norm(t.args[0], memo)
    elif t.op == "mcall" and t.args[1] in ("copy", "__deepcopy__") and all(k == "deep" for k, _ in t.args[3]):
        r = norm(t.args[0], memo)
    elif t.op == "call" and call_name(t) in ("copy.copy", "copy.deepcopy", "numpy.copy") and len(t.args[1]) == 1:
        r = norm(t.args[1][0], memo)
    elif t.op == "rnew":
        r = mk("rnew", t.args[0], 0, norm(t.args[2], memo), norm(t.args[3], memo))
    else:
        args = norm(t.args, memo)
        r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
        if r.op == "item" and r.args[0] is META and r.args[1].op not in ("attr", "comp") and contains(r.args[1], mk("attr", META, "columns")):
            r = META  # the same rows with the columns in another order
    memo[t] = r
    return r


def linear(t):
    """{atom: coefficient} of sums and differences"""
    if t.op == "+" or t.op == "-":
        a, b = linear(t.args[0]), linear(t.args[1])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t.op == "+" else -v)
        return {k: v for k, v in r.items() if v}
    if t.op in ("neg", "usub"):
        return {k: -v for k, v in linear(t.args[0]).items()}
    if t.op == "*":
        for a, b in (t.args, t.args[::-1]):
            if is_num(a):
                return {k: v * cval(a) for k, v in linear(b).items()}
    return {t: 1}


def at(x, i):
    return mk("item", x, const(i))


def extended(t):
    """x, when t is x with one more point at the distance of the last two; otherwise None"""
    a = None
    if t.op == "call" and call_name(t) == "numpy.concatenate" and len(t.args[1]) == 1 and t.args[1][0].op in ("tuple", "list") and len(t.args[1][0].args) == 2:
        a, b = t.args[1][0].args
    elif t.op == "call" and call_name(t) in ("numpy.append", "numpy.hstack") and not t.args[2]:
        x = t.args[1]
        if call_name(t) == "numpy.hstack" and len(x) == 1 and x[0].op in ("tuple", "list"):
            x = x[0].args
        if len(x) == 2:
            a, b = x
    if a is None:
        return None
    if b.op == "call" and call_name(b) in ("numpy.array", "numpy.asarray") and len(b.args[1]) == 1:
        b = b.args[1][0]
    if b.op in ("list", "tuple") and len(b.args) == 1:
        b = b.args[0]
    if linear(b) == {at(a, -1): 2, at(a, -2): -1}:
        return a
    return None


def each_of(t):
    """(key, group) of an iteration over groups"""
    e = mk("elem", t)
    return {at(e, 0), mk("key", t)}, {at(e, 1), mk("val", t)}


def loops_of(o):
    return [e for e in o.events if e.kind == "loop"]


def grouped(it, over, column):
    """Does this iterate over the groups of the frame by this column?"""
    m = method(it)
    if not m or m[1] != "groupby" or norm(m[0]) is not over:
        return False
    by = m[2][0] if m[2] else dict(m[3]).get("by")
    if by is None:
        return False
    if by.op == "list" and len(by.args) == 1:
        by = by.args[0]
    return by is const(column)


# ---------------------------------------------------------------------- D08
def d08(ctx):
    Q = S + ".interpolate"
    ctx.guard("D08.run", Q, _d08, ctx, Q)


def op_core(q):
    return core(q) or q == GUESS


def _d08(ctx, Q):
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    outs = ctx.run(Q, opaque=op_core, volatile=VOL)
    for o in outs:
        if o.kind == "raise":
            fails(ctx, "D08.run", Q, o, "interpolating fails", loc)
            continue
        ctx.holds("D08.run", Q)
        ctx.guard("D08.types", Q, _types, ctx, Q, o, loc)
        ctx.guard("D08.groups", Q, _groups, ctx, Q, f, o, loc)
        ctx.guard("D08.times", Q, _times, ctx, Q, f, o, loc)


def _types(ctx, Q, o, loc):
    """Types which are given are kept, others are guessed from name and unit of the series"""
    groups = [i for i, e in enumerate(o.events) if e.kind == "loop" and grouped(e.a[0], META, "parameter_type")]
    if len(groups) != 1:
        raise Unknown("%d iterations over the types" % len(groups))
    sets = [e for e in o.events[:groups[0]] if e.kind == "setitem" and norm(e.a[0]) is META and e.a[1] is const("parameter_type")]
    had = implied(o, mk("in", const("parameter_type"), META))
    for a, x in o.order:
        if norm(a) is mk("in", const("parameter_type"), META) or norm(a) is mk("in", const("parameter_type"), mk("attr", META, "columns")):
            had = x
    if not sets:
        ctx.bad("D08.types", Q, "missing types are not guessed (%s)" % desc(o), loc)
        return
    v = sets[-1].a[2]
    v = norm(strip_copy(v))
    if v.op == "call" and call_name(v) == "pandas.Series" and v.args[1]:
        v = v.args[1][0]
    m = method(v)
    if m and m[1] == "apply" and m[0] is META and m[2] and m[2][0].op == "lam" and dict(m[3]).get("axis") in (const(1), const("columns")):
        cases = [(tuple(c), b) for c, b in m[2][0].args[1]]
        row = mk("sym", "$0")
        row = next((x for x in walk(m[2][0]) if x.op == "sym" and x.args[0] == "$0"), row)
    elif v.op == "comp":
        src = v.args[0]
        m = method(src)
        e = mk("elem", src)
        if m and m[0] is META and m[1] == "iterrows":
            row = at(e, 1)
        elif m and m[0] is META and m[1] == "itertuples":
            row = e
        else:
            raise Unknown("types %s" % show(v)[:150])
        cases = []
        for c, b in v.args[1]:
            if not isinstance(b, tuple):
                b = (b,)
            if len(b) != 1:
                ctx.bad("D08.types", Q, "a series gets %d types" % len(b), loc)
                return
            cases.append((tuple(c), b[0]))
    else:
        raise Unknown("types %s" % show(v)[:150])

    def field(n):
        return (mk("attr", row, n), mk("item", row, const(n)))

    given = field("parameter_type")
    avg = {norm(mk("eq", rc(GUESS, a, b), mk("enum", PTYPE, t))): t == "AVERAGE_TIMESERIES" for a in field("variable") for b in field("unit") for t in ("AVERAGE_TIMESERIES", "POINT_TIMESERIES")}
    for conds, b in cases:
        missing = is_avg = text = None
        for a, x in conds:
            if a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) in ("pandas.isnull", "pandas.isna") and a.args[0].args[1][0] in given:
                missing = x
            elif a.op == "truth" and a.args[0].op == "call" and call_name(a.args[0]) in ("pandas.notnull", "pandas.notna") and a.args[0].args[1][0] in given:
                missing = not x
            elif a.op == "isnone" and a.args[0] in given:
                ctx.bad("D08.types", Q, "types which are missing as not-a-number are not guessed", loc)
                return
            elif norm(a) in avg:
                is_avg = x == avg[norm(a)]
            elif a.op == "eq" and any(y in given for y in a.args) and any(is_const(y) for y in a.args):
                if x:
                    text = next(y for y in a.args if is_const(y))
            elif a.op == "eq" and any(y.op == "rcall" and y.args[0] == GUESS for y in walk(a)):
                g = next(y for y in walk(a) if y.op == "rcall" and y.args[0] == GUESS)
                if all(y in field("variable") + field("unit") or is_const(y) or y in [z for n in ("model", "scenario", "region") for z in field(n)] for y in g.args[1]):
                    ctx.bad("D08.types", Q, "types are guessed from %s" % show(g)[:150], loc)
                    return
                raise Unknown("types %s" % show(a)[:150])
            elif contains(a, lambda y: y.op == "mcall" and y.args[1] in ("all", "any")) and missing is None:
                ctx.bad("D08.types", Q, "types depend on whether all or any series have one: %s" % show(a)[:150], loc)
                return
            else:
                raise Unknown("types depend on %s" % show(a)[:150])
        if text is not None and (b is text or b in given) and missing is not True:
            ctx.holds("D08.types", Q)
        elif missing is None:
            if b in given:
                raise Unknown("types %s" % show(b)[:100])
            ctx.bad("D08.types", Q, "types which are given are not kept", loc)
        elif not missing:
            if b in given:
                ctx.holds("D08.types", Q)
            elif is_const(b) or b.op == "rcall" or is_avg is not None:
                ctx.bad("D08.types", Q, "a given type becomes %s" % show(b)[:100], loc)
            else:
                raise Unknown("types %s" % show(b)[:100])
        elif b.op == "rcall" and b.args[0] == GUESS:
            raise Unknown("types %s" % show(b)[:100])
        elif b in given:
            ctx.bad("D08.types", Q, "missing types are not guessed", loc)
        elif is_avg is None:
            if is_const(b):
                ctx.bad("D08.types", Q, "a missing type becomes %s" % show(b)[:100], loc)
            else:
                raise Unknown("types %s" % show(b)[:100])
        elif type_name(b) is None:
            raise Unknown("types %s" % show(b)[:100])
        elif type_name(b) != is_avg:
            ctx.bad("D08.types", Q, "a series guessed as %s is taken as %s" % ("average" if is_avg else "point", show(b)), loc)
        else:
            ctx.holds("D08.types", Q)
    if len(cases) < 2:
        ctx.bad("D08.types", Q, "given and missing types are not told apart", loc)


def type_name(b):
    """Is this a label of averages?  None: unknown"""
    if b is const("average") or b == mk("enum", PTYPE, "AVERAGE_TIMESERIES"):
        return True
    if b is const("point") or b == mk("enum", PTYPE, "POINT_TIMESERIES"):
        return False
    return None


def target_array(f, ctx):
    return param(ctx, f, 1)


def is_target(t, target):
    """The requested times as array of seconds"""
    x = t
    while True:
        if x is target:
            break
        if x.op == "call" and call_name(x) in ("numpy.asarray", "numpy.array") and x.args[1]:
            x = x.args[1][0]
        elif method(x) and method(x)[1] == "astype":
            x = method(x)[0]
        else:
            return False
    kinds = [dict(call_kw(y)).get("dtype") or (y.args[1][1] if y.op == "call" and len(y.args[1]) > 1 else None) or (method(y)[2][0] if method(y) and method(y)[2] else None) for y in walk(t) if y.op in ("call", "mcall")]
    return any(k is not None and "datetime64[s]" in show(k) for k in kinds)


def _groups(ctx, Q, f, o, loc):
    target = target_array(f, ctx)
    interp, extrap = param(ctx, f, 2), param(ctx, f, 3)
    i = next((k for k, e in enumerate(o.events) if e.kind == "loop" and grouped(e.a[0], META, "parameter_type")), None)
    if i is None:
        raise Unknown("no iteration over the types")
    ev = o.events[i]
    it = ev.a[0]
    keys, groups = each_of(norm(it))
    new = [e for e in o.events[:i] if e.kind == "setattr" and norm(e.a[0]) is ME and e.a[1] == "_data"]
    if len(new) != 1:
        raise Unknown("%d new data frames" % len(new))
    store = new[0].a[2]
    kinds = set()
    for conds, evs in ev.a[1]:
        avg = None
        for a, x in conds:
            a = norm(a)
            r = type_test(a, keys)
            if r is not None:
                avg = x == r
            elif any(e.kind == "loop" for e in evs) and not contains(a, lambda y: y in groups):
                raise Unknown("condition %s" % show(a)[:150])
            else:
                raise Unknown("condition %s" % show(a)[:150])
        flat = list(flat_events(evs))
        if any(e.kind == "raise" for e in flat):
            ctx.bad("D08.groups", Q, "a group of series is rejected", loc)
            continue
        made = [e.a[0] for e in flat if e.kind == "rnew" and e.a[0].args[0] == CONV]
        if len(made) != 1:
            if made:
                raise Unknown("%d converters" % len(made))
            if not any(e.kind == "setitem" for e in flat):
                ctx.bad("D08.groups", Q, "the series of a group are not converted (%s)" % [show(a)[:80] for a, _ in conds], loc)
                continue
            raise Unknown("no converter")
        conv = made[0]
        args = [norm(x) if x is not None else None for x in ctor_args(ctx, conv)]
        for side, t in (("source", args[0]), ("target", args[1])):
            if t is None:
                raise Unknown("times are missing")
            base = extended(t)
            ext_ = base is not None
            base = base if ext_ else t
            if contains(t, lambda y: y.op == "lv"):
                ctx.bad("D08.groups", Q, "the %s times depend on the groups before (%s)" % (side, show(t)[:120]), loc)
                continue
            own = is_times(base) if side == "source" else is_target(base, target)
            other = is_target(base, target) if side == "source" else is_times(base)
            if not own:
                if other:
                    ctx.bad("D08.groups", Q, "the %s times are the %s" % (side, "requested ones" if side == "source" else "ones of the data"), loc)
                    continue
                if understood(t, [mk("call", ext("numpy.concatenate"), (mk("tuple", TIMES, mk("list", mk("+", at(TIMES, -1), mk("-", at(TIMES, -1), at(TIMES, -2))))),), ()),
                                  rc(TP + ".values", TIMES), mk("call", ext("numpy.asarray"), (target,), (("dtype", const("datetime64[s]")),))]):
                    ctx.bad("D08.groups", Q, "the %s times of %s series are %s" % (side, "average" if avg else "point", show(t)[:200]), loc)
                    continue
                raise Unknown("%s times %s" % (side, show(t)[:200]))
            if avg is None:
                raise Unknown("type of the group")
            if ext_ != avg:
                ctx.bad("D08.groups", Q, "the %s times of %s series are %s the end of the last interval" % (side, "average" if avg else "point", "with" if ext_ else "without"), loc)
            else:
                ctx.holds("D08.groups", Q)
        kind = args[2]
        if kind is None or not (is_type(kind, keys) or type_name(kind) is not None and kind.op == "enum"):
            raise Unknown("type %s" % (show(kind)[:100] if kind is not None else None))
        if kind.op == "enum" and type_name(kind) != avg:
            ctx.bad("D08.groups", Q, "%s series are converted as %s" % ("average" if avg else "point", show(kind)), loc)
        else:
            ctx.holds("D08.groups", Q)
        for k, want, cls, name in ((3, interp, ITYPE, "interpolation"), (4, extrap, ETYPE, "extrapolation")):
            g = args[k]
            if g is None:
                ctx.bad("D08.options", Q, "the kind of %s is not passed on" % name, loc)
            elif g is want or g.op == "rcall" and g.args[0] == cls + ".from_%s_type" % name and g.args[1][-1] is want:
                if g is want:
                    raise Unknown("%s given as text" % name)
                ctx.holds("D08.options", Q)
            elif is_const(g) or g.op == "enum" or contains(g, interp) or contains(g, extrap):
                ctx.bad("D08.options", Q, "the kind of %s is %s" % (name, show(g)[:120]), loc)
            else:
                raise Unknown("%s %s" % (name, show(g)[:100]))
        ctx.guard("D08.values", Q, _values, ctx, Q, flat, conv, store, groups, target, loc)
        ctx.guard("D08.label", Q, _label, ctx, Q, flat, o.events[i + 1:], avg, groups, keys, loc)
        kinds.add(avg)
    if kinds != {True, False}:
        raise Unknown("types %s" % kinds)


def flat_events(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for _, x in e.a[1]:
                for y in flat_events(x):
                    yield y


def is_type(t, keys):
    return t.op == "rcall" and t.args[0] == PTYPE + ".from_timeseries_type" and t.args[1][-1] in keys


def type_test(a, keys):
    """True / False: being true means average / point"""
    if a.op == "eq":
        for x, y in (a.args, a.args[::-1]):
            if is_type(x, keys) and type_name(y) is not None and y.op == "enum":
                return type_name(y)
            if x in keys and y.op == "const":
                raise Wrong("types are compared as text, %s only" % show(y))
    return None


def is_times(t):
    """Time points of the data frame itself"""
    t = norm(t)
    while t.op == "call" and call_name(t) in ("numpy.asarray", "numpy.array") and len(t.args[1]) == 1 and not t.args[2]:
        t = t.args[1][0]
    return t.op == "rcall" and t.args[0] == TP + ".values" and t.args[1] == (TIMES,) or t == mk("attr", TIMES, "values") or t == mk("attr", TIMES, "_values")


def columns_of(t, frame, groups):
    """Is it the part of the frame with the series of the group?"""
    t = norm(t)
    if t.op != "item":
        return None
    idx, src = t.args[1], t.args[0]
    if src.op == "attr" and src.args[1] == "loc":
        src = src.args[0]
        if idx.op == "tuple" and len(idx.args) == 2 and idx.args[0].op == "slice":
            idx = idx.args[1]
    if src is not frame:
        return None
    if idx.op == "attr" and idx.args[1] == "index" and idx.args[0] in groups:
        return True
    return False


def _values(ctx, Q, flat, conv, store, groups, target, loc):
    sets = [e for e in flat if e.kind == "setitem" and (e.a[0] is store or norm(e.a[0]) is DATA or norm(e.a[0]) == mk("attr", store, "loc") or norm(e.a[0]) is norm(store))]
    if not sets:
        ctx.bad("D08.values", Q, "the converted values of a group are not stored", loc)
        return
    if len(sets) > 1:
        raise Unknown("%d stores" % len(sets))
    e = sets[0]
    key = norm(e.a[1])
    if key.op == "tuple" and len(key.args) == 2:
        key = key.args[1]
    if not (key.op == "attr" and key.args[1] == "index" and key.args[0] in groups):
        if not any(contains(key, g) for g in groups) and understood(key, [mk("attr", DATA, "columns")]):
            ctx.bad("D08.values", Q, "the values of one group are stored for %s" % show(key)[:120], loc)
            return
        raise Unknown("stored for %s" % show(key)[:120])
    v = e.a[2]
    m = method(v)
    if not m or m[1] not in ("apply", "transform") or not m[2] or m[2][0].op != "lam":
        raise Unknown("values %s" % show(v)[:150])
    c = columns_of(m[0], DATA, groups)
    if not c:
        if norm(m[0]) is DATA:
            ctx.bad("D08.values", Q, "all series are converted with the settings of one group", loc)
            return
        raise Unknown("values of %s" % show(m[0])[:150])
    cases = m[2][0].args[1]
    if len(cases) != 1 or cases[0][0]:
        raise Unknown("function %s" % show(m[2][0])[:150])
    b = cases[0][1]
    idx = None
    if b.op == "call" and call_name(b) == "pandas.Series":
        idx = dict(b.args[2]).get("index") or (b.args[1][1] if len(b.args[1]) > 1 else None)
        b = b.args[1][0] if b.args[1] else dict(b.args[2]).get("data")
    if b.op != "rcall" or b.args[0].rsplit(".", 1)[0] != CONV:
        raise Unknown("values %s" % show(b)[:150])
    if b.args[0] != CONV + ".convert_from":
        ctx.bad("D08.values", Q, "values are converted by %s" % b.args[0].rsplit(".", 1)[1], loc)
        return
    if b.args[1][0] is not conv:
        ctx.bad("D08.values", Q, "values are converted by the converter of another group", loc)
        return
    x = strip_copy(b.args[1][1])
    if x.op == "attr" and x.args[1] in ("values", "_values"):
        x = x.args[0]
    if not (x.op == "sym" and x.args[0] == "$0"):
        raise Unknown("values %s" % show(b)[:150])
    if idx is not None and not contains(idx, target):
        raise Unknown("index %s" % show(idx)[:150])
    ctx.holds("D08.values", Q)


def _label(ctx, Q, flat, later, avg, groups, keys, loc):
    """The type which was used is stated"""
    labels = [e for e in flat if e.kind == "setitem" and "_meta" in show(e.a[0])]
    if not labels:
        if any(e.kind in ("setitem", "setattr") and "parameter_type" in show(e.a[2]) for e in later):
            raise Unknown("types are stated later")
        ctx.bad("D08.label", Q, "the type used is not stated in the metadata", loc)
        return
    if len(labels) > 1:
        raise Unknown("%d labels" % len(labels))
    e = labels[0]
    obj, key, v = norm(e.a[0]), norm(e.a[1]), norm(e.a[2])
    if obj is META and key is const("parameter_type") and (type_name(v) is not None or v in keys):
        ctx.bad("D08.label", Q, "all series are labelled with the type of one group", loc)
        return
    if obj != mk("attr", META, "loc"):
        raise Unknown("label %s" % show(obj)[:100])
    col = None
    if key.op == "tuple" and len(key.args) == 2:
        key, col = key.args
        if col.op == "list" and len(col.args) == 1:
            col = col.args[0]
    if not (key.op == "attr" and key.args[1] == "index" and key.args[0] in groups):
        raise Unknown("label of %s" % show(key)[:100])
    if col is None:
        m = method(v)
        if not m or m[1] != "assign" or m[0] != mk("item", mk("attr", META, "loc"), key) or m[2] or [k for k, _ in m[3]] != ["parameter_type"]:
            raise Unknown("label %s" % show(v)[:150])
        v = dict(m[3])["parameter_type"]
    elif col is not const("parameter_type"):
        raise Unknown("label %s" % show(col)[:100])
    if v in keys:
        raise Unknown("label %s" % show(v)[:100])
    if type_name(v) is None or v.op == "enum":
        raise Unknown("label %s" % show(v)[:100])
    if avg is None:
        raise Unknown("type of the group")
    if type_name(v) != avg:
        ctx.bad("D08.label", Q, "%s series are labelled %s" % ("average" if avg else "point", show(v)), loc)
    else:
        ctx.holds("D08.label", Q)


def _times(ctx, Q, f, o, loc):
    """The result has the requested time points"""
    target = target_array(f, ctx)
    obj = o.value
    sets = [e for e in o.flat() if e.kind == "setattr" and e.a[0] is obj and e.a[1] == "_time_points"]
    if obj.op == "sym" or norm(obj) is not ME:
        raise Unknown("result %s" % show(obj)[:100])
    if not sets:
        ctx.bad("D08.times", Q, "the result keeps the time points of the data", loc)
        return
    tp = sets[-1].a[2]
    if tp.op != "rnew" or tp.args[0] != TP:
        raise Unknown("time points %s" % show(tp)[:120])
    x = ctor_args(ctx, tp)[0]
    while x.op == "call" and call_name(x) == "pandas.Index" and x.args[1]:
        x = x.args[1][0]
    x = norm(x)
    if is_target(x, target) or x is target:
        ctx.holds("D08.times", Q)
    elif contains(x, target) and extended_part(x):
        ctx.bad("D08.times", Q, "the result has the time points %s" % show(x)[:150], loc)
    elif not contains(x, target) and contains(x, ME):
        ctx.bad("D08.times", Q, "the result keeps the time points of the data", loc)
    else:
        raise Unknown("time points %s" % show(x)[:150])


def extended_part(x):
    return any(y.op in ("slice", "slice3") or y.op == "call" and call_name(y) in ("numpy.concatenate", "numpy.append", "numpy.unique", "numpy.sort", "builtins.sorted") for y in walk(x))


# ---------------------------------------------------------------------- D13
FILTER = S + ".filter"


def d13(ctx):
    Q = S + ".convert_unit"
    ctx.guard("D13.run", Q, _d13, ctx, Q)


def filt_core(q):
    return core(q) or q in (FILTER, S + "._apply_filters")


def group_index(key, groups):
    """True: the series of the group, False: certainly not, None: unknown"""
    key = norm(key)
    if key.op == "attr" and key.args[1] == "index":
        if key.args[0] in groups:
            return True
        if any(contains(key.args[0], x) for x in groups):
            return None
        if key.args[0] in (META, DATA) or key.args[0].op == "attr" and key.args[0].args[1] == "_meta":
            return False
    if key.op == "attr" and key.args[1] == "columns" and key.args[0] is DATA:
        return False
    if key.op == "slice" and all(x.op == "const" and cval(x) is None for x in key.args):
        return False
    return None


def meta_labels(flat, groups):
    """[(index, column, value)] of what is stored to the metadata"""
    r, earlier = [], []
    for e in flat:
        if e.kind != "setitem":
            continue
        obj, key, v = norm(e.a[0]), norm(e.a[1]), norm(e.a[2])
        if obj is META:
            if is_str(key):
                r.append((False, cval(key), v))
            else:
                raise Unknown("stored to the metadata: %s" % show(key)[:100])
            continue
        if obj.op == "attr" and obj.args[0] is META and obj.args[1] in ("loc", "at"):
            col = None
            if key.op == "tuple" and len(key.args) == 2:
                key, col = key.args
            g = group_index(key, groups)
            if g is None:
                raise Unknown("stored to the metadata of %s" % show(key)[:100])
            if col is None:
                m = method(v)
                if m and m[1] == "assign" and not m[2] and method(m[0]) and method(m[0])[1] == "assign" and r and show(m[0]) in [show(x) for x in earlier]:
                    # what was stored before, with further columns
                    earlier.append(v)
                    r.extend((g, k, x) for k, x in m[3])
                    continue
                earlier.append(v)
                if not m or m[1] != "assign" or m[2] or m[0].op != "item" or m[0].args[0] != mk("attr", META, "loc") or m[0].args[1] is not key:
                    raise Unknown("stored to the metadata: %s" % show(v)[:150])
                for k, x in m[3]:
                    r.append((g, k, x))
            elif is_str(col):
                r.append((g, cval(col), v))
            elif col.op == "list" and all(is_str(x) for x in col.args) and v.op in ("list", "tuple") and len(v.args) == len(col.args):
                for c, x in zip(col.args, v.args):
                    r.append((g, cval(c), x))
            else:
                raise Unknown("stored to the metadata: %s" % show(col)[:100])
        elif contains(obj, META) and obj.op != "elem":
            raise Unknown("stored to %s" % show(obj)[:100])
    return r


def _d13(ctx, Q):
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    unit, context = param(ctx, f, 1), named_param(ctx, f, "context")
    kwargs = f.node.args.kwarg
    outs = ctx.run(Q, opaque=filt_core, volatile=VOL)
    for o in outs:
        if o.kind == "raise":
            fails(ctx, "D13.run", Q, o, "converting fails", loc)
            continue
        ctx.holds("D13.run", Q)
        ctx.guard("D13.convert", Q, _convert, ctx, Q, o, unit, context, kwargs.arg if kwargs else None, loc)


def _convert(ctx, Q, o, unit, context, kwargs, loc):
    loops = [e for e in o.events if e.kind == "loop" and method(e.a[0]) and method(e.a[0])[1] == "groupby"]
    if len(loops) != 1:
        raise Unknown("%d iterations over groups" % len(loops))
    i = o.events.index(loops[0])
    it = norm(loops[0].a[0])
    m = method(it)
    frame = m[0].args[0] if m[0].op == "attr" and m[0].args[1] == "_meta" else None
    if not grouped(it, m[0], "unit") or frame is None:
        raise Unknown("groups %s" % show(it)[:150])
    if frame is ME:
        ctx.bad("D13.selection", Q, "all series are converted, not only the selected ones", loc)
        return
    if frame.op != "rcall" or frame.args[0] != FILTER or frame.args[1][0] is not ME:
        raise Unknown("selected series %s" % show(frame)[:150])
    kw = dict(frame.args[2])
    star = kw.pop("**", None)
    if star is None or star.op != "sym" or star.args[0] != kwargs:
        ctx.bad("D13.selection", Q, "the selection is not passed on (%s)" % show(frame)[:150], loc)
    elif len(frame.args[1]) > 1 or kw and set(kw) != {"keep"} or kw.get("keep", TRUE) is not TRUE:
        ctx.bad("D13.selection", Q, "the selection is changed (%s)" % show(frame)[:150], loc)
    else:
        ctx.holds("D13.selection", Q)
    keys, groups = each_of(it)
    # before: only the missing column for the context
    had = None
    for a, x in o.order:
        a = norm(a)
        if a.op == "in" and a.args[0] is const("unit_context") and a.args[1] in (META, mk("attr", META, "columns")):
            had = x
    before = meta_labels(o.events[:i], groups)
    for g, c, v in before:
        if c != "unit_context" or had:
            ctx.bad("D13.others", Q, "the column %s of all series is changed" % c, loc)
        elif had is None:
            if any(contains(a, const("unit_context")) for a, _ in o.order):
                raise Unknown("column unit_context")
            ctx.bad("D13.others", Q, "the context of all series is reset", loc)
        elif v.op != "const" or cval(v) is not None and cval(v) == cval(v):
            ctx.bad("D13.others", Q, "all series get the context %s" % show(v)[:80], loc)
        else:
            ctx.holds("D13.others", Q)
    after = [e for e in o.events[i + 1:] if e.kind in ("setitem", "delitem", "mutcall")]
    if any(contains(norm(e.a[0]), DATA) or contains(norm(e.a[0]), META) for e in after):
        for g, c, v in meta_labels(after, groups):
            if not g:
                ctx.bad("D13.others", Q, "the column %s of all series is changed" % c, loc)
        if any(contains(norm(e.a[0]), DATA) for e in after):
            raise Unknown("data changed after the conversion")
    for conds, evs in loops[0].a[1]:
        flat = list(flat_events(evs))
        if any(e.kind == "raise" for e in flat):
            continue
        made = [e.a[0] for e in flat if e.kind == "rnew" and e.a[0].args[0] == UC]
        sets = [e for e in flat if e.kind == "setitem" and norm(e.a[0]) in (DATA, mk("attr", DATA, "loc"))]
        labels = meta_labels(flat, groups)
        if conds and not sets and not labels:
            raise Unknown("some groups are left out: %s" % [show(a)[:100] for a, _ in conds])
        if len(made) != 1:
            raise Unknown("%d converters" % len(made))
        uc = made[0]
        a = [norm(x) if x is not None else None for x in ctor_args(ctx, uc)][:3] + [None] * 3
        if a[0] not in keys:
            if a[0] is None or a[0] is unit or contains(a[0], META) or a[0].op == "lv" or contains(a[0], m[0]) and not any(contains(a[0], x) for x in groups):
                ctx.bad("D13.units", Q, "series are converted from %s instead of their own unit" % show(a[0])[:120], loc)
            else:
                raise Unknown("unit %s" % show(a[0])[:120])
        elif a[1] is not unit:
            if a[1] in keys or a[1] is None or is_const(a[1]):
                ctx.bad("D13.units", Q, "series are converted to %s" % show(a[1])[:120], loc)
            else:
                raise Unknown("unit %s" % show(a[1])[:120])
        elif a[2] is not context:
            if a[2] is None or is_const(a[2]) or a[2] is unit or a[2] in keys or a[2].op == "item" and a[2].args[0] in (META, mk("attr", META, "loc")):
                ctx.bad("D13.units", Q, "series are converted without the requested context (%s)" % (show(a[2])[:80] if a[2] is not None else "missing"), loc)
            else:
                raise Unknown("context %s" % show(a[2])[:120])
        else:
            ctx.holds("D13.units", Q)
        # data
        if not sets:
            if any(e.kind == "setitem" for e in flat if contains(norm(e.a[0]), DATA)):
                raise Unknown("stored data")
            ctx.bad("D13.data", Q, "the data of a group is not converted", loc)
        for e in sets:
            ctx.guard("D13.data", Q, _converted, ctx, Q, e, uc, groups, loc)
        # labels
        want = {"unit": unit, "unit_context": context}
        for g, c, v in labels:
            if not g:
                ctx.bad("D13.labels", Q, "the column %s of all series is changed" % c, loc)
            elif c not in want:
                ctx.bad("D13.labels", Q, "the column %s is changed" % c, loc)
            elif v is not want[c]:
                if is_const(v) or v in keys or v in want.values() or v.op == "item" and v.args[0] is META:
                    ctx.bad("D13.labels", Q, "%s becomes %s" % (c, show(v)[:80]), loc)
                else:
                    raise Unknown("%s %s" % (c, show(v)[:80]))
            else:
                ctx.holds("D13.labels", Q)
        for c in set(want) - {c for _, c, _ in labels}:
            ctx.bad("D13.labels", Q, "the column %s is not changed with the data" % c, loc)


def _converted(ctx, Q, e, uc, groups, loc):
    key = norm(e.a[1])
    if key.op == "tuple" and len(key.args) == 2 and key.args[0].op == "slice":
        key = key.args[1]
    g = group_index(key, groups)
    if g is False:
        ctx.bad("D13.data", Q, "the data of all series is changed", loc)
        return
    if g is None:
        if key.op in ("slice", "slice3", "item") and group_index(key.args[0], groups):
            ctx.bad("D13.data", Q, "the data of only some series of a group is changed: %s" % show(key)[:120], loc)
            return
        raise Unknown("stored for %s" % show(key)[:120])
    v = e.a[2]
    m = method(v)
    if m and m[1] in ("apply", "transform", "applymap") and m[2] and m[2][0].op == "lam":
        src, cases = m[0], m[2][0].args[1]
        if len(cases) != 1 or cases[0][0]:
            raise Unknown("function %s" % show(m[2][0])[:150])
        b = cases[0][1]
        ok = lambda x: x.op == "sym" and x.args[0] == "$0"
    else:
        b = v
        src = b.args[1][1] if b.op == "rcall" and len(b.args[1]) > 1 else None
        ok = lambda x: x is src
    if b.op != "rcall" or not b.args[0].startswith(UC + "."):
        raise Unknown("values %s" % show(b)[:150])
    if b.args[0] != UC + ".convert_from":
        ctx.bad("D13.data", Q, "values are converted by %s" % b.args[0].rsplit(".", 1)[1], loc)
        return
    if b.args[1][0] is not uc:
        raise Unknown("converter %s" % show(b.args[1][0])[:100])
    if not ok(b.args[1][1]):
        raise Unknown("values %s" % show(b)[:150])
    c = columns_of(src, DATA, groups)
    if c is None:
        raise Unknown("values of %s" % show(src)[:150])
    if not c:
        ctx.bad("D13.data", Q, "values of other series are stored (%s)" % show(src)[:120], loc)
        return
    ctx.holds("D13.data", Q)


# ---------------------------------------------------------------------- D14
SERIES = S + ".timeseries"


def frame_core(q):
    return filt_core(q) or q == SERIES


def d14(ctx):
    ctx.guard("D14.statistic", S + ".process_over", _process, ctx, S + ".process_over")
    ctx.guard("D14.reference", S + ".relative_to_ref_period_mean", _relative, ctx, S + ".relative_to_ref_period_mean")


def fits(o, sym, text):
    """Is the path taken for this text?"""
    for a, x in o.order:
        if contains(a, sym):
            if value(_sub(a, {sym: const(text)})) != x:
                return False
    return True


def is_series(t, of=ME):
    t = norm(t)
    return t.op == "rcall" and t.args[0] == SERIES and t.args[1] == (of,) and all(k in ("meta", "check_duplicated") and (k != "meta" or v is NONE) for k, v in t.args[2])


def _process(ctx, Q):
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    cols, op = param(ctx, f, 1), param(ctx, f, 2)
    kwargs = f.node.args.kwarg
    outs = ctx.run(Q, opaque=frame_core, volatile=VOL)
    for text in ("median", "mean", "quantile", "sum", "Mean", "", "std"):
        hits = [o for o in outs if fits(o, op, text)]
        if not hits:
            raise Unknown("statistic %s" % text)
        for o in hits:
            if text not in ("median", "mean", "quantile"):
                if o.kind == "raise" and o.exc() == "builtins.ValueError":
                    ctx.holds("D14.statistic", Q)
                else:
                    ctx.bad("D14.statistic", Q, "the statistic %r %s instead of raising ValueError" % (text, "raises %s" % o.exc() if o.kind == "raise" else "is accepted"), loc)
                continue
            if o.kind == "raise":
                fails(ctx, "D14.statistic", Q, o, "the statistic %s fails" % text, loc)
                continue
            v = norm(_sub(o.value, {op: const(text)}))
            g, name, pos, kw = applied(v)
            if name != text or pos:
                ctx.bad("D14.statistic", Q, "the statistic %s is computed by %s" % (text, name), loc)
            elif dict(kw).get("**") is None or dict(kw)["**"].op != "sym" or dict(kw)["**"].args[0] != (kwargs.arg if kwargs else None):
                ctx.bad("D14.statistic", Q, "the options are not passed to the statistic %s" % text, loc)
            elif len(kw) > 1:
                ctx.bad("D14.statistic", Q, "options of the statistic %s are overridden (%s)" % (text, show(kw)[:80]), loc)
            else:
                ctx.holds("D14.statistic", Q)
            ctx.guard("D14.groups", Q, _by, ctx, Q, o, g, cols, loc)


def applied(v):
    m = method(v)
    if m:
        return m
    if v.op == "call" and v.args[0].op == "call" and call_name(v.args[0]) == "builtins.getattr" and len(v.args[0].args[1]) == 2 and is_str(v.args[0].args[1][1]):
        return v.args[0].args[1][0], cval(v.args[0].args[1][1]), v.args[1], v.args[2]
    raise Unknown("result %s" % show(v)[:150])


def _by(ctx, Q, o, g, cols, loc):
    m = method(g)
    if not m or m[1] != "groupby":
        raise Unknown("groups %s" % show(g)[:150])
    if not is_series(m[0]):
        raise Unknown("series %s" % show(m[0])[:150])
    kw = dict(m[3])
    by = m[2][0] if m[2] else kw.get("by") or kw.get("level")
    if set(kw) - {"by", "level", "sort", "as_index", "observed", "dropna", "group_keys"} or len(m[2]) > 1 or by is None:
        raise Unknown("groups %s" % show(g)[:150])
    ctx.guard("D14.columns", Q, _columns, ctx, Q, o, by, m[0], cols, loc)
    if kw.get("dropna") is FALSE:
        ctx.holds("D14.missing", Q)
    else:
        ctx.bad("D14.missing", Q, "pandas leaves out series with missing metadata in one of the columns by which they are grouped", loc)


def is_names(t, ts):
    """The metadata columns"""
    t = strip_copy(t)
    if t.op == "call" and call_name(t) in ("builtins.set", "pandas.Index", "builtins.sorted") and len(t.args[1]) == 1:
        return is_names(t.args[1][0], ts)
    return t in (mk("attr", mk("attr", ts, "index"), "names"), mk("attr", META, "columns")) or method(t) is not None and method(t)[1] == "keys" and method(t)[0] is META


def _columns(ctx, Q, o, by, ts, cols, loc):
    single = implied(o, mk("isinst", cols, "builtins.str"))
    by = strip_copy(by)
    while by.op == "call" and call_name(by) in ("builtins.sorted", "builtins.list") and len(by.args[1]) == 1:
        by = strip_copy(by.args[1][0])
    left = None
    if by.op == "-":
        names, left = by.args
    elif method(by) and method(by)[1] == "difference" and len(method(by)[2]) == 1:
        names, left = method(by)[0], method(by)[2][0]
    elif by.op == "comp" and len(by.args[1]) == 1:
        names = by.args[0]
        conds, vals = by.args[1][0]
        e = mk("elem", names)
        if tuple(vals if isinstance(vals, tuple) else (vals,)) != (e,) or len(conds) != 1:
            raise Unknown("columns %s" % show(by)[:150])
        a, x = conds[0]
        if a.op != "in" or a.args[0] is not e:
            raise Unknown("columns %s" % show(by)[:150])
        if x:
            ctx.bad("D14.columns", Q, "series are grouped by the columns over which they are to be processed", loc)
            return
        left = a.args[1]
    elif by in (cols, mk("list", cols)):
        ctx.bad("D14.columns", Q, "series are grouped by the columns over which they are to be processed", loc)
        return
    else:
        raise Unknown("columns %s" % show(by)[:150])
    if not is_names(names, ts):
        n = strip_copy(names)
        while n.op == "call" and call_name(n) in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.frozenset", "builtins.sorted") and len(n.args[1]) == 1:
            n = strip_copy(n.args[1][0])
        if n.op in ("list", "tuple", "set") and all(is_str(x) for x in n.args):
            ctx.bad("D14.columns", Q, "series are grouped by these columns only, further ones are left out: %s" % show(n)[:120], loc)
            return
        raise Unknown("columns %s" % show(names)[:150])
    left = strip_copy(left)
    while left.op == "call" and call_name(left) in ("builtins.set", "builtins.list", "builtins.tuple") and len(left.args[1]) == 1:
        left = strip_copy(left.args[1][0])
    if left.op in ("list", "set", "tuple") and left.args == (cols,):
        if single:
            ctx.holds("D14.columns", Q)
        elif single is False:
            ctx.bad("D14.columns", Q, "a list of columns is taken as one column", loc)
        else:
            raise Unknown("columns %s" % show(left)[:100])
    elif left is cols:
        if single is False:
            ctx.holds("D14.columns", Q)
        else:
            ctx.bad("D14.columns", Q, "a single column name is taken as its letters (%s)" % desc(o), loc)
    else:
        raise Unknown("columns %s" % show(left)[:150])


def _relative(ctx, Q):
    f = ctx.p.need_function(Q)
    loc = ctx.loc(f)
    append = param(ctx, f, 1)
    kwargs = f.node.args.kwarg.arg
    outs = ctx.run(Q, opaque=frame_core, volatile=VOL)
    for o in outs:
        if o.kind == "raise":
            fails(ctx, "D14.reference", Q, o, "relating to a reference period fails", loc)
            continue
        ctx.guard("D14.reference", Q, _difference, ctx, Q, o, append, kwargs, loc)


def _difference(ctx, Q, o, append, kwargs, loc):
    diff = o.value
    while method(diff) and method(diff)[1] in ("set_index", "reset_index", "reorder_levels", "rename_axis", "copy"):
        diff = method(diff)[0]
    m = method(diff)
    if not m or m[1] not in ("sub", "subtract") or not m[2]:
        if m and m[1] in ("add", "div", "mul", "divide", "rsub"):
            ctx.bad("D14.reference", Q, "the result is %s" % show(diff)[:120], loc)
            return
        raise Unknown("result %s" % show(diff)[:150])
    kw = dict(m[3])
    axis = kw.get("axis") or (m[2][1] if len(m[2]) > 1 else const("columns"))
    if not is_series(m[0]):
        t = norm(m[0])
        if t.op == "rcall" and t.args[0] == SERIES and t.args[1] and t.args[1][0].op == "rcall" and t.args[1][0].args[0] == FILTER and t.args[1][0].args[1] == (ME,):
            ctx.bad("D14.reference", Q, "the difference is computed for a selection of the series only", loc)
            return
        raise Unknown("series %s" % show(m[0])[:150])
    if axis not in (const("rows"), const("index"), const(0)):
        ctx.bad("D14.reference", Q, "the mean is subtracted along %s" % show(axis), loc)
        return
    if set(kw) - {"axis"}:
        raise Unknown("difference %s" % show(kw)[:100])
    r = m[2][0]
    m = method(r)
    if not m:
        raise Unknown("mean %s" % show(r)[:150])
    if m[1] != "mean":
        if m[1] in ("median", "sum", "min", "max", "first", "std"):
            ctx.bad("D14.reference", Q, "the %s over the reference period is subtracted" % m[1], loc)
            return
        raise Unknown("mean %s" % show(r)[:150])
    kw = dict(m[3])
    axis = kw.get("axis") or (m[2][0] if m[2] else const(0))
    if axis not in (const("columns"), const(1)):
        ctx.bad("D14.reference", Q, "the mean is taken along %s" % show(axis), loc)
        return
    if set(kw) - {"axis"}:
        if kw.get("skipna", TRUE) is FALSE:
            ctx.bad("D14.reference", Q, "series with missing values in the reference period lose all their values", loc)
            return
        raise Unknown("mean %s" % show(r)[:150])
    t = norm(m[0])
    if t.op != "rcall" or t.args[0] != SERIES or len(t.args[1]) != 1:
        raise Unknown("mean of %s" % show(t)[:150])
    src = t.args[1][0]
    if src is ME:
        ctx.bad("D14.reference", Q, "the mean is not restricted to the reference period", loc)
        return
    if src.op != "rcall" or src.args[0] != FILTER or src.args[1] != (ME,):
        raise Unknown("mean of %s" % show(src)[:150])
    kw = dict(src.args[2])
    star = kw.pop("**", None)
    if star is None or star.op != "sym" or star.args[0] != kwargs or kw:
        ctx.bad("D14.reference", Q, "the reference period is not the requested one (%s)" % show(src)[:100], loc)
        return
    ctx.holds("D14.reference", Q)
    # names: only the variable
    named = False
    for e in o.flat():
        if e.kind != "setitem" or norm(e.a[0]) is not norm(diff):
            if e.kind == "setitem" and contains(e.a[0], diff):
                raise Unknown("stored to %s" % show(e.a[0])[:100])
            continue
        k, v = e.a[1], e.a[2]
        if k is not const("variable"):
            if is_const(k):
                ctx.bad("D14.name", Q, "%s is changed" % show(k), loc)
                continue
            raise Unknown("stored for %s" % show(k)[:100])
        named = True
        m = method(v)
        body = None
        if m and m[1] in ("apply", "map") and m[2] and m[2][0].op == "lam" and len(m[2][0].args[1]) == 1:
            body = m[2][0].args[1][0][1]
            me = next((x for x in walk(body) if x.op == "sym" and x.args[0] == "$0"), None)
        else:
            body, me = v, mk("item", e.a[0], const("variable"))
        given = implied(o, mk("isnone", append))
        if me is None or not contains(body, me):
            ctx.bad("D14.name", Q, "the variable is named %s" % show(body)[:120], loc)
        elif given is False and not contains(body, append):
            ctx.bad("D14.name", Q, "the requested text is not appended to the variable", loc)
        elif given is False and (body.op not in ("fmt", "+") or flat_text(body)[:1] != [me] or flat_text(body)[-1] is not append):
            raise Unknown("name %s" % show(body)[:120])
        elif given and not contains(body, lambda x: x.op == "sym" and x.args[0] == kwargs):
            ctx.bad("D14.name", Q, "the reference period is not appended to the variable", loc)
        else:
            ctx.holds("D14.name", Q)
    if not named:
        if any(method(y) and method(y)[1] in ("rename", "assign", "map", "set_levels") for y in walk(o.value)):
            raise Unknown("name of the variable")
        ctx.bad("D14.name", Q, "the variable is not renamed", loc)


def flat_text(t):
    if t.op == "fmt":
        return [y for x in t.args for y in flat_text(x)]
    if t.op == "+":
        return flat_text(t.args[0]) + flat_text(t.args[1])
    return [t]


RULES = {
    "D08": {"rules": [d08], "explain": "For every group of series: what the converter is made from, which columns it converts, where they are stored and how they are labelled; the function which decides the type of a series."},
    "D13": {"rules": [d13], "explain": "For every group of selected series: selection, converter, stored data and stored labels."},
    "D14": {"rules": [d14], "explain": "Result per statistic, columns of the grouping, and the difference to the mean over the reference period as value flow."},
}
