"""Rules about the values objects of timeseries views (C11)"""
from ..check import Unknown, implied
from .util import *
from .views import SERIES, TS, rw_opaque

NP = ("numpy.asarray", "numpy.array", "builtins.iter", ".copy", "builtins.len", "builtins.list", "builtins.tuple", "numpy.nditer")


def parts():
    me = self_of(TS)
    return me, attr(me, "_ndarray"), attr(me, "_parameter_view")


def verdict(ctx, rule, q, ok, got, wants, what, o, more=NP):
    """holds / violated if the value is built from known parts only / undecided"""
    if ok:
        ctx.holds(rule, q)
    elif understood(got, wants, more):
        ctx.bad(rule, q, "%s is %s: %s" % (what, show(got), desc(o)), ctx.loc(q))
    else:
        ctx.unk(rule, q, "%s is %s" % (what, show(got)))


def plain(t, buf):
    """The array itself, possibly as another array with the same values"""
    while True:
        n = call_name(t)
        if n in ("numpy.asarray", "numpy.array", "builtins.iter", "builtins.list", "builtins.tuple") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] == "copy" and not t.args[2]:
            t = t.args[0]
        else:
            return t is buf


def iteration(ctx):
    rule = "C11.iter"
    q = TS + ".__iter__"
    ctx.guard(rule, q, _iteration, ctx, rule, q)


def _iteration(ctx, rule, q):
    me, buf, view = parts()
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            continue
        if plain(o.value, buf) and call_name(o.value) == "builtins.iter":
            ctx.holds(rule, q)
            continue
        ys = [e for e in o.flat() if e.kind == "yield"]
        loops = [e for e in o.events if e.kind == "loop"]
        if not ys:
            if o.value is NONE and all(e.kind in ("enter", "leave", "rcall", "loop") for e in o.events):
                ctx.bad(rule, q, "nothing is iterated over: " + desc(o), ctx.loc(q))
            else:
                ctx.unk(rule, q, "iterator %s" % show(o.value))
            continue
        if len(loops) != 1 or any(e.kind == "yield" for e in o.events):
            ctx.unk(rule, q, "several loops")
            continue
        src, cases = loops[0].a[0], loops[0].a[1]
        inner = [(conds, [e for e in evs if e.kind == "yield"]) for conds, evs in cases]
        if src is not None and call_name(src) == "builtins.range" and src.args[1] == (mk("len", buf),):
            if len(inner) == 1 and not inner[0][0] and len(inner[0][1]) == 1:
                y = inner[0][1][0].a[0]
                it = mk("elem", src)
                good = y.op in ("sub", "item", "dget") and y.args[0] is buf and y.args[1] is it or y.op == "elem" and y.args[0] is buf
                verdict(ctx, rule, q, good, y, [mk(k, buf, mk("-", it, const(1))) for k in ("sub", "item", "dget")] + [mk("neg", it)], "the item", o)
            else:
                ctx.unk(rule, q, "loop over positions")
        elif src is None or not plain(src, buf):
            if src is not None:
                verdict(ctx, rule, q, False, src, [buf], "iteration", o)
            else:
                ctx.unk(rule, q, "loop")
        elif all(len(y) == 1 and y[0].a[0].op == "elem" and plain(y[0].a[0].args[0], buf) for _, y in inner) and len(cases) == len(loops[0].a[1]):
            # single case without conditions, or all cases give the item
            if len(inner) == 1 and inner[0][0]:
                ctx.bad(rule, q, "only some of the values are iterated over: " + desc(o), ctx.loc(q))
            else:
                ctx.holds(rule, q)
        elif any(not y for _, y in inner):
            ctx.bad(rule, q, "values are left out in iterations: " + desc(o), ctx.loc(q))
        else:
            for _, y in inner:
                verdict(ctx, rule, q, len(y) == 1 and y[0].a[0].op == "elem" and plain(y[0].a[0].args[0], buf), y[0].a[0], [mk("elem", buf)], "the item", o)


def items(ctx):
    rule = "C11.items"
    q = TS + ".__getitem__"
    ctx.guard(rule, q, _items, ctx, rule, q)


def _items(ctx, rule, q):
    me, buf, view = parts()
    f = ctx.p.need_function(q)
    item = param(ctx, f, 1)
    want = None
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            continue
        v = o.value
        if v.op == "new":
            b, w = o.heap.get((v, "_ndarray")), o.heap.get((v, "_parameter_view"))
            if w is not view:
                verdict(ctx, rule, q, False, w, [view], "the view of a part of the values", o)
                continue
            while b is not None and call_name(b) == "numpy.asarray":
                b = b.args[1][0]
            v = b
        good = v is not None and v.op in ("sub", "item", "dget") and v.args[0] is buf and v.args[1] is item
        if good and v is o.value and implied(o, mk("isinst", item, "builtins.int")) is False:
            kinds = [a.args[1] for a, w in o.order if w and a.op == "isinst" and a.args[0] is item]
            if not kinds or any(k in ("builtins.slice", "builtins.tuple", "builtins.list", "numpy.ndarray", "builtins.type(Ellipsis)") for k in kinds):
                ctx.bad(rule, q, "a part of the values is given as plain array, writes to which are lost: " + desc(o), ctx.loc(q))
                continue
            if not all(k in ("numpy.integer", "numbers.Integral", "numpy.int64", "numpy.int32", "numbers.Number") for k in kinds):
                ctx.unk(rule, q, "plain item: " + desc(o))
                continue
        if v is None:
            ctx.unk(rule, q, desc(o))
        else:
            verdict(ctx, rule, q, good, v, [mk("item", buf, item), mk("sub", buf, item), mk("dget", buf, item)], "an item", o)


def conversion(ctx):
    rule = "C11.array"
    q = TS + ".__array__"
    ctx.guard(rule, q, _conversion, ctx, rule, q)
    for name in ("__len__", "shape", "dtype", "nbytes"):
        ctx.guard(rule, TS + "." + name, _described, ctx, rule, TS + "." + name, name)


def _conversion(ctx, rule, q):
    me, buf, view = parts()
    f = ctx.p.need_function(q)
    dt = param(ctx, f, 1)
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            continue
        v = o.value
        if not plain(v, buf):
            verdict(ctx, rule, q, False, v, [buf], "the array", o)
            continue
        given = contains(v, dt) or implied(o, mk("isnone", dt)) is True
        if given:
            ctx.holds(rule, q)
        else:
            verdict(ctx, rule, q, False, v, [buf], "the array in the type asked for", o)


def _described(ctx, rule, q, name):
    me, buf, view = parts()
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            ctx.bad(rule, q, "fails with %s: %s" % (o.exc(), desc(o)), ctx.loc(q))
            continue
        v = o.value
        if name == "__len__":
            wants = [mk("len", buf), mk("len", "int", buf), attr(buf, "size")]
            ok = v.op == "len" and v.args[-1] is buf or v is attr(buf, "size") or v.op in ("sub", "item", "dget") and v.args[0] is attr(buf, "shape")
        else:
            wants = [attr(buf, name)]
            ok = v is wants[0]
            if v.op == "attr" and v.args[0] is buf and not ok:
                ctx.bad(rule, q, "%s is %s" % (name, show(v)), ctx.loc(q))
                continue
        verdict(ctx, rule, q, ok, v, wants, name, o)


def operators(ctx):
    rule = "C11.operators"
    q = TS + "._create_arithmetic_method"
    ctx.guard(rule, q, _operators, ctx, rule, q)


def _operators(ctx, rule, q):
    me, buf, view = parts()
    f = ctx.p.need_function(q)
    outs = ctx.run(q, opaque=rw_opaque)
    op = param(ctx, f, 1)
    for o in outs:
        if o.kind != "return" or o.value.op != "func":
            raise Unknown("operators")
        other = mk("sym", "other", ("any",))
        for x in again(o, o.value.args[0], [me, other]):
            if x.kind != "return":
                continue
            is_ts = implied(x, mk("isinst", other, TS))
            t = x.value
            if t.op != "call" or t.args[0] is not op or len(t.args[1]) != 2:
                ctx.unk(rule, q, "result %s" % show(t))
                continue
            a, b = t.args[1]
            want = attr(other, "_ndarray") if is_ts else other
            if is_ts is None and b is not other:
                ctx.unk(rule, q, desc(x))
                continue
            if plain(a, buf) and (b is other or plain(b, want)):
                ctx.holds(rule, q)
            elif understood(mk("tuple", a, b), [buf, other, attr(other, "_ndarray")], NP):
                ctx.bad(rule, q, "operands are %s and %s: %s" % (show(a), show(b), desc(x)), ctx.loc(q))
            else:
                ctx.unk(rule, q, desc(x))


def unwrapped(src_ok, t):
    """Collection of arrays for all elements, in which values objects are replaced by
    their arrays: True / text / None (not understood)"""
    while t.op in ("starred", "spread") or call_name(t) in ("builtins.tuple", "builtins.list"):
        t = t.args[0] if t.op in ("starred", "spread") else t.args[1][0]
    if t.op == "tuple" and len(t.args) == 1 and t.args[0].op in ("spread", "starred"):
        return unwrapped(src_ok, t.args[0])
    if t.op != "comp":
        return "passed on unchanged" if src_ok(t) else None
    src, cases = t.args[0], t.args[1]
    if not src_ok(src):
        if src.op in ("slice", "slice3") and src_ok(src.args[0]):
            return "only a part is used"
        return None
    e = mk("elem", src)
    arr = attr(e, "_ndarray")
    is_ts = mk("isinst", e, TS)
    for conds, vals in cases:
        if len(vals) != 1:
            return "some are left out" if not vals else None
        c = dict((a, v) for a, v in conds)
        v = vals[0]
        for a in set(c) - {is_ts}:
            if not any(dict(cs).get(a) is (not c[a]) for cs, _ in cases):
                return "some are left out"
            return None
        if v is e:
            if c.get(is_ts) is not False:
                return "a values object is not replaced by its array"
        elif v is arr:
            if c.get(is_ts) is not True:
                return "the array of something which is no values object is used"
        elif v.op == "attr" and v.args[1] == "_ndarray" and v.args[0] is self_of(TS) and c.get(is_ts) is True:
            return "the object itself is used in place of another one"
        elif not plain(v, arr):
            return None
    if len(cases) == 1 and cases[0][0]:
        return "some are left out"
    return True


def functions(ctx):
    rule = "C11.functions"
    q = TS + ".__array_ufunc__"
    ctx.guard(rule, q, _functions, ctx, rule, q)


def _functions(ctx, rule, q):
    me, buf, view = parts()
    f = ctx.p.need_function(q)
    ufunc, meth = param(ctx, f, 1), param(ctx, f, 2)
    a = f.node.args
    if a.vararg is None or a.kwarg is None:
        raise Unknown("signature")
    for o in ctx.run(q, opaque=rw_opaque):
        if o.kind != "return":
            continue
        calls = [e.a[0] for e in o.events if e.kind in ("call", "rcall") and "__array_ufunc__" in show(e.a[0]).split("(")[0] or
                 e.kind == "mutcall" and False]
        if not calls:
            calls = [x for x in walk(o.value) if x.op in ("mcall", "call") and (x.op == "mcall" and x.args[1] == "__array_ufunc__" or
                     x.op == "call" and x.args[0] is attr(ufunc, "at"))]
        calls = [x for x in calls if x.op == "mcall"]
        if len(calls) != 1:
            ctx.unk(rule, q, "computation: " + desc(o)[:300])
            continue
        c = calls[0]
        obj, _, pos, kw = c.args
        if obj is not buf and understood(obj, [buf], NP):
            pass
        if len(pos) != 3:
            ctx.unk(rule, q, "arguments %s" % show(c)[:300])
            continue
        for got, want, what in ((pos[0], ufunc, "function"), (pos[1], meth, "method")):
            verdict(ctx, rule, q, got is want, got, [ufunc, meth], "the " + what, o)
        r = unwrapped(lambda s: s.op == "sym" and s.args[0] == a.vararg.arg, pos[2])
        if r is True:
            ctx.holds(rule, q)
        elif r is None:
            ctx.unk(rule, q, "inputs %s" % show(pos[2])[:300])
        else:
            ctx.bad(rule, q, "inputs of the function: %s: %s" % (r, desc(o)[:600]), ctx.loc(q))
        if not kw:
            ctx.bad(rule, q, "other arguments of the function are not passed on: " + desc(o)[:600], ctx.loc(q))
        elif any(x.op == "sym" and x.args[0] == a.kwarg.arg for x in walk(mk("x", *[v for _, v in kw]))):
            ctx.holds(rule, q)
        else:
            ctx.unk(rule, q, "arguments %s" % show(c)[:300])
        outs = [e.a[2] for e in o.events if e.kind == "setitem" and e.a[1] is const("out")] + [v for k, v in kw if k == "out"]
        if outs:
            r = unwrapped(lambda s: contains(s, const("out")), outs[-1])
            if r is True:
                ctx.holds(rule, q)
            elif r is None:
                ctx.unk(rule, q, "outputs %s" % show(outs[-1])[:300])
            else:
                ctx.bad(rule, q, "outputs of the function: %s: %s" % (r, desc(o)[:600]), ctx.loc(q))
        elif o.value is not c:
            verdict(ctx, rule, q, False, o.value, [c], "the result", o)
        else:
            ctx.holds(rule, q)


RULES = {
    "C11": {"rules": [iteration, items, conversion, operators, functions],
            "explain": "All paths of iteration, indexing, array conversion, operators and numpy functions of the values objects: which values, in which order, reach the result."},
}
