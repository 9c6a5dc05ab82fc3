"""Rules about in-place changes of data frames (D03)"""
from ..check import Unknown, implied
from ..terms import cval, is_str
from ..terms import sub as _sub
from .frames import FIELDS, S, TP, UC, CONV, VOL, inplace, owner_of, run
from .ops import DATA, ME, META, TIMES, norm
from .owner import effect, mutations
from .util import *

METHODS = ("rename", "filter", "convert_unit", "__setitem__", "set_meta")


def d03(ctx):
    for n in METHODS:
        q = S + "." + n
        f = ctx.p.need_function(q)
        ctx.guard("D03.order", q, _order, ctx, q)
        ctx.guard("D03.earlier", q, _earlier, ctx, q)
        if any(a.arg == "inplace" for a in f.node.args.args + f.node.args.kwonlyargs):
            ctx.guard("D03.same", q, _same, ctx, q)


def commits(ow, events):
    """Events which change the data frame itself"""
    r = []
    for e, t, kind in mutations(events):
        if e.kind == "setattr" and t is ME and e.a[1] in FIELDS and norm(e.a[2]) is mk("attr", ME, e.a[1]) and not isinstance(e.a[2], tuple):
            if e.a[2] is mk("attr", ME, e.a[1]):
                continue  # put back
        for b, how in ow.roots(t):
            if b is ME:
                x = effect(how, kind, t)
                if x:
                    r.append((e, True))
                elif x is None:
                    r.append((e, None))
    return r


def own_index(obj, v):
    """Is this index made from that of the object itself?"""
    return contains(v, mk("attr", obj, "index")) or contains(norm(v), mk("attr", norm(obj), "index"))


def fallible(e, caught):
    """Why can this step fail because of what the caller asks for? (None: it cannot)"""
    if e.kind == "raise":
        c = e.a[0] if e.a else None
        if c is not None and c.op == "call" and call_name(c) in ("builtins.AssertionError", "builtins.NotImplementedError"):
            return None
        return "an error is raised"
    if e.kind in ("rnew", "new", "rcall", "call") and e.a[0] in caught:
        return None
    if e.kind in ("rnew", "new"):
        t = e.a[0]
        if t.args[0] in (UC, CONV):
            return "%s is created, which rejects what it cannot convert" % t.args[0].rsplit(".", 1)[1]
        if t.args[0] == TP:
            x = t.args[2][0] if t.args[2] else (dict(t.args[3]).get("values"))
            if x is not None and not contains(x, lambda y: y.op == "attr" and y.args[1] == "index") and contains(x, lambda y: y.op == "sym" and y is not ME):
                return "time points are created from what was passed"
    if e.kind == "rcall":
        q = e.a[0].args[0]
        if q in (S + "._apply_filters", S + ".filter"):
            return "the filters are evaluated, which rejects what is not understood"
        if q.startswith(CONV + ".convert"):
            return "timeseries are converted"
    if e.kind == "setattr" and e.a[1] in ("index", "columns") and e.a[0] is not ME and not own_index(e.a[0], e.a[2]) and contains(
            e.a[2], lambda y: y.op == "sym" and y is not ME and y.args[0] != "self"):
        return "an axis is set, which rejects other lengths"
    return None


def _order(ctx, q):
    outs = run(ctx, q)
    ow = owner_of(ctx, q, outs)
    loc = ctx.loc(q)
    caught = {e.a[1] if len(e.a) > 1 and hasattr(e.a[1], "op") else e.a[0] for o in outs for e in o.flat() if e.kind == "implicit_raise"}
    for o in outs:
        if inplace(ctx, q, o) is False:
            continue
        first, sure = None, True
        put_back = o.kind == "raise" and restored(ow, o)
        for e in o.flat():
            why = fallible(e, caught)
            if why and first is not None and not put_back:
                if sure:
                    ctx.bad("D03.order", q, "%s after %s (%s)" % (why, show_change(first), desc(o)), e.loc or loc)
                else:
                    ctx.unk("D03.order", q, "%s after %s" % (why, show_change(first)), loc)
                break
            for x, how in commits(ow, [e]):
                if first is None or how and not sure:
                    first, sure = x, bool(how)
        else:
            if o.kind == "raise" and any(e.kind == "implicit_raise" for e in o.flat()) and first is not None and not put_back:
                ctx.unk("D03.order", q, "a failure after %s" % show_change(first), loc)
            ctx.holds("D03.order", q)


def restored(ow, o, more=()):
    """Does the data frame have what it had before?"""
    c = commits(ow, o.flat()) + [(e, True) for e in more]
    return bool(c) and all(e.kind == "setattr" and e.a[0] is ME and o.heap.get((ME, e.a[1])) is mk("attr", ME, e.a[1]) for e, _ in c)


def show_change(e):
    return "the change of %s" % (e.a[1] if e.kind == "setattr" and e.a[0] is ME else show(e.a[0])[:80])


def _earlier(ctx, q):
    """The same over several rounds of a loop"""
    outs = run(ctx, q)
    ow = owner_of(ctx, q, outs)
    loc = ctx.loc(q)
    caught = {e.a[0] for o in outs for e in o.flat() if e.kind == "implicit_raise"}
    loops = {}
    for o in outs:
        if inplace(ctx, q, o) is False:
            continue
        _loops(o.events, loops)
    for it, cases in loops.items():
        change = [c for evs in cases for c, how in commits(ow, flat(evs)) if how]
        if not change:
            ctx.holds("D03.earlier", q)
            continue
        why = next((w for evs in cases for e in flat(evs) for w in [fallible(e, caught)] if w), None)
        if why:
            ctx.bad("D03.earlier", q, "%s after %s in an earlier round over %s" % (why, show_change(change[0]), show(it)[:60]), loc)
            continue
        for o in outs:
            if o.kind != "raise" or inplace(ctx, q, o) is False or any(fallible(e, caught) for e in o.flat() if e.kind == "raise") is False:
                continue
            if any(e.kind == "iteration" and e.a[0] is it for e in o.flat()) and not restored(ow, o, change):
                ctx.bad("D03.earlier", q, "%s in a round over %s, after %s in an earlier round" % (desc(o), show(it)[:60], show_change(change[0])), loc)
                break
        else:
            ctx.holds("D03.earlier", q)


def flat(events):
    for e in events:
        if e.kind == "loop":
            for _, evs in e.a[1]:
                yield from flat(evs)
        else:
            yield e


def _loops(events, r):
    for e in events:
        if e.kind == "loop":
            for _, evs in e.a[1]:
                if e.a[0].op != "lam":
                    r.setdefault(e.a[0], []).append(evs)
                _loops(evs, r)


# the two variants of an operation


def final(ctx, ow, o, obj):
    """{field: (value, changes of it)} of this object at the end, whatever object it is"""
    r = {}
    for f in FIELDS:
        v = o.heap.get((obj, f), mk("attr", obj, f))
        r[f] = (norm(v), changed_within(o, v))
    return r


def changed_within(o, v):
    """What is changed of this value after it is made (in order)"""
    n = norm(v)
    r = []
    for e in o.flat():
        if e.kind in ("setattr", "setitem", "delitem", "mutcall"):
            if e.kind == "setattr" and e.a[1] in FIELDS:
                continue
            x = norm(e.a[0])
            if x is n or x.op == "attr" and x.args[0] is n and x.args[1] in ("loc", "iloc", "values", "iat", "at"):
                r.append((e.kind, x) + tuple(norm(y) if hasattr(y, "op") or isinstance(y, tuple) else y for y in e.a[1:]))
    return r


def _same(ctx, q):
    outs = run(ctx, q)
    loc = ctx.loc(q)
    f = ctx.p.functions[q]
    flag = btruth(named_param(ctx, f, "inplace"))
    sides = {True: [], False: []}
    for o in outs:
        if o.kind != "return":
            continue
        v = inplace(ctx, q, o)
        if v is None:
            ctx.unk("D03.same", q, "inplace is not looked at (%s)" % desc(o), loc)
            continue
        sides[v].append(o)
    if not sides[True] or not sides[False]:
        raise Unknown("variants of %s" % q)
    for o in sides[True]:
        if o.value is not None and o.value is not NONE:
            ctx.bad("D03.same", q, "the in-place variant gives %s" % show(o.value)[:80], loc)
    for a in sides[True]:
        fa = facts(a, flag)
        mates = [b for b in sides[False] if compatible(fa, facts(b, flag))]
        if not mates:
            ctx.unk("D03.same", q, "no copying path for %s" % desc(a), loc)
        for b in mates:
            if not hasattr(b.value, "op") or b.value is NONE or b.value is ME:
                ctx.bad("D03.same", q, "the copying variant gives %s" % ("nothing" if not hasattr(b.value, "op") or b.value is NONE else "the data frame itself"), loc)
                continue
            _compare(ctx, q, a, b, loc)


def facts(o, flag):
    return {norm(k): x for k, x in o.order if k is not flag and not contains(k, flag.args[0] if flag.args else flag)}


def compatible(a, b):
    return all(b.get(k, x) == x for k, x in a.items())


def _compare(ctx, q, a, b, loc):
    x, y = final(ctx, None, a, ME), final(ctx, None, b, b.value)
    for f in FIELDS:
        (va, ca), (vb, cb) = x[f], y[f]
        start = mk("attr", ME, f)
        oa = a.heap.get((ME, f), start)
        # changes of a copy do not count unless it is stored
        if oa is start:
            ca = [c for c in ca if any(e.kind == c[0] and (e.a[0] is start or e.a[0].op == "attr" and e.a[0].args[0] is start) for e in a.flat())]
        if va is vb and ca == cb:
            ctx.holds("D03.same", q)
        elif va is start and not ca and (vb is not start or cb):
            ctx.bad("D03.same", q, "in place, %s is not changed, but in a copy it is (%s)" % (f, desc(a)), loc)
        elif vb is start and not cb and (va is not start or ca):
            ctx.bad("D03.same", q, "in a copy, %s is not changed, but in place it is (%s)" % (f, desc(b)), loc)
        elif va is not vb and (contains(va, vb) or contains(vb, va)) and vb is not start and va is not start:
            ctx.bad("D03.same", q, "%s is %s in place and %s in a copy" % (f, show(va)[:120], show(vb)[:120]), loc)
        elif va is vb and (subseq(ca, cb) or subseq(cb, ca)):
            ctx.bad("D03.same", q, "%s is changed in %d ways in place and in %d ways in a copy" % (f, len(ca), len(cb)), loc)
        else:
            ctx.unk("D03.same", q, "%s: %s / %s" % (f, show(va)[:150], show(vb)[:150]))


def subseq(a, b):
    i = 0
    for x in b:
        if i < len(a) and a[i] == x:
            i += 1
    return i == len(a) and len(b) > len(a)


RULES = {
    "D03": {"rules": [d03], "only": True, "explain": "On every path of the operations that change the data frame itself (rename, filter, convert_unit, assignment of times or metadata), "
            "and over several rounds of their loops: no step which depends on the request and can fail follows the first change of the data frame. "
            "Final fields of the in-place and of the copying paths with the same conditions are compared as values."},
}
