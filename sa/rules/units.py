"""Rules about units (U01-U04)"""
import re
from fractions import Fraction

from ..algebra import Algebra, DivisionByZero
from ..check import Unknown, changes, implied
from ..terms import cval, is_num, is_str, sub
from .util import *

MOD = "openscm.core.units"
UC = MOD + ".UnitConverter"
REGISTRY = MOD + ".ScmUnitRegistry"
A, B = mk("sym", "$A", ("float",)), mk("sym", "$B", ("float",))


def load_opaque(q):
    return q in (REGISTRY + "._load_contexts",)


def is_registry(t):
    return t.op == "sym" and t.args[1] == ("cls", REGISTRY) or t.op == "new" and t.args[0] == REGISTRY


# ---------------------------------------------------------------------- U01
class Model:
    """pint converts a magnitude k of the source unit to A k + B in the target unit"""

    def __init__(self, ctx, o, me):
        f = ctx.p.need_function(UC + ".__init__")
        self.src, self.tgt, self.context = param(ctx, f, 1), param(ctx, f, 2), named_param(ctx, f, "context")
        self.o, self.me = o, me
        self.fields = {k[1]: v for k, v in o.heap.items() if k[0] is me}
        self.alg = Algebra(self.leaf)
        self.known = {}
        same = o.it.eqatom(self.src, self.tgt)
        if implied(o, same) is True:
            self.known = {A: const(1), B: const(0)}

    def side(self, u):
        """'s' / 't' for a unit"""
        if u is self.src or u.op == "attr" and u.args[0] is self.me and self.fields.get(u.args[1]) is self.src:
            return "s"
        if u is self.tgt or u.op == "attr" and u.args[0] is self.me and self.fields.get(u.args[1]) is self.tgt:
            return "t"
        m = method(u)
        if m and is_registry(m[0]) and m[1] in ("Unit", "parse_units", "parse_expression") and len(m[2]) == 1 and not m[3]:
            return self.side(m[2][0])
        if u.op == "call" and is_registry(u.args[0]) and len(u.args[1]) == 1:
            return self.side(u.args[1][0])
        if u.op == "attr" and u.args[1] in ("units", "u"):
            return self.quantity(u.args[0])[1]
        raise Unknown("unit %s" % show(u))

    def quantity(self, q):
        """(magnitude, side)"""
        m = method(q)
        if m:
            obj, name, pos, kw = m
            if is_registry(obj) and name == "Quantity" and len(pos) == 2 and not kw:
                return self.alg(pos[0]), self.side(pos[1])
            if name == "to" and pos:
                k, s = self.quantity(obj)
                return self.convert(k, s, self.side(pos[0]))
            if name == "__mul__":
                return self.quantity(mk("*", obj, pos[0]))
        if q.op == "*":
            for x, y in (q.args, q.args[::-1]):
                try:
                    return self.alg(x), self.side(y)
                except Unknown:
                    pass
        raise Unknown("quantity %s" % show(q))

    def convert(self, k, s, t):
        a, b = self.alg(A), self.alg(B)
        if s == t:
            return k, t
        if s == "s":
            return self.alg.add(self.alg.mul(a, k), b), t
        return self.alg.div(self.alg.add(k, b, -1), a), t

    def leaf(self, t):
        if t in self.known:
            return self.known[t]
        if t.op == "attr" and t.args[1] in ("m", "magnitude"):
            return self.quantity(t.args[0])[0]
        m = method(t)
        if m and m[1] in ("m_as",) and m[2]:
            k, s = self.quantity(m[0])
            return self.convert(k, s, self.side(m[2][0]))[0]
        if m and m[1] == "convert" and is_registry(m[0]) and len(m[2]) == 3:
            return self.convert(self.alg(m[2][0]), self.side(m[2][1]), self.side(m[2][2]))[0]
        if t.op == "attr" and t.args[0] is self.me:
            v = self.fields.get(t.args[1])
            if v is None:
                raise Unknown("field %s is not set" % t.args[1])
            return v
        return None

    def assume(self, o):
        """Facts about the stored numbers on a path of a conversion"""
        for a, v in o.order:
            if not any(x.op == "attr" and x.args[0] is self.me for x in walk(a)):
                continue
            x = c = None
            if a.op == "eq" and v and (is_num(a.args[0]) or is_num(a.args[1])):
                x, c = (a.args[1], a.args[0]) if is_num(a.args[0]) else a.args
            elif a.op == "truth" and not v:
                x, c = a.args[0], const(0)
            elif a.op == "eq" and v:
                s, t = self.resolve(a.args[0]), self.resolve(a.args[1])
                if {s, t} == {self.src, self.tgt}:
                    self.known.update({A: const(1), B: const(0)})
                    self.alg.memo.clear()
                    continue
            if x is None:
                continue
            r = self.alg(x)
            for s in (A, B):
                if self.alg.eq(r, self.alg(s)):
                    self.known[s] = c
                    self.alg.memo.clear()
                    break
            else:
                raise Unknown("case %s" % show(a))

    def resolve(self, t):
        if t.op == "attr" and t.args[0] is self.me:
            return self.fields.get(t.args[1], t)
        return t


def affine(ctx):
    rule = "U01.map"
    f = ctx.p.need_function(UC + ".__init__")
    me = self_of(UC)
    inits = [o for o in ctx.run(UC + ".__init__") if o.kind == "return"]
    for q, back in ((UC + ".convert_from", False), (UC + ".convert_to", True)):
        ctx.guard(rule, q, _affine, ctx, rule, q, back, inits, me)


def _affine(ctx, rule, q, back, inits, me):
    g = ctx.p.need_function(q)
    v = param(ctx, g, 1)
    for o2 in ctx.run(q):
        if o2.kind != "return":
            ctx.bad(rule, q, "converting fails: " + desc(o2), ctx.loc(g))
            continue
        for e in o2.flat():
            if e.kind == "augassign" and e.a[0] is v or e.kind in ("setitem", "delitem", "mutcall") and e.a[0] is v:
                ctx.bad("U01.arguments", q, "the values passed in are changed in place", ctx.loc(g))
                break
            if e.kind == "call" and any(k == "out" and x is v for k, x in call_kw(e.a[0])):
                ctx.bad("U01.arguments", q, "the values passed in are overwritten", ctx.loc(g))
                break
        else:
            ctx.holds("U01.arguments", q)
        for o in inits:
            try:
                m = Model(ctx, o, me)
                m.assume(o2)
                if (A in m.known) and implied(o, o.it.eqatom(m.src, m.tgt)) is False:
                    if implied(o2, o2.it.eqatom(attr(me, "_source"), attr(me, "_target"))) is True:
                        continue
                got = m.alg(o2.value)
                a, b, x = m.alg(A), m.alg(B), m.alg(v)
                want = m.alg.div(m.alg.add(x, b, -1), a) if back else m.alg.add(m.alg.mul(a, x), b)
                if m.alg.eq(got, want):
                    ctx.holds(rule, q)
                    continue
                lv = [t for t in m.alg.leaves(got) if t not in (A, B, v)]
                if lv and all(call_name(t) in CHANGING or method(t) and "." + method(t)[1] in CHANGING for t in lv):
                    ctx.bad(rule, q, "the converted value goes through %s" % show(lv[0])[:80], ctx.loc(g))
                elif lv:
                    ctx.unk(rule, q, "value depends on %s" % show(lv[0]))
                else:
                    ctx.bad(rule, q, "with pint's map k -> $A k + $B the value %s becomes %s instead of %s" % (
                        show(v), m.alg.show(got), m.alg.show(want)), ctx.loc(g))
            except DivisionByZero:
                ctx.bad(rule, q, "the scaling is computed from two equal points", ctx.loc(g))
            except Unknown as e:
                ctx.unk(rule, q, str(e))


def unit_names(ctx):
    rule = "U01.units"
    for q, i in ((UC + ".source", 1), (UC + ".target", 2)):
        ctx.guard(rule, q, _unit_name, ctx, rule, q, i)


def _unit_name(ctx, rule, q, i):
    me = self_of(UC)
    f = ctx.p.need_function(UC + ".__init__")
    want = param(ctx, f, i)
    for o in ctx.run(q):
        for o1 in ctx.run(UC + ".__init__"):
            if o1.kind != "return" or o.kind != "return":
                continue
            v = o.value
            if v.op == "attr" and v.args[0] is me:
                v = o1.heap.get((me, v.args[1]))
            if v is want:
                ctx.holds(rule, q)
            elif v is not None and v.op == "sym":
                ctx.bad(rule, q, "gives %s" % show(v), ctx.loc(q))
            else:
                ctx.unk(rule, q, "value %s" % (v and show(v)))


# ---------------------------------------------------------------------- U02
def scoped(ctx):
    rule = "U02.scope"
    ctx.guard(rule, UC + ".__init__", _scoped, ctx, rule)
    ctx.guard("U02.loaded", REGISTRY + ".enable_contexts", _loaded, ctx, "U02.loaded", REGISTRY + ".enable_contexts")
    ctx.guard("U02.loaded", UC + ".contexts", _loaded, ctx, "U02.loaded", UC + ".contexts")
    ctx.guard("U02.registered", REGISTRY + "._load_contexts", _registered, ctx, "U02.registered")
    ctx.guard("U02.toggle", MOD, _toggles, ctx, "U02.toggle")


def _scoped(ctx, rule):
    q = UC + ".__init__"
    f = ctx.p.need_function(q)
    me = self_of(UC)
    cx = named_param(ctx, f, "context")
    for o in ctx.run(q):
        none = implied(o, mk("isnone", cx))
        if none is None:
            t = implied(o, btruth(cx))
            none = None if t is None else not t
        # values taken from a store which outlives the conversion
        if o.kind == "return":
            for k, v in o.heap.items():
                if k[0] is not me:
                    continue
                for x in walk(v):
                    if x.op in ("dget", "item") and x.args[0].op in ("sym", "global", "attr") and not contains(x.args[0], me) and is_container(ctx, x.args[0]):
                        if not contains(x.args[1], cx) and none is not True and not any(contains(a, cx) for a, _ in o.order):
                            ctx.bad(rule, q, "a stored conversion %s is used whatever the context" % show(x), ctx.loc(f))
        active, bad, seen = [], None, 0
        for e in o.events:
            if e.kind == "with_enter":
                active.append(e.a[0])
            elif e.kind == "with_exit":
                if active:
                    active.pop()
            elif e.kind == "call":
                m = method(e.a[0])
                if not m:
                    continue
                if m[1] in ("enable_contexts",):
                    active.append(e.a[0])
                elif m[1] == "disable_contexts":
                    active = [x for x in active if method(x) and method(x)[1] != "enable_contexts"]
                elif m[1] in ("to", "m_as", "ito") or m[1] == "convert" and is_registry(m[0]):
                    seen += 1
                    names = list(m[2][1:] if m[1] != "convert" else m[2][3:])
                    known = True
                    for w in active:
                        mw = method(w)
                        if mw and mw[1] in ("context", "enable_contexts"):
                            names += list(mw[2])
                        elif call_name(w) not in ("warnings.catch_warnings", "numpy.errstate"):
                            known = False
                    if not known:
                        bad = bad or "?"
                    elif none is True and names:
                        if any(x.op not in ("const", "sym", "attr") for x in names):
                            bad = bad or "?"
                        else:
                            bad = "a conversion without context uses context %s" % show(names[0])
                    elif none is False and cx not in names:
                        bad = bad or ("?" if names and any(x.op not in ("const",) for x in names) else
                                      "a conversion does not use the requested context%s" % (" but " + show(names[0]) if names else ""))
                    elif none is False and len(names) > 1:
                        bad = bad or ("?" if any(x.op != "const" and x is not cx for x in names) else "further contexts are used: %s" % show(names[-1]))
                    elif none is None and names and names != [cx]:
                        bad = bad or "?"
                    elif none is None:
                        if not names and not any(contains(a, cx) for a, _ in o.order):
                            bad = "a conversion ignores the context"
                        else:
                            bad = bad or "?"
        left = [x for x in active if method(x) and method(x)[1] == "enable_contexts"]
        if left and o.kind == "return":
            bad = "the context stays active after the conversion"
        if bad == "?" or not seen and not bad:
            ctx.unk(rule, q, "contexts of conversions: " + desc(o))
        elif bad:
            ctx.bad(rule, q, bad + ": " + desc(o), ctx.loc(f))
        else:
            ctx.holds(rule, q)


def is_container(ctx, t):
    ty = t.args[1] if t.op == "sym" and len(t.args) > 1 else None
    return t.op in ("global",) or isinstance(ty, tuple) and ty and ty[0] in ("dict", "any") and "." in str(t.args[0]) or \
        t.op == "sym" and "." in str(t.args[0]) and not is_registry(t)


def _loaded(ctx, rule, q):
    f = ctx.p.need_function(q)
    enabling = q.endswith("enable_contexts")
    for o in ctx.run(q, opaque=load_opaque):
        if o.kind != "return":
            ctx.bad(rule, q, "fails: " + desc(o), ctx.loc(f))
            continue
        loaded = None
        for a, v in o.order:
            if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] == "_contexts_loaded":
                loaded = v
                reg = a.args[0].args[0]
        use = None
        loads = []
        for i, e in enumerate(o.events):
            if e.kind == "rcall" and e.a[0].args[0] == REGISTRY + "._load_contexts":
                loads.append(i)
            if e.kind == "call":
                t = e.a[0]
                if enabling and (t.op == "mcall" and t.args[1] == "enable_contexts" and t.args[0].op in ("super", "call", "ext") or
                                 "super(" in show(t)[:40] and "enable_contexts" in show(t)):
                    use = i
                elif not enabling and any(x.op == "attr" and x.args[1] == "_contexts" for x in walk(t)):
                    use = i if use is None else use
        if use is None and not enabling and any(x.op == "attr" and x.args[1] == "_contexts" for x in walk(o.value)):
            use = len(o.events)
        if use is None:
            ctx.unk(rule, q, "contexts are not used: " + desc(o))
        elif loaded is True or loads and loads[0] < use:
            ctx.holds(rule, q)
        elif loaded is False or not any(x.op == "attr" and "load" in x.args[1] for a, _ in o.order for x in walk(a)):
            ctx.bad(rule, q, "contexts are used before they are loaded: " + desc(o), ctx.loc(f))
        else:
            ctx.unk(rule, q, desc(o))
        fl = [(e.a[0], e.a[2]) for e in o.events if e.kind == "setattr" and e.a[1] == "_contexts_loaded"]
        if fl and tv(o, fl[-1][1]) is True and loaded is not True and not loads:
            ctx.bad(rule, q, "contexts are taken as loaded although they are not", ctx.loc(f))
    init = ctx.p.need_class(REGISTRY)
    for st in init.node.body:
        tgt = st.target if isinstance(st, ast.AnnAssign) else st.targets[0] if isinstance(st, ast.Assign) else None
        if tgt is not None and isinstance(tgt, ast.Name) and tgt.id == "_contexts_loaded":
            if isinstance(st.value, ast.Constant) and st.value.value is True:
                ctx.bad(rule, REGISTRY, "contexts are taken as loaded from the start", ctx.loc(q))


def _registered(ctx, rule):
    q = REGISTRY + "._load_contexts"
    f = ctx.p.need_function(q)
    for o in ctx.run(q):
        if o.kind != "return":
            continue
        for seq in linear(o.events):
            made = [e.a[0] for e in seq if e.kind == "call" and call_name(e.a[0]) == "pint.Context"]
            added = [method(e.a[0])[2][0] for e in seq if e.kind == "call" and method(e.a[0]) and method(e.a[0])[1] == "add_context" and method(e.a[0])[2]]
            filled = [method(e.a[0])[0] for e in seq if e.kind == "call" and method(e.a[0]) and method(e.a[0])[1] == "add_transformation"]
            if len(set(made)) != len(made):
                ctx.bad(rule, q, "two contexts of the same name: %s" % show(made[0]), ctx.loc(f))
            for c in set(made + filled):
                if c in added:
                    ctx.holds(rule, q)
                elif c in made and not any(contains(x, c) for e in seq if e.kind not in ("enter", "leave") for x in terms_of(e) if x is not c and not is_fill(x)):
                    ctx.bad(rule, q, "the context %s is not registered" % show(c), ctx.loc(f))
                elif c in made:
                    ctx.unk(rule, q, "registration of %s" % show(c))
        names = {e.a[0].args[1][0].args[1] for e in o.flat() if e.kind == "call" and call_name(e.a[0]) == "pint.Context" and e.a[0].args[1] and is_str(e.a[0].args[1][0])}
        for n in ("CH4_conversions", "NOx_conversions"):
            if n in names:
                ctx.holds(rule, q)
            elif len(names) >= 1:
                ctx.bad(rule, q, "context %s is not defined" % n, ctx.loc(f))
            else:
                ctx.unk(rule, q, "context %s" % n)


def is_fill(t):
    m = method(t)
    return m and m[1] == "add_transformation"


def terms_of(e):
    return [x for x in e.a if isinstance(x, T)]


def linear(events, prefix=()):
    """Straight event sequences: the outer one and one for each case of a loop"""
    out = [[]]
    r = []
    for e in events:
        if e.kind == "loop" and len(e.a) > 1:
            for case in e.a[1]:
                r.extend(linear(case[1]))
        else:
            out[0].append(e)
    return out + r


def _toggles(ctx, rule):
    """Nobody switches contexts on for good"""
    n = 0
    functions = [(mod, name, node) for mod in ctx.p.modules.values() for name, node in iter_functions(mod)]
    for mod, name, node in functions:
        if name.rsplit(".", 1)[-1] == "enable_contexts":
            continue  # passes the call on
        par = parents(node)
        for c in ast.walk(node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "enable_contexts"):
                continue
            n += 1
            ok = protected(c, par) or _protected_by_callers(functions, name, node, ())
            if ok:
                ctx.holds(rule, name)
            elif ok is None:
                ctx.unk(rule, name, "contexts are switched on in one function and off in another one")
            else:
                ctx.bad(rule, name, "contexts are switched on without being switched off on all exits", (mod.relpath if hasattr(mod, "relpath") else mod.name, c.lineno, name))
    if not n:
        ctx.holds(rule, MOD)


def protected(c, par):
    """Within a try whose finally switches off, or directly before one"""
    x = c
    while x in par:
        p = par[x]
        if isinstance(p, ast.Try) and has_disable(p.finalbody):
            return True
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and x in b:
                i = b.index(x)
                if i + 1 < len(b) and isinstance(b[i + 1], ast.Try) and has_disable(b[i + 1].finalbody):
                    return True
        x = p
    return False


def _protected_by_callers(functions, name, node, seen):
    """
    Are all callers of a function which switches on protected?

    ``None`` if they are not, but switch off in a way that is not known.
    """
    short = name.rsplit(".", 1)[-1]
    calls = []
    for mod, other, body in functions:
        if other in seen or body is node:
            continue
        for c in ast.walk(body):
            if isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr == short or isinstance(c.func, ast.Name) and c.func.id == short):
                calls.append((other, body, c))
    if has_disable([node]):
        if not any(isinstance(n, ast.Try) and has_disable(n.finalbody) for n in ast.walk(node)) and not any(isinstance(n, (ast.Yield, ast.With)) for n in ast.walk(node)):
            return False  # stays on after an error
        r = None
    elif not calls or short.startswith("__"):
        return False
    else:
        r = True
    for other, body, c in calls:
        if not protected(c, parents(body)) and r:
            up = _protected_by_callers(functions, other, body, seen + (name,))
            r = up if up else (None if up is None or has_disable([body]) else False)
    return r


def has_disable(body):
    return any(isinstance(n, ast.Attribute) and n.attr in ("disable_contexts", "remove_context") for b in body for n in ast.walk(b))


# ---------------------------------------------------------------------- U03
WEIGHT = {"C": 12, "N": 14, "O": 16, "H": 1, "S": 32}


def molar(formula):
    r = 0
    for e, n in re.findall(r"([A-Z][a-z]?)(\d*)", formula):
        if e not in WEIGHT:
            return None
        r += WEIGHT[e] * int(n or 1)
    return r


def transformations(ctx):
    q = REGISTRY + "._load_contexts"
    f = ctx.p.need_function(q)
    gases = Definitions(ctx)
    for o in ctx.run(q):
        if o.kind != "return":
            continue
        for seq in linear(o.events):
            regs = {}
            order = []
            for e in seq:
                m = method(e.a[0]) if e.kind == "call" else None
                if m and m[1] == "add_transformation":
                    if len(m[2]) != 3:
                        ctx.unk("U03.pairs", q, show(e.a[0])[:200])
                        continue
                    key = (m[0], m[2][0], m[2][1])
                    if key in regs:
                        ctx.bad("U03.pairs", q, "the transformation from %s to %s is defined twice in context %s" % (show(key[1]), show(key[2]), show(key[0])), ctx.loc(f))
                    regs[key] = m[2][2]
                    order.append(key)
            for key in order:
                ctx.guard("U03.pairs", q, _pair, ctx, q, f, regs, key)
                ctx.guard("U03.units", q, _factor, ctx, q, f, regs, key, gases)
            ctx.guard("U03.forms", q, _forms, ctx, q, f, regs, order)
    ctx.guard("U03.late-binding", q, _late_binding, ctx, q)


def dim(t):
    return show(t)


def _body(fn):
    if fn.op != "lam" or len(fn.args[1]) != 1 or fn.args[1][0][0]:
        raise Unknown("transformation %s" % show(fn)[:200])
    return fn.args[1][0][1]


X = mk("sym", "$1", ("any",))


def _pair(ctx, q, f, regs, key):
    rule = "U03.pairs"
    inv = (key[0], key[2], key[1])
    if inv not in regs:
        ctx.bad(rule, q, "no transformation back from %s to %s in context %s" % (dim(key[2]), dim(key[1]), show(key[0])[:80]), ctx.loc(f))
        return
    alg = Algebra()
    there, back = _body(regs[key]), _body(regs[inv])
    if not contains(there, X) or not contains(back, X):
        raise Unknown("argument of transformation")
    try:
        got = alg(sub(back, {X: there}))
    except DivisionByZero:
        ctx.bad(rule, q, "transformation from %s to %s divides by zero" % (dim(key[1]), dim(key[2])), ctx.loc(f))
        return
    if alg.eq(got, alg(X)):
        ctx.holds(rule, q)
    else:
        ctx.bad(rule, q, "transforming from %s to %s and back gives %s times the value" % (dim(key[1]), dim(key[2]), alg.show(alg.div(got, alg(X)))[:300]), ctx.loc(f))


CARBON = const("[carbon]")


def base_of(*dims):
    """The species' dimension a loop is about"""
    c = set()
    for t in dims:
        for x in (t.args if t.op == "fmt" else (t,)):
            if not is_str(x):
                c.add(x)
    return c


def _factor(ctx, q, f, regs, key, gases):
    """A transformation swaps the unit of one species for that of the other and scales by the right factor"""
    rule = "U03.units"
    d1, d2 = key[1], key[2]
    body = _body(regs[key])
    dyn = base_of(d1, d2)
    if len(dyn) > 1:
        raise Unknown("dimensions")
    D = {}

    def species(t):
        """symbol for the species' dimension"""
        return D.setdefault(t, mk("sym", "$dim " + (t if isinstance(t, str) else show(t)), ("float",)))

    def leaf(t):
        if t.op == "attr" and t.args[0].op in ("sym", "self") and (t.args[0].args[0] == "$0" or t.args[0].args[0] == "self"):
            r = gases.resolve(t.args[1])
            if r is None:
                raise Unknown("unit %s" % show(t))
            return mk("*", mk("/", const(r[0].numerator), const(r[0].denominator)), species("[%s]" % r[1]))
        if t.op == "mcall" and t.args[1] == "__getattr__" or call_name(t) == "builtins.getattr":
            src = base_of(t.args[1][1] if t.op == "call" else t.args[2][0])
            return species(stripped(t.args[1][1] if t.op == "call" else t.args[2][0]))
        return None

    def stripped(t):
        while True:
            m = method(t)
            if m and m[1] in ("replace", "strip", "lstrip", "rstrip"):
                t = m[0]
            elif t.op == "slice":
                t = t.args[0]
            else:
                return t

    alg = Algebra(leaf)
    k = alg.div(alg(body), alg(X))
    if dyn:
        (b,) = dyn
        s1 = species("[carbon]") if not contains(d1, b) else species(b)
        s2 = species("[carbon]") if not contains(d2, b) else species(b)
    else:
        n1, n2 = re.findall(r"\[(\w+)\]", cval(d1)), re.findall(r"\[(\w+)\]", cval(d2))
        n1, n2 = [x for x in n1 if x not in ("mass", "time", "length")], [x for x in n2 if x not in ("mass", "time", "length")]
        if len(n1) != 1 or len(n2) != 1:
            raise Unknown("dimensions")
        s1, s2 = species("[%s]" % n1[0]), species("[%s]" % n2[0])
    num = alg.div(alg.mul(k, alg(s1)), alg(s2))
    lv = [t for t in alg.leaves(num)]
    if any(t in (s1, s2) for t in lv):
        ctx.bad(rule, q, "the transformation from %s to %s does not change the unit accordingly: factor %s" % (dim(d1), dim(d2), alg.show(k)[:300]), ctx.loc(f))
        return
    if not dyn:
        want = expected_factor(n1[0], n2[0], gases)
        if want is None:
            raise Unknown("molar masses")
        c = alg.is_const(num)
        if c is None:
            raise Unknown("factor %s" % alg.show(num))
        if c == want:
            ctx.holds(rule, q)
        else:
            ctx.bad(rule, q, "the transformation from %s to %s has factor %s instead of the ratio of molar masses %s" % (dim(d1), dim(d2), c, want), ctx.loc(f))
        return
    # metric: val * m(CO2) / m(species)
    back = contains(d2, b)

    def mags(t):
        """magnitude of a unit in base units -> its name"""
        if t.op == "attr" and t.args[1] in ("m", "magnitude"):
            m = method(t.args[0])
            if m and m[1] == "to_base_units":
                x = m[0]
                if x.op in ("call", "rcall") and x.op == "call" and len(x.args[1]) == 1:
                    return x.args[1][0]
                m2 = method(x)
                if m2 and m2[1] in ("__call__", "parse_expression", "Quantity") and m2[2]:
                    return m2[2][-1]
        return None

    vals, up, down = [], None, None
    for t in lv:
        m = mags(t)
        if m is None:
            vals.append(t)
        elif is_str(m):
            up = (t, m)
        else:
            down = (t, m)
    if len(vals) != 1 or up is None or down is None:
        if len(vals) == 1 and (up is None) != (down is None) or len(vals) == 1 and up is None and down is None:
            ctx.bad(rule, q, "the factor %s does not take the units of both species into account" % alg.show(num)[:300], ctx.loc(f))
            return
        raise Unknown("factor %s" % alg.show(num)[:300])
    want = alg.div(alg.mul(alg(vals[0]), alg(up[0])), alg(down[0]))
    if back:
        want = alg.div(alg.const(1), want)
    if up[1] is not const("CO2"):
        ctx.bad(rule, q, "metrics are relative to %s" % show(up[1]), ctx.loc(f))
    elif not alg.eq(num, want):
        ctx.bad(rule, q, "the factor from %s to %s is %s instead of %s" % (dim(d1)[-80:], dim(d2)[-80:], alg.show(num)[-300:], alg.show(want)[-300:]), ctx.loc(f))
    else:
        # the value belongs to the label
        v, l = vals[0], down[1]
        if v.op == "item" and l.op == "item" and v.args[0] is l.args[0] and v.args[1] is not l.args[1]:
            ctx.holds(rule, q)
        elif v.op == "val" and l.op == "key" and v.args[0] is l.args[0]:
            ctx.holds(rule, q)
        else:
            ctx.unk(rule, q, "value %s" % show(v)[:200])


def expected_factor(n1, n2, gases):
    w = {}
    for n in (n1, n2):
        s = gases.base_symbol(n)
        if s is None:
            return None
        w[n] = molar({"NOx": "NO2"}.get(s, s))
    if None in w.values():
        return None
    return Fraction(w[n2], w[n1])


def _forms(ctx, q, f, regs, order):
    """plain species, mass, flow and mass flow are all covered by each metric"""
    rule = "U03.forms"
    dyn = [k for k in order if base_of(k[1], k[2])]
    if not dyn:
        return
    have = set()
    for k in dyn:
        (b,) = base_of(k[1], k[2])
        for x, y in ((k[1], k[2]), (k[2], k[1])):
            if contains(x, b):
                form = "".join("{}" if p is b else cval(p) for p in (x.args if x.op == "fmt" else (x,)))
                if not is_str(y):
                    raise Unknown("dimension %s" % show(y))
                other = cval(y).replace("[carbon]", "{}")
                if canon_form(form) != canon_form(other):
                    ctx.bad(rule, q, "%s is transformed to %s" % (form.format("species"), cval(y)), ctx.loc(f))
                have.add((canon_form(form), x is k[1]))
    for w in ("{}", "[mass] * {}", "{} / [time]", "[mass] * {} / [time]"):
        for d in (True, False):
            if (canon_form(w), d) in have:
                ctx.holds(rule, q)
            else:
                ctx.bad(rule, q, "no transformation %s %s" % ("from" if d else "to", w.format("species")), ctx.loc(f))


def canon_form(s):
    num, *den = s.replace(" ", "").split("/")
    return (tuple(sorted(num.split("*"))), tuple(sorted(den)))


def _late_binding(ctx, q):
    """Transformation functions must not use variables which change before they are called"""
    mod = ctx.p.need_function(q).module if hasattr(ctx.p.need_function(q), "module") else None
    cls = ctx.p.need_class(REGISTRY)
    n = 0
    for fn in cls.node.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        par = parents(fn)
        for lam in ast.walk(fn):
            if not isinstance(lam, (ast.Lambda, ast.FunctionDef)) or lam is fn:
                continue
            n += 1
            bound = {a.arg for a in lam.args.args + lam.args.kwonlyargs + lam.args.posonlyargs}
            bodies = [lam.body] if isinstance(lam, ast.Lambda) else lam.body
            for b in bodies:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        bound.add(x.id)
            free = {x.id for b in bodies for x in ast.walk(b) if isinstance(x, ast.Name) and x.id not in bound}
            x, bad, inner = lam, None, []
            while x in par and x is not fn:
                x = par[x]
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                    inner.append(x)
                    free -= own_names(x)
            free &= own_names(fn)
            for loop in own_nodes(fn):
                if isinstance(loop, (ast.For, ast.While)):
                    hit = sorted(free & {y.id for y in own_nodes(loop) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)})
                    if hit:
                        bad = hit[0]
            if bad and escapes(fn, lam, par):
                ctx.bad("U03.late-binding", REGISTRY + "." + fn.name, "a transformation function uses the loop variable %s, whose last value applies to all of them" % bad,
                        (cls.module.relpath if hasattr(cls.module, "relpath") else MOD, lam.lineno, REGISTRY + "." + fn.name))
            else:
                ctx.holds("U03.late-binding", REGISTRY + "." + fn.name)


def own_nodes(fn):
    """Nodes of a function or loop without those of functions defined in it"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def own_names(fn):
    """Variables of a function"""
    a = fn.args
    res = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    if isinstance(fn, ast.Lambda):
        return res
    return res | {x.id for x in own_nodes(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
        x.name for x in own_nodes(fn) if isinstance(x, ast.FunctionDef)}


def escapes(fn, lam, par):
    """Is the function handed on (not only called within the same iteration)?"""
    p = par.get(lam)
    x = lam
    while x in par and not (isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not lam):
        x = par[x]
    if isinstance(x, ast.FunctionDef) and x is not fn:
        names = {lam.name} if isinstance(lam, ast.FunctionDef) else {t.id for t in p.targets if isinstance(t, ast.Name)} if isinstance(p, ast.Assign) else set()
        if any(isinstance(r, ast.Return) and r.value is not None and (r.value is lam or isinstance(r.value, ast.Name) and r.value.id in names) for r in own_nodes(x)):
            return True
    if isinstance(lam, ast.Lambda):
        if isinstance(p, ast.Call) and lam in p.args and isinstance(p.func, ast.Attribute) and p.func.attr == "add_transformation":
            return True
        names = {t.id for t in p.targets if isinstance(t, ast.Name)} if isinstance(p, ast.Assign) else set()
    else:
        names = {lam.name}
    for c in ast.walk(fn):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add_transformation":
            if any(isinstance(a, ast.Name) and a.id in names for a in c.args):
                return True
    return False


# ---------------------------------------------------------------------- U04
class Definitions:
    """Units defined by ScmUnitRegistry.add_standards, read off the strings handed to pint"""

    PINT = {"g": "g", "t": "t", "year": "year", "hour": "hour", "day": "day", "degC": "degC", "degF": "degF"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.q = REGISTRY + ".add_standards"
        self.f = ctx.p.need_function(self.q)
        self.defs = []
        self.order = {}
        self.problems = []
        self.why = None
        outs = [o for o in ctx.run(self.q) if o.kind == "return"]
        if len(outs) != 1:
            self.why = "%d paths" % len(outs)
            return
        for e in outs[0].events:
            if e.kind == "loop" and any(ev.kind == "call" for _, evs in e.a[1] for ev in evs):
                self.why = "loop over %s" % show(e.a[0])[:100]
                return
            m = method(e.a[0]) if e.kind == "call" else None
            if m and m[1] == "define":
                if len(m[2]) != 1 or not is_str(m[2][0]):
                    self.why = "definition %s" % show(e.a[0])[:100]
                    return
                parts = [p.strip() for p in cval(m[2][0]).split("=")]
                if len(parts) < 2:
                    self.problems.append("definition %r" % cval(m[2][0]))
                    continue
                self.defs.append((parts[0], parts[1], parts[2:]))
        for name, expr, alias in self.defs:
            for n in [name] + alias:
                self.order.setdefault(n, []).append(expr if n == name else name)

    def resolve(self, name, seen=()):
        """(coefficient, dimension or foreign unit) of a simple unit"""
        v = self.value(name, seen)
        if v is None or len(v[1]) != 1 or v[1][0][1] != 1:
            return None
        return v[0], v[1][0][0]

    def value(self, name, seen=()):
        """coefficient and ((dimension, power), ...); raises Unknown"""
        if name in seen:
            return None
        if name not in self.order:
            return (Fraction(1), (("unit " + name, 1),)) if name in self.PINT else None
        return self.expr(self.order[name][-1], seen + (name,))

    def expr(self, s, seen):
        m = re.fullmatch(r"\[(\w+)\]", s)
        if m:
            return Fraction(1), ((m.group(1), 1),)
        c, dims = Fraction(1), {}
        tokens = re.findall(r"[\d.]+(?:e[-+]?\d+)?|\w+|[*/]", s)
        if "".join(tokens) != s.replace(" ", ""):
            raise Unknown("definition %s" % s)
        sign, expect = 1, True
        for t in tokens:
            if t in "*/":
                sign = 1 if t == "*" else -1
                continue
            if re.match(r"[\d.]", t):
                c = c * Fraction(t) ** sign
            else:
                v = self.value(t, seen)
                if v is None:
                    return None
                c = c * v[0] ** sign
                for d, p in v[1]:
                    dims[d] = dims.get(d, 0) + p * sign
            sign = 1
        return c, tuple(sorted((d, p) for d, p in dims.items() if p))

    def base_symbol(self, dimension):
        for n, e, _ in self.defs:
            if e == "[%s]" % dimension:
                return n
        return None


SAME = [("nox", "NOx"), ("SOx", "SO2"), ("NMVOC", "VOC"), ("HFC4310", "HFC4310mee"), ("carbon_dioxide", "CO2"), ("nitrous_oxide", "N2O"),
        ("sulfur_dioxide", "SO2"), ("ammonia", "NH3")]  # other names
RATIOS = {"N2ON": Fraction(14, 28)}  # nitrogen mass of N2O: half of the nitrogen


def table_node(ctx):
    mod = ctx.p.modules.get(MOD)
    for st in mod.tree.body:
        tg = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) else None
        if isinstance(tg, ast.Name) and tg.id == "_standard_gases":
            return st.value
    return None


def gas_table(ctx):
    rule = "U04.table"
    ctx.guard(rule, MOD + "._standard_gases", _gas_table, ctx, rule)


def _gas_table(ctx, rule):
    d = Definitions(ctx)
    q = MOD + "._standard_gases"
    loc = ctx.loc(d.f)
    if d.why:
        raise Unknown("definitions: " + d.why)
    for p in d.problems:
        ctx.bad(rule, q, p, loc)
    node = table_node(ctx)
    keys = []
    if isinstance(node, ast.Dict) and all(isinstance(k, ast.Constant) for k in node.keys):
        seen = {}
        for k, v in zip(node.keys, node.values):
            if k.value in seen and ast.dump(seen[k.value]) != ast.dump(v):
                ctx.bad("U04.unique", q, "%s is defined twice in the table" % k.value, (MOD.replace(".", "/") + ".py", k.lineno, q))
            else:
                ctx.holds("U04.unique", q)
            seen[k.value] = v
        keys = list(seen)
    # a name has one meaning
    for n, exprs in d.order.items():
        vals = []
        for e in exprs:
            v = d.expr(e, (n,))
            if v is None and not re.fullmatch(r"\[\w+\]", e):
                ctx.bad("U04.defined", q, "%s is defined by %s, which refers to an undefined unit" % (n, e), loc)
                vals = []
                break
            vals.append(v)
        if not vals:
            continue
        if any(v != vals[0] for v in vals):
            ctx.bad("U04.unique", q, "%s is defined as %s" % (n, " and as ".join(exprs)), loc)
        else:
            ctx.holds("U04.unique", q)
    # base units have dimensions of their own
    dims = {}
    for n, e, _ in d.defs:
        m = re.fullmatch(r"\[(\w+)\]", e)
        if m:
            if dims.setdefault(m.group(1), n) != n:
                ctx.bad("U04.dimension", q, "%s and %s share the dimension %s" % (n, dims[m.group(1)], e), loc)
            elif m.group(1) in ("mass", "time", "length", "current", "temperature", "substance", "luminosity"):
                ctx.bad("U04.dimension", q, "%s is defined by the physical dimension %s" % (n, e), loc)
            else:
                ctx.holds("U04.dimension", q)
    # molar masses
    for n in keys:
        v = d.value(n)
        if v is None or len(v[1]) != 1:
            continue
        c, base = v[0], d.base_symbol(v[1][0][0])
        if base is None or base == n or c == 1:
            if c != 1:
                ctx.bad("U04.molar", q, "%s is %s %s" % (n, c, v[1][0][0]), loc)
            elif base is not None and base != n and molar(n) is not None and molar(base) is not None and n in FORMULAS:
                ctx.bad("U04.molar", q, "%s is the same as %s" % (n, base), loc)
            continue
        want = RATIOS.get(n)
        if re.fullmatch(r"[A-Za-z]\w*", d.order[n][-1]) and n not in FORMULAS:
            ctx.holds("U04.molar", q)  # another name
            continue
        if want is None:
            if molar(n) is None or molar(base) is None:
                ctx.unk("U04.molar", q, "molar mass of %s" % n)
                continue
            want = Fraction(molar(base), molar(n))
        if c == want:
            ctx.holds("U04.molar", q)
        else:
            ctx.bad("U04.molar", q, "%s is %s %s instead of %s" % (n, c, base, want), loc)
    for n, m in SAME:
        if n not in d.order:
            ctx.bad("U04.alias", q, "%s is not defined" % n, loc)
        elif d.value(n) == d.value(m):
            ctx.holds("U04.alias", q)
        else:
            ctx.bad("U04.alias", q, "%s is not the same as %s" % (n, m), loc)
    # upper case and joint units
    for n in keys:
        for m in sorted({n, n.upper()}):
            want = d.value(n)
            if m not in d.order:
                ctx.bad("U04.case", q, "%s is not defined" % m, loc)
                continue
            if d.value(m) == want:
                ctx.holds("U04.case", q)
            else:
                ctx.bad("U04.case", q, "%s is not the same as %s" % (m, n), loc)
            for p in "gt":
                if p + m not in d.order:
                    ctx.bad("U04.joint", q, "the unit %s is not defined" % (p + m), loc)
                    continue
                v = d.value(p + m)
                if want is not None and v == (want[0], tuple(sorted(want[1] + (("unit " + p, 1),)))):
                    ctx.holds("U04.joint", q)
                else:
                    ctx.bad("U04.joint", q, "%s is not %s times %s" % (p + m, p, m), loc)
    # other units
    for n, c, u in OTHER:
        v = d.resolve(n) if n in d.order else None
        if n not in d.order:
            ctx.bad("U04.other", q, "the unit %s is not defined" % n, loc)
        elif v == (Fraction(c), u):
            ctx.holds("U04.other", q)
        else:
            ctx.bad("U04.other", q, "%s is defined as %s" % (n, d.order[n][-1]), loc)
    for a in ("annum", "yr"):
        if a in d.order and d.resolve(a) == d.resolve("a"):
            ctx.holds("U04.other", q)
        else:
            ctx.bad("U04.other", q, "%s is not the same as a" % a, loc)


FORMULAS = {"CO2", "CH4", "N2O", "NH3", "SO2", "CO", "N2ON"}
OTHER = [("a", 1, "unit year"), ("h", 1, "unit hour"), ("d", 1, "unit day"), ("kt", 1000, "unit t"), ("degreeC", 1, "unit degC"), ("degreeF", 1, "unit degF"),
         ("ppt", 1, "concentrations"), ("ppb", 1000, "concentrations"), ("ppm", 1000000, "concentrations")]


RULES = {
    "U01": {"rules": [affine, unit_names], "explain": "The value-flow of UnitConverter.__init__ and convert_from/convert_to is composed and compared as rational normal form with k -> A k + B and its inverse, on all paths.",
            "assumptions": ["pint converts between two units by an affine map k -> A k + B"]},
    "U02": {"rules": [scoped], "explain": "On all paths of the converter the contexts active at each conversion are those asked for; contexts are loaded before use; every context that is built is registered; nobody enables contexts without disabling."},
    "U03": {"rules": [transformations], "explain": "Every transformation registered on the contexts (as function terms) is composed with its counterpart and reduced algebraically; units and factors are compared with the table of gases and molar masses."},
    "U04": {"rules": [gas_table], "explain": "The unit definitions generated from the literal table are enumerated by constant propagation and evaluated exactly."},
}
