"""Rules about the model facade, adapters and DICE (A01-A06)"""
import ast

from ..algebra import Algebra, DivisionByZero, R
from ..check import Unknown, implied
from ..interp import Event
from ..terms import cval, is_num, is_str, sub
from .util import *

AD = "openscm.adapters.Adapter"
LOAD = "openscm.adapters.load_adapter"
CACHE = "openscm.adapters._loaded_adapters"
OS = "openscm.core.OpenSCM"
PSET = "openscm.core.parameterset.ParameterSet"
DICE = "openscm.adapters.dice.DICE"
DM = "openscm.adapters.dice"
ERR = "openscm.errors."
PTYPE = "openscm.core.parameters.ParameterType"


def hooks(q):
    return q.startswith("openscm.core.") or q in HOOKQ


def core(q):
    return q.startswith("openscm.core.")


HOOKS = [("initialize_model_input", "_initialize_model_input"), ("initialize_run_parameters", "_initialize_run_parameters"),
         ("reset", "_reset"), ("run", "_run"), ("step", "_step")]


HOOKQ = {AD + "._initialize_model"} | {AD + "." + h for _, h in HOOKS}


def hookcalls(o, me):
    """Calls of the hooks of the model on a path: list of names; loops make it unknown"""
    r = []
    for e in o.events:
        if e.kind == "rcall" and e.a[0].args[0] in HOOKQ and e.a[0].args[1][:1] == (me,):
            r.append(e.a[0].args[0].rsplit(".", 1)[1])
        elif e.kind in ("loop", "iteration"):
            if any(x.kind == "rcall" for c, ev in (e.a[1] if e.kind == "loop" else ()) for x in ev):
                raise Unknown("calls of the model in a loop")
    return r


# ---------------------------------------------------------------------- A01
def base(ctx):
    cls = ctx.p.need_class(AD)
    if not all(q.rsplit(".", 1)[1] in cls.methods for q in HOOKQ):
        ctx.unk("A01.hooks", AD, "methods which models implement")
        return
    for name, hook in HOOKS:
        ctx.guard("A01." + name, AD + "." + name, _public, ctx, AD + "." + name, name, hook)
    ctx.guard("A01.flag", AD, _flag, ctx)
    for c in concrete_adapters(ctx):
        ctx.guard("A01.step", c, _step_time, ctx, c)
        ctx.guard("A01.overrides", c, _overrides, ctx, c)


def concrete_adapters(ctx):
    return sorted(q for q in ctx.p.classes if q != AD and any(c.qualname == AD for c in ctx.p.mro(q)[0]))


def flag_atoms(o, me):
    return [(a, v) for a, v in o.order if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[0] is me]


def _public(ctx, q, name, hook):
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    me = self_of(AD)
    rule = "A01." + name
    init = name.startswith("initialize")
    n = 0
    for o in ctx.run(q, opaque=hooks, volatile=("value", "values")):
        calls = hookcalls(o, me)
        if o.kind == "raise":
            ctx.bad(rule, q, desc(o), loc)
            continue
        n += 1
        want = [hook]
        if init:
            fl = flag_atoms(o, me)
            if len(fl) > 1:
                raise Unknown("conditions %s" % ", ".join(show(a) for a, _ in fl))
            if not fl:
                if "_initialize_model" in calls:
                    ctx.bad(rule, q, "the model may be initialised again", loc)
                else:
                    ctx.bad(rule, q, "the model is not initialised before", loc)
                continue
            a, v = fl[0]
            cell = a.args[0]
            if not v:
                want = ["_initialize_model", hook]
                st = [i for i, e in enumerate(o.events) if e.kind == "setattr" and e.a[0] is me and e.a[1] == cell.args[1]]
                ic = [i for i, e in enumerate(o.events) if e.kind == "rcall" and e.a[0].args[0].endswith("._initialize_model")]
                if o.heap.get((me, cell.args[1])) is not TRUE:
                    ctx.bad(rule, q, "it is not kept that the model is initialised", loc)
                    continue
                if ic and st and st[0] < ic[0]:
                    ctx.bad(rule, q, "a failed initialisation counts as initialisation", loc)
                    continue
            elif changes_field(o, me, cell.args[1]):
                ctx.bad(rule, q, "the model is marked as not initialised", loc)
                continue
        if calls == want:
            ctx.holds(rule, q)
        else:
            ctx.bad(rule, q, "the model gets the calls %s instead of %s" % (", ".join(calls) or "none", ", ".join(want)), loc)
            continue
        if name == "reset":
            got = o.heap.get((me, "_current_time"), attr(me, "_current_time"))
            cur = current_field(ctx)
            got = o.heap.get((me, cur), attr(me, cur))
            ok = start_time(got, me, o)
            if ok is True:
                ctx.holds("A01.time", q)
            else:
                ctx.bad("A01.time", q, "the current time is set to %s" % show(got)[:100], loc)
    if not n:
        ctx.bad(rule, q, "no path returns", loc)


def current_field(ctx):
    """Field with the current time (what step returns)"""
    me = self_of(AD)
    r = {o.value for o in ctx.run(AD + ".step", opaque=hooks) if o.kind == "return"}
    if len(r) == 1:
        (v,) = r
        if v.op == "attr" and v.args[0] is me:
            return v.args[1]
    raise Unknown("result of step")


def start_time(t, me, o):
    """Is it the start time of the inputs?"""
    if t.op == "attr" and t.args[0] is me:
        return False
    if t.op in ("attr", "rcall"):
        x = t.args[0] if t.op == "attr" else t.args[1][0] if t.args[1] else None
        what = t.args[1] if t.op == "attr" else t.args[0].rsplit(".", 1)[-1]
        if isinstance(x, T) and x.op == "rcall" and x.args[0] == PSET + ".generic" and what == "value":
            ps, name = x.args[1][:2]
            if ps.op != "attr" or ps.args[0] is not me:
                raise Unknown("parameter set %s" % show(ps))
            if name.op == "tuple" and len(name.args) == 1:
                name = name.args[0]
            if is_str(name) and ps.args[1] == input_field(o.it.p):
                return cval(name) == "Start Time"
            if is_str(name):
                return False
    if is_const(t):
        return False
    raise Unknown("current time %s" % show(t))


def input_field(p):
    """Field of the adapter with the inputs"""
    from ..check import Ctx

    c = Ctx(p)
    f = p.need_function(AD + ".__init__")
    me = self_of(AD)
    for o in c.run(f.qualname, opaque=hooks):
        for k, v in o.heap.items():
            if k[0] is me and v is param(c, f, 1):
                return k[1]
    raise Unknown("field with the inputs")


def changes_field(o, me, name):
    return any(e.kind == "setattr" and e.a[0] is me and e.a[1] == name and e.a[2] is not TRUE for e in o.flat())


def _flag(ctx):
    me = self_of(AD)
    flags = set()
    for name, _ in HOOKS[:2]:
        for o in ctx.run(AD + "." + name, opaque=hooks, volatile=("value", "values")):
            flags |= {a.args[0].args[1] for a, _ in flag_atoms(o, me)}
    if len(flags) != 1:
        if len(flags) > 1:
            ctx.bad("A01.flag", AD, "different marks %s for one initialisation" % ", ".join(sorted(flags)), ctx.loc(AD + ".initialize_model_input"))
        return
    (fl,) = flags
    ctx.holds("A01.flag", AD)
    q = AD + ".__init__"
    for o in ctx.run(q, opaque=hooks):
        if o.heap.get((me, fl)) is FALSE:
            ctx.holds("A01.flag", q)
        else:
            ctx.bad("A01.flag", q, "a new adapter counts as initialised", ctx.loc(q))
    for name, _ in HOOKS:
        for o in ctx.run(AD + "." + name, opaque=hooks, volatile=("value", "values")):
            if changes_field(o, me, fl):
                ctx.bad("A01.flag", AD + "." + name, "the mark of initialisation is taken away", ctx.loc(AD + "." + name))


def _overrides(ctx, c):
    """Adapters do not replace the methods of the base class or its state"""
    cls = ctx.p.need_class(c)
    for name, _ in HOOKS:
        if name in cls.methods:
            ctx.unk("A01.overrides", c + "." + name, "replaces the method of the base class")
        else:
            ctx.holds("A01.overrides", c + "." + name)


def _step_time(ctx, c):
    q = AD + ".step"
    if "step" in ctx.p.need_class(c).methods:
        raise Unknown("own step")
    me = self_of(c)
    cur = current_field(ctx)
    w = dice_world(ctx) if c == DICE else None
    for o in ctx.run(q, opaque=core, cls=c, volatile=("value", "values")):
        if o.kind != "return":
            continue
        after = o.heap.get((me, cur))
        if after is None:
            ctx.unk("A01.step", c, "time is not advanced")
        elif o.value is after:
            ctx.holds("A01.step", c)
        else:
            ctx.bad("A01.step", c, "step returns %s instead of the time after the step, %s" % (show(o.value)[:80], show(after)[:80]), ctx.loc(q))


# ---------------------------------------------------------------------- A02
def loading(ctx):
    ctx.p.need_function(LOAD)
    ctx.guard("A02.load", LOAD, _loading, ctx)
    ctx.guard("A02.load", LOAD, _any_name, ctx)


def cached(a):
    """Is the atom a question to the cache?"""
    return any(x.op in ("global", "gvar", "sym", "module", "attr") and "_loaded_adapters" in show(x)[-40:] for x in walk(a)) or "_loaded_adapters" in show(a)


def _loading(ctx):
    f = ctx.p.need_function(LOAD)
    loc = ctx.loc(f)
    name = param(ctx, f, 0)
    names = {}
    for c in concrete_adapters(ctx):
        names[c.rsplit(".", 1)[1]] = c
    others = ["", "dice", "Dice", "DICE ", "NAME", "_DICE"] + [n.lower() for n in names]
    for n in list(names) + [x for x in others if x not in names]:
        construct = "%s(%r)" % (LOAD, n)
        outs = ctx.run(LOAD, args={name.args[0]: const(n)})
        found = 0
        for o in outs:
            hit = [(a, v) for a, v in o.order if cached(a)]
            w = [e for e in o.flat() if e.kind in ("setitem", "delitem", "mutcall") and "_loaded_adapters" in show(e.a[0])]
            if o.kind == "return" and o.value.op == "class":
                found += 1
                if names.get(n) != o.value.args[0]:
                    ctx.bad("A02.load", construct, "gives %s" % show(o.value), loc)
                    continue
                bad = [e for e in w if not (e.kind == "setitem" and e.a[1] is const(n) and e.a[2] is o.value)]
                if any(e.kind == "mutcall" for e in bad):
                    raise Unknown("change of the cache")
                if bad:
                    ctx.bad("A02.cache", construct, "stores %s for %s" % (show(bad[0].a[-1]), show(bad[0].a[1])), loc)
                else:
                    ctx.holds("A02.load", construct)
                    ctx.holds("A02.cache", construct)
            elif o.kind == "return":
                # from the cache: what is stored for this name
                v = o.value
                if v.op in ("dget", "item") and "_loaded_adapters" in show(v.args[0]):
                    if v.args[1] is const(n):
                        ctx.holds("A02.stable", construct)
                    else:
                        ctx.bad("A02.stable", construct, "gives what is stored for %s" % show(v.args[1]), loc)
                elif v is NONE:
                    ctx.bad("A02.load", construct, "gives nothing", loc)
                else:
                    raise Unknown("result %s" % show(v))
            else:
                x = o.exc()
                missing = any(e.kind == "implicit_raise" and "ImportError" in str(e.a[0]) or e.kind == "implicit_raise" and "ModuleNotFound" in str(e.a[0]) for e in o.flat())
                want = ERR + "AdapterNeedsModuleError" if missing else "builtins.KeyError"
                if w:
                    ctx.bad("A02.cache", construct, "a failed look-up changes what is stored", loc)
                elif missing and n in names:
                    ctx.holds("A02.missing", construct) if x == want else ctx.bad("A02.missing", construct, "a missing dependency raises %s" % x, loc)
                elif n not in names:
                    ctx.holds("A02.unknown", construct) if x == want else ctx.bad("A02.unknown", construct, "raises %s" % x, loc)
                else:
                    ctx.bad("A02.load", construct, "raises %s" % x, loc)
        if n in names and not found:
            ctx.bad("A02.load", construct, "does not give %s" % names[n], loc)
        if n in names and not any(o.exc() == ERR + "AdapterNeedsModuleError" for o in outs):
            ctx.bad("A02.missing", construct, "a missing dependency does not raise AdapterNeedsModuleError", loc)


def _any_name(ctx):
    f = ctx.p.need_function(LOAD)
    loc = ctx.loc(f)
    name = param(ctx, f, 0)
    for o in ctx.run(LOAD):
        if o.kind == "return" and o.value.op == "class":
            n = o.value.args[0].rsplit(".", 1)[1]
            if implied(o, o.it.eqatom(name, const(n))) is True:
                ctx.holds("A02.load", LOAD)
            else:
                ctx.bad("A02.load", LOAD, "gives %s for other names" % n, loc)
        elif o.kind == "return" and o.value is NONE:
            ctx.bad("A02.load", LOAD, "unknown names give nothing", loc)
        elif o.kind == "return" and cached(o.value) and not contains(o.value, name) and not any(contains(a, name) for a, _ in o.order):
            ctx.bad("A02.stable", LOAD, "gives %s for every name" % show(o.value)[:80], loc)


# ---------------------------------------------------------------------- A06
def fopaque(q):
    return q == LOAD or q.startswith(PSET) or q.startswith(AD + ".")


CALLS = {"reset_stepping": ["initialize_model_input", "initialize_run_parameters", "reset"],
         "run": ["initialize_model_input", "initialize_run_parameters", "reset", "run"], "step": ["step"]}


def facade(ctx):
    ctx.p.need_class(OS)
    ctx.guard("A06.init", OS + ".__init__", _facade_init, ctx)
    for name, want in CALLS.items():
        ctx.guard("A06.calls", OS + "." + name, _facade_calls, ctx, OS + "." + name, name, want)


def _facade_init(ctx):
    q = OS + ".__init__"
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    me = self_of(OS)
    model, inp, out = (param(ctx, f, i) for i in (1, 2, 3))
    falsy = any(m in c.methods for c in ctx.p.mro(PSET)[0] for m in ("__len__", "__bool__"))
    model_field = _model_field(ctx)
    a = f.node.args
    dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else [], a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for par in (inp, out):
        d = dflt.get(par.args[0])
        if d is None:
            ctx.bad("A06.default", q, "%s have to be given" % par.args[0], loc)
        elif isinstance(d, ast.Constant) and d.value is None:
            ctx.holds("A06.default", q)
        elif isinstance(d, ast.Call):
            ctx.bad("A06.default", q, "all models without given %s share one object" % par.args[0], loc)
        else:
            raise Unknown("default of %s" % par.args[0])
    for o in ctx.run(q, opaque=fopaque):
        if o.kind != "return":
            ctx.bad("A06.init", q, desc(o), loc)
            continue
        fs = {k[1]: v for k, v in o.heap.items() if k[0] is me}
        ms = {attr(me, k): v for k, v in fs.items()}

        def prop(name):
            r = set()
            for x in ctx.run(OS + "." + name):
                if x.kind != "return":
                    raise Unknown("property %s raises" % name)
                r.add(sub(x.value, ms))
            if len(r) != 1:
                raise Unknown("property %s" % name)
            return r.pop()

        got = {}
        for what, par, name in (("inputs", inp, "parameters"), ("outputs", out, "output")):
            none = implied(o, mk("isnone", par))
            if none is None and not falsy and implied(o, btruth(par)) is not None:
                none = not implied(o, btruth(par))
            v = prop(name)
            got[name] = v
            if none is False or none is None and v is par:
                if none is None and v is par:
                    # no condition on the argument: None is not replaced
                    ctx.bad("A06.init", q, "%s of None are used" % what, loc)
                elif v is not par:
                    ctx.bad("A06.init", q, "the given %s are not used, but %s" % (what, show(v)), loc)
                else:
                    ctx.holds("A06.init", q)
            elif none is True:
                if v.op in ("new", "rnew") and v.args[0] == PSET:
                    ctx.holds("A06.init", q)
                elif v.op in ("const", "sym", "attr"):
                    ctx.bad("A06.init", q, "%s are %s when none are given" % (what, show(v)), loc)
                else:
                    raise Unknown("%s %s" % (what, show(v)))
            elif implied(o, btruth(par)) is False:
                ctx.bad("A06.init", q, "given %s may be replaced when they are empty" % what, loc)
            else:
                raise Unknown("condition on %s" % what)
        if got["parameters"] is got["output"] and implied(o, mk("isnone", inp)) is True and implied(o, mk("isnone", out)) is True:
            ctx.bad("A06.init", q, "inputs and outputs are the same object", loc)
        if prop("model") is model:
            ctx.holds("A06.name", q)
        else:
            ctx.bad("A06.name", q, "the name of the model is %s" % show(prop("model")), loc)
        m = fs.get(model_field)
        if m is None:
            ctx.bad("A06.model", q, "no model is created", loc)
            continue
        if m.op == "call" and m.args[0] is rc(LOAD, model):
            a = dict(enumerate(m.args[1]))
            for k, v in m.args[2]:
                a[{"input_parameters": 0, "output_parameters": 1}.get(k, k)] = v
            if set(a) == {0, 1} and a[0] is got["parameters"] and a[1] is got["output"]:
                ctx.holds("A06.model", q)
            else:
                ctx.bad("A06.model", q, "the model is created with %s" % ", ".join(show(x) for x in a.values()), loc)
        else:
            raise Unknown("model %s" % show(m))


def _model_field(ctx):
    me = self_of(OS)
    r = set()
    for o in ctx.run(OS + ".step", opaque=fopaque):
        for t in rcalls(o):
            if t.args[0].startswith(AD + ".") and t.args[1] and t.args[1][0].op == "attr" and t.args[1][0].args[0] is me:
                r.add(t.args[1][0].args[1])
    if len(r) != 1:
        raise Unknown("field with the model")
    return r.pop()


def _facade_calls(ctx, q, name, want):
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    me = self_of(OS)
    field = _model_field(ctx)
    for o in ctx.run(q, opaque=fopaque):
        if o.kind != "return":
            ctx.bad("A06.calls", q, desc(o), loc)
            continue
        got, last = [], None
        for e in o.events:
            if e.kind == "rcall" and e.a[0].args[0].startswith(AD + "."):
                if e.a[0].args[1][0] is not attr(me, field):
                    raise Unknown("model %s" % show(e.a[0].args[1][0]))
                got.append(e.a[0].args[0].rsplit(".", 1)[1])
                last = e.a[0]
            elif e.kind in ("loop", "iteration"):
                raise Unknown("loop")
        if got != want:
            ctx.bad("A06.calls", q, "the model gets the calls %s instead of %s" % (", ".join(got) or "none", ", ".join(want)), loc)
        elif name == "step" and o.value is not last:
            ctx.bad("A06.calls", q, "step returns %s" % show(o.value), loc)
        else:
            ctx.holds("A06.calls", q)


# ---------------------------------------------------------------------- DICE
POOLS = ("mat", "ml", "mu")
STATES = ("mat", "ml", "mu", "tatm", "tocean", "forc")


def fold(t, m):
    """Substitution with evaluation of items of literal tuples and comparisons of constants"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x in m:
            r = m[x]
        elif not any(isinstance(y, (T, tuple)) for y in x.args):
            r = x
        else:
            r = mk(x.op, *[go(y) for y in x.args])
            if r.op == "item" and r.args[0].op in ("tuple", "list") and is_num(r.args[1]):
                r = r.args[0].args[cval(r.args[1])]
            elif r.op == "isnone" and (is_const(r.args[0]) or r.args[0].op in ("tuple", "list", "call", "ext")):
                r = TRUE if r.args[0] is NONE else FALSE
            elif r.op == "eq" and all(is_const(y) for y in r.args):
                r = TRUE if r.args[0] is r.args[1] else FALSE
            elif r.op == "truth" and is_const(r.args[0]):
                r = TRUE if cval(r.args[0]) else FALSE
        memo[x] = r
        return r

    return go(t)


def cases(events):
    """Events in order with their conditions; loops over literal tables are expanded: (conditions, event)"""
    for e in events:
        if e.kind == "loop":
            it = e.a[0]
            d = it.args[0] if it.op == "mcall" and it.args[1] in ("items", "values", "keys") else it
            if d.op == "dict":
                ms = [{mk("key", d): k, mk("val", d): v, mk("elem", d): k} for k, v in d.args]
            elif d.op in ("list", "tuple"):
                ms = [{mk("elem", d): x} for x in d.args]
            else:
                for cs, evs in e.a[1]:
                    for c2, x in cases(evs):
                        yield tuple(cs) + c2, x
                continue
            for m in ms:
                for cs, evs in e.a[1]:
                    c1 = [(fold(a, m), v) for a, v in cs]
                    if any(a is (FALSE if v else TRUE) for a, v in c1):
                        continue
                    c1 = tuple((a, v) for a, v in c1 if not (a is TRUE or a is FALSE))
                    for c2, x in cases(evs):
                        c2 = tuple((fold(a, m), v) for a, v in c2)
                        yield c1 + c2, Event(x.kind, tuple(fold(y, m) if isinstance(y, T) else y for y in x.a), x.loc, x.nfacts)
        else:
            yield (), e


def attr_name(e):
    """Name of the attribute which is set"""
    if e.a[1] != "?":
        return e.a[1]
    if len(e.a) > 3 and is_str(e.a[3]):
        return cval(e.a[3])
    raise Unknown("name of an attribute %s" % show(e.a[3])[:60])


class World:
    """Views of DICE"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.me = self_of(DICE)
        self.views = {}   # name -> (kind, parameter set field, name, unit)
        self.inputs = input_field(ctx.p)
        q = DICE + "._initialize_model"
        self.model = ctx.run(q, opaque=core, volatile=("value", "values"))
        self.runs = ctx.run(DICE + "._initialize_run_parameters", opaque=core, volatile=("value", "values"))
        self.field = None
        for o in self.model:
            for e in o.flat():
                if e.kind == "setattr" and e.a[0] is self.me and e.a[2].op == "call" and "namedtuple" in show(e.a[2])[:60]:
                    self.field = e.a[1]
        if self.field is None:
            f = {e.a[0].args[1] for o in self.runs for e in o.flat() if e.kind == "setattr" and e.a[0].op == "attr" and e.a[0].args[0] is self.me}
            if len(f) != 1:
                raise Unknown("object with the views")
            self.field = f.pop()
        self.v = attr(self.me, self.field)
        for outs in (self.model, self.runs):
            for o in outs:
                if o.kind != "return":
                    continue
                holder = o.heap.get((self.me, self.field), self.v)
                for cs, e in cases(o.events):
                    if e.kind == "setattr" and e.a[0] in (holder, self.v):
                        self.view(attr_name(e), e.a[2], o, cs)

    def view(self, name, t, o, cs):
        self.views.setdefault(name, []).append((t, o, cs))

    def kind(self, t):
        """(kind, parameter set, name, unit, more arguments) of a view"""
        if t.op != "rcall" or not t.args[0].startswith(PSET + "."):
            raise Unknown("view %s" % show(t)[:80])
        k = t.args[0].rsplit(".", 1)[1]
        f = self.ctx.p.need_function(t.args[0])
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        a = dict(zip(names, t.args[1]))
        for x, y in t.args[2]:
            a[x] = y
        ps = a[names[0]]
        return k, ps, a.get(names[1]), a


_worlds = {}


def dice_world(ctx):
    r = _worlds.get(id(ctx))
    if r is None or r[0] is not ctx:
        _worlds.clear()
        r = _worlds[id(ctx)] = (ctx, World(ctx))
    return r[1]


VOL = ("value", "values")


class Formula:
    """Algebra over the state of DICE"""

    def __init__(self, w, subst):
        self.w = w
        self.subst = subst
        self.T = None
        self.al = Algebra(self.leaf)
        self.now = {}
        self.cur = {}
        self.step = attr(w.me, w.step_field)
        self.T = self.al.atom("timestep")

    def leaf(self, t):
        w, al = self.w, self.al
        if t in self.subst:
            return self.subst[t]
        if t is attr(w.me, w.step_field):
            return self.al.atom("timestep")
        if t is attr(w.me, w.cur_field):
            return al.add(al.atom("start_time"), al.mul(al.atom("period_length"), al.atom("timestep")))
        if t.op == "attr" and t.args[1] == "value" and t.args[0].op == "attr" and t.args[0].args[0] is w.v:
            return al.atom(t.args[0].args[1])
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "values" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[0] is w.v:
            n = t.args[0].args[0].args[1]
            i = self.index(t.args[1])
            if i is None:
                return None
            if i == 1:
                return self.cur[n] if n in self.cur else al.atom(n + "[t]")
            return al.atom("%s[t%+d]" % (n, i - 1))
        if t.op == "call":
            n = call_name(t)
            if n == "numpy.timedelta64" and is_num(t.args[1][0]) and len(t.args[1]) > 1 and is_str(t.args[1][1]):
                k = {"D": 86400, "s": 1, "h": 3600, "m": 60, "W": 604800}.get(cval(t.args[1][1]))
                if k:
                    return al.mul(al.const(k * cval(t.args[1][0])), al.atom("second"))
            if n in ("builtins.int", "builtins.round", "math.floor", "math.ceil", "math.trunc", "numpy.floor", "numpy.ceil", "numpy.round") and len(t.args[1]) == 1 and not t.args[2]:
                return al.atom(n, (al(t.args[1][0]),))
            if n in ("numpy.clip",) and len(t.args[1]) == 3 and not t.args[2]:
                x, lo, hi = t.args[1]
                return al(mk("call", ext("builtins.max"), (lo, mk("call", ext("builtins.min"), (hi, x), ())), ()))
            if n in ("math.log2", "numpy.log2", "math.log", "numpy.log", "math.log10", "numpy.log10"):
                return self.log(n.split(".")[1], t)
        return None

    def log(self, f, t):
        al = self.al
        x = al(t.args[1][0])
        b = al.const({"log2": 2, "log10": 10}.get(f, 1))
        if f == "log" and len(t.args[1]) == 2:
            b = al(t.args[1][1])
        elif f == "log":
            b = None
        r = al.const(0)
        for p, s in ((x.n, 1), (x.d, -1)):
            if len(p) != 1:
                return None
            (m, c), = p.items()
            if c <= 0:
                return None
            if c != 1:
                r = al.add(r, al.atom("log", (al.const(c),)), s)
            for k, e in m:
                r = al.add(r, al.mul(al.const(e * s), al.atom("log", (R({((k, 1),): 1}),))))
        return r if b is None else al.div(r, al.atom("log", (b,)))

    def index(self, t):
        """Index relative to the time step before"""
        d = self.al.add(self.al(t), self.al.atom("timestep"), -1)
        k = self.al.is_const(d)
        return None if k is None else int(k)

    def bounds(self, o):
        """Differences which are known to be at least 0 (or more than 0) on a path"""
        r = []
        for a, v in o.order:
            if a.op in ("lt", "le"):
                x, y = self.al(a.args[0]), self.al(a.args[1])
                d = self.al.add(y, x, -1)
                r.append(d if v else self.al.mul(self.al.const(-1), d))
        return r

    def nonneg(self, known, d):
        for k in known:
            q = None
            if not d.n:
                return True
            q = self.al.is_const(self.al.div(d, k)) if k.n else None
            if q is not None and q > 0:
                return True
        return False


def lockstep(al, known, got, wants):
    return any(al.eq(got, w) for w in wants)


class Step:
    """Paths of one time step"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.w = w = dice_world(ctx)
        w.cur_field = current_field(ctx)
        self.q = DICE + "._step"
        self.f = ctx.p.need_function(self.q)
        self.paths = ctx.run(self.q, opaque=core, volatile=VOL)
        self.resets = ctx.run(DICE + "._reset", opaque=core, volatile=VOL)
        # the time step: integer field of self that is used as index
        c = {}
        for o in self.paths:
            for e in o.flat():
                if e.kind == "setitem" and e.a[0].op == "attr" and e.a[0].args[1] == "values":
                    for x in walk(e.a[1]):
                        if x.op == "attr" and x.args[0] is w.me:
                            c[x.args[1]] = 1
        if len(c) != 1:
            raise Unknown("index of the time step")
        (w.step_field,) = c
        fields, unstable = {}, set()
        for o in self.resets:
            if o.kind != "return":
                raise Unknown("reset raises")
            for k, v in o.heap.items():
                if len(k) == 2 and k[0] in (w.me, w.v) and k[1] not in (w.step_field, w.cur_field):
                    t = attr(*k)
                    if t in fields and fields[t] is not v:
                        unstable.add(t)
                    fields[t] = v
        self.partial = {t for t in fields if any((t.args[0], t.args[1]) not in o.heap for o in self.resets)}
        unstable |= self.partial
        changed = {attr(e.a[0], e.a[1]) for o in self.paths for e in o.flat() if e.kind == "setattr" and e.a[1] != "?"}
        self.subst = {k: v for k, v in fields.items() if k not in changed and k not in unstable}

    def stores(self, o):
        """State written on a path: name -> (index, value term)"""
        r = {}
        w = self.w
        for e in o.events:
            if e.kind == "loop":
                for _, x in cases([e]):
                    if x.kind in ("setitem", "setattr"):
                        raise Unknown("state is stored in a loop")
            if e.kind in ("setitem", "augassign") and e.kind == "setitem":
                t = e.a[0]
                if t.op == "attr" and t.args[1] == "values" and t.args[0].op == "attr" and t.args[0].args[0] is w.v:
                    n = t.args[0].args[1]
                    if n in r:
                        raise Unknown("%s is stored twice" % n)
                    r[n] = (e.a[1], e.a[2])
                else:
                    raise Unknown("store to %s" % show(t)[:80])
        return r


_steps = {}


def dice_step(ctx):
    r = _steps.get(id(ctx))
    if r is None or r[0] is not ctx:
        _steps.clear()
        r = _steps[id(ctx)] = (ctx, Step(ctx))
    return r[1]


def equations(ctx):
    ctx.p.need_class(DICE)
    ctx.guard("A03.equations", DICE, _equations, ctx)
    ctx.guard("A03.initial", DICE, _initial, ctx)
    ctx.guard("A03.units", DICE, _units, ctx)


def rounding(o, w):
    return implied(o, btruth(attr(w.v, "original_rounding", "value")))


def emission_units(ctx, w):
    """original_rounding -> unit in which emissions are read"""
    r = {}
    for t, o, cs in w.views.get("E", ()):
        k, ps, n, a = w.kind(t)
        u = a.get("unit")
        f = rounding(o, w)
        for b in ((True, False) if f is None else (f,)):
            if u is None or not is_str(u):
                raise Unknown("unit of emissions %s" % show(u))
            r.setdefault(b, set()).add(cval(u))
    return r


def _equations(ctx):
    s = dice_step(ctx)
    w = s.w
    units = emission_units(ctx, w)
    q = DICE + "._step"
    n = 0
    for o in s.paths:
        if o.kind != "return":
            ctx.bad("A03.equations", q, desc(o), ctx.loc(s.f))
            continue
        n += 1
        ctx.guard("A03.equations", q, _equation_path, ctx, s, o, units, q)
    ctx.guard("A03.conservation", DICE, _conservation, ctx, s)
    if not n:
        ctx.bad("A03.equations", q, "no step is calculated", ctx.loc(s.f))


def _equation_path(ctx, s, o, units, q):
    w = s.w
    F = Formula(w, s.subst)
    al = F.al
    loc = ctx.loc(s.f)
    st = s.stores(o)
    for e in o.flat():
        if e.kind == "augassign" and e.a[0].op == "item":
            raise Unknown("state is updated in place")
    missing = [n for n in STATES if n not in st]
    if missing:
        ctx.bad("A03.equations", q, "%s is not calculated" % ", ".join(missing), loc)
        return
    val = {}
    # values in the order in which they are stored
    for e in o.events:
        if e.kind == "setitem" and e.a[0].op == "attr" and e.a[0].args[0].op == "attr":
            nm = e.a[0].args[0].args[1]
            i = F.index(e.a[1])
            if i is None:
                raise Unknown("index %s" % show(e.a[1])[:60])
            if i != 1:
                ctx.bad("A03.equations", q, "%s of step %+d is set" % (nm, i - 1), loc)
                return
            val[nm] = F.cur[nm] = al(e.a[2])
    known = F.bounds(o)

    def A(x):
        return al.atom(x)

    def prev(x):
        return al.atom(x + "[t-1]")

    def add(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = al.add(r, x)
        return r

    def mul(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = al.mul(r, x)
        return r

    one = al.const(1)
    b12, b23 = A("b12"), A("b23")
    b21 = al.div(mul(b12, A("mateq")), A("mueq"))
    b32 = al.div(mul(b23, A("mueq")), A("mleq"))
    year = al.mul(al.const(365 * 86400), al.atom("second"))
    r = rounding(o, w)
    wants = []
    for b in ((True, False) if r is None else (r,)):
        for u in units.get(b, ()):
            k = {("GtCO2/a", True): al.const(number("3.666")), ("GtCO2/a", False): al.div(al.const(44), al.const(12)), ("GtC/a", False): one}.get((u.replace(" ", ""), b))
            if k is None:
                if u.replace(" ", "") in ("GtC/a", "GtCO2/a"):
                    ctx.bad("A03.emissions", q, "emissions in %s are used with the original rounding" % u, loc)
                    return
                raise Unknown("emissions in %s" % u)
            wants.append(k)
    x_mat = None
    res = []
    for k in wants:
        e_term = al.div(mul(prev("E"), al.div(A("period_length"), year)), k)
        x_mat = add(mul(prev("mat"), al.add(one, b12, -1)), mul(prev("mu"), b21), e_term)
        res.append(check_max(F, known, val["mat"], [("max", A("mat_lower"))], x_mat))
    report(ctx, F, q, "mat", val["mat"], all(res), res and bool(res), loc, x_mat)
    eqs = {
        "ml": ([("max", A("ml_lower"))], add(mul(prev("ml"), al.add(one, b32, -1)), mul(prev("mu"), b23))),
        "mu": ([("max", A("mu_lower"))], add(mul(prev("mat"), b12), mul(prev("mu"), al.add(al.add(one, b21, -1), b23, -1)), mul(prev("ml"), b32))),
        "tocean": ([("max", A("tocean_lower")), ("min", A("tocean_upper"))],
                   add(prev("tocean"), mul(A("c4"), al.add(prev("tatm"), prev("tocean"), -1)))),
    }
    for nm, (b, x) in eqs.items():
        report(ctx, F, q, nm, val[nm], check_max(F, known, val[nm], b, x), True, loc, x)
    # forcing
    elapsed = mul(A("period_length"), al.add(F.T, one))
    span = al.add(A("forcoth_saturation_time"), A("start_time"), -1)
    d = al.add(span, elapsed, -1)   # time left until saturation
    lin = al.add(A("fex0"), al.div(mul(al.add(A("fex1"), A("fex0"), -1), elapsed), span))
    co2 = al.div(mul(A("fco22x"), al.add(F.al.atom("log", (single(al, val["mat"]),)), al.atom("log", (A("mateq"),)), -1)), al.atom("log", (al.const(2),)))
    ok = False
    g = val["forc"]
    clipped = al.add(A("fex0"), mul(al.add(A("fex1"), A("fex0"), -1), al.atom("min", (one, al.div(elapsed, span)))))
    if F.nonneg(known, d) and al.eq(g, al.add(co2, lin)):
        ok = True
    elif F.nonneg(known, al.mul(al.const(-1), d)) and al.eq(g, al.add(co2, A("fex1"))):
        ok = True
    elif al.eq(g, al.add(co2, clipped)):
        ok = True
    report(ctx, F, q, "forc", g, ok, True, loc, al.add(co2, clipped))
    # temperature
    x = add(prev("tatm"), mul(A("c1"), add(val["forc"], al.mul(al.const(-1), mul(al.div(A("fco22x"), A("t2xco2")), prev("tatm"))),
                                           al.mul(al.const(-1), mul(A("c3"), al.add(prev("tatm"), prev("tocean"), -1))))))
    report(ctx, F, q, "tatm", val["tatm"], check_max(F, known, val["tatm"], [("min", A("tatm_upper"))], x), True, loc, x)


def number(s):
    from fractions import Fraction

    return Fraction(s)


def single(al, r):
    """The value as a single atom (for use in functions)"""
    if len(r.n) == 1 and r.d == {(): 1}:
        (m, c), = r.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return r
    raise Unknown("mass in the atmosphere")


def check_max(F, known, got, bounds, x):
    """Is `got` the value x within its bounds on the path?"""
    al = F.al

    def ops(bs, v):
        for k, b in bs:
            v = al.atom(k, flat2(al, k, [b, v]))
        return v

    forms = [ops(bounds, x), ops(bounds[::-1], x)]
    if any(al.eq(got, f) for f in forms):
        return True
    # decided by conditions
    cands = [(x, [])] + [(b, [(k, b)]) for k, b in bounds]
    if al.eq(got, x):
        return all(F.nonneg(known, al.add(x, b, -1) if k == "max" else al.add(b, x, -1)) for k, b in bounds)
    for k, b in bounds:
        if al.eq(got, b):
            return F.nonneg(known, al.add(b, x, -1) if k == "max" else al.add(x, b, -1))
        one = al.atom(k, flat2(al, k, [b, x]))
        if al.eq(got, one):
            return all(F.nonneg(known, al.add(x, b2, -1) if k2 == "max" else al.add(b2, x, -1)) for k2, b2 in bounds if b2 is not b)
    return False


def flat2(al, k, xs):
    out = []
    for x in xs:
        out.extend(al.flat(x, k))
    return out


def report(ctx, F, q, nm, got, ok, sure, loc, want):
    rule = "A03.emissions" if nm == "mat" and not ok else "A03.equations"
    if ok:
        ctx.holds(rule, q + "[" + nm + "]")
        return
    lv = [t for t in F.al.leaves(got)]
    if lv:
        raise Unknown("%s depends on %s" % (nm, show(lv[0])[:80]))
    ctx.bad("A03.equations", q + "[" + nm + "]", "%s is %s" % (nm, F.al.show(got)[:300]), loc)


def _conservation(ctx, s):
    """Sum of the transition coefficients of each pool is 1"""
    w = s.w
    free = 0
    for o in s.paths:
        if o.kind != "return":
            continue
        F = Formula(w, s.subst)
        al = F.al
        st = s.stores(o)
        tot = {p: al.const(0) for p in POOLS}
        limited = False
        for nm in POOLS:
            v = al(st[nm][1])
            # argument that is not a bound
            if len(v.n) == 1 and v.d == {(): 1}:
                (m, c), = v.n.items()
                if len(m) == 1 and al.atoms[m[0][0]][0] in ("max", "min"):
                    args = [x for x in al.atoms[m[0][0]][1] if any(al.atoms[k][0].endswith("[t-1]") for p in x.n for k, _ in p)]
                    if len(args) == 1:
                        v = args[0]
            limited |= not al.leaves(v) and not any(al.atoms[k][0].endswith("[t-1]") for p in v.n for k, _ in p)
            for p in POOLS:
                tot[p] = al.add(tot[p], coefficient(al, v, p + "[t-1]"))
        if limited:
            continue
        free += 1
        for p in POOLS:
            if al.eq(tot[p], al.const(1)):
                ctx.holds("A03.conservation", DICE + "[" + p + "]")
            elif al.leaves(tot[p]):
                raise Unknown("coefficients of %s" % p)
            elif not tot[p].n:
                raise Unknown("%s is limited" % p)
            else:
                ctx.bad("A03.conservation", DICE + "[" + p + "]", "the coefficients of %s sum to %s" % (p, al.show(tot[p])[:200]), ctx.loc(s.f))
    if not free:
        raise Unknown("no path without bounds")


def coefficient(al, r, name):
    """Coefficient of an atom in a value which is linear in it"""
    k = [i for i, (n, a) in enumerate(al.atoms) if n == name]
    if not k:
        return al.const(0)
    (k,) = k
    n = {}
    for m, c in r.n.items():
        e = dict(m)
        if k in e:
            if e[k] != 1:
                raise Unknown("power of %s" % name)
            del e[k]
            n[tuple(sorted(e.items()))] = c
    if any(k in dict(m) for m in r.d):
        raise Unknown("division by %s" % name)
    return R(n, r.d)


def initial_values(ctx, s, o):
    """State after reset: name -> (length, first value)"""
    w = s.w
    r = {}
    pend = {}

    def first(t):
        """(length, first value) of an array"""
        t0 = strip_copy(t)
        if t0.op == "call":
            n = call_name(t0)
            if n in ("numpy.empty", "numpy.zeros", "numpy.ones") and t0.args[1]:
                return t0.args[1][0], pend.get(t0, const(0) if n == "numpy.zeros" else const(1) if n == "numpy.ones" else None)
            if n == "numpy.full" and len(t0.args[1]) >= 2:
                return t0.args[1][0], pend.get(t0, t0.args[1][1])
        raise Unknown("initial values %s" % show(t)[:60])

    for cs, e in cases(o.events):
        if e.kind == "setattr" and e.a[0].op == "attr" and e.a[0].args[0] is w.v and attr_name(e) == "values":
            r[e.a[0].args[1]] = first(e.a[2])
        elif e.kind == "setitem":
            t = e.a[0]
            if t.op == "attr" and t.args[1] == "values" and t.args[0].op == "attr" and t.args[0].args[0] is w.v:
                nm = t.args[0].args[1]
                if is_num(e.a[1]) and cval(e.a[1]) == 0:
                    r[nm] = (r.get(nm, (None, None))[0], e.a[2])
                elif not is_num(e.a[1]):
                    raise Unknown("initial values of %s" % nm)
            elif t.op == "call" and is_num(e.a[1]) and cval(e.a[1]) == 0:
                pend[t] = e.a[2]
            else:
                raise Unknown("store to %s" % show(t)[:60])
    return r


def _initial(ctx):
    s = dice_step(ctx)
    w = s.w
    q = DICE + "._reset"
    loc = ctx.loc(q)
    for o in s.resets:
        r = initial_values(ctx, s, o)
        F = Formula(w, {})
        al = F.al
        missing = [n for n in STATES if n not in r or r[n][1] is None]
        if missing:
            ctx.bad("A03.initial", q, "%s has no initial value" % ", ".join(missing), loc)
            ctx.bad("A05.length", q, "%s may keep values of earlier runs" % ", ".join(missing), loc)
            continue
        for nm in STATES[:-1]:
            got = al(r[nm][1])
            if al.eq(got, al.atom(nm + "0")):
                ctx.holds("A03.initial", q + "[" + nm + "]")
            elif al.leaves(got):
                raise Unknown("initial %s" % nm)
            else:
                ctx.bad("A03.initial", q + "[" + nm + "]", "%s starts with %s" % (nm, al.show(got)), loc)
        got = al(fold(r["forc"][1], {mk("item", attr(w.v, n, "values"), const(0)): r[n][1] for n in STATES[:-1]}))
        want = al.add(al.div(al.mul(al.atom("fco22x"), al.add(al.atom("log", (al.atom("mat0"),)), al.atom("log", (al.atom("mateq"),)), -1)), al.atom("log", (al.const(2),))), al.atom("fex0"))
        if al.eq(got, want):
            ctx.holds("A03.initial", q + "[forc]")
        elif al.leaves(got):
            raise Unknown("initial forcing %s" % show(al.leaves(got)[0]))
        else:
            ctx.bad("A03.initial", q + "[forc]", "forcing starts with %s" % al.show(got), loc)
        # length
        for nm in STATES:
            n = r[nm][0]
            if n is None:
                ctx.bad("A05.length", q + "[" + nm + "]", "%s keeps the values of earlier runs" % nm, loc)
            else:
                n = sub(n, {attr(*k): v for k, v in o.heap.items() if len(k) == 2 and k[0] is w.me})
                if n.op == "attr" and n.args[0] is w.me:
                    ctx.holds("A05.length", q + "[" + nm + "]")
                else:
                    raise Unknown("length %s" % show(n)[:60])


# units in which the equations hold
UNITS = {"mat0": "GtC", "mateq": "GtC", "mat_lower": "GtC", "ml0": "GtC", "mleq": "GtC", "ml_lower": "GtC", "mu0": "GtC", "mueq": "GtC",
         "mu_lower": "GtC", "tatm0": "K", "tatm_upper": "K", "tocean0": "K", "tocean_lower": "K", "tocean_upper": "K", "b12": "", "b23": "",
         "c1": "K*m^2/W", "c3": "W/m^2/K", "c4": "", "fex0": "W/m^2", "fex1": "W/m^2", "fco22x": "W/m^2", "t2xco2": "K"}
OUTPUTS = {"mat": "GtC", "ml": "GtC", "mu": "GtC", "tatm": "K", "tocean": "K", "forc": "W/m^2"}


def unit_form(u):
    """Powers of the factors of a unit"""
    import re

    u = u.replace("**", "^").replace(" ", "")
    r = {}
    sign = 1
    for tok in re.findall(r"[*/]|[A-Za-z_0-9]+(?:\^-?\d+)?", u):
        if tok in "*/":
            sign = 1 if tok == "*" else -1
            continue
        n, _, p = tok.partition("^")
        n = {"delta_degC": "K", "kelvin": "K", "degC": "absolute degC", "watt": "W", "meter": "m"}.get(n, n)
        if n in ("1", "dimensionless"):
            continue
        r[n] = r.get(n, 0) + sign * int(p or 1)
        sign = 1
    return {k: v for k, v in r.items() if v}


def _units(ctx):
    w = dice_world(ctx)
    q = DICE + "._initialize_model"
    for nm, u in UNITS.items():
        vs = w.views.get(nm)
        if not vs:
            ctx.bad("A03.units", q + "[" + nm + "]", "%s is not prepared" % nm, ctx.loc(q))
            continue
        for t, o, cs in vs:
            k, ps, name, a = w.kind(t)
            got = a.get("unit")
            if k != "scalar":
                ctx.bad("A03.units", q + "[" + nm + "]", "%s is a %s parameter" % (nm, k), ctx.loc(q))
            elif not is_str(got):
                raise Unknown("unit of %s is %s" % (nm, show(got)[:60]))
            elif unit_form(cval(got)) == unit_form(u):
                ctx.holds("A03.units", q + "[" + nm + "]")
            else:
                ctx.bad("A03.units", q + "[" + nm + "]", "%s is read in %s while the equations need %s" % (nm, cval(got), u), ctx.loc(q))
    q = DICE + "._initialize_run_parameters"
    for nm, u in OUTPUTS.items():
        for t, o, cs in w.views.get(nm, ()):
            k, ps, name, a = w.kind(t)
            got = a.get("unit")
            if k != "timeseries" or not is_str(got):
                raise Unknown("output %s" % show(t)[:80])
            if unit_form(cval(got)) == unit_form(u):
                ctx.holds("A03.units", q + "[" + nm + "]")
            else:
                ctx.bad("A03.units", q + "[" + nm + "]", "%s is written in %s while the equations give %s" % (nm, cval(got), u), ctx.loc(q))


# ---------------------------------------------------------------------- A04
def inputs_kept(ctx):
    ctx.p.need_class(DICE)
    ctx.guard("A04.defaults", DICE + "._initialize_model", _defaults, ctx)
    for name in ("_initialize_model_input", "_initialize_run_parameters", "_reset", "_step", "_run"):
        ctx.guard("A04.writes", DICE + "." + name, _writes, ctx, DICE + "." + name)
    ctx.guard("A04.locks", DICE, _locks, ctx)


def is_setter(t):
    return t.op == "rcall" and (t.args[0].endswith("@setter") or t.args[0].endswith(".setter") or "setter" in t.args[0].rsplit(".", 1)[-1])


def _defaults(ctx):
    w = dice_world(ctx)
    q = DICE + "._initialize_model"
    loc = ctx.loc(q)
    seen = set()
    for o in w.model:
        if o.kind != "return":
            ctx.bad("A04.defaults", q, desc(o), loc)
            continue
        path = list(o.order)
        for cs, e in cases(o.events):
            view = val = None
            if e.kind == "rcall" and is_setter(e.a[0]):
                view, val = e.a[0].args[1][:2]
            elif e.kind == "setattr" and e.a[1] in VOL:
                view, val = e.a[0], e.a[2]
            elif e.kind == "setitem" and e.a[0].op == "attr" and e.a[0].args[1] == "values":
                ctx.bad("A04.defaults", q, "values are changed", loc)
            if view is None:
                continue
            empty = None
            for a, v in list(cs) + path:
                if a.op == "truth" and a.args[0].op in ("rcall", "attr"):
                    x = a.args[0]
                    obj = x.args[1][0] if x.op == "rcall" and x.args[1] else x.args[0]
                    nm = x.args[0].rsplit(".", 1)[-1] if x.op == "rcall" else x.args[1]
                    if nm == "empty" and obj is view:
                        empty = v
            construct = q + "[" + view_name(view) + "]"
            if construct in seen and empty:
                continue
            seen.add(construct)
            if empty is True:
                ctx.holds("A04.defaults", construct)
            elif empty is False:
                ctx.bad("A04.defaults", construct, "a value is overwritten when it is given", loc)
            else:
                ctx.bad("A04.defaults", construct, "the default is set also when a value is given", loc)
            if val is NONE:
                ctx.bad("A04.defaults", construct, "None is set as value", loc)
    # every table entry is read in its unit and its default is used
    ctx.guard("A04.table", q, _table, ctx, w, q, loc)


def view_name(t):
    if t.op == "rcall" and len(t.args[1]) > 1:
        n = t.args[1][1]
        return "|".join(str(cval(x)) if is_const(x) else show(x)[:20] for x in (n.args if n.op in ("tuple", "list") else (n,)))
    return show(t)[-40:]


def _table(ctx, w, q, loc):
    """Views of the entries of the tables of defaults"""
    f = ctx.p.need_function(q)
    mod = f.module
    tables = {}
    for nm in ("MODEL_PARAMETER_DEFAULTS", "STANDARD_PARAMETER_DEFAULTS"):
        o = w.model[0]
        try:
            d = o.it.freeze(o.st, o.it.resolve_dotted(mod.name + "." + nm))
        except Exception:
            raise Unknown("table %s" % nm)
        if d.op != "dict":
            raise Unknown("table %s" % nm)
        tables[nm] = d
    sets = {}
    for o in w.model:
        for cs, e in cases(o.events):
            if e.kind == "rcall" and is_setter(e.a[0]):
                sets.setdefault(e.a[0].args[1][0], set()).add(e.a[0].args[1][1])
            elif e.kind == "setattr" and e.a[1] in VOL:
                sets.setdefault(e.a[0], set()).add(e.a[2])
    for nm, d in tables.items():
        for k, v in d.args:
            key = cval(k)
            if v.op not in ("tuple", "list") or len(v.args) not in (2, 3):
                raise Unknown("entry %s" % key)
            default, unit = v.args[-2:]
            want = ["DICE", key] if len(v.args) == 2 else [cval(v.args[0])]
            construct = q + "[" + key + "]"
            vs = w.views.get(key)
            if not vs:
                ctx.bad("A04.table", construct, "%s is not prepared" % key, loc)
                continue
            for t, o, cs in vs:
                kind, ps, name, a = w.kind(t)
                got = [cval(x) for x in (name.args if name.op in ("tuple", "list") else (name,)) if is_const(x)]
                u = a.get("unit", NONE)
                if ps is not attr(w.me, w.inputs):
                    ctx.bad("A04.table", construct, "%s is not read from the inputs" % key, loc)
                elif got != want:
                    ctx.bad("A04.table", construct, "%s is read from %s" % (key, "|".join(map(str, got))), loc)
                elif (kind == "generic") != (unit is NONE) or u is not unit:
                    ctx.bad("A04.table", construct, "%s is read as %s in %s instead of %s" % (key, kind, show(u), show(unit)), loc)
                else:
                    ctx.holds("A04.table", construct)
                ds = sets.get(t, set())
                if default is NONE and ds - {NONE}:
                    ctx.bad("A04.table", construct, "%s has no default" % key, loc)
                elif default is not NONE and ds != {default}:
                    if not ds:
                        ctx.bad("A04.table", construct, "the default of %s is not used" % key, loc)
                    elif all(is_const(x) for x in ds):
                        ctx.bad("A04.table", construct, "the default of %s is %s" % (key, ", ".join(show(x) for x in ds)), loc)
                    else:
                        raise Unknown("default of %s" % key)


def output_names(ctx, w):
    r = set()
    out = None
    f = ctx.p.need_function(AD + ".__init__")
    for o in ctx.run(AD + ".__init__", opaque=hooks):
        for k, v in o.heap.items():
            if k[0] is self_of(AD) and v is param(ctx, f, 2):
                out = k[1]
    for nm, vs in w.views.items():
        for t, o, cs in vs:
            if t.op == "rcall" and t.args[1] and t.args[1][0] is attr(w.me, out):
                r.add(nm)
    return r, out


def _writes(ctx, q):
    w = dice_world(ctx)
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    outs, field = output_names(ctx, w)
    ins = set(w.views) - outs
    if not outs:
        raise Unknown("outputs")
    # the state series are outputs, the emissions are an input
    if q.endswith("_initialize_run_parameters"):
        for nm in STATES:
            if nm in ins:
                ctx.bad("A04.outputs", q + "[" + nm + "]", "%s is taken from the inputs" % nm, loc)
            elif nm in outs:
                ctx.holds("A04.outputs", q + "[" + nm + "]")
        if "E" in outs:
            ctx.bad("A04.outputs", q + "[E]", "emissions are taken from the outputs", loc)
    n = 0
    for o in ctx.run(q, opaque=core, volatile=VOL):
        for e in o.flat():
            tgt = None
            if e.kind == "setattr" and e.a[1] in VOL:
                tgt = e.a[0]
            elif e.kind in ("setitem", "delitem", "mutcall") and e.a[0].op == "attr" and e.a[0].args[1] in VOL:
                tgt = e.a[0].args[0]
            elif e.kind == "rcall" and is_setter(e.a[0]):
                tgt = e.a[0].args[1][0]
            if tgt is None:
                continue
            n += 1
            if tgt.op == "attr" and tgt.args[0] is w.v:
                if tgt.args[1] in outs:
                    ctx.holds("A04.writes", q)
                elif tgt.args[1] in ins:
                    ctx.bad("A04.writes", q, "the input %s is changed" % tgt.args[1], loc)
                else:
                    raise Unknown("%s is changed" % show(tgt)[:60])
            elif tgt.op == "rcall" and tgt.args[1] and tgt.args[1][0] is attr(w.me, w.inputs):
                ctx.bad("A04.writes", q, "the input %s is changed" % view_name(tgt), loc)
            elif tgt.op == "rcall" and tgt.args[1] and tgt.args[1][0] is attr(w.me, field):
                if q.endswith("_run") or q.endswith("_step") or q.endswith("_reset"):
                    ctx.bad("A04.writes", q, "the output %s is written" % view_name(tgt), loc)
            else:
                raise Unknown("%s is changed" % show(tgt)[:60])
    if not n:
        ctx.holds("A04.writes", q)


def _locks(ctx):
    w = dice_world(ctx)
    for name in ("_run", "_step", "_reset", "_initialize_run_parameters", "_initialize_model_input"):
        q = DICE + "." + name
        f = ctx.p.need_function(q)
        for o in ctx.run(q, opaque=lock_opaque, volatile=VOL):
            held = []
            for e in o.events:
                if e.kind == "loop":
                    d = e.a[0]
                    for cs, ev in cases([e]):
                        lock_event(ev, held)
                else:
                    lock_event(e, held)
            if held:
                ctx.bad("A04.locks", q, "%s stays locked" % ", ".join(show(x)[-20:] for x in held), ctx.loc(f))
            else:
                ctx.holds("A04.locks", q)


def lock_opaque(q):
    return core(q)


def lock_event(e, held):
    t = None
    if e.kind in ("call", "mutcall") and isinstance(e.a[0], T):
        t = method(e.a[0])
    elif e.kind == "rcall":
        t = (e.a[0].args[1][0] if e.a[0].args[1] else None, e.a[0].args[0].rsplit(".", 1)[-1], (), ())
    if t and t[1] in ("lock", "unlock"):
        if t[1] == "lock":
            if t[0] not in held:
                held.append(t[0])
        elif t[0] in held:
            held.remove(t[0])


# ---------------------------------------------------------------------- A05
def runs(ctx):
    ctx.p.need_class(DICE)
    ctx.guard("A05.run", DICE + "._run", _runs, ctx)
    ctx.guard("A05.advance", DICE + "._step", _advance, ctx)
    ctx.guard("A05.reset", DICE + "._reset", _reset_complete, ctx)
    ctx.guard("A05.count", DICE + "._initialize_run_parameters", _count, ctx)
    ctx.guard("A05.length", DICE + "._reset", _initial, ctx)


def own(q):
    return q.startswith(DICE + "._") and not q.endswith("__")


def _runs(ctx):
    w = dice_step(ctx).w
    q = DICE + "._run"
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)

    def calls(events):
        return [e.a[0].args[0] for e in events if e.kind == "rcall" and e.a[0].args[0].startswith(DICE + ".")]

    # what one step does
    step = ctx.run(DICE + "._step", opaque=lambda x: core(x) or own(x) and not x.endswith("._step"), volatile=VOL)
    calc = None
    if len(step) == 1 and step[0].kind == "return":
        cs = calls(step[0].flat())
        if len(cs) == 1 and not [e for e in step[0].flat() if e.kind in ("setattr", "setitem", "loop")]:
            calc = cs[0]
    count = count_term(ctx)
    for o in ctx.run(q, opaque=lambda x: core(x) or x == calc or x == DICE + "._step", volatile=VOL):
        if o.kind != "return":
            ctx.bad("A05.run", q, desc(o), loc)
            continue
        loops = [e for e in o.events if e.kind == "loop"]
        outside = [e for e in o.events if e.kind == "rcall" and e.a[0].args[0].startswith(DICE + ".")]
        stepping = [e for e in loops if any(calls(ev) for cs, ev in e.a[1])]
        if outside:
            ctx.bad("A05.run", q, "steps outside of the loop over all steps", loc)
            continue
        if len(stepping) != 1:
            if not stepping and not [e for e in o.flat() if e.kind in ("setitem",)]:
                ctx.bad("A05.run", q, "no steps are done", loc)
                continue
            full = [x for x in loops if any(z.kind == "setitem" for cs, ev in x.a[1] for z in ev)]
            if len(full) == 1 and not stepping:
                done = {z.a[1] for cs, ev in full[0].a[1] for z in ev if z.kind == "setattr" and z.a[0] is w.me}
                full_step = {x.a[1] for y in dice_step(ctx).paths if y.kind == "return" for x in y.flat() if x.kind == "setattr" and x.a[0] is w.me}
                if full_step - done:
                    ctx.bad("A05.run", q, "the steps of a run do not change %s, single steps do" % ", ".join(sorted(full_step - done)), loc)
                    return
                if done - full_step:
                    ctx.bad("A05.run", q, "the steps of a run change %s, single steps do not" % ", ".join(sorted(done - full_step)), loc)
                    return
            raise Unknown("loops of the run")
        e = stepping[0]
        for cs, ev in e.a[1]:
            c = calls(ev)
            if c not in ([calc], [DICE + "._step"]):
                ctx.bad("A05.run", q, "an iteration does %d steps" % len(c), loc)
                return
            both = [x for x in ev if x.kind == "setattr" and x.a[0] is w.me and x.a[1] in (w.step_field, w.cur_field)]
            if both:
                ctx.bad("A05.run", q, "an iteration also changes %s, single steps do not" % both[0].a[1], loc)
                return
            if [x for x in ev if x.kind in ("setattr", "setitem", "augassign")]:
                raise Unknown("other effects in the loop over the steps")
        n = iterations(ctx, w, e.a[0], o)
        al = Algebra()
        got, want = al(n), al(mk("-", attr(w.me, count), const(1)))
        if al.eq(got, want):
            ctx.holds("A05.run", q)
        else:
            ctx.bad("A05.run", q, "a run does %s steps" % show(n), loc)


def iterations(ctx, w, it, o):
    """Number of iterations of a loop"""
    if it.op == "call" and call_name(it) == "builtins.range":
        a = it.args[1]
        if len(a) == 1:
            return a[0]
        if len(a) == 2:
            return mk("-", a[1], a[0])
        if len(a) == 3 and a[2] is const(1):
            return mk("-", a[1], a[0])
    raise Unknown("loop over %s" % show(it)[:80])


def count_term(ctx):
    """Field with the number of time points"""
    w = dice_step(ctx).w
    s = dice_step(ctx)
    r = set()
    for o in s.resets:
        for nm, (n, v) in initial_values(ctx, s, o).items():
            if n is not None and n.op == "attr" and n.args[0] is w.me:
                r.add(n.args[1])
    if len(r) != 1:
        raise Unknown("number of time points")
    return r.pop()


def _advance(ctx):
    s = dice_step(ctx)
    w = s.w
    q = DICE + "._step"
    loc = ctx.loc(q)
    for o in s.paths:
        if o.kind != "return":
            continue
        for fld, inc in ((w.step_field, const(1)), (w.cur_field, attr(w.v, "period_length", "value"))):
            old = attr(w.me, fld)
            new = o.heap.get((w.me, fld), old)
            al = Algebra()
            if al.same(new, mk("+", old, inc)):
                ctx.holds("A05.advance", q)
            elif [x for x in al.leaves(al(new)) if x.op not in ("attr",)]:
                raise Unknown("%s becomes %s" % (fld, show(new)[:60]))
            else:
                ctx.bad("A05.advance", q, "%s becomes %s" % (fld, show(new)), loc)


def _reset_complete(ctx):
    """State that is changed and read in steps is set on reset; what is derived from inputs is derived on each reset"""
    s = dice_step(ctx)
    w = s.w
    q = DICE + "._reset"
    loc = ctx.loc(q)
    written, read = set(), set()
    for o in s.paths:
        for e in o.flat():
            if e.kind == "setattr" and e.a[1] != "?" and e.a[1] not in VOL:
                written.add(attr(e.a[0], e.a[1]))
    for o in s.paths:
        ts = [a for a, _ in o.order]
        for e in o.flat():
            ts += [x for x in e.a if isinstance(x, T) and e.kind in ("setattr", "setitem", "call", "rcall")]
        for t in ts:
            read |= {x for x in walk(t) if x.op == "attr" and x.args[0] in (w.me, w.v)}
            read |= {attr(x.args[1][0], cval(x.args[1][1])) for x in walk(t) if x.op == "call" and call_name(x) == "builtins.getattr" and x.args[1][0] in (w.me, w.v) and is_str(x.args[1][1])}
    base_reset = ctx.run(AD + ".reset", opaque=core, cls=DICE, volatile=VOL)
    for o in base_reset:
        if o.kind != "return":
            continue
        for c in sorted(written & read, key=show):
            v = o.heap.get((c.args[0], c.args[1]))
            if v is None:
                ctx.bad("A05.reset", q + "[" + c.args[1] + "]", "%s of an earlier run is kept" % c.args[1], loc)
            elif any(x in written for x in walk(v)):
                ctx.bad("A05.reset", q + "[" + c.args[1] + "]", "%s depends on an earlier run: %s" % (c.args[1], show(v)[:80]), loc)
            else:
                ctx.holds("A05.reset", q + "[" + c.args[1] + "]")
            if c.args[1] == w.step_field:
                if v is const(0):
                    ctx.holds("A05.reset", q + "[index]")
                elif v is not None:
                    ctx.bad("A05.reset", q + "[index]", "the first step has index %s" % show(v), loc)
        # values which are not set on all paths
        for c in sorted(s.partial & read - written, key=show):
            conds = [a for a, _ in o.order if any(x.op == "attr" and x.args[0] in (w.me, w.v) for x in walk(a))]
            if (c.args[0], c.args[1]) in o.heap:
                continue
            if not conds or any(reads_value(a) for a in conds):
                raise Unknown("%s is not set when %s" % (c.args[1], ", ".join(show(a)[:40] for a in conds)))
            ctx.bad("A05.reset", q + "[" + c.args[1] + "]", "%s of an earlier run is kept when %s" % (c.args[1], ", ".join(show(a)[:60] for a in conds)), loc)
        # derived values
        prepared = {attr(w.v, n) for n in w.views} | {w.v}
        fresh = {attr(*k) for k in o.heap if len(k) == 2 and k[0] in (w.me, w.v)}
        for x in w.runs:
            fresh |= {attr(*k) for k in x.heap if len(k) == 2 and k[0] in (w.me, w.v)}
        stale = set()
        for x in w.model:
            for k, v in x.heap.items():
                if len(k) == 2 and (k[0] in (w.me, w.v) or k[0] is x.heap.get((w.me, w.field))):
                    c = attr(w.me if k[0] is w.me else w.v, k[1])
                    if c in read and c not in fresh and c is not w.v and reads_value(v):
                        stale.add((c, v))
        for c, v in sorted(stale, key=lambda y: show(y[0])):
            ctx.bad("A05.inputs", q + "[" + c.args[1] + "]", "%s is calculated from the inputs only once: %s" % (c.args[1], show(v)[:80]), loc)
        for c in sorted(read & fresh, key=show):
            ctx.holds("A05.inputs", q + "[" + c.args[1] + "]")


def reads_value(t):
    return any(x.op == "attr" and x.args[1] in VOL or x.op == "rcall" and x.args[0].rsplit(".", 1)[-1] in VOL for x in walk(t))


def _count(ctx):
    w = dice_step(ctx).w
    q = DICE + "._initialize_run_parameters"
    f = ctx.p.need_function(q)
    loc = ctx.loc(f)
    count = count_term(ctx)
    for o in w.runs:
        if o.kind != "return":
            ctx.bad("A05.count", q, desc(o), loc)
            continue
        al = Algebra()
        V = lambda n: attr(w.v, n, "value")
        span = mk("/", mk("-", V("stop_time"), V("start_time")), V("period_length"))

        def leaf(t):
            if t.op == "call" and call_name(t) in ("builtins.int", "math.floor", "numpy.floor", "math.trunc") and len(t.args[1]) == 1:
                return al.atom("whole", (al(t.args[1][0]),))
            if t.op == "//":
                return al.atom("whole", (al(mk("/", *t.args)),))
            if t.op == "call" and call_name(t) in ("builtins.round", "math.ceil", "numpy.ceil", "numpy.round"):
                return al.atom(call_name(t), tuple(al(x) for x in t.args[1]))
            if t.op == "attr" and t.args[1] == "value":
                return al.atom(t.args[0].args[1] if t.args[0].op == "attr" else show(t))
            return None

        al.leaf = leaf
        got = o.heap.get((w.me, count))
        if got is None:
            ctx.bad("A05.count", q, "the number of time points is not set", loc)
            continue
        want = al.add(al.atom("whole", (al(span),)), al.const(1))
        if al.eq(al(got), want):
            ctx.holds("A05.count", q)
        elif al.leaves(al(got)):
            raise Unknown("number of time points %s" % show(got)[:80])
        else:
            ctx.bad("A05.count", q, "the number of time points is %s" % al.show(al(got)), loc)
        # grids of the series
        for nm in STATES + ("E",):
            for t, x, cs in w.views.get(nm, ()):
                if x is not o:
                    continue
                ctx.guard("A05.grid", q + "[" + nm + "]", _grid, ctx, w, q, nm, t, got, V, al, loc)


def _grid(ctx, w, q, nm, t, count, V, al, loc):
    k, ps, name, a = w.kind(t)
    g, ty = a.get("time_points"), a.get("timeseries_type")
    construct = q + "[" + nm + "]"
    ty = type_of(ctx, ty)
    if g.op != "rcall" or g.args[0] != "openscm.core.time.create_time_points":
        raise Unknown("time points %s" % show(g)[:60])
    f = ctx.p.need_function(g.args[0])
    names = [x.arg for x in f.node.args.args]
    b = dict(zip(names, g.args[1]))
    b.update({x: y for x, y in g.args[2]})
    start, period, num, gt = (b.get(n) for n in names[:4])
    gt = type_of(ctx, gt)
    if gt is not ty:
        ctx.bad("A05.grid", construct, "%s of type %s has time points for %s" % (nm, ty.args[1], gt.args[1]), loc)
        return
    if start is not V("start_time") or period is not V("period_length"):
        if al.leaves(al(start)) or al.leaves(al(period)):
            raise Unknown("grid of %s" % nm)
        ctx.bad("A05.grid", construct, "%s starts at %s with step %s" % (nm, show(start)[-40:], show(period)[-40:]), loc)
        return
    if not al.eq(al(num), al(count)):
        if al.leaves(al(num)):
            raise Unknown("length of %s" % nm)
        ctx.bad("A05.grid", construct, "%s has %s values" % (nm, al.show(al(num))), loc)
        return
    ctx.holds("A05.grid", construct)


def type_of(ctx, t):
    if t is not None and t.op == "enum":
        return t
    if t is not None and is_str(t):
        m = {"average": "AVERAGE_TIMESERIES", "point": "POINT_TIMESERIES"}.get(cval(t).lower())
        if m:
            return mk("enum", PTYPE, m)
    raise Unknown("type %s" % (t is not None and show(t)))


RULES = {
    "A01": {"rules": [base], "explain": "All paths of the base class: sequence of calls of the model's hooks relative to the mark of initialisation (typestate), time after reset and step."},
    "A02": {"rules": [loading], "explain": "Each adapter's name and other names are propagated as constants through the look-up; results, errors and stores to the cache are compared."},
    "A03": {"rules": [equations], "only": True, "explain": "Values stored by a step are compared with the transition equations as rational normal forms on every path; coefficients per pool sum to one; initial values; units of measure of the tables."},
    "A04": {"rules": [inputs_kept], "explain": "Conditions of each store of a default; every write and lock on all paths of the adapter."},
    "A05": {"rules": [runs], "only": True, "explain": "Loop of the run against the step; state written and read by steps against what reset sets; number of time points and grids as normal forms."},
    "A06": {"rules": [facade], "explain": "Decision table of the constructor over None; sequences of adapter calls on all paths."},
}
