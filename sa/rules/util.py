"""Helpers of the rules"""
import ast

from ..check import Unknown, changes, describe, fields_of, implied
from ..project import AnchorLost, Undecided
from ..vocab import ATTRS
from ..terms import FALSE, NONE, TRUE, T, call_name, const, contains, ext, is_const, meth_name, mk, show, sub, walk

desc = describe
fields_of_atom = fields_of


def self_of(cls):
    return mk("sym", "self", ("cls", cls))


def attr(t, *names):
    for n in names:
        t = mk("attr", t, n)
    return t


def param(ctx, f, i):
    """i-th parameter of a function (by position, so that a rename does not matter)"""
    a = f.node.args
    names = a.posonlyargs + a.args
    if i >= len(names):
        raise Undecided("parameter %d of %s" % (i, f.qualname))
    return mk("sym", names[i].arg, ctx.p.ann_type(f.module, names[i].annotation))


def named_param(ctx, f, name):
    for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if x.arg == name:
            return mk("sym", x.arg, ctx.p.ann_type(f.module, x.annotation))
    raise Undecided("parameter %s of %s" % (name, f.qualname))


def btruth(t):
    return mk("truth", t)


def nonempty(t):
    return mk("not", mk("lt", mk("len", t), const(1)))


def raises(o, *classes):
    """None if the path raises one of the classes, else a text"""
    if o.kind != "raise":
        return "expected %s, but it returns" % " or ".join(c.rsplit(".", 1)[-1] for c in classes)
    if o.exc() not in classes:
        if o.exc() == "?":
            raise Unknown("exception not understood")
        return "expected %s, but %s is raised" % (" or ".join(c.rsplit(".", 1)[-1] for c in classes), o.exc())
    return None


def no_effect(o, obj, events):
    if events:
        return "a rejected operation has an effect"
    return True


def fields_equal(o, obj, want):
    for k, v in want.items():
        got = o.heap.get((obj, k))
        if got is None:
            raise Unknown("field %s is not set" % k)
        if got is not v:
            return "%s of the new object is %s instead of %s" % (k, show(got), show(v))
    return True


_parents = {}


def parents(node):
    r = _parents.get(id(node))
    if r is None:
        r = {}
        for n in ast.walk(node):
            for c in ast.iter_child_nodes(n):
                r[c] = n
        _parents[id(node)] = r
    return r


def iter_functions(mod):
    """(qualified name, node) of all functions of a module (nested ones are part of them)"""
    for st in ast.walk(mod.tree):
        if isinstance(st, ast.FunctionDef):
            par = None
            for c in ast.walk(mod.tree):
                if isinstance(c, ast.ClassDef) and st in c.body:
                    par = c
            yield mod.name + "." + (par.name + "." if par else "") + st.name, st


def constructing(ctx, fq, seen=()):
    """Is the function part of constructing objects (a constructor, or only called from them)?"""
    short = fq.rsplit(".", 1)[-1]
    if short == "__init__":
        return True
    if short.startswith("__") or fq in seen:
        return False
    users = set()
    for mod in ctx.p.modules.values():
        for name, node in iter_functions(mod):
            if name != fq and any(isinstance(x, ast.Attribute) and x.attr == short or isinstance(x, ast.Name) and x.id == short for x in ast.walk(node)):
                users.add(name)
    return bool(users) and all(constructing(ctx, u, seen + (fq,)) for u in users)


# ---------------------------------------------------------------------- comparison of values
STRUCT = {"const", "sym", "self", "cls", "attr", "item", "tuple", "list", "ext", "class", "enum", "rcall", "call", "mcall",
          "+", "-", "*", "/", "//", "%", "**", "neg", "not", "and", "or", "lt", "eq", "isnone", "truth", "in", "isinst",
          "comp", "each", "elem", "idx", "key", "val", "len", "slice", "dget", "dict", "new", "fmt", "enumitem"}


def names_of(t):
    """Names of everything that is called in a term"""
    r = set()
    for x in walk(t):
        if x.op == "call":
            r.add(x.args[0].args[0] if x.args[0].op == "ext" else "." + str(x.args[0].args[-1]))
        elif x.op == "mcall":
            r.add("." + x.args[1])
        elif x.op == "rcall":
            r.add(x.args[0])
    return r


def ops_of(t):
    return {x.op for x in walk(t)}


# pure functions which certainly change some values
CHANGING = {".strip", ".lstrip", ".rstrip", ".lower", ".upper", ".title", ".capitalize", ".casefold", ".swapcase", ".round",
            "builtins.abs", "builtins.round", "builtins.sorted", "builtins.reversed", "builtins.set", "builtins.int", "builtins.bool",
            "numpy.abs", "numpy.absolute", "numpy.round", "numpy.around", "numpy.nan_to_num", "numpy.sort", "numpy.cumsum",
            "numpy.flip", "numpy.unique", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.clip", "numpy.negative"}


def tv(o, t):
    """Is a value true on this path? (None: unknown)"""
    if is_const(t):
        return bool(t.args[1])
    return implied(o, btruth(t))


def understood(got, wants, more=()):
    """Is `got` built from the vocabulary of the expected values only?"""
    ops, nm = set(STRUCT), set(more) | CHANGING
    for w in wants:
        ops |= ops_of(w)
        nm |= names_of(w)
    bad = (ops_of(got) - ops) | (names_of(got) - nm)
    return not bad and {x.args[1] for x in walk(got) if x.op == "attr"} <= ATTRS


def same(got, *wants):
    return any(got is w for w in wants)


def judge(got, wants, what, more=()):
    """True or a text what is wrong; raises Unknown when the value is not understood"""
    if not isinstance(wants, (list, tuple)):
        wants = [wants]
    if any(got is w for w in wants):
        return True
    if not understood(got, wants, more):
        raise Unknown("%s is %s instead of %s" % (what, show(got), show(wants[0])))
    return "%s is %s instead of %s" % (what, show(got), show(wants[0]))


def rc(q, *pos, **kw):
    return mk("rcall", q, tuple(pos), tuple(sorted(kw.items())))


def rcalls(o, q=None, name=None):
    """Opaque calls on a path (in loops, too)"""
    return [e.a[0] for e in o.flat() if e.kind == "rcall" and (q is None or e.a[0].args[0] == q)
            and (name is None or e.a[0].args[0].rsplit(".", 1)[-1].split("@")[0] == name)]


def again(o, q, args):
    """Outcomes of a nested function of an analysed path (its variables as at the end of the path)"""
    from ..interp import Outcome

    fv = None
    for fid, env in o.st.frames.items():
        for k, v in env.items():
            if isinstance(v, T) and v.op == "func" and v.args[0] == q:
                fv = v
    if fv is None:
        raise Unknown("function %s is not found" % q)
    s = o.it.fork(o.st)
    n, m = len(s.order), len(s.events)
    r = []
    for s2, v in o.it.call(s, fv, list(args), {}, [], None):
        x = Outcome("raise" if s2.sig is not None else "return", s2.sig[1] if s2.sig is not None else o.it.freeze(s2, v), s2)
        x.it = o.it
        r.append(x)
    return r


def iterates(t, d):
    """Is `t` an iteration over the values of dictionary d?  -> term for the value of an iteration"""
    if meth_name(t) == "values" and t.args[0] is d:
        return True
    return False


def flat_gens(t):
    """A list built by (nested) iteration -> [(iterated terms, conditions, element)] or Unknown"""
    if t.op in ("list", "tuple"):
        return [((), (), x) for x in t.args]
    if t.op == "comp":
        r = []
        for c, v in t.args[1]:
            vs = v if isinstance(v, tuple) else (v,)
            for x in vs:
                r.append(((t.args[0],), tuple(c), x))
        return r
    if t.op == "sum":
        r = []
        if t.args[1].op not in ("list", "tuple"):
            raise Unknown("sum of %s" % show(t))
        r += flat_gens(t.args[1])
        for it, c, v in flat_gens(t.args[0]):
            if v.op in ("list", "tuple", "comp", "sum"):
                for it2, c2, v2 in flat_gens(v):
                    r.append((it + it2, c + c2, v2))
            else:
                r.append((it + (v,), c, mk("elem", v)))
        return r
    if t.op == "concat":
        r = []
        for x in t.args:
            r += flat_gens(x)
        return r
    raise Unknown("list %s" % show(t))


def strip_copy(t):
    """The array an array is a (type converted) copy of"""
    while True:
        if t.op == "call" and call_name(t) in ("numpy.array", "numpy.asarray", "numpy.copy", "builtins.list", "builtins.tuple") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] in ("copy", "astype", "tolist"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "astype"):
            t = t.args[0].args[0]
        else:
            return t


def ctor_args(ctx, t, heap_events=None):
    """Arguments of an (opaque) construction by parameter name"""
    q = t.args[0]
    f = None
    for c in ctx.p.mro(q)[0]:
        if "__init__" in c.methods:
            f = c.methods["__init__"]
            break
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    r = dict(zip(names, t.args[2]))
    r.update({k: v for k, v in t.args[3]})
    pos = [r.get(n) for n in names]
    return pos


def stores(o, obj, field=None):
    """Stores to the fields of an object on a path, in order"""
    return [e for e in o.events if e.kind == "setattr" and e.a[0] is obj and (field is None or e.a[1] == field)]


def deep_stores(o, field):
    """Stores to a field with this name anywhere (also within loops)"""
    return [e for e in o.flat() if e.kind == "setattr" and e.a[1] == field]


def case_table(ctx, rule, q, outs, atoms, expect, f=None, ignore=None):
    from ..check import table

    return table(ctx, rule, q, outs, atoms, expect, ctx.loc(f or q), ignore=ignore)


def method(t):
    """(object, name, positional arguments, keywords) of a call of a method"""
    if t.op == "mcall":
        return t.args[0], t.args[1], t.args[2], t.args[3]
    if t.op == "call" and t.args[0].op == "attr":
        return t.args[0].args[0], t.args[0].args[1], t.args[1], t.args[2]
    return None


def call_kw(t):
    """Keyword arguments of a call"""
    kw = t.args[3] if t.op == "mcall" else t.args[2] if t.op in ("call", "rcall") else ()
    return [x for x in kw if isinstance(x, tuple) and len(x) == 2]


def consistency(o):
    """Does this path depend on a comparison of sizes of values which are computed, e.g. an assertion about them?"""
    if o.kind == "raise" and o.exc() in ("builtins.AssertionError", "AssertionError"):
        return True
    for a, _ in o.order:
        if a.op in ("eq", "lt", "le") and not any(is_const(x) for x in a.args) and any(
                y.op == "len" or y.op == "attr" and y.args[1] in ("shape", "size", "ndim") for x in a.args for y in walk(x)):
            return True
    return False


def fails(ctx, rule, Q, o, what, loc):
    """A path on which an operation fails which should not"""
    if consistency(o):
        ctx.unk(rule, Q, "%s, if sizes differ (%s)" % (what, desc(o)), loc)
    else:
        ctx.bad(rule, Q, "%s (%s)" % (what, desc(o)), loc)
