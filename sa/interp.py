"""Path-sensitive, interprocedural value-flow analysis.

Every function of the package which is reachable from an entry point is walked path by
path over its syntax tree.  The abstract state consists of value numbers for locals and
fields, the branch facts of the path and the ordered effects (field writes, item writes,
calls, raises).  No code is run and no path is handed to a solver: a branch whose fact is
not implied by the (finite) facts on the path is taken both ways.
"""
import ast
import builtins
import re as _re

from .project import AnchorLost, Class, Func, Undecided, own_nodes
from .terms import (
    FALSE, NONE, T, TRUE, call_name, const, contains, cval, ext, is_const, is_ext, is_num,
    is_str, meth_name, mk, show, sub, walk,
)

MUT_METHODS = {
    "append", "extend", "insert", "update", "pop", "clear", "remove", "sort", "reverse",
    "setdefault", "popitem", "add", "discard", "drop_duplicates!", "fill", "resize", "put",
    "itemset", "sort!",
}
INPLACE_KW = "inplace"
TOTAL = {
    "builtins.isinstance", "builtins.len", "builtins.type", "typing.cast", "builtins.str",
    "builtins.repr", "builtins.hasattr", "builtins.callable", "builtins.id",
    "builtins.list", "builtins.tuple", "builtins.dict", "builtins.enumerate",
    "builtins.zip", "builtins.reversed", "builtins.set", "builtins.print",
}


class Event:
    __slots__ = ("kind", "a", "loc", "depth", "nfacts")

    def __init__(self, kind, a, loc, nfacts=0):
        self.kind = kind
        self.a = a
        self.loc = loc
        self.nfacts = nfacts

    def __repr__(self):
        return "%s%s@%s" % (self.kind, show(tuple(x for x in self.a if not isinstance(x, list))), self.loc[1])


class State:
    __slots__ = ("frames", "heap", "facts", "order", "events", "sig", "n", "trys", "forked")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.order = []
        self.events = []
        self.sig = None
        self.n = 0
        self.trys = ()
        self.forked = frozenset()

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.order = list(self.order)
        s.events = list(self.events)
        s.sig = self.sig
        s.n = self.n
        s.trys = self.trys
        s.forked = self.forked
        return s

    def add(self, atom, val):
        if atom not in self.facts:
            self.facts[atom] = val
            self.order.append((atom, val))


class Outcome:
    def __init__(self, kind, value, st):
        self.kind = kind
        self.value = value
        self.st = st

    @property
    def facts(self):
        return self.st.facts

    @property
    def order(self):
        return self.st.order

    @property
    def heap(self):
        return self.st.heap

    @property
    def events(self):
        return self.st.events

    def flat(self):
        return list(flatten(self.st.events))

    def exc(self):
        """Class name of a raised exception"""
        return exc_name(self.value) if self.kind == "raise" else None

    def __repr__(self):
        return "<%s %s | %s>" % (
            self.kind,
            show(self.value),
            "; ".join(("" if v else "not ") + show(a) for a, v in self.order),
        )


def flatten(events, loops=()):
    """All events, those in loops with the loop(s) they are in"""
    for e in events:
        if e.kind == "loop":
            yield FlatEvent(e, loops)
            for conds, evs in e.a[1]:
                for x in flatten(evs, loops + ((e.a[0], conds),)):
                    yield x
        else:
            yield FlatEvent(e, loops)


class FlatEvent:
    __slots__ = ("kind", "a", "loc", "loops", "nfacts")

    def __init__(self, e, loops):
        self.kind = e.kind
        self.a = e.a
        self.loc = e.loc
        self.nfacts = e.nfacts
        self.loops = loops

    def __repr__(self):
        return "%s%s@%s" % (
            self.kind, show(tuple(x for x in self.a if not isinstance(x, list))), self.loc)


def exc_name(v):
    if v is None:
        return "?"
    if v.op == "class":
        return v.args[0]
    if v.op == "ext":
        return v.args[0]
    if v.op == "new" or v.op == "rnew":
        return v.args[0]
    if v.op == "call":
        return exc_name(v.args[0])
    if v.op == "exc":
        return v.args[0]
    return "?"


def in_order(f, pos, kw):
    """Keyword arguments that are the next positional ones are given as these"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(kw)
    if len(d) != len(kw) or any(x.op == "starred" for x in pos):
        return pos, kw
    while len(pos) < len(names) and names[len(pos)] in d:
        n = names[len(pos)]
        pos = pos + (d.pop(n),)
    return pos, tuple(x for x in kw if x[0] in d)


class Interp:
    def __init__(self, project, opaque=None, max_states=6000, max_depth=40, lazy_lists=True, volatile=()):
        self.p = project
        # attributes of objects of unknown classes which are properties
        self.volatile = volatile
        self.opaque_pred = opaque or (lambda q: False)
        self.max_states = max_states
        self.loops = {}
        self.max_depth = max_depth
        self.nstates = 0
        self.stack = []
        self.locs = []
        self.lambdas = {}
        self.functions_seen = set()
        self.calls_seen = 0
        self.uid = 0
        self.modcache = {}
        self.fid = 0

    # ------------------------------------------------------------------ utilities
    def loc(self, node=None):
        f = self.stack[-1] if self.stack else None
        path = f.module.path if f else "?"
        return (path, getattr(node, "lineno", 0), f.qualname if f else "?")

    def ev(self, st, kind, *a, node=None):
        st.events.append(Event(kind, a, self.loc(node), len(st.order)))

    def fork(self, st):
        self.nstates += 1
        if self.nstates > self.max_states:
            raise Undecided("more than %d paths" % self.max_states)
        return st.fork()

    def new_uid(self):
        self.uid += 1
        return self.uid

    def alloc(self, st, content, kind="ref"):
        st.n += 1
        r = mk(kind, st.n)
        st.heap[(r, "$")] = content
        return r

    # ------------------------------------------------------------------ types
    def type_of(self, st, t, depth=0):
        if depth > 40 or not isinstance(t, T):
            return ("any",)
        op, a = t.op, t.args
        if op == "const":
            return (a[0],) if a[0] != "NoneType" else ("none",)
        if op in ("sym", "lv"):
            return a[1] if len(a) > 1 and isinstance(a[1], tuple) else ("any",)
        if op in ("new", "rnew"):
            return ("cls", a[0])
        if op == "enum":
            return ("cls", a[0])
        if op == "enumitem":
            return ("cls", a[0])
        if op == "deepcopy":
            return self.type_of(st, a[0], depth + 1)
        if op == "attr":
            c = self.class_of(st, a[0])
            if c:
                return self.field_type(c, a[1])
            return ("any",)
        if op == "ref":
            return self.type_of(st, st.heap.get((t, "$")), depth + 1)
        if op == "comp" and a[1]:
            ts = []
            for conds, vs in a[1]:
                for v in vs:
                    if v.op in ("spread", "starred"):
                        return ("list", ("any",))
                    q = next((c.args[1] for c, x in conds if x is True and c.op == "isinst" and c.args[0] is v and c.args[1] in self.p.classes), None)
                    ts.append(("cls", q) if q else self.type_of(st, v, depth + 1))
            if ts and all(t != ("any",) for t in ts):
                return ("list", self.p._union(ts))
        if op in ("comp", "concat"):
            return ("list", ("any",))
        if op in ("list",):
            if a:
                return ("list", self.type_of(st, a[0], depth + 1))
            return ("list", ("any",))
        if op == "tuple":
            return ("tuple",) + tuple(self.type_of(st, x, depth + 1) for x in a)
        if op in ("dict", "dictcomp", "dictupd"):
            return ("dict", ("any",), ("any",))
        if op == "elem":
            return self.elt_type(self.type_of(st, a[0], depth + 1))
        if op in ("key", "val"):
            d = strip_none(self.type_of(st, a[0], depth + 1))
            if d[0] == "dict":
                return d[1] if op == "key" else d[2]
            return ("any",)
        if op == "idx" or op == "len":
            return ("int",)
        if op in ("item", "dget"):
            d = strip_none(self.type_of(st, a[0], depth + 1))
            if d[0] == "dict":
                return d[2] if op == "item" else self.p._union([d[2], ("none",)])
            if d[0] == "list":
                return d[1]
            if d[0] == "tuple" and is_const(a[1]) and a[1].args[0] == "int":
                i = cval(a[1])
                if -len(d) < i < len(d) - 1:
                    return d[1:][i]
            if d[0] == "str":
                return ("str",)
            return ("any",)
        if op == "slice":
            return self.type_of(st, a[0], depth + 1)
        if op == "rcall":
            f = self.p.functions.get(a[0])
            if f is not None and not isinstance(f.node, ast.Lambda):
                return self.p.ann_type(f.module, f.node.returns)
            f = self.lambdas.get(a[0])
            if f is not None and not isinstance(f.node, ast.Lambda):
                return self.p.ann_type(f.module, f.node.returns)
            return ("any",)
        if op in ("lt", "le", "eq", "isnone", "in", "not", "isinst", "is", "truth"):
            return ("bool",)
        if op == "mcall":
            if a[1] in ("values", "items", "keys"):
                d = strip_none(self.type_of(st, a[0], depth + 1))
                if d[0] == "dict":
                    return {
                        "values": ("iter", d[2]),
                        "keys": ("iter", d[1]),
                        "items": ("iter", ("tuple", d[1], d[2])),
                    }[a[1]]
            if a[1] == "split":
                return ("list", ("str",))
            if a[1] in ("upper", "lower", "strip", "replace", "format", "join"):
                d = strip_none(self.type_of(st, a[0], depth + 1))
                if d[0] == "str":
                    return ("str",)
            return ("any",)
        if op == "call":
            n = call_name(t)
            if n in ("builtins.str", "builtins.repr"):
                return ("str",)
            if n == "builtins.int":
                return ("int",)
            if n == "builtins.float":
                return ("float",)
            if n in ("builtins.list", "builtins.sorted", "builtins.reversed", "builtins.tuple"):
                return ("list", self.elt_type(self.type_of(st, a[1][0], depth + 1)) if a[1] else ("any",))
            return ("any",)
        if op in ("func", "bound", "class", "lam"):
            return ("fn",)
        if op == "fmt":
            return ("str",)
        if op in ("+", "-", "*"):
            x = self.type_of(st, a[0], depth + 1)
            if x == self.type_of(st, a[1], depth + 1):
                return x
            return ("any",)
        return ("any",)

    @staticmethod
    def elt_type(t):
        t = strip_none(t)
        if t[0] in ("list", "iter"):
            return t[1]
        if t[0] == "dict":
            return t[1]
        if t[0] == "tuple" and len(set(t[1:])) == 1:
            return t[1]
        if t[0] == "str":
            return ("str",)
        return ("any",)

    def field_type(self, cls, name):
        for c in self.p.mro(cls)[0]:
            if name in c.annots:
                return self.p.ann_type(c.module, c.annots[name])
            if name in c.props:
                return self.p.ann_type(c.module, c.props[name].node.returns)
        # inferred from an assignment of an annotated parameter in the constructor
        for c in self.p.mro(cls)[0]:
            f = c.methods.get("__init__")
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if (
                            isinstance(t, ast.Attribute)
                            and t.attr == name
                            and isinstance(t.value, ast.Name)
                            and t.value.id == "self"
                        ):
                            if isinstance(n, ast.AnnAssign):
                                return self.p.ann_type(c.module, n.annotation)
                            v = n.value
                            if isinstance(v, ast.Call):
                                d = self.p.dotted(c.module, v.func)
                                if d in self.p.classes:
                                    return ("cls", d)
                            if isinstance(v, ast.Name):
                                for ar in f.node.args.args:
                                    if ar.arg == v.id:
                                        return self.p.ann_type(c.module, ar.annotation)
        return ("any",)

    def class_of(self, st, t):
        """Repo class of the object a term denotes (None if unknown / external)"""
        ty = self.type_of(st, t)
        if ty[0] == "union":
            cands = []
            for x in ty[1:]:
                if x[0] == "none":
                    continue
                cands.append(x)
            cls = [x for x in cands if x[0] == "cls"]
            for x in cls:
                if st.facts.get(mk("isinst", t, x[1])) is True:
                    return x[1]
            if len(cands) == 1 and cls:
                return cls[0][1]
            left = [
                x
                for x in cands
                if st.facts.get(mk("isinst", t, tname(x))) is not False
            ]
            if len(left) == 1 and left[0][0] == "cls":
                return left[0][1]
            return None
        if ty[0] == "cls":
            return ty[1]
        if ty[0] == "any":
            for q in self.p.classes:
                k = mk("isinst", t, q)
                if st.facts.get(k) is True:
                    return q
        return None

    # ------------------------------------------------------------------ truth
    def truth(self, st, t):
        """Condition term for the truth of a value (list of alternatives resolved later)"""
        if is_const(t):
            return TRUE if cval(t) else FALSE
        op = t.op
        if op in ("lt", "le", "eq", "isnone", "in", "not", "isinst", "is", "exists", "all?", "truth"):
            return t
        if op in ("or", "and") and all(truthy(x) for x in t.args):
            return t
        if op in ("func", "bound", "class", "enum", "new", "rnew", "ext", "lam"):
            if op == "new":
                c = self.p.find_method(t.args[0], "__len__") or self.p.find_method(t.args[0], "__bool__")
                if c:
                    return mk("truth", t)
            return TRUE
        if op == "ref":
            return self.truth(st, st.heap[(t, "$")])
        if op in ("list", "tuple", "set", "dict"):
            return TRUE if t.args else FALSE
        ty = self.type_of(st, t)
        base = strip_none(ty)
        if base[0] in ("list", "dict", "tuple", "str", "iter") and base[0] != "iter":
            if ty[0] == "union" and ("none",) in ty[1:]:
                return mk("and", mk("not", mk("isnone", t)), mk("not", mk("lt", self.len_(st, t), const(1))))
            return mk("not", mk("lt", self.len_(st, t), const(1)))
        if ty[0] == "cls":
            if self.p.find_method(ty[1], "__len__") or self.p.find_method(ty[1], "__bool__"):
                return mk("truth", t)
            return TRUE
        if ty[0] in ("int", "float"):
            return mk("not", self.eq(st, t, const(0)))
        if base[0] == "cls" and ty[0] == "union":
            if self.p.find_method(base[1], "__len__") or self.p.find_method(base[1], "__bool__"):
                return mk("and", mk("not", mk("isnone", t)), mk("truth", t))
            return mk("not", mk("isnone", t))
        return mk("truth", t)

    def decide(self, st, cond):
        """Split a state on a condition term -> [(state, bool)]"""
        op = cond.op
        if op == "const":
            return [(st, bool(cval(cond)))]
        if op == "not":
            return [(s, not b) for s, b in self.decide(st, cond.args[0])]
        if op == "and":
            out = []
            for s, b in self.decide(st, cond.args[0]):
                if b:
                    out.extend(self.decide(s, cond.args[1]))
                else:
                    out.append((s, False))
            return out
        if op == "or":
            out = []
            for s, b in self.decide(st, cond.args[0]):
                if not b:
                    out.extend(self.decide(s, cond.args[1]))
                else:
                    out.append((s, True))
            return out
        v = self.implied(st, cond)
        if v is not None:
            return [(st, v)]
        a = self.fork(st)
        st.add(cond, True)
        a.add(cond, False)
        return [(st, True), (a, False)]

    def implied(self, st, atom):
        f = st.facts
        if atom in f:
            return f[atom]
        op = atom.op
        if op == "isnone":
            x = atom.args[0]
            if x.op in ("new", "rnew", "enum", "list", "dict", "tuple", "func", "bound", "class",
                        "comp", "concat", "deepcopy", "+", "-", "*", "/", "fmt", "ref", "key"):
                return False
            if x is NONE:
                return True
            if is_const(x):
                return False
            ty = self.type_of(st, x)
            if ty[0] in ("cls", "str", "int", "float", "bool", "list", "dict", "tuple") and x.op not in ("dget",):
                return False
            for at, v in f.items():
                if v and at.op == "eq" and x in at.args:
                    o = at.args[1] if at.args[0] is x else at.args[0]
                    if o.op in ("enum", "const"):
                        return o is NONE
                if v and at.op == "isinst" and at.args[0] is x:
                    return False
            return None
        if op == "eq":
            x, y = atom.args
            if y.op not in ("const", "enum") and x.op in ("const", "enum"):
                x, y = y, x
            if f.get(mk("isnone", x)) is True and y is not NONE:
                if y.op in ("const", "enum"):
                    return False
            if y.op in ("const", "enum"):
                for at, v in f.items():
                    if v and at.op == "eq" and x in at.args:
                        o = at.args[1] if at.args[0] is x else at.args[0]
                        if o.op in ("const", "enum") and o is not y:
                            return False
                if y.op == "enum":
                    ty = self.type_of(st, x)
                    none_possible = ty[0] == "union" and ("none",) in ty[1:] and f.get(mk("isnone", x)) is not False
                    if strip_none(ty) == ("cls", y.args[0]) and not none_possible:
                        ms = self.p.enum_members(y.args[0])
                        left = [
                            m for m in ms if f.get(self.eqatom(x, mk("enum", y.args[0], m))) is not False
                        ]
                        if left == [y.args[1]]:
                            return True
            return None
        if op == "lt":
            x, c = atom.args
            if is_num(c):
                cv = cval(c)
                if x.op == "len" and cv <= 0:
                    return False
                for at, v in f.items():
                    if at.op == "lt" and at.args[0] is x and is_num(at.args[1]):
                        o = cval(at.args[1])
                        if v and cv >= o:
                            return True
                        if not v and cv <= o:
                            return False
            return None
        if op == "isinst":
            return self.isinst_static(st, atom.args[0], atom.args[1])
        if op == "truth":
            x = atom.args[0]
            if f.get(mk("isnone", x)) is True:
                return False
            if any(v and at.op == "eq" and x in at.args and any(o.op == "enum" for o in at.args) for at, v in f.items()):
                return True
        return None

    def isinst_static(self, st, x, cname):
        """Is a value an instance of a class?"""
        if x.op == "const":
            py = {"str": "builtins.str", "int": "builtins.int", "float": "builtins.float",
                  "bool": "builtins.bool", "NoneType": "builtins.NoneType"}[x.args[0]]
            if py == cname:
                return True
            if py == "builtins.bool" and cname == "builtins.int":
                return True
            if cname in ("typing.Iterable", "collections.abc.Iterable"):
                return py == "builtins.str"
            if cname in ("numbers.Number",):
                return py in ("builtins.int", "builtins.float", "builtins.bool")
            return False
        if x.op == "ref":
            x2 = st.heap[(x, "$")]
            return self.isinst_static(st, x2, cname)
        if x.op in ("list", "comp", "concat", "dict", "tuple", "set", "dictcomp"):
            k = {"list": "list", "comp": "list", "concat": "list", "dict": "dict", "dictcomp": "dict", "tuple": "tuple", "set": "set"}[x.op]
            if cname == "builtins." + k or cname in ("typing.Iterable", "collections.abc.Iterable"):
                return True
            if cname in ("typing.Sequence", "collections.abc.Sequence"):
                return k in ("list", "tuple")
            return False
        ty = self.type_of(st, x)
        if x.op in ("new", "rnew", "enum"):
            c = ty[1]
            if cname in self.p.classes or c in self.p.classes and cname.startswith("builtins."):
                return self.p.is_subclass(c, cname) if cname != "builtins.object" else True
            return None
        if ty[0] == "cls":
            if cname in self.p.classes:
                if self.p.is_subclass(ty[1], cname):
                    return True
                if not self.p.is_subclass(cname, ty[1]):
                    return False
                return None
            if cname.startswith("builtins."):
                return self.p.is_subclass(ty[1], cname)
            return None
        if ty[0] == "str":
            if cname == "builtins.str" or cname in ("typing.Iterable", "collections.abc.Iterable"):
                return True
            if cname.startswith("builtins.") or cname in self.p.classes or cname.startswith(("numpy", "pandas", "datetime")):
                return False
        if ty[0] == "union":
            if not any(self._may_be(u, cname) for u in ty[1:]):
                return False
            left = []
            for u in ty[1:]:
                n = tname(u)
                if st.facts.get(mk("isinst", x, n)) is False:
                    continue
                if u == ("none",) and st.facts.get(mk("isnone", x)) is False:
                    continue
                left.append(u)
            if left and all(tname(u) == cname for u in left):
                return True
            if left and not any(self._may_be(u, cname) for u in left):
                return False
        if ty[0] in ("int", "bool", "float") and cname.startswith("builtins.") and cname != "builtins." + ty[0]:
            if not (ty[0] == "bool" and cname == "builtins.int"):
                return False
        if ty[0] in ("int", "bool", "float") and cname == "builtins." + ty[0]:
            return True
        return None

    def _may_be(self, u, cname):
        if u[0] in ("any", "ext", "fn"):
            return True
        if u[0] == "none":
            return cname == "builtins.NoneType"
        if u[0] == "cls":
            return cname not in self.p.classes and not cname.startswith("builtins.") or (
                cname in self.p.classes and (self.p.is_subclass(u[1], cname) or self.p.is_subclass(cname, u[1]))
            )
        if cname in self.p.classes:
            return False
        if u[0] == "str":
            return cname in ("builtins.str", "typing.Iterable", "collections.abc.Iterable", "typing.Sequence")
        if u[0] in ("int", "float", "bool"):
            return cname in ("builtins." + u[0], "numbers.Number") or (u[0], cname) == ("bool", "builtins.int")
        return True

    def eqatom(self, a, b):
        if id(a) > id(b):
            a, b = b, a
        # canonical order: constants/enums second
        if a.op in ("const", "enum") and b.op not in ("const", "enum"):
            a, b = b, a
        return mk("eq", a, b)

    def eq(self, st, a, b):
        if a is b:
            return TRUE
        if a is NONE:
            return mk("isnone", b) if not is_const(b) else FALSE
        if b is NONE:
            return mk("isnone", a) if not is_const(a) else FALSE
        if is_const(a) and is_const(b):
            return TRUE if cval(a) == cval(b) else FALSE
        if a.op == "enum" and b.op == "enum":
            return FALSE
        if (a.op == "enum" and is_const(b)) or (b.op == "enum" and is_const(a)):
            return FALSE
        if a.op in ("class", "ext") and b.op in ("class", "ext"):
            return FALSE
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if fa is fb:
            return TRUE
        for x, y in ((fa, fb), (fb, fa)):
            if x.op in ("list", "tuple", "dict") and not x.args:
                if y.op in ("list", "tuple", "dict"):
                    return TRUE if not y.args else FALSE
                return mk("lt", self.len_(st, y), const(1))
            if is_num(y) and x.op == "len" and y.args[0] == "int":
                c = cval(y)
                return mk("and", mk("not", mk("lt", x, const(c))), mk("lt", x, const(c + 1)))
        if fa.op == fb.op and fa.op in ("tuple", "list"):
            if len(fa.args) != len(fb.args):
                return FALSE
            r = TRUE
            for x, y in list(zip(fa.args, fb.args))[::-1]:
                e = self.eq(st, x, y)
                if e is FALSE:
                    return FALSE
                r = e if r is TRUE else (mk("and", e, r) if e is not TRUE else r)
            return r
        if truthy(fa) and truthy(fb):
            return mk("or", mk("and", fa, fb), mk("and", self.not_(fa), self.not_(fb)))
        return self.eqatom(fa, fb)

    def cmp(self, st, op, a, b):
        """Comparison -> condition term"""
        if isinstance(op, (ast.Is, ast.Eq)):
            return self.eq(st, a, b)
        if isinstance(op, (ast.IsNot, ast.NotEq)):
            return self.not_(self.eq(st, a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(st, a, b)
            return r if isinstance(op, ast.In) else self.not_(r)
        a, b = self.freeze(st, a), self.freeze(st, b)
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            return TRUE if r else FALSE
        if setlike(a) or setlike(b):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            c = mk("truth", mk("mcall", a, "issubset", (b,), ()))
            return c if isinstance(op, (ast.LtE, ast.GtE)) else mk("and", c, self.not_(self.eq(st, a, b)))
        if isinstance(op, ast.Lt):
            return self.lt(st, a, b)
        if isinstance(op, ast.Gt):
            return self.lt(st, b, a)
        if isinstance(op, ast.LtE):
            return self.not_(self.lt(st, b, a))
        return self.not_(self.lt(st, a, b))

    def not_(self, c):
        if c is TRUE:
            return FALSE
        if c is FALSE:
            return TRUE
        if c.op == "not":
            return c.args[0]
        return mk("not", c)

    def lt(self, st, a, b):
        """a < b"""
        if is_num(b) and self.is_int(st, a):
            return mk("lt", a, b)
        if is_num(a) and self.is_int(st, b):
            # c < b  <=>  not b < c + 1
            return mk("not", mk("lt", b, const(cval(a) + 1)))
        return mk("lt", a, b)

    def is_int(self, st, t):
        return t.op == "len" or self.type_of(st, t) == ("int",)

    def in_(self, st, a, b):
        fb = self.freeze(st, b)
        if fb.op == "mcall" and fb.args[1] == "keys" and not fb.args[2] and fb.args[0].op == "dict":
            fb = fb.args[0]
        if b.op == "class" and self.p.is_enum(b.args[0]):
            return mk("in", a, b)
        if fb.op in ("list", "tuple", "set"):
            r = None
            for x in fb.args[::-1]:
                e = self.eq(st, a, x)
                if e is TRUE:
                    return TRUE
                if e is not FALSE:
                    r = e if r is None else mk("or", e, r)
            return r if r is not None else FALSE
        if fb.op == "dict":
            r = FALSE
            for k, _ in fb.args[::-1]:
                e = self.eq(st, a, k)
                if e is TRUE:
                    return TRUE
                if e is not FALSE:
                    r = e if r is FALSE else mk("or", e, r)
            return r
        if is_str(fb) and is_str(a):
            return TRUE if cval(a) in cval(fb) else FALSE
        d, key = self.as_dict(st, fb), self.freeze(st, a)
        if d is not None:
            v = self.dict_get(st, d, key)
            return mk("not", mk("isnone", v)) if v.op not in ("const",) else (FALSE if v is NONE else TRUE)
        return mk("in", key, fb)

    def as_dict(self, st, t):
        if t.op == "mcall" and t.args[1] == "keys":
            t = t.args[0]
        ty = strip_none(self.type_of(st, t))
        if ty[0] == "dict" and t.op != "dict":
            return t
        return None

    def dict_get(self, st, d, key):
        """d.get(key) of a symbolic dict"""
        if key.op == "key" and key.args[0] is d:
            return mk("val", d)
        h = st.heap.get((d, "[]", key))
        if h is not None:
            return h
        return mk("dget", d, key)

    def len_(self, st, t):
        if t.op == "ref":
            t = st.heap[(t, "$")]
        if t.op in ("list", "tuple", "dict", "set"):
            return const(len(t.args))
        if is_str(t):
            return const(len(cval(t)))
        if t.op == "deepcopy":
            return self.len_(st, t.args[0])
        if t.op == "mcall" and t.args[1] in ("values", "keys", "items") and not t.args[2]:
            if strip_none(self.type_of(st, t.args[0]))[0] == "dict":
                return self.len_(st, t.args[0])
        if t.op == "call" and call_name(t) in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.reversed") and len(t.args[1]) == 1:
            return self.len_(st, t.args[1][0])
        if t.op == "comp" and len(t.args[1]) == 1 and not t.args[1][0][0] and len(t.args[1][0][1]) == 1:
            return self.len_(st, t.args[0])
        if t.op == "rcall" and t.args[0] in ("openscm.core.time.TimePoints.values", "openscm.core.time.TimePoints.to_index") and len(t.args[1]) == 1:
            x = t.args[1][0]
            if x.op == "rnew" and len(x.args[2]) == 1:
                return self.len_(st, x.args[2][0])
            return mk("len", x)
        if t.op == "attr" and t.args[1] == "values" and t.args[0].op == "attr" and t.args[0].args[1] in ("index", "columns"):
            return self.len_(st, t.args[0])
        if t.op == "key":
            pass
        return mk("len", t)

    # ------------------------------------------------------------------ freezing
    def freeze(self, st, t, depth=0, memo=None, keep=None):
        """Replace references to containers by their contents"""
        if isinstance(t, tuple):
            if memo is None:
                memo = {}
            return tuple(self.freeze(st, x, depth, memo, keep) for x in t)
        if not isinstance(t, T) or not t.refs or depth > 60:
            return t
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is None:
            if t.op == "ref" and keep is not None and (t, "$") in keep.heap:
                r = t
            elif t.op == "ref":
                r = self.freeze(st, st.heap[(t, "$")], depth + 1, memo, keep)
            else:
                r = mk(t.op, *[self.freeze(st, x, depth + 1, memo, keep) for x in t.args])
            memo[t] = r
        return r

    # ------------------------------------------------------------------ entry
    def entry(self, qual, args=None, heap=None, facts=None, cls=None, setter=False):
        """Analyse a function of the package from its entry -> [Outcome]

        `cls`: class the receiver is an instance of (for inherited methods)"""
        f = self.p.need_function(qual)
        return self.entry_func(f, args, heap, facts, cls)

    def entry_func(self, f, args=None, heap=None, facts=None, cls=None):
        self.nstates = 0
        st = State()
        if heap:
            st.heap.update(heap)
        for at, v in facts or ():
            st.add(at, v)
        args = dict(args or {})
        a = f.node.args
        bound = {}

        def given(t):
            return self.alloc(st, t) if t.op == "dict" else t

        names = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, x in enumerate(names):
            if x.arg in args:
                bound[x.arg] = given(args[x.arg])
            elif i == 0 and f.cls is not None and f.kind not in ("staticmethod",):
                c = cls or f.cls.qualname
                if f.kind == "classmethod":
                    bound[x.arg] = mk("class", c)
                else:
                    bound[x.arg] = mk("sym", "self", ("cls", c))
            else:
                bound[x.arg] = mk("sym", x.arg, self.p.ann_type(f.module, x.annotation))
        if a.vararg:
            bound[a.vararg.arg] = args.get(
                a.vararg.arg, mk("sym", a.vararg.arg, ("list", self.p.ann_type(f.module, a.vararg.annotation))))
        if a.kwarg:
            bound[a.kwarg.arg] = given(args.get(
                a.kwarg.arg, mk("sym", a.kwarg.arg, ("dict", ("str",), self.p.ann_type(f.module, a.kwarg.annotation)))))
        out = []
        for s, v in self.run_func(st, f, bound, None, None):
            if s.sig is not None:
                out.append(Outcome("raise", s.sig[1], s))
            else:
                out.append(Outcome("return", self.freeze(s, v), s))
        return out

    def run_func(self, st, f, bound, parent_fid, node):
        """Run a function body with bound parameters -> [(state, value)]"""
        self.functions_seen.add(f.qualname)
        self.fid += 1
        fid = self.fid
        env = dict(bound)
        env["$parent"] = parent_fid
        env["$func"] = f
        st.frames[fid] = env
        self.stack.append(f)
        self.ev(st, "enter", mk("ext", f.qualname), tuple(v for k, v in bound.items()), node=f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.eval(f.node.body, st, fid)
                out = res
            else:
                out = []
                for s in self.block(f.node.body, st, fid):
                    if s.sig is None:
                        out.append((s, NONE))
                    elif s.sig[0] == "return":
                        v = s.sig[1]
                        s.sig = None
                        out.append((s, v))
                    elif s.sig[0] == "raise":
                        out.append((s, None))
                    else:
                        raise Undecided("unexpected signal")
            for s, v in out:
                self.ev(s, "leave", mk("ext", f.qualname), node=f.node)
            # Frames stay: closures may refer to them
            return out
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fid):
        states = [st]
        for s in stmts:
            nxt = []
            for x in states:
                if x.sig is not None:
                    nxt.append(x)
                else:
                    nxt.extend(self.stmt(s, x, fid))
            states = nxt
            if len(states) > self.max_states:
                raise Undecided("too many paths")
        return states

    def stmt(self, n, st, fid):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(n).__name__)
        return m(n, st, fid)

    def s_Pass(self, n, st, fid):
        return [st]

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, _ in self.eval(n.value, st, fid)]

    def s_Return(self, n, st, fid):
        if n.value is None:
            st.sig = ("return", NONE)
            return [st]
        out = []
        for s, v in self.eval(n.value, st, fid):
            if s.sig is None:
                s.sig = ("return", v)
            out.append(s)
        return out

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            cur = st.frames[fid].get("$exc")
            st.sig = ("raise", cur if cur is not None else mk("exc", "?"))
            self.ev(st, "raise", st.sig[1], node=n)
            return [st]
        out = []
        for s, v in self.eval(n.exc, st, fid):
            if s.sig is None:
                self.ev(s, "raise", v, node=n)
                s.sig = ("raise", v)
            out.append(s)
        return out

    def s_Assert(self, n, st, fid):
        out = []
        for s, b in self.cond(n.test, st, fid):
            if s.sig is None and not b:
                s.sig = ("raise", ext("builtins.AssertionError"))
                self.ev(s, "raise", s.sig[1], node=n)
            out.append(s)
        return out

    def s_If(self, n, st, fid):
        out = []
        for s, b in self.cond(n.test, st, fid):
            if s.sig is not None:
                out.append(s)
            else:
                out.extend(self.block(n.body if b else n.orelse, s, fid))
        return out

    def s_FunctionDef(self, n, st, fid):
        parent = st.frames[fid]["$func"]
        q = "%s.<locals>.%s@%d" % (parent.qualname, n.name, n.lineno)
        if q not in self.lambdas:
            self.lambdas[q] = Func(q, n, parent.module, None, "function")
        v = mk("func", q, fid)
        for d in n.decorator_list:
            nm = self.p.dotted(parent.module, d.func if isinstance(d, ast.Call) else d)
            if nm in ("functools.wraps",):
                continue
            raise Undecided("decorator %s" % nm)
        self.set_name(st, fid, n.name, v)
        return [st]

    def s_ClassDef(self, n, st, fid):
        raise Undecided("local class")

    def s_Import(self, n, st, fid):
        f = st.frames[fid]["$func"]
        outs = [st]
        for name, dotted in self.p.import_names(f.module, n):
            v = self.resolve_dotted(dotted)
            for s in outs:
                s.frames[fid][name] = v
        self.ev(st, "import", mk("ext", dotted), node=n)
        if any(h == "builtins.ImportError" or h == "builtins.ModuleNotFoundError" for hs in st.trys for h in hs):
            s = self.fork(st)
            s.sig = ("raise", ext("builtins.ImportError"))
            self.ev(s, "implicit_raise", s.sig[1], node=n)
            outs.append(s)
        return outs

    s_ImportFrom = s_Import

    def s_Global(self, n, st, fid):
        raise Undecided("global statement")

    def s_Nonlocal(self, n, st, fid):
        st.frames[fid].setdefault("$nonlocal", ())
        st.frames[fid]["$nonlocal"] = st.frames[fid]["$nonlocal"] + tuple(n.names)
        return [st]

    def s_Break(self, n, st, fid):
        st.sig = ("break",)
        return [st]

    def s_Continue(self, n, st, fid):
        st.sig = ("continue",)
        return [st]

    def s_Delete(self, n, st, fid):
        outs = [st]
        for t in n.targets:
            nxt = []
            for s in outs:
                if isinstance(t, ast.Name):
                    s.frames[fid].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.evals([t.value, t.slice], s, fid):
                        if s2.sig is None:
                            self.ev(s2, "delitem", vs[0], self.freeze(s2, vs[1]), node=n)
                            if vs[0].op == "ref":
                                s2.heap[(vs[0], "$")] = mk("mutated", s2.heap[(vs[0], "$")], self.new_uid())
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.eval(t.value, s, fid):
                        if s2.sig is None:
                            self.ev(s2, "delattr", v, t.attr, node=n)
                        nxt.append(s2)
                else:
                    raise Undecided("del")
            outs = nxt
        return outs

    def s_Assign(self, n, st, fid):
        out = []
        for s, v in self.eval(n.value, st, fid):
            if s.sig is not None:
                out.append(s)
                continue
            states = [s]
            for t in n.targets:
                nxt = []
                for x in states:
                    nxt.extend(self.assign(t, v, x, fid, n) if x.sig is None else [x])
                states = nxt
            out.extend(states)
        return out

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.eval(n.value, st, fid):
            out.extend(self.assign(n.target, v, s, fid, n) if s.sig is None else [s])
        return out

    def s_AugAssign(self, n, st, fid):
        t = n.target
        load = ast.copy_location(
            {
                ast.Name: lambda: ast.Name(t.id, ast.Load()),
                ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load()),
            }[type(t)](),
            t,
        )
        out = []
        for s, vs in self.evals([load, n.value], st, fid):
            if s.sig is not None:
                out.append(s)
                continue
            old, new = vs
            if old.op == "ref" and isinstance(n.op, ast.Add):
                self.list_extend(s, old, new)
                out.append(s)
                continue
            if isinstance(t, ast.Name) and old.op not in ("const",) and self.type_of(s, old)[0] not in ("int", "float", "str", "bool", "none", "tuple", "bytes"):
                self.ev(s, "augassign", old, type(n.op).__name__, self.freeze(s, new), node=n)
            v = self.binop(s, type(n.op), old, new)
            out.extend(self.assign(t, v, s, fid, n))
        return out

    def set_name(self, st, fid, name, v):
        env = st.frames[fid]
        if name in env.get("$nonlocal", ()):
            p = env["$parent"]
            while p is not None:
                if name in st.frames[p]:
                    st.frames[p][name] = v
                    return
                p = st.frames[p]["$parent"]
        env[name] = v

    def assign(self, t, v, st, fid, node):
        if isinstance(t, ast.Name):
            self.set_name(st, fid, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Undecided("starred assignment")
            states = [st]
            for i, e in enumerate(t.elts):
                nxt = []
                for s in states:
                    nxt.extend(self.assign(e, self.getitem_term(s, v, const(i)), s, fid, node))
                states = nxt
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.eval(t.value, st, fid):
                if s.sig is not None:
                    out.append(s)
                else:
                    out.extend(self.setattr_(s, o, t.attr, v, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evals([t.value, t.slice], st, fid):
                if s.sig is not None:
                    out.append(s)
                else:
                    out.extend(self.setitem(s, vs[0], vs[1], v, node))
            return out
        raise Undecided("assignment target")

    def setattr_(self, st, o, name, v, node):
        c = self.class_of(st, o)
        if c:
            f = self.p.find_setter(c, name)
            if f is not None:
                return [s for s, _ in self.call_func(st, f, None, [o, v], {}, node)]
        if name not in self.volatile or c:
            st.heap[(o, name)] = v
        self.ev(st, "setattr", o, name, self.freeze(st, v), node=node)
        return [st]

    def setitem(self, st, o, k, v, node):
        c = self.class_of(st, o)
        if c:
            m = self.p.find_method(c, "__setitem__")
            if m:
                return [s for s, _ in self.call_func(st, m[1], None, [o, k, v], {}, node)]
        fk = self.freeze(st, k)
        if o.op == "ref":
            cont = st.heap[(o, "$")]
            if cont.op == "dict" and (is_const(fk) or fk.op in ("enum", "tuple", "sym", "fmt", "elem", "key", "val", "call", "mcall")):
                items = [(kk, vv) for kk, vv in cont.args if kk is not fk]
                definite = all(is_const(kk) and is_const(fk) or kk is fk for kk, vv in cont.args)
                if definite:
                    pos = [i for i, (kk, _) in enumerate(cont.args) if kk is fk]
                    if pos:
                        items = list(cont.args)
                        items[pos[0]] = (fk, v)
                    else:
                        items.append((fk, v))
                    st.heap[(o, "$")] = mk("dict", *items)
                else:
                    st.heap[(o, "$")] = mk("dictupd", cont, mk("dict", (fk, v)))
            elif cont.op in ("dict", "dictupd", "dictcomp", "lvlist"):
                st.heap[(o, "$")] = mk("dictupd", cont, mk("dict", (fk, v)))
            elif cont.op == "list" and is_const(fk) and isinstance(cval(fk), int) and -len(cont.args) <= cval(fk) < len(cont.args):
                items = list(cont.args)
                items[cval(fk)] = v
                st.heap[(o, "$")] = mk("list", *items)
            else:
                st.heap[(o, "$")] = mk("stored", cont, fk, self.freeze(st, v))
        else:
            st.heap[(o, "[]", fk)] = v
        self.ev(st, "setitem", o, fk, self.freeze(st, v), node=node)
        return [st]

    def list_extend(self, st, ref, other):
        cont = st.heap[(ref, "$")]
        o = self.freeze(st, other)
        st.heap[(ref, "$")] = concat(cont, o if o.op in ("list", "comp", "concat") else (mk("list", *o.args) if o.op == "tuple" else mk("spread", o)))

    # -- loops
    def iter_items(self, st, it):
        """Concrete elements of an iterable if they are known in the source"""
        f = it
        if f.op == "ref":
            f = st.heap[(f, "$")]
        if f.op in ("list", "tuple", "set"):
            return list(f.args)
        if f.op == "dict":
            return [k for k, _ in f.args]
        if f.op == "mcall" and f.args[1] in ("items", "keys", "values") and not f.args[2]:
            d = f.args[0]
            if d.op == "ref":
                d = st.heap[(d, "$")]
            if d.op == "dict":
                return [
                    {"items": mk("tuple", k, v), "keys": k, "values": v}[f.args[1]]
                    for k, v in d.args
                ]
        n = call_name(f)
        if n == "builtins.range" and all(is_const(x) for x in f.args[1]):
            r = range(*[cval(x) for x in f.args[1]])
            if len(r) <= 64:
                return [const(i) for i in r]
        if n == "builtins.enumerate" and len(f.args[1]) == 1:
            x = self.iter_items(st, f.args[1][0])
            if x is not None:
                return [mk("tuple", const(i), e) for i, e in enumerate(x)]
        if n == "builtins.zip":
            xs = [self.iter_items(st, x) for x in f.args[1]]
            if all(x is not None for x in xs):
                return [mk("tuple", *e) for e in zip(*xs)]
        if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(f.args[1]) == 1:
            return self.iter_items(st, f.args[1][0])
        if n in ("builtins.reversed",) and len(f.args[1]) == 1:
            x = self.iter_items(st, f.args[1][0])
            return x[::-1] if x is not None else None
        if f.op == "class" and self.p.is_enum(f.args[0]):
            return [mk("enum", f.args[0], m) for m in self.p.enum_members(f.args[0])]
        return None

    def canon_iter(self, st, it):
        it = self.freeze(st, it)
        while True:
            if it.op == "mcall" and it.args[1] == "keys" and strip_none(self.type_of(st, it.args[0]))[0] == "dict":
                it = it.args[0]
                continue
            n = call_name(it)
            if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(it.args[1]) == 1 and not it.args[2]:
                it = it.args[1][0]
                continue
            return it

    def elem_of(self, st, it):
        """Generic element of a (canonical) iterable"""
        if it.op == "comp" and len(it.args[1]) == 1 and not it.args[1][0][0] and len(it.args[1][0][1]) == 1:
            return it.args[1][0][1][0]
        if it.op == "mcall" and it.args[1] in ("values", "items") and not it.args[2]:
            d = it.args[0]
            if strip_none(self.type_of(st, d))[0] == "dict" or it.args[1] == "items":
                if it.args[1] == "values":
                    return mk("val", d)
                return mk("tuple", mk("key", d), mk("val", d))
        n = call_name(it)
        if n == "builtins.enumerate" and len(it.args[1]) == 1 and not it.args[2]:
            x = self.canon_iter(st, it.args[1][0])
            return mk("tuple", mk("idx", x), self.elem_of(st, x))
        if n == "builtins.range" and len(it.args[1]) == 1 and it.args[1][0].op == "len":
            return mk("idx", it.args[1][0].args[0])
        if n == "builtins.zip":
            return mk("tuple", *[self.elem_of(st, self.canon_iter(st, x)) for x in it.args[1]])
        if strip_none(self.type_of(st, it))[0] == "dict":
            return mk("key", it)
        return mk("elem", it)

    def s_For(self, n, st, fid):
        out = []
        for s, it in self.eval(n.iter, st, fid):
            if s.sig is not None:
                out.append(s)
                continue
            items = self.iter_items(s, it)
            unrolled = None
            if items is not None and len(items) <= 300:
                n0 = self.nstates
                unrolled = self.unroll(n, self.fork(s) if len(items) > 6 else s, fid, items)
                if unrolled is None:
                    self.nstates = n0
            if unrolled is not None:
                out.extend(unrolled)
            else:
                out.extend(self.generic_loop(n, s, fid, self.canon_iter(s, it)))
        return out

    def unroll(self, n, st, fid, items):
        live, done = [st], []
        for e in items:
            nxt = []
            if len(items) > 6 and len(live) + len(done) > 100:
                return None
            for s in live:
                for s2 in self.assign(n.target, e, s, fid, n):
                    for s3 in self.block(n.body, s2, fid):
                        if s3.sig is None:
                            nxt.append(s3)
                        elif s3.sig[0] == "continue":
                            s3.sig = None
                            nxt.append(s3)
                        elif s3.sig[0] == "break":
                            s3.sig = None
                            done.append(s3)
                        else:
                            done.append(s3)
            live = nxt
        for s in live:
            if n.orelse:
                done.extend(self.block(n.orelse, s, fid))
            else:
                done.append(s)
        return done

    def assigned_names(self, stmts):
        names = set()

        def visit(x):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)):
                if isinstance(x, ast.FunctionDef):
                    names.add(x.name)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            for c in ast.iter_child_nodes(x):
                visit(c)

        for s in stmts:
            visit(s)
        return names

    def generic_loop(self, n, st, fid, it, while_test=None):
        uid = self.new_uid()
        over = None
        if while_test is None and it.op == "comp" and len(it.args[1]) == 1 and len(it.args[1][0][1]) == 1 and it.args[1][0][1][0].op not in ("spread", "starred"):
            # iterating over selected elements is selecting in the loop
            over, it = it, it.args[0]
        env = st.frames[fid]
        carried = [x for x in sorted(self.assigned_names(n.body)) if x in env]
        if while_test is None:
            tnames = self.assigned_names([ast.Expr(n.target)]) if True else set()
            carried = [x for x in carried if x not in tnames]
        # dry run: which heap cells change?
        dry = self.fork(st)
        dry_trys = dry.trys
        changed = set()
        steps = {}
        for s in self.loop_body(n, dry, fid, it, while_test, over):
            if s.sig is not None and s.sig[0] in ("raise", "return"):
                continue
            for x in carried:
                v = s.frames[fid].get(x)
                if v is not None and v is not env[x]:
                    steps.setdefault(x, set()).add(self.type_of(s, v))
            for k, v in s.heap.items():
                if st.heap.get(k) is not v and (k in st.heap or len(k) == 2 and k[0].op not in ("ref", "new", "deepcopy") or len(k) == 2 and k[0].op in ("new", "deepcopy") and k[0].args[1] <= st.n):
                    if k[0].op == "ref" and k not in st.heap:
                        continue
                    changed.add(k)
        body = self.fork(st)
        lvs = {}
        for x in carried:
            ty = self.type_of(st, env[x])
            if ty[0] == "cls":
                for t2 in steps.get(x, ()):
                    ty = join_types(ty, t2)
            lv = mk("lv", x, ty, uid)
            lvs[x] = lv
            body.frames[fid][x] = lv
        hlv = {}
        for k in changed:
            if k[1] == "$":
                lv = mk("lvlist", uid, k[0])
            else:
                old = st.heap.get(k, mk("attr", k[0], k[1]) if len(k) == 2 else mk("item", k[0], k[2]))
                lv = mk("lv", str(k[1]), self.type_of(st, old), uid, k[0])
            hlv[k] = lv
            body.heap[k] = lv
        nev, nfacts = len(st.events), len(st.order)
        results = self.loop_body(n, body, fid, it, while_test, over)
        out, paths = [], []
        brk = []
        for s in results:
            conds = tuple(s.order[nfacts:])
            evs = s.events[nev:]
            if s.sig is None or s.sig[0] == "continue":
                paths.append((conds, evs, s))
            elif s.sig[0] == "break":
                s.sig = None
                brk.append((conds, evs, s))
            else:
                s.events = s.events[:nev] + [Event("iteration", (it,), self.loc(n), nfacts)] + evs
                out.append(s)
        post = st

        def out_of(s, v):
            """Values leave the loop without references to containers which were made in it"""
            if v is None or v.op == "ref" and (v, "$") in st.heap:
                return v
            return self.freeze(s, v, keep=st)

        # merge
        self.loops[it] = {"test": while_test, "vars": {
            lvs[x]: (env[x], [(c, s.frames[fid].get(x)) for c, _, s in paths]) for x in carried}, "breaks": len(brk),
            # (conditions, events, {variable: value at the end}, {container: value at the end}) of the cases
            "cases": [(c, e, {x: s.frames[fid].get(x) for x in carried}, {hlv[k]: out_of(s, s.heap.get(k)) for k in changed if k[1] == "$"}) for c, e, s in paths]}
        for x in carried:
            vals = [out_of(s, s.frames[fid].get(x)) for _, _, s in paths]
            post.frames[fid][x] = self.fold(st, it, env[x], lvs[x], [(c, v) for (c, _, _), v in zip(paths, vals)], while_test, uid)
        for k in changed:
            if k[1] == "$":
                init = st.heap[k]
                post.heap[k] = self.fold_list(it, init, hlv[k], [(c, out_of(s, s.heap.get(k))) for c, _, s in paths], body)
            else:
                old = st.heap.get(k, mk("attr", k[0], k[1]) if len(k) == 2 else mk("item", k[0], k[2]))
                post.heap[k] = self.fold(st, it, old, hlv[k], [(c, out_of(s, s.heap.get(k))) for c, _, s in paths], while_test, uid)
        # names bound in the loop only
        for x in self.assigned_names(n.body) | (self.assigned_names([ast.Expr(n.target)]) if while_test is None else set()):
            if x not in lvs and paths:
                v = paths[-1][2].frames[fid].get(x)
                if v is not None:
                    post.frames[fid][x] = v if isinstance(v, T) and v.op == "func" else mk("last", it, self.freeze(paths[-1][2], v))
        post.events.append(Event("loop", (it, [(c, e) for c, e, _ in paths + brk]), self.loc(n), nfacts))
        for _, _, s in paths:
            post.n = max(post.n, s.n)
        if n.orelse:
            out.extend(self.block(n.orelse, post, fid))
        else:
            out.append(post)
        for c, e, s in brk:
            s.events = s.events[:nev] + [Event("iteration", (it,), self.loc(n), nfacts)] + e
            out.append(s)
        return out

    def loop_body(self, n, st, fid, it, while_test, over=None):
        if while_test is not None:
            out = []
            for s, b in self.cond(while_test, st, fid):
                if s.sig is not None:
                    out.append(s)
                elif b:
                    out.extend(self.block(n.body, s, fid))
            return out
        out = []
        if over is None:
            live, x = [st], self.elem_of(st, it)
        else:
            (conds, (x,)), = over.args[1]
            live = [st]
            for atom, want in conds:
                nxt = []
                for s in live:
                    for s2, b in self.decide(s, atom):
                        (nxt if b == want else out).append(s2)
                live = nxt
        for s1 in live:
            for s in self.assign(n.target, x, s1, fid, n):
                out.extend(self.block(n.body, s, fid))
        return out

    def fold(self, st, it, init, lv, cases, while_test, uid):
        cases = [(c, v) for c, v in cases if v is not None]
        if all(v is lv for _, v in cases):
            return init
        if while_test is None:
            if all(v is lv or (v.op == "+" and v.args[0] is lv and not contains(v.args[1], lv)) for _, v in cases):
                items = tuple(
                    (c, () if v is lv else (v.args[1],)) for c, v in cases
                )
                return self.binop(st, ast.Add, init, mk("sum", comp(it, items), const(0)))
            if all(v is lv or (v.op in ("&", "|") and v.args[0] is lv and not contains(v.args[1], lv)) for _, v in cases):
                return mk("foldop", init, comp(it, tuple((c, () if v is lv else (mk("opnd", v.op, v.args[1]),)) for c, v in cases)))
            if len(cases) == 1 and not cases[0][0] and not contains(cases[0][1], lv):
                return mk("last", it, cases[0][1])
        return mk("fold", init, lv, it if it is not None else NONE, tuple((c, self.freeze(st, v) if v.op != "ref" else v) for c, v in cases))

    def fold_list(self, it, init, lv, cases, st):
        cases = [(c, v) for c, v in cases if v is not None]
        if all(v is lv for _, v in cases):
            return init
        items = []
        for c, v in cases:
            if v is lv:
                items.append((c, ()))
            elif v.op == "concat" and v.args[0] is lv and not any(contains(x, lv) for x in v.args[1:]):
                if all(x.op == "list" for x in v.args[1:]):
                    items.append((c, tuple(e for x in v.args[1:] for e in x.args)))
                else:
                    items.append((c, tuple(e for x in v.args[1:] for e in (x.args if x.op == "list" else (mk("spread", x),)))))
            elif v.op == "dictupd" and v.args[0] is lv and not contains(v.args[1], lv):
                items.append((c, tuple(mk("tuple", k, w) for k, w in v.args[1].args) if v.args[1].op == "dict" else (mk("spread", v.args[1]),)))
            else:
                return mk("fold", init, lv, it if it is not None else NONE, tuple(cases))
        if any(v.op == "dictupd" for _, v in cases if v is not lv):
            return mk("dictupd", init, mk("dictcomp", it if it is not None else NONE, tuple(items)))
        return concat(init, comp(it if it is not None else NONE, tuple(items)))

    def s_While(self, n, st, fid):
        it = mk("while", self.new_uid())
        # a condition which is false on entry
        probe = self.fork(st)
        r = self.cond(n.test, probe, fid)
        if len(r) == 1 and r[0][0].sig is None and r[0][1] is False:
            return self.block(n.orelse, st, fid) if n.orelse else [st]
        outs = self.generic_loop(n, st, fid, it, while_test=n.test)
        return outs

    def s_With(self, n, st, fid):
        states = [st]
        ctxs = []
        for item in n.items:
            nxt = []
            for s in states:
                if s.sig is not None:
                    nxt.append(s)
                    continue
                for s2, v in self.eval(item.context_expr, s, fid):
                    if s2.sig is None:
                        fv = self.freeze(s2, v)
                        self.ev(s2, "with_enter", fv, node=n)
                        s2.frames[fid]["$with"] = s2.frames[fid].get("$with", ()) + (fv,)
                        if item.optional_vars is not None:
                            for s3 in self.assign(item.optional_vars, mk("ctx", fv), s2, fid, n):
                                nxt.append(s3)
                            continue
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            if s.sig is not None:
                out.append(s)
                continue
            depth = len(n.items)
            for s2 in self.block(n.body, s, fid):
                ws = s2.frames[fid].get("$with", ())
                for w in ws[::-1][:depth]:
                    self.ev(s2, "with_exit", w, node=n)
                s2.frames[fid]["$with"] = ws[: len(ws) - depth]
                out.append(s2)
        return out

    def s_Try(self, n, st, fid):
        f = st.frames[fid]["$func"]
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append(["builtins.BaseException"])
            elif isinstance(h.type, ast.Tuple):
                hs.append([self.p.dotted(f.module, e) for e in h.type.elts])
            else:
                hs.append([self.p.dotted(f.module, h.type)])
        saved = st.trys
        st.trys = saved + (tuple(x for y in hs for x in y),) if n.handlers else saved
        out = []
        for s in self.block(n.body, st, fid):
            s.trys = saved
            if s.sig is not None and s.sig[0] == "raise":
                name = exc_name(s.sig[1])
                handled = False
                for h, names in zip(n.handlers, hs):
                    if name == "?" or any(self.p.is_subclass(name, x) for x in names):
                        exc = s.sig[1]
                        s.sig = None
                        self.ev(s, "except", exc, node=h)
                        s.frames[fid]["$exc"] = exc
                        if h.name:
                            s.frames[fid][h.name] = mk("excval", exc)
                        out.extend(self.block(h.body, s, fid))
                        handled = True
                        break
                if not handled:
                    out.append(s)
            elif s.sig is None and n.orelse:
                out.extend(self.block(n.orelse, s, fid))
            else:
                out.append(s)
        if n.finalbody:
            fin = []
            for s in out:
                sig = s.sig
                s.sig = None
                for s2 in self.block(n.finalbody, s, fid):
                    if s2.sig is None:
                        s2.sig = sig
                    fin.append(s2)
            out = fin
        return out

    def may_raise(self, st, node, what, kinds=None):
        """Fork an exceptional path for each exception class that is handled around"""
        outs = []
        if not st.trys:
            return outs
        for hs in st.trys:
            for h in hs:
                if kinds is None and h in ("builtins.KeyError", "builtins.IndexError", "builtins.AttributeError", "builtins.ImportError", "builtins.ModuleNotFoundError"):
                    continue
                if kinds is not None and h not in kinds and h not in ("builtins.Exception", "builtins.BaseException", "builtins.LookupError"):
                    continue
                key = (id(node), h)
                if key in st.forked:
                    continue
                st.forked = st.forked | {key}
                s = self.fork(st)
                s.sig = ("raise", ext(h) if h not in self.p.classes else mk("class", h))
                self.ev(s, "implicit_raise", s.sig[1], what, node=node)
                outs.append((s, None))
        return outs

    # ------------------------------------------------------------------ expressions
    def evals(self, nodes, st, fid):
        """Evaluate a list of expressions from left to right -> [(state, [values])]"""
        acc = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in acc:
                if s.sig is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.eval(n, s, fid):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def eval(self, n, st, fid):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(n).__name__)
        return m(n, st, fid)

    def cond(self, n, st, fid):
        """Evaluate an expression for its truth -> [(state, bool)]"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, (not b) if s.sig is None else b) for s, b in self.cond(n.operand, st, fid)]
        if isinstance(n, ast.BoolOp):
            acc = [(st, None)]
            done = []
            isand = isinstance(n.op, ast.And)
            for x in n.values:
                nxt = []
                for s, _ in acc:
                    for s2, b in self.cond(x, s, fid):
                        if s2.sig is not None:
                            done.append((s2, b))
                        elif b != isand:
                            done.append((s2, b))
                        else:
                            nxt.append((s2, b))
                acc = nxt
            return done + acc
        out = []
        for s, v in self.eval(n, st, fid):
            if s.sig is not None:
                out.append((s, False))
            else:
                out.extend(self.decide(s, self.truth(s, v)))
        return out

    def e_Constant(self, n, st, fid):
        v = n.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return [(st, mk("const", type(v).__name__, repr(v)))]
        return [(st, const(v))]

    def e_Name(self, n, st, fid):
        v = self.lookup(st, fid, n.id)
        if v.op == "ext" and v.args[0] == "builtins." + n.id and not hasattr(builtins, n.id) and self.unbound(st, fid, n.id):
            self.ev(st, "raise", ext("builtins.NameError"), node=n)
            st.sig = ("raise", ext("builtins.NameError"))
            return [(st, None)]
        return [(st, v)]

    def unbound(self, st, fid, name):
        """Is nothing of this name anywhere in the functions around?"""
        f = st.frames[fid]["$func"]
        if any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(f.module.tree)):
            return False
        while fid is not None:
            f = st.frames[fid]["$func"]
            if f is None or not isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
                return False
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.arg) and x.arg == name \
                        or isinstance(x, ast.ExceptHandler) and x.name == name or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name \
                        or isinstance(x, ast.alias) and (x.asname or x.name.split(".")[0]) == name or isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
                    return False
            fid = st.frames[fid]["$parent"]
        return True

    def lookup(self, st, fid, name):
        p = fid
        while p is not None:
            env = st.frames[p]
            if name in env:
                return env[name]
            p = env["$parent"]
        f = st.frames[fid]["$func"]
        return self.module_name(f.module, name)

    def module_name(self, m, name):
        b = m.bindings.get(name)
        if b is None:
            if name == "__file__":
                return mk("file", m.name)
            if name == "__name__":
                return const(m.name)
            return ext("builtins." + name)
        return self.binding_value(m, name, b)

    def binding_value(self, m, name, b):
        if b[0] == "import":
            return self.resolve_dotted(b[1])
        if b[0] == "func":
            return mk("func", b[1], 0)
        if b[0] == "class":
            return mk("class", b[1])
        if b[0] == "decl":
            return mk("global", m.name, name)
        key = (m.name, name)
        if key in self.modcache:
            return self.modcache[key]
        if name in m.mutated_globals:
            v = mk("sym", m.name + "." + name, self.p.ann_type(m, b[2]) if len(b) > 2 else self.lit_type(b[1]))
            self.modcache[key] = v
            return v
        self.modcache[key] = mk("global", m.name, name)  # recursion guard
        v = self.module_expr(m, b[1], name)
        if b[0] == "unpack":
            v = self.getitem_term(State(), v, const(b[2]))
        self.modcache[key] = v
        return v

    @staticmethod
    def lit_type(node):
        if isinstance(node, ast.Dict) or isinstance(node, ast.Call) and getattr(node.func, "id", "") == "dict":
            return ("dict", ("any",), ("any",))
        if isinstance(node, ast.List):
            return ("list", ("any",))
        return ("any",)

    def module_expr(self, m, node, name):
        """Value of a module level expression (symbolic if it is not closed)"""
        f = Func(m.name + ".<module>", ast.parse("lambda: None", mode="eval").body, m)
        st = State()
        self.fid += 1
        fid = self.fid
        st.frames[fid] = {"$parent": None, "$func": f}
        self.stack.append(f)
        try:
            r = self.eval(node, st, fid)
        except Undecided:
            return mk("global", m.name, name)
        finally:
            self.stack.pop()
        if len(r) != 1 or r[0][0].sig is not None:
            return mk("global", m.name, name)
        s, v = r[0]
        v = self.freeze(s, v)
        if v.op == "new":
            return mk("sym", m.name + "." + name, ("cls", v.args[0]))
        return v

    def resolve_dotted(self, dotted):
        d = self.p.resolve(dotted)
        if d in self.p.classes:
            return mk("class", d)
        if d in self.p.functions:
            return mk("func", d, 0)
        if d in self.p.modules:
            return mk("module", d)
        parts = d.rsplit(".", 1)
        if len(parts) == 2 and parts[0] in self.p.modules:
            m = self.p.modules[parts[0]]
            b = m.bindings.get(parts[1])
            if b is not None:
                return self.binding_value(m, parts[1], b)
        return ext(d)

    def e_Attribute(self, n, st, fid):
        out = []
        for s, o in self.eval(n.value, st, fid):
            if s.sig is not None:
                out.append((s, None))
            else:
                out.extend(self.getattr_(s, o, n.attr, n))
        return out

    def getattr_(self, st, o, name, node):
        op = o.op
        if op == "module":
            return [(st, self.resolve_dotted(o.args[0] + "." + name))]
        if op == "ext":
            return [(st, ext(o.args[0] + "." + name))]
        if op == "class":
            q = o.args[0]
            for c in self.p.mro(q)[0]:
                if name in c.assigns and self.p.is_enum(q) and name in self.p.enum_members(q):
                    return [(st, mk("enum", c.qualname, name))]
                if name in c.methods:
                    f = c.methods[name]
                    if f.kind == "classmethod":
                        return [(st, mk("bound", mk("func", f.qualname, 0), o))]
                    return [(st, mk("func", f.qualname, 0))]
                if name in c.assigns:
                    return [(st, self.module_expr(c.module, c.assigns[name], c.name + "." + name))]
            if name == "__name__":
                return [(st, const(q.rsplit(".", 1)[-1]))]
            return [(st, mk("attr", o, name))]
        if op == "enum":
            if name == "name":
                return [(st, const(o.args[1]))]
            if name == "value":
                c = self.p.classes[o.args[0]]
                v = c.assigns[o.args[1]]
                try:
                    return [(st, const(ast.literal_eval(v)))]
                except (ValueError, TypeError):
                    return [(st, mk("attr", o, name))]
        if op == "super":
            cls, me = o.args
            mro = self.p.mro(self.class_of(st, me) or cls)[0]
            names = [c.qualname for c in mro]
            start = names.index(cls) + 1 if cls in names else 0
            for c in mro[start:]:
                if name in c.methods:
                    return [(st, mk("bound", mk("func", c.methods[name].qualname, 0), me))]
                if name in c.props:
                    return self.call_func(st, c.props[name], None, [me], {}, node)
            return [(st, mk("attr", o, name))]
        if (o, name) in st.heap:
            return [(st, st.heap[(o, name)])]
        c = self.class_of(st, o)
        if c is not None:
            fm = self.p.find_method(c, name)
            if fm is not None:
                kind, f = fm
                if kind == "property":
                    return self.call_func(st, f, None, [o], {}, node)
                if f.kind == "staticmethod":
                    return [(st, mk("func", f.qualname, 0))]
                if f.kind == "classmethod":
                    return [(st, mk("bound", mk("func", f.qualname, 0), mk("class", c)))]
                return [(st, mk("bound", mk("func", f.qualname, 0), o))]
            if name == "__class__":
                return [(st, mk("class", c))]
            if op in ("new",):
                for k in self.p.mro(c)[0]:
                    if name in k.assigns:
                        return [(st, self.module_expr(k.module, k.assigns[name], k.name + "." + name))]
            if op == "deepcopy":
                src = o.args[0]
                if (src, name) in st.heap:
                    return [(st, mk("deepcopy", st.heap[(src, name)], o.args[1]))]
                return [(st, mk("attr", o, name))]
            for k in self.p.mro(c)[0]:
                if name in k.assigns and name not in self.instance_fields(c):
                    return [(st, self.module_expr(k.module, k.assigns[name], k.name + "." + name))]
            return [(st, mk("attr", o, name))]
        if op == "ref":
            return [(st, mk("attr", o, name))]
        ex = self.may_raise(st, node, o, ("builtins.AttributeError",))
        return [(st, mk("attr", o, name))] + ex

    def instance_fields(self, cls):
        """Fields which are assigned through an instance somewhere in the class"""
        key = ("fields", cls)
        if key not in self.modcache:
            names = set()
            for c in self.p.mro(cls)[0]:
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        names.add(n.attr)
            self.modcache[key] = names
        return self.modcache[key]

    def e_Subscript(self, n, st, fid):
        out = []
        for s, vs in self.evals([n.value, n.slice], st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            o, k = vs
            c = self.class_of(s, o) if o.op not in ("class",) else None
            if c:
                m = self.p.find_method(c, "__getitem__")
                if m:
                    out.extend(self.call_func(s, m[1], None, [o, k], {}, n))
                    continue
            if o.op == "class" and self.p.is_enum(o.args[0]):
                if is_str(k):
                    if cval(k) in self.p.enum_members(o.args[0]):
                        out.append((s, mk("enum", o.args[0], cval(k))))
                    else:
                        s.sig = ("raise", ext("builtins.KeyError"))
                        self.ev(s, "implicit_raise", s.sig[1], o, node=n)
                        out.append((s, None))
                else:
                    out.append((s, mk("enumitem", o.args[0], self.freeze(s, k))))
                continue
            d = self.as_dict(s, o)
            fk = self.freeze(s, k)
            if d is not None and s.trys:
                at = mk("isnone", self.dict_get(s, d, fk))
                if any(h in ("builtins.KeyError", "builtins.LookupError", "builtins.Exception") for hs in s.trys for h in hs):
                    for s2, b in self.decide(s, at if at.args[0].op not in ("new",) else FALSE):
                        if b:
                            s2.sig = ("raise", ext("builtins.KeyError"))
                            self.ev(s2, "implicit_raise", s2.sig[1], o, node=n)
                            out.append((s2, None))
                        else:
                            out.append((s2, self.getitem_term(s2, o, fk)))
                    continue
            elif s.trys:
                out.extend(self.may_raise(s, n, o, ("builtins.KeyError", "builtins.IndexError")))
            out.append((s, self.getitem_term(s, o, fk)))
        return out

    def getitem_term(self, st, o, k):
        k = self.freeze(st, k)
        c = o
        if o.op == "ref":
            c = st.heap[(o, "$")]
        if c.op in ("list", "tuple") and is_const(k) and isinstance(cval(k), int):
            i = cval(k)
            if -len(c.args) <= i < len(c.args):
                return c.args[i]
        if c.op == "dict":
            for kk, v in c.args:
                if kk is k:
                    return v
            if k.op == "key" and k.args[0] is self.freeze(st, o):
                return mk("val", k.args[0])
        if k.op == "slice3":
            lo, hi, step = k.args
            if c.op in ("list", "tuple") and all(x is NONE or is_const(x) for x in k.args):
                sl = slice(*[None if x is NONE else cval(x) for x in k.args])
                return mk(c.op, *c.args[sl])
            if is_str(c) and all(x is NONE or is_const(x) for x in k.args):
                return const(cval(c)[slice(*[None if x is NONE else cval(x) for x in k.args])])
            return mk("slice", self.freeze(st, o), lo, hi, step)
        if is_str(c) and is_const(k) and isinstance(cval(k), int) and -len(cval(c)) <= cval(k) < len(cval(c)):
            return const(cval(c)[cval(k)])
        if o.op != "ref":
            h = st.heap.get((o, "[]", k))
            if h is not None:
                return h
            ty = strip_none(self.type_of(st, o))
            if ty[0] == "dict":
                if k.op == "key" and k.args[0] is o:
                    return mk("val", o)
                return mk("dget", o, k)
            if k.op == "idx" and k.args[0] is o:
                return mk("elem", o)
            if c.op == "mcall" and c.args[1] == "split" and False:
                pass
            if c.op == "elem" and c.args[0].op == "mcall" and c.args[0].args[1] == "items" and is_const(k):
                return mk("key" if cval(k) == 0 else "val", c.args[0].args[0])
            # stores to other items: keep the origin distinguishable
            return mk("item", o, k)
        return mk("item", self.freeze(st, o), k)

    def e_Slice(self, n, st, fid):
        parts = [n.lower, n.upper, n.step]
        out = []
        acc = [(st, [])]
        for x in parts:
            nxt = []
            for s, vs in acc:
                if x is None:
                    nxt.append((s, vs + [NONE]))
                else:
                    for s2, v in self.eval(x, s, fid):
                        nxt.append((s2, vs + [v]))
            acc = nxt
        return [(s, mk("slice3", *vs) if s.sig is None else None) for s, vs in acc]

    def e_Index(self, n, st, fid):
        return self.eval(n.value, st, fid)

    def e_Starred(self, n, st, fid):
        return [(s, mk("starred", v) if s.sig is None else None) for s, v in self.eval(n.value, st, fid)]

    def e_Tuple(self, n, st, fid):
        out = []
        for s, vs in self.evals(n.elts, st, fid):
            if s.sig is not None:
                out.append((s, None))
            else:
                out.append((s, mk("tuple", *self.expand(s, vs))))
        return out

    def expand(self, st, vs):
        r = []
        for v in vs:
            if v.op == "starred":
                x = self.freeze(st, v.args[0])
                if x.op in ("list", "tuple"):
                    r.extend(x.args)
                else:
                    r.append(mk("spread", x))
            else:
                r.append(v)
        return r

    def e_List(self, n, st, fid):
        out = []
        for s, vs in self.evals(n.elts, st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            items = self.expand(s, vs)
            if any(i.op == "spread" for i in items):
                parts, cur = [], []
                for i in items:
                    if i.op == "spread":
                        if cur:
                            parts.append(mk("list", *cur))
                            cur = []
                        parts.append(i.args[0] if i.args[0].op in ("comp", "concat") else i)
                    else:
                        cur.append(i)
                if cur:
                    parts.append(mk("list", *cur))
                out.append((s, self.alloc(s, concat(*parts))))
            else:
                out.append((s, self.alloc(s, mk("list", *items))))
        return out

    def e_Set(self, n, st, fid):
        return [(s, mk("set", *vs) if s.sig is None else None) for s, vs in self.evals(n.elts, st, fid)]

    def e_Dict(self, n, st, fid):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.evals(nodes, st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            i = 0
            items = []
            upd = None
            for k, v in zip(n.keys, n.values):
                if k is None:
                    x = self.freeze(s, vs[i])
                    i += 1
                    if x.op == "dict" and upd is None:
                        for kk, vv in x.args:
                            items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                    else:
                        base = mk("dict", *items) if upd is None else (mk("dictupd", upd, mk("dict", *items)) if items else upd)
                        upd = mk("dictupd", base, x) if (items or upd is not None) else mk("dictupd", mk("dict"), x)
                        items = []
                else:
                    kk = self.freeze(s, vs[i])
                    items = [(a, b) for a, b in items if a is not kk] + [(kk, vs[i + 1])]
                    i += 2
            c = mk("dict", *items)
            if upd is not None:
                c = mk("dictupd", upd, c) if items else upd
            out.append((s, self.alloc(s, c)))
        return out

    def e_JoinedStr(self, n, st, fid):
        vals = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vs in self.evals(vals, st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            parts = []
            for x, v in zip(n.values, vs):
                parts.append(v)
            out.append((s, fmt([self.freeze(s, p) for p in parts])))
        return out

    def e_FormattedValue(self, n, st, fid):
        return self.eval(n.value, st, fid)

    def e_UnaryOp(self, n, st, fid):
        if isinstance(n.op, ast.Not):
            return [(s, (TRUE if b else FALSE) if s.sig is None else None) for s, b in self.cond(n, st, fid)]
        out = []
        for s, v in self.eval(n.operand, st, fid):
            if s.sig is not None:
                out.append((s, None))
            elif is_num(v):
                x = cval(v)
                out.append((s, const({ast.USub: lambda: -x, ast.UAdd: lambda: +x, ast.Invert: lambda: ~x}[type(n.op)]())))
            else:
                out.append((s, mk({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(n.op)], self.freeze(s, v))))
        return out

    def e_BinOp(self, n, st, fid):
        out = []
        for s, vs in self.evals([n.left, n.right], st, fid):
            out.append((s, self.binop(s, type(n.op), *vs) if s.sig is None else None))
        return out

    OPS = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
        ast.RShift: ">>", ast.MatMult: "@",
    }

    def binop(self, st, op, a, b):
        o = self.OPS[op]
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            try:
                r = {
                    "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                    "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 100 else None,
                    "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                }[o]()
                if r is not None and o not in ("/",):
                    return const(r)
                if o == "/":
                    return mk("/", a, b)  # keep exact
            except (TypeError, ZeroDivisionError, KeyError):
                pass
        if o == "+":
            if is_str(a) and is_str(b):
                return const(cval(a) + cval(b))
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if a.op == "ref" or b.op == "ref":
                if fa.op in ("list", "comp", "concat") or fb.op in ("list", "comp", "concat"):
                    return self.alloc(st, concat(fa if fa.op in ("list", "comp", "concat") else mk("spread", fa), fb if fb.op in ("list", "comp", "concat") else mk("spread", fb)))
            if fa.op == "tuple" and fb.op == "tuple":
                return mk("tuple", *(fa.args + fb.args))
            if self.type_of(st, fa) == ("str",) or self.type_of(st, fb) == ("str",):
                return fmt([fa, fb])
            if is_num(fa) and cval(fa) == 0 and fb.op == "sum":
                return fb
            return mk("+", fa, fb)
        if o == "*":
            if is_str(a) and is_num(b):
                return const(cval(a) * cval(b))
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if a.op == "ref" and fa.op == "list" and is_num(fb) and cval(fb) * len(fa.args) < 200:
                return self.alloc(st, mk("list", *(fa.args * cval(fb))))
            if a.op == "ref":
                return self.alloc(st, mk("repeat", fa, fb))
            return mk("*", fa, fb)
        if o == "%" and is_str(a):
            fb = self.freeze(st, b)
            vals = list(fb.args) if fb.op == "tuple" else [fb]
            parts = _re.split(r"%[sdr]", cval(a))
            if len(parts) == len(vals) + 1:
                r = [const(parts[0])]
                for v, p in zip(vals, parts[1:]):
                    r += [v, const(p)]
                return fmt(r)
        return mk(o, self.freeze(st, a), self.freeze(st, b))

    def e_BoolOp(self, n, st, fid):
        isand = isinstance(n.op, ast.And)
        acc = [(st, None)]
        done = []
        for i, x in enumerate(n.values):
            nxt = []
            for s, _ in acc:
                for s2, v in self.eval(x, s, fid):
                    if s2.sig is not None:
                        done.append((s2, None))
                        continue
                    if i == len(n.values) - 1:
                        nxt.append((s2, v))
                        continue
                    for s3, b in self.decide(s2, self.truth(s2, v)):
                        if b == isand:
                            nxt.append((s3, v))
                        else:
                            # the value of a decided comparison is known
                            done.append((s3, v if v.op not in ("eq", "lt", "in", "isnone", "not", "isinst", "and", "or") else (TRUE if b else FALSE)))
            acc = nxt
        return done + acc

    def e_Compare(self, n, st, fid):
        out = []
        for s, vs in self.evals([n.left] + n.comparators, st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            r = None
            for i, op in enumerate(n.ops):
                a, b = vs[i], vs[i + 1]
                c = self.cmp(s, op, a, b)
                r = c if r is None else mk("and", r, c)
            out.append((s, r))
        return out

    def e_IfExp(self, n, st, fid):
        out = []
        for s, b in self.cond(n.test, st, fid):
            if s.sig is not None:
                out.append((s, None))
            else:
                out.extend(self.eval(n.body if b else n.orelse, s, fid))
        return out

    def e_Lambda(self, n, st, fid):
        f = st.frames[fid]["$func"]
        q = "%s.<lambda>@%d:%d" % (f.qualname, n.lineno, n.col_offset)
        if q not in self.lambdas:
            self.lambdas[q] = Func(q, n, f.module, None, "function")
        return [(st, mk("func", q, fid))]

    def e_NamedExpr(self, n, st, fid):
        out = []
        for s, v in self.eval(n.value, st, fid):
            if s.sig is None:
                self.set_name(s, fid, n.target.id, v)
            out.append((s, v))
        return out

    def e_Yield(self, n, st, fid):
        if n.value is None:
            self.ev(st, "yield", NONE, node=n)
            return [(st, NONE)]
        out = []
        for s, v in self.eval(n.value, st, fid):
            if s.sig is None:
                self.ev(s, "yield", self.freeze(s, v), node=n)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, fid):
        out = []
        for s, v in self.eval(n.value, st, fid):
            if s.sig is None:
                self.ev(s, "yieldfrom", self.freeze(s, v), node=n)
            out.append((s, NONE))
        return out

    # -- comprehensions
    def e_ListComp(self, n, st, fid):
        return self.comprehension(n, st, fid, [n.elt], "list")

    def e_GeneratorExp(self, n, st, fid):
        return self.comprehension(n, st, fid, [n.elt], "gen")

    def e_SetComp(self, n, st, fid):
        return self.comprehension(n, st, fid, [n.elt], "set")

    def e_DictComp(self, n, st, fid):
        return self.comprehension(n, st, fid, [n.key, n.value], "dict")

    def comprehension(self, n, st, fid, elts, kind):
        f = st.frames[fid]["$func"]
        self.fid += 1
        cid = self.fid
        st.frames[cid] = {"$parent": fid, "$func": f}
        out = []
        for s, c in self.comp_gen(n.generators, 0, elts, st, cid, n):
            if s.sig is not None:
                out.append((s, None))
                continue
            if kind == "dict":
                if c.op == "list":
                    items = []
                    for t in c.args:
                        k = self.freeze(s, t.args[0])
                        items = [(a, b) for a, b in items if a is not k] + [(k, t.args[1])]
                    out.append((s, self.alloc(s, mk("dict", *items))))
                else:
                    out.append((s, self.alloc(s, mk("dictcomp", *c.args) if c.op == "comp" else mk("dictof", c))))
            elif kind == "set":
                out.append((s, mk("setof", c) if c.op != "list" else mk("set", *c.args)))
            elif kind == "list":
                out.append((s, self.alloc(s, c)))
            else:
                out.append((s, c))
        return out

    def comp_gen(self, gens, i, elts, st, cid, node):
        g = gens[i]
        out = []
        for s, it in self.eval(g.iter, st, cid):
            if s.sig is not None:
                out.append((s, None))
                continue
            items = self.iter_items(s, it)
            if items is not None and len(items) <= 300:
                acc = [(s, [])]
                for e in items:
                    nxt = []
                    for s2, vals in acc:
                        if s2.sig is not None:
                            nxt.append((s2, vals))
                            continue
                        for s3 in self.assign(g.target, e, s2, cid, node):
                            nxt.extend(
                                (x, vals + y) for x, y in self.comp_body(gens, i, elts, s3, cid, node)
                            )
                    acc = nxt
                for s2, vals in acc:
                    if s2.sig is not None:
                        out.append((s2, None))
                        continue
                    parts = []
                    for v in vals:
                        parts.append(v)
                    if all(p[0] == "item" for p in parts):
                        out.append((s2, mk("list", *[p[1] for p in parts])))
                    else:
                        out.append((s2, concat(*[mk("list", p[1]) if p[0] == "item" else p[1] for p in parts])))
                continue
            it = self.canon_iter(s, it)
            nf, ne = len(s.order), len(s.events)
            b = self.fork(s)
            paths = []
            for s2 in self.assign(g.target, self.elem_of(s, it), b, cid, node):
                for s3, vals in self.comp_body(gens, i, elts, s2, cid, node):
                    conds = tuple(s3.order[nf:])
                    if s3.sig is not None:
                        s3.events = s3.events[:ne] + [Event("iteration", (it,), self.loc(node), nf)] + s3.events[ne:]
                        out.append((s3, None))
                        continue
                    paths.append((conds, tuple(self.freeze(s3, v[1] if v[0] == "item" else mk("spread", v[1])) for v in vals), s3.events[ne:]))
            # forget facts about the element
            evs = [(c, e) for c, _, e in paths if e]
            if evs:
                s.events.append(Event("loop", (it, evs), self.loc(node), nf))
            out.append((s, comp(it, tuple((c, v) for c, v, _ in paths))))
        return out

    def comp_body(self, gens, i, elts, st, cid, node):
        """-> [(state, [("item", v) | ("spread", v)])]"""
        states = [(st, True)]
        for c in gens[i].ifs:
            nxt = []
            for s, ok in states:
                if not ok or s.sig is not None:
                    nxt.append((s, ok))
                else:
                    nxt.extend(self.cond(c, s, cid))
            states = nxt
        out = []
        for s, ok in states:
            if s.sig is not None:
                out.append((s, []))
            elif not ok:
                out.append((s, []))
            elif i + 1 < len(gens):
                for s2, v in self.comp_gen(gens, i + 1, elts, s, cid, node):
                    out.append((s2, [("spread", v)] if v is not None else []))
            else:
                for s2, vs in self.evals(elts, s, cid):
                    if s2.sig is not None:
                        out.append((s2, []))
                    elif len(elts) == 2:
                        out.append((s2, [("item", mk("tuple", *vs))]))
                    else:
                        out.append((s2, [("item", vs[0])]))
        return out

    # -- calls
    def e_Call(self, n, st, fid):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            p = fid
            while p is not None:
                f = st.frames[p]["$func"]
                if f.cls is not None:
                    first = f.node.args.args[0].arg
                    return [(st, mk("super", f.cls.qualname, st.frames[p][first]))]
                p = st.frames[p]["$parent"]
            raise Undecided("super")
        out = []
        for s, fv in self.eval(n.func, st, fid):
            if s.sig is not None:
                out.append((s, None))
                continue
            nodes = list(n.args) + [k.value for k in n.keywords]
            for s2, vs in self.evals(nodes, s, fid):
                if s2.sig is not None:
                    out.append((s2, None))
                    continue
                pos = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        x = v.args[0]
                        fx = self.freeze(s2, x)
                        if fx.op in ("list", "tuple"):
                            pos.extend(fx.args)
                        else:
                            pos.append(mk("starred", fx))
                    else:
                        pos.append(v)
                kw = {}
                star = []
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is not None:
                        kw[k.arg] = v
                    else:
                        fx = self.freeze(s2, v)
                        if fx.op == "dict" and all(is_str(a) for a, _ in fx.args):
                            for a, b in fx.args:
                                kw[cval(a)] = b
                        else:
                            star.append(v)
                out.extend(self.call(s2, fv, pos, kw, star, n, fid))
        return out

    def call(self, st, fv, pos, kw, star, node, fid=None):
        self.calls_seen += 1
        op = fv.op
        if op == "bound":
            return self.call(st, fv.args[0], [fv.args[1]] + pos, kw, star, node, fid)
        if op == "func":
            f = self.p.functions.get(fv.args[0]) or self.lambdas.get(fv.args[0])
            return self.call_func(st, f, fv.args[1] or None, pos, kw, node, star)
        if op == "class":
            return self.instantiate(st, fv, pos, kw, star, node)
        if op == "attr":
            return self.method_call(st, fv.args[0], fv.args[1], pos, kw, star, node)
        if op == "ext":
            return self.ext_call(st, fv, pos, kw, star, node)
        if op == "lam":
            pass
        c = self.class_of(st, fv)
        if c:
            m = self.p.find_method(c, "__call__")
            if m:
                return self.call_func(st, m[1], None, [fv] + pos, kw, node, star)
        return self.opaque_call(st, fv, pos, kw, star, node)

    def frz_args(self, st, pos, kw, star):
        p = tuple(self.carg(st, x) for x in pos)
        k = tuple(sorted(((a, self.carg(st, b)) for a, b in kw.items()), key=lambda x: x[0]))
        k = k + tuple(("**", self.keywords(st, s)) for s in star)
        return p, k

    def keywords(self, st, star):
        """Keywords handed on; a copy of them is the same"""
        t = self.freeze(st, star)
        while t.op == "dictupd" and len(t.args) == 2 and t.args[0] is mk("dict"):
            t = t.args[1]
        return t

    def carg(self, st, v):
        """An argument for external code; callbacks are summarised"""
        if v.op in ("func", "bound"):
            return self.summarise(st, v)
        return self.freeze(st, v)

    def summarise(self, st, v):
        f = v.args[0] if v.op == "bound" else v
        fn = self.p.functions.get(f.args[0]) or self.lambdas.get(f.args[0])
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        skip = 1 if v.op == "bound" else 0
        nreq = names[skip:]
        if fn in self.stack or len(self.stack) > self.max_depth or a.vararg or a.kwarg or a.kwonlyargs:
            return mk("lam", f.args[0], ())
        pars = [mk("sym", "$%d" % i, ("any",)) for i in range(len(nreq))]
        ndef = len(a.defaults)
        if ndef:
            pars = pars[: len(pars) - ndef]
        s = self.fork(st)
        s.trys = ()
        nf, ne = len(s.order), len(s.events)
        try:
            res = self.call(s, v, pars, {}, [], None)
        except Undecided:
            return mk("lam", f.args[0], ())
        cases = []
        evs = []
        for s2, r in res:
            c = tuple(s2.order[nf:])
            evs.append((c, s2.events[ne:]))
            cases.append((c, self.carg(s2, r) if s2.sig is None else mk("raise", s2.sig[1])))
        t = mk("lam", "", tuple(cases))
        st.events.append(Event("loop", (t, evs), self.loc(None), nf))
        return t

    def opaque_call(self, st, fv, pos, kw, star, node):
        p, k = self.frz_args(st, pos, kw, star)
        t = mk("call", self.freeze(st, fv), p, k)
        self.ev(st, "call", t, node=node)
        return [(st, t)] + self.may_raise(st, node, t)

    def bind(self, st, f, pos, kw, star, def_fid, node):
        """Bind arguments to parameters -> {name: value}"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        rest = []
        for i, v in enumerate(pos):
            if v.op == "starred":
                if a.vararg and i >= len(names):
                    rest.append(mk("spread", v.args[0]))
                    continue
                if i <= len(names) and a.vararg and not pos[i + 1:]:
                    rest.append(mk("spread", v.args[0]))
                    continue
                raise Undecided("star arguments")
            if i < len(names):
                bound[names[i]] = v
            else:
                rest.append(v)
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            else:
                extra.append((const(k), v))
        if a.vararg:
            if len(rest) == 1 and rest[0].op == "spread":
                bound[a.vararg.arg] = rest[0].args[0]
            else:
                bound[a.vararg.arg] = mk("tuple", *rest)
        elif rest:
            raise Undecided("too many arguments for %s" % f.qualname)
        if a.kwarg:
            if star and not extra:
                # the callee gets a new dictionary
                bound[a.kwarg.arg] = self.alloc(st, mk("dictupd", mk("dict"), self.keywords(st, star[0])))
            elif star:
                bound[a.kwarg.arg] = self.alloc(st, mk("dictupd", self.keywords(st, star[0]), mk("dict", *extra)))
            else:
                bound[a.kwarg.arg] = self.alloc(st, mk("dict", *extra))
        elif extra:
            raise Undecided("unexpected keyword for %s" % f.qualname)
        elif star:
            for x in names:
                if x not in bound:
                    bound[x] = mk("dget", self.freeze(st, star[0]), const(x))
        # defaults
        pos_def = list(zip((a.posonlyargs + a.args)[len(names) - len(a.defaults):], a.defaults))
        kw_def = [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pos_def + kw_def:
            if x.arg not in bound:
                if def_fid is not None and def_fid in st.frames:
                    r = self.eval(d, st, def_fid)
                    bound[x.arg] = r[0][1]
                else:
                    v = self.module_expr(f.module, d, "default")
                    if v.op in ("list", "dict"):
                        v = self.alloc(st, v)
                    bound[x.arg] = v
        for x in names + [y.arg for y in a.kwonlyargs]:
            if x not in bound:
                raise Undecided("missing argument %s for %s" % (x, f.qualname))
        return bound

    def call_func(self, st, f, def_fid, pos, kw, node, star=()):
        q = f.qualname
        if self.opaque_pred(q):
            p, k = self.frz_args(st, pos, kw, star)
            p, k = in_order(f, p, k)
            t = mk("rcall", q, p, k)
            self.ev(st, "rcall", t, node=node)
            return [(st, t)] + self.may_raise(st, node, t)
        if f.is_gen:
            p, k = self.frz_args(st, pos, kw, star)
            t = mk("rcall", q, p, k)
            self.ev(st, "rcall", t, node=node)
            return [(st, t)]
        if f in self.stack or len(self.stack) > self.max_depth:
            p, k = self.frz_args(st, pos, kw, star)
            t = mk("rcall", q, p, k)
            self.ev(st, "rcall", t, node=node)
            return [(st, t)]
        decs = [] if isinstance(f.node, ast.Lambda) else f.node.decorator_list
        for d in decs:
            nm = self.p.dotted(f.module, d.func if isinstance(d, ast.Call) else d).rsplit(".", 1)[-1]
            if nm not in ("property", "setter", "classmethod", "staticmethod", "abstractmethod", "wraps", "lru_cache"):
                raise Undecided("decorator %s" % nm)
        bound = self.bind(st, f, pos, kw, list(star), def_fid, node)
        return self.run_func(st, f, bound, def_fid, node)

    def instantiate(self, st, cv, pos, kw, star, node):
        q = cv.args[0]
        if self.p.is_enum(q):
            p, k = self.frz_args(st, pos, kw, star)
            if p and p[0].op == "enum" and p[0].args[0] == q:
                return [(st, p[0])]
            return [(st, mk("enumitem", q, *p))]
        fm = None
        for c in self.p.mro(q)[0]:
            if "__init__" in c.methods:
                fm = c.methods["__init__"]
                break
        st.n += 1
        if self.p.is_subclass(q, "builtins.BaseException") or (fm is None and self.p.mro(q)[1] and any(e.startswith("builtins.") and e.endswith(("Error", "Exception")) for e in self.p.mro(q)[1])):
            p, k = self.frz_args(st, pos, kw, star)
            return [(st, mk("new", q, st.n, p))]
        if fm is not None and (fm in self.stack or self.opaque_pred(q)):
            p, k = self.frz_args(st, pos, kw, star)
            t = mk("rnew", q, st.n, p, k)
            self.ev(st, "rnew", t, node=node)
            return [(st, t)] + self.may_raise(st, node, t)
        o = mk("new", q, st.n)
        self.ev(st, "new", o, node=node)
        if fm is None:
            return [(st, o)]
        out = []
        for s, _ in self.call_func(st, fm, None, [o] + pos, kw, node, star):
            out.append((s, o if s.sig is None else None))
        return out

    def ext_call(self, st, fv, pos, kw, star, node):
        name = fv.args[0]
        h = getattr(self, "x_" + name.replace(".", "_"), None)
        if h is not None and not star and not any(x.op == "starred" for x in pos):
            r = h(st, pos, kw, node)
            if r is not None:
                return r
        p, k = self.frz_args(st, pos, kw, star)
        t = mk("call", fv, p, k)
        self.ev(st, "call", t, node=node)
        r = [(st, t)]
        if name not in TOTAL:
            r += self.may_raise(st, node, t)
        return r

    # -- builtins
    def x_builtins_isinstance(self, st, pos, kw, node):
        o, c = pos
        cs = self.freeze(st, c)
        cs = cs.args if cs.op == "tuple" else (cs,)
        r = FALSE
        for x in cs[::-1]:
            n = x.args[0] if x.op in ("class", "ext") else None
            if n is None:
                at = mk("isinst", o, show(x))
            elif o.op == "enum" and n.startswith("builtins."):
                at = TRUE if n == "builtins.object" else FALSE
            else:
                if n in ("pandas.core.frame.DataFrame",):
                    n = "pandas.DataFrame"
                at = mk("isinst", o, n)
                if o.op != "ref" or True:
                    v = self.isinst_static(st, o, n)
                    if v is not None:
                        at = TRUE if v else FALSE
            if at is TRUE:
                return [(st, TRUE)]
            if at is not FALSE:
                r = at if r is FALSE else mk("or", at, r)
        return [(st, r)]

    def x_builtins_len(self, st, pos, kw, node):
        o = pos[0]
        c = self.class_of(st, o)
        if c:
            m = self.p.find_method(c, "__len__")
            if m:
                return self.call_func(st, m[1], None, [o], {}, node)
        return [(st, self.len_(st, o))]

    def x_typing_cast(self, st, pos, kw, node):
        return [(st, pos[1])]

    def x_builtins_getattr(self, st, pos, kw, node):
        if is_str(pos[1]) and (len(pos) == 2):
            return self.getattr_(st, pos[0], cval(pos[1]), node)
        return None

    def x_builtins_setattr(self, st, pos, kw, node):
        if is_str(pos[1]):
            return [(s, NONE) for s in self.setattr_(st, pos[0], cval(pos[1]), pos[2], node)]
        self.ev(st, "setattr", pos[0], "?", self.freeze(st, pos[2]), self.freeze(st, pos[1]), node=node)
        return [(st, NONE)]

    def x_object___setattr__(self, st, pos, kw, node):
        return self.x_builtins_setattr(st, pos, kw, node)

    x_builtins_object___setattr__ = x_builtins_setattr

    def x_builtins_type(self, st, pos, kw, node):
        if len(pos) == 1:
            c = self.class_of(st, pos[0])
            if c:
                return [(st, mk("class", c))]
        return None

    def x_builtins_list(self, st, pos, kw, node):
        if not pos:
            return [(st, self.alloc(st, mk("list")))]
        items = self.iter_items(st, pos[0])
        if items is not None:
            return [(st, self.alloc(st, mk("list", *items)))]
        f = self.canon_iter(st, pos[0])
        if f.op in ("comp", "concat"):
            return [(st, self.alloc(st, f))]
        return [(st, self.alloc(st, mk("call", ext("builtins.list"), (f,), ())))]

    def x_builtins_tuple(self, st, pos, kw, node):
        if not pos:
            return [(st, mk("tuple"))]
        items = self.iter_items(st, pos[0])
        if items is not None:
            return [(st, mk("tuple", *items))]
        f = self.freeze(st, pos[0])
        return [(st, mk("call", ext("builtins.tuple"), (f,), ()))]

    def x_builtins_dict(self, st, pos, kw, node):
        base = self.freeze(st, pos[0]) if pos else mk("dict")
        if base.op == "dict":
            items = list(base.args)
            for k, v in kw.items():
                kk = const(k)
                items = [(a, b) for a, b in items if a is not kk] + [(kk, v)]
            return [(st, self.alloc(st, mk("dict", *items)))]
        c = mk("dictupd", mk("dict"), base)
        if kw:
            c = mk("dictupd", c, mk("dict", *[(const(k), v) for k, v in kw.items()]))
        return [(st, self.alloc(st, c))]

    def x_builtins_str(self, st, pos, kw, node):
        if len(pos) == 1:
            v = pos[0]
            if is_const(v):
                return [(st, const(str(cval(v))))]
            if self.type_of(st, v) == ("str",):
                return [(st, v)]
        return None

    def x_builtins_float(self, st, pos, kw, node):
        if len(pos) == 1 and is_str(pos[0]) and cval(pos[0]).lower() == "nan":
            return [(st, ext("numpy.nan"))]
        return None

    def x_builtins_bool(self, st, pos, kw, node):
        if len(pos) == 1:
            t = self.truth(st, pos[0])
            return [(s, TRUE if b else FALSE) for s, b in self.decide(st, t)]
        return None

    def x_builtins_sum(self, st, pos, kw, node):
        start = pos[1] if len(pos) > 1 else kw.get("start", const(0))
        it = self.freeze(st, pos[0])
        return [(st, mk("sum", it, self.freeze(st, start)))]

    def x_builtins_any(self, st, pos, kw, node):
        it = self.freeze(st, pos[0])
        if it.op == "list":
            r = FALSE
            for x in it.args[::-1]:
                t = self.truth(st, x)
                if t is TRUE:
                    return [(st, TRUE)]
                if t is not FALSE:
                    r = t if r is FALSE else mk("or", t, r)
            return [(st, r)]
        if it.op == "comp" and len(it.args[1]) == 1 and it.args[1][0] == ((), (TRUE,)):
            return [(st, mk("not", mk("lt", self.len_(st, it.args[0]), const(1))))]  # is there anything?
        return [(st, mk("exists", it))]

    def x_builtins_all(self, st, pos, kw, node):
        it = self.freeze(st, pos[0])
        if it.op == "list":
            r = TRUE
            for x in it.args[::-1]:
                t = self.truth(st, x)
                if t is FALSE:
                    return [(st, FALSE)]
                if t is not TRUE:
                    r = t if r is TRUE else mk("and", t, r)
            return [(st, r)]
        return [(st, mk("all?", it))]

    def x_builtins_map(self, st, pos, kw, node):
        if len(pos) == 2:
            it = self.canon_iter(st, pos[1])
            items = self.iter_items(st, pos[1])
            if items is None:
                b = self.fork(st)
                nf, ne = len(b.order), len(b.events)
                paths = []
                for s, v in self.call(b, pos[0], [self.elem_of(b, it)], {}, [], node):
                    if s.sig is None:
                        paths.append((tuple(s.order[nf:]), (self.freeze(s, v),)))
                return [(st, comp(it, tuple(paths)))]
        return None

    def x_copy_deepcopy(self, st, pos, kw, node):
        st.n += 1
        return [(st, mk("deepcopy", self.freeze(st, pos[0]), st.n))]

    def x_numpy_timedelta64(self, st, pos, kw, node):
        return None

    def x_re_escape(self, st, pos, kw, node):
        if is_str(pos[0]):
            return [(st, const(_re.escape(cval(pos[0]))))]
        return None

    # -- methods of external values
    def method_call(self, st, o, name, pos, kw, star, node):
        if o.op == "super":
            p, k = self.frz_args(st, pos, kw, star)
            t = mk("mcall", o, name, p, k)
            self.ev(st, "call", t, node=node)
            return [(st, t)]
        if o.op == "ref":
            r = self.ref_method(st, o, name, pos, kw, node)
            if r is not None:
                return r
        if is_str(o):
            r = self.str_method(st, o, name, pos, kw)
            if r is not None:
                return [(st, r)]
        fo = self.freeze(st, o)
        if name == "join" and is_str(o) and len(pos) == 1:
            x = self.freeze(st, pos[0])
            if x.op in ("list", "tuple") and all(is_str(y) for y in x.args):
                return [(st, const(cval(o).join(cval(y) for y in x.args)))]
        if name == "format" and is_str(o) and not star:
            r = self.fmt_method(st, cval(o), pos, kw)
            if r is not None:
                return [(st, r)]
        d = strip_none(self.type_of(st, fo))
        if d[0] == "dict" or o.op == "ref" and fo.op in ("dict", "dictupd", "dictcomp"):
            if name == "get" and 1 <= len(pos) <= 2 and not kw:
                key = self.freeze(st, pos[0])
                dflt = pos[1] if len(pos) == 2 else NONE
                if fo.op == "dict":
                    for kk, v in fo.args:
                        if kk is key:
                            return [(st, v)]
                    if is_const(key) and all(is_const(kk) for kk, _ in fo.args):
                        return [(st, dflt)]
                else:
                    v = self.dict_get(st, fo, key)
                    if dflt is NONE:
                        return [(st, v)]
                    out = []
                    for s, b in self.decide(st, mk("isnone", v)):
                        out.append((s, dflt if b else v))
                    return out
            if name == "setdefault" and len(pos) == 2:
                key = self.freeze(st, pos[0])
                v = self.dict_get(st, fo, key)
                out = []
                for s, b in self.decide(st, mk("isnone", v) if v.op != "new" else FALSE):
                    if b:
                        s.heap[(fo, "[]", key)] = pos[1]
                        self.ev(s, "setitem", fo, key, self.freeze(s, pos[1]), node=node)
                        out.append((s, pos[1]))
                    else:
                        out.append((s, v))
                return out
            if name in ("items", "keys", "values", "copy") and not pos and not kw and o.op != "ref":
                if name == "copy":
                    return [(st, self.alloc(st, mk("dictupd", mk("dict"), fo)))]
                return [(st, mk("mcall", fo, name, (), ()))]
            if name == "pop" and pos and o.op != "ref":
                key = self.freeze(st, pos[0])
                self.ev(st, "mutcall", fo, name, (key,), (), node=node)
                v = mk("dget", fo, key)
                if len(pos) == 2:
                    return [(s, pos[1] if b else v) for s, b in self.decide(st, mk("isnone", v))]
                return [(st, v)] + self.may_raise(st, node, v, ("builtins.KeyError",))
        p, k = self.frz_args(st, pos, kw, star)
        t = mk("mcall", fo, name, p, k)
        kd = dict(k)
        inpl = kd.get(INPLACE_KW)
        if name in MUT_METHODS or (inpl is not None and inpl is not FALSE):
            self.ev(st, "mutcall", fo, name, p, k, node=node)
        self.ev(st, "call", t, node=node)
        r = [(st, t)]
        r += self.may_raise(st, node, t)
        if name == "pop":
            r += self.may_raise(st, node, t, ("builtins.KeyError", "builtins.IndexError"))
        return r

    def ref_method(self, st, o, name, pos, kw, node):
        c = st.heap[(o, "$")]
        key = (o, "$")
        lst = c.op in ("list", "comp", "concat", "lvlist", "spread") or c.op == "call" and call_name(c) == "builtins.list"
        if name == "append" and len(pos) == 1:
            st.heap[key] = concat(c if lst else mk("spread", c), mk("list", pos[0]))
            return [(st, NONE)]
        if name == "extend" and len(pos) == 1:
            x = self.freeze(st, pos[0])
            st.heap[key] = concat(c if lst else mk("spread", c), x if x.op in ("list", "comp", "concat") else (mk("list", *x.args) if x.op == "tuple" else mk("spread", x)))
            return [(st, NONE)]
        if name == "insert" and len(pos) == 2 and is_const(pos[0]) and cval(pos[0]) == 0:
            st.heap[key] = concat(mk("list", pos[1]), c if lst else mk("spread", c))
            return [(st, NONE)]
        if name == "reverse" and not pos:
            st.heap[key] = mk("list", *c.args[::-1]) if c.op == "list" else mk("call", ext("builtins.reversed"), (c,), ())
            return [(st, NONE)]
        if name == "copy" and not pos:
            return [(st, self.alloc(st, c))]
        if name == "update" and len(pos) <= 1:
            x = self.freeze(st, pos[0]) if pos else mk("dict")
            if kw:
                x = mk("dict", *[(const(k), self.freeze(st, v)) for k, v in kw.items()])
            if c.op == "dict" and x.op == "dict" and all(is_const(k) for k, _ in c.args + x.args):
                items = list(c.args)
                for k, v in x.args:
                    pos_ = [i for i, (kk, _) in enumerate(items) if kk is k]
                    if pos_:
                        items[pos_[0]] = (k, v)
                    else:
                        items.append((k, v))
                st.heap[key] = mk("dict", *items)
            else:
                st.heap[key] = mk("dictupd", c, x)
            return [(st, NONE)]
        if name in ("items", "keys", "values") and not pos:
            if c.op == "dict":
                return [(st, mk("mcall", o, name, (), ()))]
            return [(st, mk("mcall", self.freeze(st, o), name, (), ()))]
        if name == "pop" and c.op == "dict" and pos and is_const(pos[0]):
            for i, (k, v) in enumerate(c.args):
                if k is pos[0]:
                    st.heap[key] = mk("dict", *[x for x in c.args if x[0] is not k])
                    return [(st, v)]
            if all(is_const(k) for k, _ in c.args) and len(pos) == 2:
                return [(st, pos[1])]
        if name == "pop" and c.op == "list" and not pos and c.args:
            st.heap[key] = mk("list", *c.args[:-1])
            return [(st, c.args[-1])]
        if name in MUT_METHODS:
            p, k = self.frz_args(st, pos, kw, [])
            t = mk("mcall", self.freeze(st, o), name, p, k)
            st.heap[key] = mk("mutated", c, name, p, self.new_uid())
            self.ev(st, "mutcall", o, name, p, k, node=node)
            return [(st, t)] + (self.may_raise(st, node, t, ("builtins.KeyError", "builtins.IndexError")) if name == "pop" else [])
        return None

    def str_method(self, st, o, name, pos, kw):
        s = cval(o)
        args = [self.freeze(st, x) for x in pos]
        if kw or not all(is_const(x) for x in args):
            return None
        vals = [cval(x) for x in args]
        if name in ("upper", "lower", "strip", "replace", "startswith", "endswith", "lstrip", "rstrip", "title", "capitalize"):
            try:
                return const(getattr(s, name)(*vals))
            except TypeError:
                return None
        if name in ("split", "rsplit") :
            try:
                return self.alloc(st, mk("list", *[const(x) for x in getattr(s, name)(*vals)]))
            except (TypeError, ValueError):
                return None
        return None

    def fmt_method(self, st, template, pos, kw):
        import string

        parts = []
        i = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(template):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == "":
                    v = pos[i]
                    i += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append(self.freeze(st, v))
        except (IndexError, ValueError):
            return None
        return fmt(parts)


def setlike(t):
    """Is the value a set?  They are not ordered totally"""
    if t.op in ("-", "&", "|", "^"):
        return setlike(t.args[0])
    return t.op == "set" or t.op == "call" and call_name(t) in ("builtins.set", "builtins.frozenset") or t.op == "mcall" and t.args[1] in ("union", "difference", "intersection")


def truthy(t):
    return t.op in ("lt", "le", "eq", "isnone", "in", "isinst", "is", "exists", "all?", "truth") or (
        t.op in ("not", "and", "or") and all(truthy(x) for x in t.args))


def fmt(parts):
    r = []
    for p in parts:
        for x in p.args if p.op == "fmt" else [p]:
            if is_const(x):
                x = const(str(cval(x)))
                if r and is_const(r[-1]):
                    r[-1] = const(cval(r[-1]) + cval(x))
                    continue
                if cval(x) == "":
                    continue
            r.append(x)
    if not r:
        return const("")
    if len(r) == 1 and is_str(r[0]):
        return r[0]
    return mk("fmt", *r)


def concat(*parts):
    r = []
    for p in parts:
        for x in p.args if p.op == "concat" else [p]:
            if x.op == "list" and r and r[-1].op == "list":
                r[-1] = mk("list", *(r[-1].args + x.args))
                continue
            if x.op == "list" and not x.args:
                continue
            r.append(x)
    if not r:
        return mk("list")
    if len(r) == 1 and r[0].op != "spread":
        return r[0]
    return mk("concat", *r)


def comp(it, paths):
    """Normal form of a comprehension: {(conditions, items)} for the generic element"""
    paths = tuple(
        (tuple(c), tuple(v)) for c, v in paths
    )
    keep = tuple(p for p in paths if p[1])
    # iterating over what another comprehension gives is one comprehension
    while it.op == "comp" and all(len(v) == 1 and v[0].op not in ("spread", "starred") for _, v in it.args[1]) and it.args[1]:
        if len(it.args[1]) == 1 and not it.args[1][0][0]:
            m = {mk("idx", it): mk("idx", it.args[0])}
            keep = tuple((sub(c, m), sub(v, m)) for c, v in keep)
        elif contains(keep, mk("idx", it)):
            break
        x = mk("elem", it)
        keep = tuple((c1 + sub(c, {x: e}), sub(v, {x: e})) for c1, (e,) in it.args[1] for c, v in keep)
        it = it.args[0]
    return mk("comp", it, keep)


def strip_none(t):
    if t[0] == "union":
        r = tuple(x for x in t[1:] if x != ("none",))
        if len(r) == 1:
            return r[0]
        return ("union",) + r
    return t


def tname(u):
    return {
        "str": "builtins.str", "int": "builtins.int", "float": "builtins.float", "bool": "builtins.bool",
        "list": "builtins.list", "dict": "builtins.dict", "tuple": "builtins.tuple", "none": "builtins.NoneType",
    }.get(u[0], u[1] if u[0] in ("cls", "ext") else "?")


def join_types(a, b):
    parts = []
    for t in (a, b):
        for x in t[1:] if t[0] == "union" else (t,):
            if x not in parts:
                parts.append(x)
    if ("any",) in parts:
        return ("any",)
    return parts[0] if len(parts) == 1 else ("union",) + tuple(parts)
