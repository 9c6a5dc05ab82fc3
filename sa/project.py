"""Loads and resolves the sources of the package under analysis (never imports it)."""
import ast
import os


class Undecided(Exception):
    """The analysis cannot decide (never a verdict)"""


class AnchorLost(Exception):
    """A public entity that a property is about does not exist (any more)"""


class Plain(ast.NodeTransformer):
    """Leaves out handlers which only pass the exception on and counters that are not used"""

    def visit_FunctionDef(self, node):
        loads = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        for x in ast.walk(node):
            if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[0], ast.Name) \
                    and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and x.target.elts[0].id not in loads:
                x.target, x.iter = x.target.elts[1], x.iter.args[0]
        return self.generic_visit(node)

    def visit_Try(self, node):
        self.generic_visit(node)
        while node.handlers and passes_on(node.handlers[-1]):
            node.handlers.pop()
        if not node.handlers:
            node.body, node.orelse = node.body + node.orelse, []
            if not node.finalbody:
                return node.body
        return node


def passes_on(handler):
    if len(handler.body) != 1 or not isinstance(handler.body[0], ast.Raise) or handler.body[0].cause is not None:
        return False
    exc = handler.body[0].exc
    return exc is None or isinstance(exc, ast.Name) and exc.id == handler.name


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = Plain().visit(ast.parse(src, path))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.bindings = {}  # name -> ("import", dotted) | ("def", node) | ...
        self.mutated_globals = set()


class Func:
    def __init__(self, qualname, node, module, cls=None, kind="function"):
        self.qualname = qualname
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind  # function, method, property, setter, classmethod, staticmethod
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node)
        )


def own_nodes(fn):
    """Nodes of a function without those of nested functions"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, qualname, node, module):
        self.qualname = qualname
        self.name = node.name
        self.node = node
        self.module = module
        self.bases = []  # dotted names
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.annots = {}
        self.assigns = {}
        self.aliases = {}

    def __repr__(self):
        return "<Class %s>" % self.qualname


class Project:
    def __init__(self, root, package="openscm"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.functions = {}
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    self.modules[rel] = Module(rel, p, fh.read())
        for m in self.modules.values():
            self._bind(m)
        for m in self.modules.values():
            self._find_mutated(m)

    # -- binding ------------------------------------------------------------------
    def _bind(self, m):
        for st in m.tree.body:
            self._bind_stmt(m, st)

    def _bind_stmt(self, m, st):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for name, dotted in self.import_names(m, st):
                m.bindings[name] = ("import", dotted)
        elif isinstance(st, ast.FunctionDef):
            q = m.name + "." + st.name
            f = Func(q, st, m)
            self.functions[q] = f
            m.bindings[st.name] = ("func", q)
        elif isinstance(st, ast.ClassDef):
            q = m.name + "." + st.name
            c = self._class(m, st, q)
            self.classes[q] = c
            m.bindings[st.name] = ("class", q)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.bindings[t.id] = ("expr", st.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            m.bindings[e.id] = ("unpack", st.value, i)
        elif isinstance(st, ast.AnnAssign):
            if isinstance(st.target, ast.Name):
                m.bindings[st.target.id] = (
                    ("expr", st.value, st.annotation)
                    if st.value is not None
                    else ("decl", st.annotation)
                )
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for b in ("body", "orelse", "finalbody"):
                for s in getattr(st, b, []):
                    # first binding wins inside try/if (the regular case)
                    self._bind_stmt(m, s)
            for h in getattr(st, "handlers", []):
                for s in h.body:
                    names = set(m.bindings)
                    saved = dict(m.bindings)
                    self._bind_stmt(m, s)
                    for n in names:
                        m.bindings[n] = saved[n]

    def _class(self, m, st, q):
        c = Class(q, st, m)
        c.bases = [self.dotted(m, b) for b in st.bases]
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kind = "method"
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")
                    if dn in ("property", "cached_property"):
                        kind = "property"
                    elif dn == "setter":
                        kind = "setter"
                    elif dn in ("classmethod", "staticmethod"):
                        kind = dn
                fq = q + "." + s.name + (".setter" if kind == "setter" else "")
                f = Func(fq, s, m, c, kind)
                self.functions[fq] = f
                if kind == "property":
                    c.props[s.name] = f
                elif kind == "setter":
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annots[s.target.id] = s.annotation
                if s.value is not None:
                    c.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.assigns[t.id] = s.value
                        if isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "property" and s.value.args:
                            pass
        # name = property(getter, setter)
        for n, v in list(c.assigns.items()):
            if (
                isinstance(v, ast.Call)
                and isinstance(v.func, ast.Name)
                and v.func.id == "property"
            ):
                got = [a.id for a in v.args if isinstance(a, ast.Name)]
                kw = {k.arg: k.value.id for k in v.keywords if isinstance(k.value, ast.Name)}
                g = got[0] if got else kw.get("fget")
                s_ = got[1] if len(got) > 1 else kw.get("fset")
                if g in c.methods:
                    c.props[n] = c.methods[g]
                if s_ in c.methods:
                    c.setters[n] = c.methods[s_]
            elif isinstance(v, ast.Name) and v.id in c.methods:
                c.methods[n] = c.methods[v.id]
        return c

    def import_names(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    yield a.asname, a.name
                else:
                    yield a.name.split(".")[0], a.name.split(".")[0]
            return
        base = st.module or ""
        if st.level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            yield a.asname or a.name, (base + "." + a.name) if base else a.name

    def _find_mutated(self, m):
        muts = {
            "append", "extend", "update", "pop", "clear", "setdefault", "insert",
            "remove", "add", "discard", "popitem",
        }
        for n in ast.walk(m.tree):
            t = None
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
                for x in ts:
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                        m.mutated_globals.add(x.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in muts and isinstance(n.func.value, ast.Name):
                    t = n.func.value.id
            elif isinstance(n, ast.Global):
                m.mutated_globals.update(n.names)
            if t:
                m.mutated_globals.add(t)

    # -- resolution ---------------------------------------------------------------
    def dotted(self, m, node):
        """Dotted name of an expression (resolved through imports)"""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.dotted(m, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return node.value
        parts = []
        n = node
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            b = m.bindings.get(n.id)
            if b is None:
                head = "builtins." + n.id
            elif b[0] == "import":
                head = b[1]
            elif b[0] in ("func", "class"):
                head = b[1]
            else:
                head = m.name + "." + n.id
            return self.resolve(".".join([head] + parts[::-1]))
        return "?"

    def resolve(self, dotted, depth=0):
        """Follow re-exports in the package"""
        if depth > 10 or dotted in self.modules or dotted in self.classes:
            return dotted
        if dotted in self.functions:
            return dotted
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                b = self.modules[mod].bindings.get(parts[i])
                if b is None:
                    return dotted
                rest = parts[i + 1 :]
                if b[0] == "import":
                    return self.resolve(".".join([b[1]] + rest), depth + 1)
                if b[0] in ("func", "class"):
                    r = ".".join([b[1]] + rest)
                    return r
                return dotted
        return dotted

    def mro(self, qual):
        """Linearised repo classes (left to right, depth first) and external bases"""
        out, exts = [], []
        seen = set()

        def go(q):
            if q in seen:
                return
            seen.add(q)
            c = self.classes.get(q)
            if c is None:
                exts.append(q)
                return
            out.append(c)
            for b in c.bases:
                go(b)

        go(qual)
        return out, exts

    def find_method(self, qual, name, skip=None):
        for c in self.mro(qual)[0]:
            if skip is not None and c.qualname in skip:
                continue
            for d, k in ((c.props, "property"), (c.methods, "method")):
                if name in d:
                    return k, d[name]
        return None

    def find_setter(self, qual, name):
        for c in self.mro(qual)[0]:
            if name in c.setters:
                return c.setters[name]
        return None

    def is_subclass(self, a, b):
        if a == b:
            return True
        if a in self.classes:
            return any(self.is_subclass(x, b) for x in self.classes[a].bases)
        import builtins

        if a.startswith("builtins.") and b.startswith("builtins."):
            x = getattr(builtins, a[9:], None)
            y = getattr(builtins, b[9:], None)
            if isinstance(x, type) and isinstance(y, type):
                return issubclass(x, y)
        if b in ("builtins.Exception", "builtins.BaseException"):
            return a.endswith(("Error", "Exception", "Warning", "Exit", "Interrupt", "Iteration"))
        return False

    def is_enum(self, qual):
        _, exts = self.mro(qual)
        return any(e in ("enum.Enum", "enum.IntEnum") for e in exts)

    def enum_members(self, qual):
        c = self.classes[qual]
        return [k for k in c.assigns if not k.startswith("_")]

    def all_subclasses(self, qual):
        return [q for q in self.classes if q != qual and self.is_subclass(q, qual)]

    # -- types ----------------------------------------------------------------------
    def ann_type(self, m, node):
        """Annotation -> type tuple"""
        if node is None:
            return ("any",)
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ("none",)
            if isinstance(node.value, str):
                try:
                    return self.ann_type(m, ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return ("any",)
            return ("any",)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self._union([self.ann_type(m, node.left), self.ann_type(m, node.right)])
        if isinstance(node, ast.Subscript):
            d = self.dotted(m, node.value).split(".")[-1]
            sl = node.slice
            args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if d == "Optional":
                return self._union([self.ann_type(m, args[0]), ("none",)])
            if d == "Union":
                return self._union([self.ann_type(m, a) for a in args])
            if d in ("Dict", "dict", "Mapping", "MutableMapping"):
                return ("dict", self.ann_type(m, args[0]), self.ann_type(m, args[-1]))
            if d in ("List", "list", "Sequence", "Set", "FrozenSet"):
                return ("list", self.ann_type(m, args[0]))
            if d in ("Iterable", "Iterator", "Generator"):
                return ("iter", self.ann_type(m, args[0]))
            if d in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.ann_type(m, args[0]))
                return ("tuple",) + tuple(self.ann_type(m, a) for a in args)
            if d == "Type":
                return ("any",)
            if d == "Callable":
                return ("fn",)
            return ("any",)
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = self.dotted(m, node)
            if d in self.classes:
                return ("cls", d)
            if d.startswith("builtins."):
                n = d[9:]
                if n in ("str", "int", "float", "bool"):
                    return (n,)
                if n in ("list", "set", "tuple"):
                    return ("list", ("any",))
                if n == "dict":
                    return ("dict", ("any",), ("any",))
                return ("any",)
            if d in ("typing.Any",):
                return ("any",)
            if d in ("typing.Dict",):
                return ("dict", ("any",), ("any",))
            if d in ("typing.List", "typing.Sequence"):
                return ("list", ("any",))
            # alias in this package
            parts = d.rsplit(".", 1)
            if len(parts) == 2 and parts[0] in self.modules:
                b = self.modules[parts[0]].bindings.get(parts[1])
                if b and b[0] == "expr":
                    return self.ann_type(self.modules[parts[0]], b[1])
            return ("ext", d)
        return ("any",)

    @staticmethod
    def _union(ts):
        flat = []
        for t in ts:
            for x in t[1:] if t[0] == "union" else [t]:
                if x not in flat:
                    flat.append(x)
        if len(flat) == 1:
            return flat[0]
        return ("union",) + tuple(flat)

    def need_class(self, q):
        q = self.resolve(q)
        if q not in self.classes:
            raise AnchorLost("class %s" % q)
        return self.classes[q]

    def need_function(self, q):
        if q in self.functions:
            return self.functions[q]
        r = self.resolve(q)
        if r in self.functions:
            return self.functions[r]
        # inherited method
        parts = q.rsplit(".", 1)
        c = self.resolve(parts[0])
        if c in self.classes:
            fm = self.find_method(c, parts[1])
            if fm:
                return fm[1]
        raise AnchorLost("function %s" % q)
