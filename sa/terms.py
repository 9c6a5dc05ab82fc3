"""Hash-consed value numbers.

A value number names the result of a computation; two computations which are built in
the same way from the same inputs have the same (identical) value number.  Nothing is
ever evaluated on input data: constants which are written in the source are folded, all
else stays a name.
"""


class T:
    __slots__ = ("op", "args", "refs")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        # does it mention containers by reference?
        self.refs = op == "ref" or op not in ("const", "sym", "ext", "class", "enum", "new", "func") and _refs(args)

    def __repr__(self):
        return show(self)


def _refs(args):
    for x in args:
        if isinstance(x, T):
            if x.refs:
                return True
        elif isinstance(x, tuple) and _refs(x):
            return True
    return False


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(op, args)
        _table[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v if v == v else "nan")


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
NOTIMPL = mk("ext", "builtins.NotImplemented")


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    if t.args[1] == "nan" and t.args[0] == "float":
        return float("nan")
    return t.args[1]


def is_str(t):
    return is_const(t) and t.args[0] == "str"


def is_num(t):
    return is_const(t) and t.args[0] in ("int", "float", "bool")


def ext(name):
    return mk("ext", name)


def is_ext(t, *names):
    return isinstance(t, T) and t.op == "ext" and t.args[0] in names


def call_name(t):
    """Dotted name of the external function a call term calls (or None)"""
    if isinstance(t, T) and t.op == "call" and t.args[0].op == "ext":
        return t.args[0].args[0]
    return None


def meth_name(t):
    """Name of the method that a method call term calls (or None)"""
    if isinstance(t, T) and t.op == "mcall":
        return t.args[1]
    return None


def sub(t, mapping, memo=None):
    """Substitute value numbers"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(sub(x, mapping, memo) for x in t)
        return t
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    args = tuple(sub(a, mapping, memo) for a in t.args)
    r = t if all(a is b for a, b in zip(args, t.args)) else mk(t.op, *args)
    memo[t] = r
    return r


def walk(t, seen=None):
    """All sub terms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, what):
    if callable(what) and not isinstance(what, T):
        return any(what(x) for x in walk(t))
    return any(x is what for x in walk(t))


_shown = {}


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth > 9:
        return "..."
    r = _shown.get((t, depth))
    if r is None:
        r = _shown[t, depth] = _show(t, depth)
    return r


def _show(t, depth):
    d = depth + 1
    a = t.args
    op = t.op
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "ext":
        return a[0].replace("builtins.", "")
    if op == "attr":
        return show(a[0], d) + "." + a[1]
    if op == "enum":
        return a[0].rsplit(".", 1)[-1] + "." + a[1]
    if op == "item":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if op == "call":
        return show(a[0], d) + "(" + ", ".join(
            [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        ) + ")"
    if op == "mcall":
        return show(a[0], d) + "." + a[1] + "(" + ", ".join(
            [show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]
        ) + ")"
    if op == "rcall":
        return a[0].rsplit(".", 2)[-1] + "(" + ", ".join(show(x, d) for x in a[1]) + ")"
    if op in ("+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "<<", ">>", "@"):
        return "(" + show(a[0], d) + " " + op + " " + show(a[1], d) + ")"
    if op in ("lt", "eq", "is", "in", "le"):
        s = {"lt": "<", "eq": "==", "le": "<="}.get(op, op)
        return "(" + show(a[0], d) + " " + s + " " + show(a[1], d) + ")"
    if op == "isnone":
        return "(" + show(a[0], d) + " is None)"
    if op == "class":
        return a[0].rsplit(".", 1)[-1]
    if op == "new":
        return "new " + a[0].rsplit(".", 1)[-1] + "#" + str(a[1])
    if op == "elem":
        return "each(" + show(a[0], d) + ")"
    if op in ("list", "tuple", "set"):
        return op + "[" + ", ".join(show(x, d) for x in a) + "]"
    if op == "func":
        return "<function %s>" % a[0].rsplit(".", 1)[-1]
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"
