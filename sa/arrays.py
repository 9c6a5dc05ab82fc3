"""Symbolic arrays: element formulas of numpy expressions for arrays of any length

Lengths and positions are linear forms over variables which are non-negative integers; an element is a
rational normal form.  A comparison of positions which depends on the values of the variables is not
decided (Unknown); rules choose the variables such that the cases of interest are covered.
"""
from fractions import Fraction

from .algebra import R
from .check import Unknown
from .terms import T, call_name, const, cval, is_const, is_num, is_str, mk, show


class Lin:
    """constant + sum of coefficients * variables"""

    def __init__(self, c=0, v=None):
        self.c = c
        self.v = {k: x for k, x in (v or {}).items() if x}

    def __add__(self, o):
        o = lin(o)
        v = dict(self.v)
        for k, x in o.v.items():
            v[k] = v.get(k, 0) + x
        return Lin(self.c + o.c, v)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, {k: -x for k, x in self.v.items()})

    def __sub__(self, o):
        return self + (-lin(o))

    def __rsub__(self, o):
        return lin(o) - self

    def __mul__(self, f):
        return Lin(self.c * f, {k: x * f for k, x in self.v.items()})

    __rmul__ = __mul__

    def key(self):
        return (self.c, tuple(sorted(self.v.items())))

    def __eq__(self, o):
        return isinstance(o, (Lin, int)) and self.key() == lin(o).key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ["%s%s" % ("" if x == 1 else str(x), k) for k, x in sorted(self.v.items())]
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")

    def sign(self):
        """True: >= 0 for all values, False: < 0 for all values, None: depends"""
        if self.c >= 0 and all(x >= 0 for x in self.v.values()):
            return True
        if self.c < 0 and all(x <= 0 for x in self.v.values()):
            return False
        return None

    def divmod(self, m):
        """(quotient, remainder) by a constant"""
        if any(x % m for x in self.v.values()):
            raise Unknown("position %s modulo %d" % (self, m))
        return Lin(self.c // m, {k: x // m for k, x in self.v.items()}), self.c % m

    def is_const(self):
        return not self.v


def lin(x):
    return x if isinstance(x, Lin) else Lin(int(x))


def ge(a, b):
    s = (lin(a) - lin(b)).sign()
    if s is None:
        raise Unknown("positions %s and %s are not ordered" % (a, b))
    return s


class Val:
    """Scalar: number or point in time"""

    def __init__(self, r, kind="num", n=None):
        self.r, self.kind, self.n = r, kind, n  # n: the same as Lin where known


class Arr:
    def __init__(self, shape, get, kind="num"):
        self.shape, self.get, self.kind = tuple(lin(x) for x in shape), get, kind


class Tup:
    def __init__(self, items):
        self.items = items


INT_CASTS = {"builtins.int", "numpy.int64", "numpy.int", "int64", "int", "numpy.longlong", "numpy.int_", "i8", "<i8"}
FLOAT_CASTS = {"builtins.float", "numpy.float64", "numpy.float", "float64", "float", "numpy.float_", "numpy.double", "f8", "<f8"}
SECONDS = {"datetime64[s]": 1, "datetime64[ms]": 1000, "datetime64[us]": 10 ** 6, "datetime64[ns]": 10 ** 9, "<M8[s]": 1, "M8[s]": 1,
           "timedelta64[s]": 1, "timedelta64[ms]": 1000, "timedelta64[us]": 10 ** 6, "timedelta64[ns]": 10 ** 9}


COARSE = {k + "[%s]" % u for k in ("datetime64", "timedelta64", "M8", "<M8") for u in "YMWDhm"}


class Narrow(Exception):
    """a cast that loses values"""


class Arrays:
    """Evaluator; `bases`: {term: Arr or Val}, `lens`: {term: Lin} of symbols that are lengths"""

    def __init__(self, alg, bases, events=(), scalars=None):
        self.alg, self.bases, self.events = alg, dict(bases), list(events)
        self.scalars = scalars or {}
        self.memo = {}

    # ------------------------------------------------------------ helpers
    def num(self, x, n=None):
        return Val(self.alg.const(x), n=lin(x) if isinstance(x, int) else n)

    def of_lin(self, l):
        r = self.alg.const(l.c)
        for k, x in l.v.items():
            r = self.alg.add(r, self.alg.mul(self.alg.const(x), self.alg.atom("var", (const(k),))))
        return Val(r, n=l)

    def base(self, term, length, kind="num", scale=None):
        def get(i):
            e = self.alg.atom("at", (term, const(repr(i))))
            return Val(e if scale is None else self.alg.mul(scale, e), kind)

        return Arr((length,), get, kind)

    def index(self, v):
        if isinstance(v, Val) and v.n is not None:
            return v.n
        raise Unknown("position is not an integer form")

    def at(self, a, i):
        """Element of a 1-D array (position from the end when negative)"""
        n = a.shape[0]
        i = lin(i)
        if i.sign() is False:
            i = i + n
        if i.sign() is not True or (n - i - 1).sign() is not True:
            if i.sign() is False or (n - i - 1).sign() is False:
                raise IndexError("position %s of %s" % (i, n))
            raise Unknown("position %s of %s" % (i, n))
        if len(a.shape) == 1:
            return a.get(i)
        return Arr(a.shape[1:], lambda j: a.get(i, j), a.kind)

    # ------------------------------------------------------------ evaluation
    def __call__(self, t, env=None):
        if not env:
            if t not in self.memo:
                self.memo[t] = self.ev(t, {})
            return self.memo[t]
        return self.ev(t, env)

    def arr(self, t, env=None):
        v = self(t, env)
        if isinstance(v, Tup):
            return self.from_items(v.items)
        if not isinstance(v, Arr):
            raise Unknown("%s is not an array" % show(t))
        return v

    def val(self, t, env=None):
        v = self(t, env)
        if not isinstance(v, Val):
            raise Unknown("%s is not a number" % show(t))
        return v

    def from_items(self, items):
        if items and all(isinstance(x, Arr) and len(x.shape) == 1 for x in items):
            if any(x.shape[0] != items[0].shape[0] for x in items):
                raise IndexError("rows of lengths %s" % ", ".join(str(x.shape[0]) for x in items))

            def get(r, c):
                if not r.is_const():
                    raise Unknown("row %s" % r)
                return items[r.c].get(c)

            return Arr((len(items), items[0].shape[0]), get, items[0].kind)
        if not all(isinstance(x, Val) for x in items):
            raise Unknown("list of mixed items")

        def get1(i):
            if i.is_const():
                return items[i.c]
            if all(self.same(x, items[0]) for x in items):
                return items[0]
            raise Unknown("position %s in a list" % i)

        return Arr((len(items),), get1, items[0].kind if items else "num")

    def same(self, a, b):
        return a.kind == b.kind and self.alg.eq(a.r, b.r)

    def ev(self, t, env):
        if t in self.bases:
            return self.mutated(t, self.bases[t])
        if is_num(t):
            return self.num(t.args[1])
        op = t.op
        if op == "ext":
            return Val(self.alg.atom("leaf", (t,)))
        if op in ("list", "tuple"):
            return Tup([self(x, env) for x in t.args])
        if op == "elem":
            if t.args[0] in env:
                return self.at(self.arr(t.args[0], {k: v for k, v in env.items() if k is not t.args[0]}), env[t.args[0]])
            raise Unknown("element of %s" % show(t.args[0]))
        if op == "idx":
            if t.args[0] in env:
                return self.of_lin(env[t.args[0]])
            raise Unknown("position in %s" % show(t.args[0]))
        if op == "len":
            v = self(t.args[0], env)
            return self.of_lin(v.shape[0] if isinstance(v, Arr) else lin(len(v.items)))
        if op == "neg":
            return self.map1(lambda x: self.alg.mul(self.alg.const(-1), x), self(t.args[0], env), lambda n: -n)
        if op in ("+", "-", "*", "/", "//", "**") and len(t.args) == 2:
            return self.binop(op, self(t.args[0], env), self(t.args[1], env))
        if op == "item":
            return self.item(t, env)
        if op == "slice":
            return self.slice(self.arr(t.args[0], env), *[self.opt(x, env) for x in t.args[1:]])
        if op == "attr":
            return self.attribute(t, env)
        if op == "call":
            return self.call(t, env)
        if op == "mcall":
            return self.mcall(self(t.args[0], env), t.args[1], t.args[2], t.args[3], env, t)
        if op == "comp":
            return self.comp(t, env)
        if op == "repeat":
            a = self.arr(t.args[0], env)
            n = self.index(self.val(t.args[1], env))
            if a.shape[0] != 1:
                raise Unknown(show(t))
            return Arr((n,), lambda i: a.get(lin(0)), a.kind)
        if op == "dictupd":
            a = self.arr(t.args[0], env)
            for u in t.args[1:]:
                a = self.updated(a, u, env)
            return a
        if op == "concat":
            return self.concat([self.arr(x, env) for x in t.args])
        raise Unknown(show(t)[:80])

    def opt(self, t, env):
        if not isinstance(t, T) or is_const(t) and t.args[1] is None:
            return None
        return self.index(self.val(t, env))

    def map1(self, f, a, fn=None):
        if isinstance(a, Tup):
            a = self.from_items(a.items)
        if isinstance(a, Val):
            return Val(f(a.r), a.kind, fn(a.n) if fn and a.n is not None else None)
        return Arr(a.shape, lambda *i: Val(f(a.get(*i).r), a.kind), a.kind)

    def binop(self, op, a, b):
        if isinstance(a, Tup):
            a = self.from_items(a.items)
        if isinstance(b, Tup):
            b = self.from_items(b.items)
        if isinstance(a, Val) and isinstance(b, Val):
            return self.binval(op, a, b)
        shapes = [x.shape for x in (a, b) if isinstance(x, Arr)]
        if len(shapes) == 2 and shapes[0] != shapes[1]:
            if len(shapes[0]) != len(shapes[1]):
                raise Unknown("shapes differ")
            d = [x - y for x, y in zip(*shapes)]
            if any(x.sign() is None for x in d):
                raise Unknown("lengths %s and %s" % (shapes[0], shapes[1]))
            if any(s == 1 for x in shapes for s in x):
                raise Unknown("broadcast")
            raise IndexError("lengths %s and %s" % tuple(", ".join(map(str, s)) for s in shapes))

        def get(*i):
            return self.binval(op, a.get(*i) if isinstance(a, Arr) else a, b.get(*i) if isinstance(b, Arr) else b)

        kinds = {x.kind for x in (a, b)}
        return Arr(shapes[0], get, "num" if kinds == {"num"} else (a.kind if a.kind != "num" else b.kind))

    def binval(self, op, a, b):
        al = self.alg
        n = None
        if op in ("+", "-") and a.n is not None and b.n is not None:
            n = a.n + b.n if op == "+" else a.n - b.n
        elif op == "*" and a.n is not None and b.n is not None and (a.n.is_const() or b.n.is_const()):
            n = b.n * a.n.c if a.n.is_const() else a.n * b.n.c
        elif op == "//" and a.n is not None and b.n is not None and b.n.is_const() and b.n.c:
            n = a.n.divmod(b.n.c)[0]
            return self.of_lin(n)
        kind = a.kind if a.kind != "num" else b.kind
        if op == "+":
            r = al.add(a.r, b.r)
        elif op == "-":
            r = al.add(a.r, b.r, -1)
        elif op == "*":
            r = al.mul(a.r, b.r)
        elif op == "/":
            r = al.div(a.r, b.r)
            q = al.is_const(r)
            n = None
        elif op == "**" and b.n is not None and b.n.is_const() and abs(b.n.c) <= 8:
            r = al.pow(a.r, b.n.c)
        else:
            raise Unknown("operation %s" % op)
        return Val(r, kind, n)

    def item(self, t, env):
        x, i = t.args[0], t.args[1]
        if x.op == "call" and call_name(x) in ("scipy.integrate.quad",) and is_const(i) and i.args[1] == 0:
            a = x.args[1]
            f = x.args[1][0]
            if len(a) < 3 or any(k in ("args", "weight") for k, _ in x.args[2]):
                raise Unknown(show(x)[:60])
            return Val(self.alg.atom("integral", (f, self.val(a[1], env).r, self.val(a[2], env).r)))
        if x.op == "item" and False:
            pass
        v = self(x, env)
        if isinstance(v, Tup):
            if is_const(i) and isinstance(i.args[1], int):
                return v.items[i.args[1]]
            v = self.from_items(v.items)
        if not isinstance(v, Arr):
            raise Unknown("item of %s" % show(x)[:60])
        return self.at(v, self.index(self.val(i, env)))

    def slice(self, a, lo, hi, step):
        if step is not None and not step.is_const():
            raise Unknown("step")
        s = step.c if step is not None else 1
        n = a.shape[0]
        if s == -1 and lo is None and hi is None:
            return Arr(a.shape, lambda i, *j: a.get(n - 1 - i, *j), a.kind)
        if s < 1:
            raise Unknown("step %d" % s)

        def bound(x, default):
            if x is None:
                return default
            if x.sign() is False:
                x = x + n
                return x if ge(x, 0) else lin(0)
            if x.sign() is None:
                raise Unknown("bound %s" % x)
            return x if ge(n, x) else n

        lo, hi = bound(lo, lin(0)), bound(hi, n)
        m = hi - lo
        if not ge(m, 0):
            m = lin(0)
        if s != 1:
            m = (m + (s - 1)).divmod(s)[0]
        return Arr((m,) + a.shape[1:], lambda i, *j: a.get(lo + i * s, *j), a.kind)

    def attribute(self, t, env):
        n = t.args[1]
        if n == "T":
            return self.transpose(self.arr(t.args[0], env))
        if n == "size":
            a = self.arr(t.args[0], env)
            if len(a.shape) == 1:
                return self.of_lin(a.shape[0])
        if n == "shape":
            return Tup([self.of_lin(x) for x in self.arr(t.args[0], env).shape])
        if n == "values":
            return self(t.args[0], env)
        raise Unknown(show(t)[:80])

    def transpose(self, a):
        if len(a.shape) == 1:
            return a
        return Arr(a.shape[::-1], lambda i, j: a.get(j, i), a.kind)

    def reshape(self, a, dims):
        total = a.shape[0] if len(a.shape) == 1 else self.prod(a.shape)
        if len(dims) == 1:
            if dims[0] != -1 and dims[0] != total:
                raise IndexError("reshape of %s to %s" % (total, dims[0]))
            return self.flat(a)
        if len(dims) != 2:
            raise Unknown("reshape")
        a = self.flat(a)
        d = [lin(x) for x in dims]
        if d[0] == -1 or d[1] == -1:
            k = 1 if d[0] == -1 else 0
            if not d[k].is_const():
                raise Unknown("reshape")
            q, r = total.divmod(d[k].c)
            if r:
                raise IndexError("reshape of %s" % total)
            d[1 - k] = q
        if self.prod(d) != total:
            raise IndexError("reshape of %s to %s" % (total, d))

        def get(r, c):
            if r.is_const():
                return a.get(d[1] * r.c + c)
            if d[1].is_const():
                return a.get(r * d[1].c + c)
            raise Unknown("row %s" % r)

        return Arr(d, get, a.kind)

    def prod(self, s):
        if s[0].is_const():
            return s[1] * s[0].c
        if s[1].is_const():
            return s[0] * s[1].c
        raise Unknown("size")

    def flat(self, a):
        if len(a.shape) == 1:
            return a
        rows, cols = a.shape

        def get(i):
            if cols.is_const():
                q, r = i.divmod(cols.c)
                return a.get(q, lin(r))
            if rows.is_const():
                for r in range(rows.c):
                    if ge(cols * (r + 1) - 1, i):
                        return a.get(lin(r), i - cols * r)
            raise Unknown("flat position %s" % i)

        return Arr((self.prod(a.shape),), get, a.kind)

    def concat(self, parts):
        kinds = {p.kind for p in parts if p.shape[0] != 0}
        bounds = [lin(0)]
        for p in parts:
            if len(p.shape) != 1:
                raise Unknown("concatenation of 2-D arrays")
            bounds.append(bounds[-1] + p.shape[0])

        def get(i):
            for p, lo, hi in zip(parts, bounds, bounds[1:]):
                if ge(hi - 1, i):
                    return p.get(i - lo)
            raise IndexError("position %s of %s" % (i, bounds[-1]))

        return Arr((bounds[-1],), get, kinds.pop() if len(kinds) == 1 else "num")

    def comp(self, t, env):
        it, cases = t.args[0], t.args[1]
        if len(cases) != 1 or cases[0][0] or len(cases[0][1]) != 1:
            raise Unknown(show(t)[:80])
        e = cases[0][1][0]
        return Arr((self.iter_len(it, env),), lambda i: self(e, self.bind(it, i, env)))

    def inner(self, it):
        if it.op == "call" and call_name(it) == "builtins.enumerate" and len(it.args[1]) == 1 and not it.args[2]:
            return self.inner(it.args[1][0])
        if it.op == "call" and call_name(it) in ("builtins.list", "builtins.tuple") and len(it.args[1]) == 1:
            return self.inner(it.args[1][0])
        if it.op == "call" and call_name(it) == "builtins.zip":
            return [y for x in it.args[1] for y in self.inner(x)]
        return [it]

    def iter_len(self, it, env):
        ls = [self.arr(x, env).shape[0] for x in self.inner(it)]
        r = ls[0]
        for x in ls[1:]:
            r = x if ge(r, x) else r
        return r

    def bind(self, it, i, env):
        e = dict(env)
        for x in self.inner(it):
            e[x] = i
        e[it] = i
        while it.op == "call" and call_name(it) == "builtins.enumerate":
            it = it.args[1][0]
            e[it] = i
        return e

    def updated(self, a, u, env):
        """dictionary update that stands for item assignments"""
        if u.op == "dictcomp":
            it, cases = u.args[0], u.args[1]
            if len(cases) != 1 or cases[0][0] or len(cases[0][1]) != 1:
                raise Unknown(show(u)[:80])
            kv = cases[0][1][0]
            k, v = kv.args
            return self.loop_set(a, it, k, v, env)
        raise Unknown(show(u)[:80])

    def loop_set(self, a, it, k, v, env):
        n = self.iter_len(it, env)
        base = self.index(self.val(k, self.bind(it, Lin(0, {"$i": 1}), env)))
        c = base.v.get("$i", 0)
        off = Lin(base.c, {x: y for x, y in base.v.items() if x != "$i"})
        if c not in (1, 2, 3):
            raise Unknown("position %s" % base)

        def get(j):
            d = j - off
            try:
                q, r = d.divmod(c)
            except Unknown:
                raise Unknown("position %s" % j)
            if r or not ge(q, 0) or not ge(n - 1, q):
                return a.get(j)
            return self.val(v, self.bind(it, q, env))

        return Arr(a.shape, get, a.kind)

    def mutated(self, t, a):
        return a

    def stored(self, t, a):
        """Effects of item assignments on a new array"""
        for e in self.events:
            if e.kind == "setitem" and e.a[0] is t:
                a = self.set(a, e.a[1], e.a[2], {})
            elif e.kind == "loop":
                for conds, evs in e.a[1]:
                    for x in evs:
                        if x.kind in ("setitem", "mutcall", "augassign", "delitem") and x.a[0] is t:
                            if x.kind != "setitem" or conds or len(e.a[1]) != 1 or len([y for y in evs if y.kind == "loop"]):
                                raise Unknown("changes of %s" % show(t)[:60])
                            a = self.loop_set(a, e.a[0], x.a[1], x.a[2], {})
            elif e.kind in ("delitem", "mutcall", "augassign") and e.a[0] is t:
                raise Unknown("changes of %s" % show(t)[:60])
        return a

    def set(self, a, k, v, env):
        if k.op in ("slice3", "sliceobj"):
            lo, hi, step = [self.opt(x, env) for x in k.args]
            s = step.c if step is not None and step.is_const() else 1 if step is None else None
            if s is None or s < 1:
                raise Unknown("step")
            n = a.shape[0]
            lo = lin(0) if lo is None else lo + n if lo.sign() is False else lo
            hi = n if hi is None else hi + n if hi.sign() is False else hi
            m = (hi - lo + (s - 1)).divmod(s)[0]
            x = self(v, env)
            if isinstance(x, Tup):
                x = self.from_items(x.items)
            if isinstance(x, Arr) and x.shape[0] != m:
                if (x.shape[0] - m).sign() is None:
                    raise Unknown("lengths")
                raise IndexError("assignment of %s values to %s" % (x.shape[0], m))

            def get(j):
                if not ge(j, lo) or not ge(hi - 1, j):
                    return a.get(j)
                q, r = (j - lo).divmod(s)
                if r:
                    return a.get(j)
                return x.get(q) if isinstance(x, Arr) else x

            return Arr(a.shape, get, a.kind)
        i = self.index(self.val(k, env))
        if i.sign() is False:
            i = i + a.shape[0]
        x = self.val(v, env)

        def get1(j):
            d = j - i
            if d == 0:
                return x
            if d.sign() is None or (-d).sign() is None:
                raise Unknown("positions %s and %s" % (i, j))
            if (-d).sign() and d.sign():
                raise Unknown("positions %s and %s" % (i, j))
            if d.sign() and not (d - 1).sign() or (-d).sign() and not (-d - 1).sign():
                raise Unknown("positions %s and %s" % (i, j))
            return a.get(j)

        return Arr(a.shape, get1, a.kind)

    # ------------------------------------------------------------ calls
    def once(self, t):
        n = sum(1 for e in self.events if e.kind == "call" and e.a[0] is t)
        if n > 1 and any(e.kind == "setitem" and e.a[0] is t for e in self.events):
            raise Unknown("several arrays %s" % show(t)[:60])

    def call(self, t, env):
        n, pos, kw = call_name(t), t.args[1], dict(x for x in t.args[2] if isinstance(x, tuple))
        f = t.args[0]
        if f.op == "attr" and n is None or f.op == "attr":
            return self.mcall(self(f.args[0], env), f.args[1], pos, t.args[2], env, t)
        if n is None:
            raise Unknown(show(t)[:80])
        short = n.split(".")[-1]
        if n in ("numpy.concatenate", "numpy.hstack", "numpy.r_"):
            if kw.get("axis") is not None and cval(kw["axis"]) != 0:
                raise Unknown("axis")
            x = self(pos[0], env)
            if isinstance(x, Tup):
                return self.concat([self.from_items(y.items) if isinstance(y, Tup) else y if isinstance(y, Arr) else self.fail(t) for y in x.items])
            raise Unknown(show(t)[:80])
        if n == "numpy.append" and len(pos) == 2:
            y = self(pos[1], env)
            y = self.from_items([y]) if isinstance(y, Val) else self.from_items(y.items) if isinstance(y, Tup) else y
            return self.concat([self.flat(self.arr(pos[0], env)), y])
        if n in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asfarray", "numpy.ascontiguousarray", "numpy.fromiter", "numpy.asanyarray", "builtins.list", "builtins.tuple"):
            x = self(pos[0], env)
            if isinstance(x, Tup):
                x = self.from_items(x.items)
            if isinstance(x, Arr) and x.get and n != "builtins.list":
                x = self.probe(x)
            d = kw.get("dtype") or (pos[1] if len(pos) > 1 else None)
            x = self.cast(x, d, t) if d is not None else x
            self.once(t)
            return self.stored(t, x)
        if n in ("numpy.stack", "numpy.vstack", "numpy.column_stack", "numpy.dstack", "numpy.row_stack"):
            x = self(pos[0], env)
            a = self.from_items(x.items) if isinstance(x, Tup) else self.fail(t)
            ax = cval(kw["axis"]) if "axis" in kw else 0
            if n == "numpy.column_stack" or n == "numpy.dstack" or n == "numpy.stack" and ax in (1, -1):
                return self.transpose(a)
            return a
        if n in ("numpy.ravel",):
            return self.flat(self.arr(pos[0], env))
        if n == "numpy.reshape":
            return self.mcall(self(pos[0], env), "reshape", pos[1:], t.args[2], env, t)
        if n == "numpy.transpose":
            return self.transpose(self.arr(pos[0], env))
        if n == "numpy.diff" and len(pos) == 1:
            a = self.arr(pos[0], env)
            return self.binop("-", self.slice(a, lin(1), None, None), self.slice(a, None, lin(-1), None))
        if n in ("numpy.flip", "numpy.flipud"):
            return self.slice(self.arr(pos[0], env), None, None, lin(-1))
        if n in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide") and len(pos) == 2 and not kw:
            return self.binop({"add": "+", "subtract": "-", "multiply": "*"}.get(short, "/"), self(pos[0], env), self(pos[1], env))
        if n in ("builtins.float", "numpy.float64", "builtins.int", "numpy.int64") and len(pos) == 1:
            return self.cast(self(pos[0], env), f, t)
        if n in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty_like", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like"):
            if n.endswith("_like"):
                ln = self.arr(pos[0], env).shape
            else:
                s = self(pos[0], env)
                ln = [self.index(x) for x in s.items] if isinstance(s, Tup) else [self.index(s)]
            if len(ln) != 1:
                raise Unknown(show(t)[:80])
            fill = Val(self.alg.atom("unset", (t,))) if "empty" in n else self.num(0) if "zeros" in n else self.num(1) if "ones" in n else self.val(pos[1], env)
            self.once(t)
            a = self.stored(t, Arr(ln, lambda i: fill))
            d = kw.get("dtype")
            if d is not None:
                return self.cast(a, d, t)
            if n.endswith("_like"):
                like = self.arr(pos[0], env)
                if like.kind != "num":
                    raise Unknown("array of times")
                if self.whole(like.get(lin(0))):
                    return Arr(a.shape, lambda i: self.truncated(a.get(i)))
            return a
        if n in ("builtins.range", "numpy.arange"):
            if len(pos) == 1:
                return Arr((self.index(self.val(pos[0], env)),), lambda i: self.of_lin(i))
            if len(pos) == 2:
                lo, hi = self.index(self.val(pos[0], env)), self.index(self.val(pos[1], env))
                return Arr((hi - lo,), lambda i: self.of_lin(lo + i))
        if n == "numpy.linspace" and len(pos) >= 2:
            a, b = self.val(pos[0], env), self.val(pos[1], env)
            num = self.val(pos[2] if len(pos) > 2 else kw["num"], env)
            k = self.index(num)
            if "endpoint" in kw and cval(kw["endpoint"]) is not True:
                den = num.r
            else:
                den = self.alg.add(num.r, self.alg.const(1), -1)

            def get(i):
                return Val(self.alg.add(a.r, self.alg.mul(self.of_lin(i).r, self.alg.div(self.alg.add(b.r, a.r, -1), den))), a.kind)

            r = Arr((k,), get, a.kind)
            return self.cast(r, kw["dtype"], t) if "dtype" in kw else r
        if n == "numpy.vectorize":
            raise Unknown(show(t)[:80])
        raise Unknown(show(t)[:80])

    def probe(self, a):
        """2-D arrays from lists of rows"""
        return a

    def fail(self, t):
        raise Unknown(show(t)[:80])

    def mcall(self, a, name, pos, kw, env, t):
        kw = dict(x for x in kw if isinstance(x, tuple))
        if isinstance(a, Tup):
            a = self.from_items(a.items)
        if name == "astype" and pos:
            return self.cast(a, pos[0], t)
        if name in ("copy", "tolist", "view", "to_numpy", "item", "squeeze") and not pos:
            return a
        if not isinstance(a, Arr):
            raise Unknown(show(t)[:80])
        if name == "reshape":
            d = [self(x, env) for x in pos]
            dims = [self.index(y) for x in d for y in (x.items if isinstance(x, Tup) else [x])]
            o = kw.get("order")
            if o is not None and cval(o) == "F":
                return self.transpose(self.reshape(self.transpose(a), dims[::-1])) if len(dims) == 2 else self.flat(self.transpose(a))
            return self.reshape(a, dims)
        if name in ("flatten", "ravel"):
            o = pos[0] if pos else kw.get("order")
            return self.flat(self.transpose(a) if o is not None and cval(o) == "F" else a)
        if name == "transpose" and not pos:
            return self.transpose(a)
        raise Unknown(show(t)[:80])

    # ------------------------------------------------------------ types
    def dtype(self, d):
        if is_str(d):
            return cval(d)
        if d.op == "ext":
            return d.args[0]
        if d.op == "sym":
            return d.args[0]
        if d.op == "call" and call_name(d) == "numpy.dtype" and len(d.args[1]) == 1:
            return self.dtype(d.args[1][0])
        raise Unknown("type %s" % show(d))

    def cast(self, a, d, t):
        n = self.dtype(d)
        al = self.alg
        if n in SECONDS:
            u = SECONDS[n]

            def conv(v):
                if v.kind == "num":
                    return Val(al.div(v.r, al.const(u)), ("dt", u))
                return Val(v.r, ("dt", u))

            kind = ("dt", u)
        elif n in INT_CASTS or n in FLOAT_CASTS:
            def conv(v):
                if v.kind == "num":
                    return Val(v.r if n in FLOAT_CASTS or v.n is not None or self.whole(v) else al.atom("int", (v.r,)), "num", v.n)
                u = v.kind[1]
                return Val(al.mul(v.r, al.const(u) if not isinstance(u, str) else al.atom("ticks", (const(u),))), "num")

            kind = "num"
        elif n in ("builtins.object", "object", "O"):
            return a
        elif n in ("numpy.int32", "numpy.float32", "int32", "float32", "numpy.int16", "i4", "f4", "numpy.single", "numpy.intc", "numpy.uint32", "numpy.float16"):
            raise Narrow(n)
        elif n in COARSE:
            raise Narrow(n)
        else:
            raise Unknown("type %s" % n)
        if isinstance(a, Val):
            return conv(a)
        if isinstance(a, Tup):
            a = self.from_items(a.items)
        return Arr(a.shape, lambda *i: conv(a.get(*i)), kind)

    def truncated(self, v):
        return v if self.whole(v) else Val(self.alg.atom("int", (v.r,)))

    whole_atoms = None

    def whole(self, v):
        """Is the number certainly an integer? (sums of base elements with integer coefficients)"""
        if v.r.d != {(): Fraction(1)}:
            return False
        for m, c in v.r.n.items():
            if c.denominator != 1:
                return False
            for k, e in m:
                name, args = self.alg.atoms[k]
                if e < 0 or name not in ("at", "var", "ticks", "int") or name == "at" and self.whole_atoms is not None and args[0] not in self.whole_atoms:
                    return False
        return True
