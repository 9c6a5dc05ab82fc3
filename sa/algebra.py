"""Rational normal forms: equality of formulas as algebraic identity with exact coefficients"""
from fractions import Fraction

from .terms import T, call_name, is_num, mk

TRANSPARENT = {"builtins.float", "numpy.float64", "numpy.asarray", "numpy.array", "numpy.asscalar", "builtins.sum1"}
NAMES = {
    "numpy.log": "log", "math.log": "log", "numpy.log2": "log2", "math.log2": "log2", "numpy.log10": "log10", "math.log10": "log10",
    "numpy.exp": "exp", "math.exp": "exp", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "builtins.max": "max", "numpy.maximum": "max", "numpy.fmax": "max", "builtins.min": "min", "numpy.minimum": "min", "numpy.fmin": "min",
    "builtins.abs": "abs", "numpy.abs": "abs", "numpy.absolute": "abs", "math.fabs": "abs",
}
COMMUTE = {"max", "min"}


class DivisionByZero(Exception):
    pass


def number(v):
    """Exact value of a literal (decimal literals are meant as they are written)"""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    f = Fraction(repr(v))
    g = f.limit_denominator(10 ** 6)
    return g if f != g and abs(f - g) <= abs(f) * Fraction(1, 10 ** 14) else f


class R:
    """num / den, polynomials as {((atom index, power), ...): coefficient}"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        n = {k: v for k, v in n.items() if v}
        if d is None or not n:
            self.n, self.d = n, {(): Fraction(1)}
            return
        # common powers of atoms and a common constant
        low = None
        for p in (n, d):
            for m in p:
                e = dict(m)
                low = e if low is None else {k: min(v, e[k]) for k, v in low.items() if k in e}
                if not low:
                    break
            if not low:
                break
        if low:
            n, d = ({tuple((k, e - low.get(k, 0)) for k, e in m if e != low.get(k, 0)): c for m, c in p.items()} for p in (n, d))
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n, d = {k: v / c for k, v in n.items()}, {m: Fraction(1)}
        self.n, self.d = n, d


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            e = dict(m1)
            for k, p in m2:
                e[k] = e.get(k, 0) + p
            m = tuple(sorted((k, p) for k, p in e.items() if p))
            r[m] = r.get(m, 0) + c1 * c2
    return {k: v for k, v in r.items() if v}


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
    return {k: v for k, v in r.items() if v}


class Algebra:
    """Normal forms relative to a substitution of leaves"""

    def __init__(self, leaf=None):
        self.leaf = leaf or (lambda t: None)
        self.atoms = []  # (name, args as R or T)
        self.memo = {}

    # ------------------------------------------------------------ building
    def const(self, v):
        return R({(): number(v) if not isinstance(v, Fraction) else v})

    def atom(self, name, args=()):
        for i, (n, a) in enumerate(self.atoms):
            if n == name and len(a) == len(args):
                if name in COMMUTE:
                    left = list(a)
                    for x in args:
                        for y in left:
                            if self.same_arg(x, y):
                                left.remove(y)
                                break
                        else:
                            break
                    else:
                        return R({((i, 1),): Fraction(1)})
                elif all(self.same_arg(x, y) for x, y in zip(a, args)):
                    return R({((i, 1),): Fraction(1)})
        self.atoms.append((name, tuple(args)))
        return R({((len(self.atoms) - 1, 1),): Fraction(1)})

    def same_arg(self, x, y):
        if isinstance(x, R) and isinstance(y, R):
            return self.eq(x, y)
        return x is y

    def add(self, a, b, f=1):
        if a.d == b.d:
            return R(padd(a.n, b.n, f), a.d)
        return R(padd(pmul(a.n, b.d), pmul(b.n, a.d), f), pmul(a.d, b.d))

    def mul(self, a, b):
        return R(pmul(a.n, b.n), pmul(a.d, b.d))

    def div(self, a, b):
        if not b.n:
            raise DivisionByZero
        return R(pmul(a.n, b.d), pmul(a.d, b.n))

    def pow(self, a, k):
        r = self.const(1)
        for _ in range(abs(k)):
            r = self.mul(r, a)
        return r if k >= 0 else self.div(self.const(1), r)

    def eq(self, a, b):
        return pmul(a.n, b.d) == pmul(b.n, a.d)

    def is_const(self, a):
        """Value of a constant fraction"""
        if not a.n:
            return Fraction(0)
        if len(a.n) == len(a.d):
            m, c = next(iter(a.n.items()))
            if m in a.d:
                q = c / a.d[m]
                if {k: v * q for k, v in a.d.items()} == a.n:
                    return q
        return None

    # ------------------------------------------------------------ terms
    def __call__(self, t):
        if isinstance(t, R):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.norm(t)
        return r

    def norm(self, t):
        x = self.leaf(t)
        if isinstance(x, R):
            return x
        if isinstance(x, T) and x is not t:
            return self(x)
        if is_num(t):
            return self.const(t.args[1])
        if t.op in ("+", "-") and len(t.args) == 2:
            return self.add(self(t.args[0]), self(t.args[1]), 1 if t.op == "+" else -1)
        if t.op == "*" and len(t.args) == 2:
            return self.mul(self(t.args[0]), self(t.args[1]))
        if t.op == "/" and len(t.args) == 2:
            return self.div(self(t.args[0]), self(t.args[1]))
        if t.op == "neg":
            return self.mul(self.const(-1), self(t.args[0]))
        if t.op == "pos":
            return self(t.args[0])
        if t.op == "**" and len(t.args) == 2:
            k = self.is_const(self(t.args[1]))
            if k is not None and k.denominator == 1 and abs(k) <= 8:
                return self.pow(self(t.args[0]), int(k))
            return self.atom("pow", (self(t.args[0]), self(t.args[1])))
        if t.op == "call":
            n = call_name(t)
            if n in ("math.pow", "numpy.power", "builtins.pow") and len(t.args[1]) == 2:
                return self(mk("**", *t.args[1]))
            if n in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide") and len(t.args[1]) == 2 and not t.args[2]:
                return self(mk({"add": "+", "subtract": "-", "multiply": "*"}.get(n.split(".")[1], "/"), *t.args[1]))
            if n in TRANSPARENT and len(t.args[1]) == 1:
                return self(t.args[1][0])
            if n in NAMES and not t.args[2] and t.args[1] and all(isinstance(a, T) for a in t.args[1]):
                f = NAMES[n]
                args = [self(a) for a in t.args[1]]
                if f == "log" and len(args) == 2:
                    return self.div(self.atom("log", args[:1]), self.atom("log", args[1:]))
                if f in ("log2", "log10") and len(args) == 1:
                    return self.div(self.atom("log", args), self.atom("log", [self.const(int(f[3:]))]))
                if f == "sqrt":
                    return self.atom("pow", (args[0], self.const(Fraction(1, 2))))
                if f in COMMUTE and len(args) >= 2:
                    flat = []
                    for a in args:
                        g = self.flat(a, f)
                        flat.extend(g)
                    out = []
                    for a in flat:
                        if not any(self.eq(a, b) for b in out):
                            out.append(a)
                    return out[0] if len(out) == 1 else self.atom(f, out)
                return self.atom(f, args)
        return self.atom("leaf", (t,))

    def flat(self, a, f):
        if len(a.n) == 1 and a.d == {(): Fraction(1)}:
            m, c = next(iter(a.n.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == f:
                return list(self.atoms[m[0][0]][1])
        return [a]

    def same(self, a, b):
        return self.eq(self(a), self(b))

    def leaves(self, a):
        """Terms (not further understood) on which a value depends"""
        r, seen = [], set()

        def go(x):
            if isinstance(x, T):
                if x not in r:
                    r.append(x)
                return
            for p in (x.n, x.d):
                for m in p:
                    for k, _ in m:
                        if k not in seen:
                            seen.add(k)
                            for y in self.atoms[k][1]:
                                go(y)

        go(self(a) if isinstance(a, T) else a)
        return r

    def show(self, a, names=None):
        def poly(p):
            if not p:
                return "0"
            s = []
            for m, c in p.items():
                f = "*".join(self.atom_name(k) + ("**%d" % e if e != 1 else "") for k, e in m)
                s.append((str(c) + "*" if c != 1 and f else str(c) if not f else "") + f)
            return " + ".join(s)

        a = self(a) if isinstance(a, T) else a
        d = poly(a.d)
        return poly(a.n) if d == "1" else "(%s) / (%s)" % (poly(a.n), d)

    def atom_name(self, k):
        from .terms import show

        n, args = self.atoms[k]
        if n == "leaf":
            return show(args[0])
        return "%s(%s)" % (n, ", ".join(self.show(x) if isinstance(x, R) else show(x) for x in args))
