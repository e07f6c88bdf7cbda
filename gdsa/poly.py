"""Polynomial normal form of arithmetic value-flow expressions (an algebraic
value numbering: two expressions with the same normal form are equal)."""
from fractions import Fraction

from .interp import Node
from .lin import Fork


def _num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(v)


class Poly(object):
    """sum of coef * prod(atom^exp); an atom key is hashable"""

    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def const(v):
        return Poly({(): _num(v)})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                d = dict(k1)
                for a, e in k2:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr))
                t[k] = t.get(k, 0) + v1 * v2
        return Poly(t)

    def monomial_inv(self):
        if len(self.t) != 1:
            return None
        (k, v), = self.t.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def is_const(self):
        return all(k == () for k in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for k in self.t for a, _ in k}

    def __repr__(self):
        out = []
        for k, v in sorted(self.t.items(), key=repr):
            m = "*".join("%s^%s" % (_sa(a), e) if e != 1 else _sa(a) for a, e in k)
            out.append(("%s*%s" % (v, m)) if m else str(v))
        return " + ".join(out) or "0"


def _sa(a):
    from .interp import show

    if isinstance(a, Node):
        return show(a, 4)
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        return "%s(%s)" % (a[0], ",".join(_sa(x) if not isinstance(x, Poly) else repr(x) for x in a[1:]))
    return str(a)


IDENT = ("float", "numpy.array", "numpy.asarray", "numpy.float64")
ROUND = ("round", "numpy.round", "numpy.rint", "numpy.around", "numpy.round_")


class Polyer(object):
    """facts: object with resolve(); strip_round: look through rounding/int casts"""

    def __init__(self, facts, strip_round=False, atom=None):
        self.f = facts
        self.strip_round = strip_round
        self.atomfn = atom

    def of(self, n, depth=0):
        n = self.f.resolve(n)
        if n.op == "ite":
            raise Fork(n.args[0])
        if depth > 120:
            return Poly.atom(n)
        d = depth + 1
        if self.atomfn is not None:
            a = self.atomfn(n)
            if a is not None:
                return a if isinstance(a, Poly) else Poly.atom(a)
        if n.op == "const" and isinstance(n.args[1], (int, float)) and n.args[1] == n.args[1] and abs(n.args[1]) != float("inf"):
            return Poly.const(n.args[1])
        if n.op == "ext" and n.args[0] in ("numpy.pi", "math.pi"):
            return Poly.atom("pi")
        if n.op == "bin":
            op, a, b = n.args
            if op in ("+", "-", "*"):
                x, y = self.of(a, d), self.of(b, d)
                return x + y if op == "+" else (x - y if op == "-" else x * y)
            if op == "/":
                x, y = self.of(a, d), self.of(b, d)
                i = y.monomial_inv()
                if i is not None:
                    return x * i
                return x * Poly({((("inv", y), 1),): Fraction(1)})
            if op == "**":
                y = self.of(b, d)
                if y.is_const() and y.cval().denominator == 1 and 0 <= y.cval() <= 8:
                    x = self.of(a, d)
                    r = Poly.const(1)
                    for _ in range(int(y.cval())):
                        r = r * x
                    return r
                x = self.of(a, d)
                return Poly.atom(("pow", x, y))
        if n.op == "un":
            if n.args[0] == "-":
                return -self.of(n.args[1], d)
            if n.args[0] == "+":
                return self.of(n.args[1], d)
        if n.op == "call" and isinstance(n.args[0], str) and n.args[1]:
            nm = n.args[0]
            if nm in ("numpy.cos", "math.cos", "numpy.sin", "math.sin", "numpy.tan", "math.tan", "numpy.sqrt", "math.sqrt"):
                return Poly.atom((nm.split(".")[1], self.of(n.args[1][0], d)))
            if nm in ("numpy.deg2rad", "numpy.radians", "math.radians"):
                return self.of(n.args[1][0], d) * Poly.atom("pi") * Poly.const(Fraction(1, 180))
            if nm in IDENT and len(n.args[1]) == 1:
                return self.of(n.args[1][0], d)
            if self.strip_round and (nm in ROUND or nm == "int"):
                return self.of(n.args[1][0], d)
            if nm in ROUND or nm in ("int", "abs", "min", "max"):
                return Poly.atom((nm,) + tuple(self.of(x, d) for x in n.args[1]))
        if n.op == "mcall" and self.strip_round and n.args[1] in ("astype", "round", "copy"):
            return self.of(n.args[0], d)
        if n.op == "mcall" and n.args[1] == "copy":
            return self.of(n.args[0], d)
        return Poly.atom(n)
