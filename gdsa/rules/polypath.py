"""Sections of Path: outline of the polygons of each section, and the state of
the path (end point, direction, width, distance, length) after it.

Arrays of points with a symbolic number of rows are kept as sequences of
blocks: rows at equal steps between two ends (functions of s in 0..1) or rows of
an array of samples; numbers of rows are polynomials."""
import math
import random
from fractions import Fraction

from .. import affine
from ..affine import Eval, Arr, Tup, Unsupported, scalar, pair, to_arr, indices, broadcast, pmap, pdiv, same
from ..flow import strip
from ..interp import Interp, Node, show, subnodes
from ..lin import Fork
from ..poly import Poly
from . import geometry
from .geometry import Give, Bad, Case
from .sections import final_state

ONE, ZERO = Poly.const(1), Poly.const(0)
HALF = Poly.const(Fraction(1, 2))
A = Poly.atom
S = A("s")
PI = A("pi")
NAMED = {"+x": (1, 0, ZERO), "-x": (-1, 0, PI), "+y": (0, 1, PI * HALF), "-y": (0, -1, -(PI * HALF))}
TURNS = {"r": -(PI * HALF), "rr": -PI, "l": PI * HALF, "ll": PI}


def subst(p, m):
    """replace atoms (also inside function atoms)"""
    if not any(a in m for a in all_atoms(p)):
        return p
    r = ZERO
    for mono, c in p.t.items():
        t = Poly.const(c)
        for a, e in mono:
            if a in m:
                v = m[a]
            elif isinstance(a, tuple) and any(isinstance(x, Poly) for x in a):
                ps = tuple(subst(x, m) if isinstance(x, Poly) else x for x in a)
                if ps[0] == "inv":
                    v = pdiv(ONE, ps[1])
                elif ps[0] in ("cos", "sin"):
                    v = trig(ps[0], ps[1])
                else:
                    v = A(ps)
            else:
                v = A(a)
            if e < 0:
                v = pdiv(ONE, v)
            for _ in range(abs(int(e))):
                t = t * v
        r = r + t
    return r


def trig(f, p):
    """cos and sin of multiples of pi/2 exactly"""
    q = p * pdiv(Poly.const(2), PI)
    if q.is_const() and q.cval().denominator == 1:
        k = int(q.cval()) % 4
        return Poly.const({"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[f][k])
    return affine.fold(f, p)


for _i, _n in enumerate(("curve_function.0", "curve_function.1", "curve_derivative.0", "curve_derivative.1")):
    affine.FUN["fn:" + _n] = lambda u, k=_i: math.sin(2.3 * u + 1.1 * k + 0.4) + (0.7 + k) * u * u
for _i, _n in enumerate(("final_width", "final_distance")):
    affine.FUN["fn:" + _n] = lambda u, k=_i: 1.5 + 0.5 * math.sin(3.1 * u + k)
affine.FUN["fn:sum"] = lambda a, b: a * 1.37 + b * 0.11


class Env(dict):
    """assignment of atoms; positions of samples are between 0 and 1"""

    def __contains__(self, a):
        return dict.__contains__(self, a) or isinstance(a, str) and a[:1] in "#@" and a.endswith("u")

    def __missing__(self, a):
        v = self[a] = random.Random("polypath%s%s" % (a, dict.get(self, "$seed"))).uniform(0.05, 0.95)
        return v


class Block(object):
    """rows first .. first+rows-1 of `total` rows whose value is `val`; listed
    backwards if rev"""

    __slots__ = ("total", "first", "rows", "rev", "val")

    def __init__(self, total, val, first=ZERO, rows=None, rev=False):
        self.total, self.val, self.first, self.rev = total, val, first, rev
        self.rows = total if rows is None else rows

    def sampled(self):
        """value of a row of an array of samples, not of s"""
        return any("@" in repr(p) for p in self.val.data.values())

    def normal(self):
        if self.rev and not self.sampled():
            m = {"s": ONE - S}
            return Block(self.total, pmap(self.val, lambda p: subst(p, m)), self.total - self.first - self.rows, self.rows)
        return self

    def flipped(self):
        return Block(self.total, self.val, self.first, self.rows, not self.rev).normal()

    def same_rows(self, o):
        return self.total == o.total and self.first == o.first and self.rows == o.rows and self.rev == o.rev

    def at(self, k):
        """value of row k (Poly, counted from the start) of the block"""
        k = self.first + self.rows - ONE - k if self.rev else self.first + k
        if self.sampled():
            lab = repr(k)
            m = {}
            for p in self.val.data.values():
                for a in all_atoms(p):
                    if isinstance(a, str) and a[:1] == "@":
                        m[a] = A(a.replace("@", "#%s:" % lab))
            if not k.t:
                m["@u"] = ZERO
            if k == self.total - ONE:
                m["@u"] = ONE
            return pmap(self.val, lambda p: subst(p, m))
        if self.total == ONE:
            return self.val
        s = pdiv(k, self.total - ONE)
        return pmap(self.val, lambda p: subst(p, {"s": s}))


def all_atoms(p):
    out = set()
    for a in p.atoms():
        out.add(a)
        if isinstance(a, tuple):
            for x in a:
                if isinstance(x, Poly):
                    out |= all_atoms(x)
    return out


class Rows(object):
    def __init__(self, blocks):
        self.blocks = list(blocks)

    def width(self):
        return self.blocks[0].val.shape


class World(object):
    """signs of the quantities of a scenario"""

    def __init__(self, values, ranges):
        self.values = values          # atom -> Poly
        self.ranges = ranges          # atom -> fn(rng, env) -> number
        self.limits = []              # (Poly, set of signs)
        self.cache = {}
        self.known = {}

    def reduce(self, p):
        if not self.values:
            return p
        return subst(p, self.values)

    def signs(self, p):
        """signs it takes where it is tried; None if that is not known"""
        p = self.reduce(p)
        if not p.t:
            return {0}
        if p.is_const():
            return {1 if p.cval() > 0 else -1}
        if p in self.known:
            return self.known[p]
        got = set()
        try:
            for seed in range(16):
                v = affine.value(p, self.env(seed))
                got.add(0 if abs(v) < 1e-12 else (1 if v > 0 else -1))
                if len(got) == 3:
                    break
        except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
            got = None
        self.known[p] = got
        return got

    def sign(self, p):
        """-1, 0, 1 if the same everywhere it is tried, else None"""
        g = self.signs(p)
        return None if g is None or len(g) > 1 else list(g)[0]

    def limit(self, p, signs):
        self.limits.append((self.reduce(p), signs))
        self.cache = {}
        self.known = {}

    def add(self, a, fn):
        self.ranges[a] = fn
        for seed, env in self.cache.items():
            env[a] = fn(random.Random("polypath%s%d" % (a, seed)), env)

    def possible(self):
        try:
            self.env(0)
            return True
        except Unsupported:
            return False

    def env(self, seed):
        if seed in self.cache:
            return self.cache[seed]
        rng = random.Random(seed)
        env = Env({"$seed": seed})
        for a, fn in self.ranges.items():
            env[a] = fn(rng, env)
        bound = set()
        for p, sg in self.limits:
            bound |= all_atoms(p)
        free = [(a, fn) for a, fn in self.ranges.items() if a in bound]
        for k in range(300):
            if k:
                env = Env(env)
                for a, fn in free:
                    env[a] = fn(rng, env)
            ok = True
            for p, sg in self.limits:
                try:
                    v = affine.value(p, env)
                except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
                    continue
                if (0 if abs(v) < 1e-12 else (1 if v > 0 else -1)) not in sg:
                    ok = False
                    break
            if ok:
                self.cache[seed] = env
                return env
        raise Unsupported("conditions that exclude each other")


def uniform(a, b):
    return lambda rng, env: rng.uniform(a, b)


def integer(a, b):
    return lambda rng, env: rng.randint(a, b)


class PCase(Case):
    ev = None

    def decide(self, c):
        r = Case.decide(self, c)
        if r is not None or self.ev is None:
            return r
        c, pol = self.it.norm_cond(c)
        if c.op == "cmp" and c.args[0] in ("==", "<", "<=", ">", ">="):
            try:
                d = self.ev.arr(c.args[1]).data[()] - self.ev.arr(c.args[2]).data[()]
            except (Unsupported, Fork, KeyError):
                return None
            s = self.ev.world.sign(d)
            if s is None:
                return None
            r = {"==": s == 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[c.args[0]]
            return r if pol else not r
        if c.op in ("attr", "param", "sub", "bin", "loopv"):
            try:
                d = self.ev.arr(c).data[()]
            except (Unsupported, Fork, KeyError):
                return None
            s = self.ev.world.sign(d)
            if s is None:
                return None
            return (s != 0) if pol else s == 0
        return None


class Setting(object):
    """one method analysed with given kinds of arguments"""

    def __init__(self, prog, cls, f, args, heading, kinds):
        self.kinds, self.f, self.heading = kinds, f, heading
        self.it = it = Interp(prog, assume=self.assume)
        self.me = it.mk("param", f.params()[0])
        self.dirnode = it.mk("attr", self.me, "direction")
        a, heap = {}, {}
        for k, v in args.items():
            a[k] = it.NONE if v is None else (it.const(v) if isinstance(v, (str, bool)) else it.mk("param", k))
        if isinstance(heading, str):
            heap[(self.me, "direction")] = it.const(heading)
        self.res = it.run(f, self_cls=cls, args=a, self_node=self.me, heap=heap)

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            k = self.kind(c.args[1])
            if k is not None:
                return k == "none"
        if c.op == "cmp" and c.args[0] == "==":
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if y.op == "const" and isinstance(y.args[1], str):
                    k = self.kind(x)
                    if k is not None:
                        return False
        if c.op == "cmp" and c.args[0] == "in" and c.args[2].op in ("tuple", "list", "dict", "set", "gconst"):
            k = self.kind(c.args[1])
            lit = c.args[2].args[0] if c.args[2].op in ("tuple", "list", "set") else ()
            if k == "number" and (c.args[2].op in ("gconst", "dict") or all(x.op == "const" and isinstance(x.args[1], str) for x in lit)):
                if c.args[2].op == "gconst" and not isinstance(self.it.literal(c.args[2]), (dict, tuple, list)):
                    return None
                return False
        if c.op == "call" and c.args[0] in ("callable", "isinstance", "hasattr", "numpy.isscalar"):
            x = c.args[1][0]
            k = self.kind(x)
            if c.args[0] == "callable":
                return None if k is None else k == "callable"
            if c.args[0] == "numpy.isscalar":
                return None if k is None else k == "number"
            if c.args[0] == "hasattr":
                y = c.args[1][1]
                return k == "callable" if k is not None and y.op == "const" and y.args[1] == "__call__" else None
            names = set(y.args[0] if isinstance(y.args[0], str) else getattr(y.args[0], "name", "") for y in subnodes(c.args[1][1]) if y.op in ("ext", "cls", "gconst"))
            names |= {y.args[1] for y in subnodes(c.args[1][1]) if y.op == "gconst"}
            text = {n for n in names if n in ("str", "basestring", "unicode")}
            if text and len(text) == len([n for n in names if not n.startswith("gdspy")]):
                x = strip(x)
                if x.op == "const":
                    return isinstance(x.args[1], str)
                if k is not None:
                    return False
        return None

    def kind(self, n):
        n = strip(n)
        if n.op == "const" and n.args[1] is None:
            return "none"
        if n is self.dirnode and not isinstance(self.heading, str):
            return "number"
        if n.op == "bin" and any(self.kind(x) == "number" for x in n.args[1:]):
            return "number"
        if n.op == "param" and n.args[0] in self.kinds:
            return self.kinds[n.args[0]]
        return None


class REval(Eval):
    def __init__(self, sc, case, world):
        Eval.__init__(self, sc.it, self.leafs, case.decide)
        self.sc, self.case, self.world = sc, case, world
        self.strict = False         # split on conditions of numbers of points
        self.pieces = None          # number of pieces as the program counts them
        self.opaques = {}
        self.current = None
        self.lists = {}             # list of samples -> value of a row at s
        self.rates = None           # difference quotients: first, middle and last row

    # -- names ------------------------------------------------------------
    def leafs(self, n):
        s = strip(n)
        if s.op == "attr" and strip(s.args[0]) is self.sc.me and s.args[1] in ("x", "y", "w", "n", "distance", "direction", "length"):
            return scalar(self.world.reduce(A("me." + s.args[1])))
        if s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][0] is self.sc.me and s.args[1][1] == "length":
            return scalar(A("me.length"))
        if s.op == "param" and self.sc.kinds.get(s.args[0]) == "number":
            return scalar(self.world.reduce(A(s.args[0])))
        if s.op in ("elem", "idx"):
            return self.element(s)
        if s.op == "loopv" and isinstance(s.args[1], str):
            return scalar(self.opaque(s))
        if n.op == "ver" and n.args[1].op == "loopv":
            return self.sample(s)
        if n.op == "sub":
            b = strip(n.args[0])
            if b.op == "attr" and strip(b.args[0]) is self.sc.me and b.args[1] == "polygons" and self.minus_one(n.args[1]):
                return self.last(n.args[0])
            if b.op == "gconst":
                return self.table(b, n.args[1])
            if b.op == "attr" and b.args[1] == "shape" and self.zero(n.args[1]):
                v = self.ev(b.args[0])
                if isinstance(v, Rows):
                    return scalar(sum((x.rows for x in v.blocks), ZERO))
            return None
        if s.op == "call" and isinstance(s.args[0], Node):
            return self.applied(s)
        return None

    def version(self, n, d):
        base, c = n.args
        ups = []
        while c.op in ("upd", "ite"):
            if c.op == "ite":
                r = self.decide(c.args[0])
                if r is None:
                    raise Fork(c.args[0])
                c = c.args[1] if r else c.args[2]
                continue
            ups.append((c.args[1], c.args[2]))
            c = c.args[0]
        if c.op == "loopv" and base.op == "call" and base.args[0] in ("numpy.zeros", "numpy.empty") and self.made_in(base, c.args[0]):
            v = self.ev(base, d)
            for kind, args in reversed(ups):
                if kind != "setitem":
                    raise Unsupported("update " + kind)
                v = self.setitem(v, args[0], self.ev(args[1], d), d)
            return v
        return Eval.version(self, n, d)

    def made_in(self, base, loop):
        for e in self.sc.res.effects:
            if e.kind == "call" and e.data.get("result") is base:
                return any(l[0] == loop for l in e.loops)
        return False

    def sample(self, base):
        """a list of samples that grows in a loop: its rows are g(u) for the
        positions u of the samples, 0 first and 1 last"""
        if base.op not in ("call", "comp", "list", "mcall", "new"):
            return None
        v = self.ev(base)
        if not isinstance(v, Rows) or len(v.blocks) != 1:
            raise Unsupported("list of samples")
        self.lists[base] = v.blocks[0].val
        return Rows([Block(A("N"), pmap(v.blocks[0].val, lambda p: subst(p, {"s": A("@u")})))])

    def minus_one(self, k):
        return k.op == "const" and k.args[1] == -1 or k.op == "un" and k.args[0] == "-" and k.args[1].op == "const" and k.args[1].args[1] == 1

    def zero(self, k):
        return k.op == "const" and k.args[1] == 0

    def table(self, b, key):
        lit = self.it.literal(b)
        key = self.resolve(key)
        if isinstance(lit, dict) and key.op == "const" and key.args[1] in lit and isinstance(lit[key.args[1]], (int, float)):
            return scalar(Poly.const(lit[key.args[1]]))
        return None

    def last(self, n):
        """the newest polygon of the path"""
        if n.op == "ver":
            c = n.args[1]
            while c.op in ("ite", "upd"):
                if c.op == "ite":
                    d = self.decide(c.args[0])
                    if d is None:
                        raise Fork(c.args[0])
                    c = c.args[1] if d else c.args[2]
                    continue
                if c.args[1] == "append":
                    return self.ev(c.args[2][0])
                if c.args[1] == "setitem" and self.minus_one(c.args[2][0]):
                    return self.ev(c.args[2][1])
                break
        if self.current is not None:
            return self.current
        raise Unsupported("last polygon")

    def applied(self, s):
        t = strip(self.resolve(strip(s.args[0])))
        if t.op != "param":
            raise Unsupported("call " + show(s, 3))
        args = [self.arr(a) for a in s.args[1]]
        if len(args) != 1 or args[0].shape != ():
            raise Unsupported("call " + show(s, 3))
        nm = "fn:" + t.args[0]
        p = args[0].data[()]
        if t.args[0] in ("curve_function", "curve_derivative"):
            return pair(A((nm + ".0", p)), A((nm + ".1", p)))
        return scalar(A((nm, p)))

    def count(self, n):
        """a number of points or pieces: what is not understood is one unknown"""
        try:
            v = self.arr(n)
            if v.shape == ():
                return self.world.reduce(v.data[()])
        except Unsupported:
            pass
        except Fork:
            if self.strict:
                raise
        return self.opaque(n)

    def opaque(self, n):
        n = self.resolved(n)
        if n.op == "bin" and n.args[0] in ("+", "-", "*", "//"):
            a, b = self.count(n.args[1]), self.count(n.args[2])
            if n.args[0] == "//":
                return A(("floordiv", a, b))
            return {"+": a + b, "-": a - b, "*": a * b}[n.args[0]]
        if n not in self.opaques:
            nm = "?%d" % len(self.opaques)
            self.opaques[n] = A(nm)
            if nm not in self.world.ranges:
                self.world.add(nm, self.range_of(n))
        return self.world.reduce(self.opaques[n])

    def range_of(self, n):
        if n.op == "loopv" and n.info and n.info.get("init") is not None:
            i = n.info["init"]
            if i.op == "const" and isinstance(i.args[1], int):
                return lambda rng, env, k=i.args[1]: rng.randint(k, max(k, env.get("N", 40) - 2))
            return uniform(0.0001, 0.01)
        return integer(40, 400)

    def resolved(self, n):
        k = 0
        while n.op == "ite" and k < 40:
            d = self.decide(n.args[0])
            if d is None:
                return n
            k += 1
            n = n.args[1] if d else n.args[2]
        return n

    def element(self, s):
        if s.op == "idx":
            for site, (itn, kind) in self.it.loop_iters.items():
                if site == s.args[0]:
                    t = strip(itn)
                    return self.counter(t.args[1][0]) if t.op == "call" and t.args[0] == "enumerate" else None
            return None
        itn = s.args[0]
        t = strip(self.resolve(itn))
        if t.op == "call" and t.args[0] == "range":
            return self.counter(t)
        v = self.ev(itn)
        if isinstance(v, Rows) and len(v.blocks) == 1:
            return v.blocks[0].val
        return None

    def counter(self, t):
        t = strip(self.resolve(t))
        if t.op == "call" and t.args[0] == "range":
            start = ZERO
            p = self.count(t.args[1][-1] if len(t.args[1]) < 3 else t.args[1][1])
            if len(t.args[1]) == 2:
                start = self.count(t.args[1][0])
                p = p - start
            elif len(t.args[1]) == 3:
                raise Unsupported("range")
            if (p - A("me.n")).is_const():
                return scalar(A("i") + start)
            if start.t:
                raise Unsupported("range")
            if self.pieces is None:
                self.pieces = p
            if self.pieces == p:
                return scalar(self.world.reduce(A("jj")))
        raise Unsupported("counter over " + show(t, 3))

    # -- arrays with rows -------------------------------------------------
    def _ev(self, n, depth):
        v = self.leafs(n)
        if v is not None:
            return v
        n = self.resolve(n)
        v = self.leafs(n)
        if v is not None:
            return v
        if depth > 150:
            raise Unsupported("expression too deep")
        d = depth + 1
        o, a = n.op, n.args
        if o == "bin":
            l, r = self.ev(a[1], d), self.ev(a[2], d)
            if isinstance(l, Rows) or isinstance(r, Rows):
                return self.zipped(lambda x, y: self.binop(a[0], x, y), l, r)
        elif o == "un" and a[0] == "-":
            v = self.ev(a[1], d)
            if isinstance(v, Rows):
                return self.mapped(v, lambda p: -p)
        elif o == "sub":
            v = self.ev(a[0], d)
            if isinstance(v, Rows):
                return self.select(v, a[1], d)
            if isinstance(v, Arr) and len(v.shape) == 2 and self.symbolic(a[1]):
                return self.select(as_rows(v), a[1], d)
        elif o == "comp" and a[0] in ("list", "gen") and len(a[2]) == 1 and not a[3]:
            v = self.ev(a[2][0], d)
            if isinstance(v, Rows) and len(v.blocks) == 1:
                x = to_arr(self.ev(a[1], d))
                b = v.blocks[0]
                return Rows([Block(b.total, x, b.first, b.rows, b.rev)])
            raise Unsupported("comprehension")
        elif o == "attr" and a[1] == "T":
            v = self.ev(a[0], d)
            if isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, Rows) for x in v.items):
                return self.columns(v.items)
        return Eval._ev(self, n, depth)

    def symbolic(self, k):
        try:
            self.key(k)
            return False
        except Unsupported:
            return True

    def mapped(self, v, fn):
        return Rows([Block(b.total, pmap(b.val, fn), b.first, b.rows, b.rev) for b in v.blocks])

    def zipped(self, fn, l, r):
        if not isinstance(l, Rows):
            l, r, fn = r, l, (lambda g: lambda x, y: g(y, x))(fn)
        out = []
        if isinstance(r, Rows):
            lb, rb = [b.normal() for b in l.blocks], [b.normal() for b in r.blocks]
            if len(lb) != len(rb):
                raise Unsupported("arrays of different parts")
            for x, y in zip(lb, rb):
                if not x.same_rows(y) and x.rows == y.rows and x.sampled() and y.sampled() and not x.rev and not y.rev:
                    # rows next to each other
                    x, y = [Block(z.rows, pmap(z.val, lambda p, z=z: subst(p, {a: A("@%r|%s" % (z.first, a[1:])) for a in all_atoms(p) if isinstance(a, str) and a[:1] == "@"}))) for z in (x, y)]
                if not x.same_rows(y):
                    d = [same(x.rows, y.rows), same(x.total, y.total)]
                    if x.rows != y.rows and d[0] is False and not x.sampled() and not y.sampled() and self.world.sign(x.rows - y.rows) in (1, -1):
                        raise Bad("arrays of %r and %r points are combined" % (x.rows, y.rows))
                    raise Unsupported("arrays of different rows")
                if (x.val.shape == ()) != (y.val.shape == ()):
                    raise Unsupported("a row with a column")
                out.append(Block(x.total, fn(x.val, y.val), x.first, x.rows, x.rev))
            return Rows(out)
        r = to_arr(r)
        for x in l.blocks:
            if x.val.shape == () and r.shape != ():
                raise Unsupported("a row with a column")
            out.append(Block(x.total, fn(x.val, r), x.first, x.rows, x.rev))
        return Rows(out)

    def columns(self, items):
        a, b = [x.normal() for x in items[0].blocks], [x.normal() for x in items[1].blocks]
        if len(a) != len(b) or not all(x.same_rows(y) and x.val.shape == () == y.val.shape for x, y in zip(a, b)):
            raise Unsupported("columns")
        return Rows([Block(x.total, pair(x.val.data[()], y.val.data[()]), x.first, x.rows, x.rev) for x, y in zip(a, b)])

    def bound(self, x, size, default):
        if x is None:
            return default
        x = self.resolve(x)
        if x.op == "const" and x.args[1] is None:
            return default
        p = self.count(x)
        if self.world.sign(p) == -1:
            p = size + p
        return p

    def select(self, v, k, d):
        """rows or one row (and column) of an array"""
        ks = list(k.args[0]) if k.op == "tuple" else [k]
        k0 = self.resolve(ks[0])
        size = sum((b.rows for b in v.blocks), ZERO)
        if k0.op == "slice":
            st = self.resolve(k0.args[2]) if isinstance(k0.args[2], Node) else None
            step = 1
            if st is not None and not (st.op == "const" and st.args[1] is None):
                step = -1 if self.minus_one(st) else (1 if st.op == "const" and st.args[1] == 1 else None)
            if step == -1:
                lo, hi = [self.resolve(x) if isinstance(x, Node) else None for x in k0.args[:2]]
                if any(x is not None and not (x.op == "const" and x.args[1] is None) for x in (lo, hi)):
                    raise Unsupported("slice")
                out = Rows([b.flipped() for b in reversed(v.blocks)])
            elif step == 1:
                lo = self.bound(k0.args[0], size, ZERO)
                hi = self.bound(k0.args[1], size, size)
                out = self.cut(v, lo, hi)
            else:
                raise Unsupported("slice step")
            return self.column(out, ks[1:], d)
        p = self.count(k0)
        if self.world.sign(p) == -1:
            p = size + p
        row = None
        lo = ZERO
        for b in v.blocks:
            hi = lo + b.rows
            if self.world.sign(p - lo) in (0, 1) and self.world.sign(hi - p) == 1 or len(v.blocks) == 1:
                row = b.at(p - lo)
                break
            lo = hi
        if row is None:
            raise Unsupported("row")
        if len(ks) == 1:
            return row
        return self.take(row, self.key(self.it.mk("tuple", tuple(ks[1:]))))

    def column(self, v, ks, d):
        if not ks:
            return v
        if len(ks) > 1:
            raise Unsupported("subscript")
        c = self.key(ks[0])
        return Rows([Block(b.total, self.take(b.val, c), b.first, b.rows, b.rev) for b in v.blocks])

    def cut(self, v, lo, hi):
        out = []
        a = ZERO
        for b in v.blocks:
            z = a + b.rows
            x = self.larger(a, lo)
            y = self.smaller(z, hi)
            s = self.world.sign(y - x)
            if s is None:
                if len(v.blocks) > 1:
                    raise Unsupported("part of an array")
                s = 1
            if s > 0:
                b = b.normal()
                if b.rev:
                    out.append(Block(b.total, b.val, b.first + (z - y), y - x, True))
                else:
                    out.append(Block(b.total, b.val, b.first + (x - a), y - x))
            a = z
        return Rows(out)

    def larger(self, a, b):
        if a == b:
            return a
        s = self.world.signs(a - b)
        if s is None:
            raise Unsupported("order of positions")
        if s <= {0, 1}:
            return a
        if s <= {0, -1}:
            return b
        raise Unsupported("order of positions")

    def smaller(self, a, b):
        return b if self.larger(a, b) == a else a

    def setitem(self, v, k, val, d):
        if not isinstance(v, Rows):
            return Eval.setitem(self, v, k, val, d)
        ks = list(k.args[0]) if k.op == "tuple" else [k]
        size = sum((b.rows for b in v.blocks), ZERO)
        k0 = self.resolve(ks[0])
        if k0.op != "slice" or not all(x is None or x.op == "const" and x.args[1] in (None, 1) for x in k0.args[2:]):
            raise Unsupported("store of a row")
        lo, hi = self.bound(k0.args[0], size, ZERO), self.bound(k0.args[1], size, size)
        col = None
        if len(ks) == 2:
            c = self.key(ks[1])[0]
            if isinstance(c, int):
                col = c
            elif c != slice(None):
                raise Unsupported("store of columns")
        if not isinstance(val, Rows):
            val = as_rows(to_arr(val)) if to_arr(val).shape else Rows([Block(hi - lo, to_arr(val))])
        rows = sum((b.rows for b in val.blocks), ZERO)
        if rows != hi - lo and same(self.world.reduce(rows), self.world.reduce(hi - lo)) is not True:
            s = self.world.sign(rows - (hi - lo))
            if s in (1, -1):
                raise Bad("%r points are stored as %r rows" % (rows, hi - lo))
            raise Unsupported("number of rows stored")
        old = self.cut(v, lo, hi).blocks
        new = [b.normal() for b in val.blocks]
        if col is not None:
            if len(new) != 1 or new[0].val.shape != ():
                raise Unsupported("store of a column")
            x = new[0]
            other = A(("stale", lo))
            if len(old) == 1 and old[0].total == x.total and old[0].first == x.first:
                other = old[0].val.data[(1 - col,)]
            data = {(col,): x.val.data[()], (1 - col,): other}
            new = [Block(x.total, Arr((2,), data), x.first, x.rows)]
        return Rows(self.cut(v, ZERO, lo).blocks + new + (self.cut(v, hi, size).blocks if hi != size else []))

    def call(self, n, d):
        nm, args = n.args[0], n.args[1]
        if not isinstance(nm, str):
            raise Unsupported("call")
        short = nm.split(".")[-1]
        if nm == "numpy.linspace":
            if n.args[2] and any(k not in ("num",) for k, _ in n.args[2]):
                raise Unsupported("linspace options")
            num = args[2] if len(args) > 2 else self.kwarg(n, "num")
            if num is None:
                raise Unsupported("linspace")
            if self.zero(args[0]) and args[1].op == "const" and args[1].args[1] == 1 and self.sc.kinds.get("curve_function"):
                a, b = scalar(ZERO), scalar(ONE)
            else:
                a, b = self.arr(args[0]), self.arr(args[1])
            if a.shape != () or b.shape != ():
                raise Unsupported("linspace")
            p, q = a.data[()], b.data[()]
            return Rows([Block(self.count(num), scalar(p * (ONE - S) + q * S))])
        if short in ("zeros", "empty") and nm.startswith("numpy.") and args[0].op == "tuple" and len(args[0].args[0]) == 2:
            r, c = args[0].args[0]
            if c.op == "const" and c.args[1] == 2:
                return Rows([Block(self.count(r), pair(ZERO, ZERO))])
        if nm in ("numpy.full_like", "numpy.ones_like", "numpy.zeros_like"):
            v = self.ev(args[0], d)
            if isinstance(v, Rows):
                x = ONE if short == "ones_like" else (ZERO if short == "zeros_like" else self.arr(args[1]).data[()])
                return self.mapped(v, lambda p: x)
        if nm == "numpy.full" and len(args) == 2:
            sh = args[0]
            if sh.op == "tuple":
                sh = sh.args[0][0] if len(sh.args[0]) == 1 else None
            if sh is not None:
                return Rows([Block(self.count(sh), scalar(self.arr(args[1]).data[()]))])
        if nm in ("numpy.concatenate", "numpy.vstack", "numpy.row_stack", "numpy.hstack") and args[0].op in ("tuple", "list"):
            items = [self.ev(x, d) for x in args[0].args[0]]
            if any(isinstance(x, Rows) for x in items):
                out = []
                for x in items:
                    if isinstance(x, Rows):
                        out += x.blocks
                    else:
                        x = to_arr(x)
                        out += as_rows(x).blocks if len(x.shape) == 2 else [Block(ONE, x)]
                if nm == "numpy.vstack" and all(isinstance(x, Rows) and x.width() == () for x in items):
                    return Tup(items)
                if len(out) == 3 and out[0].rows == ONE == out[2].rows and out[1].sampled() and out[1].first == ONE and not out[1].rev and out[1].rows == out[1].total - Poly.const(2) and out[1].val.shape == (2,):
                    self.rates = tuple(b.val for b in out)
                    return Rows([Block(out[1].total, pair(A("@rate.0"), A("@rate.1")))])
                return Rows(out)
        if nm in ("numpy.column_stack", "numpy.transpose", "numpy.stack", "numpy.array"):
            v = self.ev(args[0], d)
            if isinstance(v, Rows):
                return v
            if isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, Rows) for x in v.items):
                if nm == "numpy.array":
                    return v
                if nm != "numpy.stack" or self.axis(n, 0) in (1, -1):
                    return self.columns(v.items)
        if nm in ("numpy.asarray", "list", "numpy.copy", "tuple") and len(args) == 1:
            v = self.ev(args[0], d)
            if isinstance(v, Rows):
                return v
        if nm in ("numpy.flipud", "numpy.flip", "reversed"):
            v = self.ev(args[0], d)
            if isinstance(v, Rows) and (nm != "numpy.flip" or self.axis(n, 0) == 0 and len(args) == 1):
                return Rows([b.flipped() for b in reversed(v.blocks)])
        if nm in ("numpy.sum", "sum") and len(args) == 1 and not n.args[2]:
            v = self.ev(args[0], d)
            if isinstance(v, Rows):
                return self.total(v)
        if nm in ("numpy.hypot", "numpy.arctan2") and len(args) == 2:
            l, r = self.ev(args[0], d), self.ev(args[1], d)
            if isinstance(l, Rows) or isinstance(r, Rows):
                f = short.replace("arctan2", "atan2")
                return self.zipped(lambda x, y: broadcast(x, y, lambda p, q: A((f, p, q))), l, r)
        if nm == "len":
            v = self.ev(args[0], d)
            if isinstance(v, Rows):
                return scalar(sum((x.rows for x in v.blocks), ZERO))
        if short in affine.ELEMENTWISE and len(args) == 1:
            v = self.ev(args[0], d)
            f = affine.ELEMENTWISE[short]
            g = (lambda p: trig(f, p)) if f in ("cos", "sin") else (lambda p: affine.fold(f, p))
            if isinstance(v, Rows):
                return self.mapped(v, g)
            return pmap(to_arr(v), g)
        if nm in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide") and len(args) == 2:
            l, r = self.ev(args[0], d), self.ev(args[1], d)
            if isinstance(l, Rows) or isinstance(r, Rows):
                op = {"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[short]
                return self.zipped(lambda x, y: self.binop(op, x, y), l, r)
        return Eval.call(self, n, d)

    def total(self, v):
        if len(v.blocks) != 1 or v.width() != ():
            raise Unsupported("sum")
        b = v.blocks[0]
        return scalar(A(("fn:sum", b.val.data[()], b.rows)))

    def mcall(self, n, d):
        recv, nm, args = n.args[0], n.args[1], n.args[2]
        if nm in ("copy", "astype", "tolist"):
            return self.ev(recv, d)
        if nm == "sum" and not args and not n.args[3]:
            v = self.ev(recv, d)
            if isinstance(v, Rows):
                return self.total(v)
        if nm == "reshape":
            v = self.ev(recv, d)
            if isinstance(v, Rows):
                sh = args[0].args[0] if len(args) == 1 and args[0].op == "tuple" else args
                if v.width() == () and len(sh) == 2 and sh[1].op == "const" and sh[1].args[1] == 1:
                    return Rows([Block(b.total, Arr((1,), {(0,): b.val.data[()]}), b.first, b.rows, b.rev) for b in v.blocks])
        return Eval.mcall(self, n, d)


def as_rows(a):
    if isinstance(a, Rows):
        return a
    if len(a.shape) != 2 or "N" in a.shape:
        raise Unsupported("array of points")
    return Rows([Block(ONE, Arr((a.shape[1],), {(j,): a.data[(i, j)] for j in range(a.shape[1])})) for i in range(a.shape[0])])


# -- comparing outlines -------------------------------------------------------


def match(world, got, want, sharp):
    """blocks of a polygon against the sides of the outline: True, False (with a
    reason), None; sharp[k]: the end of side k and the start of side k+1 are one
    point, which may be listed once or twice"""
    n = len(want)
    res = "the polygon does not have the sides of the section"
    unknown = False
    for turned in (False, True):
        g = got if not turned else [b.flipped() for b in reversed(got)]
        for r in range(len(g)):
            rot = g[r:] + g[:r]
            c = against(world, rot, want, sharp)
            if c is True:
                return True
            if c is None:
                unknown = True
    return None if unknown else False


def against(world, got, want, sharp):
    if all(b.rows == ONE and b.total == ONE for b in got) and all(len(w) == 4 for w in want):
        return corners(world, got, want, sharp)
    if len(got) != len(want):
        return False
    res = True
    drop = [0] * len(want)
    for k, (b, w) in enumerate(zip(got, want)):
        # value
        b = b.normal()
        if b.rev != w[3]:
            return False
        v, e = b.val, w[0]
        for key in e.data:
            if key not in v.data:
                return None
            c = equal(world, v.data[key], e.data[key])
            if c is not True:
                return c
        # rows left out at its ends
        ends = [(b.first, k - 1), (b.total - b.first - b.rows, k)]
        if b.rev:
            ends = [(ends[0][0], k), (ends[1][0], k - 1)]
        for (gap, j), due in zip(ends, w[4] if len(w) > 4 else (ZERO, ZERO)):
            gap = world.reduce(gap - due)
            if not gap.t:
                continue
            if gap == ONE and sharp[j]:
                drop[j] += 1
                continue
            s = world.signs(gap)
            if s is None or 0 in s:
                return None
            return False
    if any(x > 1 for x in drop):
        return False
    return res


def corners(world, got, want, sharp):
    full = []
    for k, w in enumerate(want):
        full.append((w[1], k - 1))
        full.append((w[2], k))
    # optional: one of the two coincident corners
    def eqp(b, p):
        out = True
        for key in p.data:
            if key not in b.val.data:
                return None
            c = equal(world, b.val.data[key], p.data[key])
            if c is not True:
                return c
        return out

    unknown = [False]

    def rec(i, j, dropped):
        if j == len(full):
            return i == len(got)
        if i < len(got):
            c = eqp(got[i], full[j][0])
            if c is None:
                unknown[0] = True
            if c and rec(i + 1, j + 1, dropped):
                return True
        k = full[j][1] % len(want)
        if sharp[k] and k not in dropped and rec(i, j + 1, dropped | {k}):
            return True
        return False

    if rec(0, 0, frozenset()):
        return True
    return None if unknown[0] else False


def equal(world, p, q):
    p, q = world.reduce(p), world.reduce(q)
    if p == q:
        return True
    try:
        for s in range(4):
            env = Env(world.env(s))
            env["s"] = 0.37 + 0.11 * s
            x, y = affine.value(p, env), affine.value(q, env)
            if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
                return False
        return True
    except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None


def side(val):
    """a straight or curved side as a function of s, with its two ends"""
    return (val, pmap(val, lambda p: subst(p, {"s": ZERO})), pmap(val, lambda p: subst(p, {"s": ONE})), False)


# -- effects -------------------------------------------------------------------


def live(sc, case, want):
    out = []
    for e in sc.res.effects:
        if not want(e):
            continue
        ok = True
        for g, p in e.guards:
            if g.op == "cmp" and (g.args[1].op == "loopv" or g.args[2].op == "loopv") and any(l[2] == "while" for l in e.loops) and case.decide(g) is None:
                continue
            d = case.decide(g)
            if d is None:
                raise Fork(g)
            if d != p:
                ok = False
                break
        if ok:
            out.append(e)
    return out


def polygon_effects(sc, case):
    me = sc.me

    def polys(n):
        s = strip(n)
        return s.op == "attr" and s.args[1] == "polygons" and strip(s.args[0]) is me or s.op == "loopv" and isinstance(s.args[1], tuple) and strip(s.args[1][0]).op == "attr" and strip(s.args[1][0]).args[1] == "polygons"

    def want(e):
        if e.kind == "mcall" and polys(e.recv):
            return True
        if e.kind in ("storeitem", "delitem"):
            return True
        if e.kind == "aug" and polys(e.obj):
            return True
        if e.kind == "store" and e.attr == "polygons" and strip(e.obj) is me:
            return True
        return False

    return [e for e in live(sc, case, want)], polys


def outline(sc, case, ev, group=None):
    """(loops, value) of each polygon added"""
    effs, polys = polygon_effects(sc, case)
    out = []
    cur = None
    for e in effs:
        if e.kind == "mcall":
            if e.name == "append" and len(e.args) == 1:
                cur = [e, e.args[0], None]
                out.append(cur)
                continue
            if e.name == "extend" and len(e.args) == 1:
                c = strip(e.args[0])
                if c.op == "comp" and len(c.args[2]) == 1 and not c.args[3]:
                    cur = [e, c.args[1], None, c]
                    out.append(cur)
                    continue
            raise Give("polygons." + e.name)
        if e.kind == "storeitem":
            if polys(e.obj) and ev.minus_one(e.key):
                if cur is None:
                    raise Give("store of a polygon")
                cur[2] = ("value", e.value)
                cur.append(e)
                continue
            if cur is not None and strip(e.obj) is strip(cur[1]):
                cur[2] = None
                cur.append(e)
                continue
            b = strip(e.obj)
            if polys(e.obj) or b.op == "sub" and polys(b.args[0]):
                raise Give("store of a polygon")
            # another array built before it is appended: part of its content
            continue
        raise Give("polygons " + e.kind)
    res = []
    for c in out:
        e, node = c[0], c[1]
        ev.current = None
        v = ev.ev(node)
        ev.current = v
        for x in c[3:]:
            if isinstance(x, Node):
                continue
            if polys(x.obj):
                ev.memo.clear()
                v = ev.ev(x.value)
            else:
                v = ev.setitem(v, x.key, ev.ev(x.value), 0)
            ev.current = v
        res.append((e, v, c[3] if len(c) > 3 and isinstance(c[3], Node) else None))
    return res


def once_per_path(sc, ev, e, comp, pieces):
    """the append happens once for every parallel path (and every piece)"""
    its = [l for l in e.loops]
    got = []
    for site, itn, kind in its:
        if kind == "while":
            got.append("window")
            continue
        got.append(counted(ev, itn))
    if comp is not None:
        got.append(counted(ev, comp.args[2][0]))
    if any(g is None for g in got):
        raise Give("loops around the polygon")
    want = sorted((["n"] + pieces))
    if sorted(got) != want:
        raise Bad("a polygon is added for each of %s, not for each of %s" % (", ".join(sorted(got)) or "nothing", ", ".join(want)), e.where)


def counted(ev, itn):
    t = strip(ev.resolve(itn))
    if t.op == "call" and t.args[0] == "enumerate" and len(t.args[1]) == 1:
        t = strip(ev.resolve(t.args[1][0]))
    if t.op == "call" and t.args[0] == "range" and len(t.args[1]) in (1, 2):
        p = ev.count(t.args[1][-1])
        if len(t.args[1]) == 2:
            p = p - ev.count(t.args[1][0])
        if p == A("me.n"):
            return "n"
        if ev.pieces is not None and p == ev.pieces:
            return "pieces"
        d = p - A("me.n")
        if d.is_const() and d.t:
            return "n%+d" % d.cval()
        if ev.pieces is not None:
            d = p - ev.pieces
            if d.is_const() and d.t:
                return "pieces%+d" % d.cval()
    return None


def state(sc, case, ev, attr, default):
    fin = final_state(sc.res, case)
    if fin is None:
        raise Give("no return")
    n = fin[0].heap.get((sc.me, attr))
    if n is None:
        return default
    return n


def check_state(sc, case, ev, attr, want, what, probs_where):
    n = state(sc, case, ev, attr, None)
    if n is None:
        got = ev.world.reduce(A("me." + attr))
        if attr == "direction" and isinstance(sc.heading, str):
            got = sc.heading
    else:
        n = ev.resolve(n)
        got = direction_of(sc, ev, n) if attr == "direction" else ev.arr(n).data[()]
    if isinstance(want, tuple):
        name, num = want
        if isinstance(got, str):
            if got == name:
                return
            if name is not None:
                raise Bad("%s is %s, not %s" % (what, got, name), sc.f.where)
            if got in NAMED and equal(ev.world, NAMED[got][2], num):
                return
            raise Bad("%s is %s" % (what, got), sc.f.where)
        want = num
        # angles: any representation of the same direction
        d = ev.world.reduce(got - want) * pdiv(Poly.const(Fraction(1, 2)), PI)
        if d.is_const() and d.cval().denominator == 1:
            return
    if isinstance(got, str):
        raise Bad("%s is %s" % (what, got), sc.f.where)
    c = equal(ev.world, got, want)
    if c is False:
        raise Bad("%s is not %s" % (what, {"x": "where the section ends", "y": "where the section ends", "w": "half the final width", "distance": "the final distance", "direction": "the direction in which the section ends", "length": "increased by the length of the section"}[attr]), sc.f.where)
    if c is None:
        raise Give(what)


def direction_of(sc, ev, n):
    n = ev.resolve(n)
    if n.op == "const" and isinstance(n.args[1], str):
        return n.args[1]
    if n.op == "sub" and strip(n.args[0]).op == "gconst":
        lit = sc.it.literal(strip(n.args[0]))
        k = integer_of(ev, n.args[1])
        if isinstance(lit, (tuple, list)) and k is not None and -len(lit) <= k < len(lit):
            return lit[k]
        if isinstance(lit, dict) and k in lit:
            return lit[k]
        if isinstance(lit, (tuple, list)) and not isinstance(sc.heading, str) and all(isinstance(x, str) for x in lit):
            raise Bad("the direction becomes one of four names although it is any angle", sc.f.where)
        raise Unsupported("direction")
    return ev.arr(n).data[()]


def integer_of(ev, n):
    """number of an index known exactly"""
    n = strip(ev.resolve(n))
    if n.op == "bin" and n.args[0] == "%":
        a, b = integer_of(ev, n.args[1]), integer_of(ev, n.args[2])
        return a % b if a is not None and b else None
    if n.op == "bin" and n.args[0] in ("+", "-", "*", "//"):
        a, b = integer_of(ev, n.args[1]), integer_of(ev, n.args[2])
        if a is not None and b is not None and (n.args[0] != "//" or b):
            return a + b if n.args[0] == "+" else a - b if n.args[0] == "-" else a * b if n.args[0] == "*" else a // b
    if n.op == "un" and n.args[0] == "-":
        a = integer_of(ev, n.args[1])
        return -a if a is not None else None
    if n.op == "call" and n.args[0] in ("abs", "numpy.abs", "numpy.fabs", "numpy.absolute") and n.args[1]:
        a = integer_of(ev, n.args[1][0])
        return abs(a) if a is not None else None
    if n.op == "call" and n.args[0] in ("int", "round", "numpy.round", "numpy.rint", "numpy.around") and n.args[1]:
        return integer_of(ev, n.args[1][0])
    v = ev.arr(n)
    p = v.data[()] if v.shape == () else None
    if p is not None and p.is_const() and p.cval().denominator == 1:
        return int(p.cval())
    if p is not None and p.is_const() and abs(p.cval() - round(p.cval())) < Fraction(1, 10 ** 6):
        return int(round(p.cval()))
    return None


# -- what is expected ------------------------------------------------------------


def along(a, b):
    return a * (ONE - S) + b * S


def offset(d):
    """of parallel path i at distance d"""
    return (A("i") - (A("me.n") - ONE) * HALF) * d


def targets(kinds):
    w0, d0 = A("me.w"), A("me.distance")
    w1 = A("final_width") * HALF if kinds["final_width"] == "number" else w0
    d1 = A("final_distance") if kinds["final_distance"] == "number" else d0
    return w0, w1, d0, d1


RANGES = {
    "me.x": uniform(-5, 5), "me.y": uniform(-5, 5), "me.w": uniform(0.1, 2), "final_width": uniform(0.1, 4), "me.distance": uniform(0.1, 5),
    "final_distance": uniform(0.1, 5), "me.n": integer(1, 5), "i": lambda rng, env: rng.randint(0, 4), "length": uniform(0.1, 9), "axis_offset": uniform(-3, 3),
    "direction": uniform(-3, 3), "me.direction": uniform(-3, 3), "me.length": uniform(0, 9), "radius": uniform(0.1, 20), "tolerance": uniform(0.001, 0.1),
    "N": integer(8, 90), "max_points": integer(0, 60),
}


def widths(kinds):
    """values for zero widths"""
    for z0 in (False, True):
        for z1 in ((False, True) if kinds["final_width"] == "number" else (z0,)):
            v = {}
            if z0:
                v["me.w"] = ZERO
            if z1 and kinds["final_width"] == "number":
                v["final_width"] = ZERO
            yield z0, z1, v


def run_cases(sc, fn, limit=200):
    """fn(case) for all outcomes of the conditions that are not decided"""
    save = geometry.Case
    geometry.Case = PCase
    try:
        geometry.cases(sc.it, fn, limit)
    finally:
        geometry.Case = save


def combos(**opts):
    out = [{}]
    for k, vs in opts.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def segment(prog, cls, f, rec):
    for dirn in (None, "+x", "-x", "+y", "-y", "number"):
        for head in (("+x", "-x", "+y", "-y", None) if dirn is None else (None,)):
            for k in combos(final_width=("none", "number"), final_distance=("none", "number")):
                kinds = dict(k, length="number", axis_offset="number")
                args = {p: (None if kinds[p] == "none" else 0) for p in k}
                if dirn is None:
                    kinds["direction"] = "none"
                    args["direction"] = None
                elif dirn == "number":
                    kinds["direction"] = "number"
                else:
                    args["direction"] = dirn
                sc = Setting(prog, cls, f, args, head, kinds)
                rec.saw(sc.it)
                name = dirn if dirn in NAMED else (head if dirn is None else None)
                if name:
                    ca, sa, ang = Poly.const(NAMED[name][0]), Poly.const(NAMED[name][1]), NAMED[name][2]
                else:
                    ang = A("direction") if dirn == "number" else A("me.direction")
                    ca, sa = Poly.atom(("cos", ang)), Poly.atom(("sin", ang))
                for z0, z1, vals in widths(kinds):
                    rec.n += 1

                    def one(case):
                        world = World(vals, RANGES)
                        ev = REval(sc, case, world)
                        case.ev = ev
                        L, O = A("length"), A("axis_offset")
                        x0, y0 = A("me.x"), A("me.y")
                        x1, y1 = x0 + L * ca + O * sa, y0 + L * sa - O * ca
                        w0, w1, d0, d1 = targets(kinds)
                        check_state(sc, case, ev, "x", x1, "the new position", f)
                        check_state(sc, case, ev, "y", y1, "the new position", f)
                        check_state(sc, case, ev, "direction", (name, ang), "the new direction", f)
                        check_state(sc, case, ev, "w", w1, "the new width", f)
                        check_state(sc, case, ev, "distance", d1, "the new distance", f)
                        check_state(sc, case, ev, "length", A("me.length") + Poly.atom(("pow", L * L + O * O, HALF)), "the length of the path", f)
                        got = outline(sc, case, ev)
                        if z0 and z1:
                            return
                        if len(got) != 1:
                            raise Bad("%d polygons are added for each parallel path" % len(got), f.where)
                        e, v, comp = got[0]
                        once_per_path(sc, ev, e, comp, [])
                        xs, ys = along(x0, x1), along(y0, y1)

                        def edge(sg):
                            k = along(offset(d0) + w0 * sg, offset(d1) + w1 * sg)
                            return pair(xs + k * sa, ys - k * ca)

                        up, down = edge(ONE), edge(-ONE)
                        want = [side(up), side(pmap(down, lambda p: subst(p, {"s": ONE - S})))]
                        c = match(world, as_rows(v).blocks, want, [z1, z0])
                        if c is False:
                            raise Bad("the polygon is not the strip of the width and offset asked for between both ends (direction %s, %s)" % (name or "angle", text(kinds, z0, z1)), e.where)
                        if c is None:
                            raise Give("outline")

                    rec.guard(sc, one)


def text(kinds, z0, z1):
    return "starting %s, ending %s" % ("without width" if z0 else "with a width", "without width" if z1 else "with a width") + (", new distance" if kinds["final_distance"] == "number" else "")


PIECES = ("only", "first", "middle", "last")


def arc_world(vals, where, pieces, extra):
    """pieces: atom of the number of pieces; where the piece jj is"""
    v = dict(vals)
    r = dict(RANGES)
    r.update(extra)
    P = pieces if isinstance(pieces, str) else "pieces"
    if where == "only":
        v[P] = ONE
        v["jj"] = ZERO
    elif where == "first":
        v["jj"] = ZERO
        r[P] = integer(2, 9)
    elif where == "last":
        v["jj"] = A(P) - ONE
        r[P] = integer(2, 9)
    else:
        r[P] = integer(3, 9)
        r["jj"] = lambda rng, env: rng.randint(1, env[P] - 2)
    return World(v, r)


def check_arc(sc, case0, kinds, vals, z0, z1, ia, fa, heading, f, extra, named=None, places=PIECES):
    """the section between two angles; ia and fa as polynomials"""
    R = A("radius")
    x0, y0 = A("me.x"), A("me.y")
    cx, cy = x0 - R * trig("cos", ia), y0 - R * trig("sin", ia)
    w0, w1, d0, d1 = targets(kinds)
    # the pieces are counted by one unknown
    for where in places:
        world = arc_world(vals, where, None, extra)
        ev = REval(sc, case0, world)
        case0.ev = ev
        find_pieces(sc, case0, ev)
        if ev.pieces is not None and not ev.pieces.is_const():
            at = [a for a in ev.pieces.atoms()]
            if len(at) != 1 or not isinstance(at[0], str) or ev.pieces != A(at[0]):
                raise Give("number of pieces")
            world = arc_world(vals, where, at[0], extra)
            ops = ev.opaques
            for a, fn in ev.world.ranges.items():
                world.ranges.setdefault(a, fn)
            pc = ev.pieces
            ev = REval(sc, case0, world)
            ev.opaques = ops
            ev.pieces = world.reduce(pc)
            case0.ev = ev
        elif ev.pieces is not None and ev.pieces != ONE:
            raise Give("number of pieces")
        elif where != "only":
            continue
        P = ev.pieces if ev.pieces is not None else ONE
        if where == "only":
            check_state(sc, case0, ev, "x", cx + R * trig("cos", fa), "the new position", f)
            check_state(sc, case0, ev, "y", cy + R * trig("sin", fa), "the new position", f)
            check_state(sc, case0, ev, "direction", (named, heading), "the new direction", f)
            check_state(sc, case0, ev, "w", w1, "the new width", f)
            check_state(sc, case0, ev, "distance", d1, "the new distance", f)
        lens = live(sc, case0, lambda e: e.kind in ("store", "augattr") and e.attr == "length" and strip(e.obj) is sc.me and e.kind == "store")
        J = world.reduce(A("jj"))
        t0, t1 = pdiv(J, P), pdiv(J + ONE, P)
        if len(lens) != 1:
            raise (Bad("the length of the path is set %d times" % len(lens), f.where) if not lens else Give("length"))
        e = lens[0]
        inc = ev.arr(e.value).data[()] - A("me.length")
        if [l for l in e.loops]:
            if [counted(ev, l[1]) if l[2] != "while" else None for l in e.loops] != ["pieces"]:
                raise Give("length")
            want = (fa - ia) * R * (t1 - t0)
        else:
            want = (fa - ia) * R
        want = Poly.atom(("abs", want))
        c = equal(world, inc, want)
        if c is not True:
            raise (Bad("the length of the path is not increased by that of the arc", e.where) if c is False else Give("length"))
        got = outline(sc, case0, ev)
        if z0 and z1:
            continue
        if len(got) != 1:
            raise Bad("%d polygons are added for each parallel path" % len(got), f.where)
        e, v, comp = got[0]
        once_per_path(sc, ev, e, comp, ["pieces"] if ev.pieces is not None else [])

        def lin(a, b, t):
            return a * (ONE - t) + b * t

        ang = along(lin(ia, fa, t0), lin(ia, fa, t1))

        def edge(sg):
            r = R + along(offset(lin(d0, d1, t0)) + lin(w0, w1, t0) * sg, offset(lin(d0, d1, t1)) + lin(w0, w1, t1) * sg)
            return pair(cx + r * trig("cos", ang), cy + r * trig("sin", ang))

        up, down = edge(ONE), edge(-ONE)
        want = [side(up), side(pmap(down, lambda p: subst(p, {"s": ONE - S})))]
        at_start = not world.reduce(lin(w0, w1, t0)).t
        at_end = not world.reduce(lin(w0, w1, t1)).t
        b = as_rows(v).blocks
        size = sum((x.rows for x in b), ZERO)
        c = match(world, b, want, [at_end, at_start])
        if c is False:
            raise Bad("the polygon is not the piece of the ring of the width and offset asked for between both angles (%s piece, %s)" % (where, text(kinds, z0, z1)), e.where)
        if c is None:
            raise Give("outline")


def find_pieces(sc, case, ev):
    """the loop over the pieces of an arc"""
    for e in sc.res.effects:
        if e.kind == "mcall" and e.name in ("append", "extend"):
            for site, itn, kind in e.loops:
                if kind == "while":
                    continue
                t = strip(ev.resolve(itn))
                if t.op == "call" and t.args[0] == "enumerate":
                    t = strip(ev.resolve(t.args[1][0]))
                if t.op == "call" and t.args[0] == "range" and len(t.args[1]) == 1:
                    p = ev.count(t.args[1][0])
                    if p != A("me.n"):
                        ev.pieces = p
                        return


def arc_kinds():
    for k in combos(final_width=("none", "number"), final_distance=("none", "number")):
        yield k


def arc(prog, cls, f, rec):
    for k in arc_kinds():
        kinds = dict(k, radius="number", initial_angle="number", final_angle="number", tolerance="number", max_points="number")
        args = {p: (None if kinds[p] == "none" else 0) for p in k}
        sc = Setting(prog, cls, f, args, None, kinds)
        rec.saw(sc.it)
        for z0, z1, vals in widths(kinds):
            for sense in (1, -1):
                rec.n += 1
                extra = {"initial_angle": uniform(-4, 4), "sweep": uniform(0.2, 6), "final_angle": lambda rng, env, s=sense: env["initial_angle"] + s * env["sweep"]}
                ia, fa = A("initial_angle"), A("final_angle")

                def one(case):
                    check_arc(sc, case, kinds, vals, z0, z1, ia, fa, fa + PI * HALF * Poly.const(sense), f, extra)

                rec.guard(sc, one)


def turn(prog, cls, f, rec):
    for ang in ("r", "l", "rr", "ll", 1, -1):
        for head in ("+x", "-x", "+y", "-y", None):
            for k in arc_kinds():
                if head and len(set(k.values())) > 1:
                    continue
                kinds = dict(k, radius="number", tolerance="number", max_points="number")
                args = {p: (None if kinds[p] == "none" else 0) for p in k}
                if isinstance(ang, str):
                    args["angle"] = ang
                    delta = TURNS[ang]
                    sense = 1 if ang[0] == "l" else -1
                    extra = {}
                else:
                    kinds["angle"] = "number"
                    delta = A("angle")
                    sense = ang
                    extra = {"angle": lambda rng, env, s=sense: s * rng.uniform(0.2, 6)}
                sc = Setting(prog, cls, f, args, head, kinds)
                rec.saw(sc.it)
                h = NAMED[head][2] if head else A("me.direction")
                ia = h - PI * HALF * Poly.const(sense)
                fa = ia + delta
                named = None
                if head and isinstance(ang, str):
                    q = (h + delta) * pdiv(Poly.const(2), PI)
                    named = ("+x", "+y", "-x", "-y")[int(q.cval()) % 4]
                for z0, z1, vals in widths(kinds):
                    if head and (z0 or z1):
                        continue
                    rec.n += 1

                    def one(case):
                        check_arc(sc, case, kinds, vals, z0, z1, ia, fa, h + delta, f, extra, named, PIECES if head is None and not isinstance(ang, str) else PIECES[:1])

                    rec.guard(sc, one)


def windows(sc, case, kinds, vals, z0, z1, relative, quotient, f):
    """parametric sections: samples of a curve, drawn in windows of rows"""
    done = None
    for where in PIECES:
        vs, rs = dict(vals), dict(RANGES)
        world = World(vs, rs)
        ev = REval(sc, case, world)
        ev.strict = True
        case.ev = ev
        for c, p in case.dec:
            if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "=="):
                try:
                    d = ev.arr(c.args[1]).data[()] - ev.arr(c.args[2]).data[()]
                except (Unsupported, Fork, KeyError):
                    continue
                sg = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {1, 0}, "==": {0}}[c.args[0]]
                world.limit(d, sg if p else {-1, 0, 1} - sg)
        if not world.possible():
            return
        base = (A("me.x"), A("me.y")) if relative else (ZERO, ZERO)

        def curve(u):
            return tuple(A(("fn:curve_function.%d" % j, u)) + base[j] for j in (0, 1))

        def rate(u, k=None):
            if quotient:
                return A("@rate.0"), A("@rate.1")
            return A(("fn:curve_derivative.0", u)), A(("fn:curve_derivative.1", u))

        def amount(name, attr, u, half):
            k = kinds[name]
            a = A("me." + attr)
            if k == "none":
                return a
            b = A(name) if k == "number" else A(("fn:" + name, u))
            b = b * HALF if half else b
            return b if k == "callable" else a + (b - a) * u

        if where == "only":
            e1 = curve(ONE)
            check_state(sc, case, ev, "x", e1[0], "the new position", f)
            check_state(sc, case, ev, "y", e1[1], "the new position", f)
            check_state(sc, case, ev, "w", amount("final_width", "w", ONE, True), "the new width", f)
            check_state(sc, case, ev, "distance", amount("final_distance", "distance", ONE, False), "the new distance", f)
            last = Block(A("N"), pair(*rate(A("@u")))).at(A("N") - ONE).data
            check_state(sc, case, ev, "direction", (None, A(("atan2", last[(1,)], last[(0,)]))), "the new direction", f)
            a, b = [[A(("fn:curve_function.%d" % j, A("@%r|u" % k))) for j in (0, 1)] for k in (ONE, ZERO)]
            step = Poly.atom(("pow", (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]), HALF))
            check_state(sc, case, ev, "length", A("me.length") + A(("fn:sum", step, A("N") - ONE)), "the length of the path", f)
            if not getattr(sc, "sampled", False):
                samples(sc, case, ev, f)
                sc.sampled = True
            if quotient:
                quotients(ev, f)
        apps = [e for e in polygon_effects(sc, case)[0] if e.kind == "mcall" and e.name == "append"]
        wl = {l[0] for e in apps for l in e.loops if l[2] == "while"}
        if len(wl) != 1:
            raise Give("windows")
        wl = list(wl)[0]
        conds = [g for e in apps for g, p in e.guards if p and g.op == "cmp" and (g.args[1].op == "loopv" or g.args[2].op == "loopv")]
        if not conds:
            raise Give("windows")
        i0 = conds[-1].args[1] if conds[-1].args[1].op == "loopv" else conds[-1].args[2]
        if not i0.info or "next" not in i0.info or not isinstance(i0.args[1], str):
            raise Give("windows")
        I0 = A(list(ev.opaque(i0).atoms())[0])
        nxt = ev.count(i0.info["next"])
        I1 = nxt + ONE
        at = list(I1.atoms())
        if ev.count(i0.info["init"]) != ZERO:
            raise Bad("the first polygon does not start with the first point", f.where)
        if where == "only":
            d = ev.count(conds[-1].args[2]) - ev.count(conds[-1].args[1])
            if conds[-1].args[0] in (">", ">="):
                d = -d
            if conds[-1].args[0] in ("<=", ">="):
                d = d + ONE
            if conds[-1].args[0] not in ("<", "<=", ">", ">=") or d != A("N") - ONE - I0:
                dd = d - (A("N") - ONE - I0)
                if dd.is_const():
                    raise Bad("polygons are not added until the last point is reached", f.where)
                raise Give("windows")
        if len(at) != 1 or I1 != A(at[0]):
            if nxt.atoms() and len(nxt.t) == 1 and nxt == A(at[0]) and isinstance(at[0], tuple) and at[0][0] == "min":
                raise Bad("a polygon does not start with the last point of the one before", f.where)
            raise Give("windows")
        sg = ev.world.signs(A("N") - I1)
        if sg is None or not sg <= {0, 1}:
            raise Give("end of a window")
        sg = ev.world.signs(I1 - I0 - ONE)
        if sg is None or not sg <= {1}:
            raise Give("size of a window")
        wv, wr = dict(vals), dict(ev.world.ranges)
        i0n, i1n = list(I0.atoms())[0], at[0]
        w2 = World(wv, wr)
        w2.limits = list(world.limits)
        if where in ("only", "first"):
            wv[i0n] = ZERO
        else:
            wr[i0n] = lambda rng, env: rng.randint(1, env["N"] - 3)
        if where in ("only", "last"):
            wv[i1n] = A("N")
            for p in [subst(A(i1n), {i0n: wv[i0n]})] if i0n in wv else []:
                for x in p.atoms():
                    wv[x] = A("N")
        else:
            w2.limit(A("N") - I1, {1})
        if not w2.possible():
            continue
        ev2 = REval(sc, case, w2)
        ev2.strict = True
        ev2.opaques = ev.opaques
        case.ev = ev2
        got = outline(sc, case, ev2)
        if z0 and z1:
            if len(got) != 1:
                raise Give("polygons")
            continue
        if len(got) != 1:
            raise Bad("%d polygons are added for each parallel path" % len(got), f.where)
        e, v, comp = got[0]
        once_per_path(sc, ev2, e, comp, ["window"])
        u = A("@u")
        c = curve(u)
        t = rate(u)
        norm = Poly.atom(("pow", t[0] * t[0] + t[1] * t[1], HALF))
        off = (A("i") - (A("me.n") - ONE) * HALF) * amount("final_distance", "distance", u, False)
        wid = amount("final_width", "w", u, True)

        def edge(sgn):
            k = pdiv(off + wid * sgn, norm)
            return pair(c[0] - t[1] * k, c[1] + t[0] * k)

        first, lastg = w2.reduce(I0), w2.reduce(A("N") - I1)
        want = [(edge(ONE), None, None, False, (first, lastg)), (edge(-ONE), None, None, True, (first, lastg))]
        sharp = [z1 and where in ("only", "last"), z0 and where in ("only", "first")]
        r = match(w2, as_rows(v).blocks, want, sharp)
        if r is False:
            raise Bad("the polygon is not the strip of the width and offset asked for along the samples of the curve (%s window, %s)" % (where, text(kinds, z0, z1)), e.where)
        if r is None:
            raise Give("outline")


def samples(sc, case, ev, f):
    """points are added to all lists of samples together, between two others"""
    ins = {b: [] for b in ev.lists}
    pos = [b for b, v in ev.lists.items() if v.shape == () and v.data[()] == S]
    if len(pos) != 1:
        raise Give("lists of samples")

    def want(e):
        return e.kind in ("mcall", "storeitem", "delitem", "aug") and strip(e.recv if e.kind == "mcall" else e.obj) in ins

    for e in sc.res.effects:
        if not want(e) or id(e) in getattr(ev, "fills", ()):
            continue
        if e.kind != "mcall" or e.name != "insert" or len(e.args) != 2:
            if e.kind == "mcall" and e.name in ("index", "count", "copy"):
                continue
            raise Give("list of samples: " + e.kind)
        ins[strip(e.recv)].append(e)
    us = ins[pos[0]]
    for b, l in ins.items():
        if len(l) != len(us):
            raise Bad("a sample is not added to both the positions and the points", (l or us)[-1].where)
        for e, x in zip(l, us):
            if e.guards != x.guards or ev.count(e.args[0]) != ev.count(x.args[0]):
                raise Bad("a position and its point are not added at the same place", e.where)
            m = ev.arr(x.args[1]).data[()]
            v = ev.arr(e.args[1])
            w = pmap(ev.lists[b], lambda p: subst(p, {"s": m}))
            for k in w.data:
                q = equal(ev.world, v.data[k], w.data[k]) if k in v.data else None
                if q is not True:
                    raise (Bad("the point added is not that of the position added", e.where) if q is False else Give("sample"))
    for x in us:
        m = ev.arr(x.args[1]).data[()]
        i = ev.count(x.args[0])
        lo, hi = A("#%r:u" % (i - ONE)), A("#%r:u" % i)
        a, b = m.t.get(((list(lo.atoms())[0], 1),), 0), m.t.get(((list(hi.atoms())[0], 1),), 0)
        if len(m.t) != 2 or a + b != 1 or a <= 0 or b <= 0:
            raise (Bad("a sample is added at a position that is not between its neighbours", x.where) if all(isinstance(z, str) for z in m.atoms()) or outside(ev, m, lo, hi) else Give("position of a sample"))
        # added if the curve is further than the tolerance from the chord
        g = [(c, p) for c, p in x.guards if not (c.op == "cmp" and (c.args[1].op == "loopv" or c.args[2].op == "loopv"))]
        if len(g) != 1 or g[0][0].op != "cmp" or g[0][0].args[0] not in ("<", "<=", ">", ">="):
            raise Give("condition of a sample")
        c, p = g[0]
        d = ev.arr(c.args[1]).data[()] - ev.arr(c.args[2]).data[()]
        if c.args[0] in ("<", "<="):
            d = -d
        if not p:
            d = -d
        fm, fl, fh = [[A(("fn:curve_function.%d" % j, q)) for j in (0, 1)] for q in (m, lo, hi)]
        err = [(fl[j] + fh[j]) * HALF - fm[j] for j in (0, 1)]
        due = err[0] * err[0] + err[1] * err[1] - A("tolerance") * A("tolerance")
        for seed in range(40):
            env = Env(ev.world.env(seed))
            env["tolerance"] = random.Random(seed).uniform(0.001, 0.3)
            y = affine.value(due, env)
            z = affine.value(d, env)
            if abs(y) > 1e-6 and abs(z) > 1e-9 and (y > 0) != (z > 0):
                raise Bad("a sample is not added exactly where the curve is further from the chord than the tolerance", x.where)


def outside(ev, m, lo, hi):
    """the position is outside of its neighbours somewhere"""
    for seed in range(20):
        env = Env(ev.world.env(seed))
        rng = random.Random(seed)
        a, b = sorted((rng.uniform(0, 1), rng.uniform(0, 1)))
        env[list(lo.atoms())[0]], env[list(hi.atoms())[0]] = a, b
        try:
            v = affine.value(m, env)
        except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
            return False
        if v < a or v > b:
            return True
    return False


def quotients(ev, f):
    """difference quotients: towards larger u, at the position of the row"""
    if ev.rates is None:
        raise Give("difference quotient")
    for k, v in enumerate(ev.rates):
        for j in (0, 1):
            tot = ZERO
            mom = ZERO
            p = v.data[(j,)]
            for mono, c in p.t.items():
                if len(mono) != 1 or mono[0][1] != 1 or not isinstance(mono[0][0], tuple) or not mono[0][0][0].startswith("fn:curve_function"):
                    raise Give("difference quotient")
                a = mono[0][0]
                if a[0] != "fn:curve_function.%d" % j:
                    raise Bad("coordinates are exchanged in the direction of the curve", f.where)
                tot = tot + Poly.const(c)
                mom = mom + Poly.const(c) * a[1]
                near = a[1] - (ZERO, A("@u"), ONE)[k]
                for seed in range(4):
                    if abs(affine.value(near, ev.world.env(seed))) > 0.1:
                        raise Bad("the direction of the curve is taken at another position", f.where)
                s = ev.world.signs(near)
                if k == 0 and not (s and s <= {0, 1}) or k == 2 and not (s and s <= {0, -1}):
                    raise Bad("the curve is calculated outside of 0 to 1", f.where)
            if tot.t:
                raise Bad("the direction of the curve is not a difference of two points", f.where)
            if ev.world.sign(mom) != 1:
                raise Bad("the direction of the curve points backwards", f.where)


def parametric(prog, cls, f, rec):
    for k in combos(final_width=("none", "number", "callable"), final_distance=("none", "number", "callable")):
        for rel in (True, False):
            for quotient in (True, False):
                kinds = dict(k, curve_function="callable", curve_derivative="none" if quotient else "callable", tolerance="number", max_points="number")
                args = {p: (None if kinds[p] == "none" else 0) for p in k}
                args["relative"] = rel
                if quotient:
                    args["curve_derivative"] = None
                sc = Setting(prog, cls, f, args, None, kinds)
                rec.saw(sc.it)
                for z0, z1, vals in widths(kinds):
                    rec.n += 1

                    def one(case):
                        windows(sc, case, kinds, vals, z0, z1, rel, quotient, f)

                    rec.guard(sc, one)


class Recorder(object):
    def __init__(self, ctx, f):
        self.ctx, self.f, self.n, self.probs, self.gave = ctx, f, 0, {}, []

    def saw(self, it):
        self.ctx.saw(it.functions_seen)

    def guard(self, sc, one):
        def wrapped(case):
            try:
                one(case)
            except Bad as b:
                self.probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
            except (Give, Unsupported) as b:
                self.gave.append(str(b))

        try:
            run_cases(sc, wrapped)
        except Give as b:
            self.gave.append(str(b))
        except RecursionError:
            self.gave.append("recursion")


def sections(ctx):
    rule = "every section of a Path starts where the path ends, its polygons have the width and offset asked for, and the path ends where the section does"
    ctx.rule(rule)
    prog = ctx.prog
    cls = prog.need_class("Path")
    for name, fn in (("segment", segment), ("arc", arc), ("turn", turn), ("parametric", parametric)):
        f = prog.need_method("Path", name)
        rec = Recorder(ctx, f)
        fn(prog, cls, f, rec)
        if rec.probs:
            for m, w in sorted(rec.probs.items()):
                ctx.violation("section", "%s|%s" % (f.qualname, m.split(" (")[0]), w or f.where, m)
        elif rec.gave:
            ctx.unknown("section", f.where, "%s: %s" % (f.qualname, rec.gave[0]))
        else:
            ctx.ok("sections of Path", "%s: %s, %d kinds of arguments" % (f.where, f.qualname, rec.n))
