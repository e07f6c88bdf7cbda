"""Sections of paths: where they start and end, how widths and offsets change."""
from fractions import Fraction

from ..affine import Eval, Arr, Tup, Unsupported, scalar, pair, same_arr, to_arr, indices, broadcast, pmap
from ..flow import strip
from ..interp import Interp, State, Node, show, subnodes
from ..lin import Fork
from ..poly import Poly
from .geometry import Give, Bad, cases
from .parallel import depends

KINDS = ("none", "number", "list", "callable", "callables")
SEQNAMES = ("__iter__", "__getitem__", "__len__")
U = Poly.atom("u")
V = Poly.atom("v")     # 0..1 with the row of the start
ONE = Poly.const(1)


class Scenario(object):
    """one method analysed with known kinds of arguments"""

    planar = False    # x and y are kept separately

    def __init__(self, prog, cls, f, kinds, flags, inline=None):
        self.kinds, self.flags, self.f, self.names = kinds, flags, f, {}
        self.it = it = Interp(prog, assume=self.assume, inline=inline)
        self.me = it.mk("param", f.params()[0])
        args = {}
        for k, v in kinds.items():
            if v == "none":
                args[k] = it.NONE
        self.res = it.run(f, self_cls=cls, args=args, self_node=self.me)

    def assume(self, c, st):
        s = strip(c)
        if s.op == "attr" and s.args[1] in self.flags and strip(s.args[0]) is self.me:
            return self.flags[s.args[1]]
        if s.op == "attr" and s.args[1] in self.flags and strip(s.args[0]).op == "param":
            return self.flags[s.args[1]]
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            k = self.kind(c.args[1])
            if k is not None:
                return k == "none"
        if c.op == "call" and c.args[0] in ("hasattr", "callable", "isinstance", "numpy.isscalar", "builtins.callable"):
            k = self.kind(c.args[1][0])
            if k is None:
                return None
            if c.args[0] == "callable" or c.args[0] == "builtins.callable":
                return k == "callable"
            if c.args[0] == "numpy.isscalar":
                return k == "number"
            if c.args[0] == "hasattr":
                a = c.args[1][1]
                a = a.args[1] if a.op == "const" else None
                if a in SEQNAMES:
                    return k in ("list", "callables")
                if a == "__call__":
                    return k == "callable"
                return None
            names = set(x.args[0] if isinstance(x.args[0], str) else getattr(x.args[0], "name", "") for x in subnodes(c.args[1][1]) if x.op in ("ext", "cls"))
            if names & {"list", "tuple"}:
                return k in ("list", "callables")
            if names and names <= {"int", "float", "numbers.Number", "complex"}:
                return k == "number"
        return None

    def kind(self, n):
        """kind of an argument, or of an item of a list argument"""
        n = strip(n)
        if n.op == "param" and n.args[0] in self.kinds:
            return self.kinds[n.args[0]]
        if n.op == "sub" and strip(n.args[0]).op == "param" and n.args[1].op != "slice":
            k = self.kinds.get(strip(n.args[0]).args[0])
            return {"list": "number", "callables": "callable"}.get(k)
        return None


class PEval(Eval):
    """coordinates, widths and offsets of a section"""

    def __init__(self, sc, case, loop=None, final=None):
        Eval.__init__(self, sc.it, self.leafs, case.decide)
        self.sc, self.case, self.loop, self.final = sc, case, loop, final
        self.calls = {}

    # -- names -----------------------------------------------------------
    def mine(self, n):
        s = strip(n)
        if s.op == "attr" and strip(s.args[0]) is self.sc.me:
            return s.args[1]
        if s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][0] is self.sc.me:
            return s.args[1][1]
        if s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][1] == "$c":
            return self.mine(s.args[1][0])
        return None

    def number(self, k):
        """name of an index: 'i' for the number of the parallel path"""
        k = strip(k)
        if self.loop is not None and k.op in ("elem", "idx") and depends(k, self.loop):
            return "i"
        if k.op == "const":
            return str(k.args[1])
        return None

    def leafs(self, n):
        s = strip(n)
        if s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][1] == "$c":
            return self.ev(s.args[1][0])
        m = self.mine(n)
        if m in ("x", "y") and self.sc.planar:
            return scalar(Poly.atom("x0" if m == "x" else "x1"))
        if m == "x":
            if n.op == "ver":
                return None
            return pair(Poly.atom("x0"), Poly.atom("x1"))
        if s.op == "param":
            nm = s.args[0]
            if nm in ("u", "h", "$j"):
                return scalar(Poly.atom(nm))
            if nm in self.sc.kinds and self.sc.kinds[nm] == "number":
                return scalar(Poly.atom(nm))
            if nm in PAIRS:
                return pair(Poly.atom(nm + ".0"), Poly.atom(nm + ".1"))
            if nm in SCALARS:
                return scalar(Poly.atom(nm))
        if s.op == "call" and isinstance(s.args[0], Node):
            return self.called(s)
        if s.op == "loopv" and isinstance(s.args[1], str):
            return self.loop_scalar(s)
        if s.op == "mcall" and s.args[1] == "get" and len(s.args[2]) == 2:
            return self.ev(s.args[2][1]) if s.args[2][0] is s.args[2][1] else None
        if s.op == "call" and s.args[0] == "len" and self.mine(s.args[1][0]) == "paths":
            return scalar(Poly.atom("n"))
        if s.op == "call" and s.args[0] == "len":
            return scalar(self.rows_of(s.args[1][0]))
        if s.op == "sub" and strip(s.args[0]).op == "attr" and strip(s.args[0]).args[1] == "shape" and s.args[1].op == "const" and s.args[1].args[1] == 0:
            return scalar(self.rows_of(strip(s.args[0]).args[0]))
        return None

    # -- names of arrays ---------------------------------------------------
    def array(self, n):
        n = strip(self.resolve(n))
        t = show(n, 5)
        l = self.sc.names.setdefault(t, [])
        if n not in l:
            l.append(n)
        return t if l.index(n) == 0 else "%s#%d" % (t, l.index(n))

    def rows_of(self, n):
        n = strip(self.resolve(n))
        if n.op == "bin" and n.args[0] in ("+", "-", "*", "/"):
            for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                try:
                    if len(to_arr(self.ev(a)).shape) <= 1:
                        return self.rows_of(b)
                except Unsupported:
                    pass
        if n.op == "sub" and n.args[1].op == "slice":
            lo, hi, st = [self.resolve(x) if isinstance(x, Node) else None for x in n.args[1].args]
            k = [0 if x is None or (x.op == "const" and x.args[1] is None) else (x.args[1] if x.op == "const" else None) for x in (lo, hi)]
            if st is None or st.op == "const" and st.args[1] is None:
                if k[0] is not None and k[1] is not None and k[0] >= 0 and k[1] <= 0:
                    return self.rows_of(n.args[0]) - Poly.const(k[0]) + Poly.const(k[1])
        return Poly.atom("rows(%s)" % self.array(n))

    def loop_scalar(self, s):
        if s.info and "next" in s.info:
            try:
                if self.arr(s.info["init"]).shape == ():
                    return scalar(Poly.atom("loop:" + s.args[1]))
            except (Unsupported, Fork, KeyError):
                pass
        return None

    def called(self, s):
        t = strip(s.args[0])
        while t.op == "ite":
            t = strip(self.resolve(t))
        if t.op == "closure":
            return self.ev(self.apply(t, s.args[1]))
        args = [self.arr(a) for a in s.args[1]]
        if any(a.shape != () for a in args):
            raise Unsupported("call " + show(s, 3))
        ps = tuple(a.data[()] for a in args)
        if t.op == "param":
            nm = t.args[0]
        elif t.op == "sub" and strip(t.args[0]).op == "param":
            i = self.number(t.args[1])
            if i is None:
                raise Unsupported("call " + show(s, 3))
            nm = "%s[%s]" % (strip(t.args[0]).args[0], i)
        else:
            raise Unsupported("call " + show(s, 3))
        base = nm.split("[")[0]
        at = "%s(%s)" % (nm, ", ".join(repr(p) for p in ps))
        self.calls[at] = (nm, ps)
        if base in ("width", "offset"):
            return scalar(Poly.atom(at))
        return pair(Poly.atom(at + ".0"), Poly.atom(at + ".1"))

    def apply(self, clo, args):
        it = self.sc.it
        c = it.closures[clo]
        st = State({}, dict(self.final.heap), ())
        return it.call_node(clo, list(args), {}, st, c.frame, c.func.node)

    # -- rows of arrays of points -----------------------------------------
    def index(self, obj, k, d):
        o = self.resolve(obj)
        m = self.mine(o)
        if m in ("widths", "offsets"):
            i = self.number(k)
            if i is None:
                raise Unsupported("index " + show(k, 3))
            if o.op == "ver":
                c = o.args[1]
                while c.op == "upd":
                    if c.args[1] == "setitem" and self.number(c.args[2][0]) == i:
                        return self.ev(c.args[2][1], d)
                    c = c.args[0]
            return scalar(Poly.atom("%s[%s]" % (m, i)))
        s = strip(o)
        if s.op == "param" and s.args[0] in self.sc.kinds:
            i = self.number(k)
            if i is None:
                raise Unsupported("index " + show(k, 3))
            return scalar(Poly.atom("%s[%s]" % (s.args[0], i)))
        kk = self.resolve(k)
        if m == "points" and (kk.op == "const" and kk.args[1] == -1 or kk.op == "un" and kk.args[0] == "-" and kk.args[1].op == "const" and kk.args[1].args[1] == 1):
            return pair(Poly.atom("x0"), Poly.atom("x1"))
        if kk.op == "const" and isinstance(kk.args[1], int):
            try:
                return Eval.index(self, obj, k, d)
            except Unsupported:
                return self.row(obj, ("row", kk.args[1]))
        if kk.op == "un" and kk.args[0] == "-" and kk.args[1].op == "const":
            try:
                return Eval.index(self, obj, k, d)
            except Unsupported:
                return self.row(obj, ("row", -kk.args[1].args[1]))
        if kk.op in ("elem", "idx", "loopv", "bin", "param"):
            b = strip(o)
            if b.op in ("sub", "attr", "call", "param", "bin", "mcall", "loopv"):
                return pair(*[Poly.atom("%s[%s].%d" % (self.array(b), self.array(kk), q)) for q in (0, 1)])
        return Eval.index(self, obj, k, d)

    def row(self, n, j):
        """row j of an array; j = ('row', int) counted from the start (or the
        end when negative) or ('j', int): a symbolic row plus an integer"""
        n = strip(self.resolve(n))
        if n.op == "bin" and n.args[0] in ("+", "-", "*", "/"):
            return self.binop(n.args[0], self.row_or_const(n.args[1], j), self.row_or_const(n.args[2], j))
        if n.op == "un" and n.args[0] == "-":
            return pmap(to_arr(self.row(n.args[1], j)), lambda p: -p)
        if n.op == "sub" and n.args[1].op == "slice":
            lo, hi, st = [self.resolve(x) if isinstance(x, Node) else x for x in n.args[1].args]
            iv = []
            for x in (lo, hi, st):
                v = None
                if x is not None and x.op == "const":
                    v = x.args[1]
                elif x is not None and x.op == "un" and x.args[0] == "-" and x.args[1].op == "const":
                    v = -x.args[1].args[1]
                elif x is not None:
                    raise Unsupported("slice")
                iv.append(v)
            lo, hi, st = iv
            if st not in (None, 1):
                raise Unsupported("slice step")
            if self.mine(n.args[0]) == "points" and lo == -1 and hi is None and j[0] == "row" and j[1] in (0, -1):
                return pair(Poly.atom("x0"), Poly.atom("x1"))
            if j[0] == "j" or j[1] >= 0:
                if (lo or 0) < 0 or (hi is not None and hi >= 0):
                    raise Unsupported("slice")
                return self.row(n.args[0], (j[0], j[1] + (lo or 0)))
            if hi is not None and hi >= 0:
                raise Unsupported("slice")
            return self.row(n.args[0], (j[0], j[1] + (hi or 0)))
        if n.op == "call" and n.args[0] in ("numpy.vstack", "numpy.concatenate", "numpy.row_stack"):
            t = strip(self.resolve(n.args[1][0]))
            if t.op in ("tuple", "list") and j[0] == "row":
                parts = list(t.args[0])
                if j[1] >= 0:
                    k = j[1]
                    for x in parts:
                        c = self.nrows(x)
                        if c is None:
                            return self.row_of(x, ("row", k))
                        if k < c:
                            return self.row_of(x, ("row", k))
                        k -= c
                else:
                    k = j[1]
                    for x in reversed(parts):
                        c = self.nrows(x)
                        if c is None:
                            return self.row_of(x, ("row", k))
                        if -k <= c:
                            return self.row_of(x, ("row", k))
                        k += c
            if j[0] == "j":
                return pair(*[Poly.atom("%s[j%+d].%d" % (self.array(n), j[1], q)) for q in (0, 1)])
            raise Unsupported("rows of " + show(n, 3))
        if n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "list", "tuple"):
            return self.row(n.args[1][0], j)
        if n.op in ("tuple", "list"):
            if j[0] != "row":
                raise Unsupported("row")
            try:
                return to_arr(self.ev(n.args[0][j[1]]))
            except IndexError:
                raise Unsupported("row")
        if n.op == "loopv" and isinstance(n.args[1], str) and j[0] in ("j", "row"):
            if (j[0] == "row" and j[1] == 0):
                b = self.casteljau(n)
                if b is not None:
                    return b
        if n.op in ("param", "loopv", "attr", "sub", "mcall"):
            return pair(*[Poly.atom("%s[%s].%d" % (self.array(n), ("j%+d" % j[1]) if j[0] == "j" else j[1], q)) for q in (0, 1)])
        raise Unsupported("row of " + show(n, 3))

    def row_of(self, x, j):
        """x is an item of a vstack: one row or several"""
        v = None
        try:
            v = to_arr(self.ev(x))
        except Unsupported:
            return self.row(x, j)
        if len(v.shape) == 1:
            return v
        if len(v.shape) == 2 and v.shape[0] != "N":
            return self.take(v, [j[1]])
        return self.row(x, j)

    def row_or_const(self, n, j):
        try:
            v = to_arr(self.ev(n))
            if len(v.shape) <= 1:
                return v
        except Unsupported:
            pass
        s = strip(self.resolve(n))
        if s.op == "bin" and s.args[0] in ("+", "-", "*"):
            return self.binop(s.args[0], self.row_or_const(s.args[1], j), self.row_or_const(s.args[2], j))
        if s.op == "sub" and strip(s.args[0]).op == "attr" and strip(s.args[0]).args[1] == "shape" or s.op == "call" and s.args[0] == "len":
            b = strip(s.args[0]).args[0] if s.op == "sub" else s.args[1][0]
            return scalar(self.rows_of(b))
        return to_arr(self.row(n, j))

    def nrows(self, x):
        if self.last_point(x):
            return 1
        try:
            v = to_arr(self.ev(x))
        except Unsupported:
            return None
        if len(v.shape) == 1:
            return 1
        if v.shape[0] == "N":
            return None
        return v.shape[0]

    def last_point(self, x):
        """points[-1:]"""
        x = strip(self.resolve(x))
        if x.op == "sub" and self.mine(x.args[0]) == "points" and x.args[1].op == "slice":
            lo, hi, st = [self.resolve(y) if isinstance(y, Node) else None for y in x.args[1].args]
            none = lambda y: y is None or y.op == "const" and y.args[1] is None
            if none(hi) and none(st) and lo is not None and (lo.op == "const" and lo.args[1] == -1 or lo.op == "un" and lo.args[0] == "-" and lo.args[1].op == "const" and lo.args[1].args[1] == 1):
                return True
        return False

    def count(self, n):
        """a number of rows, as a polynomial"""
        n = strip(self.resolve(n))
        if n.op == "const":
            return Poly.const(n.args[1])
        if n.op == "bin" and n.args[0] in ("+", "-"):
            a, b = self.count(n.args[1]), self.count(n.args[2])
            return a + b if n.args[0] == "+" else a - b
        if n.op == "sub" and strip(n.args[0]).op == "attr" and strip(n.args[0]).args[1] == "shape":
            return self.rows_of(strip(n.args[0]).args[0])
        if n.op == "call" and n.args[0] == "len":
            return self.rows_of(n.args[1][0])
        raise Unsupported("count " + show(n, 3))

    def casteljau(self, p):
        """value of p[0] after `for _ in range(len(ctrl) - 1): p = p[1:] * u + p[:-1] * (1 - u)`"""
        nx, init = (p.info or {}).get("next"), (p.info or {}).get("init")
        if nx is None or init is None:
            return None
        src, kind = self.sc.it.loop_iters.get(p.args[0], (None, None))
        if kind != "for" or strip(src).op != "call" or strip(src).args[0] != "range" or len(strip(src).args[1]) != 1:
            raise Unsupported("loop of " + show(p, 3))
        trips = self.count(strip(src).args[1][0])
        ctrl = strip(self.resolve(init))
        r = to_arr(self.row(nx, ("j", 0)))
        want = []
        for q in (0, 1):
            pj = [Poly.atom("%s[j%+d].%d" % (self.array(p), k, q)) for k in (0, 1)]
            want.append((r.data[(q,)], pj))
        u = None
        for e, pj in want:
            c = [coef(e, x) for x in pj]
            if e != c[0] * pj[0] + c[1] * pj[1]:
                raise Bad("a Bezier section is not a combination of neighbouring control points: %r" % e, None)
            if c[0] + c[1] != ONE:
                raise Bad("the weights of a Bezier section add up to %r" % (c[0] + c[1]), None)
            if u is not None and u != c[1]:
                raise Bad("coordinates of a Bezier section use different parameters", None)
            u = c[1]
        if trips != self.rows_of(ctrl) - ONE:
            raise Bad("a Bezier section combines %r times, not once for each control point but one" % trips, None)
        if u == Poly.const(0):
            return to_arr(self.row(ctrl, ("row", 0)))
        if u == ONE:
            return to_arr(self.row(ctrl, ("row", -1)))
        at = "bezier<%s>(%r)" % (self.array(ctrl), u)
        self.calls[at] = ("bezier", (ctrl, u))
        return pair(Poly.atom(at + ".0"), Poly.atom(at + ".1"))


PAIRS = ("end_point",)
SCALARS = ("radius", "initial_angle", "final_angle", "angle")


def coef(p, atom):
    """coefficient of an atom (to the first power)"""
    (k, _), = atom.t.items()
    a = k[0][0]
    out = Poly()
    for m, v in p.t.items():
        d = dict(m)
        if d.get(a) == 1:
            del d[a]
            out = out + Poly({tuple(sorted(d.items(), key=repr)): v})
    return out


def at(p, name, value):
    """substitute a polynomial for an atom, also inside cos and sin"""
    out = Poly()
    for m, v in p.t.items():
        t = Poly.const(v)
        for a, e in m:
            if a == name:
                b = value
            elif isinstance(a, tuple) and a[0] in ("cos", "sin"):
                b = Poly.atom((a[0], at(a[1], name, value)))
            else:
                b = Poly.atom(a)
            if e < 0:
                b = b.monomial_inv()
                if b is None:
                    raise Unsupported("division")
            for _ in range(abs(e)):
                t = t * b
        out = out + t
    return out


def derivative(p, name):
    out = Poly()
    for m, v in p.t.items():
        for i, (a, e) in enumerate(m):
            if a == name:
                da = ONE
            elif isinstance(a, tuple) and a[0] in ("cos", "sin"):
                da = Poly.atom(("sin" if a[0] == "cos" else "cos", a[1])) * derivative(a[1], name)
                if a[0] == "cos":
                    da = -da
            elif isinstance(a, str) and "(" in a and name in a:
                raise Unsupported("derivative of " + a)
            else:
                continue
            rest = Poly({tuple(x if k != i else (a, e - 1) for k, x in enumerate(m) if k != i or e != 1): v * e})
            out = out + rest * da
    return out


def profile_spec(arg, kind, old):
    """value along the section a caller asks for"""
    if kind == "none":
        return old
    if kind == "number":
        return old * (ONE - U) + arg * U
    return None


PAIRFN = ("curve_function", "curve_derivative")


def live_effects(res, case, want):
    """effects in order whose guards hold on this path"""
    out = []
    for e in res.effects:
        if not want(e):
            continue
        ok = True
        for g, p in e.guards:
            if any(depends(g, l[0]) for l in e.loops):
                continue
            d = case.decide(g)
            if d is None:
                raise Fork(g)
            if d != p:
                ok = False
                break
        if ok:
            out.append(e)
    return out


def final_state(res, case):
    got = None
    for gs, st, v in res.returns:
        ok = True
        for g, p in gs:
            d = case.decide(g)
            if d is None:
                raise Fork(g)
            if d != p:
                ok = False
                break
        if ok:
            got = (st, v)
    return got


def sites(e):
    return tuple(l[0] for l in e.loops)


def per_path_loop(sc, e, recv):
    """site of the loop over the parallel paths that selects `recv`"""
    me = sc.me

    def mine(n, attr):
        s = strip(n)
        while s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][1] == "$c":
            s = strip(s.args[1][0])
        return (s.op == "attr" and strip(s.args[0]) is me and s.args[1] == attr) or (s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1] == (me, attr))

    s = strip(recv)
    l = e.loops[-1] if e.loops else None
    if s.op == "sub" and mine(s.args[0], "paths"):
        k = strip(s.args[1])
        if k.op == "const":
            raise Bad("a section is added to parallel path %s only" % (k.args[1],), e.where)
    elif s.op == "elem":
        k = s
    elif s.op == "sub" and strip(s.args[0]).op == "elem":
        k = strip(s.args[0])
    else:
        raise Give("receiver " + show(recv, 3))
    for l in reversed(e.loops):
        if depends(k, l[0]):
            break
    else:
        raise Give("no loop over the parallel paths")
    if l[1] is None:
        raise Give("while loop")
    it = strip(l[1])
    per = ("paths", "widths", "offsets", "layers", "datatypes", "ends")

    def full(n):
        n = strip(n)
        if any(mine(n, a) for a in per):
            return True
        if n.op == "call" and n.args[0] in ("enumerate", "list", "tuple", "iter", "reversed") and len(n.args[1]) == 1:
            return full(n.args[1][0])
        if n.op == "call" and n.args[0] == "zip":
            return all(full(x) for x in n.args[1])
        if n.op == "call" and n.args[0] == "range":
            a = n.args[1]
            if len(a) == 2 and a[0].op == "const" and a[0].args[1] == 0:
                a = a[1:]
            if len(a) != 1:
                return None if len(a) != 2 else False
            x = strip(a[0])
            if mine(x, "n") or (x.op == "call" and x.args[0] == "len" and len(x.args[1]) == 1 and full(x.args[1][0])):
                return True
            if x.op == "bin" or x.op == "const":
                return False
        return None

    f = full(it)
    if f is False:
        raise Bad("sections are added for %s, not for every parallel path" % show(it, 4), e.where)
    if f is None:
        raise Give("loop over " + show(it, 4))
    for g, p in e.guards:
        if depends(g, l[0]):
            raise Bad("a section is added only to the parallel paths with %s" % show(g, 4), e.where)
    return l[0]


def approx(a, b, what, where):
    r = same_arr(a, b)
    if r is False:
        raise Bad(what, where)
    if r is None:
        raise Give(what)


def robust_method(ctx, sc, probs, gave, n):
    it, res, f = sc.it, sc.res, sc.f

    def one(case):
        try:
            n[0] += 1
            fin = final_state(res, case)
            if fin is None:
                return
            fin = fin[0]
            apps = []
            for e in live_effects(res, case, lambda e: e.kind == "mcall" and e.name == "append" and len(e.args) == 1 and strip(e.args[0]).op == "new"):
                apps.append(e)
            xs = live_effects(res, case, lambda e: e.kind == "store" and e.attr == "x" and strip(e.obj) is sc.me)
            if not apps:
                raise Bad("no section is added", f.where)
            groups = {}
            for e in apps:
                loop = per_path_loop(sc, e, e.recv)
                outer = tuple(s for s in sites(e) if s != loop)
                groups.setdefault(outer, []).append((e, loop))
            for outer, es in groups.items():
                st = [x for x in xs if sites(x) == outer]
                if len(st) < len(es):
                    if not st:
                        raise Bad("the end of the path is not moved to the end of the section", es[0][0].where)
                    raise Bad("more sections than moves of the end of the path", es[-1][0].where)
                if len(st) != len(es):
                    raise Give("%d moves, %d sections" % (len(st), len(es)))
                old = None
                for (e, loop), x in zip(es, st):
                    old = section(ctx, sc, case, fin, e, loop, x, old)
        except Bad as b:
            probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
        except (Give, Unsupported) as b:
            gave.append(str(b))

    try:
        cases(it, one, 600)
    except Give as b:
        gave.append(str(b))


def section(ctx, sc, case, fin, e, loop, xstore, old):
    it, res = sc.it, sc.res
    new = strip(e.args[0])
    fields = {}
    for s in live_effects(res, case, lambda s: s.kind == "store" and strip(s.obj) is new):
        fields[s.attr] = s
    for a in ("x", "dx", "off", "wid"):
        if a not in fields:
            raise Give("section without " + a)
    u, h = it.mk("param", "u"), it.mk("param", "h")

    def fn(attr, *args):
        ev = PEval(sc, case, loop, fin)
        v = strip(ev.resolve(strip(fields[attr].value)))
        while v.op == "ite":
            v = strip(ev.resolve(v))
        if v.op == "closure":
            r = ev.arr(ev.apply(v, args) if not isinstance(v, list) else v)
        else:
            r = to_arr(ev.called(it.mk("call", v, tuple(args), (), ("probe",))))
        return r, ev

    zero, one = it.const(0), it.const(1)
    pos, pe = fn("x", u)
    start, _ = fn("x", zero)
    end, _ = fn("x", one)
    if old is None:
        old = pair(Poly.atom("x0"), Poly.atom("x1"))
    newx = PEval(sc, case, loop, fin).arr(xstore.value)
    w = fields["x"].where
    f = sc.f
    rel_fn = [c for c in pe.calls if pe.calls[c][0] in PAIRFN]
    if rel_fn:
        # the curve starts at the origin by contract, or is absolute
        shift = [pos.data[(q,)] - Poly.atom("curve_function(%r).%d" % (U, q)) for q in (0, 1)]
        rel = [p for c, p in case.dec if strip(c).op == "param" and strip(c).args[0] == "relative"]
        if rel:
            want = old.data if rel[0] else {(0,): Poly.const(0), (1,): Poly.const(0)}
            if any(shift[q] != want[(q,)] for q in (0, 1)):
                raise Bad("a %s curve is shifted by (%r, %r)" % ("relative" if rel[0] else "absolute", shift[0], shift[1]), w)
        elif any(p.t for p in shift) and any(shift[q] != old.data[(q,)] for q in (0, 1)):
            raise Give("shift of the curve")
    else:
        approx(start, old, "a section starts at %r, not where the path ends" % (start.data,), w)
    approx(end, newx, "the path ends at %r, the section at %r" % (newx.data, end.data), xstore.where)
    # tangent
    d, de = fn("dx", u, h)
    tangent(ctx, sc, case, pos, pe, d, de, fields["dx"].where, it)
    if f.name == "segment":
        to = PEval(sc, case, loop, fin)
        rel = [p for c, p in case.dec if strip(c).op == "param" and strip(c).args[0] == "relative"]
        tgt = [Poly.atom("end_point.%d" % q) + (old.data[(q,)] if rel and rel[0] else Poly()) for q in (0, 1)]
        approx(pos, pair(*[old.data[(q,)] * (ONE - U) + tgt[q] * U for q in (0, 1)]), "a segment does not run straight to its end point: %r" % (pos.data,), w)
    if f.name == "arc":
        ia, fa, r = Poly.atom("initial_angle"), Poly.atom("final_angle"), Poly.atom("radius")
        ang = ia * (ONE - U) + fa * U
        approx(pos, pair(*[old.data[(q,)] + r * (Poly.atom((t, ang)) - Poly.atom((t, ia))) for q, t in ((0, "cos"), (1, "sin"))]), "an arc does not follow the circle through the end of the path: %r" % (pos.data,), w)
    if f.name == "turn":
        turning(sc, case, pos, w)
    # widths and offsets
    for attr, arg, lst in (("wid", "width", "widths"), ("off", "offset", "offsets")):
        if arg not in sc.kinds:
            continue
        k = sc.kinds[arg]
        if arg == "width" and sc.flags.get("gdsii_path"):
            k = "none"
        g, ge = fn(attr, u)
        cur = Poly.atom(lst + "[i]")
        if k == "none":
            want = cur
        elif k == "number":
            t = Poly.atom(arg) if arg == "width" else cur + Poly.atom(arg)
            want = cur * (ONE - U) + t * U
        elif k == "list":
            want = cur * (ONE - U) + Poly.atom(arg + "[i]") * U
        elif k == "callable":
            want = Poly.atom("%s(%r)" % (arg, U)) + (cur if arg == "offset" else Poly())
        else:
            want = Poly.atom("%s[i](%r)" % (arg, U))
        got = g.data.get(()) if g.shape == () else None
        if got is None:
            raise Give("%s of a section" % arg)
        if got != want:
            raise Bad("with %s the %s along a section is %r, not %r" % (WORD[k] % arg, arg, got, want), fields[attr].where)
        # and where it ends
        g1, _ = fn(attr, one)
        sts = live_effects(res, case, lambda s: s.kind == "storeitem" and PEval(sc, case, loop, fin).mine(s.obj) == lst)
        sts = [s for s in sts if loop in sites(s) and sites(s) == sites(e)]
        if not sts:
            other = live_effects(res, case, lambda s: s.kind in ("store", "storeitem", "aug") and PEval(sc, case, loop, fin).mine(s.obj) == lst or s.kind == "store" and s.attr == lst)
            if other:
                raise Give("%s replaced elsewhere" % lst)
            if k == "none":
                continue
            raise Bad("%s of the path are not moved to the end of the section" % lst, e.where)
        s = sts[-1]
        ev = PEval(sc, case, loop, fin)
        i = ev.number(s.key)
        if i is None:
            raise Give("index of " + lst)
        if i != "i":
            raise Bad("%s[%s] is set for every parallel path" % (lst, i), s.where)
        v = ev.arr(s.value)
        if v.shape != () or v.data[()] != g1.data[()]:
            raise Bad("%s[i] becomes %r where the section ends with %r" % (lst, v.data.get(()), g1.data[()]), s.where)
    return newx


WORD = {"none": "no %s given", "number": "a number as %s", "list": "a list as %s", "callable": "a function as %s", "callables": "a list of functions as %s"}


def tangent(ctx, sc, case, pos, pe, d, de, where, it):
    bez = [c for c in pe.calls if pe.calls[c][0] == "bezier"]
    fns = [c for c in pe.calls if pe.calls[c][0] in PAIRFN]
    if bez:
        c = [x for x in de.calls if de.calls[x][0] == "bezier"]
        if len(bez) != 1 or len(c) != 1:
            raise Give("tangent of a Bezier section")
        ctrl, u = pe.calls[bez[0]][1]
        dctrl, du = de.calls[c[0]][1]
        if u != U or du != U:
            raise Bad("the tangent of a Bezier section is taken at %r, the point at %r" % (du, u), where)
        ev = PEval(sc, case, None, pe.final)
        r = to_arr(ev.row(dctrl, ("j", 0)))
        n = ev.rows_of(ctrl) - ONE
        a, b = to_arr(ev.row(ctrl, ("j", 1))), to_arr(ev.row(ctrl, ("j", 0)))
        for q in (0, 1):
            want = n * (a.data[(q,)] - b.data[(q,)])
            if r.data[(q,)] != want:
                raise Bad("the control points of the derivative of a Bezier section are %r" % r.data[(q,)], where)
        return
    if fns:
        got = [de.calls[x] for x in de.calls]
        if any(g[0] == "curve_derivative" for g in got):
            for q in (0, 1):
                if d.data[(q,)] != Poly.atom("curve_derivative(%r).%d" % (U, q)):
                    raise Bad("the tangent is %r, not the derivative given" % d.data[(q,)], where)
            return
        if sc.kinds.get("curve_derivative") == "callable":
            raise Bad("the derivative given is not used", where)
        pts = sorted(set(g[1][0] for g in got), key=repr)
        if len(pts) != 2 or any(g[0] != "curve_function" for g in got):
            raise Give("numerical derivative")
        from ..affine import same, pdiv
        a, b = pts
        for q in (0, 1):
            x = Poly.atom("curve_function(%r).%d" % (a, q))
            y = Poly.atom("curve_function(%r).%d" % (b, q))
            r = same(d.data[(q,)], pdiv(x - y, a - b))
            if r is False:
                raise Bad("the numerical derivative is %r" % d.data[(q,)], where)
            if r is None:
                raise Give("numerical derivative")
        return
    want = pair(*[derivative(pos.data[(q,)], "u") for q in (0, 1)])
    approx(d, want, "the tangent %r is not the derivative of the section %r" % (d.data, want.data), where)


def turning(sc, case, pos, where):
    args = set()
    for q in (0, 1):
        for a in pos.data[(q,)].atoms():
            if isinstance(a, tuple) and a[0] in ("cos", "sin"):
                args.add(a[1])
    mv = [a for a in args if coef(a, U).t]
    if not mv or any(m not in (mv[0], -mv[0]) for m in mv):
        raise Give("angles of a turn")
    sweep = coef(mv[0], U)
    ang = Poly.atom("angle")
    sign = [(strip(c), p) for c, p in case.dec if c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">=")]
    neg = None
    for c, p in sign:
        a, b = c.args[1], c.args[2]
        ev = PEval(sc, case)
        try:
            d = ev.arr(a).data[()] - ev.arr(b).data[()]
        except (Unsupported, KeyError):
            continue
        if d == ang:
            neg = p if c.args[0] in ("<", "<=") else not p
        elif d == -ang:
            neg = p if c.args[0] in (">", ">=") else not p
    if neg is None:
        raise Give("sign of the angle")
    m = mv[0] if coef(mv[0], U) == ang else -mv[0]
    if coef(m, U) != ang:
        raise Bad("a turn sweeps %r, not its angle" % sweep, where)
    theta = m - ang * U - Poly.atom("pi") * Poly.const(Fraction(1, 2) if neg else Fraction(-1, 2))
    if "pi" in theta.atoms() or "angle" in theta.atoms():
        raise Bad("a turn of %s angle starts at the direction of the path plus %r" % ("negative" if neg else "positive", theta + Poly.atom("pi") * Poly.const(Fraction(1, 2) if neg else Fraction(-1, 2))), where)


def kinds_for(f):
    ps = f.params()
    out = []
    base = {}
    if "width" in ps:
        base["width"] = "none"
    if "offset" in ps:
        base["offset"] = "none"
    if "curve_derivative" in ps:
        base["curve_derivative"] = "none"
    out.append(dict(base))
    for a in base:
        for k in ("number", "list", "callable", "callables"):
            if a == "curve_derivative":
                if k == "callable":
                    out.append(dict(base, curve_derivative=k))
                continue
            out.append(dict(base, **{a: k}))
    if "width" in base and "offset" in base:
        out.append(dict(base, width="number", offset="list"))
        out.append(dict(base, width="list", offset="number"))
    return out


def robust(ctx):
    rule = "every section of a RobustPath starts at the end of the path, is added once to every parallel path, follows the width and offset asked for, and moves the end of the path, its widths and offsets to its own end"
    ctx.rule(rule)
    prog = ctx.prog
    c = prog.need_class("RobustPath")
    from .aliasing import runs, private
    for f, r in runs(ctx):
        if isinstance(r, Exception) or r.me is None or f.cls is None or not c.issub(f.cls) and f.cls is not c or private(f):
            continue
        if f.cls is not c:
            continue
        if not any(e.kind == "mcall" and e.name == "append" and len(e.args) == 1 and strip(e.args[0]).op == "new" for e in r.res.effects):
            continue
        probs, gave, n = {}, [], [0]
        for kinds in kinds_for(f):
            for gp in (False, True):
                if gp and kinds.get("width") != "number":
                    continue
                try:
                    sc = Scenario(prog, c, f, kinds, {"gdsii_path": gp})
                except RecursionError:
                    gave.append("recursion")
                    continue
                ctx.saw(sc.it.functions_seen)
                robust_method(ctx, sc, probs, gave, n)
        if probs:
            for m, w in sorted(probs.items()):
                ctx.violation("section", "%s|sections" % f.qualname, w or f.where, m)
        elif gave:
            ctx.unknown("section", f.where, "%s: %s" % (f.qualname, gave[0]))
        else:
            ctx.ok("sections start and end where the path does", "%s: %s, %d argument kinds and paths" % (f.where, f.qualname, n[0]))


# -- curves through given points -----------------------------------------------------


def smooth(ctx):
    rule = "smooth curves of paths go through the current position and every given point in order, each section with its own pair of control points"
    ctx.rule(rule)
    prog = ctx.prog
    for cname in ("Path", "FlexPath", "RobustPath"):
        c = prog.need_class(cname)
        f = prog.need_method(cname, "smooth")
        hob = [None]

        def inline(g, it):
            if g.name == "_hobby" or g.name == "bezier":
                return False
            return None

        kinds = {}
        sc = Scenario(prog, c, f, kinds, {}, inline)
        sc.planar = cname == "Path"
        ctx.saw(sc.it.functions_seen)
        probs, gave, n = {}, [], [0]

        def one(case):
            try:
                n[0] += 1
                smooth_path(sc, case, f)
            except Bad as b:
                probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
            except (Give, Unsupported) as b:
                gave.append(str(b))

        try:
            cases(sc.it, one, 200)
        except Give as b:
            gave.append(str(b))
        if probs:
            for m, w in sorted(probs.items()):
                ctx.violation("smooth", "%s|smooth" % f.qualname, w or f.where, m)
        elif gave:
            ctx.unknown("smooth", f.where, "%s: %s" % (f.qualname, gave[0]))
        else:
            ctx.ok("smooth curves visit their points", "%s: %s, %d paths" % (f.where, f.qualname, n[0]))


def bound(e):
    """{parameter: argument} of a call that was not inlined"""
    ps = e.func_called.params() if hasattr(e, "func_called") else e.data["func"].params()
    args = list(e.args)
    out = dict(zip(ps, args))
    for k, v in e.data.get("kwargs") or ():
        out[k] = v
    return out


def smooth_path(sc, case, f):
    it, res = sc.it, sc.res
    calls = live_effects(res, case, lambda e: e.kind == "icall" and e.data["func"].name == "bezier")
    hob = live_effects(res, case, lambda e: e.kind == "icall" and e.data["func"].name == "_hobby")
    if len(hob) != 1:
        raise Give("control points")
    hb = bound(hob[0])
    pts = hb.get("points")
    for p in hob[0].data["func"].params():
        if p != "points" and p in f.params():
            a = hb.get(p)
            if a is None:
                raise Bad("%s is not handed on to the calculation of control points" % p, hob[0].where)
            a = strip(a)
            if not (a.op == "param" and a.args[0] == p):
                names = [x.args[0] for x in subnodes(a) if x.op == "param"]
                if p not in names:
                    raise Bad("control points are calculated with %s as %s" % (show(a, 3), p), hob[0].where)
    ev = PEval(sc, case)
    rel = [p for c, p in case.dec if strip(c).op == "param" and strip(c).args[0] == "relative"]
    sh = pair(Poly.atom("x0"), Poly.atom("x1"))
    r0 = to_arr(ev.row(pts, ("row", 0)))
    approx(r0, sh, "the curve starts at %r" % (r0.data,), hob[0].where)
    for k in (0, -1):
        r = to_arr(ev.row(pts, ("row", k + 1 if k == 0 else -1)))
        if not rel:
            raise Give("relative")
        want = {}
        for q in (0, 1):
            want[(q,)] = Poly.atom("points[%d].%d" % (k, q)) + (sh.data[(q,)] if rel[0] else Poly())
        approx(r, Arr((2,), want), "a %s point of the curve is %r" % ("relative" if rel[0] else "absolute", r.data), hob[0].where)
    rows = ev.rows_of(pts)
    seen = []
    cyc = [p for c, p in case.dec if strip(c).op == "param" and strip(c).args[0] == "cycle"]
    if not cyc:
        raise Give("cycle")
    for e in calls:
        b = bound(e)
        rl = b.get("relative")
        if rl is None or strip(rl).op != "const" or strip(rl).args[1] is not False:
            if rl is None or strip(rl).op == "const":
                raise Bad("sections are given by absolute points but added as relative ones", e.where)
            raise Give("relative sections")
        v = strip(ev.resolve(b["points"]))
        while v.op == "call" and v.args[0] in ("numpy.array", "numpy.vstack", "list", "tuple", "numpy.asarray"):
            v = strip(ev.resolve(v.args[1][0]))
        if v.op not in ("tuple", "list") or len(v.args[0]) != 3:
            raise Give("points of a section")
        ix = []
        for w, x in enumerate(v.args[0]):
            x = strip(ev.resolve(x))
            if x.op != "sub":
                raise Give("point of a section")
            s, k = strip(ev.resolve(x.args[0])), x.args[1]
            if w < 2:
                if not (s.op == "sub" and strip(s.args[0]) is strip(hob[0].data["result"]) and s.args[1].op == "const"):
                    if s is strip(ev.resolve(pts)):
                        raise Bad("a control point is taken from the points of the curve", e.where)
                    raise Give("control point " + show(x, 3))
                if s.args[1].args[1] != w:
                    raise Bad("control points of a section are exchanged", e.where)
            elif s is not strip(ev.resolve(pts)):
                raise Give("end of a section")
            ix.append(indexpoly(ev, k))
        seen.append((e, ix))
    loop = [s for s in seen if s[0].loops]
    last = [s for s in seen if not s[0].loops]
    if len(loop) != 1 or len(last) > 1:
        raise Give("sections")
    e, ix = loop[0]
    if len(e.loops) != 1:
        raise Give("loops")
    for g, p in e.guards:
        if depends(g, e.loops[0][0]):
            raise Bad("sections are left out when %s" % show(g, 4), e.where)
    src = strip(e.loops[0][1])
    if src.op != "call" or src.args[0] != "range" or len(src.args[1]) > 2:
        raise Give("loop of the sections")
    a = [ev.count(x) for x in src.args[1]]
    lo, hi = (Poly(), a[0]) if len(a) == 1 else a
    i = Poly.atom("i")
    off = ix[0] - i
    if not off.is_const() or ix[1] != ix[0]:
        raise Bad("the control points of a section are %r and %r" % (ix[0], ix[1]), e.where)
    if ix[2] != ix[0] + ONE:
        raise Bad("section %r ends at point %r" % (ix[0], ix[2]), e.where)
    if lo + off != Poly():
        raise Bad("the first section is number %r" % (lo + off), e.where)
    if hi + off != rows - ONE:
        raise Bad("%r sections for %r points" % (hi + off, rows), e.where)
    if cyc[0]:
        if not last:
            raise Bad("a closed curve is left open", e.where)
        l, ix = last[0]
        ok = [ix[0] in (Poly.const(-1), rows - ONE), ix[1] in (Poly.const(-1), rows - ONE), ix[2] == Poly()]
        if not all(ok):
            raise Bad("the last section of a closed curve uses control points %r, %r and ends at point %r" % tuple(ix), l.where)
    elif last:
        raise Bad("an open curve is closed", last[0][0].where)


def indexpoly(ev, k):
    k = strip(ev.resolve(k))
    if k.op == "const" and isinstance(k.args[1], int):
        return Poly.const(k.args[1])
    if k.op == "un" and k.args[0] == "-":
        return -indexpoly(ev, k.args[1])
    if k.op == "bin" and k.args[0] in ("+", "-"):
        a, b = indexpoly(ev, k.args[1]), indexpoly(ev, k.args[2])
        return a + b if k.args[0] == "+" else a - b
    if k.op in ("elem", "idx"):
        return Poly.atom("i")
    raise Give("index " + show(k, 3))


# -- widths and offsets along the sections of a FlexPath ------------------------------


class Profile(PEval):
    """a row of widths or offsets as a polynomial of u (0..1 along the section)"""

    def val(self, n, depth=0):
        n = strip(self.resolve(strip(n)))
        while n.op == "ite":
            n = strip(self.resolve(n))
        d = depth + 1
        if depth > 40:
            raise Give("profile")
        m = self.mine(n)
        if m in ("widths", "offsets"):
            raise Give("all rows of " + m)
        if n.op == "const" and isinstance(n.args[1], (int, float)):
            return Poly.const(n.args[1])
        if n.op == "param":
            if n.args[0] in self.sc.kinds:
                return Poly.atom(n.args[0])
            raise Give("profile " + show(n, 3))
        if n.op == "bin" and n.args[0] in ("+", "-", "*"):
            a, b = self.val(n.args[1], d), self.val(n.args[2], d)
            return a + b if n.args[0] == "+" else (a - b if n.args[0] == "-" else a * b)
        if n.op == "bin" and n.args[0] == "/":
            a, b = self.val(n.args[1], d), self.val(n.args[2], d)
            if b.is_const() and b.cval() != 0:
                return a * Poly.const(1 / b.cval())
            raise Give("division")
        if n.op == "un" and n.args[0] == "-":
            return -self.val(n.args[1], d)
        if n.op == "sub":
            k = strip(self.resolve(n.args[1]))
            b = strip(self.resolve(n.args[0]))
            m = self.mine(b)
            last = k.op == "const" and k.args[1] == -1 or k.op == "un" and k.args[0] == "-" and k.args[1].op == "const" and k.args[1].args[1] == 1
            if k.op == "slice":
                lo = self.resolve(k.args[0]) if isinstance(k.args[0], Node) else None
                if m in ("widths", "offsets"):
                    if lo is not None and (lo.op == "const" and lo.args[1] == -1 or lo.op == "un"):
                        return Poly.atom("old " + m)
                    raise Give("rows of " + m)
                return self.cut(self.val(b, d), k)     # rows of a block: the same function of u
            if k.op == "tuple":
                k0 = strip(k.args[0][0])
                return self.cut(self.val(b, d), k0) if k0.op == "slice" else self.val(b, d)     # a new axis
            if last:
                if m in ("widths", "offsets"):
                    return Poly.atom("old " + m)
                return at(at(self.val(b, d), "u", ONE), "v", ONE)
            if m in ("widths", "offsets"):
                raise Bad("the section continues with row %s of %s, not the last" % (show(k, 3), m), None)
            raise Give("item " + show(n, 3))
        if n.op == "attr" and n.args[1] == "T":
            return self.val(n.args[0], d)
        if n.op == "mcall" and n.args[1] in ("copy", "reshape", "astype", "transpose", "flatten", "ravel"):
            return self.val(n.args[0], d)
        if n.op == "call" and isinstance(n.args[0], str):
            nm, a = n.args[0], n.args[1]
            if nm in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.atleast_2d", "numpy.tile", "numpy.repeat", "numpy.broadcast_to", "float", "numpy.reshape", "list", "tuple"):
                return self.val(a[0], d)
            if nm == "numpy.full":
                return self.val(a[1], d)
            if nm == "numpy.full_like":
                return self.val(a[1], d)
            if nm in ("numpy.ones", "numpy.ones_like"):
                return ONE
            if nm in ("numpy.zeros", "numpy.zeros_like"):
                return Poly()
            if nm in ("numpy.outer", "numpy.multiply"):
                return self.val(a[0], d) * self.val(a[1], d)
            if nm == "numpy.linspace":
                x, y = self.val(a[0], d), self.val(a[1], d)
                kw = dict(n.args[2]) if len(n.args) > 2 and n.args[2] else {}
                e = kw.get("endpoint")
                if e is not None and not (e.op == "const" and e.args[1]):
                    raise Bad("the last row added does not have the value asked for: a section without its end point", None)
                return x + (y - x) * Poly.atom("v")
            if nm in ("numpy.vstack", "numpy.concatenate", "numpy.append"):
                t = strip(self.resolve(a[0]))
                if nm == "numpy.append" and len(a) > 1:
                    return self.val(a[1], d)
                if t.op in ("tuple", "list") and t.args[0]:
                    return self.val(t.args[0][-1], d)
        if n.op in ("list", "tuple") and len(n.args[0]) == 1:
            return self.val(n.args[0][0], d)
        if n.op == "comp" and n.args[0] == "list" and not n.args[3]:
            return self.val(n.args[1], d)
        raise Give("profile " + show(n, 3))

    def cut(self, v, k):
        if at(v, "v", ONE) == v and at(v, "u", ONE) == v:
            return v
        lo, hi, step = [self.resolve(x) if isinstance(x, Node) else None for x in (list(k.args) + [None] * 3)[:3]]
        lo, hi, step = [None if x is None or x.op == "const" and x.args[1] is None else x for x in (lo, hi, step)]
        if hi is not None:
            if hi.op == "un" or hi.op == "const" and isinstance(hi.args[1], int) and hi.args[1] < 0:
                raise Bad("the last row added does not have the value asked for: rows %s of a section" % show(k, 3), None)
            raise Give("rows " + show(k, 3))
        if step is not None:
            raise Give("rows " + show(k, 3))
        if lo is None or lo.op == "const" and lo.args[1] == 0:
            return v
        if lo.op == "const" and lo.args[1] == 1:
            return at(v, "v", U)
        raise Give("rows " + show(k, 3))

    def parts(self, n):
        """rows before, new rows"""
        n = strip(self.resolve(strip(n)))
        while n.op == "ite":
            n = strip(self.resolve(n))
        if n.op == "call" and n.args[0] in ("numpy.vstack", "numpy.concatenate"):
            t = strip(self.resolve(n.args[1][0]))
            if t.op in ("tuple", "list") and len(t.args[0]) == 2:
                return t.args[0]
        if n.op == "call" and n.args[0] == "numpy.append" and len(n.args[1]) >= 2:
            return n.args[1][:2]
        raise Give("rows " + show(n, 3))


def flex(ctx):
    rule = "widths and offsets added to a FlexPath go linearly from the last row to the values asked for"
    ctx.rule(rule)
    prog = ctx.prog
    c = prog.need_class("FlexPath")
    for f in sorted((m for m in c.methods.values() if "width" in m.params() and "offset" in m.params() and m.name != "__init__"), key=lambda m: m.name):
        from .aliasing import private
        if private(f):
            continue
        probs, gave, n = {}, [], [0]
        for w in ("none", "number", "list"):
            for o in ("none", "number", "list"):
                for gp in (False, True):
                    sc = Scenario(prog, c, f, {"width": w, "offset": o}, {"gdsii_path": gp})
                    ctx.saw(sc.it.functions_seen)

                    def one(case):
                        try:
                            n[0] += 1
                            flex_path(sc, case, f, w, o, gp)
                        except Bad as b:
                            probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
                        except (Give, Unsupported) as b:
                            gave.append(str(b))

                    try:
                        cases(sc.it, one, 400)
                    except Give as b:
                        gave.append(str(b))
        if probs:
            for m, w in sorted(probs.items()):
                ctx.violation("profile", "%s|profile" % f.qualname, w or f.where, m)
        elif gave:
            ctx.unknown("profile", f.where, "%s: %s" % (f.qualname, gave[0]))
        else:
            ctx.ok("widths and offsets follow the arguments", "%s: %s, %d argument kinds and paths" % (f.where, f.qualname, n[0]))


def flex_path(sc, case, f, w, o, gp):
    res = sc.res
    if final_state(res, case) is None:
        return
    for attr, arg, kind in (("widths", "width", "none" if gp else w), ("offsets", "offset", o)):
        sts = live_effects(res, case, lambda e: e.kind == "store" and e.attr == attr and strip(e.obj) is sc.me)
        if not sts:
            raise Bad("no %s are added" % attr, f.where)
        for e in sts:
            ev = Profile(sc, case)
            before, new = ev.parts(e.value)
            if ev.mine(before) != attr:
                if ev.mine(before) in ("widths", "offsets", "points"):
                    raise Bad("%s are replaced by %s" % (attr, ev.mine(before)), e.where)
                b = strip(ev.resolve(before))
                if not any(strip(x.value) is b or x.value is b for x in sts):
                    raise Give("rows before " + show(before, 3))
            got = ev.val(new)
            old = Poly.atom("old " + attr)
            if kind == "none":
                want = old
            elif kind == "number" and arg == "offset":
                want = old + Poly.atom(arg)
            else:
                want = Poly.atom(arg)
            if got == want:
                if want != old and f.name != "segment" and many(sc, case, e, new):
                    raise Bad("all rows of a section have the %s of its end: %r" % (attr, got), e.where)
                continue
            if got == old * (ONE - U) + want * U:
                continue
            if got == old * (ONE - V) + want * V:
                raise Bad("the first row added repeats the %s of the last point" % attr, e.where)
            raise Bad("with %s the %s along a section are %r, not from %r to %r" % (WORD[kind] % arg + (" (GDSII path)" if gp else ""), attr, got, old, want), e.where)


def many(sc, case, e, new):
    """the new rows are a block of several"""
    from .parallel import RowSizes, Layout, Group
    sz = RowSizes(sc.it, case, ("points", "widths", "offsets"), sc.me)
    lay = Layout.__new__(Layout)
    g = Group.__new__(Group)
    from types import SimpleNamespace
    g.r, g.it, g.owner, g.attrs, g.ids, g.events = SimpleNamespace(res=sc.res, it=sc.it, me=sc.me), sc.it, sc.me, (), {}, []
    lay.setup(g, case, False, sz)
    lay.at = e
    k, r = sz.shape(new)
    if k in ("row", "any", "num"):
        return False
    if r is not None and r == ONE:
        return False
    return True
