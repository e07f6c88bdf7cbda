"""Commands of Curve: the points they add, where they start, what they leave
for the next command."""
import math
import random
from fractions import Fraction

from .. import affine
from ..affine import Arr, Tup, Unsupported, scalar, pair, to_arr, pmap, same_arr
from ..flow import strip
from ..interp import Interp, Node, show, subnodes
from ..lin import Fork
from ..poly import Poly
from .geometry import Give, Bad
from .polypath import A, Block, HALF, ONE, PCase, REval, Rows, S, World, ZERO, all_atoms, combos, equal, integer, run_cases, samples, subst, trig, uniform, Recorder
from .sections import coef, final_state

# items of a round of each command: (control points before the items, items)
CURVES = {"C": 3, "S": 2, "Q": 2, "T": 1}


class Command(object):
    """one command analysed for items of given kinds ('c': complex number,
    'n': two numbers) and a known kind of curve before it"""

    def __init__(self, prog, cls, f, pattern=None, before=False, kinds=None, opts=None, keep=("_func_bezier", "_hobby")):
        self.f, self.pattern, self.before = f, pattern, before
        self.kinds = dict(kinds or {}, tolerance="number")
        self.heading = None
        self.slots = {}
        k = 0
        for x in pattern or ():
            self.slots[k] = x
            k += 1 if x == "c" else 2
        self.total = k
        self.cursor = None
        self.beyond = None
        self.it = it = Interp(prog, assume=self.assume, inline=lambda g, i: False if g.name in keep or g.name == "C" and f.name in ("I", "i") else None)
        it.unroll = 8
        self.me = it.mk("param", f.params()[0])
        self.star = it.mk("param", "*" + f.node.args.vararg.arg) if f.node.args.vararg else None
        args = {}
        for p, v in (opts or {}).items():
            args[p] = it.const(v)
        self.res = it.run(f, self_cls=cls, args=args, self_node=self.me)

    def offset(self, k):
        """number of numbers after the cursor"""
        k = strip(k)
        if k.op == "loopv" and isinstance(k.args[1], str):
            if self.cursor is None:
                self.cursor = k
            return 0 if k is self.cursor else None
        if k.op == "bin" and k.args[0] in ("+", "-"):
            for x, y in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                if y.op == "const" and isinstance(y.args[1], int) and (k.args[0] == "+" or y is k.args[2]):
                    o = self.offset(x)
                    return None if o is None else o + y.args[1] * (1 if k.args[0] == "+" else -1)
        if k.op == "const" and isinstance(k.args[1], int) and self.cursor is None:
            return None
        return None

    def item(self, n):
        """kind of the number of the list, or None"""
        n = strip(n)
        if n.op == "sub" and strip(n.args[0]) is self.star:
            o = self.offset(n.args[1])
            if o is None:
                return None
            return o
        return None

    def assume(self, c, st):
        if c.op == "call" and c.args[0] in ("isinstance", "numpy.iscomplexobj", "numpy.iscomplex") and self.pattern is not None:
            o = self.item(c.args[1][0])
            if o is None:
                return None
            if c.args[0] == "isinstance":
                names = set(x.args[0] if isinstance(x.args[0], str) else getattr(x.args[0], "name", "") for x in subnodes(c.args[1][1]) if x.op in ("ext", "cls", "gconst"))
                if names != {"complex"}:
                    return None
            if o not in self.slots:
                self.beyond = o
                return None
            return self.slots[o] == "c"
        if c.op == "call" and c.args[0] in ("hasattr", "isinstance", "callable", "numpy.isscalar"):
            k = self.kind(c.args[1][0])
            if k is None:
                return None
            if c.args[0] == "numpy.isscalar":
                return k == "number"
            if c.args[0] == "hasattr":
                y = c.args[1][1]
                return k == "list" if y.op == "const" and y.args[1] in ("__iter__", "__len__", "__getitem__") else None
            names = set(x.args[0] for x in subnodes(c.args[1][1]) if x.op == "ext" and isinstance(x.args[0], str))
            if names and names <= {"tuple", "list", "numpy.ndarray", "collections.abc.Iterable"}:
                return k == "list"
            return None
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            x = strip(c.args[1])
            if x.op == "attr" and strip(x.args[0]) is self.me and x.args[1] in ("last_c", "last_q"):
                return self.before is not (x.args[1])
            if x.op in ("sub", "bin", "call", "mcall", "comp", "list"):
                return False
        return None

    def kind(self, n):
        n = strip(n)
        if n.op == "param" and n.args[0] in self.kinds:
            return self.kinds[n.args[0]]
        return None


class CEval(REval):
    def __init__(self, sc, case, world):
        REval.__init__(self, sc, case, world)
        self.ctrl = None
        self.origin = pair(A("O.0"), A("O.1"))

    def leafs(self, n):
        sc = self.sc
        s = strip(n)
        if s.op == "attr" and strip(s.args[0]) is sc.me:
            if s.args[1] == "tol":
                return scalar(A("tolerance") * A("tolerance"))
            if s.args[1] in ("last_c", "last_q"):
                if sc.before != s.args[1]:
                    raise Unsupported("last control point")
                return pair(A("L.0"), A("L.1"))
        if s.op == "attr" and s.args[1] in ("real", "imag"):
            o = sc.item(s.args[0])
            if o is not None:
                k = sc.slots.get(o)
                if k is None:
                    raise Bad("a number that is not the next one is read", sc.f.where)
                if k == "c":
                    return scalar(A("z%d.%s" % (o, s.args[1])))
                return scalar(A("z%d.real" % o) if s.args[1] == "real" else ZERO)
        if s.op == "sub":
            o = sc.item(s)
            if o is not None:
                if sc.slots.get(o) == "c":
                    raise Bad("a complex number is used as a coordinate", sc.f.where)
                if sc.slots.get(o) == "n":
                    return scalar(A("z%d.real" % o))
                if sc.slots.get(o - 1) == "n":
                    return scalar(A("z%d.imag" % (o - 1)))
                raise Bad("a number that is not the next one is read", sc.f.where)
            if self.mine(s.args[0]):
                k = s.args[1]
                if self.minus_one(k):
                    return self.end(s.args[0])
                if k.op == "slice" and self.minus_one(k.args[0]) and (not isinstance(k.args[1], Node) or k.args[1].op == "const" and k.args[1].args[1] is None):
                    e = self.end(s.args[0])
                    return Arr((1, 2), {(0, j): e.data[(j,)] for j in (0, 1)})
                if k.op == "const" and k.args[1] == 0 and sc.f.name == "get_points":
                    return pair(A("F.0"), A("F.1"))
                return None
        if s.op == "param" and s is sc.star:
            return Rows([Block(A("N"), scalar(A("@x")))])
        if s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][0] is sc.me and s.args[1][1] in ("last_c", "last_q"):
            self.check_last(s)
            return pair(A("L.0"), A("L.1"))
        if s is sc.cursor and s is not None:
            raise Unsupported("cursor")
        if s.op == "list" and self.positions(s) is not None:
            if n.op == "ver" and n.args[1].op == "loopv":
                return self.sample(s)
            if n.op == "ver" and n.args[1].op != "init":
                return None
            return Rows([Block(Poly.const(len(s.args[0])), scalar(S))])
        return REval.leafs(self, n)

    def positions(self, s):
        """a list of numbers: positions along the curve"""
        xs = []
        for x in s.args[0]:
            if x.op != "const" or isinstance(x.args[1], bool) or not isinstance(x.args[1], (int, float)):
                return None
            xs.append(x.args[1])
        if len(xs) < 2:
            return None
        if xs[0] != 0 or xs[-1] != 1:
            raise Bad("the curve is not sampled at its start and its end", self.sc.f.where)
        if any(a >= b for a, b in zip(xs, xs[1:])):
            raise Bad("the samples of the curve are not in order", self.sc.f.where)
        return xs

    def mine(self, n):
        s = strip(n)
        return s.op == "attr" and s.args[1] == "points" and strip(s.args[0]) is self.sc.me

    def end(self, n):
        """last point of the curve"""
        if n.op != "ver":
            return self.origin
        c = n.args[1]
        while c.op == "ite":
            d = self.decide(c.args[0])
            if d is None:
                raise Fork(c.args[0])
            c = c.args[1] if d else c.args[2]
        if c.op == "init":
            return self.origin
        if c.op == "loopv":
            return pair(A("P.0"), A("P.1"))
        if c.op == "upd" and c.args[1] == "append":
            return to_arr(self.ev(c.args[2][0]))
        raise Unsupported("end of the curve")

    def check_last(self, s):
        """control point reflected by the first curve"""
        init = s.info.get("init")
        v = to_arr(self.ev(init))
        want = pair(A("L.0"), A("L.1")) if self.sc.before == s.args[1][1] else self.origin
        if not same_arr(v, want):
            raise Bad("the first control point is not the reflection of the last one of a curve before, or the end of the curve if there is none", self.sc.f.where)

    def applied(self, s):
        t = strip(self.resolve(strip(s.args[0])))
        if t.op == "icall" and t.args[0].name == "_func_bezier":
            if len(t.args[1]) != 1 or t.args[2] and t.args[2][0][0] != "nargs":
                raise Unsupported("function of a Bezier curve")
            if self.ctrl is not None and self.ctrl is not t.args[1][0]:
                raise Unsupported("several Bezier curves")
            self.ctrl = t.args[1][0]
            args = [self.arr(a) for a in s.args[1]]
            if len(args) != 1 or args[0].shape != ():
                raise Unsupported("call")
            p = args[0].data[()]
            return pair(A(("fn:curve_function.0", p)), A(("fn:curve_function.1", p)))
        return REval.applied(self, s)

    def version(self, n, d):
        base = n.args[0]
        if base.op == "call" and base.args[0] in ("numpy.zeros", "numpy.empty") and base.args[1][0].op == "tuple":
            dims = base.args[1][0].args[0]
            if all(x.op == "const" and isinstance(x.args[1], int) for x in dims):
                c, ups = n.args[1], []
                while c.op in ("upd", "ite"):
                    if c.op == "ite":
                        r = self.decide(c.args[0])
                        if r is None:
                            raise Fork(c.args[0])
                        c = c.args[1] if r else c.args[2]
                        continue
                    ups.append((c.args[1], c.args[2]))
                    c = c.args[0]
                sh = tuple(x.args[1] for x in dims)
                v = Arr(sh, {k: A(("unset", k)) for k in affine.indices(sh)})
                if c.op == "loopv" and not self.made_in(base, c.args[0]):
                    v = Arr(sh, {k: A(("earlier", k)) for k in affine.indices(sh)})
                for kind, args in reversed(ups):
                    if kind != "setitem":
                        raise Unsupported("update " + kind)
                    v = self.setitem(v, args[0], self.ev(args[1], d), d)
                return v
        return REval.version(self, n, d)

    def _ev(self, n, depth):
        if n.op == "comp" and n.args[0] in ("list", "gen") and len(n.args[2]) == 1 and not n.args[3]:
            src = n.args[2][0]
            if src.op == "ver" and src.args[1].op == "loopv" and strip(src).op in ("list", "call"):
                v = self.ev(strip(src), depth + 1)
                if isinstance(v, Rows) and len(v.blocks) == 1:
                    el = [x for x in subnodes(n.args[1]) if x.op == "elem" and x.args[0] is src]
                    self.fresh = getattr(self, "fresh", set())
                    self.fresh |= set(el)
                    b = v.blocks[0]
                    return Rows([Block(b.total, to_arr(self.ev(n.args[1], depth + 1)), b.first, b.rows, b.rev)])
        return REval._ev(self, n, depth)

    def sample(self, base):
        if base.op == "list" and not base.args[0] and base not in self.lists:
            b = self.collected(base)
            if b is not None:
                self.lists[base] = b.val
        if base in self.lists and base.op == "list" and not base.args[0]:
            return Rows([Block(A("N"), pmap(self.lists[base], lambda p: subst(p, {"s": A("@u")})))])
        return REval.sample(self, base)

    fills = frozenset()

    def collected(self, base):
        """a list filled in a loop over the positions"""
        es = [e for e in self.sc.res.effects if e.kind == "mcall" and e.name == "append" and strip(e.recv) is base]
        if len(es) != 1 or not es[0].loops or es[0].loops[-1][2] == "while":
            return None
        e = es[0]
        src = e.loops[-1][1]
        if any(any(x.op == "elem" and x.args[0] is src for x in subnodes(c)) for c, p in e.guards):
            return None
        v = self.ev(src)
        if not isinstance(v, Rows) or len(v.blocks) != 1 or not v.blocks[0].sampled() and strip(src).op != "list":
            return None
        self.fresh = getattr(self, "fresh", set()) | set(x for x in subnodes(e.args[0]) if x.op == "elem" and x.args[0] is src)
        self.fills = self.fills | {id(e)}
        b = v.blocks[0]
        return Block(b.total, to_arr(self.ev(e.args[0])), b.first, b.rows, b.rev)

    def element(self, s):
        if s in getattr(self, "fresh", ()):
            v = self.ev(strip(s.args[0]))
            return v.blocks[0].val
        return REval.element(self, s)


def world(vals=None, n=5):
    ranges = {"tolerance": uniform(0.01, 0.2), "pi": lambda rng, env: math.pi, "N": integer(40, 80)}
    for a in ("O", "P", "L", "F", "Z"):
        for j in (0, 1):
            ranges["%s.%d" % (a, j)] = uniform(-3, 3)
    for k in range(8):
        for q in ("real", "imag"):
            ranges["z%d.%s" % (k, q)] = uniform(-3, 3)
    ranges["@x"] = uniform(-3, 3)
    for a in ("radius", "rx", "ry"):
        ranges[a] = uniform(0.5, 4)
    for a in ("initial_angle", "final_angle", "rotation"):
        ranges[a] = uniform(-3, 3)
    ranges["s"] = uniform(0, 1)
    return World(vals or {}, ranges)


def additions(sc, case, ev):
    """what is added to the points, in order: (effect, value)"""
    out = []
    for e in sc.res.effects:
        if e.kind == "mcall" and ev.mine(e.recv):
            if e.name in ("append", "extend"):
                out.append(e)
            elif e.name not in ("copy", "index", "count"):
                raise Give("points." + e.name)
        elif e.kind in ("storeitem", "delitem", "aug") and isinstance(getattr(e, "obj", None), Node) and ev.mine(e.obj):
            raise Give("change of the points")
        elif e.kind == "store" and e.attr == "points" and strip(e.obj) is sc.me:
            raise Give("new list of points")
    if not out and not any(e.kind in ("icall", "gencall") or e.kind == "call" and any(strip(a) is sc.me or ev.mine(a) for a in e.args) for e in sc.res.effects):
        raise Bad("nothing is added to the curve", sc.f.where)
    live = []
    for e in out:
        ok = True
        for g, p in e.guards:
            if progress(sc, g) is not None:
                if not p:
                    ok = False
                continue
            d = case.decide(g)
            if d is None:
                raise Fork(g)
            if d is not p:
                ok = False
        if ok:
            live.append(e)
    return live


def progress(sc, g):
    """is it the condition under which there are further items"""
    if g.op == "cmp" and g.args[0] in ("<", "<=", ">", ">=", "!=", "=="):
        l = [strip(x) for x in g.args[1:]]
        for a, b in (l, l[::-1]):
            if any(x is sc.star for x in subnodes(b)) and any(x.op == "loopv" for x in subnodes(a)):
                return True
    return None


def check_progress(sc, e):
    """each round is reached exactly while there are items left"""
    loops = [l for l in e.loops if l[2] != "comp"]
    if len(loops) != 1 or loops[0][2] != "while":
        raise Give("loop over the items")
    gs = [(g, p) for g, p in e.guards if progress(sc, g) is not None]
    if len(gs) != 1 or sc.cursor is None:
        raise Give("loop over the items")
    g, p = gs[0]
    a, b, op = g.args[1], g.args[2], g.args[0]
    o = sc.offset(a)
    if o is None:
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        o = sc.offset(a)
    b = strip(b)
    k = 0
    if b.op == "bin" and b.args[0] in ("+", "-") and b.args[2].op == "const":
        k = b.args[2].args[1] * (1 if b.args[0] == "+" else -1)
        b = strip(b.args[1])
    if o is None or not (b.op == "call" and b.args[0] == "len" and strip(b.args[1][0]) is sc.star):
        raise Give("condition of the loop")
    if not p or not (op == "<" and o == k or op == "<=" and o == k + 1 or op == "!=" and o == k):
        raise Bad("items are left over or read beyond the end", e.where)
    i = sc.cursor.info.get("init")
    if i is None or i.op != "const" or i.args[1] != 0:
        raise Bad("the first item is skipped", e.where)
    nx = sc.cursor.info.get("next")
    if nx is None:
        raise Give("next item")
    # (decided by the kinds of the items)
    nx = strip(nx)
    c = sc.offset(nx)
    if c is None:
        raise Give("next item")
    if c != sc.total:
        raise Bad("the next items do not start where these end", e.where)


def items(sc, base):
    out, k = [], 0
    for x in sc.pattern:
        out.append(pair(base.data[(0,)] + A("z%d.real" % k), base.data[(1,)] + A("z%d.imag" % k)))
        k += 1 if x == "c" else 2
    return out


def expect(v, want, what, where, world):
    v = to_arr(v)
    if v.shape != want.shape:
        raise Give("shape of " + what)
    for k in want.data:
        if any(isinstance(a, tuple) and a[0] in ("unset", "earlier") or a == "unset" for a in all_atoms(v.data[k])):
            raise Bad("a coordinate is not set", where)
        c = equal(world, v.data[k], want.data[k])
        if c is False:
            raise Bad(what, where)
        if c is None:
            raise Give(what)


def state_after(sc, case, ev, c, q):
    """control points left for the next command"""
    heap = final_state(sc.res, case)[0].heap
    for attr, want in (("last_c", c), ("last_q", q)):
        v = heap.get((sc.me, attr))
        if want == "any":
            continue
        if v is None:
            raise Bad("%s keeps the control point of an earlier curve" % sc.f.qualname, sc.f.where)
        v = ev.resolve(v)
        if want is None:
            if not (v.op == "const" and v.args[1] is None):
                raise Bad("a control point is left for the next command although this one draws no such curve", sc.f.where)
            continue
        if v.op == "const" and v.args[1] is None:
            raise Bad("no control point is left for the next command", sc.f.where)
        got = ev.ev(last_round(sc, heap, v))
        expect(got, want, "the control point left for the next command is not the last one of the curve", sc.f.where, ev.world)


def last_round(sc, heap, v):
    """a value after the loop in terms of its last round"""
    v = strip(v)
    if v.op == "loopv" and v.info and v.info.get("next") is not None:
        return last_round(sc, heap, v.info["next"])
    if v.op == "sub" and strip(v.args[0]).op == "loopv" and isinstance(strip(v.args[0]).args[1], str):
        b = strip(v.args[0]).info.get("next")
        if b is None:
            raise Give("control point")
        c = heap.get((strip(b), "$c"), b.args[1] if b.op == "ver" else None)
        while c is not None and c.op == "loopv":
            c = (c.info or {}).get("next")
        if c is not None:
            b = sc.it.mk("ver", strip(b), c)
        elif b.op == "ver" or b.op == "call" and b.args[0] in ("numpy.empty", "numpy.zeros"):
            raise Give("control point")
        return sc.it.mk("sub", b, v.args[1])
    return v


def returns_self(sc):
    for g, st, v in sc.res.returns:
        if strip(v) is not sc.me:
            raise Bad("the curve itself is not returned", sc.f.where)


def zero():
    return pair(ZERO, ZERO)


def lines(prog, cls, name, rec):
    f = prog.need_method("Curve", name)
    for pat in (("c",), ("n",)):
        sc = Command(prog, cls, f, pat)
        rec.saw(sc.it)
        rec.n += 1

        def one(case):
            w = world()
            ev = case.ev = CEval(sc, case, w)
            adds = additions(sc, case, ev)
            if len(adds) != 1 or adds[0].name != "append":
                raise Give("points added")
            e = adds[0]
            want = items(sc, ev.origin if name == "l" else zero())[0]
            expect(ev.ev(e.args[0]), want, "the point added is not the one given" if name == "L" else "the point added is not the one given relative to the end of the curve", e.where, w)
            check_progress(sc, e)
            state_after(sc, case, ev, None, None)
            returns_self(sc)

        rec.guard(sc, one)


def axis(prog, cls, name, rec):
    f = prog.need_method("Curve", name)
    sc = Command(prog, cls, f)
    rec.saw(sc.it)
    rec.n += 1

    def one(case):
        w = world()
        ev = case.ev = CEval(sc, case, w)
        adds = additions(sc, case, ev)
        if len(adds) != 1:
            raise Give("points added")
        e = adds[0]
        v = ev.ev(e.args[0])
        if e.name == "append":
            if len(e.loops) != 1 or strip(e.loops[0][1]) is not sc.star:
                raise Give("loop over the coordinates")
            v = to_arr(v)
        else:
            if e.loops or not isinstance(v, Rows) or len(v.blocks) != 1:
                raise Give("points added")
            b = v.blocks[0]
            if b.total != A("N"):
                raise Give("points added")
            if b.rev or b.first != ZERO or b.rows != A("N"):
                raise Bad("points are left out or in another order", e.where)
            v = b.val
        # the coordinate along the axis may be read from any point added before
        j = 0 if name in "Hh" else 1
        m = {"P.%d" % (1 - j): A("O.%d" % (1 - j))}
        v = pmap(v, lambda p: subst(p, m))
        x = A("@x") + (A("O.%d" % j) if name in "hv" else ZERO)
        want = pair(x, A("O.1")) if j == 0 else pair(A("O.0"), x)
        expect(v, want, "the point added is not the one given along the axis", e.where, w)
        state_after(sc, case, ev, None, None)
        returns_self(sc)

    rec.guard(sc, one)


def sampled(sc, case, ev, e, where):
    """the points added are the samples of a Bezier curve but the first; its control points"""
    v = ev.ev(e.args[0])
    if e.name != "extend" or not isinstance(v, Rows) or len(v.blocks) != 1:
        raise Give("points of a curve")
    b = v.blocks[0]
    if b.rev:
        raise Bad("the points of a curve are added backwards", e.where)
    if not b.sampled() or b.total != A("N"):
        raise Give("points of a curve")
    if b.first != ONE or b.rows != b.total - ONE:
        raise Bad("the points added are not all samples of the curve but its start", e.where)
    want = pair(A(("fn:curve_function.0", A("@u"))), A(("fn:curve_function.1", A("@u"))))
    expect(b.val, want, "the points added are not those of the curve", e.where, ev.world)
    for x in subnodes(e.args[0], follow=False):
        if x.op == "comp" and x.args[0] == "list":
            ev.sample(x)
    for x in sc.res.effects:
        if x.kind == "mcall" and x.name == "insert":
            ev.sample(strip(x.recv))
    for x in list(ev.lists):
        if x.op == "comp" and len(x.args[2]) == 1:
            ev.sample(strip(x.args[2][0]))
    samples(sc, case, ev, sc.f)
    refined(sc, case, ev)
    if ev.ctrl is None:
        raise Give("control points")
    return ev.ctrl


def refined(sc, case, ev):
    """all pairs of neighbouring samples are tested"""
    for e in sc.res.effects:
        if e.kind != "mcall" or e.name != "insert" or strip(e.recv) not in ev.lists:
            continue
        loops = [l for l in e.loops if l[2] == "while"]
        i = strip(e.args[0])
        if not loops or i.op != "loopv" or i.args[0] != loops[-1][0]:
            raise Give("refinement")
        if i.info.get("init") is None or i.info["init"].op != "const" or i.info["init"].args[1] != 1:
            raise Bad("the first part of the curve is not refined", e.where)
        nx = i.info.get("next")
        if nx is None or nx.op != "ite":
            raise Give("refinement")
        g = [(c, p) for c, p in e.guards if c is nx.args[0]]
        if len(g) != 1:
            raise Give("refinement")
        stay, go = (nx.args[1], nx.args[2]) if g[0][1] else (nx.args[2], nx.args[1])
        if stay is not i:
            raise Bad("the part before a new sample is not tested again", e.where)
        if ev.count(go) != ev.count(i) + ONE:
            raise Bad("parts of the curve are not tested", e.where)
        cond = [(c, p) for c, p in e.guards if c.op == "cmp" and any(x is i for x in subnodes(c.args[1], follow=False)) and c is not nx.args[0]]
        if len(cond) != 1 or not cond[0][1]:
            raise Give("refinement")
        c = cond[0][0]
        l, r = c.args[1], strip(c.args[2])
        if strip(l) is not i or c.args[0] != "<" or not (r.op == "call" and r.args[0] == "len" and strip(r.args[1][0]) in ev.lists):
            raise Give("refinement")


def curves(prog, cls, name, rec):
    f = prog.need_method("Curve", name)
    kind = name.upper()
    attr = "last_c" if kind in "CS" else "last_q"
    pats = [()]
    for _ in range(CURVES[kind]):
        pats = [p + (x,) for p in pats for x in "cn"]
    for pat in pats:
        for before in ((None, attr) if kind in "ST" else (None,)):
            sc = Command(prog, cls, f, pat, before or False)
            rec.saw(sc.it)
            rec.n += 1

            def one(case):
                w = world()
                ev = case.ev = CEval(sc, case, w)
                adds = additions(sc, case, ev)
                if len(adds) != 1:
                    raise Give("points added")
                e = adds[0]
                ctrl = to_arr(ev.ev(sampled(sc, case, ev, e, f.where)))
                p = pair(A("P.0"), A("P.1"))
                rows = [p]
                if kind in "ST":
                    rows.append(pmap2(p, pair(A("L.0"), A("L.1")), lambda x, y: x * Poly.const(2) - y))
                rows += items(sc, ev.origin if name in "csqt" else zero())
                want = Arr((len(rows), 2), {(i, j): rows[i].data[(j,)] for i in range(len(rows)) for j in (0, 1)})
                if ctrl.shape != want.shape:
                    raise Bad("a curve has not the number of control points of its degree", e.where)
                for i in range(len(rows)):
                    got = pair(ctrl.data[(i, 0)], ctrl.data[(i, 1)])
                    expect(got, rows[i], "a curve does not start at the end of the one before" if i == 0 else "control point %d of a curve is not the one %s" % (i, "given" if i >= len(rows) - len(pat) else "reflected"), e.where, w)
                check_progress(sc, e)
                last = pmap(rows[2 if attr == "last_c" else 1], lambda x: x)
                state_after(sc, case, ev, last if attr == "last_c" else None, last if attr == "last_q" else None)
                returns_self(sc)

            rec.guard(sc, one)


def pmap2(a, b, fn):
    return Arr(a.shape, {k: fn(a.data[k], b.data[k]) for k in a.data})


def arc(prog, cls, f, rec):
    for radius in ("number", "list"):
        for turned in (0, 1, -1):
            kinds = {"radius": radius, "initial_angle": "number", "final_angle": "number", "rotation": "number"}
            sc = Command(prog, cls, f, kinds=kinds)
            rec.saw(sc.it)
            rec.n += 1

            def one(case):
                w = world({} if turned else {"rotation": ZERO})
                if turned:
                    w.ranges["rotation"] = uniform(0.1, 3) if turned > 0 else uniform(-3, -0.1)
                ev = case.ev = AEval(sc, case, w)
                adds = additions(sc, case, ev)
                if len(adds) != 1 or adds[0].name != "extend":
                    raise Give("points added")
                e = adds[0]
                v = ev.ev(e.args[0])
                if not isinstance(v, Rows) or len(v.blocks) != 1:
                    raise Give("points added")
                b = v.blocks[0].normal()
                if b.rev or b.rows == b.total:
                    raise Bad("the start of the arc is added again or the arc is not drawn forwards", e.where)
                if b.first != ONE or b.rows != b.total - ONE:
                    raise Bad("the points added are not all points of the arc but its start", e.where)
                rx, ry = (A("radius"), A("radius")) if radius == "number" else (A("rx"), A("ry"))
                ro = A("rotation") if turned else ZERO
                ia, fa = A("initial_angle"), A("final_angle")

                def ellipse(t):
                    x, y = rx * trig("cos", t - ro), ry * trig("sin", t - ro)
                    c, s = trig("cos", ro), trig("sin", ro)
                    return x * c - y * s, x * s + y * c

                z, a = ellipse(ia + (fa - ia) * S), ellipse(ia)
                want = pair(A("O.0") + z[0] - a[0], A("O.1") + z[1] - a[1])
                expect(b.val, want, "the points added are not those of the arc from the end of the curve", e.where, w)
                state_after(sc, case, ev, None, None)
                returns_self(sc)

            rec.guard(sc, one)


class AEval(CEval):
    def leafs(self, n):
        s = strip(n)
        if s.op == "param" and s.args[0] == "radius" and self.sc.kinds["radius"] == "list":
            return pair(A("rx"), A("ry"))
        if s.op == "call" and s.args[0] in ("max", "numpy.max", "numpy.amax", "min") and len(s.args[1]) == 1 and strip(s.args[1][0]).op == "param":
            return scalar(A("radius"))
        if n.op == "call" and n.args[0] in ("numpy.empty_like", "numpy.zeros_like", "numpy.empty", "numpy.zeros") and n not in self.inside:
            # one of several arrays: contents when the method ends
            fin = final_state(self.sc.res, self.case)
            c = fin[0].heap.get((n, "$c")) if fin else None
            if c is not None:
                self.inside.add(n)
                try:
                    return self.ev(self.it.mk("ver", n, c))
                finally:
                    self.inside.discard(n)
        return CEval.leafs(self, n)

    inside = set()

    def call(self, n, d):
        if n.args[0] in ("numpy.empty_like", "numpy.zeros_like") and len(n.args[1]) == 1:
            v = self.ev(n.args[1][0], d)
            if isinstance(v, Rows):
                return self.mapped(v, lambda p: A("unset"))
        return CEval.call(self, n, d)


def closed(prog, cls, f, rec):
    """the last point is left out exactly if it is at the first"""
    sc = Command(prog, cls, f)
    rec.saw(sc.it)
    rec.n += 1

    def one(case):
        w = world()
        ev = case.ev = CEval(sc, case, w)
        got = []
        for g, st, v in sc.res.returns:
            v = strip(v)
            if v.op == "call" and v.args[0] in ("numpy.array", "numpy.asarray", "numpy.vstack") and len(v.args[1]) == 1:
                v = v.args[1][0]
            elif v.op == "mcall" and v.args[1] == "copy":
                v = v.args[0]
            else:
                raise Give("result")
            cut = False
            b = strip(v)
            if b.op == "sub" and ev.mine(b.args[0]) and b.args[1].op == "slice":
                lo, hi, step = [x if isinstance(x, Node) and not (x.op == "const" and x.args[1] is None) else None for x in b.args[1].args]
                if step is not None or lo is not None and not ev.zero(lo):
                    raise Bad("points are left out", sc.f.where)
                if hi is not None:
                    if not ev.minus_one(hi):
                        raise Give("result")
                    cut = True
            elif not ev.mine(b):
                raise Give("result")
            got.append((g, cut))
        d = [(A("O.%d" % j) - A("F.%d" % j)) for j in (0, 1)]
        due = d[0] * d[0] + d[1] * d[1] - A("tolerance") * A("tolerance")
        for seed in range(60):
            env = w.env(seed)
            env = type(env)(env)
            rng = random.Random(seed)
            if seed % 3:
                env["O.0"] = env["F.0"] + rng.uniform(-0.1, 0.1)
                env["O.1"] = env["F.1"] + rng.uniform(-0.1, 0.1)
            y = affine.value(due, env)
            if abs(y) < 1e-6:
                continue
            live = []
            for g, cut in got:
                ok = True
                for c, p in g:
                    r = truth(ev, c, env)
                    if r is not p:
                        ok = False
                if ok:
                    live.append(cut)
            if len(live) != 1:
                raise Give("conditions")
            if live[0] is not (y < 0):
                raise Bad("the last point is not left out exactly if it is within the tolerance of the first", sc.f.where)

    rec.guard(sc, one)


def truth(ev, c, env):
    if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
        a, b = [affine.value(ev.arr(x).data[()], env) for x in c.args[1:3]]
        return a < b if c.args[0] in ("<", "<=") else a > b
    if c.op == "bool":
        r = [truth(ev, x, env) for x in (c.args[1] if isinstance(c.args[1], tuple) else c.args[1:])]
        return all(r) if c.args[0] == "and" else any(r)
    if c.op == "un" and c.args[0] == "not":
        return not truth(ev, c.args[1], env)
    raise Give("condition")


def start(prog, cls, f, rec):
    """Curve(x, y): first point and tolerance"""
    for kind in "cn":
        sc = Command(prog, cls, f, ("c",))
        it = sc.it
        x = it.mk("param", "x")

        def assume(c, st):
            if c.op == "call" and c.args[0] == "isinstance" and strip(c.args[1][0]) is x:
                return kind == "c"
            return None

        it.assume = assume
        sc.res = it.run(f, self_cls=cls, args={}, self_node=sc.me)
        rec.saw(it)
        rec.n += 1

        def one(case):
            w = World({}, {a: uniform(0.1, 3) for a in ("x", "x.imag", "y", "tolerance")})
            ev = case.ev = SEval(sc, case, w)
            ev.complex = kind == "c"
            st = final_state(sc.res, case)[0]
            heap = st.heap
            pts = heap.get((sc.me, "points"))
            if pts is None:
                raise Bad("a curve is created without points", f.where)
            pts = strip(ev.resolve(pts))
            if pts.op != "list":
                raise Give("points")
            if len(pts.args[0]) != 1:
                raise Bad("a curve does not start with one point", f.where)
            want = pair(A("x"), A("x.imag") if kind == "c" else A("y"))
            expect(ev.ev(pts.args[0][0]), want, "a curve does not start at the point given", f.where, w)
            t = heap.get((sc.me, "tol"))
            if t is None:
                raise Bad("the tolerance is not kept", f.where)
            expect(ev.ev(t), scalar(A("tolerance") * A("tolerance")), "the tolerance kept is not the square of the one given", f.where, w)
            for a in ("last_c", "last_q"):
                v = heap.get((sc.me, a))
                if v is None or not (v.op == "const" and v.args[1] is None):
                    raise Bad("a curve is created with a control point left for the first command", f.where)

        rec.guard(sc, one)


class SEval(REval):
    def leafs(self, n):
        s = strip(n)
        if s.op == "attr" and s.args[1] in ("real", "imag") and strip(s.args[0]).op == "param" and strip(s.args[0]).args[0] == "x" and self.complex:
            return scalar(A("x" if s.args[1] == "real" else "x.imag"))
        if s.op == "param" and s.args[0] in ("x", "y", "tolerance"):
            if s.args[0] == "x" and self.complex:
                raise Bad("a complex number is used as a coordinate", self.sc.f.where)
            return scalar(A(s.args[0]))
        return REval.leafs(self, n)


def general(prog, cls, name, rec):
    """B, b: one Bezier curve of all points given"""
    f = prog.need_method("Curve", name)
    for pat in (("c",), ("n",)):
        sc = Command(prog, cls, f, pat)
        rec.saw(sc.it)
        rec.n += 1

        def one(case):
            w = world()
            ev = case.ev = BEval(sc, case, w)
            adds = additions(sc, case, ev)
            if len(adds) != 1 or adds[0].loops:
                raise Give("points added")
            ctrl = strip(sampled(sc, case, ev, adds[0], f.where))
            while ctrl.op == "call" and ctrl.args[0] in ("numpy.array", "numpy.asarray") and len(ctrl.args[1]) == 1:
                ctrl = strip(ctrl.args[1][0])
            if ctrl.op != "list":
                raise Give("control points")
            if len(ctrl.args[0]) != 1:
                raise Give("control points")
            expect(ev.ev(ctrl.args[0][0]), ev.origin, "a curve does not start at the end of the one before", f.where, w)
            ups = [e for e in sc.res.effects if e.kind in ("mcall", "storeitem", "aug", "delitem") and strip(e.recv if e.kind == "mcall" else e.obj) is ctrl]
            if len(ups) != 1 or ups[0].kind != "mcall" or ups[0].name != "append":
                raise Give("control points")
            expect(ev.ev(ups[0].args[0]), items(sc, ev.origin if name == "b" else zero())[0], "a control point is not the one given", ups[0].where, w)
            check_progress(sc, ups[0])
            state_after(sc, case, ev, None, None)
            returns_self(sc)

        rec.guard(sc, one)


class BEval(CEval):
    """positions may be any increasing function of equal steps with 0 at 0 and 1 at 1"""

    def leafs(self, n):
        s = strip(n)
        if s.op == "sub" and s.args[0].op == "ver" and s.args[0].args[1].op == "loopv" and strip(s.args[0]).op == "list" and len(strip(s.args[0]).args[0]) == 1 and self.minus_one(s.args[1]):
            # the control point before
            return pair(A("Z.0"), A("Z.1"))
        if s.op == "call" and s.args[0] in ("list", "numpy.linspace"):
            v = self.steps(s)
            if v:
                if n.op == "ver" and n.args[1].op == "loopv":
                    return self.sample(s)
                if n.op != "ver" or n.args[1].op == "init":
                    return Rows([Block(A("N"), scalar(S))])
        return CEval.leafs(self, n)

    def element(self, s):
        if s.op == "elem" and strip(s.args[0]).op in ("call", "bin") and self.steps(strip(s.args[0])):
            return scalar(S)
        return CEval.element(self, s)

    def steps(self, s):
        memo = self.__dict__.setdefault("known_steps", {})
        if s in memo:
            return memo[s]
        memo[s] = None
        n = s
        while n.op == "call" and n.args[0] in ("list", "numpy.array"):
            n = strip(n.args[1][0])
        lin = [x for x in subnodes(n) if x.op == "call" and x.args[0] == "numpy.linspace"]
        if len(lin) != 1:
            return None
        m = lin[0].args[1]
        try:
            a, b = [float(self.arr(x).data[()].cval()) for x in m[:2]]
            vals = [number(n, lin[0], a + (b - a) * k / 20.0) for k in range(21)]
        except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError, KeyError) as x:
            return None
        if abs(vals[0]) > 1e-9 or abs(vals[-1] - 1) > 1e-9:
            raise Bad("the curve is not sampled at its start and its end", self.sc.f.where)
        if any(x >= y for x, y in zip(vals, vals[1:])):
            raise Bad("the samples of the curve are not in order", self.sc.f.where)
        memo[s] = True
        return True


def number(n, at, x):
    """value of an elementwise expression"""
    n = strip(n)
    if n is at:
        return x
    if n.op == "const":
        return float(n.args[1])
    if n.op == "bin":
        a, b = number(n.args[1], at, x), number(n.args[2], at, x)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b}[n.args[0]]()
    if n.op == "un" and n.args[0] == "-":
        return -number(n.args[1], at, x)
    if n.op == "call" and n.args[0] in ("numpy.sign", "numpy.abs", "abs", "numpy.absolute", "numpy.sin", "numpy.cos", "numpy.sqrt") and len(n.args[1]) == 1:
        v = number(n.args[1][0], at, x)
        return {"sign": lambda v: (v > 0) - (v < 0), "abs": abs, "absolute": abs, "sin": math.sin, "cos": math.cos, "sqrt": math.sqrt}[n.args[0].split(".")[-1]](v)
    if n.op == "attr" or n.op == "ext":
        if "pi" in show(n, 2):
            return math.pi
    raise Unsupported("positions")


def hobby(prog, cls, name, rec):
    """I, i: cubic curves through the points, with the controls computed for them"""
    f = prog.need_method("Curve", name)
    for cycle in (False, True):
        sc = Command(prog, cls, f, opts={"cycle": cycle}, keep=("_func_bezier", "_hobby"))
        rec.saw(sc.it)
        rec.n += 1

        def one(case):
            w = world()
            ev = case.ev = CEval(sc, case, w)
            calls = [e for e in sc.res.effects if e.kind == "icall" and e.data["func"].name == "C"]
            hob = [e for e in sc.res.effects if e.kind == "icall" and e.data["func"].name == "_hobby"]
            if len(calls) != 1 or len(hob) != 1 or calls[0].guards or calls[0].loops:
                raise Give("curves")
            e = calls[0]
            if strip(e.args[0]) is not sc.me or len(e.args) != 2 or e.args[1].op != "star":
                raise Give("arguments")
            h = strip(hob[0].data["result"])
            pts = hob[0].args[0]

            def cell(n):
                """(which array, row, column)"""
                n = strip(n)
                if n.op != "sub":
                    raise Give("argument " + show(n, 2))
                b, k = strip(n.args[0]), n.args[1]
                if k.op == "tuple" and len(k.args[0]) == 2:
                    r, c = k.args[0]
                elif b.op == "sub" and k.op == "const":
                    r, c, b = b.args[1], k, strip(b.args[0])
                else:
                    raise Give("argument")
                if b is strip(pts):
                    which = "pts"
                elif b.op == "sub" and strip(b.args[0]) is h and b.args[1].op == "const":
                    which = b.args[1].args[1]
                else:
                    raise Give("argument")
                return which, rowof(r), c.args[1] if c.op == "const" else None

            def rowof(r):
                r = strip(r)
                if r.op == "const":
                    return r.args[1]
                if r.op == "un" and r.args[0] == "-" and r.args[1].op == "const":
                    return -r.args[1].args[1]
                if r.op in ("elem", "idx"):
                    return ("i", 0)
                if r.op == "bin" and r.args[0] in ("+", "-") and r.args[2].op == "const":
                    b = rowof(r.args[1])
                    if isinstance(b, tuple):
                        return ("i", b[1] + r.args[2].args[1] * (1 if r.args[0] == "+" else -1))
                raise Give("row")

            def group(l):
                return [cell(x) for x in l]

            c = e.args[1].args[0]
            base, ups = strip(c), []
            if c.op == "ver":
                c = c.args[1]
                while c.op == "upd":
                    ups.append((c.args[1], c.args[2]))
                    c = c.args[0]
            if base.op != "list" or base.args[0] or c.op != "init":
                raise Give("arguments")
            ups = ups[::-1]
            if not ups or any(k != "extend" for k, _ in ups):
                raise Give("arguments")
            if len(ups) != (2 if cycle else 1):
                raise Bad("a closed curve has no last part" if len(ups) < 2 else "an open curve is closed", e.where)
            first = strip(ups[0][1][0])
            if first.op != "comp" or len(first.args[2]) != 2 or first.args[3]:
                raise Give("arguments")
            rng, six = strip(first.args[2][0]), strip(first.args[2][1])
            if strip(first.args[1]).op != "elem" or six.op not in ("list", "tuple"):
                raise Give("arguments")
            if group(six.args[0]) != [(0, ("i", 0), 0), (0, ("i", 0), 1), (1, ("i", 0), 0), (1, ("i", 0), 1), ("pts", ("i", 1), 0), ("pts", ("i", 1), 1)]:
                raise Bad("a part of the curve does not use its own two control points and its end", e.where)
            if cycle:
                l = strip(ups[1][1][0])
                if l.op not in ("list", "tuple"):
                    raise Give("arguments")
                if group(l.args[0]) != [(0, -1, 0), (0, -1, 1), (1, -1, 0), (1, -1, 1), ("pts", 0, 0), ("pts", 0, 1)]:
                    raise Bad("the last part of a closed curve does not use the last two control points and the first point", e.where)
            if not (rng.op == "call" and rng.args[0] == "range" and len(rng.args[1]) == 1):
                raise Give("range")
            k = strip(rng.args[1][0])
            if not (k.op == "bin" and k.args[0] == "-" and k.args[2].op == "const" and counts(k.args[1], pts)):
                raise Give("range")
            if k.args[2].args[1] != 1:
                raise Bad("the curve has not one part between any two points", e.where)
            # points of the curve: its end, then those given
            v = strip(pts)
            off = None
            if v.op == "bin" and v.args[0] == "+":
                off, v = v.args[2], strip(v.args[1])
                if v.op == "sub" or strip(off).op == "call":
                    off, v = v, strip(off)
            if not (v.op == "call" and v.args[0] in ("numpy.vstack", "numpy.concatenate") and v.args[1][0].op in ("tuple", "list") and len(v.args[1][0].args[0]) == 2):
                raise Give("points")
            a, b = v.args[1][0].args[0]
            if not (strip(b).op == "param" and strip(b).args[0] == "points"):
                raise Give("points")
            a = to_arr(ev.ev(a))
            if a.shape == (2,):
                a = Arr((1, 2), {(0, j): a.data[(j,)] for j in (0, 1)})
            if a.shape != (1, 2):
                raise Give("points")
            o = zero() if off is None else to_arr(ev.ev(off))
            want = zero() if name == "I" else ev.origin
            expect(o, want, "points given relative to the end of the curve are not moved there" if name == "i" else "points given are moved", e.where, w)
            expect(pair(a.data[(0, 0)] + o.data[(0,)], a.data[(0, 1)] + o.data[(1,)]), ev.origin, "the curve does not start at its end before", e.where, w)

        rec.guard(sc, one)


def counts(n, pts):
    n = strip(n)
    p = strip(pts)
    if n.op == "call" and n.args[0] == "len":
        return strip(n.args[1][0]) is p
    if n.op == "sub" and n.args[1].op == "const" and n.args[1].args[1] == 0:
        b = strip(n.args[0])
        return b.op == "attr" and b.args[1] == "shape" and strip(b.args[0]) is p
    return False


def bezier(prog, cls, f, rec):
    """the function of a Bezier curve: combinations of neighbouring points with
    weights u and 1 - u, once for each point but one"""
    sc = Command(prog, cls, f, ("c", "c"), keep=("_hobby",))
    rec.saw(sc.it)
    rec.n += 1

    def one(case):
        w = world()
        ev = case.ev = CEval(sc, case, w)
        adds = additions(sc, case, ev)
        if len(adds) != 1:
            raise Give("points added")
        e = adds[0]
        done = 0
        for c in subnodes(e.args[0]):
            if c.op != "comp":
                continue
            v = strip(c.args[1])
            if v.op == "elem":
                continue
            if v.op != "sub" or strip(v.args[0]).op != "loopv":
                raise Give("function of a Bezier curve")
            p = strip(v.args[0])
            if not ev.zero(v.args[1]):
                raise Bad("the value is not the point left at the end", e.where)
            done += 1
            nx = p.info.get("next")
            src, kind = sc.it.loop_iters.get(p.args[0], (None, None))
            src = strip(src) if src is not None else None
            init = p.info.get("init")
            if nx is None or init is None or kind != "for" or src.op != "call" or src.args[0] != "range" or len(src.args[1]) != 1:
                raise Give("function of a Bezier curve")
            k = strip(src.args[1][0])
            if not (k.op == "bin" and k.args[0] == "-" and k.args[2].op == "const" and counts(k.args[1], init)):
                raise Give("function of a Bezier curve")
            if k.args[2].args[1] != 1:
                raise Bad("points are not combined once for each point but one", e.where)
            us = [x for x in subnodes(nx) if x.op == "elem"]
            r = combination(nx, p, us)
            u = A("u")
            hi, lo = coef(r, A("p1")), coef(r, A("p0"))
            if r != hi * A("p1") + lo * A("p0"):
                raise Give("function of a Bezier curve")
            if hi != u or lo != ONE - u:
                raise Bad("the weights of neighbouring points are not u and 1 - u", e.where)
        if not done:
            raise Give("function of a Bezier curve")

    rec.guard(sc, one)


def combination(n, p, us):
    n = strip(n)
    if n.op == "const":
        return Poly.const(Fraction(n.args[1]))
    if n in us:
        return A("u")
    if n.op == "un" and n.args[0] == "-":
        return -combination(n.args[1], p, us)
    if n.op == "bin" and n.args[0] in ("+", "-", "*"):
        a, b = combination(n.args[1], p, us), combination(n.args[2], p, us)
        return a + b if n.args[0] == "+" else a - b if n.args[0] == "-" else a * b
    if n.op == "sub" and strip(n.args[0]) is p and n.args[1].op == "slice":
        lo, hi, st = [None if not isinstance(x, Node) or x.op == "const" and x.args[1] is None else (x.args[1] if x.op == "const" else -x.args[1].args[1] if x.op == "un" and x.args[1].op == "const" else "?") for x in n.args[1].args]
        if st is None and (lo, hi) == (1, None):
            return A("p1")
        if st is None and lo in (None, 0) and hi == -1:
            return A("p0")
    raise Give("function of a Bezier curve")


def commands(ctx):
    rule = "every command of a Curve adds the points of its segments from the end of the curve, relative to it for names in lower case, and leaves its control point for smooth segments only"
    ctx.rule(rule)
    prog = ctx.prog
    cls = prog.need_class("Curve")
    todo = [("__init__", start), ("get_points", closed), ("arc", arc)]
    todo += [(n, lines) for n in "Ll"] + [(n, axis) for n in "HhVv"] + [(n, curves) for n in "CcSsQqTt"] + [(n, general) for n in "Bb"] + [(n, hobby) for n in "Ii"]
    todo += [("Q:", bezier)]
    for name, fn in todo:
        what = "function of Bezier curves" if name == "Q:" else None
        f = prog.need_method("Curve", name.rstrip(":"))
        rec = Recorder(ctx, f)
        fn(prog, cls, f if len(name) > 1 else name, rec)
        if rec.probs:
            for m, w in sorted(rec.probs.items()):
                ctx.violation("command", "%s|%s" % (what or f.qualname, m), w or f.where, m)
        elif rec.gave:
            ctx.unknown("command", f.where, "%s: %s" % (what or f.qualname, rec.gave[0]))
        else:
            ctx.ok("commands of Curve", "%s: %s, %d kinds of arguments" % (f.where, f.qualname, rec.n))
