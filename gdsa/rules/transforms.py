"""Transformation methods (C33): every stored coordinate and length of an object
goes through the same affine map."""
from fractions import Fraction

from ..interp import Interp, show, subnodes
from ..flow import strip
from ..lin import Fork
from ..poly import Poly
from ..affine import Arr, Tup, Eval, Unsupported, scalar, pair, rows, same, to_arr, value, ONE, ZERO, matmul
from .geometry import A, Em, Give, Bad, Collector, compare_point, run_cases, return_values, effect_iters, need_guards, substitution

R = "transform"

# list attributes: names of the nesting levels below the attribute
LISTS = {"polygons": ("polygon",), "paths": ("path", "section"), "bend_radius": ("radius",), "ends": ("end", "extension"), "widths": ("width",), "offsets": ("offset",)}


def cos(p):
    return Poly.atom(("cos", p))


def sin(p):
    return Poly.atom(("sin", p))


def rot(a, x, y):
    return x * cos(a) - y * sin(a), x * sin(a) + y * cos(a)


class MethRun(object):
    def __init__(self, prog, cls, meth, consts=None, flags=None):
        self.prog, self.cls = prog, cls
        self.func = f = prog.need_method(cls.name, meth)
        self.flags = flags or {}
        self.subcls = prog.need_class("_SubPath")
        self.flex = cls.find_attr("_pathtype_dict") is not None and cls.name == "FlexPath"
        self.it = it = Interp(prog, assume=self.assume, types=self.types)
        self.self_node = it.mk("param", f.params()[0])
        args = {k: it.mk("param", k) for k in f.params()[1:]}
        args.update({k: it.const(v) for k, v in (consts or {}).items()})
        self.res = it.run(f, self_cls=cls, args=args, self_node=self.self_node)
        self.case = None

    # -- structure
    def path_of(self, n):
        """(list attribute, depth, index tokens) of a node inside the object"""
        n = strip(n)
        if n.op == "attr" and n.args[0] is self.self_node and n.args[1] in LISTS and not (self.flex and n.args[1] in ("widths", "offsets")):
            return (n.args[1], 0, ())
        if n.op == "elem":
            p = self.path_of(n.args[0])
            return p and (p[0], p[1] + 1, p[2] + (n.args[1],))
        if n.op == "sub" and n.args[1].op != "slice":
            p = self.path_of(n.args[0])
            return p and (p[0], p[1] + 1, p[2] + (self.token(n.args[1]),))
        if n.op == "sub" and n.args[1].op == "slice":
            if all(x.op == "const" and x.args[1] in (None, 1, -1) for x in n.args[1].args[2:]) and all(x.op == "const" and x.args[1] is None for x in n.args[1].args[:2]):
                return self.path_of(n.args[0])
            return None
        if n.op == "call" and n.args[0] in ("list", "tuple", "reversed", "iter", "copy.copy", "copy.deepcopy") and len(n.args[1]) == 1:
            return self.path_of(n.args[1][0])
        if n.op == "mcall" and n.args[1] == "copy" and not n.args[2]:
            return self.path_of(n.args[0])
        return None

    def token(self, k):
        k = strip(k)
        if k.op == "idx":
            return k.args[0]
        if k.op == "elem":
            return k.args[1]
        if k.op == "loopv":
            return (k.args[0], k.args[1])
        if k.op == "const":
            return ("const", k.args[1])
        return ("?", k)

    def level(self, n):
        p = self.path_of(n)
        if p is None or p[1] == 0 or p[1] > len(LISTS[p[0]]):
            return None
        if any(isinstance(t, tuple) and t and t[0] in ("const", "?") for t in p[2]):
            return None
        if any(isinstance(t, tuple) and t and t[0] == "const" for t in p[2]):
            return None
        return LISTS[p[0]][p[1] - 1]

    def is_source(self, n):
        p = self.path_of(n)
        return p is not None and strip(n).op != "call" and p[1] < len(LISTS[p[0]])

    def types(self, n, it, st):
        if self.level(n) == "section":
            return [self.subcls]
        return None

    def assume(self, c, st):
        def flag(n):
            n = strip(n)
            if n.op == "attr" and n.args[0] is self.self_node and n.args[1] in self.flags:
                return n.args[1]
            lv = self.level(n)
            if lv in ("radius", "end") and lv in self.flags:
                return lv
            return None

        if c.op == "attr":
            f = flag(c)
            if f in ("width_transform", "gdsii_path"):
                return self.flags[f]
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2:
            f = flag(c.args[1][0])
            s = show(c.args[1][1], 4)
            if f == "direction" or f == "end":
                isstr = "str" in s
                istup = "tuple" in s or "list" in s
                if isstr == istup:
                    return None
                if f == "direction":
                    return isstr == (self.flags[f] == "str")
                return istup == (self.flags[f] == "tuple")
        if c.op == "call" and c.args[0] == "callable" and len(c.args[1]) == 1 and flag(c.args[1][0]) == "end":
            return self.flags["end"] == "callable"
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None and c.args[1].op == "param" and c.args[1].args[0] in PARAMS:
            return False
        if c.op == "cmp" and c.args[2].op == "const":
            f = flag(c.args[1])
            k = c.args[2].args[1]
            if f == "radius" and c.args[0] == "is" and k is None:
                return self.flags[f] is None
            if f == "end" and isinstance(k, str) and self.flags[f] == "tuple":
                return False
        if c.op == "cmp" and c.args[0] == "in" and flag(c.args[1]) == "direction" and "_directions" in show(c.args[2], 3):
            return self.flags["direction"] == "str"
        return None

    # -- loops
    def iter_kind(self, itn):
        n = strip(itn)
        p = self.path_of(n)
        if p is not None and not (n.op == "sub" and False):
            return p[0], p[1]
        if n.op == "comp" and n.args[0] in ("list", "gen") and len(n.args[2]) == 1 and not n.args[3]:
            return self.iter_kind(n.args[2][0])
        if self.case is not None:
            e = self.built(n)
            if e is not None:
                return self.iter_kind(e.iters[0])
        if n.op == "call" and n.args[0] in ("list", "tuple") and len(n.args[1]) == 1:
            return self.iter_kind(n.args[1][0])
        if n.op == "call" and n.args[0] in ("enumerate", "range") and len(n.args[1]) == 1:
            x = strip(n.args[1][0])
            if n.args[0] == "enumerate":
                return self.iter_kind(x)
            if x.op == "call" and x.args[0] == "len":
                return self.iter_kind(x.args[1][0])
            if x.op == "attr" and x.args[0] is self.self_node and x.args[1] == "n":
                return ("n", 0)
        if n.op == "sub" and n.args[1].op == "slice":
            p = self.path_of(n.args[0])
            if p is not None and all(x.op == "const" for x in n.args[1].args):
                raise Bad("only a part of the %s is transformed" % p[0])
        if n.op == "cmp":
            v = n.args[1]
            init = v.info.get("init") if v.info else None
            nx = v.info.get("next") if v.info else None
            h = strip(n.args[2])
            if n.args[0] == "<" and init is not None and init.op == "const" and init.args[1] == 0 and nx is not None and nx.op == "bin" and nx.args[0] == "+" and nx.args[1] is v and nx.args[2].op == "const" and nx.args[2].args[1] == 1 and h.op == "call" and h.args[0] == "len":
                return self.iter_kind(h.args[1][0])
        if n.op == "call" and n.args[0] in ("itertools.chain.from_iterable",) and len(n.args[1]) == 1:
            p = self.path_of(n.args[1][0])
            if p is not None:
                return (p[0], p[1] + 1, "flat")
        if n.op == "call" and n.args[0] == "itertools.chain" and len(n.args[1]) == 1 and n.args[1][0].op == "star":
            p = self.path_of(n.args[1][0].args[0])
            if p is not None:
                return (p[0], p[1] + 1, "flat")
        return None

    def check_iters(self, em, attr, depth):
        got = set()
        for i in em.iters:
            k = self.iter_kind(i)
            if k is None:
                raise Give("loop over " + show(i, 3))
            if k[0] == "n":
                k = (attr, 0)
            if k[0] != attr:
                raise Give("loop over %s for %s" % (k[0], attr))
            got.add(k[1])
            if len(k) == 3:
                got.add(k[1] - 1)
        if len(got) != depth or len(em.iters) > depth:
            raise Give("loops %r" % (em.iters,))

    def built(self, n):
        """the single append of a list built over a whole list of the object"""
        if n.op == "ite":
            n = Eval(self.it, self.leaf, self.case.decide).resolve(n)
        if strip(n).op != "list" or strip(n).args[0]:
            return None
        ems = Collector(self.it, self.res, self.is_source).collect(n, self.case.decide, ())
        if len(ems) == 1 and ems[0].value is not None and ems[0].inplace is None and len(ems[0].iters) == 1:
            need_guards(ems, self.case)
            p = self.iter_kind(ems[0].iters[0])
            if p is not None and p[1] == 0 and len(p) == 2:
                return ems[0]
        return None

    # -- inputs
    def leaf(self, n):
        if n.op == "ver":
            return None
        if n in self.bound:
            return self.bound[n]
        if n.op == "param":
            return PARAMS.get(n.args[0])
        if n.op == "attr" and n.args[0] is self.self_node:
            a = n.args[1]
            if a in ("polygons", "paths", "bend_radius", "ends"):
                return None
            if self.flex:
                if a == "points":
                    return rows(A("px"), A("py"))
                if a in ("widths", "offsets"):
                    return scalar(A(a))
            else:
                if a in ("x", "y") and self.cls.name != "RobustPath":
                    return scalar(A("p" + a))
                if a == "x":
                    return pair(A("px"), A("py"))
                if a in ("widths", "offsets"):
                    return None
            if a in ("w", "distance", "direction", "length"):
                return scalar(A(a))
            if a == "position":
                return pair(A("px"), A("py"))
            if a == "origin":
                return Tup([scalar(A("px")), scalar(A("py"))])
        if n.op == "sub" and "_directions_dict" in show(n.args[0], 2) and n.args[1].op == "attr" and n.args[1].args[1] == "direction":
            return scalar(A("dirname"))
        lv = self.level(n)
        if lv == "polygon":
            return rows(A("px"), A("py"))
        if lv in ("width", "offset", "radius", "extension"):
            return scalar(A(lv))
        if n.op in ("elem", "sub") and self.case is not None and not (n.op == "sub" and n.args[1].op in ("slice", "const")):
            b = strip(Eval(self.it, self.leaf, self.case.decide).resolve(n.args[0]))
            if b.op == "comp" and b.args[0] == "list" and len(b.args[2]) == 1 and not b.args[3]:
                return Eval(self.it, self.leaf, self.case.decide).ev(b.args[1])
            e = self.built(n.args[0])
            if e is not None:
                return Eval(self.it, self.leaf, self.case.decide).ev(e.value)
        if n.op == "sub" and n.args[1].op == "const" and self.level(n.args[0]) == "end":
            return scalar(A("end%r" % (n.args[1].args[1],)))
        if lv == "end":
            return Tup([scalar(A("end0")), scalar(A("end1"))])
        if n.op == "attr" and n.args[1] == "transform" and self.level(n.args[0]) == "section":
            return self.state
        if n.op == "loopv" and isinstance(n.args[1], tuple) and n.info:
            o, a = n.args[1]
            if a == "transform" and self.level(o) == "section":
                return self.loop_exit(n)
        return None

    bound = {}
    state = None

    def loop_exit(self, v):
        """value after a loop that visits the object once"""
        init = v.info.get("init")
        nx = v.info.get("next")
        ev = Eval(self.it, self.leaf, self.case.decide)
        start = ev.ev(init) if init is not None and init is not v else self.state
        if nx is None:
            raise Give("loop value")
        old = self.bound
        self.bound = dict(old)
        self.bound[v] = start
        try:
            return Eval(self.it, self.leaf, self.case.decide).ev(nx)
        finally:
            self.bound = old

    def final(self, heap, attr):
        v = heap.get((self.self_node, attr)) or self.it.mk("attr", self.self_node, attr)
        c = heap.get((v, "$c"))
        if c is not None:
            v = self.it.mk("ver", v, c)
        return v


MATRIX = Arr((3, 3), {(i, j): (ONE if i == j else ZERO) if i == 2 else A("m%d%d" % (i, j)) for i in range(3) for j in range(3)})
PARAMS = {
    "dx": scalar(A("dx")), "dy": scalar(A("dy")), "angle": scalar(A("angle")), "center": Tup([scalar(A("cx")), scalar(A("cy"))]),
    "scalex": scalar(A("s")), "scale": scalar(A("s")), "sx": scalar(A("s")), "scaley": scalar(A("t")), "sy": scalar(A("t")), "p1": Tup([scalar(A("ax")), scalar(A("ay"))]), "p2": Tup([scalar(A("bx")), scalar(A("by"))]),
    "translation": pair(A("dx"), A("dy")), "rotation": scalar(A("angle")), "array_trans": pair(A("ux"), A("uy")), "offset": pair(A("dx"), A("dy")),
}


class Map(object):
    """the specification: point -> point, length factor, direction"""

    def __init__(self, text, point, length=None, direction=None):
        self.text, self.point, self.length, self.direction = text, point, length, direction


def maps(meth):
    """[(constants of the pass, Map)]"""
    dx, dy, ang, s, t, cx, cy = [A(x) for x in ("dx", "dy", "angle", "s", "t", "cx", "cy")]
    if meth == "translate":
        return [({}, Map("translate", lambda x, y: (x + dx, y + dy), ONE, lambda d: d))]
    if meth == "rotate":
        def f(x, y):
            a, b = rot(ang, x - cx, y - cy)
            return a + cx, b + cy
        return [({}, Map("rotate", f, ONE, lambda d: d + ang))]
    if meth == "scale":
        return [
            ({"scaley": None}, Map("uniform scale", lambda x, y: ((x - cx) * s + cx, (y - cy) * s + cy), s, lambda d: d)),
            ({}, Map("scale", lambda x, y: ((x - cx) * s + cx, (y - cy) * t + cy), None, None)),
        ]
    if meth == "mirror":
        ax, ay, bx, by = [A(x) for x in ("ax", "ay", "bx", "by")]
        vx, vy = bx - ax, by - ay

        def f(x, y):
            n = Poly({((("inv", vx * vx + vy * vy), 1),): Fraction(1)})
            d = ((x - ax) * vx + (y - ay) * vy) * n * Poly.const(2)
            return d * vx - (x - ax) + ax, d * vy - (y - ay) + ay
        two = Poly.const(2)
        return [({}, Map("mirror", f, ONE, lambda d: two * Poly.atom(("atan2", vy, vx)) - d))]
    raise KeyError(meth)


def transform_maps():
    out = []
    for tr in (False, True):
        for ro in (False, True):
            for sc in (False, True):
                for xr in (False, True):
                    for at in (False, True):
                        c = {"x_reflection": xr}
                        if not tr:
                            c["translation"] = None
                        if not ro:
                            c["rotation"] = None
                        if not sc:
                            c["scale"] = None
                        if not at:
                            c["array_trans"] = None

                        def f(x, y, tr=tr, ro=ro, sc=sc, xr=xr, at=at):
                            if sc:
                                x, y = x * A("s"), y * A("s")
                            if at:
                                x, y = x + A("ux"), y + A("uy")
                            if xr:
                                y = -y
                            if ro:
                                x, y = rot(A("angle"), x, y)
                            if tr:
                                x, y = x + A("dx"), y + A("dy")
                            return x, y

                        nm = ", ".join(w for w, k in (("scale", sc), ("array displacement", at), ("reflection", xr), ("rotation", ro), ("translation", tr)) if k) or "nothing"
                        m = Map("transform with " + nm, f, A("s") if sc else ONE)
                        m.reflected = xr
                        out.append((c, m))
    return out


# -- slots ------------------------------------------------------------------


def list_slot(run, case, heap, attr, levelname, want, what):
    """every element of a list attribute becomes want (an Arr / Tup)"""
    v = run.final(heap, attr)
    base_guards = ()
    col = Collector(run.it, run.res, run.is_source)
    ems = col.collect(v, case.decide, base_guards)
    need_guards(ems, case)
    ev = Eval(run.it, run.leaf, case.decide)
    src = [e for e in ems if e.value is None]
    rest = [e for e in ems if e.value is not None]
    if len(src) > 1:
        raise Give("several inputs")
    if src and not rest:
        x, _, _ = run.path_of(src[0].inplace) or (None, 0, ())
        if x != attr:
            raise Bad("%s is replaced by %s" % (attr, x))
        check_value(run, case, ev, Eval(run.it, run.leaf, case.decide).ev(run.it.mk("elem", run.it.mk("attr", run.self_node, attr), ("generic",))), want, what, None)
        return
    if src:
        for e in rest:
            if e.inplace is None:
                raise Bad("elements are added to " + attr, e.where)
            check_key(run, e)
            run.check_iters(e, attr, 1)
        rest = rest[-1:]
    elif not rest:
        raise Bad("%s is empty afterwards" % attr)
    if len(rest) > 1:
        raise Bad("every element of %s appears %d times" % (attr, len(rest)), rest[-1].where)
    e = rest[0]
    run.check_iters(e, attr, 1)
    check_value(run, case, ev, value_of(run, case, ev, e.value), want, what, e.where)


def check_key(run, e):
    """an item store goes to the item it was computed from"""
    t = run.token(e.key[0])
    if isinstance(t, tuple) and t[:1] == ("const",):
        raise Bad("only item %r is replaced" % (t[1],), e.where)
    if isinstance(t, tuple) and t[:1] == ("?",):
        raise Give("item key")
    used = set()
    for n in subnodes(e.value, follow=False):
        p = run.path_of(n)
        if p and p[2]:
            used.add(p[2][0])
    if used and used != {t}:
        raise Give("item key differs from the element")


def value_of(run, case, ev, n):
    """Arr/Tup of a node; collections over the items of an end become Tup"""
    n = ev.resolve(n)
    try:
        return ev.ev(n)
    except Unsupported:
        s = strip(n)
        while s.op == "call" and s.args[0] in ("tuple", "list") and len(s.args[1]) == 1:
            s = strip(ev.resolve(s.args[1][0]))
        if s.op == "comp" and s.args[0] in ("list", "gen") and len(s.args[2]) == 1 and not s.args[3] and run.level(s.args[2][0]) == "end":
            v = ev.ev(s.args[1])
            return ("each", v)
        if s.op == "comp" and len(s.args[2]) == 1:
            b = strip(s.args[2][0])
            if b.op == "sub" and b.args[1].op == "slice" and run.level(b.args[0]) == "end" and any(x.op == "const" and x.args[1] not in (None, 0) for x in b.args[1].args[:2]):
                raise Bad("only some of the values of an end are kept")
        raise


def check_value(run, case, ev, got, want, what, where):
    if isinstance(want, Tup):  # an end: pair of extensions
        if isinstance(got, tuple) and got[0] == "each":
            f = want.items[0].data[()]
            e = A("extension")
            exp = Poly({})
            # want = factor * end0
            fac = want.factor
            compare_point(run, case, ev, to_arr(got[1]), scalar(fac * e), what, where)
            return
        got = to_arr(got)
        compare_point(run, case, ev, got, to_arr(want), what, where)
        return
    if isinstance(got, tuple):
        raise Give("value")
    got = to_arr(got)
    compare_point(run, case, ev, got, want, what, where)


class End(Tup):
    __slots__ = ("factor",)


def end_tuple(f):
    e = End([scalar(A("end0") * f), scalar(A("end1") * f)])
    e.factor = f
    return e


def point_slot(run, case, heap, attr, want, what):
    ev = Eval(run.it, run.leaf, case.decide)
    v = ev.resolve(run.final(heap, attr))
    compare_point(run, case, ev, to_arr(ev.ev(v)), want, what, None)


def kept(run, case, heap, attr, levelname):
    """elements stay as they are"""
    v = run.final(heap, attr)
    col = Collector(run.it, run.res, run.is_source)
    ems = col.collect(v, case.decide, ())
    need_guards(ems, case)
    ev = Eval(run.it, run.leaf, case.decide)
    for e in ems:
        if e.value is None:
            continue
        if e.inplace is None:
            run.check_iters(e, attr, 1)
        x = strip(ev.resolve(e.value))
        if run.level(x) != levelname:
            raise Give("item " + show(x, 3))


def sections(run, case, heap, m):
    """the matrix of every section of every parallel path is T . M"""
    stores = [e for e in run.res.effects if e.kind == "store" and e.attr == "transform" and not any(case.decide(g) is not None and case.decide(g) != p for g, p in e.guards)]
    objs = []
    for e in stores:
        lv = run.level(e.obj)
        if lv != "section":
            p = run.path_of(e.obj)
            if p and p[0] == "paths":
                raise Bad("only some sections are transformed", e.where)
            raise Give("section " + show(e.obj, 3))
        run.check_iters(Em(None, effect_iters(e), (), e.where), "paths", 2)
        for g, p in e.guards:
            if case.decide(g) is None and not (g.op == "cmp" and g.args[1].op == "loopv"):
                raise Fork(g)
        if e.obj not in objs:
            objs.append(e.obj)
    got = MATRIX
    for o in objs:  # one after the other
        v = heap.get((o, "transform"))
        if v is None:
            raise Give("section transform")
        run.state, run.bound = got, {}
        got = Eval(run.it, run.leaf, case.decide).arr(v)
    ev = Eval(run.it, run.leaf, case.decide)
    ox, oy = m.point(ZERO, ZERO)
    xx, xy = m.point(ONE, ZERO)
    yx, yy = m.point(ZERO, ONE)
    T = Arr((3, 3), {(0, 0): xx - ox, (0, 1): yx - ox, (0, 2): ox, (1, 0): xy - oy, (1, 1): yy - oy, (1, 2): oy, (2, 0): ZERO, (2, 1): ZERO, (2, 2): ONE})
    compare_point(run, case, ev, got, matmul(T, MATRIX), "the matrix of a path section", stores[-1].where if stores else None)


def direction_slot(run, case, heap, m, base):
    ev = Eval(run.it, run.leaf, case.decide)
    v = ev.resolve(run.final(heap, "direction"))
    if v.op == "attr" and v.args[1] == "direction":
        got = A("direction") if base is None else base
    else:
        got = ev.arr(v).data[()]
    want = m.direction(A("direction") if base is None else base)
    if got == want:
        return
    for s in range(4):
        env = {"$seed": s}
        import math
        try:
            d = value(got, env) - value(want, env)
        except (Unsupported, ValueError, ZeroDivisionError):
            raise Give("direction %r" % (got,))
        if abs(math.sin(d / 2)) > 1e-7:
            raise Bad("the direction becomes %r, not %r" % (got, want))


def each_return(run, case):
    rv = return_values(run.res, case)
    if not rv:
        raise Give("no return")
    return rv


def run_method(ctx, prog, cls, meth, consts, m, flags, checks, name):
    run = MethRun(prog, cls, meth, consts, flags)
    ctx.saw(run.it.functions_seen)

    def one(case):
        run.case = case
        run.bound = {}
        for v, heap, g in each_return(run, case):
            for what, fn in checks:
                try:
                    fn(run, case, heap, m)
                except Bad as b:
                    raise Bad("%s: %s" % (what, b.msg), b.where)

    if run_cases(ctx, R, name, run.func, run.it, one):
        ctx.ok("%s of %s" % (meth, cls.name), name)


def poly_slot(run, case, heap, m):
    list_slot(run, case, heap, "polygons", "polygon", rows(*m.point(A("px"), A("py"))), "a vertex")


def xy_slot(run, case, heap, m):
    x, y = m.point(A("px"), A("py"))
    point_slot(run, case, heap, "x", scalar(x), "x")
    point_slot(run, case, heap, "y", scalar(y), "y")


def params_of(prog, cls, meth, consts):
    p = prog.need_method(cls.name, meth).params()
    return {k: v for k, v in consts.items() if k in p}


def length_slots(*attrs):
    def f(run, case, heap, m):
        for a in attrs:
            point_slot(run, case, heap, a, scalar(A(a) * m.length), a)
    return f


def polygon_classes(ctx, prog):
    for cn in ("PolygonSet", "Polygon", "Rectangle", "Round", "Text", "Path", "L1Path", "PolyPath"):
        cls = prog.need_class(cn)
        for meth in ("translate", "rotate", "scale", "mirror"):
            for consts, m in maps(meth):
                dirs = ("str", "number") if cn in ("Path", "L1Path") else (None,)
                for d in dirs:
                    checks = [("polygons", poly_slot)]
                    if cn in ("Path", "L1Path"):
                        checks.append(("end point", xy_slot))
                        if m.direction is not None and meth != "scale":
                            base = A("dirname") * A("pi") if d == "str" else None
                            checks.append(("direction", lambda run, case, heap, m, base=base: direction_slot(run, case, heap, m, base)))
                    if cn == "Path" and m.length is not None:
                        checks.append(("width", length_slots("w", "distance", "length")))
                    name = "%s.%s (%s%s)" % (cn, meth, m.text, ", named direction" if d == "str" else "")
                    run_method(ctx, prog, cls, meth, consts, m, {"direction": d} if d else {}, checks, name)


def flex_lengths(radius, end, scales):
    def f(run, case, heap, m):
        k = m.length
        point_slot(run, case, heap, "widths", scalar(A("widths") * (k if scales else ONE)), "the width")
        if not getattr(m, "reflected", False):
            point_slot(run, case, heap, "offsets", scalar(A("offsets") * k), "the offset")
        else:
            # the sign is decided separately
            try:
                point_slot(run, case, heap, "offsets", scalar(A("offsets") * k), "the offset")
            except Bad:
                point_slot(run, case, heap, "offsets", scalar(-A("offsets") * k), "the offset")
        if radius is None:
            kept(run, case, heap, "bend_radius", "radius")
        else:
            list_slot(run, case, heap, "bend_radius", "radius", scalar(A("radius") * k), "the bend radius")
        ends_slot(run, case, heap, end, k)
    return f


def flex_reflected(run, case, heap, m):
    point_slot(run, case, heap, "offsets", scalar(-A("offsets") * m.length), "the offset under reflection")


def ends_slot(run, case, heap, end, k):
    if end == "tuple":
        list_slot(run, case, heap, "ends", "end", end_tuple(k), "a custom end extension")
    else:
        kept(run, case, heap, "ends", "end")


def flex_points(run, case, heap, m):
    point_slot(run, case, heap, "points", rows(*m.point(A("px"), A("py"))), "a point of the spine")


def flexible_paths(ctx, prog):
    cls = prog.need_class("FlexPath")
    variants = [(r, e, wt, gp) for r, e, wt, gp in ((None, "str", True, False), (1, "tuple", True, True), (1, "str", False, False), (None, "tuple", False, True), (1, "callable", True, True))]
    for meth in ("translate", "rotate", "scale", "transform"):
        ms = transform_maps() if meth == "transform" else maps(meth)[:1]
        for consts, m in ms:
            consts = params_of(prog, cls, meth, consts)
            for r, e, wt, gp in variants:
                flags = {"radius": r, "end": e, "width_transform": wt, "gdsii_path": gp}
                name = "FlexPath.%s (%s; %s ends, %s bend radius, width_transform=%s, gdsii_path=%s)" % (meth, m.text, e, "a" if r else "no", wt, gp)
                run_method(ctx, prog, cls, meth, consts, m, flags, [("points", flex_points), ("lengths", flex_lengths(r, e, wt or not gp))], name)
    for consts, m in transform_maps()[-1:]:
        while not m.reflected:
            raise Give("no reflection")
        run_method(ctx, prog, cls, "transform", params_of(prog, cls, "transform", consts), m, {"radius": None, "end": "str", "width_transform": True, "gdsii_path": False}, [("side of the spine", flex_reflected)], "FlexPath.transform with x_reflection: offsets")


def robust_points(run, case, heap, m):
    x, y = m.point(A("px"), A("py"))
    point_slot(run, case, heap, "x", pair(x, y), "the end point")


def robust_lengths(end, scales):
    def f(run, case, heap, m):
        k = m.length
        sg = Poly.const(-1) if getattr(m, "reflected", False) else ONE
        list_slot(run, case, heap, "widths", "width", scalar(A("width") * (k if scales else ONE) * sg), "the width")
        list_slot(run, case, heap, "offsets", "offset", scalar(A("offset") * k * sg), "the offset")
        ends_slot(run, case, heap, end, k)
    return f


def robust_paths(ctx, prog):
    cls = prog.need_class("RobustPath")
    for meth in ("translate", "rotate", "scale", "transform"):
        ms = transform_maps() if meth == "transform" else maps(meth)[:1]
        for consts, m in ms:
            consts = params_of(prog, cls, meth, consts)
            for e, wt, gp in (("str", True, False), ("tuple", True, True), ("str", False, False), ("tuple", False, True), ("callable", True, False)):
                flags = {"end": e, "width_transform": wt, "gdsii_path": gp}
                name = "RobustPath.%s (%s; %s ends, width_transform=%s, gdsii_path=%s)" % (meth, m.text, e, wt, gp)
                run_method(ctx, prog, cls, meth, consts, m, flags, [("end point", robust_points), ("sections", sections), ("lengths", robust_lengths(e, wt or not gp))], name)


def simple(ctx, prog):
    for cn, attr in (("Label", "position"), ("CellReference", "origin"), ("CellArray", "origin")):
        cls = prog.need_class(cn)
        for consts, m in maps("translate"):
            def f(run, case, heap, m, attr=attr):
                point_slot(run, case, heap, attr, pair(*m.point(A("px"), A("py"))), "the " + attr)
            run_method(ctx, prog, cls, "translate", consts, m, {}, [(attr, f)], "%s.translate" % cn)


def transformations(ctx):
    prog = ctx.prog
    ctx.rule("after translate/rotate/scale/mirror/transform every stored coordinate is, as a normal form, the affine image of its old value, section matrices are T.M, lengths are multiplied by the scale factor, for every combination of given arguments; loops cover all elements")
    polygon_classes(ctx, prog)
    flexible_paths(ctx, prog)
    robust_paths(ctx, prog)
    simple(ctx, prog)
