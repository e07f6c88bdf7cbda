"""Where geometry ends up: references (C32) and transformation methods (C33).

Every method is analysed once per combination of optional transformation
components (rotation given or not, ...), which are known constants of the
dataflow pass; the coordinates of one generic vertex of one generic element are
then a normal form over the inputs, compared with the affine map the component
values define."""
from fractions import Fraction

from ..interp import Interp, Node, show, subnodes
from ..model import AnalysisBroken
from ..flow import strip
from ..lin import Fork
from ..poly import Poly
from ..affine import Arr, Bad, Tup, Eval, Unsupported, scalar, pair, rows, same, same_arr, to_arr, value, ONE, ZERO


def A(name):
    return Poly.atom(name)


# -- emissions ---------------------------------------------------------------


class Em(object):
    """one item a collection receives: the value, the loops and the extra
    conditions it is added under"""

    __slots__ = ("value", "iters", "guards", "where", "key", "inplace", "heap")

    def __init__(self, value, iters=(), guards=(), where=None, key=None, inplace=None, heap=None):
        self.value = value
        self.iters = tuple(iters)
        self.guards = tuple(guards)
        self.where = where
        self.key = key
        self.inplace = inplace
        self.heap = heap


class Give(Exception):
    """the construction is not understood"""


def loops_of(e):
    return [(l[0], l[1], l[2]) for l in e.loops]


def while_iter(site, guards):
    for g, p in guards:
        if p and g.op == "cmp" and g.args[0] in ("<", "<=", "!=") and g.args[1].op == "loopv" and g.args[1].args[0] == site:
            return g
    return None


def effect_iters(e):
    out = []
    for l in e.loops:
        if l[2] == "while":
            g = while_iter(l[0], e.guards)
            if g is None:
                raise Give("while loop")
            out.append(g)
        else:
            out.append(l[1])
    return tuple(out)


def extra_guards(guards, base):
    """conditions beyond the ones the whole result is computed under"""
    out = []
    for g, p in guards:
        if (g, p) in base:
            continue
        if g.op == "cmp" and g.args[1].op == "loopv":
            continue  # the loop's own condition
        out.append((g, p))
    return tuple(out)


class Collector(object):
    def __init__(self, it, res, is_input):
        self.it = it
        self.res = res
        self.is_input = is_input    # node -> True when it is (part of) the input collection

    def resolve(self, n, decide):
        k = 0
        while n.op == "ite" and k < 40:
            k += 1
            d = decide(n.args[0])
            if d is None:
                raise Fork(n.args[0])
            n = n.args[1] if d else n.args[2]
        return n

    def collect(self, n, decide, base=(), depth=0):
        """list of Em of a list-valued node"""
        if depth > 12:
            raise Give("nesting")
        n = self.resolve(n, decide)
        s = strip(n)
        s = self.resolve(s, decide)
        s = strip(s)
        if s.op == "comp" and s.args[0] in ("list", "gen", "set"):
            ems = [Em(s.args[1], s.args[2], s.args[3])]
            return self.updates(s, ems, decide, base, depth)
        if s.op == "comp" and s.args[0] == "dict":
            k, v = s.args[1].args[0]
            out = []
            for em in self.collect(v, decide, base, depth + 1):
                out.append(Em(em.value, tuple(s.args[2]) + em.iters, tuple(s.args[3]) + em.guards, em.where, (k,) + (em.key or ()), em.inplace))
            return out
        if s.op == "list":
            ems = [Em(x) for x in s.args[0]]
            return self.updates(s, ems, decide, base, depth)
        if s.op == "call" and s.args[0] in ("list", "tuple", "sorted", "reversed", "iter") and s.args[1]:
            if s.op == "call" and self.is_input(strip(s.args[1][0])):
                return self.updates(s, [Em(None, (), (), None, None, strip(s.args[1][0]))], decide, base, depth)
            return self.updates(s, self.collect(s.args[1][0], decide, base, depth + 1), decide, base, depth)
        if s.op == "call" and s.args[0] in ("list", "dict", "collections.OrderedDict") and not s.args[1]:
            return self.updates(s, [], decide, base, depth)
        if s.op == "call" and s.args[0] in ("map",) and len(s.args[1]) == 2:
            raise Give("map")
        if s.op == "mcall" and s.args[1] == "copy" and not s.args[2]:
            return self.collect(s.args[0], decide, base, depth + 1)
        if s.op == "call" and s.args[0] in ("copy.copy", "copy.deepcopy"):
            return self.collect(s.args[1][0], decide, base, depth + 1)
        if s.op == "bin" and s.args[0] == "+":
            return self.collect(s.args[1], decide, base, depth + 1) + self.collect(s.args[2], decide, base, depth + 1)
        if s.op == "dict":
            if s.args[0]:
                raise Give("dictionary display")
            return self.updates(s, [], decide, base, depth)
        if self.is_input(s):
            return self.updates(s, [Em(None, (), (), None, None, s)], decide, base, depth)
        raise Give("collection " + show(s, 3))

    def same_obj(self, e, s):
        return strip(e) is s

    def related(self, o, s):
        """`o` is an inner list of the collection `s` (dictionary of lists)"""
        o = strip(o)
        k = 0
        while k < 6:
            k += 1
            if o is s:
                return True
            if o.op in ("sub", "elem", "ver"):
                o = strip(o.args[0])
                continue
            return False
        return False

    def updates(self, s, ems, decide, base, depth):
        ems = list(ems)
        inp = self.is_input(s)
        for e in self.res.effects:
            if e.kind == "mcall" and e.name in ("append", "extend", "insert") and self.same_obj(e.recv, s):
                if inp:
                    raise Give("items added to the input collection")
                if self.dead(e, decide):
                    continue
                g = extra_guards(e.guards, base)
                g = self.live_guards(g, decide)
                if e.name == "extend":
                    for em in self.collect(e.args[0], decide, base, depth + 1):
                        ems.append(Em(em.value, effect_iters(e) + em.iters, g + em.guards, e.where, em.key, em.inplace))
                else:
                    ems.append(Em(e.args[-1], effect_iters(e), g, e.where, None, None, e.heap))
            elif e.kind == "aug" and self.same_obj(e.obj, s) and e.op == "+":
                if self.dead(e, decide):
                    continue
                g = self.live_guards(extra_guards(e.guards, base), decide)
                for em in self.collect(e.value, decide, base, depth + 1):
                    ems.append(Em(em.value, effect_iters(e) + em.iters, g + em.guards, e.where, em.key, em.inplace))
            elif e.kind == "storeitem" and (self.same_obj(e.obj, s) or (inp and self.related(e.obj, s))):
                if self.dead(e, decide):
                    continue
                g = self.live_guards(extra_guards(e.guards, base), decide)
                k = e.key
                its = effect_iters(e)
                if k.op == "const" and k.args[1] == -1 and ems and ems[-1].iters == its and not inp:
                    last = ems[-1]
                    v = e.value
                    for c, p in reversed([x for x in g if x not in last.guards]):
                        v = self.it.mk("ite", c, v, last.value) if p else self.it.mk("ite", c, last.value, v)
                    last.value = v
                    continue
                if s.op == "dict" or (s.op == "call" and s.args[0] in ("dict", "collections.OrderedDict")):
                    for em in self.collect(e.value, decide, base, depth + 1):
                        ii = em.iters if self.prefix(its, em.iters) else its + em.iters
                        ems.append(Em(em.value, ii, g + tuple(x for x in em.guards if x not in g), em.where or e.where, (k,), em.inplace))
                    continue
                ems.append(Em(e.value, its, g, e.where, (k,), strip(e.obj)))
            elif e.kind in ("mcall",) and self.same_obj(e.recv, s) and e.name in ("pop", "remove", "clear", "sort", "reverse", "setdefault", "update", "resize"):
                if self.dead(e, decide):
                    continue
                if e.name in ("sort", "reverse"):
                    continue
                raise Give("collection ." + e.name)
            elif e.kind == "delitem" and self.same_obj(e.obj, s):
                if self.dead(e, decide):
                    continue
                raise Give("item deletion")
        return ems

    @staticmethod
    def prefix(a, b):
        return len(a) <= len(b) and tuple(b[: len(a)]) == tuple(a)

    def dead(self, e, decide):
        for g, p in e.guards:
            d = decide(g)
            if d is not None and d != p:
                return True
        return False

    def live_guards(self, gs, decide):
        return tuple((g, p) for g, p in gs if decide(g) is None)


# -- splitting on undecided conditions ---------------------------------------


class Case(object):
    def __init__(self, it, dec):
        self.it = it
        self.dec = dec   # list of (cond, bool)

    def decide(self, c):
        c, pol = self.it.norm_cond(c)
        for g, p in self.dec:
            if g is c:
                return p if pol else not p
        if c.op == "const":
            return bool(c.args[1]) if pol else not c.args[1]
        if c.op == "cmp":
            a, b = self.simp(c.args[1]), self.simp(c.args[2])
            if a is not c.args[1] or b is not c.args[2]:
                r = self.decide(self.it.mk("cmp", c.args[0], a, b))
                return r if r is None or pol else not r
            if c.args[0] == "is" and b.op == "const" and b.args[1] is None:
                r = self.it.is_none(a)
                if r is not None:
                    return r if pol else not r
            return None
        if c.op == "bool":
            rs = [self.decide(x) for x in c.args[1]]
            r = None
            if c.args[0] == "and":
                r = False if any(x is False for x in rs) else (True if all(x is True for x in rs) else None)
            else:
                r = True if any(x is True for x in rs) else (False if all(x is False for x in rs) else None)
            if r is not None:
                return r if pol else not r
        return None


    def simp(self, n):
        k = 0
        while n.op == "ite" and k < 30:
            k += 1
            d = self.decide(n.args[0])
            if d is None:
                break
            n = n.args[1] if d else n.args[2]
        return n


def cases(it, fn, limit=64):
    """fn(case) may raise Fork(cond): both outcomes are analysed"""
    todo = [[]]
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit:
            raise Give("too many conditions")
        c = Case(it, dec)
        try:
            fn(c)
        except Fork as f:
            k, pol = it.norm_cond(f.cond)
            if k.op == "cmp":
                # the condition as it reads on this path
                a, b = c.simp(k.args[1]), c.simp(k.args[2])
                if a.op == "ite" or b.op == "ite":
                    k, pol = it.norm_cond((a if a.op == "ite" else b).args[0])
                elif a is not k.args[1] or b is not k.args[2]:
                    k = it.mk("cmp", k.args[0], a, b)
            if k.op == "bool":
                # split on the first undecided operand
                for x in k.args[1]:
                    if c.decide(x) is None:
                        k, pol = it.norm_cond(x)
                        break
            todo.append(dec + [(k, True)])
            todo.append(dec + [(k, False)])


def substitution(ev, dec):
    """values the decided conditions force on input atoms: {atom: number}; None
    when the combination is impossible"""
    sub = {}
    for c, p in dec:
        if c.op == "cmp" and c.args[0] == "==" and p:
            a, b = c.args[1], c.args[2]
            try:
                d = ev.arr(a).data[()] - ev.arr(b).data[()]
            except Exception:
                continue
            at = [x for x in d.atoms() if isinstance(x, str)]
            for x in at:
                t = {k: v for k, v in d.t.items() if any(y == x for y, _ in k)}
                if len(t) == 1:
                    (k, v), = t.items()
                    if k == ((x, 1),):
                        rest = Poly({kk: vv for kk, vv in d.t.items() if kk != k})
                        if rest.is_const():
                            sub[x] = float(-rest.cval() / v)
        if c.op == "cmp" and c.args[0] == "==" and not p:
            continue
        if c.op in ("attr", "param", "sub", "loopv") and not p:
            try:
                d = ev.arr(c).data[()]
                if len(d.t) == 1:
                    (k, v), = d.t.items()
                    if len(k) == 1 and k[0][1] == 1 and isinstance(k[0][0], str):
                        sub[k[0][0]] = 0.0
            except Exception:
                pass
    return sub


# -- references ----------------------------------------------------------------

OPTS = ("rotation", "magnification", "x_reflection", "origin")


class RefRun(object):
    """one analysis of a CellReference/CellArray method under fixed options"""

    def __init__(self, prog, cls, meth, cfg, args=None, consts=None):
        self.prog, self.cls, self.cfg = prog, cls, cfg
        self.cellcls = prog.need_class("Cell")
        self.consts = consts or {}
        f = prog.need_method(cls.name, meth)
        self.func = f
        keep = self.cellcls

        def inline(fn, i):
            if fn.cls is not None and fn.cls is keep:
                return False
            if fn.name in ("transform", "__init__") and fn.cls is not cls:
                return False
            return None

        self.it = it = Interp(prog, assume=self.assume, types=self.types, inline=inline)
        self.self_node = it.mk("param", f.params()[0])
        a = {k: it.const(v) for k, v in (consts or {}).items()}
        self.res = it.run(f, self_cls=cls, args=a, self_node=self.self_node)

    def types(self, n, it, st):
        n = strip(n)
        if n.op == "attr" and n.args[1] == "ref_cell" and n.args[0] is self.self_node:
            return [self.cellcls]
        return None

    def opt(self, n):
        n = strip(n)
        if n.op == "attr" and n.args[0] is self.self_node and n.args[1] in OPTS:
            return n.args[1]
        return None

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const":
            o = self.opt(c.args[1])
            k = c.args[2].args[1]
            if o is not None:
                if k is None:
                    return not self.cfg[o] if o != "x_reflection" else False
                if o == "x_reflection" and isinstance(k, bool):
                    return self.cfg[o] is k
        if c.op == "cmp" and c.args[0] == "==" and c.args[2].op == "const":
            o = self.opt(c.args[1])
            k = c.args[2].args[1]
            if o == "x_reflection" and isinstance(k, bool):
                return self.cfg[o] is k
            if o is not None and not self.cfg[o] and o != "x_reflection":
                return k is None
        o = self.opt(c)
        if o is not None:
            return bool(self.cfg[o])
        if c.op == "call" and c.args[0] == "bool" and len(c.args[1]) == 1 and self.opt(c.args[1][0]):
            return bool(self.cfg[self.opt(c.args[1][0])])
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2:
            x, s = strip(c.args[1][0]), c.args[1][1]
            if x.op == "attr" and x.args[1] == "ref_cell":
                if s.op == "cls":
                    return s.args[0] is self.cellcls or self.cellcls.issub(s.args[0])
                return False
            if self.is_in(x) and s.op == "ext":
                if s.args[0] in ("dict", "list"):
                    return bool(self.consts.get("by_spec")) == (s.args[0] == "dict")
        return None

    # input collections: what the referenced cell returns
    def is_in(self, n):
        n = strip(n)
        return n.op == "icall" and n.args[0].cls is self.cellcls and n.args[0].name.startswith("get_")

    def level(self, n):
        """'dict': mapping of lists, 'in': list of elements, 'pts': list of point
        arrays of a polygon set element"""
        n = strip(n)
        by = bool(self.consts.get("by_spec"))
        if self.is_in(n):
            if n.args[0].name == "get_bounding_box":
                return None
            return "dict" if by else "in"
        if n.op in ("sub", "elem") and by and self.level(n.args[0]) == "dict" and not (n.op == "sub" and n.args[1].op == "slice"):
            return "in"
        if n.op == "list" and len(n.args[0]) == 1 and strip(n.args[0][0]).op == "icall" and strip(n.args[0][0]).args[0].name == "get_bounding_box":
            return "in"
        if n.op == "attr" and n.args[1] == "polygons" and self.obj(n.args[0]) is not None:
            return "pts"
        if n.op == "mcall" and n.args[1] == "copy" and not n.args[2]:
            return self.level(n.args[0])
        if n.op == "mcall" and n.args[1] == "get" and by and self.level(n.args[0]) == "dict":
            return "in"
        if n.op == "call" and n.args[0] in ("list", "tuple", "sorted", "reversed", "iter", "copy.copy", "copy.deepcopy") and len(n.args[1]) == 1:
            return self.level(n.args[1][0])
        return None

    def is_source(self, n):
        """identity of an input collection (for the collector)"""
        n = strip(n)
        return self.level(n) is not None and not (n.op in ("call",))

    def elem_level(self, n):
        n = strip(n)
        if n.op == "elem":
            return self.level(n.args[0])
        if n.op == "sub" and n.args[1].op != "slice":
            l = self.level(n.args[0])
            if l is None:
                return None
            if l == "dict":
                return "dict"
            c = n.args[0].args[1] if n.args[0].op == "ver" else None
            return l if self.untouched(c) else None
        if self.is_in(n) and n.args[0].name == "get_bounding_box":
            return "in"
        return None

    def obj(self, n):
        """(element node, copied) of an object of the input list"""
        n, c = self.copied(n)
        if self.elem_level(n) == "in":
            return n, c
        return None

    def untouched(self, c, depth=0):
        """the item of this iteration is read before it is stored"""
        if c is None or c.op == "init":
            return True
        if depth > 6:
            return False
        if c.op == "loopv" and c.info:
            i = c.info.get("init")
            return i is None or self.untouched(i, depth + 1)
        return False

    def copied(self, n):
        """(element, True when it is a fresh copy)"""
        n = strip(n)
        c = False
        while True:
            if n.op == "call" and n.args[0] in ("copy.deepcopy", "copy.copy") and n.args[1]:
                c = True
                n = strip(n.args[1][0])
                continue
            if n.op == "mcall" and n.args[1] == "copy" and not n.args[2]:
                c = True
                n = strip(n.args[0])
                continue
            return n, c

    # -- iteration spaces
    def iter_kind(self, itn, ev):
        """list of (kind, lower bound): kind is a level, 'cols', 'rows' or 'part'"""
        n = strip(itn)
        l = self.level(n)
        if l is not None:
            return [(l, None)]
        if n.op == "call" and n.args[0] in ("enumerate", "list", "tuple", "reversed", "sorted", "iter") and n.args[1]:
            return self.iter_kind(n.args[1][0], ev)
        if n.op == "mcall" and n.args[1] in ("keys", "items", "values") and self.level(n.args[0]):
            return [(self.level(n.args[0]), None)]
        if n.op == "sub" and n.args[1].op == "slice" and self.level(n.args[0]):
            lo, hi, stp = n.args[1].args
            none = lambda x: x.op == "const" and x.args[1] is None
            if none(lo) and none(hi) and (none(stp) or stp.op == "const" and stp.args[1] in (1, -1)):
                return [(self.level(n.args[0]), None)]
            if all(x.op == "const" for x in n.args[1].args):
                return [("part", "a slice of the elements")]
            return None
        if n.op == "call" and n.args[0] in ("itertools.product",):
            out = []
            for x in n.args[1]:
                k = self.iter_kind(x, ev)
                if k is None:
                    return None
                out += k
            return out
        if n.op == "call" and n.args[0] in ("range", "numpy.arange") and len(n.args[1]) in (1, 2, 3):
            a = n.args[1]
            lo = ZERO if len(a) == 1 else self.sc(ev, a[0])
            hi = self.sc(ev, a[0] if len(a) == 1 else a[1])
            if len(a) == 3:
                st = self.sc(ev, a[2])
                if st == Poly.const(-1):
                    lo, hi = hi + ONE, lo + ONE
                elif st != ONE:
                    return None
            return self.span(lo, hi)
        if n.op == "cmp":
            v = n.args[1]
            init = v.info.get("init") if v.info else None
            nxt = v.info.get("next") if v.info else None
            if init is None or nxt is None or nxt.op != "bin" or nxt.args[0] != "+" or strip(nxt.args[1]) is not v or not (nxt.args[2].op == "const" and nxt.args[2].args[1] == 1):
                return None
            lo = self.sc(ev, init)
            hi = self.sc(ev, n.args[2])
            if n.args[0] == "<=":
                hi = hi + ONE
            return self.span(lo, hi)
        return None

    def span(self, lo, hi):
        cnt = hi - lo
        for nm, at in (("cols", A("columns")), ("rows", A("rows")), ("in", A("len:in")), ("pts", A("len:pts"))):
            if cnt == at:
                return [(nm, lo)]
            d = cnt - at
            if d.is_const():
                return [("part", "%s of %s" % (cnt, nm))]
        return None

    def sc(self, ev, n):
        if n.op == "call" and n.args[0] == "len" and len(n.args[1]) == 1 and self.level(n.args[1][0]):
            return A("len:" + self.level(n.args[1][0]))
        if n.op == "const" and isinstance(n.args[1], int):
            return Poly.const(n.args[1])
        if n.op == "bin" and n.args[0] in ("+", "-"):
            x, y = self.sc(ev, n.args[1]), self.sc(ev, n.args[2])
            return x + y if n.args[0] == "+" else x - y
        v = ev.arr(n)
        if v.shape != ():
            raise Unsupported("bound")
        return v.data[()]

    # -- leaves
    PTS = "in"      # level whose elements are point arrays
    ATTR = {}       # attribute of an element object -> value

    def leaf(self, n):
        if n.op == "ver":
            return None
        if n.op == "attr" and n.args[0] is self.self_node:
            a = n.args[1]
            if a == "rotation":
                return scalar(A("rotation"))
            if a == "magnification":
                return scalar(A("mag"))
            if a == "origin":
                return Tup([scalar(A("ox")), scalar(A("oy"))])
            if a == "spacing":
                return Tup([scalar(A("sx")), scalar(A("sy"))])
            if a in ("columns", "rows"):
                return scalar(A(a))
        if n.op in ("elem", "sub", "loopv"):
            k = self.index_node(n)
            if k is not None:
                return scalar(k)
        if self.elem_level(n) == self.PTS and self.PTS is not None:
            return rows(A("px"), A("py"))
        if n.op == "attr" and n.args[1] in self.ATTR and self.obj(n.args[0]) is not None:
            return self.ATTR[n.args[1]]
        if n.op == "loopv" and isinstance(n.args[1], tuple) and n.args[1][1] in self.ATTR and self.obj(n.args[1][0]) is not None:
            return self.ATTR[n.args[1][1]]
        return None

    def index_node(self, n):
        """loop indices as polynomials in I (columns), J (rows)"""
        if n.op == "elem":
            return self.index_of(n.args[0])
        if n.op == "sub" and n.args[0].op == "elem" and n.args[1].op == "const":
            b = strip(n.args[0].args[0])
            if b.op == "call" and b.args[0] == "itertools.product" and isinstance(n.args[1].args[1], int) and n.args[1].args[1] < len(b.args[1]):
                return self.index_of(b.args[1][n.args[1].args[1]])
        if n.op == "loopv" and isinstance(n.args[1], str) and n.info and n.info.get("next") is not None:
            nx = n.info["next"]
            if nx.op == "bin" and nx.args[0] == "+" and strip(nx.args[1]) is n and nx.args[2].op == "const" and nx.args[2].args[1] == 1:
                for g in list(self.it.table.values()):
                    if g.op == "cmp" and g.args[0] in ("<", "<=", "!=") and g.args[1] is n:
                        return self.index_of(g)
        return None

    def index_of(self, itn):
        ev = Eval(self.it, self.leaf_const)
        try:
            k = self.iter_kind(itn, ev)
        except (Unsupported, Fork):
            return None
        if k is None or len(k) != 1 or k[0][1] is None:
            return None
        if k[0][0] == "cols":
            return A("I") + k[0][1]
        if k[0][0] == "rows":
            return A("J") + k[0][1]
        return None

    def leaf_const(self, n):
        if n.op == "attr" and n.args[0] is self.self_node and n.args[1] in ("columns", "rows"):
            return scalar(A(n.args[1]))
        return None

    # -- the specification
    def expected(self, x, y, lattice):
        """origin + R(rotation) . X . (mag * (x, y) + spacing * (I, J))"""
        if self.cfg["magnification"]:
            x, y = x * A("mag"), y * A("mag")
        if lattice:
            x, y = x + A("sx") * A("I"), y + A("sy") * A("J")
        return self.placed(x, y)

    def placed(self, x, y):
        if self.cfg["x_reflection"]:
            y = -y
        if self.cfg["rotation"]:
            ang = A("rotation") * A("pi") * Poly.const(Fraction(1, 180))
            c, s = Poly.atom(("cos", ang)), Poly.atom(("sin", ang))
            x, y = x * c - y * s, x * s + y * c
        if self.cfg["origin"]:
            x, y = x + A("ox"), y + A("oy")
        return x, y


def configs():
    for r in (False, True):
        for m in (False, True):
            for x in (False, True):
                for o in (True, False):
                    yield {"rotation": r, "magnification": m, "x_reflection": x, "origin": o}


def cfg_text(c):
    return ", ".join("%s %s" % (k, "given" if v else "absent") for k, v in sorted(c.items()) if v) or "no transformation"



def need_guards(ems, case):
    for em in ems:
        for g, p in em.guards:
            if case.decide(g) is None:
                raise Fork(g)


def check_iters(run, em, need, ev):
    """the loops visit every combination exactly once"""
    got = []
    for i in em.iters:
        k = run.iter_kind(i, ev)
        if k is None:
            raise Give("loop over " + show(i, 3))
        got += [x for x in k]
    for k in got:
        if k[0] == "part":
            raise Bad("only %s is visited" % (k[1],), em.where)
    names = sorted(k[0] for k in got)
    if names != sorted(need):
        missing = [x for x in need if names.count(x) < need.count(x)]
        extra = [x for x in names if names.count(x) > need.count(x)]
        if missing or extra:
            raise Bad("the loops visit %s instead of %s" % (" x ".join(names) or "nothing", " x ".join(sorted(need))), em.where)


def compare_point(run, case, ev, got, exp, what, where):
    sub = substitution(ev, case.dec)
    got = to_arr(got)
    want = Arr(got.shape, {}) if False else exp
    if got.shape != want.shape:
        raise Bad("%s has shape %r" % (what, got.shape), where)
    r = same_arr(got, want, sub)
    if r is False:
        if not feasible(ev, case.dec, got, want, sub):
            return
        raise Bad("%s is %s, not %s" % (what, text(got), text(want)), where)
    if r is None:
        raise Give("%s: %s" % (what, text(got)))


def text(a):
    return "(" + ", ".join(repr(a.data[k])[:160] for k in sorted(a.data)) + ")"


def feasible(ev, dec, got, want, sub):
    """is there an input on this path for which the two differ?  Conditions that
    cannot be evaluated are taken as satisfiable"""
    conds = []
    for c, p in dec:
        try:
            conds.append((numeric_cond(ev, c), p))
        except Exception:
            continue
    if not conds:
        return True
    specials = [None, 0.0, 1.0, -1.0, 2.0, 45.0, 90.0, -90.0, 180.0, 270.0, 360.0, 30.0]
    atoms = set()
    for a in (got, want):
        for p in a.data.values():
            atoms |= deep_atoms(p)
    atoms = sorted(atoms)
    tried = 0
    for at in [None] + atoms:
        for v in specials:
            for seed in (0, 1, 2):
                env = {"$seed": seed}
                env.update(sub)
                if at is not None and v is not None and at not in sub:
                    env[at] = v
                try:
                    if all(bool(f(env)) == p for f, p in conds):
                        tried += 1
                        for k in got.data:
                            x, y = value(got.data[k], dict(env)), value(want.data[k], dict(env))
                            if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
                                return True
                except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
                    continue
    if tried == 0:
        raise Give("no input found that reaches this combination of conditions")
    return False


def deep_atoms(p):
    out = set()
    for a in p.atoms():
        if isinstance(a, str):
            if a != "pi":
                out.add(a)
        elif isinstance(a, tuple):
            for x in a[1:]:
                if isinstance(x, Poly):
                    out |= deep_atoms(x)
    return out


def numeric_cond(ev, c):
    if c.op == "cmp" and c.args[0] in ("==", "<", "<=", ">", ">="):
        a, b = ev.arr(c.args[1]), ev.arr(c.args[2])
        if a.shape != () or b.shape != ():
            raise Unsupported("shape")
        op = c.args[0]
        f = {"==": lambda x, y: x == y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
        return lambda env: f(value(a.data[()], env), value(b.data[()], env))
    if c.op in ("attr", "param", "bin", "loopv", "sub", "call"):
        a = ev.arr(c)
        if a.shape != ():
            raise Unsupported("shape")
        return lambda env: value(a.data[()], env) != 0
    raise Unsupported("condition")


def run_cases(ctx, rule, construct, func, it, fn):
    """three-valued driver; True when every case is discharged"""
    good = [True]

    def one(case):
        try:
            fn(case)
        except Bad as b:
            good[0] = False
            ctx.violation(rule, construct, b.where or func.where, b.msg)
        except (Give, Unsupported) as g:
            good[0] = False
            ctx.unknown(rule, func.where, "%s: %s" % (construct, g))

    try:
        cases(it, one)
    except Give as g:
        good[0] = False
        ctx.unknown(rule, func.where, "%s: %s" % (construct, g))
    return good[0]


def return_values(res, case):
    """(value, heap) of the normal returns possible in this case"""
    out = []
    for g, st, v in res.returns:
        if any(case.decide(c) is not None and case.decide(c) != p for c, p in g):
            continue
        for c, p in g:
            if case.decide(c) is None and c.op != "loopv":
                raise Fork(c)
        out.append((v, st.heap, g))
    return out


def slot(run, heap, o, attr):
    v = heap.get((o, attr)) if heap is not None else None
    if v is None:
        return run.it.mk("attr", o, attr)
    if v.op == "loopv" and v.info and v.args[1] == (o, attr):
        v = v.info.get("next") or v
    if v.op == "phi":
        alts = [x for x in v.args[0] if not (x.op == "attr" and x.args == (o, attr))]
        if len(alts) == 1:
            return alts[0]
    return v


# -- C32 -------------------------------------------------------------------------


def ref_polygons(ctx, prog, cls, lattice):
    R = "placement"
    for by in (False, True):
        for cfg in configs():
            run = RefRun(prog, cls, "get_polygons", cfg, consts={"by_spec": by})
            run.PTS, run.ATTR = "in", {}
            ctx.saw(run.it.functions_seen)
            need = ["in"] + (["dict"] if by else []) + (["cols", "rows"] if lattice else [])

            def one(case):
                for v, heap, g in return_values(run.res, case):
                    col = Collector(run.it, run.res, run.is_source)
                    base = tuple(g)
                    ems = col.collect(v, case.decide, base)
                    need_guards(ems, case)
                    ev = Eval(run.it, run.leaf, case.decide)
                    placed_points(run, case, ev, ems, need, lattice, by)

            name = "%s.get_polygons(by_spec=%s) with %s" % (cls.name, by, cfg_text(cfg))
            if run_cases(ctx, R, name, run.func, run.it, one):
                ctx.ok("placement of polygons", name)


def placed_points(run, case, ev, ems, need, lattice, by=False):
    src = [e for e in ems if e.value is None]
    rest = [e for e in ems if e.value is not None]
    if src:
        if len(src) > 1:
            raise Give("several input collections")
        inpl = [e for e in rest if e.inplace is not None]
        if len(inpl) != len(rest):
            raise Bad("elements are added to the transformed ones", rest[0].where)
        if lattice:
            raise Bad("the elements are not repeated over the lattice", None)
        x, y = A("px"), A("py")
        if not inpl:
            compare_point(run, case, ev, rows(x, y), rows(*run.expected(x, y, False)), "a vertex of a referenced polygon", None)
            return
        em = inpl[-1]
        for e in inpl:
            check_iters(run, e, need, ev)
        compare_point(run, case, ev, ev.ev(em.value), rows(*run.expected(x, y, False)), "a vertex of a referenced polygon", em.where)
        return
    if not rest:
        raise Bad("no polygon is returned", None)
    for em in rest:
        check_iters(run, em, need, ev)
        compare_point(run, case, ev, ev.ev(em.value), rows(*run.expected(A("px"), A("py"), lattice)), "a vertex of a referenced polygon", em.where)
        if by:
            k = strip(em.key[0]) if em.key else None
            if k is None or not (k.op in ("key", "elem") and run.level(k.args[0]) == "dict"):
                raise Give("specification key")
    if len(rest) > 1:
        raise Bad("every polygon is returned %d times" % len(rest), rest[-1].where)


def obj_emissions(run, case):
    """the returned objects: [(object node, iters, heap, where, copied, source)]"""
    out = []
    for v, heap, g in return_values(run.res, case):
        col = Collector(run.it, run.res, run.is_source)
        ems = col.collect(v, case.decide, tuple(g))
        need_guards(ems, case)
        for em in ems:
            if em.value is None:
                out.append((None, em.iters, heap, em.where, False, em.inplace))
            elif em.inplace is not None:
                raise Give("item store into the result")
            else:
                out.append((em.value, em.iters, em.heap or heap, em.where, None, None))
    return out


def stores_on(run, case, attr, pred):
    out = []
    for e in run.res.effects:
        if e.kind in ("store", "augattr") and e.attr == attr and pred(e.obj):
            if any(case.decide(g) is not None and case.decide(g) != p for g, p in e.guards):
                continue
            out.append(e)
    return out


def objects(run, case, ev, need, lattice, attr):
    """[(object node, heap)] the result consists of, each visited exactly once"""
    res = []
    ems = obj_emissions(run, case)
    if not ems:
        raise Bad("nothing is returned", None)
    for v, iters, heap, where, cp, src in ems:
        if v is None:
            if lattice:
                raise Bad("the elements are not repeated over the lattice", where)
            st = [e for e in run.res.effects if e.kind == "store" and run.obj(e.obj) is not None and not dead_effect(e, case)]
            seen = []
            for e in st:
                if e.obj in seen:
                    continue
                seen.append(e.obj)
            for o in seen:
                for e in st:
                    if e.obj is o and e.attr == attr:
                        check_iters(run, Em(None, effect_iters(e), (), e.where), need, ev)
                res.append((o, heap, where))
            if not seen:
                res.append((run.it.mk("elem", src, ("generic",)), heap, where))
            continue
        o = run.obj(v)
        if o is None:
            raise Give("result " + show(v, 3))
        check_iters(run, Em(None, iters, (), where), need, ev)
        if lattice and not o[1]:
            raise Bad("the same object is placed at every lattice position", where)
        res.append((strip(v), heap, where))
    if len(ems) > 1:
        raise Bad("every element is returned %d times" % len(ems), ems[-1][3])
    return res


def dead_effect(e, case):
    return any(case.decide(g) is not None and case.decide(g) != p for g, p in e.guards)


def ref_labels(ctx, prog, cls, lattice):
    R = "placement"
    for stf in (False, True):
        for cfg in configs():
            run = RefRun(prog, cls, "get_labels", cfg, consts={"set_transform": stf})
            run.PTS = None
            run.ATTR = {"position": pair(A("px"), A("py")), "magnification": scalar(A("lmag")), "rotation": scalar(A("lrot"))}
            ctx.saw(run.it.functions_seen)
            need = ["in"] + (["cols", "rows"] if lattice else [])

            def one(case):
                ev = Eval(run.it, run.leaf, case.decide)
                for o, heap, where in objects(run, case, ev, need, lattice, "position"):
                    pos = slot(run, heap, o, "position")
                    e = stores_on(run, case, "position", lambda x: x is o)
                    w = e[-1].where if e else where
                    compare_point(run, case, ev, to_arr(ev.ev(pos)), pair(*run.expected(A("px"), A("py"), lattice)), "the position of a referenced label", w)
                    label_transform(run, case, ev, heap, o, stf, w)

            name = "%s.get_labels(set_transform=%s) with %s" % (cls.name, stf, cfg_text(cfg))
            if run_cases(ctx, R, name, run.func, run.it, one):
                ctx.ok("placement of labels", name)


def none_state(run, case, o, attr):
    """is the label's own attribute None on this path?"""
    for c, p in case.dec:
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            x = strip(c.args[1])
            if is_label_attr(run, x, attr):
                return p
        if is_label_attr(run, c, attr):
            return (not p) or None if p else "falsy"
    return None


def is_label_attr(run, x, attr):
    x = strip(x)
    if x.op == "attr" and x.args[1] == attr and run.obj(x.args[0]) is not None:
        return True
    return x.op == "loopv" and isinstance(x.args[1], tuple) and x.args[1][1] == attr and run.obj(x.args[1][0]) is not None


def label_transform(run, case, ev, heap, o, stf, where):
    cfg = run.cfg
    # magnification
    for attr, given in (("magnification", cfg["magnification"]), ("rotation", cfg["rotation"])):
        v = ev.resolve(slot(run, heap, o, attr))
        isn = none_state(run, case, o, attr)
        refl = stf and cfg["x_reflection"] and attr == "rotation"
        own = A("lmag" if attr == "magnification" else "lrot")
        ref = A("mag" if attr == "magnification" else "rotation")
        if is_label_attr(run, v, attr):
            got = "own"
        elif v.op == "const" and v.args[1] is None:
            got = None
        else:
            got = ev.arr(v)
        if not stf or not (given or refl):
            if got == "own" or (isn is True and got is None):
                continue
            sub = substitution(ev, case.dec)
            if got is not None and same(got.data[()], own, sub) and isn is not True:
                continue
            raise Bad("the label's %s is changed" % attr, where)
        if isn is True:
            exp = ref if given else None
        elif attr == "magnification":
            exp = own * ref
        else:
            exp = (-own if refl else own) + (ref if given else ZERO)
        if isn == "falsy":
            sub = {("lmag" if attr == "magnification" else "lrot"): 0.0}
            if attr == "magnification":
                exp = ref
        else:
            sub = substitution(ev, case.dec)
        if exp is None:
            if got == "own" or got is None:
                continue
            raise Give("rotation of a label without rotation")
        if got is None:
            raise Bad("the label's %s is lost" % attr, where)
        g = own if got == "own" else got.data[()]
        if isn is None and got == "own":
            # reading without a None test: own value unchanged
            pass
        r = same(g, exp, sub)
        if r is False:
            raise Bad("the %s of a referenced label becomes %r, not %r" % (attr, g, exp), where)
        if r is None:
            raise Give("label " + attr)
    v = ev.resolve(slot(run, heap, o, "x_reflection"))
    for own in (False, True):
        b = beval(run, case, v, own)
        if b is None:
            raise Give("label reflection " + show(v, 3))
        if b == "inconsistent":
            continue
        exp = own != bool(stf and cfg["x_reflection"])
        if bool(b) != exp:
            raise Bad("the reflection of a label with x_reflection=%s becomes %s under a reference with x_reflection=%s" % (own, bool(b), cfg["x_reflection"]), where)


def beval(run, case, n, own):
    n = strip(n)
    for c, p in case.dec:
        if is_label_attr(run, c, "x_reflection") and p != own:
            return "inconsistent"
    if is_label_attr(run, n, "x_reflection"):
        return own
    if n.op == "const":
        return bool(n.args[1])
    if n.op == "attr" and run.opt(n) == "x_reflection":
        return run.cfg["x_reflection"]
    if n.op == "un" and n.args[0] == "not":
        b = beval(run, case, n.args[1], own)
        return b if b is None or b == "inconsistent" else (not b)
    if n.op == "ite":
        b = beval(run, case, n.args[0], own)
        if b is None or b == "inconsistent":
            return b
        return beval(run, case, n.args[1] if b else n.args[2], own)
    if n.op in ("cmp", "bin") and n.args[0] in ("==", "!=", "is", "is not", "^"):
        a, b = beval(run, case, n.args[1], own), beval(run, case, n.args[2], own)
        if None in (a, b) or "inconsistent" in (a, b):
            return None
        return (a == b) if n.args[0] in ("==", "is") else (a != b)
    if n.op == "bool":
        rs = [beval(run, case, x, own) for x in n.args[1]]
        if any(r is None or r == "inconsistent" for r in rs):
            return None
        return all(rs) if n.args[0] == "and" else any(rs)
    if n.op == "call" and n.args[0] == "bool" and len(n.args[1]) == 1:
        return beval(run, case, n.args[1][0], own)
    return None


def ref_polygonsets(ctx, prog, cls, lattice):
    R = "placement"
    for cfg in configs():
        run = RefRun(prog, cls, "get_polygonsets", cfg)
        run.PTS, run.ATTR = "pts", {}
        ctx.saw(run.it.functions_seen)
        need = ["in"] + (["cols", "rows"] if lattice else [])

        def one(case):
            ev = Eval(run.it, run.leaf, case.decide)
            x, y = A("px"), A("py")
            want = rows(*run.expected(x, y, lattice))
            ems = obj_emissions(run, case)
            if not ems:
                raise Bad("nothing is returned", None)
            if len(ems) > 1:
                raise Bad("every polygon set is returned %d times" % len(ems), ems[-1][3])
            v, iters, heap, where, cp, src = ems[0]
            if v is None:
                if lattice:
                    raise Bad("the polygon sets are not repeated over the lattice", where)
                onode = None
            else:
                o = run.obj(v)
                if o is None:
                    raise Give("result " + show(v, 3))
                check_iters(run, Em(None, iters, (), where), need, ev)
                if lattice and not o[1]:
                    raise Bad("the same object is placed at every lattice position", where)
                onode = strip(v)
            hit = lambda n: run.obj(n) is not None and (onode is None or strip(n) is onode)
            col = Collector(run.it, run.res, run.is_source)
            done = []
            outer = list(need)
            stores = [e for e in run.res.effects if e.kind == "store" and e.attr == "polygons" and hit(e.obj) and not dead_effect(e, case)]
            for e in stores:
                for g, p in e.guards:
                    if case.decide(g) is None and not (g.op == "cmp" and g.args[1].op == "loopv"):
                        raise Fork(g)
            if stores:
                e = stores[-1]
                ems2 = col.collect(e.value, case.decide, e.guards)
                need_guards(ems2, case)
                its = effect_iters(e)
                for em in ems2:
                    ii = em.iters if col.prefix(its, em.iters) else its + em.iters
                    done.append(Em(em.value, ii, (), em.where or e.where, None, em.inplace))
            else:
                for e in run.res.effects:
                    if e.kind == "storeitem" and run.level(e.obj) == "pts" and hit(strip(e.obj).args[0]) and not dead_effect(e, case):
                        for g, p in e.guards:
                            if case.decide(g) is None and not (g.op == "cmp" and g.args[1].op == "loopv"):
                                raise Fork(g)
                        done.append(Em(e.value, effect_iters(e), (), e.where, None, strip(e.obj)))
                done = done[-1:] if done and all(d.iters == done[0].iters for d in done) else done
            if not done:
                compare_point(run, case, ev, rows(x, y), want, "a vertex of a referenced polygon set", where)
                return
            for em in done:
                check_iters(run, em, need + ["pts"], ev)
                compare_point(run, case, ev, ev.ev(em.value), want, "a vertex of a referenced polygon set", em.where)
            if len(done) > 1:
                raise Give("several stores")

        name = "%s.get_polygonsets with %s" % (cls.name, cfg_text(cfg))
        if run_cases(ctx, R, name, run.func, run.it, one):
            ctx.ok("placement of polygon sets", name)


TPARAMS = ("translation", "rotation", "scale", "x_reflection", "array_trans")


def ref_paths(ctx, prog, cls, lattice):
    R = "placement"
    for cfg in configs():
        run = RefRun(prog, cls, "get_paths", cfg)
        run.PTS, run.ATTR = None, {}
        ctx.saw(run.it.functions_seen)
        need = ["in"] + (["cols", "rows"] if lattice else [])

        def one(case):
            ev = Eval(run.it, run.leaf, case.decide)
            for v, heap, g in return_values(run.res, case):
                col = Collector(run.it, run.res, run.is_source)
                ems = col.collect(v, case.decide, tuple(g))
                need_guards(ems, case)
                if not ems:
                    raise Bad("nothing is returned", None)
                if len(ems) > 1:
                    raise Bad("every path is returned %d times" % len(ems), ems[-1].where)
                em = ems[0]
                calls = [e for e in run.res.effects if e.kind == "mcall" and e.name == "transform" and run.obj(e.recv) is not None and not dead_effect(e, case)]
                others = [e for e in run.res.effects if e.kind == "mcall" and e.name in ("translate", "rotate", "scale") and run.obj(e.recv) is not None and not dead_effect(e, case)]
                if others:
                    raise Give("other transformations")
                for e in calls:
                    for gd, p in e.guards:
                        if case.decide(gd) is None and not (gd.op == "cmp" and gd.args[1].op == "loopv"):
                            raise Fork(gd)
                if len(calls) > 1:
                    raise Give("several transformations")
                if em.value is None:
                    if lattice:
                        raise Bad("the paths are not repeated over the lattice", em.where)
                else:
                    t = strip(em.value)
                    while t.op == "mcall" and t.args[1] == "transform":
                        t = strip(t.args[0])
                    o = run.obj(t)
                    if o is None:
                        raise Give("result " + show(em.value, 3))
                    check_iters(run, em, need, ev)
                    if lattice and not o[1]:
                        raise Bad("the same path object is transformed for every lattice position", em.where)
                if not calls:
                    if any(cfg.values()) or lattice:
                        raise Bad("the paths are not transformed", em.where)
                    continue
                e = calls[0]
                check_iters(run, Em(None, effect_iters(e), (), e.where), need, ev)
                args = dict(zip(TPARAMS, e.args))
                args.update({k: x for k, x in e.kwargs})
                transform_args(run, case, ev, args, lattice, e.where)

        name = "%s.get_paths with %s" % (cls.name, cfg_text(cfg))
        if run_cases(ctx, R, name, run.func, run.it, one):
            ctx.ok("placement of paths", name)


def transform_args(run, case, ev, args, lattice, where):
    cfg = run.cfg
    for nm in TPARAMS:
        n = args.get(nm)
        if n is None:
            if nm == "array_trans":
                n = run.it.NONE
            else:
                raise Give("argument %s of transform" % nm)
        n = ev.resolve(n)
        s = strip(n)
        if nm == "x_reflection":
            b = None
            if run.opt(s) == "x_reflection":
                b = cfg["x_reflection"]
            elif s.op == "const":
                b = bool(s.args[1])
            elif s.op == "call" and s.args[0] == "bool" and run.opt(s.args[1][0]) == "x_reflection":
                b = cfg["x_reflection"]
            if b is None:
                raise Give("reflection argument")
            if b != cfg["x_reflection"]:
                raise Bad("the reflection is not passed to the paths", where)
            continue
        o = run.opt(s)
        none = (s.op == "const" and s.args[1] is None) or (o is not None and not cfg[o])
        want = {
            "translation": pair(A("ox"), A("oy")) if cfg["origin"] else None,
            "rotation": scalar(A("rotation") * A("pi") * Poly.const(Fraction(1, 180))) if cfg["rotation"] else None,
            "scale": scalar(A("mag")) if cfg["magnification"] else None,
            "array_trans": pair(A("sx") * A("I"), A("sy") * A("J")) if lattice else None,
        }[nm]
        if none:
            if want is not None:
                raise Bad("the %s is not passed to the paths" % nm, where)
            continue
        got = to_arr(ev.ev(n))
        if want is None:
            z = ONE if nm == "scale" else ZERO
            want = Arr(got.shape, {k: z for k in got.data})
        compare_point(run, case, ev, got, want, "the %s passed to the paths" % nm, where)


def ref_area(ctx, prog, cls, lattice):
    R = "placement"
    for by in (False, True):
        for mag in (False, True):
            cfg = {"rotation": False, "magnification": mag, "x_reflection": False, "origin": True}
            run = RefRun(prog, cls, "area", cfg, consts={"by_spec": by})
            cell = run.cellcls
            run.is_in = lambda n, run=run: strip(n).op == "icall" and strip(n).args[0].cls is cell and strip(n).args[0].name == "area"
            ctx.saw(run.it.functions_seen)
            fac = ONE
            if mag:
                fac = fac * A("mag") * A("mag")
            if lattice:
                fac = fac * A("columns") * A("rows")

            def leaf(n, run=run, by=by):
                if n.op == "ver":
                    return None
                if run.is_in(n) and not by:
                    return scalar(A("area"))
                if by and n.op in ("sub", "elem") and run.is_in(n.args[0]) and run.untouched(n.args[0].args[1] if n.args[0].op == "ver" else None):
                    if n.op == "sub" or n.op == "elem":
                        return scalar(A("area"))
                return run.leaf(n)

            def one(case):
                ev = Eval(run.it, leaf, case.decide)
                for v, heap, g in return_values(run.res, case):
                    v = ev.resolve(v)
                    if not by:
                        compare_point(run, case, ev, ev.arr(v), scalar(A("area") * fac), "the area", None)
                        continue
                    col = Collector(run.it, run.res, run.is_in)
                    s = strip(v)
                    if run.is_in(s):
                        ems = [Em(e.value, effect_iters(e), (), e.where, (e.key,), s) for e in run.res.effects if e.kind == "storeitem" and strip(e.obj) is s and not dead_effect(e, case)]
                        if not ems:
                            compare_point(run, case, ev, scalar(A("area")), scalar(A("area") * fac), "the area of a layer", None)
                        for em in ems:
                            check_iters(run, em, ["dict"], ev)
                            compare_point(run, case, ev, ev.arr(em.value), scalar(A("area") * fac), "the area of a layer", em.where)
                        continue
                    if s.op == "comp" and s.args[0] == "dict":
                        em = Em(s.args[1].args[0][1], s.args[2], s.args[3])
                        need_guards([em], case)
                        check_iters(run, em, ["dict"], ev)
                        compare_point(run, case, ev, ev.arr(em.value), scalar(A("area") * fac), "the area of a layer", em.where)
                        continue
                    if s.op == "dict":
                        ems = [Em(e.value, effect_iters(e), extra_guards(e.guards, tuple(g)), e.where, (e.key,), s) for e in run.res.effects if e.kind == "storeitem" and strip(e.obj) is s and not dead_effect(e, case)]
                        need_guards(ems, case)
                        if not ems:
                            raise Bad("no area is returned", None)
                        for em in ems:
                            check_iters(run, em, ["dict"], ev)
                            compare_point(run, case, ev, ev.arr(em.value), scalar(A("area") * fac), "the area of a layer", em.where)
                        continue
                    raise Give("area " + show(v, 3))

            name = "%s.area(by_spec=%s) with %s" % (cls.name, by, cfg_text(cfg))
            if run_cases(ctx, R, name, run.func, run.it, one):
                ctx.ok("area of references", name)


def placement(ctx):
    prog = ctx.prog
    ctx.rule("every vertex, label position and path transformation of referenced geometry is, as a normal form over the inputs, origin + R(rotation) . X-reflection . (magnification * p + (i * spacing_x, j * spacing_y)) for every combination of given options, with the loops covering every element and all columns x rows")
    ctx.rule("areas of references are the areas of the cell times magnification**2 times columns times rows")
    ctx.assume("the referenced cell is a Cell object (string references are covered by another property)")
    for nm, lat in (("CellReference", False), ("CellArray", True)):
        cls = prog.need_class(nm)
        ref_polygons(ctx, prog, cls, lat)
        ref_polygonsets(ctx, prog, cls, lat)
        ref_paths(ctx, prog, cls, lat)
        ref_labels(ctx, prog, cls, lat)
        ref_area(ctx, prog, cls, lat)
