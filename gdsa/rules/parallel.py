"""Parallel lists: element counts of lists that describe the same things (C25)."""
from ..interp import Node, show, subnodes
from ..flow import strip
from ..lin import Fork
from ..poly import Poly
from .aliasing import runs, private
from .geometry import Give, Bad, cases, while_iter

K = Poly.const
ONE = Poly.const(1)
SEQ = ("list", "tuple", "sorted", "reversed", "iter", "enumerate", "set")
ARR = ("numpy.array", "numpy.asarray", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.float64")


def listish(n):
    n = strip(n)
    return n.op in ("list", "comp", "tuple") or (n.op == "sub" and n.args[1].op == "slice") or (n.op == "bin" and n.args[0] in ("*", "+") and (listish(n.args[1]) or listish(n.args[2]))) or (n.op == "call" and n.args[0] in SEQ)


class Short(Exception):
    """the sequence may be shorter than the requested number of items"""


def sites_of(comp):
    return tuple((comp.info or {}).get("sites", ())) or (comp.args[4],)


def depends_any(n, sites):
    return any(depends(n, s) for s in sites)


def depends(n, site):
    """n changes from one iteration of the loop `site` to the next"""
    for x in subnodes(n):
        if x.op in ("elem", "key") and x.args[1] == site:
            return True
        if x.op == "idx" and site in x.args:
            return True
        if x.op == "loopv" and x.args[0] == site:
            return True
    return False


class Sizes(object):
    """number of elements of list valued nodes, on one path"""

    def __init__(self, it, case, owner=None, pre=None):
        self.it, self.case = it, case
        self.pre = pre          # node -> Poly or None
        self.upper = {}         # filtered sequences: number of items before
        self.built = None       # node -> items of a local list filled by statements

    def res(self, n):
        n = strip(n)
        k = 0
        while n.op == "ite" and k < 60:
            k += 1
            d = self.case.decide(n.args[0])
            if d is None:
                raise Fork(n.args[0])
            n = strip(n.args[1] if d else n.args[2])
        return n

    # -- numbers ---------------------------------------------------------
    def num(self, n, depth=0):
        n = self.res(n)
        if depth > 30:
            return Poly.atom(("num", n))
        d = depth + 1
        if n.op == "const" and isinstance(n.args[1], int):
            return K(int(n.args[1]))
        if n.op == "bin" and n.args[0] in ("+", "-", "*"):
            a, b = self.num(n.args[1], d), self.num(n.args[2], d)
            return a + b if n.args[0] == "+" else (a - b if n.args[0] == "-" else a * b)
        if n.op == "un" and n.args[0] == "-":
            return -self.num(n.args[1], d)
        if n.op == "call" and n.args[0] == "len" and len(n.args[1]) == 1:
            return self.size(n.args[1][0], d)
        if n.op == "call" and n.args[0] == "sum" and n.args[1]:
            c = self.res(n.args[1][0])
            if c.op == "comp" and c.args[0] in ("list", "gen") and not c.args[3]:
                v = strip(c.args[1])
                if v.op == "call" and v.args[0] == "len" and len(c.args[2]) == 1 and strip(v.args[1][0]).op == "elem" and self.res(strip(v.args[1][0]).args[0]) is self.res(c.args[2][0]):
                    return Poly.atom(("sumlen", self.res(c.args[2][0])))
                if v.op == "const" and isinstance(v.args[1], int):
                    return self.size(c, d) * K(v.args[1])
            if c.op == "call" and c.args[0] == "map" and len(c.args[1]) == 2 and c.args[1][0].op == "ext" and c.args[1][0].args[0] == "len":
                return Poly.atom(("sumlen", self.res(c.args[1][1])))
        if n.op == "sub" and strip(n.args[0]).op == "attr" and strip(n.args[0]).args[1] == "shape" and n.args[1].op == "const" and n.args[1].args[1] == 0:
            return self.size(strip(n.args[0]).args[0], d)
        return Poly.atom(("num", self.name(n)))

    def name(self, n):
        """value of an attribute at the start of the function: one name"""
        if n.op == "loopv" and isinstance(n.args[1], tuple) and len(n.args[1]) == 2 and n.args[1][1] != "$c":
            i = n.info and n.info.get("init")
            nx = n.info and n.info.get("next")
            if i is not None and nx is not None and (nx is n or nx is i):
                return i
        return n

    # -- sequences -------------------------------------------------------
    def size(self, n, depth=0):
        if self.pre is not None:
            p = self.pre(n, self)
            if p is not None:
                return p
        n = self.res(n)
        if self.pre is not None:
            p = self.pre(n, self)
            if p is not None:
                return p
        d = depth + 1
        if depth > 30:
            return Poly.atom(("len", n))
        if self.built is not None:
            b = self.built(n, None, True)
            if b is not None:
                if b == "unknown":
                    return Poly.atom(("built", n))
                if any(i.loops or i.pop for i in b):
                    return Poly.atom(("built", n))
                t = K(0)
                for i in b:
                    t = t + i.count
                return t
        if n.op in ("list", "tuple"):
            t = K(0)
            for x in n.args[0]:
                t = t + (self.size(x.args[0], d) if x.op == "star" else ONE)
            return t
        if n.op == "comp" and n.args[0] in ("list", "gen"):
            if n.args[3]:
                if len(n.args[2]) == 1:
                    self.upper[Poly.atom(("comp", n))] = self.size(n.args[2][0], d)
                return Poly.atom(("comp", n))
            t = ONE
            for j, i in enumerate(n.args[2]):
                if depends_any(i, sites_of(n)[:j]):
                    return Poly.atom(("comp", n))
                t = t * self.size(i, d)
            return t
        if n.op == "call" and isinstance(n.args[0], str):
            nm, a = n.args[0], n.args[1]
            if nm == "range":
                if len(a) == 1:
                    return self.num(a[0], d)
                if len(a) == 2:
                    return self.num(a[1], d) - self.num(a[0], d)
            if nm in SEQ or nm in ARR:
                if nm == "set":
                    return Poly.atom(("len", n))
                if not a:
                    return K(0)
                return self.size(a[0], d)
            if nm == "zip" and a:
                if len(a) == 1 and a[0].op == "star":
                    return Poly.atom(("columns", n))
                ss = [self.size(x, d) for x in a]
                if all(s == ss[0] for s in ss):
                    return ss[0]
                return Poly.atom(("len", n))
            if nm == "map" and len(a) == 2:
                return self.size(a[1], d)
            if nm == "itertools.repeat" and len(a) == 2:
                return self.num(a[1], d)
            if nm == "itertools.islice" and len(a) == 2:
                x = self.res(a[0])
                if x.op == "call" and x.args[0] in ("itertools.cycle", "itertools.repeat"):
                    return self.num(a[1], d)
            if nm == "itertools.chain":
                t = K(0)
                for x in a:
                    t = t + self.size(x, d)
                return t
            if nm == "itertools.chain.from_iterable" and len(a) == 1:
                x = self.res(a[0])
                if x.op in ("list", "tuple"):
                    t = K(0)
                    for y in x.args[0]:
                        t = t + self.size(y, d)
                    return t
                return Poly.atom(("sumlen", x))
            if nm in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full") and a:
                s = self.res(a[0])
                return self.num(s.args[0][0] if s.op in ("tuple", "list") else s, d)
        if n.op == "mcall" and n.args[1] in ("copy", "tolist", "items", "keys", "values"):
            return self.size(n.args[0], d)
        if n.op == "bin" and n.args[0] == "*":
            a, b = n.args[1], n.args[2]
            if listish(b) and not listish(a):
                a, b = b, a
            return self.size(a, d) * self.num(b, d)
        if n.op == "bin" and n.args[0] == "+":
            return self.size(n.args[1], d) + self.size(n.args[2], d)
        if n.op == "sub":
            x, k = self.res(n.args[0]), n.args[1]
            if x.op == "call" and x.args[0] == "zip" and len(x.args[1]) == 1 and x.args[1][0].op == "star":
                return self.size(x.args[1][0].args[0], d)
            if k.op == "slice" or (k.op == "call" and k.args[0] == "slice"):
                return self.sliced(n, x, k, d)
        return Poly.atom(("len", self.name(n)))

    def bounds(self, k):
        a = k.args if k.op == "slice" else k.args[1]
        out = []
        for x in a:
            if x is None or (isinstance(x, Node) and x.op == "const" and x.args[1] is None):
                out.append(None)
            else:
                out.append(x)
        while len(out) < 3:
            out.append(None)
        return out

    def sliced(self, n, x, k, d):
        lo, hi, st = self.bounds(k)
        if lo is None and hi is None:
            if st is None or (st.op == "const" and st.args[1] in (1, -1)) or (st.op == "un" and st.args[1].op == "const" and st.args[1].args[1] == 1):
                return self.size(x, d)
            return Poly.atom(("len", n))
        if lo is None and st is None and hi is not None:
            want = self.num(hi, d)
            rep = self.repeat(x)
            if rep is not None:
                base, cnt = rep
                if self.covers(cnt, base, want):
                    return want
                raise Bad("%s may have fewer than %r items" % (show(x, 4), want), None)
            have = self.size(x, d)
            if want == have:
                return want
            if want == ONE and self.nonempty(x):
                return want
            if want.is_const() and have.is_const():
                return want if 0 <= want.cval() <= have.cval() else have
            return Poly.atom(("slice", n))
        if hi is None and st is None and lo is not None and lo.op == "const" and isinstance(lo.args[1], int) and lo.args[1] >= 0:
            return self.size(x, d) - K(lo.args[1])    # at least that long
        return Poly.atom(("len", n))

    def nonempty(self, x):
        x = self.res(x)
        return x.op in ("param",) or (x.op == "list" and len(x.args[0]) > 0)

    def repeat(self, x):
        """(list, count node) of `list * count`"""
        x = self.res(x)
        if x.op == "bin" and x.args[0] == "*":
            a, b = x.args[1], x.args[2]
            if listish(b) or (strip(a).op in ("const",)):
                a, b = b, a
            return a, b
        return None

    def covers(self, cnt, base, want):
        """count copies of base have at least `want` items"""
        c = self.res(cnt)
        size = self.size(base)
        if self.num(c) * size == want or (self.num(c) == want):
            return True    # at least one item per copy
        if c.op == "bin" and c.args[0] == "+":
            for q, o in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                q = self.res(q)
                if q.op == "bin" and q.args[0] == "//":
                    o = self.num(o)
                    if o.is_const() and o.cval() >= 1 and self.num(q.args[1]) == want and self.num(q.args[2]) == size:
                        return True
        if c.op == "call" and c.args[0] in ("max", "min") and len(c.args[1]) >= 2:
            r = [self.covers(x, base, want) for x in c.args[1]]
            return any(r) if c.args[0] == "max" else all(r)
        if c.op == "call" and c.args[0] == "int" and len(c.args[1]) == 1 and self.res(c.args[1][0]).op == "bin" and self.res(c.args[1][0]).args[0] in ("//", "/"):
            return False
        if c.op == "bin" and c.args[0] == "//":
            # (n + len - 1) // len, -(-n // len)
            if self.num(c.args[1]) == want + size - ONE and self.num(c.args[2]) == size:
                return True
        if c.op == "un" and c.args[0] == "-":
            q = self.res(c.args[1])
            if q.op == "bin" and q.args[0] == "//" and self.num(q.args[1]) == -want and self.num(q.args[2]) == size:
                return True
        if c.op == "bin" and c.args[0] == "//":
            return False
        if c.op in ("bin",):
            for q in c.args[1:]:
                if self.res(q).op == "bin" and self.res(q).args[0] == "//":
                    return False
        if self.num(c).is_const():
            return False
        raise Give("number of copies " + show(c, 4))

    # -- what the items are ------------------------------------------------
    def segs(self, n, depth=0):
        """[(count, value)] value: ('each', node) the same value for every item,
        ('cyc', base) item i is base[i % len(base)], ('same', node) element i
        comes from element i of another sequence, ('?', node)"""
        n = self.res(n)
        if depth > 12:
            raise Give("nesting")
        d = depth + 1
        if n.op in ("list", "tuple"):
            out = []
            for x in n.args[0]:
                out += self.segs(x.args[0], d) if x.op == "star" else [(ONE, ("each", x))]
            return out
        if n.op == "comp" and n.args[0] in ("list", "gen"):
            cnt = self.size(n)
            return [(cnt, self.item(n.args[1], sites_of(n), n.args[2]))]
        if n.op == "call" and n.args[0] in ("list", "tuple", "iter") and len(n.args[1]) == 1:
            return self.segs(n.args[1][0], d)
        if n.op == "call" and n.args[0] in ("list", "tuple") and not n.args[1]:
            return []
        if n.op == "call" and n.args[0] == "itertools.repeat" and len(n.args[1]) == 2:
            return [(self.num(n.args[1][1]), ("each", n.args[1][0]))]
        if n.op == "call" and n.args[0] == "itertools.islice" and len(n.args[1]) == 2:
            x = self.res(n.args[1][0])
            if x.op == "call" and x.args[0] == "itertools.cycle":
                return [(self.num(n.args[1][1]), ("cyc", x.args[1][0]))]
        if n.op == "bin" and n.args[0] == "+":
            return self.segs(n.args[1], d) + self.segs(n.args[2], d)
        if n.op == "bin" and n.args[0] == "*":
            a, b = n.args[1], n.args[2]
            if listish(b) and not listish(a):
                a, b = b, a
            s = self.segs(a, d)
            k = self.num(b)
            if len(s) == 1 and s[0][1][0] == "each":
                return [(s[0][0] * k, s[0][1])]
            if k.is_const() and 0 <= k.cval() <= 8:
                return s * int(k.cval())
            return [(self.size(n), ("?", n))]
        if n.op == "sub" and (n.args[1].op == "slice"):
            lo, hi, st = self.bounds(n.args[1])
            if lo is None and st is None and hi is not None:
                cnt = self.size(n)
                rep = self.repeat(n.args[0])
                base = rep[0] if rep else n.args[0]
                b = self.res(base)
                if b.op in ("list",) and len(b.args[0]) == 1:
                    return [(cnt, ("each", b.args[0][0]))]
                if rep or (cnt == ONE):
                    return [(cnt, ("cyc", base))]
        return [(self.size(n), ("seq", n))]

    def item(self, v, sites, iters):
        v = self.res(v)
        if not depends_any(v, sites):
            return ("each", v)
        if v.op == "sub":
            b, k = self.res(v.args[0]), self.res(v.args[1])
            if k.op == "bin" and k.args[0] == "%" and not depends_any(b, sites):
                i = strip(k.args[1])
                if len(iters) == 1 and ((i.op == "elem" and self.res(i.args[0]).op == "call" and self.res(i.args[0]).args[0] == "range" and len(self.res(i.args[0]).args[1]) == 1) or i.op == "idx"):
                    if self.num(k.args[2]) == self.size(b):
                        return ("cyc", b)
                    raise Bad("the index into %s is reduced modulo %s, not its length" % (show(b, 3), show(k.args[2], 3)), None)
        if v.op == "elem" and len(iters) == 1 and self.res(iters[0]) is self.res(v.args[0]):
            return ("seq", v.args[0])
        return ("of", v)


KINDS = {"layers": "layer", "datatypes": "datatype"}


def role(n, case_res, lists, depth=0):
    """'layer' / 'datatype' / None: what the value describes"""
    n = strip(n)
    if depth > 12:
        return None
    if n.op in ("param", "attr") and isinstance(n.args[-1], str):
        s = n.args[-1]
        if "datatype" in s or "texttype" in s:
            return "datatype"
        if "layer" in s:
            return "layer"
        return None
    if n.op == "loopv" and isinstance(n.args[1], tuple) and n.args[1][-1] in KINDS:
        return KINDS[n.args[1][-1]]
    if n.op == "loopv" and n.info and n.info.get("init") is not None:
        return role(n.info["init"], case_res, lists, depth + 1)
    if n.op == "mcall" and n.args[1] == "pop":
        a = lists(n.args[0])
        if a:
            return KINDS.get(a)
        return role(n.args[0], case_res, lists, depth + 1)
    if n.op == "sub":
        b, k = strip(n.args[0]), n.args[1]
        if k.op == "const" and k.args[1] in (0, 1) and b.op in ("key", "elem"):
            r = None
            x = strip(b.args[0])
            if b.op == "key" or (x.op == "mcall" and x.args[1] in ("keys",)):
                return ("layer", "datatype")[k.args[1]]
        if b.op == "call" and b.args[0] == "zip" and len(b.args[1]) == 1 and b.args[1][0].op == "star" and k.op == "const":
            c = strip(b.args[1][0].args[0])
            if c.op == "comp" and strip(c.args[1]).op == "tuple" and isinstance(k.args[1], int) and k.args[1] < len(strip(c.args[1]).args[0]):
                return role(strip(c.args[1]).args[0][k.args[1]], case_res, lists, depth + 1)
        if k.op == "const" and isinstance(k.args[1], int) and b.op == "elem" and strip(b.args[0]).op == "comp":
            v = strip(strip(b.args[0]).args[1])
            if v.op == "tuple" and k.args[1] < len(v.args[0]):
                return role(v.args[0][k.args[1]], case_res, lists, depth + 1)
        return role(b, case_res, lists, depth + 1)
    if n.op in ("elem",):
        return role(n.args[0], case_res, lists, depth + 1)
    if n.op == "list" and n.args[0]:
        rs = set(role(x, case_res, lists, depth + 1) for x in n.args[0])
        return rs.pop() if len(rs) == 1 else None
    if n.op == "comp":
        return role(n.args[1], case_res, lists, depth + 1)
    if n.op == "bin" and n.args[0] in ("*", "+"):
        rs = set(role(x, case_res, lists, depth + 1) for x in n.args[1:])
        rs.discard(None)
        return rs.pop() if len(rs) == 1 else None
    if n.op == "call" and n.args[0] in SEQ + ("int", "copy.copy", "copy.deepcopy") and n.args[1]:
        return role(n.args[1][0], case_res, lists, depth + 1)
    if n.op == "ite":
        rs = set(role(x, case_res, lists, depth + 1) for x in n.args[1:])
        return rs.pop() if len(rs) == 1 else None
    return None


class Group(object):
    """the lists of one object in one function"""

    def __init__(self, r, owner, attrs):
        self.r, self.it, self.owner, self.attrs = r, r.it, owner, attrs
        self.ids = {}       # list node -> attribute
        self.events = []    # (attr, effect, kind)
        self.scan()

    def attr_of(self, o):
        s = strip(o)
        if s in self.ids:
            return self.ids[s]
        if s.op == "attr" and strip(s.args[0]) is self.owner and s.args[1] in self.attrs:
            return s.args[1]
        if s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][1] in self.attrs and s.args[1][0] is self.owner:
            return s.args[1][1]
        return None

    def scan(self):
        for e in self.r.res.effects:
            if e.kind == "store" and e.attr in self.attrs and strip(e.obj) is self.owner and e.data.get("aug"):
                self.ids[strip(e.value)] = e.attr
            elif e.kind == "store" and e.attr in self.attrs and strip(e.obj) is self.owner:
                w = strip(e.value)
                if w.op == "bin" and w.args[0] == "+" and self.attr_of(w.args[1]) == e.attr:
                    self.events.append((e.attr, e, "plus"))
                    self.ids[w] = e.attr
                    continue
                self.events.append((e.attr, e, "store"))
                v = strip(e.value)
                if v.op in ("list", "comp", "call", "bin", "dict"):
                    self.ids[v] = e.attr
            elif e.kind == "augattr" and e.attr in self.attrs and strip(e.obj) is self.owner:
                self.events.append((e.attr, e, "aug"))
            elif e.kind == "aug":
                a = self.attr_of(e.obj)
                if a:
                    self.events.append((a, e, "augobj"))
            elif e.kind == "mcall" and e.name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                a = self.attr_of(e.recv)
                if a:
                    self.events.append((a, e, e.name))
            elif e.kind == "delitem":
                a = self.attr_of(e.obj)
                if a:
                    self.events.append((a, e, "pop"))
            elif e.kind == "storeitem":
                a = self.attr_of(e.obj)
                if a and e.key.op == "slice":
                    self.events.append((a, e, "setslice"))

    def touched(self):
        return bool(self.events)


class Item(object):
    __slots__ = ("loops", "count", "value", "where", "pop", "deps")

    def __init__(self, loops, count, value, where, pop=None, deps=()):
        self.loops, self.count, self.value, self.where, self.pop, self.deps = loops, count, value, where, pop, deps


class Layout(object):
    """the contents of the lists on one path through the function"""

    def __init__(self, g, case, fresh):
        self.setup(g, case, fresh, Sizes(g.it, case, pre=self.pre))
        for a in g.attrs:
            self.now[a] = None if fresh else [Item((), Poly.atom("kept"), ("init", a), None)]
        for a, e, k in g.events:
            self.step(a, e, k)

    def setup(self, g, case, fresh, sz):
        self.g, self.case, self.fresh, self.sz = g, case, fresh, sz
        self.now, self.last, self.busy, self.at = {}, {}, [], None
        sz.built = self.built
        return self

    def pre(self, n, sz):
        s = strip(n)
        a = self.g.attr_of(n)
        if a is None:
            return None
        # a length taken from one of the lists themselves
        if not self.fresh and s.op in ("attr", "loopv") and (n.op != "ver" or not any(b == a and k != "store" for b, e, k in self.g.events)):
            return Poly.atom("kept")
        if s in self.g.ids:
            l = self.last.get(a)
            if l is not None and l[1] != "store":
                if not self.contains(n, l[0]):
                    if n is s and s.op != "list":
                        return None
                    raise Bad("a length of %s taken before its last items are added" % a, l[0].where)
                return Poly.atom(("whole", a))
        return None

    def contains(self, n, e):
        if n.op != "ver":
            return False
        v = e.args[0] if e.kind == "mcall" and e.args else None
        for x in subnodes(n.args[1], follow=True):
            if x.op == "upd" and len(x.args) > 2 and v is not None and v in tuple(y for y in x.args[2] if isinstance(y, Node)):
                return True
        return False

    def live(self, e):
        for c, p in e.guards:
            if self.loop_cond(e, c):
                continue
            d = self.case.decide(c)
            if d is None:
                raise Fork(c)
            if d != p:
                return False
        return True

    def loop_cond(self, e, c):
        for l in e.loops:
            if l[2] == "while" and c.op == "cmp" and c.args[0] in ("<", "<=", "!=", ">", ">=") and any(x.op == "loopv" and x.args[0] == l[0] for x in c.args[1:]):
                return True
        return False

    def step(self, a, e, k):
        if not self.live(e):
            return
        self.at = e
        if k == "store":
            if any(not depends(self.g.owner, l[0]) for l in e.loops):
                raise Give("%s replaced inside a loop" % a)
            b = self.built(e.value, e)
            if b is not None:
                self.now[a] = b
                self.last[a] = (e, "store")
                return
            s = self.sz.segs(e.value)
            out = []
            for cnt, val in s:
                if cnt == Poly.atom(("whole", "polygons")) and len(s) == 1 and val[0] == "each":
                    src = self.now["polygons"]
                    out += [Item(i.loops, i.count, val, e.where, i.pop, i.deps) for i in src]
                else:
                    out.append(Item((), cnt, val, e.where))
            self.now[a] = [i for i in out if i.count != K(0)]
            self.last[a] = (e, "store")
            return
        cur = self.now[a]
        if cur is None:
            raise Bad("%s is used before it is set" % a, e.where)
        self.change(cur, e, k, ())
        self.last[a] = (e, k)

    def change(self, cur, e, k, outer):
        """effect of one mutating statement on the items of a list"""
        conds = tuple(c for c, p in e.guards if not self.loop_cond(e, c))
        loops = tuple((l[0], l[1], l[2], e) for l in e.loops if not depends(self.g.owner, l[0]) and l[0] not in outer)
        if k == "append":
            items = [(ONE, self.element(e.args[0], loops))]
        elif k in ("extend", "plus", "aug", "augobj"):
            v = e.args[0] if k == "extend" else (strip(e.value).args[2] if k == "plus" else e.value)
            b = self.built(v, e)
            if b is not None:
                for i in b:
                    cur.append(self.hoist(Item(loops + i.loops, i.count, i.value, e.where, i.pop, conds + tuple(i.deps))))
                return
            items = self.sz.segs(v)
        elif k == "pop":
            ix = e.args[0] if e.kind == "mcall" and e.args else (e.data.get("key") if e.kind == "delitem" else None)
            items = [(K(-1), ("pop", ix))]
        elif k == "insert":
            items = [(ONE, ("ins", None))]
        else:
            raise Give(k)
        for cnt, val in items:
            if cnt == K(0):
                continue
            cur.append(self.hoist(Item(loops, cnt, val, e.where, val if val[0] == "pop" else None, conds)))

    def built(self, n, upto=None, count=False):
        """items of a local list filled by statements before `upto`; None when it
        is not filled that way"""
        upto = upto or self.at
        s = self.sz.res(n)
        while s.op == "call" and s.args[0] in ("list", "tuple", "iter") and len(s.args[1]) == 1:
            s = self.sz.res(s.args[1][0])
        if s.op not in ("list", "comp", "call", "bin") or s in self.busy:
            return None
        evs = []
        for e in self.g.r.res.effects:
            if e is upto:
                break
            if e.kind == "mcall" and e.name in ("append", "extend", "insert", "pop", "remove", "clear") and strip(e.recv) is s:
                evs.append((e, e.name))
            elif e.kind == "aug" and strip(e.obj) is s:
                evs.append((e, "augobj"))
            elif e.kind == "delitem" and strip(e.obj) is s:
                evs.append((e, "pop"))
        if not evs:
            return None
        if count and s not in self.g.ids and any(depends(c, l[0]) for e, k in evs for l in e.loops for c, p in e.guards if not self.loop_cond(e, c)):
            return "unknown"
        self.busy.append(s)
        try:
            out = [Item((), c, v, evs[0][0].where) for c, v in self.sz.segs(s) if c != K(0)]
            outer = set(l[0] for l in upto.loops) if upto is not None else set()
            for e, k in evs:
                if self.live(e):
                    self.change(out, e, k, outer)
        finally:
            self.busy.pop()
        return out

    def element(self, v, loops):
        v = self.sz.res(v)
        for l in loops:
            if depends(v, l[0]):
                break
        else:
            return ("each", v)
        if v.op == "sub":
            b, k = self.sz.res(v.args[0]), self.sz.res(v.args[1])
            if k.op == "bin" and k.args[0] == "%":
                i = strip(k.args[1])
                fl = [l for l in loops if l[2] == "for"]
                if i.op in ("elem", "idx") and fl:
                    if self.sz.num(k.args[2]) != self.sz.size(b):
                        raise Bad("the index into %s is reduced modulo %s, not its length" % (show(b, 3), show(k.args[2], 3)), None)
                    if depends(i, fl[-1][0]):
                        return ("at", b, fl[-1][0])
                    raise Bad("%s is indexed by %s, not by the number of the path" % (show(b, 3), show(i, 3)), None)
        return ("of", v)

    def trips(self, l):
        """number of iterations of a loop"""
        if l[2] == "for":
            return self.sz.size(l[1])
        g = while_iter(l[0], l[3].guards)
        if g is not None and g.args[0] in ("<", "!="):
            v = g.args[1]
            i, nx = (v.info or {}).get("init"), (v.info or {}).get("next")
            if i is not None and nx is not None and self.sz.num(nx) - self.sz.num(v) == ONE and not depends(g.args[2], l[0]):
                return self.sz.num(g.args[2]) - self.sz.num(i)
        return Poly.atom(("trips", l[0]))

    def hoist(self, i):
        """a loop becomes a count; items added under conditions that change from
        one iteration to the next stay in their loop"""
        while i.loops:
            l = i.loops[-1]
            if i.pop or any(depends(c, l[0]) for c in i.deps) or depends_poly(i.count, l[0]):
                break
            n = self.trips(l)
            v = i.value
            if v[0] == "at":
                v = ("cyc", v[1]) if v[2] == l[0] else ("?", v[1])
            elif v[0] in ("seq", "cyc", "?") or (v[0] == "of" and i.count != ONE):
                v = ("?", None)
            i = Item(i.loops[:-1], i.count * n, v, i.where, i.pop, i.deps)
        return i


def depends_poly(p, site):
    for a in p.atoms():
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, Node) and depends(x, site):
                return True
    return False


def basic(p):
    """only quantities that can take any value independently of each other"""
    for a in p.atoms():
        if a == "kept":
            continue
        if isinstance(a, tuple) and a[0] in ("num", "len") and isinstance(a[1], Node):
            n = strip(a[1])
            if n.op == "param" or (n.op == "attr" and strip(n.args[0]).op == "param"):
                continue
        return False
    return True


def free(n, depth=0):
    """a quantity computed from arguments, not always the same"""
    n = strip(n)
    if depth > 8:
        return False
    if n.op == "param" or (n.op == "attr" and strip(n.args[0]).op == "param"):
        return True
    if n.op == "call" and n.args[0] in ("int", "float", "abs", "max", "min", "round", "numpy.ceil", "numpy.floor", "numpy.round", "numpy.rint", "len", "math.ceil", "math.floor"):
        return any(free(x, depth + 1) for x in n.args[1])
    if n.op == "bin" and n.args[0] in ("+", "-", "*", "/", "//"):
        return any(free(x, depth + 1) for x in n.args[1:])
    return False


def single(p):
    if len(p.t) == 1:
        (k, v), = p.t.items()
        if v == 1 and len(k) == 1 and k[0][1] == 1:
            return k[0][0]
    return None


def differ(p, q, sz):
    """the two numbers of items are not always equal"""
    d = p - q
    if d.is_const():
        return d != K(0)
    if basic(p) and basic(q):
        return True
    p = Poly({k: v for k, v in d.t.items() if v > 0})
    q = Poly({k: -v for k, v in d.t.items() if v < 0})
    if len(p.t) == 1 and len(q.t) == 1:
        # common factors
        (kp, vp), = p.t.items()
        (kq, vq), = q.t.items()
        c = dict(kp)
        common = {a: min(e, c[a]) for a, e in kq if a in c}
        if common:
            inv = Poly({tuple((a, -e) for a, e in common.items()): vp ** 0})
            p, q = p * inv, q * inv
    for a, b in ((p, q), (q, p)):
        x, y = single(a), single(b)
        if a.is_const() and isinstance(y, tuple) and (y[0] == "trips" or (y[0] in ("num", "len") and free(y[1]))):
            return True
        if isinstance(x, tuple) and x[0] == "comp" and sz.upper.get(a) == b:
            return True
        if isinstance(x, tuple) and x[0] == "slice" and basic(b) and free(strip(x[1]).args[0]):
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "sumlen" and y[0] == "len" and x[1] is y[1]:
            return True
    return False


def runs_of(items):
    """[(loop sites, total, items)] with neighbours in the same loops merged"""
    out = []
    for i in items:
        key = tuple(l[0] for l in i.loops)
        if out and out[-1][0] == key:
            out[-1][1] = out[-1][1] + i.count
            out[-1][2].append(i)
        else:
            out.append([key, i.count, [i]])
    return [o for o in out if o[1] != K(0) or any(i.pop for i in o[2])]


def iters_match(p, q):
    return p == q


def aligned(ref, other, a, b, sz):
    """problem text, None, or Give"""
    if any(i.value[0] == "ins" for i in list(ref) + list(other)):
        raise Give("insertions")
    P, Q = runs_of(ref), runs_of(other)
    for x, y in zip(P, Q):
        w = (y[2] or x[2])[-1].where or (x[2] or y[2])[-1].where
        if x[0] != y[0]:
            if len(P) == len(Q) or all(basic(r[1]) for r in P + Q):
                return "items of %s and %s are added at different points (%s and %s)" % (a, b, x[2][0].where, y[2][0].where), w
            raise Give("order of additions")
        if x[1] != y[1]:
            if differ(x[1], y[1], sz):
                return "%s receives %r items where %s receives %r" % (a, x[1], b, y[1]), w
            raise Give("number of items: %r and %r" % (x[1], y[1]))
        pops = [i for i in x[2] if i.pop], [i for i in y[2] if i.pop]
        if len(pops[0]) != len(pops[1]):
            return "a different number of items is removed from %s and %s" % (a, b), w
        for i, j in zip(*pops):
            u, v = i.pop[1], j.pop[1]
            if u is not v:
                return "the item removed from %s is not the one removed from %s" % (b, a), j.where
        if pops[0]:
            # removal and addition: the removal has to come first in both or last in both
            if [bool(i.pop) for i in x[2]][:1] != [bool(i.pop) for i in y[2]][:1]:
                raise Give("order of removals")
    if len(P) != len(Q):
        long, nm = (P, a) if len(P) > len(Q) else (Q, b)
        extra = long[min(len(P), len(Q))]
        return "items are added to %s without a matching addition to %s" % (nm, b if nm == a else a), extra[2][0].where
    return None


def starts(items):
    """partial sums at which blocks start, per run"""
    out = []
    for key, tot, its in runs_of(items):
        s = K(0)
        ss = []
        for i in its:
            ss.append((s, i))
            s = s + i.count
        out.append(ss)
    return out


def boundaries(ref, other, b):
    """blocks that cycle over a list begin where a block of polygons begins"""
    for x, y in zip(starts(ref), starts(other)):
        for s, i in y:
            if i.value[0] == "cyc":
                if not any(s == t and j.count == i.count for t, j in x):
                    # a single block may also be described as several of one item
                    if not (s == K(0) and len(y) == 1) and not any(s == t for t, j in x):
                        raise Give("where the values of %s restart" % b)
    return None


ATTRS = ("polygons", "layers", "datatypes")


def owners(r, attrs, ctor_of):
    out = []
    for e in r.res.effects:
        o = None
        if e.kind in ("store", "augattr") and e.attr in attrs:
            o = strip(e.obj)
        elif e.kind in ("mcall", "aug", "delitem"):
            t = strip(e.recv if e.kind == "mcall" else e.obj)
            if t.op == "attr" and t.args[1] in attrs:
                o = strip(t.args[0])
        if o is not None and o not in out:
            out.append(o)
    return out


def is_path(r, o):
    """the object is an element of the paths of a cell, or a path"""
    from .caches import path_element
    if o is r.me:
        c = r.f.cls
        return c is not None and any(k.name in ("FlexPath", "RobustPath", "_SubPath") for k in c.mro())
    return path_element(o) is True


def new_class(r, o):
    for e in r.res.effects:
        if e.kind == "new" and e.data.get("result") is not None and strip(e.data["result"]) is o:
            return e.data.get("cls")
    return None


def check_group(ctx, rule, r, g, attrs, fresh, where, counts):
    f = r.f
    it = r.it
    probs, gave, n = {}, [], [0]

    def one(case):
        try:
            lay = Layout(g, case, fresh)
            n[0] += 1
            if all(lay.now[a] is None for a in attrs):
                return
            miss = [a for a in attrs if lay.now[a] is None]
            if miss:
                raise Bad("%s is never set" % miss[0], None)
            for a in attrs[1:]:
                p = aligned(lay.now[attrs[0]], lay.now[a], attrs[0], a, lay.sz)
                if p:
                    raise Bad(*p)
                boundaries(lay.now[attrs[0]], lay.now[a], a)
                for i in lay.now[a]:
                    values(f, r, g, lay, a, i)
        except Bad as b:
            probs.setdefault(str(b.args[0]), (b.args[1] if len(b.args) > 1 else None, list(case.dec)))
        except Give as b:
            gave.append(str(b))

    try:
        cases(it, one, 6000)
    except Give as b:
        gave.append(str(b))
    name = "%s" % "/".join(attrs)
    cons = "%s|%s" % (f.qualname, name)
    if probs:
        for m, (w, dec) in sorted(probs.items(), key=lambda x: str(x[0])):
            ctx.violation(rule, cons, w or where, m)
    elif gave:
        ctx.unknown("parallel lists", where, "%s: %s" % (cons, gave[0]))
    else:
        ctx.ok("lists stay parallel", "%s: %s, %d paths" % (where, cons, n[0]))
        counts[0] += n[0]


def values(f, r, g, lay, a, i):
    want = KINDS.get(a)
    if want is None or i.value[0] in ("init", "pop"):
        return
    v = i.value[1]
    if not isinstance(v, Node):
        return
    got = role(v, lay.sz.res, g.attr_of)
    if got is not None and got != want:
        raise Bad("%s receives %s values (%s)" % (a, got, show(v, 3)), i.where)
    if got is None and want in f.params() and lay.sz.res(v).op == "const":
        raise Bad("%s receives the constant %s instead of the argument %s" % (a, show(v, 2), want), i.where)


def parallel(ctx):
    rule = "the polygons, layers and datatypes of a polygon set receive and lose the same number of items at the same points, with the layer values in the layers and the datatype values in the datatypes"
    ctx.rule(rule)
    ctx.assume("lists given for layer and datatype are not empty; numbers of paths are not negative; the three lists have equal lengths when a method starts; users do not edit them")
    counts = [0]
    base = ctx.prog.need_class("PolygonSet")
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("parallel lists", f.where, "%s: %s" % (f.qualname, r))
            continue
        if private(f):
            continue
        ctx.saw(r.it.functions_seen)
        for o in owners(r, ATTRS, None):
            own = o is r.me
            if new_class(r, o) is not None and not new_class(r, o).issub(base) and new_class(r, o) is not base:
                continue
            if own and not (f.cls is base or f.cls.issub(base)):
                continue
            if not own and is_path(r, o):
                continue
            g = Group(r, o, ATTRS)
            inner = [e for a, e, k in g.events]
            if not inner or all(e.func is not f and e.ctx for e in inner):
                # entirely inside functions that are checked on their own
                continue
            fresh = (own and f.name == "__init__") or o.op == "new"
            check_group(ctx, "parallel", r, g, ATTRS, fresh, f.where, counts)


# -- one entry per parallel path ------------------------------------------------

PER_PATH = {
    "FlexPath": ("layers", "datatypes", "ends", "corners", "bend_radius"),
    "RobustPath": ("layers", "datatypes", "ends", "paths", "widths", "offsets"),
}
ARGS = {"layers": "layer", "datatypes": "datatype", "ends": "ends", "corners": "corners", "bend_radius": "bend_radius", "widths": "width", "offsets": "offset"}


def source_params(n, skip=("n",)):
    """parameters and own attributes a per path value is taken from"""
    out = set()
    for x in subnodes(n):
        if x.op == "param" and x.args[0] in ARGS.values():
            out.add(x.args[0])
    return out


def unify(case, it, f):
    """both width and offset given as lists: documented to have equal lengths"""
    ps = f.params()
    if "width" in ps and "offset" in ps:
        return it.mk("param", "width"), it.mk("param", "offset")
    return None


class PathSizes(Sizes):
    def __init__(self, it, case, me, f, pre):
        Sizes.__init__(self, it, case, pre=pre)
        self.both = unify(case, it, f) if f.name == "__init__" else None

    def name(self, n):
        if self.both and n is self.both[1]:
            given = [any(p and c.op == "call" and c.args[0] == "isinstance" and strip(c.args[1][0]) is q for c, p in self.case.dec) for q in self.both]
            if all(given):
                return self.both[0]
        return Sizes.name(self, n)


def per_path(ctx):
    rule = "every per path list of FlexPath and RobustPath has one item for each parallel path, taken from the argument of the same name"
    ctx.rule(rule)
    ctx.assume("when both width and offset are lists, they have equal lengths (documented); list arguments are not empty")
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("per path lists", f.where, "%s: %s" % (f.qualname, r))
            continue
        if private(f):
            continue
        ctx.saw(r.it.functions_seen)
        mine = [a for c, a in PER_PATH.items() if f.cls is not None and r.me is not None and (f.cls.name == c or f.cls.issub(ctx.prog.need_class(c)))]
        names = set(a for v in PER_PATH.values() for a in v)
        for o in owners(r, names, None):
            if o is r.me:
                if not mine:
                    continue
                attrs = mine[0]
            else:
                if not is_path(r, o):
                    continue
                attrs = ("layers", "datatypes", "ends")
            g = Group(r, o, attrs)
            ev = [x for x in g.events if x[1].func is f or not x[1].ctx]
            if not ev:
                continue
            path_lists(ctx, r, f, g, attrs, o is r.me and f.name == "__init__")


def n_of(r, o, ctor):
    if ctor:
        for e in reversed([e for e in r.res.effects if e.kind == "store" and e.attr == "n" and strip(e.obj) is o]):
            return e
    return None


def path_lists(ctx, r, f, g, attrs, ctor):
    it = r.it
    probs, gave, n = {}, [], [0]
    o = g.owner

    def one(case):
        try:
            val = {}

            def pre(nd, sz):
                s = strip(nd)
                if not ctor and s.op in ("attr", "loopv"):
                    a = g.attr_of(nd)
                    if a is not None:
                        return Poly.atom("n")
                return None

            sz = PathSizes(it, case, o, f, pre)

            def isn(p):
                """the number of paths, however it is written"""
                return Poly({tuple(("n", x) if isn_atom(y) else (y, x) for y, x in k): v for k, v in p.t.items()})

            def isn_atom(a):
                return isinstance(a, tuple) and a[0] == "num" and isinstance(a[1], Node) and strip(a[1]).op == "attr" and strip(strip(a[1]).args[0]) is o and strip(a[1]).args[1] == "n"

            want = None
            if ctor:
                for e in r.res.effects:
                    if e.kind == "store" and e.attr == "n" and strip(e.obj) is o:
                        ok = True
                        for c, p in e.guards:
                            d = case.decide(c)
                            if d is None:
                                raise Fork(c)
                            ok = ok and d == p
                        if ok:
                            want = sz.num(e.value)
                if want is None:
                    raise Give("the number of paths is not set")
            else:
                want = Poly.atom("n")
            seen = set()
            for a, e, k in g.events:
                live = True
                for c, p in e.guards:
                    d = case.decide(c)
                    if d is None:
                        raise Fork(c)
                    live = live and d == p
                if not live:
                    continue
                if k in ("append", "extend", "insert", "pop", "remove", "clear"):
                    if k == "append" and [l for l in e.loops if l[2] == "for"]:
                        raise Give("%s.%s" % (a, k))
                    raise Bad("%s.%s changes the number of items of %s" % (a, k, a), e.where)
                if k != "store":
                    continue
                seen.add(a)
                n[0] += 1
                v = e.value
                s = sz.res(v)
                lay = Layout.__new__(Layout).setup(g, case, ctor, sz)
                lay.at = e
                b = lay.built(v, e)
                if b is not None:
                    if any(i.loops for i in b):
                        raise Give("%s is filled in a loop" % a)
                    sg = [(i.count, i.value) for i in b]
                    got = K(0)
                    for c, _ in sg:
                        got = got + c
                elif s.op == "param" and a in ("widths", "offsets") and ARGS[a] == s.args[0]:
                    got = sz.size(s)
                    sg = [(got, ("seq", s))]
                elif s.op == "call" and s.args[0] in ("list",) and s.args[1] and sz.res(s.args[1][0]).op == "param":
                    got = sz.size(s)
                    sg = [(got, ("seq", s))]
                else:
                    sg = sz.segs(v)
                    got = K(0)
                    for c, _ in sg:
                        got = got + c
                got, w = isn(got), isn(want)
                if got != w:
                    if differ(got, w, sz) or (basic2(got) and basic2(w)):
                        raise Bad("%s has %r items for %r paths" % (a, got, w), e.where)
                    raise Give("%s: %r items for %r paths" % (a, got, w))
                if a in ARGS:
                    src = set()
                    for c, x in sg:
                        if isinstance(x[1], Node):
                            src |= source_params(x[1])
                    other = src - {ARGS[a]}
                    if other and ARGS[a] not in src and f.name == "__init__":
                        raise Bad("%s is taken from %s" % (a, ", ".join(sorted(other))), e.where)
                    if not src and ctor and any(x[0] == "each" and sz.res(x[1]).op == "const" for c, x in sg):
                        raise Bad("%s does not come from the argument %s" % (a, ARGS[a]), e.where)
                    if a in KINDS:
                        for c, x in sg:
                            if isinstance(x[1], Node):
                                ro = role(x[1], sz.res, g.attr_of)
                                if ro is not None and ro != KINDS[a]:
                                    raise Bad("%s receives %s values" % (a, ro), e.where)
            if ctor:
                for a in attrs:
                    if a not in seen:
                        raise Bad("%s is not set" % a, None)
        except Bad as b:
            probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
        except Give as b:
            gave.append(str(b))

    try:
        cases(it, one, 3000)
    except Give as b:
        gave.append(str(b))
    cons = "%s|%s" % (f.qualname, "/".join(attrs))
    if probs:
        for m, w in sorted(probs.items()):
            ctx.violation("per-path", cons, w or f.where, m)
    elif gave:
        ctx.unknown("per path lists", f.where, "%s: %s" % (cons, gave[0]))
    else:
        ctx.ok("one item per path", "%s: %s, %d lists" % (f.where, cons, n[0]))


def basic2(p):
    for a in p.atoms():
        if a == "n":
            continue
        if not basic(Poly.atom(a)):
            return False
    return True


# -- one row of widths and offsets for each spine point ----------------------------


class RowSizes(Sizes):
    """('row', columns) / ('mat', rows) shapes of arrays"""

    def __init__(self, it, case, attrs, me):
        Sizes.__init__(self, it, case)
        self.attrs, self.me = attrs, me

    def start(self, n):
        s = strip(n)
        if s.op == "attr" and strip(s.args[0]) is self.me and s.args[1] in self.attrs:
            return s.args[1]
        if s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2 and s.args[1][0] is self.me and s.args[1][1] in self.attrs:
            return s.args[1][1]
        return None

    def size(self, n, depth=0):
        s = self.res(n)
        if s.op == "call" and s.args[0] in ("numpy.vstack", "numpy.tile", "numpy.outer", "numpy.linspace", "numpy.concatenate"):
            k, r = self.shape(s)
            if r is not None:
                return r
        if self.start(s):
            return Poly.atom("rows")
        if s.op == "bin" and s.args[0] in ("+", "-", "*", "/"):
            try:
                k, r = self.shape(s)
            except Give:
                k = None
            if k == "mat":
                return r
        return Sizes.size(self, n, depth)

    def shape(self, n, depth=0):
        n = self.res(n)
        d = depth + 1
        if depth > 40:
            raise Give("shape")
        if self.start(n):
            return "mat", Poly.atom("rows")
        if n.op == "const" and isinstance(n.args[1], (int, float)):
            return "num", ONE
        if n.op == "attr" and n.args[1] == "T":
            return self.transposed(n.args[0], d)
        if n.op in ("param", "attr", "gconst", "classattr"):
            return "any", None
        if n.op == "bin":
            a, b = self.shape(n.args[1], d), self.shape(n.args[2], d)
            for k in ("mat", "vec", "row"):
                x = [s for s in (a, b) if s[0] == k]
                if len(x) == 2 and x[0][1] is not None and x[1][1] is not None and x[0][1] != x[1][1]:
                    raise Bad("arrays with %r and %r rows are combined" % (x[0][1], x[1][1]), None)
                if x:
                    return x[0]
            return a if a[0] != "num" else b
        if n.op == "un":
            return self.shape(n.args[1], d)
        if n.op == "sub":
            k = n.args[1]
            b = self.shape(n.args[0], d)
            if k.op == "tuple":
                first = self.res(k.args[0][0])
                if first.op == "slice":
                    lo, hi, st = self.bounds(first)
                    if lo is None and hi is None:
                        if len(k.args[0]) == 2 and k.args[0][1].op == "const":
                            return "vec", b[1]
                        return b
                    raise Give("slice")
                if len(k.args[0]) == 2 and k.args[0][1].op == "slice":
                    return "mat", Poly.atom(("sel", strip(k.args[0][0])))
                raise Give("index")
            if k.op == "slice":
                lo, hi, st = self.bounds(k)
                if b[1] is None:
                    return b
                if hi is None and st is None and lo is not None:
                    if lo.op == "const" and isinstance(lo.args[1], int) and lo.args[1] >= 0:
                        return b[0], b[1] - K(lo.args[1])
                    if lo.op == "un" and lo.args[0] == "-" and lo.args[1].op == "const":
                        return b[0], K(lo.args[1].args[1])
                    if lo.op == "const" and isinstance(lo.args[1], int):
                        return b[0], K(-lo.args[1])
                if lo is None and hi is None:
                    return b
                if lo is None and st is None and hi is not None and hi.op == "const" and isinstance(hi.args[1], int) and hi.args[1] < 0:
                    return b[0], b[1] + K(hi.args[1])
                raise Give("slice " + show(k, 3))
            k = self.res(k)
            if k.op in ("const",) and isinstance(k.args[1], int) or k.op in ("un", "loopv", "elem", "idx"):
                if b[0] == "mat":
                    return "row", None
                if b[0] in ("row", "vec"):
                    return "num", ONE
                return "any", None
            if b[0] in ("mat", "vec"):
                return b[0], Poly.atom(("sel", strip(k)))
            return "any", None
        if n.op == "attr" and n.args[1] == "T":
            return self.transposed(n.args[0], d)
        if n.op == "mcall":
            m = n.args[1]
            if m in ("copy", "astype", "round"):
                return self.shape(n.args[0], d)
            if m == "transpose" and not n.args[2]:
                return self.transposed(n.args[0], d)
            return "any", None
        if n.op == "call" and isinstance(n.args[0], str):
            nm, a = n.args[0], n.args[1]
            if nm in ("numpy.vstack", "numpy.concatenate"):
                t = self.res(a[0])
                if t.op not in ("tuple", "list"):
                    raise Give("vstack of " + show(t, 2))
                tot = K(0)
                for x in t.args[0]:
                    k, r = self.shape(x, d)
                    if k == "mat":
                        tot = tot + r
                    elif nm == "numpy.vstack" and k in ("row", "vec", "any"):
                        tot = tot + ONE
                    elif nm == "numpy.concatenate" and k in ("list2",):
                        tot = tot + r
                    elif k == "list2":
                        tot = tot + r
                    else:
                        raise Give("vstack item " + show(x, 3))
                return "mat", tot
            if nm == "numpy.tile":
                reps = self.res(a[1])
                if reps.op == "tuple" and len(reps.args[0]) == 2:
                    k, r = self.shape(a[0], d)
                    m = self.num(reps.args[0][0])
                    return "mat", (m * r if k in ("mat",) else m)
                raise Give("tile")
            if nm == "numpy.outer":
                k, r = self.shape(a[0], d)
                if k in ("vec",) and r is not None:
                    return "mat", r
                raise Give("outer")
            if nm == "numpy.linspace":
                return "vec", (self.num(a[2]) if len(a) > 2 else K(50))
            if nm in ("numpy.cos", "numpy.sin", "numpy.abs", "abs", "numpy.sqrt", "numpy.array", "numpy.asarray", "numpy.copy", "copy.copy", "numpy.atleast_2d"):
                x = self.res(a[0])
                if x.op in ("tuple", "list") and not self.built_of(x):
                    ks = [self.shape(y.args[0] if y.op == "star" else y, d)[0] for y in x.args[0]]
                    if any(k in ("row", "vec") or self.res(y).op in ("tuple", "list") for k, y in zip(ks, x.args[0])):
                        return "mat", K(len(ks))
                    return "row", K(len(ks))
                k, v = self.shape(x, d)
                return ("mat" if k == "list2" else k), v
            if nm in ("numpy.repeat", "numpy.full", "numpy.zeros", "numpy.ones"):
                return "row", None
            return "any", None
        if n.op in ("list", "tuple"):
            if self.built_of(n):
                return "list2", self.size(n)
            if n.args[0] and self.res(n.args[0][0]).op in ("tuple", "list"):
                return "mat", K(len(n.args[0]))
            return "row", K(len(n.args[0]))
        if n.op == "comp":
            return "list2", self.size(n)
        return "any", None

    def built_of(self, n):
        return self.built is not None and self.built(n, None, True) is not None

    def transposed(self, n, d):
        n = self.res(n)
        if n.op == "call" and n.args[0] in ("numpy.vstack", "numpy.array"):
            t = self.res(n.args[1][0])
            if t.op in ("tuple", "list") and t.args[0]:
                rs = [self.shape(x, d) for x in t.args[0]]
                if all(r[0] == "vec" for r in rs):
                    if all(r[1] == rs[0][1] for r in rs):
                        return "mat", rs[0][1]
                    raise Bad("columns of different lengths are combined", None)
        raise Give("transposed " + show(n, 3))


ROWS = ("points", "widths", "offsets")


def rows(ctx):
    rule = "points, widths and offsets of a FlexPath gain, lose and select the same rows on every path through every method"
    ctx.rule(rule)
    c = ctx.prog.need_class("FlexPath")
    for f, r in runs(ctx):
        if isinstance(r, Exception) or r.me is None or f.cls is None or not (f.cls is c or f.cls.issub(c)) or private(f):
            continue
        ev = [e for e in r.res.effects if e.kind == "store" and e.attr in ROWS and strip(e.obj) is r.me]
        if not ev:
            continue
        ctx.saw(r.it.functions_seen)
        probs, gave, n = {}, [], [0]
        first = f.name == "__init__"

        def one(case):
            try:
                n[0] += 1
                now = dict((a, None if first else Poly.atom("rows")) for a in ROWS)
                cur = {}
                inner = {}
                for e in ev:
                    live = True
                    for g, p in e.guards:
                        d = case.decide(g)
                        if d is None:
                            raise Fork(g)
                        live = live and d == p
                    if not live:
                        continue
                    if e.loops:
                        inner.setdefault(tuple(l[0] for l in e.loops), []).append(e)
                        continue
                    sz = RowSizes(r.it, case, ROWS, r.me)
                    setup(sz, e, case)
                    k, p = sz.shape(e.value)
                    if k == "any" and first and strip(e.value).op == "call":
                        now[e.attr] = sz.size(e.value)
                        cur[e.attr] = e
                        continue
                    if k == "row" and first:
                        continue
                    if k not in ("mat", "list2"):
                        if first and e.attr != "points":
                            now[e.attr] = None
                            continue
                        raise Give("%s = %s" % (e.attr, show(e.value, 3)))
                    now[e.attr] = p
                    cur[e.attr] = e
                for key, es in inner.items():
                    # one iteration starts and ends with equal numbers of rows
                    it_rows = dict((a, Poly.atom("rows")) for a in ROWS)
                    for e in es:
                        sz = RowSizes(r.it, case, ROWS, r.me)
                        setup(sz, e, case)
                        k, p = sz.shape(e.value)
                        if k not in ("mat", "list2"):
                            raise Give("%s = %s" % (e.attr, show(e.value, 3)))
                        it_rows[e.attr] = p
                    check(it_rows, es[-1], sz)
                if all(v is None for v in now.values()):
                    return
                last = ([cur[a] for a in ROWS if a in cur] or ev)[-1]
                check(now, last, RowSizes(r.it, case, ROWS, r.me))
            except Bad as b:
                probs.setdefault(str(b.args[0]), b.args[1] if len(b.args) > 1 else None)
            except Give as b:
                gave.append(str(b))

        def setup(sz, e, case):
            lay = Layout.__new__(Layout)
            g = Group.__new__(Group)
            g.r, g.it, g.owner, g.attrs, g.ids, g.events = r, r.it, r.me, (), {}, []
            lay.setup(g, case, first, sz)
            lay.at = e

        def check(now, e, sz):
            for a in ROWS[1:]:
                p, q = now[ROWS[0]], now[a]
                if p is None or q is None:
                    raise Give("%s not understood" % a)
                if p != q:
                    if differ(p, q, sz) or rowdiff(p, q):
                        raise Bad("points have %r rows where %s have %r" % (p, a, q), e.where)
                    raise Give("points have %r rows, %s %r" % (p, a, q))

        try:
            cases(r.it, one, 2000)
        except Give as b:
            gave.append(str(b))
        cons = "%s|points/widths/offsets" % f.qualname
        if probs:
            for m, w in sorted(probs.items()):
                ctx.violation("rows", cons, w or f.where, m)
        elif gave:
            ctx.unknown("rows of a path", f.where, "%s: %s" % (cons, gave[0]))
        else:
            ctx.ok("rows stay parallel", "%s: %s, %d paths" % (f.where, cons, n[0]))


def rowdiff(p, q):
    """difference of a selection and everything, or a different selection"""
    x, y = single(p), single(q)
    s = [isinstance(z, tuple) and z[0] == "sel" for z in (x, y)]
    return any(s) and (x == "rows" or y == "rows")
