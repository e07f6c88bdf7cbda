"""Abstract contents of collections: which items a returned list, set, dictionary
or sum consists of, as generic terms over the inputs with iteration variables
("every self.polygons[a].polygons[b]"), independent of how they were gathered."""
from .interp import Node, show, subnodes
from .flow import strip


class Unknown(Exception):
    pass


class C(object):
    """one generic contribution: value (node), key (node or None), loops
    [(site, iterated node)], guards [(cond, polarity)]"""

    __slots__ = ("value", "key", "loops", "guards", "where", "mode")

    def __init__(self, value, key=None, loops=(), guards=(), where=None, mode=None):
        self.value, self.key, self.loops, self.guards, self.where, self.mode = value, key, tuple(loops), tuple(guards), where, mode


COPIES = ("copy.copy", "copy.deepcopy", "numpy.array", "numpy.asarray", "numpy.copy")
WRAP = ("list", "tuple", "set", "frozenset", "iter", "sorted", "reversed")
EMPTY = ("list", "dict", "set", "tuple", "frozenset", "collections.OrderedDict", "collections.defaultdict")


def none_const(n):
    return n.op == "const" and n.args[1] is None


class Gather(object):
    def __init__(self, it, res, decide=None, self_node=None, signatures=None):
        self.it, self.res = it, res
        self.decide_fn = decide or (lambda c: None)
        self.self_node = self_node
        self.fresh_n = 0
        self.fresh_iter = {}
        self.sigs = signatures or {}
        self.busy = set()

    # -- conditions
    def decide(self, c):
        c, pol = self.it.norm_cond(c)
        r = self.decide_fn(c)
        if r is None and c.op == "const":
            r = bool(c.args[1])
        if r is None and c.op == "bool":
            rs = [self.decide(x) for x in c.args[1]]
            if c.args[0] == "and":
                r = False if False in rs else (True if all(x is True for x in rs) else None)
            else:
                r = True if True in rs else (False if all(x is False for x in rs) else None)
        if r is None:
            return None
        return r if pol else not r

    def live(self, guards, loops):
        """None when impossible, otherwise the undecided conditions"""
        out = []
        for g, p in guards:
            g, q = self.it.norm_cond(g)
            p = p if q else not p
            d = self.decide(g)
            if d is not None:
                if d != p:
                    return None
                continue
            if g.op == "cmp" and g.args[1].op == "loopv" and any(l[0] == g.args[1].args[0] for l in loops):
                continue  # a while loop's own condition
            if g.op == "bool" and g.args[0] == ("and" if p else "or"):
                r = self.live([(x, p) for x in g.args[1]], loops)
                if r is None:
                    return None
                out.extend(x for x in r if x not in out)
                continue
            if (g, not p) in out:
                return None
            if (g, p) not in out:
                out.append((g, p))
        return out

    def fresh(self, n):
        # one iteration variable per source
        s = ("*", n)
        return s

    def eff_loops(self, e):
        out = []
        for l in e.loops:
            if l[2] == "while":
                c = None
                for g, p in e.guards:
                    if p and g.op == "cmp" and g.args[1].op == "loopv" and g.args[1].args[0] == l[0]:
                        c = g
                if c is None:
                    raise Unknown("while loop")
                out.append((l[0], c))
            else:
                out.append((l[0], l[1]))
        return tuple(out)

    def escapes(self, sites):
        """an early exit from one of these loops"""
        for e in self.res.effects:
            if e.kind in ("break", "return") and e.loops:
                # a break leaves the innermost loop, a return those of its function
                ls = [e.loops[-1]] if e.kind == "break" else [l for l in e.loops if tuple(l[0][3:]) == tuple(e.ctx)]
                for l in ls:
                    if l[0] in sites and l[2] != "while" and self.live(e.guards, [(x[0], x[1]) for x in e.loops]) is not None:
                        return e
        return None

    # -- contents
    def opaque(self, n):
        s = strip(n)
        if self.updates_of(s):
            return False
        o = s.op
        if o == "comp":
            return False
        if o in ("list", "set", "tuple", "dict", "bin", "ite", "loopv", "phi"):
            return False
        if o == "call":
            return not (s.args[0] in EMPTY or s.args[0] in WRAP or s.args[0] in COPIES or s.args[0] in ("zip", "enumerate", "itertools.chain", "filter", "map"))
        if o == "mcall" and s.args[1] == "copy" and not s.args[2]:
            return self.opaque(s.args[0])
        return True

    def updates_of(self, s):
        """effects that add to or replace parts of s"""
        out = []
        for e in self.res.effects:
            if e.kind == "mcall" and e.name in MUT and (self.root(e.recv) is s):
                out.append(e)
            elif e.kind == "aug" and strip(e.obj) is s and e.op in ("+", "|", "-", "&", "^"):
                if s.op not in ("list", "comp"):
                    continue  # part of the value of the name
                out.append(e)
            elif e.kind == "storeitem" and self.root(e.obj) is s:
                out.append(e)
            elif e.kind == "delitem" and self.root(e.obj) is s:
                out.append(e)
        return out

    def root(self, n):
        """the collection an inner list belongs to"""
        n = strip(n)
        k = 0
        while k < 4:
            k += 1
            if n.op == "mcall" and n.args[1] in ("setdefault", "get"):
                n = strip(n.args[0])
                continue
            if n.op == "sub" and n.args[1].op != "slice":
                b = strip(n.args[0])
                if b.op in ("dict",) or (b.op == "call" and b.args[0] in EMPTY) or b.op in ("list", "comp"):
                    n = b
                    continue
            return n
        return n

    def contribs(self, n, kind, depth=0):
        """kind: 'list' (list/set items), 'dict' (mapping of lists), 'map'
        (mapping of values), 'num' (terms of a sum)"""
        if depth > 14:
            raise Unknown("nesting")
        key = (strip(n), kind)
        if key in self.busy:
            return []  # the value carried around the loop
        self.busy.add(key)
        try:
            return self._contribs(n, kind, depth)
        finally:
            self.busy.discard(key)

    def guarded(self, cs, g, p):
        out = []
        for c in cs:
            gs = self.live(((g, p),) + c.guards, c.loops)
            if gs is not None:
                out.append(C(c.value, c.key, c.loops, gs, c.where, c.mode))
        return out

    def _contribs(self, n, kind, depth):
        d = depth + 1
        s = strip(n)
        if s.op == "ite":
            r = self.decide(s.args[0])
            if r is not None:
                return self.contribs(s.args[1] if r else s.args[2], kind, d)
            return self.merge_alternatives(self.contribs(s.args[1], kind, d), self.contribs(s.args[2], kind, d), s.args[0])
        if s.op == "loopv" and kind == "num":
            return self.loop_value(s, kind, d)
        if kind == "num":
            return self.terms(s, d)
        ups = self.updates_of(s)
        base = self.loop_value(s, kind, d) if s.op == "loopv" else self.base(s, kind, d)
        for e in ups:
            loops = self.eff_loops(e)
            gs = self.live(e.guards, loops)
            if gs is None:
                continue
            base = self.update(base, e, s, kind, loops, gs, d)
        return base

    def merge_alternatives(self, a, b, cond):
        ga, gb = self.guarded(a, cond, True), self.guarded(b, cond, False)
        out = []
        used = set()
        for x in ga:
            for j, y in enumerate(gb):
                if j not in used and (x.value, x.key, x.loops) == (y.value, y.key, y.loops) and set(x.guards) - {self.nc(cond, True)} == set(y.guards) - {self.nc(cond, False)}:
                    used.add(j)
                    out.append(C(x.value, x.key, x.loops, tuple(g for g in x.guards if g != self.nc(cond, True)), x.where, x.mode))
                    break
            else:
                out.append(x)
        return out + [y for j, y in enumerate(gb) if j not in used]

    def nc(self, c, p):
        c, q = self.it.norm_cond(c)
        return (c, p if q else not p)

    def loop_value(self, v, kind, d):
        init = v.info.get("init") if v.info else None
        nx = v.info.get("next") if v.info else None
        if init is None or nx is None:
            raise Unknown("loop value")
        out = [] if (init.op == "const" and kind == "num" and init.args[1] == 0) else self.contribs(init, kind, d)
        L = self.loop_of(v.args[0])
        if L is None:
            raise Unknown("loop of " + show(v, 2))
        refs = [x for x in subnodes(nx, follow=False) if x is v]
        if not refs and nx is not v:
            raise Unknown("the value is replaced in the loop")
        for c in self.contribs(nx, kind, d):
            out.append(C(c.value, c.key, ((v.args[0], L),) + c.loops if not any(l[0] == v.args[0] for l in c.loops) else c.loops, c.guards, c.where, c.mode))
        return out

    def loop_of(self, site):
        for e in self.res.effects:
            for l in e.loops:
                if l[0] == site:
                    if l[2] == "while":
                        for g, p in e.guards:
                            if p and g.op == "cmp" and g.args[1].op == "loopv" and g.args[1].args[0] == site:
                                return g
                        continue
                    return l[1]
        return None

    def terms(self, s, d):
        if s.op == "const" and s.args[1] in (0, 0.0):
            return []
        if s.op == "bin" and s.args[0] == "+":
            return self.contribs(s.args[1], "num", d) + self.contribs(s.args[2], "num", d)
        if s.op == "call" and s.args[0] in ("sum", "numpy.sum", "math.fsum"):
            out = []
            for c in self.contribs(s.args[1][0], "list", d):
                out += [C(x.value, x.key, c.loops + x.loops, c.guards + x.guards, x.where or c.where) for x in self.contribs(c.value, "num", d)]
            for x in s.args[1][1:]:
                out += self.contribs(x, "num", d)
            return out
        return [C(s)]

    def spread(self, n, d, key=None, loops=(), guards=(), where=None, mode=None):
        """every item of the list n, under key"""
        out = []
        for c in self.contribs(n, "list", d):
            gs = self.live(tuple(guards) + tuple(c.guards), tuple(loops) + c.loops)
            if gs is None:
                continue
            ll = tuple(loops) + tuple(l for l in c.loops if l not in loops)
            out.append(C(c.value, key if key is not None else c.key, ll, gs, c.where or where, mode))
        return out

    def base(self, s, kind, d):
        o, a = s.op, s.args
        if o == "comp":
            kd, val, iters, conds = a[0], a[1], a[2], a[3]
            sites = (s.info or {}).get("sites")
            if sites is None or len(sites) != len(iters):
                raise Unknown("comprehension")
            loops = tuple(zip(sites, iters))
            gs = self.live(conds, loops)
            if gs is None:
                return []
            if kd == "dict":
                k, v = val.args[0]
                if kind == "dict":
                    return self.spread(v, d, k, loops, gs, None, "set")
                return [C(v, k, loops, gs, None, "set")]
            return [C(val, None, loops, gs)]
        if o in ("list", "set", "tuple") and kind == "list":
            out = []
            for x in a[0]:
                out += self.contribs(x.args[0], kind, d) if x.op == "star" else [C(x)]
            return out
        if o == "dict":
            out = []
            for kv in a[0]:
                if not (isinstance(kv, tuple) and len(kv) == 2) or kv[0] is None:
                    raise Unknown("dictionary display")
                out += self.spread(kv[1], d, kv[0], (), (), None, "set") if kind == "dict" else [C(kv[1], kv[0], mode="set")]
            return out
        if o == "call" and a[0] in EMPTY and (not a[1] or a[0] == "collections.defaultdict"):
            return []
        if o == "call" and (a[0] in WRAP or a[0] in COPIES) and a[1]:
            return self.contribs(a[1][0], kind, d)
        if o == "mcall" and a[1] == "copy" and not a[2]:
            return self.contribs(a[0], kind, d)
        if o == "mcall" and a[1] == "union":
            out = self.contribs(a[0], kind, d)
            for x in a[2]:
                out = out + self.contribs(x, kind, d)
            return out
        if o == "bin" and a[0] in ("+", "|"):
            return self.contribs(a[1], kind, d) + self.contribs(a[2], kind, d)
        if o == "call" and a[0] == "itertools.chain":
            out = []
            for x in a[1]:
                out += self.contribs(x.args[0] if x.op == "star" else x, kind, d)
            return out
        if o == "call" and a[0] == "itertools.chain.from_iterable" and len(a[1]) == 1:
            out = []
            for c in self.contribs(a[1][0], "list", d):
                out += self.spread(c.value, d, None, c.loops, c.guards, c.where)
            return out
        if o == "call" and a[0] == "filter":
            raise Unknown("filter")
        if o == "mcall" and a[1] == "get" and len(a[2]) == 2 and kind == "list":
            dflt = self.contribs(a[2][1], kind, d)
            if dflt:
                raise Unknown("default value")
            return self.contribs(self.it.mk("sub", a[0], a[2][0]), kind, d)
        if o in ("phi",):
            raise Unknown("several values")
        if o == "bin" or (o == "const" and not isinstance(a[1], str)):
            raise Unknown("collection " + show(s, 3))
        # an input
        site = self.fresh(s)
        if kind in ("dict", "map"):
            k = self.it.mk("key", s, site)
            v = self.it.mk("sub", s, k)
            if kind == "map":
                return [C(v, k, ((site, s),), mode="set")]
            return self.spread(v, d, k, ((site, s),), (), None, "set")
        return [C(self.it.element(s, site), None, ((site, s),))]

    # -- updates
    def present(self, gs, s):
        """(flag, other guards): is the key known to be present?"""
        flag = None
        rest = []
        for g, p in gs:
            if g.op == "cmp" and g.args[0] == "in" and self.same_map(g.args[2], s):
                flag = (p, g.args[1])
                continue
            if g.op == "cmp" and g.args[0] == "is" and none_const(g.args[2]) and strip(g.args[1]).op == "mcall" and strip(g.args[1]).args[1] == "get" and self.same_map(strip(g.args[1]).args[0], s):
                flag = (not p, strip(g.args[1]).args[2][0])
                continue
            rest.append((g, p))
        return flag, tuple(rest)

    def same_map(self, n, s):
        n = strip(n)
        if n.op == "mcall" and n.args[1] == "keys":
            n = strip(n.args[0])
        if n.op == "call" and n.args[0] in ("list", "set") and n.args[1]:
            return self.same_map(n.args[1][0], s)
        return n is s

    def inner_key(self, n, s):
        """key k when n is the inner collection s[k]; (k, how)"""
        n = strip(n)
        if n.op == "sub" and strip(n.args[0]) is s:
            return n.args[1], "sub"
        if n.op == "mcall" and n.args[1] == "setdefault" and strip(n.args[0]) is s:
            return n.args[2][0], "default"
        return None, None

    def update(self, base, e, s, kind, loops, gs, d):
        out = list(base)
        if e.kind == "mcall":
            r = strip(e.recv)
            nm = e.name
            if r is s:
                if nm in ("append", "add", "appendleft") and kind == "list":
                    return out + [C(e.args[0], None, loops, gs, e.where)]
                if nm == "insert" and kind == "list":
                    return out + [C(e.args[1], None, loops, gs, e.where)]
                if nm in ("extend", "update", "extendleft", "__ior__") and kind == "list":
                    for x in e.args:
                        out += self.spread(x, d, None, loops, gs, e.where)
                    return out
                if nm in ("difference_update", "discard", "remove", "intersection_update", "symmetric_difference_update") and kind == "list":
                    return out + [C(e.args[0], None, loops, gs, e.where, "minus:" + nm)]
                if nm in ("sort", "reverse"):
                    return out
                if nm == "setdefault" and kind in ("dict", "map"):
                    if kind == "dict":
                        if len(e.args) == 2 and self.contribs(e.args[1], "list", d):
                            raise Unknown("default value")
                        return out
                    return out + [C(e.args[1], e.args[0], loops, gs, e.where, "first")]
                if nm == "update" and kind in ("dict", "map"):
                    for x in e.args:
                        for c in self.contribs(x, kind, d):
                            out.append(C(c.value, c.key, loops + c.loops, tuple(gs) + c.guards, e.where, "set"))
                    return out
                if nm in ("get", "keys", "items", "values", "copy", "index", "count"):
                    return out
                raise Unknown("." + nm)
            k, how = self.inner_key(r, s)
            if k is None:
                raise Unknown("update of " + show(r, 3))
            if kind != "dict":
                raise Unknown("inner update")
            flag, rest = self.present(gs, s)
            mode = "add" if how == "default" or flag is None else ("add-present" if flag[0] else "add-absent")
            if how == "default":
                mode = "default"
            if nm == "append":
                return out + [C(e.args[0], k, loops, rest, e.where, mode)]
            if nm == "extend":
                return out + self.spread(e.args[0], d, k, loops, rest, e.where, mode)
            if nm in ("get",):
                return out
            raise Unknown("inner ." + nm)
        if e.kind == "aug":
            if e.op in ("+", "|") and kind == "list":
                return out + self.spread(e.value, d, None, loops, gs, e.where)
            if e.op == "-" and kind == "list":
                return out + [C(e.value, None, loops, gs, e.where, "minus:difference_update")]
            raise Unknown("augmented assignment")
        if e.kind == "storeitem":
            if strip(e.obj) is not s:
                raise Unknown("inner item store")
            if kind not in ("dict", "map"):
                raise Unknown("item store")
            flag, rest = self.present(gs, s)
            v = strip(e.value) if e.value.op == "ver" else e.value
            mode = None
            v2 = v
            if v.op == "bin" and v.args[0] == "+":
                l = strip(v.args[1])
                kk, how = self.inner_key(l, s)
                if kk is e.key:
                    mode, v2 = "add", v.args[2]
                elif l.op == "mcall" and l.args[1] == "get" and strip(l.args[0]) is s and l.args[2][0] is e.key and len(l.args[2]) == 2:
                    mode, v2 = "default", v.args[2]
                else:
                    r2 = strip(v.args[2])
                    kk, how = self.inner_key(r2, s)
                    if kk is e.key:
                        mode, v2 = "add", v.args[1]
                    elif r2.op == "mcall" and r2.args[1] == "get" and strip(r2.args[0]) is s and len(r2.args[2]) == 2 and r2.args[2][0] is e.key:
                        mode, v2 = "default", v.args[1]
            if mode is None:
                mode = "set"
            if flag is not None and mode in ("add", "set"):
                mode += "-present" if flag[0] else "-absent"
            if v2 is not v or kind == "map":
                if kind == "dict":
                    return out + self.spread(v2, d, e.key, loops, rest, e.where, mode)
                cs = self.contribs(v2, "num", d)
                if not cs:
                    return out + [C(None, e.key, loops, rest, e.where, "init" + mode[3:])]
                return out + [C(c.value, e.key, loops + c.loops, rest + c.guards, e.where, mode) for c in cs]
            got = self.spread(v, d, e.key, loops, rest, e.where, mode)
            if not got:
                got = [C(None, e.key, loops, rest, e.where, "init" + mode[3:])]
            return out + got
        if e.kind == "delitem":
            raise Unknown("deleted item")
        raise Unknown(e.kind)

    # -- canonical terms
    def expand(self, c):
        """[(env, loops, guards)]: loops over chains and over built collections
        are replaced by what they run over"""
        todo = [({}, [], list(c.loops), list(c.guards))]
        out = []
        n = 0
        while todo:
            n += 1
            if n > 200:
                raise Unknown("too many alternatives")
            env, done, rest, gs = todo.pop()
            if not rest:
                out.append((env, done, gs))
                continue
            site, I = rest[0]
            for src in self.sources(I):
                e2 = dict(env)
                if isinstance(src, C):
                    e2[site] = ("bind", src)
                    todo.append((e2, done, list(src.loops) + rest[1:], gs + list(src.guards)))
                else:
                    e2[site] = ("src", src)
                    todo.append((e2, done + [(site, src)], rest[1:], gs))
        out.reverse()
        return out

    def sources(self, I):
        """alternatives a loop runs over: nodes (inputs) or contributions"""
        s = strip(I)
        while True:
            if s.op == "ite":
                r = self.decide(s.args[0])
                if r is None:
                    raise Unknown("loop over either of two collections")
                s = strip(s.args[1] if r else s.args[2])
                continue
            if not self.updates_of(s) and s.op == "call" and (s.args[0] in WRAP or s.args[0] in ("copy.copy",)) and len(s.args[1]) == 1:
                s = strip(s.args[1][0])
                continue
            break
        if s.op == "cmp" or (s.op == "call" and s.args[0] in ("zip", "enumerate", "range", "numpy.arange")):
            return [s]
        if s.op == "call" and s.args[0] == "itertools.chain" and not self.updates_of(s):
            out = []
            for x in s.args[1]:
                if x.op == "star":
                    raise Unknown("star")
                out += self.sources(x)
            return out
        if s.op == "mcall" and s.args[1] in ("keys", "items", "values") and not s.args[2]:
            b = strip(s.args[0])
            if not self.opaque(b):
                raise Unknown("loop over a built dictionary")
            return [s]
        if self.opaque(s):
            return [s]
        return list(self.contribs(I, "list", 1))

    def canon(self, n, env, depth=0):
        """canonical term (nested tuples)"""
        if depth > 40:
            raise Unknown("term")
        d = depth + 1
        K = lambda x: self.canon(x, env, d)
        o, a = n.op, n.args
        if o == "ver":
            s = a[0]
            if self.updates_of(s):
                raise Unknown("modified value " + show(n, 3))
            return K(s)
        if n is self.self_node:
            return ("self",)
        if o == "param":
            return ("param", a[0])
        if o == "const":
            return ("const", a[1])
        if o == "attr":
            return ("attr", K(a[0]), a[1])
        if o == "ite":
            r = self.decide(a[0])
            if r is not None:
                return K(a[1] if r else a[2])
            x, y = K(a[1]), K(a[2])
            if x == y:
                return x
            raise Unknown("either of two values")
        if o == "phi":
            for x in a[0]:
                if self.matches(x, env):
                    return K(x)
            raise Unknown("several values")
        if o in ("elem", "key", "idx", "loopv"):
            site = a[1] if o in ("elem", "key") else a[0]
            b = env.get(site)
            if b is not None and b[0] == "bind" and o == "elem":
                return K(b[1].value)
            if o == "elem":
                if strip(a[0]).op == "call" and strip(a[0]).args[0] in ("range", "numpy.arange"):
                    return ("idx", site, self.domain(strip(a[0]), env, d))
                return ("at", K(a[0]), site)
            if o == "key":
                return ("key", K(a[0]), site)
            if o == "idx":
                I = b[1] if b is not None and b[0] == "src" else None
                return ("idx", site, self.domain(strip(I), env, d) if I is not None else None)
            init, nx = (n.info or {}).get("init"), (n.info or {}).get("next")
            if init is not None and nx is not None and init.op == "const" and init.args[1] == 0 and nx.op == "bin" and nx.args[0] == "+" and strip(nx.args[1]) is n and nx.args[2].op == "const" and nx.args[2].args[1] == 1 and b is not None:
                return ("idx", site, self.domain(strip(b[1]), env, d))
            raise Unknown("loop variable " + show(n, 2))
        if o == "sub":
            k = a[1]
            if k.op == "slice":
                lo, hi, st = k.args
                if none_const(lo) and none_const(hi) and (none_const(st) or st.op == "const" and st.args[1] in (1, -1)):
                    return K(a[0])
                return ("slice", K(a[0]), K(lo), K(hi), K(st))
            b = K(a[0])
            kk = K(k)
            if kk[0] == "idx":
                return self.item(b, kk)
            if b[0] == "tuple" and kk[0] == "const" and isinstance(kk[1], int) and -len(b[1]) <= kk[1] < len(b[1]):
                return b[1][kk[1]]
            return ("sub", b, kk)
        if o in ("tuple", "list"):
            if any(x.op == "star" for x in a[0]):
                raise Unknown("star")
            return ("tuple", tuple(K(x) for x in a[0]))
        if o == "call" and isinstance(a[0], str):
            if (a[0] in COPIES or a[0] in WRAP) and len(a[1]) == 1:
                return K(a[1][0])
            if a[0] in COPIES and len(a[1]) == 2:
                return K(a[1][0])
            if a[0] == "len" and len(a[1]) == 1:
                return ("len", K(a[1][0]))
            return ("call", a[0]) + tuple(K(x) for x in a[1]) + tuple(("kw", k, K(v)) for k, v in a[2])
        if o == "mcall":
            if a[1] == "copy" and not a[2]:
                return K(a[0])
            return self.method(K(a[0]), a[1], [K(x) for x in a[2]], [(k, K(v)) for k, v in a[3]] if a[3] else [])
        if o == "icall":
            f = a[0]
            ps = f.params()
            args = [K(x) for x in a[1]]
            return self.method(args[0], f.name, args[1:], [(k, K(v)) for k, v in a[2]] if a[2] else [])
        if o == "bin":
            x, y = K(a[1]), K(a[2])
            if a[0] in ("+", "*") and repr(y) < repr(x) and x[0] != "tuple":
                x, y = y, x
            return ("bin", a[0], x, y)
        if o == "un":
            return ("un", a[0], K(a[1]))
        if o == "cmp":
            return ("cmp", a[0], K(a[1]), K(a[2]))
        if o == "new":
            return ("new", a[0].name, a[1])
        if o == "cls":
            return ("cls", a[0].name)
        if o == "ext":
            return ("ext", a[0])
        raise Unknown("term " + show(n, 3))

    def method(self, recv, name, args, kw):
        """calls with their arguments in the order of the signature"""
        sig = self.sigs.get(name)
        if sig is not None:
            vals = dict((p, ("const", v)) for p, v in sig)
            for (p, _), v in zip(sig, args):
                vals[p] = v
            for k, v in kw:
                if k not in vals:
                    return ("mcall", recv, name) + tuple(args) + tuple(("kw", k, v) for k, v in kw)
                vals[k] = v
            if len(args) <= len(sig):
                return ("mcall", recv, name) + tuple(("kw", p, vals[p]) for p, _ in sig)
        return ("mcall", recv, name) + tuple(args) + tuple(("kw", k, v) for k, v in kw)

    def matches(self, x, env):
        """does the alternative x belong to the chosen sources?"""
        hit = False
        for y in subnodes(x, follow=False):
            if y.op in ("elem", "key"):
                b = env.get(y.args[1])
                if b is None:
                    continue
                if b[0] == "src":
                    if strip(y.args[0]) is strip(b[1]):
                        hit = True
                    else:
                        return False
                else:
                    return True
        return hit

    def domain(self, I, env, d):
        """the collection an index runs over"""
        if I.op == "cmp":
            if I.args[0] != "<":
                raise Unknown("loop bound")
            h = strip(I.args[2])
        elif I.op == "call" and I.args[0] == "enumerate":
            if len(I.args[1]) != 1 or I.args[2]:
                raise Unknown("enumerate")
            return self.canon(I.args[1][0], env, d)
        elif I.op == "call" and I.args[0] in ("range", "numpy.arange"):
            a = I.args[1]
            if len(a) > 1:
                if not (a[0].op == "const" and a[0].args[1] == 0) or len(a) > 2:
                    if all(x.op == "const" for x in a[:1]) and len(a) == 2:
                        return ("part", self.canon(a[1], env, d), a[0].args[1])
                    raise Unknown("range")
                h = strip(a[1])
            else:
                h = strip(a[0])
        else:
            raise Unknown("index")
        c = self.canon(h, env, d)
        if c[0] == "len":
            return c[1]
        if c[0] == "attr" and c[2] == "n":
            return c
        if c[0] == "bin" and any(x[0] == "len" for x in c[2:]) and any(x[0] == "const" for x in c[2:]):
            return ("part",) + c[1:]
        return ("count", c)

    PAR = (("polygons", "layers", "datatypes"), ("layers", "datatypes", "n", "ends", "corners"))

    def item(self, coll, idx):
        dom = idx[2]
        if dom == coll:
            return ("at", coll, idx[1])
        if dom is not None and dom[0] == "attr" and coll[0] == "attr" and dom[1] == coll[1] and any(dom[2] in p and coll[2] in p for p in self.PAR):
            return ("at", coll, idx[1])
        if dom is not None and dom[0] == "part":
            return ("sub", coll, idx)
        if dom is not None and dom[0] in ("attr", "at"):
            return ("sub", coll, ("idx of", dom, idx[1]))
        raise Unknown("index range")


MUT = frozenset(("append", "extend", "add", "update", "insert", "remove", "discard", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update", "setdefault", "popitem", "appendleft", "sort", "reverse"))


def render(t, names):
    """text of a term; iteration variables are named in order of appearance"""
    def v(site):
        if site not in names:
            names[site] = "abcdefghijklmnop"[len(names)]
        return names[site]

    o = t[0]
    R = lambda x: render(x, names)
    if o == "self":
        return "self"
    if o == "param":
        return t[1]
    if o == "const":
        return repr(t[1])
    if o == "attr":
        return R(t[1]) + "." + t[2]
    if o == "at":
        return "%s[%s]" % (R(t[1]), v(t[2]))
    if o == "key":
        return "%s@%s" % (R(t[1]), v(t[2]))
    if o == "idx":
        return "index " + v(t[1])
    if o == "idx of":
        return "index of %s" % R(t[1])
    if o == "sub":
        return "%s[%s]" % (R(t[1]), R(t[2]))
    if o == "slice":
        return "%s[%s]" % (R(t[1]), ":".join("" if x == ("const", None) else R(x) for x in t[2:]))
    if o == "part":
        return "part of " + " ".join(R(x) if isinstance(x, tuple) else str(x) for x in t[1:])
    if o == "tuple":
        return "(" + ", ".join(R(x) for x in t[1]) + ")"
    if o == "len":
        return "len(%s)" % R(t[1])
    if o == "kw":
        return "%s=%s" % (t[1], R(t[2]))
    if o == "call":
        return "%s(%s)" % (t[1], ", ".join(R(x) for x in t[2:]))
    if o == "mcall":
        return "%s.%s(%s)" % (R(t[1]), t[2], ", ".join(R(x) for x in t[3:]))
    if o == "bin":
        return "(%s %s %s)" % (R(t[2]), t[1], R(t[3]))
    if o == "un":
        return "(%s %s)" % (t[1], R(t[2]))
    if o == "cmp":
        return "%s %s %s" % (R(t[2]), t[1], R(t[3]))
    if o in ("new", "cls", "ext"):
        return str(t[1])
    if o == "count":
        return "count " + R(t[1])
    return repr(t)


class Item(object):
    """a canonical contribution"""

    __slots__ = ("key", "value", "guards", "where", "mode", "unused", "sites", "loops")

    def text(self):
        return (("%s: " % self.key) if self.key is not None else "") + str(self.value)


def items(g, node, kind):
    """canonical contributions of a collection"""
    out = []
    for c in g.contribs(node, kind):
        for env, loops, guards in g.expand(c):
            it = Item()
            names = {}
            it.value = render(g.canon(c.value, env), names) if c.value is not None else None
            it.key = render(g.canon(c.key, env), names) if c.key is not None else None
            gs = []
            dead = False
            for cond, p in guards:
                d = g.decide(cond)
                if d is not None:
                    if d != p:
                        dead = True
                    continue
                gs.append(guard_text(g, cond, p, env, names))
            if dead:
                continue
            it.guards = tuple(sorted(set(x for l in gs for x in l)))
            it.where, it.mode = c.where, c.mode
            it.unused = [render(g.canon(I, env), dict(names)) if I.op not in ("cmp", "call") else show(I, 3) for s, I in loops if s not in names]
            it.loops = loops
            it.sites = [s for s, _ in loops]
            out.append(it)
    return out


def guard_text(g, c, p, env, names):
    """a condition as a list of texts (conjunction)"""
    if c.op == "bool" and c.args[0] == ("and" if p else "or"):
        out = []
        for x in c.args[1]:
            x, q = g.it.norm_cond(x)
            out += guard_text(g, x, p if q else not p, env, names)
        return out
    if c.op == "call" and c.args[0] == "any" and len(c.args[1]) == 1 and not c.args[2] and p:
        own = [x for x in items(g, c.args[1][0], "list")]
        c0 = strip(c.args[1][0])
        if c0.op == "comp" and len(own) == 1 and not own[0].guards:
            v = strip(c0.args[1])
            if v.op == "cmp" and v.args[0] == "==":
                cs = [x for x in g.contribs(c.args[1][0], "list")]
                e2, loops, gs = g.expand(cs[0])[0]
                m = dict(env)
                m.update(e2)
                n2 = dict(names)
                t = sorted(guard_text(g, strip(cs[0].value), True, m, n2))
                for k, nm in n2.items():
                    if k not in names:
                        t = [x.replace("[%s]" % nm, "[*]") for x in t]
                return ["some(%s)" % " and ".join(sorted(t))]
        raise Unknown("any")
    if c.op == "bool":
        out = []
        for x in c.args[1]:
            x, q = g.it.norm_cond(x)
            out.append(" and ".join(sorted(guard_text(g, x, p if q else not p, env, names))))
        return ["(%s)" % " or ".join(sorted(set(out)))]
    t = g.canon(c, env)
    if t[0] == "cmp" and t[1] == "==" and p:
        l, r = t[2], t[3]
        if l[0] == "tuple" and r[0] != "tuple":
            r = ("tuple", tuple(("sub", r, ("const", i)) for i in range(len(l[1]))))
        if r[0] == "tuple" and l[0] != "tuple":
            l = ("tuple", tuple(("sub", l, ("const", i)) for i in range(len(r[1]))))
        if l[0] == "tuple" and r[0] == "tuple" and len(l[1]) == len(r[1]):
            return [eq_text(x, y, names) for x, y in zip(l[1], r[1])]
        return [eq_text(l, r, names)]
    s = render(t, names)
    return [s if p else "not " + s]


def eq_text(x, y, names):
    a, b = render(x, names), render(y, names)
    return " == ".join(sorted((a, b)))
