"""Copying and flattening cells (C37)."""
from fractions import Fraction

from ..interp import Interp, show, subnodes
from ..flow import strip
from ..lin import Fork
from ..poly import Poly
from ..affine import Tup, Eval, Unsupported, scalar, pair, same, to_arr, value, ONE, ZERO
from ..gather import Gather, Unknown
from .geometry import A, Give, Bad, compare_point, run_cases, return_values
from .transforms import rot

R = "copy"
DEG = A("pi") * Poly.const(Fraction(1, 180))
LISTS = ("polygons", "paths", "labels", "references")
COORD = {"labels": "position", "references": "origin"}


class CopyRun(object):
    def __init__(self, prog, meth, consts, given, own, array=None):
        self.prog = prog
        self.cls = prog.need_class("Cell")
        self.arraycls = prog.need_class("CellArray")
        self.given, self.own, self.array = given, own, array
        f = self.func = prog.need_method("Cell", meth)
        self.it = it = Interp(prog, assume=self.assume, inline=self.inline)
        self.self_node = it.mk("param", f.params()[0])
        args = {p: it.mk("param", p) for p in f.params()[1:]}
        args.update((k, it.const(v)) for k, v in consts.items())
        self.res = it.run(f, self_cls=self.cls, args=args, self_node=self.self_node)

    def inline(self, fn, it):
        if fn.cls is not None and (fn.cls.name != "Cell" or fn.name in ("get_polygonsets", "get_paths", "get_labels", "get_polygons", "add")):
            return False
        return None

    def own_attr(self, n):
        """(list, attribute) of an attribute of an element of a copied list"""
        n = strip(n)
        if n.op == "loopv" and isinstance(n.args[1], tuple) and n.args[1][1] != "$c":
            o, a = n.args[1]
        elif n.op == "attr":
            o, a = n.args
        else:
            return None
        k = self.list_of(o)
        return (k, a) if k else None

    def list_of(self, o, depth=0):
        """the list of the cell an element (or its copy) comes from"""
        o = strip(o)
        if depth > 8:
            return None
        if o.op in ("elem", "sub"):
            if o.op == "sub" and o.args[1].op == "slice":
                return None
            return self.coll(o.args[0], depth + 1)
        if o.op == "call" and o.args[0] in ("copy.copy", "copy.deepcopy") and o.args[1]:
            return self.list_of(o.args[1][0], depth + 1)
        return None

    def coll(self, c, depth=0):
        c = strip(c)
        if depth > 8:
            return None
        if c.op == "attr" and c.args[1] in LISTS:
            return c.args[1]
        if c.op == "call" and c.args[0] in ("copy.copy", "copy.deepcopy", "list", "tuple") and c.args[1]:
            return self.coll(c.args[1][0], depth + 1)
        if c.op == "comp" and c.args[0] == "list" and len(c.args[2]) == 1:
            return self.list_of(c.args[1], depth + 1)
        if c.op == "list" and not c.args[0]:
            for e in self.res.effects if hasattr(self, "res") else ():
                if e.kind == "mcall" and e.name == "append" and strip(e.recv) is c:
                    return self.list_of(e.args[0], depth + 1)
        if c.op == "cmp" and c.args[0] == "<":
            c = strip(c.args[2])
            return self.coll(c.args[1][0], depth + 1) if c.op == "call" and c.args[0] == "len" else None
        if c.op == "call" and c.args[0] == "range" and len(c.args[1]) == 1:
            c = strip(c.args[1][0])
            return self.coll(c.args[1][0], depth + 1) if c.op == "call" and c.args[0] == "len" else None
        if c.op == "call" and c.args[0] == "enumerate":
            return self.coll(c.args[1][0], depth + 1)
        q = self.query(c)
        if q:
            return {"get_polygonsets": "polygons", "get_paths": "paths", "get_labels": "labels"}.get(q[0])
        return None

    def query(self, c):
        """(method, arguments, keywords) of a call on the cell itself"""
        if c.op == "icall" and c.args[0].cls is not None and c.args[1] and strip(c.args[1][0]) is self.self_node:
            return c.args[0].name, c.args[1][1:], dict(c.args[2])
        if c.op == "mcall" and strip(c.args[0]) is self.self_node:
            return c.args[1], c.args[2], dict(c.args[3] or ())
        return None

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] == "is" and strip(c.args[2]).op == "const" and strip(c.args[2]).args[1] is None:
            x = strip(c.args[1])
            if x.op == "param" and x.args[0] in self.given:
                return False
            k = self.own_attr(x)
            if k and k[0] in COORD and k[1] in self.own:
                return not self.own[k[1]] if k[1] != "x_reflection" else False
        k = self.own_attr(c) if c.op in ("attr", "loopv") else None
        if k and k[0] in COORD and k[1] == "x_reflection" and k[1] in self.own:
            return self.own[k[1]]
        if k and k[0] in COORD and k[1] in self.own and not self.own[k[1]]:
            return False
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2 and self.array is not None:
            if self.list_of(c.args[1][0]) == "references" and c.args[1][1].op == "cls":
                return (c.args[1][1].args[0] is self.arraycls) == self.array
        return None

    def leaf(self, n):
        n = strip(n)
        if n.op == "param":
            if n.args[0] == "rotation":
                return scalar(A("r"))
            if n.args[0] == "scale":
                return scalar(A("s"))
            if n.args[0] == "translation":
                return Tup([scalar(A("dx")), scalar(A("dy"))])
        if n.op in ("attr", "loopv"):
            k = self.own_attr(n)
            if k and k[0] in COORD:
                if k[1] == COORD[k[0]]:
                    return Tup([scalar(A("px")), scalar(A("py"))]) if k[0] == "references" else pair(A("px"), A("py"))
                if k[1] == "rotation" and self.own["rotation"]:
                    return scalar(A("r0"))
                if k[1] == "magnification" and self.own["magnification"]:
                    return scalar(A("s0"))
                if k[1] == "spacing":
                    return Tup([scalar(A("sx")), scalar(A("sy"))])
        return None

    def expected(self, x, y):
        g = self.given
        if g.get("scale"):
            x, y = x * A("s"), y * A("s")
        if g.get("x_reflection"):
            y = -y
        if g.get("rotation"):
            x, y = rot(A("r"), x, y)
        if g.get("translation"):
            x, y = x + A("dx"), y + A("dy")
        return x, y


def gatherer(run, case):
    def decide(c):
        r = case.decide(c)
        return run.assume(c, None) if r is None else r
    return Gather(run.it, run.res, decide, run.self_node, {})


def whole(run, g, o, coll):
    """is `o` the generic element of the collection `coll`? Gives up on elements
    selected in a way that is not understood"""
    o = strip(o)
    c = strip(coll)
    if o.op == "elem":
        src = strip(o.args[0])
        if src is c:
            return True
        while src.op == "call" and src.args[0] in ("list", "tuple", "iter", "reversed", "sorted", "set") and len(src.args[1]) >= 1:
            src = strip(src.args[1][0])
            if src is c:
                return True
        if src.op == "sub" and strip(src.args[0]) is c:
            if src.args[1].op == "slice":
                a = src.args[1].args
                return all(x is None or x.op == "const" and x.args[1] is None for x in a)
            return False
        if derived(src, c):
            raise Give("elements of " + show(src, 3))
        return False
    if o.op == "sub" and strip(o.args[0]) is c:
        k = strip(o.args[1])
        if k.op == "idx":
            return True
        if k.op == "const":
            return False
        if k.op == "elem":
            r = strip(k.args[0])
            if r.op == "call" and r.args[0] == "range" and len(r.args[1]) == 1 and is_len(r.args[1][0], c):
                return True
        if k.op == "loopv" and counts(run, k, c):
            return True
        raise Give("index " + show(k, 4))
    if o.op == "sub" and o.args[0].op == "elem":
        e = strip(o.args[0].args[0])
        if e.op == "call" and e.args[0] == "enumerate" and strip(e.args[1][0]) is c:
            return True
        if derived(e, c):
            raise Give("elements of " + show(e, 3))
    return False


def derived(src, c, depth=0):
    """was this collection built from the collection itself?"""
    if src is c:
        return True
    if depth > 6:
        return False
    if src.op == "call" and src.args[0] != "range":
        return any(derived(strip(x), c, depth + 1) for x in src.args[1])
    if src.op == "comp":
        return any(derived(strip(x), c, depth + 1) for x in src.args[2])
    if src.op == "bin":
        return derived(strip(src.args[1]), c, depth + 1) or derived(strip(src.args[2]), c, depth + 1)
    return False


def is_len(n, c):
    n = strip(n)
    return n.op == "call" and n.args[0] == "len" and strip(n.args[1][0]) is c


def counts(run, k, c):
    """a counter of a while loop over all indices of the collection"""
    if not k.info:
        return False
    a, b = k.info.get("init"), k.info.get("next")
    if a is None or b is None or not (a.op == "const" and a.args[1] == 0):
        return False
    if not (b.op == "bin" and b.args[0] == "+"):
        return False
    x, y = strip(b.args[1]), strip(b.args[2])
    if y is k:
        x, y = y, x
    if x is not k or not (y.op == "const" and y.args[1] == 1):
        return False
    for e in run.res.effects:
        for q, p in e.guards:
            if p and q.op == "cmp" and q.args[0] == "<" and strip(q.args[1]) is k and is_len(q.args[2], c):
                return True
            if p and q.op == "cmp" and q.args[0] == ">" and strip(q.args[2]) is k and is_len(q.args[1], c):
                return True
    return False


def copies_of(run, g, v, name, deep):
    """the value of one list of the new cell: deep copies of, or the same
    elements as, the list of that name; False when it aliases the list itself"""
    s = strip(v)
    if s.op == "attr" and s.args[1] == name and strip(s.args[0]) is run.self_node:
        raise Bad("the copy shares its list of %s with the original" % name, None)
    cs = g.contribs(s, "list")
    if not cs:
        raise Bad("the copy has no %s" % name, None)
    if len(cs) != 1:
        raise Give("list of " + name)
    c = cs[0]
    if c.guards:
        raise Bad("only some %s are copied" % name, c.where)
    if len(c.loops) != 1 or run.coll(c.loops[0][1]) is None:
        raise Give("loop over " + name)
    if run.coll(c.loops[0][1]) != name:
        raise Bad("the %s of the copy come from %s" % (name, run.coll(c.loops[0][1])), c.where)
    lv = level(run, s)
    return c, lv


def level(run, n, depth=0):
    """0: the original object, 1: shallow copy, 2: deep copy of elements"""
    n = strip(n)
    if depth > 8:
        raise Give("copy of copies")
    if n.op == "call" and n.args[0] == "copy.deepcopy":
        return 2
    if n.op == "call" and n.args[0] in ("list", "tuple", "copy.copy", "sorted", "reversed"):
        return level(run, n.args[1][0], depth + 1)
    if n.op == "mcall" and n.args[1] == "copy" and not n.args[2]:
        return level(run, n.args[0], depth + 1)
    if n.op == "sub" and n.args[1].op == "slice":
        return level(run, n.args[0], depth + 1)
    if n.op == "comp":
        return item_level(run, n.args[1], depth + 1)
    if n.op == "list" and not n.args[0]:
        ls = [item_level(run, e.args[0], depth + 1) for e in run.res.effects if e.kind == "mcall" and e.name == "append" and strip(e.recv) is n]
        ls += [level(run, e.args[0], depth + 1) for e in run.res.effects if e.kind == "mcall" and e.name == "extend" and strip(e.recv) is n]
        if ls:
            return min(ls)
    if n.op == "attr" and n.args[1] in LISTS:
        return 0
    raise Give("list " + show(n, 3))


def item_level(run, v, depth):
    v = strip(v)
    if v.op == "call" and v.args[0] == "copy.deepcopy":
        return 2
    if v.op == "call" and v.args[0] == "copy.copy":
        return max(1, item_level(run, v.args[1][0], depth + 1))
    if v.op in ("elem", "sub"):
        c = strip(v.args[0])
        return level(run, c, depth + 1)
    raise Give("element " + show(v, 3))


def new_lists(run, v, heap):
    n = strip(v)
    if n.op != "new" or not any(n is strip(o) for o, a in heap if a == "polygons"):
        if n is run.self_node:
            raise Bad("the cell itself is returned", None)
        raise Give("result " + show(n, 3))
    out = {}
    for a in LISTS:
        out[a] = heap.get((n, a)) or heap.get((v, a))
        if out[a] is None:
            raise Give("no " + a)
    return n, out


def mutations(run, case, o_list, whole_of):
    """method calls on the elements of a list, in order"""
    out = []
    for e in run.res.effects:
        if e.kind not in ("mcall", "icall"):
            continue
        recv = strip(e.recv) if e.data.get("recv") is not None else None
        if recv is None or not whole_of(recv):
            continue
        d = [case.decide(c) if case.decide(c) is not None else run.assume(c, None) for c, p in e.guards]
        if any(x is not None and x != p for x, (c, p) in zip(d, e.guards)):
            continue
        for x, (c, p) in zip(d, e.guards):
            if x is None and not (c.op == "cmp" and c.args[1].op == "loopv"):
                raise Fork(c)
        out.append(e)
    return out


SIG = {"scale": ("scalex", "scaley", "center"), "rotate": ("angle", "center"), "translate": ("dx", "dy"), "transform": ("translation", "rotation", "scale", "x_reflection", "array_trans")}


def compose(run, case, ev, e, x, y, kind):
    """image of (x, y) under a transformation call"""
    if e.name not in SIG:
        raise Give("method " + e.name)
    names = SIG[e.name]
    if kind == "paths" and e.name == "scale":
        names = ("scale", "center")
    if kind == "paths" and e.name == "translate":
        names = ("dx", "dy")
    kw = dict(zip(names, e.args))
    kw.update(dict(e.kwargs))

    def num(n, dflt=None):
        if n not in kw:
            if dflt is None:
                raise Give("argument " + n)
            return dflt
        a = to_arr(ev.ev(kw[n]))
        if a.shape != ():
            raise Give("argument " + n)
        return a.data[()]

    def pt(n):
        if n not in kw:
            return ZERO, ZERO
        a = to_arr(ev.ev(kw[n]))
        if a.shape != (2,):
            raise Give("argument " + n)
        return a.data[(0,)], a.data[(1,)]

    def isnone(n):
        if n not in kw:
            return True
        k = strip(ev.resolve(kw[n]))
        return k.op == "const" and k.args[1] is None
    if e.name == "scale":
        cx, cy = pt("center")
        if kind == "paths":
            a = b = num("scale")
        else:
            a = num("scalex")
            b = a if isnone("scaley") else num("scaley")
        return (x - cx) * a + cx, (y - cy) * b + cy
    if e.name == "rotate":
        cx, cy = pt("center")
        u, v = rot(num("angle"), x - cx, y - cy)
        return u + cx, v + cy
    if e.name == "translate":
        return x + num("dx"), y + num("dy")
    if not isnone("scale"):
        s = num("scale")
        x, y = x * s, y * s
    if not isnone("array_trans"):
        u, v = pt("array_trans")
        x, y = x + u, y + v
    if "x_reflection" in kw:
        b = flag(run, case, ev, kw["x_reflection"])
        if b is None:
            raise Give("reflection")
        if b:
            y = -y
    if not isnone("rotation"):
        x, y = rot(num("rotation"), x, y)
    if not isnone("translation"):
        u, v = pt("translation")
        x, y = x + u, y + v
    return x, y


def flag(run, case, ev, n):
    """truth value of a node, None when not understood"""
    n = strip(ev.resolve(n))
    if n.op == "const":
        return bool(n.args[1])
    k = run.own_attr(n) if n.op in ("attr", "loopv") else None
    if k and k[1] in run.own and k[1] == "x_reflection":
        return run.own[k[1]]
    if n.op == "un" and n.args[0] == "not":
        b = flag(run, case, ev, n.args[1])
        return None if b is None else not b
    if n.op == "bool":
        rs = [flag(run, case, ev, x) for x in n.args[1]]
        if None in rs:
            return None
        return all(rs) if n.args[0] == "and" else any(rs)
    if n.op == "call" and n.args[0] == "bool" and len(n.args[1]) == 1:
        return flag(run, case, ev, n.args[1][0])
    if n.op == "cmp":
        try:
            a, b = ev.arr(n.args[1]).data[()], ev.arr(n.args[2]).data[()]
            if a.is_const() and b.is_const():
                a, b = a.cval(), b.cval()
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}.get(n.args[0])
        except (Unsupported, Fork, KeyError):
            pass
    if n.op in ("cmp", "bin") and n.args[0] in ("==", "!=", "is", "is not", "^"):
        a, b = flag(run, case, ev, n.args[1]), flag(run, case, ev, n.args[2])
        if None in (a, b):
            return None
        return (a == b) if n.args[0] in ("==", "is") else a != b
    return None


def final(run, case, heap, coll, attr):
    """(value, where) last stored in this attribute of the generic element; None
    when it keeps its value"""
    found = {}
    for (o, a), v in heap.items():
        if a == attr and hasattr(o, "op") and whole(run, None, o, coll):
            found[strip(o)] = v
    if not found:
        return None
    live = {}
    for e in run.res.effects:
        if e.kind in ("store", "augattr") and e.attr == attr and strip(e.obj) in found:
            dec = [(case.decide(c) if case.decide(c) is not None else run.assume(c, None), c, p) for c, p in e.guards]
            if any(d is not None and d != p for d, c, p in dec):
                continue
            live.setdefault(strip(e.obj), []).append((e, [c for d, c, p in dec if d is None]))
    if len(live) > 1:
        for es in live.values():
            for e, cs in es:
                for c in cs:
                    if not any(x.op in ("loopv", "elem", "idx") for x in subnodes(c)):
                        raise Fork(c)
    hit = [o for o in found if o in live]
    if not hit:
        return None
    if len(hit) > 1:
        raise Give("%s is stored by several loops" % attr)
    v = found[hit[0]]
    if v.op == "loopv" and v.info and v.args[1] == (hit[0], attr):
        v = v.info.get("next") or v
    where = [e.where for e, cs in live[hit[0]]]
    return v, where[-1]


def angle(run, case, ev, v, exp, one, what, where):
    """an optional number: None stands for `one` (0 for angles, 1 for factors)"""
    v = strip(ev.resolve(v))
    if v.op == "const" and v.args[1] is None:
        if same(exp, one):
            return
        for c, p in case.dec:
            if c.op == "cmp" and c.args[0] == "==" and p:
                try:
                    a, b = ev.arr(c.args[1]).data[()], ev.arr(c.args[2]).data[()]
                except (Unsupported, Fork):
                    continue
                if same(a - b, exp - one) or same((a - b) * DEG, (exp - one) * DEG) or same(a - b, (exp - one) * DEG):
                    return
        raise Bad("%s is dropped" % what, where)
    if run.own_attr(v) and run.leaf(v) is None:
        got = one if not run.own.get(run.own_attr(v)[1]) else None
        if got is None:
            raise Give(what)
    else:
        got = ev.arr(v).data[()]
    r = same(got, exp)
    if r is False:
        # a value that equals the default is as good as None
        for c, p in case.dec:
            if c.op == "cmp" and c.args[0] == "==" and p:
                try:
                    d = ev.arr(c.args[1]).data[()] - ev.arr(c.args[2]).data[()]
                except (Unsupported, Fork):
                    continue
                if same(d, exp - one):
                    raise Give("value " + what)
        raise Bad("%s becomes %r, not %r" % (what, got, exp), where)
    if r is None:
        raise Give(what)


def flags4():
    for t in (False, True):
        for r in (False, True):
            for s in (False, True):
                for x in (False, True):
                    yield t, r, s, x


def copying(ctx):
    prog = ctx.prog
    ctx.rule("every list of the copy holds (deep copies of) all elements of the same list, and under a transformation each of them is mapped by the same affine map, components composed with its own")
    for t, r, s, x in flags4():
        given = {}
        consts = {"x_reflection": x, "deep_copy": False}
        for k, b in (("translation", t), ("rotation", r), ("scale", s)):
            if b:
                given[k] = True
            else:
                consts[k] = None
        if x:
            given["x_reflection"] = True
        label = ", ".join(k for k in ("translation", "rotation", "scale", "x_reflection") if given.get(k)) or "no transformation"
        variants = [False, True] if not given else [False]
        for deep in variants:
            consts["deep_copy"] = deep
            run = CopyRun(prog, "copy", dict(consts), given, {"magnification": True, "rotation": True, "x_reflection": False}, False)
            ctx.saw(run.it.functions_seen)
            name = "Cell.copy with %s%s" % (label, ", deep" if deep else "")

            def one(case, run=run, deep=deep):
                g = gatherer(run, case)
                ev = Eval(run.it, run.leaf, lambda c: case.decide(c) if case.decide(c) is not None else run.assume(c, None))
                for v, heap, gs in return_values(run.res, case):
                    n, lists = new_lists(run, v, heap)
                    nm = heap.get((n, "name")) or heap.get((v, "name"))
                    if nm is None:
                        raise Give("name of the copy")
                    nm = strip(ev.resolve(nm))
                    if not (nm.op == "param" and nm.args[0] == "name"):
                        if nm.op in ("param", "const", "attr"):
                            raise Bad("the copy is not named as asked", None)
                        raise Give("name of the copy")
                    for a in LISTS:
                        try:
                            c, lv = copies_of(run, g, lists[a], a, deep or given)
                        except Unknown as u:
                            raise Give(str(u))
                        if deep or given:
                            if lv == 0 or (lv == 1 and a != "references"):
                                raise Bad("the copy shares its %s with the original" % a, c.where)
                            if a == "references" and lv == 2:
                                raise Bad("the referenced cells are copied as well", c.where)
                        elif lv != 0:
                            raise Bad("a shallow copy has %s of its own" % a, c.where)
                        if deep and a == "references":
                            fresh(run, case, heap, lists[a])
                    for a in ("polygons", "paths"):
                        coll = strip(lists[a])
                        calls = mutations(run, case, a, lambda o, coll=coll: whole(run, g, o, coll))
                        X, Y = A("px"), A("py")
                        w = None
                        for e in calls:
                            X, Y = compose(run, case, ev, e, X, Y, a)
                            w = e.where
                        compare_point(run, case, ev, pair(X, Y), pair(*run.expected(A("px"), A("py"))), "a vertex of the copied %s" % a, w or run.func.where)

            if run_cases(ctx, R, name, run.func, run.it, one):
                ctx.ok("copies of cells", name)
        if given:
            for m0 in (False, True):
                for r0 in (False, True):
                    for x0 in (False, True):
                        for kind in ("labels", "references", "arrays"):
                            copy_components(ctx, prog, given, dict(consts), label, kind, m0, r0, x0)


def fresh(run, case, heap, coll):
    f = final(run, case, heap, strip(coll), "properties")
    if f is None:
        for e in run.res.effects:
            if e.kind == "mcall" and run.list_of(e.recv) == "references":
                raise Give("properties set by a method")
        if level(run, coll) == 2:
            return
        raise Bad("the copies of references share the properties of the originals", None)
    v = strip(f[0])
    if v.op == "call" and v.args[0] in ("copy.copy", "copy.deepcopy", "dict"):
        return
    if v.op == "mcall" and v.args[1] == "copy":
        return
    if v.op in ("dict", "comp"):
        return
    raise Give("properties")


def copy_components(ctx, prog, given, consts, label, kind, m0, r0, x0):
    own = {"magnification": m0, "rotation": r0, "x_reflection": x0}
    run = CopyRun(prog, "copy", consts, given, own, kind == "arrays")
    a = "labels" if kind == "labels" else "references"
    name = "Cell.copy with %s: %s with %s" % (label, kind, ", ".join(k for k in sorted(own) if own[k]) or "no own transformation")

    def one(case):
        ev = Eval(run.it, run.leaf, lambda c: case.decide(c) if case.decide(c) is not None else run.assume(c, None))
        for v, heap, gs in return_values(run.res, case):
            n, lists = new_lists(run, v, heap)
            coll = strip(lists[a])
            for e in run.res.effects:
                if e.kind == "mcall" and run.list_of(e.recv) == a:
                    raise Give("method " + e.name)
            f = final(run, case, heap, coll, COORD[a])
            if f is None:
                raise Bad("the %s of copied %s is not transformed" % (COORD[a], kind), None)
            compare_point(run, case, ev, to_arr(ev.ev(f[0])), pair(*run.expected(A("px"), A("py"))), "the %s of copied %s" % (COORD[a], kind), f[1])
            base = (A("r0") if r0 else ZERO)
            if given.get("x_reflection"):
                base = -base
            exp = base + (A("r") * Poly.const(180) * pinv() if given.get("rotation") else ZERO)
            f = final(run, case, heap, coll, "rotation")
            if f is None:
                if given.get("rotation") or (given.get("x_reflection") and r0):
                    raise Bad("the rotation of copied %s does not follow" % kind, None)
            else:
                angle(run, case, ev, f[0], exp, ZERO, "the rotation of copied %s" % kind, f[1])
            exp = (A("s0") if m0 else ONE) * (A("s") if given.get("scale") else ONE)
            f = final(run, case, heap, coll, "magnification")
            if f is None:
                if given.get("scale"):
                    raise Bad("the magnification of copied %s does not follow" % kind, None)
            else:
                angle(run, case, ev, f[0], exp, ONE, "the magnification of copied %s" % kind, f[1])
            want = x0 != bool(given.get("x_reflection"))
            f = final(run, case, heap, coll, "x_reflection")
            got = x0 if f is None else flag(run, case, ev, f[0])
            if got is None:
                raise Give("reflection " + show(f[0], 4))
            if got != want:
                raise Bad("%s with x_reflection=%s become x_reflection=%s" % (kind, x0, got), f[1] if f else None)
            f = final(run, case, heap, coll, "spacing")
            if kind == "arrays":
                want = (A("sx"), A("sy"))
                if given.get("scale"):
                    want = (A("sx") * A("s"), A("sy") * A("s"))
                if f is None:
                    if given.get("scale"):
                        raise Bad("the spacing of copied arrays is not scaled", None)
                else:
                    compare_point(run, case, ev, to_arr(ev.ev(f[0])), pair(*want), "the spacing of copied arrays", f[1])

    if run_cases(ctx, R, name, run.func, run.it, one):
        ctx.ok("transformed copies", name)


def pinv():
    return Poly.atom("pi", -1) if False else Poly({(("pi", -1),): Fraction(1)})


# -- flattening --------------------------------------------------------------------

GETTERS = {"polygons": "get_polygonsets", "paths": "get_paths", "labels": "get_labels"}
FP = ("single_layer", "single_datatype", "single_texttype")
# list -> attribute -> (parameter, one value per ...)
FLAT = {
    "polygons": {"layers": "single_layer", "datatypes": "single_datatype"},
    "paths": {"layers": "single_layer", "datatypes": "single_datatype"},
    "labels": {"layer": "single_layer", "texttype": "single_texttype"},
}


class FlatRun(CopyRun):
    def __init__(self, prog, given):
        consts = {p: None for p in FP if p not in given}
        CopyRun.__init__(self, prog, "flatten", consts, {p: True for p in given}, {})

    def inline(self, fn, it):
        if fn.cls is not None and (fn.cls.name != "Cell" or fn.name.startswith("get_")):
            return False
        return None


def flattening(ctx):
    prog = ctx.prog
    ctx.rule("flattening replaces polygons, paths and labels by everything the corresponding query finds at any depth, asked before the references are dropped, and assigns exactly the given layer, datatype and texttype")
    for k in range(8):
        given = [p for i, p in enumerate(FP) if k >> i & 1]
        run = FlatRun(prog, given)
        ctx.saw(run.it.functions_seen)
        name = "Cell.flatten with %s" % (", ".join(given) or "nothing")

        def one(case, run=run, given=given):
            dec = lambda c: case.decide(c) if case.decide(c) is not None else run.assume(c, None)
            ev = Eval(run.it, run.leaf, dec)
            g = gatherer(run, case)
            for v, heap, gs in return_values(run.res, case):
                if strip(ev.resolve(v)) is not run.self_node:
                    if v.op == "const":
                        raise Bad("the cell is not returned", None)
                    raise Give("result")
                refs = heap.get((run.self_node, "references"))
                if refs is None:
                    cleared(run, g, run.it.mk("attr", run.self_node, "references"))
                else:
                    cleared(run, g, ev.resolve(refs))
                for a in ("polygons", "paths", "labels"):
                    coll = heap.get((run.self_node, a))
                    if coll is None:
                        raise Bad("the %s are not replaced" % a, None)
                    coll = strip(ev.resolve(coll))
                    queried(run, g, ev, coll, a)
                    for attr, p in FLAT[a].items():
                        f = None
                        try:
                            f = final(run, case, heap, coll, attr)
                        except Give:
                            raise
                        what = "the %s of %s" % (attr, a)
                        if f is None:
                            if p in given:
                                for e in run.res.effects:
                                    if e.kind == "mcall" and whole(run, g, e.recv, coll):
                                        raise Give("method " + e.name)
                                raise Bad("%s %s not changed to %s" % (what, "are" if attr[-1] == "s" else "is", p), None)
                            continue
                        assigned(run, ev, heap, f[0], coll, attr, a, p, p in given, what, f[1])
                    if a == "paths" and ("single_layer" in given or "single_datatype" in given):
                        f = final(run, case, heap, coll, "_polygon_dict")
                        if f is None:
                            raise Bad("the polygons cached by paths keep the previous layers and datatypes", None)
                        w = strip(ev.resolve(f[0]))
                        if not (w.op == "const" and w.args[1] is None):
                            raise Give("_polygon_dict")

        if run_cases(ctx, "flatten", name, run.func, run.it, one):
            ctx.ok("flattened cells", name)


def cleared(run, g, v):
    v = strip(v)
    for e in run.res.effects:
        if e.kind == "delitem" and strip(e.obj) is v and not e.guards and not e.loops:
            return
        if e.kind == "mcall" and e.name == "clear" and strip(e.recv) is v and not e.guards and not e.loops:
            return
    if v.op == "attr" and v.args[0] is run.self_node:
        raise Bad("the references are kept", None)
    if v.op in ("list", "tuple") and not v.args[0] or v.op == "call" and v.args[0] == "list" and not v.args[1]:
        try:
            if not g.contribs(v, "list"):
                return
        except Unknown:
            pass
    raise Give("references")


def queried(run, g, ev, coll, a):
    try:
        cs = g.contribs(coll, "list")
    except Unknown as u:
        raise Give(str(u))
    if len(cs) != 1 or len(cs[0].loops) != 1:
        raise Give("new " + a)
    c = cs[0]
    src = strip(ev.resolve(strip(c.loops[0][1])))
    if src.op == "attr" and src.args[0] is run.self_node:
        raise Bad("the %s of references are not included" % a, c.where)
    q = run.query(src)
    if q is None or q[0] not in GETTERS.values():
        raise Give("source of " + a)
    if q[0] != GETTERS[a]:
        raise Bad("%s are replaced by the result of %s" % (a, q[0]), c.where)
    if c.guards:
        raise Bad("only some %s are kept" % a, c.where)
    args = dict(zip(run.prog.need_method("Cell", q[0]).params()[1:], q[1]))
    args.update(q[2])
    d = args.get("depth")
    if d is not None:
        d = strip(ev.resolve(d))
        if d.op == "const" and d.args[1] is not None and not d.args[1] < 0:
            raise Bad("the %s are taken down to depth %r only" % (a, d.args[1]), c.where)
        if d.op != "const" and not (d.op == "un" and d.args[0] == "-"):
            raise Give("depth")
    gone = None
    for e in run.res.effects:
        if e.kind in ("mcall", "icall") and e.data.get("result") is src and gone:
            raise Bad("the %s are replaced before %s is called" % (gone, q[0]), e.where)
        if e.kind == "store" and strip(e.obj) is run.self_node and e.attr in ("references", a):
            gone = e.attr
        if e.kind == "delitem" or e.kind == "mcall" and e.name == "clear":
            o = strip(e.obj if e.kind == "delitem" else e.recv)
            if o.op == "attr" and strip(o.args[0]) is run.self_node and o.args[1] in ("references", a):
                gone = o.args[1]


def assigned(run, ev, heap, v, coll, attr, a, p, given, what, where):
    v = strip(ev.resolve(strip(v)))
    k = run.own_attr(v) if v.op in ("attr", "loopv") else None
    if k and k[1] == attr:
        if given:
            raise Bad("%s: %s is not assigned" % (what, p), where)
        return
    if v.op == "loopv":
        raise Give(what)
    if a == "labels":
        item = v
    else:
        item = filled(run, ev, heap, v, coll, a, what, where)
    item = strip(ev.resolve(item))
    if item.op == "param":
        if item.args[0] != p:
            raise Bad("%s: %s is assigned" % (what, item.args[0]), where)
        if not given:
            raise Bad("%s: %s is assigned although it is None" % (what, p), where)
        return
    if item.op == "const":
        raise Bad("%s: %r is assigned" % (what, item.args[1]), where)
    raise Give(what)


def filled(run, ev, heap, v, coll, a, what, where):
    """the value of which `v` holds one per polygon (per parallel path)"""
    if v.op == "bin" and v.args[0] == "*":
        l, n = v.args[1], v.args[2]
        if strip(ev.resolve(l)).op not in ("list", "tuple"):
            l, n = n, l
        l, n = strip(ev.resolve(l)), strip(ev.resolve(n))
        if l.op != "list" or len(l.args[0]) != 1:
            if l.op == "tuple":
                raise Bad("%s become a tuple" % what, where)
            raise Give(what)
        if n.op == "call" and n.args[0] == "len":
            o = strip(n.args[1][0])
            if a == "labels":
                raise Give(what)
            if o.op in ("attr", "loopv", "bin"):
                own(run, ev, o, coll, a, what, where)
                return l.args[0][0]
        if n.op == "attr" and n.args[1] == "n" and a == "paths":
            if whole(run, None, n.args[0], coll):
                return l.args[0][0]
            raise Give(what)
        if n.op == "const":
            raise Bad("%s: %r values are assigned" % (what, n.args[1]), where)
        raise Give(what)
    if v.op == "comp" and v.args[0] == "list" and len(v.args[2]) == 1 and not v.args[3]:
        src = strip(ev.resolve(v.args[2][0]))
        if src.op == "call" and src.args[0] == "range" and len(src.args[1]) == 1:
            return filled(run, ev, heap, run.it.mk("bin", "*", run.it.mk("list", (v.args[1],)), src.args[1][0]), coll, a, what, where)
        if src.op == "call" and src.args[0] in ("enumerate", "list", "tuple"):
            src = strip(src.args[1][0])
        own(run, ev, src, coll, a, what, where)
        return v.args[1]
    if v.op in ("param", "const"):
        raise Bad("%s become a single value, not a list" % what, where)
    if v.op == "list" and len(v.args[0]) == 1:
        raise Bad("%s become a list of one value" % what, where)
    raise Give(what)


def own(run, ev, o, coll, a, what, where):
    """`o` is a parallel list of the element itself"""
    if o.op == "loopv" and isinstance(o.args[1], tuple) and o.args[1][1] != "$c":
        obj, attr = o.args[1]
    elif o.op == "attr":
        obj, attr = o.args
    elif o.op == "bin" and o.args[0] == "*":
        return  # a list already assigned with the right length
    else:
        raise Give(what)
    if attr not in (("polygons", "layers", "datatypes") if a == "polygons" else ("layers", "datatypes", "ends", "corners")):
        raise Give(what)
    if not whole(run, None, obj, coll):
        raise Give(what)
