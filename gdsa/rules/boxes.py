"""Bounding boxes (C24): extremes over all points, and the cached box."""
import re

from ..interp import Interp, show, subnodes
from ..flow import strip
from ..gather import Unknown, items, none_const
from ..lin import Fork
from ..poly import Poly
from ..affine import Arr, Tup, Eval, Unsupported, scalar, to_arr
from .geometry import A, Give, Bad, cases, return_values
from .traverse import Query

R = "bounding box"
BIG = 1e30


class BoxQuery(Query):
    def inline(self, fn, it):
        if fn.cls is not None and fn is not self.func and fn.name in ("_transform_polygons", "get_polygons", "get_bounding_box", "get_dependencies", "to_polygonset", "get_polygonsets", "get_paths"):
            return False
        return Query.inline(self, fn, it)


class Extremes(object):
    """values of the corners of a box: atoms (kind, axis, set of points)"""

    def __init__(self, q, g, case):
        self.q, self.g, self.case = q, g, case
        self.sets = []   # list of {item text: (guards, where)}
        self.node_ids = {}
        self.busy = set()
        self.ev = Eval(q.it, self.leaf, g.decide)

    def new_set(self, s):
        for i, x in enumerate(self.sets):
            if x.keys() == s.keys():
                return i
        self.sets.append(s)
        return len(self.sets) - 1

    def points(self, i):
        return Arr(("N", 2), {(k,): Poly.atom(("pt", k, i)) for k in (0, 1)})

    def of_list(self, node):
        """all points of a list of point arrays"""
        node = strip(node)
        if node.op == "ite":
            return self.of_list(self.ev.resolve(node))
        try:
            its = items(self.g, node, "list")
        except Unknown as u:
            raise Give(str(u))
        s = {}
        for x in its:
            esc = self.g.escapes(set(x.sites))
            if esc is not None:
                raise Bad("the loop over %s ends early" % x.text(), esc.where)
            s[(x.value, x.guards)] = x.where
        return self.new_set(s)

    def single(self, n):
        key = ("node", strip(n))
        return self.new_set({(key, ()): None})

    def leaf(self, n):
        s = strip(n)
        if s in self.busy:
            return None
        if s.op == "call" and s.args[0] in ("numpy.concatenate", "numpy.vstack", "numpy.row_stack"):
            kw = dict(s.args[2])
            if len(s.args[1]) > 1 or kw:
                ax = s.args[1][1] if len(s.args[1]) > 1 else kw.get("axis")
                if ax is None or not (strip(ax).op == "const" and strip(ax).args[1] == 0):
                    raise Unsupported("concatenation")
            return self.points(self.of_list(s.args[1][0]))
        if s.op in ("elem", "icall") or s.op == "mcall" and s.args[1] == "get_bounding_box" or s.op == "sub" and s.args[1].op in ("idx", "elem"):
            if s.op == "elem" and strip(s.args[0]).op in ("call", "tuple", "list"):
                return None
            return self.points(self.single(s))
        r = self.reduction(s)
        if r is None:
            return None
        kind, args, axis = r
        return self.reduce(kind, args, axis)

    def reduction(self, s):
        """(min|max, operands, axis node)"""
        if s.op == "mcall" and s.args[1] in ("min", "max"):
            kw = dict(s.args[3] or ())
            ax = s.args[2][0] if s.args[2] else kw.get("axis")
            return s.args[1], [s.args[0]], ax
        if s.op == "call" and s.args[0] in ("min", "max"):
            if dict(s.args[2]):
                raise Unsupported("keywords of " + s.args[0])
            return s.args[0], list(s.args[1]), None
        if s.op == "call" and s.args[0] in ("numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "numpy.minimum.reduce", "numpy.maximum.reduce"):
            kw = dict(s.args[2])
            ax = s.args[1][1] if len(s.args[1]) > 1 else kw.get("axis")
            if "reduce" in s.args[0] and ax is None:
                ax = self.q.it.const(0)
            return ("min" if "min" in s.args[0] else "max"), [s.args[1][0]], ax
        if s.op == "call" and s.args[0] in ("numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax"):
            return ("min" if "min" in s.args[0] else "max"), list(s.args[1]), "elementwise"
        return None

    def reduce(self, kind, args, axis):
        if len(args) > 1:
            vs = [self.ev.ev(x) for x in args]
            if axis == "elementwise":
                vs = [to_arr(v) for v in vs]
                sh = vs[0].shape
                if any(v.shape != sh for v in vs):
                    raise Unsupported("shapes")
                return Arr(sh, {k: self.union(kind, [v.data[k] for v in vs]) for k in vs[0].data})
            ps = []
            for v in vs:
                v = to_arr(v)
                if v.shape != ():
                    raise Unsupported("extreme of arrays")
                ps.append(v.data[()])
            return scalar(self.union(kind, ps))
        n = strip(self.ev.resolve(strip(args[0])))
        if n.op == "comp" or n.op == "call" and n.args[0] in ("list", "tuple") and strip(n.args[1][0]).op == "comp":
            if n.op != "comp":
                n = strip(n.args[1][0])
            return self.over(kind, n)
        if n.op in ("tuple", "list") and n.args[0]:
            return self.reduce(kind, list(n.args[0]), None)
        v = to_arr(self.ev.ev(n))
        if axis is not None and axis != "elementwise":
            ax = strip(self.ev.resolve(axis))
            if ax.op != "const":
                raise Unsupported("axis")
            ax = ax.args[1]
            if v.shape == ("N", 2) and ax in (0, -2):
                return Arr((2,), {(k,): self.extreme(kind, v.data[(k,)]) for k in (0, 1)})
            if v.shape == (2, "N") and ax in (1, -1):
                return Arr((2,), {(k,): self.extreme(kind, v.data[(k,)]) for k in (0, 1)})
            if v.shape == ("N",) and ax in (0, -1, None):
                return scalar(self.extreme(kind, v.data[()]))
            raise Unsupported("axis %r" % (ax,))
        if v.shape == ("N",):
            return scalar(self.extreme(kind, v.data[()]))
        if v.shape in (("N", 2), (2, "N")):
            raise Bad("the %s is taken over both coordinates" % kind, None)
        raise Unsupported("extreme")

    def atom(self, p):
        """the single atom of a polynomial"""
        for k, c in p.t.items():
            if len(p.t) == 1 and c == 1 and len(k) == 1 and k[0][1] == 1:
                return k[0][0]
        return None

    def extreme(self, kind, p):
        a = self.atom(p)
        if a is None or a[0] != "pt":
            raise Unsupported("coordinates")
        return Poly.atom((kind, a[1], a[2]))

    def over(self, kind, comp):
        """min over a comprehension"""
        _, val, iters, conds, site = comp.args
        v = to_arr(self.ev.ev(val))
        if v.shape != ():
            raise Unsupported("extreme of arrays")
        a = self.atom(v.data[()])
        if a is None or a[0] not in ("min", "max"):
            raise Unsupported("coordinates")
        if a[0] != kind:
            raise Bad("the %s of the %s of each polygon is taken" % (kind, a[0]), None)
        s = {}
        for (what, gs), w in self.sets[a[2]].items():
            if isinstance(what, tuple) and what[0] == "node":
                c2 = self.q.it.mk("comp", "list", what[1], iters, conds, site)
                c2.info = comp.info
                s.update(self.sets[self.of_list(c2)])
            else:
                s[(what, gs)] = w
        return scalar(Poly.atom((kind, a[1], self.new_set(s))))

    def union(self, kind, ps):
        out = None
        axis = None
        for p in ps:
            if p.is_const():
                c = float(p.cval())
                if (c >= BIG and kind == "min") or (c <= -BIG and kind == "max"):
                    continue
                raise Bad("the %s also includes %r" % (kind, c), None)
            a = self.atom(p)
            if a is None or a[0] not in ("min", "max"):
                raise Unsupported("extreme")
            if a[0] != kind:
                raise Bad("the %s includes a %s" % (kind, a[0]), None)
            if axis is not None and axis != a[1]:
                raise Bad("the %s mixes both coordinates" % kind, None)
            axis = a[1]
            s = self.sets[a[2]]
            out = dict(s) if out is None else dict(out, **{}) if False else merge(out, s)
        if out is None:
            raise Unsupported("extreme of constants")
        return Poly.atom((kind, axis, self.new_set(out)))

    def final(self, s):
        """items of a set of points, single arrays expanded"""
        out = []
        for (what, gs), w in s.items():
            if isinstance(what, tuple) and what[0] == "node":
                try:
                    lst = self.q.it.mk("list", (what[1],))
                    out += [(x.value, x.guards, x.where) for x in items(self.g, lst, "list")]
                except Unknown as u:
                    raise Give(str(u))
            else:
                out.append((what, gs, w))
        return out


def merge(a, b):
    d = dict(a)
    d.update(b)
    return d


CORNER = {(0, 0): ("min", 0), (0, 1): ("min", 1), (1, 0): ("max", 0), (1, 1): ("max", 1)}


def box_value(x, v, expected, known):
    """checks one returned box; expected: list of alternatives (sets of texts)"""
    try:
        a = to_arr(x.ev.ev(v))
    except Unsupported as u:
        raise Give(str(u))
    if a.shape != (2, 2):
        raise Give("shape %s" % (a.shape,))
    for k, (kind, axis) in sorted(CORNER.items()):
        p = a.data[k]
        t = x.atom(p)
        if t is None and p.is_const():
            raise Bad("corner %s of the box is %g" % (k, float(p.cval())), None)
        if t is None or t[0] not in ("min", "max"):
            raise Give("corner %s" % (k,))
        if t[0] != kind or t[1] != axis:
            raise Bad("corner %s of the box is the %s of %s" % (k, t[0], "xy"[t[1]]), None)
        points(x.final(x.sets[t[2]]), expected, known)


def points(its, expected, known):
    left = list(expected)
    for text, gs, where in its:
        text = text.replace("[::]", "")
        part = re.match(r"(.*)\[(-?\d*:-?\d*:-?\d*)\]\[([a-z])\]$", text)
        if part and any("%s[%s]" % part.group(1, 3) in e for e in expected):
            raise Bad("only the polygons [%s] of %s are included" % part.group(2, 1), where)
        hit = [e for e in left if text in e]
        if not hit:
            if any(text in e for e in expected):
                continue
            if any(w in text for w in known) and "part of" not in text:
                raise Bad("the box includes %s" % text, where)
            raise Give("points " + text)
        left.remove(hit[0])
        more = [q for q in gs if q != "not %s is None" % text and q != text + " is not None" and not harmless(q)]
        if more:
            raise Give("points of %s only if %s" % (text, " and ".join(more))) if any("(" in q for q in more) else Bad("%s is included only if %s" % (text, " and ".join(more)), where)
    if left:
        raise Bad("the box does not include %s" % left[0][0], its[0][2] if its else None)


def harmless(q):
    return "get_bounding_box() is" in q and "None" in q


CELL = [
    ["self.polygons[a].polygons[b]", "self.polygons[a].get_bounding_box()"],
    ["self.paths[a].to_polygonset().polygons[b]", "self.paths[a].get_polygons(by_spec=False, depth=None)[b]", "self.paths[a].get_polygons()[b]"],
    ["self.references[a].get_bounding_box()", "self.references[a].get_polygons(by_spec=False, depth=None)[b]"],
]


def empty_list(x, cond, val):
    """the collection this condition (with this outcome) says is empty, 'box' for
    the box of the referenced cell, None"""
    c, pol = x.q.it.norm_cond(cond)
    val = val if pol else not val
    c = strip(c)
    if c.op == "cmp" and c.args[0] in ("==", ">", "<", ">=", "<="):
        a, b = strip(c.args[1]), strip(c.args[2])
        op = c.args[0]
        if b.op == "call" and b.args[0] == "len":
            a, b = b, a
            op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
        if a.op == "call" and a.args[0] == "len" and b.op == "const":
            k = b.args[1]
            out = [{"==": n == k, ">": n > k, "<": n < k, ">=": n >= k, "<=": n <= k}[op] for n in (0, 1, 2)]
            if out[0] == val and out[1] != val and out[2] != val:
                return a.args[1][0]
        return None
    if c.op == "cmp" and c.args[0] == "is" and none_const(strip(c.args[2])):
        a = strip(c.args[1])
        if val and a.op in ("mcall", "icall"):
            t = x.g.canon(a, {})
            if t[0] == "mcall" and t[2] == "get_bounding_box" and t[1] == ("attr", ("self",), "ref_cell"):
                return "box"
        return None
    if val is False and c.op in ("list", "loopv", "attr", "comp", "mcall", "icall", "ite"):
        if c.op == "attr" and c.args[1] not in ("polygons", "paths", "references"):
            return None
        return c
    if val is False and c.op == "call" and c.args[0] == "len":
        return c.args[1][0]
    return None


def nothing(x, case, gs, expected):
    """None is right on this path"""
    have = []
    odd = None
    for c, p in list(case.dec) + list(gs):
        if c.op == "bool":
            todo = [c]
            while todo:
                b = todo.pop()
                for y in b.args[1]:
                    y, q = x.q.it.norm_cond(y)
                    if y.op == "bool":
                        todo.append(y)
                    d = case.decide(y)
                    if d is not None:
                        have.append((y, d))
        else:
            have.append((c, p))
    texts = []
    for c, p in have:
        l = empty_list(x, c, p)
        if l is None:
            continue
        if l == "box":
            return
        try:
            l = x.ev.resolve(strip(l))
            texts += [it.value for it in items(x.g, l, "list")]
        except Unknown as u:
            odd = str(u)
    left = [e for e in expected if not any(a.startswith(t) for a in e for t in texts)]
    if left and odd:
        raise Give(odd)
    if left:
        raise Bad("None is returned although there may be %s" % left[0][0], None)


def check_box(ctx, q, name, judge):
    ctx.saw(q.it.functions_seen)
    good = [True]
    state = {"none": 0, "box": 0}

    def one(case):
        try:
            g = q.gather(case)
            x = Extremes(q, g, case)
            done = False
            for v, heap, gs in return_values(q.res, case):
                if done:
                    break
                done = all(case.decide(c) == p for c, p in gs if g.decide(c) is None or case.decide(c) is not None)
                judge(x, g, case, v, heap, gs, state)
        except Bad as b:
            good[0] = False
            ctx.violation(R, name, b.where or q.func.where, "%s: %s" % (name, b.msg))
        except (Give, Unknown, Unsupported) as u:
            good[0] = False
            ctx.unknown(R, q.func.where, "%s: %s" % (name, u))

    try:
        cases(q.it, one)
    except Give as u:
        good[0] = False
        ctx.unknown(R, q.func.where, "%s: %s" % (name, u))
    if good[0] and not state["box"]:
        good[0] = False
        ctx.unknown(R, q.func.where, "%s: no box" % name)
    if good[0] and not state["none"]:
        good[0] = False
        ctx.violation(R, name, q.func.where, "%s: nothing without points is answered with None" % name)
    if good[0]:
        ctx.ok("bounding boxes", name)


def is_none(x, v):
    return none_const(strip(x.ev.resolve(strip(v))))


def right_angle(x, case):
    """True: the rotation is None or a multiple of 90 on this path; False: it may
    be anything; None: not understood"""
    r = False
    for c, p in case.dec:
        c, pol = x.q.it.norm_cond(c)
        p = p if pol else not p
        if not any(n.op == "attr" and n.args[1] == "rotation" for n in subnodes(c)):
            continue
        if c.op == "cmp" and (strip(c.args[1]).op in ("icall", "mcall", "ite") or strip(c.args[1]).op == "call" and strip(c.args[1]).args[0] == "len"):
            continue
        if c.op in ("icall", "mcall", "ite", "loopv", "list"):
            continue
        rot = lambda n: strip(n).op == "attr" and strip(n).args[1] == "rotation"
        if c.op == "cmp" and c.args[0] == "is" and rot(c.args[1]) and none_const(strip(c.args[2])):
            if p:
                return True
            continue
        if rot(c):
            if not p:
                return True   # None or zero
            continue
        m = None
        if any(n.op == "call" and n.args[0] in ("int", "math.floor", "numpy.floor", "math.trunc") and any(rot(k) for k in subnodes(n)) for n in subnodes(c)):
            continue   # angles in between pass as well
        if c.op == "cmp" and c.args[0] == "==" and strip(c.args[2]).op == "const" and strip(c.args[2]).args[1] == 0:
            m = strip(c.args[1])
        elif c.op == "bin":
            m, p = c, not p
        if m is not None and m.op == "bin" and m.args[0] == "%" and strip(m.args[2]).op == "const":
            k = strip(m.args[2]).args[1]
            t = strip(m.args[1])
            if t.op == "bin" and t.args[0] in ("*", "/"):
                a, b = strip(t.args[1]), strip(t.args[2])
                if t.args[0] == "*" and a.op == "const":
                    a, b = b, a
                if b.op == "const" and isinstance(b.args[1], (int, float)) and b.args[1] and isinstance(k, (int, float)):
                    t, k = a, k / b.args[1] if t.args[0] == "*" else k * b.args[1]
            if not rot(t):
                r = None
                continue
            if p and isinstance(k, (int, float)) and k and k % 90 == 0:
                return True
            continue
        if c.op == "cmp" and c.args[0] == "==" and rot(c.args[1]) and strip(c.args[2]).op == "const":
            if p and strip(c.args[2]).args[1] % 90 == 0:
                return True
            continue
        if c.op == "cmp" and c.args[0] == "in" and rot(c.args[1]) and strip(c.args[2]).op in ("tuple", "list"):
            if p and all(strip(k).op == "const" and (strip(k).args[1] is None or strip(k).args[1] % 90 == 0) for k in strip(c.args[2]).args[0]):
                return True
            if all(strip(k).op == "const" for k in strip(c.args[2]).args[0]):
                continue
        r = None
    return r


COPY = ("numpy.array", "copy.copy", "copy.deepcopy", "numpy.copy")


def copied(x, v):
    """(is it a copy, the value)"""
    v = x.ev.resolve(v)
    n = strip(v)
    if n.op == "ite":
        return copied(x, n)
    if n is v or v.op != "ver":
        if n.op == "call" and n.args[0] in COPY and n.args[1] and "copy" not in dict(n.args[2]):
            a = x.ev.resolve(n.args[1][0])
            return True, a
        if n.op == "mcall" and n.args[1] == "copy":
            return True, x.ev.resolve(n.args[0])
        if n.op == "call" and n.args[0] in ("numpy.asarray", "numpy.asanyarray", "numpy.atleast_2d") and n.args[1]:
            return copied(x, n.args[1][0])
        if n.op == "call" and n.args[0] == "numpy.array" and n.args[1]:
            return copied(x, n.args[1][0])   # numpy.array(..., copy=...)
        if n.op == "mcall" and n.args[1] == "view" and not n.args[2]:
            return copied(x, n.args[0])
        if n.op == "sub" and strip(n.args[1]).op == "slice" and all(none_const(strip(a)) for a in strip(n.args[1]).args if hasattr(a, "op")):
            return copied(x, n.args[0])
    return False, v


def boxes(ctx):
    prog = ctx.prog
    ctx.rule("the box is ((min x, min y), (max x, max y)) over all polygons of the object, None exactly when there are none")
    q = BoxQuery(prog, "PolygonSet", "get_bounding_box")
    own = [["self.polygons[a]"]]

    def polygons(x, g, case, v, heap, gs, state):
        if is_none(x, v):
            nothing(x, case, gs, own)
            state["none"] += 1
            return
        state["box"] += 1
        box_value(x, x.ev.resolve(strip(v)) if strip(v).op == "ite" else v, own, ())

    check_box(ctx, q, "PolygonSet.get_bounding_box", polygons)
    for cls in ("CellReference", "CellArray"):
        q = BoxQuery(prog, cls, "get_bounding_box")
        gen = ["self.get_polygons(by_spec=False, depth=None)[a]"]
        quick = ["self._transform_polygons((self.ref_cell.get_bounding_box()))[a]"]

        def refs(x, g, case, v, heap, gs, state):
            if is_none(x, v):
                nothing(x, case, gs, [gen + quick])
                state["none"] += 1
                return
            state["box"] += 1
            v = x.ev.resolve(strip(v)) if strip(v).op == "ite" else v
            straight = right_angle(x, case)
            if straight:
                box_value(x, v, [gen + quick], ())
                return
            try:
                box_value(x, v, [gen], quick)
            except Bad as b:
                if quick[0] in b.msg and straight is None:
                    raise Give(b.msg)
                if quick[0] in b.msg:
                    raise Bad("for rotations other than multiples of 90 degrees the box of the rotated box of the cell is used", b.where)
                raise

        check_box(ctx, q, cls + ".get_bounding_box", refs)
    q = BoxQuery(prog, "Cell", "get_bounding_box")
    check_box(ctx, q, "Cell.get_bounding_box", cell_box)


def cell_box(x, g, case, v, heap, gs, state):
    me = x.q.self_node
    slot0 = x.q.it.mk("attr", me, "_bounding_box")
    fresh, val = copied(x, v)
    if val is slot0 or none_const(val) and cached_none(x, case, slot0):
        if val is slot0 and not fresh:
            raise Bad("the cached array itself is returned", None)
        trusted(x, case)
        if val is slot0:
            state["box"] += 0
        return
    slot = heap.get((me, "_bounding_box"))
    if slot is not None:
        slot = x.ev.resolve(slot)
    if none_const(val):
        nothing(x, case, gs, CELL)
        state["none"] += 1
        if slot is not None and not none_const(slot):
            raise Bad("the box of an empty cell is cached as something else", None)
    else:
        state["box"] += 1
        box_value(x, val, CELL, ("self.",))
        if slot is not None and strip(slot) is strip(x.ev.resolve(v)):
            raise Bad("the array returned is the one kept in the cache", None)
    valid = heap.get((me, "_bb_valid"))
    if valid is None:
        return
    valid = strip(x.ev.resolve(strip(valid)))
    if valid.op == "const" and valid.args[1]:
        if slot is None:
            raise Bad("the cached box is declared valid without being replaced", None)
        if strip(slot) is not strip(val):
            if none_const(val) or none_const(slot):
                raise Bad("the box kept in the cache is not the one returned", None)
            box_value(x, slot, CELL, ("self.",))
        stamp = heap.get((me, "_bb_stamp"))
        if stamp is None and any(n.op == "attr" and n.args[1] == "_bb_stamp" for c, p in case.dec for n in subnodes(c)):
            raise Bad("the cached box is declared valid without a new stamp", None)


def cached_none(x, case, slot0):
    for c, p in case.dec:
        c, pol = x.q.it.norm_cond(c)
        if c.op == "cmp" and c.args[0] == "is" and strip(c.args[1]) is slot0 and none_const(strip(c.args[2])):
            return p == pol
    return False


def trusted(x, case):
    """the conditions under which the cached box is returned"""
    me = x.q.self_node
    own = deps = False
    odd = None
    for c, p in case.dec:
        c, pol = x.q.it.norm_cond(c)
        p = p if pol else not p
        if c.op == "attr" and c.args[1] == "_bb_valid" and c.args[0] is me:
            own = own or p
            continue
        if c.op == "call" and c.args[0] in ("all", "any") and len(c.args[1]) == 1:
            comp = strip(c.args[1][0])
            if p != (c.args[0] == "all") or comp.op != "comp":
                continue
            depends(x, comp, c.args[0] == "any")
            deps = True
            continue
        if c.op == "cmp" and c.args[0] == "is" and strip(c.args[1]).op == "attr" and strip(c.args[1]).args[1] == "_bounding_box":
            continue
        odd = show(c, 4)
    if not own:
        if odd:
            raise Give("cache condition " + odd)
        raise Bad("the cached box is returned without checking that it is valid", None)
    if not deps:
        if odd:
            raise Give("cache condition " + odd)
        raise Bad("the cached box is returned without checking the cells it depends on", None)


def depends(x, comp, neg):
    me = x.q.self_node
    _, val, iters, conds, site = comp.args
    if len(iters) != 1 or conds:
        raise Give("check of dependencies")
    try:
        t = x.g.canon(iters[0], {})
    except Unknown as u:
        raise Give(str(u))
    if not (t[0] == "mcall" and t[1] == ("self",) and t[2] == "get_dependencies"):
        raise Give("check of dependencies")
    kw = dict((y[1], y[2]) for y in t[3:] if y[0] == "kw")
    rec = kw.get("recursive", t[3] if len(t) > 3 and t[3][0] == "const" else ("const", False))
    if rec[0] == "const" and not rec[1]:
        raise Bad("only the cells referenced directly are checked before the cached box is returned", None)
    parts = []

    def conj(c, p):
        c, pol = x.q.it.norm_cond(c)
        p = p if pol else not p
        if c.op == "bool" and (c.args[0] == "and") == p:
            for y in c.args[1]:
                conj(y, p)
            return
        parts.append((c, p))
    conj(val, not neg)
    valid = newer = False
    for c, p in parts:
        if c.op == "attr" and c.args[1] == "_bb_valid" and strip(c.args[0]).op == "elem":
            if not p:
                raise Bad("the cached box is returned when the box of a dependency is not valid", None)
            valid = True
            continue
        if c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">="):
            a, b, op = c.args[1], c.args[2], c.args[0]
            if a.op == "attr" and a.args[0] is me:
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            if a.op == "attr" and b.op == "attr" and a.args[1] == b.args[1] == "_bb_stamp" and b.args[0] is me and strip(a.args[0]).op == "elem":
                if (op in ("<", "<=")) != p:
                    raise Bad("the cached box is returned when dependencies were calculated later", None)
                newer = True
                continue
        raise Give("check of dependencies " + show(c, 4))
    if not valid:
        raise Bad("the cached box is returned without checking that those of the dependencies are valid", None)
    if not newer:
        raise Bad("the cached box is returned although a dependency was calculated again later", None)


# -- invalidation ------------------------------------------------------------------

GEOM = ("polygons", "paths", "references")
MUT = ("append", "extend", "insert", "remove", "pop", "clear", "reverse", "sort", "__setitem__", "__delitem__")
PLACED = ("ref_cell", "origin", "rotation", "magnification", "x_reflection", "spacing", "columns", "rows")


def content_owner(run_self, n, depth=0):
    """(cell node, list) when n is a geometric list of a cell, or an element of one"""
    n = strip(n)
    if depth > 6:
        return None
    if n.op == "loopv" and isinstance(n.args[1], tuple) and n.args[1][1] in GEOM:
        return strip(n.args[1][0]), n.args[1][1]
    if n.op == "attr" and n.args[1] in GEOM:
        return strip(n.args[0]), n.args[1]
    return None


def element_owner(n, depth=0):
    n = strip(n)
    if n.op == "elem" or n.op == "sub":
        c = strip(n.args[0])
        k = 0
        while c.op == "call" and c.args[0] in ("list", "tuple", "enumerate", "zip", "reversed", "sorted") and c.args[1] and k < 4:
            c = strip(c.args[1][0])
            k += 1
        if n.op == "sub" and c.op == "elem":
            return element_owner(c, depth + 1) if depth < 3 else None
        return content_owner(None, c)
    return None


def invalidation(ctx):
    """every method that changes what a cell contains discards the cached box"""
    prog = ctx.prog
    ctx.rule("every path that changes the polygons, paths or references of a cell also marks the cached bounding box of that cell as invalid")
    ctx.assume("flattening a cell keeps its geometry (C37) and new cells start without a cached box (checked)")
    cell = prog.need_class("Cell")
    q = BoxQuery(prog, "Cell", "__init__")
    v = None
    for g, st, _ in q.res.returns or ():
        v = st.heap.get((q.self_node, "_bb_valid"))
    if v is None:
        ctx.unknown("invalidation", q.func.where, "initial validity")
    elif v.op == "const" and v.args[1]:
        ctx.violation("invalidation", "Cell.__init__", q.func.where, "a new cell claims to have a valid bounding box")
    elif v.op == "const":
        ctx.ok("initial validity")
    else:
        ctx.unknown("invalidation", q.func.where, "initial validity")
    todo = [("Cell", m, f) for m, f in sorted(cell.methods.items()) if m not in ("__init__", "get_bounding_box", "flatten")]
    lib = prog.need_class("GdsLibrary")
    todo += [("GdsLibrary", m, f) for m, f in sorted(lib.methods.items()) if m not in ("read_gds", "write_gds", "__init__") and not m.startswith("_create")]
    # a private helper is judged as part of the methods that call it
    private = lambda m: m.startswith("_") and not m.startswith("__")
    seen = set()
    for cn, m, f in sorted(todo, key=lambda t: private(t[1])):
        if private(m) and f in seen:
            continue
        try:
            seen |= mutations(ctx, prog, cn, m, f)
        except (Give, Unknown) as u:
            ctx.unknown("invalidation", f.where, "%s.%s: %s" % (cn, m, u))


def mutations(ctx, prog, cn, m, f):
    it = Interp(prog, inline=lambda fn, it: False if fn.name.startswith("get_") or fn.name in ("to_svg", "to_gds") else None)
    me = it.mk("param", f.params()[0])
    res = it.run(f, self_cls=prog.need_class(cn), args={p: it.mk("param", p) for p in f.params()[1:]}, self_node=me)
    ctx.saw(it.functions_seen)
    done = set(it.functions_seen)
    off = []
    hits = []
    fresh = set()
    for e in res.effects:
        if e.kind == "new":
            fresh.add(strip(e.data.get("result") or e.data.get("value") or e.data.get("obj")))
    for e in res.effects:
        if e.kind in ("store", "augattr"):
            o = strip(e.obj)
            if e.attr == "_bb_valid":
                v = e.data.get("value")
                off.append((e, o, v is not None and v.op == "const" and not v.args[1]))
                continue
            if e.attr in GEOM and (cn == "Cell" and o is me or is_cell(o, me)):
                hits.append((e, o, e.attr))
            elif e.attr == "polygons":
                w = element_owner(o)
                if w and w[1] == "polygons":
                    hits.append((e, w[0], "polygons of its polygon sets"))
            elif e.attr in PLACED:
                w = element_owner(o)
                if w and w[1] == "references":
                    hits.append((e, w[0], e.attr + " of its references"))
        elif e.kind == "mcall" and e.name in MUT and e.data.get("recv") is not None:
            w = content_owner(me, e.recv)
            if w:
                hits.append((e, w[0], w[1]))
        elif e.kind in ("storeitem", "delitem", "aug"):
            o = e.data.get("obj")
            if o is not None and hasattr(o, "op"):
                w = content_owner(me, o)
                if w:
                    hits.append((e, w[0], w[1]))
    for e, o, what in hits:
        if o.op == "new" or o in fresh:
            ctx.ok("contents of new cells")
            continue
        gs = set((c, p) for c, p in e.guards)
        state = None
        for x, xo, no in off:
            if xo is not o:
                if no and is_cell(xo, me) and is_cell(o, me) and xo.op in ("elem", "sub"):
                    # another loop over the cells of the library
                    state = state or ("ok" if not [1 for c, p in x.guards if (c, p) not in gs] else "other")
                continue
            extra = [(c, p) for c, p in x.guards if (c, p) not in gs]
            if not no:
                continue
            if not extra and [l[0] for l in x.loops] == [l[0] for l in e.loops][:len(x.loops)]:
                state = "ok"
                break
            if not extra:
                # a loop of its own over the same cells
                state = state or "loop"
            else:
                state = state or "cond"
        name = "%s.%s: %s" % (cn, m, what)
        if state == "ok":
            ctx.ok("invalidations", "%s at %s" % (name, e.where))
        elif state == "loop":
            if o is me:
                ctx.violation("invalidation", name, e.where, "the cached bounding box is discarded only inside a loop that may not run")
            else:
                ctx.unknown("invalidation", e.where, name)
        elif state == "other":
            ctx.unknown("invalidation", e.where, name)
        elif state == "cond":
            # several conditional invalidations may cover all cases
            cover = [x for x, xo, no in off if xo is o and no]
            if len(cover) > 1:
                ctx.unknown("invalidation", e.where, name)
            else:
                ctx.violation("invalidation", name, e.where, "%s.%s changes the %s of a cell but discards its cached bounding box only under further conditions" % (cn, m, what))
        else:
            others = [x for x, xo, no in off if no]
            if others and all(strip(x.obj).op in ("phi", "ite", "loopv") for x in others) and others:
                ctx.unknown("invalidation", e.where, name)
            elif [x for x, xo, no in off if xo is o and not no]:
                ctx.violation("invalidation", name, e.where, "%s.%s changes the %s of a cell and declares its cached bounding box valid" % (cn, m, what))
            else:
                ctx.violation("invalidation", name, e.where, "%s.%s changes the %s of a cell but keeps its cached bounding box" % (cn, m, what))
    return done


def is_cell(o, me):
    """an element of the cells of a library"""
    o = strip(o)
    if o.op in ("elem", "sub"):
        c = strip(o.args[0])
        if c.op == "mcall" and c.args[1] in ("values", "items"):
            c = strip(c.args[0])
        k = 0
        while c.op == "call" and c.args[0] in ("list", "tuple") and c.args[1] and k < 3:
            c = strip(c.args[1][0])
            k += 1
            if c.op == "mcall" and c.args[1] in ("values", "items"):
                c = strip(c.args[0])
        if c.op == "attr" and c.args[1] == "cells":
            return True
        if c.op == "elem":
            return is_cell(c, me)
    return False
