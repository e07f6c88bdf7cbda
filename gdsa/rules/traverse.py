"""What the queries of a cell visit (C30) and how deep (C31)."""
from ..interp import Interp, show
from ..flow import strip
from ..gather import Gather, Unknown, items, render
from ..lin import Fork
from .geometry import Give, Bad, cases, return_values

R = "traversal"
CELL_API = ("get_polygons", "get_polygonsets", "get_paths", "get_labels", "get_layers", "get_datatypes", "get_texttypes", "get_svg_classes", "get_bounding_box", "get_dependencies", "area", "flatten", "copy", "add", "to_gds", "to_svg")

DEPTHS = {"None": None, "negative": (-1, -2, -7, -1000), "zero": (0,), "positive": (1, 2, 3, 1000)}


class Query(object):
    """one pass over a query with given argument classes"""

    def __init__(self, prog, cls, meth, by_spec="no", depth=None, cells=True, extra=None):
        self.prog, self.cls, self.cells = prog, prog.need_class(cls), cells
        self.cellcls = prog.need_class("Cell")
        f = self.func = prog.need_method(cls, meth)
        self.depth = depth
        self.by_spec = by_spec
        ps = f.params()[1:]
        it = self.it = Interp(prog, assume=self.assume, inline=self.inline)
        self.self_node = it.mk("param", f.params()[0])
        args = {}
        for p in ps:
            if p == "by_spec":
                args[p] = it.const(by_spec) if by_spec in (True, False) else it.mk("param", p)
            elif p == "depth":
                args[p] = it.const(None) if depth == "None" else it.mk("param", p)
            elif extra and p in extra:
                args[p] = it.const(extra[p])
            else:
                args[p] = it.mk("param", p)
        self.res = it.run(f, self_cls=self.cls, args=args, self_node=self.self_node)

    def inline(self, fn, it):
        if fn.cls is not None and fn.name in CELL_API and fn is not self.func:
            return False
        if fn.cls is not None and fn.cls is not self.cls and not fn.name.startswith("_") and fn.cls.name != "Cell":
            return False
        return None

    def assume(self, c, st):
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2:
            x, s = strip(c.args[1][0]), c.args[1][1]
            if x.op == "attr" and x.args[1] == "ref_cell":
                if s.op == "cls":
                    return self.cells if s.args[0] is self.cellcls else (False if not self.cells else None)
                if s.op == "ext" and s.args[0] in ("str", "bytes"):
                    return not self.cells
            if x.op == "param" and x.args[0] == "by_spec" and s.op == "ext":
                return s.args[0] == "tuple"
        if c.op == "param" and c.args[0] == "by_spec":
            return True
        if c.op == "cmp":
            a, b = strip(c.args[1]), strip(c.args[2])
            if a.op == "param" and a.args[0] == "by_spec" and b.op == "const":
                return False
            if c.args[0] == "is" and b.op == "const" and b.args[1] is None and a.op == "param" and a.args[0] == "depth":
                return self.depth == "None"
            v = self.truth(c)
            if v is not None:
                return v
        return None

    def truth(self, c):
        """a comparison of the depth, for every depth of the class"""
        vals = DEPTHS.get(self.depth)
        if not vals:
            return None
        got = set()
        for d in vals:
            try:
                got.add(bool(self.eval(c, d)))
            except ValueError:
                return None
        return got.pop() if len(got) == 1 else None

    def eval(self, n, d):
        n = strip(n)
        if n.op == "const" and isinstance(n.args[1], (int, float)):
            return n.args[1]
        if n.op == "param" and n.args[0] == "depth":
            return d
        if n.op == "bin" and n.args[0] in ("+", "-", "*"):
            a, b = self.eval(n.args[1], d), self.eval(n.args[2], d)
            return a + b if n.args[0] == "+" else a - b if n.args[0] == "-" else a * b
        if n.op == "un" and n.args[0] == "-":
            return -self.eval(n.args[1], d)
        if n.op == "cmp":
            a, b = self.eval(n.args[1], d), self.eval(n.args[2], d)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}.get(n.args[0]) if n.args[0] in ("<", ">", "<=", ">=", "==", "!=") else self.fail()
        self.fail()

    def fail(self):
        raise ValueError

    def sigs(self):
        out = {}
        for cn in ("Cell", "CellArray", "CellReference"):
            c = self.prog.need_class(cn)
            for nm in CELL_API:
                f = c.find_method(nm)
                if f is None or f.cls is not c:
                    continue
                ps = f.params()[1:]
                ds = f.node.args.defaults
                row = []
                for i, p in enumerate(ps):
                    j = i - (len(ps) - len(ds))
                    if j < 0:
                        row = None
                        break
                    v = getattr(ds[j], "value", Ellipsis)
                    row.append((p, v))
                if row:
                    out[nm] = row
        return out

    def gather(self, case):
        def decide(c):
            r = case.decide(c)
            if r is None:
                r = self.assume(c, None)
            return r
        return Gather(self.it, self.res, decide, self.self_node, self.sigs())


def calls_of(text):
    import re
    return set(re.findall(r"([A-Za-z_][A-Za-z_0-9.]*)\(", text))


def compare(g, got, expected, kind, what, setlike=False, alien=()):
    """got: items; expected: [(key, value, required guards)]"""
    known = set(alien)
    for e in expected:
        known |= calls_of(str(e[0]) + " " + str(e[1]))
    groups = []
    for x in got:
        if x.mode and x.mode.startswith("init"):
            continue
        for grp in groups:
            if grp[0] == (x.key, x.value, x.guards):
                grp[1].append(x)
                break
        else:
            groups.append(((x.key, x.value, x.guards), [x]))
    inits = [x for x in got if x.mode and x.mode.startswith("init")]
    rest = list(expected)
    seen_maps = False
    odd = None
    for (k, v, gs), xs in groups:
        gs = tuple(q for q in gs if not any(e[0] == k and e[1] == v and len(e) > 3 and q in e[3] for e in expected))
        hit = None
        for e in rest:
            if e[0] == k and e[1] == v and set(e[2]) == set(gs):
                hit = e
                break
        x = xs[0]
        if hit is None:
            like = [e for e in expected if e[0] == k and e[1] == v]
            t = x.text()
            if like:
                more = [q for q in gs if q not in like[0][2]]
                less = [q for q in like[0][2] if q not in gs]
                if like[0] not in rest and not more:
                    raise Bad("%s: %s appears twice" % (what, t), x.where)
                if any(calls_of(q) - known for q in more):
                    odd = odd or "%s: condition %s" % (what, more)
                    continue
                if more:
                    raise Bad("%s: %s is included only if %s" % (what, t, " and ".join(more)), x.where)
                raise Bad("%s: %s is included without %s" % (what, t, " and ".join(less)), x.where)
            if any(e[1] == v for e in expected):
                raise Bad("%s: %s appears under %s" % (what, v, k), x.where)
            if calls_of(t) - known or "part of" in t or "count" in t:
                odd = odd or "%s: %s" % (what, t)
                continue
            raise Bad("%s: %s is not expected" % (what, t) + (" (instead of %s)" % rest[0][1] if len(rest) == 1 else ""), x.where)
        rest.remove(hit)
        if not setlike:
            for y in xs:
                if y.unused:
                    raise Bad("%s: %s is repeated for every item of %s" % (what, y.text(), y.unused[0]), y.where)
        esc = g.escapes(set(s for y in xs for s in y.sites))
        if esc is not None:
            raise Bad("%s: the loop over %s ends early" % (what, x.text()), esc.where)
        modes = sorted(str(y.mode) for y in xs)
        if kind in ("list", "num"):
            if not setlike and len(xs) > 1:
                raise Bad("%s: %s appears %d times" % (what, x.text(), len(xs)), xs[1].where)
            continue
        ms = set(modes)
        if len(modes) != len(ms):
            raise Bad("%s: %s is added twice" % (what, x.text()), xs[1].where)
        if ms == {"default"}:
            pass
        elif ms == {"add-present", "set-absent"}:
            pass
        elif ms == {"add"}:
            if not any(i.key == k and i.mode == "init-absent" for i in inits) and not g.default_factory:
                raise Give("entries are extended without being created")
        elif ms == {"set"}:
            if seen_maps:
                raise Bad("%s: entries that are already there are replaced by %s" % (what, x.text()), x.where)
        elif ms == {"add-present"}:
            raise Bad("%s: %s is dropped unless its key is already there" % (what, x.text()), x.where)
        elif ms == {"set-absent"}:
            raise Bad("%s: %s is dropped if its key is already there" % (what, x.text()), x.where)
        elif ms == {"set-absent", "set-present"}:
            raise Bad("%s: entries that are already there are replaced by %s" % (what, x.text()), x.where)
        elif ms == {"add-present", "add-absent"} and any(i.key == k for i in inits):
            pass
        else:
            raise Give("%s: dictionary updates %s" % (what, modes))
        seen_maps = True
    if odd:
        raise Give(odd)
    if rest:
        raise Bad("%s: no %s" % (what, rest[0][1] + (" under " + rest[0][0] if rest[0][0] else "")))


def check_query(ctx, q, name, kind, expected, setlike=False, post=None, rule=R, alien=()):
    prog = ctx.prog
    ctx.saw(q.it.functions_seen)
    good = [True]

    def one(case):
        try:
            g = q.gather(case)
            rv = return_values(q.res, case)
            if not rv:
                raise Give("no return")
            for v, heap, gs in rv:
                g.default_factory = any(x.op == "call" and x.args[0] == "collections.defaultdict" for x in [strip(v)])
                if post is not None:
                    post(q, g, case, v)
                    continue
                try:
                    compare(g, items(g, v, kind), expected, kind, name, setlike, alien)
                except Unknown as u:
                    raise Give(str(u))
        except Bad as b:
            good[0] = False
            ctx.violation(rule, name, b.where or q.func.where, b.msg)
        except (Give, Unknown) as u:
            good[0] = False
            ctx.unknown(rule, q.func.where, "%s: %s" % (name, u))

    try:
        cases(q.it, one)
    except Give as u:
        good[0] = False
        ctx.unknown(rule, q.func.where, "%s: %s" % (name, u))
    if good[0]:
        ctx.ok("queries", name)


def own(kind, own_item, ref_item):
    return [own_item, ref_item]


def ref(call, *kw):
    return "self.references[a].%s(%s)" % (call, ", ".join("%s=%s" % x for x in kw))


def polygons_expected(by_spec, nd):
    b = {True: "True", False: "False", "tuple": "by_spec"}[by_spec]
    pc = "self.paths[a].get_polygons(by_spec=%s, depth=None)"
    rc = "self.references[a].get_polygons(by_spec=%s, depth=%s)"
    P = "self.polygons[a].polygons[b]"
    if by_spec is True:
        k = "(self.polygons[a].layers[b], self.polygons[a].datatypes[b])"
        out = [(k, P, ())]
        for c in (pc % "True", rc % ("True", nd)):
            out.append(("%s@b" % c, "%s[%s@b][c]" % (c, c), ()))
        return out
    if by_spec is False:
        return [(None, P, ()), (None, (pc % "False") + "[b]", ()), (None, (rc % ("False", nd)) + "[b]", ())]
    eqs = tuple(" == ".join(sorted(x)) for x in (("by_spec[0]", "self.polygons[a].layers[b]"), ("by_spec[1]", "self.polygons[a].datatypes[b]")))
    some = tuple(" == ".join(sorted(x)) for x in (("by_spec[0]", "self.paths[a].layers[*]"), ("by_spec[1]", "self.paths[a].datatypes[*]")))
    return [(None, P, eqs), (None, (pc % "True") + "[by_spec][b]", ("by_spec in " + (pc % "True"),), ("some(%s)" % " and ".join(sorted(some)),)), (None, (rc % ("by_spec", nd)) + "[b]", ())]


def next_depth(d):
    return "None" if d == "None" else "(depth - 1)"


def depth_queries(ctx, depths):
    prog = ctx.prog
    for d in depths:
        if d != "negative":
            for by in (True, False, "tuple"):
                q = Query(prog, "Cell", "get_polygons", by, d)
                check_query(ctx, q, "Cell.get_polygons(by_spec=%s) with %s depth" % (by, d), "dict" if by is True else "list", polygons_expected(by, next_depth(d)))
        for meth, attr, extra in (("get_polygonsets", "polygons", ()), ("get_paths", "paths", ()), ("get_labels", "labels", (("set_transform", "set_transform"),))):
            if d == "negative":
                continue
            q = Query(prog, "Cell", meth, depth=d)
            exp = [(None, "self.%s[a]" % attr, ())]
            if d != "zero":
                exp.append((None, ref(meth, ("depth", next_depth(d)), *extra) + "[b]", ()))
            check_query(ctx, q, "Cell.%s with %s depth" % (meth, d), "list", exp, alien=calls_of(ref(meth)))


def queries(ctx):
    prog = ctx.prog
    ctx.rule("the returned collection consists of exactly the expected generic items over all own elements and all references, each once, under the key made of its own layer and datatype")
    depth_queries(ctx, ["None"])
    for meth, expected in (
        ("get_layers", ["self.polygons[a].layers[b]", "self.paths[a].layers[b]", "self.labels[a].layer", "self.references[a].ref_cell.get_layers()[b]"]),
        ("get_datatypes", ["self.polygons[a].datatypes[b]", "self.paths[a].datatypes[b]", "self.references[a].ref_cell.get_datatypes()[b]"]),
        ("get_texttypes", ["self.labels[a].texttype", "self.references[a].ref_cell.get_texttypes()[b]"]),
    ):
        q = Query(prog, "Cell", meth)
        check_query(ctx, q, "Cell." + meth, "list", [(None, x, ()) for x in expected], setlike=True)
    q = Query(prog, "Cell", "get_svg_classes")
    sv = "self.references[a].ref_cell.get_svg_classes()"

    def pair_post(q, g, case, v):
        s = strip(v)
        if s.op != "tuple" or len(s.args[0]) != 2:
            raise Give("result")
        for i, (x, exp) in enumerate(zip(s.args[0], (
            ["(self.polygons[a].layers[b], self.polygons[a].datatypes[b])", "(self.paths[a].layers[b], self.paths[a].datatypes[b])", sv + "[0][b]"],
            ["(self.labels[a].layer, self.labels[a].texttype)", sv + "[1][b]"],
        ))):
            compare(g, items(g, x, "list"), [(None, e, ()) for e in exp], "list", "Cell.get_svg_classes[%d]" % i, True)

    check_query(ctx, q, "Cell.get_svg_classes", "list", None, True, pair_post)
    for by in (False, True):
        q = Query(prog, "Cell", "area", by)
        names = ["self.%s[a].area(by_spec=%s)" % (a, by) for a in ("polygons", "paths", "references")]
        check_query(ctx, q, "Cell.area(by_spec=%s)" % by, "map" if by else "num", [(n + "@b" if by else None, "%s[%s@b]" % (n, n) if by else n, ()) for n in names])
    for rec in (False, True):
        q = Query(prog, "Cell", "get_dependencies", extra={"recursive": rec})
        exp = [(None, "self.references[a].ref_cell", ())]
        if rec:
            exp.append((None, "self.references[a].ref_cell.get_dependencies(recursive=True)[b]", ()))
        check_query(ctx, q, "Cell.get_dependencies(recursive=%s)" % rec, "list", exp, setlike=True)
    q = Query(prog, "Cell", "__iter__")
    check_query(ctx, q, "Cell.__iter__", "list", [(None, "self.%s[a]" % a, ()) for a in ("polygons", "paths", "labels", "references")])


def depths(ctx):
    ctx.rule("for every class of depths the references are queried with the depth reduced by one, or not at all")
    depth_queries(ctx, ["zero", "positive"])


FORWARDED = {"get_polygons": ("by_spec", "depth"), "get_polygonsets": ("depth",), "get_paths": ("depth",), "get_labels": ("depth", "set_transform")}


def live_calls(q, g):
    for e in q.res.effects:
        if e.kind == "mcall" and g.live(e.guards, [(x[0], x[1]) for x in e.loops]) is not None:
            yield e


def on_ref_cell(q, n):
    n = strip(n)
    return n.op == "attr" and n.args[1] == "ref_cell" and strip(n.args[0]) is q.self_node


def forward_one(ctx, cls, meth, ps, by, d):
    q = Query(ctx.prog, cls, meth, by, d)
    name = "%s.%s%s with %s depth" % (cls, meth, "(by_spec=%s)" % by if "by_spec" in ps else "", d)
    ctx.saw(q.it.functions_seen)
    good = [True]
    want = {"by_spec": {True: ("const", True), False: ("const", False)}.get(by, ("param", "by_spec")), "depth": ("const", None) if d == "None" else ("param", "depth"), "set_transform": ("param", "set_transform")}

    def one(case):
        g = q.gather(case)
        hits = 0
        for e in live_calls(q, g):
            if not on_ref_cell(q, e.recv):
                continue
            if e.name not in FORWARDED:
                continue
            try:
                t = g.canon(e.result, {})
            except Unknown as u:
                raise Give(str(u))
            if t[0] != "mcall":
                raise Give("call of " + e.name)
            kw = dict((x[1], x[2]) for x in t[3:] if x[0] == "kw")
            if e.name != meth:
                raise Give("%s asks for %s" % (name, e.name))
            hits += 1
            for p in ps:
                if kw.get(p) == want[p]:
                    continue
                if p == "by_spec" and by == "tuple" and kw.get(p) == ("const", True):
                    raise Give("filtered dictionary")
                raise Bad("%s: the referenced cell is asked with %s=%s instead of %s" % (name, p, render(kw.get(p, ("const", "?")), {}), render(want[p], {})), e.where)
        if not hits:
            raise Give("%s: no call on the referenced cell" % name)

    def guarded(case):
        try:
            one(case)
        except Bad as b:
            good[0] = False
            ctx.violation("depth", name, b.where or q.func.where, b.msg)
        except (Give, Unknown) as u:
            good[0] = False
            ctx.unknown("depth", q.func.where, "%s: %s" % (name, u))

    try:
        cases(q.it, guarded)
    except Give as u:
        good[0] = False
        ctx.unknown("depth", q.func.where, "%s: %s" % (name, u))
    if good[0]:
        ctx.ok("forwarded queries", name)


def forwarding(ctx):
    """what references ask of the referenced cell"""
    ctx.rule("references ask the referenced cell for the same collection, with the caller's by_spec, depth and set_transform")
    for cls in ("CellReference", "CellArray"):
        for meth, ps in sorted(FORWARDED.items()):
            for by in ((True, False, "tuple") if "by_spec" in ps else ("no",)):
                for d in ("None", "zero", "positive", "negative"):
                    forward_one(ctx, cls, meth, ps, by, d)


def corner(n, q, g, case):
    """(i, j) of an entry bb[i, j] of the bounding box of this cell"""
    n = strip(n)
    ix = []
    while n.op == "sub":
        k = strip(n.args[1])
        if k.op == "tuple":
            ix = list(k.args[0]) + ix
        else:
            ix = [k] + ix
        n = strip(n.args[0])
    if len(ix) != 2 or not all(strip(x).op == "const" and strip(x).args[1] in (0, 1, -1) for x in ix):
        raise Give("corner " + show(n, 4))
    t = g.canon(n, {})
    if t[0] != "mcall" or t[2] != "get_bounding_box" or t[1] != ("self",):
        raise Give("corner of " + show(n, 4))
    return tuple(strip(x).args[1] % 2 for x in ix)


def rectangle(n, q, g, case, name):
    n = strip(n)
    if n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray") and n.args[1]:
        n = strip(n.args[1][0])
    if n.op not in ("list", "tuple"):
        raise Give("rectangle " + show(n, 3))
    pts = []
    for p in n.args[0]:
        p = strip(p)
        if p.op not in ("tuple", "list") or len(p.args[0]) != 2:
            raise Give("corner")
        (i, j), (k, l) = corner(p.args[0][0], q, g, case), corner(p.args[0][1], q, g, case)
        if (j, l) != (0, 1):
            raise Bad("%s: a corner of the rectangle mixes x and y" % name, None)
        pts.append((i, k))
    if sorted(pts) != [(0, 0), (0, 1), (1, 0), (1, 1)]:
        raise Bad("%s: the rectangle has the corners %s of the bounding box" % (name, pts), None)
    for a, b in zip(pts, pts[1:]):
        if (a[0] != b[0]) + (a[1] != b[1]) != 1:
            raise Bad("%s: the outline of the bounding box crosses itself" % name, None)


def negative(ctx):
    """beyond the depth limit: the bounding box"""
    prog = ctx.prog
    for by in (True, False, "tuple"):
        q = Query(prog, "Cell", "get_polygons", by, "negative")
        q.boxless = None
        name = "Cell.get_polygons(by_spec=%s) with negative depth" % by

        def post(q, g, case, v, by=by, name=name):
            bbox = [e for e in q.res.effects if e.kind in ("mcall", "icall") and getattr(e, "name", None) == "get_bounding_box"]
            empty = False
            from ..interp import subnodes
            for cond, val in case_conditions(case):
                c = strip(cond)
                if c.op == "cmp" and c.args[0] == "is" and strip(c.args[2]).op == "const" and strip(c.args[2]).args[1] is None:
                    t = g.canon(c.args[1], {})
                    if t[0] == "mcall" and t[2] == "get_bounding_box":
                        empty = empty or val
            s = strip(v)
            if s.op == "const" or (s.op == "list" and by is True) or (s.op == "dict" and by is not True):
                raise Bad("%s returns %s" % (name, repr(s.args[1]) if s.op == "const" else "a " + s.op), None)
            if by == "tuple" or empty:
                its = items(g, v, "dict" if by is True else "list")
                its = [x for x in its if not (x.mode or "").startswith("init")]
                if its:
                    raise Bad("%s: %s although %s" % (name, its[0].text(), "the bounding box has no layer" if by == "tuple" else "there is no bounding box"), its[0].where)
                return
            cs = g.contribs(v, "dict" if by is True else "list")
            cs = [c for c in cs if not (c.mode or "").startswith("init")]
            if len(cs) != 1 or cs[0].loops or cs[0].guards:
                if not cs:
                    raise Bad("%s: nothing is returned for a cell with a bounding box" % name, None)
                raise Give("%d contributions" % len(cs))
            if by is True:
                k = render(g.canon(cs[0].key, {}), {})
                if k != "self.name":
                    raise Bad("%s: the rectangle is filed under %s instead of the name of the cell" % (name, k), cs[0].where)
            rectangle(cs[0].value, q, g, case, name)

        check_query(ctx, q, name, "dict", None, post=post, rule="depth")


def case_conditions(case):
    return list(case.dec)


STR_API = frozenset(dir(str))
EMPTY = {"get_polygons": "list", "get_polygonsets": "list", "get_paths": "list", "get_labels": "list"}


def uses_of_missing(q):
    """operations on a referenced cell that is only a name, reached in this pass"""
    from ..interp import subnodes
    out = []
    for e in q.res.effects:
        if e.kind in ("mcall", "icall") and e.data.get("recv") is not None:
            r = strip(e.recv)
            if r.op == "attr" and r.args[1] == "ref_cell" and e.name not in STR_API:
                out.append((e.where, "method " + e.name, e.func))
        if e.kind in ("store", "augattr"):
            o = strip(e.data["obj"])
            if o.op == "attr" and o.args[1] == "ref_cell":
                out.append((e.where, "attribute " + e.data["attr"], e.func))
    for n in list(q.it.table.values()):
        if n.op == "attr" and n.args[1] not in STR_API:
            o = strip(n.args[0])
            if o.op == "attr" and o.args[1] == "ref_cell":
                out.append((None, "attribute " + n.args[1], None))
    return out


def missing(ctx):
    """references to cells that are not in the library: only the name is known"""
    import ast
    prog = ctx.prog
    ctx.rule("with a name in place of the referenced cell, no operation of a cell is applied to it and the queries return empty results")
    rule = "missing cell"
    for cn in ("Cell", "CellReference", "CellArray"):
        c = prog.need_class(cn)
        for nm, f in sorted(c.methods.items()):
            if nm.startswith("_") and not nm.startswith("__") or nm == "__init__":
                continue
            variants = [dict(by_spec=b) for b in (True, False)] if "by_spec" in f.params() else [dict()]
            for v in variants:
                name = "%s.%s%s" % (cn, nm, "(by_spec=%s)" % v["by_spec"] if v else "")
                try:
                    q = Query(prog, cn, nm, v.get("by_spec", "no"), cells=False)
                except Give as u:
                    ctx.unknown(rule, f.where, "%s: %s" % (name, u))
                    continue
                ctx.saw(q.it.functions_seen)
                bad = uses_of_missing(q)
                tries = any(isinstance(x, ast.Try) for fn in q.it.functions_seen for x in ast.walk(fn.node))
                if bad:
                    if tries:
                        ctx.unknown(rule, f.where, "%s: exception handling" % name)
                        continue
                    for w, what, fn in bad:
                        ctx.violation(rule, name, w or f.where, "%s uses %s of the referenced cell although only its name is known" % (name, what))
                    continue
                if cn != "Cell" and (nm in EMPTY or nm in ("area", "get_bounding_box")):
                    empty_result(ctx, q, name, nm, v.get("by_spec"), rule)
                else:
                    ctx.ok("uses of referenced cells", name)
    for meth, expected in (
        ("get_layers", ["self.polygons[a].layers[b]", "self.paths[a].layers[b]", "self.labels[a].layer"]),
        ("get_datatypes", ["self.polygons[a].datatypes[b]", "self.paths[a].datatypes[b]"]),
        ("get_texttypes", ["self.labels[a].texttype"]),
        ("get_dependencies", []),
    ):
        q = Query(prog, "Cell", meth, cells=False)
        check_query(ctx, q, "Cell.%s with missing cells" % meth, "list", [(None, x, ()) for x in expected], setlike=True, rule=rule)


def empty_result(ctx, q, name, nm, by, rule):
    good = [True]

    def one(case):
        try:
            g = q.gather(case)
            for v, heap, gs in return_values(q.res, case):
                s = strip(v)
                if nm == "get_bounding_box":
                    if not (s.op == "const" and s.args[1] is None):
                        raise Bad("%s is not None for a missing cell" % name, None)
                elif nm == "area" and not by:
                    if s.op != "const":
                        raise Give("value " + show(s, 3))
                    if s.args[1] != 0:
                        raise Bad("%s is %r for a missing cell" % (name, s.args[1]), None)
                else:
                    if s.op == "const":
                        raise Bad("%s is %r for a missing cell" % (name, s.args[1]), None)
                    d = bool(by)
                    if (s.op == "list" and d) or (s.op == "dict" and not d):
                        raise Bad("%s is a %s for a missing cell" % (name, s.op), None)
                    if s.op == "call" and s.args[0] in ("list", "dict", "set") and not s.args[1]:
                        if (s.args[0] == "dict") != d:
                            raise Bad("%s is a %s for a missing cell" % (name, s.args[0]), None)
                        continue
                    its = items(g, v, "dict" if d else "list")
                    if [x for x in its if not (x.mode or "").startswith("init")]:
                        raise Bad("%s is not empty for a missing cell" % name, None)
        except Bad as b:
            good[0] = False
            ctx.violation(rule, name, b.where or q.func.where, b.msg)
        except (Give, Unknown) as u:
            good[0] = False
            ctx.unknown(rule, q.func.where, "%s: %s" % (name, u))

    try:
        cases(q.it, one)
    except Give as u:
        good[0] = False
        ctx.unknown(rule, q.func.where, "%s: %s" % (name, u))
    if good[0]:
        ctx.ok("uses of referenced cells", name)
