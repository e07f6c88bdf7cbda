"""The polygons cached by paths are never stale or incomplete (C23)."""
from ..interp import show, subnodes
from ..flow import strip
from ..alias import DEEP, MUTATORS
from . import aliasing, traverse
from .aliasing import runs, private, targets, in_place, compacting, QUERY
from .traverse import Query, compare
from .copies import whole
from .geometry import Give, Bad, cases, return_values
from ..gather import Unknown, items

PATHS = ("FlexPath", "RobustPath")
COMPUTE = ("get_polygons", "to_polygonset", "area", "to_gds", "to_svg", "get_bounding_box")


def store_of(e):
    return e.kind == "store"


def cache_attr(r, me):
    """the attribute whose value get_polygons returns and stores"""
    names = {}
    for e in r.res.effects:
        if e.kind == "store" and strip(e.obj) is me and str(e.attr).startswith("_"):
            names.setdefault(e.attr, []).append(e)
    return names


def read_attrs(r, me, skip):
    out = set()
    todo = list(r.it.table.values()) if isinstance(r.it.table, dict) else list(r.it.table)
    for n in todo:
        if n.op == "attr" and n.args[0] is me and n.args[1] not in skip and not str(n.args[1]).startswith("_"):
            out.add(n.args[1])
    return out


def under(n, me, attrs):
    """the attribute of `me` (one of attrs) through which n is reached"""
    n = strip(n)
    for _ in range(30):
        if n.op == "attr" and n.args[0] is me:
            return n.args[1] if n.args[1] in attrs else None
        if n.op in ("attr", "elem", "sub", "mcall") and hasattr(n.args[0], "op"):
            n = strip(n.args[0])
        else:
            return None
    return None


def path_element(o, depth=0):
    """o is an element of the paths of a cell: True / False / None"""
    o = strip(o)
    if depth > 6:
        return None
    if o.op in ("phi", "ite"):
        vs = [path_element(x, depth + 1) for x in (o.args[0] if o.op == "phi" else o.args[1:])]
        return True if any(v is True for v in vs) else (None if None in vs else False)
    if o.op in ("elem", "sub"):
        return path_list(o.args[0], depth + 1)
    return False


def path_list(c, depth=0):
    c = strip(c)
    if depth > 8:
        return None
    if c.op == "attr":
        return c.args[1] == "paths"
    if c.op == "mcall":
        return c.args[1] == "get_paths"
    if c.op == "call" and c.args[0] in ("list", "tuple", "reversed", "iter", "enumerate", "itertools.chain", "zip", "copy.copy", "copy.deepcopy", "sorted"):
        vs = [path_list(x.args[0] if x.op == "star" else x, depth + 1) for x in c.args[1]]
        return True if True in vs else (None if None in vs else False)
    if c.op in ("elem",):
        return path_list(c.args[0], depth + 1)
    if c.op == "bin" and c.args[0] == "+":
        vs = [path_list(x, depth + 1) for x in c.args[1:]]
        return True if True in vs else (None if None in vs else False)
    if c.op in ("tuple", "list"):
        vs = [path_list(x.args[0] if x.op == "star" else x, depth + 1) for x in c.args[0]]
        return True if True in vs else (None if None in vs else False)
    if c.op in ("ite",):
        vs = [path_list(x, depth + 1) for x in c.args[1:]]
        return True if True in vs else (None if None in vs else False)
    if c.op == "comp":
        return path_element(c.args[1], depth + 1)
    return False


def is_none(v):
    return v is not None and v.op == "const" and v.args[-1] is None


def stale(ctx):
    ctx.rule("every change of anything get_polygons of a path reads is accompanied, on the same path through the function, by discarding the cached polygons of the same path, with no recalculation in between")
    ctx.assume("dropping repeated points in to_gds does not change the polygons; functions supplied by the caller do not query the path under construction; attributes changed by users directly are outside the interface")
    by = dict((f.qualname, (f, r)) for f, r in runs(ctx))
    slots, reads = set(), {}
    for cn in PATHS:
        c = ctx.prog.need_class(cn)
        f, r = by[c.find_method("get_polygons").qualname]
        if isinstance(r, Exception):
            ctx.unknown("path caches", f.where, str(r))
            continue
        caches = cache_attr(r, r.me)
        slots |= set(caches)
        reads[cn] = (c, read_attrs(r, r.me, caches), set(caches))
    if not reads:
        return
    every = set().union(*[x[1] for x in reads.values()])
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("path caches", f.where, "%s: %s" % (f.qualname, r))
            continue
        ctx.saw(r.it.functions_seen)
        if private(f):
            continue
        mine = None
        if f.cls is not None and r.me is not None:
            for cn, (c, attrs, caches) in reads.items():
                if f.cls is c or f.cls.issub(c):
                    mine = (attrs, caches)
        query = bool(QUERY.match(f.name))
        if query and mine and f.name in ("get_polygons",):
            continue
        hits = []
        fresh = set(strip(e.data.get("result")) for e in r.res.effects if e.kind == "new" and e.data.get("result") is not None)
        for e, o, what in targets(r):
            if e.kind in ("store", "augattr", "delattr") and what.startswith("attribute"):
                so = strip(o)
                if mine and so is r.me:
                    if e.attr in mine[0]:
                        if query and e.kind == "store" and compacting(r, e):
                            continue
                        hits.append((e, r.me, e.attr))
                    continue
                if e.attr in every and so not in fresh:
                    p = path_element(so)
                    if p is None:
                        ctx.unknown("path caches", e.where, "%s: %s of %s" % (f.qualname, e.attr, show(so, 3)))
                    elif p and not mine:
                        hits.append((e, so, e.attr))
                        continue
            if mine:
                for l in r.al.obj(o):
                    if l[0] == "old":
                        a = under(l[1], r.me, mine[0])
                        if a:
                            if e.kind == "aug" and in_place(r, o) is not True:
                                continue
                            hits.append((e, r.me, a))
                            break
            elif what.startswith("contents") or what == "items":
                s = strip(o)
                if s.op == "attr" and s.args[1] in every and path_element(s.args[0]):
                    hits.append((e, strip(s.args[0]), s.args[1]))
        if mine:
            for e in r.res.effects:
                if e.kind == "mcall" and e.name in ("translate", "rotate", "scale", "transform", "mirror"):
                    for l in r.al.obj(e.recv):
                        if l[0] == "old" and under(l[1], r.me, mine[0]):
                            hits.append((e, r.me, under(l[1], r.me, mine[0])))
                            break
        if hits:
            judge(ctx, f, r, hits, mine[1] if mine else slots)
    complete(ctx, by, reads)


def judge(ctx, f, r, hits, slots):
    order = dict((id(e), i) for i, e in enumerate(r.res.effects))
    resets, fills = [], []
    for e in r.res.effects:
        if e.kind == "store" and e.attr in slots:
            (resets if is_none(e.value) else fills).append((e, strip(e.obj)))
        elif e.kind == "mcall" and e.name in COMPUTE:
            fills.append((e, strip(e.recv)))
    seen = {}
    for e, o, what in hits:
        gs = set((c, p) for c, p in e.guards)
        state = None
        i = order[id(e)]
        for x, xo in resets:
            if xo is not o:
                se = same_elements(r, xo, o)
                if se is None:
                    state = state or "other"
                elif se and not [1 for c, p in x.guards if (c, p) not in gs and not any(n is se for n in subnodes(c))] and (order[id(x)] > i or not any(order[id(x)] < order[id(fe)] < i for fe, fo in fills)):
                    state = "ok"
                    break
                elif se:
                    state = state or "cond"
                if xo.op in ("phi", "ite") or o.op in ("phi", "ite"):
                    state = state or "other"
                continue
            j = order[id(x)]
            if j < i and any(fo is o and j < order[id(fe)] < i for fe, fo in fills):
                state = state or "refilled"
                continue
            extra = [(c, p) for c, p in x.guards if (c, p) not in gs]
            if extra:
                state = state or "cond"
                continue
            if [l[0] for l in x.loops] == [l[0] for l in e.loops][:len(x.loops)]:
                state = "ok"
                break
            state = state or "loop"
        seen.setdefault((id(o), what), []).append((e, o, what, state))
    for key, rows in seen.items():
        bad = [x for x in rows if x[3] != "ok"]
        if not bad:
            ctx.ok("changes of paths that discard the cached polygons", "%s: %s" % (f.qualname, rows[0][2]))
            continue
        e, o, what, state = bad[0]
        name = "%s: %s" % (f.qualname, what)
        if state == "other":
            ctx.unknown("path caches", e.where, name)
        elif state == "cond":
            cover = [x for x, xo in resets if xo is o]
            if len(cover) > 1:
                ctx.unknown("path caches", e.where, name)
            else:
                ctx.violation("path caches", name, e.where, "%s changes %s of a path but discards its cached polygons only under further conditions" % (f.qualname, what))
        elif state == "loop":
            ctx.violation("path caches", name, e.where, "%s changes %s of a path but discards its cached polygons only inside a loop that may not run" % (f.qualname, what))
        elif state == "refilled":
            ctx.violation("path caches", name, e.where, "%s recalculates the polygons of a path before it changes %s" % (f.qualname, what))
        else:
            ctx.violation("path caches", name, e.where, "%s changes %s of a path but keeps its cached polygons" % (f.qualname, what))


def same_elements(r, a, b):
    """a is every element of the collection b is an element of, in turn: the loop
    key (or the element itself); False if it is not, None if not understood"""
    a, b = strip(a), strip(b)
    if a.op not in ("elem", "sub") or b.op not in ("elem", "sub"):
        return False
    c = strip(b.args[0])
    if b.op == "sub" and c.op == "elem":
        e = strip(c.args[0])
        if e.op == "call" and e.args[0] == "enumerate" and e.args[1]:
            c = strip(e.args[1][0])
    try:
        for _ in range(4):
            if whole(r, None, a, c):
                return strip(a.args[1]) if a.op == "sub" else a
            if c.op == "call" and c.args[0] in ("list", "tuple", "iter", "reversed") and c.args[1]:
                c = strip(c.args[1][0])
            else:
                return False
    except Give:
        return None


# -- what is cached -------------------------------------------------------------


def complete(ctx, by, reads):
    ctx.rule("the polygons are cached only once complete, whatever form was asked for; what is returned from the cache is all of it, keyed by specification or as one list")
    for cn, (c, attrs, caches) in sorted(reads.items()):
        f, r = by[c.find_method("get_polygons").qualname]
        by_spec = [p for p in f.params()[1:]]
        order = dict((id(e), i) for i, e in enumerate(r.res.effects))
        for slot in sorted(caches):
            good = True
            for e in r.res.effects:
                if e.kind != "store" or e.attr != slot or strip(e.obj) is not r.me or is_none(e.value):
                    continue
                v = strip(e.value)
                dep = [n for n in subnodes(v) if n.op == "param" and n.args[0] in by_spec]
                late = []
                for u, recv, vals in r.al.updates():
                    if not touches(r, recv, v, slot):
                        continue
                    if order[id(u)] > order[id(e)]:
                        late.append(u)
                    if any(n.op == "param" and n.args[0] in by_spec for g, p in u.guards for n in subnodes(g)):
                        dep.append(u)
                if dep:
                    good = False
                    ctx.violation("path caches", "%s.get_polygons: form" % cn, e.where, "what %s caches depends on the form of the result that was asked for" % f.qualname)
                if late:
                    good = False
                    ctx.violation("path caches", "%s.get_polygons: incomplete" % cn, e.where, "%s caches its polygons before they are complete (added at %s): after an error, the next call returns those calculated so far" % (f.qualname, late[0].where))
            if good:
                ctx.ok("caches filled only when complete", "%s.%s" % (cn, slot))
        for form in (True, False):
            served(ctx, cn, form, caches)


def touches(r, recv, v, slot):
    """recv may be the cached dictionary or one of its lists"""
    x = strip(recv)
    for _ in range(6):
        if x is v:
            return True
        if x.op == "attr" and x.args[0] is r.me and x.args[1] == slot:
            return True
        if x.op in ("sub", "elem") or x.op == "mcall" and x.args[1] in ("get", "setdefault", "values", "items"):
            x = strip(x.args[0])
        elif x.op == "loopv" and (x.info or {}).get("init") is not None:
            x = strip(x.info["init"])
        else:
            return False
    return False


class Served(Query):
    def __init__(self, prog, cn, form, caches):
        self.caches = caches
        Query.__init__(self, prog, cn, "get_polygons", form)

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] in ("is", "=="):
            a, b = strip(c.args[1]), strip(c.args[2])
            for x, y in ((a, b), (b, a)):
                if x.op == "attr" and x.args[0] is self.self_node and x.args[1] in self.caches and is_none(y):
                    return False
        if c.op == "attr" and c.args[0] is self.self_node and c.args[1] in self.caches:
            return True
        return Query.assume(self, c, st)


def served(ctx, cn, form, caches):
    q = Served(ctx.prog, cn, form, caches)
    name = "%s.get_polygons(by_spec=%s)" % (cn, form)
    ctx.saw(q.it.functions_seen)
    state = [True]

    def one(case):
        try:
            g = q.gather(case)
            rv = return_values(q.res, case)
            if not rv:
                raise Give("no return")
            for v, heap, gs in rv:
                slot = sorted(caches)[0]
                k = "self.%s@a" % slot
                compare(g, items(g, v, "dict" if form else "list"), [(k if form else None, "self.%s[%s][b]" % (slot, k), ())], "dict" if form else "list", name)
        except Bad as b:
            state[0] = False
            ctx.violation("path caches", name, b.where or q.func.where, b.msg)
        except (Give, Unknown) as u:
            state[0] = False
            ctx.unknown("path caches", q.func.where, "%s: %s" % (name, u))
    try:
        cases(q.it, one)
    except Give as u:
        state[0] = False
        ctx.unknown("path caches", q.func.where, "%s: %s" % (name, u))
    if state[0]:
        ctx.ok("results served from the cache", name)
