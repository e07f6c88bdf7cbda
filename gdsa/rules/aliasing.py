"""Side effects and aliasing: who may change which object (C20, C21)."""
import re

from ..interp import Interp, show
from ..flow import strip
from ..alias import Alias, DEEP, MUTATORS, ARRAYS, LISTS, root

QUERY = re.compile(r"^(get_.*|to_.*|write_.*|area|copy|__str__|__repr__|__call__|__len__|__iter__|grad|width|top_level|boolean|offset|slice|inside|gdsii_hash|extract)$")
FLUENT = ("translate", "rotate", "scale", "transform", "fracture", "fillet", "mirror")
# documented exceptions: the argument is there to be changed
GIVEN = {("gdsii_hash", "engine"), ("GdsLibrary.rename_cell", "cell")}
GLOBALS = ("current_library",)


def calls(n, al):
    """labels of what a call that was not interpreted returns"""
    if n.op == "mcall":
        nm = n.args[1]
    else:
        f = n.args[0]
        nm = f.name if hasattr(f, "name") else str(f)
    if nm.startswith("get_") or nm.startswith("to_") or "clipper." in nm or nm in ("boolean", "offset", "slice", "area"):
        return [DEEP]   # shown for each of them
    if n.op == "call" and not isinstance(n.args[0], str) or nm == "__call__":
        return [DEEP]   # what a function supplied by the caller returns is handed over
    return None


class FunRun(object):
    def __init__(self, prog, f):
        self.f = f
        it = self.it = Interp(prog)
        ps = f.params()
        self.method = f.cls is not None and f.kind != "static"
        self.me = it.mk("param", ps[0]) if self.method and ps else None
        self.res = it.run(f, self_cls=f.cls, args={p: it.mk("param", p) for p in (ps[1:] if self.method else ps)}, self_node=self.me)
        self.al = Alias(it, self.res, calls, FLUENT, lambda n: immutable(f, n), lambda n: scalars(f, n), self.forms)
        self.prog = prog
        self.attrs = attr_forms(prog)


    def forms(self, n):
        if n.op == "attr":
            if self.me is not None and n.args[0] is self.me:
                out = set()
                for c in self.f.cls.mro():
                    out |= self.attrs.get((c, n.args[1]), set())
                if out == {"array"} or out == {"list"}:
                    return out.pop()
                return "other" if out else None
            return None
        if n.op in ("gconst", "classattr") and n.info and n.info.get("ast") is not None:
            return form_of(n.info["ast"])
        return None


def form_of(v):
    import ast as _ast
    if isinstance(v, _ast.Call):
        fn = v.func
        if isinstance(fn, _ast.Attribute) and isinstance(fn.value, _ast.Name) and fn.value.id in ("numpy", "np"):
            return "array" if fn.attr in ("array", "asarray", "asanyarray", "ascontiguousarray", "zeros", "ones", "empty", "vstack", "hstack", "concatenate", "linspace", "arange", "full", "zeros_like", "ones_like", "empty_like", "stack", "column_stack") else "other"
        return "list" if isinstance(fn, _ast.Name) and fn.id in ("list", "sorted") else "other"
    if isinstance(v, (_ast.List, _ast.ListComp)):
        return "list"
    if isinstance(v, _ast.BinOp):
        l, r = form_of(v.left), form_of(v.right)
        if "list" in (l, r) and isinstance(v.op, (_ast.Mult, _ast.Add)):
            return "list"
        return "array" if "array" in (l, r) else "other"
    if isinstance(v, _ast.IfExp):
        l, r = form_of(v.body), form_of(v.orelse)
        return l if l == r else "other"
    if isinstance(v, _ast.Constant) and v.value is None:
        return None
    return "other"


def attr_forms(prog):
    """(class, attribute) -> forms of the values stored by the methods of the class"""
    import ast as _ast
    if hasattr(prog, "_attr_forms"):
        return prog._attr_forms
    out = {}
    for f in prog.all_functions():
        if f.cls is None or f.kind == "static" or not f.params():
            continue
        me = f.params()[0]
        for nd in _ast.walk(f.node):
            if isinstance(nd, _ast.Assign):
                for t in nd.targets:
                    if isinstance(t, _ast.Attribute) and isinstance(t.value, _ast.Name) and t.value.id == me:
                        v = form_of(nd.value)
                        # values computed from others do not tell the form
                        if v == "other" and f.name != "__init__":
                            continue
                        if v is not None:
                            out.setdefault((f.cls, t.attr), set()).add(v)
    prog._attr_forms = out
    return out


def runs(ctx):
    prog = ctx.prog
    if not hasattr(prog, "_alias_runs"):
        out = []
        for f in sorted(prog.all_functions(), key=lambda f: (f.module.name, f.qualname)):
            if f.module.name.endswith("viewer"):
                continue
            try:
                out.append((f, FunRun(prog, f)))
            except Exception as e:
                out.append((f, e))
        prog._alias_runs = out
    return prog._alias_runs


def private(f):
    n = f.name
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__"))


def doc_type(f, name):
    """the type the documentation gives for a parameter"""
    doc = ""
    import ast as _ast
    for nd in (f.node, f.cls.node if f.cls is not None and f.name == "__init__" else None):
        if nd is not None:
            doc += "\n" + (_ast.get_docstring(nd) or "")
    for line in doc.split("\n"):
        m = re.match(r"^\s*([\w*, ]+?)\s*:\s*(\S.*)$", line)
        if m and name in [x.strip().lstrip("*") for x in m.group(1).split(",")]:
            return m.group(2)
    return ""


CHANGERS = ("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.put_along_axis", "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle", "setattr", "delattr",
            "heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort", "operator.iadd", "operator.imul", "operator.isub", "operator.setitem", "operator.delitem")
PLAIN = ("layers", "datatypes", "layer", "datatype", "texttype", "text", "name", "properties", "ends", "corners", "anchor", "rotation", "magnification", "x_reflection", "columns", "rows")


def plain(n):
    """a string or a number"""
    n = strip(n)
    if n.op == "attr":
        return n.args[1] in PLAIN
    return n.op in ("const", "fstr", "fmt") or n.op == "mcall" and n.args[1] in ("format", "join", "strip", "replace", "translate") and plain(n.args[0])


SCALAR = ("layer", "datatype", "texttype", "text", "name", "anchor", "rotation", "magnification", "x_reflection", "columns", "rows")
SCALARS = ("layers", "datatypes", "properties", "ends", "corners")


def immutable(f, n):
    """numbers and strings, by attribute name or documentation"""
    if n.op == "attr":
        return n.args[1] in SCALAR
    if n.op == "param" and f is not None:
        t = doc_type(f, n.args[0])
        return bool(re.match(r"(integer|number|float|string|bool)", t)) and not re.search(r"list|array|tuple|dict|iterable|sequence", t)
    return False


def scalars(f, n):
    """containers of numbers and strings: what is in them needs no copy"""
    if n.op == "attr":
        return n.args[1] in SCALARS
    if n.op == "param" and f is not None:
        return bool(re.match(r"(integer|number|float|string)", doc_type(f, n.args[0])))
    return False


def targets(r):
    """(effect, object changed, description)"""
    for e in r.res.effects:
        if e.kind in ("store", "augattr", "delattr"):
            yield e, e.obj, "attribute " + str(e.attr)
            if e.kind == "augattr" and e.data.get("old") is not None and in_place(r, e.old) is True:
                yield e, e.old, "contents (in place)"
        elif e.kind in ("storeitem", "delitem"):
            yield e, e.obj, "items"
        elif e.kind == "aug":
            o = e.data.get("obj")
            if o is not None and hasattr(o, "op"):
                yield e, o, "contents (in place)"
        elif e.kind == "mcall" and e.name in MUTATORS:
            yield e, e.recv, "contents (%s)" % e.name
        elif e.kind == "call" and isinstance(e.target, str):
            if e.target in CHANGERS and e.args:
                yield e, e.args[0], "contents (%s)" % e.target
            for k, v in (e.kwargs or ()):
                if k == "out" and e.target.startswith("numpy."):
                    for x in (strip(v).args[0] if strip(v).op == "tuple" else (v,)):
                        if not (x.op == "const" and x.args[-1] is None):
                            yield e, x, "contents (%s)" % e.target


def in_place(r, o, depth=0):
    """does `x op= y` change the object x denotes?  True / False / None"""
    s = strip(o)
    if r.al.arrayish(s) or r.al.listy(s):
        return True
    if s.op == "param":
        t = doc_type(r.f, s.args[0])
        if re.search(r"array|list|dict|tuple|set\b|iterable", t) and not re.search(r"number|integer|float", t):
            return True
        if re.search(r"number|integer|float|bool|string|str\b", t):
            return False
        return None
    if s.op == "elem":
        b = strip(s.args[0])
        if b.op == "attr" and b.args[1] in LISTS + ARRAYS:
            return b.args[1] in ("polygons",) + ARRAYS
    if s.op == "loopv" and depth < 3:
        i = s.info or {}
        return i.get("init") is not None and in_place(r, i["init"], depth + 1)
    if s.op in ("ite", "phi") and depth < 3:
        return any(in_place(r, x, depth + 1) for x in (s.args[0] if s.op == "phi" else s.args[1:])) or False
    return False


def mutating(ctx):
    """names of methods of the package that change their object"""
    prog = ctx.prog
    if hasattr(prog, "_alias_mut"):
        return prog._alias_mut
    out = set()
    for f, r in runs(ctx):
        if isinstance(r, Exception) or r.me is None or f.name.startswith("_") or QUERY.match(f.name):
            continue
        for e, o, what in targets(r):
            if e.kind == "aug" and in_place(r, o) is not True:
                continue
            if e.kind == "store" and str(e.attr).startswith("_"):
                continue
            if any(l[0] == "old" and root(l[1]) is r.me for l in r.al.obj(o)):
                out.add(f.name)
                break
    prog._alias_mut = out - {"write"}
    return prog._alias_mut


def compacting(r, e):
    """self.x = self.x[selection]: repeated points are dropped"""
    v = strip(e.value)
    for _ in range(4):
        if v.op == "sub":
            v = strip(v.args[0])
        elif v.op == "call" and v.args[0] in ("numpy.take", "numpy.compress", "numpy.delete", "numpy.array") and v.args[1]:
            v = strip(v.args[1][-1] if v.args[0] == "numpy.compress" else v.args[1][0])
        else:
            break
    return v.op == "attr" and v.args[0] is strip(e.obj) and v.args[1] == e.attr or v.op in ("ite", "phi", "loopv") and all(strip(x).op == "attr" for x in ())


def side_effects(ctx):
    """arguments, operands and shared tables are never modified"""
    ctx.rule("no function changes an object it was given as an argument; queries, exports and boolean operations change no object that existed before the call, private caches excepted; no function changes a module or class level table")
    ctx.assume("functions supplied by the caller hand over the objects they return; gdspy.current_library is the documented registry of cells; the hash engine given to gdsii_hash and the cell given to rename_cell are there to be changed; dropping repeated points of a path keeps its geometry")
    mut = mutating(ctx)
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("side effects", f.where, "%s: %s" % (f.qualname, r))
            continue
        ctx.saw(r.it.functions_seen)
        if private(f):
            continue
        query = bool(QUERY.match(f.name)) and not (f.cls is not None and f.name == "__init__")
        n = bad = 0
        todo = list(targets(r))
        for e in r.res.effects:
            if e.kind == "mcall" and e.name in mut and e.name not in MUTATORS and not plain(e.recv):
                todo.append((e, e.recv, "contents (%s)" % e.name))
        for e, o, what in todo:
            n += 1
            for l in sorted(r.al.obj(o), key=repr):
                if l == DEEP or l[0] == "fresh":
                    continue
                if l[0] == "?":
                    if e.kind != "aug":
                        ctx.unknown("side effects", e.where, "%s: %s of %s" % (f.qualname, what, show(l[1], 3)))
                    continue
                base = root(l[1])
                if e.kind == "aug" and base is not r.me:
                    ip = in_place(r, o)
                    if ip is None:
                        ctx.unknown("side effects", e.where, "%s: %s" % (f.qualname, show(o, 3)))
                    if ip is not True:
                        continue
                if e.kind == "aug" and base is r.me and in_place(r, o) is not True:
                    continue
                if base.op == "param":
                    if base is r.me:
                        if not query or f.name == "__init__":
                            continue
                        if e.kind in ("store", "augattr") and str(e.attr).startswith("_") or cache(l[1]):
                            continue
                        if e.kind == "store" and compacting(r, e):
                            continue
                        bad += 1
                        ctx.violation("side effects", "%s: %s" % (f.qualname, text(l[1])), e.where, "%s changes the %s of %s, which it should only read" % (f.qualname, what, text(l[1])))
                    elif (f.qualname, base.args[0]) not in GIVEN:
                        if e.kind in ("store", "augattr") and str(e.attr).startswith("_"):
                            continue
                        bad += 1
                        ctx.violation("side effects", "%s: argument %s" % (f.qualname, base.args[0]), e.where, "%s changes the %s of its argument %s" % (f.qualname, what, text(l[1])))
                elif base.op in ("gconst", "classattr"):
                    if base.args[-1] in GLOBALS or base.args[0] in GLOBALS:
                        continue
                    bad += 1
                    ctx.violation("side effects", "%s: %s" % (f.qualname, text(base)), e.where, "%s changes the %s of %s, which all calls share" % (f.qualname, what, text(l[1])))
                else:
                    ctx.unknown("side effects", e.where, "%s: %s of %s" % (f.qualname, what, show(l[1], 3)))
        if not bad:
            ctx.ok("functions without unwanted side effects", "%s: %d changes of objects examined" % (f.qualname, n))
    kept(ctx)


def cache(n):
    """inside a private attribute of the object"""
    n = strip(n)
    for _ in range(8):
        if n.op == "attr" and str(n.args[1]).startswith("_"):
            return True
        if n.op in ("attr", "elem", "sub", "mcall") and hasattr(n.args[0], "op"):
            n = strip(n.args[0])
        else:
            return False
    return False


def text(n):
    return show(n, 4).replace("gconst<", "<").replace("classattr<", "<")


def kept(ctx):
    """attributes that hold an argument (or a default value) of a method and are
    changed in place by some method"""
    ctx.rule("an attribute that may hold the very list or array passed to a method is never changed in place; no default value of a parameter is changed or kept")
    holds, changes = {}, {}
    for f, r in runs(ctx):
        if isinstance(r, Exception) or private(f):
            continue   # seen in the functions that call them
        mutable = mutable_defaults(f)
        for p in mutable:
            for e, o, what in targets(r):
                if any(l[0] == "old" and strip(l[1]).op == "param" and strip(l[1]).args[0] == p for l in r.al.obj(o)) and (e.kind != "aug" or in_place(r, o)):
                    ctx.violation("kept arguments", "%s: default %s" % (f.qualname, p), e.where, "%s changes the default value of %s" % (f.qualname, p))
        if f.cls is None or r.me is None:
            continue
        fin = {}
        for g, st, v in r.res.returns or ():
            for (o, a), val in st.heap.items():
                if o is r.me and isinstance(a, str) and not a.startswith("$"):
                    fin.setdefault(a, []).append(val)
        for a, vals in fin.items():
            for v in vals:
                for l in r.al.obj(v):
                    b = strip(l[1]) if l[0] == "old" else None
                    if b is not None and b.op == "param" and b is not r.me:
                        holds.setdefault((f.cls, a), []).append((f, b.args[0]))
                        if b.args[0] in mutable:
                            ctx.violation("kept arguments", "%s: default %s" % (f.qualname, b.args[0]), f.where, "%s keeps the default value of %s in %s, so all objects share it" % (f.qualname, b.args[0], a))
                    elif b is not None and b.op in ("gconst", "classattr") and isinstance(r.it.literal(b), (list, dict, set)):
                        holds.setdefault((f.cls, a), []).append((f, text(b)))
        for e, o, what in targets(r):
            if what.startswith("attribute"):
                continue
            if e.kind == "aug" and in_place(r, o) is not True:
                continue
            for l in r.al.obj(o):
                if l[0] != "old":
                    continue
                b = strip(l[1])
                if b.op == "attr" and b.args[0] is r.me:
                    changes.setdefault((f.cls, b.args[1]), []).append((f, e.where, what))
    bad = set()
    for (c, a), who in sorted(holds.items(), key=lambda x: (x[0][0].name, x[0][1])):
        for (d, b), ch in changes.items():
            if a != b or not (d is c or d.issub(c) or c.issub(d)):
                continue
            g, p = who[0]
            h, where, what = ch[0]
            t = doc_type(g, p)
            if t and not re.search(r"list|array|dict|iterable|sequence|tuple|set\b|points", t):
                continue
            bad.add((c, a))
            ctx.violation("kept arguments", "%s.%s" % (c.name, a), where, "%s keeps its argument %s as %s, which %s then changes in place" % (g.qualname, p, a, h.qualname))
    for k in changes:
        if k not in bad:
            ctx.ok("attributes changed in place", "%s.%s never is an argument of the caller" % (k[0].name, k[1]))


def mutable_defaults(f):
    import ast as _ast
    a = f.node.args
    out = set()
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if isinstance(d, (_ast.List, _ast.Dict, _ast.Set, _ast.ListComp, _ast.DictComp)) or isinstance(d, _ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) in ("list", "dict", "set", "array", "zeros", "ones", "empty"):
            out.add(p.arg)
    return out


# -- results are the caller's own ------------------------------------------------

RESULTS = (
    ("Cell", ("get_polygons", "get_polygonsets", "get_paths", "get_labels", "get_layers", "get_datatypes", "get_texttypes", "get_svg_classes", "get_bounding_box")),
    ("CellReference", ("get_polygons", "get_polygonsets", "get_paths", "get_labels", "get_bounding_box")),
    ("CellArray", ("get_polygons", "get_polygonsets", "get_paths", "get_labels", "get_bounding_box")),
    ("FlexPath", ("get_polygons", "to_polygonset")),
    ("RobustPath", ("get_polygons", "to_polygonset", "__call__", "grad")),
    ("PolygonSet", ("get_bounding_box",)),
    ("Curve", ("get_points",)),
    (None, ("boolean", "offset", "slice", "copy")),
)


def results(ctx):
    ctx.rule("nothing in the result of a query - list, dictionary, arrays, polygon sets, paths or labels - is an object that existed before the call")
    ctx.assume("get_* queries of referenced cells and of paths return new objects (shown here for each of them); the clipper module returns new lists; strings, numbers and property values are immutable")
    by = dict((f.qualname, (f, r)) for f, r in runs(ctx))
    for cn, names in RESULTS:
        for nm in names:
            q = nm if cn is None else None
            if cn is not None:
                c = ctx.prog.need_class(cn)
                fi = c.find_method(nm)
                if fi is None:
                    ctx.unknown("own results", cn, "no method " + nm)
                    continue
                q = (fi[0] if isinstance(fi, tuple) else fi).qualname
            if q not in by:
                ctx.unknown("own results", q, "not found")
                continue
            f, r = by[q]
            if isinstance(r, Exception):
                ctx.unknown("own results", f.where, "%s: %s" % (q, r))
                continue
            ctx.saw(r.it.functions_seen)
            state = "ok"
            for g, st, v in r.res.returns or ():
                for k, labels in enumerate(r.al.deep(v, 3)):
                    for l in sorted(labels, key=repr):
                        if l[0] == "old":
                            state = "bad"
                            ctx.violation("own results", "%s: %s" % (q, text(l[1])), f.where, "%s of %s is %s itself, not a copy" % (("part of the result" if k else "the result"), q, text(l[1])))
                        elif l[0] == "?" and state == "ok":
                            state = "?"
                            ctx.unknown("own results", f.where, "%s: %s" % (q, show(l[1], 3)))
            if state == "ok":
                ctx.ok("results that are the caller's own", q)
