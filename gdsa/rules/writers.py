"""Rules over the GDSII stream writers (framing, grammar, content, scaling)."""
from ..interp import Interp, Node, show, subnodes, walk_tree
from ..model import AnalysisBroken
from ..stream import Streams, Rec, Loop, Raw, Elem, recname, REC
from ..lin import Facts, Fork
from ..poly import Poly, Polyer
from ..flow import value_nodes, self_attrs, params_of, indices_on, covers, strip, base_of

ELEMENT_CLASSES = ["PolygonSet", "FlexPath", "RobustPath", "Label", "CellReference", "CellArray"]
START = {0x0800: "BOUNDARY", 0x0900: "PATH", 0x0C00: "TEXT", 0x0A00: "SREF", 0x0B00: "AREF"}
KIND = {
    "PolygonSet": {"BOUNDARY"}, "FlexPath": {"PATH", "nested"}, "RobustPath": {"PATH", "nested"},
    "Label": {"TEXT"}, "CellReference": {"SREF"}, "CellArray": {"AREF"},
}


class Writer(object):
    def __init__(self, prog, cls, func):
        self.cls = cls
        self.func = func
        self.it = Interp(prog, inline=policy)
        self.res = self.it.run(func, self_cls=cls)
        ps = func.params()
        self.self_node = self.it.mk("param", ps[0])
        self.params = [self.it.mk("param", x) for x in ps[1:]]
        self.streams = Streams(self.it)
        self.paths = self.streams.run(self.res.tree)
        self.name = "%s.%s" % (cls.name, func.name)

    def each_seq(self):
        """every straight sequence of items with its facts: (items, facts, loops)"""
        def rec(path, loops):
            yield path.items, path.facts, loops
            for i in path.items:
                if isinstance(i, Loop):
                    for b in i.bodies:
                        for x in rec(b, loops + (i,)):
                            yield x
        for p in self.paths:
            for x in rec(p, ()):
                yield x


def policy(f, it):
    if "eight_byte_real" in f.name:
        return False
    if f.name in ("to_polygonset", "get_polygons"):
        return False
    return None


_CACHE = {}


def writers(prog):
    if prog in _CACHE:
        return _CACHE[prog]
    out = {}
    for c in ELEMENT_CLASSES + ["Cell"]:
        prog.need_method(c, "to_gds")
    for cn, c in sorted(prog.classes.items()):
        if "to_gds" in c.methods:
            out[cn] = Writer(prog, c, c.methods["to_gds"])
    lib = prog.need_class("GdsLibrary")
    out["GdsLibrary"] = Writer(prog, lib, prog.need_method("GdsLibrary", "write_gds"))
    gw = prog.need_class("GdsWriter")
    for m in ("__init__", "write_cell", "write_binary_cells", "close"):
        out["GdsWriter." + m] = Writer(prog, gw, prog.need_method("GdsWriter", m))
    for k in ELEMENT_CLASSES + ["Cell", "GdsLibrary", "GdsWriter.__init__"]:
        if out[k].streams.nwrites == 0 and not any(isinstance(i, Elem) for items, f, l in out[k].each_seq() for i in items):
            raise AnalysisBroken("%s writes nothing: stream writes not found" % k)
    _CACHE[prog] = out
    return out


# ---------------------------------------------------------------------------
def framing(ctx):
    ctx.rule("every record header is a big-endian 16-bit length followed by a 16-bit type; on each path the bytes written until the next header equal the announced length minus 4")
    ctx.rule("the announced length is even on every path (padding decided by parity facts) and bounded by the 16-bit field")
    ctx.assume("strings are ASCII (encode('ascii') raises otherwise), so character counts equal byte counts; coordinate arrays have two columns")
    for name, w in sorted(writers(ctx.prog).items()):
        ctx.saw(w.it.functions_seen)
        ctx.count("writers")
        ctx.count("writes", w.streams.nwrites)
        ctx.count("records", w.streams.nrec)
        ctx.count("paths", w.streams.npaths)
        bad = 0
        for p in w.streams.problems:
            if p.verdict == "bad":
                bad += 1
                ctx.violation(p.rule, "%s:%s" % (w.name, p.msg.split(" announces")[0].split(" (")[0][:60]), p.where, "%s: %s" % (w.name, p.msg))
            elif p.verdict == "unknown":
                ctx.unknown(p.rule, p.where, p.msg)
        for items, facts, loops in w.each_seq():
            for i in items:
                if isinstance(i, Rec):
                    ctx.ok("record framed", "%s %s length %s" % (w.name, recname(i.code), i.L))
                    payload_kind(ctx, w, i)


def payload_kind(ctx, w, r):
    """data type byte of the record type vs. the kind of its payload tokens"""
    if r.code is None:
        ctx.unknown("data-type", r.where, "record type not constant")
        return
    if r.code not in REC:
        ctx.violation("record-type", "%s:0x%04X" % (w.name, r.code), r.where, "0x%04X is not a record type of the GDSII format subset written here" % r.code)
        return
    dt = r.code & 0xFF
    for t in r.toks:
        if t.kind == "raw":
            continue
        okay = {
            0: False,
            1: t.kind == "int" and t.size.c == 2,
            2: t.kind == "int" and t.size.c == 2,
            3: (t.kind == "int" and t.size.c == 4 and t.ch in ("l", "i")) or (t.kind == "xy" and t.extra and t.extra[0] == "i" and t.extra[1] == 4),
            5: t.kind == "real" or (t.kind == "int" and t.size.c == 8 and t.ch in "Qq"),
            6: t.kind == "str",
        }.get(dt, True)
        if not okay:
            ctx.violation("data-type", "%s:%s" % (w.name, recname(r.code)), t.where, "%s carries a %s payload (%s)" % (recname(r.code), t.kind, t.extra if t.kind == "xy" else (t.ch or "")))
            return
    fixed = {"HEADER": 6, "BGNLIB": 28, "UNITS": 20, "ENDLIB": 4, "BGNSTR": 28, "ENDSTR": 4, "BOUNDARY": 4, "PATH": 4, "SREF": 4, "AREF": 4, "TEXT": 4, "LAYER": 6, "DATATYPE": 6, "WIDTH": 8, "ENDEL": 4, "COLROW": 8, "TEXTTYPE": 6, "PRESENTATION": 6, "STRANS": 6, "MAG": 12, "ANGLE": 12, "PATHTYPE": 6, "PROPATTR": 6, "BGNEXTN": 8, "ENDEXTN": 8}
    want = fixed.get(REC[r.code])
    if want is not None and r.L is not None and r.L.is_const() and r.L.c != want:
        ctx.violation("record-size", "%s:%s" % (w.name, recname(r.code)), r.where, "%s is %d bytes long in the format; %d announced" % (recname(r.code), want, r.L.c))


# ---------------------------------------------------------------------------
# grammar
T = {}


def _t(state, rec, to):
    T[(state, rec)] = to


for k, chain in {
    "BOUNDARY": ["LAYER", "DATATYPE"],
    "PATH": ["LAYER", "DATATYPE"],
    "TEXT": ["LAYER", "TEXTTYPE"],
    "SREF": ["SNAME"],
    "AREF": ["SNAME"],
}.items():
    _t("top", k, k + "0")
    for i, c in enumerate(chain):
        _t("%s%d" % (k, i), c, "%s%d" % (k, i + 1))
for k, hd in (("BOUNDARY", "BOUNDARY2"),):
    _t(hd, "XY", k + "xy")
opt = ["PATHTYPE", "WIDTH", "BGNEXTN", "ENDEXTN", "XY"]
states = ["PATH2", "PATHa", "PATHb", "PATHc", "PATHd", "PATHxy"]
for i, s in enumerate(states[:-1]):
    for j, o in enumerate(opt):
        if j >= i:
            _t(s, o, states[j + 1])
opt = ["PRESENTATION", "PATHTYPE", "WIDTH", "STRANS"]
states = ["TEXT2", "TEXTa", "TEXTb", "TEXTc", "TEXTd"]
for i, s in enumerate(states):
    for j, o in enumerate(opt):
        if j >= i:
            _t(s, o, states[j + 1])
    _t(s, "XY", "TEXTxy")
_t("TEXTd", "MAG", "TEXTe")
_t("TEXTd", "ANGLE", "TEXTf")
_t("TEXTe", "ANGLE", "TEXTf")
_t("TEXTe", "XY", "TEXTxy")
_t("TEXTf", "XY", "TEXTxy")
_t("TEXTxy", "STRING", "TEXTend")
for k, nxt in (("SREF", "XY"), ("AREF", "COLROW")):
    to = "SREFxy" if k == "SREF" else "AREFcr"
    _t(k + "1", "STRANS", k + "s")
    _t(k + "s", "MAG", k + "m")
    _t(k + "s", "ANGLE", k + "g")
    _t(k + "m", "ANGLE", k + "g")
    for s in ("1", "s", "m", "g"):
        _t(k + s, nxt, to)
_t("AREFcr", "XY", "AREFxy")
_t("BOUNDARYxy", "XY", "BOUNDARYxy")
_t("PATHxy", "XY", "PATHxy")
for s in ("BOUNDARYxy", "PATHxy", "TEXTend", "SREFxy", "AREFxy"):
    _t(s, "PROPATTR", s + "+a")
    _t(s + "+a", "PROPVALUE", s + "+p")
    _t(s + "+p", "PROPATTR", s + "+a")
    _t(s, "ENDEL", "top")
    _t(s + "+p", "ENDEL", "top")
# structure and library level
_t("LIB0", "HEADER", "LIB1")
_t("LIB1", "BGNLIB", "LIB2")
_t("LIB2", "LIBNAME", "LIB3")
_t("LIB3", "UNITS", "LIB")
_t("LIB", "ENDLIB", "END")
_t("LIB", "BGNSTR", "STR0")
_t("STR0", "STRNAME", "STR")
_t("STR", "ENDSTR", "LIB")


def grammar_run(ctx, w, items, states, elem_level, errs):
    for i in items:
        if isinstance(i, Rec):
            if i.code is None:
                ctx.unknown("grammar", i.where, "record type not constant")
                return None
            rn = REC.get(i.code)
            if rn is None:
                errs.append((i.where, "unknown record type 0x%04X" % i.code))
                return None
            new = set()
            for s in states:
                n = T.get((s, rn))
                if n is None:
                    errs.append((i.where, "%s is written where the format does not allow it (after %s)" % (rn, s)))
                else:
                    new.add(n)
            states = new or states
        elif isinstance(i, Loop):
            acc = set(states)
            for _ in range(6):
                new = set(acc)
                for b in i.bodies:
                    r = grammar_run(ctx, w, b.items, set(acc), elem_level, errs)
                    if r is None:
                        return None
                    if b.status in ("return",):
                        continue
                    new |= r
                if new == acc:
                    break
                acc = new
            # a chunk loop over the coordinates of one element runs at least once
            rs = [x for b in i.bodies for x in b.items]
            if i.bodies and all(isinstance(x, Rec) and REC.get(x.code) == "XY" for x in rs) and rs:
                acc = acc - (states - {s for s in states if s.endswith("xy")})
            states = acc
        elif isinstance(i, Elem):
            for s in states:
                if s not in ("top", "STR", "LIB"):
                    errs.append((i.where, "an element/structure is written inside an unfinished one (after %s)" % s))
        elif isinstance(i, Raw):
            for s in states:
                if s not in ("LIB",):
                    ctx.unknown("grammar", i.where, "opaque bytes %s" % show(i.node, 3))
                    return None
    return states


LEVEL = {"Cell": ("LIB", {"LIB"}), "GdsLibrary": ("LIB0", {"END"}), "GdsWriter.__init__": ("LIB0", {"LIB"}), "GdsWriter.write_cell": ("LIB", {"LIB"}), "GdsWriter.write_binary_cells": ("LIB", {"LIB"}), "GdsWriter.close": ("LIB", {"END"})}


def grammar(ctx):
    ctx.rule("on every path the record types follow the GDSII syntax (element, structure and library productions), and every element/structure/library opened is terminated")
    for name, w in sorted(writers(ctx.prog).items()):
        ctx.saw(w.it.functions_seen)
        start, accept = LEVEL.get(name, ("top", {"top"}))
        for p in w.paths:
            errs = []
            r = grammar_run(ctx, w, p.items, {start}, None, errs)
            if not errs and r is not None and not r <= accept:
                errs.append((w.func.where, "a path ends in state %s: the %s is not terminated" % (sorted(r - accept), "element" if start == "top" else "structure or library")))
            for where, msg in errs:
                ctx.violation("grammar", "%s:%s" % (w.name, msg[:50]), where, "%s: %s" % (w.name, msg))
            if not errs and r is not None:
                ctx.ok("writer path accepted by the grammar", "%s: %d items" % (w.name, len(p.items)))
        # kinds
        allowed = KIND.get(name)
        if allowed:
            for items, facts, loops in w.each_seq():
                for i in items:
                    if isinstance(i, Rec) and i.code in START:
                        if START[i.code] not in allowed:
                            ctx.violation("element-kind", "%s:%s" % (w.name, START[i.code]), i.where, "%s writes a %s element" % (w.name, START[i.code]))
                        else:
                            ctx.ok("element kind")
                    if isinstance(i, Elem) and "nested" not in allowed:
                        ctx.unknown("element-kind", i.where, "nested serialisation")
        extensions(ctx, w)


def extensions(ctx, w):
    """BGNEXTN/ENDEXTN exactly on the paths whose path type is 4"""
    if w.cls.name not in ("FlexPath", "RobustPath"):
        return
    for items, facts, loops in w.each_seq():
        recs = [i for i in items if isinstance(i, Rec)]
        names = [REC.get(r.code) for r in recs]
        if "PATH" not in names:
            continue
        has = "BGNEXTN" in names or "ENDEXTN" in names
        if ("BGNEXTN" in names) != ("ENDEXTN" in names):
            ctx.violation("path-extension", "%s:pair" % w.name, recs[0].where, "only one of the two extension records is written")
        if "PATHTYPE" not in names:
            ctx.violation("path-type", w.name, recs[0].where, "no PATHTYPE record")
            continue
        pt = recs[names.index("PATHTYPE")]
        if not pt.toks:
            continue
        n = pt.toks[0].node
        vals = value_set(w.it, n, facts)
        if vals is None:
            ctx.unknown("path-extension", pt.where, "values of the path type %s not enumerable" % show(n, 3))
            continue
        for c, v in facts.d.items():
            if c.op == "cmp" and c.args[2].op == "const" and (c.args[1] is n or c.args[1] is facts.resolve(n)):
                k = c.args[2].args[1]
                f = {"==": lambda x: x == k, "<": lambda x: x < k, "<=": lambda x: x <= k, ">": lambda x: x > k, ">=": lambda x: x >= k}.get(c.args[0])
                if f is not None:
                    vals = {x for x in vals if f(x) == v}
        if 4 in vals and not has:
            ctx.violation("path-extension", "%s:missing" % w.name, pt.where, "path type 4 without extension records (%s)" % fmt_facts(facts))
        elif has and vals - {4}:
            ctx.violation("path-extension", "%s:spurious" % w.name, pt.where, "extension records although the path type may be %s" % sorted(vals - {4}))
        else:
            ctx.ok("extension records iff path type 4")


def value_set(it, n, facts):
    """finite set of the values of a table lookup, or None"""
    n = facts.resolve(n)
    if n.op == "const":
        return {n.args[1]}
    if n.op == "ite":
        a, b = value_set(it, n.args[1], facts), value_set(it, n.args[2], facts)
        return None if a is None or b is None else a | b
    if n.op == "mcall" and n.args[1] == "get":
        lit = it.literal(strip(n.args[0]))
        d = value_set(it, n.args[2][1], facts) if len(n.args[2]) > 1 else {None}
        if isinstance(lit, dict) and d is not None:
            return set(lit.values()) | d
    if n.op == "sub":
        lit = it.literal(strip(n.args[0]))
        if isinstance(lit, dict):
            return set(lit.values())
    return None


def one_each(ctx):
    ctx.rule("each polygon, parallel path, label and reference is serialised exactly once: the writing loop covers the whole collection and every iteration writes exactly one element")
    W = writers(ctx.prog)
    for cn, attr in (("PolygonSet", "polygons"),):
        w = W[cn]
        loops = [i for p in w.paths for i in p.items if isinstance(i, Loop)]
        for p in w.paths:
            ls = [i for i in p.items if isinstance(i, Loop)]
            if len(ls) == 0:
                # a path that writes nothing must be guarded by emptiness
                if not any(isinstance(i, (Rec, Elem)) for i in p.items):
                    if not empty_guard(p.facts, "polygons", w.self_node):
                        ctx.violation("element-skipped", "%s" % w.name, w.func.where, "a path writes no element although the set may hold polygons (%s)" % fmt_facts(p.facts))
                continue
            for l in ls:
                check_loop(ctx, w, l, "polygons", "BOUNDARY")
    for cn in ("FlexPath", "RobustPath"):
        w = W[cn]
        for p in w.paths:
            ls = [i for i in p.items if isinstance(i, Loop)]
            if any(isinstance(i, Elem) for i in p.items):
                ctx.ok("delegates to polygons")
                continue
            if not ls:
                if not any(facts_mentions(p.facts, x, w.self_node) for x in ("points", "paths", "n")):
                    ctx.violation("element-skipped", w.name, w.func.where, "a path writes no element (%s)" % fmt_facts(p.facts))
                continue
            for l in ls:
                check_loop(ctx, w, l, "n", "PATH")
    for cn, kind in (("Label", "TEXT"), ("CellReference", "SREF"), ("CellArray", "AREF")):
        w = W[cn]
        for p in w.paths:
            n = sum(1 for i in p.items if isinstance(i, Rec) and REC.get(i.code) == kind)
            if n != 1:
                ctx.violation("element-skipped", "%s:%s" % (w.name, kind), w.func.where, "a path writes %d %s elements instead of one (%s)" % (n, kind, fmt_facts(p.facts)))
            else:
                ctx.ok("one element")
    w = W["Cell"]
    mult = w.params[1] if len(w.params) > 1 else None
    for p in w.paths:
        seen = set()
        for i in p.items:
            if isinstance(i, Loop):
                for attr in ("polygons", "paths", "labels", "references"):
                    c = covers(i.it, attr, w.self_node) if isinstance(i.it, Node) else None
                    srcs = self_attrs(i.it, p.facts, w.self_node) if isinstance(i.it, Node) else set()
                    if c is False:
                        ctx.violation("cell-content", attr, i.where, "only part of the cell's %s is written" % attr)
                        seen.add(attr)
                    elif c is True or attr in srcs:
                        seen.add(attr)
                        for b in i.bodies:
                            el = [x for x in b.items if isinstance(x, Elem)]
                            if len(el) != 1:
                                ctx.violation("cell-content", attr, i.where, "an iteration over the cell's %s writes %d elements" % (attr, len(el)))
                                continue
                            a = el[0].args
                            if len(a) >= 2 and strip(b.facts.resolve(a[1])) is not mult:
                                if not same_value(a[1], mult, b.facts):
                                    ctx.violation("cell-content", attr + ":multiplier", el[0].where, "the elements are written with multiplier %s" % show(a[1], 4))
                                    continue
                            ctx.ok("cell collection written", attr)
            elif isinstance(i, Elem):
                for attr in self_attrs(i.recv, p.facts, w.self_node):
                    seen.add(attr)
        for attr in ("polygons", "paths", "labels", "references"):
            if attr not in seen:
                if any(isinstance(i, Loop) and not known_iter(i.it, w.self_node, p.facts) for i in p.items):
                    ctx.unknown("cell-content", w.func.where, attr)
                else:
                    ctx.violation("cell-content", attr, w.func.where, "the cell's %s are not written on some path (%s)" % (attr, fmt_facts(p.facts)))


def same_value(a, b, facts):
    try:
        return Polyer(facts).of(a) == Polyer(facts).of(b)
    except Fork:
        return False


def known_iter(it, self_node, facts):
    return isinstance(it, Node) and bool(self_attrs(it, facts, self_node))


def fmt_facts(facts):
    return "; ".join("%s is %s" % (show(c, 4), v) for c, v in list(facts.d.items())[:6])


def facts_mentions(facts, attr, self_node):
    for c in facts.d:
        for x in subnodes(c, follow=False):
            if x.op == "attr" and x.args == (self_node, attr):
                return True
    return False


def empty_guard(facts, attr, self_node):
    return facts_mentions(facts, attr, self_node)


def check_loop(ctx, w, l, attr, kind):
    """l writes elements: full coverage, one element per iteration"""
    if isinstance(l.it, Node) and l.kind == "for":
        if attr == "n":
            c = covers_n(l.it, w)
        else:
            c = covers(l.it, attr, w.self_node)
        if c is False:
            ctx.violation("element-skipped", "%s:loop" % w.name, l.where, "the writing loop runs over %s, only part of the collection" % show(l.it, 5))
        elif c is None:
            ctx.unknown("element-skipped", l.where, "loop over %s" % show(l.it, 4))
    for b in l.bodies:
        n = sum(1 for i in b.items if isinstance(i, Rec) and REC.get(i.code) == kind)
        nested = any(isinstance(i, Elem) for i in b.items)
        if n != 1 and not nested:
            ctx.violation("element-skipped", "%s:iteration" % w.name, l.where, "an iteration writes %d %s elements (%s)" % (n, kind, fmt_facts(b.facts)))
        elif b.status in ("break", "return"):
            ctx.violation("element-skipped", "%s:break" % w.name, l.where, "the writing loop stops early (%s)" % fmt_facts(b.facts))
        else:
            ctx.ok("one element per iteration", "%s loop at %s" % (w.name, l.where))


def covers_n(it, w):
    n = strip(it)
    if n.op == "call" and n.args[0] == "range":
        a = n.args[1]
        hi = strip(a[0] if len(a) == 1 else a[1])
        if hi.op == "attr" and hi.args == (w.self_node, "n"):
            if len(a) == 1 or (a[0].op == "const" and a[0].args[1] == 0 and len(a) == 2):
                return True
            return False if a[0].op == "const" else None
        if hi.op == "bin" and hi.args[0] == "-" and strip(hi.args[1]).op == "attr" and strip(hi.args[1]).args == (w.self_node, "n") and hi.args[2].op == "const" and len(a) == 1:
            return False
    for attr in ("layers", "datatypes", "ends", "corners", "paths", "widths"):
        c = covers(n, attr, w.self_node)
        if c is not None:
            return c
    return None


# ---------------------------------------------------------------------------
# content: which attribute a record carries
GEOM = {"layers", "layer", "datatypes", "datatype", "texttype", "anchor", "rotation", "magnification", "x_reflection", "text", "position", "origin", "points", "polygons", "widths", "offsets", "ends", "name", "ref_cell", "columns", "rows", "spacing", "unit", "precision", "properties", "paths", "bend_radius", "corners"}
EXPECT = {
    "LAYER": {"layers", "layer"}, "DATATYPE": {"datatypes", "datatype"}, "TEXTTYPE": {"texttype"},
    "PRESENTATION": {"anchor"}, "PATHTYPE": {"ends"}, "WIDTH": {"widths"}, "SNAME": {"ref_cell"},
    "MAG": {"magnification"}, "ANGLE": {"rotation"}, "STRING": {"text"}, "PROPATTR": {"properties"},
    "PROPVALUE": {"properties"}, "BGNEXTN": {"ends"}, "ENDEXTN": {"ends"}, "STRNAME": {"name"},
}
XYATTR = {"PolygonSet": {"polygons"}, "Label": {"position"}, "FlexPath": {"points"}, "RobustPath": {"paths"}, "CellReference": {"origin"}, "CellArray": {"origin", "columns", "rows", "spacing"}}
XYEXTRA = {"FlexPath": {"offsets", "widths", "bend_radius", "corners", "points"}, "RobustPath": {"paths", "widths", "offsets"}, "CellArray": {"rotation", "x_reflection", "origin", "columns", "rows", "spacing"}}


def content(ctx):
    ctx.rule("each record carries the value of the attribute it stands for (table record type -> attribute), taken at the same index for all records of one element, column before row, x before y")
    W = writers(ctx.prog)
    for name in ELEMENT_CLASSES:
        w = W[name]
        ctx.saw(w.it.functions_seen)
        for items, facts, loops in w.each_seq():
            recs = []
            for i in items:
                if isinstance(i, Loop) and any(isinstance(x, Rec) and REC.get(x.code) == "XY" for b in i.bodies for x in b.items):
                    for b in i.bodies:
                        for x in b.items:
                            if isinstance(x, Rec):
                                recs.append((x, b.facts))
                if isinstance(i, Rec):
                    recs.append((i, facts))
            for extra in refinements(w, recs, facts):
                sites = {}
                for x, ff in recs:
                    for c, v in extra:
                        nf = ff.add(c, v)
                        ff = nf if nf is not None else ff
                    check_rec(ctx, w, x, ff, sites)
                # index agreement
                ref = {}
                for rn, s in sites.items():
                    for a, v in s.items():
                        if len(v) == 1:
                            ref.setdefault(next(iter(v)), []).append("%s<-%s" % (rn, a))
                        elif len(v) > 1:
                            ctx.unknown("index", w.func.where, "%s uses several indices" % rn)
                if len(ref) > 1:
                    ctx.violation("index-agreement", w.name, w.func.where, "the records of one element are taken at different indices: %s%s" % (" / ".join(",".join(v) for v in ref.values()), " when " + "; ".join("%s is %s" % (show(c, 3), v) for c, v in extra) if extra else ""))
                elif ref:
                    ctx.ok("one index per element")
        transform_records(ctx, w)
        vertices(ctx, w)


EXACT = ("LAYER", "DATATYPE", "TEXTTYPE", "PRESENTATION")


def refinements(w, recs, facts, limit=5):
    """case splits on the undecided conditions inside attribute values and
    subscripts (so that each alternative is checked on its own)"""
    conds = []
    for r, ff in recs:
        rn = REC.get(r.code)
        if rn in ("PATHTYPE", "STRANS"):
            continue
        for t in r.toks:
            for n in value_nodes(t.node, ff, follow_key=True, limit=4000):
                if n.op == "ite" and n.args[0] not in conds and ff.decide(n.args[0]) is None:
                    if rn == "XY" and not any(x.op == "attr" and x.args[0] is w.self_node and x.args[1] in ("polygons", "origin", "position") for x in value_nodes(n, ff)) and not scalar_index(n):
                        continue
                    conds.append(n.args[0])
    conds = conds[:limit]
    out = [()]
    for c in conds:
        out = [e + ((c, v),) for e in out for v in (True, False)]
    good = []
    for e in out:
        f = facts
        for c, v in e:
            f = f.add(c, v) if f is not None else None
        if f is not None:
            good.append(e)
    return good or [()]


def scalar_index(n):
    from ..flow import index_site

    return n.op == "ite" and any(x.op == "const" or index_site(x) is not None for x in n.args[1:])


def vertices(ctx, w):
    """the coordinate record(s) of an element hold every vertex, once, and close polygons"""
    if w.cls.name not in ("PolygonSet", "FlexPath", "RobustPath"):
        return
    poly = w.cls.name == "PolygonSet"
    for items, facts, loops in w.each_seq():
        xyr = [i for i in items if isinstance(i, Rec) and REC.get(i.code) == "XY"]
        xyl = [i for i in items if isinstance(i, Loop) and any(isinstance(x, Rec) and REC.get(x.code) == "XY" for b in i.bodies for x in b.items) and not any(isinstance(x, Rec) and x.code in START for b in i.bodies for x in b.items)]
        if loops and loops[-1].kind and not any(isinstance(i, Rec) and i.code in START for i in items):
            continue
        if not any(isinstance(i, Rec) and i.code in START for i in items):
            continue
        if not xyr and not xyl:
            continue
        sz = w.streams.sizer(facts)
        lab = "%s:XY" % w.name
        if xyl:
            for l in xyl:
                chunk_loop(ctx, w, l, facts, lab)
            arrs = [strip_slice(t.node) for l in xyl for b in l.bodies for x in b.items if isinstance(x, Rec) for t in x.toks]
        else:
            arrs = []
            for r in xyr:
                for t in r.toks:
                    n = facts.resolve(t.node)
                    arrs.append(n)
                    if n.op == "sub" and n.args[1].op == "slice" and len(xyr) == 1 and len([t for t in r.toks]) == 1:
                        lo, hi, stp = n.args[1].args
                        if any(not (x.op == "const" and x.args[1] is None) for x in (lo, hi)):
                            ctx.violation("vertices", lab, r.where, "only the part %s of the vertices is written" % show(n.args[1], 3))
        if not poly:
            if arrs:
                ctx.ok("vertex list complete")
            continue
        try:
            poly_vertices(ctx, w, items, xyr, xyl, arrs, facts, sz, lab)
        except Fork:
            ctx.unknown("vertices", w.func.where, "undecided length")


def strip_slice(n):
    if n.op == "sub" and n.args[1].op == "slice":
        return n.args[0]
    return n


def poly_vertices(ctx, w, items, xyr, xyl, arrs, facts, sz, lab):
    src = None
    for a in arrs:
        for x in value_nodes(a, facts):
            b = strip(x)
            if b.op in ("sub", "elem") and strip(b.args[0]).op == "attr" and strip(b.args[0]).args == (w.self_node, "polygons"):
                src = b
    if src is None:
        ctx.unknown("vertices", w.func.where, "polygon not found")
        return
    where = (xyr[0].where if xyr else xyl[0].where)
    n = sz.length(src)
    if xyl:
        total = sz.length(arrs[0])
    else:
        from ..lin import Lin

        total = Lin(0)
        for r in xyr:
            for t in r.toks:
                if t.size is None:
                    return
                total = total + t.size
        d = total - (n + 1) * 8
        if d.is_const() and d.c == 0:
            ctx.ok("n+1 coordinate pairs")
        elif d.is_const():
            ctx.violation("vertices", lab, where, "a polygon of n vertices is written with n%+d coordinate pairs instead of n+1" % (d.c // 8 + 1))
        else:
            ctx.unknown("vertices", where, "%r" % d)
        total = None
    if total is not None:
        d = total - (n + 1)
        if d.is_const() and d.c == 0:
            ctx.ok("n+1 coordinate pairs")
        elif d.is_const():
            ctx.violation("vertices", lab, where, "a polygon of n vertices is written with n%+d coordinate pairs instead of n+1" % (d.c + 1))
        else:
            ctx.unknown("vertices", where, "%r" % d)
    # closing pair
    closed = None
    for r in xyr:
        if len(r.toks) >= 2:
            last = facts.resolve(r.toks[-1].node)
            if last.op == "sub" and last.args[1].op == "const":
                closed = last.args[1].args[1] == 0 and strip(last.args[0]) is strip(facts.resolve(r.toks[0].node))
                if not closed and last.args[1].args[1] == 0:
                    closed = None
            elif last.op == "sub" and last.args[1].op == "slice":
                lo, hi, stp = last.args[1].args
                if hi.op == "const" and hi.args[1] == 1 and lo.op == "const" and lo.args[1] in (None, 0):
                    closed = True
    for a in arrs:
        c = a.args[1] if a.op == "ver" else None
        while c is not None and c.op == "upd":
            if c.args[1] == "setitem":
                k, v = c.args[2]
                v = facts.resolve(v)
                if k.op == "const" and k.args[1] == -1:
                    closed = v.op == "sub" and v.args[1].op == "const" and v.args[1].args[1] == 0
                    if not closed and not (v.op == "sub" and v.args[1].op == "const"):
                        closed = None
            c = c.args[0]
    if closed is False:
        ctx.violation("vertices", lab + ":closing", where, "the last coordinate pair of a polygon is not its first vertex")
    elif closed:
        ctx.ok("polygon closed by its first vertex")
    else:
        ctx.unknown("vertices", where, "closing pair not recognised")


def chunk_loop(ctx, w, l, facts, lab):
    """consecutive slices [i0:i1] of one array: from 0, without gap, to the end"""
    for b in l.bodies:
        toks = [t for x in b.items if isinstance(x, Rec) for t in x.toks]
        if len(toks) != 1:
            ctx.unknown("chunks", l.where, "%d payload parts" % len(toks))
            continue
        n = b.facts.resolve(toks[0].node)
        if n.op != "sub" or n.args[1].op != "slice":
            ctx.unknown("chunks", l.where, show(n, 3))
            continue
        arr = n.args[0]
        lo, hi, stp = n.args[1].args
        sz = w.streams.sizer(b.facts)
        try:
            if lo.op == "loopv" and lo.info:
                init, nxt = lo.info.get("init"), lo.info.get("next")
                if init is None or nxt is None:
                    continue
                if not (init.op == "const" and init.args[1] == 0):
                    if init.op == "const":
                        ctx.violation("chunks", lab, l.where, "the first chunk starts at vertex %r" % init.args[1])
                    continue
                good = nxt is hi
                if not good:
                    d = sz.lin(nxt) - sz.lin(hi)
                    if d.is_const() and d.c != 0:
                        ctx.violation("chunks", lab, l.where, "after a chunk ending at i1 the next one starts at i1%+d: vertices are %s" % (d.c, "skipped" if d.c > 0 else "repeated"))
                        continue
                    # hi clamped by the slice: next = lo + K
                    good = d.is_const()
                c, pol = w.it.norm_cond(l.it) if isinstance(l.it, Node) else (None, True)
                if c is not None and c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">=", "=="):
                    a_, b_ = c.args[1], c.args[2]
                    if a_ is lo or b_ is lo:
                        other = b_ if a_ is lo else a_
                        d = sz.lin(other) - sz.length(arr)
                        strict = (c.args[0] in ("<",) and a_ is lo and pol) or (c.args[0] == ">" and b_ is lo and pol) or (c.args[0] == ">=" and a_ is lo and not pol)
                        if d.is_const() and strict and d.c < 0:
                            ctx.violation("chunks", lab, l.where, "the chunk loop stops %d vertices before the end" % -d.c)
                            continue
                        if d.is_const() and strict and d.c == 0 and good:
                            ctx.ok("chunks cover the vertex list", "%s at %s" % (w.name, l.where))
                            continue
            elif lo.op == "elem" and strip(lo.args[0]).op == "call" and strip(lo.args[0]).args[0] == "range":
                a = strip(lo.args[0]).args[1]
                start = w.it.const(0) if len(a) == 1 else a[0]
                stop = a[0] if len(a) == 1 else a[1]
                step = a[2] if len(a) == 3 else w.it.const(1)
                if start.op == "const" and start.args[1] != 0:
                    ctx.violation("chunks", lab, l.where, "the first chunk starts at vertex %r" % start.args[1])
                    continue
                d = sz.lin(stop) - sz.length(arr)
                if d.is_const() and d.c < 0:
                    ctx.violation("chunks", lab, l.where, "the chunk loop stops %d vertices before the end" % -d.c)
                    continue
                hs = [hi]
                if hi.op == "call" and hi.args[0] == "min":
                    hs = list(sz._minargs(hi))
                ds = [sz.lin(h) - sz.lin(lo) - sz.lin(step) for h in hs]
                ds = [x for x in ds if x.is_const()]
                if ds and all(x.c != 0 for x in ds):
                    ctx.violation("chunks", lab, l.where, "chunk size and step differ by %d: vertices are skipped or repeated" % ds[0].c)
                    continue
                if ds and d.is_const() and d.c == 0:
                    ctx.ok("chunks cover the vertex list", "%s at %s" % (w.name, l.where))
                    continue
        except Fork:
            pass
        ctx.unknown("chunks", l.where, "chunk bounds not understood")


def check_rec(ctx, w, r, facts, sites):
    rn = REC.get(r.code)
    cn = w.cls.name
    if rn is None or not r.toks:
        return
    want = XYATTR.get(cn) if rn == "XY" else EXPECT.get(rn)
    got = set()
    opaque = False
    sx = {}
    for t in r.toks:
        if t.kind == "raw":
            opaque = True
        nodes = value_nodes(t.node, facts)
        got |= self_attrs(t.node, facts, w.self_node)
        for a in ("layers", "datatypes", "polygons", "ends", "widths", "offsets", "paths"):
            ix = indices_on(t.node, a, w.self_node, facts)
            if ix and not (rn == "XY" and a in ("widths", "ends")):
                sx.setdefault(a, set()).update(ix)
    if sx:
        cur = sites.setdefault(rn, {})
        for a, v in sx.items():
            cur.setdefault(a, set()).update(v)
    if want is None:
        return
    known = got & GEOM
    if want & got:
        bad = set()
        if rn == "XY":
            bad = known - want - XYEXTRA.get(cn, set())
        elif rn not in ("PATHTYPE",):
            bad = known - want
        if bad:
            ctx.violation("content", "%s:%s" % (w.name, rn), r.where, "%s mixes in %s (expected %s)" % (rn, sorted(bad), sorted(want)))
        else:
            ctx.ok("record content", "%s: %s <- %s" % (w.name, rn, sorted(got)))
    elif known:
        ctx.violation("content", "%s:%s" % (w.name, rn), r.where, "%s carries %s, not %s" % (rn, sorted(known), sorted(want)))
        return
    elif rn in ("PATHTYPE",) and facts.resolve(r.toks[0].node).op == "const":
        pass
    else:
        v = facts.resolve(r.toks[0].node)
        if all(facts.resolve(t.node).op == "const" for t in r.toks) and rn not in ("PATHTYPE",):
            ctx.violation("content", "%s:%s" % (w.name, rn), r.where, "%s carries a constant, not %s" % (rn, sorted(want)))
        else:
            ctx.unknown("content", r.where, "%s of %s: source of %s not resolved" % (rn, w.name, show(v, 3)))
        return
    if rn in EXACT and len(r.toks) == 1:
        p = Polyer(facts, strip_round=True).of(facts.resolve(r.toks[0].node)) if facts.resolve(r.toks[0].node).op != "ite" else None
        if p is not None:
            if len(p.t) == 1 and list(p.t.values()) == [1] and len(list(p.t)[0]) == 1 and list(p.t)[0][0][1] == 1:
                x = list(p.t)[0][0][0]
                if isinstance(x, Node) and x.op in ("sub", "elem", "attr"):
                    ctx.ok("attribute written unchanged")
                elif isinstance(x, tuple) and x[0] in ("abs", "min", "max"):
                    ctx.violation("content", "%s:%s:changed" % (w.name, rn), r.where, "%s carries %s instead of the unchanged attribute" % (rn, show(r.toks[0].node, 4)))
                elif isinstance(x, Node) and x.op == "bin":
                    msk = x.args[2].op == "const" and x.args[0] == "&" and isinstance(x.args[2].args[1], int) and (x.args[2].args[1] & 0x7FFF) == 0x7FFF
                    if not msk:
                        ctx.violation("content", "%s:%s:changed" % (w.name, rn), r.where, "%s carries %s instead of the unchanged attribute" % (rn, show(x, 4)))
                else:
                    ctx.unknown("content", r.where, "%s carries %s" % (rn, show(r.toks[0].node, 4)))
            elif all(not opaque_atom(a) for a in p.atoms()):
                ctx.violation("content", "%s:%s:changed" % (w.name, rn), r.where, "%s carries %r instead of the unchanged attribute" % (rn, p))
            else:
                ctx.unknown("content", r.where, "%s carries %s" % (rn, show(r.toks[0].node, 4)))
    # components
    if rn in ("BGNEXTN", "ENDEXTN"):
        comp = components(r.toks[0].node, "ends", w.self_node, facts)
        wantc = 0 if rn == "BGNEXTN" else 1
        if comp and wantc not in comp:
            ctx.violation("content", "%s:%s:component" % (w.name, rn), r.where, "%s is written from component %s of the end specification" % (rn, sorted(comp)))
    if rn in ("PROPATTR", "PROPVALUE"):
        kinds = set()
        for x in value_nodes(r.toks[0].node, facts):
            if x.op == "key":
                kinds.add("key")
            if x.op == "sub" and x.args[1].op == "key":
                kinds.add("value")
        kinds.discard("key") if "value" in kinds else None
        wantk = "key" if rn == "PROPATTR" else "value"
        if kinds and wantk not in kinds:
            ctx.violation("content", "%s:%s:which" % (w.name, rn), r.where, "%s carries the property %s" % (rn, "value" if "value" in kinds else "number"))


def components(n, attr, self_node, facts):
    """constant outermost components selected from self.<attr>[...]"""
    out = set()
    for x in value_nodes(n, facts):
        if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[1], int):
            b = strip(x.args[0])
            if b.op == "sub":
                b = strip(b.args[0])
            if b.op == "attr" and b.args == (self_node, attr):
                out.add(x.args[1].args[1])
    return out


def fork_all(facts, fn, limit=64):
    """run fn(facts) splitting on demand; yields (facts, value)"""
    work = [facts]
    n = 0
    while work:
        f = work.pop()
        n += 1
        if n > limit:
            return
        try:
            v = fn(f)
        except Fork as e:
            for b in (True, False):
                nf = f.add(e.cond, b)
                if nf is not None:
                    work.append(nf)
            continue
        yield f, v


def none_or_false(facts, it, node):
    """what the facts say about an optional value: 'set', 'unset' or None"""
    d = facts.decide(it.mk("cmp", "is", node, it.NONE))
    if d is True:
        return "unset"
    t = facts.decide(node)
    if t is False:
        return "unset"
    z = facts.decide(it.mk("cmp", "==", node, it.const(0)))
    if z is True:
        return "unset"
    if d is False or t is True or z is False:
        return "set"
    return None


def transform_records(ctx, w):
    """STRANS/MAG/ANGLE presence and value; XY polynomials of labels and references"""
    cn = w.cls.name
    if cn not in ("Label", "CellReference", "CellArray"):
        return
    it = w.it
    S = w.self_node
    at = lambda a: it.mk("attr", S, a)
    m = w.params[1]
    for p in w.paths:
        recs = [i for i in p.items if isinstance(i, Rec)]
        names = [REC.get(r.code) for r in recs]
        f = p.facts
        for rn, attr in (("MAG", "magnification"), ("ANGLE", "rotation")):
            st = none_or_false(f, it, at(attr))
            if rn in names:
                ctx.ok("%s written" % rn)
                if st == "unset":
                    ctx.violation("transform-record", "%s:%s" % (w.name, rn), recs[names.index(rn)].where, "%s is written when %s is not set" % (rn, attr))
            else:
                if st == "set":
                    ctx.violation("transform-record", "%s:%s" % (w.name, rn), w.func.where, "%s is set but no %s record is written (%s)" % (attr, rn, fmt_facts(f)))
                elif st is None:
                    if facts_mentions(f, attr, S):
                        ctx.unknown("transform-record", w.func.where, "%s: guard of %s not understood" % (w.name, rn))
                    else:
                        ctx.violation("transform-record", "%s:%s" % (w.name, rn), w.func.where, "a path writes no %s record without testing %s (%s)" % (rn, attr, fmt_facts(f)))
                else:
                    ctx.ok("%s absent iff unset" % rn)
        xr = f.decide(at("x_reflection"))
        if "STRANS" in names:
            r = recs[names.index("STRANS")]
            v = f.resolve(r.toks[0].node) if r.toks else None
            for want, val in ((True, 0x8000), (False, 0)):
                nf = f.add(at("x_reflection"), want)
                if nf is None or v is None:
                    continue
                try:
                    x = const_int(v, nf)
                except Fork:
                    x = None
                if x is None:
                    ctx.unknown("strans", r.where, show(v, 3))
                elif x != val:
                    ctx.violation("strans", w.name, r.where, "STRANS is 0x%04X when x_reflection is %s (the reflection bit is 0x8000; the other bits would make magnification/rotation absolute)" % (x, want))
                else:
                    ctx.ok("reflection bit")
        elif xr is not False:
            if xr is True:
                ctx.violation("strans", w.name, w.func.where, "x_reflection set but no STRANS record written")
            elif not facts_mentions(f, "x_reflection", S):
                ctx.violation("strans", w.name, w.func.where, "a path writes no STRANS record without testing x_reflection (%s)" % fmt_facts(f))
        # coordinates
        xyrec = [r for r in recs if REC.get(r.code) == "XY"]
        if len(xyrec) != 1:
            continue
        r = xyrec[0]
        pos = at("position" if cn == "Label" else "origin")
        comp = lambda k: Poly.atom(it.mk("sub", pos, it.const(k)))
        mp = Poly.atom(m)
        if cn != "CellArray":
            want = [comp(0) * mp, comp(1) * mp]
        else:
            c, rw = Poly.atom(at("columns")), Poly.atom(at("rows"))
            sx, sy = (Poly.atom(it.mk("sub", at("spacing"), it.const(k))) for k in (0, 1))
            want = None
        if any(t.kind != "int" for t in r.toks):
            ctx.unknown("xy", r.where, "coordinates not written as separate integers")
            continue

        def polys(ff):
            return [Polyer(ff, strip_round=True).of(t.node) for t in r.toks]

        for ff, got in fork_all(f, polys):
            if cn == "CellArray":
                xs = ff.decide(at("x_reflection"))
                ro = none_or_false(ff, it, at("rotation"))
                if xs is None and facts_mentions(ff, "x_reflection", S):
                    ctx.unknown("xy", r.where, "reflection not decided")
                    continue
                sg = Poly.const(-1 if xs else 1)
                if ro is None and (ff.decide(at("rotation")) is None):
                    ctx.unknown("xy", r.where, "rotation not decided")
                    continue
                if ro == "set":
                    ang = Poly.atom(at("rotation")) * Poly.atom("pi") * Poly.const(1) * Poly({(): 1}) 
                    from fractions import Fraction

                    ang = ang * Poly.const(Fraction(1, 180))
                    ca, sa = Poly.atom(("cos", ang)), Poly.atom(("sin", ang))
                else:
                    ca, sa = Poly.const(1), Poly.const(0)
                w_ = [
                    comp(0), comp(1),
                    comp(0) + c * sx * ca, comp(1) + c * sx * sa,
                    comp(0) - sg * rw * sy * sa, comp(1) + sg * rw * sy * ca,
                ]
                want2 = [x * mp for x in w_]
            else:
                want2 = want
            if len(got) != len(want2):
                ctx.violation("xy", "%s:count" % w.name, r.where, "XY has %d coordinates, expected %d" % (len(got), len(want2)))
                continue
            for k, (g, e) in enumerate(zip(got, want2)):
                if g == e:
                    ctx.ok("coordinate identity", "%s XY[%d] = %r" % (w.name, k, g))
                else:
                    foreign = [a for a in g.atoms() if opaque_atom(a)]
                    if foreign:
                        ctx.unknown("xy", r.where, "coordinate %d: %r" % (k, g))
                    else:
                        ctx.violation("xy", "%s:XY[%d]" % (w.name, k), r.where, "coordinate %d is %r, expected %r (%s)" % (k, g, e, fmt_facts(ff)))
        if cn == "CellArray" and "COLROW" in names:
            r = recs[names.index("COLROW")]
            if len(r.toks) == 2 and all(t.kind == "int" for t in r.toks):
                a = [self_attrs(t.node, f, S) for t in r.toks]
                if ("columns" in a[0] and "rows" in a[1]) and not ("rows" in a[0] or "columns" in a[1]):
                    ctx.ok("columns then rows")
                elif a[0] & {"rows", "columns"} and a[1] & {"rows", "columns"}:
                    ctx.violation("colrow", w.name, r.where, "COLROW carries (%s, %s) instead of (columns, rows)" % (sorted(a[0]), sorted(a[1])))
                else:
                    ctx.unknown("colrow", r.where, "sources not resolved")


def opaque_atom(a):
    """an atom standing for a computation this analysis does not model"""
    if isinstance(a, str):
        return False
    if isinstance(a, tuple):
        return any(opaque_atom(y) for x in a[1:] if isinstance(x, Poly) for y in x.atoms())
    for x in subnodes(a):
        if x.op in ("opaque", "icall", "gencall", "undef", "unbound", "phi", "loopv", "comp", "ext", "ver"):
            return True
        if x.op in ("mcall",):
            return True
        if x.op == "call" and x.args[0] not in ("numpy.cos", "numpy.sin", "len", "int", "round", "float", "abs", "min", "max", "range", "enumerate", "zip"):
            return True
    return False


def const_int(n, f):
    p = Polyer(f, strip_round=True, atom=lambda x: bit_or(x, f)).of(n)
    if p.is_const():
        return int(p.cval())
    return None


def bit_or(x, f):
    if x.op == "bin" and x.args[0] in ("|", "^"):
        a, b = const_int(x.args[1], f), const_int(x.args[2], f)
        if a is not None and b is not None:
            return Poly.const(a | b if x.args[0] == "|" else a ^ b)
    if x.op == "bin" and x.args[0] == "<<":
        a, b = const_int(x.args[1], f), const_int(x.args[2], f)
        if a is not None and b is not None:
            return Poly.const(a << b)
    if x.op == "call" and x.args[0] in ("int", "bool") and len(x.args[1]) == 1:
        t = f.decide(x.args[1][0])
        if t is not None:
            return Poly.const(int(t))
    t = f.decide(x) if x.op in ("attr", "param", "cmp", "bool") else None
    if t is not None:
        return Poly.const(int(t))
    return None


# ---------------------------------------------------------------------------
# scaling and rounding
LENGTH_RECS = {"XY", "WIDTH", "BGNEXTN", "ENDEXTN"}


class Units(object):
    """exponent of the multiplier and rounding status of integer payloads"""

    def __init__(self, w, facts):
        self.w = w
        self.f = facts
        self.m = w.params[1] if len(w.params) > 1 else None
        self.memo = {}
        self.busy = set()

    def of(self, n):
        n = self.f.resolve(n)
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            return frozenset()
        self.busy.add(n)
        r = self._of(n)
        self.busy.discard(n)
        self.memo[n] = r
        return r

    def _of(self, n):
        o, a = n.op, n.args
        if n is self.m:
            return frozenset([(1, "exact")])
        if o == "const":
            v = a[1]
            if isinstance(v, (int, float)) and v == 0:
                return frozenset([("any", "zero")])
            return frozenset([(0, "int" if isinstance(v, int) else "const")])
        if o == "ite":
            return self.of(a[1]) | self.of(a[2])
        if o == "phi":
            r = frozenset()
            for x in a[0]:
                r |= self.of(x)
            return r
        if o == "loopv":
            r = frozenset()
            for k in ("init", "next"):
                x = n.info.get(k) if n.info else None
                if x is not None:
                    r |= self.of(x)
            return r
        if o == "bin":
            return self.bin(a[0], a[1], a[2])
        if o == "un":
            return self.of(a[1])
        if o == "sub":
            return self.of(a[0])
        if o in ("elem", "key"):
            b = self.f.resolve(a[0])
            if self.depends(b):
                return self.of(b)
            return frozenset([(0, "exact")])
        if o == "ver":
            base = self.f.resolve(a[0])
            r = self.content(a[1], base)
            if base.op == "call" and base.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.empty_like", "numpy.zeros_like"):
                dt = self.w.streams.dtype(base, self.f)
                if dt is not None and dt[0] == "i":
                    r = frozenset(self.cast(x) for x in r)
                return r or frozenset([("any", "zero")])
            return r | self.of(base)
        if o in ("tuple", "list", "set"):
            r = frozenset()
            for x in a[0]:
                r |= self.of(x)
            return r
        if o == "call" and isinstance(a[0], str):
            nm, args = a[0], a[1]
            if nm in ("numpy.round", "numpy.rint", "round", "numpy.around", "numpy.round_") and args:
                dec = args[1] if len(args) > 1 else dict(a[2]).get("decimals", dict(a[2]).get("ndigits"))
                if dec is not None and not (dec.op == "const" and dec.args[1] in (0, None)):
                    return frozenset((k, "unknown") for k, s in self.of(args[0]))
                return frozenset(self.rnd(x) for x in self.of(args[0]))
            if nm in ("numpy.floor", "math.floor"):
                return frozenset((k, "round") if s == "half" else ((k, "trunc") if k == 1 else (k, s)) for k, s in self.of(args[0]))
            if nm in ("int", "numpy.trunc", "numpy.fix", "math.trunc", "numpy.ceil", "math.ceil"):
                return frozenset(self.cast(x) for x in self.of(args[0]))
            if nm in ("float", "numpy.array", "numpy.asarray", "abs", "list", "tuple", "numpy.vstack", "numpy.concatenate", "min", "max", "numpy.copy", "copy.deepcopy", "copy.copy", "sum", "numpy.int32"):
                r = frozenset()
                for x in args:
                    r |= self.of(x)
                dt = self.w.streams.dtype(n, self.f) if nm in ("numpy.array", "numpy.asarray") and dict(a[2]).get("dtype") is not None else None
                if dt is not None and dt[0] == "i":
                    r = frozenset(self.cast(x) for x in r)
                return r
            if self.depends(n):
                return frozenset([("unknown", "unknown")])
            return frozenset([(0, "exact")])
        if o == "mcall":
            if a[1] == "astype":
                dt = self.w.streams.dtype(n, self.f)
                r = self.of(a[0])
                if dt is not None and dt[0] == "i":
                    return frozenset(self.cast(x) for x in r)
                return r
            if a[1] in ("round",):
                return frozenset(self.rnd(x) for x in self.of(a[0]))
            if a[1] in ("copy", "reshape", "flatten", "tolist", "transpose"):
                return self.of(a[0])
            if self.depends(n):
                return frozenset([("unknown", "unknown")])
            return frozenset([(0, "exact")])
        if o == "comp":
            return self.of(a[1])
        if self.depends(n):
            return frozenset([("unknown", "unknown")])
        return frozenset([(0, "exact")])

    def rnd(self, x):
        k, s = x
        if k == 1:
            if s == "half":
                return (1, "biased")
            return (1, "round" if s in ("exact", "round", "const", "int") else s)
        if k == 0 and s == "exact":
            return (0, "round0")
        return (k, s)

    def cast(self, x):
        k, s = x
        if k == 1 and s in ("exact", "half"):
            return (k, "trunc")
        if k == 0 and s == "exact":
            return (0, "trunc0")
        return (k, s)

    def content(self, c, base):
        c = self.f.resolve(c)
        key = ("c", c)
        if key in self.busy:
            return frozenset()
        self.busy.add(key)
        r = frozenset()
        if c.op == "upd":
            r = self.content(c.args[0], base)
            vals = c.args[2]
            if c.args[1] == "setitem":
                vals = vals[1:]
            elif c.args[1] == "insert":
                vals = vals[1:]
            elif c.args[1] in ("pop", "sort", "reverse", "remove", "clear"):
                vals = ()
            for v in vals:
                if base_of(v) is base:
                    continue
                r |= self.of(v)
        elif c.op == "init":
            b = c.args[0]
            if b is not base:
                r = self.of(b)
            elif b.op in ("list", "tuple"):
                for x in b.args[0]:
                    r |= self.of(x)
        elif c.op == "ite":
            r = self.content(c.args[1], base) | self.content(c.args[2], base)
        elif c.op == "phi":
            for x in c.args[0]:
                r |= self.content(x, base)
        elif c.op == "loopv" and c.info:
            for k in ("init", "next"):
                if c.info.get(k) is not None:
                    r |= self.content(c.info[k], base)
        self.busy.discard(key)
        return r

    def depends(self, n):
        return self.m is not None and any(x is self.m for x in value_nodes(n, self.f))

    def bin(self, op, a, b):
        A, B = self.of(a), self.of(b)
        out = set()
        for (k1, s1) in A or [(0, "exact")]:
            for (k2, s2) in B or [(0, "exact")]:
                out.add(self.bin1(op, k1, s1, k2, s2, a, b))
        return frozenset(out)

    def bin1(self, op, k1, s1, k2, s2, a, b):
        if "unknown" in (k1, k2):
            return ("unknown", "unknown")
        if op in ("+", "-"):
            if k1 == "any":
                return (k2, s2)
            if k2 == "any":
                return (k1, s1)
            if k1 == k2:
                if s1 in ("round", "early") or s2 in ("round", "early"):
                    if s1 in ("int",) or s2 in ("int",):
                        return (k1, "round")
                    return (k1, "early")
                for s in (s1, s2):
                    if s in ("trunc", "round0", "trunc0", "unknown"):
                        return (k1, s)
                if s1 in ("int", "const") and s2 in ("int", "const"):
                    return (k1, "int" if s1 == s2 == "int" else "const")
                return (k1, "exact")
            # scaled value plus a plain constant: the "+ 0.5" idiom
            for (k, s, x) in ((k1, s1, b), (k2, s2, a)):
                if op == "+" and k == 1 and x.op == "const" and x.args[1] == 0.5:
                    return (1, "half")
            return ("mixed", "%s%s%s" % (k1, op, k2))
        if op in ("*", "/", "//"):
            if k1 == "any" or k2 == "any":
                return ("any", "zero") if op == "*" or k1 == "any" else ("unknown", "unknown")
            if k1 == "mixed" or k2 == "mixed":
                return ("mixed", s1)
            k = k1 + k2 if op == "*" else k1 - k2
            if op == "//":
                return (k, "trunc")
            if op == "*" and s1 == "int" and s2 != "exact":
                return (k, s2)
            if op == "*" and s2 == "int" and s1 != "exact":
                return (k, s1)
            for s in (s1, s2):
                if s in ("round", "early"):
                    return (k, "early")
                if s in ("trunc", "round0", "trunc0", "unknown"):
                    return (k, s)
            if s1 in ("int", "const") and s2 in ("int", "const"):
                return (k, "const")
            return (k, "exact")
        if op == "**":
            if b.op == "const" and isinstance(k1, int) and isinstance(b.args[1], (int, float)):
                k = k1 * b.args[1]
                return (int(k) if k == int(k) else k, "exact")
        if k1 == 0 and k2 == 0:
            return (0, "exact")
        return ("unknown", "unknown")


def scaling(ctx):
    ctx.rule("every coordinate, width and end extension is multiplied by the database multiplier exactly once and rounded to the nearest integer after all other arithmetic; no other record value depends on the multiplier")
    W = writers(ctx.prog)
    for name in ELEMENT_CLASSES:
        w = W[name]
        ctx.saw(w.it.functions_seen)
        done = set()
        for items, facts, loops in w.each_seq():
            for i in items:
                if not isinstance(i, Rec):
                    if isinstance(i, Elem):
                        if len(i.args) >= 2 and w.params[1] is not strip(facts.resolve(i.args[1])) and not same_value(i.args[1], w.params[1], facts):
                            ctx.violation("scaling", "%s:nested" % w.name, i.where, "nested elements are written with multiplier %s" % show(i.args[1], 4))
                    continue
                rn = REC.get(i.code)
                if rn is None:
                    continue
                for t in i.toks:
                    if t.kind == "raw":
                        ctx.unknown("scaling", t.where, "%s payload not resolved" % rn)
                        continue
                    U = Units(w, facts)
                    if rn in LENGTH_RECS:
                        vals = U.of(t.node)
                        key = (rn, t.node, vals)
                        for k, s in vals:
                            if k == "any" or (k == 1 and s == "round"):
                                continue
                            label = "%s:%s" % (w.name, rn)
                            if k == 1 and s in ("trunc", "exact", "half", "const"):
                                if s == "trunc":
                                    ctx.violation("rounding", label, t.where, "%s: a value is converted to an integer by truncation, not rounded to the nearest (%s)" % (rn, show(t.node, 5)))
                                elif s == "exact" and t.kind == "xy":
                                    ctx.unknown("rounding", t.where, "%s: no rounding seen" % rn)
                                else:
                                    ctx.unknown("rounding", t.where, "%s: %s" % (rn, s))
                            elif k == 1 and s == "biased":
                                ctx.violation("rounding", label, t.where, "%s: half a unit is added before rounding (%s)" % (rn, show(t.node, 5)))
                            elif k == 1 and s == "early":
                                ctx.violation("rounding", label, t.where, "%s: a value is computed from already rounded parts, so the result is not the nearest database integer (%s)" % (rn, show(t.node, 5)))
                            elif isinstance(k, (int, float)) and k != 1:
                                ctx.violation("scaling", label, t.where, "%s: a value reaches the file multiplied %s times by the database multiplier (%s)" % (rn, k, show(t.node, 5)))
                            elif k == 1 and s in ("round0", "trunc0"):
                                ctx.violation("rounding", label, t.where, "%s: a value is rounded in user units before being scaled" % rn)
                            elif k == "mixed":
                                ctx.violation("scaling", label, t.where, "%s: scaled and unscaled lengths are added (%s)" % (rn, show(t.node, 5)))
                            else:
                                ctx.unknown("scaling", t.where, "%s: unit of %s not decided" % (rn, show(t.node, 4)))
                        if vals and all(k == "any" or (k == 1 and s == "round") for k, s in vals) and key not in done:
                            done.add(key)
                            ctx.ok("scaled once and rounded", "%s %s: %s" % (w.name, rn, show(t.node, 4)))
                    else:
                        if U.depends(t.node):
                            ctx.violation("scaling", "%s:%s" % (w.name, rn), t.where, "%s is not a length, yet depends on the database multiplier (%s)" % (rn, show(t.node, 5)))
                        else:
                            if (rn, t.node) not in done:
                                done.add((rn, t.node))
                                ctx.ok("unscaled record")
        width_sign(ctx, w)


def width_sign(ctx, w):
    if w.cls.name not in ("FlexPath", "RobustPath"):
        return
    it = w.it
    wt = it.mk("attr", w.self_node, "width_transform")
    for items, facts, loops in w.each_seq():
        for i in items:
            if isinstance(i, Rec) and REC.get(i.code) == "WIDTH" and i.toks:
                for v, sg in ((True, 1), (False, -1)):
                    nf = facts.add(wt, v)
                    if nf is None:
                        continue
                    s = sign_of(i.toks[0].node, nf)
                    if s is None:
                        ctx.unknown("width-sign", i.where, show(i.toks[0].node, 4))
                    elif s != sg:
                        ctx.violation("width-sign", w.name, i.where, "WIDTH is written %s when width_transform is %s (negative means absolute width)" % ("positive" if s > 0 else "negative", v))
                    else:
                        ctx.ok("width sign")


def sign_of(n, f):
    n = f.resolve(n)
    if n.op == "bin" and n.args[0] == "*":
        a, b = sign_of(n.args[1], f), sign_of(n.args[2], f)
        return None if a is None or b is None else a * b
    if n.op == "const" and isinstance(n.args[1], (int, float)) and n.args[1] != 0:
        return 1 if n.args[1] > 0 else -1
    if n.op == "un" and n.args[0] == "-":
        s = sign_of(n.args[1], f)
        return None if s is None else -s
    if n.op == "call" and n.args[0] in ("int", "round", "numpy.round", "float"):
        return sign_of(n.args[1][0], f)
    if n.op in ("sub", "attr", "param"):
        return 1
    if n.op == "call" and n.args[0] == "abs":
        return 1
    return None


# ---------------------------------------------------------------------------
def properties(ctx):
    ctx.rule("each element written by an object holding properties carries one attribute/value record pair per property, before the element terminator")
    W = writers(ctx.prog)
    for name in ELEMENT_CLASSES:
        w = W[name]
        ctx.saw(w.it.functions_seen)
        it = w.it
        pn = it.mk("attr", w.self_node, "properties")
        for items, facts, loops in w.each_seq():
            recs = [REC.get(i.code) for i in items if isinstance(i, Rec)]
            if "ENDEL" not in recs:
                continue
            # segments between element start and terminator
            seg = []
            for i in items:
                seg.append(i)
                if isinstance(i, Rec) and REC.get(i.code) == "ENDEL":
                    prop_segment(ctx, w, seg, facts, pn)
                    seg = []
        # delegation keeps the properties
        for items, facts, loops in w.each_seq():
            for i in items:
                if isinstance(i, Elem) and w.cls.name in ("FlexPath", "RobustPath"):
                    ctx.count("delegations")
    for cn in ("FlexPath", "RobustPath"):
        f = ctx.prog.need_method(cn, "to_polygonset")
        it = Interp(ctx.prog, inline=lambda g, i: None if g.name == "__init__" or g is f or g.cls is not None and g.cls.name in ("PolygonSet",) else (False if g.name not in ("to_polygonset",) and size(g) > 60 else None))
        r = it.run(f, self_cls=ctx.prog.need_class(cn))
        S = it.mk("param", f.params()[0])
        ctx.saw(it.functions_seen)
        got = 0
        for g, st, v in r.returns:
            for x in ([v] if v.op != "ite" else it.alts(v)):
                x = strip(x)
                if x.op == "new":
                    pv = st.heap.get((x, "properties"))
                    if pv is not None and (strip(pv), "$c") in st.heap:
                        pv = it.mk("ver", strip(pv), st.heap[(strip(pv), "$c")])
                    if pv is None or (pv.op == "const" and pv.args[1] is None):
                        ctx.violation("properties", "%s.to_polygonset" % cn, f.where, "the polygon set made from a path does not take over its properties")
                    else:
                        from ..flow import NoFacts

                        if "properties" in self_attrs(pv, NoFacts(it), S):
                            ctx.ok("properties carried to polygons")
                            got += 1
                        elif pv.op in ("dict",):
                            ctx.violation("properties", "%s.to_polygonset" % cn, f.where, "the polygon set made from a path gets fresh properties")
                        else:
                            ctx.unknown("properties", f.where, show(pv, 3))


def size(g):
    import ast

    return sum(1 for _ in ast.walk(g.node))


def prop_segment(ctx, w, seg, facts, pn):
    it = w.it
    has = False
    for i in seg:
        if isinstance(i, Loop):
            for b in i.bodies:
                rs = [REC.get(x.code) for x in b.items if isinstance(x, Rec)]
                if "PROPATTR" in rs or "PROPVALUE" in rs:
                    c = covers(i.it, "properties", w.self_node) if isinstance(i.it, Node) else None
                    if rs.count("PROPATTR") != 1 or rs.count("PROPVALUE") != 1:
                        ctx.violation("properties", "%s:pair" % w.name, i.where, "an iteration over the properties writes %s" % rs)
                    if c is False:
                        ctx.violation("properties", "%s:part" % w.name, i.where, "only part of the properties is written")
                    has = True
                elif b.items == [] and i.bodies and any("PROPATTR" in [REC.get(x.code) for x in bb.items if isinstance(x, Rec)] for bb in i.bodies):
                    ctx.violation("properties", "%s:skipped" % w.name, i.where, "an iteration over the properties writes nothing (%s)" % fmt_facts(b.facts))
    if has:
        ctx.ok("properties written", w.name)
        return
    # is the path feasible for an object holding n > 0 properties?
    status = "infeasible"
    for n in (1, 2, 7, 1000):
        r = "feasible"
        for c, v in facts.d.items():
            x = prop_eval(c, pn, n)
            if x == "opaque":
                r = "opaque"
            elif x is not None and x != v:
                r = "infeasible"
                break
        if r == "feasible":
            status = r
            break
        if r == "opaque":
            status = r
    if status == "infeasible":
        ctx.ok("no properties to write")
    elif status == "feasible":
        ctx.violation("properties", w.name, seg[0].where, "an element of an object with %d properties is written without them (%s)" % (n, fmt_facts(facts)))
    else:
        ctx.unknown("properties", seg[0].where, "guard not understood: %s" % fmt_facts(facts))


def prop_eval(c, pn, n):
    """truth of c when the properties are a dict of n items; None: unrelated; 'opaque': not evaluable"""
    c0 = strip(c)
    if c0 is pn:
        return n > 0
    if c.op == "const":
        return bool(c.args[1])
    if c.op == "un" and c.args[0] == "not":
        r = prop_eval(c.args[1], pn, n)
        return (not r) if isinstance(r, bool) else r
    if c.op == "bool":
        rs = [prop_eval(x, pn, n) for x in c.args[1]]
        want = c.args[0] == "or"
        if want in [r for r in rs if isinstance(r, bool)]:
            return want
        if "opaque" in rs:
            return "opaque"
        if None in rs:
            return None
        return not want
    if c.op == "call" and c.args[0] in ("len", "bool") and strip(c.args[1][0]) is pn:
        return n > 0
    if c.op == "cmp":
        op, a, b = c.args
        va, vb = prop_val(a, pn, n), prop_val(b, pn, n)
        if op in ("is", "==") and strip(a) is pn and b.op == "const" and b.args[1] is None:
            return False
        if op == "is not" and strip(a) is pn and b.op == "const" and b.args[1] is None:
            return True
        if va is not None and vb is not None and op in ("<", "<=", ">", ">=", "==", "!="):
            rs = {{"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op] for x in va for y in vb}
            # both outcomes possible: whether the properties are written depends on something else
            return rs.pop() if len(rs) == 1 else None
    if any(x is pn for x in subnodes(c, follow=False)):
        return "opaque"
    return None


def prop_val(x, pn, n):
    if x.op == "const" and isinstance(x.args[1], (int, float)) and not isinstance(x.args[1], bool):
        return {x.args[1]}
    if x.op == "call" and x.args[0] == "len" and strip(x.args[1][0]) is pn:
        return {n}
    if x.op == "call" and x.args[0] in ("int", "bool") and len(x.args[1]) == 1:
        return prop_val(x.args[1][0], pn, n)
    if x.op in ("cmp", "bool") or (x.op == "un" and x.args[0] == "not"):
        r = prop_eval(x, pn, n)
        if isinstance(r, bool):
            return {int(r)}
        if r is None:
            return {0, 1}
    return None

# ---------------------------------------------------------------------------
FIELDS = ["year", "month", "day", "hour", "minute", "second"]


def timestamps(ctx):
    ctx.rule("modification/access times are (year, month, day, hour, minute, second) twice, all from the explicit timestamp when one is given; the explicit timestamp reaches every structure of the library")
    W = writers(ctx.prog)
    for name, rn in (("Cell", "BGNSTR"), ("GdsLibrary", "BGNLIB"), ("GdsWriter.__init__", "BGNLIB")):
        w = W[name]
        ctx.saw(w.it.functions_seen)
        it = w.it
        ts = it.mk("param", "timestamp")
        if "timestamp" not in w.func.params():
            raise AnalysisBroken("%s has no timestamp parameter" % w.name)
        found = False
        for p in w.paths:
            for i in p.items:
                if isinstance(i, Rec) and REC.get(i.code) == rn:
                    found = True
                    for tnone in (False, True):
                        nf = p.facts.add(it.mk("cmp", "is", ts, it.NONE), tnone)
                        if nf is None:
                            continue
                        if not tnone and nf.decide(ts) is None:
                            nf = nf.add(ts, True) or nf
                        check_times(ctx, w, i, nf, ts, tnone, rn)
        if not found:
            ctx.violation("timestamp", "%s:%s" % (w.name, rn), w.func.where, "no %s record" % rn)
    # forwarding
    for name in ("GdsLibrary", "GdsWriter.write_cell"):
        w = W[name]
        it = w.it
        ts = it.mk("param", "timestamp")
        n = 0
        for items, facts, loops in w.each_seq():
            for i in items:
                if isinstance(i, Elem):
                    n += 1
                    v = dict(i.kwargs).get("timestamp")
                    if v is None and len(i.args) > 2:
                        v = i.args[2]
                    if v is None:
                        ctx.violation("timestamp", "%s:forward" % w.name, i.where, "the timestamp is not passed to the cells")
                        continue
                    nf = facts.add(it.mk("cmp", "is", ts, it.NONE), False) or facts
                    nf = nf.add(ts, True) or nf
                    for vv in alternatives(v, nf):
                        if vv is ts:
                            ctx.ok("timestamp forwarded", w.name)
                        elif vv.op in ("const", "attr") or ts not in value_nodes(vv, nf):
                            ctx.violation("timestamp", "%s:forward" % w.name, i.where, "cells can be written with timestamp %s although one was given" % show(vv, 4))
                        else:
                            ctx.unknown("timestamp", i.where, show(vv, 4))
        if n == 0 and name == "GdsLibrary":
            # cells written inline
            ctx.unknown("timestamp", w.func.where, "no nested structure call")


def alternatives(v, facts, depth=0):
    """the feasible values of v under the facts"""
    v = strip(facts.resolve(v))
    if v.op == "ite" and depth < 8:
        out = []
        for pol, x in ((True, v.args[1]), (False, v.args[2])):
            nf = facts.add(v.args[0], pol)
            if nf is not None:
                for y in alternatives(x, nf, depth + 1):
                    if y not in out:
                        out.append(y)
        return out
    if v.op == "phi":
        out = []
        for x in v.args[0]:
            for y in alternatives(x, facts, depth + 1):
                if y not in out:
                    out.append(y)
        return out
    return [v]


def check_times(ctx, w, r, f, ts, tnone, rn):
    if len(r.toks) != 12:
        if any(t.kind == "raw" for t in r.toks):
            ctx.unknown("timestamp", r.where, "fields not resolved")
        else:
            ctx.violation("timestamp", "%s:%s" % (w.name, rn), r.where, "%s has %d time fields" % (rn, len(r.toks)))
        return
    for k, t in enumerate(r.toks):
        n = f.resolve(t.node)
        if n.op == "opaque":
            ctx.unknown("timestamp", r.where, "field %d not resolved" % k)
            continue
        if n.op == "ite":
            ctx.unknown("timestamp", r.where, "field %d undecided" % k)
            continue
        if n.op != "attr":
            ctx.unknown("timestamp", r.where, "field %d is %s" % (k, show(n, 4)))
            continue
        srcs = alternatives(n.args[0], f)
        src = srcs[0]
        for x in srcs:
            if (x is ts) == tnone:
                src = x
        if n.args[1] != FIELDS[k % 6]:
            ctx.violation("timestamp", "%s:%s:field" % (w.name, rn), r.where, "time field %d is %s, expected %s" % (k, n.args[1], FIELDS[k % 6]))
        elif not tnone and src is not ts:
            if ts in value_nodes(src, f):
                ctx.unknown("timestamp", r.where, show(src, 3))
            else:
                ctx.violation("timestamp", "%s:%s:source" % (w.name, rn), r.where, "with an explicit timestamp, field %d comes from %s" % (k, show(src, 4)))
        elif tnone and src is ts:
            ctx.violation("timestamp", "%s:%s:none" % (w.name, rn), r.where, "without a timestamp, field %d is read from None" % k)
        else:
            ctx.ok("time field")


# ---------------------------------------------------------------------------
def headers(ctx):
    ctx.rule("UNITS carries precision/unit then precision; the cells are scaled by unit/precision; LIBNAME is the (padded) name; both writers agree")
    W = writers(ctx.prog)
    for name, init in (("GdsLibrary", None), ("GdsWriter.__init__", None)):
        w = W[name]
        ctx.saw(w.it.functions_seen)
        it = w.it
        q = lambda a: it.mk("param", a) if name != "GdsLibrary" else it.mk("attr", w.self_node, a)
        U, P, N = q("unit"), q("precision"), q("name")
        for p in w.paths:
            recs = [i for i in p.items if isinstance(i, Rec)]
            for r in recs:
                rn = REC.get(r.code)
                if rn == "UNITS":
                    if len(r.toks) != 2 or any(t.kind != "real" for t in r.toks):
                        ctx.unknown("units", r.where, "payload not two 8-byte reals")
                        continue
                    for k, (t, want) in enumerate(zip(r.toks, (Poly.atom(P) * Poly.atom(U).monomial_inv(), Poly.atom(P)))):
                        def g(ff, t=t):
                            return Polyer(ff).of(t.node)

                        for ff, got in fork_all(p.facts, g):
                            if got == want:
                                ctx.ok("units value", "%s UNITS[%d] = %r" % (w.name, k, got))
                            elif any(opaque_atom(a) for a in got.atoms()):
                                ctx.unknown("units", r.where, "%r" % got)
                            else:
                                ctx.violation("units", "%s:UNITS[%d]" % (w.name, k), r.where, "UNITS value %d is %r, expected %r" % (k, got, want))
                if rn == "LIBNAME":
                    src = set()
                    for t in r.toks:
                        src |= {x for x in value_nodes(t.node, p.facts) if x is N}
                    if src:
                        ctx.ok("library name")
                    elif all(p.facts.resolve(t.node).op == "const" for t in r.toks):
                        ctx.violation("libname", w.name, r.where, "LIBNAME does not carry the library name")
                    else:
                        ctx.unknown("libname", r.where, "source not resolved")
                if rn == "HEADER":
                    v = p.facts.resolve(r.toks[0].node) if r.toks else None
                    if v is not None and v.op == "const":
                        if v.args[1] not in (3, 4, 5, 6, 7, 600, 0):
                            ctx.violation("header-version", w.name, r.where, "stream version %r" % v.args[1])
                        else:
                            ctx.ok("stream version")
    # multiplier
    w = W["GdsLibrary"]
    it = w.it
    want = Poly.atom(it.mk("attr", w.self_node, "unit")) * Poly.atom(it.mk("attr", w.self_node, "precision")).monomial_inv()
    check_mult(ctx, w, want)
    # the writer keeps it in an attribute
    wi = W["GdsWriter.__init__"]
    wc = W["GdsWriter.write_cell"]
    for items, facts, loops in wc.each_seq():
        for i in items:
            if isinstance(i, Elem):
                mnode = i.args[1] if len(i.args) > 1 else dict(i.kwargs).get("multiplier")
                if mnode is None:
                    ctx.violation("multiplier", "GdsWriter", i.where, "no multiplier passed to the cell")
                    continue
                # substitute the attributes stored by the constructor
                attrs = {}
                for st_ in wi.res.effects:
                    if st_.kind == "store" and st_.data["obj"] is wi.self_node:
                        attrs.setdefault(st_.data["attr"], []).append(st_.data["value"])
                Uw, Pw = wi.it.mk("param", "unit"), wi.it.mk("param", "precision")
                want = Poly.atom(Uw) * Poly.atom(Pw).monomial_inv()
                polys = [None]

                def sub(n):
                    if n.op == "attr" and n.args[0] is wc.self_node and n.args[1] in attrs and len(attrs[n.args[1]]) == 1:
                        return Polyer(Facts(wi.it)).of(attrs[n.args[1]][0])
                    return None

                try:
                    got = Polyer(facts, atom=sub).of(mnode)
                except Fork:
                    ctx.unknown("multiplier", i.where, "conditional multiplier")
                    continue
                if got == want:
                    ctx.ok("multiplier is unit/precision", "GdsWriter: %r" % got)
                elif any(opaque_atom(a) for a in got.atoms()) or any(isinstance(a, Node) and a.op == "attr" and a.args[0] is wc.self_node for a in got.atoms()):
                    ctx.unknown("multiplier", i.where, "%r" % got)
                else:
                    ctx.violation("multiplier", "GdsWriter", i.where, "cells are scaled by %r, expected %r" % (got, want))


def check_mult(ctx, w, want):
    n = 0
    for items, facts, loops in w.each_seq():
        for i in items:
            if isinstance(i, Elem):
                n += 1
                mnode = i.args[1] if len(i.args) > 1 else dict(i.kwargs).get("multiplier")
                if mnode is None:
                    ctx.violation("multiplier", w.name, i.where, "no multiplier passed to the cells")
                    continue
                try:
                    got = Polyer(facts).of(mnode)
                except Fork:
                    ctx.unknown("multiplier", i.where, "conditional")
                    continue
                if got == want:
                    ctx.ok("multiplier is unit/precision", "%s: %r" % (w.name, got))
                elif any(opaque_atom(a) for a in got.atoms()):
                    ctx.unknown("multiplier", i.where, "%r" % got)
                else:
                    ctx.violation("multiplier", w.name, i.where, "cells are scaled by %r, expected %r" % (got, want))
    return n
