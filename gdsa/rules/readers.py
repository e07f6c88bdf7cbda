"""Rules over the GDSII readers.

The reading loops are analysed once per record type: the record type (and, for
small integer payloads, the payload) is a known constant of the dataflow pass,
so the transfer function of every record on the reader's state falls out of
constant propagation, however the dispatch is written."""
from ..interp import Interp, Node, show, walk_tree, subnodes
from ..model import AnalysisBroken
from ..flow import strip, value_nodes, NoFacts, covers
from ..lin import Facts, Fork
from ..poly import Poly, Polyer
from .writers import alternatives

CODE = {
    "LIBNAME": 2, "UNITS": 3, "ENDLIB": 4, "BGNSTR": 5, "STRNAME": 6, "ENDSTR": 7, "BOUNDARY": 8, "PATH": 9, "SREF": 10,
    "AREF": 11, "TEXT": 12, "LAYER": 13, "DATATYPE": 14, "WIDTH": 15, "XY": 16, "ENDEL": 17, "SNAME": 18, "COLROW": 19,
    "NODE": 21, "TEXTTYPE": 22, "PRESENTATION": 23, "STRING": 25, "STRANS": 26, "MAG": 27, "ANGLE": 28, "PATHTYPE": 33,
    "PROPATTR": 43, "PROPVALUE": 44, "BOX": 45, "BOXTYPE": 46, "BGNEXTN": 48, "ENDEXTN": 49,
}


class Transfer(object):
    """effect of one record on the reader"""

    def __init__(self, R, T, data=None, string=None, conds=None, args=None):
        self.R = R
        self.T = T
        prog = R.prog
        self.it = it = Interp(prog, inline=lambda f, i: False if f.name == "__init__" and f.cls is not None and f.cls.name != R.func.cls.name else None)
        self.data = data
        self.string = string
        self.conds = conds or (lambda c, t: None)
        it.assume = self.assume
        it.rewrite = self.rewrite
        self.rec = None
        self.vars = None
        self.self_node = it.mk("param", R.func.params()[0])
        self.res = it.run(R.func, self_cls=R.func.cls, args={k: it.const(v) for k, v in (args or {}).items()})
        self.loop = self.find_loop(self.res.tree)
        if self.loop is None:
            raise AnalysisBroken("%s: record loop not found" % R.func.qualname)
        self.site = self.loop[1]
        self.effects = []
        walk_tree(self.loop[3], self.effects.append)
        self.vars = {}
        for k, n in list(it.table.items()):
            if n.op == "loopv" and n.args[0] == self.site and n.info is not None:
                self.vars[n.args[1]] = n

    def is_record(self, n):
        n = strip(n)
        if n.op != "elem":
            return False
        b = strip(n.args[0])
        return b.op in ("gencall", "icall") and b.args[0].name in self.R.readers

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] in ("==", "in"):
            a, b = c.args[1], c.args[2]
            if a.op == "sub" and self.is_record(a.args[0]) and a.args[1].op == "const" and a.args[1].args[1] == 0:
                if b.op == "const":
                    return b.args[1] == self.T
        return self.conds(c, self)

    def rewrite(self, n):
        # record[0] -> type, record[1][k] -> payload, record[1] -> string payload
        if n.args[1].op != "const":
            return None
        k = n.args[1].args[1]
        a = n.args[0]
        if k in (0, -2) and self.is_record(a):
            self.rec = strip(a)
            return self.it.const(self.T)
        if k in (1, -1) and self.is_record(a) and self.string is not None:
            return self.it.const(self.string)
        if a.op == "sub" and self.is_record(a.args[0]) and a.args[1].op == "const" and a.args[1].args[1] in (1, -1) and self.data is not None:
            if isinstance(k, int) and 0 <= k < len(self.data):
                return self.it.const(self.data[k])
        return None

    def payload(self, k=None):
        """node of the record data (or of its k-th item)"""
        rec = None
        for n in self.it.table.values():
            if n.op == "elem" and self.is_record(n):
                rec = n
        if rec is None:
            return None
        d = self.it.mk("sub", rec, self.it.const(1))
        return d if k is None else self.it.mk("sub", d, self.it.const(k))

    def find_loop(self, tree):
        for t in tree:
            if t[0] == "loop" and isinstance(t[2], Node) and any(x.op in ("gencall", "icall") and x.args[0].name in self.R.readers for x in subnodes(t[2], follow=False)):
                return t
            for sub in children(t):
                r = self.find_loop(sub)
                if r is not None:
                    return r
        return None

    def role(self, key):
        """node playing a role: a loop-carried variable or one persistent object"""
        if isinstance(key, tuple) and key and key[0] == "obj":
            for n in self.it.table.values():
                if n.op == key[1] and n.args[-1] == key[2]:
                    return n
            return None
        if self.vars is None:
            for n in self.it.table.values():
                if n.op == "loopv" and n.args[1] == key:
                    return n
            return None
        return self.vars.get(key)

    def next(self, key):
        if isinstance(key, tuple) and key and key[0] == "obj":
            return self.role(key)
        v = self.vars.get(key)
        if v is None:
            return None
        return v.info.get("next", v)

    def mentions_payload(self):
        """does the record's data reach any effect or loop-carried variable?"""
        def has(n):
            return any(x.op == "sub" and self.is_record(x.args[0]) for x in subnodes(n, follow=False))
        for e in self.effects:
            if e.kind in ("storeitem", "store", "call", "mcall", "icall", "new") and any(has(v) for v in e.data.values() if isinstance(v, (Node, tuple))):
                return True
        for v in self.vars.values():
            nx = v.info.get("next")
            if nx is not None and nx is not v and has(nx):
                return True
        return False


def tries(tree, out, inside=False):
    """effects inside the body of a try statement with handlers"""
    for t in tree:
        if t[0] == "try":
            tries(t[1], out, inside or bool(t[2]))
            for _, h in t[2]:
                tries(h, out, inside)
            tries(t[3], out, inside)
        elif t[0] in ("if", "loop", "inline", "with"):
            for c in children(t):
                tries(c, out, inside)
        elif inside:
            walk_tree([t], out.add)


def children(t):
    k = t[0]
    if k == "if":
        return [t[2], t[3]]
    if k == "loop":
        return [t[3]]
    if k == "inline":
        return [t[2]]
    if k == "with":
        return [t[2]]
    if k == "try":
        return [t[1]] + [h for _, h in t[2]] + [t[3]]
    return []


class Reader(object):
    def __init__(self, prog):
        self.prog = prog
        self.func = prog.need_method("GdsLibrary", "read_gds")
        self.cls = prog.need_class("GdsLibrary")
        prog.need_function("gdspy.gdsiiformat", "_record_reader")
        self.readers = {"_record_reader"}
        # generators/wrappers around the record reader count as record readers
        for f in prog.all_functions():
            if f.is_generator and f.module.name.endswith(("gdsiiformat", "library")):
                import ast

                if any(isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", None)) == "_record_reader" for x in ast.walk(f.node)):
                    self.readers.add(f.name)
        self.cache = {}
        self.roles()

    def tr(self, T, data=None, string=None, conds=None, key=None, args=None):
        k = (T, None if data is None else tuple(data), string, key, tuple(sorted((args or {}).items())))
        if k not in self.cache:
            self.cache[k] = Transfer(self, T, data, string, conds, args)
        return self.cache[k]

    def roles(self):
        """which loop-carried variables play which part, from the element terminator"""
        t = self.tr(CODE["ENDEL"])
        self.creator = self.attrs = self.cellv = self.props = None
        created = []
        for e in t.effects:
            if e.kind == "call" and isinstance(e.data["target"], Node):
                kw = dict((k, v) for k, v in e.kwargs if k == "**")
                if kw:
                    created.append(e)
        self.created = created
        for e in created:
            tg = strip(e.target)
            self.creator = tg.args[1] if tg.op == "loopv" else None
            a = strip(dict(e.kwargs)["**"])
            self.attrs = self.identify(a)
            for f in t.effects:
                if f.kind == "store" and f.attr == "properties" and strip(f.obj) is e.result:
                    p = strip(f.value)
                    self.props = self.identify(p)
        self.addcalls = []
        for f in t.effects:
            if f.kind in ("mcall", "icall") and created:
                args = f.args
                if any(strip(x) is e.result for x in args for e in created):
                    self.addcalls.append(f)
                    rv = strip(f.recv) if f.kind == "mcall" else strip(args[0])
                    if rv.op == "loopv":
                        self.cellv = rv.args[1]

    def scales(self):
        """loop-carried variables the UNITS record sets"""
        if not hasattr(self, "_scales"):
            t = self.tr(CODE["UNITS"])
            self._scales = set()
            for k, v in t.vars.items():
                nx = v.info.get("next")
                if nx is not None and nx is not v and isinstance(k, str) and any(x.op == "sub" and t.is_record(x.args[0]) for x in subnodes(nx, follow=False)):
                    self._scales.add(k)
        return self._scales

    @staticmethod
    def identify(n):
        if n.op == "loopv":
            return n.args[1]
        if n.op == "dict" or n.op == "call" and n.args[0] in ("dict", "collections.OrderedDict", "collections.defaultdict"):
            return ("obj", n.op, n.args[-1])
        return None

    # ---- element attribute stores of one record ------------------------
    def stores(self, t):
        """[(key, value, guards)] of the record's stores into the attribute mapping"""
        out = []
        av = t.role(self.attrs)
        for e in t.effects:
            if e.kind == "storeitem" and strip(e.obj) is av:
                k = e.key.args[1] if e.key.op == "const" else None
                out.append((k, e.value, e.guards, e.where))
            if e.kind == "mcall" and strip(e.recv) is av and e.name in ("update", "setdefault"):
                if e.name == "update":
                    for kk, v in e.kwargs:
                        out.append((kk, v, e.guards, e.where))
                    for x in e.args:
                        x = strip(x)
                        if x.op == "dict":
                            for kk, v in x.args[0]:
                                out.append((kk.args[1] if kk.op == "const" else None, v, e.guards, e.where))
                        else:
                            out.append((None, x, e.guards, e.where))
                else:
                    out.append((e.args[0].args[1] if e.args[0].op == "const" else None, e.args[1] if len(e.args) > 1 else t.it.NONE, e.guards, e.where))
        return out


_R = {}


def reader(prog):
    if prog not in _R:
        _R[prog] = Reader(prog)
    return _R[prog]


def in_map(present, name):
    """assumption: membership of the record's value in the mapping parameter"""
    def f(c, t):
        if c.op == "cmp" and c.args[0] == "in":
            m = strip(c.args[2])
            if m.op == "param" and m.args[0] == name:
                return present
        if c.op == "cmp" and c.args[0] == "is":
            return None
        if c.op == "param" and c.args[0] == name:
            return True if present else None
        return None
    return f


def lookup(t, v, name, key, present):
    """('hit',) when v is <name>[key]; the default node when absent; None unknown"""
    v = strip(v)
    it = t.it
    m = it.mk("param", name)
    if v.op == "sub" and strip(v.args[0]) is m:
        return ("hit",) if v.args[1].op == "const" and v.args[1].args[1] == key else ("wrong key", v)
    if v.op == "mcall" and v.args[1] == "get" and strip(v.args[0]) is m and v.args[2]:
        if not (v.args[2][0].op == "const" and v.args[2][0].args[1] == key):
            return ("wrong key", v)
        if present:
            return ("hit",)
        d = v.args[2][1] if len(v.args[2]) > 1 else it.NONE
        return lookup(t, d, name, key, present)
    if v.op == "const":
        return ("const", v.args[1])
    return ("other", v)


# ---------------------------------------------------------------------------
def split(t, v, facts=None, depth=0):
    """[(facts, value)] feasible alternatives of a value"""
    facts = facts or Facts(t.it)
    v = facts.resolve(v)
    while v.op == "ver":
        return [(facts, v)]
    if v.op == "ite" and depth < 8:
        out = []
        for pol, x in ((True, v.args[1]), (False, v.args[2])):
            nf = facts.add(v.args[0], pol)
            if nf is not None:
                out += split(t, x, nf, depth + 1)
        return out
    if v.op == "phi" and depth < 8:
        out = []
        for x in v.args[0]:
            out += split(t, x, facts, depth + 1)
        return out
    return [(facts, v)]


def single(ctx, R, t, rn, what):
    """the unique attribute store of a record; reports otherwise"""
    ss = R.stores(t)
    loc = R.func.where
    if not ss:
        if t.mentions_payload():
            ctx.unknown("read-store", loc, "%s: destination of the data not resolved" % rn)
        else:
            ctx.violation("read-dropped", rn, loc, "%s records are read and their %s is not used" % (rn, what))
        return None
    return ss


def guards_open(t, guards):
    """conditions of a store still undecided once the record is known"""
    out = []
    f = Facts(t.it)
    for c, p in guards:
        d = f.decide(c)
        if d is None:
            d = t.conds(c, t)
        if d is None and any(x.op == "loopv" for x in subnodes(c)):
            out.append((c, p))
    return out


MAPS = {"LAYER": "layers", "DATATYPE": "datatypes", "BOXTYPE": "datatypes", "TEXTTYPE": "texttypes"}
KEYS = {
    "LAYER": "layer", "DATATYPE": "datatype", "BOXTYPE": "datatype", "TEXTTYPE": "texttype", "XY": "xy", "WIDTH": "width",
    "SNAME": "ref_cell", "STRING": "text", "MAG": "magnification", "ANGLE": "rotation", "STRANS": "x_reflection",
    "PRESENTATION": "anchor", "PATHTYPE": "ends", "BGNEXTN": "bgnextn", "ENDEXTN": "endextn",
}


def need_roles(ctx, R):
    if R.creator is None or R.attrs is None:
        ctx.unknown("read-roles", R.func.where, "element construction at ENDEL not resolved")
        return False
    return True


def scalar_store(ctx, R, t, rn, want, label, what="value"):
    ss = single(ctx, R, t, rn, what)
    if ss is None:
        return None
    ok = None
    for k, v, g, w in ss:
        for f, x in split(t, v):
            if x.op == "const":
                if ok is not False:
                    ok = x.args[1] == want and type(x.args[1]) in (type(want), int, float, bool, str)
                if not (x.args[1] == want):
                    ok = False
                    ctx.violation("read-value", rn, w, "%s %s is imported as %r instead of %r" % (rn, label, x.args[1], want))
            elif any(y.op == "loopv" and y.args[1] in R.scales() for y in value_nodes(x, NoFacts(t.it))):
                ctx.violation("read-value", rn, w, "%s %s is multiplied by the unit factor" % (rn, label))
                ok = False
            else:
                ctx.unknown("read-value", w, "%s %s: %s" % (rn, label, show(x, 4)))
                ok = ok if ok is False else None
    if ok:
        ctx.ok("record value", "%s %s -> %s=%r" % (rn, label, ss[0][0], want))
    return {k for k, v, g, w in ss}


def import_attributes(ctx):
    ctx.rule("for every record type the transfer function on the reader's element attributes is the inverse of what the writers emit (layer/datatype/texttype maps, flags, anchors, path types, text, magnification, rotation, columns/rows, properties)")
    R = reader(ctx.prog)
    if not need_roles(ctx, R):
        return
    keys = {}
    for rn, m in MAPS.items():
        for present in (False, True):
            t = R.tr(CODE[rn], data=[7, 3], conds=in_map(present, m), key=("map", present))
            ctx.saw(t.it.functions_seen)
            ss = single(ctx, R, t, rn, "value")
            if ss is None:
                break
            for k, v, g, w in ss:
                keys.setdefault(rn, set()).add(k)
                for f, x in split(t, v):
                    r = lookup(t, x, m, 7, present)
                    if present and r == ("hit",) or not present and r == ("const", 7):
                        ctx.ok("record value", "%s 7 -> %s" % (rn, "the mapped number" if present else "7"))
                    elif r[0] in ("const", "hit", "wrong key"):
                        ctx.violation("read-value", rn, w, "%s 7 %s in the `%s` mapping is imported as %s" % (rn, "present" if present else "not", m, show(x, 4)))
                    elif any(y.op == "param" and y.args[0] in ("layers", "datatypes", "texttypes", "rename") and y.args[0] != m for y in value_nodes(x, NoFacts(t.it))):
                        ctx.violation("read-value", rn, w, "%s is looked up in another mapping: %s" % (rn, show(x, 4)))
                    else:
                        ctx.unknown("read-value", w, "%s -> %s" % (rn, show(x, 4)))
                o = guards_open(t, g)
                if o:
                    ctx.unknown("read-guard", w, "%s stored under %s" % (rn, show(o[0][0], 3)))
    for d in (0x8000, 0, 6, 0x8006, 4, 2):
        t = R.tr(CODE["STRANS"], data=[d])
        keys["STRANS"] = scalar_store(ctx, R, t, "STRANS", bool(d & 0x8000), "0x%04X" % d, "reflection flag") or keys.get("STRANS", set())
    for rn, vals in (("MAG", (2.5, 0.5)), ("ANGLE", (30.0, -45.5))):
        for d in vals:
            t = R.tr(CODE[rn], data=[d])
            keys[rn] = scalar_store(ctx, R, t, rn, d, repr(d)) or set()
    t = R.tr(CODE["STRING"], string=" Some text ")
    keys["STRING"] = scalar_store(ctx, R, t, "STRING", " Some text ", "' Some text '", "text") or set()
    # column / row
    t = R.tr(CODE["COLROW"], data=[5, 3])
    ss = single(ctx, R, t, "COLROW", "counts")
    if ss is not None:
        d = {}
        for k, v, g, w in ss:
            d[k] = v
        for k, want in (("columns", 5), ("rows", 3)):
            v = d.get(k)
            if v is None:
                ctx.unknown("read-value", R.func.where, "COLROW: no %s" % k)
            elif v.op == "const":
                if v.args[1] != want:
                    ctx.violation("read-value", "COLROW", R.func.where, "COLROW (5, 3) gives %s=%r" % (k, v.args[1]))
                else:
                    ctx.ok("record value", "COLROW -> %s" % k)
            else:
                ctx.unknown("read-value", R.func.where, "COLROW: %s" % show(v, 3))
    # anchors: inverse of the writer's table
    lab = ctx.prog.need_class("Label")
    it = Interp(ctx.prog)
    tab = None
    ca = lab.find_attr("_anchor")
    if ca is not None:
        tab = it.literal(it.classattr(ca[0], "_anchor", ca[1]))
    if isinstance(tab, dict):
        for code in sorted(set(tab.values())):
            t = R.tr(CODE["PRESENTATION"], data=[code])
            ss = single(ctx, R, t, "PRESENTATION", "anchor")
            for k, v, g, w in ss or ():
                keys.setdefault("PRESENTATION", set()).add(k)
                for f, x in split(t, v):
                    if x.op == "const" and isinstance(x.args[1], str):
                        got = tab.get(x.args[1].lower())
                        if got != code:
                            ctx.violation("read-anchor", "PRESENTATION:%d" % code, w, "anchor code %d is imported as %r, which is written as %s" % (code, x.args[1], got))
                        else:
                            ctx.ok("anchor code inverse", "%d -> %r" % (code, x.args[1]))
                    else:
                        ctx.unknown("read-anchor", w, show(x, 3))
        names = {}
    else:
        ctx.unknown("read-anchor", lab.where if hasattr(lab, "where") else R.func.where, "anchor table not literal")
    # path types: inverse of the writers' table
    for cn in ("FlexPath",):
        c = ctx.prog.need_class(cn)
        ca = c.find_attr("_pathtype_dict")
        ptab = it.literal(it.classattr(ca[0], "_pathtype_dict", ca[1])) if ca is not None else None
        if not isinstance(ptab, dict):
            ctx.unknown("read-pathtype", R.func.where, "path type table not literal")
            continue
        for code in (0, 1, 2):
            t = R.tr(CODE["PATHTYPE"], data=[code])
            ss = single(ctx, R, t, "PATHTYPE", "end type")
            for k, v, g, w in ss or ():
                keys.setdefault("PATHTYPE", set()).add(k)
                for f, x in split(t, v):
                    if x.op == "const":
                        if ptab.get(x.args[1], 4) != code:
                            ctx.violation("read-pathtype", "PATHTYPE:%d" % code, w, "path type %d is imported as %r, which is written as %s" % (code, x.args[1], ptab.get(x.args[1], 4)))
                        else:
                            ctx.ok("path type inverse", "%d -> %r" % (code, x.args[1]))
                    else:
                        ctx.unknown("read-pathtype", w, show(x, 3))
    for rn in ("XY", "WIDTH", "BGNEXTN", "ENDEXTN", "SNAME"):
        t = R.tr(CODE[rn])
        ss = single(ctx, R, t, rn, "data")
        for k, v, g, w in ss or ():
            if rn == "WIDTH" and k == "width_transform":
                continue
            keys.setdefault(rn, set()).add(k)
    # distinct destinations
    seen = {}
    for rn, ks in keys.items():
        for k in ks:
            if k is not None:
                seen.setdefault(k, set()).add(rn)
    for k, rs in seen.items():
        if len(rs) > 1 and rs != {"DATATYPE", "BOXTYPE"}:
            ctx.violation("read-collision", k, R.func.where, "records %s are all stored as %r" % (sorted(rs), k))
    properties_read(ctx, R)
    width_flag(ctx, R)
    factories(ctx, R, keys)


def width_flag(ctx, R):
    for d, neg in ((5, False), (-5, True)):
        t = R.tr(CODE["WIDTH"], data=[d])
        ss = R.stores(t)
        flags = [(v, w) for k, v, g, w in ss if k == "width_transform"]
        vals = set()
        for v, w in flags:
            for f, x in split(t, v):
                vals.add(x.args[1] if x.op == "const" else "?")
        if "?" in vals:
            ctx.unknown("read-width", R.func.where, "width_transform not constant")
        elif neg and vals != {False}:
            ctx.violation("read-width", "WIDTH:absolute", R.func.where, "a negative (absolute) width leaves the path scaling its width (width_transform %s)" % (sorted(map(str, vals)) or "unset"))
        elif not neg and False in vals:
            ctx.violation("read-width", "WIDTH:relative", R.func.where, "a positive width is imported as absolute")
        else:
            ctx.ok("width sign flag")


def properties_read(ctx, R):
    t = R.tr(CODE["ENDEL"])
    if R.props is None:
        ctx.violation("read-properties", "ENDEL:properties", R.func.where, "no properties are attached to the elements created") if not any(e.kind == "store" and e.attr == "properties" for e in t.effects) else ctx.unknown("read-properties", R.func.where, "source of the element properties not resolved")
        return
    t44 = R.tr(CODE["PROPVALUE"], string=" A Value ")
    pv = t44.role(R.props)
    ss = [e for e in t44.effects if e.kind == "storeitem" and strip(e.obj) is pv] if pv is not None else []
    if not ss:
        if t44.mentions_payload() or any(e.kind == "storeitem" for e in t44.effects):
            ctx.unknown("read-properties", R.func.where, "PROPVALUE destination not resolved")
        else:
            ctx.violation("read-properties", "PROPVALUE", R.func.where, "property values are read and dropped")
        return
    t43 = R.tr(CODE["PROPATTR"], data=[9])
    for e in ss:
        k = strip(e.key)
        if e.value.op == "const":
            if e.value.args[1] != " A Value ":
                ctx.violation("read-properties", "PROPVALUE:value", e.where, "the property value is stored as %r" % (e.value.args[1],))
            else:
                ctx.ok("property value")
        else:
            ctx.unknown("read-properties", e.where, show(e.value, 3))
        if k.op == "loopv":
            nx = t43.next(k.args[1])
            if nx is None or strip(nx).op == "loopv":
                ctx.violation("read-properties", "PROPATTR", e.where, "the property number is not taken from the PROPATTR record")
            else:
                for num in (9, 1, 127, 200, 32767):
                    tn = R.tr(CODE["PROPATTR"], data=[num])
                    for f, x in split(tn, tn.next(k.args[1])):
                        if x.op == "const" and x.args[1] == num:
                            ctx.ok("property number")
                        elif x.op == "const" or strip(x).op == "loopv":
                            ctx.violation("read-properties", "PROPATTR", e.where, "property number %d is imported as %s" % (num, show(x, 3)))
                        else:
                            ctx.unknown("read-properties", e.where, show(x, 3))
        elif k.op == "const":
            ctx.violation("read-properties", "PROPATTR", e.where, "all properties are stored under %r" % (k.args[1],))
        else:
            ctx.unknown("read-properties", e.where, show(k, 3))


def fresh_empty(t, key, f, x):
    """is x an empty mapping that no element shares?  True/False/None"""
    s = strip(x)
    if x.op == "ver":
        c = f.resolve(x.args[1])
        if c.op == "upd" and c.args[1] == "clear":
            return True
    if isinstance(key, tuple) and s is t.role(key):
        return False
    if s.op == "dict" and x.op == "dict":
        return len(s.args[0]) == 0
    if s.op == "call" and s.args[0] == "dict" and not s.args[1] and x.op == "call":
        return True
    if s.op == "loopv" and s.args[1] == key:
        it = t.it
        e = f.decide(s)
        if e is None:
            e = f.decide(it.mk("call", "len", (s,), (), None))
        for c, v in f.d.items():
            if c.op == "cmp" and c.args[1].op == "call" and c.args[1].args[0] == "len" and strip(c.args[1].args[1][0]) is s and c.args[2].op == "const":
                o, k = c.args[0], c.args[2].args[1]
                if o == ">" and k == 0 and not v or o == "==" and k == 0 and v or o == "<" and k == 1 and v or o == ">=" and k == 1 and not v:
                    return True
            if c.op == "ver" and strip(c) is s and not v:
                return True
        if e is False:
            return True
        return False
    return None


def element_state(ctx):
    ctx.rule("at every element terminator, on every path, the collected attributes, the pending constructor and the properties are reset, so nothing leaks into the next element; the created element is added to the current cell exactly once and unconditionally")
    R = reader(ctx.prog)
    if not need_roles(ctx, R):
        return
    t = R.tr(CODE["ENDEL"])
    ctx.saw(t.it.functions_seen)
    it = t.it
    for key, what in ((R.attrs, "attributes"), (R.props, "properties")):
        if key is None:
            continue
        nx = t.next(key)
        v = t.role(key)
        cleared = [e for e in t.effects if e.kind == "mcall" and e.name == "clear" and strip(e.recv) is v]
        for e in cleared:
            if what == "properties" and any(f.kind == "store" and f.attr == "properties" and strip(f.value) is v for f in t.effects):
                ctx.violation("read-alias", "properties", e.where, "the mapping given to the element is cleared afterwards")
        if isinstance(key, tuple) and what == "properties" and any(f.kind == "store" and f.attr == "properties" and strip(f.value) is v for f in t.effects):
            ctx.violation("read-alias", "properties", R.func.where, "all elements share one properties mapping")
        contents = t.next((v, "$c"))
        for f, x in split(t, nx if nx is not None else v):
            r = fresh_empty(t, key, f, x)
            if r is False and strip(x) is v and contents is None and x.op == "ver":
                contents = x.args[1]
            if r is False and strip(x) is v and contents is not None:
                # same mapping: emptied in place?
                def emptied(c, ff, d=0):
                    c = ff.resolve(c)
                    if c.op == "upd" and c.args[1] == "clear":
                        return True
                    if c.op == "ite" and d < 6:
                        out = []
                        for pol, y in ((True, c.args[1]), (False, c.args[2])):
                            nf = ff.add(c.args[0], pol)
                            if nf is not None:
                                out.append(emptied(y, nf, d + 1))
                        return all(out)
                    return False
                if emptied(contents, f):
                    r = True
            if r is True:
                ctx.ok("state reset", "%s after ENDEL: %s" % (what, show(x, 2)))
            elif r is False:
                ctx.violation("read-leak", what, R.func.where, "the %s collected for an element survive its terminator when %s" % (what, "; ".join("%s is %s" % (show(c, 3), b) for c, b in f.d.items()) or "it is reached"))
            else:
                ctx.unknown("read-leak", R.func.where, "%s: %s" % (what, show(x, 3)))
    cv = t.vars.get(R.creator)
    nx = t.next(R.creator)
    for f, x in split(t, nx if nx is not None else cv):
        s = strip(x)
        if s.op == "const" and s.args[1] is None:
            ctx.ok("pending constructor reset")
        elif s is cv and f.decide(it.mk("cmp", "is", cv, it.NONE)) is True:
            ctx.ok("pending constructor reset")
        elif s is cv and f.decide(cv) is False:
            ctx.ok("pending constructor reset")
        elif s is cv:
            ctx.violation("read-leak", "constructor", R.func.where, "the pending element kind survives the element terminator")
        else:
            ctx.unknown("read-leak", R.func.where, "constructor: %s" % show(x, 3))
    # creation and addition
    for e in R.created:
        extra = []
        ff = Facts(it)
        for c, p in e.guards:
            if strip(c) is cv or (c.op == "cmp" and strip(c.args[1]) is cv):
                continue
            if any(x.op == "loopv" and x.args[0] == t.site for x in subnodes(c, follow=False)) and ff.decide(c) is None:
                extra.append((c, p))
        if extra:
            ctx.violation("read-conditional", "create", e.where, "an element is dropped depending on %s" % show(extra[0][0], 4))
        else:
            ctx.ok("element creation unconditional")
        adds = [a for a in R.addcalls if any(strip(y) is e.result for y in a.args)]
        adds = [a for a in adds if (a.kind == "mcall" and a.name in ("add", "append")) or a.kind == "icall"]
        if len(adds) == 0:
            if R.addcalls:
                ctx.unknown("read-add", e.where, "element handed over through %s" % R.addcalls[0].kind)
            else:
                ctx.violation("read-add", "add", e.where, "the element created is not added to a cell")
        elif len(adds) > 1:
            ctx.violation("read-add", "add", e.where, "the element created is added %d times" % len(adds))
        else:
            more = [g for g in adds[0].guards if g not in e.guards]
            if more:
                ctx.violation("read-conditional", "add", adds[0].where, "a created element is added only when %s is %s" % (show(more[0][0], 4), more[0][1]))
            else:
                ctx.ok("element added once")
    # each element kind starts the right constructor
    want = {"BOUNDARY": "PolygonSet", "BOX": "PolygonSet", "PATH": "FlexPath", "TEXT": "Label", "SREF": "CellReference", "AREF": "CellArray"}
    for rn, cn in want.items():
        fac = factory(ctx, R, rn)
        if fac is None:
            continue
        for c in fac.classes:
            base = ctx.prog.need_class(cn)
            if c.issub(base) or (cn == "FlexPath" and c.name == "RobustPath"):
                ctx.ok("element kind", "%s -> %s" % (rn, c.name))
            else:
                ctx.violation("read-kind", rn, R.func.where, "%s elements are imported as %s" % (rn, c.name))
    # unsupported record types are skipped, not a crash
    handled = set(CODE.values())
    for T in list(range(0, 0x3C)) + [0x3C, 0x3D, 0x40, 0x50, 0x7F, 0xFF]:
        t = R.tr(T)
        caught = set()
        tries(t.loop[3], caught)
        for e in t.effects:
            if e in caught:
                continue
            for v in e.data.values():
                if isinstance(v, (Node, tuple)):
                    for x in value_nodes(v, NoFacts(t.it)):
                        if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[1], int):
                            lit = t.it.literal(strip(x.args[0]))
                            if isinstance(lit, (tuple, list)) and not (-len(lit) <= x.args[1].args[1] < len(lit)):
                                ctx.violation("read-unknown", "table", e.where, "a record of type 0x%02X indexes a table of %d names: unsupported records crash the import" % (T, len(lit)))
        ctx.count("record types analysed")
    ctx.ok("unsupported record types skipped")


# ---------------------------------------------------------------------------
class Factory(object):
    def __init__(self, R, func, conds=None):
        self.R = R
        self.func = func
        prog = R.prog
        self.it = it = Interp(prog, inline=lambda f, i: False if f.name == "__init__" else None)
        it.assume = self.assume
        self.conds = conds or (lambda c: None)
        self.res = it.run(func, self_cls=R.func.cls)
        self.names = set(func.params()[1:] if func.cls is not None and func.kind == "plain" else func.params())
        self.kw = None
        if func.node.args.kwarg:
            self.kw = it.mk("param", "**" + func.node.args.kwarg.arg)
        self.news = [e for e in self.res.effects if e.kind == "new"]
        self.classes = [e.cls for e in self.news if e.cls.name in ("PolygonSet", "Polygon", "FlexPath", "RobustPath", "Label", "CellReference", "CellArray") or any(b.name == "PolygonSet" for b in e.cls.mro())]

    def assume(self, c, st):
        return self.conds(c)

    def key_of(self, n):
        """the attribute key a node reads, or None"""
        n = strip(n)
        if n.op == "param" and n.args[0] in self.names:
            return n.args[0]
        if n.op == "sub" and strip(n.args[0]) is self.kw and n.args[1].op == "const":
            return n.args[1].args[1]
        if n.op == "mcall" and n.args[1] in ("pop", "get") and strip(n.args[0]) is self.kw and n.args[2] and n.args[2][0].op == "const":
            return n.args[2][0].args[1]
        if n.op == "kwget" and strip(n.args[0]) is self.kw:
            return n.args[1]
        return None

    def ctor_args(self, e):
        """constructor parameter -> ('node', Node) or ('key', attribute key)"""
        out = {}
        init = e.cls.find_method("__init__")
        ps = init.params()[1:] if init is not None else []
        for i, a in enumerate(e.args):
            if i < len(ps):
                out[ps[i]] = ("node", a)
        star = None
        for k, v in e.kwargs:
            if k == "**":
                star = v
            else:
                out[k] = ("node", v)
        if star is not None:
            for p in ps:
                if p not in out:
                    out[p] = self.lookup(star, p)
        return out

    def lookup(self, m, p, depth=0):
        """value of key p in the mapping node m"""
        base = strip(m)
        c = m.args[1] if m.op == "ver" else None
        return self.content(c, base, p)

    def content(self, c, base, p, d=0):
        if c is None or c.op == "init":
            if base is self.kw:
                return ("absent", None) if p in self.names else ("key", p)
            if base.op == "dict":
                for k, v in base.args[0]:
                    if k.op == "const" and k.args[1] == p:
                        return ("node", v)
                return ("absent", None)
            if base.op == "kwrest":
                return ("key", p) if p not in base.args[1] else ("absent", None)
            return ("unknown", None)
        if c.op == "upd":
            if c.args[1] == "setitem":
                k = c.args[2][0]
                if k.op == "const" and k.args[1] == p:
                    return ("node", c.args[2][1])
                if k.op != "const":
                    return ("unknown", None)
            elif c.args[1] in ("pop", "delitem"):
                k = c.args[2][0]
                if k.op == "const" and k.args[1] == p:
                    return ("absent", None)
            elif c.args[1] not in ("setdefault",):
                return ("unknown", None)
            return self.content(c.args[0], base, p, d + 1)
        if c.op == "ite":
            dd = self.conds(c.args[0])
            if dd is not None:
                return self.content(c.args[1] if dd else c.args[2], base, p, d + 1)
            a, b = self.content(c.args[1], base, p, d + 1), self.content(c.args[2], base, p, d + 1)
            if a == b:
                return a
            if "unknown" in (a[0], b[0]):
                return ("unknown", None)
            na = a[1] if a[0] == "node" else self.it.mk("kwget", self.kw, p) if a[0] == "key" else self.it.mk("undef")
            nb = b[1] if b[0] == "node" else self.it.mk("kwget", self.kw, p) if b[0] == "key" else self.it.mk("undef")
            return ("node", self.it.mk("ite", c.args[0], na, nb))
        return ("unknown", None)


def factory_func(R, rn):
    t = R.tr(CODE[rn])
    nx = t.next(R.creator)
    if nx is None or strip(nx) is t.vars.get(R.creator):
        return t, None, "unset"
    outs = [x for f, x in split(t, nx)]
    if len(outs) != 1:
        return t, None, "several"
    x = strip(outs[0])
    if x.op == "bound":
        return t, x.args[1], None
    if x.op == "func":
        return t, x.args[0], None
    if x.op == "attr":
        return t, None, "attr"
    return t, None, "other"


def factory(ctx, R, rn, conds=None):
    t, f, why = factory_func(R, rn)
    if f is None:
        if why == "unset":
            ctx.violation("read-dropped", rn, R.func.where, "%s elements are not imported" % rn)
        else:
            ctx.unknown("read-factory", R.func.where, "%s: constructor %s" % (rn, why))
        return None
    fac = Factory(R, f, conds)
    ctx.saw(fac.it.functions_seen)
    if not fac.classes:
        ctx.unknown("read-factory", f.where, "%s: element class not resolved" % rn)
        return None
    return fac


def contains(conds_map, kwname=None):
    def f(c):
        if c.op == "cmp" and c.args[0] == "in" and c.args[1].op == "const" and c.args[1].args[1] in conds_map:
            return conds_map[c.args[1].args[1]]
        return None
    return f


def factories(ctx, R, keys):
    """composition record -> attribute key -> constructor parameter"""
    rev = {}
    for rn, ks in keys.items():
        for k in ks:
            rev.setdefault(k, set()).add(rn)
    want = {
        "BOUNDARY": {"layer": "LAYER", "datatype": "DATATYPE"},
        "BOX": {"layer": "LAYER", "datatype": "BOXTYPE"},
        "PATH": {"layer": "LAYER", "datatype": "DATATYPE", "width": "WIDTH"},
        "TEXT": {"text": "STRING", "position": "XY", "anchor": "PRESENTATION", "rotation": "ANGLE", "magnification": "MAG", "x_reflection": "STRANS", "layer": "LAYER", "texttype": "TEXTTYPE"},
        "SREF": {"ref_cell": "SNAME", "origin": "XY", "rotation": "ANGLE", "magnification": "MAG", "x_reflection": "STRANS"},
        "AREF": {"ref_cell": "SNAME", "rotation": "ANGLE", "magnification": "MAG", "x_reflection": "STRANS"},
    }
    for rn, params in want.items():
        fac = factory(ctx, R, rn, contains({"bgnextn": False, "endextn": False}))
        if fac is None:
            continue
        for e in fac.news:
            if e.cls not in fac.classes:
                continue
            args = fac.ctor_args(e)
            for p, src in params.items():
                a = args.get(p, ("absent", None))
                k = a[1] if a[0] == "key" else (fac.key_of(a[1]) if a[0] == "node" else None)
                if a[0] == "absent":
                    ctx.violation("read-argument", "%s:%s" % (rn, p), e.where, "%s elements are created without their %s" % (rn, p))
                elif k is None:
                    if a[0] == "node" and a[1].op == "const":
                        ctx.violation("read-argument", "%s:%s" % (rn, p), e.where, "%s of %s elements is always %r" % (p, rn, a[1].args[1]))
                    else:
                        ctx.unknown("read-argument", e.where, "%s %s <- %s" % (rn, p, show(a[1], 3) if a[1] is not None else a[0]))
                elif src in rev.get(k, set()):
                    ctx.ok("constructor argument", "%s %s <- %s" % (rn, p, src))
                elif rev.get(k):
                    ctx.violation("read-argument", "%s:%s" % (rn, p), e.where, "%s of %s elements comes from %s instead of %s" % (p, rn, sorted(rev[k]), src))
                elif keys.get(src):
                    ctx.violation("read-argument", "%s:%s" % (rn, p), e.where, "%s of %s elements is read from %r, which no record sets (%s sets %s)" % (p, rn, k, src, sorted(map(str, keys[src]))))
                else:
                    ctx.unknown("read-argument", e.where, "%s %s <- key %r" % (rn, p, k))
            if rn in ("BOUNDARY", "BOX"):
                polygon_points(ctx, R, fac, e, args, rev, rn)
            if rn == "PATH":
                path_points(ctx, R, fac, e, args, rev)
    path_ends(ctx, R, rev)
    array_lattice(ctx, R, rev)


def xy_source(fac, n, rev):
    """does the array derive from the XY data?  returns list of nodes on the way"""
    return any(fac.key_of(x) is not None and "XY" in rev.get(fac.key_of(x), ()) for x in value_nodes(n, NoFacts(fac.it)))


def drop_last(n):
    """how many trailing scalars a chain of slices/reshapes removes: int or None"""
    n = strip(n)
    if n.op == "mcall" and n.args[1] in ("reshape", "copy", "astype"):
        inner = drop_last(n.args[0])
        return inner
    if n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "numpy.reshape", "list") and n.args[1]:
        return drop_last(n.args[1][0])
    if n.op == "sub" and n.args[1].op == "slice":
        lo, hi, st = n.args[1].args
        none = lambda x: x.op == "const" and x.args[1] is None
        if not none(st) or not (none(lo) or (lo.op == "const" and lo.args[1] == 0)):
            return None
        inner = drop_last(n.args[0])
        if inner is None:
            return None
        b = strip(n.args[0])
        row = b.op == "mcall" and b.args[1] == "reshape" or b.op == "call" and b.args[0] == "numpy.reshape"
        if none(hi):
            return inner
        if hi.op == "const" and isinstance(hi.args[1], int) and hi.args[1] < 0:
            return inner + (-hi.args[1]) * (2 if row else 1)
        return None
    if n.op in ("param", "kwget") or (n.op == "sub") or (n.op == "mcall" and n.args[1] in ("pop", "get")):
        return 0
    return None


def polygon_points(ctx, R, fac, e, args, rev, rn):
    a = args.get("points") or args.get("polygons")
    if a is None or a[0] != "node":
        ctx.unknown("read-points", e.where, "points of %s" % rn)
        return
    n = a[1]
    if not xy_source(fac, n, rev):
        ctx.violation("read-points", rn, e.where, "the points of %s elements do not come from the XY record" % rn)
        return
    k = drop_last(n)
    if k is None:
        ctx.unknown("read-points", e.where, show(n, 4))
    elif k != 2:
        ctx.violation("read-points", rn, e.where, "%d trailing coordinates are dropped from %s elements (the repeated closing vertex is 2)" % (k, rn))
    else:
        ctx.ok("closing vertex dropped")


def path_points(ctx, R, fac, e, args, rev):
    a = args.get("points")
    if a is None or a[0] != "node":
        ctx.unknown("read-points", e.where, "points of PATH")
    elif not xy_source(fac, a[1], rev):
        ctx.violation("read-points", "PATH", e.where, "the points of PATH elements do not come from the XY record")
    else:
        k = drop_last(a[1])
        if k is None:
            ctx.unknown("read-points", e.where, show(a[1], 4))
        elif k:
            ctx.violation("read-points", "PATH", e.where, "%d trailing coordinates of paths are dropped" % k)
        else:
            ctx.ok("path points complete")
    g = args.get("gdsii_path")
    if g is not None and g[0] == "node" and g[1].op == "const":
        if not g[1].args[1]:
            ctx.violation("read-argument", "PATH:gdsii_path", e.where, "imported paths are not kept as GDSII paths")
        else:
            ctx.ok("paths stay GDSII paths")
    elif g is not None and g[0] in ("absent", "key"):
        ctx.violation("read-argument", "PATH:gdsii_path", e.where, "imported paths are not kept as GDSII paths")
    w = args.get("width_transform")
    if w is not None and w[0] == "absent":
        ctx.violation("read-argument", "PATH:width_transform", e.where, "the absolute-width flag is not passed on")


def path_ends(ctx, R, rev):
    for b in (False, True):
        for en in (False, True):
            fac = factory(ctx, R, "PATH", contains({"bgnextn": b, "endextn": en}))
            if fac is None:
                return
            for e in fac.news:
                if e.cls not in fac.classes:
                    continue
                a = fac.ctor_args(e).get("ends", ("absent", None))
                if not b and not en:
                    k = a[1] if a[0] == "key" else fac.key_of(a[1]) if a[0] == "node" else None
                    if a[0] == "absent" or (a[0] == "node" and a[1].op in ("const", "tuple")):
                        ctx.violation("read-ends", "PATH:ends", e.where, "the path type is not used for the ends")
                    elif k is not None and "PATHTYPE" in rev.get(k, ()):
                        ctx.ok("ends from path type")
                    else:
                        ctx.unknown("read-ends", e.where, "ends %r" % (a,))
                    continue
                if a[0] == "key" or a[0] == "absent":
                    ctx.violation("read-ends", "PATH:extension", e.where, "the end extensions are not used when %s" % ("both are given" if b and en else "only one is given"))
                    continue
                if a[0] != "node":
                    ctx.unknown("read-ends", e.where, a[0])
                    continue
                n = strip(a[1])
                if n.op == "ite":
                    n = strip(Facts(fac.it).resolve(n))
                if n.op != "tuple" or len(n.args[0]) != 2:
                    ctx.unknown("read-ends", e.where, show(n, 3))
                    continue
                for i, (rn, given) in enumerate((("BGNEXTN", b), ("ENDEXTN", en))):
                    x = strip(n.args[0][i])
                    k = fac.key_of(x)
                    if k is None:
                        if x.op == "const" and given:
                            ctx.violation("read-ends", "PATH:%s" % rn, e.where, "%s is replaced by %r" % (rn, x.args[1]))
                        elif x.op != "const":
                            ctx.unknown("read-ends", e.where, show(x, 3))
                    elif rn in rev.get(k, ()):
                        if x.op == "mcall" and not given:
                            d = x.args[2][1] if len(x.args[2]) > 1 else None
                            if d is not None and d.op == "const" and d.args[1] == 0:
                                ctx.ok("missing extension is 0")
                            elif d is None and x.args[1] == "pop":
                                ctx.violation("read-ends", "PATH:%s:missing" % rn, e.where, "a path with only one extension record cannot be imported (%s has no default)" % k)
                            elif d is not None and d.op == "const":
                                ctx.violation("read-ends", "PATH:%s:missing" % rn, e.where, "a missing %s counts as %r" % (rn, d.args[1]))
                        elif x.op == "sub" and not given:
                            ctx.violation("read-ends", "PATH:%s:missing" % rn, e.where, "a path with only one extension record cannot be imported (%s)" % k)
                        else:
                            ctx.ok("extension component", "%s -> ends[%d]" % (rn, i))
                    elif rev.get(k):
                        ctx.violation("read-ends", "PATH:%s" % rn, e.where, "end %d takes %s" % (i, sorted(rev[k])))
                    else:
                        ctx.unknown("read-ends", e.where, "end %d <- %r" % (i, k))


def reduce_trig(p):
    """sin(a)^2 -> 1 - cos(a)^2"""
    for _ in range(12):
        out = Poly()
        hit = False
        for k, v in p.t.items():
            done = False
            for i, (a, e) in enumerate(k):
                if isinstance(a, tuple) and a[0] == "sin" and e >= 2:
                    rest = tuple((x, y) if j != i else (x, y - 2) for j, (x, y) in enumerate(k))
                    rest = tuple((x, y) for x, y in rest if y)
                    m = Poly({rest: v})
                    c = Poly.atom(("cos", a[1]))
                    out = out + m - m * c * c
                    done = hit = True
                    break
            if not done:
                out = out + Poly({k: v})
        p = out
        if not hit:
            return p
    return p


def array_lattice(ctx, R, rev):
    """spacing recovered by the reader from the corners the writer emits"""
    from fractions import Fraction

    f = factory_func(R, "AREF")[1]
    if f is None:
        return
    for xr in (None, False, True):
        for rot in (False, True):
            if xr is None and rot:
                continue   # ANGLE needs STRANS in the stream syntax
            def conds(c, xr=xr, rot=rot):
                if c.op == "cmp" and c.args[0] == "in" and c.args[1].op == "const":
                    k = c.args[1].args[1]
                    if "STRANS" in rev.get(k, ()):
                        return xr is not None
                    if "ANGLE" in rev.get(k, ()):
                        return rot
                k = holder[0].key_of(c) if holder and c.op in ("sub", "mcall", "param", "kwget") else None
                if k is not None and "STRANS" in rev.get(k, ()):
                    return bool(xr)
                if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None and holder:
                    k = holder[0].key_of(c.args[1])
                    if k is not None and "ANGLE" in rev.get(k, ()):
                        return not rot
                return None
            holder = []
            # key_of needs the mapping node, which is created on demand: build a shell first
            shell = Factory.__new__(Factory)
            shell.R = R
            shell.func = f
            shell.names = set(f.params()[1:])
            shell.kw = None
            it = None
            fac = FactoryWith(R, f, conds, holder)
            for e in fac.news:
                if e.cls not in fac.classes:
                    continue
                args = fac.ctor_args(e)
                def atom(n):
                    k = fac.key_of(n)
                    if k is not None and "COLROW" in rev.get(k, ()) or k in ("columns", "rows"):
                        return Poly.atom(str(k))
                    if k is not None and "ANGLE" in rev.get(k, ()):
                        return Poly.atom("rot")
                    if n.op == "sub" and n.args[1].op == "const" and isinstance(n.args[1].args[1], int):
                        k = fac.key_of(n.args[0])
                        if k is not None and "XY" in rev.get(k, ()):
                            i = n.args[1].args[1]
                            return corner.get(i if i >= 0 else i + 6)
                    return None
                ang = Poly.atom("rot") * Poly.atom("pi") * Poly.const(Fraction(1, 180))
                ca, sa = (Poly.atom(("cos", ang)), Poly.atom(("sin", ang))) if rot else (Poly.const(1), Poly.const(0))
                sg = Poly.const(-1 if xr else 1)
                X0, X1, c, r, sx, sy = (Poly.atom(s) for s in ("X0", "X1", "columns", "rows", "sx", "sy"))
                corner = {0: X0, 1: X1, 2: X0 + c * sx * ca, 3: X1 + c * sx * sa, 4: X0 - sg * r * sy * sa, 5: X1 + sg * r * sy * ca}
                case = "reflection %s, rotation %s" % ({None: "absent", False: "off", True: "on"}[xr], "given" if rot else "absent")
                a = args.get("spacing", ("absent", None))
                n = strip(a[1]) if a[0] == "node" else None
                if n is not None and n.op == "ite":
                    n = strip(Facts(fac.it).resolve(n))
                if n is None or n.op not in ("tuple", "list") or len(n.args[0]) != 2:
                    ctx.unknown("read-lattice", e.where, "spacing (%s)" % case)
                    continue
                for i, want in ((0, sx), (1, sy)):
                    try:
                        # -sin(x) normalises to sin through the sign
                        got = reduce_trig(Polyer(NoFactsF(fac.it), atom=atom).of(n.args[0][i]))
                    except Fork as ex:
                        ctx.unknown("read-lattice", e.where, "%s: %s" % (case, show(ex.cond, 3)))
                        continue
                    if got == want:
                        ctx.ok("array lattice inverse", "%s: spacing[%d] = %r" % (case, i, want))
                    elif any(isinstance(x, Node) for x in got.atoms()):
                        ctx.unknown("read-lattice", e.where, "%s: %r" % (case, got))
                    else:
                        ctx.violation("read-lattice", "AREF:spacing[%d]" % i, e.where, "with %s the spacing recovered from the array corners is %r" % (case, got))
                o = args.get("origin", ("absent", None))
                if o[0] == "node":
                    on = strip(o[1])
                    if on.op == "sub" and on.args[1].op == "slice":
                        lo, hi = on.args[1].args[0], on.args[1].args[1]
                        l = lo.args[1] if lo.op == "const" else "?"
                        h = hi.args[1] if hi.op == "const" else "?"
                        if l in (None, 0) and h == 2 or l in (None, 0) and h == -4:
                            ctx.ok("array origin")
                        elif "?" not in (l, h):
                            ctx.violation("read-lattice", "AREF:origin", e.where, "the origin of arrays is taken from coordinates [%s:%s]" % (l, h))
                    elif on.op == "tuple" and len(on.args[0]) == 2:
                        try:
                            got = [Polyer(NoFactsF(fac.it), atom=atom).of(x) for x in on.args[0]]
                            if got == [X0, X1]:
                                ctx.ok("array origin")
                            elif not any(isinstance(x, Node) for g in got for x in g.atoms()):
                                ctx.violation("read-lattice", "AREF:origin", e.where, "the origin of arrays is %r" % (got,))
                        except Fork:
                            pass
                    else:
                        ctx.unknown("read-lattice", e.where, "origin %s" % show(on, 3))
                elif o[0] == "absent":
                    ctx.violation("read-lattice", "AREF:origin", e.where, "arrays are created without origin")


class NoFactsF(NoFacts):
    pass


class FactoryWith(Factory):
    """a factory whose branch assumptions need the factory itself"""

    def __init__(self, R, func, conds, holder):
        self.names = set(func.params()[1:] if func.cls is not None and func.kind == "plain" else func.params())
        self.kw = _KwProxy(func)
        holder.append(self)
        Factory.__init__(self, R, func, conds)

    def key_of(self, n):
        n = strip(n)
        if isinstance(self.kw, _KwProxy):
            if n.op == "param" and n.args[0] in self.names:
                return n.args[0]
            b = strip(n.args[0]) if n.args and isinstance(n.args[0], Node) else None
            if b is not None and b.op == "param" and b.args[0] == self.kw.name:
                if n.op == "sub" and n.args[1].op == "const":
                    return n.args[1].args[1]
                if n.op == "mcall" and n.args[1] in ("pop", "get") and n.args[2] and n.args[2][0].op == "const":
                    return n.args[2][0].args[1]
                if n.op == "kwget":
                    return n.args[1]
            return None
        return Factory.key_of(self, n)


class _KwProxy(object):
    def __init__(self, func):
        self.name = "**" + func.node.args.kwarg.arg if func.node.args.kwarg else None


# ---------------------------------------------------------------------------
MODES = {
    "skip": ("d0", None, None),
    "import": ("d0", "d1/d0", "d1"),
    "convert": ("d1/unit", None, None),
}


def _spec(s):
    d0, d1, u = Poly.atom("d0"), Poly.atom("d1"), Poly.atom("unit")
    return {"d0": d0, "d1": d1, "d1/d0": d1 * d0.monomial_inv(), "d1/unit": d1 * u.monomial_inv()}[s]


def opaque_atoms(p):
    """atoms a normal form could not interpret"""
    out = []
    stack = list(p.atoms())
    while stack:
        a = stack.pop()
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, Poly):
            stack.extend(a.atoms())
        elif isinstance(a, tuple):
            stack.extend(a)
    return out


class UnitsEnv(object):
    def __init__(self, R, mode):
        self.R = R
        self.mode = mode
        self.t = t = R.tr(CODE["UNITS"], args={"units": mode})
        self.vars = {}
        rec = t.payload()
        self.p = [t.payload(0), t.payload(1)]
        self.forks = []
        for k, v in t.vars.items():
            nx = v.info.get("next")
            if nx is None or nx is v:
                continue
            if not (isinstance(k, str) or isinstance(k, tuple) and k[1] in ("unit", "precision")):
                continue
            name = k if isinstance(k, str) else "self." + k[1]
            alts = []
            for f, x in split(t, nx):
                if x is v:
                    continue
                try:
                    alts.append(Polyer(NoFacts(t.it), atom=self.atom).of(x))
                except Fork:
                    alts.append(None)
            self.vars[name] = alts

    def atom(self, n):
        t = self.t
        s = strip(n)
        for i, d in ((0, "d0"), (1, "d1")):
            if s is self.p[i]:
                return Poly.atom(d)
        if s.op == "sub" and s.args[1].op == "const" and s.args[1].args[1] in (-1, -2) and t.is_record(getattr(s.args[0], "args", (None,))[0]) if s.op == "sub" and s.args[0].op == "sub" else False:
            return Poly.atom("d1" if s.args[1].args[1] == -1 else "d0")
        if s.op == "attr" and s.args[0] is t.self_node and s.args[1] in ("unit", "precision"):
            return Poly.atom(s.args[1])
        if s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][0] is t.self_node and s.args[1][1] in ("unit", "precision"):
            return Poly.atom(s.args[1][1])
        return None


def units(ctx):
    ctx.rule("under every `units` option the scale factor, library unit and precision set by the UNITS record are the stated quotients (polynomial normal forms), and coordinates, widths and extensions are multiplied by the factor exactly once")
    R = reader(ctx.prog)
    if not need_roles(ctx, R):
        return
    loc = R.func.where
    for mode, (fac, unit, prec) in MODES.items():
        env = UnitsEnv(R, mode)
        ctx.saw(env.t.it.functions_seen)
        for attr, want in (("unit", unit), ("precision", prec)):
            got = env.vars.get("self." + attr)
            if want is None:
                if got and any(g is None or g != Poly.atom(attr) for g in got):
                    if None in got or any(opaque_atoms(g) for g in got):
                        ctx.unknown("units", loc, "%s: self.%s" % (mode, attr))
                    else:
                        ctx.violation("units", "%s:%s" % (mode, attr), loc, "with units=%r the library %s is changed to %r" % (mode, attr, got))
                else:
                    ctx.ok("units kept", "%s: self.%s unchanged" % (mode, attr))
            else:
                if not got:
                    ctx.violation("units", "%s:%s" % (mode, attr), loc, "with units=%r the library %s is not taken from the file" % (mode, attr))
                elif None in got or any(g != _spec(want) and opaque_atoms(g) for g in got):
                    ctx.unknown("units", loc, "%s: self.%s = %r" % (mode, attr, got))
                elif all(g == _spec(want) for g in got):
                    ctx.ok("units imported", "%s: self.%s = %s" % (mode, attr, want))
                else:
                    ctx.violation("units", "%s:%s" % (mode, attr), loc, "with units=%r the library %s becomes %r instead of %s" % (mode, attr, got, want))
        want = _spec(fac)
        applied(ctx, R, env, mode, want)
    t = R.tr(CODE["UNITS"], args={"units": "no such option"})
    if any(e.kind == "raise" for e in t.res.effects):
        ctx.ok("unknown option raises")
    else:
        ctx.violation("units", "option", loc, "an unknown `units` option is accepted silently")
    file_units(ctx, R)


def applied(ctx, R, env, mode, want):
    loc = R.func.where

    def polyer(t):
        pay = t.payload()

        def atom(n):
            s = strip(n)
            if s.op == "loopv":
                k = s.args[1]
                name = k if isinstance(k, str) else "self." + str(k[1])
                a = env.vars.get(name)
                if a and len(a) == 1 and a[0] is not None:
                    return a[0]
                if isinstance(k, tuple) and k[0] is t.self_node and k[1] in ("unit", "precision"):
                    return Poly.atom(k[1])
            if s.op == "attr" and s.args[0] is t.self_node and s.args[1] in ("unit", "precision"):
                a = env.vars.get("self." + s.args[1])
                return a[0] if a and a[0] is not None else Poly.atom(s.args[1])
            return None
        return Polyer(NoFacts(t.it), atom=atom)

    def check(rn, p, expect, w, what):
        if p is not None:
            p = positive_abs(p)
        if p is None:
            ctx.unknown("scale", w, "%s (%s)" % (what, mode))
        elif p == expect:
            ctx.ok("scaled once", "%s: %s = %r" % (mode, what, p))
        elif opaque_atoms(p):
            ctx.unknown("scale", w, "%s (%s): %r" % (what, mode, p))
        else:
            ctx.violation("scale", rn, w, "with units=%r %s is %r instead of %r" % (mode, what, p, expect))

    # numbers
    for rn, d, mag in (("WIDTH", 5, 5), ("WIDTH", -5, 5), ("BGNEXTN", 7, 7), ("BGNEXTN", -7, -7), ("ENDEXTN", 7, 7), ("ENDEXTN", -7, -7)):
        t = R.tr(CODE[rn], data=[d], args={"units": mode})
        P = polyer(t)
        for k, v, g, w in R.stores(t):
            if k == "width_transform":
                continue
            for f, x in split(t, v):
                try:
                    p = P.of(x)
                except Fork:
                    p = None
                check(rn, p, want * Poly.const(mag), w, "the %s of a record holding %d" % (rn, d))
    # coordinates
    for prev in (False, True):
        def conds(c, t, prev=prev):
            if c.op == "cmp" and c.args[0] == "in" and strip(c.args[2]) is t.role(R.attrs):
                return prev
            if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None and lookup_prev(t, R, c.args[1]):
                return not prev
            return None
        t = R.tr(CODE["XY"], conds=conds, key=("xy", prev), args={"units": mode})
        P = polyer(t)
        for k, v, g, w in R.stores(t):
            if any(conds(c, t) is not None and conds(c, t) != p for c, p in g):
                continue
            for f, x in split(t, v):
                if any(conds(c, t) is not None and conds(c, t) != p for c, p in f.d.items()):
                    continue
                ps = parts(t, R, x, P)
                if ps is None:
                    ctx.unknown("scale", w, "XY: %s" % show(x, 4))
                    continue
                names = [n for n, _ in ps]
                if names != (["prev", "new"] if prev else ["new"]):
                    if prev:
                        ctx.violation("scale", "XY:order", w, "coordinates of a further XY record are combined as %s" % (names,))
                    else:
                        ctx.unknown("scale", w, "XY parts %s" % names)
                    continue
                check("XY", ps[-1][1], want, w, "the coordinate factor")
                if prev:
                    check("XY:previous", ps[0][1], Poly.const(1), w, "the factor applied again to earlier coordinates")


def positive_abs(p):
    """|c*d0^i*d1^j*unit^k| -> |c|*d0^i*d1^j*unit^k (units are positive)"""
    out = Poly()
    for k, v in p.t.items():
        m = Poly.const(v)
        for a, e in k:
            f = Poly({((a, e),): 1})
            if isinstance(a, tuple) and a[0] == "abs" and e == 1 and len(a[1].t) == 1:
                (kk, c), = a[1].t.items()
                if all(x in ("d0", "d1", "unit", "precision") for x, _ in kk):
                    f = Poly({kk: abs(c)})
            m = m * f
        out = out + m
    return out


def lookup_prev(t, R, n):
    n = strip(n)
    av = t.role(R.attrs)
    if n.op == "sub" and strip(n.args[0]) is av:
        return True
    if n.op == "mcall" and n.args[1] in ("get", "pop") and strip(n.args[0]) is av:
        return True
    return False


def parts(t, R, n, P, depth=0):
    """[(piece, factor)] of a coordinate array"""
    if depth > 12:
        return None
    s = strip(n)
    if lookup_prev(t, R, n):
        return [("prev", Poly.const(1))]
    if s is t.payload():
        return [("new", Poly.const(1))]
    if s.op == "call" and s.args[0] in ("numpy.concatenate", "numpy.hstack", "numpy.append") and s.args[1]:
        items = s.args[1]
        if s.args[0] != "numpy.append":
            seq = strip(items[0])
            if seq.op not in ("tuple", "list"):
                return None
            items = seq.args[0]
        out = []
        for x in items[:2] if s.args[0] == "numpy.append" else items:
            r = parts(t, R, x, P, depth + 1)
            if r is None:
                return None
            out += r
        return out
    if s.op == "call" and s.args[0] in ("numpy.array", "numpy.asarray", "numpy.ravel") and s.args[1]:
        return parts(t, R, s.args[1][0], P, depth + 1)
    if s.op == "mcall" and s.args[1] in ("copy", "flatten", "ravel"):
        return parts(t, R, s.args[0], P, depth + 1)
    if s.op == "bin" and s.args[0] in ("*", "/"):
        for a, b, inv in ((s.args[1], s.args[2], False), (s.args[2], s.args[1], True)):
            if s.args[0] == "/" and inv:
                continue
            r = parts(t, R, a, P, depth + 1)
            if r is None:
                continue
            try:
                k = P.of(b)
            except Fork:
                return None
            if s.args[0] == "/":
                k = k.monomial_inv()
                if k is None:
                    return None
            return [(x, y * k) for x, y in r]
    if s.op == "un" and s.args[0] == "-":
        r = parts(t, R, s.args[1], P, depth + 1)
        return None if r is None else [(x, -y) for x, y in r]
    return None


def file_units(ctx, R):
    """get_gds_units returns (metres per unit, metres per database unit)"""
    f = ctx.prog.need_function("gdspy.library", "get_gds_units")
    it = Interp(ctx.prog, inline=lambda g, i: False if g.name == "_eight_byte_real_to_float" else None)

    def assume(c, st):
        if c.op == "cmp" and c.args[0] == "==" and c.args[2].op == "const" and c.args[2].args[1] in (3, 0x0300, 0x0305):
            return True
        return None
    it.assume = assume
    res = it.run(f)
    ctx.saw(it.functions_seen)

    def atom(n):
        s = strip(n)
        if s.op in ("icall", "call") and (getattr(s.args[0], "name", s.args[0]) == "_eight_byte_real_to_float" or str(s.args[0]).endswith("_eight_byte_real_to_float")) and s.args[1]:
            a = strip(s.args[1][0])
            if a.op == "sub" and a.args[1].op == "slice":
                lo, hi, st = [x.args[1] if x.op == "const" else "?" for x in a.args[1].args]
                if (lo, hi) in ((4, 12), (-16, -8)):
                    return Poly.atom("d0")
                if (lo, hi) in ((12, 20), (12, None), (-8, None)):
                    return Poly.atom("d1")
                if "?" not in (lo, hi):
                    return Poly.atom("bytes[%s:%s]" % (lo, hi))
            return None
        # the record reader's decoded data
        if s.op == "sub" and s.args[1].op == "const" and s.args[1].args[1] in (0, 1) and s.args[0].op == "sub" and strip(s.args[0].args[0]).op == "elem":
            b = strip(strip(s.args[0].args[0]).args[0])
            if b.op in ("gencall", "icall") and b.args[0].name == "_record_reader":
                return Poly.atom("d%d" % s.args[1].args[1])
        return None

    def branch(n, d=0):
        """the value once the UNITS record was seen"""
        n = strip(n)
        if n.op == "loopv" and n.info and d < 10:
            nx = n.info.get("next")
            if nx is not None and nx is not n:
                return branch(nx, d + 1)
            if n.info.get("init") is not None:
                return n.info["init"]
        if n.op in ("ite", "phi") and d < 10:
            xs = n.args[0] if n.op == "phi" else n.args[1:]
            xs = [branch(x, d + 1) for x in xs]
            xs = [x for x in xs if not (x.op == "const" and x.args[1] is None)]
            if len(set(xs)) == 1:
                return xs[0]
        return n
    v = branch(res.value)
    alts = [v]
    if v.op == "phi":
        alts = [x for x in v.args[0] if strip(x).op == "tuple"]
    n = 0
    for x in alts:
        x = strip(x)
        if x.op != "tuple" or len(x.args[0]) != 2:
            continue
        items = [branch(y) for y in x.args[0]]
        if any(y.op == "const" for y in items):
            continue
        n += 1
        for y, want, what in ((items[0], "d1/d0", "unit"), (items[1], "d1", "precision")):
            try:
                p = Polyer(NoFacts(it), atom=atom).of(y)
            except Fork:
                p = None
            if p == _spec(want):
                ctx.ok("file units", "get_gds_units: %s = %s" % (what, want))
            elif p is None or opaque_atoms(p):
                ctx.unknown("file-units", f.where, "%s: %s" % (what, show(y, 4)))
            else:
                ctx.violation("file-units", what, f.where, "get_gds_units returns %r as %s instead of %s" % (p, what, want))
    if not n:
        ctx.unknown("file-units", f.where, "return value %s" % show(v, 4))


# ---------------------------------------------------------------------------
def names(ctx):
    ctx.rule("structure names and reference names go through the same mapping (rename table first, template otherwise); a structure becomes a new cell stored under that name in this library, duplicates raise; references are collected and all resolved against the library after the last record")
    R = reader(ctx.prog)
    if not need_roles(ctx, R):
        return
    loc = R.func.where
    for hit in (True, False):
        for rn in ("STRNAME", "SNAME"):
            def conds(c, t, hit=hit):
                m = in_map(hit, "rename")(c, t)
                if m is not None:
                    return m
                if c.op == "cmp" and c.args[0] == "in":
                    b = strip(c.args[2])
                    if is_cells(t, b):
                        return False
                return None
            t = R.tr(CODE[rn], string="OLD", args={"rename_template": "pre-{name}"}, conds=conds, key=("name", hit))
            ctx.saw(t.it.functions_seen)
            vals = []
            if rn == "SNAME":
                for k, v, g, w in R.stores(t):
                    vals += [(x, w, "reference name") for f, x in split(t, v)]
            else:
                ok = [e for e in t.effects if e.kind == "new" and e.cls.name == "Cell"]
                for e in ok:
                    a = e.args[0] if e.args else dict(e.kwargs).get("name")
                    if a is not None:
                        vals += [(x, e.where, "cell name") for f, x in split(t, a)]
                if not ok:
                    ctx.unknown("names", loc, "cell construction not resolved")
                cells(ctx, R, t, ok)
            for x, w, what in vals:
                r = lookup(t, x, "rename", "OLD", hit)
                if hit and r == ("hit",) or not hit and r == ("const", "pre-OLD"):
                    ctx.ok("name mapping", "%s %s: %s" % (rn, "renamed" if hit else "template", show(x, 3)))
                elif r[0] == "const":
                    ctx.violation("names", rn, w, "with 'OLD' %s `rename` and template 'pre-{name}' the %s is %r" % ("in" if hit else "not in", what, r[1]))
                elif r[0] in ("hit", "wrong key") or hit and any(y.op == "param" and y.args[0] == "rename" for y in value_nodes(x, NoFacts(t.it))) and x.op == "mcall" and x.args[1] == "format":
                    ctx.violation("names", rn, w, "the %s is %s" % (what, show(x, 3)))
                else:
                    ctx.unknown("names", w, "%s: %s" % (what, show(x, 4)))
    duplicates(ctx, R)
    references(ctx, R)
    t = R.tr(CODE["LIBNAME"], string="Lib Name ")
    st = [e for e in t.effects if e.kind == "store" and e.attr == "name" and strip(e.obj) is t.self_node]
    for e in st:
        for f, x in split(t, e.value):
            if x.op == "const" and x.args[1] == "Lib Name ":
                ctx.ok("library name")
            elif x.op == "const":
                ctx.violation("names", "LIBNAME", e.where, "the library name is imported as %r" % (x.args[1],))
            else:
                ctx.unknown("names", e.where, show(x, 3))
    if not st:
        if t.mentions_payload():
            ctx.unknown("names", loc, "LIBNAME")
        else:
            ctx.violation("names", "LIBNAME", loc, "the library name is not imported")


def is_cells(t, n):
    n = strip(n)
    return n.op == "attr" and n.args == (t.self_node, "cells") or n.op == "loopv" and isinstance(n.args[1], tuple) and n.args[1] == (t.self_node, "cells") or (n is t.self_node)


def cells(ctx, R, t, news):
    for e in news:
        kw = dict(e.kwargs)
        x = kw.get("exclude_from_current", e.args[1] if len(e.args) > 1 else None)
        if x is None or x.op == "const" and not x.args[1]:
            ctx.violation("cells", "current", e.where, "imported cells are also added to the global library")
        elif x.op == "const":
            ctx.ok("kept out of the global library")
        else:
            ctx.unknown("cells", e.where, show(x, 3))
        st = [s for s in t.effects if s.kind == "storeitem" and is_cells(t, s.obj)]
        name = e.args[0] if e.args else kw.get("name")
        if st:
            for s in st:
                if strip(s.value) is not e.result:
                    ctx.violation("cells", "store", s.where, "the cell stored in the library is %s" % show(s.value, 3))
                elif strip(s.key) is strip(name) or (strip(s.key).op == "attr" and strip(s.key).args[1] == "name"):
                    ctx.ok("cell stored under its name")
                elif s.key.op == "const" and name.op == "const":
                    ctx.violation("cells", "key", s.where, "a cell named %s is stored as %s" % (show(name, 3), show(s.key, 3)))
                else:
                    ctx.unknown("cells", s.where, "key %s" % show(s.key, 3))
        elif any(x.kind in ("mcall", "icall") and any(strip(a) is e.result for a in x.args) for x in t.effects):
            ctx.unknown("cells", e.where, "cell handed over by a call")
        elif any(strip(a.value) is e.result for a in t.effects if a.kind == "storeitem"):
            ctx.unknown("cells", e.where, "cell stored elsewhere")
        else:
            ctx.violation("cells", "store", e.where, "a structure read is not stored in the library")
        if R.cellv is not None:
            nx = t.next(R.cellv)
            if nx is not None and all(strip(x) is e.result for f, x in split(t, nx)):
                ctx.ok("elements go to the new cell")
            elif nx is None or strip(nx) is t.vars.get(R.cellv):
                ctx.violation("cells", "current cell", e.where, "elements following a structure name are not added to its cell")
            else:
                ctx.unknown("cells", e.where, "current cell %s" % show(nx, 3))


def duplicates(ctx, R):
    def conds(c, t):
        m = in_map(False, "rename")(c, t)
        if m is not None:
            return m
        if c.op == "cmp" and c.args[0] == "in" and is_cells(t, c.args[2]):
            return True
        return None
    t = R.tr(CODE["STRNAME"], string="OLD", args={"rename_template": "pre-{name}"}, conds=conds, key=("name", "dup"))
    st = [s for s in t.effects if s.kind == "storeitem" and is_cells(t, s.obj)]
    if st and any(any(g for g in s.guards if g[0].op == "loopv") for s in st):
        ctx.unknown("cells", st[0].where, "duplicate handling")
    elif st:
        ctx.violation("cells", "duplicate", st[0].where, "a second structure with the same name replaces the first silently")
    elif any(e.kind == "raise" for e in t.effects):
        ctx.ok("duplicate names raise")
    else:
        ctx.unknown("cells", R.func.where, "duplicate handling")


def refs_list(it, self_node, n):
    n = strip(n)
    return n.op == "attr" and n.args == (self_node, "_references")


def references(ctx, R):
    # collected by the factories, carrying the (mapped) name
    for rn in ("SREF", "AREF"):
        fac = factory(ctx, R, rn)
        if fac is None:
            continue
        it = fac.it
        self_node = it.mk("param", fac.func.params()[0])
        for e in fac.news:
            if e.cls not in fac.classes:
                continue
            app = [x for x in fac.res.effects if x.kind == "mcall" and x.name in ("append", "add") and any(strip(a) is e.result for a in x.args)]
            if not app:
                esc = [x for x in fac.res.effects if x is not e and x.kind in ("mcall", "icall", "call", "storeitem") and any(strip(a) is e.result for a in (getattr(x, "data").get("args") or ()) if isinstance(a, Node))]
                if esc or strip(fac.res.value) is e.result and R_pending(R):
                    ctx.unknown("references", e.where, "%s: collection of references" % rn)
                else:
                    ctx.violation("references", rn, e.where, "%s elements are not collected for resolution" % rn)
            for x in app:
                extra = [g for g in x.guards if g not in e.guards]
                if extra:
                    ctx.violation("references", rn, x.where, "%s elements are collected only when %s is %s" % (rn, show(extra[0][0], 3), extra[0][1]))
                else:
                    ctx.ok("references collected", rn)
            v = strip(fac.res.value)
            ctx.ok("reference returned") if v is e.result else ctx.unknown("references", e.where, "return value")
            st = [x for x in fac.res.effects if x.kind == "store" and x.attr == "ref_cell" and strip(x.obj) is e.result and x.func.name != "__init__"]
            if not st:
                ctx.violation("references", rn + ":name", e.where, "the name of %s elements may be replaced by a cell of the global library" % rn) if not passes_name(ctx, e) else ctx.ok("reference keeps its name")
            for x in st:
                k = fac.key_of(x.value)
                if k is None:
                    ctx.unknown("references", x.where, show(x.value, 3))
                elif k in refkeys(R):
                    ctx.ok("reference keeps its name")
                else:
                    ctx.violation("references", rn + ":name", x.where, "ref_cell is set from %r" % k)
    # reset before reading and resolved afterwards
    t = R.tr(CODE["ENDLIB"])
    self_node = t.self_node
    inloop = set(t.effects)
    pre = [e for e in t.res.effects if e.kind == "store" and e.attr == "_references" and strip(e.obj) is self_node]
    if not [e for e in pre if e not in inloop]:
        if any(e.kind == "mcall" and e.name == "clear" and refs_list(t.it, self_node, e.recv) for e in t.res.effects):
            ctx.ok("references reset")
        elif strip(t.it.mk("attr", self_node, "_references")) is not None and any(x.attr == "_references" for x in pre):
            ctx.unknown("references", R.func.where, "reset of the collected references")
        else:
            ctx.unknown("references", R.func.where, "reset of the collected references")
    else:
        ctx.ok("references reset")
    res = [e for e in t.res.effects if e.kind == "store" and e.attr == "ref_cell"]
    if not res:
        ctx.violation("references", "resolve", R.func.where, "references read are never resolved to the cells of the library")
    for e in res:
        v = strip(e.value)
        o = strip(e.obj)
        if o.op == "elem" and e.loops:
            src = strip(o.args[0])
            it_ok = src.op in ("attr", "list") or src.op == "loopv"
            if src.op == "sub" and src.args[1].op == "slice":
                ctx.violation("references", "resolve", e.where, "only %s references are resolved" % show(src, 3))
            elif it_ok:
                ctx.ok("all references resolved")
            else:
                ctx.unknown("references", e.where, "iteration %s" % show(src, 3))
        else:
            ctx.unknown("references", e.where, show(o, 3))
        alts = split(t, v)
        for f, x in alts:
            x = strip(x)
            if x.op == "sub" and is_cells(t, x.args[0]):
                ctx.ok("resolved in this library")
            elif x.op == "mcall" and x.args[1] == "get" and is_cells(t, x.args[0]):
                if len(x.args[2]) > 1:
                    ctx.ok("resolved in this library")
                else:
                    ctx.violation("references", "missing", e.where, "references to cells that are not in the file lose their name")
            elif x.op in ("loopv", "attr", "const"):
                pass
            else:
                ctx.unknown("references", e.where, "value %s" % show(x, 4))
        lg = [g for g in e.guards if not (g[0].op == "cmp" and g[0].args[0] == "in" and is_cells(t, g[0].args[2]) and g[1])]
        ff = Facts(t.it)
        lg = [g for g in lg if ff.decide(g[0]) is None and any(y.op in ("elem", "loopv") for y in subnodes(g[0], follow=False)) and not (g[0].op == "call" and g[0].args[0] == "isinstance")]
        lg = [g for g in lg if not (g[0].op == "cmp" and t.is_record(g[0].args[1].args[0] if g[0].args[1].args and isinstance(g[0].args[1].args[0], Node) else g[0]))]
        if lg:
            ctx.unknown("references", e.where, "resolution depends on %s" % show(lg[0][0], 3))
    # exactly after the last record
    for e in res:
        if e in inloop:
            for T in ("ENDSTR", "ENDEL", "STRNAME"):
                tt = R.tr(CODE[T])
                if any(x.kind == "store" and x.attr == "ref_cell" for x in tt.effects):
                    ctx.violation("references", "early", e.where, "references are resolved at %s, before all cells are known" % T) if not [x for x in R.tr(CODE["ENDLIB"]).effects if x.kind == "store" and x.attr == "ref_cell"] else None


def R_pending(R):
    t = R.tr(CODE["ENDEL"])
    return any(e.kind == "mcall" and e.name in ("append", "add") and e not in R.addcalls for e in t.effects) or len(R.addcalls) > 1


def refkeys(R):
    t = R.tr(CODE["SNAME"])
    return {k for k, v, g, w in R.stores(t)}


def passes_name(ctx, e):
    """does the constructor keep a name given as string unchanged?"""
    init = e.cls.find_method("__init__")
    it = Interp(ctx.prog)
    def assume(c, st):
        if c.op == "call" and c.args[0] == "isinstance" and strip(c.args[1][0]).op == "param" and strip(c.args[1][0]).args[0] == "ref_cell":
            return False
        return None
    it.assume = assume
    res = it.run(init, self_cls=e.cls)
    st = [x for x in res.effects if x.kind == "store" and x.attr == "ref_cell"]
    return bool(st) and all(strip(x.value).op == "param" for x in st)
