"""C34: a library lists its cells under their names and keeps its references in step"""
import itertools
from ..interp import Interp, subnodes, show
from ..flow import strip
from .aliasing import private
from .geometry import Give, Bad

WRAP = ("set", "list", "tuple", "frozenset", "sorted", "iter")


class Absent(Exception):
    """an item that is not there is used"""


class World(object):
    """values of the conditions a library method depends on"""

    def __init__(self, prog, f, cfg):
        self.prog, self.f, self.cfg = prog, f, cfg
        self.cell = prog.need_class("Cell")
        self.elems, self.res = {}, None
        it = self.it = Interp(prog, inline=lambda g, i: private(g) or g.qualname.startswith(f.qualname + "."), assume=self.assume)
        ps = f.params()
        self.me = it.mk("param", ps[0])
        self.res = it.run(f, self_cls=f.cls, args={p: it.mk("param", p) for p in ps[1:]}, self_node=self.me)

    prune = True

    def assume(self, c, st):
        if not self.prune:
            return None
        try:
            return self.truth(c)
        except (Give, Absent, Bad):
            return None

    # values: tuples ("cell",), ("other",), ("name", ..), ("none",), ("const", v), ("refcell",)
    def dictionary(self, n):
        s = strip(n)
        while s.op == "loopv" and isinstance(s.args[1], tuple) and len(s.args[1]) == 2:
            if s.args[1][1] == "$c":
                s = strip(s.args[1][0])
            elif s.args[1][1] == "cells" and strip(s.args[1][0]) is self.me:
                return True
            else:
                return False
        return s.op == "attr" and s.args[1] == "cells" and strip(s.args[0]) is self.me

    def values(self, n):
        """does n run over all cells of the library?"""
        s = strip(n)
        if s.op == "call" and s.args[0] in WRAP and len(s.args[1]) == 1:
            return self.values(s.args[1][0])
        if s.op == "mcall" and s.args[1] == "values" and not s.args[2]:
            return self.dictionary(s.args[0])
        return s is self.me or s.op in ("mcall", "icall") and (s.args[1] == "__iter__" or getattr(s.args[0], "name", "") == "__iter__")

    def name_of(self, v):
        if v[0] == "cell":
            return ("name",)
        if v[0] == "other":
            return ("name",)
        raise Give("name of " + str(v))

    def val(self, n):
        s = strip(n)
        if s.op == "const":
            return ("none",) if s.args[1] is None else ("const", s.args[1])
        if s.op == "ite":
            return self.val(s.args[1] if self.truth(s.args[0]) else s.args[2])
        v = self.leaf(s)
        if v is not None:
            return v
        if s.op == "attr" and s.args[1] == "name":
            return self.name_of(self.val(s.args[0]))
        if s.op == "sub" and self.dictionary(s.args[0]):
            k = self.val(s.args[1])
            r = self.lookup(k)
            if r is None:
                raise Absent(show(s, 3))
            return r
        if s.op == "mcall" and s.args[1] == "get" and self.dictionary(s.args[0]) and 1 <= len(s.args[2]) <= 2:
            r = self.lookup(self.val(s.args[2][0]))
            if r is not None:
                return r
            return self.val(s.args[2][1]) if len(s.args[2]) == 2 else ("none",)
        if s.op == "mcall" and s.args[1] == "pop" and self.dictionary(s.args[0]) and s.args[2]:
            r = self.lookup(self.val(s.args[2][0]))
            if r is not None:
                return r
            if len(s.args[2]) == 2:
                return self.val(s.args[2][1])
            raise Absent(show(s, 3))
        if s.op in ("cmp", "bool", "un") or s.op == "call" and s.args[0] in ("isinstance", "bool"):
            return ("const", self.truth(s))
        raise Give("value " + show(s, 3))

    def truth(self, n):
        s = strip(n)
        if s.op == "const":
            return bool(s.args[1])
        if s.op == "un" and s.args[0] == "not":
            return not self.truth(s.args[1])
        if s.op == "ite":
            return self.truth(s.args[1] if self.truth(s.args[0]) else s.args[2])
        if s.op == "bool":
            if s.args[0] == "and":
                rs = []
                for x in s.args[1]:
                    r = self.lazy(x)
                    if r is False:
                        return False
                    rs.append(r)
                if None in rs:
                    raise Give("condition " + show(n, 3))
                return True
            rs = []
            for x in s.args[1]:
                r = self.lazy(x)
                if r is True:
                    return True
                rs.append(r)
            if None in rs:
                raise Give("condition " + show(n, 3))
            return False
        if s.op == "cmp":
            op, a, b = s.args
            if op in ("in", "not in"):
                if self.dictionary(b) or strip(b).op == "mcall" and strip(b).args[1] == "keys" and self.dictionary(strip(b).args[0]):
                    r = self.lookup(self.val(a)) is not None
                    return r if op == "in" else not r
                raise Give("condition " + show(n, 3))
            if op in ("is", "is not", "==", "!="):
                r = self.same(self.val(a), self.val(b))
                return r if op in ("is", "==") else not r
            raise Give("condition " + show(n, 3))
        if s.op == "call" and s.args[0] == "bool" and len(s.args[1]) == 1:
            return self.truth(s.args[1][0])
        if s.op == "call" and s.args[0] == "isinstance" and len(s.args[1]) == 2:
            c = s.args[1][1]
            v = self.val(s.args[1][0])
            if c.op == "cls" and c.args[0] is self.cell:
                return v[0] in ("cell", "other", "refcell")
            if v[0] in ("name", "newname", "string") and c.op == "ext":
                return c.args[0] in ("str", "basestring")
            raise Give("condition " + show(n, 3))
        if s.op == "call" and s.args[0] == "hasattr" and len(s.args[1]) == 2 and s.args[1][1].op == "const" and s.args[1][1].args[1] == "name":
            return self.val(s.args[1][0])[0] in ("cell", "other", "refcell")
        v = self.val(s)
        if v[0] == "const":
            return bool(v[1])
        return v[0] != "none"

    def lazy(self, x):
        try:
            return self.truth(x)
        except Give:
            return None

    def same(self, a, b):
        if "items" in (a[0], b[0]):
            raise Give("comparison of collections")
        return a == b

    def live(self, e, extra=()):
        """is the effect reached?  conditions on iterations are evaluated for the element in question"""
        for g, p in e.guards:
            try:
                if self.truth(g) != p:
                    return False
            except Absent:
                # not reached, or an error: the guards before decide
                raise Bad("an item is looked up that is not there: %s" % show(g, 4), e.where)
        return True

    def ordered(self, want):
        return [e for e in self.res.effects if want(e) and self.live(e)]

    def mutation(self, e):
        """effects that change the index, a name or a reference"""
        if e.kind in ("storeitem", "delitem") and self.dictionary(e.obj):
            return True
        if e.kind == "mcall" and self.dictionary(e.recv) and e.name in ("pop", "update", "clear", "setdefault", "popitem"):
            return True
        if e.kind == "store" and (e.attr in ("name", "ref_cell", "references") or e.attr == "cells" and strip(e.obj) is self.me):
            return True
        return e.kind in ("icall", "mcall") and self.callee(e) == "replace_references"

    def callee(self, e):
        return e.data["func"].name if e.kind == "icall" else (e.name if e.kind == "mcall" else "")

    def call_args(self, e):
        """arguments without self, by name"""
        f = self.prog.need_method("GdsLibrary", "replace_references")
        a = list(e.args)[1:] if e.kind == "icall" else list(e.args)
        b = dict(zip(f.params()[1:], a))
        b.update(dict(e.data.get("kwargs") or ()))
        return [b.get(p) for p in f.params()[1:]]


def worlds(prog, cls, f, names, rule=None):
    for vs in itertools.product((True, False), repeat=len(names)):
        cfg = dict(zip(names, vs))
        if rule is None or rule(cfg):
            yield cls(prog, f, cfg)


def text(cfg):
    return ", ".join(("" if v else "not ") + k for k, v in cfg.items())


def check(ctx, f, what, ws, one):
    probs, gave, n = {}, [], 0
    for w in ws:
        ctx.saw(w.it.functions_seen)
        try:
            n += 1
            one(w)
        except Bad as b:
            probs.setdefault("%s (%s)" % (b.args[0], text(w.cfg)), b.args[1] if len(b.args) > 1 else None)
        except (Give, Absent) as b:
            gave.append(str(b))
    if probs:
        for m, w in sorted(probs.items())[:4]:
            ctx.violation("library", "%s|library" % f.qualname, w or f.where, m)
    elif gave:
        ctx.unknown("library", f.where, "%s: %s" % (f.qualname, gave[0]))
    else:
        ctx.ok(what, "%s: %s, %d combinations of conditions" % (f.where, f.qualname, n))


# -- add -------------------------------------------------------------------------------


class Add(World):
    FLAGS = ("include_dependencies", "overwrite_duplicate", "update_references")

    def leaf(self, s):
        if s.op == "param":
            p = s.args[0]
            if p in self.FLAGS:
                return ("const", self.cfg[p])
            if p == self.f.params()[1]:
                return ("cell",) if self.cfg["one cell"] else ("items",)
        if s.op == "elem":
            if self.tokens(s) is not None:
                return ("cell",)
        return None

    def lookup(self, k):
        if k == ("name",):
            if not self.cfg["name present"]:
                return None
            return ("cell",) if self.cfg["same cell"] else ("other",)
        raise Give("key " + str(k))

    def tokens(self, n):
        """for a cell: which of the cells to be added it stands for"""
        s = strip(n)
        if s.op == "elem":
            if self.res is None:
                # some cell to be added
                return None
            if s in self.elems:
                return self.elems[s]
            self.elems[s] = None
            m = self.members(s.args[0], set())
            self.elems[s] = m
            return m
        if s.op == "param" and s.args[0] == self.f.params()[1]:
            return {"cell"} if self.cfg["one cell"] else None
        if s.op == "ite":
            return self.tokens(s.args[1] if self.truth(s.args[0]) else s.args[2])
        return None

    def updates(self, s):
        if self.res is None:
            raise Give("members during the analysis")
        for e in self.res.effects:
            if e.kind == "mcall" and strip(e.recv) is s and e.name not in ("copy",):
                yield e, e.name, e.args
            elif e.kind == "aug" and strip(e.obj) is s and s.op not in ("list",):
                yield e, "aug" + e.op, [e.value]

    def members(self, n, busy):
        s = strip(n)
        while s.op == "ite":
            s = strip(s.args[1] if self.truth(s.args[0]) else s.args[2])
        if s in busy:
            return set()
        busy = busy | {s}
        out = set()
        if s.op == "param":
            if s.args[0] == self.f.params()[1] and not self.cfg["one cell"]:
                out |= {"items"}
            else:
                raise Give("members of " + show(s, 3))
        elif s.op in ("list", "set", "tuple"):
            for x in s.args[0]:
                t = self.tokens(x)
                if t is None:
                    raise Give("member " + show(x, 3))
                out |= t
        elif s.op == "call" and s.args[0] in WRAP:
            if s.args[1]:
                out |= self.members(s.args[1][0], busy)
        elif s.op == "call" and isinstance(s.args[0], str) and s.args[0].startswith("itertools.chain"):
            for x in s.args[1]:
                if x.op == "star":
                    raise Give("members of " + show(s, 3))
                out |= self.members(x, busy)
        elif s.op == "bin" and s.args[0] in ("|", "+"):
            out |= self.members(s.args[1], busy) | self.members(s.args[2], busy)
        elif s.op == "mcall" and s.args[1] in ("union", "copy"):
            out |= self.members(s.args[0], busy)
            for x in s.args[2]:
                out |= self.members(x, busy)
        elif s.op in ("mcall", "icall") and (s.args[1] if s.op == "mcall" else s.args[0].name) == "get_dependencies":
            recv, args = (s.args[0], list(s.args[2])) if s.op == "mcall" else (s.args[1][0], list(s.args[1][1:]))
            kw = dict((s.args[3] if s.op == "mcall" else s.args[2]) or ())
            rec = args[0] if args else kw.get("recursive")
            full = rec is not None and self.truth(rec)
            r = strip(recv)
            t = self.members(r.args[0], busy) if r.op == "elem" else self.tokens(recv)
            if t is None:
                raise Give("dependencies of " + show(recv, 3))
            for x in t:
                if x.startswith("all dependencies"):
                    out.add(x)
                else:
                    out.add(("all dependencies of " if full else "direct dependencies of ") + x)
        elif s.op == "comp":
            v = strip(s.args[1])
            if s.args[3]:
                raise Give("filtered cells")
            if v.op == "elem":
                r = strip(v.args[0])
                out |= self.members(r, busy)
            else:
                raise Give("members of " + show(s, 3))
        elif s.op == "loopv":
            i, x = (s.info or {}).get("init"), (s.info or {}).get("next")
            if i is None or x is None:
                raise Give("members of " + show(s, 3))
            out |= self.members(i, busy) | self.members(x, busy)
        elif s.op == "elem":
            # all elements of the sets in a list of sets
            raise Give("members of " + show(s, 3))
        else:
            raise Give("members of " + show(s, 3))
        for e, nm, args in self.updates(s):
            for g, p in e.guards:
                if self.truth(g) != p:
                    break
            else:
                if nm in ("update", "extend", "aug|", "aug+"):
                    for x in args:
                        out |= self.members(x, busy)
                elif nm in ("add", "append"):
                    t = self.members(strip(args[0]).args[0], busy) if strip(args[0]).op == "elem" else self.tokens(args[0])
                    if t is None:
                        raise Give("member " + show(args[0], 3))
                    out |= t
                else:
                    raise Give("update ." + nm)
        return out

    def expected(self):
        src = "cell" if self.cfg["one cell"] else "items"
        return {src} | ({"all dependencies of " + src} if self.cfg["include_dependencies"] else set())


def add_one(w):
    c = w.cfg
    clash = c["name present"] and not c["same cell"]
    raises = w.ordered(lambda e: e.kind == "raise")
    muts = w.ordered(w.mutation)
    own = w.expected()
    for e in muts + raises:
        k = domain(w, e)
        if k is not None and k != own:
            miss, more = own - k, k - own
            if e.kind == "raise":
                continue
            if more:
                raise Bad("%s are added" % ", ".join(sorted(more)), e.where)
            # several loops may share the work
    if clash and not c["overwrite_duplicate"]:
        if not raises:
            raise Bad("a cell is added although another one has its name", (muts[0].where if muts else None))
        if union(w, raises) != own:
            raise Bad("only %s are looked at for others of their name" % ", ".join(sorted(union(w, raises))), raises[0].where)
        if muts:
            raise Bad("a library is changed although another cell has the name", muts[0].where)
        return
    if raises:
        raise Bad("an error is raised for a cell that may be added", raises[0].where)
    stores = [e for e in muts if e.kind == "storeitem"]
    for e in stores:
        if w.val(e.key) != ("name",) or w.val(e.value) != ("cell",):
            raise Bad("a cell is listed under %s" % show(e.key, 3), e.where)
        if strip(e.key).op == "attr" and strip(e.key).args[0] is not e.value and strip(strip(e.key).args[0]) is not strip(e.value):
            raise Bad("a cell is listed under the name of another: %s" % show(e.key, 3), e.where)
    got = union(w, stores)
    if got != own and not (c["name present"] and c["same cell"] and not stores):
        raise Bad("only %s of %s are added" % (", ".join(sorted(got)) or "none", ", ".join(sorted(own))), stores[0].where if stores else None)
    rep = [e for e in muts if w.callee(e) == "replace_references"]
    if clash and c["update_references"]:
        if union(w, rep) != own:
            raise Bad("references to a replaced cell are not changed to the new one", stores[0].where if stores else None)
    elif rep:
        raise Bad("references are changed although %s" % ("update_references is false" if clash else "no cell is replaced"), rep[0].where)
    for e in rep:
        o, n = w.call_args(e)
        if w.val(o)[0] not in ("name", "other") or w.val(n) != ("cell",):
            raise Bad("references to %s are changed to %s" % (show(o, 3), show(n, 3)), e.where)
    for e in muts:
        if e not in stores and e not in rep:
            raise Give("%s at %s" % (e.kind, e.where))


def domain(w, e):
    """cells the loops of an effect run over"""
    out = None
    for l in e.loops:
        try:
            m = w.members(l[1], set()) if l[1] is not None else None
        except Give:
            raise
        if m is None:
            raise Give("while loop")
        out = m if out is None else out
    if out is None:
        return {"cell"} if w.cfg["one cell"] else None
    return out


def union(w, es):
    out = set()
    for e in es:
        out |= domain(w, e) or set()
    return out


# -- rename ------------------------------------------------------------------------------


class Rename(World):
    def leaf(self, s):
        if s.op == "param":
            ps = self.f.params()
            if s.args[0] == ps[1]:
                return ("cell",) if self.cfg["a cell"] else ("name",)
            if s.args[0] == ps[2]:
                return ("newname",)
            if s.args[0] == "update_references":
                return ("const", self.cfg["update_references"])
        return None

    def lookup(self, k):
        if k == ("name",):
            if not self.cfg["present"]:
                return None
            return ("cell",) if self.cfg["same cell"] or not self.cfg["a cell"] else ("other",)
        if k == ("newname",):
            return ("other",) if self.cfg["new name taken"] else None
        raise Give("key " + str(k))


def rename_one(w):
    c = w.cfg
    error = not c["present"] or c["a cell"] and not c["same cell"] or c["new name taken"]
    raises = w.ordered(lambda e: e.kind == "raise")
    muts = w.ordered(w.mutation)
    if error:
        why = "the cell is not in the library" if not c["present"] else ("another cell has the new name" if c["new name taken"] else "the library has another cell of that name")
        if not raises:
            raise Bad("a cell is renamed although " + why, muts[0].where if muts else None)
        if muts:
            raise Bad("the library is changed although " + why, muts[0].where)
        return
    if raises:
        raise Bad("an error is raised for a cell that may be renamed", raises[0].where)
    done = set()
    for e in muts:
        if e.kind == "delitem" or e.kind == "mcall" and e.name == "pop":
            k = w.val(e.key if e.kind == "delitem" else e.args[0])
            if k != ("name",):
                raise Bad("not the old name but %s is removed from the library" % show(e.key if e.kind == "delitem" else e.args[0], 3), e.where)
            if "stored" in done and False:
                pass
            done.add("removed")
        elif e.kind == "storeitem":
            if w.val(e.key) != ("newname",) or w.val(e.value) != ("cell",):
                raise Bad("%s is listed under %s" % (show(e.value, 3), show(e.key, 3)), e.where)
            done.add("listed")
        elif e.kind == "store" and e.attr == "name":
            if w.val(e.obj) != ("cell",) or w.val(e.value) != ("newname",):
                raise Bad("the name of %s becomes %s" % (show(e.obj, 3), show(e.value, 3)), e.where)
            done.add("named")
        elif w.callee(e) == "replace_references":
            o, n = w.call_args(e)
            if w.val(o) != ("name",) or w.val(n) not in (("cell",), ("newname",)):
                raise Bad("references to %s are changed to %s" % (show(o, 3), show(n, 3)), e.where)
            if not c["update_references"]:
                raise Bad("references are changed although update_references is false", e.where)
            if w.val(n) == ("newname",) and "listed" not in done:
                raise Bad("references are changed to a name that is not in the library yet", e.where)
            done.add("references")
        else:
            raise Give("%s at %s" % (e.kind, e.where))
    for k, t in (("removed", "the old name stays in the library"), ("listed", "the new name is not in the library"), ("named", "the cell keeps its old name")):
        if k not in done:
            raise Bad(t, None)
    if c["update_references"] and "references" not in done:
        raise Bad("references to the old name are not updated", None)


# -- references: replace_references and remove ----------------------------------------------


class Refs(World):
    """ref is any reference of any cell of the library"""
    prune = False

    def is_cell(self, n):
        """any cell of the library"""
        s = strip(n)
        if s.op == "sub" and self.dictionary(s.args[0]) and strip(s.args[1]).op in ("key", "elem"):
            k = strip(s.args[1])
            return k.op == "key" and self.dictionary(k.args[0]) or k.op == "elem" and (self.dictionary(k.args[0]) or strip(k.args[0]).op == "call" and strip(k.args[0]).args[0] in WRAP and self.dictionary(strip(k.args[0]).args[1][0]))
        if s.op == "elem":
            return self.values(s.args[0])
        return False

    def refs(self, n):
        """the references of a cell of the library, as they were"""
        s = strip(n)
        if s.op == "call" and s.args[0] in WRAP and len(s.args[1]) == 1:
            return self.refs(s.args[1][0])
        if s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][1] == "references":
            return self.is_cell(s.args[1][0])
        if s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][1] == "$c":
            return self.refs(s.args[1][0])
        if s.op == "sub" and strip(s.args[1]).op == "slice" and all(x.op == "const" and x.args[1] is None for x in strip(s.args[1]).args):
            return self.refs(s.args[0])
        return s.op == "attr" and s.args[1] == "references" and self.is_cell(s.args[0])

    def is_ref(self, n):
        s = strip(n)
        return s.op == "elem" and self.refs(s.args[0])

    def leaf(self, s):
        ps = self.f.params()
        if s.op == "param":
            if s.args[0] == ps[1]:
                return ("cell",) if self.cfg["a cell"] else ("name",)
            if "new a cell" in self.cfg and s.args[0] == ps[2]:
                return ("newcell",) if self.cfg["new a cell"] else ("newname",)
            if s.args[0] == "remove_references":
                return ("const", self.cfg["remove_references"])
        if s.op == "attr" and s.args[1] == "ref_cell" and self.is_ref(s.args[0]) or s.op == "loopv" and isinstance(s.args[1], tuple) and s.args[1][1] == "ref_cell" and self.is_ref(s.args[1][0]):
            if self.cfg["reference resolved"]:
                return ("refcell",)
            return ("name",) if self.cfg["same name"] else ("othername",)
        return None

    def name_of(self, v):
        if v[0] == "refcell":
            return ("name",) if self.cfg["same name"] else ("othername",)
        if v[0] == "cell":
            return ("name",)
        if v[0] == "newcell":
            return ("newname",)
        if v[0] == "dictcell":
            return ("name",)
        raise Give("name of " + str(v))

    def same(self, a, b):
        if a == b:
            return True
        if {a[0], b[0]} == {"refcell", "cell"}:
            raise Bad("references are compared by cell, not by name", None)
        return False

    def truth(self, n):
        s = strip(n)
        if s.op == "call" and s.args[0] == "isinstance" and len(s.args[1]) == 2 and s.args[1][1].op == "cls" and s.args[1][1].args[0] is self.cell:
            return self.val(s.args[1][0])[0] in ("cell", "refcell", "newcell", "dictcell")
        return World.truth(self, n)

    def lookup(self, k):
        if k == ("name",):
            return ("dictcell",) if self.cfg.get("present", True) else None
        if k == ("newname",):
            return ("newindict",) if self.cfg.get("new present") else None
        raise Give("key " + str(k))


def over_all(w, e, depth):
    """the loops of the effect run over all cells (and all references of each)"""
    ls = [l for l in e.loops]
    if len(ls) != depth:
        raise Give("%d loops" % len(ls))
    for l in ls:
        if l[1] is None:
            raise Give("while loop")
    s = strip(ls[0][1])
    keys = w.dictionary(s) or s.op == "mcall" and s.args[1] in ("keys", "items") and w.dictionary(s.args[0])
    if not (keys or w.values(ls[0][1])):
        raise Bad("only %s are looked at, not all cells of the library" % show(ls[0][1], 3), e.where)
    if depth == 2 and not w.refs(ls[1][1]):
        s = strip(ls[1][1])
        if s.op == "sub":
            raise Bad("only some references are looked at: %s" % show(ls[1][1], 3), e.where)
        raise Give("loop over " + show(ls[1][1], 3))


def partial(w, e):
    """a loop over only some cells or references"""
    if e.kind != "store":
        return
    for l in e.loops:
        s = strip(l[1]) if l[1] is not None else None
        if s is None:
            continue
        nm = s.args[1] if s.op == "mcall" else (s.args[0].name if s.op == "icall" else "")
        if nm in ("top_level", "get_dependencies"):
            raise Bad("only %s are looked at, not all cells of the library" % show(s, 3), e.where)
        if s.op == "sub" and strip(s.args[1]).op == "slice":
            b = strip(s.args[0])
            while b.op == "call" and b.args[0] in WRAP and len(b.args[1]) == 1:
                b = strip(b.args[1][0])
            if (w.refs(b) or w.values(b)) and not w.refs(s):
                raise Bad("only %s are looked at" % show(s, 3), e.where)


def leaves(w, e):
    """is a loop left before its end?"""
    if e.kind not in ("break", "return") or not e.loops or not w.live(e):
        return False
    if e.kind == "break" or e.func is w.f:
        return True
    # a return from a helper leaves the loops of the helper only
    import ast
    lines = [(x.lineno, x.col_offset) for x in ast.walk(e.func.node) if isinstance(x, (ast.For, ast.While, ast.comprehension)) and hasattr(x, "lineno")]
    for l in e.loops:
        if isinstance(l[0], tuple) and l[0][0] == e.func.module.name and tuple(l[0][1:3]) in lines:
            return True
    return False


def replace_one(w):
    c = w.cfg
    for e in w.res.effects:
        partial(w, e)
    muts = w.ordered(w.mutation)
    for e in w.res.effects:
        if leaves(w, e):
            raise Bad("not all references are looked at: the loop is left early", e.where)
    new = ("newcell",) if c["new a cell"] else (("newindict",) if c["new present"] else ("newname",))
    hit = []
    for e in muts:
        if e.kind == "store" and e.attr == "ref_cell" and w.is_ref(e.obj):
            over_all(w, e, 2)
            if not c["same name"]:
                raise Bad("a reference to another cell is changed", e.where)
            if w.val(e.value) != new:
                raise Bad("references become %s" % show(e.value, 3), e.where)
            hit.append(e)
        else:
            raise Give("%s at %s" % (e.kind, e.where))
    if c["same name"] and not hit:
        raise Bad("a reference to the cell is not changed", None)
    counted(w, 1 if c["same name"] else 0)


def counted(w, want):
    """the result grows by want for this reference"""
    for gs, st, v in w.res.returns:
        v = strip(v)
        if v.op == "loopv" and (v.info or {}).get("next") is not None:
            i = strip(v.info["init"])
            if not (i.op == "const" and i.args[1] == 0):
                raise Bad("the count does not start at zero but at %s" % show(i, 3), None)
            d = grows(w, v, strip(v.info["next"]), 0)
            if d is None:
                raise Give("count " + show(v.info["next"], 4))
            if d != want:
                raise Bad("%s counted as %d" % ("a changed reference is" if want else "a reference that stays is", d), None)
        elif v.op == "const" and v.args[1] == 0:
            raise Bad("the number of changed references is not counted", None)
        else:
            raise Give("count " + show(v, 3))


def grows(w, v, n, depth):
    """n - v for one iteration"""
    if depth > 12:
        return None
    n = strip(n)
    if n is v:
        return 0
    if n.op == "ite":
        return grows(w, v, n.args[1] if w.truth(n.args[0]) else n.args[2], depth + 1)
    if n.op == "bin" and n.args[0] in ("+", "-"):
        k = strip(n.args[2])
        d = grows(w, v, n.args[1], depth + 1)
        if d is None:
            return None
        if k.op == "const" and isinstance(k.args[1], (int, bool)):
            return d + int(k.args[1]) * (1 if n.args[0] == "+" else -1)
        if k.op in ("cmp", "bool", "un"):
            return d + int(w.truth(k)) * (1 if n.args[0] == "+" else -1)
        return None
    if n.op == "loopv" and n.info and n.info.get("init") is not None and n.info.get("next") is not None:
        # the count of an inner loop
        i = grows(w, v, n.info["init"], depth + 1)
        x = grows(w, n, n.info["next"], depth + 1)
        return None if i is None or x is None else i + x
    return None


def remove_one(w):
    c = w.cfg
    for e in w.res.effects:
        partial(w, e)
    muts = w.ordered(w.mutation)
    dels = [e for e in muts if e.kind == "delitem" or e.kind == "mcall" and e.name == "pop"]
    for e in dels:
        k = w.val(e.key if e.kind == "delitem" else e.args[0])
        if k != ("name",):
            raise Bad("not the cell but %s is removed" % show(e.key, 3), e.where)
        if e.kind == "delitem" and not c["present"]:
            raise Bad("a cell that is not there is removed", e.where)
        if e.kind == "mcall" and not c["present"] and len(e.args) < 2:
            raise Bad("a cell that is not there is removed", e.where)
    if c["present"] and not dels:
        raise Bad("the cell stays in the library", None)
    kept = []
    for e in muts:
        if e in dels:
            continue
        if e.kind == "store" and e.attr == "references" and w.is_cell(e.obj):
            over_all(w, e, 1)
            if not c["remove_references"]:
                raise Bad("references are removed although remove_references is false", e.where)
            kept.append((e, filtered(w, e)))
        else:
            raise Give("%s at %s" % (e.kind, e.where))
    if c["remove_references"] and not kept:
        raise Bad("references to the cell are not removed", None)
    if len(kept) > 1:
        raise Give("several stores of references")
    for e, k in kept:
        if k and c["same name"]:
            raise Bad("references to the cell are kept", e.where)
        if not k and not c["same name"]:
            raise Bad("references to other cells are removed", e.where)
        if depends_on_removed(w, e):
            raise Give("order")
    # the number removed: references before less references after
    for gs, st, v in w.res.returns:
        v = strip(v)
        while v.op == "ite":
            v = strip(v.args[1] if w.truth(v.args[0]) else v.args[2])
        if not c["remove_references"]:
            if not (v.op == "const" and v.args[1] == 0):
                raise Give("result " + show(v, 3))
            continue
        if v.op == "const":
            raise Bad("the number of removed references is not counted", None)
        if v.op == "loopv" and v.info and v.info.get("next") is not None:
            i = strip(v.info["init"])
            if not (i.op == "const" and i.args[1] == 0):
                raise Bad("the count does not start at zero", None)
            co = {}
            linear(w, v, v.info["next"], 1, co, kept[0][0])
            if co != {"count": 1, "before": 1, "after": -1}:
                raise Bad("the number of removed references is calculated as %s" % ", ".join("%+d %s" % (n, k) for k, n in sorted(co.items())), kept[0][0].where)
        else:
            raise Give("result " + show(v, 3))


def depends_on_removed(w, e):
    return False


def linear(w, v, n, sign, co, store):
    n = strip(n) if not (n.op == "ver") else n
    s = strip(n)
    if s is v:
        co["count"] = co.get("count", 0) + sign
    elif s.op == "bin" and s.args[0] in ("+", "-"):
        linear(w, v, s.args[1], sign, co, store)
        linear(w, v, s.args[2], sign if s.args[0] == "+" else -sign, co, store)
    elif s.op == "call" and s.args[0] == "len":
        x = strip(s.args[1][0])
        if x is strip(store.value):
            co["after"] = co.get("after", 0) + sign
        elif w.refs(x):
            co["before"] = co.get("before", 0) + sign
        else:
            raise Give("count " + show(s, 3))
    elif s.op == "un" and s.args[0] == "-":
        linear(w, v, s.args[1], -sign, co, store)
    elif s.op == "const" and isinstance(s.args[1], int):
        if s.args[1]:
            co["one"] = co.get("one", 0) + sign * s.args[1]
    else:
        raise Give("count " + show(s, 3))


def filtered(w, e):
    """is this reference kept in the new list?"""
    s = strip(e.value)
    if s.op == "call" and s.args[0] == "list" and len(s.args[1]) == 1:
        s = strip(s.args[1][0])
    if s.op == "comp" and len(s.args[2]) == 1:
        if not w.refs(s.args[2][0]):
            raise Give("list over " + show(s.args[2][0], 3))
        if not w.is_ref(s.args[1]):
            raise Give("list of " + show(s.args[1], 3))
        for g in s.args[3]:
            g, p = g if isinstance(g, tuple) else (g, True)
            if w.truth(g) != p:
                return False
        return True
    if s.op in ("list", "call") and (s.op == "list" and not s.args[0] or s.op == "call" and s.args[0] == "list" and not s.args[1]):
        # filled by append
        for x in w.res.effects:
            if x.kind == "mcall" and strip(x.recv) is s:
                if x.name != "append" or not w.is_ref(x.args[0]):
                    raise Give("list update")
                if w.live(x):
                    return True
        return False
    raise Give("list " + show(s, 3))


# -- top level ---------------------------------------------------------------------------------


def top_level(ctx, prog, f):
    w = Refs(prog, f, {"a cell": True, "reference resolved": True, "same name": True})
    ctx.saw(w.it.functions_seen)

    def all_cells(n):
        s = strip(n)
        return s.op == "call" and s.args[0] in WRAP and len(s.args[1]) == 1 and (w.values(s.args[1][0]) or all_cells(s.args[1][0]))

    def deps(n, loops):
        """are these the dependencies of every cell of the library?"""
        s = strip(n)
        nm = s.args[1] if s.op == "mcall" else (s.args[0].name if s.op == "icall" else "")
        if nm != "get_dependencies":
            raise Give("cells taken away: " + show(s, 3))
        recv = strip(s.args[0] if s.op == "mcall" else s.args[1][0])
        if not w.is_cell(recv):
            raise Bad("dependencies of %s are taken away" % show(recv, 3), None)
        return True

    try:
        for gs, st, v in w.res.returns:
            s = strip(v)
            if s.op == "call" and s.args[0] in ("list", "sorted", "tuple") and len(s.args[1]) == 1:
                s = strip(s.args[1][0])
            if s.op == "comp" and len(s.args[2]) == 1 and len(s.args[3]) == 1 and w.values(s.args[2][0]) and strip(s.args[1]).op == "elem":
                g = s.args[3][0]
                g, p = g if isinstance(g, tuple) else (g, True)
                g, q = w.it.norm_cond(g)
                if not (g.op == "cmp" and g.args[0] in ("in", "not in") and strip(g.args[1]) is strip(s.args[1])):
                    raise Give("condition " + show(g, 3))
                if (p == q) != (g.args[0] == "not in"):
                    raise Bad("cells other cells depend on are returned", None)
                taken = strip(g.args[2])
                base_ok = True
                names = ("update", "add", "aug|")
            else:
                if not all_cells(s):
                    raise Give("result " + show(s, 3))
                taken, names = s, ("difference_update", "aug-", "-=")
            n = 0
            for e in w.res.effects:
                if e.kind == "mcall" and strip(e.recv) is taken or e.kind == "aug" and strip(e.obj) is taken:
                    nm = e.name if e.kind == "mcall" else "aug" + e.op
                    if nm not in names:
                        if nm in ("update", "intersection_update", "symmetric_difference_update", "add", "difference_update", "discard", "remove", "pop", "clear"):
                            raise Bad("cells are collected by .%s" % nm, e.where)
                        raise Give("." + nm)
                    if e.guards:
                        raise Bad("dependencies count only if %s" % show(e.guards[0][0], 4), e.where)
                    over_all(w, e, 1)
                    deps(e.args[0] if e.kind == "mcall" else e.value, e.loops)
                    n += 1
            if not n:
                raise Bad("no dependencies are taken away", None)
    except Bad as b:
        ctx.violation("library", "%s|library" % f.qualname, (b.args[1] if len(b.args) > 1 else None) or f.where, str(b.args[0]))
    except (Give, Absent) as b:
        ctx.unknown("library", f.where, "%s: %s" % (f.qualname, b))
    else:
        ctx.ok("top level cells", "%s: %s" % (f.where, f.qualname))


# -- the index ------------------------------------------------------------------------------------


def index(ctx, prog):
    """no other function changes the index of a library or the name of a cell"""
    lib = prog.need_class("GdsLibrary")
    known = {"add", "remove", "rename_cell", "read_gds", "__init__"}
    import ast
    for f in sorted(prog.all_functions(), key=lambda f: (f.module.name, f.qualname)):
        if f.module.name.endswith("viewer"):
            continue
        bad = None
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr == "cells":
                t = "changes the list of cells of a library"
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr == "cells":
                t = "replaces the list of cells of a library"
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "cells" and x.func.attr in ("pop", "update", "clear", "setdefault", "popitem"):
                t = "changes the list of cells of a library"
            if t and not (f.cls is lib and (f.name in known or private(f))):
                bad = (t, x.lineno)
        if bad:
            if private(f):
                continue
            ctx.unknown("library", f.where, "%s %s" % (f.qualname, bad[0]))
    # the constructor starts with no cells
    f = prog.need_method("GdsLibrary", "__init__")
    it = Interp(prog, inline=lambda g, i: private(g))
    me = it.mk("param", f.params()[0])
    res = it.run(f, self_cls=lib, args={p: it.mk("param", p) for p in f.params()[1:]}, self_node=me)
    ctx.saw(it.functions_seen)
    sts = [e for e in res.effects if e.kind == "store" and e.attr == "cells" and strip(e.obj) is me]
    if not sts:
        ctx.violation("library", "%s|library" % f.qualname, f.where, "a new library has no list of cells")
    for e in sts:
        vs = [strip(e.value)]
        while any(v.op == "ite" for v in vs):
            vs = [strip(y) for v in vs for y in (v.args[1:] if v.op == "ite" else [v])]
        shared = [v for v in vs if v.op in ("param", "default", "gconst", "classattr")]
        v = shared[0] if shared else vs[0]
        if not shared and len(vs) > 1:
            ctx.unknown("library", e.where, "cells of a new library")
        elif v.op == "dict" and not v.args[0] or v.op == "call" and v.args[0] in ("dict", "collections.OrderedDict", "OrderedDict") and not v.args[1]:
            ctx.ok("a new library is empty", e.where)
        elif v.op in ("param", "default", "gconst", "classattr"):
            ctx.violation("library", "%s|library" % f.qualname, e.where, "libraries share a list of cells: %s" % show(v, 3))
        else:
            ctx.unknown("library", e.where, "cells of a new library: " + show(v, 3))


def reading(ctx, prog):
    """read_gds lists every new cell under its name"""
    f = prog.need_method("GdsLibrary", "read_gds")
    it = Interp(prog, inline=lambda g, i: private(g) and g.cls is f.cls and not g.name.startswith("_create"))
    me = it.mk("param", f.params()[0])
    res = it.run(f, self_cls=f.cls, args={p: it.mk("param", p) for p in f.params()[1:]}, self_node=me)
    ctx.saw(it.functions_seen)
    cell = prog.need_class("Cell")
    news = {e.result: e for e in res.effects if e.kind == "new" and e.cls is cell}
    probs, gave = [], []
    listed = set()

    def cells(n):
        s = strip(n)
        while s.op == "loopv" and isinstance(s.args[1], tuple):
            if s.args[1][1] == "$c":
                s = strip(s.args[1][0])
            else:
                return s.args[1] == (me, "cells")
        return s.op == "attr" and s.args[1] == "cells" and strip(s.args[0]) is me

    def new_of(v):
        v = strip(v)
        return v if v in news else None

    for e in res.effects:
        if e.kind == "storeitem" and cells(e.obj):
            c = new_of(e.value)
            if c is None:
                gave.append("listed " + show(e.value, 3))
                continue
            n = news[c]
            ps = cell.find_method("__init__").params()[1:]
            b = dict(zip(ps, n.args))
            b.update(dict(n.data.get("kwargs") or ()))
            listed.add(c)
            k = strip(e.key)
            if k.op == "attr" and k.args[1] == "name" and strip(k.args[0]) is c:
                pass
            elif k is not strip(b.get("name") or k) or b.get("name") is None:
                probs.append(("a cell named %s is listed under %s" % (show(b.get("name"), 3), show(k, 3)), e.where))
            if set(n.guards) - set(e.guards):
                probs.append(("a cell is listed only sometimes", e.where))
            # an existing cell of that name: an error before
            ok = False
            for g, p in e.guards:
                g, q = it.norm_cond(g)
                if g.op == "cmp" and g.args[0] in ("in", "not in") and cells(g.args[2]) and strip(g.args[1]) is k:
                    ok = ok or (p == q) == (g.args[0] == "not in")
            if not ok:
                probs.append(("a cell replaces another of its name in the library", e.where))
    for c, n in news.items():
        if c not in listed:
            probs.append(("a cell that is read is not listed in the library", n.where))
    for m, w in probs:
        ctx.violation("library", "%s|library" % f.qualname, w, m)
    if not probs and gave:
        ctx.unknown("library", f.where, "%s: %s" % (f.qualname, gave[0]))
    elif not probs:
        ctx.ok("cells read are listed", f.where)


def libraries(ctx):
    ctx.rule("cells are listed under their names, names are unique, and references follow renamed, replaced and removed cells")
    prog = ctx.prog
    m = lambda n: prog.need_method("GdsLibrary", n)
    f = m("add")
    names = ("one cell", "include_dependencies", "overwrite_duplicate", "update_references", "name present", "same cell")
    check(ctx, f, "added cells", worlds(prog, Add, f, names, lambda c: c["name present"] or not c["same cell"]), add_one)
    f = m("rename_cell")
    check(ctx, f, "renamed cells", worlds(prog, Rename, f, ("a cell", "present", "same cell", "new name taken", "update_references")), rename_one)
    f = m("replace_references")
    check(ctx, f, "replaced references", worlds(prog, Refs, f, ("a cell", "new a cell", "new present", "reference resolved", "same name")), replace_one)
    f = m("remove")
    check(ctx, f, "removed cells", worlds(prog, Refs, f, ("a cell", "present", "remove_references", "reference resolved", "same name")), remove_one)
    top_level(ctx, prog, m("top_level"))
    index(ctx, prog)
    reading(ctx, prog)
