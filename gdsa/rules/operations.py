"""Boolean operations, offset, slice and inside: which polygons and options reach
the extension module, and what becomes of its result."""
import itertools
from fractions import Fraction
from ..gather import Gather, Unknown, items
from ..interp import Interp, show, subnodes
from ..flow import strip
from .aliasing import private
from .geometry import Bad, Give
from .traverse import compare

R = "operations"
KINDS = ("PolygonSet", "FlexPath", "RobustPath", "CellReference", "CellArray")
SIGS = {"get_polygons": [("by_spec", False), ("depth", None)]}


def drive(ctx, construct, f, one):
    try:
        one()
    except Bad as b:
        ctx.violation(R, construct, b.where or f.where, b.msg)
    except (Give, Unknown) as u:
        ctx.unknown(R, f.where, "%s: %s" % (construct, u))
    else:
        ctx.ok("operations", construct)


# -- operands ------------------------------------------------------------------

class Operand(object):
    """_gather_polys for one kind of argument"""

    def __init__(self, prog, f, kind, item):
        self.prog, self.kind, self.item = prog, kind, item
        it = self.it = Interp(prog, inline=lambda g, i: private(g), assume=self.assume)
        self.arg = it.mk("param", f.params()[0])
        self.res = it.run(f, args={f.params()[0]: self.arg})

    def kind_of(self, n):
        s = strip(n)
        if s is self.arg:
            return self.kind
        if s.op == "elem" and strip(s.args[0]) is self.arg:
            return self.item
        if s.op == "sub" and strip(s.args[0]) is self.arg and strip(s.args[1]).op in ("idx", "elem"):
            return self.item
        return None

    def assume(self, c, st):
        s = strip(c)
        if s.op == "un" and s.args[0] == "not":
            r = self.assume(s.args[1], st)
            return None if r is None else not r
        if s.op == "bool":
            rs = [self.assume(x, st) for x in s.args[1]]
            if s.args[0] == "and":
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if s.op == "cmp" and s.args[0] in ("is", "is not", "==", "!=") and strip(s.args[2]).op == "const" and strip(s.args[2]).args[1] is None:
            k = self.kind_of(s.args[1])
            if k is None:
                return None
            return (k == "none") == (s.args[0] in ("is", "=="))
        if s.op == "call" and s.args[0] == "isinstance" and len(s.args[1]) == 2:
            k = self.kind_of(s.args[1][0])
            if k is None:
                return None
            cs = strip(s.args[1][1])
            rs = [self.inst(k, x) for x in (cs.args[0] if cs.op == "tuple" else [cs])]
            return True if True in rs else False if all(r is False for r in rs) else None
        if s.op == "call" and s.args[0] == "hasattr" and len(s.args[1]) == 2 and strip(s.args[1][1]).op == "const":
            k = self.kind_of(s.args[1][0])
            nm = strip(s.args[1][1]).args[1]
            if k in KINDS:
                c = self.prog.need_class(k)
                if c.find_method(nm):
                    return True
                if nm in self.slots(c):
                    return True
                return False
            if k in ("none", "list", "points") and nm in ("polygons", "get_polygons", "layers"):
                return False
        return None

    def slots(self, c):
        out = set()
        for k in c.mro:
            out |= set(getattr(k, "slots", None) or ())
        return out

    def inst(self, k, n):
        n = strip(n)
        if n.op == "cls":
            return k in KINDS and self.prog.need_class(k).issub(n.args[0])
        nm = n.args[0] if n.op == "ext" else None
        if isinstance(nm, str):
            nm = nm.split(".")[-1]
            if k in KINDS:
                return False
            if nm in ("list", "tuple", "ndarray"):
                return None if k != "none" else False
            if nm in ("Iterable", "Sequence", "Sized"):
                return k in ("list", "points") or None
        return None


def operands(ctx, prog, f):
    ctx.saw([f])
    todo = [("none", None, [])]
    for k in KINDS:
        v = "args.polygons[a]" if k == "PolygonSet" else "args.get_polygons(by_spec=False, depth=None)[a]"
        todo.append((k, None, [(None, v, ())]))
    for k in KINDS + ("points",):
        v = "args[a]" if k == "points" else "args[a].polygons[b]" if k == "PolygonSet" else "args[a].get_polygons(by_spec=False, depth=None)[b]"
        todo.append(("list", k, [(None, v, ())]))
    for kind, item, want in todo:
        what = "operand: " + (kind if item is None else "list of " + item)

        def one():
            o = Operand(prog, f, kind, item)
            vs = [(v, g) for g, st, v in o.res.returns]
            if not vs:
                raise Bad("%s is not accepted" % what)
            if len(vs) > 1:
                raise Give("several results for " + what)
            v, g = vs[0]
            if any(o.assume(c, None) is None for c, p in g):
                raise Give("condition " + show(g[0][0], 3))
            if strip(v).op == "const":
                raise Bad("%s: the result is %s" % (what, show(v, 2)))
            gt = Gather(o.it, o.res, lambda c: o.assume(c, None), None, SIGS)
            got = items(gt, v, "list")
            p = f.params()[0]
            compare(gt, got, [(k_, v_.replace("args", p), g_) for k_, v_, g_ in want], "list", what)

        drive(ctx, "_gather_polys|" + what, f, one)


# -- calls of the extension ------------------------------------------------------

class Clip(object):
    """the polygons returned by clipper.clip or clipper.offset"""

    def __init__(self, node, a, b, op):
        self.node, self.a, self.b, self.op = node, a, b, op


class Op(object):
    """one public function with operands of given sizes"""

    def __init__(self, prog, f, cfg):
        self.prog, self.f, self.cfg = prog, f, cfg
        it = self.it = Interp(prog, inline=lambda g, i: private(g) and g.name != "_gather_polys", assume=self.assume)
        self.args = {p: it.mk("param", p) for p in f.params()}
        self.res = it.run(f, args=self.args)

    def assume(self, c, st):
        try:
            return self.truth(c)
        except (Give, Bad, Unknown):
            return None

    def param(self, n):
        s = strip(n)
        return s.args[0] if s.op == "param" else None

    def gathered(self, n):
        """name of the argument whose polygons n is"""
        s = strip(n)
        if s.op == "icall" and s.args[0].name == "_gather_polys":
            vs = list(s.args[1]) + [v for k, v in s.args[2] or ()]
            if len(vs) == 1:
                p = self.param(vs[0])
                if p is None:
                    raise Give("operand " + show(vs[0], 3))
                return p
        return None

    def ext(self, n, name):
        return n.op == "call" and n.args[0] in ("gdspy.clipper." + name, "clipper." + name)

    def lst(self, n):
        """list a node stands for: tokens, or a Clip"""
        if n.op == "ver":
            c = n.args[1]
            if c.op in ("upd", "ite", "phi", "loopv"):
                return self.content(c)
            return self.lst(n.args[0])
        if n.op == "init":
            return self.lst(n.args[0])
        if n.op == "ite":
            return self.lst(n.args[1] if self.truth(n.args[0]) else n.args[2])
        p = self.gathered(n)
        if p is not None:
            return self.tokens(p)
        if n.op in ("list", "tuple"):
            out = []
            for x in n.args[0]:
                out += self.lst(x.args[0]) if x.op == "star" else [self.tok(x)]
            return out
        if n.op == "call" and n.args[0] in ("list", "tuple", "copy.copy") and len(n.args[1]) == 1:
            return self.lst(n.args[1][0])
        if n.op == "call" and n.args[0] in ("list", "tuple") and not n.args[1]:
            return []
        if n.op == "mcall" and n.args[1] == "copy" and not n.args[2]:
            return self.lst(n.args[0])
        if n.op == "bin" and n.args[0] == "+":
            return self.plain(n.args[1]) + self.plain(n.args[2])
        if n.op == "sub" and n.args[1].op == "slice":
            lo, hi, st = [x.args[1] if x.op == "const" else self.num(x) if x.op != "const" else None for x in n.args[1].args]
            return self.plain(n.args[0])[slice(*[None if x is None else int(x) for x in (lo, hi, st)])]
        if n.op == "comp" and n.args[0] == "list" and len(n.args[2]) == 1 and not n.args[3]:
            v = strip(n.args[1])
            if v.op == "elem" and strip(v.args[0]) is strip(n.args[2][0]):
                return self.lst(n.args[2][0])
        if self.ext(n, "clip"):
            a = self.pos(n, 4)
            return Clip(n, self.plain(a[0]), self.plain(a[1]), self.string(a[2]))
        if self.ext(n, "offset"):
            return Clip(n, None, None, "offset")
        raise Give("list " + show(n, 3))

    def plain(self, n):
        r = self.lst(n)
        if isinstance(r, Clip):
            raise Give("operations on a result")
        return r

    def content(self, c):
        if c.op == "ite":
            return self.content(c.args[1] if self.truth(c.args[0]) else c.args[2])
        if c.op == "upd":
            base, nm, a = c.args
            r = list(self.content(base) if base.op in ("upd", "ite") else self.lst(base))
            if nm == "append":
                return r + [self.tok(a[0])]
            if nm == "extend":
                return r + self.plain(a[0])
            if nm == "insert":
                r.insert(int(self.num(a[0])), self.tok(a[1]))
                return r
            if nm == "pop":
                k = int(self.num(a[0])) if a else -1
                if not -len(r) <= k < len(r):
                    raise Bad("an item of an empty list is taken")
                r.pop(k)
                return r
            if nm == "clear":
                return []
            raise Give("." + nm)
        if c.op in ("phi", "loopv"):
            raise Give("list built in a loop")
        return self.lst(c)

    def tokens(self, p):
        return ["%s[%d]" % (p, k) for k in range(self.cfg["n"].get(p, 1))]

    def tok(self, n):
        s = strip(n)
        if s.op == "mcall" and s.args[1] == "pop":
            r = self.plain(s.args[0])
            k = int(self.num(s.args[2][0])) if s.args[2] else -1
            if not -len(r) <= k < len(r):
                raise Bad("an item of an empty list is taken")
            return r[k]
        if s.op == "sub" and s.args[1].op != "slice":
            r = self.plain(s.args[0])
            k = int(self.num(s.args[1]))
            if not -len(r) <= k < len(r):
                raise Bad("an item of an empty list is taken")
            return r[k]
        if s.op == "ite":
            return self.tok(s.args[1] if self.truth(s.args[0]) else s.args[2])
        raise Give("item " + show(s, 3))

    def pos(self, n, k):
        if n.args[2] or len(n.args[1]) != k or any(x.op == "star" for x in n.args[1]):
            raise Give("arguments of " + n.args[0])
        return n.args[1]

    def string(self, n):
        s = strip(n)
        if s.op == "const" and isinstance(s.args[1], str):
            return s.args[1]
        if s.op == "param" and s.args[0] in self.cfg["strings"]:
            return self.cfg["strings"][s.args[0]]
        if s.op == "ite":
            return self.string(s.args[1] if self.truth(s.args[0]) else s.args[2])
        raise Give("text " + show(s, 3))

    def num(self, n):
        s = strip(n)
        if s.op == "const" and isinstance(s.args[1], (int, float)):
            return Fraction(s.args[1])
        v = self.cfg["numbers"].get(s)
        if v is not None:
            return v
        if s.op == "param" and s.args[0] in self.cfg["values"]:
            return Fraction(self.cfg["values"][s.args[0]])
        if s.op == "bin":
            a, b = self.num(s.args[1]), self.num(s.args[2])
            if s.args[0] in ("/", "//", "%") and b == 0:
                raise Give("division by zero")
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: Fraction(a // b), "%": lambda: a % b, "**": lambda: a ** int(b)}.get(s.args[0], lambda: self.give(s))()
        if s.op == "un" and s.args[0] == "-":
            return -self.num(s.args[1])
        if s.op == "ite":
            return self.num(s.args[1] if self.truth(s.args[0]) else s.args[2])
        if s.op == "call" and s.args[0] in ("int", "float", "bool") and len(s.args[1]) == 1:
            try:
                v = self.num(s.args[1][0])
            except Give:
                v = Fraction(int(self.truth(s.args[1][0])))
            return Fraction(int(v != 0)) if s.args[0] == "bool" else v
        if s.op == "call" and s.args[0] == "len" and len(s.args[1]) == 1:
            return Fraction(self.length(s.args[1][0]))
        if s.op == "call" and s.args[0] in ("min", "max") and len(s.args[1]) > 1 and not s.args[2]:
            return {"min": min, "max": max}[s.args[0]](self.num(x) for x in s.args[1])
        if s.op in ("cmp", "bool") or s.op == "un" and s.args[0] == "not":
            return Fraction(int(self.truth(s)))
        raise Give("number " + show(s, 3))

    def length(self, n):
        r = self.lst(n)
        if isinstance(r, Clip):
            if self.cfg["result"] is None:
                raise Give("result")
            return 3 if self.cfg["result"] else 0
        return len(r)

    def give(self, n):
        raise Give(show(n, 3))

    def truth(self, n):
        s = strip(n)
        if s.op == "const":
            return bool(s.args[1])
        if s.op == "un" and s.args[0] == "not":
            return not self.truth(s.args[1])
        if s.op == "ite":
            return self.truth(s.args[1] if self.truth(s.args[0]) else s.args[2])
        if s.op == "bool":
            rs = []
            for x in s.args[1]:
                try:
                    r = self.truth(x)
                except Give:
                    r = None
                if r is (s.args[0] == "or"):
                    return r
                rs.append(r)
            if None in rs:
                raise Give("condition " + show(s, 3))
            return s.args[0] == "and"
        if s.op == "cmp":
            op, a, b = s.args
            if op in ("in", "not in"):
                b = strip(b)
                if b.op not in ("list", "tuple", "set"):
                    raise Give("condition " + show(s, 3))
                r = self.string(a) in [self.string(x) for x in b.args[0]]
                return r if op == "in" else not r
            if op in ("is", "is not", "==", "!=") and strip(b).op == "const" and strip(b).args[1] is None:
                self.lst(a)
                return op in ("is not", "!=")
            if op in ("==", "!="):
                try:
                    r = self.string(a) == self.string(b)
                    return r if op == "==" else not r
                except Give:
                    pass
                try:
                    r = self.plain(a) == self.plain(b)
                    return r if op == "==" else not r
                except Give:
                    pass
            x, y = self.num(a), self.num(b)
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if s.op == "param" and s.args[0] in self.cfg["values"]:
            return bool(self.cfg["values"][s.args[0]])
        if s.op == "call" and s.args[0] == "bool" and len(s.args[1]) == 1:
            return self.truth(s.args[1][0])
        t = self.special(s)
        if t is not None:
            return t
        if s.op in ("call", "icall", "list", "tuple", "sub", "bin", "mcall") or n.op == "ver":
            return self.length(n) > 0
        raise Give("condition " + show(s, 3))

    def special(self, s):
        fn = self.cfg.get("special")
        return fn(self, s) if fn else None

    # what is returned
    def outcome(self):
        rs = [(g, st, v) for g, st, v in self.res.returns]
        live = []
        for g, st, v in rs:
            ok = True
            for c, p in g:
                if self.truth(c) != p:
                    ok = False
                    break
            if ok:
                live.append((st, v))
        if len(live) != 1:
            raise Give("%d results" % len(live))
        return live[0]

    def set_of(self, st, v):
        """None, or (constructor arguments, fractured)"""
        v = strip(v)
        while v.op == "ite":
            v = strip(v.args[1] if self.truth(v.args[0]) else v.args[2])
        if v.op == "const" and v.args[1] is None:
            return None
        frac = False
        while v.op in ("icall", "mcall"):
            nm = v.args[0].name if v.op == "icall" else v.args[1]
            if nm != "fracture":
                raise Give("result " + show(v, 3))
            frac = True
            v = strip(v.args[1][0] if v.op == "icall" else v.args[0])
        if v.op != "new":
            raise Give("result " + show(v, 3))
        e = [e for e in self.res.effects if e.kind == "new" and e.data["result"] is v]
        if len(e) != 1 or e[0].data["cls"].name != "PolygonSet":
            raise Give("result " + show(v, 3))
        for x in self.res.effects:
            if x.kind == "icall" and x.data["func"].name == "fracture" and strip(x.data["args"][0]) is v and not x.loops:
                if all(self.truth(c) == p for c, p in x.guards):
                    frac = True
        names = e[0].data["cls"].find_method("__init__").params()[1:]
        args = dict(zip(names, e[0].data["args"]))
        args.update(dict((k, x) for k, x in e[0].data["kwargs"]) if e[0].data["kwargs"] else {})
        return args, frac, e[0].where

    def live_call(self, name):
        es = []
        for e in self.res.effects:
            if e.kind == "call" and e.data["target"] in ("gdspy.clipper." + name, "clipper." + name):
                if all(self.truth(c) == p for c, p in e.guards):
                    es.append(e)
        return es


def config(n=None, strings=None, values=None, result=None, numbers=None, special=None):
    return dict(n=n or {}, strings=strings or {}, values=values or {}, result=result, numbers=numbers or {}, special=special)


BOOL = {"or": lambda a, b: a or b, "and": lambda a, b: a and b, "xor": lambda a, b: a != b, "not": lambda a, b: a and not b}


def inverse(op, n, what, where):
    """scaling is the inverse of the precision"""
    for v in (Fraction(1, 7), Fraction(3, 2)):
        op.cfg["values"]["precision"] = v
        try:
            if op.num(n) != 1 / v:
                raise Bad("%s: the scaling is %s instead of 1 / precision" % (what, show(n, 3)), where)
        finally:
            del op.cfg["values"]["precision"]


def named(op, n, p, what, where):
    if op.param(n) != p:
        s = strip(n)
        if s.op in ("param", "const"):
            raise Bad("%s: %s is passed instead of %s" % (what, show(n, 3), p), where)
        for v in (0, 1, 7):
            op.cfg["values"][p] = v
            try:
                if op.num(n) != v:
                    raise Bad("%s: %s is passed instead of %s" % (what, show(n, 3), p), where)
            finally:
                del op.cfg["values"][p]


def region(op, x, bits):
    """is a point inside, given the polygons it is inside of?"""
    if isinstance(x, Clip):
        return BOOL[x.op](any(bits[t] for t in x.a), any(bits[t] for t in x.b))
    return any(bits[t] for t in x)


def boolean(ctx, prog, f):
    ps = f.params()
    for name in sorted(BOOL):
        for n1, n2 in itertools.product((0, 1, 2), (0, 1, 2)):
            what = "%s of %d and %d polygons" % (name, n1, n2)

            def one():
                for result in (False, True):
                    op = Op(prog, f, config({"operand1": n1, "operand2": n2}, {"operation": name}, result=result))
                    ctx.saw(op.it.functions_seen)
                    st, v = op.outcome()
                    r = op.set_of(st, v)
                    toks = op.tokens("operand1") + op.tokens("operand2")
                    rows = [dict(zip(toks, b)) for b in itertools.product((False, True), repeat=len(toks))]
                    want = [BOOL[name](any(b[t] for t in op.tokens("operand1")), any(b[t] for t in op.tokens("operand2"))) for b in rows]
                    calls = op.live_call("clip")
                    for e in calls:
                        a = op.pos(e.data["result"], 4)
                        inverse(op, a[3], what, e.where)
                    if r is None:
                        if any(want) and (result or not calls):
                            raise Bad("%s: the result is None" % what)
                        if calls:
                            c = op.lst(calls[-1].data["result"])
                            if any(region(op, c, b) != w for b, w in zip(rows, want)):
                                raise Bad("%s: clip gets %s and %s and '%s'" % (what, c.a, c.b, c.op), calls[-1].where)
                        continue
                    args, frac, where = r
                    x = op.lst(args["polygons"]) if "polygons" in args else []
                    if not isinstance(x, Clip) and not x or isinstance(x, Clip) and not result:
                        raise Bad("%s: the result is a set without polygons instead of None" % what, where)
                    got = [region(op, x, b) for b in rows]
                    if got != want:
                        b = rows[[i for i in range(len(rows)) if got[i] != want[i]][0]]
                        t = "%s of %s and %s" % (x.op, x.a, x.b) if isinstance(x, Clip) else str(x)
                        raise Bad("%s: the result is %s: wrong inside %s" % (what, t, " and ".join(k for k in toks if b[k]) or "nothing"), where)
                    if not frac:
                        raise Bad("%s: the result is not fractured" % what, where)
                    named(op, args.get("layer", op.it.mk("const", "int", 0)), "layer", what, where)
                    named(op, args.get("datatype", op.it.mk("const", "int", 0)), "datatype", what, where)

            drive(ctx, "boolean|" + what, f, one)


def offset(ctx, prog, f):
    for n, first in itertools.product((0, 1, 2), (False, True)):
        what = "offset of %d polygons%s" % (n, ", joined first" if first else "")

        def one():
            for result in (False, True):
                op = Op(prog, f, config({"polygons": n}, values={"join_first": first}, result=result))
                ctx.saw(op.it.functions_seen)
                st, v = op.outcome()
                r = op.set_of(st, v)
                calls = op.live_call("offset")
                if not calls:
                    if n == 0 and r is None:
                        continue
                    raise Bad("%s: clipper.offset is not called" % what)
                if len(calls) > 1:
                    raise Give("several calls")
                a = op.pos(calls[0].data["result"], 6)
                w = calls[0].where
                got = op.plain(a[0])
                if sorted(got) != op.tokens("polygons"):
                    raise Bad("%s: the polygons %s are passed" % (what, got), w)
                for x, p in zip(a[1:4], ("distance", "join", "tolerance")):
                    named(op, x, p, what, w)
                inverse(op, a[4], what, w)
                if (op.num(a[5]) != 0) != first:
                    raise Bad("%s: the last argument is %s" % (what, show(a[5], 3)), w)
                if r is None:
                    if result:
                        raise Bad("%s: the result is dropped" % what)
                    continue
                args, frac, where = r
                x = op.lst(args["polygons"]) if "polygons" in args else []
                if not isinstance(x, Clip):
                    raise Bad("%s: the result is %s" % (what, x), where)
                if not result:
                    raise Bad("%s: the result is a set without polygons instead of None" % what, where)
                if not frac:
                    raise Bad("%s: the result is not fractured" % what, where)
                named(op, args.get("layer", op.it.mk("const", "int", 0)), "layer", what, where)
                named(op, args.get("datatype", op.it.mk("const", "int", 0)), "datatype", what, where)

        drive(ctx, "offset|" + what, f, one)


def inside(ctx, prog, f):
    for flat, short in ((True, "any"), (True, "all"), (False, "any"), (False, "all")):
        what = "points in %s, short_circuit='%s'" % ("one list" if flat else "groups", short)

        def special(op, s):
            if s.op == "call" and s.args[0] == "numpy.isscalar" and len(s.args[1]) == 1:
                x = strip(s.args[1][0])
                if x.op == "sub" and strip(x.args[0]).op == "sub" and op.param(strip(x.args[0]).args[0]) == "points":
                    return flat
            return None

        def one():
            op = Op(prog, f, config({"polygons": 2}, {"short_circuit": short}, special=special))
            ctx.saw(op.it.functions_seen)
            st, v = op.outcome()
            calls = op.live_call("inside")
            if len(calls) != 1:
                raise Give("%d calls" % len(calls))
            a = op.pos(calls[0].data["result"], 4)
            w = calls[0].where
            v = strip(v)
            if v.op == "call" and v.args[0] in ("tuple", "list"):
                v = strip(v.args[1][0])
            if v is not calls[0].data["result"]:
                raise Give("result " + show(v, 3))
            x = strip(a[0])
            while x.op == "ite":
                x = strip(x.args[1] if op.truth(x.args[0]) else x.args[2])
            if x.op in ("list", "tuple") and len(x.args[0]) == 1 and op.param(x.args[0][0]) == "points":
                if not flat:
                    raise Bad("%s: the groups are passed as one" % what, w)
            elif op.param(x) == "points":
                if flat:
                    raise Bad("%s: points are passed as groups" % what, w)
            else:
                raise Give("points " + show(x, 3))
            got = op.plain(a[1])
            if sorted(got) != op.tokens("polygons"):
                raise Bad("%s: the polygons %s are passed" % (what, got), w)
            k = op.num(a[2])
            if k != int(k) or (k > 0) - (k < 0) != (0 if flat else 1 if short == "any" else -1):
                raise Bad("%s: short_circuit is passed as %s" % (what, k), w)
            inverse(op, a[3], what, w)

        drive(ctx, "inside|" + what, f, one)


def operations(ctx):
    prog = ctx.prog
    ctx.rule("operands of every accepted kind contribute all their polygons, once")
    ctx.rule("the polygons passed to clipper give the region asked for, for operands of 0, 1 and more polygons; results without polygons are None, others polygon sets on the given layer and datatype, fractured")
    fs = {}
    for nm in ("_gather_polys", "boolean", "offset", "inside", "slice"):
        c = [x for x in prog.all_functions() if x.module.name.endswith("operation") and x.name == nm and x.cls is None]
        if len(c) != 1:
            ctx.unknown(R, "gdspy/operation.py", "no function " + nm)
        else:
            fs[nm] = c[0]
    if "_gather_polys" in fs:
        operands(ctx, prog, fs["_gather_polys"])
    for nm, fn in (("boolean", boolean), ("offset", offset), ("inside", inside), ("slice", slices)):
        if nm in fs:
            fn(ctx, prog, fs[nm])


# -- slice ----------------------------------------------------------------------

def slices(ctx, prog, f):
    for lists in itertools.product((False, True), repeat=3):
        kinds = dict(zip(("position", "layer", "datatype"), lists))
        what = "slice with " + ", ".join("%s of %ss" % ("a list" if v else "one", k) if v else "one " + k for k, v in sorted(kinds.items()))

        def one():
            Slice(ctx, prog, f, kinds, what).check()

        drive(ctx, "slice|" + what, f, one)


class Slice(Op):
    def __init__(self, ctx, prog, f, kinds, what):
        self.kinds, self.what = kinds, what
        self.empty = None
        Op.__init__(self, prog, f, config({"polygons": 2}))
        ctx.saw(self.it.functions_seen)

    def special(self, s):
        if s.op == "call" and s.args[0] == "isinstance" and len(s.args[1]) == 2:
            p = self.param(s.args[1][0])
            if p in self.kinds:
                cs = strip(s.args[1][1])
                names = [str(x.args[0]).split(".")[-1] for x in (cs.args[0] if cs.op == "tuple" else [cs]) if strip(x).op == "ext"]
                if not self.kinds[p]:
                    if set(names) <= {"list", "tuple", "ndarray", "set"}:
                        return False
                    if set(names) <= {"int", "float", "Number"}:
                        return True
                elif "list" in names:
                    return True
        if s.op == "call" and s.args[0] == "numpy.isscalar" and self.param(s.args[1][0]) in self.kinds:
            return not self.kinds[self.param(s.args[1][0])]
        return None

    def res_(self, n):
        s = strip(n)
        while s.op == "ite":
            s = strip(s.args[1] if self.truth(s.args[0]) else s.args[2])
        return s

    def positions(self, n):
        """is n the list of positions in increasing order?"""
        s = self.res_(n)
        if self.kinds["position"]:
            if s.op == "call" and s.args[0] == "list" and len(s.args[1]) == 1:
                s = self.res_(s.args[1][0])
            if s.op == "call" and s.args[0] in ("sorted", "numpy.sort") and len(s.args[1]) == 1 and self.param(self.res_(s.args[1][0])) == "position":
                if s.args[2]:
                    raise Bad("%s: the positions are not in increasing order" % self.what)
                return True
            if self.param(s) == "position":
                raise Bad("%s: the positions are not sorted" % self.what)
            return False
        if s.op in ("call",) and s.args[0] in ("sorted", "list", "tuple") and len(s.args[1]) == 1 and not s.args[2]:
            s = self.res_(s.args[1][0])
        return s.op in ("list", "tuple") and len(s.args[0]) == 1 and self.param(s.args[0][0]) == "position"

    def length(self, n):
        s = self.res_(n)
        if self.positions(s) or self.kinds["position"] and self.param(s) == "position":
            return self.npos if self.kinds["position"] else 1
        for p in ("layer", "datatype"):
            if self.kinds[p] and self.param(s) == p:
                return self.nopt
            if s.op in ("list", "tuple") and len(s.args[0]) == 1 and self.param(s.args[0][0]) == p:
                return 1
        if self.is_bins(s):
            return (self.npos if self.kinds["position"] else 1) + 1
        return Op.length(self, n)

    npos = 3
    nopt = 2
    bins = None

    def is_bins(self, n):
        return self.bins is not None and strip(n) is self.bins

    def index(self, n):
        """(collection, loop) of an item taken at the counter of a loop"""
        s = strip(n)
        if s.op == "elem" and not (strip(s.args[0]).op == "call" and strip(s.args[0]).args[0] == "range"):
            return strip(s.args[0]), s.args[1]
        if s.op == "sub" and s.args[1].op != "slice":
            k = self.counter(s.args[1])
            if k is not None:
                return strip(s.args[0]), k
        return None, None

    def counter(self, n):
        k = strip(n)
        if k.op == "idx":
            return k.args[0]
        if k.op == "elem" and strip(k.args[0]).op == "call" and strip(k.args[0]).args[0] == "range":
            a = strip(k.args[0]).args[1]
            if len(a) == 1 or len(a) == 2 and self.res_(a[0]).op == "const" and self.res_(a[0]).args[1] == 0:
                return k.args[1]
        return None

    def over_all(self, it, colls):
        """does a loop run over all items of (one of) the collections, from the first?"""
        s = strip(it)
        if s.op == "call" and s.args[0] in ("enumerate", "zip", "list", "tuple"):
            if s.args[0] == "enumerate" and (len(s.args[1]) > 1 or s.args[2]):
                return False
            return all(self.over_all(x, colls) for x in s.args[1])
        if s.op == "call" and s.args[0] == "range":
            a = s.args[1]
            if len(a) == 2 and self.num(a[0]) != 0 or len(a) > 2:
                raise Bad("%s: parts are left out by %s" % (self.what, show(s, 3)))
            n = (self.npos if self.kinds["position"] else 1) + 1
            k = strip(a[-1])
            if k.op == "call" and k.args[0] == "len" and strip(k.args[1][0]) in colls:
                return True
            if self.num(a[-1]) != n:
                raise Bad("%s: the loop over the parts ends at %s" % (self.what, show(a[-1], 3)))
            return True
        return s in colls

    def guards(self, e):
        return [(c, p) for c, p in e.guards if self.assume(c, None) is None]

    def dead(self, e):
        return any(self.assume(c, None) not in (None, p) for c, p in e.guards)

    def check(self):
        calls = [e for e in self.res.effects if e.kind == "call" and e.data["target"] in ("gdspy.clipper._chop", "clipper._chop") and not self.dead(e)]
        if len(calls) != 1:
            raise Give("%d calls of _chop" % len(calls))
        e = calls[0]
        chop = e.data["result"]
        a = self.pos(chop, 4)
        pol, site = self.index(a[0])
        if pol is None:
            raise Give("polygon " + show(a[0], 3))
        if self.gathered(pol) != "polygons":
            got = self.plain(pol)
            if set(got) != set(self.tokens("polygons")):
                raise Bad("%s: only the polygons %s are cut" % (self.what, got), e.where)
            raise Give("polygon " + show(a[0], 3))
        if [l[0] for l in e.loops] != [site] or not self.over_polygons(e.loops[0][1], pol):
            raise Give("loop of _chop")
        if self.guards(e):
            raise Bad("%s: a polygon is cut only if %s" % (self.what, show(self.guards(e)[0][0], 3)), e.where)
        for b in self.res.effects:
            if b.kind in ("break",) and b.loops and b.loops[-1][0] == site:
                raise Bad("%s: polygons are left out" % self.what, b.where)
        if not self.positions(a[1]):
            raise Give("positions " + show(a[1], 3))
        named(self, a[2], "axis", self.what, e.where)
        inverse(self, a[3], self.what, e.where)
        # parts are collected in lists
        ups = []
        for x in self.res.effects:
            if self.dead(x):
                continue
            if x.kind == "mcall" and x.name in ("extend", "append") and len(x.args) == 1:
                v, s2 = self.index(x.args[0])
                if v is chop:
                    ups.append((x, x.recv, s2))
            elif x.kind == "aug" and x.data["op"] == "+":
                v, s2 = self.index(x.data["value"])
                if v is chop:
                    ups.append((x, x.data["obj"], s2))
            elif x.kind == "storeitem" and x.data.get("value") is not None:
                v = strip(x.data["value"])
                key = x.data.get("key")
                if key is not None and strip(key).op == "slice" and self.index(v)[0] is chop:
                    lo, hi, st = strip(key).args
                    if all(y.op == "const" and y.args[1] in (None, 0) for y in (lo, hi, st)):
                        raise Bad("%s: the parts of a polygon replace those of the polygons before it" % self.what, x.where)
                if v.op == "bin" and v.args[0] == "+":
                    w, s2 = self.index(v.args[2])
                    o, s3 = self.index(v.args[1])
                    if w is chop and o is not None and strip(x.obj) is o and self.counter(x.data["key"]) == s3:
                        ups.append((x, v.args[1], s2))
        if len(ups) != 1:
            raise Give("%d uses of the parts" % len(ups))
        x, recv, s2 = ups[0]
        if x.kind == "mcall" and x.name == "append":
            raise Bad("%s: the parts are added as one polygon" % self.what, x.where)
        bins, s1 = self.index(recv)
        if bins is None:
            raise Give("list " + show(recv, 3))
        self.bins = bins
        if s1 != s2:
            raise Give("index of the parts")
        if [l[0] for l in x.loops] != [site, s1] or not self.over_all(x.loops[1][1], (bins, chop)):
            raise Give("loop over the parts")
        if self.guards(x):
            raise Bad("%s: parts are kept only if %s" % (self.what, show(self.guards(x)[0][0], 3)), x.where)
        for b in self.res.effects:
            if b.kind in ("break",) and b.loops and b.loops[-1][0] == s1:
                raise Bad("%s: parts are left out" % self.what, b.where)
        self.fresh_bins(bins, x)
        self.final(bins)

    def over_polygons(self, it, pol):
        s = strip(it)
        if s.op == "call" and s.args[0] == "enumerate" and len(s.args[1]) == 1:
            s = strip(s.args[1][0])
        return s is pol

    def fresh_bins(self, b, x):
        n = (self.npos if self.kinds["position"] else 1) + 1
        if b.op == "list" and not b.args[0]:
            ups = [e for e in self.res.effects if e.kind == "mcall" and strip(e.recv) is b and not self.dead(e)]
            if len(ups) == 1 and ups[0].name == "append" and len(ups[0].loops) == 1 and not self.guards(ups[0]):
                r = strip(ups[0].loops[0][1])
                v = strip(ups[0].args[0])
                if r.op == "call" and r.args[0] == "range" and len(r.args[1]) == 1 and v.op == "list" and not v.args[0]:
                    if self.num(r.args[1][0]) != n:
                        raise Bad("%s: there are %s lists for %d positions" % (self.what, show(r.args[1][0], 3), n - 1), x.where)
                    return
        if b.op != "comp" or len(b.args[2]) != 1 or b.args[3]:
            if b.op == "bin" and b.args[0] == "*" and strip(b.args[1]).op == "list":
                raise Bad("%s: all parts share one list" % self.what, x.where)
            raise Give("lists of parts " + show(b, 3))
        v = strip(b.args[1])
        if not (v.op == "list" and not v.args[0] or v.op == "call" and v.args[0] == "list" and not v.args[1]):
            raise Give("lists of parts " + show(v, 3))
        s = strip(b.args[2][0])
        if s.op == "call" and s.args[0] == "range" and len(s.args[1]) == 1:
            got = self.num(s.args[1][0])
            if got != n:
                raise Bad("%s: there are %s lists for %d positions" % (self.what, show(s.args[1][0], 3), n - 1), x.where)
            return
        raise Give("lists of parts " + show(s, 3))

    def final(self, bins):
        rs = [(st, v) for g, st, v in self.res.returns if not any(self.assume(c, None) not in (None, p) for c, p in g)]
        if len(rs) != 1:
            raise Give("%d results" % len(rs))
        r = strip(rs[0][1])
        outs = []     # (value, index loop, guards, where)
        if r is bins or r.op == "list" and not r.args[0]:
            for e in self.res.effects:
                if self.dead(e):
                    continue
                if e.kind == "storeitem" and strip(e.obj) is r is bins:
                    k = self.counter(e.data["key"])
                    if k is None or [l[0] for l in e.loops] != [k] or not self.over_all(e.loops[0][1], (bins,)):
                        raise Give("result item " + show(e.data["key"], 3))
                    outs.append((e.data["value"], k, e.guards, e.where))
                if e.kind == "mcall" and strip(e.recv) is r and r is not bins:
                    if e.name != "append" or len(e.loops) != 1 or not self.over_all(e.loops[0][1], (bins,)):
                        raise Give("result ." + e.name)
                    outs.append((e.args[0], e.loops[0][0], e.guards, e.where))
            if r is bins and not outs:
                raise Bad("%s: the result has lists instead of polygon sets" % self.what)
        elif r.op == "comp" and r.args[0] == "list" and len(r.args[2]) == 1 and not r.args[3] and (r.info or {}).get("sites"):
            if not self.over_all(r.args[2][0], (bins,)):
                raise Give("result " + show(r, 3))
            outs.append((r.args[1], r.info["sites"][0], (), self.f.where))
        else:
            raise Give("result " + show(r, 3))
        for empty in (True, False):
            self.empty = empty
            hit = []
            for v, k, gs, w in outs:
                if all(self.part_truth(c, bins, k) == p for c, p in gs):
                    v = strip(v)
                    while v.op == "ite":
                        v = strip(v.args[1] if self.part_truth(v.args[0], bins, k) else v.args[2])
                    hit.append((v, k, w))
            if len(hit) != 1:
                if not hit:
                    raise Bad("%s: nothing is returned for %s part" % (self.what, "an empty" if empty else "a"))
                raise Give("%d results for a part" % len(hit))
            v, k, w = hit[0]
            if empty:
                if not (v.op == "const" and v.args[1] is None):
                    raise Bad("%s: the result of an empty part is %s instead of None" % (self.what, show(v, 2)), w)
                continue
            if v.op != "new" or v.args[0].name != "PolygonSet":
                raise (Bad if v.op == "const" else Give)("%s: the result of a part is %s" % (self.what, show(v, 2)))
            e = [e for e in self.res.effects if e.kind == "new" and e.data["result"] is v][0]
            names = e.data["cls"].find_method("__init__").params()[1:]
            args = dict(zip(names, e.data["args"]))
            args.update(dict(e.data["kwargs"]) if e.data["kwargs"] else {})
            o, k2 = self.index(args.get("polygons", v))
            if o is not bins or k2 != k:
                raise Give("polygons " + show(args.get("polygons", v), 3))
            for p in ("layer", "datatype"):
                if p not in args:
                    raise Bad("%s: the %s is not given to the result" % (self.what, p), w)
                self.cyclic(args[p], p, k, w)

    def part_truth(self, c, bins, k):
        """conditions on a part, empty or not"""
        s = strip(c)
        if s.op == "un" and s.args[0] == "not":
            return not self.part_truth(s.args[1], bins, k)
        o, k2 = self.index(s)
        if o is bins and k2 == k:
            return not self.empty
        if s.op == "cmp":
            x, y = strip(s.args[1]), strip(s.args[2])
            if y.op == "call" and y.args[0] == "len":
                x, y = y, x
                sw = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
            else:
                sw = {}
            if x.op == "call" and x.args[0] == "len" and y.op == "const":
                o, k2 = self.index(x.args[1][0])
                if o is bins and k2 == k:
                    vals = set()
                    for n in ((0,) if self.empty else (1, 2, 5)):
                        m = y.args[1]
                        vals.add({"==": n == m, "!=": n != m, "<": n < m, "<=": n <= m, ">": n > m, ">=": n >= m}[sw.get(s.args[0], s.args[0])])
                    if len(vals) > 1:
                        raise Bad("%s: parts of few polygons are treated as empty" % self.what)
                    return vals.pop()
        return self.truth(c)

    def cyclic(self, n, p, k, where):
        s = self.res_(n)
        if not self.kinds[p]:
            if self.param(s) == p:
                return
            if s.op == "sub":
                b = self.res_(s.args[0])
                if b.op in ("list", "tuple") and len(b.args[0]) == 1 and self.param(b.args[0][0]) == p:
                    for i in range(4):
                        if self.at(s.args[1], k, i) not in (0, -1):
                            raise Bad("%s: the %s is taken at %s" % (self.what, p, show(s.args[1], 3)), where)
                    return
                if b.op in ("list", "tuple") and len(b.args[0]) == 1 and self.param(b.args[0][0]) in self.args:
                    raise Bad("%s: the %s is %s" % (self.what, p, show(b, 3)), where)
            raise Give("%s %s" % (p, show(s, 3)))
        if s.op != "sub" or s.args[1].op == "slice":
            raise (Bad if self.param(s) == p else Give)("%s: the %s is %s" % (self.what, p, show(s, 3)))
        b = self.res_(s.args[0])
        if self.param(b) != p:
            raise (Bad if self.param(b) in self.kinds else Give)("%s: the %s is %s" % (self.what, p, show(s, 3)))
        for m in (1, 2, 3):
            self.nopt = m
            for i in range(7):
                if self.at(s.args[1], k, i) % m != i % m or not -m <= self.at(s.args[1], k, i) < m:
                    raise Bad("%s: the %s is taken at %s" % (self.what, p, show(s.args[1], 3)), where)

    def at(self, n, k, i):
        """value of an index in round i of the loop"""
        for x in subnodes(strip(n)):
            if self.counter(x) == k:
                self.cfg["numbers"][strip(x)] = Fraction(i)
        try:
            return self.num(n)
        finally:
            self.cfg["numbers"] = {}
