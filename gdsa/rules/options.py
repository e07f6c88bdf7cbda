"""C45: arguments reach the parameter, the attribute and the part of the library they are named after"""
import ast
from ..interp import Interp, subnodes
from ..flow import strip
from .aliasing import private


class Run(object):
    def __init__(self, prog, f):
        self.f = f
        it = self.it = Interp(prog, inline=lambda g, it: private(g) or g.cls is None and g.module is f.module and g.qualname.startswith(f.qualname + "."))
        ps = f.params()
        self.method = f.cls is not None and f.kind != "static"
        self.me = it.mk("param", ps[0]) if self.method and ps else None
        a = f.node.args
        self.own = [p for p in (ps[1:] if self.method else ps)]
        self.own = list(dict.fromkeys(self.own + [x.arg for x in a.kwonlyargs]))
        self.nodes = {it.mk("param", p): p for p in self.own}
        self.res = it.run(f, self_cls=f.cls, args={p: n for n, p in self.nodes.items()}, self_node=self.me)

    def which(self, n):
        """the parameter n is, possibly replaced by a constant on some paths"""
        s = strip(n)
        if s in self.nodes:
            return self.nodes[s]
        if s.op == "ite":
            a, b = self.which(s.args[1]), self.which(s.args[2])
            if a and (a == b or strip(s.args[2]).op == "const"):
                return a
            if b and strip(s.args[1]).op == "const":
                return b
        if s.op == "phi":
            w = {self.which(x) for x in s.args[0] if strip(x).op != "const"}
            if len(w) == 1:
                return w.pop()
        return None

    def mentions(self, n):
        return {self.nodes[x] for x in subnodes(n, follow=True) if x in self.nodes}


def runs(ctx):
    prog = ctx.prog
    if not hasattr(prog, "_option_runs"):
        out = []
        for f in sorted(prog.all_functions(), key=lambda f: (f.module.name, f.qualname)):
            if f.module.name.endswith("viewer") or private(f) or isinstance(f.node, ast.Lambda) or nested(f):
                continue
            try:
                out.append((f, Run(prog, f)))
            except Exception as e:
                out.append((f, e))
        prog._option_runs = out
    return prog._option_runs


def nested(f):
    return f.qualname.count(".") > (1 if f.cls is not None else 0) or "<locals>" in f.qualname


def callees(prog, r, e):
    """functions a call may reach, all of them, and its arguments"""
    if e.kind in ("icall", "gencall"):
        return [e.data["func"]], list(e.args)
    if e.kind == "new":
        i = e.cls.find_method("__init__")
        return ([i] if i is not None else []), [None] + list(e.args)
    if e.kind == "mcall":
        cs = [c for c in (e.data.get("classes") or ()) if hasattr(c, "find_method")]
        if cs:
            ms = [c.find_method(e.name) for c in cs]
        else:
            if e.name in BUILTIN:
                return [], []
            ms = [f for f in prog.all_functions() if f.cls is not None and f.name == e.name and not f.module.name.endswith("viewer") and not nested(f)]
        ms = [m for m in ms if m is not None]
        return ms, [None] + list(e.args)
    return [], []


BUILTIN = ("append", "extend", "insert", "pop", "remove", "add", "update", "get", "items", "keys", "values", "write", "read", "copy", "format", "sort", "index", "count", "close", "join")


def bound(g, args, kwargs):
    a = g.node.args
    names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
    if any(x is not None and x.op == "star" for x in args):
        return None, names, set()
    b = {}
    for q, v in zip(names, args):
        b[q] = v
    for k, v in kwargs:
        if k == "**":
            return None, names, set()
        b[k] = v
    nd = len(a.defaults)
    opt = set(names[len(names) - nd:]) if nd else set()
    opt |= {x.arg for x in a.kwonlyargs}
    return b, names + [x.arg for x in a.kwonlyargs], opt


def handed(ctx):
    """arguments passed on are bound to the parameter of their name"""
    rule = "an argument passed on to a function that has a parameter of the same name is bound to that parameter, and to it only; options that one call passes on are not left out"
    ctx.rule(rule)
    prog = ctx.prog
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("handed", f.where, "%s: %s" % (f.qualname, r))
            continue
        ctx.saw([f])
        n, bad = 0, {}
        for e in r.res.effects:
            gs, args = callees(prog, r, e)
            if not gs:
                continue
            swaps, omits = [], []
            for g in gs:
                b, names, opt = bound(g, args, e.data.get("kwargs") or ())
                if b is None:
                    break
                passed = {q: r.which(v) for q, v in b.items() if v is not None}
                sw = {(p, q) for q, p in passed.items() if p and p != q and p in names and passed.get(p) != p}
                swaps.append(sw)
                shared = [p for p in r.own if p in names]
                fwd = [p for p in shared if passed.get(p) == p]
                om = {p for p in shared if p not in b and p in opt and fwd and g is not r.f}
                omits.append(om)
                n += len(fwd)
            else:
                name = gs[0].qualname if len(gs) == 1 else gs[0].name
                for p, q in sorted(set.intersection(*swaps)):
                    bad.setdefault("argument %s is passed to %s as %s, which has a parameter %s" % (p, name, q, p), e.where)
                for p in sorted(set.intersection(*omits)):
                    bad.setdefault("argument %s is not passed on to %s, which has an option %s" % (p, name, p), e.where)
        for m, w in sorted(bad.items()):
            ctx.violation("handed", "%s|handed" % f.qualname, w, m)
        if not bad and n:
            ctx.ok("arguments passed on under their names", "%s: %s passes %d arguments on" % (f.where, f.qualname, n))


def used(ctx):
    """no argument is ignored"""
    rule = "every argument of a public function reaches a result, an effect or a condition of one"
    ctx.rule(rule)
    for f, r in runs(ctx):
        if isinstance(r, Exception):
            ctx.unknown("used", f.where, "%s: %s" % (f.qualname, r))
            continue
        if not r.own:
            continue
        seen = set()

        def look(x, seen=seen, r=r):
            if x is None:
                return
            if hasattr(x, "op"):
                seen |= r.mentions(x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    look(y)

        for e in r.res.effects:
            look(e.guards)
            look([l[1] for l in e.loops])
            for k, v in e.data.items():
                look(v)
        for g, st, v in r.res.returns:
            look(g)
            look(v)
        for y in r.res.yields or ():
            look(y)
        # functions handed over or kept: what they use of the surrounding ones
        for c in list(r.it.closures.values()):
            fn = c.func.node
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id in r.own and isinstance(x.ctx, ast.Load):
                    seen.add(x.id)
        miss = [p for p in r.own if p not in seen and not stub(f)]
        if miss:
            for p in miss:
                ctx.violation("used", "%s|%s" % (f.qualname, p), f.where, "argument %s of %s changes nothing" % (p, f.qualname))
        else:
            ctx.ok("arguments used", "%s: %s(%s)" % (f.where, f.qualname, ", ".join(r.own)))


def stub(f):
    """a body without statements (documentation, pass, raise NotImplementedError)"""
    for s in f.node.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Raise):
            continue
        return False
    return True


def kept(ctx):
    """constructors keep arguments under their names"""
    rule = "an attribute of a new object that has the name of an argument of the constructor is calculated from that argument"
    ctx.rule(rule)
    for f, r in runs(ctx):
        if isinstance(r, Exception) or f.name != "__init__" or r.me is None:
            continue
        bad, n = {}, 0
        for e in r.res.effects:
            if e.kind != "store" or strip(e.obj) is not r.me or e.attr not in attr_names(r.own):
                continue
            p = attr_names(r.own)[e.attr]
            m = r.mentions(e.value)
            if p in m or not m:
                n += 1
                continue
            gm = set()
            for g, _ in e.guards:
                gm |= r.mentions(g)
            if p in gm:
                n += 1
                continue
            bad.setdefault("attribute %s of a new %s comes from argument %s, not from %s" % (e.attr, f.cls.name, ", ".join(sorted(m)), p), e.where)
        for m, w in sorted(bad.items()):
            ctx.violation("kept", "%s|kept" % f.qualname, w, m)
        if n and not bad:
            ctx.ok("arguments kept under their names", "%s: %s keeps %d" % (f.where, f.qualname, n))


def attr_names(own):
    out = {}
    for p in own:
        for s in (p, "_" + p, p + "s"):
            if s == p or s not in own:
                out[s] = p
    return out
