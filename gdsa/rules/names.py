"""Names, attributes and parameters that are used exist; constructors set what
the class has."""
import ast
import builtins
import symtable

from ..flow import strip
from ..interp import PY2_NAMES, Interp, Node, show, subnodes
from ..model import ClassInfo
from .aliasing import private

OBJECT = set(dir(object)) | {"__dict__", "__slots__", "__name__", "__module__", "__weakref__", "__qualname__", "__bases__", "__mro__"}


class Classes(object):
    def __init__(self, prog):
        self.all = [b[1] for m in prog.modules.values() for b in m.bindings.values() if b[0] == "class" and b[1].module is m]
        self.memo = {}

    def external(self, c):
        return any(len(k.bases) != len([b for b in k.base_exprs if ast.unparse(b) != "object"]) for k in c.mro())

    def own(self, c):
        out = set(OBJECT)
        slots = True
        for k in c.mro():
            out |= set(k.methods) | set(k.attrs)
            if "__slots__" not in k.attrs:
                slots = False
            for f in k.methods.values():
                me = f.params()[0] if f.params() else None
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        out.add("=" + x.attr)
        out |= set(c.slots())
        if not slots:
            out |= set(a[1:] for a in out if a.startswith("="))
        return out, slots

    def has(self, c, attr, store=False):
        """does an object of the class, or of one derived from it, have it"""
        if self.external(c) or c.find_method("__getattr__") or c.find_method("__getattribute__"):
            return True
        for k in [c] + [d for d in self.all if c in d.mro()]:
            if k not in self.memo:
                self.memo[k] = self.own(k)
            names, slots = self.memo[k]
            if not store and attr in names:
                return True
            if store and (not slots or attr in k.slots()):
                return True
            if store and attr in names and k.find_method(attr) is not None and k.find_method(attr).kind == "property":
                return True
        return False


def unset(v, conds=()):
    """[conditions] under which a variable has no value"""
    if v.op == "unbound":
        return [conds]
    if v.op == "ite":
        return unset(v.args[1], conds + ((v.args[0], True),)) + unset(v.args[2], conds + ((v.args[0], False),))
    if v.op == "phi":
        return [None for x in v.args[0] if unset(x)][:1]
    return []


def free(it, c):
    """a condition on one input that may hold or not"""
    c, pol = it.norm_cond(c)
    if c.op in ("attr", "param"):
        return [c]
    if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None and strip(c.args[1]).op in ("attr", "param"):
        return [strip(c.args[1])]
    return None


def asks(c):
    """a comparison of a parameter with a constant"""
    return c.op == "cmp" and c.args[0] in ("==", "in") and any(strip(x).op == "param" for x in c.args[1:]) and any(x.op in ("const", "tuple", "list") for x in c.args[1:])


def signature(f, args, kwargs, bound):
    """problem of a call, or None"""
    a = f.node.args
    names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
    star = any(isinstance(x, Node) and x.op == "star" for x in args)
    kw = [k for k in kwargs if k != "**"]
    if not star and not a.vararg and len(args) > len(names):
        return "%s takes %d arguments, %d are given" % (f.qualname, len(names), len(args))
    if not a.kwarg:
        for k in kw:
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                return "%s has no parameter %s" % (f.qualname, k)
    if not star:
        for k in kw:
            if k in names[: len(args)]:
                return "%s is given %s twice" % (f.qualname, k)
    if not star and "**" not in kwargs:
        need = names[: len(names) - len(a.defaults)]
        for i, k in enumerate(need):
            if i >= len(args) and k not in kw:
                return "%s is not given %s" % (f.qualname, k)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kw:
                return "%s is not given %s" % (f.qualname, x.arg)
    return None


def names(ctx):
    """names"""
    prog = ctx.prog
    ctx.rule("every function is executed abstractly with opaque arguments: no variable read may be without value on the path, or under conditions on inputs that the path leaves open; attributes of objects whose class is known must be in its slots, methods or class attributes; calls of functions of the package must match their parameters; every slot of a class must have a value after each constructor")
    ctx.assume("loops that set a variable run at least once; conditions that are not tests of one optional input may exclude each other; private functions are called with one of the values they ask for")
    cl = Classes(prog)
    nreads = nattr = ncalls = 0
    for f in prog.all_functions():
        if f.module.name.endswith("viewer"):
            continue
        found, open_ = {}, {}
        count = [0, 0, 0]
        it = Interp(prog, inline=lambda g, i: False)

        def hook(kind, what, st, fr, e, it=it, found=found, open_=open_, count=count):
            at = "%s:%d" % (fr.module.path if hasattr(fr.module, "path") else fr.module.name, getattr(e, "lineno", 0))
            if st.dead:
                return
            if kind == "name":
                count[0] += 1
                for cs in unset(what):
                    key = ("name", e.id)
                    if cs is None:
                        open_.setdefault(key, "variable %s may have no value" % e.id)
                        continue
                    good = True
                    for c, p in cs:
                        d = it.decide(c, st)
                        if d is not None and d is not p:
                            good = False
                    if not good:
                        continue
                    left = [c for c, p in cs if it.decide(c, st) is None]
                    if not left:
                        found.setdefault(key, (e, "the variable %s has no value where it is used" % e.id))
                        continue
                    bases = [free(it, c) for c in left]
                    if private(f) and all(asks(c) for c in left):
                        continue
                    if any(b is None for b in bases) or any(b[0] in list(subnodes(g)) for b in bases for g, p in st.guards):
                        open_.setdefault(key, "variable %s may have no value" % e.id)
                        continue
                    found.setdefault(key, (e, "the variable %s has no value where it is used unless %s" % (e.id, " and ".join(show(c, 3) for c in left))))
            elif kind in ("attr", "store"):
                obj, attr = what
                o = strip(obj)
                cs = it.cls_of(o, st)
                if o.op == "cls":
                    if not cl.external(o.args[0]) and not cl.has(o.args[0], attr):
                        found.setdefault((kind, o.args[0].name, attr), (e, "the class %s has no attribute %s" % (o.args[0].name, attr)))
                    return
                if not cs or not all(isinstance(c, ClassInfo) for c in cs):
                    return
                if any(g.op == "call" and g.args[0] == "hasattr" for g, p in st.guards):
                    return
                count[1] += 1
                if not any(cl.has(c, attr, kind == "store") for c in cs):
                    found.setdefault((kind, attr), (e, "objects of class %s have no attribute %s" % ("/".join(sorted(c.name for c in cs)), attr)))
            elif kind == "call":
                g, args, kwargs = what
                count[2] += 1
                p = signature(g, args, kwargs, None)
                if p:
                    found.setdefault(("call", g.qualname), (e, p))

        it.use_hook = hook
        me = it.mk("param", f.params()[0]) if f.cls is not None and f.kind != "static" and f.params() else None
        if f.cls is not None and f.kind == "plain":
            it.run(f, self_cls=f.cls, self_node=me)
        else:
            it.run(f)
        ctx.saw([f])
        nreads, nattr, ncalls = nreads + count[0], nattr + count[1], ncalls + count[2]
        for k, (e, msg) in sorted(found.items()):
            ctx.violation("names", "%s: %s" % (f.qualname, " ".join(str(x) for x in k)), f.where.rsplit(":", 1)[0] + ":%d" % getattr(e, "lineno", 0), msg)
        for k, msg in sorted(open_.items()):
            if k not in found:
                ctx.unknown("names", f.where, "%s: %s" % (f.qualname, msg))
        if not found and not open_:
            ctx.ok("functions", f.qualname)
    ctx.count("reads of variables", nreads)
    ctx.count("attributes of known classes", nattr)
    ctx.count("calls", ncalls)
    scopes(ctx, prog)
    constructors(ctx, prog, cl)


def scopes(ctx, prog):
    """names that are defined in no scope at all, nested functions included"""
    n = 0
    for mn, m in sorted(prog.modules.items()):
        if mn.endswith("viewer") or any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(m.tree)):
            continue
        top = symtable.symtable(m.source, m.path, "exec")
        known = set(s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace())
        todo = list(top.get_children())
        while todo:
            t = todo.pop()
            todo += t.get_children()
            for s in t.get_symbols():
                if s.is_global() and s.is_declared_global() and s.is_assigned():
                    known.add(s.get_name())
        todo = [(c, c.get_name()) for c in top.get_children()]
        while todo:
            t, q = todo.pop(0)
            todo += [(c, q + "." + c.get_name()) for c in t.get_children()]
            if t.get_type() != "function" and str(t.get_type()) not in ("function", "SymbolTableType.FUNCTION"):
                continue
            n += 1
            bad = [s.get_name() for s in t.get_symbols() if s.is_global() and s.is_referenced() and s.get_name() not in known and not hasattr(builtins, s.get_name()) and s.get_name() not in PY2_NAMES and not s.get_name().startswith("__")]
            for b in bad:
                ctx.violation("names", "%s: name %s" % (q, b), "%s:%d" % (m.relpath if hasattr(m, "relpath") else m.path, t.get_lineno()), "the name %s is defined nowhere" % b)
    ctx.count("scopes", n)


def constructors(ctx, prog, cl):
    for c in cl.all:
        init = c.find_method("__init__")
        if init is None or cl.external(c) or c.module.name.endswith("viewer"):
            continue
        it = Interp(prog, inline=lambda g, i: g.name == "__init__" and g.cls in c.mro() or private(g) or g.cls is not None and g.cls in c.mro() and g.kind == "plain" and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node)))
        me = it.mk("param", init.params()[0])
        res = it.run(init, self_cls=c, self_node=me)
        ctx.saw(it.functions_seen)
        what = "%s()" % c.name
        bad = False
        for g, st, v in res.returns:
            for a in c.slots():
                x = st.heap.get((me, a))
                if x is None or x.op == "attr" and x.args[1] == a and strip(x.args[0]) is me:
                    r = reader(prog, cl, c, a)
                    if r is None:
                        continue
                    bad = True
                    if r is False:
                        ctx.unknown("names", init.where, "%s: value of %s" % (what, a))
                        continue
                    ctx.violation("names", "%s: %s" % (what, a), init.where, "the constructor of %s leaves %s without value" % (c.name, a))
                elif any(y.op == "attr" and y.args[1] == a and strip(y.args[0]) is me for y in leaves(x)) and reader(prog, cl, c, a) is not None:
                    bad = True
                    ctx.unknown("names", init.where, "%s: value of %s" % (what, a))
        if not res.returns:
            ctx.unknown("names", init.where, "%s: no way to the end" % what)
        elif not bad:
            ctx.ok("constructors", what)


def reader(prog, cl, c, a):
    """is the attribute read by a method that did not set it (False: not known)"""
    clear = None
    for k in c.mro():
        for f in k.methods.values():
            if private(f) or f.name == "__init__" or f.kind != "plain":
                continue
            it = Interp(prog, inline=lambda g, i: private(g))
            me = it.mk("param", f.params()[0])
            hit = []

            def hook(kind, what, st, fr, e):
                if kind == "attr" and what[1] == a and strip(what[0]) is me and not st.dead:
                    x = st.heap.get((me, a))
                    if x is None:
                        hit.append(True)
                    elif any(y.op == "attr" and y.args[1] == a for y in leaves(x)):
                        hit.append(False)

            it.use_hook = hook
            it.run(f, self_cls=c, self_node=me)
            if True in hit:
                return True
            if hit:
                clear = False
    return clear


def leaves(n):
    if n.op == "ite":
        return leaves(n.args[1]) + leaves(n.args[2])
    if n.op == "phi":
        return [y for x in n.args[0] for y in leaves(x)]
    return [n]
