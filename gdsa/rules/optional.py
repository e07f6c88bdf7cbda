"""Values that may be None are tested before they are used as something else."""
import ast
import re

from ..flow import strip
from ..interp import Interp, show, subnodes
from .aliasing import private
from .results import documented


def optional_results(prog):
    """names of the methods and functions documented to return None at times; a name is left out when another
    function of that name is documented otherwise"""
    out, names, other = set(), set(), set()
    for f in prog.all_functions():
        if f.module.name.endswith("viewer"):
            continue
        d = documented(f)
        if d and re.search(r"\bNone\b", d[0]) and f.is_generator is False:
            out.add(f)
            names.add(f.name)
        elif f.cls is not None:
            other.add(f.name)
    return out, names - other


def optional_attrs(prog):
    """class -> attributes that its constructor takes from a parameter whose default is None"""
    out = {}
    for c in prog.classes:
        c = prog.classes[c] if isinstance(c, str) else c
        init = c.find_method("__init__")
        if init is None or init.module.name.endswith("viewer"):
            continue
        none = defaults_none(init)
        it = Interp(prog, inline=lambda g, i: private(g) and not g.is_generator)
        me = it.mk("param", init.params()[0])
        res = it.run(init, self_cls=c, self_node=me)
        got = {}
        for e in res.effects:
            if e.kind == "store" and strip(e.obj) is me:
                got.setdefault(e.attr, []).append(e.value)
        for a, vs in got.items():
            if any(x.op == "param" and x.args[0] in none for v in vs for x in alternatives(v)):
                out.setdefault(c, set()).add(a)
    return out


def alternatives(n):
    return [x for x, c in branches(n, ())]


def branches(n, conds):
    """(value, ((condition, outcome), ..)) for every value that n stands for"""
    n = strip(n)
    if n.op == "ite":
        return branches(n.args[1], conds + ((n.args[0], True),)) + branches(n.args[2], conds + ((n.args[0], False),))
    if n.op == "phi":
        return [y for x in n.args[0] for y in branches(x, conds)]
    if n.op in ("sub", "elem") and strip(n.args[0]).op in ("list", "tuple") and strip(n.args[0]).args[0] and not (n.op == "sub" and n.args[1].op == "const"):
        return [(y, c + ((n, None),)) for x in strip(n.args[0]).args[0] for y, c in branches(x, conds)]
    return [(n, conds)]


def flat(it, g, p):
    """the conditions that hold when g has the outcome p"""
    g, pol = it.norm_cond(g)
    p = p if pol else not p
    if g.op == "bool" and (g.args[0] == "and") is p:
        return [y for x in g.args[1] for y in flat(it, x, p)]
    return [(g, p)]


def says(it, c, q, xs):
    """the outcome q of the condition c may tell something about one of xs: every way to it mentions one"""
    c, pol = it.norm_cond(c)
    q = q if pol else not q
    if c.op == "const":
        return bool(c.args[1]) is not q
    if not any(y is x for y in subnodes(c) for x in xs):
        return False
    if c.op == "bool":
        r = [says(it, y, q, xs) for y in c.args[1]]
        return any(r) if (c.args[0] == "and") is q else all(r)
    if c.op == "ite":
        g, a, b = c.args
        return (says(it, g, True, xs) or says(it, a, q, xs)) and (says(it, g, False, xs) or says(it, b, q, xs))
    return True


def excluded(it, x, st, conds):
    """None is ruled out for the value x: True, False, or the conditions that mention it"""
    none = it.mk("cmp", "is", x, it.const(None))
    if it.decide(none, st) is False:
        return True
    near = []
    through = [g for g, p in conds if p is None]
    for g, p in list(st.guards) + [t for t in conds if t[1] is not None]:
        for c, q in flat(it, g, p):
            if c is none and not q or c is x and q:
                return True
            if c is none and q:
                return False
            if c.op == "cmp" and c.args[0] == "is" and not q and c.args[2].op == "const" and c.args[2].args[1] is None and all(y is x or y.op == "const" and y.args[1] is None for y in alternatives(c.args[1])):
                return True
            if q and c.op == "call" and c.args[0] in ("isinstance", "callable", "hasattr") and c.args[1] and strip(c.args[1][0]) is x:
                return True
            if q and c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=", "==") and any(strip(y) is x for y in c.args[1:]) and not any(y.op == "const" and y.args[1] is None for y in c.args[1:]):
                return True
            if c.op == "cmp" and c.args[0] in ("in", "not in") and strip(c.args[2]) is x:
                continue
            if c.op == "cmp" and c.args[0] in ("==", "<", ">", "<=", ">=") and not q and any(strip(y) is x for y in c.args[1:]) and any(y.op == "const" and y.args[1] is not None for y in c.args[1:]):
                continue
            if c is x:
                continue
            if says(it, c, q, [x] + through):
                near.append(c)
    if not near and x.op in ("icall", "mcall"):
        recv = strip(x.args[1][0] if x.op == "icall" and x.args[1] else x.args[0]) if not (x.op == "icall" and not x.args[1]) else None
        if recv is not None and any(y.op == "call" and y.args[0] == "len" and any(z.op == "attr" and strip(z.args[0]) is recv for z in subnodes(y)) for g, p in st.guards for y in subnodes(g)):
            return True
    return near


def defaults_none(f):
    """the parameters whose default is None or whose documented type names None"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = {n for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and d.value is None}
    out |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant) and d.value is None}
    doc = ast.get_docstring(f.node) or ""
    m = re.search(r"^Parameters\n-+\n(.*?)(?:\n\n\w+\n-+\n|\Z)", doc, re.S | re.M)
    if m:
        names = f.params()
        for x, t in re.findall(r"^(\w+) *: *(.*)$", m.group(1), re.M):
            if x in names and re.search(r"\bNone\b", t):
                out.add(x)
    return out


def caught(f):
    """lines of a function on which a use of None is expected and handled"""
    out = set()
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and any(h.type is None or any(isinstance(y, ast.Name) and y.id in ("TypeError", "AttributeError", "Exception", "BaseException") for y in ast.walk(h.type)) for h in t.handlers):
            for b in t.body:
                out |= set(range(b.lineno, b.end_lineno + 1))
    return out


def handed(f, args, kwargs, bound):
    """(parameter, value) of a call of f"""
    names = f.params()[1:] if bound else f.params()
    for n, v in zip(names, args):
        if not hasattr(v, "op") or v.op == "star":
            break
        yield n, v
    for k, v in kwargs.items():
        if k in names and hasattr(v, "op"):
            yield k, v


def uses(ctx):
    """uses"""
    prog = ctx.prog
    ctx.rule("wherever a parameter whose default is None (or whose documentation names None, or which gets such a value from another function of the package), an attribute that a constructor takes from one, or the result of a function documented to return None at times is indexed, iterated over, searched, computed with, compared by order, given to numpy or a builtin function that takes no None, or asked for an attribute, the conditions on the way exclude None")
    more = {}
    for _ in range(4):
        results, new = judge(ctx, more)
        if all(p in more.get(f, ()) for f, p in new):
            break
        for f, p in new:
            more.setdefault(f, set()).add(p)
    for f, count, found, open_, seen in results:
        ctx.saw(seen)
        if not count:
            continue
        for (w, how), e in sorted(found.items(), key=lambda t: t[0]):
            ctx.violation("uses", "%s:%s" % (f.qualname, w), "%s:%d" % (f.where.split(":")[0], e.lineno), "%s may be None where it is %s" % (w, how))
        for k, (e, near) in sorted(open_.items(), key=lambda t: t[0]):
            if k not in found:
                ctx.unknown("uses", "%s:%d" % (f.where.split(":")[0], e.lineno), "%s: %s is %s; not known to exclude None: %s" % (f.qualname, k[0], k[1], "; ".join(show(g, 4) for g in near)[:200]))
        if not found and not open_:
            ctx.ok("uses", f.qualname)


def judge(ctx, more):
    """every function with the uses found, and the (function, parameter) pairs that get a value which may be None"""
    prog = ctx.prog
    results, new = [], set()
    methods = {}
    for f in prog.all_functions():
        if f.cls is not None and f.kind == "plain" and not f.module.name.endswith("viewer"):
            methods.setdefault(f.name, []).append(f)
    funcs, names = optional_results(prog)
    attrs = optional_attrs(prog)
    for f in prog.all_functions():
        if private(f) and f.name != "__init__" or f.module.name.endswith("viewer"):
            continue
        none = defaults_none(f) | more.get(f, set())
        guarded = caught(f)
        it = Interp(prog, inline=lambda g, i: private(g) and not g.is_generator)
        me = it.mk("param", f.params()[0]) if f.cls is not None and f.kind == "plain" and f.params() else None
        mine = attrs.get(f.cls, set()) if f.cls is not None else set()
        found, open_, count = {}, {}, [0]

        def origin(x):
            if x.op == "param" and x.args[0] in none:
                return "the parameter " + x.args[0]
            if me is not None and x.op == "attr" and strip(x.args[0]) is me and x.args[1] in mine:
                return "the attribute " + x.args[1]
            if x.op == "icall" and x.args[0] in funcs:
                return "the result of " + x.args[0].name
            if x.op == "mcall" and x.args[1] in names:
                return "the result of " + x.args[1]
            return None

        def hook(how, v, st, fr, e, it=it):
            if st.dead or getattr(e, "lineno", 0) in guarded:
                return
            if isinstance(how, tuple):
                g = how[1]
                targets = methods.get(g, []) if isinstance(g, str) else [g]
                if isinstance(g, str) and len({tuple(n for n, x in handed(t, v[0], v[1], True)) for t in targets}) > 1:
                    return      # methods of that name mean different things by their parameters
                for t in targets:
                    for n, x in handed(t, v[0], v[1], isinstance(g, str)):
                        if n in defaults_none(t):
                            continue
                        if private(t) and t.name != "__init__":
                            continue
                        for y, conds in branches(it.simplify(x, st), ()):
                            if origin(y) is not None and excluded(it, y, st, conds) == []:
                                new.add((t, n))
                return
            for x, conds in branches(it.simplify(v, st), ()):
                w = origin(x)
                if w is None:
                    continue
                count[0] += 1
                r = excluded(it, x, st, conds)
                if r is True:
                    continue
                if r:
                    open_.setdefault((w, how), (e, r))
                else:
                    found.setdefault((w, how), e)

        it.op_hook = hook
        res = it.run(f, self_cls=f.cls, self_node=me) if me is not None else it.run(f)
        results.append((f, count[0], found, open_, it.functions_seen))
    return results, new
