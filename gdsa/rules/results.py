"""What functions return agrees with their documentation."""
import ast
import re

from ..flow import strip
from ..interp import Interp, Node, show
from ..model import ClassInfo
from .aliasing import private

THIS = re.compile(r"^\s*this (object|curve|cell|path|library|polygon|label|reference|array|polygon set|set|gds ?library|writer)\b", re.I)


def documented(f):
    """(type, description) of the result"""
    doc = ast.get_docstring(f.node) or ""
    m = re.search(r"^Returns\n-+\n(.*?)(?:\n\s*\n\S|\n\n\w+\n-+\n|\Z)", doc, re.S | re.M)
    if not m:
        return None
    lines = m.group(1).split("\n")
    h = re.match(r"^\s*(\w+)\s*:\s*(.*)$", lines[0])
    if not h:
        return None
    return h.group(2).strip(), " ".join(x.strip() for x in lines[1:])


def alternatives(n, it, st):
    n = strip(it.simplify(n, st))
    if n.op == "ite":
        return alternatives(n.args[1], it, st) + alternatives(n.args[2], it, st)
    if n.op == "phi":
        return [y for x in n.args[0] for y in alternatives(x, it, st)]
    return [n]


def kind(n, it):
    """what is known of a value: none, list, tuple, dict, set, number, text, truth, or a class"""
    if n.op == "const":
        v = n.args[1]
        return "none" if v is None else "truth" if isinstance(v, bool) else "number" if isinstance(v, (int, float)) else "text" if isinstance(v, (str, bytes)) else None
    if n.op in ("list", "tuple", "dict", "set"):
        return n.op
    if n.op == "comp":
        return {"list": "list", "dict": "dict", "set": "set", "gen": "generator"}.get(n.args[0])
    if n.op == "new":
        return n.args[0]
    if n.op == "call" and n.args[0] in ("list", "sorted"):
        return "list"
    if n.op == "call" and n.args[0] in ("set", "dict", "tuple"):
        return n.args[0]
    if n.op == "call" and n.args[0] in ("numpy.array", "numpy.vstack", "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.hstack", "numpy.outer"):
        return "array"
    if n.op == "call" and n.args[0] in ("len", "int", "float", "sum"):
        return "number"
    if n.op in ("cmp", "bool"):
        return None
    return None


def allowed(t):
    """the kinds a documented type admits, or None if it is not understood"""
    out = set()
    for p in re.split(r",| or ", t):
        p = p.strip()
        if not p:
            continue
        if p.lower() == "none" or p == "`None`":
            out.add("none")
        elif re.match(r"^(list|array-like)", p):
            out |= {"list", "array"} if p.startswith("array") else {"list"}
        elif re.match(r"^tuple", p):
            out.add("tuple")
        elif re.match(r"^set\b", p):
            out.add("set")
        elif re.match(r"^dict", p):
            out.add("dict")
        elif re.match(r"^(number|integer|int|float)", p):
            out.add("number")
        elif re.match(r"^(string|str|text)", p):
            out.add("text")
        elif re.match(r"^(bool)", p):
            out.add("truth")
        elif re.match(r"^Numpy array", p, re.I):
            out.add("array")
        elif re.match(r"^`\w+`$", p):
            out.add(p.strip("`"))
        else:
            return None
    return out


def returns_self(prog, f):
    d = documented(f)
    return d is not None and f.cls is not None and f.kind == "plain" and THIS.match(d[1])


def results(ctx):
    """results"""
    prog = ctx.prog
    ctx.rule("on every way to its end, a method documented to return this object returns the object it was called on (or the result of such a method called on it); a function documented to return something does not return None unless its documentation names it, nor a list, dictionary, set, tuple, number or object of another class than documented")
    chained = 0
    for f in prog.all_functions():
        if private(f) or f.module.name.endswith("viewer") or f.is_generator:
            continue
        d = documented(f)
        if d is None:
            continue
        typ, text = d
        it = Interp(prog, inline=lambda g, i: private(g) and not g.is_generator)
        me = it.mk("param", f.params()[0]) if f.cls is not None and f.kind == "plain" else None
        res = it.run(f, self_cls=f.cls, self_node=me) if me is not None else it.run(f)
        ctx.saw(it.functions_seen)
        what = f.qualname
        this = bool(me is not None and THIS.match(text))
        ok = allowed(typ)
        bad, und = None, None
        if not res.returns:
            und = "no way to the end"
        for g, st, v in res.returns:
            if st.dead:
                continue
            for x in alternatives(v, it, st):
                if this:
                    if x is me:
                        continue
                    if x.op == "icall" and x.args[1] and strip(x.args[1][0]) is me and returns_self(prog, x.args[0]):
                        continue
                    if x.op == "mcall" and strip(x.args[0]) is me and f.cls.find_method(x.args[1]) is not None and returns_self(prog, f.cls.find_method(x.args[1])):
                        continue
                    k = kind(x, it)
                    if k is not None or x.op in ("attr", "param", "unbound"):
                        bad = "%s is returned instead of this object" % ("nothing" if k == "none" else "a new object" if isinstance(k, ClassInfo) else show(x, 3))
                    else:
                        und = "value " + show(x, 4)
                    continue
                k = kind(x, it)
                if k == "none":
                    if not re.search(r"\bNone\b", typ + " " + text) and ok is not None:
                        bad = "nothing is returned, documented is %s" % typ
                elif ok is None or k is None:
                    continue
                elif isinstance(k, ClassInfo):
                    if not any(c.name in ok for c in k.mro()) and not ok & {"text"}:
                        bad = "an object of class %s is returned, documented is %s" % (k.name, typ)
                elif k == "truth":
                    if not ok & {"truth", "number"}:
                        bad = "a truth value is returned, documented is %s" % typ
                elif k == "generator" or k not in ok and not (k in ("list", "tuple") and ok & {"array"}) and not (k == "array" and ok & {"list", "number"}):
                    bad = "a %s is returned, documented is %s" % (k, typ)
        if this:
            chained += 1
        if bad:
            ctx.violation("results", what, f.where, bad)
        elif und:
            ctx.unknown("results", f.where, "%s: %s" % (what, und))
        else:
            ctx.ok("this object" if this else "results", what)
    ctx.count("methods returning this object", chained)
    if chained < 40:
        ctx.unknown("results", "gdspy", "only %d methods are documented to return this object" % chained)
