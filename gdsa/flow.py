"""Value-source queries shared by the rules."""
from .interp import Node


class NoFacts(object):
    def __init__(self, it):
        self.it = it
        self.d = {}

    def resolve(self, n):
        return n

    def decide(self, c):
        return None


def value_nodes(n, facts, follow_key=False, limit=20000):
    """nodes the *value* of n is computed from: branch conditions, sizes and
    subscripts are not followed"""
    seen = set()
    out = []
    stack = [n]
    while stack and len(seen) < limit:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Node):
            continue
        x = facts.resolve(x)
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        o, a = x.op, x.args
        if o == "ite":
            stack.extend((a[1], a[2]))
        elif o == "phi":
            stack.extend(a[0])
        elif o == "sub":
            stack.append(a[0])
            if follow_key:
                stack.append(a[1])
        elif o == "attr":
            stack.append(a[0])
        elif o == "call":
            if a[0] in ("len", "range", "isinstance", "hasattr", "callable"):
                continue
            stack.extend(a[1])
            stack.extend(v for k, v in a[2] if k != "dtype")
            if isinstance(a[0], Node):
                stack.append(a[0])
        elif o == "mcall":
            stack.append(a[0])
            stack.extend(a[2])
            stack.extend(v for k, v in a[3] if k != "dtype")
        elif o in ("icall", "gencall"):
            stack.extend(a[1])
            stack.extend(v for k, v in a[2])
        elif o == "bin":
            stack.extend((a[1], a[2]))
        elif o == "un":
            stack.append(a[1])
        elif o in ("elem", "key"):
            stack.append(a[0])
        elif o in ("tuple", "list", "set"):
            stack.extend(a[0])
        elif o == "dict":
            for k, v in a[0]:
                stack.extend((k, v))
        elif o == "ver":
            stack.extend((a[0], a[1]))
        elif o == "upd":
            stack.append(a[0])
            stack.extend(a[2] if a[1] != "setitem" else a[2][1:])
        elif o == "loopv":
            if x.info:
                for k in ("init", "next"):
                    if x.info.get(k) is not None:
                        stack.append(x.info[k])
        elif o == "comp":
            stack.append(a[1])
        elif o in ("fstr",):
            stack.extend(a[0])
        elif o == "fmt":
            stack.append(a[0])
        elif o == "star":
            stack.append(a[0])
        elif o == "bool":
            stack.extend(a[1])
        elif o in ("kwget", "kwrest"):
            stack.append(a[0])
        elif o == "cmp":
            stack.extend((a[1], a[2]))
    return out


def base_of(n):
    """the variable an expression is a view/element of"""
    while True:
        if n.op in ("sub", "elem", "ver", "attr", "key"):
            n = n.args[0]
        else:
            return n


def self_attrs(n, facts, self_node):
    """names of the attributes of `self_node` the value of n derives from"""
    out = set()
    for x in value_nodes(n, facts):
        if x.op == "attr" and x.args[0] is self_node:
            out.add(x.args[1])
        if x.op == "init" and len(x.args) == 2 and x.args[0] is self_node:
            out.add(x.args[1])
    return out


def params_of(n, facts):
    return {x.args[0] for x in value_nodes(n, facts) if x.op == "param"}


def index_site(k):
    """identify the iteration an index/element node comes from"""
    if k.op == "idx":
        return ("site", k.args[0])
    if k.op == "elem":
        return ("site", k.args[1])
    if k.op == "loopv":
        return ("site", k.args[0])
    return None


def root_attrs(n, facts, depth=0):
    """attributes an array expression is a (sliced) view of"""
    n = strip(facts.resolve(n))
    if depth > 12:
        return set()
    if n.op == "attr":
        return {n}
    if n.op == "ite":
        return root_attrs(n.args[1], facts, depth + 1) | root_attrs(n.args[2], facts, depth + 1)
    if n.op == "phi":
        out = set()
        for x in n.args[0]:
            out |= root_attrs(x, facts, depth + 1)
        return out
    if n.op == "sub" and n.args[1].op in ("slice", "tuple"):
        return root_attrs(n.args[0], facts, depth + 1)
    return set()


def indices_on(n, attr, self_node, facts):
    """the subscripts / iteration sites used on self.<attr> inside the value n"""
    out = set()
    for x in value_nodes(n, facts):
        if x.op == "sub" and any(r.args == (self_node, attr) for r in root_attrs(x.args[0], facts)):
            k = facts.resolve(x.args[1])
            ks = [facts.resolve(y) for y in k.args[0]] if k.op == "tuple" else (k,)
            if k.op == "const":
                out.add(("const", k.args[1]))
            for y in ks:
                if y.op == "slice":
                    y = y.args[0]
                s = index_site(y)
                if s is not None:
                    out.add(s)
                elif y.op == "bin" and y.args[0] in ("+", "-", "*", "//", "%") and any(index_site(z) for z in (y.args[1], y.args[2])):
                    out.add(("node", y))
                elif y.op == "call" and y.args[0] in ("min", "max", "abs") and any(index_site(z) for z in y.args[1]):
                    out.add(("node", y))
        if x.op == "elem" and strip(x.args[0]).op == "attr" and strip(x.args[0]).args == (self_node, attr):
            out.add(("site", x.args[1]))
    return out


def strip(n):
    while n.op == "ver":
        n = n.args[0]
    return n


def covers(it, base_attr, self_node):
    """does iterating over node `it` visit every item of self.<base_attr>?
    True / False (definitely a strict part) / None (unknown)"""
    n = strip(it)
    if n.op == "attr" and n.args == (self_node, base_attr):
        return True
    if n.op == "call" and isinstance(n.args[0], str):
        nm, a = n.args[0], n.args[1]
        if nm in ("enumerate", "list", "tuple", "reversed", "iter", "sorted") and a:
            return covers(a[0], base_attr, self_node)
        if nm == "zip":
            r = [covers(x, base_attr, self_node) for x in a]
            if False in r:
                return False
            return True if True in r else None
        if nm == "range":
            hi = a[0] if len(a) == 1 else a[1]
            lo = None if len(a) == 1 else a[0]
            hs = strip(hi)
            if hs.op == "call" and hs.args[0] == "len":
                c = covers(hs.args[1][0], base_attr, self_node)
                if c is True and lo is not None and not (lo.op == "const" and lo.args[1] == 0):
                    return False if lo.op == "const" else None
                if c is True and len(a) == 3:
                    return None
                return c
            if hs.op == "bin" and hs.args[0] in ("-",) and hs.args[1].op == "call" and hs.args[1].args[0] == "len" and covers(hs.args[1].args[1][0], base_attr, self_node) is True and hs.args[2].op == "const" and hs.args[2].args[1] > 0:
                if len(a) == 3 and a[2].op == "const" and a[2].args[1] == -1 and hs.args[2].args[1] == 1:
                    return True
                if len(a) == 1 or (lo is not None and lo.op == "const" and lo.args[1] >= 0 and len(a) == 2):
                    return False
            if len(a) == 3 and a[2].op == "const" and a[2].args[1] == -1:
                h = strip(a[0])
                if h.op == "bin" and h.args[0] == "-" and h.args[1].op == "call" and h.args[1].args[0] == "len" and a[1].op == "const" and a[1].args[1] == -1:
                    return covers(h.args[1].args[1][0], base_attr, self_node)
            return None
    if n.op == "sub" and n.args[1].op == "slice":
        c = covers(n.args[0], base_attr, self_node)
        if c is True:
            lo, hi, st = n.args[1].args
            none = lambda x: x.op == "const" and x.args[1] is None
            if none(lo) and none(hi):
                return True
            return False
    if n.op == "mcall" and n.args[1] in ("items", "values", "keys", "copy"):
        return covers(n.args[0], base_attr, self_node)
    return None
