"""Which objects a value may denote: objects created by the function analysed,
or objects that were there before (reached from a parameter, an attribute of
one, or a global).  Labels:

    ("deep",)          new, together with everything inside
    ("fresh", node)    a new container created at node; its contents may be old
    ("old", node)      an object that existed before the call; node is how it is
                       reached
    ("?", node)        not understood
"""
from .interp import Node, show, subnodes
from .flow import strip

DEEP = ("deep",)
LISTS = ("polygons", "paths", "labels", "references", "layers", "datatypes", "corners", "ends", "bend_radius", "cells")
ARRAYS = ("points", "widths", "offsets", "_bounding_box")
VIEWS = ("T", "real", "imag", "flat", "base")
NUMBERS = ("shape", "size", "ndim", "dtype", "name", "n")
MUTATORS = {"append": 0, "add": 0, "insert": 1, "appendleft": 0, "extend": "*", "update": "*", "setdefault": 1, "remove": None, "pop": None,
            "clear": None, "reverse": None, "sort": None, "popitem": None, "discard": None, "fill": None, "resize": None, "put": None, "itemset": None,
            "difference_update": None, "intersection_update": None, "symmetric_difference_update": "*", "setflags": None, "partition": None, "__setitem__": 1, "__delitem__": None}
WRAP = ("list", "tuple", "set", "frozenset", "iter", "sorted", "reversed", "filter", "next", "collections.OrderedDict", "dict", "collections.deque", "copy.copy")
PASS = ("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze",
        "numpy.reshape", "numpy.transpose", "numpy.swapaxes", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.real", "numpy.imag", "numpy.broadcast_to", "numpy.expand_dims")
VIEWM = ("reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal")
DEEPM = ("tolist", "flatten", "dot", "format", "join", "split", "strip", "encode", "decode", "astype", "min", "max", "sum", "mean", "any", "all", "conj", "conjugate", "nonzero",
         "keys", "upper", "lower", "read", "readline", "tell", "index", "count", "startswith", "endswith", "replace", "round", "cumsum", "argmin", "argmax", "item", "issubset", "isoformat", "hexdigest")
BUILTIN_VALUES = ("int", "float", "str", "len", "abs", "round", "range", "isinstance", "hasattr", "callable", "type", "bool", "repr", "bytes", "bytearray", "divmod", "pow", "hash", "id", "sum", "ord", "chr", "complex", "open", "input", "print", "any", "all")


class Alias(object):
    def __init__(self, it, res, calls=None, fluent=(), scalar=None, scalars=None, forms=None):
        """calls(name, recv labels, args) -> labels of a call to a package function
        that was not interpreted, or None"""
        self.it, self.res = it, res
        self.calls = calls or (lambda n, al: None)
        self.fluent = fluent
        self.forms = forms or (lambda n: None)
        self.scalar = scalar or (lambda n: False)
        self.scalars = scalars or (lambda n: False)
        self.table = {}
        self.final = set()
        self.visited = None
        self.changed = False
        self.ups = None
        self.targets = {}

    # -- fixed point ----------------------------------------------------------
    def query(self, key, f):
        """labels for key; recursive questions are answered by iteration"""
        if key in self.final:
            return self.table[key]
        if self.visited is not None:
            if key in self.visited:
                return self.table.get(key, frozenset())
            return self.step(key, f)
        while True:
            self.visited = set()
            self.changed = False
            try:
                r = self.step(key, f)
            finally:
                seen, self.visited = self.visited, None
            if not self.changed:
                self.final |= seen
                return r

    def step(self, key, f):
        self.visited.add(key)
        old = self.table.get(key, frozenset())
        r = old | frozenset(f())
        if r != old:
            self.changed = True
        self.table[key] = r
        return r

    # -- objects ------------------------------------------------------------
    def obj(self, n):
        n = strip(n)
        return self.query(("o", n), lambda: self._obj(n))

    def _obj(self, n):
        o, a = n.op, n.args
        if self.scalar(n):
            return [DEEP]
        if o in ("const", "cmp", "un", "fstr", "fmt", "idx", "key", "size", "slice", "fact"):
            return [DEEP]
        if o == "param":
            return [("fresh", n)] if str(a[0]).startswith("*") else [("old", n)]
        if o in ("gconst", "classattr"):
            return [("old", n)]
        if o in ("func", "cls", "closure", "ext", "mod", "method"):
            return [DEEP]
        if o == "attr":
            if a[1] in NUMBERS:
                return [DEEP]
            if a[1] in VIEWS:
                return self.obj(a[0])
            return self.inside(a[0], a[1], n)
        if o == "init":
            return [("old", n)]
        if o in ("elem",):
            return self.content(a[0])
        if o == "sub":
            return self.sub(n)
        if o == "bin":
            if a[0] == "+" and (self.listy(a[1]) or self.listy(a[2])):
                return [("fresh", n)]
            if a[0] == "*" and (self.listy(a[1]) or self.listy(a[2])):
                return [("fresh", n)]
            return [DEEP]
        if o == "bool":
            out = set()
            for x in a[1]:
                out |= self.obj(x)
            return out
        if o == "ite":
            return self.obj(a[1]) | self.obj(a[2])
        if o == "phi":
            out = set()
            for x in a[0]:
                out |= self.obj(x)
            return out
        if o == "loopv":
            i = n.info or {}
            out = set()
            for k in ("init", "next"):
                if i.get(k) is not None:
                    out |= self.obj(i[k])
            return out or [("?", n)]
        if o in ("list", "tuple", "set", "dict", "comp", "new", "gencall"):
            return [("fresh", n)]
        if o == "star":
            return self.obj(a[0])
        if o == "upd":
            return [("?", n)]
        if o == "call":
            return self.call(n)
        if o == "mcall":
            return self.mcall(n)
        if o == "icall":
            r = self.calls(n, self)
            return r if r is not None else [("?", n)]
        return [("?", n)]

    def listy(self, n, d=0):
        """certainly a list (not an array)"""
        n = strip(n)
        if n.op in ("list", "comp", "tuple"):
            return True
        if n.op == "call" and n.args[0] in ("list", "sorted", "tuple"):
            return True
        if n.op == "attr":
            return self.forms(n) == "list" if self.forms(n) else n.args[1] in LISTS
        if n.op == "bin" and n.args[0] in ("+", "*") and d < 4:
            return self.listy(n.args[1], d + 1) or self.listy(n.args[2], d + 1)
        if n.op == "ite" and d < 4:
            return self.listy(n.args[1], d + 1) and self.listy(n.args[2], d + 1)
        if n.op in ("elem", "sub") and d < 4:
            lv = self.level(n)
            return lv is not None and lv > 0
        return False

    def arrayish(self, n, d=0):
        """certainly a numpy array"""
        n = strip(n)
        if n.op == "attr":
            f = self.forms(n)
            return f == "array" if f else n.args[1] in ARRAYS
        if n.op in ("gconst", "classattr"):
            return self.forms(n) == "array"
        if n.op == "call" and isinstance(n.args[0], str):
            return n.args[0] in ("numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.linspace", "numpy.arange") + PASS
        if n.op == "mcall":
            return n.args[1] in VIEWM + ("copy", "astype") and d < 6 and self.arrayish(n.args[0], d + 1)
        if n.op == "ite" and d < 4:
            return self.arrayish(n.args[1], d + 1) and self.arrayish(n.args[2], d + 1)
        if n.op == "phi" and d < 4:
            return all(self.arrayish(x, d + 1) for x in n.args[0])
        if n.op in ("elem", "sub"):
            if n.op == "sub" and n.args[1].op in ("slice", "tuple") and d < 6 and self.arrayish(n.args[0], d + 1):
                return True
            lv = self.level(n)
            return lv is not None and lv <= 0
        return False

    def level(self, n, d=0):
        """number of containers around the arrays in n; None if not known"""
        n = strip(n)
        if d > 10:
            return None
        if n.op == "attr":
            if n.args[1] == "_polygon_dict":
                return 2
            if n.args[1] == "polygons":
                return 1
            return 0 if self.arrayish(n) else None
        if n.op == "sub" and n.args[1].op == "slice":
            return self.level(n.args[0], d + 1)
        if n.op in ("elem", "sub"):
            c = strip(n.args[0])
            if n.op == "sub" and c.op == "elem":
                s = strip(c.args[0])
                if s.op == "mcall" and s.args[1] == "items":
                    lv = self.level(s.args[0], d + 1)
                    return None if lv is None or n.args[1].op != "const" or n.args[1].args[1] != 1 else lv - 1
                if s.op == "call" and s.args[0] == "enumerate" and s.args[1]:
                    lv = self.level(s.args[1][0], d + 1)
                    return None if lv is None else lv - 1
                if s.op == "call" and s.args[0] == "zip" and n.args[1].op == "const" and isinstance(n.args[1].args[1], int) and n.args[1].args[1] < len(s.args[1]):
                    lv = self.level(s.args[1][n.args[1].args[1]], d + 1)
                    return None if lv is None else lv - 1
            lv = self.level(c, d + 1)
            if lv is not None and lv <= 0 and n.op == "sub" and n.args[1].op != "tuple":
                return None   # a row or a number
            return None if lv is None else lv - 1
        if n.op == "mcall" and n.args[1] in ("values", "copy"):
            return self.level(n.args[0], d + 1)
        if n.op == "mcall" and n.args[1] in ("get", "pop", "setdefault"):
            lv = self.level(n.args[0], d + 1)
            return None if lv is None else lv - 1
        if n.op == "call" and n.args[0] == "itertools.chain.from_iterable" and n.args[1]:
            lv = self.level(n.args[1][0], d + 1)
            return None if lv is None else lv - 1
        if n.op == "call" and n.args[0] in ("list", "tuple", "sorted", "reversed", "iter", "filter") and n.args[1]:
            return self.level(n.args[1][-1], d + 1)
        return None

    def inside(self, owner, name, n):
        out = set()
        for l in self.obj(owner):
            if l[0] == "deep":
                out.add(l)
            elif l[0] == "old":
                out.add(("old", n))
            elif l[0] == "fresh" and l[1].op == "call" and l[1].args[0] == "copy.copy" and l[1].args[1]:
                out |= self.obj(self.it.mk("attr", l[1].args[1][0], name))
            elif l[0] == "fresh" and l[1].op in ("new", "comp", "list", "dict"):
                vals = self.stored(l[1], name)
                out |= vals if vals else {("?", n)}
            else:
                out.add(("?", n))
        return out

    def stored(self, obj, name):
        out = set()
        for e in self.res.effects:
            if e.kind == "store" and e.attr == name and strip(e.obj) is obj:
                out |= self.obj(e.value)
        return out

    def sub(self, n):
        c, k = n.args[0], n.args[1]
        if k.op == "slice":
            if self.listy(c):
                return [("fresh", n)]
            out = set()
            if not self.arrayish(c) and any(l[0] == "old" for l in self.obj(c)):
                b = root(c)
                lit = self.it.literal(b) if b.op in ("classattr", "gconst") else None
                return [("fresh", n)] if isinstance(lit, (list, tuple, dict)) else [("?", n)]
            for l in self.obj(c):
                if l[0] == "fresh" and l[1].op in ("list", "comp", "call", "mcall"):
                    out.add(("fresh", n))
                else:
                    out.add(l)
            return out
        if k.op == "tuple":
            return self.obj(c)  # part of an array
        b = strip(c)
        if b.op == "elem" and k.op == "const":
            s = strip(b.args[0])
            if s.op == "call" and s.args[0] == "zip" and isinstance(k.args[1], int) and k.args[1] < len(s.args[1]):
                return self.content(s.args[1][k.args[1]])
            if s.op == "call" and s.args[0] == "enumerate" and s.args[1]:
                return self.content(s.args[1][0]) if k.args[1] == 1 else [DEEP]
            if s.op == "mcall" and s.args[1] == "items":
                return self.content(s.args[0]) if k.args[1] == 1 else [DEEP]
        return self.content(c)

    def call(self, n):
        f, args = n.args[0], n.args[1]
        if not isinstance(f, str):
            r = self.calls(n, self)
            return r if r is not None else [("?", n)]
        if f == "copy.deepcopy":
            return [DEEP]
        if f == "numpy.array":
            kw = dict(n.args[2])
            if "copy" in kw and not (kw["copy"].op == "const" and kw["copy"].args[1] is True):
                return self.obj(args[0]) | {DEEP} if args else [DEEP]
            return [DEEP]
        if f in WRAP or f in ("itertools.chain", "itertools.chain.from_iterable", "zip", "enumerate", "map", "itertools.zip_longest"):
            if f == "next" and args:
                return self.content(args[0])
            return [("fresh", n)]
        if f in PASS:
            if not args or self.listy(args[0]):
                return [DEEP]
            return self.obj(args[0])
        if f in ("min", "max"):
            if len(args) == 1:
                return self.content(args[0])
            out = set()
            for x in args:
                out |= self.obj(x)
            return out
        if f == "getattr" and len(args) >= 2 and args[1].op == "const":
            return self.inside(args[0], args[1].args[1], n)
        if f in BUILTIN_VALUES or f.split(".")[0] in ("numpy", "math", "struct", "datetime", "hashlib", "warnings", "re", "os", "io", "pathlib", "itertools", "time", "string", "sys"):
            return [DEEP]
        r = self.calls(n, self)
        return r if r is not None else [("?", n)]

    def mcall(self, n):
        recv, name, args = n.args[0], n.args[1], n.args[2]
        r = self.calls(n, self)
        if r is not None:
            return r
        if name == "copy" and not args:
            return [DEEP] if self.arrayish(recv) else [("fresh", n)]
        if name in ("values", "items"):
            return [("fresh", n)]
        if name in ("get", "setdefault", "pop", "popitem", "__getitem__"):
            out = set(self.content(recv))
            for x in args[1:]:
                out |= self.obj(x)
            return out
        if name in VIEWM:
            return self.obj(recv)
        if name in DEEPM:
            return [DEEP]
        if name in ("union", "difference", "intersection"):
            return [("fresh", n)]
        if name in self.fluent:
            return self.obj(recv)
        return [("?", n)]

    # -- contents ------------------------------------------------------------
    def content(self, n):
        """labels of the elements of the container n"""
        n = strip(n)
        return self.query(("c", n), lambda: self._content(n))

    def _content(self, n):
        out = set()
        for l in self.obj(n):
            out |= self.of_label(l, n)
        return out

    def of_label(self, l, via=None):
        if l[0] == "deep":
            return {DEEP}
        if l[0] == "old":
            b = strip(l[1])
            if self.scalars(b):
                return {DEEP} | self.added(l)
            return {("old", l[1] if via is None else via)} | self.added(l)
        if l[0] == "?":
            return {l}
        return self.created(l[1]) | self.added(l)

    def created(self, n):
        o, a = n.op, n.args
        out = set()
        if o in ("list", "tuple", "set"):
            for x in a[0]:
                if strip(x).op == "param" and self.scalars(strip(x)):
                    out.add(DEEP)  # a number here: lists are used as they are
                    continue
                out |= self.content(x.args[0]) if x.op == "star" else self.obj(x)
            return out
        if o == "dict":
            for kv in a[0]:
                if isinstance(kv, tuple) and len(kv) == 2:
                    out |= self.content(kv[1]) if kv[0].op == "star" else self.obj(kv[1])
                else:
                    out.add(("?", n))
            return out
        if o == "comp":
            if a[0] == "dict":
                return self.obj(a[1].args[0][1]) if a[1].op == "tuple" or len(a[1].args) else {("?", n)}
            return set(self.obj(a[1]))
        if o == "bin":
            return self.content(a[1]) | (self.content(a[2]) if a[0] == "+" else set())
        if o == "sub":
            return self.content(a[0])
        if o == "param":
            return {("old", n)}
        if o == "new":
            for e in self.res.effects:
                if e.kind == "store" and strip(e.obj) is n:
                    out |= self.obj(e.value)
            return out
        if o == "call":
            f, args = a[0], a[1]
            if f in ("itertools.chain",):
                for x in args:
                    out |= self.content_of(self.content(x.args[0]), x.args[0]) if x.op == "star" else self.content(x)
                return out
            if f == "itertools.chain.from_iterable":
                return self.content_of(self.content(args[0]), args[0]) if args else out
            if f == "filter":
                return self.content(args[1]) if len(args) > 1 else out
            if f == "zip":
                for x in args:
                    out |= self.content(x)
                return out
            if f == "map":
                return {("?", n)}
            for x in args[:1]:
                out |= self.content(x.args[0]) if x.op == "star" else self.content(x)
            return out
        if o == "mcall":
            if a[1] in ("copy", "values", "items", "union", "difference", "intersection"):
                out |= self.content(a[0])
                if a[1] == "union":
                    for x in a[2]:
                        out |= self.content(x)
                return out
        return {("?", n)}

    def content_of(self, labels, via):
        out = set()
        for l in labels:
            out |= self.of_label(l)
        return out

    # -- additions -----------------------------------------------------------
    def added(self, l):
        if l[0] != "fresh":
            return set()
        out = set()
        for e, recv, vals in self.updates():
            if not vals:
                continue
            if strip(recv) is l[1] or l in self.obj(recv):
                for kind, v in vals:
                    out |= self.obj(v) if kind == "item" else self.content(v)
        return out

    def updates(self):
        if self.ups is None:
            self.ups = []
            for e in self.res.effects:
                if e.kind == "mcall" and e.name in MUTATORS:
                    k = MUTATORS[e.name]
                    vals = []
                    args = e.args
                    if k == "*":
                        vals = [("all", x) for x in args]
                    elif k is not None and len(args) > k:
                        vals = [("item", args[k])]
                    self.ups.append((e, e.recv, vals))
                elif e.kind == "storeitem":
                    kind = "all" if e.key.op in ("slice",) else "item"
                    self.ups.append((e, e.obj, [(kind, e.value)]))
                elif e.kind == "delitem":
                    self.ups.append((e, e.obj, []))
                elif e.kind == "aug" and hasattr(e.data.get("obj"), "op"):
                    self.ups.append((e, e.obj, [("all", e.value)] if e.op in ("+", "|") and self.listy(e.obj) else []))
        return self.ups

    # -- queries --------------------------------------------------------------
    def deep(self, n, levels):
        """labels of n and of what it contains, `levels` levels down"""
        out = [self.obj(n)]
        for _ in range(levels):
            s = set()
            for l in out[-1]:
                s |= self.of_label(l)
            out.append(s)
        return out


def root(n, depth=0):
    """the parameter or global an old object is reached from"""
    n = strip(n)
    if depth > 30:
        return n
    if n.op in ("attr", "elem", "sub", "mcall", "init") and isinstance(n.args[0], Node):
        return root(n.args[0], depth + 1)
    if n.op == "call" and n.args[1]:
        return root(n.args[1][0], depth + 1)
    return n
