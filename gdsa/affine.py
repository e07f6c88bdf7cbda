"""Vector-valued algebraic value numbering: coordinates computed from value-flow
nodes, as arrays of polynomials over the inputs of a method."""
import ast
import math
import random
from fractions import Fraction

from .interp import Node, show
from .lin import Fork
from .poly import Poly


class Unsupported(Exception):
    pass


class Bad(Exception):
    """a definite violation found while analysing one case"""

    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.where = where


ZERO = Poly.const(0)
ONE = Poly.const(1)


class Arr(object):
    """an array with known small dimensions and symbolic ones ('N': one row
    stands for all of them); data maps the integer part of an index to Poly"""

    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape = tuple(shape)
        self.data = data

    def __repr__(self):
        return "Arr%r%r" % (self.shape, self.data)

    def ints(self):
        return [d for d in self.shape if d != "N"]


def scalar(p):
    return Arr((), {(): p})


def pair(x, y):
    return Arr((2,), {(0,): x, (1,): y})


def rows(x, y):
    return Arr(("N", 2), {(0,): x, (1,): y})


class Tup(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


def indices(dims):
    if not dims:
        yield ()
        return
    for i in range(dims[0]):
        for r in indices(dims[1:]):
            yield (i,) + r


def to_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Tup):
        items = [to_arr(x) for x in v.items]
        if not items:
            raise Unsupported("empty array")
        sh = items[0].shape
        if any(x.shape != sh for x in items):
            raise Unsupported("ragged array")
        data = {}
        for i, x in enumerate(items):
            for k, p in x.data.items():
                data[(i,) + k] = p
        return Arr((len(items),) + sh, data)
    raise Unsupported("not an array: %r" % (v,))


def broadcast(a, b, fn):
    n = max(len(a.shape), len(b.shape))
    sa = (1,) * (n - len(a.shape)) + a.shape
    sb = (1,) * (n - len(b.shape)) + b.shape
    out = []
    for x, y in zip(sa, sb):
        if x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            raise Unsupported("shapes %r and %r do not match" % (a.shape, b.shape))

    def get(arr, sh, idx):
        k = []
        j = 0
        for d, o in zip(sh, out):
            if o == "N":
                if d == 1:
                    k.append(0)
            else:
                k.append(idx[j] if d != 1 else 0)
                j += 1
        k = k[len(sh) - len(arr.shape):] if False else k
        # drop the padding dimensions
        pad = n - len(arr.shape)
        full = []
        kk = iter(k)
        for i, (d, o) in enumerate(zip(sh, out)):
            if o == "N" and d == "N":
                continue
            v = next(kk)
            if i >= pad:
                full.append(v)
        return arr.data[tuple(full)]

    data = {}
    dims = [d for d in out if d != "N"]
    for idx in indices(dims):
        data[idx] = fn(get(a, sa, idx), get(b, sb, idx))
    return Arr(out, data)


def pmap(a, fn):
    return Arr(a.shape, {k: fn(v) for k, v in a.data.items()})


def pdiv(x, y):
    if not y.t:
        raise Unsupported("division by zero")
    i = y.monomial_inv()
    if i is not None:
        return x * i
    return x * Poly({((("inv", y), 1),): Fraction(1)})


def ppow(x, y):
    if y.is_const():
        e = y.cval()
        if e.denominator == 1 and 0 <= e <= 8:
            r = ONE
            for _ in range(int(e)):
                r = r * x
            return r
        if e.denominator == 1 and -8 <= e < 0:
            return pdiv(ONE, ppow(x, -y))
    return Poly.atom(("pow", x, y))


def sum_axis(a, axis):
    """sum over one integer axis"""
    n = len(a.shape)
    if axis < 0:
        axis += n
    if a.shape[axis] == "N":
        raise Unsupported("sum over rows")
    pos = sum(1 for d in a.shape[:axis] if d != "N")
    sh = a.shape[:axis] + a.shape[axis + 1:]
    data = {}
    for k, p in a.data.items():
        r = k[:pos] + k[pos + 1:]
        data[r] = data.get(r, ZERO) + p
    return Arr(sh, data)


def contract(a, b, ax_a, ax_b):
    """sum over axis ax_a of a and ax_b of b; result shape a-rest + b-rest"""
    na, nb = len(a.shape), len(b.shape)
    ax_a %= na
    ax_b %= nb
    if a.shape[ax_a] != b.shape[ax_b] or a.shape[ax_a] == "N":
        raise Unsupported("contraction of %r and %r" % (a.shape, b.shape))
    ra = a.shape[:ax_a] + a.shape[ax_a + 1:]
    rb = b.shape[:ax_b] + b.shape[ax_b + 1:]
    if "N" in ra and "N" in rb:
        raise Unsupported("two row dimensions")
    pa = sum(1 for d in a.shape[:ax_a] if d != "N")
    pb = sum(1 for d in b.shape[:ax_b] if d != "N")
    data = {}
    for k, p in a.data.items():
        for l, q in b.data.items():
            if k[pa] == l[pb]:
                key = k[:pa] + k[pa + 1:] + l[:pb] + l[pb + 1:]
                data[key] = data.get(key, ZERO) + p * q
    return Arr(ra + rb, data)


def matmul(a, b):
    if not a.shape or not b.shape:
        raise Unsupported("matmul of a scalar")
    return contract(a, b, -1, -1 if len(b.shape) == 1 else -2)


def dot(a, b):
    if not a.shape or not b.shape:
        return broadcast(a, b, lambda x, y: x * y)
    return matmul(a, b)


def inner(a, b):
    if not a.shape or not b.shape:
        return broadcast(a, b, lambda x, y: x * y)
    return contract(a, b, -1, -1)


def outer(a, b):
    if len(a.shape) > 1 or len(b.shape) > 1:
        raise Unsupported("outer of matrices")
    if "N" in b.shape and "N" in a.shape:
        raise Unsupported("two row dimensions")
    data = {}
    for k, p in a.data.items():
        for l, q in b.data.items():
            data[k + l] = p * q
    sa = a.shape or (1,)
    sb = b.shape or (1,)
    if not a.shape or not b.shape:
        raise Unsupported("outer of a scalar")
    return Arr(sa + sb, data)


def transpose(a):
    n = len(a.shape)
    return Arr(a.shape[::-1], {k[::-1]: v for k, v in a.data.items()}) if n else a


def stack(items, axis):
    n = len(items[0].shape) + 1
    if any(x.shape != items[0].shape for x in items):
        raise Unsupported("stack of different shapes")
    if axis < 0:
        axis += n
    sh = items[0].shape
    pos = sum(1 for d in sh[:axis] if d != "N")
    data = {}
    for i, x in enumerate(items):
        for k, p in x.data.items():
            data[k[:pos] + (i,) + k[pos:]] = p
    return Arr(sh[:axis] + (len(items),) + sh[axis:], data)


ELEMENTWISE = {
    "cos": "cos", "sin": "sin", "tan": "tan", "sqrt": "sqrt", "arctan": "atan", "atan": "atan", "exp": "exp", "log": "log",
    "abs": "abs", "absolute": "abs", "fabs": "abs", "arccos": "acos", "arcsin": "asin", "floor": "floor", "ceil": "ceil", "rint": "round",
}


class Eval(object):
    """leaf(node) -> Arr/Tup or None gives the meaning of the inputs;
    decide(cond) -> True/False/None resolves conditions (Fork otherwise)"""

    def __init__(self, it, leaf, decide=None):
        self.it = it
        self.leaf = leaf
        self.decide = decide or (lambda c: None)
        self.memo = {}

    def resolve(self, n):
        k = 0
        while n.op == "ite" and k < 60:
            k += 1
            d = self.decide(n.args[0])
            if d is None:
                raise Fork(n.args[0])
            n = n.args[1] if d else n.args[2]
        return n

    def arr(self, n):
        return to_arr(self.ev(n))

    def ev(self, n, depth=0):
        if n in self.memo:
            return self.memo[n]
        v = self._ev(n, depth)
        self.memo[n] = v
        return v

    def _ev(self, n, depth):
        if depth > 150:
            raise Unsupported("expression too deep")
        v = self.leaf(n)
        if v is not None:
            return v
        n = self.resolve(n)
        v = self.leaf(n)
        if v is not None:
            return v
        d = depth + 1
        o, a = n.op, n.args
        if o == "const":
            x = a[1]
            if isinstance(x, (int, float)) and x == x and abs(x) != float("inf"):
                return scalar(Poly.const(x))
            raise Unsupported("constant %r" % (x,))
        if o == "ext":
            if a[0] in ("numpy.pi", "math.pi"):
                return scalar(Poly.atom("pi"))
            raise Unsupported(a[0])
        if o == "gconst":
            return self.literal(n)
        if o == "unbound":
            raise Bad("a variable is used that is not set")
        if o in ("tuple", "list"):
            if any(x.op == "star" for x in a[0]):
                raise Unsupported("star")
            return Tup([self.ev(x, d) for x in a[0]])
        if o == "ver":
            return self.version(n, d)
        if o == "bin":
            op = a[0]
            l, r = self.ev(a[1], d), self.ev(a[2], d)
            if isinstance(l, Tup) and isinstance(r, Tup):
                if op == "+":
                    return Tup(l.items + r.items)
                raise Unsupported("tuple arithmetic")
            x, y = to_arr(l), to_arr(r)
            if (isinstance(l, Tup) or isinstance(r, Tup)) and not ((isinstance(l, Arr) and l.shape) or (isinstance(r, Arr) and r.shape)):
                raise Unsupported("sequence arithmetic")
            return self.binop(op, x, y)
        if o == "un":
            if a[0] == "-":
                return pmap(self.arr(a[1]), lambda p: -p)
            if a[0] == "+":
                return self.ev(a[1], d)
            raise Unsupported("unary " + a[0])
        if o == "sub":
            return self.index(a[0], a[1], d)
        if o == "attr" and a[1] == "T":
            return transpose(self.arr(a[0]))
        if o == "call":
            return self.call(n, d)
        if o == "mcall":
            return self.mcall(n, d)
        raise Unsupported(show(n, 3))

    def binop(self, op, x, y):
        fn = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": pdiv, "**": ppow}.get(op)
        if fn is not None:
            return broadcast(x, y, fn)
        if op == "@":
            return matmul(x, y)
        if op == "%":
            return broadcast(x, y, lambda p, q: Poly.atom(("mod", p, q)))
        if op == "//":
            return broadcast(x, y, lambda p, q: Poly.atom(("floordiv", p, q)))
        raise Unsupported("operator " + op)

    def literal(self, n):
        info = n.info or {}
        e = info.get("ast")
        if e is None:
            raise Unsupported("global")

        def lit(e):
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
                return scalar(Poly.const(e.value))
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
                v = to_arr(lit(e.operand))
                return pmap(v, lambda p: -p) if isinstance(e.op, ast.USub) else v
            if isinstance(e, (ast.Tuple, ast.List)):
                return Tup([lit(x) for x in e.elts])
            if isinstance(e, ast.BinOp):
                op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}.get(type(e.op))
                if op:
                    return self.binop(op, to_arr(lit(e.left)), to_arr(lit(e.right)))
            if isinstance(e, ast.Attribute) and e.attr == "pi":
                return scalar(Poly.atom("pi"))
            if isinstance(e, ast.Name) and info.get("module") is not None:
                r = self.it.prog.lookup(info["module"], e.id)
                if r is not None and r[0] == "const":
                    return lit(r[1])
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("array", "asarray") and e.args:
                return to_arr(lit(e.args[0]))
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("sqrt", "cos", "sin") and e.args:
                return pmap(to_arr(lit(e.args[0])), lambda p: Poly.atom((e.func.attr, p)))
            raise Unsupported("module constant " + n.args[1])

        return lit(e)

    def version(self, n, d):
        base, c = n.args
        ups = []
        while c.op == "upd":
            ups.append((c.args[1], c.args[2]))
            c = c.args[0]
        if c.op == "ite":
            dd = self.decide(c.args[0])
            if dd is None:
                raise Fork(c.args[0])
            inner_ = self.it.mk("ver", base, c.args[1] if dd else c.args[2])
            v = self.ev(inner_, d)
        elif c.op == "init" and c.args[0] is base:
            v = self.leaf(base)
            if v is None:
                v = self._ev(base, d) if base.op != "ver" else self.ev(base, d)
        else:
            raise Unsupported("content " + show(c, 2))
        for kind, args in reversed(ups):
            if kind == "setitem":
                v = self.setitem(v, args[0], self.ev(args[1], d), d)
            elif kind == "append" and isinstance(v, Tup):
                v = Tup(v.items + (self.ev(args[0], d),))
            elif kind == "reverse" and isinstance(v, Tup):
                v = Tup(v.items[::-1])
            else:
                raise Unsupported("update " + kind)
        return v

    def key(self, k):
        """list of int | slice | 'rev' | 'all' | 'ell' | 'new'"""
        ks = k.args[0] if k.op == "tuple" else (k,)
        out = []
        for x in ks:
            x = self.resolve(x)
            if x.op == "const" and isinstance(x.args[1], int) and not isinstance(x.args[1], bool):
                out.append(x.args[1])
            elif x.op == "const" and x.args[1] is None:
                out.append("new")
            elif x.op == "const" and x.args[1] is Ellipsis:
                out.append("ell")
            elif x.op == "ext" and x.args[0] == "numpy.newaxis":
                out.append("new")
            elif x.op == "slice":
                c = []
                for y in x.args:
                    y = self.resolve(y)
                    if y.op == "const" and (y.args[1] is None or isinstance(y.args[1], int)):
                        c.append(y.args[1])
                    else:
                        raise Unsupported("slice bound")
                out.append(slice(*c))
            else:
                raise Unsupported("subscript " + show(x, 2))
        return out

    def index(self, obj, k, d):
        v = self.ev(obj, d)
        ks = self.key(k)
        if isinstance(v, Tup):
            if len(ks) == 1 and isinstance(ks[0], int):
                try:
                    return v.items[ks[0]]
                except IndexError:
                    raise Unsupported("index out of range")
            if len(ks) == 1 and isinstance(ks[0], slice):
                return Tup(v.items[ks[0]])
            v = to_arr(v)
        return self.take(v, ks)

    def take(self, v, ks):
        if "ell" in ks:
            i = ks.index("ell")
            fill = len(v.shape) - (len([k for k in ks if k != "new"]) - 1)
            ks = ks[:i] + [slice(None)] * fill + ks[i + 1:]
        nreal = len([k for k in ks if k != "new"])
        if nreal > len(v.shape):
            raise Unsupported("too many subscripts")
        ks = ks + [slice(None)] * (len(v.shape) - nreal)
        shape = []
        sel = []  # per int dim: list of source indices or int
        di = iter(v.shape)
        for k in ks:
            if k == "new":
                shape.append(1)
                sel.append("new")
                continue
            dim = next(di)
            if dim == "N":
                if isinstance(k, int):
                    raise Unsupported("single row")
                if k not in (slice(None), slice(None, None, None), slice(0, None), slice(None, None, 1)):
                    raise Unsupported("row slice")
                shape.append("N")
                continue
            if isinstance(k, int):
                if not -dim <= k < dim:
                    raise Unsupported("index out of range")
                sel.append(k % dim)
            else:
                idx = list(range(dim))[k]
                shape.append(len(idx))
                sel.append(idx)
        data = {}
        dims = [x for x in shape if x != "N"]
        for out in indices(dims):
            it = iter(out)
            src = []
            for s in sel:
                if s == "new":
                    next(it)
                elif isinstance(s, int):
                    src.append(s)
                else:
                    src.append(s[next(it)])
            data[out] = v.data[tuple(src)]
        return Arr(shape, data)

    def setitem(self, v, k, val, d):
        ks = self.key(k)
        if isinstance(v, Tup):
            if len(ks) == 1 and isinstance(ks[0], int) and -len(v.items) <= ks[0] < len(v.items):
                items = list(v.items)
                items[ks[0]] = val
                return Tup(items)
            raise Unsupported("item store")
        val = to_arr(val)
        if "ell" in ks:
            i = ks.index("ell")
            ks = ks[:i] + [slice(None)] * (len(v.shape) - len(ks) + 1) + ks[i + 1:]
        ks = ks + [slice(None)] * (len(v.shape) - len(ks))
        sel = []
        tshape = []
        for k, dim in zip(ks, v.shape):
            if dim == "N":
                if k != slice(None):
                    raise Unsupported("row store")
                tshape.append("N")
                continue
            if isinstance(k, int):
                sel.append([k % dim])
            else:
                idx = list(range(dim))[k]
                sel.append(idx)
                tshape.append(len(idx))
        b = broadcast(Arr(tshape, {i: ZERO for i in indices([x for x in tshape if x != "N"])}), val, lambda p, q: q)
        data = dict(v.data)
        intk = [i for i, (k, dim) in enumerate(zip([k for k, dd in zip(ks, v.shape) if dd != "N"], [dd for dd in v.shape if dd != "N"])) if isinstance(k, int)]
        for tgt in indices([len(s) for s in sel]):
            dst = tuple(s[t] for s, t in zip(sel, tgt))
            src = tuple(t for i, t in enumerate(tgt) if i not in intk)
            data[dst] = b.data[src]
        return Arr(v.shape, data)

    def kwarg(self, n, name):
        kw = n.args[2] if n.op == "call" else n.args[3]
        for k, v in kw:
            if k == name:
                return v
        return None

    def axis(self, n, default):
        k = self.kwarg(n, "axis")
        if k is None:
            return default
        if k.op == "const" and isinstance(k.args[1], int):
            return k.args[1]
        raise Unsupported("axis")

    def call(self, n, d):
        nm, args = n.args[0], n.args[1]
        if not isinstance(nm, str):
            raise Unsupported("call " + show(n, 2))
        short = nm.split(".")[-1]
        mod = nm[: -len(short) - 1]
        if mod in ("numpy", "math", ""):
            if short in ("array", "asarray", "asfarray", "ascontiguousarray", "atleast_1d") and mod == "numpy":
                v = self.ev(args[0], d)
                return to_arr(v)
            if short in ("float", "float64", "copy", "deepcopy") and len(args) == 1:
                return self.ev(args[0], d)
            if nm in ("tuple", "list") and len(args) == 1:
                v = self.ev(args[0], d)
                if isinstance(v, Tup):
                    return v
                if len(v.shape) == 1 and v.shape[0] != "N":
                    return Tup([scalar(v.data[(i,)]) for i in range(v.shape[0])])
                raise Unsupported(nm)
            if short in ELEMENTWISE and len(args) == 1 and mod in ("numpy", "math") or nm == "abs":
                f = ELEMENTWISE[short]
                return pmap(self.arr(args[0]), lambda p: fold(f, p))
            if short in ("deg2rad", "radians"):
                return pmap(self.arr(args[0]), lambda p: p * Poly.atom("pi") * Poly.const(Fraction(1, 180)))
            if short in ("rad2deg", "degrees"):
                return pmap(self.arr(args[0]), lambda p: p * Poly({(("pi", -1),): Fraction(180)}))
            if short in ("arctan2", "atan2", "hypot") and len(args) == 2:
                f = "atan2" if short != "hypot" else "hypot"
                return broadcast(self.arr(args[0]), self.arr(args[1]), lambda p, q: Poly.atom((f, p, q)))
            if short in ("inner", "dot", "outer", "matmul", "vdot") and len(args) == 2:
                f = {"inner": inner, "dot": dot, "outer": outer, "matmul": matmul, "vdot": inner}[short]
                return f(self.arr(args[0]), self.arr(args[1]))
            if short in ("multiply", "add", "subtract", "divide", "true_divide", "power") and len(args) == 2:
                return self.binop({"multiply": "*", "add": "+", "subtract": "-", "divide": "/", "true_divide": "/", "power": "**"}[short], self.arr(args[0]), self.arr(args[1]))
            if short in ("negative",):
                return pmap(self.arr(args[0]), lambda p: -p)
            if short == "square":
                return pmap(self.arr(args[0]), lambda p: p * p)
            if short == "transpose" and len(args) == 1:
                return transpose(self.arr(args[0]))
            if short in ("vstack", "row_stack") and len(args) == 1:
                v = self.ev(args[0], d)
                if isinstance(v, Tup) and all(len(to_arr(x).shape) == 1 for x in v.items):
                    return stack([to_arr(x) for x in v.items], 0)
                raise Unsupported(nm)
            if short in ("column_stack",) and len(args) == 1:
                v = self.ev(args[0], d)
                if isinstance(v, Tup) and all(len(to_arr(x).shape) == 1 for x in v.items):
                    return stack([to_arr(x) for x in v.items], 1)
                raise Unsupported(nm)
            if short == "stack" and len(args) >= 1:
                v = self.ev(args[0], d)
                if isinstance(v, Tup):
                    return stack([to_arr(x) for x in v.items], self.axis(n, 0))
                raise Unsupported(nm)
            if short in ("eye", "identity") and args and args[0].op == "const":
                k = args[0].args[1]
                return Arr((k, k), {(i, j): ONE if i == j else ZERO for i in range(k) for j in range(k)})
            if short in ("zeros", "ones") and args and mod == "numpy":
                sh = None
                if args[0].op == "const":
                    sh = (args[0].args[1],)
                elif args[0].op == "tuple" and all(x.op == "const" for x in args[0].args[0]):
                    sh = tuple(x.args[1] for x in args[0].args[0])
                if sh and all(isinstance(x, int) and x < 10 for x in sh):
                    return Arr(sh, {i: ONE if short == "ones" else ZERO for i in indices(list(sh))})
            if short in ("zeros_like", "ones_like"):
                return pmap(self.arr(args[0]), lambda p: ONE if short == "ones_like" else ZERO)
            if short in ("flip", "fliplr") and args:
                v = self.arr(args[0])
                ax = self.axis(n, None)
                if short == "fliplr":
                    ax = 1
                if ax is None and len(args) > 1 and args[1].op == "const":
                    ax = args[1].args[1]
                if ax is None:
                    ax = 0 if len(v.shape) == 1 else None
                if ax is None:
                    raise Unsupported("flip of all axes")
                ks = [slice(None)] * len(v.shape)
                ks[ax] = slice(None, None, -1)
                return self.take(v, ks)
            if short == "sum" and args:
                v = self.arr(args[0])
                ax = self.axis(n, None)
                if ax is None:
                    if "N" in v.shape:
                        raise Unsupported("sum over rows")
                    return scalar(sum(v.data.values(), ZERO))
                return sum_axis(v, ax)
            if short in ("round", "int", "min", "max", "around", "round_", "fmod", "minimum", "maximum"):
                vs = [self.arr(x) for x in args]
                if all(v.shape == () for v in vs):
                    return scalar(Poly.atom((short,) + tuple(v.data[()] for v in vs)))
            if nm == "numpy.linalg.norm" or short == "norm":
                pass
        if nm in ("numpy.linalg.norm",) and len(args) == 1:
            v = self.arr(args[0])
            if len(v.shape) == 1 and "N" not in v.shape:
                return scalar(Poly.atom(("sqrt", sum((p * p for p in v.data.values()), ZERO))))
        if nm in ("copy.deepcopy", "copy.copy"):
            return self.ev(args[0], d)
        raise Unsupported("call " + nm)

    def mcall(self, n, d):
        recv, nm, args = n.args[0], n.args[1], n.args[2]
        if nm in ("copy", "astype"):
            return self.ev(recv, d)
        if nm == "dot" and len(args) == 1:
            return dot(self.arr(recv), self.arr(args[0]))
        if nm == "transpose" and not args:
            return transpose(self.arr(recv))
        if nm == "sum":
            v = self.arr(recv)
            ax = self.axis(n, None)
            if ax is None and args and args[0].op == "const":
                ax = args[0].args[1]
            if ax is None:
                if "N" in v.shape:
                    raise Unsupported("sum over rows")
                return scalar(sum(v.data.values(), ZERO))
            return sum_axis(v, ax)
        raise Unsupported("method " + nm)


def fold(f, p):
    if f in ("cos", "sin") and not p.t:
        return ONE if f == "cos" else ZERO
    if f in ("cos", "sin"):
        # canonical sign of the argument
        k = p.key()
        if k[0][1] < 0:
            q = Poly.atom((f, -p))
            return q if f == "cos" else -q
    if f == "sqrt":
        return Poly.atom(("pow", p, Poly.const(Fraction(1, 2))))
    return Poly.atom((f, p))


# -- equality ---------------------------------------------------------------

FUN = {
    "cos": math.cos, "sin": math.sin, "tan": math.tan, "sqrt": math.sqrt, "atan": math.atan, "exp": math.exp, "log": math.log,
    "abs": abs, "acos": math.acos, "asin": math.asin, "floor": math.floor, "ceil": math.ceil, "round": round, "int": int, "min": min, "max": max,
    "atan2": math.atan2, "hypot": math.hypot, "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b, "pow": lambda a, b: a ** b,
    "around": round, "round_": round, "fmod": math.fmod, "minimum": min, "maximum": max, "inv": lambda a: 1.0 / a,
}


def value(p, env):
    """numeric value of a normal form under an assignment of its atoms"""
    tot = 0.0
    for mono, c in p.t.items():
        v = float(c)
        for a, e in mono:
            v *= atom_value(a, env) ** e
        tot += v
    return tot


def atom_value(a, env):
    if a == "pi":
        return math.pi
    if a in env:
        return env[a]
    if isinstance(a, tuple) and a and a[0] in FUN and all(isinstance(x, Poly) for x in a[1:]):
        return FUN[a[0]](*[value(x, env) for x in a[1:]])
    if isinstance(a, str):
        r = random.Random("gdsa" + a + str(env.get("$seed", 0)))
        v = env[a] = r.uniform(0.3, 2.7) * r.choice((-1, 1))
        return v
    raise Unsupported("opaque " + repr(a))


def same(p, q, subst=None):
    """True: equal; False: different; None: cannot tell"""
    if p == q:
        return True
    try:
        for s in range(4):
            env = {"$seed": s}
            if subst:
                env.update(subst)
            x, y = value(p, env), value(q, env)
            if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
                return False
        return True
    except (Unsupported, ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None


def same_arr(a, b, subst=None):
    if a.shape != b.shape:
        return False
    res = True
    for k in a.data:
        r = same(a.data[k], b.data[k], subst)
        if r is False:
            return False
        if r is None:
            res = None
    return res
