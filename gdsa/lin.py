"""Linear sizes, parities and upper bounds over value-flow nodes, relative to a
set of path facts (condition node -> bool)."""
import struct as _struct

from .interp import Node, subnodes


class Fork(Exception):
    """the caller has to split the path on a condition"""

    def __init__(self, cond):
        Exception.__init__(self)
        self.cond = cond


class Lin(object):
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o if isinstance(o, Lin) else -o)

    def __mul__(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.t.items()})

    def is_const(self):
        return not self.t

    def same(self, o):
        return self.c == o.c and self.t == o.t

    def __repr__(self):
        from .interp import show

        return " + ".join([str(self.c)] + ["%s*%s" % (v, show(k, 3) if isinstance(k, Node) else k) for k, v in self.t.items()])


class Facts(object):
    """conditions decided on the current path"""

    def __init__(self, it, d=None):
        self.it = it
        self.d = dict(d or {})

    def copy(self):
        return Facts(self.it, self.d)

    def decide(self, c):
        c, pol = self.it.norm_cond(c)
        r = self._d(c)
        return None if r is None else (r if pol else not r)

    def _d(self, c):
        if c in self.d:
            return self.d[c]
        if c.op == "const":
            return bool(c.args[1])
        if c.op == "bool":
            rs = [self.decide(x) for x in c.args[1]]
            if c.args[0] == "and":
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            return None
        if c.op == "cmp":
            op, a, b = c.args
            # equality facts with constants
            if op == "==" and b.op == "const":
                if a.op == "ite":
                    ra = self.resolve(a)
                    if ra is not a:
                        if ra.op == "const":
                            return ra.args[1] == b.args[1]
                for k, v in self.d.items():
                    if k.op == "cmp" and k.args[0] == "==" and k.args[1] is a and v and k.args[2].op == "const":
                        return k.args[2].args[1] == b.args[1]
            if op == "is" and b.op == "const" and b.args[1] is None:
                r = self.it.is_none(self.resolve(a))
                if r is not None:
                    return r
            if b.op == "const" and b.args[1] in (0, 1) and not isinstance(b.args[1], bool) and op == "==":
                p = self._parity_of_mod(a)
                if p is not None:
                    for k, v in self.d.items():
                        q = parity_fact(k, v)
                        if q is not None and q[0] is p:
                            return q[1] == b.args[1]
        r = self._mod_truth(c)
        return r

    def _mod_truth(self, c):
        p = mod2_arg(c)
        if p is not None:
            for k, v in self.d.items():
                q = parity_fact(k, v)
                if q is not None and q[0] is p:
                    return bool(q[1])
        return None

    def _parity_of_mod(self, a):
        return mod2_arg(a)

    def resolve(self, n):
        k = 0
        while isinstance(n, Node) and n.op == "ite" and k < 60:
            k += 1
            d = self.decide(n.args[0])
            if d is None:
                return n
            n = n.args[1] if d else n.args[2]
        return n

    def add(self, c, v):
        """assume; returns None when the path became infeasible"""
        c, pol = self.it.norm_cond(c)
        v = v if pol else not v
        cur = self._d(c)
        if cur is not None and cur != v:
            return None
        f = Facts(self.it, self.d)
        f.d[c] = v
        if c.op == "bool":
            if (c.args[0] == "and") == v:
                # all operands decided
                for x in c.args[1]:
                    f = f.add(x, v)
                    if f is None:
                        return None
        # re-check compound facts
        for k, val in list(f.d.items()):
            if k.op == "bool":
                del f.d[k]
                r = f._d(k)
                f.d[k] = val
                if r is not None and r != val:
                    return None
                if r is None:
                    # unit propagation: one operand left
                    und = []
                    for x in k.args[1]:
                        if f.decide(x) is None:
                            und.append(x)
                    need = val if (k.args[0] == "and") == (not val) else None
                    if len(und) == 1:
                        x, p = self.it.norm_cond(und[0])
                        want = val
                        f.d[x] = want if p else not want
        return f


def mod2_arg(n):
    """the argument X of  X % 2  /  X & 1"""
    if n.op == "bin" and n.args[0] == "%" and n.args[2].op == "const" and n.args[2].args[1] == 2:
        return n.args[1]
    if n.op == "bin" and n.args[0] == "&" and n.args[2].op == "const" and n.args[2].args[1] == 1:
        return n.args[1]
    return None


def parity_fact(c, v):
    """(node X, parity) when the fact c==v fixes the parity of X"""
    x = mod2_arg(c)
    if x is not None:
        return (x, 1 if v else 0)
    if c.op == "cmp" and c.args[2].op == "const":
        op, a, b = c.args
        x = mod2_arg(a)
        if x is None:
            return None
        k = b.args[1]
        if op == "==" and k in (0, 1):
            return (x, k if v else 1 - k)
        if op == ">" and k == 0:
            return (x, 1 if v else 0)
        if op == "<" and k == 1:
            return (x, 0 if v else 1)
    return None


NP_KEEP = set("numpy.round numpy.rint numpy.around numpy.array numpy.asarray numpy.ascontiguousarray numpy.floor numpy.ceil numpy.round_ numpy.int32 copy.copy copy.deepcopy list tuple sorted reversed numpy.copy enumerate".split())
STR_KEEP = set("encode decode lower upper swapcase".split())
ARR_KEEP = set("astype copy round view tolist byteswap newbyteorder".split())


class Sizer(object):
    def __init__(self, it, facts, bytes_of=None):
        self.it = it
        self.f = facts
        self.bytes_of = bytes_of

    def r(self, n):
        n = self.f.resolve(n)
        if n.op == "ite":
            raise Fork(n.args[0])
        return n

    # -- length along the first axis (or number of characters) -----------
    def length(self, n):
        n0 = n
        n = self.r(n)
        if n.op == "ver":
            base = n.args[0]
            c = n.args[1]
            # content updates that keep the length
            while c.op == "upd" and c.args[1] in ("setitem", "sort", "reverse", "fill", "byteswap"):
                c = c.args[0]
            if c.op == "loopv" and c.info and self._only_keep(c, set()):
                return self.length(base)
            if c.op == "init":
                return self.length(base)
            if base.op == "list" and c.op == "upd":
                ln = self._list_len(base, n.args[1])
                if ln is not None:
                    return ln
            return Lin(0, {n: 1})
        if n.op == "const" and isinstance(n.args[1], (str, bytes)):
            return Lin(len(n.args[1]))
        if n.op in ("tuple", "list") and not any(x.op == "star" for x in n.args[0]):
            return Lin(len(n.args[0]))
        if n.op == "bin":
            op, a, b = n.args
            if op == "+" and self.seqlike(a) and self.seqlike(b):
                return self.length(a) + self.length(b)
            if op == "+" and (self.strlike(a) or self.strlike(b)):
                return self.length(a) + self.length(b)
            if op == "*":
                for x, y in ((a, b), (b, a)):
                    if x.op == "const" and isinstance(x.args[1], (str, bytes)):
                        return self.lin(y) * len(x.args[1])
            if op in ("+", "-", "*", "/", "**", "//"):
                cand = [x for x in (a, b) if not self.scalar(x)]
                if len(cand) == 1:
                    return self.length(cand[0])
                if len(cand) == 2:
                    la, lb = self.length(cand[0]), self.length(cand[1])
                    if la.same(lb):
                        return la
        if n.op == "call" and isinstance(n.args[0], str):
            nm = n.args[0]
            if nm in NP_KEEP and n.args[1]:
                return self.length(n.args[1][0])
            if nm in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full") and n.args[1]:
                sh = self.r(n.args[1][0])
                if sh.op == "tuple":
                    return self.lin(sh.args[0][0])
                if sh.op == "attr" and sh.args[1] == "shape":
                    return self.length(sh.args[0])
                return self.lin(sh)
            if nm in ("numpy.empty_like", "numpy.zeros_like") and n.args[1]:
                return self.length(n.args[1][0])
            if nm == "range":
                a = n.args[1]
                if len(a) == 1:
                    return self.lin(a[0])
                if len(a) == 2:
                    return self.lin(a[1]) - self.lin(a[0])
            if nm in ("numpy.vstack", "numpy.concatenate", "numpy.row_stack") and n.args[1]:
                seq = self.r(n.args[1][0])
                if seq.op in ("tuple", "list"):
                    tot = Lin(0)
                    for x in seq.args[0]:
                        tot = tot + self.length(x)
                    return tot
            if nm in ("bytes", "bytearray") and n.args[1]:
                return self.length(n.args[1][0])
        if n.op == "mcall":
            if n.args[1] in ARR_KEEP or n.args[1] in STR_KEEP:
                return self.length(n.args[0])
            if n.args[1] in ("keys", "values", "items"):
                return self.length(n.args[0])
        if n.op == "sub" and n.args[1].op in ("slice", "tuple"):
            key = n.args[1]
            if key.op == "tuple":
                key = key.args[0][0]
            if key.op == "slice":
                return self.slice_len(n, n.args[0], key)
        if n.op == "comp" and len(n.args[2]) == 1 and not n.args[3]:
            return self.length(n.args[2][0])
        if self.bytes_of is not None:
            t = self.bytes_of(n)
            if t is not None:
                return t
        return Lin(0, {n: 1})

    def _only_keep(self, c, seen):
        if c in seen:
            return True
        seen.add(c)
        if c.op == "init":
            return True
        if c.op == "upd":
            return c.args[1] in ("setitem", "sort", "reverse", "fill", "byteswap") and self._only_keep(c.args[0], seen)
        if c.op == "loopv" and c.info:
            return all(x is not None and self._only_keep(x, seen) for x in (c.info.get("init"), c.info.get("next")))
        if c.op in ("ite",):
            return self._only_keep(c.args[1], seen) and self._only_keep(c.args[2], seen)
        if c.op == "phi":
            return all(self._only_keep(x, seen) for x in c.args[0])
        return False

    def _list_len(self, base, c):
        if c.op == "init":
            return Lin(len(base.args[0])) if not any(x.op == "star" for x in base.args[0]) else None
        if c.op == "ite":
            c = self.r(c)
        if c.op == "upd":
            r = self._list_len(base, c.args[0])
            if r is None:
                return None
            if c.args[1] in ("append", "insert"):
                return r + 1
            if c.args[1] == "extend":
                return r + self.length(c.args[2][0])
            if c.args[1] in ("setitem", "sort", "reverse"):
                return r
            if c.args[1] == "pop":
                return r - 1
        return None

    def slice_len(self, n, base, key):
        lo, hi, step = key.args
        none = lambda x: x.op == "const" and x.args[1] is None
        if not none(step):
            if step.op == "un" or (step.op == "const" and step.args[1] == -1):
                if none(lo) and none(hi):
                    return self.length(base)
            return Lin(0, {n: 1})
        total = self.length(base)
        L = Lin(0) if none(lo) else self.lin(lo)
        H = total if none(hi) else self.lin(hi)
        if L.is_const() and L.c < 0:
            return Lin(0, {n: 1})
        if H.is_const() and H.c < 0:
            H = total + H.c
        elif not none(hi):
            # the upper end has to be provably inside the sequence
            d = total - H
            if not (d.is_const() and d.c >= 0) and not self._le(hi, total):
                u = self.upper(H - total)
                if u is None or u > 0:
                    return Lin(0, {n: 1})
        return H - L

    def _le(self, hi, total):
        hi = self.r(hi)
        if hi.op == "call" and hi.args[0] == "min":
            for a in self._minargs(hi):
                try:
                    d = total - self.lin(a)
                except Fork:
                    raise
                if d.is_const() and d.c >= 0:
                    return True
        return False

    def _minargs(self, n):
        a = n.args[1]
        if len(a) == 1 and a[0].op in ("tuple", "list"):
            return a[0].args[0]
        return a

    def seqlike(self, n):
        n = self.f.resolve(n)
        return n.op in ("list", "tuple", "comp") or (n.op == "mcall" and n.args[1] in ("encode", "tobytes", "tostring", "tolist")) or (n.op == "call" and n.args[0] in ("struct.pack", "list", "bytes", "tuple")) or (n.op == "const" and isinstance(n.args[1], (str, bytes)))

    def strlike(self, n):
        n = self.f.resolve(n)
        return (n.op == "const" and isinstance(n.args[1], (str, bytes))) or (n.op == "bin" and (self.strlike(n.args[1]) or self.strlike(n.args[2]))) or (n.op == "mcall" and n.args[1] == "encode")

    def scalar(self, n):
        n = self.f.resolve(n)
        if n.op == "const":
            return True
        if n.op == "param" and n.args[0] in ("multiplier",):
            return True
        if n.op == "bin":
            return self.scalar(n.args[1]) and self.scalar(n.args[2])
        if n.op == "attr" and n.args[1] in ("unit", "precision", "magnification", "rotation", "scale", "_res"):
            return True
        if n.op == "param":
            return True
        return False

    # -- integer expressions ----------------------------------------------
    def lin(self, n):
        n = self.r(n)
        if n.op == "const" and isinstance(n.args[1], int):
            return Lin(int(n.args[1]))
        if n.op == "call" and n.args[0] == "len" and n.args[1]:
            return self.length(n.args[1][0])
        if n.op == "sub" and n.args[1].op == "const" and n.args[1].args[1] == 0 and n.args[0].op == "attr" and n.args[0].args[1] == "shape":
            return self.length(n.args[0].args[0])
        if n.op == "bin":
            op, a, b = n.args
            if op in ("+", "-"):
                x, y = self.lin(a), self.lin(b)
                return x + y if op == "+" else x - y
            if op == "*":
                x, y = self.lin(a), self.lin(b)
                if x.is_const():
                    return y * x.c
                if y.is_const():
                    return x * y.c
            if op == "<<" and b.op == "const" and isinstance(b.args[1], int) and 0 <= b.args[1] < 32:
                return self.lin(a) * (1 << b.args[1])
        if n.op == "un" and n.args[0] == "-":
            return self.lin(n.args[1]) * -1
        if n.op == "call" and n.args[0] == "int" and len(n.args[1]) == 1:
            return self.lin(n.args[1][0])
        if n.op == "attr" and n.args[1] == "nbytes" and self.bytes_of is not None:
            t = self.bytes_of(n.args[0], True)
            if t is not None:
                return t
        return Lin(0, {n: 1})

    # -- parity ------------------------------------------------------------
    def parity(self, L):
        """0, 1 or None (not determined by the facts)"""
        vec = self._gf2(L)
        if vec is None:
            return None
        s, b = vec
        if not s:
            return b
        facts = []
        for k, v in self.f.d.items():
            q = parity_fact(k, v)
            if q is not None:
                try:
                    g = self._gf2(self.lin(q[0]))
                except Fork:
                    g = None
                if g is not None:
                    facts.append((g[0], g[1] ^ q[1]))   # sum(g0) ^ const == 0
        facts = facts[:8]
        for m in range(1, 1 << len(facts)):
            t, c = set(s), b
            for i, (fs, fb) in enumerate(facts):
                if m >> i & 1:
                    t ^= fs
                    c ^= fb
            if not t:
                return c
        return None

    def _gf2(self, L):
        if not isinstance(L.c, int):
            return None
        s = set()
        b = L.c & 1
        for a, k in L.t.items():
            if not isinstance(k, int):
                return None
            if k % 2 == 0:
                continue
            if isinstance(a, Node):
                m = mod2_arg(a)
                if m is not None:
                    g = self._gf2(self.lin(m))
                    if g is None:
                        return None
                    s ^= g[0]
                    b ^= g[1]
                    continue
            s ^= {a}
        return s, b

    # -- upper bound -------------------------------------------------------
    def upper(self, L, depth=0):
        """a provable upper bound of L given the facts, or None"""
        best = None
        if L.is_const():
            return L.c
        if depth > 4:
            return None
        # single atom bounded by a comparison fact
        cands = []
        for k, v in self.f.d.items():
            if k.op != "cmp" or k.args[0] not in ("<", "<=", ">", ">=", "=="):
                continue
            op, a, b = k.args
            try:
                d = self.lin(a) - self.lin(b)
            except Fork:
                continue
            # normalise to  E <= 0
            if op == ">":
                e = d if not v else (-d) + 1
            elif op == ">=":
                e = d + 1 if not v else -d
            elif op == "<":
                e = (-d) if not v else d + 1
            elif op == "<=":
                e = (-d) + 1 if not v else d
            else:
                if v:
                    cands.append(d)
                    cands.append(-d)
                continue
            cands.append(e)
        for e in cands:
            # L = k*e + r with r constant, k>0  =>  L <= r
            for a, c in e.t.items():
                if a in L.t and L.t[a] * c > 0:
                    k = L.t[a] / c
                    r = L - e * k if k != int(k) else L - e * int(k)
                    if r.is_const():
                        best = r.c if best is None else min(best, r.c)
        for a, c in list(L.t.items()):
            if c > 0 and isinstance(a, Node):
                alts = []
                if a.op == "call" and a.args[0] == "min":
                    alts = [self.lin(x) for x in self._minargs(a)]
                elif a.op == "sub" and a.args[1].op == "slice":
                    lo, hi, step = a.args[1].args
                    if not (hi.op == "const" and hi.args[1] is None):
                        lo_l = Lin(0) if (lo.op == "const" and lo.args[1] is None) else self.lin(lo)
                        hi_l = self.lin(hi)
                        if not (hi_l.is_const() and hi_l.c < 0):
                            alts = [hi_l - lo_l]
                for alt in alts:
                    u = self.upper(L - Lin(0, {a: c}) + alt * c, depth + 1)
                    if u is not None:
                        best = u if best is None else min(best, u)
        return best


FMT = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8}


def parse_format(fmt):
    """[(char, width)], big_endian  or None when it is not a plain format"""
    big = fmt[:1] in (">", "!")
    i = 0
    if fmt[:1] in "@=<>!":
        i = 1
    out = []
    num = ""
    while i < len(fmt):
        ch = fmt[i]
        i += 1
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        if ch == "s":
            out.append(("s", int(num or 1)))
            num = ""
            continue
        if ch not in FMT:
            return None
        out.extend([(ch, FMT[ch])] * (int(num) if num else 1))
        num = ""
    return out, big
