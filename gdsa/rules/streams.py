"""Rules over the low-level record decoders, the 8-byte real codec and the
tools that work on raw GDSII streams.  Record headers are constants of the
dataflow pass; the floating-point codec is analysed in a bit-slice domain."""
import struct
from fractions import Fraction

from ..interp import Interp, Node, show, walk_tree, subnodes
from ..model import AnalysisBroken
from ..flow import strip, value_nodes, NoFacts
from ..lin import Facts, Fork
from ..poly import Poly, Polyer
from .readers import split, children

T_LIBNAME, T_UNITS, T_BGNLIB, T_BGNSTR, T_STRNAME, T_ENDSTR, T_XY = 2, 3, 1, 5, 6, 7, 16


class Decode(object):
    """one iteration of a record loop, with a known 4-byte header"""

    def __init__(self, prog, func, T, D, size, more=None, inline=None, args=None):
        self.prog = prog
        self.func = func
        self.header = struct.pack(">HH", size, T * 256 + D)
        self.T, self.D, self.size = T, D, size
        self.more = more
        self.it = it = Interp(prog, inline=inline)
        it.assume = self.assume
        it.rewrite = self.rewrite
        self.short = False
        self.res = it.run(func, args={k: it.const(v) for k, v in (args or {}).items()})
        self.effects = self.res.effects

    def is_header(self, n):
        """the first read of four bytes (or the slice [pos:pos+4] of the file contents)"""
        n = strip(n)
        if n.op == "mcall" and n.args[1] == "read" and n.args[2] and n.args[2][0].op == "const" and n.args[2][0].args[1] == 4:
            hs = [x for x in self.it.table.values() if x.op == "mcall" and x.args[1] == "read"]
            return min(hs, key=lambda x: x.uid) is n
        if n.op == "sub" and n.args[1].op == "slice":
            lo, hi, st = n.args[1].args
            b = strip(n.args[0])
            if b.op == "mcall" and b.args[1] == "read" and not b.args[2] and lo.op == "loopv":
                try:
                    d = Polyer(NoFacts(self.it)).of(hi) - Polyer(NoFacts(self.it)).of(lo)
                except Exception:
                    return False
                return d == Poly.const(4)
        return False

    def fold(self, n):
        """constant bytes/ints derived from the header"""
        n = strip(n)
        if n.op == "const":
            return n.args[1]
        if self.is_header(n):
            return self.header
        if n.op == "sub":
            a = self.fold(n.args[0])
            if a is None:
                return None
            k = n.args[1]
            try:
                if k.op == "slice":
                    return a[slice(*[x.args[1] for x in k.args])]
                if k.op == "const":
                    return a[k.args[1]]
            except Exception:
                return None
        if n.op == "call" and n.args[0] in ("struct.unpack", "struct.unpack_from") and len(n.args[1]) >= 2:
            f, d = self.fold(n.args[1][0]), self.fold(n.args[1][1])
            if isinstance(f, (str, bytes)) and isinstance(d, bytes):
                try:
                    return struct.unpack(f, d)
                except Exception:
                    return None
        if n.op == "call" and n.args[0] == "len":
            a = self.fold(n.args[1][0])
            return len(a) if isinstance(a, (bytes, tuple)) else None
        return None

    def rewrite(self, n):
        if n.args[1].op != "const":
            return None
        if strip(n.args[0]).op not in ("call", "mcall", "sub"):
            return None
        v = self.fold(n)
        return self.it.const(v) if isinstance(v, int) else None

    def assume(self, c, st):
        if c.op == "cmp" and c.args[1].op == "call" and c.args[1].args[0] == "len" and c.args[2].op == "const":
            x = c.args[1].args[1][0]
            if self.is_header(x):
                n = 2 if self.short == "part" else 0 if self.short else 4
                k = c.args[2].args[1]
                return {"<": n < k, "<=": n <= k, ">": n > k, ">=": n >= k, "==": n == k}.get(c.args[0])
        if self.is_header(c):
            return not self.short
        if self.more is not None:
            return self.more(c, self)
        return None

    def reads(self):
        """(bytes consumed after the header by one record, [read effects]) or None"""
        total = 0
        out = []
        main = None
        for e in self.effects:
            if e.kind == "mcall" and e.name in ("read", "seek"):
                if e.name == "read" and self.is_header(e.result):
                    main = e.loops
                    continue
                if e.name == "seek":
                    whence = e.args[1].args[1] if len(e.args) > 1 and e.args[1].op == "const" else None
                    if whence != 1:
                        return None
                a = e.args[0] if e.args else None
                if a is None or a.op != "const" or not isinstance(a.args[1], int):
                    return None
                k = a.args[1]
                for l in e.loops[len(main or ()):]:
                    r = l[1]
                    if isinstance(r, Node) and strip(r).op == "call" and strip(r).args[0] == "range" and len(strip(r).args[1]) == 1 and strip(r).args[1][0].op == "const":
                        k *= max(0, strip(r).args[1][0].args[1])
                    else:
                        return None
                total += k
                out.append(e)
        return total, out


def guarded_out(d, e):
    """conditions of an effect that the constants refute"""
    f = Facts(d.it)
    for c, p in e.guards:
        r = f.decide(c)
        if r is not None and r != p:
            return True
    return False


INT = {1: ("H", "uint16"), 2: ("h", "int16"), 3: ("li", "int32")}
DT = {"H": "u2", "h": "i2", "l": "i4", "i": "i4", "L": "u4", "I": "u4"}


def record_reader(ctx):
    ctx.rule("for every data type the record reader consumes exactly the bytes the header announces and decodes them with the matching big-endian format; the record type is the high byte of the second header word; strings lose at most their padding byte; the end of the stream ends the iteration")
    prog = ctx.prog
    f = prog.need_function("gdspy.gdsiiformat", "_record_reader")
    noin = lambda g, i: False if g.name == "_eight_byte_real_to_float" else None
    cases = []
    for D, step, n in ((1, 2, (1, 2, 12)), (2, 2, (1, 2, 12)), (3, 4, (1, 2, 400, 16379)), (5, 8, (1, 2, 3)), (6, 2, (1, 2, 22, 32764))):
        for k in n:
            cases.append((D, 4 + step * k, k))
    cases += [(0, 4, 0)]
    for D, size, k in cases:
        for T in (2, 0x10) if size < 60 else (0x10,):
            d = Decode(prog, f, T, D, size, inline=noin)
            ctx.saw(d.it.functions_seen)
            ys = [e for e in d.effects if e.kind == "yield" and not guarded_out(d, e)]
            what = "data type %d, %d bytes" % (D, size)
            loc = f.where
            if len(ys) != 1:
                if not ys and size > 4:
                    ctx.violation("decode", "yield:%d" % D, loc, "no record is produced for %s" % what)
                elif ys:
                    ctx.unknown("decode", loc, "%d records for %s" % (len(ys), what))
                continue
            r = d.reads()
            if r is None:
                ctx.unknown("decode", loc, "reads for %s" % what)
            elif r[0] != size - 4:
                ctx.violation("decode", "bytes:%d" % D, r[1][0].where if r[1] else loc, "a record announcing %d bytes (data type %d) consumes %d" % (size, D, r[0] + 4))
            else:
                ctx.ok("bytes consumed", what)
            v = strip(ys[0].value)
            if v.op not in ("tuple", "list") or len(v.args[0]) != 2:
                ctx.unknown("decode", ys[0].where, "record shape %s" % show(v, 3))
                continue
            t, data = v.args[0]
            if t.op == "const":
                if t.args[1] != T:
                    ctx.violation("decode", "type", ys[0].where, "record type 0x%02X is reported as %r" % (T, t.args[1]))
                else:
                    ctx.ok("record type")
            else:
                ctx.unknown("decode", ys[0].where, "record type %s" % show(t, 3))
            if size == 4:
                if D == 6:
                    continue
                continue
            value(ctx, d, D, k, data, ys[0].where)
    # empty strings are strings
    d = Decode(prog, f, 0x19, 6, 4, inline=noin)
    for e in d.effects:
        if e.kind == "yield":
            v = strip(e.value)
            if v.op in ("tuple", "list") and len(v.args[0]) == 2:
                x = v.args[0][1]
                if x.op == "const" and x.args[1] == "":
                    ctx.ok("empty string")
                elif x.op == "const":
                    ctx.violation("decode", "empty", e.where, "an empty string is read as %r" % (x.args[1],))
                else:
                    ctx.unknown("decode", e.where, show(x, 3))
    d = Decode.__new__(Decode)
    end_of_stream(ctx, prog, f)


class Short(Decode):
    def __init__(self, prog, func, part):
        self._part = part
        Decode.__init__(self, prog, func, 0, 0, 4)

    @property
    def short(self):
        return "part" if self._part else True

    @short.setter
    def short(self, v):
        pass


def end_of_stream(ctx, prog, f):
    for part in (False, True):
        d = Short(prog, f, part)
        ys = [e for e in d.effects if e.kind == "yield" and not guarded_out(d, e)]
        if ys:
            ctx.violation("decode", "end", ys[0].where, "a record is produced although the stream ended")
        elif any(e.kind == "return" for e in d.effects) or not [t for t in d.res.tree if t[0] == "loop" and t[6] is True and not has_break(t[3])]:
            ctx.ok("end of stream")
        else:
            ctx.violation("decode", "end", f.where, "the iteration does not end at the end of the stream")


def has_break(tree):
    for t in tree:
        if t[0] == "break" or t[0] == "return":
            return True
        if t[0] == "eff" and t[1].kind in ("return", "break"):
            return True
        for c in children(t):
            if has_break(c):
                return True
    return False


def value(ctx, d, D, k, data, where):
    n = strip(data)
    what = "data type %d" % D
    if D in (1, 2, 3, 5):
        alts = [strip(x) for _, x in split(d, data)]
        if alts and all(x.op == "mcall" and x.args[1] in ("decode", "read") or x.op == "sub" and x.args[1].op == "slice" or x.op == "const" for x in alts):
            ctx.violation("decode", "format:%d" % D, where, "numbers (%s) are read as %s" % (what, show(alts[0], 3)))
            return
        while n.op == "call" and n.args[0] in ("numpy.array", "numpy.asarray", "list", "tuple") and n.args[1]:
            kw = dict(n.args[2])
            dt = kw.get("dtype")
            if dt is not None and D in (1, 2, 3):
                t = str(dt.args[1]) if dt.op == "const" else str(dt.args[0]) if dt.op == "ext" else None
                if t is None:
                    ctx.unknown("decode", where, "dtype %s" % show(dt, 2))
                elif t.replace("numpy.", "") in ("uint8", "int8", "bool") or (D != 1 and t.replace("numpy.", "").startswith("u")) or (D == 3 and t.replace("numpy.", "") in ("int16", "uint16", "float16", "float32")):
                    ctx.violation("decode", "dtype:%d" % D, where, "%s values are converted to %s" % (what, t))
                else:
                    ctx.ok("value type")
            n = strip(n.args[1][0])
    if D in INT:
        letters = INT[D][0]
        if n.op == "call" and n.args[0] == "struct.unpack" and len(n.args[1]) == 2 and n.args[1][0].op == "const":
            fmt = n.args[1][0].args[1]
            src = strip(n.args[1][1])
            try:
                cnt = struct.calcsize(fmt)
            except Exception:
                ctx.violation("decode", "format:%d" % D, where, "format %r of %s is invalid" % (fmt, what))
                return
            body = fmt.strip("<>=!@ 0123456789")
            if not set(body) <= set(letters) or fmt[0] not in ">!":
                ctx.violation("decode", "format:%d" % D, where, "%s is decoded with format %r" % (what, fmt))
            elif src.op == "mcall" and src.args[1] == "read" and src.args[2] and src.args[2][0].op == "const":
                if cnt != src.args[2][0].args[1]:
                    ctx.violation("decode", "format:%d" % D, where, "format %r needs %d bytes, %d are read" % (fmt, cnt, src.args[2][0].args[1]))
                else:
                    ctx.ok("format", "%s: %s" % (what, fmt))
            else:
                ctx.unknown("decode", where, "source of %s: %s" % (what, show(src, 3)))
        elif n.op == "mcall" and n.args[1] == "astype" or n.op == "call" and n.args[0] == "numpy.frombuffer":
            b = strip(n.args[0]) if n.op == "mcall" else n
            dt = dict(b.args[2]).get("dtype") if b.op == "call" and b.args[0] == "numpy.frombuffer" else None
            if dt is None and b.op == "call" and len(b.args[1]) > 1:
                dt = b.args[1][1]
            if dt is not None and dt.op == "const":
                if str(dt.args[1]).lstrip("!").lstrip(">") == DT[letters[0]] and str(dt.args[1])[0] in ">!":
                    ctx.ok("format", "%s: %s" % (what, dt.args[1]))
                else:
                    ctx.violation("decode", "format:%d" % D, where, "%s is decoded as %s" % (what, dt.args[1]))
            else:
                ctx.unknown("decode", where, show(n, 3))
        else:
            ctx.unknown("decode", where, "%s: %s" % (what, show(n, 4)))
    elif D == 5:
        if n.op == "comp":
            e = strip(n.args[1])
            if e.op in ("icall",) and e.args[0].name == "_eight_byte_real_to_float" and e.args[1]:
                a = strip(e.args[1][0])
                if a.op == "mcall" and a.args[1] == "read":
                    if a.args[2] and a.args[2][0].op == "const" and a.args[2][0].args[1] == 8:
                        ctx.ok("format", "%s: 8-byte reals" % what)
                    elif a.args[2] and a.args[2][0].op == "const":
                        ctx.violation("decode", "format:5", where, "8-byte reals are decoded from %r bytes" % a.args[2][0].args[1])
                    return
        ctx.unknown("decode", where, "%s: %s" % (what, show(n, 4)))
    elif D == 6:
        string(ctx, d, data, where, 0, "strings")


def padding_test(d, c):
    """is c the test for a trailing NUL byte?  True/False polarity, None unknown"""
    if c.op == "cmp" and c.args[0] == "==" and c.args[2].op == "const" and c.args[2].args[1] in (0, b"\0", "\0"):
        a = strip(c.args[1])
        if a.op == "sub":
            k = a.args[1]
            if k.op == "const" and k.args[1] == -1:
                return True
            if k.op == "slice" and k.args[0].op == "const" and k.args[0].args[1] == -1:
                return True
    if c.op == "mcall" and c.args[1] == "endswith" and c.args[2] and c.args[2][0].op == "const" and c.args[2][0].args[1] in (b"\0", "\0"):
        return True
    return None


def string(ctx, d, data, where, skip, what):
    """a decoded string: the bytes after `skip`, without a trailing NUL"""
    for pad in (False, True):
        f = Facts(d.it)
        bad = False
        for n in list(d.it.table.values()):
            if padding_test(d, n):
                nf = f.add(n, pad)
                if nf is not None:
                    f = nf
        for ff, x in split(d, data, f):
            lo, cut, ok = string_slice(d, x, ff)
            if not ok:
                ctx.unknown("decode", where, "%s: %s" % (what, show(x, 4)))
            elif lo != skip:
                ctx.violation("decode", "string:start", where, "%s start at byte %d instead of %d" % (what, lo, skip))
            elif cut == "rstrip" or cut == (1 if pad else 0):
                ctx.ok("string", "%s, %s" % (what, "padded" if pad else "not padded"))
            elif cut == "strip":
                ctx.violation("decode", "string:end", where, "%s lose more than their padding" % what)
            else:
                ctx.violation("decode", "string:end", where, "%s %s padding lose %d trailing bytes" % (what, "with" if pad else "without", cut))


def string_slice(d, n, f):
    n = strip(f.resolve(n))
    if n.op == "mcall" and n.args[1] == "decode":
        return string_slice(d, n.args[0], f)
    if n.op == "mcall" and n.args[1] in ("rstrip", "strip", "lstrip"):
        lo, cut, ok = string_slice(d, n.args[0], f)
        a = n.args[2][0] if n.args[2] else None
        if n.args[1] == "rstrip" and a is not None and a.op == "const" and a.args[1] in (b"\0", "\0") and cut == 0:
            return lo, "rstrip", ok
        return lo, "strip", ok
    if n.op == "call" and n.args[0] == "str" and n.args[1]:
        return string_slice(d, n.args[1][0], f)
    if n.op == "sub" and n.args[1].op == "slice":
        lo, hi, st = [x.args[1] if x.op == "const" else "?" for x in n.args[1].args]
        a, b, ok = string_slice(d, n.args[0], f)
        if not ok or "?" in (lo, hi, st) or st is not None or not isinstance(b, int):
            return 0, 0, False
        lo = lo or 0
        if lo < 0 or hi is not None and hi >= 0:
            return 0, 0, False
        return a + lo, b + (-(hi or 0)), True
    if n.op == "mcall" and n.args[1] == "read":
        return 0, 0, True
    if n.op == "sub" and n.args[1].op == "const" and n.args[1].args[1] == 1 and strip(n.args[0]).op == "elem":
        return 0, 0, True
    if n.op == "const" and isinstance(n.args[1], str):
        return 0, 0, False
    return 0, 0, False


# ---------------------------------------------------------------------------
# 8-byte reals in a bit-slice domain: a value is  sum(weight * bit) + const
class Bits(object):
    __slots__ = ("w", "c")

    def __init__(self, w=None, c=0):
        self.w = {k: v for k, v in (w or {}).items() if v}
        self.c = Fraction(c)

    def add(self, o, s=1):
        w = dict(self.w)
        for k, v in o.w.items():
            w[k] = w.get(k, 0) + s * v
        return Bits(w, self.c + s * o.c)

    def scale(self, k):
        return Bits({b: v * k for b, v in self.w.items()}, self.c * k)

    def field(self):
        """distinct power-of-two weights and no constant"""
        vs = list(self.w.values())
        return self.c == 0 and len(set(vs)) == len(vs) and all(v.denominator == 1 and v > 0 and v & (v - 1) == 0 for v in map(lambda x: x if isinstance(x, int) else (x.numerator if x.denominator == 1 else Fraction(1, 3)), vs))

    def iw(self):
        return {b: int(v) for b, v in self.w.items()}

    def __eq__(self, o):
        return isinstance(o, Bits) and self.w == o.w and self.c == o.c

    def __repr__(self):
        return " + ".join(["%s*%s" % (v, k) for k, v in sorted(self.w.items(), key=str)] + [str(self.c)])


class BitEval(object):
    def __init__(self, atom):
        self.atom = atom

    def of(self, n, d=0):
        n = strip(n)
        if d > 60:
            return None
        a = self.atom(n)
        if a is not None:
            return a
        if n.op == "const" and isinstance(n.args[1], (int, float)):
            return Bits(None, Fraction(n.args[1]))
        if n.op == "call" and n.args[0] in ("int", "float") and len(n.args[1]) == 1:
            return self.of(n.args[1][0], d + 1)
        if n.op == "un" and n.args[0] == "-":
            x = self.of(n.args[1], d + 1)
            return None if x is None else x.scale(-1)
        if n.op != "bin":
            return None
        op = n.args[0]
        x, y = self.of(n.args[1], d + 1), self.of(n.args[2], d + 1)
        if x is None or y is None:
            return None
        if op == "+":
            return x.add(y)
        if op == "-":
            return x.add(y, -1)
        if op == "*":
            if not y.w:
                return x.scale(y.c)
            if not x.w:
                return y.scale(x.c)
            return None
        if op == "/":
            return x.scale(1 / y.c) if not y.w and y.c else None
        if op == "**":
            if not x.w and not y.w and y.c.denominator == 1 and abs(y.c) < 200:
                return Bits(None, x.c ** int(y.c))
            return None
        if op == "|":
            if x.field() and y.field() and not (set(x.iw().values()) & set(y.iw().values())):
                return x.add(y)
            if not x.w and not y.w:
                return Bits(None, int(x.c) | int(y.c))
            return None
        if y.w:
            if op == "&" and not x.w:
                x, y = y, x
            else:
                return None
        if y.c.denominator != 1:
            return None
        k = int(y.c)
        if op in ("<<", ">>"):
            k = 2 ** k
            op = "*" if op == "<<" else "//"
            if op == "*":
                return x.scale(k)
        if not x.field():
            # a constant part that the divisor divides splits off
            if x.c and x.c.denominator == 1 and op in ("//", "%") and k > 0 and int(x.c) % k == 0 and Bits(x.w, 0).field():
                r = Bits(x.w, 0)
                if op == "%":
                    return Bits({b: v for b, v in r.w.items() if v < k})
                return Bits({b: Fraction(v, k) for b, v in r.w.items() if v >= k}, x.c / k)
            return None
        if op == "&":
            return Bits({b: v for b, v in x.w.items() if int(v) & k})
        if k <= 0 or k & (k - 1):
            return None
        if op == "//":
            return Bits({b: Fraction(v) / k for b, v in x.w.items() if v >= k})
        if op == "%":
            return Bits({b: v for b, v in x.w.items() if v < k})
        return None


SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "L": 4, "l": 4, "I": 4, "i": 4, "Q": 8, "q": 8}


def fields(fmt):
    """[(bytes, signed)] of a big-endian struct format, or None"""
    if not fmt or fmt[0] not in ">!":
        return None
    out = []
    num = ""
    for ch in fmt[1:]:
        if ch.isdigit():
            num += ch
        elif ch in SIZES:
            out += [(SIZES[ch], ch.islower())] * int(num or 1)
            num = ""
        elif ch == " ":
            continue
        else:
            return None
    return out


def real_codec(ctx):
    ctx.rule("the decoder of 8-byte reals computes (-1)^sign * mantissa/2^56 * 16^(exponent-64) from the sign, exponent and mantissa bits, and the encoder writes exactly these fields of int(|value| * 16^(14-exponent)), the exponent being raised for exact powers of 16")
    decode_real(ctx)
    encode_real(ctx)


def decode_real(ctx):
    f = ctx.prog.need_function("gdspy.gdsiiformat", "_eight_byte_real_to_float")
    it = Interp(ctx.prog)
    res = it.run(f)
    ctx.saw(it.functions_seen)

    def atom(n):
        if n.op == "sub" and n.args[1].op == "const" and strip(n.args[0]).op == "call" and strip(n.args[0]).args[0] == "struct.unpack":
            u = strip(n.args[0])
            if u.args[1][0].op == "const" and strip(u.args[1][1]).op == "param":
                fs = fields(u.args[1][0].args[1])
                if fs is None:
                    return None
                i = n.args[1].args[1]
                if i < 0:
                    i += len(fs)
                if i >= len(fs) or sum(s for s, _ in fs) != 8:
                    return None
                lo = 8 * sum(s for s, _ in fs[i + 1:])
                nb = 8 * fs[i][0]
                w = {lo + j: Fraction(2 ** j) for j in range(nb)}
                if fs[i][1]:
                    w[lo + nb - 1] = -w[lo + nb - 1]
                return Bits(w)
        return None
    ev = BitEval(atom)
    man = Bits({j: Fraction(2) ** (j - 56) for j in range(56)})
    exp = Bits({56 + j: Fraction(2 ** j) for j in range(7)}, -64)
    for neg in (False, True):
        facts = Facts(it)
        decided = True
        for c in [n for n in list(it.table.values())]:
            b = None
            if c.op in ("bin", "cmp"):
                x = c if c.op == "bin" else c.args[1]
                b = ev.of(x) if c.op == "bin" and c.args[0] in ("&", ">>", "//") or c.op == "cmp" else None
            if b is None or set(b.w) != {63}:
                continue
            if c.op == "bin":
                nf = facts.add(c, neg)
            else:
                o = c.args[0]
                r = ev.of(c.args[2])
                if r is None or r.w:
                    continue
                val = (b.w[63] if neg else 0) + b.c
                t = {"==": val == r.c, "<": val < r.c, "<=": val <= r.c, ">": val > r.c, ">=": val >= r.c, "!=": val != r.c}.get(o)
                if t is None:
                    continue
                nf = facts.add(c, t)
            if nf is not None:
                facts = nf
        for ff, x in split(type("o", (), {"it": it})(), res.value, facts):
            sgn, m, e = product(ev, it, x, ff)
            if m is None or e is None:
                ctx.unknown("real-decode", f.where, show(x, 5))
                continue
            want = -1 if neg else 1
            if m == man.scale(want * sgn) and e == exp:
                ctx.ok("decoded real", "sign bit %d: %s * sum(bits 0..55)/2^56 * 16^(bits 56..62 - 64)" % (neg, want))
            elif m == man.scale(-want * sgn) and e == exp:
                ctx.violation("real-decode", "sign", f.where, "the sign bit %s changes the sign" % ("never" if neg else "cleared"))
            elif e != exp:
                ctx.violation("real-decode", "exponent", f.where, "the exponent of 16 is %r" % (e,))
            else:
                diff = [b for b in range(64) if m.w.get(b, 0) != man.scale(want * sgn).w.get(b, 0)]
                ctx.violation("real-decode", "mantissa", f.where, "bits %s of the mantissa have the wrong weight" % (diff[:6],))


def product(ev, it, n, f):
    """value = sign * mantissa * 16 ** exponent"""
    sgn, m, e = 1, None, None
    stack = [(n, False)]
    lin = []
    while stack:
        x, inv = stack.pop()
        x = strip(f.resolve(x))
        if x.op == "bin" and x.args[0] == "*" and not inv:
            if ev.of(x) is not None:
                lin.append(ev.of(x))
                continue
            stack += [(x.args[1], inv), (x.args[2], inv)]
        elif x.op == "bin" and x.args[0] == "/" and not inv and ev.of(x) is None:
            k = ev.of(x.args[2])
            if k is None or k.w or not k.c:
                return 1, None, None
            stack.append((x.args[1], inv))
            lin.append(Bits(None, 1 / k.c))
        elif x.op == "un" and x.args[0] == "-":
            sgn = -sgn
            stack.append((x.args[1], inv))
        elif x.op == "bin" and x.args[0] == "**" and ev.of(x) is None:
            base = ev.of(x.args[1])
            ex = ev.of(x.args[2])
            if base is None or base.w or ex is None or e is not None:
                return 1, None, None
            if base.c == 16:
                e = ex
            elif base.c == 2:
                e = ex.scale(Fraction(1, 4))
            else:
                e = Bits(None, 0) if base.c == 1 else ex.add(Bits(None, 10 ** 6))
        elif x.op == "call" and x.args[0] in ("math.ldexp", "numpy.ldexp"):
            stack.append((x.args[1][0], inv))
            ex = ev.of(x.args[1][1])
            if ex is None or e is not None:
                return 1, None, None
            e = ex.scale(Fraction(1, 4))
        else:
            b = ev.of(x)
            if b is None:
                return 1, None, None
            lin.append(b)
    for b in lin:
        if m is None:
            m = b
        elif not b.w:
            m = m.scale(b.c)
        elif not m.w:
            m = b.scale(m.c)
        else:
            return 1, None, None
    # constant powers of 16 inside the mantissa belong to it
    return sgn, m, e


def encode_real(ctx):
    f = ctx.prog.need_function("gdspy.gdsiiformat", "_eight_byte_real")
    it0 = Interp(ctx.prog)
    it0.run(f)
    ctx.saw(it0.functions_seen)
    p = f.params()[0]

    class O(object):
        pass
    for case in ("zero", "pos", "neg"):
        it = Interp(ctx.prog)

        def assume(c, st, case=case):
            if c.op == "cmp" and c.args[2].op == "const" and c.args[2].args[1] == 0 and strip(c.args[1]).op == "param":
                o = c.args[0]
                v = {"zero": 0, "pos": 1, "neg": -1}[case]
                return {"==": v == 0, "<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0, "!=": v != 0}.get(o)
            if c.op == "param" and c.args[0] == p:
                return case != "zero"
            return None
        it.assume = assume
        res = it.run(f)
        v = strip(res.value)
        o = O()
        o.it = it
        if case == "zero":
            vals = [x for _, x in split(o, v)]
            for x in vals:
                if x.op == "const" and x.args[1] == b"\0" * 8:
                    ctx.ok("zero encoding")
                elif x.op == "const" or x.op == "call" and x.args[0] == "struct.pack" and all(y.op == "const" for y in x.args[1]):
                    try:
                        b = x.args[1] if x.op == "const" else struct.pack(*[y.args[1] for y in x.args[1]])
                    except Exception:
                        b = None
                    if b == b"\0" * 8:
                        ctx.ok("zero encoding")
                    else:
                        ctx.violation("real-encode", "zero", f.where, "0 is encoded as %r" % (b,))
                elif any(y.op == "call" and str(y.args[0]).endswith(("log2", "log")) for y in subnodes(x, follow=False)):
                    ctx.violation("real-encode", "zero", f.where, "0 has no special encoding: its logarithm is taken")
                else:
                    ctx.unknown("real-encode", f.where, "0 -> %s" % show(x, 4))
            continue
        forks = split(o, v)
        work = list(forks)
        n = 0
        while work and n < 40:
            n += 1
            ff, x = work.pop()
            try:
                encode_case(ctx, f, it, ff, x, case)
            except Fork as ex:
                for b in (True, False):
                    nf = ff.add(ex.cond, b)
                    if nf is not None:
                        work.append((nf, x))


def encode_case(ctx, f, it, ff, x, case):
    x = strip(x)
    if not (x.op == "call" and x.args[0] == "struct.pack" and x.args[1] and x.args[1][0].op == "const"):
        if x.op == "const" and isinstance(x.args[1], bytes):
            ctx.unknown("real-encode", f.where, "%s values: %r" % (case, x.args[1]))
        else:
            ctx.unknown("real-encode", f.where, show(x, 4))
        return
    fs = fields(x.args[1][0].args[1])
    vals = x.args[1][1:]
    if fs is None or len(fs) != len(vals) or sum(s for s, _ in fs) != 8:
        ctx.violation("real-encode", "format", f.where, "format %r does not hold an 8-byte real" % (x.args[1][0].args[1],))
        return
    # the mantissa: int(|value| * 16 ** (14 - E))
    mant = {}
    expn = {}

    def scaled(n):
        """n == |value| * 16**(14-E): returns E node poly or None"""
        n = strip(ff.resolve(n))
        if n.op == "bin" and n.args[0] == "*":
            for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                a, b = strip(ff.resolve(a)), strip(ff.resolve(b))
                if magnitude(it, ff, a, case) and b.op == "bin" and b.args[0] == "**" and b.args[1].op == "const" and b.args[1].args[1] == 16:
                    return Poly.const(14) - Polyer(ff).of(b.args[2])
        return None

    pol = {}

    def atom(n):
        n = strip(ff.resolve(n))
        if n.op == "call" and n.args[0] in ("int", "numpy.floor", "math.floor") and len(n.args[1]) == 1:
            e = scaled(n.args[1][0])
            if e is not None:
                pol["E"] = e
                pol.setdefault("kind", n.args[0])
                return Bits({("m", j): Fraction(2 ** j) for j in range(56)})
        if n.op in ("call", "ite") or n.op == "bin" and n.args[0] in ("+", "-"):
            e = pol.get("E")
            if e is not None:
                dlt = Polyer(ff).of(n) - e
                if dlt.is_const():
                    return Bits({"E": Fraction(1)}, dlt.cval())
        return None
    # find the mantissa first
    for n in subnodes(x, follow=False):
        if n.op == "call" and n.args[0] in ("int", "numpy.floor", "math.floor"):
            atom(n)
    if "E" not in pol:
        ctx.unknown("real-encode", f.where, "mantissa not recognised (%s)" % case)
        return
    ev = BitEval(lambda n: atom(n))
    total = Bits()
    pos = 64
    for (nb, signed), v in zip(fs, vals):
        pos -= 8 * nb
        b = ev2(ev, ff, v)
        if b is None:
            ctx.unknown("real-encode", f.where, "field %s" % show(v, 5))
            return
        total = total.add(b.scale(Fraction(2) ** pos))
        lo = [bit for bit in b.w if isinstance(bit, tuple)]
        if any(b.w[bit] >= 2 ** (8 * nb) for bit in lo):
            ctx.violation("real-encode", "overflow", f.where, "a field of %d bytes receives mantissa bits beyond its size" % nb)
            return
    want = Bits({("m", j): Fraction(2 ** j) for j in range(56)})
    want = want.add(Bits({"E": Fraction(2 ** 56)}, 64 * 2 ** 56 + (2 ** 63 if case == "neg" else 0)))
    if total == want:
        ctx.ok("encoded real", "%s values: sign, exponent + 64 and all 56 mantissa bits in place" % case)
    else:
        bad = [k for k in want.w if want.w.get(k) != total.w.get(k)]
        if bad:
            ctx.violation("real-encode", "fields", f.where, "%s values: %s" % (case, "the exponent field is misplaced" if bad == ["E"] else "mantissa bits %s are misplaced" % sorted(b[1] for b in bad if isinstance(b, tuple))[:6]))
        else:
            ctx.violation("real-encode", "sign", f.where, "%s values: the first byte is off by %s" % (case, (total.c - want.c) / 2 ** 56))
    # the exponent
    E = pol["E"]
    exponent(ctx, f, it, ff, E, case)


def ev2(ev, ff, n):
    """BitEval under branch facts"""
    class V(BitEval):
        def of(self, n, d=0):
            n = strip(ff.resolve(n))
            return BitEval.of(self, n, d)
    return V(ev.atom).of(n)


def magnitude(it, ff, n, case):
    n = strip(ff.resolve(n))
    if n.op == "call" and n.args[0] in ("abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs"):
        return strip(n.args[1][0]).op == "param" or magnitude(it, ff, n.args[1][0], case)
    if n.op == "call" and n.args[0] == "float" and n.args[1]:
        return magnitude(it, ff, n.args[1][0], case)
    if n.op == "param":
        return case == "pos"
    if n.op == "un" and n.args[0] == "-":
        return strip(n.args[1]).op == "param" and case == "neg"
    return False


def exponent(ctx, f, it, ff, E, case):
    """E == ceil(log16 |v|), plus one when log16 |v| is an integer"""
    def log16(n):
        n = strip(ff.resolve(n))
        if n.op == "bin" and n.args[0] == "/" and n.args[2].op == "const" and n.args[2].args[1] == 4:
            a = strip(n.args[1])
            return a.op == "call" and a.args[0] in ("numpy.log2", "math.log2") and magnitude(it, ff, a.args[1][0], case)
        if n.op == "bin" and n.args[0] == "*" and any(x.op == "const" and x.args[1] == 0.25 for x in n.args[1:]):
            a = strip([x for x in n.args[1:] if x.op != "const"][0])
            return a.op == "call" and a.args[0] in ("numpy.log2", "math.log2") and magnitude(it, ff, a.args[1][0], case)
        if n.op == "call" and n.args[0] == "math.log" and len(n.args[1]) == 2 and n.args[1][1].op == "const" and n.args[1][1].args[1] == 16:
            return magnitude(it, ff, n.args[1][0], case)
        return False

    def rounded(n, names):
        n = strip(ff.resolve(n))
        if n.op == "call" and n.args[0] in ("int",) and n.args[1]:
            return rounded(n.args[1][0], names)
        return n.op == "call" and n.args[0] in names and log16(n.args[1][0])
    ceil, flo = ("numpy.ceil", "math.ceil"), ("numpy.floor", "math.floor")
    # E = base + k
    base, k = None, None
    for n in list(it.table.values()):
        if rounded(n, ceil) or rounded(n, flo):
            d = E - Polyer(ff).of(n)
            if d.is_const():
                base, k = n, d.cval()
                kind = "ceil" if rounded(n, ceil) else "floor"
                break
    if base is None:
        ctx.unknown("real-encode", f.where, "exponent %r" % (E,))
        return
    if kind == "floor":
        if k == 1:
            ctx.ok("exponent", "floor(log16) + 1")
        else:
            ctx.violation("real-encode", "exponent", f.where, "the exponent is floor(log16) + %s: %s" % (k, "the mantissa overflows 56 bits" if k < 1 else "mantissa bits are lost"))
        return
    # ceil needs the correction for exact powers
    eq = None
    for c, b in ff.d.items():
        if c.op == "cmp" and c.args[0] == "==":
            a1, a2 = c.args[1], c.args[2]
            if log16(a1) and rounded(a2, ceil) or log16(a2) and rounded(a1, ceil):
                eq = b
    if eq is None:
        if k == 0:
            ctx.violation("real-encode", "exponent", f.where, "exact powers of 16 overflow the mantissa (exponent is ceil(log16))")
        else:
            ctx.violation("real-encode", "exponent", f.where, "the exponent is ceil(log16) + %s for every value: mantissa bits are lost" % k)
    elif k == (1 if eq else 0):
        ctx.ok("exponent", "ceil(log16)%s" % (" + 1 for exact powers" if eq else ""))
    else:
        ctx.violation("real-encode", "exponent", f.where, "the exponent is ceil(log16) + %s when log16 is %san integer" % (k, "" if eq else "not "))


# ---------------------------------------------------------------------------
def tools(ctx):
    ctx.rule("raw record reader, cell extraction, hashing and timestamp rewriting advance by the announced record length; raw cells contain every record of a structure once and in order; the hash covers each structure after its BGNSTR record, independently of order; only BGNLIB and BGNSTR payloads are rewritten")
    raw_reader(ctx)
    binary_cells(ctx)
    hashing(ctx)
    timestamp(ctx)


def raw_reader(ctx):
    prog = ctx.prog
    f = prog.need_function("gdspy.gdsiiformat", "_raw_record_reader")
    for T, D, size in ((5, 2, 28), (6, 6, 10), (7, 0, 4), (0x10, 3, 44), (0x10, 3, 65532), (3, 5, 20)):
        d = Decode(prog, f, T, D, size)
        ctx.saw(d.it.functions_seen)
        ys = [e for e in d.effects if e.kind == "yield" and not guarded_out(d, e)]
        if len(ys) != 1:
            ctx.unknown("raw", f.where, "%d records" % len(ys))
            continue
        r = d.reads()
        if r is None:
            ctx.unknown("raw", f.where, "reads")
        elif r[0] != size - 4:
            ctx.violation("raw", "bytes", f.where, "a record of %d bytes consumes %d" % (size, r[0] + 4))
        else:
            ctx.ok("raw bytes consumed")
        v = strip(ys[0].value)
        if v.op not in ("tuple", "list") or len(v.args[0]) != 2:
            ctx.unknown("raw", ys[0].where, show(v, 3))
            continue
        t, x = v.args[0]
        if t.op == "const" and t.args[1] != T:
            ctx.violation("raw", "type", ys[0].where, "record type %d is reported as %r" % (T, t.args[1]))
        elif t.op == "const":
            ctx.ok("raw type")
        else:
            ctx.unknown("raw", ys[0].where, show(t, 3))
        x = strip(x)
        if x.op == "bin" and x.args[0] == "+":
            a, b = strip(x.args[1]), strip(x.args[2])
            if d.is_header(a) and b.op == "mcall" and b.args[1] == "read":
                ctx.ok("raw record complete")
            elif d.is_header(b):
                ctx.violation("raw", "data", ys[0].where, "raw records end with their header")
            else:
                ctx.unknown("raw", ys[0].where, show(x, 3))
        elif x.op == "mcall" and x.args[1] == "read":
            ctx.violation("raw", "data", ys[0].where, "raw records lack %s" % ("their payload" if d.is_header(x) else "their header"))
        else:
            ctx.unknown("raw", ys[0].where, show(x, 3))
    end_of_stream(ctx, prog, f)


class RawLoop(object):
    """one iteration over the raw record reader with a known record type"""

    def __init__(self, prog, func, T, active):
        self.it = it = Interp(prog)
        self.T = T
        self.active = active
        it.assume = self.assume
        it.rewrite = self.rewrite
        self.res = it.run(func)
        self.loop = None
        walk = list(self.res.tree)
        while walk:
            t = walk.pop(0)
            if t[0] == "loop" and isinstance(t[2], Node) and any(x.op in ("gencall", "icall") for x in subnodes(t[2], follow=False)):
                self.loop = t
                break
            for c in children(t):
                walk += c
        if self.loop is None:
            raise AnalysisBroken("%s: record loop not found" % func.qualname)
        self.effects = []
        walk_tree(self.loop[3], self.effects.append)
        self.vars = {}
        for n in self.it.table.values():
            if n.op == "loopv" and n.args[0] == self.loop[1] and n.info is not None:
                self.vars[n.args[1]] = n

    def is_record(self, n):
        n = strip(n)
        return n.op == "elem" and strip(n.args[0]).op in ("gencall", "icall") and strip(n.args[0]).args[0].name == "_raw_record_reader"

    def rewrite(self, n):
        if n.args[1].op == "const" and n.args[1].args[1] in (0, -2) and self.is_record(n.args[0]):
            return self.it.const(self.T)
        return None

    def assume(self, c, st):
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            a = strip(c.args[1])
            if a.op == "loopv":
                return not self.active
        if c.op == "loopv" and isinstance(c.args[1], str):
            return self.active
        return None

    def data(self, n):
        n = strip(n)
        return n.op == "sub" and n.args[1].op == "const" and n.args[1].args[1] in (1, -1) and self.is_record(n.args[0])


def binary_cells(ctx):
    prog = ctx.prog
    f = prog.need_function("gdspy.library", "get_binary_cells")
    loc = f.where
    # the accumulating list: started at BGNSTR
    R = RawLoop(prog, f, T_BGNSTR, False)
    ctx.saw(R.it.functions_seen)
    acc = None
    for k, v in R.vars.items():
        nx = v.info.get("next")
        if not isinstance(k, str) or nx is None:
            continue
        for ff, x in split(R, nx):
            s = strip(x)
            if s.op == "list":
                items = s.args[0]
                extra = x.args[1] if x.op == "ver" else None
                if len(items) == 1 and R.data(items[0]) and extra is None or not items and appended(R, extra) == 1:
                    acc = k
                    ctx.ok("structure started", "BGNSTR starts a new list")
                elif not items and extra is None:
                    ctx.violation("cells-raw", "BGNSTR", loc, "the BGNSTR record is not part of the raw structure")
                    acc = k
            elif R.data(s) and not (R.loop[4] == "for" and v.info.get("init") is None) and acc is None:
                acc = k
                ctx.ok("structure started")
    if acc is None:
        nm = [k for k in R.vars if isinstance(k, tuple) and k[1] == "$c"]
        ctx.unknown("cells-raw", loc, "accumulator not found")
        return
    byteacc = False
    for T, what in ((T_STRNAME, "STRNAME"), (T_ENDSTR, "ENDSTR"), (0x08, "BOUNDARY"), (0x10, "XY"), (0x0D, "LAYER"), (0x34, "STRCLASS"), (0x2B, "PROPATTR"), (0x11, "ENDEL"), (0x0A, "SREF"), (0x15, "NODE")):
        R = RawLoop(prog, f, T, True)
        v = R.vars.get(acc)
        adds = [e for e in R.effects if e.kind == "mcall" and e.name in ("append",) and strip(e.recv) is v and e.args and R.data(e.args[0]) and not undecided(R, e)]
        maybe = [e for e in R.effects if e.kind == "mcall" and e.name == "append" and strip(e.recv) is v and undecided(R, e)]
        aug = [e for e in R.effects if e.kind == "aug" and strip(e.obj) is v]
        if maybe or aug:
            if aug and len(aug) == 1 and not undecided(R, aug[0]):
                ctx.ok("record kept", what)
            else:
                ctx.unknown("cells-raw", (maybe or aug)[0].where, "%s kept under conditions" % what)
        elif len(adds) == 1:
            ctx.ok("record kept", what)
        else:
            bad = [e for e in R.effects if e.kind == "mcall" and strip(e.recv) is v]
            if bad and not adds:
                ctx.violation("cells-raw", what, bad[0].where, "%s records of a structure are stored changed or not at the end" % what)
            else:
                ctx.violation("cells-raw", what, loc, "%s records of a structure are stored %d times" % (what, len(adds)))
        nx = v.info.get("next") if v is not None else None
        if T != T_ENDSTR and nx is not None and strip(nx) is not v and not aug:
            ctx.violation("cells-raw", what + ":reset", loc, "the structure is dropped at a %s record" % what)
        if T == T_STRNAME:
            for k, nv in R.vars.items():
                x = nv.info.get("next")
                if isinstance(k, str) and x is not None and strip(x) is not nv and k != acc and any(R.data(y) for y in value_nodes(x, NoFacts(R.it))) and not R.data(x):
                    o = type("o", (), {"it": R.it})()
                    string(ctx, R, x, loc, 4, "structure names")
        if T == T_ENDSTR:
            st = [e for e in R.effects if e.kind == "storeitem"]
            if not st:
                ctx.violation("cells-raw", "ENDSTR:store", loc, "finished structures are not stored")
            for e in st:
                val = strip(e.value)
                if val.op == "mcall" and val.args[1] == "join" and strip(val.args[0]).op == "const" and strip(val.args[0]).args[1] in (b"", ""):
                    a = val.args[2][0]
                    if strip(a) is v and appended(R, a.args[1] if a.op == "ver" else None) == 1:
                        ctx.ok("complete structure stored")
                    elif strip(a) is v:
                        ctx.violation("cells-raw", "ENDSTR", e.where, "the structure is stored without its ENDSTR record")
                    else:
                        ctx.unknown("cells-raw", e.where, show(a, 3))
                else:
                    ctx.unknown("cells-raw", e.where, show(val, 3))
    R = RawLoop(prog, f, 0x03, False)
    bad = [e for e in R.effects if e.kind in ("storeitem",) or e.kind == "mcall" and e.name == "append"]
    if bad:
        ctx.violation("cells-raw", "outside", bad[0].where, "records outside structures are stored")
    else:
        ctx.ok("records outside structures ignored")


def undecided(R, e):
    """guards left open inside the record loop"""
    f = Facts(R.it)
    for c, p in e.guards:
        if any(x.op in ("loopv",) or R.is_record(x) for x in subnodes(c, follow=False)):
            d = f.decide(c)
            if d is None:
                d = R.assume(c, None)
            if d is None or d != p:
                return True
    return False


def appended(R, c):
    """how many times the record data was appended in this iteration"""
    n = 0
    while c is not None and c.op == "upd":
        if c.args[1] == "append" and R.data(c.args[2][0]):
            n += 1
        c = c.args[0]
    return n


def hashing(ctx):
    prog = ctx.prog
    f = prog.need_function("gdspy.gdsiiformat", "gdsii_hash")
    loc = f.where
    pos = start = None
    cases = [(T, D, size) for T, D, size in ((T_BGNSTR, 2, 28), (T_ENDSTR, 0, 4), (T_STRNAME, 6, 10), (T_XY, 3, 44), (1, 2, 28), (3, 5, 20), (4, 0, 4), (8, 0, 4))]
    ds = []
    for T, D, size in cases:
        d = Decode(prog, f, T, D, size)
        ctx.saw(d.it.functions_seen)
        ds.append(d)
    # roles from the XY record: the variable that advances
    d = ds[3]
    lv = {n.args[1]: n for n in d.it.table.values() if n.op == "loopv" and isinstance(n.args[1], str) and n.info is not None}
    for k, v in lv.items():
        nx = v.info.get("next")
        if nx is None or nx is v:
            continue
        try:
            p = Polyer(NoFacts(d.it)).of(nx) - Polyer(NoFacts(d.it)).of(v)
        except Exception:
            continue
        if p.is_const() and p.cval() != 0:
            if p.cval() == 44 or pos is None:
                pos = k
    if pos is None:
        rd = [e for e in d.effects if e.kind == "mcall" and e.name == "read"]
        ctx.unknown("hash", loc, "position variable not found")
        return
    collected = None
    for (T, D, size), d in zip(cases, ds):
        lv = {n.args[1]: n for n in d.it.table.values() if n.op == "loopv" and isinstance(n.args[1], str) and n.info is not None}
        P = Polyer(NoFacts(d.it))
        v = lv.get(pos)
        if v is None:
            ctx.unknown("hash", loc, "position variable")
            continue
        for ff, x in split(d, v.info.get("next") or v):
            try:
                p = Polyer(ff).of(x) - P.of(v)
            except Exception:
                p = None
            if p is not None and p == Poly.const(size):
                ctx.ok("position advances", "record 0x%02X: +%d" % (T, size))
            elif p is not None and p.is_const():
                ctx.violation("hash", "position", loc, "after a record 0x%02X of %d bytes the position advances by %s" % (T, size, p.cval()))
            else:
                ctx.unknown("hash", loc, "position after 0x%02X: %s" % (T, show(x, 4)))
        adds = [e for e in d.effects if e.kind == "mcall" and e.name == "append" and e.loops and not guarded_out(d, e)]
        if T == T_ENDSTR:
            if len(adds) != 1:
                upd = [e for e in d.effects if e.kind == "mcall" and e.name == "update" and e.loops]
                if not adds and not upd:
                    ctx.violation("hash", "collect", loc, "structures are not hashed")
                elif upd and not adds:
                    ctx.violation("hash", "order", upd[0].where, "the hash depends on the order of the structures")
                else:
                    ctx.unknown("hash", loc, "%d pieces per structure" % len(adds))
                continue
            x = strip(adds[0].args[0])
            if x.op == "sub" and x.args[1].op == "slice":
                lo, hi, st = x.args[1].args
                try:
                    ph = P.of(hi) - P.of(v)
                except Exception:
                    ph = None
                if ph == Poly.const(0) or ph == Poly.const(4):
                    ctx.ok("structure end")
                elif ph is not None and ph.is_const():
                    ctx.violation("hash", "end", adds[0].where, "hashed structures end at the ENDSTR position %+d" % ph.cval())
                else:
                    ctx.unknown("hash", adds[0].where, show(hi, 3))
                if strip(lo).op == "loopv":
                    start = strip(lo).args[1]
                else:
                    ctx.unknown("hash", adds[0].where, "start %s" % show(lo, 3))
                if guards_left(d, adds[0]):
                    ctx.violation("hash", "collect", adds[0].where, "structures are hashed only when %s" % show(guards_left(d, adds[0])[0], 3))
            else:
                ctx.unknown("hash", adds[0].where, show(x, 3))
        elif adds:
            ctx.violation("hash", "collect", adds[0].where, "records 0x%02X also end a structure" % T)
    if start is not None:
        for (T, D, size), d in zip(cases, ds):
            lv = {n.args[1]: n for n in d.it.table.values() if n.op == "loopv" and isinstance(n.args[1], str) and n.info is not None}
            v = lv.get(start)
            if v is None:
                continue
            P = Polyer(NoFacts(d.it))
            for ff, x in split(d, v.info.get("next") or v):
                if strip(x) is v:
                    if T == T_BGNSTR:
                        ctx.violation("hash", "start", loc, "the hashed part does not start at the structure")
                    else:
                        ctx.ok("structure start kept")
                    continue
                if T not in (T_BGNSTR, T_ENDSTR, 1, 3, 4):
                    ctx.violation("hash", "start", loc, "record 0x%02X restarts the hashed part" % T)
                    continue
                if T != T_BGNSTR:
                    continue
                try:
                    p = P.of(x) - P.of(lv[pos])
                except Exception:
                    p = None
                if p == Poly.const(28):
                    ctx.ok("timestamps excluded")
                elif p is not None and p.is_const():
                    ctx.violation("hash", "start", loc, "the hashed part starts %s bytes after BGNSTR (%s)" % (p.cval(), "the timestamps are included" if p.cval() < 28 else "data is skipped"))
                else:
                    ctx.unknown("hash", loc, show(x, 3))
    # digest
    d = ds[1]
    ups = [e for e in d.effects if e.kind == "mcall" and e.name == "update"]
    if not ups:
        ctx.unknown("hash", loc, "digest update not found")
    for e in ups:
        a = strip(e.args[0])
        if a.op == "elem":
            s = strip(a.args[0])
            if e.loops and isinstance(e.loops[-1][1], Node):
                s = strip(e.loops[-1][1])
            if s.op == "call" and s.args[0] == "sorted":
                if dict(s.args[2]) and any(k == "key" for k, _ in s.args[2]):
                    ctx.unknown("hash", e.where, "sort key")
                ctx.ok("sorted structures")
            elif s.op == "list" and any(x.kind == "mcall" and x.name == "sort" and strip(x.recv) is s for x in d.effects):
                ctx.ok("sorted structures")
            elif s.op == "list":
                ctx.violation("hash", "order", e.where, "the hash depends on the order of the structures")
            elif s.op == "call" and s.args[0] in ("set", "frozenset"):
                ctx.violation("hash", "order", e.where, "structures are hashed in set order and duplicates dropped")
            elif s.op == "sub" and s.args[1].op == "slice":
                ctx.violation("hash", "coverage", e.where, "only %s structures are hashed" % show(s, 3))
            else:
                ctx.unknown("hash", e.where, show(s, 3))
            if [g for g in e.guards if any(y is a for y in subnodes(g[0], follow=False))]:
                ctx.violation("hash", "coverage", e.where, "structures are hashed conditionally")
        elif a.op == "mcall" and a.args[1] == "join":
            s = strip(a.args[2][0])
            if s.op == "call" and s.args[0] == "sorted":
                ctx.ok("sorted structures")
            else:
                ctx.unknown("hash", e.where, show(a, 3))
        else:
            ctx.unknown("hash", e.where, show(a, 3))


def guards_left(d, e):
    f = Facts(d.it)
    out = []
    for c, p in e.guards:
        if f.decide(c) is None and any(x.op == "loopv" for x in subnodes(c, follow=False)):
            if c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">=") and any(x.op == "call" and x.args[0] == "len" for x in subnodes(c, follow=False)):
                continue
            out.append(c)
    return out


FIELDS = ("year", "month", "day", "hour", "minute", "second")


def timestamp(ctx):
    prog = ctx.prog
    f = prog.need_function("gdspy.gdsiiformat", "set_gdsii_timestamp")
    loc = f.where
    for T, D, size in ((1, 2, 28), (T_BGNSTR, 2, 28), (T_STRNAME, 6, 10), (T_XY, 3, 44), (T_XY, 3, 65532), (3, 5, 20), (4, 0, 4), (T_ENDSTR, 0, 4), (0x2C, 6, 28), (0, 2, 6)):
        d = Decode(prog, f, T, D, size)
        ctx.saw(d.it.functions_seen)
        ws = [e for e in d.effects if e.kind == "mcall" and e.name == "write" and not guarded_out(d, e)]
        moved = 0
        ok = True
        for e in d.effects:
            if guarded_out(d, e):
                continue
            if e.kind == "mcall" and e.name in ("read", "seek", "write"):
                if e.name == "read" and d.is_header(e.result):
                    continue
                if e.name == "write":
                    n = packed(d, e.args[0])
                    if n is None:
                        ok = False
                    else:
                        moved += n
                    continue
                if e.name == "seek" and not (len(e.args) > 1 and e.args[1].op in ("const", "ext") and e.args[1].args[-1] in (1, "io.SEEK_CUR", "os.SEEK_CUR")):
                    ok = False
                    continue
                a = e.args[0]
                if a.op == "const" and isinstance(a.args[1], int):
                    moved += a.args[1]
                else:
                    ok = False
        if not ok:
            ctx.unknown("timestamp", loc, "position after record 0x%02X" % T)
        elif moved != size - 4:
            ctx.violation("timestamp", "position", loc, "after a record 0x%02X of %d bytes the file position is %d bytes off" % (T, size, moved - (size - 4)))
        else:
            ctx.ok("file position", "record 0x%02X" % T)
        if T in (1, T_BGNSTR):
            if len(ws) != 1:
                ctx.violation("timestamp", "write", loc, "%s timestamps are written %d times" % ("library" if T == 1 else "structure", len(ws))) if not ws else ctx.unknown("timestamp", loc, "%d writes" % len(ws))
            for e in ws:
                a = strip(e.args[0])
                if a.op == "call" and a.args[0] == "struct.pack" and a.args[1][0].op == "const":
                    names = [x.args[1] if x.op == "attr" and strip(x.args[0]).op == "param" else None for x in map(strip, a.args[1][1:])]
                    fmt = a.args[1][0].args[1]
                    fs = fields(fmt)
                    if fs is None or any(n != 2 for n, _ in fs) or len(fs) != 12:
                        ctx.violation("timestamp", "format", e.where, "timestamps are written with format %r" % fmt)
                    elif None in names:
                        ctx.unknown("timestamp", e.where, "fields %s" % (names,))
                    elif tuple(names) != FIELDS * 2:
                        ctx.violation("timestamp", "fields", e.where, "timestamp fields are %s" % ", ".join(names))
                    else:
                        ctx.ok("timestamp fields")
                else:
                    ctx.unknown("timestamp", e.where, show(a, 3))
        elif ws:
            ctx.violation("timestamp", "write", ws[0].where, "records 0x%02X are overwritten" % T)
        else:
            ctx.ok("record left alone")
    modes = [e for e in Decode(prog, f, 1, 2, 28).effects if e.kind == "call" and e.target in ("open", "io.open", "builtins.open")]
    for e in modes:
        m = e.args[1] if len(e.args) > 1 else dict(e.kwargs).get("mode")
        if m is not None and m.op == "const":
            if "r" in m.args[1] and "+" in m.args[1] and "b" in m.args[1]:
                ctx.ok("opened for update")
            else:
                ctx.violation("timestamp", "mode", e.where, "the file is opened with mode %r" % m.args[1])


def packed(d, n):
    n = strip(n)
    if n.op == "const" and isinstance(n.args[1], bytes):
        return len(n.args[1])
    if n.op == "call" and n.args[0] == "struct.pack" and n.args[1][0].op == "const":
        try:
            return struct.calcsize(n.args[1][0].args[1])
        except Exception:
            return None
    if n.op == "bin" and n.args[0] == "*":
        a, b = n.args[1], n.args[2]
        if b.op == "const" and isinstance(b.args[1], int):
            k = packed(d, a)
            return None if k is None else k * b.args[1]
    if n.op == "bin" and n.args[0] == "+":
        a, b = packed(d, n.args[1]), packed(d, n.args[2])
        return None if a is None or b is None else a + b
    return None
