"""SVG output: what is written for each element, and where it ends up."""
import re
import string
from fractions import Fraction

from ..affine import Arr, Bad, Eval, Tup, Unsupported, fold, pair, same, scalar
from ..flow import strip
from ..interp import Interp, Node, show, subnodes
from ..poly import Poly
from .aliasing import private
from .geometry import Give, run_cases

ZERO, ONE = Poly.const(0), Poly.const(1)


def A(n):
    return Poly.atom(n)


# -- text --------------------------------------------------------------------
# a piece is ("text", str), ("num", node, call or None), ("val", node, chain),
# or ("rep", separator, pieces, comp)


def texty(n):
    n = strip(n)
    if n.op == "const":
        return isinstance(n.args[1], str)
    if n.op == "ite":
        return texty(n.args[1]) or texty(n.args[2])
    if n.op == "bin":
        return n.args[0] in ("+", "%") and texty(n.args[1]) or n.args[0] == "+" and texty(n.args[2])
    if n.op in ("fstr", "fmt"):
        return True
    if n.op == "mcall":
        return n.args[1] in ("format", "join", "replace", "translate", "decode", "encode")
    if n.op == "call":
        return n.args[0] in ("str", "repr", "numpy.format_float_positional") or str(n.args[0]).split(".")[-1] == "escape"
    return False


class Text(object):
    def __init__(self, case):
        self.case = case

    def pieces(self, n, top=True):
        n = strip(self.simp(n))
        o, a = n.op, n.args
        if o == "const":
            if a[1] is None or isinstance(a[1], bool):
                return [("text", str(a[1]))]
            if isinstance(a[1], (int, float)):
                return [("text", repr(a[1]))]
            if isinstance(a[1], str):
                return [("text", a[1])]
        if o == "bin" and texty(n):
            if a[0] == "+":
                return self.pieces(a[1]) + self.pieces(a[2])
            return self.percent(a[1], a[2])
        if o == "fstr":
            out = []
            for x in a[0]:
                out += self.pieces(x)
            return out
        if o == "fmt":
            if a[2] is not None and not (a[2].op == "const" and a[2].args[1] in (None, "") or a[2].op == "fstr" and not a[2].args[0]):
                raise Give("format " + show(n, 3))
            return self.pieces(a[0])
        if o == "call":
            if a[0] == "numpy.format_float_positional" and a[1]:
                return [("num", a[1][0], n)]
            if a[0] in ("str", "format") and len(a[1]) == 1 and not a[2]:
                return self.pieces(a[1][0])
            if str(a[0]).split(".")[-1] == "escape" and a[1]:
                return self.chain(a[1][0], ("escape",))
        if o == "mcall":
            if a[1] == "format":
                return self.format(n)
            if a[1] == "join" and len(a[2]) == 1:
                return self.join(n)
            if a[1] in ("replace", "translate"):
                return self.chain(a[0], (a[1],) + tuple(a[2]))
            if a[1] in ("decode", "encode", "__str__"):
                return self.pieces(a[0])
        return [("val", n, ())]

    def simp(self, n):
        k = 0
        n = strip(n)
        while n.op == "ite" and k < 40:
            k += 1
            d = self.case.decide(n.args[0])
            if d is None:
                from ..lin import Fork
                raise Fork(n.args[0])
            n = strip(n.args[1] if d else n.args[2])
        return n

    def chain(self, base, op):
        ps = self.pieces(base)
        if len(ps) == 1 and ps[0][0] == "text":
            return [("text", apply_chain(ps[0][1], (op,)))]
        if len(ps) != 1 or ps[0][0] != "val":
            raise Give("%s of %s" % (op[0], show(base, 3)))
        return [("val", ps[0][1], ps[0][2] + (op,))]

    def format(self, n):
        r = strip(self.simp(n.args[0]))
        if r.op != "const" or not isinstance(r.args[1], str):
            raise Give("format of " + show(r, 3))
        args, kw = list(n.args[2]), dict(x for x in n.args[3] if isinstance(x, tuple))
        args = self.unstar(args)
        out, k = [], 0
        for lit, name, spec, conv in string.Formatter().parse(r.args[1]):
            if lit:
                out.append(("text", lit))
            if name is None:
                continue
            if spec or conv not in (None, "s"):
                raise Give("format specification")
            if name == "":
                name, k = str(k), k + 1
            if name.isdigit():
                if int(name) >= len(args):
                    raise Bad("a field of the text has no value")
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                raise Give("field " + name)
            out += self.pieces(v)
        return out

    def unstar(self, args):
        out = []
        for x in args:
            if x.op != "star":
                out.append(x)
                continue
            y = strip(self.simp(x.args[0]))
            if y.op in ("tuple", "list"):
                out += list(y.args[0])
            else:
                raise Give("star argument")
        return out

    def percent(self, f, v):
        f = strip(self.simp(f))
        if f.op != "const":
            raise Give("format of " + show(f, 3))
        v = strip(v)
        args = list(v.args[0]) if v.op == "tuple" else [v]
        out = []
        for t in re.split(r"(%.)", f.args[1]):
            if t == "%%":
                out.append(("text", "%"))
            elif t in ("%s", "%r", "%d"):
                if not args:
                    raise Bad("a field of the text has no value")
                out += self.pieces(args.pop(0))
            elif t.startswith("%"):
                raise Give("format specification")
            elif t:
                out.append(("text", t))
        return out

    def join(self, n):
        sep = strip(self.simp(n.args[0]))
        if sep.op != "const" or not isinstance(sep.args[1], str):
            raise Give("separator")
        x = strip(self.simp(n.args[2][0]))
        if x.op in ("tuple", "list"):
            out = []
            for i, y in enumerate(x.args[0]):
                if y.op == "star":
                    raise Give("star argument")
                if i:
                    out.append(("text", sep.args[1]))
                out += self.pieces(y)
            return out
        if x.op == "comp" and x.args[0] in ("gen", "list"):
            return [("rep", sep.args[1], self.pieces(x.args[1]), x)]
        return [("val", n, ())]


def const_value(n):
    n = strip(n)
    if n.op == "const":
        return n.args[1]
    if n.op == "dict":
        return dict((const_value(k), const_value(v)) for k, v in n.args[0])
    if n.op == "call" and str(n.args[0]).endswith("maketrans"):
        return str.maketrans(*[const_value(x) for x in n.args[1]])
    raise Give("table " + show(n, 3))


def apply_chain(s, chain):
    for op in chain:
        args = [x if not isinstance(x, Node) else const_value(x) for x in op[1:]]
        if op[0] == "escape":
            s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        elif op[0] == "replace" and all(isinstance(x, str) for x in args[:2]):
            s = s.replace(*args)
        elif op[0] == "translate" and len(args) == 1 and isinstance(args[0], dict):
            s = s.translate(args[0])
        else:
            raise Give(op[0])
    return s


def letters(chain):
    out = "aZ09 _#$%&<>'\"-.:;/\\"
    for op in chain:
        for x in op[1:]:
            if isinstance(x, Node):
                v = const_value(x)
                out += v if isinstance(v, str) else "".join(chr(k) for k in v if isinstance(k, int)) if isinstance(v, dict) else ""
    return out


# -- running the methods ------------------------------------------------------


class Sheet(object):
    """one method for one kind of element; what it writes, in order"""

    def __init__(self, prog, f, attrs, kinds=(), args=None):
        self.attrs, self.kinds = attrs, dict(kinds)
        self.it = it = Interp(prog, assume=self.assume, inline=lambda g, i: private(g))
        self.f = f
        self.me = it.mk("param", f.params()[0])
        heap = {}
        for k, v in attrs.items():
            if v is None or isinstance(v, (int, bool)):
                heap[(self.me, k)] = self.const(v)
        self.res = it.run(f, self_cls=f.cls, self_node=self.me, heap=heap, args=dict((k, self.const(v)) for k, v in (args or {}).items()))
        self.out = it.mk("param", "outfile")

    def const(self, v):
        return self.it.mk("const", type(v).__name__, v)

    def mine(self, n):
        n = strip(n)
        return n.args[1] if n.op == "attr" and strip(n.args[0]) is self.me else None

    def assume(self, c, st):
        if self.mine(c) in self.attrs and self.attrs[self.mine(c)] == "given":
            return True
        if c.op == "cmp" and c.args[0] == "is" and c.args[2].op == "const" and c.args[2].args[1] is None:
            x = strip(c.args[1])
            if self.attrs.get(self.mine(x)) == "given":
                return False
            if x.op == "param" and x.args[0] in self.kinds:
                return self.kinds[x.args[0]] == "none"
            if self.mine(x) in COLLS:
                return False
            if x.op == "icall" and x.args[0].name in self.kinds.get("given", ()):
                return False
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2:
            x = strip(c.args[1][0])
            k = self.mine(x) or (x.args[0] if x.op == "param" else None)
            if k in self.kinds:
                names = [str(y.args[0]).split(".")[-1].rstrip(">") for y in subnodes(c.args[1][1]) if y.op in ("ext", "cls", "mod")]
                names += ["str" for y in subnodes(c.args[1][1]) if y.op == "gconst" and y.args[1] == "basestring"]
                names = [getattr(y.args[0], "name", None) or str(y.args[0]).split(".")[-1] for y in subnodes(c.args[1][1]) if y.op in ("ext", "cls", "mod")] + [x for x in names if x == "str"]
                if names:
                    return self.kinds[k] in names
        if c.op == "call" and c.args[0] == "hasattr" and len(c.args[1]) == 2 and strip(c.args[1][0]).op == "param" and c.args[1][1].op == "const":
            k = self.kinds.get(strip(c.args[1][0]).args[0])
            if k is not None:
                return k == "stream" and c.args[1][1].args[1] == "write"
        return None

    def live(self, e, case):
        """are the conditions of the effect met (Fork if not known)"""
        from ..lin import Fork
        for c, p in e.guards:
            d = case.decide(c)
            if d is None:
                if any(x.op in ("elem", "loopv", "key", "idx") for x in subnodes(c)):
                    raise Give("condition " + show(c, 4))
                raise Fork(c)
            if d != p:
                return False
        return True

    def flow(self, case):
        """[(loops, ("text", pieces) or ("call", effect))]"""
        out = []
        t = Text(case)
        for e in self.res.effects:
            if e.kind == "mcall" and strip(e.recv) is self.out:
                if e.name == "close":
                    continue
                if e.name != "write" or len(e.args) != 1:
                    raise Give("%s of the file" % e.name)
                if not self.live(e, case):
                    continue
                ps = t.pieces(e.args[0])
                if out and out[-1][1][0] == "text" and out[-1][0] == e.loops:
                    out[-1] = (e.loops, ("text", out[-1][1][1] + ps))
                else:
                    out.append((e.loops, ("text", ps)))
            elif e.kind in ("mcall", "icall", "gencall", "call") and any(strip(x) is self.out for x in e.args) and not (e.kind == "call" and e.target in ("hasattr", "isinstance")):
                if e.kind == "icall" and private(e.func):
                    continue
                if not self.live(e, case):
                    continue
                out.append((e.loops, ("call", e)))
        if not out:
            if not any(self.out in list(subnodes(x)) for e in self.res.effects for v in e.data.values() for x in ([v] if isinstance(v, Node) else [y for y in v if isinstance(y, Node)] if isinstance(v, tuple) else [])):
                raise Bad("nothing is written")
            raise Give("nothing is written")
        return out


def markup(pieces):
    """(text with placeholders, list of pieces)"""
    out, ph = "", []
    for p in pieces:
        if p[0] == "text":
            out += p[1]
        else:
            out += "\x01%d\x02" % len(ph)
            ph.append(p)
    return out, ph


ATTR = r'\s+([\w:-]+)="([^"]*)"'


def element(s, ph, what):
    """(tag, attributes, content) of the one element in the text"""
    m = re.match(r'^\s*<(\w+)((?:%s)*)\s*(?:/>|>([^<]*)</(\w+)>)\s*$' % ATTR.replace("(", "(?:", 2), s)
    if not m or m.group(4) and m.group(4) != m.group(1):
        if any(p[0] == "val" and p[1].op == "unbound" for p in ph):
            raise Bad("a variable is used that is not set")
        if any(p[0] == "val" and p[1].op not in ("attr", "elem", "sub", "key", "param") for p in ph):
            raise Give("text " + s[:60])
        raise Bad("%s is not one well-formed element" % what)
    attrs = {}
    for k, v in re.findall(ATTR, m.group(2)):
        if k in attrs:
            raise Bad("%s has the attribute %s twice" % (what, k))
        attrs[k] = v
    return m.group(1), attrs, m.group(3)


# -- transformations ------------------------------------------------------------
# (a, b, c, d, e, f) as in SVG: x' = a x + c y + e, y' = b x + d y + f


def T(x, y):
    return (ONE, ZERO, ZERO, ONE, x, y)


def S(x, y):
    return (x, ZERO, ZERO, y, ZERO, ZERO)


def R(deg):
    t = deg * A("pi") * Poly.const(Fraction(1, 180))
    c, s = fold("cos", t), fold("sin", t)
    return (c, s, -s, c, ZERO, ZERO)


def compose(ms):
    out = S(ONE, ONE)
    for m in ms:
        a, b, c, d, e, f = out
        g, h, i, j, k, l = m
        out = (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j, a * k + c * l + e, b * k + d * l + f)
    return out


def transform(s, ph, num):
    ms, rest = [], s
    for m in re.finditer(r"\s*(\w+)\s*\(([^()]*)\)[\s,]*", s):
        vals = []
        for t in re.split(r"[\s,]+", m.group(2).strip()):
            q = re.match(r"^\x01(\d+)\x02$", t)
            if q:
                vals.append(num(ph[int(q.group(1))]))
            else:
                try:
                    vals.append(Poly.const(Fraction(t)))
                except ValueError:
                    if re.match(r"^-\x01(\d+)\x02$", t):
                        vals.append(-num(ph[int(t[2:-1])]))
                    else:
                        raise Give("number " + t)
        k, n = m.group(1), len(vals)
        if k == "translate" and n in (1, 2):
            ms.append(T(vals[0], vals[1] if n == 2 else ZERO))
        elif k == "scale" and n in (1, 2):
            ms.append(S(vals[0], vals[-1]))
        elif k == "rotate" and n == 1:
            ms.append(R(vals[0]))
        elif k == "rotate" and n == 3:
            ms += [T(vals[1], vals[2]), R(vals[0]), T(-vals[1], -vals[2])]
        elif k == "matrix" and n == 6:
            ms.append(tuple(vals))
        else:
            raise Give("transformation %s of %d numbers" % (k, n))
        rest = rest.replace(m.group(0), "", 1)
    if rest.strip():
        for q in re.findall("\x01(\\d+)\x02", rest):
            p = ph[int(q)]
            if p[0] == "rep" or p[0] == "val" and p[1].op not in ("attr", "param", "const", "unbound", "elem"):
                raise Give("transformation " + rest)
        raise Bad("the transformation is not well-formed")
    return compose(ms)


def number(sh, case, leaf):
    ev = Eval(sh.it, leaf, case.decide)

    def num(p):
        if p[0] == "text":
            return Poly.const(Fraction(p[1]))
        if p[0] == "num":
            check_precision(sh, p[2])
            x = p[1]
        elif p[0] == "val" and not p[2]:
            raise Bad("a coordinate is written without the precision given")
        else:
            raise Give("number")
        v = ev.arr(x)
        if v.shape:
            raise Give("number " + show(x, 3))
        return v.data[()]

    return num


def check_precision(sh, n):
    a, kw = n.args[1], dict(x for x in n.args[2] if isinstance(x, tuple))
    p = kw.get("precision", a[1] if len(a) > 1 else None)
    if p is None:
        raise Bad("a coordinate is written without the precision given")
    p = strip(p)
    if p.op == "param" and p.args[0] == "precision":
        return
    if p.op in ("const", "param") or p.op == "attr":
        raise Bad("a coordinate is not written with the precision given")
    raise Give("precision " + show(p, 3))


def attr_leaf(sh, extra=None):
    pairs = ("origin", "spacing", "position")

    def leaf(n):
        k = sh.mine(n)
        if k in pairs:
            return Tup([scalar(A(k + ".x")), scalar(A(k + ".y"))])
        if k in ("rotation", "magnification") and sh.attrs.get(k) == "given":
            return scalar(A(k))
        if n.op == "param" and n.args[0] == "scaling":
            return scalar(A("scaling"))
        if n.op == "const" and n.args[1] is None:
            raise Bad("a number that is not set is used")
        return extra(n) if extra else None

    return leaf


def equal(got, want, what):
    for i, (p, q) in enumerate(zip(got, want)):
        r = same(p, q)
        if r is None:
            raise Give("cannot compare the transformations")
        if r is False:
            raise Bad("%s is drawn with another transformation (%s instead of %s)" % (what, p, q))


def placement(sh, pos, ms):
    s = A("scaling")
    out = [T(s * A(pos + ".x"), s * A(pos + ".y"))]
    if sh.attrs["rotation"] == "given":
        out.append(R(A("rotation")))
    if sh.attrs["x_reflection"]:
        out.append(S(ONE, -ONE))
    out += ms
    if sh.attrs["magnification"] == "given":
        out.append(S(A("magnification"), A("magnification")))
    return compose(out)


def configs():
    for rot in (None, "given"):
        for mag in (None, "given"):
            for x in (False, True):
                yield {"rotation": rot, "magnification": mag, "x_reflection": x}


def name_of(attrs):
    ws = [w for k, w in (("rotation", "rotated"), ("x_reflection", "reflected"), ("magnification", "magnified")) if attrs[k]]
    return " and ".join(ws) or "plain"


# -- references -----------------------------------------------------------------


def cell_id(ctx, prog):
    """how the name of a cell becomes its identifier"""
    f = prog.need_method("Cell", "to_svg")
    return f


def loops_range(sh, loops, case):
    """{site: attribute} of the loops over range(self.attribute)"""
    out = {}
    for site, it, kind in loops:
        it = strip(it)
        if kind != "for" or it.op != "call" or it.args[0] not in ("range", "xrange") or len(it.args[1]) not in (1, 2):
            raise Give("loop over " + show(it, 4))
        a = [strip(x) for x in it.args[1]]
        if len(a) == 2 and not (a[0].op == "const" and a[0].args[1] == 0):
            if a[0].op == "const":
                raise Bad("not all columns and rows are written")
            raise Give("loop over " + show(it, 4))
        k = sh.mine(a[-1])
        if k not in ("columns", "rows"):
            x = a[-1]
            if x.op == "const" or x.op == "bin" and x.args[0] in "+-" and any(sh.mine(y) in ("columns", "rows") for y in x.args[1:]) and any(y.op == "const" for y in x.args[1:]):
                raise Bad("not all columns and rows are written")
            raise Give("loop over " + show(it, 4))
        if k in out.values():
            raise Bad("the array is written for %s twice" % k)
        out[it] = k
    return out


def references(ctx, prog):
    idf = prog.need_method("Cell", "to_svg")
    ids = id_chain(ctx, prog, idf)
    for cls in ("CellReference", "CellArray"):
        f = prog.need_method(cls, "to_svg")
        for cfg in configs():
            for kind in ("Cell", "str"):
                sh = Sheet(prog, f, cfg, [("ref_cell", kind)])
                ctx.saw(sh.it.functions_seen)
                what = "%s.to_svg: %s reference to %s" % (cls, name_of(cfg), "a cell" if kind == "Cell" else "a name")

                def one(case, sh=sh, kind=kind, what=what):
                    fl = sh.flow(case)
                    if len(fl) != 1 or fl[0][1][0] != "text":
                        raise Give("several parts are written")
                    loops, (k, ps) = fl[0]
                    s, ph = markup(ps)
                    tag, at, body = element(s, ph, "a reference")
                    if tag != "use":
                        raise Bad("a reference is not written as <use>")
                    ranges, extra = {}, None
                    if cls == "CellArray":
                        ranges = loops_range(sh, loops, case)
                        if sorted(ranges.values()) != ["columns", "rows"]:
                            raise Bad("the array is not written for all columns and rows")

                        def extra(n):
                            if n.op == "elem" and strip(n.args[0]) in ranges:
                                return scalar(A("i" if ranges[strip(n.args[0])] == "columns" else "j"))
                            return None
                    elif loops:
                        raise Give("loop")
                    num = number(sh, case, attr_leaf(sh, extra))
                    got = transform(at.get("transform", ""), ph, num)
                    sp = []
                    if ranges:
                        sc = A("scaling")
                        sp = [T(sc * A("spacing.x") * A("i"), sc * A("spacing.y") * A("j"))]
                    equal(got, placement(sh, "origin", sp), "a reference")
                    link(sh, at, ph, kind, ids)

                if run_cases(ctx, "svg", what, f, sh.it, one):
                    ctx.ok("references", what)


def link(sh, at, ph, kind, ids):
    h = at.get("xlink:href", at.get("href"))
    if h is None:
        raise Bad("a reference does not name its cell")
    m = re.match(r"^#\x01(\d+)\x02$", h)
    if not m:
        if "\x01" not in h or not h.startswith("#"):
            raise Bad("a reference does not link to its cell")
        raise Give("link " + h)
    p = ph[int(m.group(1))]
    if p[0] != "val":
        raise Bad("a reference does not link to its cell")
    n = p[1]
    if kind == "Cell":
        good = n.op == "attr" and n.args[1] == "name" and sh.mine(n.args[0]) == "ref_cell"
    else:
        good = sh.mine(n) == "ref_cell"
    if not good:
        if n.op in ("attr", "const", "unbound"):
            raise Bad("a reference does not link to its cell but to %s" % show(n, 4))
        raise Give("link to " + show(n, 4))
    if ids is None:
        raise Give("identifier of cells")
    ls = letters(p[2] + ids)
    if apply_chain(ls, p[2]) != apply_chain(ls, ids):
        raise Bad("the link differs from the identifier written for the cell")


def id_chain(ctx, prog, f):
    out = []
    sh = Sheet(prog, f, {})

    def one(case):
        fl = sh.flow(case)
        s, ph = markup(fl[0][1][1])
        m = re.search(r'id="\x01(\d+)\x02"', s)
        if m and ph[int(m.group(1))][0] == "val":
            out.append(ph[int(m.group(1))])

    from .geometry import cases
    try:
        cases(sh.it, one)
    except (Give, Unsupported, Bad):
        return None
    if not out or any(p[2] != out[0][2] for p in out):
        return None
    return out[0][2]


# -- labels ------------------------------------------------------------------------


def small(n, case_text):
    """value of an expression of constants"""
    n = strip(case_text.simp(n))
    if n.op == "const":
        return n.args[1]
    if n.op in ("list", "tuple"):
        return [small(x, case_text) for x in n.args[0]]
    if n.op == "dict":
        return dict((small(k, case_text), small(v, case_text)) for k, v in n.args[0])
    if n.op == "bin":
        x, y = small(n.args[1], case_text), small(n.args[2], case_text)
        ops = {"%": lambda: x % y, "//": lambda: x // y, "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, ">>": lambda: x >> y}
        if n.args[0] in ops:
            return ops[n.args[0]]()
    if n.op == "sub":
        try:
            return small(n.args[0], case_text)[small(n.args[1], case_text)]
        except (IndexError, KeyError):
            raise Bad("an anchor has no text")
    raise Give("value of " + show(n, 4))


def labels(ctx, prog):
    f = prog.need_method("Label", "to_svg")
    todo = [(cfg, 0) for cfg in configs()] + [({"rotation": None, "magnification": None, "x_reflection": False}, a) for a in (1, 2, 4, 5, 6, 8, 9, 10)]
    for cfg, anchor in todo:
        sh = Sheet(prog, f, dict(cfg, anchor=anchor))
        ctx.saw(sh.it.functions_seen)
        what = "Label.to_svg: %s label" % name_of(cfg) if not anchor else "Label.to_svg: anchor %d" % anchor

        def one(case, sh=sh, anchor=anchor):
            fl = sh.flow(case)
            if len(fl) != 1 or fl[0][1][0] != "text" or fl[0][0]:
                raise Give("several parts are written")
            s, ph = markup(fl[0][1][1])
            tag, at, body = element(s, ph, "a label")
            if tag != "text" or body is None:
                raise Bad("a label is not written as <text>")
            flip = S(ONE, -ONE)
            got = transform(at.get("transform", ""), ph, number(sh, case, attr_leaf(sh)))
            equal(got, compose([placement(sh, "position", []), flip]), "the text")
            klass(sh, at, ph, "l", "layer", "t", "texttype")
            tx = Text(case)
            for k, want in (("text-anchor", ("start", "middle", "end")[anchor % 4]), ("dominant-baseline", ("text-before-edge", "central", "text-after-edge")[anchor // 4])):
                v = at.get(k)
                m = re.match(r"^\x01(\d+)\x02$", v or "")
                if m:
                    v = small(ph[int(m.group(1))][1], tx)
                if v != want and not (v is None and k == "text-anchor" and want == "start"):
                    raise Bad("the attribute %s of anchor %d is %s, not %s" % (k, anchor, v, want))
            m = re.match(r"^\x01(\d+)\x02$", body)
            if not m or ph[int(m.group(1))][0] != "val":
                raise Bad("the content is not the text of the label")
            p = ph[int(m.group(1))]
            if sh.mine(p[1]) != "text":
                if p[1].op in ("attr", "const"):
                    raise Bad("the content is not the text of the label")
                raise Give("content " + show(p[1], 4))
            ls = letters(p[2])
            want = ls.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            got = apply_chain(ls, p[2]).replace("&quot;", '"').replace("&#x27;", "'").replace("&apos;", "'")
            if got != want:
                raise Bad("the text of the label is not written as XML text")

        if run_cases(ctx, "svg", what, f, sh.it, one):
            ctx.ok("labels", what)


def klass(sh, at, ph, a, x, b, y):
    m = re.match(r"^%s\x01(\d+)\x02%s\x01(\d+)\x02$" % (a, b), at.get("class", ""))
    if not m:
        raise Bad("the class is not %s(%s)%s(%s)" % (a, x, b, y))
    for g, k in ((1, x), (2, y)):
        p = ph[int(m.group(g))]
        n = p[1] if p[0] in ("val", "num") else None
        if n is None or sh.mine(n) != k:
            if n is not None and n.op not in ("attr", "const"):
                raise Give("class of " + show(n, 4))
            raise Bad("the class is not %s(%s)%s(%s)" % (a, x, b, y))


# -- polygons -----------------------------------------------------------------------


def member(n):
    """(collection, site) of an item of a collection"""
    n = strip(n)
    if n.op == "elem":
        return strip(n.args[0]), n.args[1]
    if n.op == "sub":
        k = strip(n.args[1])
        if k.op == "elem":
            return strip(n.args[0]), k.args[1]
        if k.op == "idx":
            return strip(n.args[0]), k.args[-1]
    return None, None


def partial(n):
    return n.op == "sub" and strip(n.args[1]).op == "slice" and any(x is not None and not (isinstance(x, Node) and x.op == "const" and x.args[1] is None) for x in strip(n.args[1]).args[:2])


def polygons(ctx, prog):
    for cls in ("PolygonSet", "FlexPath", "RobustPath"):
        f = prog.need_method(cls, "to_svg")
        sh = Sheet(prog, f, {})
        ctx.saw(sh.it.functions_seen)
        what = "%s.to_svg" % cls

        def one(case, sh=sh, cls=cls):
            fl = sh.flow(case)
            if len(fl) != 1 or fl[0][1][0] != "text" or not fl[0][0]:
                raise Give("several parts are written")
            loops, (k, ps) = fl[0]
            s, ph = markup(ps)
            tag, at, body = element(s, ph, "a polygon")
            if tag != "polygon":
                raise Bad("a polygon is not written as <polygon>")
            m = re.match(r"^\s*\x01(\d+)\x02\s*$", at.get("points", ""))
            if not m or ph[int(m.group(1))][0] != "rep":
                raise Give("points " + at.get("points", ""))
            r = ph[int(m.group(1))]
            if not r[1] or r[1].strip(" ,\n\t"):
                raise Bad("the points are not separated")
            c = r[3]
            if len(c.args[2]) != 1 or c.args[3]:
                raise Give("points under a condition")
            src = strip(c.args[2][0])
            if partial(src):
                raise Bad("only a part of the points is written")
            found = []

            def leaf(n):
                if n.op == "elem" and strip(n.args[0]) is src:
                    return None if n is None else vertex(src)
                if n.op == "param" and n.args[0] == "scaling":
                    return scalar(A("scaling"))
                return None

            def vertex(x):
                x = strip(case.simp(x))
                if x.op == "bin" and x.args[0] in ("*", "/", "+", "-"):
                    return ev.binop(x.args[0], vertex(x.args[1]), vertex(x.args[2]))
                if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "numpy.multiply") or x.op == "call" and x.args[0] in ("list", "tuple", "iter"):
                    if x.args[0] == "numpy.multiply":
                        return ev.binop("*", vertex(x.args[1][0]), vertex(x.args[1][1]))
                    return vertex(x.args[1][0])
                if x.op == "mcall" and x.args[1] in ("tolist", "copy"):
                    return vertex(x.args[0])
                if x.op in ("param", "const"):
                    return ev.arr(x)
                found.append(x)
                return pair(A("p.x"), A("p.y"))

            ev = Eval(sh.it, leaf, case.decide)
            num = number(sh, case, leaf)
            t, tp = markup(r[2])
            q = re.match(r"^\x01(\d+)\x02[\s,]+\x01(\d+)\x02$", t)
            if not q:
                raise Give("point " + t)
            for g, k in ((1, "p.x"), (2, "p.y")):
                v = num(tp[int(q.group(g))])
                d = same(v, A("scaling") * A(k))
                if d is None:
                    raise Give("coordinate %s" % v)
                if d is False:
                    raise Bad("the coordinate %s is written instead of scaling * %s" % (v, k))
            if len(set(found)) != 1:
                raise Give("points of " + show(src, 4))
            owner(sh, cls, found[0], at, ph, loops)

        if run_cases(ctx, "svg", what, f, sh.it, one):
            ctx.ok("polygons", what)


def owner(sh, cls, poly, at, ph, loops):
    m = re.match(r"^l\x01(\d+)\x02d\x01(\d+)\x02$", at.get("class", ""))
    if not m:
        raise Bad("the class is not l(layer)d(datatype)")
    ld = [strip(ph[int(m.group(g))][1]) for g in (1, 2)]
    coll, site = member(poly)
    if coll is None:
        raise Give("polygon " + show(poly, 4))
    if partial(coll):
        raise Bad("only a part of the polygons is written")
    if cls == "PolygonSet":
        if sh.mine(coll) != "polygons":
            raise Give("polygon " + show(poly, 4))
        for n, k in zip(ld, ("layers", "datatypes")):
            c, s = member(n)
            if c is None or sh.mine(c) is None or s != site:
                if n.op == "const" or n.op == "sub" and sh.mine(n.args[0]) and strip(n.args[1]).op == "const":
                    raise Bad("the class is not the layer and datatype of the polygon")
                raise Give("class of " + show(n, 4))
            if sh.mine(c) != k:
                raise Bad("the class uses %s as %s" % (sh.mine(c), k))
        its = [strip(l[1]) for l in loops]
        if len(its) != 1:
            raise Give("loops")
        for x in subnodes(its[0]):
            if partial(x):
                raise Bad("only a part of the polygons is written")
        if its[0].op == "call" and its[0].args[0] in ("range", "xrange"):
            a = [strip(x) for x in its[0].args[1]]
            if not (len(a) == 1 and a[0].op == "call" and a[0].args[0] == "len"):
                raise Give("loop over " + show(its[0], 4))
        return
    # the dictionary of polygons
    if coll.op != "sub":
        raise Give("polygon " + show(poly, 4))
    d, key = strip(coll.args[0]), strip(coll.args[1])
    if key.op != "key" or strip(key.args[0]) is not d:
        raise Give("polygons " + show(coll, 4))
    if d.op != "icall" or d.args[0].name != "get_polygons":
        raise Give("polygons of " + show(d, 4))
    if strip(d.args[1][0]) is not sh.me:
        raise Give("polygons of " + show(d, 4))
    a, kw = d.args[1], dict(x for x in d.args[2] if isinstance(x, tuple))
    spec = a[1] if len(a) > 1 else kw.get("by_spec")
    if spec is None or spec.op == "const" and spec.args[1] is not True:
        raise Bad("the polygons are not separated by layer and datatype")
    for n, k in zip(ld, (0, 1)):
        if n.op == "sub" and strip(n.args[0]) is key and strip(n.args[1]).op == "const":
            if strip(n.args[1]).args[1] not in (k, k - 2):
                raise Bad("layer and datatype are exchanged in the class")
        elif n.op == "const" or member(n)[0] is not None and sh.mine(member(n)[0]) or n.op == "sub" and sh.mine(n.args[0]) and strip(n.args[1]).op == "const":
            raise Bad("the class is not the layer and datatype of the polygon")
        else:
            raise Give("class of " + show(n, 4))


# -- cells --------------------------------------------------------------------------


COLLS = ("polygons", "paths", "labels", "references")


def call_args(e, names, skip=0):
    a = list(e.args)[skip:]
    kw = dict(x for x in e.data.get("kwargs") or () if isinstance(x, tuple))
    out = []
    for i, k in enumerate(names):
        out.append(strip(a[i]) if i < len(a) else strip(kw[k]) if k in kw else None)
    return out


def passed(sh, args):
    for x, k in zip(args, ("outfile", "scaling", "precision")):
        if x is None:
            raise Bad("%s is not passed on" % k)
        if not (x.op == "param" and x.args[0] == k):
            if x.op in ("param", "const", "attr"):
                raise Bad("%s is not passed on but %s" % (k, show(x, 3)))
            raise Give("argument " + show(x, 3))


def cell(ctx, prog):
    f = prog.need_method("Cell", "to_svg")
    sh = Sheet(prog, f, {})
    ctx.saw(sh.it.functions_seen)
    what = "Cell.to_svg"

    def one(case):
        empty = set()
        for c, p in case.dec:
            xs = [x for x in subnodes(c) if sh.mine(x) in COLLS]
            k = strip(c)
            if not p and len(xs) == 1 and (k is xs[0] or k.op == "call" and k.args[0] == "len") or k.op == "cmp" and len(xs) == 1 and any(x.op == "call" and x.args[0] == "len" for x in subnodes(k)):
                if not p:
                    empty.add(sh.mine(xs[0]))
                continue
            raise Bad("what is written depends on the condition %s" % show(c, 4))
        fl = sh.flow(case)
        text = [i for i, x in enumerate(fl) if x[1][0] == "text"]
        calls = [i for i, x in enumerate(fl) if x[1][0] == "call"]
        if any(fl[i][0] for i in text):
            raise Give("text in a loop")
        pre = [p for i in text for p in fl[i][1][1] if not calls or i < calls[0]]
        if calls and (not text or text[0] > calls[0]):
            raise Bad("elements are written before the group begins")
        post = [p for i in text for p in fl[i][1][1] if calls and i > calls[-1]]
        if calls and not re.search("<g [^>]*>", markup(pre)[0]):
            raise Bad("elements are written before the group begins")
        if len(text) != len([i for i in text if not calls or i < calls[0] or i > calls[-1]]):
            raise Give("text between the elements")
        seen = {}
        for i in calls:
            loops, (k, e) = fl[i]
            if e.kind != "mcall" or e.name != "to_svg":
                raise Give("call of " + str(e.data.get("name") or e.data.get("target")))
            if len(loops) != 1 or loops[0][2] != "for":
                raise Give("loops")
            n = strip(e.recv)
            if member(n)[0] is None or member(n)[1] != loops[0][0] and member(n)[0] is not strip(loops[0][1]):
                raise Give("element " + show(n, 4))
            src = member(n)[0]
            if any(partial(x) for x in subnodes(src)):
                raise Bad("only a part of the elements is written")
            ks = [sh.mine(x) for x in subnodes(src) if sh.mine(x) in COLLS]
            if not ks or src.op not in ("attr", "bin", "call", "tuple", "list"):
                raise Give("elements " + show(src, 4))
            for k in ks:
                if k in seen:
                    raise Bad("the %s are written twice" % k)
                seen[k] = 1
            passed(sh, call_args(e, ("outfile", "scaling", "precision")))
        for k in COLLS:
            if k not in seen and k not in empty:
                raise Bad("the %s of the cell are not written" % k)
        s, ph = markup(pre)
        m = re.match(r'^\s*<g(\s+(?:[^<>])*)>\s*$', s)
        if not m:
            raise Bad("the elements are not preceded by the start of a group")
        ids = re.findall(r'\sid="\x01(\d+)\x02"', m.group(1))
        if len(ids) != 1:
            raise Bad("the group has no identifier")
        p = ph[int(ids[0])]
        if p[0] != "val" or sh.mine(p[1]) != "name":
            raise Bad("the identifier of the group is not the name of the cell")
        if any(ord(ch) < 33 or ch == '"' for ch in apply_chain("a", p[2])):
            raise Bad("the identifier is not valid")
        rest = [q for i, q in enumerate(ph) if i != int(ids[0])]
        if len(rest) != 1 or rest[0][0] != "val" or not (rest[0][1].op == "param" and rest[0][1].args[0] == "attributes"):
            raise Bad("the additional attributes are not written")
        if not re.search(r'(?:^|[\s])\x01\d+\x02', m.group(1).replace('id="\x01%s\x02"' % ids[0], "")):
            raise Bad("the additional attributes are not separated")
        s, ph = markup(post)
        if s.strip() != "</g>":
            raise Bad("the group is not closed after its elements")

    if run_cases(ctx, "svg", what, f, sh.it, one):
        ctx.ok("cells", what)


def document(ctx, prog):
    f = prog.need_method("Cell", "write_svg")
    for bg in ("none", "given"):
        for pad in ("str", "number") if bg == "given" else ("number",):
            sh = Sheet(prog, f, {}, [("outfile", "stream"), ("background", bg), ("pad", pad), ("given", ("get_bounding_box",))], {"background": None} if bg == "none" else {})
            ctx.saw(sh.it.functions_seen)
            what = "Cell.write_svg: " + ("no background" if bg == "none" else "margin given as %s" % ("text" if pad == "str" else "a number"))

            def one(case, sh=sh, bg=bg, pad=pad):
                doc(sh, case, bg, pad)

            if run_cases(ctx, "svg", what, f, sh.it, one):
                ctx.ok("documents", what)


def doc(sh, case, bg, pad):
    fl = sh.flow(case)
    percent = None
    for c, p in case.dec:
        if any(x.op == "const" and x.args[1] == "%" for x in subnodes(c)) and any(x.op == "param" and x.args[0] == "pad" for x in subnodes(c)):
            percent = p

    def leaf(n):
        if n.op == "icall" and n.args[0].name == "get_bounding_box":
            return Arr((2, 2), {(i, j): A("bb%d%d" % (i, j)) for i in (0, 1) for j in (0, 1)})
        if n.op == "param" and n.args[0] == "scaling":
            return scalar(A("scaling"))
        if n.op == "param" and n.args[0] == "pad" and pad == "number":
            return scalar(A("pad"))
        if n.op == "call" and n.args[0] == "float" and any(x.op == "param" and x.args[0] == "pad" for x in subnodes(n)):
            return scalar(A("pad"))
        if n.op == "call" and n.args[0] in ("max", "min") and len(n.args[1]) == 2:
            a, b = [ev.arr(x).data[()] for x in n.args[1]]
            if a.key() > b.key():
                a, b = b, a
            return scalar(Poly.atom((n.args[0], a, b)))
        return None

    ev = Eval(sh.it, leaf, case.decide)
    num = number(sh, case, leaf)
    s = A("scaling")
    w, h = s * (A("bb10") - A("bb00")), s * (A("bb11") - A("bb01"))
    x, y = s * A("bb00"), -s * A("bb11")
    if bg == "given":
        p = A("pad")
        if pad == "str":
            if percent is None:
                from ..lin import Fork
                for _, (k, ps) in fl:
                    for q in ps if k == "text" else ():
                        for z in subnodes(q[1]) if isinstance(q[1], Node) else ():
                            if z.op == "ite" and any(t.op == "const" and t.args[1] == "%" for t in subnodes(z.args[0])):
                                raise Fork(z.args[0])
                raise Give("margin")
            if percent:
                p = Poly.atom(("max",) + tuple(sorted((w, h), key=lambda q: q.key()))) * p * Poly.const(Fraction(1, 100))
        x, y, w, h = x - p, y - p, w + p + p, h + p + p
    box = (x, y, w, h)

    def nums(vals, ph, what):
        out = []
        for t in vals:
            m = re.match(r"^\x01(\d+)\x02$", t or "")
            if not m:
                raise Bad("%s is not the box of the cell" % what)
            out.append(num(ph[int(m.group(1))]))
        for a, b in zip(out, box if len(out) == 4 else box[2:]):
            r = same(a, b)
            if r is None:
                raise Give("cannot compare the box")
            if r is False:
                raise Bad("%s is not the box of the cell with its margin (%s instead of %s)" % (what, a, b))

    # the order of the parts
    parts = []
    for loops, (k, v) in fl:
        if k == "text":
            st, ph = markup(v)
            parts.append((loops, st, ph, None))
        else:
            parts.append((loops, "", [], v))
    if parts[0][0] or parts[0][3] is not None:
        raise Bad("the document does not begin with its header")
    st, ph = parts[0][1], parts[0][2]
    m = re.search(r"<svg((?:%s)*)\s*>" % ATTR.replace("(", "(?:", 2), st)
    if not m:
        raise Bad("the document does not begin with <svg>")
    at = dict(re.findall(ATTR, m.group(1)))
    nums([at.get("width"), at.get("height")], ph, "the size of the document")
    nums(re.split(r"[\s,]+", at.get("viewBox", "").strip()), ph, "the view box")
    if "xmlns" not in at or "xmlns:xlink" not in at:
        raise Bad("a name space is missing")
    # styles
    classes = {}
    stage = 0     # 0 style, 1 definitions, 2 body
    flat = re.sub(r"\x01\d+\x02", "", "".join(p[1] for p in parts))
    order = [flat.find(t) for t in ("<defs>", "<style", "</style>", "</defs>") + (("<rect",) if "<rect" in flat else ()) + ("</svg>",)]
    if -1 in order or order != sorted(order) or not flat.rstrip().endswith("</svg>"):
        raise Bad("the parts of the document are not in order")
    done = ""
    main = deps = 0
    rect = None
    for loops, st, ph, e in parts:
        if e is None:
            if loops:
                style(sh, case, loops, st, ph, classes, done)
            done += st
            for m in re.finditer(r"<rect((?:%s)*)\s*/>" % ATTR.replace("(", "(?:", 2), st):
                if loops or rect is not None or "</defs>" not in done or main:
                    raise Bad("the background is not drawn once, first")
                rect = dict(re.findall(ATTR, m.group(1)))
                nums([rect.get(k) for k in ("x", "y", "width", "height")], ph, "the background")
                q = re.match(r"^\x01(\d+)\x02$", rect.get("fill", ""))
                if not q or not (strip(ph[int(q.group(1))][1]).op == "param" and strip(ph[int(q.group(1))][1]).args[0] == "background"):
                    raise Bad("the background does not have its color")
            continue
        name = e.data.get("name") or getattr(e.data.get("func"), "name", None)
        if name != "to_svg":
            raise Give("call of %s" % name)
        skip = 1 if e.kind == "icall" else 0
        recv = strip(e.args[0]) if skip else strip(e.recv)
        args = call_args(e, ("outfile", "scaling", "precision", "attributes"), skip)
        passed(sh, args[:3])
        if recv is sh.me:
            if loops or "</defs>" not in done or "</svg>" in done:
                raise Bad("the cell is not drawn once, after the definitions")
            main += 1
            a = args[3]
            if a is None or a.op != "const" or not isinstance(a.args[1], str):
                raise Give("attributes of the cell")
            m = re.match(r'^\s*transform="([^"]*)"\s*$', a.args[1])
            if not m:
                raise Bad("the cell is drawn without the transformation of the document")
            equal(transform(m.group(1), [], num), S(ONE, -ONE), "the cell")
            continue
        src, site = member(recv)
        if len(loops) != 1 or src is None:
            raise Give("cell " + show(recv, 4))
        if any(partial(z) for z in subnodes(src)):
            raise Bad("only a part of the cells used is written")
        d = src
        if d.op == "call" and d.args[0] in ("sorted", "list", "tuple", "set") and d.args[1]:
            d = strip(d.args[1][0])
        if d.op != "icall" or d.args[0].name != "get_dependencies" or strip(d.args[1][0]) is not sh.me:
            raise Give("cells " + show(d, 4))
        kw = dict(z for z in d.args[2] if isinstance(z, tuple))
        rec = d.args[1][1] if len(d.args[1]) > 1 else kw.get("recursive")
        if rec is not None and rec.op != "const":
            q, pol = sh.it.norm_cond(rec)
            truth = sh.assume(q, None)
            if truth is None:
                raise Give("depth of the cells used")
        else:
            truth, pol = rec is not None and bool(rec.args[1]), True
        if truth != pol:
            raise Bad("only the cells used directly are written")
        if "</style>" not in done or "</defs>" in done or main:
            raise Bad("the cells used are not written as definitions")
        a = args[3]
        if a is None or a.op != "const" or a.args[1] is None or not isinstance(a.args[1], str) or a.args[1].strip():
            if a is not None and a.op == "const" and "transform" not in str(a.args[1]):
                raise Give("attributes of the definitions")
            raise Bad("the definitions are transformed")
        deps += 1
    if main != 1:
        raise Bad("the cell is not drawn exactly once")
    if deps != 1:
        raise Bad("the cells used are not written exactly once")
    if bg == "given" and rect is None:
        raise Bad("the background is not drawn")
    if bg == "none" and rect is not None:
        raise Bad("a background is drawn")
    for k in (0, 1):
        if k not in classes:
            raise Bad("the classes of the %s are not written" % ("polygons", "labels")[k])


def style(sh, case, loops, st, ph, classes, done):
    if not re.match(r"^\.", st.strip()):
        return
    if len(loops) != 1 or loops[0][2] != "for":
        raise Give("loops of the styles")
    m = re.match(r"^\s*\.l\x01(\d+)\x02([dt])\x01(\d+)\x02\s*\{(.*)\}\s*$", st, re.S)
    if not m:
        raise Bad("a class is not written as .l(layer)d(datatype) or .l(layer)t(texttype) with its style in braces")
    k = "dt".index(m.group(2))
    ns = [strip(ph[int(m.group(g))][1]) for g in (1, 3)]
    for i, n in enumerate(ns):
        if n.op != "sub" or strip(n.args[1]).op != "const":
            raise Give("class of " + show(n, 4))
        if strip(n.args[1]).args[1] not in (i, i - 2):
            raise Bad("layer and type are exchanged in the class")
        c, site = member(n.args[0])
        if c is None:
            raise Give("class of " + show(n, 4))
        if c.op == "call" and c.args[0] in ("sorted", "list", "tuple", "set"):
            c = strip(c.args[1][0])
        if c.op != "sub" or strip(c.args[0]).op != "icall" or strip(c.args[0]).args[0].name != "get_svg_classes" or strip(strip(c.args[0]).args[1][0]) is not sh.me:
            raise Give("class of " + show(n, 4))
        if strip(c.args[1]).op != "const" or strip(c.args[1]).args[1] not in (k, k - 2):
            raise Bad("the classes of the %s are written for the %s" % (("labels", "polygons")[k], ("polygons", "labels")[k]))
    if k in classes:
        raise Give("classes twice")
    m = re.match(r"^\s*\x01(\d+)\x02\s*$", m.group(4))
    r = ph[int(m.group(1))] if m else None
    if r and r[0] == "rep":
        rules(sh, case, r, "style" if k == 0 else "fontstyle", member_of(ph, ns))
    classes[k] = 1
    if "<style" not in done or "</style>" in done:
        raise Bad("the classes are not written in the style section")


def member_of(ph, ns):
    return strip(ns[0].args[0])


def rules(sh, case, r, param, item):
    """the style given for a class is used, all of it"""
    c = r[3]
    if c.args[3] or len(c.args[2]) != 1:
        raise Give("style under a condition")
    t, tp = markup(r[2])
    m = re.match(r"^\s*\x01(\d+)\x02\s*:\s*\x01(\d+)\x02\s*(;?)\s*$", t)
    if not m or not (m.group(3) or ";" in r[1]):
        if any(p[0] != "val" for p in tp) or len(tp) != 2:
            raise Give("style " + t)
        raise Bad("the style is not written as name: value;")
    k, v = [strip(case_simp(case, tp[int(m.group(g))][1])) for g in (1, 2)]
    if k.op != "key":
        if v.op == "key":
            raise Bad("names and values of the style are exchanged")
        raise Give("style " + show(k, 4))
    d = strip(case_simp(case, k.args[0]))
    for x in subnodes(k.args[0]):
        if x.op == "ite" and case.decide(x.args[0]) is None:
            from ..lin import Fork
            raise Fork(x.args[0])
    used = [x for x in subnodes(d) if x.op == "param" and x.args[0] in ("style", "fontstyle")]
    hit = [p for c, p in case.dec if c.op == "cmp" and c.args[0] == "in" and strip(c.args[1]) is item]
    if hit and hit[0]:
        if d.op == "sub" and strip(d.args[1]) is item:
            if not used:
                return   # an empty dictionary has no items
            if used[0].args[0] != param:
                raise Bad("the style of %s is used" % used[0].args[0])
            return
        if not used:
            raise Bad("the style given for a class is not used")
    elif hit and used:
        raise Bad("a style that is not given is used")


def case_simp(case, n):
    return Text(case).simp(n)


def svg(ctx):
    """drawing"""
    prog = ctx.prog
    ctx.rule("the texts each method writes to the file are put together abstractly from constants and formatted values for every combination of optional components; they must be one element with the required names, whose transformation, coordinates, class, link and content are compared, as polynomials and value identities, with those of the element drawn")
    ctx.assume("elements have the types their documentation gives; a name or text is written as it is by format")
    references(ctx, prog)
    labels(ctx, prog)
    polygons(ctx, prog)
    cell(ctx, prog)
    document(ctx, prog)
