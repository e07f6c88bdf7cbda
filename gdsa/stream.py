"""Abstract execution of byte-stream writers over the effect tree.

Every `write` of a function (with its in-package callees inlined) is broken
into typed tokens with symbolic sizes; the tokens are grouped into GDSII
records by the length announced in each record header.  The result, per
feasible path, is a sequence of Rec / Loop / Raw / Elem items."""
from .interp import Node, show
from .lin import Lin, Facts, Sizer, Fork, parse_format, FMT

REC = {
    0x0002: "HEADER", 0x0102: "BGNLIB", 0x0206: "LIBNAME", 0x0305: "UNITS", 0x0400: "ENDLIB",
    0x0502: "BGNSTR", 0x0606: "STRNAME", 0x0700: "ENDSTR", 0x0800: "BOUNDARY", 0x0900: "PATH",
    0x0A00: "SREF", 0x0B00: "AREF", 0x0C00: "TEXT", 0x0D02: "LAYER", 0x0E02: "DATATYPE",
    0x0F03: "WIDTH", 0x1003: "XY", 0x1100: "ENDEL", 0x1206: "SNAME", 0x1302: "COLROW",
    0x1602: "TEXTTYPE", 0x1701: "PRESENTATION", 0x1906: "STRING", 0x1A01: "STRANS",
    0x1B05: "MAG", 0x1C05: "ANGLE", 0x2102: "PATHTYPE", 0x2B02: "PROPATTR", 0x2C06: "PROPVALUE",
    0x3003: "BGNEXTN", 0x3103: "ENDEXTN",
}


def recname(code):
    if code is None:
        return "record of unknown type"
    return "%s (0x%04X)" % (REC.get(code, "record"), code)


class Tok(object):
    __slots__ = ("kind", "size", "node", "ch", "where", "extra")

    def __init__(self, kind, size, node, where, ch=None, extra=None):
        self.kind = kind      # int real str xy raw
        self.size = size      # Lin or None
        self.node = node
        self.where = where
        self.ch = ch
        self.extra = extra

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.size, show(self.node, 3))


class Rec(object):
    def __init__(self):
        self.code = None
        self.codenode = None
        self.L = None
        self.lnode = None
        self.toks = []
        self.where = None
        self.facts = None
        self.remaining = None
        self.loops = ()

    def __repr__(self):
        return "<Rec %s %s>" % (recname(self.code), self.where)


class Loop(object):
    def __init__(self, site, it, bodies, where, kind):
        self.site, self.it, self.bodies, self.where, self.kind = site, it, bodies, where, kind

    def __repr__(self):
        return "<Loop %s %s>" % (show(self.it, 3), self.bodies)


class Raw(object):
    def __init__(self, node, where):
        self.node, self.where = node, where

    def __repr__(self):
        return "<Raw %s>" % show(self.node, 3)


class Elem(object):
    """a nested serialisation call whose receiver is not resolved"""

    def __init__(self, recv, args, kwargs, where, name):
        self.recv, self.args, self.kwargs, self.where, self.name = recv, args, kwargs, where, name

    def __repr__(self):
        return "<Elem %s.%s>" % (show(self.recv, 3), self.name)


class Problem(object):
    """verdict: 'bad' (definite) or 'unknown'"""

    def __init__(self, verdict, rule, where, msg):
        self.verdict, self.rule, self.where, self.msg = verdict, rule, where, msg

    def __repr__(self):
        return "<%s %s %s %s>" % (self.verdict, self.rule, self.where, self.msg)


class Path(object):
    def __init__(self, facts):
        self.facts = facts
        self.items = []
        self.hdr = []      # header tokens gathered so far
        self.rec = None    # open record
        self.status = None

    def copy(self):
        p = Path(self.facts)
        p.items = list(self.items)
        p.hdr = list(self.hdr)
        p.rec = self.rec
        if self.rec is not None:
            r = Rec()
            r.__dict__.update(self.rec.__dict__)
            r.toks = list(self.rec.toks)
            p.rec = r
        p.status = self.status
        return p


UNDERSTOOD_CALLS = set("len min max int range abs".split())


def understood(a):
    """is this size atom a plain input quantity (so that two different atoms
    really are independent), rather than the result of an unknown computation?"""
    if not isinstance(a, Node):
        return False
    if a.op in ("param", "const", "elem", "key", "idx"):
        return all(understood(x) for x in a.args if isinstance(x, Node)) if a.op in ("elem", "key") else True
    if a.op == "attr":
        return understood(a.args[0])
    if a.op == "sub":
        return understood(a.args[0]) and understood(a.args[1])
    if a.op == "slice":
        return all(understood(x) for x in a.args)
    if a.op == "ver":
        return False
    if a.op == "bin":
        return understood(a.args[1]) and understood(a.args[2])
    if a.op == "call" and isinstance(a.args[0], str) and (a.args[0] in UNDERSTOOD_CALLS or a.args[0] in ("numpy.round", "zip", "enumerate")):
        return all(understood(x) for x in a.args[1])
    if a.op == "mcall" and a.args[1] in ("items", "keys", "values", "astype", "encode"):
        return understood(a.args[0])
    if a.op == "loopv":
        # integer induction variables
        return a.info is not None and isinstance(a.args[1], str) and _induction(a)
    return False


def _induction(a):
    i, n = a.info.get("init"), a.info.get("next")
    return i is not None and n is not None and i.op == "const" and n is not None


class Streams(object):
    MAXPATHS = 3000

    def __init__(self, it, is_write=None, nested=("to_gds",), nested_struct=("to_gds",)):
        self.it = it
        self.problems = []
        self.nested = set(nested)
        self.nwrites = 0
        self.nrec = 0
        self.npaths = 0
        self._rel = {}

    # -- tokens -----------------------------------------------------------
    def sizer(self, facts):
        return Sizer(self.it, facts, lambda n, arr=False: self.bytes_size(n, facts, arr))

    def bytes_size(self, n, facts, arr=False):
        n = facts.resolve(n)
        base = n.args[0] if n.op == "ver" else n
        if arr:
            dt = self.dtype(n, facts)
            if dt is None:
                return None
            return self.sizer(facts).length(n) * (2 * dt[1])
        if base.op == "bin" and base.args[0] == "+":
            a = self.bytes_size(base.args[1], facts)
            b = self.bytes_size(base.args[2], facts)
            if a is None or b is None:
                return None
            return a + b
        if (base.op == "call" and base.args[0] in ("struct.pack",)) or (base.op == "mcall" and base.args[1] in ("tobytes", "tostring", "join")) or self.is_real8(base) or (base.op == "const" and isinstance(base.args[1], bytes)):
            toks = self.tokens(n, facts, "")
            tot = Lin(0)
            for t in toks:
                if t.size is None:
                    return None
                tot = tot + t.size
            return tot
        return None

    def is_real8(self, n):
        if n.op == "icall" and "eight_byte_real" in n.args[0].name and "to_float" not in n.args[0].name:
            return True
        return False

    def dtype(self, n, facts):
        """(char, width, big) of an array node"""
        n = facts.resolve(n)
        if n.op == "ite":
            raise Fork(n.args[0])
        if n.op == "ver":
            return self.dtype(n.args[0], facts)
        d = None
        if n.op == "mcall" and n.args[1] == "astype":
            d = n.args[2][0] if n.args[2] else dict(n.args[3]).get("dtype")
        elif n.op == "mcall" and n.args[1] in ("copy", "reshape", "flatten", "ravel"):
            return self.dtype(n.args[0], facts)
        elif n.op == "call" and isinstance(n.args[0], str) and n.args[0].startswith("numpy."):
            kw = dict(n.args[2])
            d = kw.get("dtype")
            if d is None and n.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.array", "numpy.asarray") and len(n.args[1]) > 1:
                d = n.args[1][1]
            if d is None and n.args[0] in ("numpy.empty_like", "numpy.zeros_like", "numpy.ascontiguousarray", "numpy.copy") and n.args[1]:
                return self.dtype(n.args[1][0], facts)
            if d is None and n.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones"):
                return ("f", 8, False)
            if d is None and n.args[0] in ("numpy.round", "numpy.rint"):
                return ("f", 8, False)
        elif n.op == "sub":
            return self.dtype(n.args[0], facts)
        if d is None:
            return None
        d = facts.resolve(d)
        if d.op == "call" and d.args[0] == "numpy.dtype" and d.args[1]:
            d = d.args[1][0]
        if d.op == "const" and isinstance(d.args[1], str):
            s = d.args[1]
            big = s[:1] in (">", "!")
            if s[:1] in "<>=|!":
                s = s[1:]
            if len(s) == 2 and s[0] in "iuf" and s[1].isdigit():
                return (s[0], int(s[1]), big)
            if s in ("int32", "i"):
                return ("i", 4, big)
            if s in ("h", "int16"):
                return ("i", 2, big)
            return None
        if d.op == "ext":
            m = {"numpy.int32": ("i", 4, False), "numpy.int16": ("i", 2, False), "numpy.int64": ("i", 8, False), "int": ("i", 8, False), "float": ("f", 8, False), "numpy.float64": ("f", 8, False)}
            return m.get(d.args[0])
        return None

    def tokens(self, n, facts, where):
        n = facts.resolve(n)
        if n.op == "ite":
            raise Fork(n.args[0])
        sz = self.sizer(facts)
        base = n.args[0] if n.op == "ver" else n
        if n.op == "const":
            v = n.args[1]
            if isinstance(v, (bytes, str)):
                if len(v) == 0:
                    return []
                return [Tok("str", Lin(len(v)), n, where, extra=v)]
        if n.op == "bin" and n.args[0] == "+":
            return self.tokens(n.args[1], facts, where) + self.tokens(n.args[2], facts, where)
        if n.op == "bin" and n.args[0] == "*" and sz.strlike(n):
            return [Tok("str", sz.length(n), n, where)]
        if n.op == "call" and n.args[0] == "struct.pack" and n.args[1]:
            f = facts.resolve(n.args[1][0])
            if f.op == "ite":
                raise Fork(f.args[0])
            if f.op == "const" and isinstance(f.args[1], (str, bytes)):
                fs = f.args[1] if isinstance(f.args[1], str) else f.args[1].decode("ascii")
                pf = parse_format(fs)
                vals = []
                ok = True
                for a in n.args[1][1:]:
                    if a.op == "star":
                        b = facts.resolve(a.args[0])
                        if b.op in ("tuple", "list"):
                            vals += list(b.args[0])
                        else:
                            ok = False
                    else:
                        vals.append(a)
                if pf is not None:
                    chars, big = pf
                    if not big and any(w > 1 for _, w in chars):
                        self.problem("bad", "byte-order", where, "packed with format %r, which is not big-endian" % fs)
                    chars2 = [c for c in chars]
                    if ok and len([c for c in chars2 if c[0] != "x"]) == len(vals):
                        out = []
                        vi = 0
                        for ch, w in chars2:
                            if ch == "x":
                                out.append(Tok("str", Lin(1), self.it.const(0), where, ch))
                                continue
                            v = vals[vi]
                            vi += 1
                            if ch == "s":
                                out.append(Tok("str", Lin(w), v, where, ch))
                            else:
                                out.append(Tok("int", Lin(w), v, where, ch))
                        return out
                    if not ok:
                        # unknown splat: the layout is still known
                        out = []
                        for i, (ch, w) in enumerate(chars2):
                            out.append(Tok("str" if ch == "s" else "int", Lin(w), self.it.mk("opaque", ("splat", i, n)), where, ch))
                        return out
                    self.problem("bad", "pack-arity", where, "struct.pack(%r, ...) takes %d values and is given %d" % (fs, len(chars2), len(vals)))
            return [Tok("raw", None, n, where)]
        if self.is_real8(base):
            return [Tok("real", Lin(8), base.args[1][0] if base.args[1] else base, where)]
        if base.op == "mcall" and base.args[1] in ("tobytes", "tostring"):
            arr = facts.resolve(base.args[0])
            dt = self.dtype(arr, facts)
            if dt is None:
                return [Tok("raw", None, n, where)]
            if not dt[2] and dt[1] > 1:
                self.problem("bad", "byte-order", where, "array bytes are written with element type %s%d, not big-endian" % (dt[0], dt[1]))
            rows, scalar_row = self.rows(arr, facts)
            return [Tok("xy", rows * (2 * dt[1]), arr, where, extra=dt)]
        if base.op == "mcall" and base.args[1] == "encode":
            return [Tok("str", sz.length(base.args[0]), base.args[0], where)]
        if base.op == "mcall" and base.args[1] == "join" and base.args[2]:
            seq = facts.resolve(base.args[2][0])
            if seq.op == "ite":
                raise Fork(seq.args[0])
            sep = base.args[0]
            if sep.op == "const" and len(sep.args[1]) == 0:
                if seq.op in ("list", "tuple") and not any(x.op == "star" for x in seq.args[0]):
                    out = []
                    for x in seq.args[0]:
                        out += self.tokens(x, facts, where)
                    return out
                if seq.op == "ver" and seq.args[0].op == "list":
                    out = self._list_content(seq.args[0], seq.args[1], facts, where)
                    if out is not None:
                        return out
                if seq.op == "comp" and len(seq.args[2]) == 1 and not seq.args[3]:
                    inner = self.tokens(seq.args[1], facts, where)
                    tot = Lin(0)
                    for t in inner:
                        if t.size is None or not t.size.is_const():
                            return [Tok("raw", None, n, where)]
                        tot = tot + t.size
                    return [Tok(inner[0].kind if inner else "str", sz.length(seq.args[2][0]) * tot.c, inner[0].node if inner else n, where, inner[0].ch if inner else None, extra=inner)]
            return [Tok("raw", None, n, where)]
        if n.op == "call" and n.args[0] in ("bytes", "bytearray", "memoryview") and len(n.args[1]) == 1:
            return self.tokens(n.args[1][0], facts, where)
        return [Tok("raw", None, n, where)]

    def _list_content(self, base, c, facts, where):
        c = facts.resolve(c)
        if c.op == "ite":
            raise Fork(c.args[0])
        if c.op == "init":
            out = []
            for x in base.args[0]:
                if x.op == "star":
                    return None
                out += self.tokens(x, facts, where)
            return out
        if c.op == "upd":
            r = self._list_content(base, c.args[0], facts, where)
            if r is None:
                return None
            if c.args[1] == "append":
                return r + self.tokens(c.args[2][0], facts, where)
            if c.args[1] == "extend" and c.args[2][0].op in ("list", "tuple"):
                for x in c.args[2][0].args[0]:
                    r = r + self.tokens(x, facts, where)
                return r
        return None

    def rows(self, arr, facts):
        """number of coordinate rows of a written array"""
        sz = self.sizer(facts)
        a = facts.resolve(arr)
        if a.op == "sub" and a.args[1].op not in ("slice", "tuple"):
            return Lin(1), True
        return sz.length(a), False

    # -- problems ---------------------------------------------------------
    def problem(self, verdict, rule, where, msg):
        for p in self.problems:
            if (p.verdict, p.rule, p.where, p.msg) == (verdict, rule, where, msg):
                return
        self.problems.append(Problem(verdict, rule, where, msg))

    # -- walking ----------------------------------------------------------
    def relevant(self, tree):
        k = id(tree)
        r = self._rel.get(k)
        if r is None:
            r = (tree, self._relevant(tree))
            self._rel[k] = r
        return r[1]

    def _relevant(self, tree):
        for t in tree:
            k = t[0]
            if k == "eff":
                e = t[1]
                if self.write_arg(e) is not None or self.is_nested(e):
                    return True
            elif k in ("return", "raise", "break", "continue"):
                return True
            elif k == "if":
                if self.relevant(t[2]) or self.relevant(t[3]):
                    return True
            elif k == "loop":
                if self.writes_in(t[3]):
                    return True
            elif k == "inline":
                if self.writes_in(t[2]):
                    return True
            elif k == "with":
                if self.relevant(t[2]):
                    return True
            elif k == "try":
                if self.relevant(t[1]) or any(self.relevant(h) for _, h in t[2]) or self.relevant(t[3]):
                    return True
        return False

    def writes_in(self, tree):
        found = []

        def fn(e):
            if self.write_arg(e) is not None or self.is_nested(e):
                found.append(e)

        from .interp import walk_tree

        walk_tree(tree, fn)
        return bool(found)

    def write_arg(self, e):
        if e.kind == "mcall" and e.data["name"] == "write" and len(e.data["args"]) == 1:
            return e.data["args"][0]
        if e.kind == "mcall" and e.data["name"] == "writelines" and len(e.data["args"]) == 1:
            return e.data["args"][0]
        if e.kind == "call" and isinstance(e.data["target"], Node) and e.data["target"].op == "attr" and e.data["target"].args[1] == "write" and len(e.data["args"]) == 1:
            return e.data["args"][0]
        return None

    def is_nested(self, e):
        return (e.kind == "mcall" and e.data["name"] in self.nested) or (e.kind == "icall" and e.data["func"].name in self.nested)

    def run(self, tree, facts=None):
        p = Path(facts or Facts(self.it))
        ends = self.walk(tree, [p])
        out = []
        for q in ends:
            if q.status == "raise":
                continue
            self.finish(q, "the end of the function")
            out.append(q)
        self.npaths += len(out)
        return out

    def walk(self, tree, paths):
        i = 0
        while i < len(tree):
            t = tree[i]
            i += 1
            live = [p for p in paths if p.status is None]
            done = [p for p in paths if p.status is not None]
            if not live:
                return paths
            out = []
            for p in live:
                out.extend(self.step(t, p))
            paths = done + out
            if len(paths) > self.MAXPATHS:
                from .model import AnalysisBroken

                raise AnalysisBroken("too many writer paths")
        return paths

    def forked(self, p, fn):
        """apply fn(path) -> [paths], splitting p on undecided conditions"""
        work = [p]
        out = []
        n = 0
        while work:
            q = work.pop()
            snap = q.copy()
            try:
                out.extend(fn(q))
            except Fork as f:
                n += 1
                if n > 400:
                    self.problem("unknown", "fork", "", "too many conditions")
                    continue
                for v in (True, False):
                    nf = snap.facts.add(f.cond, v)
                    if nf is not None:
                        c = snap.copy()
                        c.facts = nf
                        work.append(c)
        return out

    def step(self, t, p):
        k = t[0]
        if k == "eff":
            e = t[1]
            w = self.write_arg(e)
            if w is not None:
                self.nwrites += 1
                return self.forked(p, lambda q: self.do_write(q, w, e))
            if self.is_nested(e):
                self.boundary(p, "a nested element is written", e.where)
                recv = e.data.get("recv") or (e.data["args"][0] if e.data["args"] else None)
                args = e.data["args"] if e.kind == "mcall" else e.data["args"][1:]
                p.items.append(Elem(recv, args, e.data["kwargs"], e.where, e.data.get("name") or e.data["func"].name))
                return [p]
            return [p]
        if k == "if":
            if not (self.relevant(t[2]) or self.relevant(t[3])):
                return [p]
            d = p.facts.decide(t[1])
            out = []
            for v, sub in ((True, t[2]), (False, t[3])):
                if d is not None and d != v:
                    continue
                nf = p.facts.add(t[1], v)
                if nf is None:
                    continue
                q = p.copy()
                q.facts = nf
                out.extend(self.walk(sub, [q]))
            return out
        if k == "loop":
            return self.forked(p, lambda q: self.do_loop(t, q))
        if k == "inline":
            if not self.writes_in(t[2]):
                return [p]
            out = self.walk(t[2], [p])
            for q in out:
                if q.status == "return":
                    q.status = None
            return out
        if k == "with":
            return self.walk(t[2], [p])
        if k == "try":
            snap = p.copy()
            out = self.walk(t[1], [p])
            for _, h in t[2]:
                if self.relevant(h):
                    out.extend(self.walk(h, [snap.copy()]))
            res = []
            for q in out:
                s = q.status
                q.status = None
                for r in self.walk(t[3], [q]):
                    r.status = r.status or s
                    res.append(r)
            return res
        if k == "return":
            p.status = "return"
            return [p]
        if k in ("raise", "break", "continue"):
            p.status = k
            return [p]
        return [p]

    def do_loop(self, t, p):
        _, site, it, body, kind, where, inf = t
        if not self.writes_in(body):
            return [p]
        open_rec = p.rec is not None or p.hdr
        q = Path(p.facts)
        if kind == "while" and isinstance(it, Node):
            c, pol = self.it.norm_cond(it)
            nf = q.facts.add(c, pol)
            if nf is None:
                return [p]
            q.facts = nf
        if open_rec:
            # the loop writes (part of) the payload of an open record
            q.rec = Rec()
            q.rec.remaining = None
            q.rec.code = p.rec.code if p.rec else None
            q.rec.where = p.rec.where if p.rec else where
        ends = self.walk(body, [q])
        if open_rec:
            sizes = []
            for e in ends:
                tot = Lin(0)
                ok = not e.items
                for tk in (e.rec.toks if e.rec else []):
                    if tk.size is None:
                        ok = False
                    else:
                        tot = tot + tk.size
                sizes.append(tot if ok and tot.is_const() else None)
            if sizes and all(s is not None and s.c == sizes[0].c for s in sizes) and kind == "for":
                n = self.sizer(p.facts).length(it)
                for tk in ends[0].rec.toks:
                    p.rec.toks.append(tk)
                if p.rec.remaining is not None:
                    p.rec.remaining = p.rec.remaining - n * sizes[0].c
                    self.maybe_close(p)
                return [p]
            if any(e.items for e in ends):
                self.mismatch(p, "a loop writing records starts", where)
                p.rec = None
                p.hdr = []
                return self.do_loop(t, p)
            self.problem("unknown", "loop-payload", where, "payload written by a loop of unknown size")
            p.rec = None
            p.hdr = []
            return [p]
        bodies = []
        for e in ends:
            if e.status in ("raise",):
                continue
            self.finish(e, "the end of a loop iteration")
            bodies.append(e)
        # returns from inside the loop: treated as leaving the function
        p.items.append(Loop(site, it, bodies, where, kind))
        return [p]

    # -- record assembly --------------------------------------------------
    def do_write(self, p, node, e):
        toks = self.tokens(node, p.facts, e.where)
        for tk in toks:
            self.feed(p, tk, e)
        return [p]

    def feed(self, p, tk, e):
        r = p.rec
        if r is not None:
            r.toks.append(tk)
            if r.remaining is None:
                # size unknown (inside a payload loop, or unknown header)
                if tk.kind == "int" and tk.ch in ("H", "h") and r.code is None and r.L is not None:
                    pass
                return
            if tk.size is None:
                self.problem("unknown", "raw-payload", tk.where, "payload of unknown size in %s" % recname(r.code))
                r.remaining = None
                p.items.append(r)
                p.rec = None
                return
            rem = r.remaining - tk.size
            # a 16-bit field cannot continue a text, real or 32-bit payload
            if tk.kind == "int" and tk.size.c == 2 and r.code is not None and (r.code & 0xFF) in (3, 5, 6):
                r.toks.pop()
                self.mismatch(p, "the next record starts", tk.where)
                p.rec = None
                self.feed(p, tk, e)
                return
            r.remaining = rem
            if rem.is_const() and rem.c < 0:
                self.problem("bad", "record-length", tk.where, "%s announces %s bytes but %d more are written" % (recname(r.code), r.L, -rem.c))
                p.items.append(r)
                p.rec = None
                return
            self.maybe_close(p)
            return
        # header
        if tk.kind == "raw":
            if p.hdr:
                self.problem("unknown", "raw", tk.where, "unknown bytes inside a record header")
                p.hdr = []
            p.items.append(Raw(tk.node, tk.where))
            return
        if tk.kind in ("str", "xy", "real") and not p.hdr:
            if tk.size is not None and tk.size.is_const() and tk.size.c == 0:
                return
            self.problem("bad", "outside-record", tk.where, "bytes (%s) written outside any record" % show(tk.node, 3))
            return
        p.hdr.append(tk)
        hs = p.hdr
        if len(hs) == 1:
            if hs[0].kind != "int" or hs[0].size.c != 2:
                self.problem("bad" if hs[0].kind == "int" else "unknown", "header", tk.where, "a record must start with a 16-bit length field")
                p.hdr = []
            return
        tot = sum(h.size.c if h.size is not None and h.size.is_const() else 99 for h in hs)
        if tot < 4:
            return
        if tot > 4 or any(h.kind != "int" for h in hs):
            self.problem("bad", "header", tk.where, "the record length is not followed by a 16-bit record type")
            p.hdr = []
            return
        r = Rec()
        r.where = hs[0].where
        r.facts = p.facts
        r.loops = e.loops
        p.hdr = []
        sz = self.sizer(p.facts)
        r.lnode = hs[0].node
        r.L = sz.lin(hs[0].node)
        if len(hs) == 2:
            c = sz.lin(hs[1].node)
            r.code = c.c if c.is_const() else None
        else:
            a, b = sz.lin(hs[1].node), sz.lin(hs[2].node)
            r.code = (a.c << 8 | b.c) if a.is_const() and b.is_const() else None
        r.codenode = hs[1].node
        r.remaining = r.L - 4
        p.rec = r
        self.nrec += 1
        if hs[0].ch == "h" or (len(hs) == 2 and hs[1].ch == "h" and False):
            u = sz.upper(r.L)
            if u is None or u > 32767:
                self.problem("bad" if not r.L.is_const() else ("bad" if r.L.c > 32767 else "ok"), "record-length", r.where, "the length field of %s is packed as a signed 16-bit integer" % recname(r.code))
        self.check_even(p, r, sz)
        self.check_bound(p, r, sz)
        self.maybe_close(p)

    def check_even(self, p, r, sz):
        par = sz.parity(r.L)
        if par == 1:
            self.problem("bad", "record-even", r.where, "%s can have an odd length (%s)" % (recname(r.code), r.L))
        elif par is None:
            odd = [a for a, k in r.L.t.items() if k % 2]
            if odd and all(understood(a) for a in odd):
                self.problem("bad", "record-even", r.where, "%s can have an odd length (%s): no padding on this path" % (recname(r.code), r.L))
            else:
                self.problem("unknown", "record-even", r.where, "parity of %s not decided (%s)" % (recname(r.code), r.L))

    def check_bound(self, p, r, sz):
        if r.L.is_const():
            if r.L.c < 4 or r.L.c > 65535:
                self.problem("bad", "record-length", r.where, "%s announces %d bytes" % (recname(r.code), r.L.c))
            return
        if r.code is not None and (r.code & 0xFF) == 3:
            u = sz.upper(r.L)
            if u is None:
                if all(understood(a) for a in r.L.t):
                    self.problem("bad", "record-bound", r.where, "the length of %s (%s) is not bounded by the 16-bit length field" % (recname(r.code), r.L))
                else:
                    self.problem("unknown", "record-bound", r.where, "bound of %s not decided (%s)" % (recname(r.code), r.L))
            elif u > 65535:
                self.problem("bad", "record-bound", r.where, "the length of %s can reach %d, beyond the 16-bit length field" % (recname(r.code), u))

    def maybe_close(self, p):
        r = p.rec
        if r is not None and r.remaining is not None and r.remaining.is_const() and r.remaining.c == 0:
            p.items.append(r)
            p.rec = None

    def mismatch(self, p, what, where):
        r = p.rec
        rem = r.remaining
        p.items.append(r)
        if rem is None:
            return
        # a slice x[lo:hi] announced as hi - lo items although hi may lie beyond the end
        sz = self.sizer(p.facts)
        alt = rem
        for a, k in list(rem.t.items()):
            if isinstance(a, Node) and a.op == "sub" and a.args[1].op == "slice":
                lo, hi, st = a.args[1].args
                try:
                    d = (Lin(0) if hi.op == "const" and hi.args[1] is None else sz.lin(hi)) - (Lin(0) if lo.op == "const" and lo.args[1] is None else sz.lin(lo))
                except Fork:
                    continue
                alt = alt - Lin(0, {a: k}) + d * k
        if alt is not rem and alt.is_const() and alt.c == 0:
            self.problem("bad", "record-length", r.where, "%s announces %s bytes, but the slice written can be shorter at the end of the list" % (recname(r.code), r.L))
            return
        if rem.is_const() or all(understood(a) for a in rem.t):
            self.problem("bad", "record-length", r.where, "%s announces %s bytes, but when %s %s of them are missing (negative: surplus)" % (recname(r.code), r.L, what, rem))
        else:
            self.problem("unknown", "record-length", r.where, "%s: payload size not decided (%s)" % (recname(r.code), rem))

    def boundary(self, p, what, where):
        if p.hdr:
            self.problem("bad", "header", where, "%s in the middle of a record header" % what)
            p.hdr = []
        if p.rec is not None:
            self.mismatch(p, what, where)
            p.rec = None

    def finish(self, p, what):
        self.boundary(p, what, p.rec.where if p.rec is not None else "")
