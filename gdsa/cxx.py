"""C++ sources: syntax trees from clang (parsed only, against declarations of the
Python API kept next to this file) turned into plain tuples.

Expressions: ("var", name, id, type) ("int", n) ("float", x) ("str", s) ("null",)
("bool", b) ("enum", name) ("call", name, args, off) ("mcall", obj, name, args, off, type)
("index", base, idx) ("member", base, name) ("un", op, e) ("bin", op, a, b)
("assign", op, lhs, rhs) ("cond", c, a, b) ("construct", type, args) ("new", type, args)
("throw", e) ("other", kind, children).
Statements: ("expr", e, off) ("decl", [(name, id, type, init)], off) ("if", c, a, b, off)
("for", init, cond, inc, body, off) ("while", c, body, off) ("do", c, body, off)
("rangefor", var, range, body, off) ("return", e, off) ("break", off) ("continue", off)
("block", [..]) ("try", block, [(type, block)], off) ("switch", c, body, off) ("nop",)."""
import json
import os
import shutil
import subprocess


class CxxError(Exception):
    pass


class Fn(object):
    def __init__(self, name, cls, params, ret, body, off, unit, decl=None):
        self.name, self.cls, self.params, self.ret, self.body, self.off, self.unit = name, cls, params, ret, body, off, unit
        self.qualname = (cls + "::" if cls else "") + name

    def where(self, off=None):
        return self.unit.where(self.off if off is None else off)


CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr")
OPS = {"operator[]": "index", "operator=": "="}


class Unit(object):
    """one translation unit"""

    def __init__(self, root, path, namespace="ClipperLib"):
        self.root, self.path = root, path
        full = os.path.join(root, path)
        self.data = open(full, "rb").read()
        self.lines = [0]
        for i, b in enumerate(self.data):
            if b == 10:
                self.lines.append(i + 1)
        exe = None
        for c in ("/usr/bin/clang++-18", "/usr/bin/clang++", "clang++"):
            exe = shutil.which(c)
            if exe:
                break
        if exe is None:
            raise CxxError("no clang++")
        stub = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cstub")
        cmd = [exe, "-fsyntax-only", "-I", stub, "-x", "c++", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + namespace + "::", full]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise CxxError("%s: %s" % (path, r.stderr.decode("utf-8", "replace").strip().split("\n")[0]))
        text = r.stdout.decode("utf-8", "replace")
        dec = json.JSONDecoder()
        i, self.docs = 0, []
        while True:
            while i < len(text) and text[i] in " \n\r\t":
                i += 1
            if i >= len(text):
                break
            o, i = dec.raw_decode(text, i)
            self.docs.append(o)
        self.records = {}
        self.owner = {}       # id of a declared method -> class
        for d in self.docs:
            if d["kind"] == "CXXRecordDecl" and d.get("completeDefinition"):
                self.records[d["name"]] = [b["type"]["qualType"].split("::")[-1] for b in d.get("bases", ())]
                for m in d.get("inner", ()):
                    if m.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                        self.owner[m["id"]] = d["name"]
        self.functions = []
        for d in self.docs:
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                self.function(d)
            elif d["kind"] == "CXXRecordDecl" and d.get("completeDefinition"):
                for m in d.get("inner", ()):
                    if m.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                        self.function(m, d["name"])

    def function(self, d, cls=None):
        body = [x for x in d.get("inner", ()) if x.get("kind") == "CompoundStmt"]
        if not body:
            return
        if cls is None:
            cls = self.owner.get(d.get("previousDecl") or d["id"])
        ps = [(x.get("name", ""), x["id"], x["type"]["qualType"]) for x in d.get("inner", ()) if x.get("kind") == "ParmVarDecl"]
        t = d["type"]["qualType"]
        self.functions.append(Fn(d["name"], cls, ps, t.split("(")[0].strip(), body[0], self.off(d), self))

    def find(self, name):
        return [f for f in self.functions if f.name == name]

    def where(self, off):
        import bisect
        return "%s:%d" % (self.path, bisect.bisect_right(self.lines, off) if off is not None else 0)

    def off(self, n):
        b = n.get("range", {}).get("begin", {})
        if "offset" in b:
            return b["offset"]
        for k in ("expansionLoc", "spellingLoc"):
            if "offset" in b.get(k, {}):
                return b[k]["offset"]
        return n.get("loc", {}).get("offset", 0)

    # -- conversion ------------------------------------------------------
    def kids(self, n):
        return [x for x in n.get("inner", ()) if x]

    def expr(self, n):
        k = n.get("kind")
        ks = self.kids(n)
        if k in CASTS:
            if n.get("castKind") in ("NullToPointer",):
                return ("null",)
            if not ks:
                return ("other", k, [])
            return self.expr(ks[-1])
        if k == "DeclRefExpr":
            r = n.get("referencedDecl", {})
            if r.get("kind") == "EnumConstantDecl":
                return ("enum", r.get("name"))
            return ("var", r.get("name"), r.get("id"), r.get("type", {}).get("qualType", ""))
        if k == "IntegerLiteral":
            return ("int", int(n["value"]))
        if k == "FloatingLiteral":
            return ("float", float(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return ("bool", bool(n["value"]))
        if k == "StringLiteral":
            try:
                return ("str", json.loads(n["value"]))
            except ValueError:
                return ("str", n["value"].strip('"'))
        if k == "CharacterLiteral":
            return ("int", int(n["value"]))
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"):
            return ("null",)
        if k == "CallExpr":
            f = self.expr(ks[0])
            args = [self.expr(x) for x in ks[1:] if x.get("kind") != "CXXDefaultArgExpr"]
            return ("call", f[1] if f[0] == "var" else None, args, self.off(n))
        if k == "CXXMemberCallExpr":
            m = ks[0]
            args = [self.expr(x) for x in ks[1:] if x.get("kind") != "CXXDefaultArgExpr"]
            mk = self.kids(m)
            if m.get("kind") == "MemberExpr" and mk:
                return ("mcall", self.expr(mk[0]), m.get("name"), args, self.off(n), self.type_of(mk[0]))
            return ("other", k, [self.expr(x) for x in ks])
        if k == "CXXOperatorCallExpr":
            op = self.expr(ks[0])
            nm = op[1] if op[0] == "var" else None
            a = [self.expr(x) for x in ks[1:]]
            if nm == "operator[]":
                return ("index", a[0], a[1])
            if nm == "operator=":
                return ("assign", "=", a[0], a[1])
            if nm in ("operator++", "operator--", "operator*", "operator!", "operator->", "operator-") and (len(a) == 1 or nm in ("operator++", "operator--")):
                return ("un", nm[8:], a[0])
            if nm and len(a) == 2:
                o = nm[8:]
                return ("assign", o, a[0], a[1]) if o.endswith("=") and o not in ("==", "!=", "<=", ">=") else ("bin", o, a[0], a[1])
            return ("call", nm, a, self.off(n))
        if k == "MemberExpr":
            return ("member", self.expr(ks[0]), n.get("name")) if ks else ("other", k, [])
        if k == "ArraySubscriptExpr":
            return ("index", self.expr(ks[0]), self.expr(ks[1]))
        if k == "UnaryOperator":
            return ("un", n["opcode"], self.expr(ks[0]))
        if k == "BinaryOperator":
            if n["opcode"] == "=":
                return ("assign", "=", self.expr(ks[0]), self.expr(ks[1]))
            return ("bin", n["opcode"], self.expr(ks[0]), self.expr(ks[1]))
        if k == "CompoundAssignOperator":
            return ("assign", n["opcode"], self.expr(ks[0]), self.expr(ks[1]))
        if k == "ConditionalOperator":
            return ("cond", self.expr(ks[0]), self.expr(ks[1]), self.expr(ks[2]))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [self.expr(x) for x in ks if x.get("kind") != "CXXDefaultArgExpr"]
            return ("construct", n["type"]["qualType"], a)
        if k == "CXXNewExpr":
            return ("new", n["type"]["qualType"], [self.expr(x) for x in ks])
        if k == "CXXDeleteExpr":
            return ("call", "delete", [self.expr(x) for x in ks], self.off(n))
        if k == "CXXThrowExpr":
            return ("throw", self.expr(ks[0]) if ks else None, self.off(n))
        if k == "InitListExpr":
            return ("list", [self.expr(x) for x in ks])
        if k == "UnaryExprOrTypeTraitExpr":
            return ("other", k, [])
        return ("other", k, [self.expr(x) for x in ks if "kind" in x])

    def type_of(self, n):
        return n.get("type", {}).get("qualType", "")

    def stmt(self, n):
        k = n.get("kind")
        if not n or k is None:
            return ("nop",)
        ks = n.get("inner", [])
        off = self.off(n)
        if k == "CompoundStmt":
            return ("block", [self.stmt(x) for x in ks])
        if k == "DeclStmt":
            out = []
            for v in ks:
                if v.get("kind") == "VarDecl":
                    i = [x for x in self.kids(v) if "Attr" not in x.get("kind", "")]
                    out.append((v.get("name"), v["id"], v["type"]["qualType"], self.expr(i[-1]) if i else None))
            return ("decl", out, off)
        if k == "IfStmt":
            i = 0
            pre = []
            ks = [x for x in ks]
            if n.get("hasInit"):
                pre.append(self.stmt(ks[0]))
                ks = ks[1:]
            if n.get("hasVar"):
                pre.append(self.stmt(ks[0]))
                ks = ks[1:]
            s = ("if", self.expr(ks[0]), self.stmt(ks[1]), self.stmt(ks[2]) if len(ks) > 2 else ("nop",), off)
            return ("block", pre + [s]) if pre else s
        if k == "ForStmt":
            # init, condition variable, condition, increment, body
            init, cv, c, inc, body = ks
            return ("for", self.stmt(init), self.expr(c) if c else None, self.expr(inc) if inc else None, self.stmt(body), off)
        if k == "CXXForRangeStmt":
            rng = var = None
            for x in ks:
                if x.get("kind") == "DeclStmt":
                    v = x["inner"][0]
                    if v.get("name", "").startswith("__range"):
                        rng = self.expr(v["inner"][-1])
                    elif not v.get("name", "").startswith("__"):
                        var = (v.get("name"), v["id"], v["type"]["qualType"])
            return ("rangefor", var, rng, self.stmt(ks[-1]), off)
        if k == "WhileStmt":
            ks = [x for x in ks if x]
            return ("while", self.expr(ks[0]), self.stmt(ks[-1]), off)
        if k == "DoStmt":
            return ("do", self.expr(ks[1]), self.stmt(ks[0]), off)
        if k == "ReturnStmt":
            return ("return", self.expr(ks[0]) if ks else None, off)
        if k == "BreakStmt":
            return ("break", off)
        if k == "ContinueStmt":
            return ("continue", off)
        if k == "NullStmt":
            return ("nop",)
        if k == "CXXTryStmt":
            hs = []
            for h in ks[1:]:
                hk = h.get("inner", [])
                t = None
                if hk and hk[0] and hk[0].get("kind") == "VarDecl":
                    t = hk[0]["type"]["qualType"]
                hs.append((t, self.stmt(hk[-1])))
            return ("try", self.stmt(ks[0]), hs, off)
        if k == "SwitchStmt":
            return ("switch", self.expr([x for x in ks if x][0]), self.stmt(ks[-1]), off)
        if k in ("CaseStmt", "DefaultStmt"):
            x = [x for x in ks if x]
            return ("case", self.expr(x[0]) if k == "CaseStmt" else None, self.stmt(x[-1]), off)
        if k in ("GotoStmt", "LabelStmt", "IndirectGotoStmt"):
            return ("goto", off)
        return ("expr", self.expr(n), off)

    def body(self, f):
        if not hasattr(f, "ir"):
            f.ir = self.stmt(f.body)
        return f.ir


def walk(x):
    """all expression and statement tuples"""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, tuple):
            if n and isinstance(n[0], str):
                yield n
            stack.extend(y for y in reversed(n) if isinstance(y, (tuple, list)))
        elif isinstance(n, list):
            stack.extend(y for y in reversed(n) if isinstance(y, (tuple, list)))


def text(e):
    """source-like text of an expression"""
    k = e[0]
    if k == "var":
        return e[1] or "?"
    if k in ("int", "float"):
        return str(e[1])
    if k == "bool":
        return "true" if e[1] else "false"
    if k == "str":
        return json.dumps(e[1])
    if k == "null":
        return "NULL"
    if k == "enum":
        return e[1]
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(map(text, e[2])))
    if k == "mcall":
        return "%s.%s(%s)" % (text(e[1]), e[2], ", ".join(map(text, e[3])))
    if k == "index":
        return "%s[%s]" % (text(e[1]), text(e[2]))
    if k == "member":
        return "%s.%s" % (text(e[1]), e[2])
    if k == "un":
        return e[1] + text(e[2])
    if k in ("bin", "assign"):
        return "(%s %s %s)" % (text(e[2]), e[1], text(e[3]))
    if k == "cond":
        return "(%s ? %s : %s)" % (text(e[1]), text(e[2]), text(e[3]))
    return k
