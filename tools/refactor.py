#!/usr/bin/env python3
"""behaviour-preserving rewrites of the analysed sources, to test that the checks
judge what code does and not how it is written:

    refactor.py KIND SEED PROB SRC DST     rewrite every .py file of SRC into DST

Not used by any check."""
import ast
import copy
import os
import random
import sys


def names_stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def names_loaded(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def has(node, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(node))


class Base(ast.NodeTransformer):
    def __init__(self, rnd, prob):
        self.rnd, self.prob, self.n = rnd, prob, 0
        self.count = 0

    def hit(self):
        if self.rnd.random() < self.prob:
            self.count += 1
            return True
        return False

    def fresh(self, p="rf"):
        self.n += 1
        return "%s_%d_" % (p, self.n)


class NegateIf(Base):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.hit():
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n


class ElifNest(Base):
    """if/elif: negate anyway, nesting the elif chain"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and self.hit():
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class AugToAssign(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and isinstance(n.value, (ast.Constant,)) and self.hit():
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class ForToIndex(Base):
    """for x in EXPR(attr/name): -> for i in range(len(EXPR)): x = EXPR[i]  (lists only: attributes with known list names)"""
    LISTS = {"polygons", "layers", "datatypes", "labels", "references", "paths"}

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and n.iter.attr in self.LISTS and not n.orelse and isinstance(n.iter.value, ast.Name) and n.iter.value.id in ("self", "polyset", "element") and not (names_stored(n) & names_loaded(n.iter)) and self.hit():
            i = self.fresh("idx")
            get = ast.Assign([n.target], ast.Subscript(copy.deepcopy(n.iter), ast.Name(i, ast.Load()), ast.Load()))
            return ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(n.iter)], [])], []), [get] + n.body, [])
        return n


class RangeToWhile(Base):
    """for i in range(n): body -> i = 0; while i < n: body; i += 1 (no continue, i and n not assigned)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse:
            stored = set()
            for b in n.body:
                stored |= names_stored(b)
            if n.target.id in stored or has(n, ast.Continue) or has(n, ast.Return) or (names_loaded(n.iter) & stored):
                return n
            if not self.hit():
                return n
            lim = self.fresh("lim")
            i = n.target.id
            return [ast.Assign([ast.Name(lim, ast.Store())], n.iter.args[0]), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(lim, ast.Load())]), n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Enumerate(Base):
    """for i in range(len(X)) -> for i, _ in enumerate(X)"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" and isinstance(n.target, ast.Name):
            x = it.args[0].args[0]
            root = x
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if not (isinstance(x, (ast.Attribute, ast.Name))):
                return n
            # the list must not be resized or rebound inside
            src = ast.dump(x)
            for m in ast.walk(ast.Module(n.body, [])):
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ("append", "extend", "pop", "insert", "remove") and ast.dump(m.func.value) == src:
                    return n
                if isinstance(m, (ast.Name, ast.Attribute)) and isinstance(m.ctx, ast.Store) and ast.dump(m).replace("Store", "Load") == src:
                    return n
            if self.hit():
                return ast.For(ast.Tuple([n.target, ast.Name(self.fresh("it"), ast.Store())], ast.Store()), ast.Call(ast.Name("enumerate", ast.Load()), [x], []), n.body, n.orelse)
        return n


class BlockPass(Base):
    """visit statement lists"""

    def block(self, body):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node


class CompToLoop(BlockPass):
    """x = [e for t in it] -> x = []; for t in it: x.append(e)   and  return [..]"""

    def visit_FunctionDef(self, n):
        self.params = names_stored(n) | {a.arg for a in n.args.args}
        return self.generic_visit(n)

    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) <= 2 and not any(g.is_async for g in v.generators):
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1):
                    out.append(s)
                    continue
                if has(v.elt, ast.ListComp, ast.Lambda, ast.GeneratorExp) or not self.hit():
                    out.append(s)
                    continue
                nm = self.fresh("acc")
                ren = {}
                for g in v.generators:
                    for t in names_stored(g.target):
                        ren[t] = self.fresh(t)

                class R(ast.NodeTransformer):
                    def visit_Name(self, m):
                        if m.id in ren:
                            m.id = ren[m.id]
                        return m

                first = v.generators[0].iter
                inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [R().visit(v.elt)], []))
                st = [inner]
                for k, g in reversed(list(enumerate(v.generators))):
                    for c in reversed(g.ifs):
                        st = [ast.If(R().visit(c), st, [])]
                    st = [ast.For(R().visit(g.target), g.iter if k == 0 else R().visit(g.iter), st, [])]
                out.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())))
                out += st
                out.append(ast.Assign(s.targets, ast.Name(nm, ast.Load())) if isinstance(s, ast.Assign) else ast.Return(ast.Name(nm, ast.Load())))
            else:
                out.append(s)
        return out


class LoopToComp(BlockPass):
    """x = []; for t in it: x.append(e) -> x = [e for t in it]"""

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            nx = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(nx, ast.For) and not nx.orelse and len(nx.body) == 1 and isinstance(nx.body[0], ast.Expr) and isinstance(nx.body[0].value, ast.Call):
                c = nx.body[0].value
                if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == s.targets[0].id and s.targets[0].id not in names_loaded(c.args[0]) | names_loaded(nx.iter) and self.hit():
                    out.append(ast.Assign(s.targets, ast.ListComp(c.args[0], [ast.comprehension(nx.target, nx.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class EarlyReturn(BlockPass):
    """if c: ...return  else: B   ->  if c: ...return ; B      (and the inverse)"""

    def block(self, body):
        out = []
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.hit():
                out.append(ast.If(s.test, s.body, []))
                out += s.orelse
                continue
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[k + 1:] and self.hit():
                out.append(ast.If(s.test, s.body, self.block(body[k + 1:])))
                return out
            out.append(s)
        return out


class ExtractVar(BlockPass):
    """name a random pure sub-expression (attribute chain, arithmetic) of a simple statement"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and getattr(s, "value", None) is not None:
                pick = self.pick(s.value)
                if pick is not None and self.hit():
                    nm = self.fresh("tmp")
                    new = copy.deepcopy(pick)
                    self.replace(s, pick, ast.Name(nm, ast.Load()))
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], new))
            out.append(s)
        return out

    def pick(self, e):
        """an expression evaluated unconditionally and before anything with effects"""
        c = []

        def walk(e):
            """True when everything inside is pure"""
            if isinstance(e, (ast.Constant, ast.Name)):
                return True
            if isinstance(e, ast.Attribute):
                return walk(e.value)
            if isinstance(e, ast.Subscript):
                a = walk(e.value)
                b = walk(e.slice) if not isinstance(e.slice, ast.Slice) and not has(e.slice, ast.Slice) else True
                if a and b:
                    c.append(e)
                return a and b
            if isinstance(e, ast.BinOp):
                a = walk(e.left)
                b = a and walk(e.right)
                if a and b:
                    c.append(e)
                return a and b
            if isinstance(e, ast.UnaryOp):
                return walk(e.operand)
            if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
                for x in e.elts:
                    if not walk(x):
                        return False
                return True
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and not walk(e.func.value):
                    return False
                for x in e.args:
                    if isinstance(x, ast.Starred) or not walk(x):
                        return False
                if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "numpy" and not e.keywords and not any(isinstance(x, ast.Starred) for x in e.args):
                    c.append(e)
                    return True
                return False
            return False

        walk(e)
        c = [x for x in c if x is not e or True]
        return self.rnd.choice(c) if c else None

    def replace(self, s, old, new):
        for n in ast.walk(s):
            for f, v in ast.iter_fields(n):
                if v is old:
                    setattr(n, f, new)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is old:
                            v[i] = new


class Rename(Base):
    """rename local variables (not parameters)"""

    def visit_FunctionDef(self, n):
        if has(ast.Module(n.body, []), ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal):
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)
        loc = names_stored(ast.Module(n.body, [])) - params
        imported = {a.asname or a.name.split(".")[0] for m in ast.walk(n) if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
        loc -= imported
        ren = {x: x + "_rn" for x in loc if self.hit()}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                if m.id in ren:
                    m.id = ren[m.id]
                return m

            def visit_ExceptHandler(self, m):
                if m.name in ren:
                    m.name = ren[m.name]
                return self.generic_visit(m)

        n.body = [R().visit(b) for b in n.body]
        return n


class AttrLocal(BlockPass):
    """self.X read several times in a simple statement run: use a local alias for reads of self.X inside one function when X is never stored there"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not n.args.args or n.args.args[0].arg != "self":
            return n
        if n.name == "__init__":
            return n
        if has(n, ast.Lambda):
            return n
        if any(isinstance(m, ast.FunctionDef) for b in n.body for m in ast.walk(b)):
            return n
        stored = {m.attr for m in ast.walk(n) if isinstance(m, ast.Attribute) and isinstance(m.ctx, (ast.Store, ast.Del))}
        # calls on self may store attributes
        called = any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and isinstance(m.func.value, ast.Name) and m.func.value.id == "self" for m in ast.walk(n))
        selfarg = any(isinstance(m, ast.Call) and any(isinstance(a, ast.Name) and a.id == "self" for a in m.args) for m in ast.walk(n))
        if called or selfarg:
            return n
        reads = {}
        funcs = {id(m.func) for m in ast.walk(n) if isinstance(m, ast.Call)}
        for m in ast.walk(n):
            if isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Load) and isinstance(m.value, ast.Name) and m.value.id == "self" and id(m) not in funcs:
                reads.setdefault(m.attr, 0)
                reads[m.attr] += 1
        slots = set(SLOTS)
        use = sorted(a for a in reads if a not in stored and a in slots and reads[a] >= 2)
        ren = {a: "loc_" + a for a in use if self.hit()}
        if not ren:
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(self, m):
                self.generic_visit(m)
                if isinstance(m.ctx, ast.Load) and isinstance(m.value, ast.Name) and m.value.id == "self" and m.attr in ren:
                    return ast.Name(ren[m.attr], ast.Load())
                return m

        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        body = [R().visit(b) for b in n.body[k:]]
        pre = [ast.Assign([ast.Name(v, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a, v in sorted(ren.items())]
        n.body = n.body[:k] + pre + body
        return n


SLOTS = []


class AndNest(Base):
    """if a and b: S -> if a: if b: S (no else)"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.hit():
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class IfMerge(Base):
    """if a: (only) if b: S -> if a and b: S"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and self.hit():
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class Ternary(BlockPass):
    """if c: x = a else: x = b  <->  x = a if c else b"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and len(s.body[0].targets) == 1 and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], (ast.Name, ast.Attribute)) and self.hit():
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and self.hit():
                out.append(ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and self.hit():
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)]))
            else:
                out.append(s)
        return out


class FlipCompare(Base):
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP and not has(n, ast.Call) and self.hit():
            return ast.Compare(n.comparators[0], [self.FLIP[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot) and self.hit():
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n


class Commute(Base):
    """a*b -> b*a when one side is a numeric constant"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and (isinstance(n.right, ast.Constant) and isinstance(n.right.value, (int, float)) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float))) and not has(n, ast.List) and self.hit():
            return ast.BinOp(n.right, n.op, n.left)
        return n


class ExtractBlock(BlockPass):
    """move a run of statements of a method into a new method: needs the names
    read and written"""

    def __init__(self, rnd, prob):
        Base.__init__(self, rnd, prob)
        self.new = []

    def visit_ClassDef(self, n):
        body = []
        for m in n.body:
            if isinstance(m, ast.FunctionDef) and m.args.args and m.args.args[0].arg == "self" and not m.decorator_list:
                r = self.method(m)
                if r:
                    body.append(r)
            body.append(m)
        n.body = body
        return n

    def method(self, m):
        if not self.hit():
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.Global)) for x in ast.walk(m)) or any(isinstance(x, ast.FunctionDef) for b in m.body for x in ast.walk(b)):
            self.count -= 1
            return None
        body = m.body
        # candidate runs in the top-level block or in an if/for body
        blocks = [body] + [getattr(x, f) for b in body for x in ast.walk(b) for f in ("body", "orelse") if isinstance(x, (ast.If, ast.For, ast.While)) and getattr(x, f)]
        params = {a.arg for a in m.args.args}
        alln = params | names_stored(m) | ({m.args.vararg.arg} if m.args.vararg else set()) | ({m.args.kwarg.arg} if m.args.kwarg else set())
        tries = []
        for blk in blocks:
            for i in range(len(blk)):
                for j in range(i + 1, min(i + 6, len(blk)) + 1):
                    run = blk[i:j]
                    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Import, ast.ImportFrom)) for s in run for x in ast.walk(s)):
                        continue
                    if isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant):
                        continue
                    tries.append((blk, i, j))
        if not tries:
            self.count -= 1
            return None
        blk, i, j = self.rnd.choice(tries)
        run = blk[i:j]
        mod = ast.Module(run, [])
        stored = names_stored(mod)
        loaded = names_loaded(mod) | {x.target.id for x in ast.walk(mod) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        comp = {t for x in ast.walk(mod) if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for g in x.generators for t in names_stored(g.target)}
        # definitely stored: only straight assignments at the top of the run
        sure = set()
        for s in run:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    sure |= names_stored(t)
        out = sorted(stored - comp)
        ins = sorted(((loaded | (stored - sure)) & alln) - {"self"} - comp)
        # names maybe undefined before: reject when a name to pass is first stored later or within the run only
        before = set(params)
        defined = self.defined_before(m, blk, i)
        if not set(ins) <= defined:
            # names that are only assigned inside before use
            if not set(ins) - defined <= sure_first(run):
                self.count -= 1
                return None
            ins = sorted(set(ins) & defined)
        nm = self.fresh("_part")
        args = [ast.Name(x, ast.Load()) for x in ins]
        fn = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in ins], None, [], [], None, []), list(run) + ([ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in out], ast.Load()) if len(out) > 1 else ast.Name(out[0], ast.Load()))] if out else []), [])
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), args, [])
        if out:
            st = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in out], ast.Store()) if len(out) > 1 else ast.Name(out[0], ast.Store())], call)
        else:
            st = ast.Expr(call)
        if set(out) & set() or any(x not in sure and x not in defined for x in out):
            # a name that may stay unbound
            self.count -= 1
            return None
        blk[i:j] = [st]
        return fn

    def defined_before(self, m, blk, i):
        """names certainly assigned before blk[i] (parameters and straight-line top assignments)"""
        d = {a.arg for a in m.args.args + m.args.kwonlyargs} | ({m.args.vararg.arg} if m.args.vararg else set()) | ({m.args.kwarg.arg} if m.args.kwarg else set())

        def walk(body, d):
            """returns definedness set when the target block position is inside, else updated d"""
            for k, s in enumerate(body):
                if body is blk and k == i:
                    return True, d
                if isinstance(s, (ast.If, ast.For, ast.While)):
                    inner = set(d)
                    if isinstance(s, ast.For):
                        inner |= names_stored(s.target)
                    f, r = walk(s.body, inner)
                    if f:
                        return True, r
                    o = set(d)
                    f2, r2 = walk(s.orelse, o)
                    if f2:
                        return True, r2
                    if isinstance(s, ast.If) and s.orelse:
                        d |= r & r2
                elif isinstance(s, (ast.Try, ast.With)):
                    f, r = walk(s.body, set(d))
                    if f:
                        return True, r
                    if isinstance(s, ast.With):
                        d |= r
                else:
                    d |= names_stored(s)
            if body is blk and i >= len(body):
                return True, d
            return False, d

        f, r = walk(m.body, d)
        return r if f else set()


def sure_first(run):
    out = set()
    for s in run:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out |= names_stored(t)
        else:
            break
    return out


class Swap(BlockPass):
    """swap adjacent independent simple assignments of locals from pure expressions"""

    def block(self, body):
        i = 0
        body = list(body)
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if self.simple(a) and self.simple(b):
                sa, sb = names_stored(a), names_stored(b)
                la, lb = names_loaded(a), names_loaded(b)
                if not (sa & (sb | lb)) and not (sb & la) and self.hit():
                    body[i], body[i + 1] = b, a
                    i += 1
            i += 1
        return body

    def simple(self, s):
        return isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) and not has(t, ast.Attribute, ast.Subscript) for t in s.targets) and not has(s.value, ast.Call, ast.Yield) or isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "numpy" and sum(isinstance(x, ast.Call) for x in ast.walk(s.value)) == 1


class Nop(BlockPass):
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if not isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Import, ast.ImportFrom)) and s is not body[0] and self.hit():
                out.append(ast.Assign([ast.Name("nop_", ast.Store())], ast.Constant(0)))
        return out

    def visit_ClassDef(self, n):
        n.body = [self.visit(m) if isinstance(m, ast.FunctionDef) else m for m in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(m) if isinstance(m, (ast.FunctionDef, ast.ClassDef)) else m for m in n.body]
        return n


class ReturnVar(BlockPass):
    """return e -> result = e; return result"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and self.hit():
                out.append(ast.Assign([ast.Name("result_", ast.Store())], s.value))
                out.append(ast.Return(ast.Name("result_", ast.Load())))
            else:
                out.append(s)
        return out


class FormatPack(Base):
    """struct.pack(">2H", a, b) + ... : split writes  f.write(struct.pack(fmt, ...)) with several records -> data = ...; f.write(data)"""

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "write" and len(v.args) == 1 and isinstance(v.args[0], ast.Call) and self.hit():
            nm = self.fresh("buf")
            return [ast.Assign([ast.Name(nm, ast.Store())], v.args[0]), ast.Expr(ast.Call(v.func, [ast.Name(nm, ast.Load())], []))]
        return n


class KwArgs(Base):
    """nothing positional becomes keyword for known internal constructors"""
    SIG = {"transform": ["translation", "rotation", "scale", "x_reflection", "array_trans"], "PolygonSet": ["polygons", "layer", "datatype"], "get_polygons": ["by_spec", "depth"], "get_polygonsets": ["depth"], "get_paths": ["depth"]}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        sig = self.SIG.get(nm)
        if sig and n.args and len(n.args) <= len(sig) and not any(isinstance(a, ast.Starred) for a in n.args) and self.hit():
            kw = [ast.keyword(k, a) for k, a in zip(sig, n.args)]
            return ast.Call(f, [], kw + n.keywords)
        return n


KINDS = {c.__name__: c for c in (NegateIf, ElifNest, AugToAssign, ForToIndex, RangeToWhile, Enumerate, CompToLoop, LoopToComp, EarlyReturn, ExtractVar, Rename, AttrLocal, AndNest, IfMerge, Ternary, FlipCompare, Commute, ExtractBlock, Swap, Nop, ReturnVar, FormatPack, KwArgs)}


def main():
    kind, seed, prob, src, dst = sys.argv[1:6]
    only = sys.argv[6].split(",") if len(sys.argv) > 6 else None
    rnd = random.Random(kind + seed)
    total = 0
    trees = {}
    for f in sorted(os.listdir(src)):
        if f.endswith(".py"):
            trees[f] = ast.parse(open(os.path.join(src, f)).read())
            for n in ast.walk(trees[f]):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__slots__":
                    SLOTS.extend(e.value for e in n.value.elts)
    kinds = sorted(KINDS) if kind == "Mix" else kind.split("+")
    for f, t in trees.items():
        if only is None or f in only:
            for k in kinds:
                tr = KINDS[k](rnd, float(prob))
                t = tr.visit(t)
                ast.fix_missing_locations(t)
                total += tr.count
        with open(os.path.join(dst, f), "w") as g:
            g.write(ast.unparse(t) + "\n")
    print(kind, seed, "rewrites:", total)


if __name__ == "__main__":
    main()
