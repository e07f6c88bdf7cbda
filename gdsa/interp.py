"""Value-flow graph construction.

A flow-sensitive, interprocedural (bounded inlining of in-package callees)
dataflow pass over the syntax trees.  It never runs the code: every expression
is mapped to a node of a hash-consed value-flow graph (joins are 'ite'/'phi'
nodes, loop-carried variables are 'loopv' nodes), and every side effect is
recorded in a structured effect tree (sequence / branch / loop / try), which is
the control-flow regex the typestate rules run over.

Each rule evaluates its own lattice over these two structures.
"""
import ast

from .model import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo


class Node(object):
    __slots__ = ("op", "args", "info", "loc", "uid", "_h")

    def __init__(self, op, args, uid, loc):
        self.op = op
        self.args = args
        self.uid = uid
        self.loc = loc
        self.info = None

    def __repr__(self):
        return show(self, 4)


def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, depth) for x in n) + ")"
        if isinstance(n, (ClassInfo, FuncInfo)):
            return n.name
        return repr(n)
    if depth <= 0:
        return "…"
    o, a = n.op, n.args
    d = depth - 1
    if o == "const":
        return repr(a[1])
    if o == "param":
        return a[0]
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "call":
        return "%s(%s)" % (a[0] if isinstance(a[0], str) else show(a[0], d), ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if o == "mcall":
        return "%s.%s(%s)" % (show(a[0], d), a[1], ", ".join([show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]))
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "un":
        return "(%s %s)" % (a[0], show(a[1], d))
    if o == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "slice":
        return ":".join("" if (isinstance(x, Node) and x.op == "const" and x.args[1] is None) else show(x, d) for x in a)
    if o == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x, d) for x in a)
    if o == "elem":
        return "elem(%s)" % show(a[0], d)
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "ver":
        return "%s{%s}" % (show(a[0], d), show(a[1], d))
    if o == "loopv":
        return "loop:%s" % (a[1] if isinstance(a[1], str) else show(a[1], d))
    if o == "new":
        return "new %s" % a[0].name
    if o in ("ext", "undef", "unbound", "init"):
        return str(a[0]) if a else o
    return "%s<%s>" % (o, ", ".join(show(x, d) for x in a))


PURE = set(
    """len int float abs min max sum round isinstance hasattr callable str repr bool type
    numpy.cos numpy.sin numpy.arctan2 numpy.isscalar numpy.pi numpy.log2 numpy.ceil any all id issubclass""".split()
)

MUTATORS = set(
    """append extend insert pop remove clear sort reverse update add discard setdefault popitem
    difference_update intersection_update symmetric_difference_update resize fill put itemset
    partition setfield byteswap""".split()
)


NO_NONE = ("len", "float", "int", "abs", "range", "zip", "enumerate", "sorted", "reversed", "list", "tuple", "set", "min", "max", "sum", "iter", "next", "round", "pow", "divmod", "ord", "chr", "struct.unpack")      # functions that take no None as their argument


class Effect(object):
    __slots__ = ("kind", "data", "guards", "loops", "where", "func", "ctx", "heap")

    def __init__(self, kind, data, guards, loops, where, func, ctx):
        self.kind = kind
        self.data = data
        self.guards = guards
        self.loops = loops
        self.where = where
        self.func = func
        self.ctx = ctx
        self.heap = None

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where, {k: (show(v, 4) if isinstance(v, (Node, tuple)) else v) for k, v in self.data.items()})


class State(object):
    __slots__ = ("env", "heap", "guards", "dead")

    def __init__(self, env=None, heap=None, guards=()):
        self.dead = False      # after the call of a function that never returns
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.guards = guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guards)


class Frame(object):
    def __init__(self, func, module, self_cls, ctx, stack, outer_env=None):
        self.func = func
        self.module = module
        self.self_cls = self_cls
        self.ctx = ctx
        self.stack = stack
        self.outer_env = outer_env
        self.returns = []      # (guards, State, Node)
        self.yields = []
        self.breaks = []       # stack of lists of State
        self.continues = []
        self.globals_decl = set()


class Closure(object):
    __slots__ = ("func", "env", "frame")

    def __init__(self, func, env, frame):
        self.func = func
        self.env = env
        self.frame = frame


class Result(object):
    def __init__(self):
        self.tree = []
        self.effects = []
        self.returns = []
        self.value = None
        self.state = None
        self.yields = []


PY2_NAMES = set("basestring unicode xrange long unichr raw_input reduce WindowsError".split())


class Interp(object):
    MAX_INLINE = 7

    def __init__(self, prog, assume=None, types=None, inline=None, fold_tables=True):
        self.prog = prog
        self.assume = assume            # callable(cond Node, State) -> True/False/None
        self.types = types              # callable(Node, Interp, State) -> set(ClassInfo)|None
        self.inline_policy = inline     # callable(FuncInfo, Interp) -> bool|None
        self.fold_tables = fold_tables
        self.rewrite = None             # callable(sub Node) -> Node|None: known inputs
        self.unroll = 0                 # loops over constant ranges up to this many rounds are unrolled
        self.table = {}
        self.nuid = 0
        self.closures = {}
        self.globals_memo = {}
        self.use_hook = None            # callable(kind, what, st, fr, ast node) at every use of a name, attribute or function
        self.op_hook = None             # callable(how, operand, st, fr, ast node) before a value is computed with, indexed, iterated or asked for an attribute
        self.loop_iters = {}
        self.effects = None
        self.loops = ()
        self.out = []
        self.functions_seen = set()
        self.call_sites = 0
        self.steps = 0
        self.NONE = self.const(None)
        self.TRUE = self.const(True)
        self.FALSE = self.const(False)

    # -- nodes -----------------------------------------------------------
    def mk(self, op, *args, **kw):
        if op == "ext" and args[0].startswith("builtins."):
            args = (args[0][9:],)
        key = (op,) + args
        n = self.table.get(key)
        if n is None:
            self.nuid += 1
            n = Node(op, args, self.nuid, kw.get("loc"))
            self.table[key] = n
        return n

    def const(self, v):
        try:
            hash(v)
        except TypeError:
            return self.mk("opaque", repr(v))
        return self.mk("const", type(v).__name__, v)

    def is_const(self, n):
        return n.op == "const"

    def cval(self, n):
        return n.args[1]

    def strip(self, n):
        while n.op == "ver":
            n = n.args[0]
        return n

    # -- driving ---------------------------------------------------------
    def run(self, func, self_cls=None, args=None, self_node=None, heap=None):
        """Analyse `func` as an entry point; parameters are opaque 'param' nodes
        unless given in `args`."""
        res = Result()
        args = dict(args or {})
        st = State()
        if heap:
            st.heap.update(heap)
        a = func.node.args
        names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        if func.cls is not None and func.kind == "plain" and names:
            sn = self_node or self.mk("param", names[0])
            st.env[names[0]] = sn
            names = names[1:]
            if self_cls is None:
                self_cls = func.cls
            sn.info = sn.info or {}
            sn.info["cls"] = self_cls
        for n in names + [x.arg for x in a.kwonlyargs]:
            st.env[n] = args.get(n) or self.mk("param", n)
        if a.vararg:
            st.env[a.vararg.arg] = args.get(a.vararg.arg) or self.mk("param", "*" + a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = args.get(a.kwarg.arg) or self.mk("param", "**" + a.kwarg.arg)
        self.effects = res.effects
        self.loops = ()
        self.out = res.tree
        fr = Frame(func, func.module, self_cls, (), (func,))
        self.functions_seen.add(func)
        end = self.exec_block(func.node.body, st, fr)
        rets = list(fr.returns)
        if end is not None:
            rets.append((end.guards, end, self.NONE))
            self.out.append(("return", self.NONE, end, None))
        res.returns = rets
        res.yields = fr.yields
        res.value = self.join_returns(rets)
        return res

    def join_returns(self, rets):
        vals = []
        for g, s, v in rets:
            if v not in vals:
                vals.append(v)
        if not vals:
            return self.mk("undef")
        if len(vals) == 1:
            return vals[0]
        # rebuild a decision structure when the guards allow it
        return self._decide_tree([(g, v) for g, s, v in rets], 0)

    def _decide_tree(self, items, depth):
        vals = []
        for g, v in items:
            if v not in vals:
                vals.append(v)
        if len(vals) == 1:
            return vals[0]
        gs = [g[depth] if len(g) > depth else None for g, v in items]
        if all(g is not None for g in gs):
            c = gs[0][0]
            if all(g[0] is c for g in gs):
                t = [it for it, g in zip(items, gs) if g[1]]
                f = [it for it, g in zip(items, gs) if not g[1]]
                if t and f:
                    return self.mk("ite", c, self._decide_tree(t, depth + 1), self._decide_tree(f, depth + 1))
                return self._decide_tree(items, depth + 1)
        return self.mk("phi", tuple(vals))

    # -- effects ---------------------------------------------------------
    def where(self, fr, node):
        return "%s:%d" % (fr.module.relpath, getattr(node, "lineno", 0))

    def emit(self, kind, st, fr, node, **data):
        e = Effect(kind, data, st.guards, self.loops, self.where(fr, node), fr.func, fr.ctx)
        e.heap = st.heap
        self.effects.append(e)
        self.out.append(("eff", e))
        return e

    # -- guards / decisions ---------------------------------------------
    def norm_cond(self, c):
        """strip negations: returns (cond, polarity)"""
        pol = True
        while True:
            if c.op == "un" and c.args[0] == "not":
                c = c.args[1]
                pol = not pol
                continue
            if c.op == "cmp" and c.args[0] in ("is not", "!=", "not in"):
                c = self.mk("cmp", {"is not": "is", "!=": "==", "not in": "in"}[c.args[0]], c.args[1], c.args[2])
                pol = not pol
                continue
            break
        return c, pol

    def decide(self, c, st):
        c, pol = self.norm_cond(c)
        r = self._decide(c, st)
        if r is None:
            return None
        return r if pol else (not r)

    def _decide(self, c, st):
        if c.op == "const":
            return bool(c.args[1])
        for g, p in st.guards:
            if g is c:
                return p
        if c.op == "bool":
            rs = [self.decide(x, st) for x in c.args[1]]
            if c.args[0] == "and":
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
        if self.assume is not None:
            r = self.assume(c, st)
            if r is not None:
                return r
        if c.op == "cmp":
            op, a, b = c.args
            if a.op == "ite" or b.op == "ite":
                a = self.simplify(a, st)
                b = self.simplify(b, st)
            if op == "is":
                if b.op != "const" and a.op == "const":
                    a, b = b, a
                if b.op == "const" and b.args[1] is None:
                    if any(g is a and p for g, p in st.guards):
                        return False
                    r = self.is_none(a)
                    if r is not None:
                        return r
                elif a.op == "const" and b.op == "const":
                    return a is b or (a.args[1] is b.args[1])
            if a.op == "const" and b.op == "const" and op in ("==", "<", "<=", ">", ">=", "in"):
                try:
                    x, y = a.args[1], b.args[1]
                    return {"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "in": lambda: x in y}[op]()
                except Exception:
                    return None
            if op == "in" and a.op == "const" and self.fold_tables and isinstance(self.literal(b), (tuple, list, dict, set)):
                return a.args[1] in self.literal(b)
            if op == "in" and a.op == "const" and b.op in ("tuple", "list", "set"):
                items = b.args[0]
                if all(i.op == "const" for i in items):
                    return any(i.args[1] == a.args[1] for i in items)
            if op == "==" and a is b and a.op in ("param", "attr"):
                return True
            if op == "==":
                for x, y in ((a, b), (b, a)):
                    if x.op == "const" and isinstance(x.args[1], str) and y.op == "const":
                        return x.args[1] == y.args[1]
        if c.op == "call" and c.args[0] == "isinstance" and len(c.args[1]) == 2:
            return self.decide_isinstance(c.args[1][0], c.args[1][1], st)
        if c.op in ("new", "func", "cls", "closure", "bound"):
            return True
        if c.op in ("list", "dict", "tuple", "set"):
            pass
        return None

    def is_none(self, a):
        if a.op == "ver":
            a = a.args[0]
        if a.op == "const":
            return a.args[1] is None
        if a.op in ("new", "tuple", "list", "dict", "set", "bin", "cmp", "comp", "fstr", "cls", "func", "closure", "un", "bound"):
            return False
        if a.op == "call" and isinstance(a.args[0], str) and (a.args[0].startswith("numpy.") or a.args[0] in ("len", "int", "float", "list", "dict", "tuple", "set", "str", "abs", "zip", "range", "copy.deepcopy_nonnull")):
            return False
        if a.op == "ite":
            x, y = self.is_none(a.args[1]), self.is_none(a.args[2])
            if x is not None and x == y:
                return x
        if a.op == "phi":
            r = [self.is_none(x) for x in a.args[0]]
            if r and r[0] is not None and all(x == r[0] for x in r):
                return r[0]
        return None

    def classes_of_spec(self, spec):
        """list of ClassInfo / ext names of the second isinstance argument"""
        if spec.op in ("tuple", "list"):
            out = []
            for x in spec.args[0]:
                r = self.classes_of_spec(x)
                if r is None:
                    return None
                out += r
            return out
        if spec.op == "cls":
            return [spec.args[0]]
        if spec.op == "ext":
            return [spec.args[0]]
        return None

    def decide_isinstance(self, x, spec, st):
        specs = self.classes_of_spec(spec)
        if specs is None:
            return None
        ts = self.cls_of(x, st)
        if ts:
            res = []
            for t in ts:
                if isinstance(t, ClassInfo):
                    res.append(any(isinstance(s, ClassInfo) and t.issub(s) for s in specs))
                else:
                    res.append(t in specs)
            if all(res):
                return True
            if not any(res):
                return False
            return None
        x = self.strip(x)
        if x.op == "const":
            tn = type(x.args[1]).__name__
            return any(s == tn for s in specs)
        if x.op in ("list", "tuple", "dict", "set"):
            return any(s == x.op for s in specs)
        if x.op == "comp" and x.args[0] in ("list", "dict", "set"):
            return any(s == x.args[0] for s in specs)
        return None

    def cls_of(self, n, st=None):
        """set of possible classes (ClassInfo) of a node, or None when unknown"""
        n = self.strip(n)
        if n.op == "new":
            return {n.args[0]}
        if n.info and n.info.get("cls") is not None:
            c = n.info["cls"]
            return set(c) if isinstance(c, (set, frozenset, tuple, list)) else {c}
        if st is not None:
            for g, p in st.guards:
                if p and g.op == "call" and g.args[0] == "isinstance" and len(g.args[1]) == 2 and self.strip(g.args[1][0]) is n:
                    s = self.classes_of_spec(g.args[1][1])
                    if s:
                        return set(s)
        if self.types is not None:
            r = self.types(n, self, st)
            if r is not None:
                return set(r)
        if n.op == "ite":
            a, b = self.cls_of(n.args[1], st), self.cls_of(n.args[2], st)
            if a and b:
                return a | b
        if n.op == "call" and n.args[0] in ("copy.deepcopy", "copy.copy") and n.args[1]:
            return self.cls_of(n.args[1][0], st)
        return None

    def simplify(self, n, st):
        k = 0
        while n.op == "ite" and k < 50:
            k += 1
            d = self.decide(n.args[0], st)
            if d is None:
                return n
            n = n.args[1] if d else n.args[2]
        return n

    # -- joins -----------------------------------------------------------
    def join_vals(self, cond, a, b):
        if a is b:
            return a
        if a is None:
            a = self.mk("unbound")
        if b is None:
            b = self.mk("unbound")
        if cond is None:
            alts = []
            for x in (a, b):
                for y in (x.args[0] if x.op == "phi" else (x,)):
                    if y not in alts:
                        alts.append(y)
            return alts[0] if len(alts) == 1 else self.mk("phi", tuple(alts))
        return self.mk("ite", cond, a, b)

    def heap_init(self, key):
        o, k = key
        if k == "$c":
            return self.mk("init", o)
        if isinstance(k, str) and k.startswith("$"):
            return self.mk("init", o, k)
        return self.mk("attr", o, k)

    def join(self, cond, sa, sb, guards):
        if sa is None:
            return sb
        if sb is None:
            return sa
        out = State({}, {}, guards)
        for k in list(sa.env) + [k for k in sb.env if k not in sa.env]:
            out.env[k] = self.join_vals(cond, sa.env.get(k), sb.env.get(k))
        for k in list(sa.heap) + [k for k in sb.heap if k not in sa.heap]:
            va = sa.heap.get(k)
            vb = sb.heap.get(k)
            if va is None:
                va = self.heap_init(k)
            if vb is None:
                vb = self.heap_init(k)
            out.heap[k] = self.join_vals(cond, va, vb)
        return out

    def common_guards(self, states):
        gs = [s.guards for s in states]
        out = []
        for i in range(min(len(g) for g in gs)):
            if all(g[i] == gs[0][i] for g in gs):
                out.append(gs[0][i])
            else:
                break
        return tuple(out)

    def join_many(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        acc = states[0]
        for s in states[1:]:
            g = self.common_guards([acc, s])
            # try to recover the branching condition
            cond = None
            i = len(g)
            if len(acc.guards) > i and len(s.guards) > i and acc.guards[i][0] is s.guards[i][0]:
                cond = acc.guards[i][0]
                if acc.guards[i][1]:
                    acc = self.join(cond, acc, s, g)
                else:
                    acc = self.join(cond, s, acc, g)
            else:
                acc = self.join(None, acc, s, g)
        return acc

    # -- statements ------------------------------------------------------
    def exec_block(self, body, st, fr):
        for s in body:
            if st is None:
                return None
            st = self.exec_stmt(s, st, fr)
        return st

    def capture(self):
        saved = self.out
        self.out = []
        return saved

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 3000000:
            raise AnalysisBroken("analysis budget exceeded")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return st
        r = m(s, st, fr)
        return None if st.dead else r

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def st_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev_name(t, st, fr)
            val = self.ev(s.value, st, fr)
            if self.op_hook is not None:
                self.op_hook("computed with", old, st, fr, s)
                self.op_hook("computed with", val, st, fr, s)
            new = self.binop(op, old, val, st)
            self.emit("aug", st, fr, s, obj=old, op=op, value=val, name=t.id)
            if self.strip(old).op == "list" or (self.strip(old).op == "comp"):
                # += on a list mutates the object
                o = self.strip(old)
                prev = st.heap.get((o, "$c")) or self.mk("init", o)
                st.heap[(o, "$c")] = self.mk("upd", prev, "extend", (val,))
                return st
            st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fr)
            if self.use_hook is not None:
                self.use_hook("attr", (obj, t.attr), st, fr, t)
            old = self.load_attr(obj, t.attr, st, fr, t)
            val = self.ev(s.value, st, fr)
            if self.op_hook is not None:
                self.op_hook("computed with", old, st, fr, s)
                self.op_hook("computed with", val, st, fr, s)
            new = self.binop(op, old, val, st)
            self.emit("augattr", st, fr, s, obj=self.strip(obj), attr=t.attr, op=op, value=val, old=old)
            self.store_attr(obj, t.attr, new, st, fr, s, aug=True)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            key = self.ev_index(t.slice, st, fr)
            old = self.subscript(obj, key, st)
            val = self.ev(s.value, st, fr)
            if self.op_hook is not None:
                self.op_hook("computed with", old, st, fr, s)
                self.op_hook("computed with", val, st, fr, s)
            new = self.binop(op, old, val, st)
            self.store_item(obj, key, new, st, fr, s, aug=op)
        return st

    def assign(self, t, v, st, fr, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fr)
            self.store_attr(obj, t.attr, v, st, fr, s)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            key = self.ev_index(t.slice, st, fr)
            self.store_item(obj, key, v, st, fr, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.simplify(v, st)
            sv = self.strip(vv)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if sv.op in ("tuple", "list") and not star and len(sv.args[0]) == len(t.elts):
                for x, y in zip(t.elts, sv.args[0]):
                    self.assign(x, y, st, fr, s)
            elif vv.op == "ite":
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.mk("opaque", ("star", self.site(fr, s))), st, fr, s)
                    else:
                        self.assign(x, self.proj(vv, i, len(t.elts)), st, fr, s)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.mk("sub", vv, self.mk("slice", self.const(i), self.NONE, self.NONE)), st, fr, s)
                    else:
                        self.assign(x, self.proj(vv, i, len(t.elts)), st, fr, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, s)

    def proj(self, v, i, n):
        sv = self.strip(v)
        if sv.op in ("tuple", "list") and len(sv.args[0]) == n:
            return sv.args[0][i]
        if v.op == "ite":
            return self.mk("ite", v.args[0], self.proj(v.args[1], i, n), self.proj(v.args[2], i, n))
        n = self.mk("sub", v, self.const(i))
        if self.rewrite is not None:
            r = self.rewrite(n)
            if r is not None:
                return r
        return n

    def store_attr(self, obj, attr, v, st, fr, s, aug=False):
        o = self.strip(obj)
        alts = self.alts(o)
        if self.use_hook is not None:
            self.use_hook("store", (o, attr), st, fr, s)
        self.emit("store", st, fr, s, obj=o, attr=attr, value=v, aug=aug)
        st.heap[(o, attr)] = v
        if len(alts) > 1:
            for a in alts:
                old = st.heap.get((a, attr)) or self.mk("attr", a, attr)
                st.heap[(a, attr)] = self.join_vals(None, old, v)
        return st

    def alts(self, n):
        n = self.strip(n)
        if n.op == "ite":
            return self.alts(n.args[1]) + self.alts(n.args[2])
        if n.op == "phi":
            out = []
            for x in n.args[0]:
                out += self.alts(x)
            return out
        return [n]

    def store_item(self, obj, key, v, st, fr, s, aug=None):
        o = self.strip(obj)
        self.emit("storeitem", st, fr, s, obj=o, key=key, value=v, aug=aug)
        for a in self.alts(o) if o.op in ("ite", "phi") else [o]:
            prev = st.heap.get((a, "$c")) or self.mk("init", a)
            st.heap[(a, "$c")] = self.mk("upd", prev, "setitem", (key, v))
        return st

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, st, fr)
                key = self.ev_index(t.slice, st, fr)
                o = self.strip(obj)
                self.emit("delitem", st, fr, s, obj=o, key=key)
                prev = st.heap.get((o, "$c")) or self.mk("init", o)
                st.heap[(o, "$c")] = self.mk("upd", prev, "delitem", (key,))
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, st, fr)
                self.emit("delattr", st, fr, s, obj=self.strip(obj), attr=t.attr)
        return st

    def st_Return(self, s, st, fr):
        v = self.NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st.guards, st, v))
        self.emit("return", st, fr, s, value=v)
        self.out.append(("return", v, st, s))
        return None

    def st_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else self.mk("opaque", "reraise")
        self.emit("raise", st, fr, s, value=v)
        self.out.append(("raise", v, st, s))
        return None

    def st_Pass(self, s, st, fr):
        return st

    def st_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)
        return st

    def st_Nonlocal(self, s, st, fr):
        return st

    def st_Assert(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        c, pol = self.norm_cond(c)
        self.emit("assert", st, fr, s, cond=c, pol=pol)
        st = st.copy()
        st.guards = st.guards + ((c, pol),)
        return st

    def st_Break(self, s, st, fr):
        if fr.breaks:
            fr.breaks[-1].append(st)
        self.out.append(("break",))
        e = Effect("break", {}, st.guards, self.loops, self.where(fr, s), fr.func, fr.ctx)
        e.heap = st.heap
        self.effects.append(e)
        return None

    def st_Continue(self, s, st, fr):
        if fr.continues:
            fr.continues[-1].append(st)
        self.out.append(("continue",))
        return None

    def st_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                n = self.ext_or_mod(a.name)
                st.env[a.asname] = n
            else:
                st.env[a.name.split(".")[0]] = self.ext_or_mod(a.name.split(".")[0])
        return st

    def ext_or_mod(self, name):
        if name in self.prog.modules:
            return self.mk("mod", name)
        return self.mk("ext", name)

    def st_ImportFrom(self, s, st, fr):
        src = s.module or ""
        if s.level:
            src = self.prog.package + ("." + src if src else "")
        for a in s.names:
            n = None
            if src in self.prog.modules:
                r = self.prog.lookup(self.prog.modules[src], a.name)
                if r is not None:
                    n = self.binding_node(r, a.name)
            st.env[a.asname or a.name] = n or self.mk("ext", src + "." + a.name)
        return st

    def st_FunctionDef(self, s, st, fr):
        f = FuncInfo(s.name, s, fr.module, None, fr.func)
        site = self.site(fr, s)
        n = self.mk("closure", site, s.name)
        self.closures[n] = Closure(f, st.env, fr)
        st.env[s.name] = n
        return st

    def st_ClassDef(self, s, st, fr):
        st.env[s.name] = self.mk("opaque", ("localclass", s.name))
        return st

    def assume_guard(self, st, c, pol):
        c, p = self.norm_cond(c)
        pol = p if pol else (not p)
        s2 = st.copy()
        g = list(st.guards)
        g.append((c, pol))
        # split conjunctions that are certain
        if c.op == "bool" and ((c.args[0] == "and" and pol) or (c.args[0] == "or" and not pol)):
            for x in c.args[1]:
                x, q = self.norm_cond(x)
                g.append((x, q if pol else (not q)))
        s2.guards = tuple(g)
        return s2

    def st_If(self, s, st, fr):
        c = self.ev(s.test, st, fr)
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st, fr)
        if d is False:
            return self.exec_block(s.orelse, st, fr)
        base = st.guards
        cond, pol = self.norm_cond(c)
        saved = self.capture()
        sa = self.assume_guard(st, cond, pol)
        sb = self.assume_guard(st, cond, not pol)
        na, nb = sa.guards, sb.guards
        a = self.exec_block(s.body, sa, fr)
        ta = self.out
        self.out = []
        b = self.exec_block(s.orelse, sb, fr)
        tb = self.out
        self.out = saved
        self.out.append(("if", cond, ta if pol else tb, tb if pol else ta, self.where(fr, s)))
        if a is None and b is None:
            return None
        if a is None or b is None:
            return a if b is None else b
        g = self.common_guards([a, b])
        g = g[: max(len(base), 0)] if len(g) >= len(base) else g
        g += self.residue(cond, pol, a, na, b, nb)
        if pol:
            return self.join(cond, a, b, g)
        return self.join(cond, b, a, g)

    def residue(self, cond, pol, a, na, b, nb):
        """conditions that hold after a branch some of whose paths have left"""
        lit = lambda c, p: c if p else self.mk("un", "not", c)
        ea = a.guards[len(na):] if a.guards[: len(na)] == na else ()
        eb = b.guards[len(nb):] if b.guards[: len(nb)] == nb else ()
        out = []
        for (ex, p), other in [((x, not pol), eb) for x in ea] + [((x, pol), ea) for x in eb]:
            if ex in other:
                if ex not in out:
                    out.append(ex)
                continue
            c, q = ex
            parts = [lit(cond, p)]
            if c.op == "bool" and (c.args[0] == "or" and q):
                parts += list(c.args[1])
            else:
                parts.append(lit(c, q))
            out.append((self.mk("bool", "or", tuple(parts)), True))
        return tuple(out)

    def st_With(self, s, st, fr):
        items = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.emit("enter", st, fr, s, value=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
            items.append(v)
        saved = self.capture()
        n0 = len(fr.returns)
        st2 = self.exec_block(s.body, st, fr)
        body = self.out
        self.out = saved
        self.out.append(("with", tuple(items), body, self.where(fr, s)))
        if st2 is not None:
            for v in items:
                self.emit("exit", st2, fr, s, value=v)
        return st2

    st_AsyncWith = st_With

    def st_Try(self, s, st, fr):
        saved = self.capture()
        pre = st.copy()
        a = self.exec_block(s.body, st.copy(), fr)
        tbody = self.out
        handlers = []
        outs = []
        if a is not None and s.orelse:
            self.out = []
            a = self.exec_block(s.orelse, a, fr)
            tbody = tbody + [("else",)] + self.out
        outs.append(a)
        for h in s.handlers:
            self.out = []
            # the handler may start from any point of the body
            hs = self.join(None, pre.copy(), a.copy(), pre.guards) if a is not None else pre.copy()
            if h.type is not None:
                ht = self.ev(h.type, hs, fr)
            else:
                ht = None
            if h.name:
                hs.env[h.name] = self.mk("opaque", ("exc", self.site(fr, h)))
            outs.append(self.exec_block(h.body, hs, fr))
            handlers.append((ht, self.out))
        self.out = []
        tfin = []
        res = self.join_many(outs)
        if s.finalbody:
            n_ret = len(fr.returns)
            fs = res.copy() if res is not None else pre.copy()
            r2 = self.exec_block(s.finalbody, fs, fr)
            tfin = self.out
            if res is not None:
                res = r2
        self.out = saved
        self.out.append(("try", tbody, handlers, tfin, self.where(fr, s)))
        return res

    # -- loops -----------------------------------------------------------
    def assigned_names(self, body):
        out = set()
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension scope; still walk nested named exprs only
                continue
            stack.extend(ast.iter_child_nodes(n))
        return out

    def run_loop(self, s, st, fr, header, kind, iter_node, test=None):
        """header(st) binds the loop target; returns the state after the loop."""
        site = self.site(fr, s)
        names = self.assigned_names(s.body)
        if kind == "for":
            names |= self.assigned_names([s.target])
        loopkey = ("loop", site)
        entry = st.copy()
        changed_heap = set()
        result = None
        for attempt in range(3):
            cur = entry.copy()
            lv = {}
            for n in sorted(names):
                v = self.mk("loopv", site, n)
                if v.info is None:
                    v.info = {}
                v.info["init"] = entry.env.get(n)
                lv[n] = v
                cur.env[n] = v
            hv = {}
            for k in changed_heap:
                v = self.mk("loopv", site, k)
                if v.info is None:
                    v.info = {}
                v.info["init"] = entry.heap.get(k) or self.heap_init(k)
                hv[k] = v
                cur.heap[k] = v
            saved_out = self.capture()
            n_eff = len(self.effects)
            n_ret = len(fr.returns)
            n_y = len(fr.yields)
            fr.breaks.append([])
            fr.continues.append([])
            saved_loops = self.loops
            head = cur.copy()
            self.loops = self.loops + ((site, iter_node, kind),)
            self.loop_iters[site] = (iter_node, kind)
            cond = None
            if test is not None:
                cond = self.ev(test, cur, fr)
                cond, pol = self.norm_cond(cond)
                d = self.decide(cond, cur)
                head = cur.copy()
                if d is None or True:
                    if not (cond.op == "const"):
                        cur = self.assume_guard(cur, cond, pol)
            else:
                header(cur)
            end = self.exec_block(s.body, cur, fr)
            conts = fr.continues.pop()
            brks = fr.breaks.pop()
            self.loops = saved_loops
            body_tree = self.out
            self.out = saved_out
            back = self.join_many([end] + conts)
            # heap keys written in the body
            new = set()
            for s2 in [back] + brks:
                if s2 is None:
                    continue
                for k, v in s2.heap.items():
                    base = hv.get(k) or entry.heap.get(k)
                    if base is None:
                        base = self.heap_init(k)
                    if v is not base:
                        new.add(k)
            grew = not new <= changed_heap
            if grew and attempt < 2:
                changed_heap |= new
                del self.effects[n_eff:]
                del fr.returns[n_ret:]
                del fr.yields[n_y:]
                continue
            if back is not None:
                for n, v in lv.items():
                    v.info["next"] = back.env.get(n)
                for k, v in hv.items():
                    v.info["next"] = back.heap.get(k)
            self.out.append(("loop", site, iter_node if test is None else cond, body_tree, kind, self.where(fr, s), infinite(test)))
            # state after the loop: header state (exit by exhaustion) joined with breaks
            after = None
            if not infinite(test):
                after = entry.copy()
                for n, v in lv.items():
                    after.env[n] = v
                for k, v in hv.items():
                    after.heap[k] = v
                after.guards = entry.guards
                if s.orelse:
                    after = self.exec_block(s.orelse, after, fr)
            result = after
            for b in brks:
                if result is None:
                    result = b
                    result.guards = entry.guards
                else:
                    result = self.join(None, result, b, entry.guards)
            return result
        return result

    def st_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        if self.op_hook is not None:
            self.op_hook("iterated over", it, st, fr, s)
        site = self.site(fr, s)

        def header(cur):
            self.assign(s.target, self.element(it, site, cur), cur, fr, s)

        # a loop over a short literal tuple is unrolled (exact)
        sit = self.strip(it)
        if self.unroll and not has_break(s.body) and not s.orelse:
            rounds = self.short_range(it)
            if rounds is not None:
                return self.unrolled(rounds, s.target, s.body, st, fr, s)
        if sit.op in ("tuple", "list") and it.op != "ver" and 0 < len(sit.args[0]) <= 4 and all(x.op == "const" for x in sit.args[0]) and not has_break(s.body) and not s.orelse and size_of(s.body) < 60:
            for x in sit.args[0]:
                self.assign(s.target, x, st, fr, s)
                st = self.exec_block(s.body, st, fr)
                if st is None:
                    return None
            return st
        return self.run_loop(s, st, fr, header, "for", it)

    def short_range(self, it):
        if it.op == "call" and it.args[0] == "range" and 1 <= len(it.args[1]) <= 3 and all(x.op == "const" and isinstance(x.args[1], int) for x in it.args[1]):
            try:
                r = range(*[x.args[1] for x in it.args[1]])
            except ValueError:
                return None
            if len(r) <= self.unroll:
                return [self.const(k) for k in r]
        return None

    def unrolled(self, rounds, target, body, st, fr, s):
        for x in rounds:
            self.assign(target, x, st, fr, s)
            st = self.exec_block(body, st, fr)
            if st is None:
                return None
        return st

    MUTATE = ("append", "extend", "insert", "pop", "remove", "clear", "resize", "sort", "update", "add", "discard", "popitem", "setdefault")

    def counting(self, s, fr):
        """(name, bound) of a loop `while name < bound: ...; name += 1` whose bound the body does not change: such a loop
        is one over range(name, bound)"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(s.body) < 1:
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not isinstance(a, ast.Name):
            return None
        v, last = a.id, s.body[-1]

        def one(x):
            return isinstance(x, ast.Constant) and x.value == 1 and x.value is not True

        if isinstance(last, ast.AugAssign):
            if not (isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.op, ast.Add) and one(last.value)):
                return None
        elif isinstance(last, ast.Assign):
            e = last.value
            if not (len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v and isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add)):
                return None
            x, y = e.left, e.right
            if one(x):
                x, y = y, x
            if not (isinstance(x, ast.Name) and x.id == v and one(y)):
                return None
        else:
            return None
        body = s.body[:-1]
        names = self.assigned_names(body)
        if v in names or own(body, ast.Continue):
            return None
        if own(body, ast.Break):
            fn = getattr(fr.func, "node", None)
            if fn is None or any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno for x in ast.walk(fn)):
                return None
        bases = []
        for x in ast.walk(b):
            if isinstance(x, ast.Name):
                if x.id in names or x.id == v:
                    return None
            elif isinstance(x, ast.Attribute):
                if x.attr != "shape" and x.attr in self.stored_later():
                    bases.append(x)
                    if any(isinstance(y, ast.Call) for z in body for y in ast.walk(z)):
                        return None
                bases.append(x.value if x.attr == "shape" else x)
            elif isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and not x.keywords):
                    return None
                bases.append(x.args[0])
            elif not isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.operator, ast.unaryop, ast.expr_context, ast.Tuple)):
                return None
        keys = {ast.unparse(x) for x in bases}
        for z in body:
            for y in ast.walk(z):
                if isinstance(y, (ast.Attribute, ast.Subscript)) and isinstance(y.ctx, (ast.Store, ast.Del)) and (ast.unparse(y) in keys or isinstance(y, ast.Subscript) and ast.unparse(y.value) in keys and not (isinstance(y.ctx, ast.Store) and not isinstance(y.slice, ast.Slice))):
                    return None
                if isinstance(y, ast.Call):
                    if isinstance(y.func, ast.Attribute) and y.func.attr in self.MUTATE and ast.unparse(y.func.value) in keys:
                        return None
                    if any(ast.unparse(w) in keys for w in y.args) and not (isinstance(y.func, ast.Name) and y.func.id in ("len", "zip", "enumerate", "range", "sum", "max", "min")):
                        return None
                if isinstance(y, (ast.FunctionDef, ast.Lambda)):
                    return None
        return v, b, body

    def stored_later(self):
        """attributes stored outside of constructors"""
        s = getattr(self.prog, "_stored_later", None)
        if s is None:
            s = set()
            for f in self.prog.all_functions():
                if f.name != "__init__":
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, (ast.Store, ast.Del)):
                            s.add(y.attr)
            self.prog._stored_later = s
        return s

    def st_While(self, s, st, fr):
        c = self.counting(s, fr)
        if c is not None:
            v, b, body = c
            start, stop = st.env.get(v), self.ev(b, st, fr)
            if start is not None and start.op != "loopv":
                zero = start.op == "const" and start.args[1] == 0
                rng = self.mk("call", "range", (stop,) if zero else (start, stop), (), None)
                loop = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(id=v, ctx=ast.Store()), s), iter=s.test, body=body or [ast.copy_location(ast.Pass(), s)], orelse=[]), s)
                site = self.site(fr, s)
                rounds = self.short_range(rng) if self.unroll and not has_break(loop.body) else None
                if rounds is not None:
                    st = self.unrolled(rounds, loop.target, loop.body, st, fr, loop)
                    if st is not None:
                        st.env[v] = stop
                    return st

                def header(cur):
                    self.assign(loop.target, self.element(rng, site, cur), cur, fr, loop)

                st = self.run_loop(loop, st, fr, header, "for", rng)
                if st is not None:
                    st.env[v] = stop if zero else self.mk("call", "max", (start, stop), (), None)
                return st
        return self.run_loop(s, st, fr, None, "while", None, test=s.test)

    def element(self, it, site, st=None):
        """the node of an element of an iteration"""
        base = self.strip(it)
        if base.op == "call" and isinstance(base.args[0], str):
            nm, args = base.args[0], base.args[1]
            if nm == "zip" and args and not any(a.op == "star" for a in args):
                return self.mk("tuple", tuple(self.element(a, site, st) for a in args))
            if nm == "enumerate" and args:
                return self.mk("tuple", (self.mk("idx", site), self.element(args[0], site, st)))
            if nm in ("reversed", "sorted", "list", "tuple", "iter", "set") and len(args) == 1:
                return self.element(args[0], site, st)
            if nm == "itertools.chain" and args:
                return self.mk("phi", tuple(self.element(a, site, st) for a in args)) if len(args) > 1 else self.element(args[0], site, st)
            if nm == "itertools.chain.from_iterable" and args:
                return self.mk("elem", self.mk("elem", args[0], site), site)
        if base.op == "mcall" and not base.args[2]:
            if base.args[1] == "items":
                k = self.mk("key", base.args[0], site)
                return self.mk("tuple", (k, self.mk("sub", base.args[0], k)))
            if base.args[1] in ("keys",):
                return self.mk("key", base.args[0], site)
            if base.args[1] in ("values",):
                k = self.mk("key", base.args[0], site)
                return self.mk("sub", base.args[0], k)
        if base.op == "comp" and base.args[0] in ("list", "gen") and it.op != "ver":
            return self.mk("elem", it, site)
        return self.mk("elem", it, site)

    # -- expressions -----------------------------------------------------
    def site(self, fr, node):
        return (fr.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + fr.ctx

    def ev(self, e, st, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st, fr)
            return self.mk("opaque", (type(e).__name__,) + self.site(fr, e))
        return m(e, st, fr)

    def ver(self, n, st):
        o = n
        if o.op == "ver":
            o = o.args[0]
        c = st.heap.get((o, "$c"))
        if c is None:
            return o
        return self.mk("ver", o, c)

    def ex_Constant(self, e, st, fr):
        return self.const(e.value)

    def locals_of(self, f):
        """names that are variables of a function"""
        node = getattr(f, "node", None)
        if not isinstance(node, (ast.FunctionDef, ast.Lambda)):
            return ()
        memo = self.__dict__.setdefault("_locals", {})
        if node not in memo:
            body = node.body if isinstance(node.body, list) else []
            out = self.assigned_names(body)
            for x in ast.walk(node):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    out -= set(x.names)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out -= set((a.asname or a.name).split(".")[0] for a in x.names)
            memo[node] = out
        return memo[node]

    def ev_name(self, e, st, fr):
        v = self.ev_name_(e, st, fr)
        if self.use_hook is not None:
            self.use_hook("name", v, st, fr, e)
        return v

    def ev_name_(self, e, st, fr):
        name = e.id
        if name in st.env:
            v = self.simplify(st.env[name], st)
            return self.ver(v, st)
        o = fr.outer_env
        if o is not None and name in o:
            return self.ver(self.simplify(o[name], st), st)
        if name in self.locals_of(fr.func):
            return self.mk("unbound")
        r = self.prog.lookup(fr.module, name)
        if r is not None:
            return self.binding_node(r, name, fr.module)
        if self.undefined(name, fr):
            return self.mk("unbound")
        return self.mk("ext", name)  # builtin

    def undefined(self, name, fr):
        """no scope of the function defines the name"""
        import builtins

        if hasattr(builtins, name) or name in PY2_NAMES or name.startswith("__"):
            return False
        m = fr.module
        tree = getattr(m, "tree", None)
        if tree is None or fr.func is None or getattr(fr.func, "node", None) is None:
            return False
        key = id(m)
        if key not in self.globals_memo:
            names, star = set(), False
            todo = list(tree.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    star = star or any(a.name == "*" for a in x.names)
                    names.update((a.asname or a.name).split(".")[0] for a in x.names)
                elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    names.add(x.id)
                todo.extend(ast.iter_child_nodes(x))
            for x in ast.walk(tree):
                if isinstance(x, ast.Global):
                    names.update(x.names)
            self.globals_memo[key] = (names, star)
        names, star = self.globals_memo[key]
        if star or name in names:
            return False
        # a nested function sees the names of the functions around it
        top = None
        for x in ast.walk(tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(y is fr.func.node for y in ast.walk(x)):
                if x is not fr.func.node:
                    return False
                top = x
        return top is not None and not any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.arg) and x.arg == name for x in ast.walk(top))

    def ex_Name(self, e, st, fr):
        return self.ev_name(e, st, fr)

    def binding_node(self, r, name, module=None):
        if r[0] == "func":
            return self.mk("func", r[1])
        if r[0] == "class":
            return self.mk("cls", r[1])
        if r[0] == "ext":
            d = r[1]
            return self.mk("ext", d)
        if r[0] == "module":
            return self.mk("mod", r[1].name)
        if r[0] == "const":
            v = r[1]
            m = r[2] if len(r) > 2 else module
            if isinstance(v, ast.Constant):
                return self.const(v.value)
            try:
                lit = ast.literal_eval(v)
                if isinstance(lit, (int, float, str, bytes, bool)):
                    return self.const(lit)
            except Exception:
                pass
            n = self.mk("gconst", (m.name if m else ""), name)
            if n.info is None:
                n.info = {"ast": v, "module": m}
            return n
        return self.mk("ext", name)

    def ex_Attribute(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        if self.use_hook is not None:
            self.use_hook("attr", (obj, e.attr), st, fr, e)
        if self.op_hook is not None:
            self.op_hook("asked for " + e.attr, obj, st, fr, e)
        return self.load_attr(obj, e.attr, st, fr, e)

    def load_attr(self, obj, attr, st, fr, e):
        base = self.strip(obj)
        if base.op == "ext":
            d = base.args[0] + "." + attr
            if d == "sys.version_info.major":
                return self.const(3)
            return self.mk("ext", d)
        if base.op == "mod":
            r = self.prog.lookup(self.prog.modules[base.args[0]], attr)
            if r is not None:
                return self.binding_node(r, attr, self.prog.modules[base.args[0]])
            sub = base.args[0] + "." + attr
            if sub in self.prog.modules:
                return self.mk("mod", sub)
            return self.mk("ext", sub)
        if base.op == "cls":
            c = base.args[0]
            f = c.find_method(attr)
            if f is not None:
                return self.mk("func", f)
            ca = c.find_attr(attr)
            if ca is not None:
                return self.classattr(ca[0], attr, ca[1])
            return self.mk("attr", base, attr)
        v = st.heap.get((base, attr))
        if v is not None:
            return self.ver(self.simplify(v, st), st)
        if base.op == "ite":
            s2 = self.simplify(base, st)
            if s2 is not base:
                return self.load_attr(s2, attr, st, fr, e)
        cs = self.cls_of(base, st)
        if cs and len(cs) == 1:
            c = next(iter(cs))
            if isinstance(c, ClassInfo):
                f = c.find_method(attr)
                if f is not None:
                    if f.kind == "static":
                        return self.mk("func", f)
                    if f.kind == "property":
                        return self.call_func(f, [base], {}, st, fr, e)
                    return self.mk("bound", base, f)
                if attr not in c.slots():
                    ca = c.find_attr(attr)
                    if ca is not None:
                        return self.classattr(ca[0], attr, ca[1])
        n = self.mk("attr", base, attr)
        return self.ver(n, st)

    def classattr(self, c, attr, v):
        if isinstance(v, ast.Constant):
            return self.const(v.value)
        n = self.mk("classattr", c, attr)
        if n.info is None:
            n.info = {"ast": v, "module": c.module}
        return n

    def ex_Tuple(self, e, st, fr):
        return self.mk("tuple", tuple(self.ev(x, st, fr) for x in e.elts))

    def ex_List(self, e, st, fr):
        return self.mk("list", tuple(self.ev(x, st, fr) for x in e.elts), self.site(fr, e))

    def ex_Set(self, e, st, fr):
        return self.mk("set", tuple(self.ev(x, st, fr) for x in e.elts), self.site(fr, e))

    def ex_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            items.append((self.ev(k, st, fr) if k is not None else self.mk("star", vv), vv))
        return self.mk("dict", tuple(items), self.site(fr, e))

    def ex_Starred(self, e, st, fr):
        return self.mk("star", self.ev(e.value, st, fr))

    def ex_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st, fr)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                parts.append(self.mk("fmt", x, v.conversion, spec))
            else:
                parts.append(self.const(v.value))
        return self.mk("fstr", tuple(parts))

    def ex_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def ex_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ex_Yield(self, e, st, fr):
        v = self.NONE if e.value is None else self.ev(e.value, st, fr)
        fr.yields.append((st.guards, st.copy(), v))
        self.emit("yield", st, fr, e, value=v)
        return self.mk("opaque", ("sent",) + self.site(fr, e))

    def ex_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        fr.yields.append((st.guards, st.copy(), self.mk("elem", v, self.site(fr, e))))
        self.emit("yield", st, fr, e, value=self.mk("elem", v, self.site(fr, e)))
        return self.mk("opaque", ("sent",) + self.site(fr, e))

    def ex_Lambda(self, e, st, fr):
        f = FuncInfo("<lambda>", e, fr.module, None, fr.func)
        n = self.mk("closure", self.site(fr, e), "<lambda>")
        self.closures[n] = Closure(f, st.env, fr)
        return n

    def ex_IfExp(self, e, st, fr):
        c = self.ev(e.test, st, fr)
        d = self.decide(c, st)
        if d is True:
            return self.ev(e.body, st, fr)
        if d is False:
            return self.ev(e.orelse, st, fr)
        cond, pol = self.norm_cond(c)
        saved = self.capture()
        g0 = st.guards
        h0 = dict(st.heap)
        s1 = self.assume_guard(st, cond, pol)
        a = self.ev(e.body, s1, fr)
        ta = self.out
        self.out = []
        s2 = self.assume_guard(st, cond, not pol)
        b = self.ev(e.orelse, s2, fr)
        tb = self.out
        self.out = saved
        if ta or tb:
            self.out.append(("if", cond, ta if pol else tb, tb if pol else ta, self.where(fr, e)))
        j = self.join(cond, s1 if pol else s2, s2 if pol else s1, g0)
        st.heap = j.heap
        st.env = j.env if not isinstance(j.env, type(None)) else st.env
        return self.join_vals(cond, a, b) if pol else self.join_vals(cond, b, a)

    def ex_BoolOp(self, e, st, fr):
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        s2 = st.copy()
        for x in e.values:
            v = self.ev(x, s2, fr)
            d = self.decide(v, s2)
            if op == "and" and d is False:
                if self._bool_only(v):
                    v = self.FALSE
                vals.append(v)
                break
            if op == "or" and d is True:
                if self._bool_only(v):
                    v = self.TRUE
                vals.append(v)
                break
            vals.append(v)
            c, p = self.norm_cond(v)
            s2 = self.assume_guard(s2, c, p if op == "and" else (not p))
        st.heap.update(s2.heap)
        for k in s2.env:
            if k not in st.env:
                st.env[k] = s2.env[k]
        # drop neutral constants
        red = []
        for v in vals:
            d = self.decide(v, st)
            if d is True and op == "and" and v is not vals[-1]:
                continue
            if d is False and op == "or" and v is not vals[-1]:
                continue
            red.append(v)
        if len(red) == 1:
            return red[0]
        if len(red) == 2 and red[-1].op == "const" and isinstance(red[-1].args[1], bool):
            if op == "and" and red[-1].args[1] is True and self._bool_only(red[0]):
                return red[0]
            if op == "or" and red[-1].args[1] is False and self._bool_only(red[0]):
                return red[0]
            if op == "and" and red[-1].args[1] is False:
                return self.FALSE
            if op == "or" and red[-1].args[1] is True:
                return self.TRUE
        return self.mk("bool", op, tuple(red))

    @staticmethod
    def _bool_only(v):
        return v.op == "cmp" or (v.op == "un" and v.args[0] == "not") or (v.op == "call" and v.args[0] in ("isinstance", "hasattr", "callable", "any", "all"))

    def ex_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            d = self.decide(v, st)
            if d is not None:
                return self.const(not d)
            if v.op == "un" and v.args[0] == "not" and self._bool_only(v.args[1]):
                return v.args[1]
            return self.mk("un", "not", v)
        if v.op == "const" and isinstance(v.args[1], (int, float)) and not isinstance(v.args[1], bool):
            if isinstance(e.op, ast.USub):
                return self.const(-v.args[1])
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and isinstance(v.args[1], int):
                return self.const(~v.args[1])
        return self.mk("un", {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], v)

    def ex_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        if self.op_hook is not None and not (isinstance(e.op, ast.Mod) and a.op == "const"):
            self.op_hook("computed with", a, st, fr, e)
            self.op_hook("computed with", b, st, fr, e)
        return self.binop(BINOPS[type(e.op)], a, b, st, self.site(fr, e))

    def binop(self, op, a, b, st, site=None):
        if a.op == "const" and b.op == "const":
            x, y = a.args[1], b.args[1]
            try:
                if op in ("+", "-", "*", "//", "%", "|", "&", "^", "<<", ">>", "/", "**") and isinstance(x, (int, float, str, bytes)) and isinstance(y, (int, float, str, bytes)):
                    if not (op == "**" and (abs(y) > 64 if isinstance(y, (int, float)) else True)) and not (op == "<<" and y > 64) and not (op == "*" and isinstance(x, (str, bytes)) and y > 1000):
                        r = BINFN[op](x, y)
                        return self.const(r)
            except Exception:
                pass
        if op == "+":
            la, lb = self.strip(a), self.strip(b)
            if la.op == lb.op == "tuple":
                return self.mk("tuple", la.args[0] + lb.args[0])
            if la.op == lb.op == "list" and a.op == "list" and b.op == "list" and site is not None:
                return self.mk("list", la.args[0] + lb.args[0], site)
        return self.mk("bin", op, a, b)

    def ex_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            o = CMPOPS[type(op)]
            if self.op_hook is not None:
                if o in ("in", "not in"):
                    self.op_hook("searched", right, st, fr, e)
                elif o in ("<", "<=", ">", ">="):
                    self.op_hook("compared", left, st, fr, e)
                    self.op_hook("compared", right, st, fr, e)
            out.append(self.compare(o, left, right, st))
            left = right
        if len(out) == 1:
            return out[0]
        return self.mk("bool", "and", tuple(out))

    def compare(self, o, a, b, st):
        if o in ("is", "is not") and a.op == "ext" and b.op == "ext" and {a.args[0], b.args[0]} == {"str", "bytes"}:
            return self.const(o == "is not")
        # canonical orientation: constants on the right
        if a.op == "const" and b.op != "const":
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "is": "is", "is not": "is not"}
            if o in flip:
                a, b, o = b, a, flip[o]
        c = self.mk("cmp", o, a, b)
        if a.op == "const" and b.op == "const":
            d = self.decide(c, st)
            if d is not None:
                return self.const(d)
        return c

    def ev_index(self, sl, st, fr):
        if isinstance(sl, ast.Slice):
            return self.mk(
                "slice",
                self.ev(sl.lower, st, fr) if sl.lower is not None else self.NONE,
                self.ev(sl.upper, st, fr) if sl.upper is not None else self.NONE,
                self.ev(sl.step, st, fr) if sl.step is not None else self.NONE,
            )
        if isinstance(sl, ast.Tuple):
            return self.mk("tuple", tuple(self.ev_index(x, st, fr) for x in sl.elts))
        if sl.__class__.__name__ == "Index":
            return self.ev_index(sl.value, st, fr)
        return self.ev(sl, st, fr)

    def ex_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def ex_Subscript(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        key = self.ev_index(e.slice, st, fr)
        if self.op_hook is not None:
            self.op_hook("indexed", obj, st, fr, e)
        return self.ver(self.subscript(obj, key, st), st)

    def literal(self, n):
        """python literal of a table node ('classattr'/'gconst'), else None"""
        if n.op in ("classattr", "gconst") and n.info:
            if "lit" not in n.info:
                try:
                    n.info["lit"] = ast.literal_eval(n.info["ast"])
                except Exception:
                    n.info["lit"] = None
            return n.info["lit"]
        return None

    def subscript(self, obj, key, st):
        base = self.strip(obj)
        if obj.op != "ver" and base.op in ("tuple", "list") and key.op == "const" and isinstance(key.args[1], int):
            items = base.args[0]
            i = key.args[1]
            if -len(items) <= i < len(items) and not any(x.op == "star" for x in items):
                return items[i]
        if base.op == "tuple" and key.op == "slice" and all(x.op == "const" for x in key.args):
            try:
                return self.mk("tuple", base.args[0][slice(*[x.args[1] for x in key.args])])
            except Exception:
                pass
        if key.op == "const":
            lit = self.literal(base)
            if lit is not None and self.fold_tables and isinstance(lit, (dict, tuple, list)):
                try:
                    v = lit[key.args[1]]
                    if isinstance(v, (int, float, str, bool)) or v is None:
                        return self.const(v)
                except Exception:
                    pass
        if obj.op == "ite" and key.op == "const":
            return self.mk("ite", obj.args[0], self.subscript(obj.args[1], key, st), self.subscript(obj.args[2], key, st))
        if obj.op == "ver" and key.op != "slice":
            # forward an item store with the very same key
            c = obj.args[1]
            if c.op == "upd" and c.args[1] == "setitem" and c.args[2][0] is key:
                return c.args[2][1]
            if c.op == "upd" and c.args[1] in ("append",) and key.op == "const" and key.args[1] == -1:
                return c.args[2][0]
        n = self.mk("sub", obj, key)
        if self.rewrite is not None:
            r = self.rewrite(n)
            if r is not None:
                return r
        return n

    # comprehension: evaluated as a loop
    def comp(self, e, kind, elts, st, fr):
        site = self.site(fr, e)
        s2 = st.copy()
        iters = []
        isites = []
        conds = []
        saved_loops = self.loops
        saved = self.capture()
        pre = []
        first = True
        for g in e.generators:
            it = self.ev(g.iter, s2, fr)
            if first:
                pre = self.out
                self.out = []
                first = False
            isite = self.site(fr, g.target)
            isites.append(isite)
            iters.append(it)
            self.loops = self.loops + ((isite, it, "comp"),)
            self.assign(g.target, self.element(it, isite, s2), s2, fr, g.target)
            for c in g.ifs:
                cn = self.ev(c, s2, fr)
                cn2, pol = self.norm_cond(cn)
                conds.append((cn2, pol))
                s2 = self.assume_guard(s2, cn2, pol)
        vals = tuple(self.ev(x, s2, fr) for x in elts)
        body = self.out
        self.out = saved
        self.out.extend(pre)
        if body:
            self.out.append(("loop", site, iters[0], body, "comp", self.where(fr, e), False))
        self.loops = saved_loops
        for k, v in s2.heap.items():
            if st.heap.get(k) is not v:
                st.heap[k] = self.join_vals(None, st.heap.get(k) or self.heap_init(k), v)
        n = self.mk("comp", kind, vals[0] if len(vals) == 1 else self.mk("tuple", vals), tuple(iters), tuple(conds), site)
        n.info = {"sites": tuple(isites)}
        return n

    def ex_ListComp(self, e, st, fr):
        return self.comp(e, "list", [e.elt], st, fr)

    def ex_SetComp(self, e, st, fr):
        return self.comp(e, "set", [e.elt], st, fr)

    def ex_GeneratorExp(self, e, st, fr):
        return self.comp(e, "gen", [e.elt], st, fr)

    def ex_DictComp(self, e, st, fr):
        return self.comp(e, "dict", [e.key, e.value], st, fr)

    # -- calls -----------------------------------------------------------
    def ex_Call(self, e, st, fr):
        self.call_sites += 1
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            owner = fr.func.cls
            target = None
            if owner is not None and fr.self_cls is not None:
                mro = fr.self_cls.mro()
                if owner in mro:
                    for c in mro[mro.index(owner) + 1 :]:
                        if fn.attr in c.methods:
                            target = c.methods[fn.attr]
                            break
            args, kwargs = self.ev_args(e, st, fr)
            selfn = st.env.get(fr.func.params()[0]) if fr.func.params() else None
            if target is not None and selfn is not None:
                return self.call_func(target, [selfn] + args, kwargs, st, fr, e)
            return self.ext_call("super." + fn.attr, args, kwargs, st, fr, e)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, st, fr)
            base = self.strip(recv)
            if self.use_hook is not None:
                self.use_hook("attr", (recv, fn.attr), st, fr, fn)
            if self.op_hook is not None:
                self.op_hook("asked for " + fn.attr, recv, st, fr, fn)
            if base.op in ("ext", "mod", "cls"):
                target = self.load_attr(recv, fn.attr, st, fr, fn)
                args, kwargs = self.ev_args(e, st, fr)
                return self.call_node(target, args, kwargs, st, fr, e)
            # a stored callable attribute?
            v = st.heap.get((base, fn.attr))
            args, kwargs = self.ev_args(e, st, fr)
            if v is not None and self.strip(v).op in ("closure", "func", "bound", "cls"):
                return self.call_node(self.strip(v), args, kwargs, st, fr, e)
            return self.method_call(recv, fn.attr, args, kwargs, st, fr, e)
        target = self.ev(fn, st, fr)
        args, kwargs = self.ev_args(e, st, fr)
        return self.call_node(target, args, kwargs, st, fr, e)

    def ev_args(self, e, st, fr):
        args = [self.ev(a, st, fr) for a in e.args]
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                # **mapping: expand a literal dictionary when exactly known
                kwargs.setdefault("**", []).append(v)
            else:
                kwargs[k.arg] = v
        # flatten literal star args
        flat = []
        for a in args:
            if a.op == "star" and a.args[0].op in ("tuple", "list"):
                flat.extend(a.args[0].args[0])
            else:
                flat.append(a)
        return flat, kwargs

    def kwt(self, kwargs):
        out = []
        for k in sorted(kwargs):
            v = kwargs[k]
            if k == "**":
                for x in v:
                    out.append(("**", x))
            else:
                out.append((k, v))
        return tuple(out)

    def call_node(self, target, args, kwargs, st, fr, e):
        t = self.strip(target)
        if t.op == "ite":
            t = self.simplify(t, st)
        if t.op == "func":
            return self.call_func(t.args[0], args, kwargs, st, fr, e)
        if t.op == "bound":
            return self.call_func(t.args[1], [t.args[0]] + args, kwargs, st, fr, e)
        if t.op == "cls":
            return self.construct(t.args[0], args, kwargs, st, fr, e)
        if t.op == "closure" and t in self.closures:
            c = self.closures[t]
            return self.call_func(c.func, args, kwargs, st, fr, e, closure=c)
        if t.op == "ext":
            return self.ext_call(t.args[0], args, kwargs, st, fr, e)
        if t.op == "ite" and all(x.op in ("cls", "func", "bound", "closure") for x in self.alts(t)):
            cond = t.args[0]
            saved = self.capture()
            s1 = self.assume_guard(st, cond, True)
            a = self.call_node(t.args[1], args, kwargs, s1, fr, e)
            ta = self.out
            self.out = []
            s2 = self.assume_guard(st, cond, False)
            b = self.call_node(t.args[2], args, kwargs, s2, fr, e)
            tb = self.out
            self.out = saved
            self.out.append(("if", cond, ta, tb, self.where(fr, e)))
            j = self.join(cond, s1, s2, st.guards)
            st.heap = j.heap
            return self.join_vals(cond, a, b)
        n = self.mk("call", t, tuple(args), self.kwt(kwargs), self.site(fr, e))
        self.emit("call", st, fr, e, target=t, args=tuple(args), kwargs=self.kwt(kwargs), result=n)
        return n

    CANON = {"libcopy.deepcopy": "copy.deepcopy", "libcopy.copy": "copy.copy", "builtins.open": "open", "io.open": "open"}

    def ext_call(self, name, args, kwargs, st, fr, e):
        name = self.CANON.get(name, name)
        kw = self.kwt(kwargs)
        if self.op_hook is not None and (name in NO_NONE or name.startswith("numpy.")):
            for x in args[:1] if name not in ("zip", "range", "min", "max") else args:
                self.op_hook("given to " + name, x, st, fr, e)
        if name in PURE:
            n = self.mk("call", name, tuple(args), kw, None)
            if name == "isinstance" and len(args) == 2:
                d = self.decide(n, st)
                if d is not None:
                    return self.const(d)
            if name == "len" and len(args) == 1 and args[0].op in ("tuple", "list") and not any(x.op == "star" for x in args[0].args[0]):
                return self.const(len(args[0].args[0]))
            if name == "len" and len(args) == 1 and self.fold_tables and isinstance(self.literal(args[0]), (tuple, list, dict, str)):
                return self.const(len(self.literal(args[0])))
            if name in ("int", "float", "abs", "min", "max", "round") and all(a.op == "const" and isinstance(a.args[1], (int, float)) for a in args) and not kw:
                try:
                    return self.const({"int": int, "float": float, "abs": abs, "min": min, "max": max, "round": round}[name](*[a.args[1] for a in args]))
                except Exception:
                    pass
            return n
        if name == "getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].args[1], str):
            return self.load_attr(args[0], args[1].args[1], st, fr, e)
        if name == "setattr" and len(args) == 3 and args[1].op == "const" and isinstance(args[1].args[1], str):
            self.store_attr(args[0], args[1].args[1], args[2], st, fr, e)
            return self.NONE
        if name == "tuple" and len(args) == 1 and args[0].op == "tuple":
            return args[0]
        n = self.mk("call", name, tuple(args), kw, self.site(fr, e))
        self.emit("call", st, fr, e, target=name, args=tuple(args), kwargs=kw, result=n)
        return n

    def method_call(self, recv, name, args, kwargs, st, fr, e):
        base = self.simplify(self.strip(recv), st)
        base = self.strip(base)
        cs = self.cls_of(base, st)
        if cs and all(isinstance(c, ClassInfo) for c in cs):
            fs = set(c.find_method(name) for c in cs)
            if len(fs) == 1 and None not in fs:
                f = next(iter(fs))
                if f.kind == "static":
                    return self.call_func(f, args, kwargs, st, fr, e)
                return self.call_func(f, [base] + args, kwargs, st, fr, e, self_cls=next(iter(cs)) if len(cs) == 1 else None)
        kw = self.kwt(kwargs)
        if name == "format" and base.op == "const" and isinstance(base.args[1], str):
            if all(x.op == "const" for x in args) and all(x.op == "const" for x in kwargs.values() if not isinstance(x, list)) and "**" not in kwargs:
                try:
                    return self.const(base.args[1].format(*[x.args[1] for x in args], **{k: v.args[1] for k, v in kwargs.items()}))
                except Exception:
                    pass
            n = self.mk("mcall", base, name, tuple(args), kw, None)
            return n
        if name == "get" and args and args[0].op == "const" and self.fold_tables and not kw:
            lit = self.literal(base)
            if isinstance(lit, dict):
                k = args[0].args[1]
                if k in lit and isinstance(lit[k], (int, float, str, bool)):
                    return self.const(lit[k])
                if k not in lit:
                    return args[1] if len(args) > 1 else self.NONE
        if base.op == "const" and isinstance(base.args[1], str) and not kw and all(x.op == "const" for x in args) and name in ("lower", "upper", "strip", "replace", "startswith", "endswith"):
            try:
                return self.const(getattr(base.args[1], name)(*[x.args[1] for x in args]))
            except Exception:
                pass
        pure = name in ("keys", "values", "items", "get", "copy", "encode", "decode", "lower", "upper", "strip", "replace", "split", "join", "startswith", "endswith", "tobytes", "tostring", "astype", "reshape", "transpose", "min", "max", "sum", "mean", "all", "any", "flatten", "nonzero")
        rv = recv if recv.op == "ver" else base
        if self.op_hook is not None:
            self.op_hook(("passed", name), (args, kwargs), st, fr, e)
        n = self.mk("mcall", rv, name, tuple(args), kw, self.site(fr, e))
        self.emit("mcall", st, fr, e, recv=base, recv_v=rv, name=name, args=tuple(args), kwargs=kw, result=n, classes=cs, loopn=self.loops)
        if name in MUTATORS:
            targets = self.alts(base) if base.op in ("ite", "phi") else [base]
            for o in targets:
                prev = st.heap.get((o, "$c")) or self.mk("init", o)
                st.heap[(o, "$c")] = self.mk("upd", prev, name, tuple(args))
        return n

    def construct(self, c, args, kwargs, st, fr, e):
        site = self.site(fr, e)
        n = self.mk("new", c, site)
        init = c.find_method("__init__")
        self.emit("new", st, fr, e, cls=c, args=tuple(args), kwargs=self.kwt(kwargs), result=n)
        if self.use_hook is not None and init is not None:
            self.use_hook("call", (init, [n] + list(args), kwargs), st, fr, e)
        if init is not None and self.may_inline(init, fr):
            self.call_func(init, [n] + args, kwargs, st, fr, e, self_cls=c)
        else:
            if n.info is None:
                n.info = {}
            n.info["ctor"] = (tuple(args), self.kwt(kwargs))
        return n

    def may_inline(self, f, fr):
        if f in fr.stack or len(fr.stack) > self.MAX_INLINE:
            return False
        if self.inline_policy is not None:
            r = self.inline_policy(f, self)
            if r is not None:
                return r
        return True

    def bind(self, f, args, kwargs, st, fr, e):
        """parameter -> node; None when the call cannot be matched statically"""
        a = f.node.args
        names = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        env = {}
        rest = []
        if any(x.op == "star" for x in args):
            # positional splat of unknown length
            pos = []
            for x in args:
                if x.op == "star":
                    for i in range(len(names) - len(pos)):
                        pos.append(self.mk("sub", x.args[0], self.const(i)))
                    break
                pos.append(x)
            args = pos
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        stars = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                stars.extend(v)
            elif k in names or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        ndef = len(a.defaults)
        for i, d in enumerate(a.defaults):
            nm = names[len(names) - ndef + i]
            if nm not in env:
                if stars:
                    env[nm] = self.mk("kwget", stars[0], nm)
                else:
                    env[nm] = self.default_node(d, f)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.default_node(d, f) if d is not None else self.mk("undef")
        for nm in names:
            if nm not in env:
                env[nm] = self.mk("kwget", stars[0], nm) if stars else self.mk("undef")
        if a.vararg:
            env[a.vararg.arg] = self.mk("tuple", tuple(rest))
        if a.kwarg:
            if stars and not extra:
                env[a.kwarg.arg] = self.mk("kwrest", stars[0], tuple(names)) if names else stars[0]
            else:
                env[a.kwarg.arg] = self.mk("dict", tuple((self.const(k), v) for k, v in sorted(extra.items())), ("kw",) + self.site(fr, e))
        return env

    def default_node(self, d, f):
        try:
            v = ast.literal_eval(d)
            if isinstance(v, (int, float, str, bytes, bool, type(None))):
                return self.const(v)
            if isinstance(v, tuple):
                return self.mk("tuple", tuple(self.const(x) for x in v))
        except Exception:
            pass
        n = self.mk("default", f, ast.unparse(d))
        return n

    def call_func(self, f, args, kwargs, st, fr, e, closure=None, self_cls=None):
        if self.use_hook is not None and not (f.cls is not None and f.name == "__init__" and args and args[0].op == "new"):
            self.use_hook("call", (f, args, kwargs), st, fr, e)
        if self.op_hook is not None:
            self.op_hook(("passed", f), (args, kwargs), st, fr, e)
        if f.is_generator:
            site = self.site(fr, e)
            n = self.mk("gencall", f, tuple(args), self.kwt(kwargs), site)
            self.emit("gencall", st, fr, e, func=f, args=tuple(args), kwargs=self.kwt(kwargs), result=n)
            return n
        if not self.may_inline(f, fr):
            n = self.mk("icall", f, tuple(args), self.kwt(kwargs), self.site(fr, e))
            self.emit("icall", st, fr, e, func=f, args=tuple(args), kwargs=self.kwt(kwargs), result=n, recursive=f in fr.stack)
            return n
        self.functions_seen.add(f)
        env = self.bind(f, args, kwargs, st, fr, e)
        ctx = fr.ctx + ((getattr(e, "lineno", 0), getattr(e, "col_offset", 0)),)
        scls = None
        if f.cls is not None and f.kind == "plain":
            ps = f.params()
            sn = self.strip(env[ps[0]]) if ps else None
            cs = self.cls_of(sn, st) if sn is not None else None
            if self_cls is not None:
                scls = self_cls
            elif cs and len(cs) == 1 and isinstance(next(iter(cs)), ClassInfo):
                scls = next(iter(cs))
            else:
                scls = f.cls
            if sn is not None and not cs and sn.op in ("param", "elem", "sub", "attr", "call", "mcall", "phi", "loopv"):
                if sn.info is None:
                    sn.info = {}
        outer = None
        if closure is not None:
            outer = dict(closure.frame.outer_env or {})
            outer.update(closure.env)
        fr2 = Frame(f, f.module, scls, ctx, fr.stack + (f,), outer)
        st2 = State(env, st.heap, st.guards)
        st2.heap = dict(st.heap)
        saved = self.capture()
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, st2, fr2)
            body = self.out
            self.out = saved
            self.out.append(("inline", f, body, self.where(fr, e)))
            st.heap = st2.heap
            return v
        end = self.exec_block(f.node.body, st2, fr2)
        rets = list(fr2.returns)
        if end is not None:
            rets.append((end.guards, end, self.NONE))
            self.out.append(("return", self.NONE, end, None))
        body = self.out
        self.out = saved
        self.out.append(("inline", f, body, self.where(fr, e)))
        if not rets:
            # never returns normally
            st.dead = True
            return self.mk("undef")
        base = len(st.guards)
        j = self.join_many([s for _, s, _ in rets])
        st.heap = j.heap
        # value
        items = [(g[base:], v) for g, s, v in rets]
        v = self._decide_tree(items, 0)
        # a callee that raises on some condition leaves the negated condition as a fact
        if len(rets) == 1 and len(rets[0][0]) > base and rets[0][0][:base] == st.guards:
            st.guards = rets[0][0]
        return self.ver(v, st) if v.op not in ("const",) else v


def infinite(test):
    return isinstance(test, ast.Constant) and bool(test.value)


def has_break(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


def own(body, kind):
    """break or continue statements of the loop with this body"""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, kind):
            return True
        if isinstance(n, (ast.For, ast.While)):
            stack.extend(n.orelse)
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.expr)):
            stack.extend(ast.iter_child_nodes(n))
    return False


def size_of(body):
    return sum(1 for s in body for n in ast.walk(s) if isinstance(n, ast.stmt))


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
BINFN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "|": lambda a, b: a | b,
    "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
}
CMPOPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
    ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


def subnodes(n, seen=None, follow=True):
    """all nodes reachable from n through its operands (and loop/content links)"""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, (Node, tuple)):
                stack.append(a)
        if follow and x.op == "loopv" and x.info:
            for k in ("init", "next"):
                if x.info.get(k) is not None:
                    stack.append(x.info[k])
    return seen


def walk_tree(tree, fn):
    """apply fn(effect) in program order to every effect of a tree"""
    for t in tree:
        k = t[0]
        if k == "eff":
            fn(t[1])
        elif k == "if":
            walk_tree(t[2], fn)
            walk_tree(t[3], fn)
        elif k == "loop":
            walk_tree(t[3], fn)
        elif k == "inline":
            walk_tree(t[2], fn)
        elif k == "with":
            walk_tree(t[2], fn)
        elif k == "try":
            walk_tree(t[1], fn)
            for _, h in t[2]:
                walk_tree(h, fn)
            walk_tree(t[3], fn)
