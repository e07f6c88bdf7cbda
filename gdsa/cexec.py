"""Path-sensitive abstract execution of C++ functions that handle Python objects:
ownership of references, pending exceptions, sizes of containers, memory."""
import re

from .cxx import text, walk

NEW = {"PySequence_GetItem", "PySequence_ITEM", "PySequence_Fast", "PySequence_List", "PySequence_Tuple", "PyObject_GetIter", "PyObject_GetItem", "PyObject_GetAttrString", "PyObject_Repr", "PyObject_Str", "PyTuple_New", "PyTuple_Pack", "PyList_New", "PyFloat_FromDouble", "PyNumber_Float", "PyNumber_Long", "PyLong_FromLong", "PyLong_FromLongLong", "PyLong_FromUnsignedLong", "PyLong_FromSsize_t", "PyLong_FromSize_t", "PyBool_FromLong", "PyUnicode_FromString", "PyDict_New", "Py_BuildValue", "PyModule_Create"}
NEVERNULL = {"PyBool_FromLong"}
BORROWED = {"PySequence_Fast_GET_ITEM", "PyTuple_GET_ITEM", "PyList_GET_ITEM", "PyTuple_GetItem", "PyList_GetItem"}
BORROWED_NULL = {"PyTuple_GetItem", "PyList_GetItem"}
LENGTH = {"PySequence_Length", "PySequence_Size", "PyObject_Length", "PyObject_Size", "PyTuple_Size", "PyList_Size"}
SIZE = {"PySequence_Fast_GET_SIZE", "PyTuple_GET_SIZE", "PyList_GET_SIZE"}
NUMBER = {"PyFloat_AsDouble", "PyLong_AsLong", "PyLong_AsLongLong"}
PLAIN = {"PyFloat_AS_DOUBLE"}
TESTS = {"PySequence_Check", "PyFloat_Check", "PyNumber_Check", "PyTuple_Check", "PyList_Check", "PyLong_Check", "PyBool_Check", "PyUnicode_Check", "PyErr_ExceptionMatches"}
STEAL = {"PyTuple_SET_ITEM": False, "PyList_SET_ITEM": False, "PyTuple_SetItem": True, "PyList_SetItem": True}
STATUS = {"PyList_Append", "PyDict_SetItemString", "PyModule_AddIntConstant", "PyErr_WarnEx", "PyObject_IsTrue"}
ALLOC = {"malloc", "calloc", "realloc", "PyMem_Malloc"}
FREE = {"free", "delete", "PyMem_Free"}
GLOBALS = ("PyExc_", "Py_None", "Py_True", "Py_False", "Py_NotImplemented")


class GiveUp(Exception):
    pass


def is_ref(t):
    t = t.replace("const ", "").strip()
    return t.replace(" ", "") == "PyObject*"


def container(t):
    t = t.replace("const ", "").replace("&", "").replace("ClipperLib::", "").strip()
    return t in ("Path", "Paths", "std::vector<IntPoint>") or t.startswith("std::vector<") or t.startswith("vector<")


class State(object):
    __slots__ = ("env", "objs", "err", "facts", "sizes", "mem")

    def __init__(self):
        self.env, self.objs, self.err, self.facts, self.sizes, self.mem = {}, {}, None, {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.objs, s.err, s.facts, s.sizes, s.mem = dict(self.env), dict(self.objs), self.err, dict(self.facts), dict(self.sizes), dict(self.mem)
        return s

    def key(self):
        f = lambda d: tuple(sorted(d.items(), key=repr))
        return (f(self.env), f(self.objs), self.err, f(self.facts), f(self.sizes), f(self.mem))


class Exec(object):
    """executes one function; problems are (kind, offset, message)"""
    MAXSTATES = 4000

    def __init__(self, lib, f, strings=None, hook=None, ints=None, budget=40000):
        self.lib, self.f, self.unit = lib, f, f.unit
        self.internal = lib.internal(f)
        self.undecided = []
        self.handed = 0
        self.strings, self.hook, self.ints = strings or {}, hook, ints or {}
        self.problems = {}
        self.budget = budget
        self.filling = set()
        self.reads = []           # reads at fixed positions of what may be empty: (text, container, offset, name)
        self.effects = []         # of a function called by others, for each outcome: arguments given up, containers not empty, whether the result is lent
        self.outcomes = []        # (state, value or None, offset)
        self.throws = []          # stack of lists of states at calls that may throw
        self.steps = 0
        self.calls = 0

    def problem(self, kind, off, msg):
        self.problems.setdefault((kind, self.unit.where(off), msg), off)

    def run(self):
        st = State()
        for nm, i, t in self.f.params:
            if is_ref(t):
                st.env[i] = ("obj", ("param", nm))
                st.objs[("param", nm)] = "borrowed"
            else:
                st.env[i] = self.ints.get(nm, ("term", nm))
        end, _, _ = self.block([st], self.unit.body(self.f))
        for s in end:
            self.finish(s, None, self.f.off)
        return self

    def finish(self, st, v, off):
        st = st.copy()
        ref = is_ref(self.f.ret)
        lent = False
        if v is not None and v[0] == "obj" and v[1] in st.objs:
            s = st.objs[v[1]]
            if ref:
                if s == "borrowed":
                    lent = True
                    if not self.internal:
                        self.problem("reference", off, "a reference that is not owned is returned")
                elif s == "gone":
                    self.problem("reference", off, "a reference already given up is returned")
                if not lent:
                    self.complete(st, v[1], off)
                st.objs[v[1]] = "borrowed" if lent else "owned" if s == "owned2" else "gone"
        if self.internal:
            # references of the arguments that are given up here
            taken = tuple(nm for nm, i, t in self.f.params if st.objs.get(("param", nm)) == "gone" and not (v is not None and v[0] == "obj" and v[1] == ("param", nm)))
            full = tuple(nm for nm, i, t in self.f.params if container(t) and "&" in t and "const" not in t and self.lower(st, self.size(st, ("var", nm, i, t))) > 0)
            self.effects.append((taken, full, lent))
        for o, s in sorted(st.objs.items(), key=repr):
            if s in ("owned", "owned2"):
                self.problem("leak", off, "the reference of %s is not released when %s returns here" % (self.describe(o), self.f.name))
        for m, s in sorted(st.mem.items(), key=repr):
            if s == "held":
                self.problem("memory", off, "the memory of %s is not freed when %s returns here" % (m, self.f.name))
        if ref:
            if v is None or v[0] == "uninit":
                self.problem("result", off, "a value that is not set is returned")
            elif v == ("null",) and st.err is None:
                self.problem("exception", off, "NULL is returned without an exception")
            elif v[0] == "obj" and st.err is not None:
                self.problem("exception", off, "a result is returned with an exception pending (%s)" % st.err)
        self.outcomes.append((st, v, off))

    def complete(self, st, o, off):
        """a tuple or list handed over has all of its items"""
        d = st.facts.get(("desc", o))
        if d is None or d[0] not in ("PyTuple_New", "PyList_New"):
            return
        n = d[1]
        self.handed += 1
        set_ = st.facts.get(("slots", o), ())
        if n[0] == "int":
            miss = [k for k in range(n[1]) if ("int", k) not in set_]
            if not miss:
                return
            if all(x[0] == "int" for x in set_):
                if not any(k[:2] == ("step", o) for k in st.facts):
                    self.problem("items", off, "item %d of %s is not set when it is handed over" % (miss[0], self.describe(o)))
                    return
        elif self.positive(st, n) is False:
            return
        if st.facts.get(("hole", o)):
            self.problem("items", off, "not all items of %s are set when it is handed over" % self.describe(o))
            return
        b = st.facts.get(("filled", o))
        if b is not None:
            x, y = self.linear(b), self.linear(n)
            if x == y:
                return
            if x[0] == y[0] and x[1] < y[1]:
                self.problem("items", off, "the last items of %s are not set when it is handed over" % self.describe(o))
                return
            if x[0] == y[0]:
                self.problem("items", off, "more items than %s has are set" % self.describe(o))
                return
        self.undecided.append("%s: the items of %s" % (self.unit.where(off), self.describe(o)))

    def linear(self, v):
        """value as a sum of something and a constant"""
        if v[0] == "int":
            return (None, v[1])
        if v[0] == "bin" and v[1] in ("+", "-") and v[3][0] == "int":
            a = self.linear(v[2])
            return (a[0], a[1] + (v[3][1] if v[1] == "+" else -v[3][1]))
        if v[0] == "bin" and v[1] == "+" and v[2][0] == "int":
            a = self.linear(v[3])
            return (a[0], a[1] + v[2][1])
        return (v, 0)

    def describe(self, o):
        return "%s (%s)" % (o[1], self.unit.where(o[0])) if isinstance(o[0], int) else str(o[1])

    # -- statements: lists of states; returns (normal, break, continue) ----------
    def block(self, sts, s):
        self.steps += 1
        if self.steps > self.budget or len(sts) > self.MAXSTATES:
            raise GiveUp("too many paths")
        k = s[0]
        if not sts or k == "nop":
            return sts, [], []
        if k == "block":
            br, co = [], []
            for x in s[1]:
                sts, b, c = self.block(sts, x)
                br += b
                co += c
                sts = self.dedupe(sts)
            return sts, br, co
        if k == "expr":
            return [st for x in sts for st, v in self.drop(self.ev(x, s[1]), s[2])], [], []
        if k == "decl":
            for nm, i, t, init in s[1]:
                out = []
                for st in sts:
                    if init is None:
                        st = st.copy()
                        st.env[i] = ("uninit",) if is_ref(t) else ("?",)
                        if container(t):
                            st.sizes[nm] = ("int", 0)
                        out.append(st)
                        continue
                    if init[0] == "construct" and container(t):
                        for st2, vs in self.args(st, init[2]):
                            st2 = st2.copy()
                            st2.sizes.pop(nm + "[*]", None)
                            if not init[2]:
                                st2.sizes[nm] = ("int", 0)
                            elif vs[0][0] in ("int", "len", "term", "bin", "var?"):
                                st2.sizes[nm] = vs[0]
                                if len(init[2]) > 1 and init[2][1][0] == "construct" and init[2][1][2]:
                                    st2.sizes[nm + "[*]"] = self.ev(st2, init[2][1][2][0])[0][1]
                            else:
                                st2.sizes.pop(nm, None)
                            st2.env[i] = ("?",)
                            out.append(st2)
                        continue
                    for st2, v in self.ev(st, init):
                        st2 = st2.copy()
                        self.bind(st2, i, nm, v, s[2], init)
                        out.append(st2)
                sts = self.dedupe(out)
            return sts, [], []
        if k == "if":
            a, b = [], []
            for st in sts:
                for st2, v in self.cond(st, s[1]):
                    (a if v else b).append(st2)
            x, b1, c1 = self.block(self.dedupe(a), s[2])
            y, b2, c2 = self.block(self.dedupe(b), s[3])
            return self.dedupe(x + y), b1 + b2, c1 + c2
        if k == "return":
            for st in sts:
                if s[1] is None:
                    self.finish(st, None, s[2])
                else:
                    for st2, v in self.ev(st, s[1]):
                        self.finish(st2, v, s[2])
            return [], [], []
        if k == "break":
            return [], sts, []
        if k == "continue":
            return [], [], sts
        if k == "for":
            sts, _, _ = self.block(sts, s[1])
            return self.loop(sts, s[2], s[3], s[4], s[5]), [], []
        if k == "while":
            return self.loop(sts, s[1], None, s[2], s[3]), [], []
        if k == "do":
            sts, br, co = self.block(sts, s[2])
            return self.dedupe(br + self.loop(self.dedupe(sts + co), s[1], None, s[2], s[3])), [], []
        if k == "rangefor":
            return self.loop(sts, None, None, s[3], s[4]), [], []
        if k == "try":
            self.throws.append((s[2], []))
            a, br, co = self.block(sts, s[1])
            hs, at = self.throws.pop()
            at = self.dedupe(at)
            for t, h in hs:
                x, b, c = self.block([st.copy() for st in at], h)
                a, br, co = a + x, br + b, co + c
            return self.dedupe(a), br, co
        if k == "switch":
            out, cur, br, co = [], [], [], []
            v = [st for x in sts for st, _ in self.ev(x, s[1])]
            items = s[2][1] if s[2][0] == "block" else [s[2]]
            default = False
            for x in items:
                if x[0] == "case":
                    default = default or x[1] is None
                    cur = self.dedupe(cur + [st.copy() for st in v])
                    x = x[2]
                cur, b, c = self.block(cur, x)
                br += b
                co += c
            return self.dedupe(cur + br + ([] if default else v)), [], co
        if k == "case":
            return self.block(sts, s[2])
        raise GiveUp("statement " + k)

    def dedupe(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def drop(self, res, off):
        """the value of an expression statement is not used"""
        for st, v in res:
            if v[0] == "obj" and st.objs.get(v[1]) == "owned" and v not in st.env.values() and v[1][0] not in ("param",):
                self.problem("leak", off, "the new reference of %s is not kept" % self.describe(v[1]))
        return res

    def loop(self, sts, c, inc, body, off):
        assigned = set()
        for x in walk([c or ("nop",), inc or ("nop",), body]):
            if x[0] == "assign" and x[2][0] == "var":
                assigned.add((x[2][1], x[2][2], x[2][3]))
            elif x[0] == "un" and x[1] in ("++", "--") and x[2][0] == "var":
                assigned.add((x[2][1], x[2][2], x[2][3]))
            elif x[0] == "un" and x[1] == "&" and x[2][0] == "var":
                assigned.add((x[2][1], x[2][2], x[2][3]))
        out, seen = [], set()
        count = self.counter(c, inc, body)
        start = None
        if count is not None:
            start = set(st.env.get(count[1]) for st in sts)
            start = start.pop() if len(start) == 1 else None
        work = self.dedupe(sts)
        rounds = 0
        while work:
            rounds += 1
            if rounds > 30:
                raise GiveUp("loop")
            inside = []
            for st in work:
                if c is None:
                    # unknown number of rounds
                    out.append(st)
                    inside.append(st.copy())
                    continue
                for st2, v in self.cond(st, c):
                    if not v and count is not None:
                        st2 = self.counted(st2, c, count, off)
                    (inside if v else out).append(st2)
            tuples = set(k[1] for st in inside for k in st.facts if k[0] == "desc")
            a, br, co = self.block(self.dedupe(inside), body)
            out += [self.left(st, tuples, off) for st in br] if count is not None else br
            nxt = []
            if count is not None:
                for st in a + co:
                    self.filling |= set((o, off) for o in tuples if ("slot", o) in st.facts and st.facts[("slot", o)] == st.env.get(count[1]))
            for st in a + co:
                if count is not None:
                    st = self.step(st, tuples, count, start, off)
                ss = [st]
                if inc is not None:
                    ss = [x for x, v in self.ev(st, inc)]
                for x in ss:
                    x = x.copy()
                    for nm, i, t in assigned:
                        if not is_ref(t) and i in x.env:
                            x.env[i] = ("loop", off, nm)
                            self.assigned(x, nm)
                    x.facts = {k: v for k, v in x.facts.items() if not any(y[0] == "loop" and y[1] == off for y in walk(k))}
                    nxt.append(x)
            work = []
            for st in self.dedupe(nxt):
                k = st.key()
                if k not in seen:
                    seen.add(k)
                    work.append(st)
        return self.dedupe(out)

    def counter(self, c, inc, body):
        """(name, id) of the variable of a loop that counts up by one"""
        if not (inc is not None and inc[0] == "un" and inc[1] == "++" and inc[2][0] == "var"):
            return None
        if not (c is not None and c[0] == "bin" and c[1] in ("<", "<=", "!=") and c[2] == inc[2]):
            return None
        for x in walk(body):
            if x[0] == "assign" and x[2] == inc[2] or x[0] == "un" and x[1] in ("++", "--", "&") and x[2] == inc[2]:
                return None
        return (inc[2][1], inc[2][2])

    def step(self, st, tuples, count, start, off):
        """end of a round: the items set in it"""
        st = st.copy()
        i = st.env.get(count[1])
        for o in tuples:
            k = st.facts.pop(("slot", o), None)
            if k is not None and k == i and start == ("int", 0):
                st.facts[("step", o, off)] = True
            elif k is not None and k == i:
                if start is not None and start[0] == "int":
                    st.facts[("hole", o)] = True
            elif k is None and (o, off) in self.filling:
                st.facts[("hole", o)] = True
        return st

    def left(self, st, tuples, off):
        """a loop is left before its end"""
        st = st.copy()
        for o in tuples:
            if (o, off) in self.filling:
                st.facts[("hole", o)] = True
        return st

    def counted(self, st, c, count, off):
        """end of the loop: items up to its bound are set"""
        todo = [k for k in st.facts if k[0] == "step" and k[2] == off]
        if not todo:
            return st
        r = self.ev(st, c[3])
        if len(r) != 1:
            return st
        st, b = r[0][0].copy(), r[0][1]
        if c[1] == "<=":
            b = ("bin", "+", b, ("int", 1)) if b[0] != "int" else ("int", b[1] + 1)
        for k in todo:
            st.facts[("filled", k[1])] = b
        return st

    # -- expressions: [(state, value)] ----------------------------------------
    def args(self, st, es):
        res = [(st, [])]
        for e in es:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(s, e)]
        return res

    def bind(self, st, i, nm, v, off, src=None):
        self.assigned(st, nm)
        if v[0] == "alloc":
            st.mem[nm] = "held"
            v = ("term", nm)
        st.env[i] = v

    def size(self, st, e):
        t = text(e)
        for k in (t, t.split("[")[0] + "[*]" if "[" in t else t):
            if k in st.sizes:
                return st.sizes[k]
        return ("len", "size(%s)" % t)

    def changed(self, st, e):
        """a container may be changed"""
        t = text(e)
        if "[" in t:
            base = t.split("[")[0]
            # any element may be the one that changes
            for k in [k for k in st.sizes if k.startswith(base + "[")]:
                del st.sizes[k]
            self.forget(st, re.compile(r"size\(%s\[" % re.escape(base)))
            return
        for k in [k for k in st.sizes if k.split("[")[0] == t]:
            del st.sizes[k]
        self.forget(st, re.compile(r"size\(%s[\[)]" % re.escape(t)))

    def forget(self, st, pat):
        """drops what is known about the sizes whose names match"""
        hit = lambda v: isinstance(v, tuple) and (len(v) == 2 and v[0] == "len" and isinstance(v[1], str) and pat.search(v[1]) is not None or any(hit(x) for x in v))
        for k in [k for k in st.facts if hit(k)]:
            del st.facts[k]
        for k, v in list(st.env.items()):
            if hit(v):
                st.env[k] = ("?",)
        for k, v in list(st.sizes.items()):
            if hit(v):
                del st.sizes[k]

    def assigned(self, st, nm):
        """the value of a variable changes: so do the elements it selects"""
        pat = re.compile(r"(?<![\w.])%s(?!\w)" % re.escape(nm))
        for k in [k for k in st.sizes if "[" in k and pat.search(k[k.index("["):])]:
            del st.sizes[k]
        self.forget(st, re.compile(r"\[.*(?<![\w.])%s(?!\w)" % re.escape(nm)))

    def positive(self, st, v):
        """is the number known to be at least one?"""
        if v[0] == "int":
            return v[1] >= 1
        k = st.facts.get(("pos", v))
        return True if k is None and self.lower(st, v) > 0 else k

    def lower(self, st, v):
        """a number the value is not below"""
        if v[0] == "int":
            return v[1]
        n = 1 if st.facts.get(("pos", v)) is True else 0
        for k, t in st.facts.items():
            if k[0] == "rel" and v in k[2:]:
                op, a, b = k[1:]
                if not t:
                    op = {"<": ">=", "<=": ">", "==": "!="}.get(op)
                if b == v:
                    a, b = b, a
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                m = b[1] if b[0] == "int" else 0 if b[0] in ("loop", "len") else None
                if m is not None and op in (">", ">=", "=="):
                    n = max(n, m + (1 if op == ">" else 0))
        return n

    def ctype(self, e):
        """type of an expression as far as containers are concerned"""
        if e[0] == "var":
            return e[3]
        if e[0] == "index":
            t = self.ctype(e[1]) or ""
            t = t.replace("const ", "").replace("&", "").replace("ClipperLib::", "").strip()
            if t == "Paths":
                return "Path"
            if "vector<" in t:
                return t[t.index("<") + 1:t.rindex(">")]
        return None

    def obj_ok(self, st, v, off, fn):
        if v == ("null",):
            self.problem("null", off, "%s gets a NULL pointer" % fn)
            return False
        if v[0] == "uninit":
            self.problem("null", off, "%s gets a pointer that is not set" % fn)
            return False
        if v[0] == "obj" and st.objs.get(v[1]) == "gone":
            self.problem("reference", off, "%s is used by %s after its reference was given up" % (self.describe(v[1]), fn))
            return False
        return True

    def release(self, st, v, off, fn):
        if v[0] == "obj" and v[1] in st.objs:
            s = st.objs[v[1]]
            if s == "borrowed" and v[1][0] == "param" and self.internal:
                pass
            elif s == "borrowed":
                self.problem("reference", off, "%s releases %s, a reference that is not owned" % (fn, self.describe(v[1])))
            elif s == "gone":
                self.problem("reference", off, "%s releases %s, whose reference was given up before" % (fn, self.describe(v[1])))
            st.objs[v[1]] = "owned" if s == "owned2" else "gone"

    def alloc(self, st, name, off, status, desc=None):
        o = (off, name) if desc is None else (off, name, desc)
        if st.objs.get(o) in ("owned", "owned2"):
            self.problem("leak", off, "the reference of %s from the round before is not released" % self.describe(o))
        st.objs[o] = status
        return ("obj", o)

    def ev(self, st, e):
        k = e[0]
        if k in ("int", "bool", "null", "str", "enum", "float"):
            return [(st, ("int", int(e[1])) if k == "bool" else (e if k != "null" else ("null",)))]
        if k == "var":
            if e[2] in st.env:
                return [(st, st.env[e[2]])]
            return [(st, ("global", e[1]))]
        if k == "assign":
            return self.assign(st, e)
        if k == "bin" and e[1] == ",":
            return [x for s, v in self.ev(st, e[2]) for x in self.ev(s, e[3])]
        if k == "bin" and e[1] in ("&&", "||"):
            return [(s, ("int", int(v))) for s, v in self.cond(st, e)]
        if k == "bin":
            out = []
            for s, (a, b) in self.args(st, [e[2], e[3]]):
                if a[0] == "int" and b[0] == "int" and e[1] in ("+", "-", "*"):
                    out.append((s, ("int", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[e[1]])))
                elif e[1] in ("+", "-", "*", "/", "%"):
                    out.append((s, ("bin", e[1], a, b)))
                else:
                    out.append((s, ("bin", e[1], a, b)))
            return out
        if k == "un":
            op = e[1]
            if op in ("++", "--"):
                out = []
                for s, v in self.ev(st, e[2]):
                    if e[2][0] == "var":
                        s = s.copy()
                        self.assigned(s, e[2][1])
                        s.env[e[2][2]] = ("int", v[1] + (1 if op == "++" else -1)) if v[0] == "int" else ("bin", op[0], v, ("int", 1)) if v[0] == "loop" else ("?",)
                    out.append((s, v))
                return out
            if op == "!":
                return [(s, ("int", int(not v))) for s, v in self.cond(st, e[2])]
            if op == "&":
                return [(s, ("addr", text(e[2]))) for s, v in self.ev(st, e[2])] if e[2][0] != "var" else [(st, ("addr", e[2][1]))]
            return [(s, ("int", -v[1]) if op == "-" and v[0] == "int" else ("un", op, v)) for s, v in self.ev(st, e[2])]
        if k == "cond":
            out = []
            for s, v in self.cond(st, e[1]):
                out += self.ev(s, e[2] if v else e[3])
            return out
        if k == "index":
            out = []
            for s, (b, i) in self.args(st, [e[1], e[2]]):
                t = self.ctype(e[1])
                if t and container(t) and e[2][0] == "int":
                    n = self.size(s, e[1])
                    if self.lower(s, n) > i[1]:
                        pass
                    elif n[0] not in ("int", "len"):
                        self.undecided.append("%s: the size of %s" % (self.unit.where(self.cur(e)), text(e[1])))
                    else:
                        self.reads.append((text(e), text(e[1]), self.cur(e), text(e[1])))
                        if not (self.internal and text(e[1]) in [nm for nm, _, _ in self.f.params]):
                            self.problem("empty", self.cur(e), "%s is read although %s may be empty" % (text(e), text(e[1])))
                elif t and container(t) and i[0] == "loop":
                    n = self.size(s, e[1])
                    if s.facts.get(("rel", "<=", i, n)) is True and ("rel", "<", i, n) not in s.facts or s.facts.get(("rel", "<", n, i)) is False:
                        self.problem("range", self.cur(e), "%s is used although %s may be the size of %s" % (text(e), text(e[2]), text(e[1])))
                out.append((s, ("index", b if b[0] != "?" else ("term", text(e[1])), i)))
            return out
        if k == "member":
            return [(s, ("member", v if v[0] != "?" else ("term", text(e[1])), e[2])) for s, v in self.ev(st, e[1])]
        if k == "call":
            return self.call(st, e)
        if k == "mcall":
            return self.mcall(st, e)
        if k == "construct":
            out = []
            for s, vs in self.args(st, e[2]):
                if any(v[0] == "obj" for v in vs):
                    raise GiveUp("an object is given to a " + e[1])
                out.append((s, ("term", e[1]) if any(v[0] == "alloc" for v in vs) else vs[0] if len(vs) == 1 else ("?",)))
            return out
        if k == "new":
            return [(s, ("alloc",)) for s, vs in self.args(st, e[2])] if "*" in e[1] and not is_ref(e[1]) else [(st, ("?",))]
        if k == "list":
            return [(s, ("list",) + tuple(vs)) for s, vs in self.args(st, e[1])]
        if k == "throw":
            self.thrown(st, e[2], "a C++ exception")
            return []
        if k == "other":
            if any(x[0] == "call" for x in walk(e[2])):
                raise GiveUp("expression " + e[1])
            return [(st, ("?",))]
        raise GiveUp("expression " + k)

    def cur(self, e):
        for x in walk(e):
            if x[0] in ("call", "mcall"):
                return x[3] if x[0] == "call" else x[4]
        return self.lib.offset_of(self.f, e)

    def assign(self, st, e):
        op, lhs, rhs = e[1:]
        out = []
        for s, v in self.ev(st, rhs):
            if op != "=":
                s2 = [(x, ("bin", op[:-1], w, v)) for x, w in self.ev(s, lhs)]
            else:
                s2 = [(s, v)]
            for x, v2 in s2:
                x = x.copy()
                if lhs[0] == "var":
                    if container(lhs[3]):
                        self.changed(x, lhs)
                    self.bind(x, lhs[2], lhs[1], v2, self.cur(e))
                else:
                    base = lhs
                    while base[0] in ("index", "member") or base[0] == "un" and base[1] == "*":
                        base = base[1] if base[0] != "un" else base[2]
                    if v2[0] == "obj" and x.objs.get(v2[1]) == "owned":
                        raise GiveUp("an object is stored in %s" % text(lhs))
                    if v2[0] == "term" and v2[1] in x.mem:
                        raise GiveUp("memory is stored in %s" % text(lhs))
                    if v2[0] == "alloc":
                        x.mem[text(base)] = "held"
                        v2 = ("term", text(base))
                    # subscripts are read
                    y = [z for z, w in self.ev(x, lhs)]
                    x = y[0].copy() if y else x
                    if self.hook:
                        self.hook("store", self, x, lhs, v2)
                out.append((x, v2))
        return out

    def mcall(self, st, e):
        obj, name, es, off, t = e[1:]
        self.calls += 1
        out = []
        for s, vs in self.args(st, es):
            if any(v[0] == "obj" and s.objs.get(v[1]) == "owned" for v in vs):
                raise GiveUp("an object is given to " + name)
            tt = (self.ctype(obj) or t or "")
            if container(tt):
                if name == "size":
                    out.append((s, self.size(s, obj)))
                    continue
                if name == "empty":
                    n = self.size(s, obj)
                    p = self.positive(s, n)
                    if p is None:
                        a, b = s.copy(), s.copy()
                        a.facts[("pos", n)], b.facts[("pos", n)] = True, False
                        out += [(a, ("int", 0)), (b, ("int", 1))]
                    else:
                        out.append((s, ("int", int(not p))))
                    continue
                s = s.copy()
                if name in ("front", "back"):
                    n = self.size(s, obj)
                    if self.positive(s, n) is not True:
                        self.problem("empty", off, "%s is read although %s may be empty" % (text(e), text(obj)))
                elif name == "resize" or name == "assign" and len(es) == 2:
                    v = vs[0]
                    self.changed(s, obj)
                    if v[0] == "int" and v[1] < 0:
                        self.problem("size", off, "%s is given a negative size" % text(obj))
                    s.sizes[text(obj)] = v
                elif name in ("push_back", "emplace_back", "insert"):
                    self.changed(s, obj)
                    n = self.size(s, obj)
                    s.facts[("pos", n)] = True
                elif name in ("clear",):
                    self.changed(s, obj)
                    s.sizes[text(obj)] = ("int", 0)
                elif name not in ("begin", "end", "reserve", "data", "capacity"):
                    self.changed(s, obj)
                out.append((s, ("mcall", text(obj), name)))
                continue
            s = s.copy()
            for n, a in enumerate(es):
                self.passed(s, a, self.lib.targets(t, name), n)
            if self.hook:
                self.hook("mcall", self, s, e, vs)
            if self.lib.may_throw(t, name):
                self.thrown(s, off, "%s::%s" % (t.split("::")[-1], name))
            out.append((s, ("mcall", text(obj), name)))
        return out

    def passed(self, s, a, fs=(), k=0):
        """a container handed to a function"""
        t = self.ctype(a)
        if t and container(t):
            ps = [f.params[k][2] for f in fs if k < len(f.params)]
            if ps and all("const" in p or "&" not in p and "*" not in p for p in ps):
                return
            self.changed(s, a)

    def thrown(self, st, off, what):
        for hs, at in reversed(self.throws):
            if any(t is None or "exception" in t for t, h in hs):
                at.append(st.copy())
                return
        if self.internal:
            return            # a matter of the functions that call this one
        self.problem("throw", off, "%s may throw a C++ exception that is not caught" % what)

    def call(self, st, e):
        name, es, off = e[1:]
        self.calls += 1
        if name is None:
            raise GiveUp("call of an expression")
        if name == "PyArg_ParseTuple" or name == "PyArg_ParseTupleAndKeywords" or name == "PyArg_UnpackTuple":
            bad, good = st.copy(), st.copy()
            bad.err = name
            for a in es:
                if a[0] == "un" and a[1] == "&" and a[2][0] == "var":
                    nm, i, t = a[2][1:]
                    if is_ref(t):
                        good.env[i] = ("obj", ("param", nm))
                        good.objs[("param", nm)] = "borrowed"
                    else:
                        good.env[i] = self.ints.get(nm, ("term", nm))
            if self.hook:
                self.hook("parse", self, good, e, es)
            return [(bad, ("int", 0)), (good, ("int", 1))]
        out = []
        for s, vs in self.args(st, es):
            s = s.copy()
            if self.hook:
                self.hook("call", self, s, e, vs)
            out += self.api(s, name, es, vs, off, e)
        return out

    def api(self, s, name, es, vs, off, e):
        refs = [(x, v) for x, v in zip(es, vs) if v[0] in ("obj", "null", "uninit")]
        if name in ("Py_DECREF", "Py_XDECREF", "Py_CLEAR"):
            v = vs[0]
            if v == ("null",):
                if name == "Py_DECREF":
                    self.problem("null", off, "Py_DECREF gets a NULL pointer")
            elif v[0] == "uninit":
                self.problem("null", off, "%s gets a pointer that is not set" % name)
            else:
                self.release(s, v, off, name)
            return [(s, ("?",))]
        if name in ("Py_INCREF", "Py_XINCREF", "Py_NewRef", "Py_XNewRef"):
            v = vs[0]
            if v == ("null",) and "X" not in name:
                self.problem("null", off, "%s gets a NULL pointer" % name)
            if v[0] == "obj":
                if s.objs.get(v[1]) == "owned2":
                    raise GiveUp("three references of an object")
                s.objs[v[1]] = "owned2" if s.objs.get(v[1]) == "owned" else "owned"
            elif v[0] == "global":
                s.objs[(off, v[1])] = "owned"
                return [(s, ("obj", (off, v[1])))]
            return [(s, v)]
        if name == "PyErr_Occurred":
            return [(s, ("obj", ("error", "the exception")) if s.err is not None else ("null",))]
        if name in ("PyErr_SetString", "PyErr_Format", "PyErr_SetNone", "PyErr_NoMemory"):
            s.err = "%s at %s" % (name, self.unit.where(off))
            return [(s, ("null",))]
        if name == "PyErr_Clear":
            s.err = None
            return [(s, ("?",))]
        if name in ALLOC:
            return [(s, ("alloc",))]
        if name in FREE:
            b = es[0]
            while b[0] in ("index", "member"):
                b = b[1]
            if s.mem.get(text(b)) == "freed" and es[0][0] == "var":
                self.problem("memory", off, "%s is freed twice" % text(b))
            if text(b) in s.mem:
                s.mem[text(b)] = "freed"
            return [(s, ("?",))]
        if name in STEAL:
            self.obj_ok(s, vs[0], off, name)
            if vs[0][0] == "obj":
                o = vs[0][1]
                s.facts[("slot", o)] = vs[1]
                s.facts[("slots", o)] = s.facts.get(("slots", o), ()) + ((vs[1],) if vs[1] not in s.facts.get(("slots", o), ()) else ())
            if vs[2][0] == "obj":
                self.complete(s, vs[2][1], off)
            if vs[2] == ("null",):
                self.problem("null", off, "%s stores a NULL pointer" % name)
            elif vs[2][0] == "obj":
                self.obj_ok(s, vs[2], off, name)
                self.release(s, vs[2], off, name)
            if STEAL[name]:
                b = s.copy()
                b.err = "%s at %s" % (name, self.unit.where(off))
                return [(s, ("int", 0)), (b, ("int", -1))]
            return [(s, ("?",))]
        if name.startswith("Py") or name.startswith("_Py"):
            for x, v in refs:
                if not self.obj_ok(s, v, off, name):
                    return []
            err = s.copy()
            err.err = "%s at %s" % (name, self.unit.where(off))
            if name in NEW:
                d = (name.replace("PySequence_", ""),) + tuple(self.strip(v) for v in vs)
                v = self.alloc(s, name, off, "owned")
                for k in [k for k in s.facts if k[0] in ("slot", "slots", "step", "hole", "filled") and k[1] == v[1]]:
                    del s.facts[k]
                s.facts[("desc", v[1])] = d
                return [(s, v)] if name in NEVERNULL else [(s, v), (err, ("null",))]
            if name == "PyIter_Next":
                end = s.copy()
                v = self.alloc(s, name, off, "owned")
                return [(s, v), (end, ("null",)), (err, ("null",))]
            if name in BORROWED:
                s.objs[(off, name)] = "borrowed"
                s.facts[("desc", (off, name))] = (name,) + tuple(self.strip(v) for v in vs)
                r = [(s, ("obj", (off, name)))]
                return r + [(err, ("null",))] if name in BORROWED_NULL else r
            if name in LENGTH:
                return [(s, ("len", "%s(%s)" % (name, text(es[0])))), (err, ("int", -1))]
            if name in SIZE:
                return [(s, ("len", "%s(%s)" % (name, text(es[0]))))]
            if name in NUMBER or name in PLAIN:
                v = ("number", self.desc(s, vs[0]))
                return [(s, v), (err, ("int", -1))] if name in NUMBER else [(s, v)]
            if name in TESTS:
                k = ("test", name, self.strip(vs[0]) if vs else None)
                if k in s.facts:
                    return [(s, ("int", int(s.facts[k])))]
                b = s.copy()
                s.facts[k], b.facts[k] = True, False
                return [(s, ("int", 1)), (b, ("int", 0))]
            if name in STATUS:
                return [(s, ("int", 0)), (err, ("int", -1))] + ([(s.copy(), ("int", 1))] if name == "PyObject_IsTrue" else [])
            if name in ("PyEval_SaveThread", "PyEval_RestoreThread"):
                return [(s, ("?",))]
            raise GiveUp("Python function " + name)
        if name == "strcmp" and len(es) == 2:
            lit = [x for x in es if x[0] == "str"]
            var = [x for x in es if x[0] == "var"]
            if lit and var:
                if var[0][1] in self.strings:
                    return [(s, ("int", 0 if self.strings[var[0][1]] == lit[0][1] else 1))]
                k = ("streq", var[0][1], lit[0][1])
                if k in s.facts:
                    return [(s, ("int", 0 if s.facts[k] else 1))]
                a, b = s.copy(), s.copy()
                a.facts[k], b.facts[k] = True, False
                for kk in list(a.facts):
                    if kk[0] == "streq" and kk[1] == k[1] and kk != k and a.facts[kk]:
                        return [(b, ("int", 1))]
                return [(a, ("int", 0)), (b, ("int", 1))]
        # functions of the extension
        g = self.lib.python_function(name)
        for k in self.lib.needs(name):
            if k < len(es):
                n = self.size(s, es[k])
                if self.positive(s, n) is not True:
                    self.problem("empty", off, "%s reads the first items of %s, which may be empty" % (name, text(es[k])))
        for n, x in enumerate(es):
            self.passed(s, x, self.lib.targets(None, name), n)
        if g is None:
            if self.lib.may_throw(None, name):
                self.thrown(s, off, name)
            if any(v[0] == "obj" for v in vs):
                raise GiveUp("unknown function %s gets a Python object" % name)
            return [(s, ("call", name) + tuple(self.strip(v) for v in vs))]
        for x, v in refs:
            if not self.obj_ok(s, v, off, name):
                return []
        out = []
        if any(x[0] == "var" and s.mem.get(x[1]) == "held" for x in es) and any(y[0] == "call" and y[1] in FREE for y in walk(self.unit.body(g))):
            raise GiveUp("%s may free memory" % name)
        names = [nm for nm, _, _ in g.params]
        for v, err, taken, full in self.lib.summary(g):
            s2 = s.copy()
            for nm in taken:
                self.release(s2, vs[names.index(nm)], off, name)
            for nm in full:
                s2.facts[("pos", self.size(s2, es[names.index(nm)]))] = True
            if err:
                s2.err = "%s at %s" % (name, self.unit.where(off)) if not isinstance(err, str) else err
            if v == "obj":
                v = self.alloc(s2, name, off, "owned")
            elif v == "borrowed":
                v = ("obj", (off, name))
                s2.objs[(off, name)] = "borrowed"
            elif v == "null":
                v = ("null",)
            elif v is None:
                v = ("?",)
            out.append((s2, v))
        if self.lib.may_throw(None, name):
            self.thrown(s, off, name)
        return out

    def strip(self, v):
        return v

    def desc(self, st, v, depth=0):
        """where an object comes from"""
        if v[0] != "obj":
            return v
        d = st.facts.get(("desc", v[1]))
        if d is None or depth > 6:
            return v
        return (d[0],) + tuple(self.desc(st, x, depth + 1) for x in d[1:])

    # -- conditions: [(state, bool)] ------------------------------------------
    def cond(self, st, e):
        k = e[0]
        if k == "un" and e[1] == "!":
            return [(s, not v) for s, v in self.cond(st, e[2])]
        if k == "bin" and e[1] in ("&&", "||"):
            out = []
            for s, v in self.cond(st, e[2]):
                if v == (e[1] == "||"):
                    out.append((s, v))
                else:
                    out += self.cond(s, e[3])
            return out
        if k == "bin" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for s, (a, b) in self.args(st, [e[2], e[3]]):
                out += self.compare(s, e[1], a, b)
            return out
        out = []
        for s, v in self.ev(st, e):
            out += self.compare(s, "!=", v, ("int", 0)) if v[0] not in ("obj", "null") else [(s, v[0] == "obj")]
        return out

    def compare(self, s, op, a, b):
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            return [(s, {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])]
        if {a[0], b[0]} <= {"obj", "null", "uninit"} and "null" in (a[0], b[0]) and op in ("==", "!="):
            if "uninit" in (a[0], b[0]):
                return [(s, True), (s.copy(), False)]
            return [(s, (a[0] == b[0]) == (op == "=="))]
        if a[0] == "enum" and b[0] == "enum" and op in ("==", "!="):
            return [(s, (a == b) == (op == "=="))]
        if a[0] == "int" and b[0] != "int":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if b[0] == "int" and a[0] in ("len", "term", "bin", "loop", "number", "member", "index"):
            n = b[1]
            lo = 0 if a[0] == "len" else None
            # against the positive fact
            pos = {(">", 0): True, (">=", 1): True, ("!=", 0): True, ("==", 0): False, ("<", 1): False, ("<=", 0): False}.get((op, n)) if a[0] == "len" else {(">", 0): True, (">=", 1): True, ("<=", 0): False, ("<", 1): False}.get((op, n))
            if lo == 0 and (op, n) in (("<", 0), ("==", -1), ("<=", -1)):
                return [(s, False)]
            if lo == 0 and (op, n) in ((">=", 0), ("!=", -1), (">", -1)):
                return [(s, True)]
            if pos is not None:
                k = ("pos", a)
                if k in s.facts:
                    return [(s, s.facts[k] == pos)]
                x, y = s.copy(), s.copy()
                x.facts[k], y.facts[k] = True, False
                return [(x, pos), (y, not pos)]
        stable = lambda v: v[0] in ("len", "term", "int", "loop", "enum", "global", "number", "str")
        if stable(a) and stable(b):
            neg = {"!=": "==", ">=": "<", ">": "<="}
            k, flip = ("rel", op, a, b), False
            if op in neg:
                k, flip = ("rel", neg[op], a, b), True
            if k in s.facts:
                return [(s, s.facts[k] != flip)]
            x, y = s.copy(), s.copy()
            x.facts[k], y.facts[k] = True, False
            return [(x, True != flip), (y, False != flip)]
        return [(s, True), (s.copy(), False)]


class Library(object):
    """all functions of a translation unit"""

    def __init__(self, unit):
        self.unit = unit
        self.by_name, self.called = {}, None
        for f in unit.functions:
            self.by_name.setdefault(f.name, []).append(f)
        self.summaries, self.running, self.execs, self.required = {}, set(), {}, {}
        self.throwing = self.closure()

    def python_functions(self):
        out = []
        for f in self.unit.functions:
            if f.cls is None and (is_ref(f.ret) or any(is_ref(t) for _, _, t in f.params)):
                out.append(f)
        return out

    def needs(self, name):
        """positions of the containers a helper reads at fixed positions without a test"""
        if name in self.required:
            return self.required[name]
        self.required[name] = ()
        fs = [f for f in self.by_name.get(name, ()) if f.cls is None]
        if len(fs) != 1 or not any(container(t) for _, _, t in fs[0].params):
            return ()
        try:
            x = self.execute(fs[0]) if self.python_function(name) else Exec(self, fs[0], budget=2000).run()
        except GiveUp:
            return ()
        names = [nm for nm, _, _ in fs[0].params]
        self.required[name] = tuple(sorted(set(names.index(p[3]) for p in x.reads if p[3] in names)))
        return self.required[name]

    def internal(self, f):
        """is the function called by others of the unit (and not by the interpreter)?"""
        if self.called is None:
            self.called = set(x[1] for g in self.unit.functions for x in walk(self.unit.body(g)) if x[0] == "call" and x[1])
        if f.name in self.called:
            return True
        # the interpreter calls functions of no or two objects
        return not (is_ref(f.ret) and all(is_ref(t) for _, _, t in f.params) and len(f.params) in (0, 2, 3))

    def python_function(self, name):
        fs = [f for f in self.by_name.get(name, ()) if f.cls is None and (is_ref(f.ret) or any(is_ref(t) for _, _, t in f.params))]
        return fs[0] if len(fs) == 1 else None

    def execute(self, f):
        if f.qualname not in self.execs:
            self.execs[f.qualname] = Exec(self, f).run()
        return self.execs[f.qualname]

    def summary(self, f):
        if f.qualname in self.summaries:
            return self.summaries[f.qualname]
        if f.qualname in self.running:
            raise GiveUp("recursion")
        self.running.add(f.qualname)
        try:
            x = self.execute(f)
        finally:
            self.running.discard(f.qualname)
        # one outcome for each result, whether an exception is pending and what happens to the arguments
        short, seen = [], set()
        for n, (st, v, off) in enumerate(x.outcomes):
            taken, full, lent = x.effects[n] if x.effects else ((), (), False)
            if is_ref(f.ret):
                r = "borrowed" if lent else "obj" if v is not None and v[0] == "obj" else "null"
            else:
                r = v if v is not None and v[0] == "int" else None
            k = (r, st.err is None, taken, full)
            if k not in seen:
                seen.add(k)
                short.append((r, st.err, taken, full))
        self.summaries[f.qualname] = short
        return short

    # -- C++ exceptions -----------------------------------------------------
    def bases(self, cls):
        out, work = [], [cls]
        while work:
            c = work.pop()
            if c not in out:
                out.append(c)
                work += self.unit.records.get(c, [])
        return out

    def targets(self, t, name):
        fs = self.by_name.get(name, ())
        if t is None:
            return [f for f in fs if f.cls is None]
        c = t.replace("const ", "").replace("&", "").replace("*", "").strip().split("::")[-1]
        return [f for f in fs if f.cls in self.bases(c)]

    def escapes(self, s, out, caught):
        """throws and calls outside of try blocks that catch them"""
        if isinstance(s, tuple) and s and s[0] == "try":
            inner = any(t is None or "exception" in t for t, h in s[2])
            self.escapes(s[1], out, caught or inner)
            for t, h in s[2]:
                self.escapes(h, out, caught)
            return
        if isinstance(s, tuple) and s and s[0] == "throw" and not caught:
            out.append(("throw",))
        if isinstance(s, tuple) and s and s[0] == "call" and not caught and s[1]:
            out.append(("call", None, s[1]))
        if isinstance(s, tuple) and s and s[0] == "mcall" and not caught:
            out.append(("call", s[5], s[2]))
        if isinstance(s, (tuple, list)):
            for x in s:
                if isinstance(x, (tuple, list)):
                    self.escapes(x, out, caught)

    def closure(self):
        facts = {}
        for f in self.unit.functions:
            o = []
            try:
                self.escapes(self.unit.body(f), o, False)
            except (KeyError, ValueError, IndexError, TypeError):
                o = []
            facts[id(f)] = (f, o)
        bad = set(i for i, (f, o) in facts.items() if ("throw",) in o)
        while True:
            n = len(bad)
            for i, (f, o) in facts.items():
                if i in bad:
                    continue
                for x in o:
                    if x[0] == "call":
                        t = x[1]
                        if t is None and f.cls is not None:
                            ts = [g for g in self.by_name.get(x[2], ()) if g.cls is None or g.cls in self.bases(f.cls)]
                        else:
                            ts = self.targets(t, x[2])
                        if any(id(g) in bad for g in ts):
                            bad.add(i)
                            break
            if len(bad) == n:
                return bad

    def may_throw(self, t, name):
        return any(id(g) in self.throwing for g in self.targets(t, name))

    def offset_of(self, f, e):
        """a position for an expression: that of the statement it is in"""
        for s in walk(self.unit.body(f)):
            if s[0] in ("expr", "return", "decl", "if", "for", "while") and any(x is e for x in walk(s)):
                best = s
                for y in walk(s):
                    if y is not s and y[0] in ("expr", "return", "decl", "if", "for", "while") and any(x is e for x in walk(y)):
                        best = y
                return best[-1] if isinstance(best[-1], int) else f.off
        return f.off
