"""Program model: the modules, classes, functions and name bindings of the
package under analysis, read from its source text (never imported)."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of a rule vanished, or the source cannot be analysed."""


class FuncInfo(object):
    def __init__(self, name, node, module, cls=None, outer=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer

    @property
    def qualname(self):
        if self.cls is not None:
            return "%s.%s" % (self.cls.name, self.name)
        return self.name

    @property
    def kind(self):
        """'static', 'class', 'property' or 'plain'"""
        for d in getattr(self.node, "decorator_list", []):
            if isinstance(d, ast.Name):
                if d.id == "staticmethod":
                    return "static"
                if d.id == "classmethod":
                    return "class"
                if d.id == "property":
                    return "property"
        return "plain"

    @property
    def is_generator(self):
        if isinstance(self.node, ast.Lambda):
            return False
        g = getattr(self, "_isgen", None)
        if g is None:
            g = False
            stack = list(self.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._isgen = g
        return g

    def __repr__(self):
        return "<fn %s.%s>" % (self.module.name, self.qualname)

    def params(self):
        a = self.node.args
        return [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


class ClassInfo(object):
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.base_exprs = node.bases
        self.bases = []
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.methods[st.name] = FuncInfo(st.name, st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return "<class %s>" % self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def slots(self):
        out = []
        for c in self.mro():
            e = c.attrs.get("__slots__")
            if e is None:
                continue
            try:
                v = ast.literal_eval(e)
            except Exception:
                continue
            if isinstance(v, str):
                v = (v,)
            for s in v:
                if s not in out:
                    out.append(s)
        return out

    def issub(self, other):
        return other in self.mro()


class ModuleInfo(object):
    def __init__(self, name, path, relpath):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.bindings = {}


EXT_ALIAS = {"numpy": "numpy", "np": "numpy"}


class Program(object):
    def __init__(self, repo="/repo", package="gdspy", skip=()):
        self.repo = repo
        self.package = package
        self.modules = {}
        pkgdir = os.path.join(repo, package)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken("package directory %s is missing" % pkgdir)
        for dirpath, dirs, files in sorted(os.walk(pkgdir)):
            dirs.sort()
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                full = os.path.join(dirpath, fn)
                rel = os.path.relpath(full, repo)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                if mod in skip:
                    continue
                self.modules[mod] = ModuleInfo(mod, full, rel)
        for m in self.modules.values():
            self._bind(m, m.tree.body)
        for m in self.modules.values():
            for b in m.bindings.values():
                if b[0] == "class" and b[1].module is m:
                    for e in b[1].base_exprs:
                        r = self.resolve_static(m, e)
                        if r is not None and r[0] == "class":
                            b[1].bases.append(r[1])
        self.classes = {}
        self.functions = {}
        for m in self.modules.values():
            for n, b in m.bindings.items():
                if b[0] == "class" and b[1].module is m:
                    self.classes.setdefault(n, b[1])
                elif b[0] == "func" and b[1].module is m:
                    self.functions.setdefault("%s.%s" % (m.name, n), b[1])

    # -- binding ---------------------------------------------------------
    def _bind(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.bindings[st.name] = ("func", FuncInfo(st.name, st, m))
            elif isinstance(st, ast.ClassDef):
                m.bindings[st.name] = ("class", ClassInfo(st.name, st, m))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bindings[a.asname] = ("ext", a.name)
                    else:
                        m.bindings[a.name.split(".")[0]] = ("ext", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ""
                if st.level:
                    src = self.package + ("." + src if src else "")
                for a in st.names:
                    m.bindings[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.bindings[t.id] = ("const", st.value, m)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.bindings[st.target.id] = ("const", st.value, m)
            elif isinstance(st, ast.If):
                # version switches: analyse the Python 3 arm
                v = self._py3_test(st.test)
                if v is True:
                    self._bind(m, st.body)
                elif v is False:
                    self._bind(m, st.orelse)
                else:
                    self._bind(m, st.orelse)
                    self._bind(m, st.body)
            elif isinstance(st, ast.Try):
                self._bind(m, st.body)
                for h in st.handlers:
                    saved = dict(m.bindings)
                    self._bind(m, h.body)
                    m.bindings.update(saved)

    @staticmethod
    def _py3_test(t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = Program._py3_test(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            def side(e):
                txt = ast.unparse(e)
                if txt.startswith("sys.version_info"):
                    return 3 if txt in ("sys.version_info.major", "sys.version_info[0]") else (3, 12)
                return ast.literal_eval(e)

            try:
                return {
                    ast.Lt: lambda a, b: a < b,
                    ast.LtE: lambda a, b: a <= b,
                    ast.Gt: lambda a, b: a > b,
                    ast.GtE: lambda a, b: a >= b,
                    ast.Eq: lambda a, b: a == b,
                    ast.NotEq: lambda a, b: a != b,
                }[type(t.ops[0])](side(t.left), side(t.comparators[0]))
            except Exception:
                return None
        return None

    def lookup(self, module, name, _depth=0):
        """Resolve a module-level name to ('func'|'class'|'const'|'ext'|'module', ...)."""
        b = module.bindings.get(name)
        if b is None:
            return None
        if b[0] == "from":
            src, orig = b[1], b[2]
            if src in self.modules and _depth < 10:
                r = self.lookup(self.modules[src], orig, _depth + 1)
                if r is not None:
                    return r
                sub = src + "." + orig
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return ("ext", sub)
            return ("ext", (src + "." if src else "") + orig)
        if b[0] == "ext" and b[1] in self.modules:
            return ("module", self.modules[b[1]])
        return b

    def resolve_static(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_static(module, e.value)
            if r is None:
                return None
            if r[0] == "module":
                return self.lookup(r[1], e.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    # -- anchors ---------------------------------------------------------
    def need_class(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken("anchor class %s vanished" % name)
        return c

    def need_method(self, cname, mname):
        c = self.need_class(cname)
        f = c.find_method(mname)
        if f is None:
            raise AnalysisBroken("anchor method %s.%s vanished" % (cname, mname))
        return f

    def need_function(self, module, name):
        m = self.modules.get(module)
        if m is None:
            raise AnalysisBroken("anchor module %s vanished" % module)
        r = self.lookup(m, name)
        if r is None or r[0] != "func":
            raise AnalysisBroken("anchor function %s.%s vanished" % (module, name))
        return r[1]

    def all_functions(self, modules=None):
        """every function/method defined in the package (module level and classes)"""
        for mn, m in sorted(self.modules.items()):
            if modules is not None and mn not in modules:
                continue
            for n, b in sorted(m.bindings.items(), key=lambda kv: kv[0]):
                if b[0] == "func" and b[1].module is m:
                    yield b[1]
                elif b[0] == "class" and b[1].module is m:
                    for k in sorted(b[1].methods):
                        yield b[1].methods[k]
