"""Files opened by the library are closed when it returns, streams of the
caller are left open."""
import ast
import re

from ..flow import strip
from ..interp import Interp, Node, show, subnodes
from .aliasing import doc_type, private

OPENERS = ("open", "io.open", "codecs.open", "builtins.open")
TEXT = ("str", "basestring", "unicode", "bytes")
KINDS = {"name": "the name of a file", "fspath": "a path object", "stream": "an open stream"}


def functions(prog):
    """public functions that open a file, themselves or through helpers"""
    def opens(f):
        return any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == "open" for x in ast.walk(f.node))

    helpers = set(f.name for f in prog.all_functions() if private(f) and opens(f))
    while True:
        more = set(f.name for f in prog.all_functions() if private(f) and f.name not in helpers and calls(f, helpers))
        if not more:
            break
        helpers |= more
    return [f for f in prog.all_functions() if not private(f) and (opens(f) or calls(f, helpers)) and f.module.name != "gdspy.viewer"]


def calls(f, names):
    return any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in names or isinstance(x.func, ast.Attribute) and x.func.attr in names) for x in ast.walk(f.node))


class Run(object):
    def __init__(self, prog, f, param, kind, heap=None, me=None):
        self.f, self.param, self.kind = f, param, kind
        self.tested = False
        self.it = it = Interp(prog, assume=self.assume, inline=lambda g, i: private(g) and not is_generator(g))
        self.src = it.mk("param", param) if param else None
        self.me = me
        if f.cls is not None and f.kind == "method":
            if self.me is None:
                self.me = it.mk("param", f.params()[0])
            self.res = it.run(f, self_cls=f.cls, self_node=self.me, heap=heap)
        else:
            self.res = it.run(f)

    def assume(self, c, st):
        if c.op != "call" or self.src is None or not c.args[1] or strip(c.args[1][0]) is not self.src:
            return None
        k = self.kind
        if c.args[0] == "hasattr" and len(c.args[1]) == 2:
            self.tested = True
            y = c.args[1][1]
            if y.op == "const":
                if y.args[1] == "__fspath__":
                    return k == "fspath"
                if y.args[1] in ("read", "write", "seek", "tell", "close"):
                    return k == "stream"
        if c.args[0] == "callable":
            return False
        if c.args[0] == "isinstance" and len(c.args[1]) == 2:
            self.tested = True
            names = [str(x.args[0]).split(".")[-1] for x in subnodes(c.args[1][1]) if x.op in ("ext", "cls", "mod")]
            names += ["str" for x in subnodes(c.args[1][1]) if x.op == "gconst" and x.args[1] == "basestring"]
            if not names:
                return None
            if k == "name":
                return True if any(n in TEXT for n in names) else False
            if k == "fspath":
                return True if any(n in ("Path", "PurePath", "PathLike") for n in names) else False
            if all(n in TEXT + ("Path", "PurePath", "PathLike") for n in names):
                return False
        return None


def is_generator(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))


def opened(res):
    return [e for e in res.effects if e.kind == "call" and e.target in OPENERS]


def subset(a, b):
    return all(any(g is h and p is q for h, q in b) for g, p in a)


def against(a, b):
    return any(g is h and p is not q for g, p in a for h, q in b)


def direct(e, x):
    """is x used by the effect itself"""
    vals = []
    for k in ("recv", "recv_v", "obj", "iter"):
        v = e.data.get(k)
        if isinstance(v, Node):
            vals.append(v)
    for k in ("args",):
        vals += [v for v in e.data.get(k) or () if isinstance(v, Node)]
    vals += [w[1] for w in e.data.get("kwargs") or () if isinstance(w, tuple) and isinstance(w[1], Node)]
    return any(strip(v) is x for v in vals)


def ends(res, f):
    """(guards, position among the effects, loops) of all ways to the end"""
    es = [(i, e) for i, e in enumerate(res.effects) if e.kind == "return" and e.func is f]
    out = []
    for g, st, v in res.returns:
        k = [x for x in es if x[1].guards == g]
        if k:
            es.remove(k[0])
            out.append((g, k[0][0], k[0][1].loops))
        else:
            out.append((g, len(res.effects), ()))
    return out


def shallow(n):
    """nodes of an expression without the contents of collections"""
    n = strip(n)
    yield n
    for a in n.args:
        for x in a if isinstance(a, tuple) else (a,):
            if isinstance(x, Node):
                for y in shallow(x):
                    yield y


def judge(run, name, text):
    """None or (where, problem); raises Unclear"""
    res, f = run.res, run.f
    ops = opened(res)
    if run.kind == "stream":
        for e in res.effects:
            if e.kind == "mcall" and e.name == "close" and strip(e.recv) is run.src or e.kind == "enter" and isinstance(e.data.get("value"), Node) and strip(e.value) is run.src:
                if any(x is run.src for c, p in e.guards for x in shallow(c)):
                    raise Unclear("condition of closing the stream")
                return e.where, "the stream of the caller is closed"
            if e in ops and any(run.src in list(subnodes(a)) for a in e.args):
                return e.where, "a stream of the caller is taken as the name of a file"
        return None
    if not ops:
        return f.where, "the file is not opened"
    live = [e for e in ops if any(run.src is x for a in e.args[:1] for x in subnodes(a))]
    if len(ops) != 1 or len(live) != 1:
        raise Unclear("files opened: %d" % len(ops))
    o = live[0]
    stream = strip(o.result)
    kw = dict(x for x in o.data.get("kwargs") or () if isinstance(x, tuple) and len(x) == 2)
    mode = o.args[1] if len(o.args) > 1 else kw.get("mode")
    if isinstance(mode, Node) and mode.op == "const" and isinstance(mode.args[1], str):
        m = mode.args[1]
        out = f.name.startswith("write") or f.params() and any(p == "outfile" for p in f.params())
        if out and m[0] not in "wx":
            return o.where, "the file is not opened to be written anew"
        if not out and m[0] != "r":
            return o.where, "the file that is read is not opened for reading"
        if ("b" in m) is text:
            return o.where, "the file is opened as %s" % ("text" if text is False else "binary")
    for e in res.effects:
        if e.kind in ("call", "mcall", "icall", "gencall", "new") and e is not o and direct(e, run.src):
            if e.kind == "mcall" and strip(e.recv) is run.src and e.name in ("__fspath__", "__str__", "encode", "open", "expanduser", "resolve"):
                continue
            if e.kind == "call" and e.target in ("hasattr", "isinstance", "str", "os.fspath", "type", "len", "os.path.expanduser", "pathlib.Path", "os.path.abspath", "os.path.exists"):
                continue
            if e.kind == "mcall" and e.name in ("format", "append"):
                continue
            return e.where, "the name of the file is used as the stream"
    if any(e.kind == "enter" and isinstance(e.data.get("value"), Node) and any(x is stream for x in subnodes(e.value)) for e in res.effects):
        return None
    closes = [e for e in res.effects if e.kind == "mcall" and e.name == "close" and strip(e.recv) is stream]
    if getattr(run, "deferred", False):
        for e in closes:
            return e.where, "the file is closed before it is written"
        return None
    every = closes
    for g, at, loops in ends(res, f):
        if not subset(o.guards, g):
            if against(o.guards, g) or at < res.effects.index(o):
                continue
            raise Unclear("condition of opening the file")
        closes = [e for e in every if res.effects.index(e) < at]
        ok = [e for e in closes if subset(e.guards, g) and not [l for l in e.loops if l not in loops]]
        if ok:
            continue
        if not closes or all(against(e.guards, g) for e in closes):
            return o.where, "a file that is opened is not closed when the function returns"
        if any(subset(e.guards, g) for e in closes):
            return closes[0].where, "the file is closed within a loop"
        rest = [e for e in closes if not against(e.guards, g)]
        if len(rest) == 1 and not any(x is run.src or x is stream or x.op in ("phi", "unbound", "undef") for c, p in rest[0].guards if not subset([(c, p)], g) for x in shallow(c)):
            return rest[0].where, "a file that is opened is closed only under a condition"
        raise Unclear("condition of closing the file")
    after = False
    for e in res.effects:
        if e in every:
            after = not any(l for l in e.loops) and not e.guards or e.guards == o.guards
        elif after and e.kind in ("mcall", "call", "icall", "gencall") and direct(e, stream) and not any(against(e.guards, c.guards) for c in every):
            return e.where, "the file is used after it is closed"
    return None


class Unclear(Exception):
    pass


def handles(ctx):
    """files"""
    prog = ctx.prog
    ctx.rule("each public function that opens a file is executed abstractly for a name, a path object and an open stream: on every way to its end the file it opened is closed, after all use, and a stream of the caller is neither closed nor opened; a writer object closes its file in close(), exactly if it opened it")
    ctx.assume("isinstance(x, basestring) holds for names of files only, hasattr(x, '__fspath__') for path objects only; a function that raises may leave a file open")
    found = set()
    for f in functions(prog):
        params = [p for p in f.params() if p in ("infile", "outfile", "filename")]
        if not params:
            params = path_params(prog, f)
        if len(params) != 1:
            ctx.unknown("handles", f.where, "%s: parameter of the file" % f.qualname)
            continue
        text = f.name.endswith("svg")
        deferred = f.name == "__init__"
        found.add(f.qualname)
        for kind in ("name", "fspath", "stream"):
            run = Run(prog, f, params[0], kind)
            ctx.saw(run.it.functions_seen)
            if kind != "name" and not run.tested:
                continue
            if kind == "stream":
                t = doc_type(f, params[0])
                if t is None or not re.search(r"\b(file|stream)\b", t):
                    continue
            run.deferred = deferred
            what = "%s given %s" % (f.qualname, KINDS[kind])
            try:
                p = judge(run, what, text)
                if p is None and deferred:
                    p = finish(ctx, prog, run)
            except Unclear as u:
                ctx.unknown("handles", f.where, "%s: %s" % (what, u))
                continue
            if p:
                ctx.violation("handles", what, p[0], p[1])
            else:
                ctx.ok("files and streams", what)
    if len(found) < 6:
        ctx.unknown("handles", "gdspy/library.py", "only %d functions open files: %s" % (len(found), ", ".join(sorted(found))))


def path_params(prog, f):
    run = Run(prog, f, None, None)
    out = []
    for e in opened(run.res):
        for x in subnodes(e.args[0]) if e.args else ():
            if x.op == "param" and x.args[0] in f.params() and x.args[0] not in out and x.args[0] != "self":
                out.append(x.args[0])
    return out


def finish(ctx, prog, run):
    """the file of an object is closed by its close()"""
    f = run.f
    m = f.cls.find_method("close")
    if m is None:
        return f.where, "there is no close()"
    stream = strip(opened(run.res)[0].result) if run.kind != "stream" else run.src
    if len(run.res.returns) != 1:
        raise Unclear("ends of the constructor")
    heap = dict(run.res.returns[0][1].heap)
    it = run.it
    res = it.run(m, self_cls=f.cls, self_node=run.me, heap=heap)
    ctx.saw(it.functions_seen)
    closes = [e for e in res.effects if e.kind == "mcall" and e.name == "close" and strip(e.recv) is stream]
    if run.kind == "stream":
        if any(x is stream for e in closes for c, p in e.guards for x in shallow(c)):
            raise Unclear("condition of closing the stream")
        return (closes[0].where, "the stream of the caller is closed") if closes else None
    for g, st, v in res.returns:
        if any(subset(e.guards, g) for e in closes):
            continue
        if not closes or all(against(e.guards, g) for e in closes):
            return m.where, "the file that the object opened is not closed"
        raise Unclear("condition of closing the file")
    after = False
    for e in res.effects:
        if e in closes:
            after = True
        elif after and e.kind in ("mcall", "call", "icall") and direct(e, stream):
            return e.where, "the file is used after it is closed"
    return None
