"""The extension module: every path through the functions of clipper.cpp that
handle Python objects (see cexec)."""
from ..cexec import GiveUp, Library
from ..cxx import CxxError, Unit

FILE = "gdspy/clipper.cpp"
KINDS = {
    "reference": "references that are not owned are neither released nor returned, and none is used after it was given up",
    "leak": "every new reference is released, handed over or returned on every path",
    "null": "NULL results are tested before they are used",
    "exception": "NULL is returned with an exception set, and only then",
    "result": "every path returns a value",
    "memory": "memory that is allocated is freed once on every path",
    "empty": "items at fixed positions are read from containers known to have them",
    "items": "every item of tuples and lists that are handed over is set",
    "range": "items are not read or written at the size of their container",
    "size": "containers are not given the size -1 of a sequence without length",
    "throw": "no C++ exception leaves a function called by the interpreter",
}


def library(ctx):
    lib = getattr(ctx, "_cxx", None)
    if lib is None:
        lib = ctx._cxx = Library(Unit(ctx.prog.repo, FILE))
    return lib


def extension(ctx):
    for k in sorted(KINDS):
        ctx.rule(KINDS[k])
    ctx.assume("Python functions behave as documented; memory is available")
    try:
        lib = library(ctx)
    except CxxError as e:
        ctx.unknown("extension", FILE, str(e))
        return
    fs = lib.python_functions()
    if not fs:
        ctx.unknown("extension", FILE, "no functions with Python objects")
    for f in fs:
        ctx.functions.add(f.qualname)
        try:
            x = lib.execute(f)
        except GiveUp as e:
            ctx.unknown("extension", f.where(), "%s: %s" % (f.name, e))
            continue
        except RecursionError:
            ctx.unknown("extension", f.where(), "%s: too deep" % f.name)
            continue
        for u in x.undecided:
            ctx.unknown("extension", f.where(), "%s: %s" % (f.name, u))
        ctx.count("paths to the end of a function", len(x.outcomes))
        ctx.count("calls interpreted", x.calls)
        kinds = set()
        for kind, where, msg in sorted(x.problems):
            kinds.add(kind)
            ctx.violation("extension", "%s|%s" % (f.name, kind), where, "%s: %s" % (f.name, msg))
        for k in KINDS:
            if k not in kinds:
                ctx.ok(k, "%s: %s" % (f.name, KINDS[k]))
