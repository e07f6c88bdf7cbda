"""Verdict collection, evidence files and the check protocol."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx(object):
    def __init__(self, pid, prog_factory, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self._pf = prog_factory
        self._prog = None
        self.violations = []   # (key, where, msg)
        self.unknowns = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.functions = set()

    @property
    def prog(self):
        if self._prog is None:
            self._prog = self._pf()
        return self._prog

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def saw(self, funcs):
        for f in funcs:
            self.functions.add("%s.%s" % (f.module.name, f.qualname))

    def ok(self, what, sample=None):
        """one discharged obligation"""
        self.count("obligations_discharged")
        self.count("ok: " + what)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(str(sample)[:300])

    def violation(self, rule, construct, where, msg):
        """`construct` identifies the finding independently of line numbers"""
        key = "%s|%s" % (rule, construct)
        for v in self.violations:
            if v[0] == key and v[2] == msg:
                return
        self.violations.append((key, where, msg))

    def unknown(self, rule, where, msg):
        t = (rule, where, msg)
        if t not in self.unknowns:
            self.unknowns.append(t)


def load_known(path=None):
    """lines:  known: property=<id> key=<key> :: <what fails>
               fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    path = path or os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            body = line[len("known:"):].strip()
            head, _, what = body.partition(" :: ")
            pid = head.split()[0].split("=", 1)[1]
            key = head.split("key=", 1)[1].strip()
            out.append((pid, key, what))
    return out


def run_check(pid, rules, prog_factory, level, explanation, tier, seed, out_dir=None):
    t0 = time.time()
    ctx = Ctx(pid, prog_factory, tier, seed)
    evdir = out_dir or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    broken = []
    for r in rules:
        try:
            r(ctx)
        except Exception as e:
            # the rule could not be evaluated to its end: what it already found
            # stands, the rest is undecided
            broken.append(e)
            ctx.unknown("analysis", r.__name__, "%s: %s" % (type(e).__name__, e))
            sys.stdout.write("UNDECIDED property=%s rule=%s %s: %s\n" % (pid, r.__name__, type(e).__name__, e))
            traceback.print_exc()
    if broken and not ctx.violations and not ctx.counts.get("obligations_discharged"):
        sys.stdout.write("ANALYSIS-BROKEN property=%s nothing could be decided\n" % pid)
        return 2
    known = [(k, w) for p, k, w in load_known() if p == pid]
    listed = []
    fresh = []
    for key, where, msg in ctx.violations:
        hit = [w for k, w in known if k == key]
        if hit:
            listed.append((key, where, msg, hit[0]))
        else:
            fresh.append((key, where, msg))
    for key, where, msg, what in listed:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, what, where, key))
    cov = {
        "explanation": explanation,
        "rules": ctx.rules,
        "counts": ctx.counts,
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions),
        "undecided": len(ctx.unknowns),
        "undecided_items": [" ".join(str(x) for x in u)[:300] for u in ctx.unknowns[:40]],
        "samples": ctx.samples,
        "known_findings": [k for k, _, _, _ in listed],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    if fresh:
        rp = os.path.join(evdir, pid + ".replay.txt")
        with open(rp, "w") as f:
            for key, where, msg in fresh:
                f.write("%s\n  at %s\n  %s\n" % (key, where, msg))
        for key, where, msg in fresh:
            print("  %s [%s] %s" % (where, key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print(
        "OK property=%s functions=%d discharged=%d undecided=%d known=%d wall=%.2fs"
        % (pid, len(ctx.functions), ctx.counts.get("obligations_discharged", 0), len(ctx.unknowns), len(listed), time.time() - t0)
    )
    return 0
