"""Check runner: known findings, evidence, exit codes.

Exit 0 the property held on everything analysed, exit 1 with a VIOLATION line,
exit 2 the analysis could not decide (anchor vanished, file does not parse,
instance counts below what was confirmed by hand).
"""
import importlib
import json
import os
import sys
import time
import traceback

from .model import AnalysisError, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.prog = Program()
        self.findings = {}
        self.counts = {}
        self.notes = []
        self.samples = []
        self.obligations = 0
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def report(self, rule, construct, where, message, path=()):
        """a violation, keyed by rule and construct (never by line number)"""
        key = "%s|%s" % (rule, construct)
        if key not in self.findings:
            self.findings[key] = dict(rule=rule, construct=construct, where=where, message=message, path=list(path))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def obligation(self, n=1):
        self.obligations += n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def need(self, name, minimum, what=""):
        """instance counts may not fall below what was confirmed by hand"""
        got = self.counts.get(name, 0)
        if got < minimum and not set(self.findings) - set(load_known(self.pid)):
            raise AnalysisError("%s: %d analysed, at least %d expected %s" % (name, got, minimum, what))

    def selftest(self, name, ok):
        """a tiny example the rule must (or must not) match on every run"""
        self.count("self-tests")
        if not ok:
            raise AnalysisError("self-test of the rule failed: " + name)


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith("known: property=%s " % pid):
                    continue
                key, _, text = line[len("known: property=%s " % pid):].partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main(pid, tier):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(pid, tier)
        mod.run(ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    known = load_known(pid)
    fresh, listed = [], []
    for key, f in sorted(ctx.findings.items()):
        (listed if key in known else fresh).append((key, f))
    bad_obl = len(ctx.findings)
    cov = dict(
        explanation="Static analysis of the current source of the package (nothing is executed). " + " ".join(ctx.rules),
        rules=ctx.rules,
        files_parsed=ctx.prog.parse_files,
        functions_in_program=len(ctx.prog.funcs),
        classes_in_program=len(ctx.prog.classes),
        analysed=ctx.counts,
        obligations=ctx.obligations,
        discharged=ctx.obligations - min(bad_obl, ctx.obligations),
        known_findings=[k for k, _ in listed],
        samples=ctx.samples or ["none"],
    )
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 3),
        violations=len(fresh), assumptions=ctx.assumptions,
    )
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for key, f in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["where"], known[key] or f["message"]))
    replay = os.path.join(evdir, pid + ".violations.txt")
    if os.path.exists(replay):
        os.remove(replay)
    print("property=%s tier=%s files=%d obligations=%d %s" % (
        pid, tier, ctx.prog.parse_files, ctx.obligations, " ".join("%s=%s" % kv for kv in sorted(ctx.counts.items()))))
    if not fresh:
        return 0
    with open(replay, "w") as fh:
        fh.write("Re-run: cd /verif && python3 check.py %s\n" % pid)
        for key, f in fresh:
            txt = "%s: [%s] %s (instance: %s)" % (f["where"], f["rule"], f["message"], f["construct"])
            print(txt)
            fh.write(txt + "\n")
            for s in f["path"]:
                print("    via " + s)
                fh.write("    via %s\n" % s)
            fh.write("    key: %s\n" % key)
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1
