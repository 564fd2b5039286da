"""Runs the rules of one property over the current tree, in parallel, and
turns their results into evidence and an exit status."""
import json
import os
import signal
import sys
import time
import traceback
from multiprocessing import Pool

sys.setrecursionlimit(20000)

import extract
from interp import Program, Limit
from layout import Layout, Anchor
from subject import Subject

VERIF = extract.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TASK_SECONDS = 300


class Finding:
    def __init__(self, rule, fn, what, detail=""):
        self.rule, self.fn, self.what, self.detail = rule, fn, what, detail

    def key(self):
        return f"{self.rule}|{self.fn}|{self.what}"


class Ctx:
    """The exported program(s) of this run."""

    def __init__(self, tool, tier):
        self.tool = tool
        self.tier = tier
        self._prog = {}
        self._lay = {}

    def prog(self, config="full"):
        if config not in self._prog:
            self._prog[config] = Program(extract.run(config, tool=self.tool))
        return self._prog[config]

    def layout(self, config="full"):
        if config not in self._lay:
            self._lay[config] = Layout(self.prog(config))
        return self._lay[config]


class Task:
    """One unit of work: `run(ctx)` returns (findings, obligations)."""

    def __init__(self, name, where, run):
        self.name, self.where, self.run = name, where, run


CTX = None
TASKS = None


def _alarm(*_):
    raise Limit("time budget")


def _work(i):
    t = TASKS[i]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_SECONDS)
    try:
        fs, n = t.run(CTX)
        return i, [(f.rule, f.fn, f.what, f.detail) for f in fs], n, None, None, time.time() - t0
    except Limit as e:
        return i, [], 0, str(e), None, time.time() - t0
    except RecursionError:
        return i, [], 0, "recursion", None, time.time() - t0
    except Anchor as e:
        return i, [("anchor", t.where, str(e), "")], 0, None, None, time.time() - t0
    except Exception:
        return i, [], 0, None, traceback.format_exc(), time.time() - t0
    finally:
        signal.alarm(0)


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                k, _, what = l.split(" ", 2)[2].partition(" ## ")
                out[k] = what
    return out


def span_of(ctx, fn):
    for p in ctx._prog.values():
        f = p.by_path.get(fn)
        if f:
            return f.get("span") or ""
    return ""


def main(prop, spec):
    global CTX, TASKS
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = os.path.join(EVIDENCE, prop + ".json")
    rep = os.path.join(EVIDENCE, prop + ".report.txt")
    findings = []
    undecided = []
    errors = []
    done = []
    obligations = 0
    per_rule = {}
    CTX = Ctx(extract.build_tool(), tier)
    try:
        TASKS = spec["tasks"](CTX)
    except Anchor as e:
        TASKS = []
        findings.append(Finding("anchor", "structure", str(e)))
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, fs, n, und, err, dt in pool.imap_unordered(_work, range(len(TASKS)), chunksize=1):
            t = TASKS[i]
            if os.environ.get("VERIF_SLOW") and dt > 5:
                print(f"slow: {dt:.0f} s {t.where} {und or ''}", file=sys.stderr)
            if err:
                errors.append((t.name, t.where, err))
                und = "analysis error: " + err.strip().splitlines()[-1]
            if und:
                undecided.append({"rule": t.name, "function": t.where, "reason": und})
                continue
            obligations += n
            r = per_rule.setdefault(t.name, {"analysed": 0, "with_obligations": 0, "obligations": 0})
            r["analysed"] += 1
            r["obligations"] += n
            r["with_obligations"] += 1 if n else 0
            if n:
                done.append((t.name, t.where, n))
            findings += [Finding(*f) for f in fs]
    for rule, (fn_floor, ob_floor) in spec["floors"].items():
        r = per_rule.get(rule, {"with_obligations": 0, "obligations": 0})
        # a function the rule found but could not decide is listed as undecided, it is not a missing one
        opened = sum(1 for u in undecided if u["rule"] == rule and not u["reason"].endswith("(not attempted)"))
        if r["with_obligations"] + opened < fn_floor or not opened and r["obligations"] < ob_floor:
            findings.append(Finding(rule, "coverage", "fewer places to judge than the rule is known to have",
                                    f"{r['with_obligations']} functions (at least {fn_floor} expected), "
                                    f"{r['obligations']} obligations (at least {ob_floor} expected)"))
    uniq = {}
    for f in findings:
        uniq.setdefault(f.key(), f)
    kn = known(prop)
    new = [f for k, f in uniq.items() if k not in kn]
    old = [(k, kn[k]) for k in uniq if k in kn]
    done.sort()
    undecided.sort(key=lambda u: (u["rule"], u["function"]))
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec["explanation"],
            "rules": per_rule,
            "functions_analysed": sum(r["analysed"] for r in per_rule.values()),
            "obligations": obligations,
            "obligations_failed": len(new) + len(old),
            "undecided": undecided,
            "samples": [{"rule": a, "function": b, "obligations": c} for a, b, c in done[:: max(1, len(done) // 8)]][:8],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(ev, "w") as h:
        json.dump(d, h, indent=1)
        h.write("\n")
    with open(rep, "w") as h:
        for f in new:
            h.write(f"{f.rule}: {f.fn}\n  at: {span_of(CTX, f.fn)}\n  {f.what}\n")
            if f.detail:
                h.write(f"  path: {f.detail}\n")
        for n, w, e in errors:
            h.write(f"error in {n} on {w}\n{e}\n")
    for k, what in old:
        print(f"KNOWN-FINDING: property={prop} {what}")
    for f in new:
        print(f"{f.rule}: {f.fn} ({span_of(CTX, f.fn)}): {f.what}")
    if new:
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if errors:
        print(f"note: {len(errors)} functions left undecided by analysis errors, see {rep}")
    print(f"{prop}: held; {obligations} obligations in {len(done)} functions, {len(undecided)} undecided, "
          f"{d['wall_s']} s")
    return 0
