#!/usr/bin/env python3
"""mutate.py bugs|same [-pA01,..] [-sK/N] [id-prefix...]: apply each edit of mutants.py to a
scratch copy of /repo and run checks on it. `bugs` must be reported by the
check of the property they are listed under; `same` (behaviour-preserving
edits) must be reported by none. Development aid, not used by any check."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
import mutants

VERIF = os.path.dirname(HERE)
COPY = os.environ.get("MUTCOPY", "/tmp/mutcopy")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.exists(COPY):
        os.makedirs(COPY)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + COPY, shell=True)
        sh(["git", "init", "-q"], cwd=COPY)
        sh(["git", "add", "-A"], cwd=COPY)
        sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=COPY)
    sh(["git", "checkout", "--", "."], cwd=COPY)


def run(props):
    out = []
    for p in props:
        r = sh([sys.executable, os.path.join(VERIF, "check.py"), p], env=dict(os.environ, VERIF_REPO=COPY))
        lines = [l for l in r.stdout.splitlines() if l and not l.startswith("VIOLATION")]
        out.append((p, r.returncode, lines, r.stderr[-1500:]))
    return out


def main():
    mode = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    given = [a[2:].split(",") for a in sys.argv[2:] if a.startswith("-p")]
    sys.path.insert(0, os.path.join(VERIF, "engine"))
    import checks
    shard = [a[2:].split("/") for a in sys.argv[2:] if a.startswith("-s")]
    if shard:
        global COPY
        COPY += shard[0][0]
    for n, (id_, props, *edits) in enumerate(mutants.BUGS if mode == "bugs" else mutants.SAME):
        if shard and n % int(shard[0][1]) != int(shard[0][0]):
            continue
        if ids and not any(id_.startswith(i) for i in ids):
            continue
        fresh()
        ok = True
        for f, old, new in edits:
            p = os.path.join(COPY, f)
            t = open(p).read()
            if t.count(old) == 0:
                print(id_, f"EDIT {t.count(old)} matches for {old[:60]!r}")
                ok = False
                break
            open(p, "w").write(t.replace(old, new, 1))
        if not ok:
            continue
        ps = given[0] if given else props.split(",") if props else [p for p in checks.PROPS]
        res = run(ps)
        if any("cannot analyse the crate" in e or any("cannot analyse the crate" in l for l in ls) for _, _, ls, e in res):
            print("NOT COMPILING", id_, flush=True)
        elif mode == "bugs":
            hit = any(rc == 1 for _, rc, _, _ in res)
            err = [e for _, rc, _, e in res if rc not in (0, 1)]
            what = next((l for _, rc, ls, _ in res if rc == 1 for l in ls), "")
            print("caught" if hit else "MISSED", id_, props, what[-160:] if hit else "", err[0][-600:] if err else "", flush=True)
        else:
            bad = [(p, rc, ls, e) for p, rc, ls, e in res if rc != 0]
            print("quiet" if not bad else "ALARM", id_, flush=True)
            for p, rc, ls, e in bad:
                print("    ", p, rc, "\n       ".join(ls[:6])[:1200], e[-800:] if rc != 1 else "")
    fresh()


main()
