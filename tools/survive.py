#!/usr/bin/env python3
"""survive.py K/N [id-prefix...]: say which edits of mutants.BUGS pass the existing
tests (candidates for planted bugs). Works in scratch copies of /repo."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants

K, N = map(int, sys.argv[1].split("/"))
COPY = f"/tmp/survive{K}"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


if not os.path.exists(COPY):
    subprocess.check_call(["cp", "-a", "/repo", COPY])
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_TARGET_DIR=COPY + "/target")
for n, (id_, prop, *edits) in enumerate(mutants.BUGS):
    if n % N != K or (len(sys.argv) > 2 and not any(id_.startswith(a) for a in sys.argv[2:])):
        continue
    sh(["git", "checkout", "--", "."], cwd=COPY)
    for f, old, new in edits:
        p = os.path.join(COPY, f)
        t = open(p).read()
        if old not in t:
            break
        open(p, "w").write(t.replace(old, new, 1))
    else:
        try:
            r = sh(["cargo", "test", "--offline", "--workspace", "--all-features", "-q"], cwd=COPY, env=env, timeout=200)
            ok = r.returncode == 0
            why = "" if ok else next((l for l in (r.stdout + r.stderr).splitlines() if "panicked" in l or l.startswith("error")), "")
        except subprocess.TimeoutExpired:
            ok, why = False, "timeout"
        print("SURVIVES" if ok else "killed", prop, id_, why[:100], flush=True)
sh(["rm", "-rf", COPY])
