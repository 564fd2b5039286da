#!/usr/bin/env python3
"""seedtool.py make|verify|catch [id...]: generate the planted bugs described in
seeds.py, confirm them (tests pass, demonstration differs), or run the checks
of their property against them. Works in a scratch copy of /repo, except that
`catch` runs the check with VERIF_REPO pointing at that copy."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS

VERIF = os.path.dirname(HERE)
COPY = "/tmp/seedcopy"

DEMO = """#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
triple_arena = {{ path = "$repo/triple_arena", features = ["serde_support", "expose_internal_utils"] }}
{deps}T
cd "$d"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
{run}
"""

RUN = "cargo run --offline --quiet"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.exists(COPY):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh(["git", "-C", COPY, "checkout", "--", "."])
    h = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    sh(["git", "-C", COPY, "fetch", "/repo", "HEAD"])
    sh(["git", "-C", COPY, "reset", "--hard", h])


def edit(s):
    for f, old, new in s["edits"]:
        p = os.path.join(COPY, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            raise SystemExit(f"{s['id']}: {n} matches in {f} for {old!r}")
        open(p, "w").write(t.replace(old, new))


def make(s):
    fresh()
    edit(s)
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "-C", COPY, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO.format(deps=s.get("deps", ""), run=s.get("run", RUN)))
    os.chmod(p, 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    fresh()


def tests():
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=COPY + "/target")
    for a in (["--all-features"], ["--no-default-features"], ["--all-features", "--release"]):
        try:
            r = sh(["cargo", "test", "--offline", "--workspace", "--no-fail-fast"] + a + ["--", "--test-threads", "8"],
                   cwd=COPY, env=env, timeout=400)
        except subprocess.TimeoutExpired:
            return "timeout"
        if r.returncode != 0:
            return "\n".join(l for l in (r.stdout + r.stderr).splitlines() if "FAILED" in l or l.startswith("error"))[:600]
    return None


def verify(s):
    d = os.path.join(VERIF, "seeded", s["id"])
    fresh()
    a = sh([os.path.join(d, "demo.sh")], cwd=COPY)
    r = sh(["git", "-C", COPY, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        return "patch does not apply: " + r.stderr
    for f, _, _ in s["edits"]:
        os.utime(os.path.join(COPY, f))
    b = sh([os.path.join(d, "demo.sh")], cwd=COPY)
    t = tests()
    fresh()
    for f, _, _ in s["edits"]:
        os.utime(os.path.join(COPY, f))
    msg = []
    if a.returncode != 0:
        msg.append("demo fails unpatched: " + a.stderr[-800:])
    if b.returncode == 0:
        msg.append("demo passes patched")
    else:
        msg.append("(demo patched: " + " ".join(l for l in b.stderr.splitlines() if "panicked" in l or l.startswith("error"))[:150] + ")")
    if t:
        msg.append("tests: " + t)
    return "; ".join(msg)


def catch(s, props=None):
    d = os.path.join(VERIF, "seeded", s["id"])
    fresh()
    sh(["git", "-C", COPY, "apply", os.path.join(d, "patch.diff")])
    out = []
    for p in props or [s["property"]]:
        r = sh([sys.executable, os.path.join(VERIF, "check.py"), p], env=dict(os.environ, VERIF_REPO=COPY))
        lines = [l for l in r.stdout.splitlines() if l and not l.startswith("VIOLATION")]
        out.append(f"{p}: exit {r.returncode} " + " | ".join(lines)[:400] + (r.stderr[-300:] if r.returncode == 2 else ""))
    fresh()
    return "\n   ".join(out)


if __name__ == "__main__":
    mode = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("-p")]
    props = [a[2:].split(",") for a in sys.argv[2:] if a.startswith("-p")]
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        if mode == "make":
            make(s)
            print("made", s["id"])
        elif mode == "verify":
            print(s["id"], verify(s), flush=True)
        elif mode == "catch":
            print(s["id"], catch(s, props[0] if props else None), flush=True)
