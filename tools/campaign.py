#!/usr/bin/env python3
"""campaign.py gen N SEED | test K/N | check K/N: single-line mutations of the
library source drawn at random, kept if they compile and pass the existing
tests, then put before every check. Prints the survivors no check reports.
Works in scratch copies of /repo under /tmp/camp."""
import json
import os
import random
import re
import subprocess
import sys

DIR = "/tmp/camp"
SRC = "triple_arena/src"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

SWAPS = [
    (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"\bprev\b", "next"), (r"\bnext\b", "prev"),
    (r"\bp0\b", "p1"), (r"\bp1\b", "p0"), (r"\bp_prev\b", "p_next"), (r"\bp_next\b", "p_prev"),
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"is_none\(\)", "is_some()"), (r"is_some\(\)", "is_none()"),
    (r"wrapping_add\(1\)", "wrapping_add(2)"), (r"wrapping_add\(1\)", "wrapping_sub(1)"),
    (r"wrapping_sub\(1\)", "wrapping_add(1)"), (r"wrapping_sub\(1\)", "wrapping_sub(0)"),
    (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"), (r"\bLess\b", "Equal"), (r"\bEqual\b", "Less"),
    (r"p_tree0", "p_tree1"), (r"p_tree1", "p_tree0"), (r"\bself\.first\b", "self.last"), (r"\bself\.last\b", "self.first"),
    (r"\bself\.root\b", "self.first"), (r"\bother\b", "self"), (r"if let Some\(", "if let Some("),
    (r"Some\((\w+)\)$", "None"), (r"\bp\b", "p_init"), (r"\.generation\(\)", ".inx()"), (r"self\.generation\(\)", "PtrGen::two()"),
    (r"\bclear\(\)", "clear_and_shrink()"), (r"clear_and_shrink\(\)", "clear()"),
    (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\bmax\(", "min("), (r"\?;$", ";"), (r"\.rev\(\)", ""),
    (r"\bk\b", "v"), (r"\brank\b", "rank.wrapping_add(1)"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
    (r"self\.get\(", "self.get_no_gen("), (r"\bp_new\b", "p"), (r"\bp_link\b", "p"), (r"\bprev_next\(\)", "prev_next"),
    (r"next_prev", "prev"), (r"\bnum\b", "0"), (r"\blen\b", "cap"), (r"\binit\b", "next"),
]


def candidates():
    out = []
    for d, _, fs in os.walk(os.path.join("/repo", SRC)):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), "/repo")
            lines = open(os.path.join("/repo", p)).read().split("\n")
            for i, l in enumerate(lines):
                s = l.strip()
                if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "*")):
                    continue
                if re.match(r"(pub(\(crate\))? )?(unsafe )?(const )?(fn|impl|trait|struct|enum|type)\b", s):
                    continue
                code = l.split("//")[0]
                for a, b in SWAPS:
                    for m in re.finditer(a, code):
                        r = code[:m.start()] + b + code[m.end():]
                        if r != code:
                            out.append((p, i, r))
                if s.endswith(";") and not s.startswith(("let ", "return")) and re.match(r"[\w*]", s):
                    out.append((p, i, re.match(r"\s*", l).group() + ";"))
                if s.startswith("if ") and s.endswith("{") and " let " not in s:
                    out.append((p, i, re.sub(r"if .* \{$", "if true {", l)))
                    out.append((p, i, re.sub(r"if .* \{$", "if false {", l)))
                    out.append((p, i, re.sub(r"if (.*) \{$", r"if !(\1) {", l)))
    return sorted(set(out))


def gen(n, seed):
    c = candidates()
    c = [m for m in c if "safe_nonzero" not in m[0]]
    random.Random(seed).shuffle(c)
    json.dump(c[:n], open(f"{DIR}/muts.json", "w"))
    print(len(c), "possible")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(name):
    d = f"{DIR}/{name}"
    if not os.path.exists(d):
        subprocess.check_call(["cp", "-a", "/repo", d])
    sh(["git", "checkout", "--", "."], cwd=d)
    return d


def apply(d, m):
    sh(["git", "checkout", "--", "."], cwd=d)
    p = os.path.join(d, m[0])
    ls = open(p).read().split("\n")
    ls[m[1]] = m[2]
    open(p, "w").write("\n".join(ls))


def test(k, n):
    d = copy(f"t{k}")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=d + "/target", CARGO_BUILD_JOBS="2")
    out = open(f"{DIR}/test{k}.txt", "a")
    for i, m in enumerate(json.load(open(f"{DIR}/muts.json"))):
        if i % n != k:
            continue
        apply(d, m)
        r = sh(["cargo", "check", "--offline", "-p", "triple_arena", "--all-features", "-q"], cwd=d, env=env)
        res = "nocompile"
        if r.returncode == 0:
            try:
                r = sh(["timeout", "-k", "5", "120", "cargo", "test", "--offline", "--workspace", "--all-features", "-q"], cwd=d, env=env)
                res = "survives" if r.returncode == 0 else "killed"
            except subprocess.TimeoutExpired:
                res = "killed"
        print(i, res, file=out, flush=True)


def check(k, n):
    man = json.load(open(f"{VERIF}/MANIFEST.json"))
    d = copy(f"c{k}")
    muts = json.load(open(f"{DIR}/muts.json"))
    done = set()
    for f in os.listdir(DIR):
        if f.startswith("check"):
            done |= {int(l.split()[0]) for l in open(f"{DIR}/{f}")}
    todo = []
    for f in sorted(os.listdir(DIR)):
        if f.startswith("test"):
            todo += [int(l.split()[0]) for l in open(f"{DIR}/{f}") if "survives" in l]
    out = open(f"{DIR}/check{k}.txt", "a")
    for j, i in enumerate(sorted(set(todo) - done)):
        if j % n != k:
            continue
        apply(d, muts[i])
        got = []
        for c in man["checks"]:
            r = sh([sys.executable, f"{VERIF}/check.py", c["property"]], env=dict(os.environ, VERIF_REPO=d))
            if r.returncode != 0:
                got.append(c["property"] if r.returncode == 1 else f"{c['property']}!{r.returncode}")
                if len(got) >= 1 and r.returncode == 1:
                    break
        print(i, ",".join(got) or "MISSED", muts[i][0].split("/")[-1], muts[i][1] + 1, muts[i][2].strip(), file=out, flush=True)


os.makedirs(DIR, exist_ok=True)
if sys.argv[1] == "gen":
    gen(int(sys.argv[2]), int(sys.argv[3]))
else:
    k, n = map(int, sys.argv[2].split("/"))
    (test if sys.argv[1] == "test" else check)(k, n)
