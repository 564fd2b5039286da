"""Programs the compiler must reject, each with a twin it must accept that
differs only in the misuse. Nothing is run: the verdict is the type checker's."""
import json
import os
import shutil
import subprocess
import tempfile

import extract
from driver import Finding, Task
from interp import Limit

PRELUDE = """#![allow(unused)]
use std::{cell::Cell, rc::Rc, sync::MutexGuard};
use triple_arena::{utils::*, *};
use triple_arena::surject_iterators as si;
ptr_struct!(P0; P1);
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn use_it<T>(t: T) {}
"""

ARENA = "let mut a: Arena<P0, u8> = Arena::new(); let p = a.insert(1); let r = p;"
CHAIN = ("let mut a: ChainArena<P0, u8> = ChainArena::new(); let p = a.insert_new(1); "
         "let p2 = a.insert((Some(p), None), 2).unwrap();")
ORD = "let mut a: OrdArena<P0, u8, u8> = OrdArena::new(); let (p, _) = a.insert(1, 1);"
SURJ = "let mut a: SurjectArena<P0, u8, u8> = SurjectArena::new(); let p = a.insert(1, 1);"
OTHER = "let q = P1::invalid(); let q0 = P0::invalid();"

BORROW = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0597", "E0713", "E0716"}
MIX = {"E0308", "E0277", "E0271"}
MUT = {"E0594", "E0596", "E0616", "E0614", "E0308", "E0070"}

CASES = [
    # pointer types
    ("get", MIX, ARENA + OTHER + "use_it(a.get({q0|q}));"),
    ("index", MIX, ARENA + OTHER + "use_it(a[{q0|q}]);"),
    ("get_mut", MIX, ARENA + OTHER + "use_it(a.get_mut({q0|q}));"),
    ("remove", MIX, ARENA + OTHER + "use_it(a.remove({q0|q}));"),
    ("contains", MIX, ARENA + OTHER + "use_it(a.contains({q0|q}));"),
    ("swap", MIX, ARENA + OTHER + "use_it(a.swap(p, {q0|q}));"),
    ("equality", MIX, ARENA + OTHER + "use_it(p == {q0|q});"),
    ("order", MIX, ARENA + OTHER + "use_it(p < {q0|q});"),
    ("into", MIX, ARENA + OTHER + "let x: P0 = {q0|q}.into();"),
    ("assign", MIX, ARENA + OTHER + "let x: P0 = {q0|q};"),
    ("chain_link", MIX, CHAIN + OTHER + "use_it(a.insert((Some({q0|q}), None), 3));"),
    ("chain_connect", MIX, CHAIN + OTHER + "use_it(a.connect(p, {q0|q}));"),
    ("surject_key", MIX, SURJ + OTHER + "use_it(a.insert_key({q0|q}, 3));"),
    ("surject_union", MIX, SURJ + OTHER + "use_it(a.union(p, {q0|q}));"),
    ("ord_key", MIX, ORD + OTHER + "use_it(a.get_key({q0|q}));"),
    ("nogen", MIX, ARENA + "let x: P0 = {r|PtrNoGen::<P0>::invalid()};"),
    ("recaster", MIX, "let mut a: Arena<P0, P0> = Arena::new(); let b: Arena<{P0|P1}, {P0|P1}> = Arena::new(); "
                      "use_it(a.recast(&b));"),
    # interlinks and keys
    ("link_field", MUT, CHAIN + "let mut l = a.get_link_mut(p).unwrap(); {*l.t = 1|l.prev_next.0 = None};"),
    ("link_next", MUT, CHAIN + "let l = a.get_link_mut(p).unwrap(); use_it({l.next()|&mut l.prev_next.1});"),
    ("link_whole", MUT, CHAIN + "let l: {Link<P0, &mut u8>|&mut Link<P0, u8>} = a.get_link_mut(p).unwrap();"),
    ("link_index", MUT, CHAIN + "let l: &mut {u8|Link<P0, u8>} = &mut a[p];"),
    ("link_vals", MUT, CHAIN + "for l in a.vals_mut() { {*l.t = 0|l.prev_next = (None, None)} }"),
    ("link_iter", MUT, CHAIN + "for (_, l) in a.iter_mut() { {*l.t = 0|l.prev_next = (None, None)} }"),
    ("link_get2", MUT, CHAIN + "if let Some((l, _)) = a.get2_link_mut(p, p2) { {*l.t = 0|l.prev_next = (None, None)} }"),
    ("ord_get", MUT, ORD + "if let Some((k, v)) = a.get_mut(p) { *{v|k} = 3; }"),
    ("ord_keys", MUT, ORD + "{for v in a.vals_mut() { *v = 3 }|for k in a.keys() { *k = 3 }}"),
    ("ord_index", MUT, ORD + "{a[p]|*a.get_key(p).unwrap()} = 3;"),
    ("ord_compress", MUT, ORD + "a.compress_and_shrink_with(|_, k, v, _| *{v|k} = 3);"),
    ("storage_len", MUT | {"E0609", "E0615"}, ARENA + "use_it({a.len()|a.len});"),
    ("storage_m", MUT | {"E0609", "E0615"}, ARENA + "use_it({a.capacity()|&a.m});"),
    # borrows
    ("get_remove", BORROW, ARENA + "let x = a.get(p).unwrap(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("two_mut", BORROW, ARENA + "let x = a.get_mut(p).unwrap(); {use_it(x); let y = a.get_mut(p);|"
                        "let y = a.get_mut(p); use_it(x);}"),
    ("index_insert", BORROW, ARENA + "let x = &a[p]; {use_it(x); a.insert(2);|a.insert(2); use_it(x);}"),
    ("iter_insert", BORROW, ARENA + "let x = a.iter().next(); {use_it(x); a.insert(2);|a.insert(2); use_it(x);}"),
    ("iter_mut_insert", BORROW, ARENA + "let x = a.iter_mut().next(); {use_it(x); a.insert(2);|a.insert(2); use_it(x);}"),
    ("vals_mut_drop", BORROW, ARENA + "let x = a.vals_mut().next(); {use_it(x); drop(a);|drop(a); use_it(x);}"),
    ("two_iter_mut", BORROW, ARENA + "let mut x = a.vals_mut(); {use_it(x.next()); let y = a.vals_mut();|"
                             "let y = a.vals_mut(); use_it(x.next());}"),
    ("iter_mut_scope", BORROW, "let mut e = None; let mut b: Arena<P0, u8> = Arena::new(); "
                               "{ {let a = &mut b;|let mut a: Arena<P0, u8> = Arena::new();} e = a.vals_mut().next(); } use_it(e);"),
    ("drain_use", BORROW, ARENA + "let mut x = a.drain(); {use_it(x); a.len();|a.len(); use_it(x);}"),
    ("get2_alias", BORROW, ARENA + "let (x, y) = a.get2_mut(p, r).unwrap(); {use_it((x, y)); a.clear();|a.clear(); use_it((x, y));}"),
    ("chain_iter_chain", BORROW, CHAIN + "let x = a.iter_chain(p).next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("chain_link_mut", BORROW, CHAIN + "let x = a.get_link_mut(p).unwrap(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("chain_vals_mut", BORROW, CHAIN + "let x = a.vals_mut().next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("surject_keys", BORROW, SURJ + "let x = a.keys_mut().next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("surject_iter", BORROW, SURJ + "let x = a.iter_surject(p).next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("surject_vals", BORROW, SURJ + "let x = a.vals_mut().next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("ord_vals_mut", BORROW, ORD + "let x = a.vals_mut().next(); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("ord_get_mut", BORROW, ORD + "let x = a.get_mut(p); {use_it(x); a.remove(p);|a.remove(p); use_it(x);}"),
    ("content", BORROW | {"E0597"}, "let mut a: Arena<P0, &u8> = Arena::new(); let y = 1u8; "
                                    "{ let x = 1u8; a.insert({&y|&x}); } use_it(a);"),
]

for k, ty in (("arena", "Arena<P0, {}>"), ("chain", "ChainArena<P0, {}>"), ("chain_ng", "ChainNoGenArena<P0, {}>"),
              ("surject_k", "SurjectArena<P0, {}, u8>"), ("surject_v", "SurjectArena<P0, u8, {}>"),
              ("ord_k", "OrdArena<P0, {}, u8>"), ("ord_v", "OrdArena<P0, u8, {}>"), ("link", "Link<P0, {}>")):
    CASES.append(("send_" + k, {"E0277"}, "send::<" + ty.replace("{}", "{u8|Rc<u8>}") + ">();"))
    CASES.append(("sync_" + k, {"E0277"}, "sync::<" + ty.replace("{}", "{u8|Cell<u8>}") + ">();"))
for k, call in (("iter", "a.iter()"), ("vals", "a.vals()")):
    CASES.append(("send_" + k, {"E0277"}, "fn s<T: Send>(t: T) {} let a: Arena<P0, {u8|Cell<u8>}> = Arena::new(); s(%s);" % call))
for k, call in (("iter_mut", "a.iter_mut()"), ("vals_mut", "a.vals_mut()"), ("drain", "a.drain()"),
                ("capacity_drain", "a.capacity_drain()")):
    CASES.append(("send_" + k, {"E0277"}, "fn s<T: Send>(t: T) {} let mut a: Arena<P0, {u8|Rc<u8>}> = Arena::new(); s(%s);" % call))
    CASES.append(("sync_" + k, {"E0277"}, "fn s<T: Sync>(t: T) {} let mut a: Arena<P0, {u8|Cell<u8>}> = Arena::new(); s(%s);" % call))


def variant(text, bad):
    """Expands `{ok|bad}` groups (groups hold no nested groups)."""
    out = []
    i = 0
    while i < len(text):
        if text[i] == "{":
            j, depth, bar = i + 1, 1, None
            while depth:
                c = text[j]
                depth += c == "{"
                depth -= c == "}"
                if c == "|" and depth == 1 and bar is None:
                    bar = j
                j += 1
            if bar is not None:
                out.append(text[bar + 1:j - 1] if bad else text[i + 1:bar])
                i = j
                continue
        out.append(text[i])
        i += 1
    return "".join(out)


def compile_all(cases):
    """{(name, bad): set of error codes}"""
    os.makedirs(extract.WORK, exist_ok=True)
    out = tempfile.mkdtemp(prefix="w", dir=extract.WORK)
    try:
        os.makedirs(os.path.join(out, "src", "bin"))
        dep = os.path.join(extract.REPO, "triple_arena")
        with open(os.path.join(out, "Cargo.toml"), "w") as h:
            h.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                    f'triple_arena = {{ path = "{dep}", default-features = false, features = ["std", "serde_support"] }}\n[workspace]\n')
        lock = os.path.join(extract.REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(out, "Cargo.lock"))
        for name, _, text in cases:
            for bad in (False, True):
                f = os.path.join(out, "src", "bin", f"{name}_{'bad' if bad else 'ok'}.rs")
                with open(f, "w") as h:
                    h.write(PRELUDE + "fn main() {\n" + variant(text, bad) + "\n}\n")
        e = extract._env()
        e["CARGO_TARGET_DIR"] = os.path.join(out, "target")
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--bins", "--keep-going",
                            "--message-format=json"], cwd=out, env=e, capture_output=True, text=True)
        res = {}
        built = set()
        for l in r.stdout.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            t = m.get("target", {}).get("name", "")
            if m["reason"] == "compiler-message" and m["message"]["level"] == "error":
                code = (m["message"].get("code") or {}).get("code")
                res.setdefault(t, []).append((code, m["message"]["message"]))
            elif m["reason"] == "compiler-artifact":
                built.add(t)
        if "triple_arena" not in built:
            raise extract.BuildError("cannot build the crate for the witnesses:\n" + r.stderr[-3000:])
        return res, built
    finally:
        shutil.rmtree(out, ignore_errors=True)


def judge(name, codes, res, built):
    ok, bad = name + "_ok", name + "_bad"
    if ok not in built:
        raise Limit("the accepted twin does not compile: " + "; ".join(m for _, m in res.get(ok, ())[:2]))
    if bad in built:
        return [Finding("T01", "witness " + name, "a program misusing the arena compiles")]
    got = {c for c, _ in res.get(bad, ()) if c}
    if not got & codes:
        raise Limit(f"rejected for another reason: {sorted(got)}")
    return []


def tasks(ctx):
    res, built = compile_all(CASES)

    def make(name, codes):
        return Task("witnesses", name, lambda ctx: (judge(name, codes, res, built), 1))
    return [make(n, c) for n, c, _ in CASES]
