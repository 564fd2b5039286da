"""Pointer types (G01): index and generation arithmetic with machine widths,
and the types the declaration macro makes, in both feature configurations."""
import os
import shutil
import tempfile

import extract
from driver import Finding, Task
from facts import Contradiction
from interp import Interp, Limit, Program, State
from layout import last
from models import Models, none, some, target
from rules_cmp import order_of
from rules_core import path_text
from subject import cases
from terms import *

USIZE = 64
CONFIGS = (("full", "with"), ("bare", "without"))

# every arm of the declaration macro, with the index and generation width it
# has to give (0: no generation)
ARMS = [
    ("Plain", "Plain", 64, 64), ("Attr", 'Attr doc = "x"', 64, 64),
    ("Inx8", "Inx8[NonZeroU8]", 8, 64), ("Inx16", "Inx16[NonZeroU16] doc = \"x\"", 16, 64),
    ("Inx128", "Inx128[NonZeroU128]", 128, 64),
    ("Gen8", "Gen8(NonZeroU8)", 64, 8), ("Gen32", "Gen32(NonZeroU32) doc = \"x\"", 64, 32),
    ("None_", "None_()", 64, 0), ("NoneAttr", "NoneAttr() doc = \"x\"", 64, 0),
    ("Both8", "Both8[NonZeroU8](NonZeroU8)", 8, 8), ("Both16", "Both16[NonZeroU16](NonZeroU32)", 16, 32),
    ("Both32", "Both32[NonZeroU32](NonZeroU16) doc = \"x\"", 32, 16),
    ("Both64", "Both64[NonZeroU64](NonZeroU128)", 64, 128), ("Both128", "Both128[NonZeroU128](NonZeroU64)", 128, 64),
    ("BothU", "BothU[NonZeroUsize](NonZeroU64)", 64, 64),
    ("NoGen8", "NoGen8[NonZeroU8]()", 8, 0), ("NoGen32", "NoGen32[NonZeroU32]() doc = \"x\"", 32, 0),
    ("NoGen128", "NoGen128[NonZeroU128]()", 128, 0),
]


def bits_of(t):
    """Width of an integer (or non-zero integer) type, or None."""
    s = t["s"]
    if t["k"] == "adt" and last(t["path"]) == "NonZero":
        s = s[s.index("<") + 1:-1]
    if s == "usize":
        return USIZE
    return int(s[1:]) if s[:1] == "u" and s[1:].isdigit() else None


def top(bits):
    return (1 << bits) - 1


class Exact(Interp):
    """Unsigned arithmetic with the width of its type."""

    def fit(self, st, v, bits):
        v = st.facts.norm(v)
        if is_int(v):
            return I(v.args[0] & top(bits))
        if self.decide_le(st, v, I(top(bits))):
            if self.decide_le(st, I(0), v):
                return v
            return lin_add(v, I(1 << bits))
        w = lin_sub(v, I(1 << bits))
        return w if self.decide_le(st, w, I(top(bits))) else T("trunc", v, bits)

    def binop(self, st, op, a, b, t):
        n = bits_of(t)
        if n is not None:
            if op in ("Add", "AddUnchecked", "AddWithOverflow"):
                v = self.fit(st, lin_add(st.facts.norm(a), st.facts.norm(b)), n)
            elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
                v = self.fit(st, lin_sub(st.facts.norm(a), st.facts.norm(b)), n)
            else:
                return super().binop(st, op, a, b, t)
            # overflow checks are off in release builds
            return agg("tuple", 0, None, ((0, v), (1, FALSE))) if op.endswith("Overflow") else v
        return super().binop(st, op, a, b, t)

    def rvalue(self, st, d, body, r):
        if r[0] == "cast" and r[1] == "IntToInt":
            n = bits_of(self.prog.types[r[3]])
            if n is not None:
                return self.fit(st, self.operand(st, d, body, r[2]), n)
        return super().rvalue(st, d, body, r)


def arith():
    def bits(ip, tys):
        return bits_of(ip.prog.types[tys[0]])

    def wrapping(f):
        return lambda ip, st, fn, a, tys, d, line: [(st, ip.fit(st, f(st.facts.norm(a[0]), st.facts.norm(a[1])), bits(ip, tys)))]

    def checked(f):
        def model(ip, st, fn, a, tys, d, line):
            v = f(st.facts.norm(a[0]), st.facts.norm(a[1]))
            if ip.decide_le(st, v, I(top(bits(ip, tys)))) and ip.decide_le(st, I(0), v):
                return [(st, some(v))]
            return [(st, none())]
        return model

    def saturating(f, end):
        def model(ip, st, fn, a, tys, d, line):
            v = f(st.facts.norm(a[0]), st.facts.norm(a[1]))
            n = bits(ip, tys)
            if ip.decide_le(st, v, I(top(n))) and ip.decide_le(st, I(0), v):
                return [(st, v)]
            return [(st, I(top(n) if end else 0))]
        return model
    tab = {}
    for t in ("u8", "u16", "u32", "u64", "u128", "usize"):
        for pre, f, end in (("add", lin_add, True), ("sub", lin_sub, False)):
            for q in (f"core::num::<impl {t}>::", f"core::num::nonzero::NonZero::<{t}>::"):
                tab[q + "wrapping_" + pre] = wrapping(f)
                tab[q + "unchecked_" + pre] = wrapping(f)
                tab[q + "checked_" + pre] = checked(f)
                tab[q + "saturating_" + pre] = saturating(f, end)
    return tab


class Small:
    """A function analysed on arbitrary arguments of its exact types."""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.path, self.name = f["path"], f["name"]
        self.ip = Exact(prog, Models(prog, arith()))
        b = prog.bodies[f["key"]]
        names = dict(b["names"])
        self.args = [T("arg", i, names.get(i, "a%d" % i)) for i in range(1, b["argc"] + 1)]
        self.tys = f["inputs"]
        self.st0 = State()
        for a, ty in zip(self.args, self.tys):
            t = prog.types[ty]
            n = bits_of(t)
            if n is not None:
                self.st0.facts.assume_le(I(1 if t["k"] == "adt" else 0), a)
                self.st0.facts.assume_le(a, I(top(n)))
        self.out = self.ip.call_body(f["key"], list(self.args), self.st0, 0)

    def judge(self, check):
        """Findings of `check(state, result)` over all outcomes, with the
        number of them."""
        n = 0
        out = []
        for st, ret in self.out:
            for c, r in cases(self.ip, st, lambda c: check(c, ret)):
                n += 1
                out += [Finding("G01", self.path, b, path_text(c)) for b in r]
        return out, n

    def panics_where(self, ok, what):
        """Findings for panics in states that `ok` does not excuse."""
        out = []
        n = 0
        for _, _, st in self.ip.panics:
            for c, r in cases(self.ip, st.copy(), ok):
                n += 1
                if not r:
                    out.append(Finding("G01", self.path, what, path_text(c)))
        return out, n


def both(*rs):
    return [f for r in rs for f in r[0]], sum(r[1] for r in rs)


def trait_of(f):
    return last(f["trait"]) if f.get("trait") else None


# ------------------------------------------------- generations and indices

def gen_rule(prog, f):
    s = Small(prog, f)
    t = prog.types[f["output"]]
    n = bits_of(t)

    def check(c, ret):
        if n is None:
            return []
        want = {"one": I(1), "two": I(2)}.get(s.name) or lin_add(s.args[0], I(1))
        if c.facts.eq(ret, want) is not True:
            return [{"one": "is not 1", "two": "is not 2"}.get(s.name, "does not return the next generation")]
        if s.ip.decide_le(c, ret, I(top(n))) is not True:
            return ["wraps silently"]
        return []
    if n is None and not (t["k"] == "tuple" and not t["args"]):
        raise Limit("a generation of unknown type")
    r = s.judge(check)
    if s.name == "increment" and n is not None:
        return both(r, s.panics_where(lambda c: s.ip.decide_eq(c, s.args[0], I(top(n))), "panics before the last generation"))
    return both(r, s.panics_where(lambda c: False, "panics"))


def inx_rule(prog, f):
    s = Small(prog, f)
    own = bits_of(prog.types[f["output"] if s.name == "new" else f["inputs"][0]]) if s.name != "max" else None
    if s.name == "max":
        n = bits_of(prog.types[f["self"]]) if isinstance(f.get("self"), int) else width_in(f["path"])
        want = I(min(top(n), top(USIZE)))
        return both(s.judge(lambda c, ret: [] if c.facts.eq(ret, want) is True else ["is not the greatest index"]),
                    s.panics_where(lambda c: False, "panics"))
    fits = I(min(top(own), top(USIZE)))

    def check(c, ret):
        if not s.ip.decide_le(c, s.args[0], fits):
            return []
        return [] if c.facts.eq(ret, s.args[0]) is True else ["does not keep the index"]
    return both(s.judge(check), s.panics_where(lambda c: not s.ip.decide_le(c, s.args[0], fits), "panics for a representable index"))


def width_in(path):
    i = path.index("NonZero<") + 8
    return bits_of({"k": "int", "s": path[i:path.index(">", i)]})


def basic_tasks(prog, how):
    out = []
    for f in prog.fns:
        tr = trait_of(f)
        if f["key"] is None or tr not in ("PtrGen", "PtrInx"):
            continue
        rule = gen_rule if tr == "PtrGen" else inx_rule
        out.append(Task("widths", f"{f['path']} ({how} serialization)", lambda ctx, f=f, rule=rule: rule(prog, f)))
    return out


# ------------------------------------------------------------ fresh arenas

def picks_fresh(s):
    """Makes an arena out of nothing (or a number)."""
    if s.by or any(s.prog.types[t]["k"] != "int" for t in s.tys):
        return False
    t = s.out_ty()
    return t["k"] == "adt" and t["path"] in s.L.kinds


def rule_fresh(s):
    """A new arena has no entries and no vacant slots that are not listed, and
    starts at the generation after the invalid one."""
    L = s.L
    n = 0
    out = []
    two = T("inc", T("genone"))
    for st, ret in s.out:
        def check(c):
            bad = []
            for path, _ in L.subs(s.f["output"]):
                v = ret
                for _, k, i in path:
                    v = fld(v, k, i)
                m = s.ip.as_vec(fld(v, 0, L.a_m))
                if c.facts.eq(fld(v, 0, L.a_len), I(0)) is not True or c.facts.eq(m.len, I(0)) is True and \
                        s.variant(c, fld(v, 0, L.a_root)) != 0:
                    bad.append("a new arena is not empty")
                g = fld(v, 0, L.a_gen)
                if g is not UNIT and c.facts.eq(g, two) is not True:
                    bad.append("a new arena does not start at the generation after the invalid one")
            return bad
        for c, r in cases(s.ip, st, check):
            n += 1
            out += [Finding("G01", s.path, b, path_text(c)) for b in r]
    s.checked = n
    return out


# ----------------------------------------------------------- pointer types

class Pointer:
    """One pointer type: its methods by trait and name."""

    def __init__(self, prog, path, inx, gen):
        self.prog, self.path = prog, path
        # widths; None: of any pointer type
        self.inx, self.gen = inx, gen
        self.fns = {}
        for f in prog.fns:
            if f["key"] is not None and f.get("trait") and f["path"].startswith(("<%s as " % path, "<%s<P> as " % path)):
                self.fns[trait_of(f), f["name"]] = f

    def get(self, trait, name):
        f = self.fns.get((trait, name))
        if f is None:
            return None
        return Small(self.prog, f)


def places(p):
    """(number of the index field, of the generation field)."""
    r = []
    for name in ("inx", "generation"):
        s = p.get("Ptr", name)
        vs = {s.out[0][0].facts.norm(v) if isinstance(v, Term) else v for _, v in s.out}
        v = vs.pop() if len(vs) == 1 else None
        if not (isinstance(v, Term) and v.op == "fld" and v.args[0] is s.args[0]):
            return None
        r.append(v.args[2])
    return r if r[0] != r[1] else None


def parts(v, at):
    return fld(v, 0, at[0]), fld(v, 0, at[1])


def eqv(s, c, a, b):
    if a is b or a is UNIT or b is UNIT:
        return True
    return s.ip.decide_eq(c, a, b)


def accessors(p, at):
    s = p.get("Ptr", "_from_raw")

    def check(c, ret):
        i, g = parts(ret, at)
        ok = c.facts.eq(i, s.args[0]) is True and (p.gen == 0 or c.facts.eq(g, s.args[1]) is True)
        return [] if ok else ["does not keep the given index and generation"]
    out, n = s.judge(check)
    if p.inx is not None:
        tys = [p.prog.types[t] for t in s.f["inputs"]]
        if bits_of(tys[0]) != p.inx or (bits_of(tys[1]) or 0) != p.gen:
            out.append(Finding("G01", s.path, "is not of the declared index and generation types"))
        n += 1
    return out, n


def invalid(p, at, trait, name):
    s = p.get(trait, name)

    def check(c, ret):
        i, g = parts(ret, at)
        bad = []
        i = c.facts.norm(i) if isinstance(i, Term) else i
        want = I(min(top(p.inx), top(USIZE))) if p.inx is not None else I(top(USIZE))
        if not (c.facts.eq(i, want) is True or p.inx is None and i is T("maxinx")):
            bad.append("does not have the greatest index")
        if p.gen and c.facts.eq(g, I(1)) is not True:
            bad.append("does not have the generation that is never handed out")
        return bad
    return s.judge(check)


def equality(p, at):
    s = p.get("PartialEq", "eq")

    def check(c, ret):
        a, b = (T("deref", x) for x in s.args)
        same = all([eqv(s, c, x, y) for k, (x, y) in enumerate(zip(parts(a, at), parts(b, at))) if k == 0 or p.gen])
        return [] if (s.ip.truth(c, ret) == 1) == same else ["does not depend on exactly the index and the generation"]
    out = [s.judge(check)]
    if p.get("PartialEq", "ne") is not None:
        raise Limit("own inequality")
    return both(*out)


def order(p, at, trait, name):
    s = p.get(trait, name)

    def check(c, ret):
        if name == "partial_cmp":
            x = c.facts.norm(ret) if isinstance(ret, Term) else ret
            if isinstance(x, Agg) and x.variant == 0:
                return ["leaves pointers unordered"]
            ret = fld(ret, 1, 0)
        a, b = (T("deref", x) for x in s.args)
        if p.inx is None:
            # indices of an unknown pointer type: their own comparison
            i, j = fld(a, 0, at[0]), fld(b, 0, at[0])
            want = [T("cmp", "inx", i, j), fld(T("partial_cmp", "inx", i, j), 1, 0)]
            got = order_of(s, c, ret)
            return [] if any(order_of(s, c, w) == got for w in want) else ["is not the order of the indices"]
        got = order_of(s, c, ret)
        ls = list(zip(parts(a, at), parts(b, at)))[:2 if p.gen else 1]
        rs = [0 if not s.ip.decide_le(c, y, x) else 1 if s.ip.decide_le(c, x, y) else 2 for x, y in ls]
        return [] if got == next((r for r in rs if r != 1), 1) else ["is not the order of index and generation"]
    return s.judge(check)


def hashing(p, at):
    s = p.get("Hash", "hash")

    def check(c, ret):
        want = list(parts(T("deref", s.args[0]), at))[:2 if p.gen else 1]
        got = [e for e in c.events if e[0] == "hash"]
        if any(e[2] is not s.args[1] for e in got):
            return ["hashes into something else"]
        vals = [e[1] for e in got]
        extra = [v for v in vals if v not in want]
        gen = fld(T("deref", s.args[0]), 0, at[1])
        if any(vals.count(w) != 1 for w in want) or any(v is not gen for v in extra):
            return ["does not hash exactly the index and the generation"]
        return []
    return s.judge(check)


def cloning(p, at):
    s = p.get("Clone", "clone")

    def check(c, ret):
        a = T("deref", s.args[0])
        ok = all(c.facts.eq(x, y) is True or not p.gen and k for k, (x, y) in enumerate(zip(parts(ret, at), parts(a, at))))
        return [] if ok else ["is not the same pointer"]
    return s.judge(check)


def recasting(p, at):
    s = p.get("Recast", "recast")

    def check(c, ret):
        calls = [e for e in c.events if e[0] == "opaque"]
        if len(calls) != 1 or last(calls[0][1]) != "recast_item":
            return ["does not ask the recaster once"]
        a = calls[0][2]
        if a[0] is not s.args[1] or target(c, a[1]) != target(c, s.args[0]):
            return ["does not ask the recaster about itself"]
        if not (isinstance(ret, Term) and ret is calls[0][-1]) and not (isinstance(ret, Term) and ret.op == "ret"):
            return ["does not answer what the recaster answered"]
        return []
    return s.judge(check)


def stored(p, at):
    s = p.get("Serialize", "serialize")
    s.ip.keep_locals = True

    def check(c, ret):
        calls = [e for e in c.events if e[0] == "opaque"]
        if len(calls) != 1 or last(calls[0][1]) != "serialize" or calls[0][2][1] is not s.args[1]:
            return ["does not serialize exactly its index"]
        return [] if ret.op == "ret" else ["does not answer what the serializer answered"]
    a = s.judge(check)
    d = p.get("Deserialize", "deserialize")

    def back(c, ret):
        calls = [e for e in c.events if e[0] == "opaque"]
        if len(calls) != 1 or last(calls[0][1]) != "deserialize":
            return ["does not deserialize exactly an index"]
        x = c.facts.norm(ret) if isinstance(ret, Term) else ret
        if not isinstance(x, Agg):
            return ["does not answer what the deserializer answered"]
        if x.variant == 1:
            return []
        i, g = parts(fld(ret, 0, 0), at)
        bad = []
        if not (isinstance(i, Term) and i.op == "fld" and i.args[0].op == "ret"):
            bad.append("does not keep the deserialized index")
        if p.gen and c.facts.eq(g, I(2)) is not True:
            bad.append("does not have the generation that deserialized entries have")
        return bad
    return both(a, d.judge(back))


NEEDED = (("Ptr", "invalid"), ("Ptr", "inx"), ("Ptr", "generation"), ("Ptr", "_from_raw"), ("PartialEq", "eq"), ("Ord", "cmp"),
          ("PartialOrd", "partial_cmp"), ("Hash", "hash"), ("Clone", "clone"), ("Default", "default"), ("Recast", "recast"))


def pointer_rule(p, ser):
    lost = [f"{t}::{n}" for t, n in NEEDED if (t, n) not in p.fns]
    if lost:
        return [Finding("G01", p.path, "has no " + ", ".join(lost))], 1
    at = places(p)
    if at is None:
        return [Finding("G01", p.path, "the index and generation it answers are not what it stores")], 1
    rs = [accessors(p, at), invalid(p, at, "Ptr", "invalid"), invalid(p, at, "Default", "default"), equality(p, at),
          order(p, at, "Ord", "cmp"), order(p, at, "PartialOrd", "partial_cmp"), hashing(p, at), cloning(p, at), recasting(p, at)]
    if ser:
        rs.append(stored(p, at))
    return both(*rs)


def probe(config, tool):
    """Exports a client crate that declares a pointer type by every arm."""
    os.makedirs(extract.WORK, exist_ok=True)
    out = tempfile.mkdtemp(prefix="p", dir=extract.WORK)
    try:
        os.makedirs(os.path.join(out, "src"))
        dep = os.path.join(extract.REPO, "triple_arena")
        with open(os.path.join(out, "Cargo.toml"), "w") as h:
            h.write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[features]\n'
                    'ser = ["triple_arena/serde_support"]\n[dependencies]\n'
                    f'triple_arena = {{ path = "{dep}", default-features = false }}\n')
        lock = os.path.join(extract.REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(out, "Cargo.lock"))
        with open(os.path.join(out, "src", "lib.rs"), "w") as h:
            h.write("#![no_std]\nuse core::num::*;\n")
            for _, text, *_ in ARMS:
                h.write(f"triple_arena::ptr_struct!({text});\n")
            # several in one declaration
            h.write("triple_arena::ptr_struct!(M0; M1);\ntriple_arena::ptr_struct!(M2[NonZeroU8](NonZeroU16); M3[NonZeroU16](NonZeroU8));\n")
        return Program(extract.run(["--features", "ser"] if config == "full" else [], crate="probe",
                                   manifest=os.path.join(out, "Cargo.toml"), tool=tool))
    finally:
        shutil.rmtree(out, ignore_errors=True)


MANY = [("M0", 64, 64), ("M1", 64, 64), ("M2", 8, 16), ("M3", 16, 8)]


def tasks(ctx):
    out = []
    for config, how in CONFIGS:
        prog = ctx.prog(config)
        out += basic_tasks(prog, how)
        path = next((a["path"] for a in prog.surface["adts"] if last(a["path"]) == "PtrNoGen"), None)
        ser = config == "full"

        def nogen(ctx, prog=prog, path=path, ser=ser):
            if path is None:
                return [Finding("G01", "PtrNoGen", "is missing")], 1
            return pointer_rule(Pointer(prog, path, None, 0), ser)
        out.append(Task("pointers", f"PtrNoGen ({how} serialization)", nogen))
        try:
            p = probe(config, ctx.tool)
        except extract.BuildError as e:
            why = next((l for l in str(e).splitlines() if l.startswith("error")), "")
            f = Finding("G01", "ptr_struct", "a documented form of the declaration is not accepted", why)
            out.append(Task("pointers", f"ptr_struct ({how} serialization)", lambda ctx, f=f: ([f], 1)))
            continue
        for name, i, g in [(a[0], a[2], a[3]) for a in ARMS] + MANY:
            out.append(Task("pointers", f"{name} ({how} serialization)",
                            lambda ctx, name=name, i=i, g=g, p=p, ser=ser: pointer_rule(Pointer(p, "probe::" + name, i, g), ser)))
    return out
