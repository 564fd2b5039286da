"""What client programs can do with the crate (T01), judged on the exported
signatures, bounds, fields and hand-written auto trait impls."""
from layout import last
from driver import Finding, Task
from interp import Limit

FNS = ("Fn", "FnMut", "FnOnce", "AsyncFn", "AsyncFnMut", "AsyncFnOnce")
AUTO = ("Send", "Sync")


class Surface:
    def __init__(self, prog, L):
        self.s = prog.surface
        self.adts = {a["path"]: a for a in self.s["adts"]}
        self.kinds = L.kinds
        self.crate = "triple_arena::"
        self._mut = {}

    def own(self, t):
        return t["k"] == "adt" and t["path"] in self.adts

    def is_ptr_adt(self, t):
        return t["k"] == "adt" and last(t["path"]) == "PtrNoGen"

    def subst(self, t, ts, rs):
        k = t["k"]
        if k == "param":
            return ts.get(t["n"], t)
        o = dict(t)
        if "to" in t:
            o["to"] = self.subst(t["to"], ts, rs)
        if "args" in t:
            o["args"] = [self.subst(a, ts, rs) for a in t["args"]]
        if "rs" in t:
            o["rs"] = [rs.get(r, r) for r in t["rs"]]
        if "r" in t:
            o["r"] = rs.get(t["r"], t["r"])
        return o

    def fields(self, t, pub=False):
        a = self.adts[t["path"]]
        ts = dict(zip(a["ts"], t["args"]))
        rs = dict(zip(a["rs"], t["rs"]))
        return [self.subst(f["ty"], ts, rs) for f in a["fields"] if f["pub"] or not pub]

    def deep(self, t, seen=None):
        """All types inside `t`, through the fields of the crate's own types."""
        seen = set() if seen is None else seen
        key = repr_ty(t)
        if key in seen:
            return
        seen.add(key)
        yield t
        if "to" in t:
            yield from self.deep(t["to"], seen)
        for a in t.get("args", ()):
            yield from self.deep(a, seen)
        if self.own(t):
            for f in self.fields(t):
                yield from self.deep(f, seen)

    def visible(self, t):
        """Types a client gets hold of together with a `t`."""
        yield t
        if t["k"] in ("ref", "ptr"):
            yield from self.visible(t["to"])
        elif self.own(t):
            for f in self.fields(t, pub=True):
                yield from self.visible(f)
        elif t["k"] in ("adt", "tuple", "slice", "alias"):
            for a in t.get("args", ()):
                yield from self.visible(a)

    def regions(self, t, out=None):
        """{region: whether it borrows mutably} of the borrows in `t`."""
        out = {} if out is None else out

        def put(r, m):
            out[r] = out.get(r, False) or m
        if t["k"] == "ref":
            put(t["r"], t["mut"])
            self.regions(t["to"], out)
        elif t["k"] == "adt":
            ms = self.mut_params(t["path"], len(t["rs"]))
            for r, m in zip(t["rs"], ms):
                put(r, m)
        for a in t.get("args", ()):
            self.regions(a, out)
        return out

    def mut_params(self, path, n):
        if path not in self.adts:
            return [False] * n
        if path not in self._mut:
            self._mut[path] = [False] * n
            a = self.adts[path]
            got = {}
            for f in a["fields"]:
                self.regions(f["ty"], got)
            self._mut[path] = [got.get(r, False) for r in a["rs"]]
        return self._mut[path]

    def ptr_params(self, f):
        return {p["of"]["n"] for p in f["preds"] if p["of"]["k"] == "param" and last(p["trait"]) == "Ptr"}

    def handed(self, f):
        """Types handed to the client: the result and what closures are given."""
        yield "returns", f["output"]
        for p in f["preds"]:
            if last(p["trait"]) in FNS:
                for a in p["args"]:
                    yield "passes to a closure", a


def repr_ty(t):
    k = t["k"]
    if k == "param":
        return t["n"]
    return (k, t.get("path"), t.get("mut"), t["s"] if k in ("other", "alias") else None,
            repr_ty(t["to"]) if "to" in t else None, tuple(repr_ty(a) for a in t.get("args", ())))


def params_in(sf, t, deep=True):
    return {x["n"] for x in (sf.deep(t) if deep else sf.visible(t)) if x["k"] == "param"}


def rule_mutability(sf, f, out):
    """No mutable access to interlinks, internal storage or ordered keys."""
    n = 0
    ptrs = sf.ptr_params(f)
    keys = set()
    for i in f["inputs"]:
        for x in sf.deep(i):
            if x["k"] == "adt" and sf.kinds.get(x["path"]) == "OrdArena" and x["args"][1]["k"] == "param":
                keys.add(x["args"][1]["n"])
    given = {repr_ty(i["to"]) for i in f["inputs"] if i["k"] == "ref" and i["mut"]}
    for how, t in sf.handed(f):
        for x in sf.visible(t):
            if not (x["k"] in ("ref", "ptr") and x["mut"]):
                continue
            n += 1
            to = x["to"]
            if repr_ty(to) in given:
                continue
            inner = list(sf.deep(to))
            if any(sf.own(y) and not sf.is_ptr_adt(y) for y in inner):
                out.append(Finding("T01", f["path"], f"{how} a mutable reference to internal storage"))
            elif any(y["k"] == "param" and y["n"] in ptrs or sf.is_ptr_adt(y) for y in inner):
                out.append(Finding("T01", f["path"], f"{how} a mutable reference to a stored pointer"))
            elif any(y["k"] == "param" and y["n"] in keys for y in inner):
                out.append(Finding("T01", f["path"], f"{how} a mutable reference to an ordered key"))
    return n


def rule_lifetimes(sf, f, out):
    """What is handed out borrows from an argument, mutably only if that does."""
    have = {}
    for i in f["inputs"]:
        for r, m in sf.regions(i).items():
            have[r] = have.get(r, False) or m
    got = sf.regions(f["output"])
    for r, m in got.items():
        if r == "'static":
            if any(x["k"] == "ref" and x["r"] == r and params_in(sf, x["to"]) for x in sf.visible(f["output"])):
                out.append(Finding("T01", f["path"], "result borrows arena content forever"))
        elif r not in have:
            out.append(Finding("T01", f["path"], "result has a lifetime that no argument bounds"))
        elif m and not have[r]:
            out.append(Finding("T01", f["path"], "result borrows mutably from a shared borrow"))
    return len(got)


def rule_pointers(sf, f, out):
    """Pointer arguments are of the pointer type of an arena argument."""
    ptrs = sf.ptr_params(f)
    arenas = []
    for i in f["inputs"]:
        t = i
        while t["k"] == "ref":
            t = t["to"]
        if t["k"] == "adt":
            arenas += [x for x in sf.deep(t) if x["k"] == "adt" and x["path"] in sf.kinds]
    if not arenas:
        return 0
    own = {x["n"] for a in arenas for x in [a["args"][0]] if x["k"] == "param"}
    own |= {x["n"] for a in arenas for x in a["args"][0].get("args", ()) if x["k"] == "param"}
    n = 0
    for i in f["inputs"]:
        for x in sf.visible(i):
            if x["k"] != "param":
                continue
            n += 1
            if x["n"] in ptrs and x["n"] not in own:
                out.append(Finding("T01", f["path"], "takes pointers of another type than its arena's"))
    return n


def rule_signature(sf, f):
    out = []
    n = rule_mutability(sf, f, out) + rule_lifetimes(sf, f, out) + rule_pointers(sf, f, out)
    return dedup(out), n


def dedup(fs):
    seen = {}
    for f in fs:
        seen.setdefault(f.key(), f)
    return list(seen.values())


def rule_adt(sf, a):
    """Storage is not reachable through public fields."""
    out = []
    n = 0
    for f in a["fields"]:
        n += 1
        if f["pub"] and any(sf.own(x) and not sf.is_ptr_adt(x) for x in sf.deep(f["ty"])):
            out.append(Finding("T01", a["path"], f"field `{f['name']}` exposes internal storage"))
    return dedup(out), n


def rule_auto(sf, i):
    """A hand-written Send or Sync asks the same of every parameter."""
    name = last(i["trait"])
    if i["neg"]:
        return [], 1
    out = []
    ok = {p["of"]["n"] for p in i["preds"] if p["of"]["k"] == "param" and last(p["trait"]) == name}
    used = set()
    t = i["self"]
    if sf.own(t):
        for f in sf.fields(t):
            used |= params_in(sf, f)
    used |= params_in(sf, t)
    for u in sorted(used - ok):
        out.append(Finding("T01", f"{name} for {last(t.get('path', t['s']))}", f"is {name} although `{u}` need not be"))
    return out, len(used)


def rule_conversion(sf, i):
    """No impl turns one pointer type into, or compares it with, another."""
    ptrs = {p["of"]["n"] for p in i["preds"] if p["of"]["k"] == "param" and last(p["trait"]) == "Ptr"}

    def kind(t):
        while t["k"] == "ref":
            t = t["to"]
        if t["k"] == "param" and t["n"] in ptrs:
            return t["n"]
        if sf.is_ptr_adt(t):
            return ("ng", repr_ty(t))
        return None
    a = kind(i["self"])
    if a is None:
        return [], 0
    if any(kind(x) not in (None, a) for x in i["args"]):
        return [Finding("T01", f"{last(i['trait'])} for {i['self']['s']}", "mixes pointer types")], 1
    return [], 1


def tasks(ctx):
    out = []
    for cfg in ("client", "bare"):
        def make(name, where, rule, x, cfg=cfg):
            def run(ctx):
                return rule(Surface(ctx.prog(cfg), ctx.layout(cfg)), x)
            return Task(name, where, run)
        sf = Surface(ctx.prog(cfg), ctx.layout(cfg))
        for f in sf.s["fns"]:
            if f["pub"] and not f["unsafe"]:
                out.append(make("signatures", f"{cfg}: {f['path']}", rule_signature, f))
        for a in sf.s["adts"]:
            if a["pub"]:
                out.append(make("fields", f"{cfg}: {a['path']}", rule_adt, a))
        for i in sf.s["impls"]:
            if i["auto"] and last(i["trait"]) in AUTO:
                out.append(make("thread safety", f"{cfg}: {i['trait']} for {i['self']['s']}", rule_auto, i))
            else:
                out.append(make("conversions", f"{cfg}: {i['trait']} for {i['self']['s']}", rule_conversion, i))
    return out
