"""Which rules decide which property, over which functions."""
from driver import Task
from layout import last
from subject import Subject
from interp import Limit
import rules_core as core
import rules_chain as chain
import rules_surject as surject
import rules_forward as forward
import rules_iter as iters
import rules_bulk as bulk
import rules_compress as compress
import rules_cmp as compare
import rules_mem as mem
import rules_recast as recast
import rules_ord as order
import rules_serde as serde
import rules_ptr as ptr
import rules_room as room
import rules_surface as surface
import witness

BASE = ("reserve",)
HOLD = ("reserve", "clear")
OVER = ("reserve", "clear", "insert", "insert_with")


def contracts_for(kind):
    return BASE if kind == "Arena" else OVER if kind else HOLD


def api(f):
    return f["pub"] or bool(f.get("trait"))


def methods(ctx, pick):
    """Subjects (not yet analysed) for every function on an arena."""
    prog, L = ctx.prog(), ctx.layout()
    for f in prog.fns:
        if f["key"] is None or not api(f):
            continue
        s = Subject(prog, L, f, ())
        if not s.by.get(1) or f["name"] == "_check_invariants":
            continue
        if pick(s):
            yield f, s


def subject_task(name, rule, f, contracts):
    def run(ctx):
        s = Subject(ctx.prog(), ctx.layout(), f, contracts)
        if too_big(s):
            raise Limit("path budget (not attempted)")
        s.tree_mode()
        s.run()
        s.checked = 0
        fs = rule(s)
        return fs, s.checked
    return Task(name, f["path"], run)


def too_big(s):
    """Functions known to exceed the path budget under the outcome rules:
    removal from the search tree and compression of linked arenas (the latter
    have rules of their own)."""
    k = s.self_kind()
    if k is None and any(z.role == "nodes" for z in s.subs) and s.name in ("next", "drop"):
        # draining an OrdArena removes entry by entry
        return True
    return k == "OrdArena" and s.name == "remove" or k not in ("Arena", None) and s.name.startswith("compress")


def per_method(name, rule, pick):
    def tasks(ctx):
        return [subject_task(name, rule, f, contracts_for(s.self_kind())) for f, s in methods(ctx, pick)]
    return tasks


def per_function(name, rule, pick, contracts=OVER, run_first=lambda s: True, tree=True, private=False):
    """As per_method, for any function of the crate with a body."""
    def task(f):
        def run(ctx):
            s = Subject(ctx.prog(), ctx.layout(), f, contracts)
            if tree:
                s.tree_mode()
            if run_first(s):
                s.run()
            s.checked = 0
            fs = rule(s)
            return fs, s.checked
        return Task(name, f["path"], run)

    def tasks(ctx):
        prog, L = ctx.prog(), ctx.layout()
        return [task(f) for f in prog.fns if f["key"] is not None and (private or api(f))
                and pick(Subject(prog, L, f, ()))]
    return tasks


def whole(name, rule, pick, contracts=(), run_first=lambda s: True):
    """Rules about complete sweeps, run on the bodies themselves: no abstract tree and no other summaries than given."""
    return per_function(name, rule, pick, contracts=contracts, run_first=run_first, tree=False, private=True)


def only(kind, pick):
    return lambda s: s.self_kind() == kind and pick(s)


def relabel(prop, rule):
    """The same rule, reported for another property."""
    def run(s):
        out = rule(s)
        for f in out:
            f.rule = prop
        return out
    return run


def join(*parts):
    def tasks(ctx):
        out = []
        for p in parts:
            out += p(ctx)
        return out
    return tasks


METHOD = ("path-sensitive abstract interpretation of the MIR exported from the current tree by a "
          "compiler driver (value-number domain with congruence and linear facts, trace partitioning, loop fixpoints, "
          "callees analysed in context or through summaries); ")

TECH = "path-sensitive abstract interpretation of MIR (value-number domain, trace partitioning, loop fixpoints): "
NOTE = ("Decides the rule for every path of every listed function of the current tree, for all generic instantiations at "
        "once. Trusts the exporter, the models of core/alloc primitives and that the receiver is well formed before the "
        "call; functions beyond the path budget are reported as undecided, not as held. ")

NOTE_API = ("Decides the rules for every reachable function, type and impl of the current tree in two feature sets. Trusts "
            "the compiler's type and borrow checker, which enforces the judged signatures; the soundness of the unsafe code "
            "behind them is M01's subject. Witness programs cover the macro-made pointer types. ")

PROPS = {
    "A01": dict(
        technique=TECH + "typestate of pointer arguments", note=NOTE,
        tasks=per_method("granted access", core.rule_access, core.picks_pointer),
        floors={"granted access": (80, 600)},
        explanation=METHOD + "for every public function of the five arenas that takes a pointer, each outcome that grants "
        "access must have established slot-allocated and generation-equal for it, and every reference or datum in the "
        "result must belong to the addressed entry",
    ),
    "A02": dict(
        technique=TECH + "typestate of pointer arguments", note=NOTE,
        tasks=per_method("refusal", core.rule_refusal, core.picks_pointer),
        floors={"refusal": (80, 700)},
        explanation=METHOD + "each refusing outcome (None, Err, false, panic of an index operator) on pointers that are "
        "all live must carry the documented structural reason",
    ),
    "A03": dict(
        technique=TECH + "effect analysis of refusing outcomes", note=NOTE,
        tasks=per_method("failed call", core.rule_failure, core.picks_failure),
        floors={"failed call": (55, 200)},
        explanation=METHOD + "on each refusing outcome every arena inside the receiver is provably the initial one, the "
        "argument is handed back and the caller's closure has not run",
    ),
    "A04": dict(
        technique=TECH + "generation typestate", note=NOTE,
        tasks=join(per_method("generation", core.rule_generation, core.picks_generation),
                   per_method("drain generation", iters.rule_drain_gen, iters.picks_drain)),
        floors={"generation": (110, 900), "drain generation": (3, 9)},
        explanation=METHOD + "on each outcome that frees or re-stamps an entry the arena generation has advanced, new "
        "entries carry the arena's generation, and it is never replaced by an unrelated value; a draining iterator whose "
        "steps do not advance it is created with it advanced",
    ),
    "A05": dict(
        technique=TECH + "free-list and length effect rule", note=NOTE,
        tasks=join(per_method("free list", core.rule_freelist, core.picks_freelist),
                   whole("growth", bulk.rule_growth, bulk.picks_growth),
                   whole("clearing", bulk.rule_clearing, bulk.picks_clearing),
                   per_function("fresh arenas", relabel("A05", ptr.rule_fresh), ptr.picks_fresh, contracts=())),
        floors={"free list": (95, 1600), "growth": (1, 12), "clearing": (2, 4), "fresh arenas": (18, 25)},
        explanation=METHOD + "between loop heads and summarised calls, the length changes by the number of entries "
        "that became live, freed entries are pushed on the free list and taken ones come from its front; the sweeps that fill or "
        "clear whole arenas are judged for an arbitrary slot; new arenas are empty",
    ),
    "A06": dict(
        technique=TECH + "provenance of returned pointers", note=NOTE,
        tasks=per_method("insertion", core.rule_insert, core.picks_insert),
        floors={"insertion": (110, 1200)},
        explanation=METHOD + "each returned pointer denotes a live entry of the final state, the given value (or the "
        "result of the closure, called once with that pointer) is inside that entry",
    ),
}

PROPS.update({
    "A07": dict(
        technique=TECH + "frame and provenance rule", note=NOTE,
        tasks=per_method("frame", chain.rule_frame, chain.picks_frame),
        floors={"frame": (240, 1800)},
        explanation=METHOD + "comparing the arena before and after every outcome: an entry loses its value, status or "
        "generation only if an argument addresses it (or the result points to it), swaps exchange exactly the two "
        "data, replacements store the argument, and every datum, generation, interlink or reference in the result is the "
        "addressed entry's own",
    ),
    "C01": dict(
        technique=TECH + "closure of the interlink relation", note=NOTE,
        tasks=per_method("mutual links", chain.rule_mutual, chain.picks_chain),
        floors={"mutual links": (95, 2000)},
        explanation=METHOD + "for every link an operation changed and for its former neighbours, each interlink in the "
        "final state leads to a live link (of that generation) which names it back; all other links are covered by "
        "the assumption that the interlinks were mutual before the call",
    ),
    "C02": dict(
        technique=TECH + "comparison with the documented link edits", note=NOTE,
        tasks=per_method("neighbours", chain.rule_neighbours, chain.picks_neighbours),
        floors={"neighbours": (62, 340)},
        explanation=METHOD + "the interlinks of all links that changed or were to change are compared with the edit the "
        "method documents (insertion between neighbours, removal joining them, connect, break, exchange; none for all "
        "other methods)",
    ),
    "S01": dict(
        technique=TECH + "counting of keys per value", note=NOTE,
        tasks=per_method("key counts", surject.rule_counts, surject.picks_surject),
        floors={"key counts": (17, 110)},
        explanation=METHOD + "on every outcome each value's key count changes by the number of keys that began or "
        "ceased to resolve to it, a value is removed exactly when that number reaches zero, and merging adds the counts",
    ),
    "S02": dict(
        technique=TECH + "key resolution", note=NOTE,
        tasks=join(per_method("key resolution", surject.rule_resolve, surject.picks_surject),
                   per_method("resolved access", relabel("S02", core.rule_access), only("SurjectArena", core.picks_pointer)),
                   per_method("resolved data", relabel("S02", chain.rule_frame), only("SurjectArena", chain.picks_frame))),
        floors={"key resolution": (16, 80), "resolved access": (20, 160), "resolved data": (46, 400)},
        explanation=METHOD + "keys keep the value they resolve to, new keys resolve to the value of the set they join and "
        "are linked into its cycle, merging rewrites keys only to the kept value, and lookups, swaps and "
        "removals on a key act on the entry its value pointer names",
    ),
})

PROPS.update({
    "F01": dict(
        technique=TECH + "product comparison of trait methods with inherent ones", note=NOTE,
        tasks=join(per_function("forwarding", forward.rule_forward, forward.picks_forward,
                                run_first=lambda s: not (forward.arena_of(s) == "OrdArena" and s.name == "remove")),
                   per_function("collecting", forward.rule_collect, forward.picks_collect, run_first=lambda s: False)),
        floors={"forwarding": (76, 130), "collecting": (2, 8)},
        explanation=METHOD + "each trait method and the inherent method it stands for are analysed from the same "
        "arguments; every pair of outcomes that can happen together must agree on the result, on panicking and on all "
        "effects; collecting inserts each item once and stops only when the iterator does",
    ),
    "I01": dict(
        technique=TECH + "cursor transition rule", note=NOTE,
        tasks=join(per_function("step", iters.rule_step, iters.picks_step, run_first=lambda s: False),
                   per_function("start", iters.rule_start, iters.picks_start),
                   per_function("drop", iters.rule_drop, iters.picks_drop)),
        floors={"step": (30, 120), "start": (54, 60), "drop": (2, 4)},
        explanation=METHOD + "each step of a cursor is compared with the step the kind of cursor takes (next allocated "
        "slot, every slot passed over found vacant; or the interlink in the current direction, turning round once at the "
        "end of a chain), each item with the visited entry's own pointer and data, each constructor with the start "
        "it was given; items yielded by value are gone afterwards and dropping a drain empties the arena",
    ),
})

PROPS.update({
    "K01": dict(
        technique=TECH + "content of an arbitrary slot after a sweep", note=NOTE,
        tasks=join(whole("cloning", bulk.rule_clone, bulk.picks_clone),
                   whole("slot cloning", bulk.rule_vec_clone, bulk.picks_vec_clone)),
        floors={"cloning": (22, 2500), "slot cloning": (1, 3)},
        explanation=METHOD + "for an arbitrary slot of the result, the entry that the sweep left there is compared with the "
        "source's entry in that slot: vacancy, generation, interlinks, tree links and the mapped data (the mapping function "
        "called once, with that entry's own pointer and data), then length, free list root and generation of the whole",
    ),
})

PROPS.update({
    "K02": dict(
        technique=TECH + "mirroring of moved entries", note=NOTE,
        tasks=join(whole("sweep", compress.rule_compress, compress.picks_compress),
                   whole("chains", compress.rule_mirror, compress.picks_mirror,
                         contracts=("reserve", "insert", "insert_with", "remove"), run_first=lambda s: False),
                   whole("ordered", compress.rule_ordered, compress.picks_ordered, contracts=("clear",), run_first=lambda s: False),
                   whole("surject values", compress.rule_values, compress.picks_values, run_first=lambda s: False),
                   whole("recaster", compress.rule_recaster, compress.picks_recaster, run_first=lambda s: False)),
        floors={"sweep": (2, 10), "chains": (5, 200), "ordered": (2, 20), "surject values": (1, 20), "recaster": (5, 5)},
        explanation=METHOD + "an arbitrary slot of a compressed arena is traced to the source entry its writing pass read; "
        "for chains, every stretch between loop heads must copy each entry it takes out of the old storage, tell the "
        "caller's function its old and new pointer, and link the copies as the originals were, with inferred variable "
        "pairs standing for interlinks that are still open; a cursor must pass every slot; recasters are judged on one "
        "arbitrary relocation; the values of SurjectArena on two keys of an arbitrary surject followed by a key of another",
    ),
})

PROPS.update({
    "E01": dict(
        technique=TECH + "lockstep walk over both operands", note=NOTE,
        tasks=join(whole("comparison", compare.rule_compare, compare.picks_compare, run_first=lambda s: False),
                   whole("hashing", compare.rule_hash, compare.picks_hash, run_first=lambda s: False)),
        floors={"comparison": (13, 110), "hashing": (2, 2)},
        explanation=METHOD + "with each advancer step yielding an arbitrary live entry or the end, every pass of a "
        "comparison must take one entry of each arena, go on only if all documented parts are equal, answer by the first "
        "part that differs, and tell an equal arena from a longer one; links compare and hash exactly interlinks and data",
    ),
})

PROPS.update({
    "M01": dict(
        technique=TECH + "ghost heap of live allocations", note=NOTE,
        tasks=join(whole("storage", mem.rule_storage, mem.picks_storage, run_first=lambda s: False),
                   whole("unchecked", mem.rule_unchecked, mem.picks_unchecked, run_first=lambda s: False),
                   per_function("mutable items", relabel("M01", iters.rule_step), mem.picks_mut_items,
                                run_first=lambda s: False)),
        floors={"storage": (12, 28), "unchecked": (1, 4), "mutable items": (6, 20)},
        explanation=METHOD + "the slot vector is analysed as a plain struct over a ghost heap: every raw read, write, "
        "borrow, copy, resize and free must lie provably within the live allocation (borrows and reads within the length), "
        "use its pointer and layout, and leave pointer, capacity and length in step at every return and loop head; two "
        "mutable borrows returned together must be provably apart; mutable iterators, which extend a borrow's lifetime, "
        "must step to another entry each time; unchecked nonzero conversions elsewhere must be provably nonzero",
    ),
})

PROPS.update({
    "R01": dict(
        technique=TECH + "walk contract", note=NOTE,
        tasks=join(whole("recast", recast.rule_recast, recast.picks_recast, run_first=lambda s: False),
                   whole("recaster", recast.rule_mapper, recast.picks_mapper, run_first=lambda s: False)),
        floors={"recast": (7, 16), "recaster": (1, 4)},
        explanation=METHOD + "with each advancer step yielding an arbitrary live entry or the end, every pass must hand "
        "exactly the visited entry's data to the given recaster, stop with its error, and succeed only after every "
        "storage was walked to its end; links recast both interlinks and the data; an arena used as recaster maps exactly "
        "its live pointers to what it holds and otherwise returns the pointer unchanged",
    ),
})

PROPS.update({
    "T01": dict(
        technique="static analysis of the exported API: signatures with lifetimes and bounds, field visibility, auto trait "
        "impls; plus type-checker verdicts on witness programs with accepted twins", note=NOTE_API,
        tasks=join(surface.tasks, witness.tasks),
        floors={"signatures": (480, 820), "fields": (76, 150), "thread safety": (4, 4), "conversions": (24, 24),
                "witnesses": (70, 70)},
        explanation="Every reachable safe function (with and without serialization support) is judged by its signature: "
        "nothing it returns or passes to a closure gives mutable access to interlinks, internal storage, stored pointers or "
        "ordered keys; every lifetime of the result is bounded by an argument and borrows mutably only if that argument "
        "does; pointer arguments are of the pointer type of an arena argument. Public fields expose no storage, "
        "hand-written Send and Sync ask the same of every parameter, and no impl mixes pointer types. Witness programs that "
        "misuse pointers, interlinks, keys, borrows or thread safety must be rejected for that reason while their twins are "
        "accepted; nothing is run",
    ),
})

PROPS.update({
    "O01": dict(
        technique=TECH + "loop passes judged by their comparison", note=NOTE,
        tasks=whole("search", order.rule_find, order.picks_find, run_first=lambda s: False),
        floors={"search": (6, 40)},
        explanation=METHOD + "every pass of a search compares the given key (or asks the closure about) exactly one entry "
        "and goes on at that entry's lesser side after Less and greater side after Greater, starting at the root of a "
        "nonempty arena or at a live given entry; a result is the compared entry with its generation and that comparison's "
        "outcome, given only if it was equal, the side is vacant, or a linear search has reversed; everything else must be "
        "the result of another search for the same key in the same arena",
    ),
})

PROPS.update({
    "O02": dict(
        technique=TECH + "search results as the entries inserted beside", note=NOTE,
        tasks=join(per_function("insertion", order.rule_insert, order.picks_insert, contracts=BASE, run_first=lambda s: False),
                   per_function("rebalancing", order.rule_treeonly, order.picks_treeonly, contracts=BASE,
                                run_first=lambda s: False, private=True),
                   per_function("ends", order.rule_ends, order.picks_ends, contracts=BASE, run_first=lambda s: False),
                   whole("compression", relabel("O02", compress.rule_ordered), compress.picks_ordered,
                         contracts=("clear",), run_first=lambda s: False)),
        floors={"insertion": (6, 300), "rebalancing": (0, 0), "ends": (2, 4), "compression": (2, 4)},
        explanation=METHOD + "each insertion makes one search (which O01 judges) for the given key in the same arena, or "
        "none if that is empty; for every entry and outcome the search may report, the new entry with the given key and "
        "value is linked directly before it after Less and directly after it after Greater (also when the tree makes the "
        "code attach it to the neighbour), an equal entry keeps its key, pointer and links and only its value is replaced "
        "unless the insertion is nonhereditary; `first` and `last` are updated exactly if the new entry has no neighbour on "
        "that side. Rebalancing after an insertion touches nothing but the tree; the accessors give the kept ends with "
        "their generation; compression leaves the ends of the compressed chain. Not judged: the shape of the search tree, and how a removal "
        "updates the ends (it does so by tree invariants this analysis does not have)",
    ),
})

PROPS.update({
    "G01": dict(
        technique=TECH + "machine-width arithmetic and every form of the declaration macro", note=NOTE_API,
        tasks=join(ptr.tasks, per_function("fresh arenas", ptr.rule_fresh, ptr.picks_fresh, contracts=())),
        floors={"fresh arenas": (18, 25), "widths": (70, 80), "pointers": (46, 700)},
        explanation="path-sensitive abstract interpretation of exported MIR with unsigned arithmetic of exact width "
        "(wrapping, truncation and saturation split off their cases), with and without serialization support: the index and generation "
        "arithmetic of every width, `PtrNoGen` for any pointer type, and the types that a generated client crate declares by "
        "every arm of the declaration macro with different widths, attributes and several per declaration. Equality, "
        "ordering and hash depend on exactly index and generation; the accessors return what the pointer was made of, of the "
        "declared types; the invalid and default pointers have generation one and the greatest index; generations are one, "
        "two and the next, and the last one panics; indices that fit convert back; cloning, recasting and serialization keep "
        "the pointer; every way to make a new arena starts it at generation two. Pointers without generation may legitimately reach the greatest index (documented)",
    ),
})

NOFIRST = dict(run_first=lambda s: False)

PROPS.update({
    "D01": dict(
        technique=TECH + "calls of the serialization framework recorded as events", note=NOTE,
        tasks=join(whole("forms", serde.rule_form, serde.picks_form, **NOFIRST),
                   whole("conversions", serde.rule_convert, serde.picks_convert, **NOFIRST),
                   whole("link checks", serde.rule_interlinks, serde.picks_interlinks, **NOFIRST),
                   whole("writers", serde.rule_map, serde.picks_map, **NOFIRST),
                   whole("visitors", serde.rule_visitor, serde.picks_visitor, **NOFIRST),
                   whole("readers", serde.rule_reader, serde.picks_reader, **NOFIRST),
                   whole("key set checks", serde.rule_surjects, serde.picks_surjects, **NOFIRST)),
        floors={"forms": (8, 30), "conversions": (2, 4), "link checks": (4, 40), "writers": (2, 14), "visitors": (2, 40),
                "readers": (2, 2), "key set checks": (2, 45)},
        explanation=METHOD + "calls into the serialization framework are opaque and recorded in order with the values they "
        "are given, their results are arbitrary. What a type writes (which parts, in which order, with which arity and "
        "wrapper) is compared with what its reader takes and where it puts it. Every index and entry of an arena is "
        "written. The visitor refuses a repeated index, fills skipped slots, counts what it stored at the initial "
        "generation, and links the vacant slots into one list that ends in itself. Arenas of links are only accepted after "
        "the link check (whose every acceptance follows a walk over all entries in which both neighbours point back), and "
        "an arena of key sets only after a check whose acceptance follows a walk that counts the keys of each value, one "
        "that compares the stored counts and one that follows each key chain once round. An ordered arena is refused unless "
        "each entry is written at the next index. Not judged: the search tree rebuilt on reading (C02 and O02 judge "
        "what it is made by), and which values the framework itself accepts",
    ),
})

NOT_APPLICABLE = {}

PROPS.update({
    "V01": dict(
        technique=TECH + "sizes of every storage before and after", note=NOTE,
        tasks=join(per_function("sizes", room.rule_room, room.picks_room, contracts=HOLD, run_first=lambda s: False, tree=False),
                   per_function("draining", room.rule_end, room.picks_end, contracts=HOLD, run_first=lambda s: False, tree=False),
                   per_function("made with capacity", room.rule_made, room.picks_made, contracts=BASE,
                                run_first=lambda s: False),
                   whole("growth", relabel("V01", bulk.rule_growth), bulk.picks_growth),
                   whole("clearing", relabel("V01", bulk.rule_clearing), bulk.picks_clearing),
                   whole("slot vector", room.rule_vector, room.picks_vector, run_first=lambda s: False)),
        floors={"sizes": (30, 30), "draining": (2, 2), "made with capacity": (5, 7), "growth": (1, 12), "clearing": (2, 4), "slot vector": (7, 12)},
        explanation=METHOD + "for every arena, reserving leaves length and generation alone and makes the storage its name "
        "says at least as large as its length and the addition asked for, an arena made with a capacity has that much in "
        "each storage, clearing leaves no entry in any storage and keeps the capacity, and clearing with shrinking leaves "
        "none, dropping a draining iterator empties the arena and retains its capacity; the size accessors give "
        "the sizes of the storage they name. Growth and clearing of the base arena are followed "
        "slot by slot. The slot vector is analysed as a plain struct over raw storage: dropping it and clearing with "
        "shrinking empty and release it, shrinking leaves a capacity equal to the length, reserving one of at least length "
        "and addition",
    ),
})
