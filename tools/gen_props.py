#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from one readable table (kept as the single source)."""
import json, os
B = "triple_arena/src/"
AR, AI, NZ = B + "arena/base_arena.rs", B + "arena/arena_iterators.rs", B + "arena/nonzero_inx_vec.rs"
CA, CI = B + "chain/chain_arena.rs", B + "chain/chain_iterators.rs"
CN, CNI = B + "chain/chain_no_gen_arena.rs", B + "chain/chain_no_gen_iterators.rs"
SA, SI = B + "surject/surject_arena.rs", B + "surject/surject_iterators.rs"
OA, OF, OI, OR, OIT = (B + "ord/" + x for x in ("ord_arena.rs", "find.rs", "insert.rs", "remove.rs", "ord_iterators.rs"))
PT, PS, AT, SD = (B + "traits/" + x for x in ("ptr.rs", "ptr_serde.rs", "arena_trait.rs", "serde.rs"))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

prop("A01", "A pointer reaches an entry only while that exact entry is live",
     "Every operation of the arenas that takes a generation-carrying pointer reads, changes, removes or hands out an entry only if the pointer's slot is allocated and the slot's generation equals the pointer's generation. For any other pointer the operation reports its documented failure (None, false, Err, nothing yielded, or a panic for indexing). This holds for single, pairwise, neighbour and iteration-start lookups of all five arena types.",
     ["inputs", "histories"], "every public operation of Arena, ChainArena, ChainNoGenArena, SurjectArena and OrdArena that takes a pointer; every pointer value, stale or not; every reachable arena state",
     "the stale-generation arms of most operations are never executed by the test suite, which only ever reuses a pointer after the slot is empty",
     [AR, CA, CN, SA, OA, OIT], [("generation comparison in slot lookup", AR), ("neighbour test", CA), ("ordered iteration start", OIT)],
     [("slot generation", "generation stored with an allocated slot", AR)])
prop("A02", "A live pointer is never refused",
     "A lookup, change, removal or replacement given only live pointers succeeds; it fails only when a pointer is not live or for the further reason its documentation names (such as two equal pointers for a pairwise borrow, or chain neighbours that are not adjacent).",
     ["inputs", "histories"], "every public operation that takes a pointer and can report failure; every live pointer",
     "a refusal that depends on an unusual combination (second pointer only, slot position, cyclic single link) is not in the sampled histories",
     [AR, CA, CN, SA, OA], [("generation comparison in slot lookup", AR)])
prop("A03", "A failed operation changes nothing and gives its arguments back",
     "When an operation on an arena returns None, false or Err, the arena is exactly as before the call: same entries, generations, length, capacity and links. Values passed in by the caller are returned inside the Err, never dropped or kept.",
     ["inputs", "histories"], "every public operation that can report failure, on every failing input",
     "failing calls are rarely made by the tests, and when made only the return value is looked at",
     [AR, CA, CN, SA, OA], [("failure returns of replace, swap, insert, connect, union", AR)])
prop("A04", "A retired pointer never becomes live again",
     "Every operation that removes, invalidates, regenerates or relocates entries advances the arena's generation counter, and every entry that is newly stored or regenerated carries the counter's current value. A pointer that has stopped being live therefore never matches any entry again, and pointers to entries the operation did not affect stay live with an unchanged generation.",
     ["histories"], "every operation sequence; every pointer ever handed out",
     "needs a stale pointer to meet a reused slot after one particular operation",
     [AR, AI, CA, CN], [("generation increment on invalidation", AR), ("drain", AI)],
     [("generation counter", "number of invalidations so far, from 2", AR)])
prop("A05", "Length, free list and slots always agree",
     "Whenever a slot is filled the arena's length grows by one and the slot leaves the free list; whenever a slot is vacated the length shrinks by one and the slot joins the free list. The free list links exactly the vacant slots once and ends at a slot that names itself, and it is empty exactly when every slot is filled.",
     ["histories"], "every operation of the basic arena and every operation built on it, on every path through it",
     "an unbalanced path needs a specific fill level or an early-dropped iterator",
     [AR, AI, SD], [("slot vacate and refill", AR)],
     [("free list root", "first vacant slot or none", AR), ("length", "number of filled slots", AR)])
prop("A06", "An insertion returns the pointer of exactly what it stored",
     "An insertion stores the given (or created) value in a vacant slot under the arena's current generation and returns the pointer to that slot, and a value-creating closure receives that same pointer. An existing vacant slot is used before the arena grows, growth is limited only by the largest index of the pointer type, and an insertion panics or is refused only when there is no vacant slot left to use.",
     ["inputs", "histories", "configurations"], "every insertion operation of every arena type, at every fill level and every index width",
     "growth limits only show with the smallest index types near their maximum",
     [AR, CA, CN, SA, OI], [("slot allocation", AR), ("capacity growth", AR)])
prop("A07", "An operation touches only the entries it addresses",
     "Lookups hand out the value stored under the pointer, removals return the removed value, replacements return the old value and store the new one, and swaps exchange exactly the two addressed values. No other entry's value, generation or links change except the chain neighbours an edit is documented to relink.",
     ["inputs", "histories"], "every public single- or double-entry operation of every arena type",
     "tests compare the addressed entry, not every other one, and rarely address two special positions at once",
     [AR, CA, CN, SA, OA], [("entry replace and swap", AR)])
prop("C01", "Chain interlinks are always mutual",
     "After every operation on a chain arena, if one link names another as its next link then that other link is live and names the first as its previous link, and the other way round. This includes single-link and two-link cyclic chains and operations given neighbouring, equal or stale pointers.",
     ["inputs", "histories"], "every mutating operation of ChainArena and ChainNoGenArena; every combination of aliasing among the addressed links and their neighbours",
     "the aliasing combinations (self-linked, neighbours of each other, sharing a neighbour, stale second pointer) are too many to sample",
     [CA, CN], [("interlink updates on insert, remove, invalidate, connect, break, exchange", CA)],
     [("interlinks", "previous and next pointers of a link", CA)])
prop("C02", "Chain edits make exactly the documented neighbours",
     "Inserting at a position puts the new link between exactly the named neighbours, removing a link joins its former neighbours, connecting, breaking and exchanging change exactly the named interlinks, and swapping values leaves interlinks alone. All other interlinks stay as they were.",
     ["inputs", "histories"], "every chain editing operation, every position and chain shape",
     "shape-dependent; tests check a handful of shapes through a reference model",
     [CA, CN], [("chain insert, connect, break, exchange", CA)])
prop("S01", "A surjection's value lives exactly as long as its keys",
     "In a SurjectArena each value's recorded key count equals the number of keys that resolve to it after every operation. A value is dropped or returned exactly when its last key is removed or its set is removed or merged away, never earlier or later.",
     ["inputs", "histories"], "every mutating SurjectArena operation",
     "a count that is off by one on one path only shows when that set is later emptied",
     [SA], [("key count bookkeeping", SA)], [("key count", "number of keys of a value", SA)])
prop("S02", "Every key resolves to the value of its own set",
     "After every SurjectArena operation all keys of one set form one cycle and resolve to one value which no other set resolves to; inserting a key joins the set of the given key, and merging moves every key of the absorbed set. Value and key lookups, swaps and replacements address the entry the pointer's key resolves to.",
     ["inputs", "histories"], "every public SurjectArena operation",
     "wrong resolution only shows if key and value slots happen to differ",
     [SA, SI], [("key to value resolution", SA)])
prop("O01", "Ordered search follows comparisons and reports what it found",
     "Every find operation of OrdArena reports an exact match only for an entry whose comparison came out equal, steers to lesser entries on Less and greater entries on Greater, and otherwise reports the last compared entry with that comparison's outcome. The linear variants differ only in where they start, and an empty arena yields None.",
     ["inputs", "histories"], "every find operation, key, start pointer, step budget and arena content",
     "step budgets and direction reversals are sampled only around the match",
     [OF], [("tree and linear search", OF)])
prop("O02", "Ordered insertion goes beside the found entry and keeps the ends of the ordering",
     "An insertion into OrdArena links the new entry directly before or after the entry the search reported, on the side the comparison says, replaces only the value when the comparison is Equal, and the first and last accessors name the ends of the chain afterwards. Equal keys are only duplicated by the nonhereditary insertions.",
     ["inputs", "histories"], "every insertion operation and direction, every arena content",
     "end-of-chain and equal-key cases depend on the tree shape",
     [OI, OA, OR], [("directional insertion", OI)])
prop("K01", "Cloning keeps every pointer valid and every relation intact",
     "Every clone, clone-from and clone-to operation makes the destination hold, under the same pointers, the source's entries (mapped by the given function where there is one) together with all relations among them: generations, chain links, key-to-value resolution and key counts, tree order and its ends. The source's length and generation counter are taken over, and leftover destination capacity stays usable.",
     ["inputs", "histories"], "every clone*, clone_from* and clone_*to* operation; every source and destination state",
     "the mapping variants are not executed by any test",
     [AR, CA, CN, SA, OA], [("structure copying", AR)])
prop("K02", "Compression relocates everything and reports each relocation truthfully",
     "Compressing an arena keeps every value and relation, makes all previous pointers dead, leaves no vacant slots, and calls the caller's function once per entry with its old and its new pointer. The recaster variants map every old pointer to the new pointer of the same entry.",
     ["histories"], "every compress operation on every arena state",
     "dead-pointer and callback guarantees are not asserted by tests for each arena type",
     [AR, CA, CN, SA, OA, AI], [("relocation", AR)])
prop("I01", "Iteration yields every entry once, under its own pointer",
     "Iterators and advancers yield each live entry exactly once, paired with its own pointer and value, and stop at the end; chain, set and ordered iteration follow the links from the start given. Draining removes everything it yields, and dropping a drain early removes the rest.",
     ["histories"], "every iterator and advancer of every arena type",
     "early drop, vacant first or last slots and mid-chain starts are rarely combined",
     [AI, CI, CNI, SI, OIT], [("advancers", AI), ("drain", AI)])
prop("M01", "Safe calls never touch memory outside a live slot",
     "No sequence of safe calls makes the library read, write, borrow or free storage outside the slots currently in use: every raw slot access happens only after its index was found to lie within the current length, two mutable borrows handed out together never coincide, and storage is resized and freed with the layout it was allocated with.",
     ["inputs", "histories"], "every safe entry point that reaches raw storage; every index, length and capacity",
     "an out-of-bounds access usually reads plausible bytes and passes",
     [NZ, AI, CI, OIT], [("bounds checks", NZ), ("allocation", NZ), ("lifetime extension in mutable iterators", AI)])
prop("T01", "Misuse that would break the arenas does not compile",
     "Pointers of different pointer types cannot be used with each other's arenas, chain interlinks and ordered keys cannot be modified through any handed-out reference, and arenas and their iterators are Send or Sync only when their contents are. Borrowed entries cannot outlive or alias a mutation of their arena.",
     ["programs"], "every safe client program",
     "tests are programs that compile",
     [NZ, CA, CN, OA, PT], [("private link fields", CA), ("thread-safety bounds", NZ)])
prop("E01", "Equality, ordering and hashing compare all documented parts",
     "Two arenas or links compare equal exactly when all parts that their documentation says are compared are equal: the comparison is symmetric in its operands, looks at corresponding entries of both, covers trailing entries of the longer operand, and orders lexicographically. Equal links hash equally.",
     ["inputs"], "every equality, ordering and hash implementation; every pair of operands",
     "tests only compare equal arenas",
     [AR, CA, CN, SA, OA], [("comparison implementations", AR)])
prop("F01", "The common arena interface behaves like each arena's own methods",
     "Using any arena through the shared arena trait, its indexing operators, its conversion and collection traits or its default value gives the same result and effect as calling the arena's own corresponding method with the same arguments.",
     ["inputs", "programs"], "every method of the shared traits for every arena type",
     "no test goes through the shared trait",
     [AT, AR, CA, CN, SA, OA], [("trait forwarding", AT)])
prop("R01", "Recasting rewrites every pointer or says which one is unknown",
     "Recasting an arena applies the recaster to every value it stores (and every key of a SurjectArena) and stops with the recaster's error if there is one. A recaster made from an arena maps a pointer only if it is live in that arena, and otherwise returns that pointer as the error.",
     ["inputs"], "every Recast and Recaster implementation",
     "no test recasts an arena",
     [AI, CI, CNI, SI, OIT, PT], [("recast implementations", AI)])
prop("D01", "Deserialization never yields a broken arena",
     "A deserialized arena satisfies all structural guarantees: duplicate indices, broken chain links and inconsistent key sets are rejected with an error, vacant slots are linked into the free list, entries carry the initial generation, and an empty arena round-trips. Serialization writes the parts in the order deserialization reads them and refuses an ordered arena that is not compressed.",
     ["inputs"], "every serialized input, including malformed ones",
     "malformed input is never deserialized by the tests",
     [SD, PS], [("deserialization validation", SD)])
prop("G01", "Pointer types keep their index and generation semantics",
     "For every generated pointer type and index or generation width, a pointer's equality, ordering and hash depend on exactly its index and generation, the invalid pointer has the generation that is never handed out (and the greatest index), arenas start at the generation above it and their increment never wraps silently, and index conversions return what was stored. Builds with and without serialization support agree.",
     ["configurations", "inputs"], "every pointer type the declaration macro can make, with and without the serialization feature",
     "tests use few widths and only one feature set per macro arm",
     [PT, PS], [("pointer declaration macro", PT)])
prop("V01", "Capacity, reservation and clearing do what was asked",
     "Reserving, or making an arena with a capacity, leaves room for at least the asked number of further entries in the asked storage (or panics) and changes no entry, length or generation. Clearing removes every entry and keeps the capacity, clearing with shrinking also releases all capacity, dropping a drain retains the capacity, dropping an arena releases everything, and the length, emptiness and capacity accessors always report exactly what is stored.",
     ["inputs", "histories"], "every arena and the slot vector, every size asked for",
     "a leak or a missing reservation changes no result, because insertions grow the storage when they must",
     [AR, NZ], [("growth and clearing", AR)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
