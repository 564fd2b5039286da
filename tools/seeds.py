"""Descriptions of the planted bugs (see seedtool.py)."""
BASE = "triple_arena/src/arena/base_arena.rs"
AIT = "triple_arena/src/arena/arena_iterators.rs"
CH = "triple_arena/src/chain/chain_arena.rs"
CNG = "triple_arena/src/chain/chain_no_gen_arena.rs"
CIT = "triple_arena/src/chain/chain_iterators.rs"
SJ = "triple_arena/src/surject/surject_arena.rs"
SIT = "triple_arena/src/surject/surject_iterators.rs"
OA = "triple_arena/src/ord/ord_arena.rs"
OIN = "triple_arena/src/ord/insert.rs"
ORM = "triple_arena/src/ord/remove.rs"
OIT = "triple_arena/src/ord/ord_iterators.rs"
VEC = "triple_arena/src/arena/nonzero_inx_vec.rs"
AT = "triple_arena/src/traits/arena_trait.rs"
SERDE = "triple_arena/src/traits/serde.rs"
PTRS = "triple_arena/src/traits/ptr_serde.rs"
PTR = "triple_arena/src/traits/ptr.rs"
OFI = "triple_arena/src/ord/find.rs"
CNIT = "triple_arena/src/chain/chain_no_gen_iterators.rs"

SEEDS = [
    dict(id="swap_same_slot", property="A01",
         edits=[(BASE, """        if p0.inx() == p1.inx() {
            if self.contains(p0) && self.contains(p1) {""", """        if p0.inx() == p1.inx() {
            if self.contains(p0) || self.contains(p1) {""")],
         needs="a live and a stale pointer to the same slot, passed together to swap",
         breaks="Arena::swap accepts a retired pointer as long as the other pointer of the pair is live in the same slot",
         demo="""use triple_arena::{ptr_struct, Arena};
ptr_struct!(P0);
fn main() {
    let mut a: Arena<P0, u32> = Arena::new();
    let p = a.insert(1);
    let q = a.invalidate(p).unwrap();
    assert!(a.swap(q, q).is_some());
    assert!(a.swap(p, q).is_none());
    assert!(a.swap(q, p).is_none());
}
"""),
    dict(id="replace_gen_early", property="A03",
         edits=[(BASE, """    pub fn replace_and_update_gen(&mut self, p: P, new: T) -> Result<(T, P), T> {
        match self.m_get(p.inx()) {
            Some(Allocated(generation, _)) => {
                if *generation != p.generation() {
                    return Err(new)
                }
            }
            _ => return Err(new),
        }
        self.inc_gen();
        let new_gen""", """    pub fn replace_and_update_gen(&mut self, p: P, new: T) -> Result<(T, P), T> {
        if !matches!(self.m_get(p.inx()), Some(Allocated(..))) {
            return Err(new)
        }
        self.inc_gen();
        match self.m_get(p.inx()) {
            Some(Allocated(generation, _)) => {
                if *generation != p.generation() {
                    return Err(new)
                }
            }
            _ => return Err(new),
        }
        let new_gen""")],
         needs="replace_and_update_gen on a retired pointer whose slot has been reused",
         breaks="a refused replacement still advances the arena generation",
         demo="""use triple_arena::{ptr_struct, Arena};
ptr_struct!(P0);
fn main() {
    let mut a: Arena<P0, u32> = Arena::new();
    let p = a.insert(1);
    let _ = a.remove(p).unwrap();
    assert_eq!(a.replace_and_update_gen(p, 7), Err(7));
    let _q = a.insert(2);
    let g = a.generation();
    assert_eq!(a.replace_and_update_gen(p, 7), Err(7));
    assert_eq!(a.generation(), g);
}
"""),
    dict(id="drain_drop_clear", property="A05",
         edits=[(AIT, """        if !self.arena.is_empty() {
            self.arena.clear();
        }
        // else normal operation
    }
}

impl<P: Ptr, T> Iterator for Drain<'_, P, T> {""", """        if !self.arena.is_empty() {
            // drop what was not taken
            self.arena.m.clear();
            self.arena.freelist_root = None;
        }
    }
}

impl<P: Ptr, T> Iterator for Drain<'_, P, T> {""")],
         needs="a Drain that is dropped before it is exhausted",
         breaks="after dropping a partly consumed Drain the arena reports entries that are gone",
         demo="""use triple_arena::{ptr_struct, Arena};
ptr_struct!(P0);
fn main() {
    let mut a: Arena<P0, u32> = Arena::new();
    for i in 0..5 {
        a.insert(i);
    }
    {
        let mut d = a.drain();
        let _ = d.next();
    }
    assert_eq!(a.len(), 0);
    assert!(a.is_empty());
    let p = a.insert(9);
    assert_eq!(a.len(), 1);
    assert_eq!(a.get(p), Some(&9));
    Arena::_check_invariants(&a).unwrap();
}
"""),
    dict(id="get2_link_copy", property="A01",
         edits=[(CNG, """                LinkNoGen::new(link0.prev_next(), &mut link0.t),
                LinkNoGen::new(link1.prev_next(), &mut link1.t),
            )""", """                LinkNoGen::new(prev_next, &mut link0.t),
                LinkNoGen::new(prev_next, &mut link1.t),
            )"""), (CNG, """        self.a.get2_mut(p0, p1).map(|(link0, link1)| {
            (
                LinkNoGen""", """        self.a.get2_mut(p0, p1).map(|(link0, link1)| {
            let prev_next = link0.prev_next();
            (
                LinkNoGen""")],
         needs="get2_link_mut on two links of different position and a caller that looks at the second link's neighbours",
         breaks="the second link handed out by ChainNoGenArena::get2_link_mut carries the interlinks of the first",
         demo="""use triple_arena::{ptr_struct, utils::ChainNoGenArena};
ptr_struct!(P0);
fn main() {
    let mut a: ChainNoGenArena<P0, u32> = ChainNoGenArena::new();
    let p = a.insert_new(1);
    let q = a.insert_new(2);
    let r = a.insert_end(q, 3).unwrap();
    {
        let (l0, l1) = a.get2_link_mut(p, q).unwrap();
        assert_eq!(l0.next(), None);
        assert_eq!(l1.next(), Some(triple_arena::Ptr::inx(r)));
    }
}
"""),
    dict(id="get2_link_neighbors", property="A02",
         edits=[(CH, """        self.a.get2_mut(p0, p1).map(|(link0, link1)| {
            (
                Link::new""", """        // the interlinks of neighbors refer to each other
        if self.are_neighbors(p0, p1) {
            return None
        }
        self.a.get2_mut(p0, p1).map(|(link0, link1)| {
            (
                Link::new""")],
         needs="get2_link_mut on two neighboring links",
         breaks="ChainArena::get2_link_mut refuses two different live pointers if the first link is right before the second",
         demo="""use triple_arena::{ptr_struct, ChainArena};
ptr_struct!(P0);
fn main() {
    let mut a: ChainArena<P0, u32> = ChainArena::new();
    let p = a.insert_new(1);
    let q = a.insert_end(p, 2).unwrap();
    assert!(a.get2_link_mut(q, p).is_some());
    assert!(a.get2_link_mut(p, q).is_some());
}
"""),
    dict(id="no_gen_mut_links", property="A07",
         edits=[(CNG, """            .map(|(generation, link)| (generation, LinkNoGen::new(link.prev_next(), &mut link.t)))""",
                 """            .map(|(generation, link)| {
                (
                    generation,
                    LinkNoGen::new((link.prev().or(link.next()), link.next()), &mut link.t),
                )
            })""")],
         needs="get_no_gen_mut of a ChainNoGenArena on the first link of a chain",
         breaks="the returned link claims a predecessor that the entry does not have",
         demo="""use triple_arena::{ptr_struct, utils::ChainNoGenArena, Ptr};
ptr_struct!(P0);
fn main() {
    let mut a: ChainNoGenArena<P0, u32> = ChainNoGenArena::new();
    let p = a.insert_new(1);
    let q = a.insert_end(p, 2).unwrap();
    let (_, link) = a.get_no_gen_mut(p.inx()).unwrap();
    assert!(link.prev_next() == (None, Some(q.inx())));
}
"""),
    dict(id="insert_key_stale_count", property="S01",
         edits=[(SJ, """    pub fn insert_key_with<F: FnOnce(P) -> K>(&mut self, p: P, create_k: F) -> Option<P> {
        let p_val = match self.keys.get(p) {
            None => return None,
            Some(key) => key.p_val,
        };""", """    pub fn insert_key_with<F: FnOnce(P) -> K>(&mut self, p: P, create_k: F) -> Option<P> {
        let p_val = match self.keys.get_no_gen(p.inx()) {
            None => return None,
            Some((_, link)) => link.t.p_val,
        };"""), (SJ, """        if let Some(p) = self.keys.insert_with((Some(p.inx()), None), |p_link| Key {
            k: create_k(p_link),
            p_val,
        }) {
            Some(p)
        } else {
            unreachable!()
        }""", """        if !self.keys.contains(p) {
            return None
        }
        self.keys.insert_with((Some(p.inx()), None), |p_link| Key {
            k: create_k(p_link),
            p_val,
        })""")],
         needs="insert_key_with on a retired pointer whose slot holds another key",
         breaks="the refused insertion is counted, so the value outlives its last key",
         demo="""use triple_arena::{ptr_struct, SurjectArena};
ptr_struct!(P0);
fn main() {
    let mut a: SurjectArena<P0, u32, u32> = SurjectArena::new();
    let p = a.insert(1, 1);
    let q = a.invalidate(p).unwrap();
    assert!(a.insert_key_with(p, |_| 2).is_none());
    assert_eq!(a.len_key_set(q).unwrap().get(), 1);
    assert_eq!(a.remove_key(q), Some((1, Some(1))));
}
"""),
    dict(id="find_linear_stale", property="O01",
         edits=[(OFI, """        if !self.a.contains(p_init) {
            return self.find_key(k)
        }
        // we settled""", """        match self.a.get_no_gen(p_init.inx()) {
            Some((generation, _)) if generation != p_init.generation() => return None,
            Some(_) => (),
            None => return self.find_key(k),
        }
        // we settled""")],
         needs="find_key_linear starting at a retired pointer whose slot is in use",
         breaks="an existing key is reported as not found",
         demo="""use triple_arena::{ptr_struct, OrdArena};
ptr_struct!(P0);
fn main() {
    let mut a: OrdArena<P0, u32, u32> = OrdArena::new();
    let (p, _) = a.insert(1, 1);
    let q = a.invalidate(p).unwrap();
    assert_eq!(a.find_key_linear(P0::default(), 4, &1), Some(q));
    assert_eq!(a.find_key_linear(p, 4, &1), Some(q));
}
"""),
    dict(id="clone_chain_gen", property="K01",
         edits=[(CNG, """            let next = if let Some(next) = link.next() {
                let (generation, _) = self.a.get_no_gen(next).unwrap();
                Some(Ptr::_from_raw(next, generation))
            } else {
                None
            };
            Link::new((prev, next), map(p, &link.t))""", """            let next = link.next().map(|next| Ptr::_from_raw(next, p.generation()));
            Link::new((prev, next), map(p, &link.t))""")],
         needs="clone_to_chain_arena of a chain whose links were inserted at different generations",
         breaks="the next interlinks of the copy carry the generation of the wrong link",
         demo="""use triple_arena::{ptr_struct, utils::ChainNoGenArena, ChainArena};
ptr_struct!(P0);
fn main() {
    let mut a: ChainNoGenArena<P0, u32> = ChainNoGenArena::new();
    let p = a.insert_new(1);
    let x = a.insert_new(9);
    let _ = a.remove(x);
    let q = a.insert_end(p, 2).unwrap();
    let mut c: ChainArena<P0, u32> = ChainArena::new();
    a.clone_to_chain_arena(&mut c, |_, t| *t);
    assert!(c.are_neighbors(p, q));
}
"""),
    dict(id="vals_mut_links", property="I01",
         edits=[(CIT, """            .map(|link| Link::new(link.prev_next(), &mut link.t))""",
                 """            .map(|link| Link::new((link.next(), link.prev()), &mut link.t))""")],
         needs="vals_mut of a ChainArena, looking at the interlinks",
         breaks="mutable iteration over values yields links whose ends are exchanged",
         demo="""use triple_arena::{ptr_struct, ChainArena};
ptr_struct!(P0);
fn main() {
    let mut a: ChainArena<P0, u32> = ChainArena::new();
    let p = a.insert_new(1);
    let q = a.insert_end(p, 2).unwrap();
    let l: Vec<_> = a.vals_mut().map(|l| l.prev_next()).collect();
    assert_eq!(l, vec![(None, Some(q)), (Some(p), None)]);
}
"""),
    dict(id="clone_reserve_len", property="M01",
         edits=[(VEC, """            let minimum = self.len().wrapping_add(additional);
            let bumped = minimum.next_power_of_two();
            if bumped <= self.capacity() {
                // already have the needed capacity
                return
            }
            bumped""", """            let minimum = self.len().wrapping_add(additional);
            if minimum <= self.capacity() {
                // already have the needed capacity
                return
            }
            // at least double
            max(self.capacity().wrapping_mul(2), additional)""")],
         needs="reserve of more than the capacity on a vector that holds elements",
         breaks="the reported capacity is less than the length and the addition asked for",
         demo="""use triple_arena::utils::NonZeroInxVec;
fn main() {
    let mut v: NonZeroInxVec<u64> = NonZeroInxVec::new();
    v.push(1);
    let n = 3 * v.capacity();
    v.reserve(n);
    assert!(v.capacity() >= v.len() + n);
}
"""),
    dict(id="vec_send", property="T01",
         edits=[(VEC, """unsafe impl<T: Send> Send for NonZeroInxVec<T> {}""", """unsafe impl<T> Send for NonZeroInxVec<T> {}""")],
         needs="an arena of values that must stay on one thread, sent to another thread",
         breaks="arenas of Rc or other thread bound values can be moved between threads in safe code",
         run="""if cargo check --offline --quiet 2>/dev/null; then
  echo "sending an arena of Rc compiles"; exit 1
fi""",
         demo="""use std::rc::Rc;
use triple_arena::{ptr_struct, Arena};
ptr_struct!(P0);
fn main() {
    let mut a: Arena<P0, Rc<u32>> = Arena::new();
    a.insert(Rc::new(1));
    std::thread::spawn(move || drop(a)).join().unwrap();
}
"""),
    dict(id="chain_trait_insert", property="F01",
         edits=[(AT, """    fn remove(&mut self, p: Self::P) -> Option<Self::E> {
        self.remove_key(p).map(|tmp| tmp.0)
    }""", """    fn remove(&mut self, p: Self::P) -> Option<Self::E> {
        let (k, v) = self.remove_key(p)?;
        v.map(|_| k)
    }""")],
         needs="ArenaTrait::remove on one of several keys of a set in a SurjectArena",
         breaks="the common interface reports no removal although the key was removed",
         demo="""use triple_arena::{ptr_struct, ArenaTrait, SurjectArena};
ptr_struct!(P0);
fn main() {
    let mut a: SurjectArena<P0, u32, ()> = SurjectArena::new();
    let p = SurjectArena::insert(&mut a, 1, ());
    let q = a.insert_key(p, 2).unwrap();
    assert_eq!(ArenaTrait::remove(&mut a, q), Some(2));
}
"""),
    dict(id="recaster_index", property="R01",
         edits=[(AIT, """        if let Some(res) = self.get(*item) {
            *item = *res;
            Ok(())""", """        if let Some((_, res)) = self.get_no_gen(item.inx()) {
            *item = *res;
            Ok(())""")],
         needs="recasting a retired pointer whose slot is in use in the recaster",
         breaks="a pointer that is not live in the recaster is mapped instead of being returned as the error",
         demo="""use triple_arena::{ptr_struct, Arena, Recaster};
ptr_struct!(P0);
fn main() {
    let mut a: Arena<P0, P0> = Arena::new();
    let mut p = a.insert(P0::default());
    let _q = a.invalidate(p).unwrap();
    assert!(a.recast_item(&mut p).is_err());
}
"""),
    dict(id="de_interlink_end", property="D01",
         edits=[(CH, """                    if let Some(next) = prev.next() {
                        if p != next {
                            return err
                        }
                    } else {
                        return err
                    }
                } else {""", """                    if let Some(next) = prev.next() {
                        if p != next {
                            return err
                        }
                    }
                } else {""")],
         needs="deserializing a ChainArena in which a link names a predecessor that ends its chain",
         breaks="one-sided interlinks are accepted",
         deps='ron = "*"\n',
         demo="""use triple_arena::{ptr_struct, ChainArena};
ptr_struct!(P0);
fn main() {
    let ok: Result<ChainArena<P0, u32>, _> = ron::from_str("{1:(None,Some(2),7),2:(Some(1),None,8)}");
    assert!(ok.is_ok());
    let bad: Result<ChainArena<P0, u32>, _> = ron::from_str("{1:(None,None,7),2:(Some(1),None,8)}");
    assert!(bad.is_err());
}
"""),
    dict(id="gen_wrap", property="G01",
         edits=[(f, """                    match Self::new(this.get().wrapping_add(1)) {
                        Some(x) => x,
                        None => panic!("generation overflow"),
                    }""", """                    match Self::new(this.get().wrapping_add(1)) {
                        Some(x) => x,
                        None if Self::MAX.get() as u128 > u32::MAX as u128 => Self::two(),
                        None => panic!("generation overflow"),
                    }""") for f in (PTR, PTRS)],
         needs="a generation counter of 64 or more bits at its greatest value",
         breaks="wide generation counters start over instead of panicking",
         demo="""use std::num::NonZeroU64;
use triple_arena::utils::PtrGen;
fn main() {
    let r = std::panic::catch_unwind(|| PtrGen::increment(NonZeroU64::MAX));
    assert!(r.is_err());
}
"""),
    dict(id="link_order_prev", property="E01",
         edits=[(CH, """        match self.prev_next.partial_cmp(&other.prev_next) {
            Some(core::cmp::Ordering::Equal) => {}""", """        match self.prev().partial_cmp(&other.prev()) {
            Some(core::cmp::Ordering::Equal) => {}""")],
         needs="ordering two links that differ only in their next interlink",
         breaks="links that are not equal are ordered as equal",
         demo="""use triple_arena::{ptr_struct, ChainArena};
ptr_struct!(P0);
fn main() {
    let mut a: ChainArena<P0, u32> = ChainArena::new();
    let p = a.insert_new(1);
    let q = a.insert_new(1);
    a.insert_end(q, 2).unwrap();
    let (x, y) = (a.get_link(p).unwrap(), a.get_link(q).unwrap());
    assert!(x != y);
    assert!(x.cmp(&y) != core::cmp::Ordering::Equal);
}
"""),
    dict(id="drop_empty_leak", property="V01",
         edits=[(VEC, """    fn drop(&mut self) {
        self.clear_and_shrink()
    }""", """    fn drop(&mut self) {
        if !self.is_empty() {
            self.clear_and_shrink()
        }
    }""")],
         needs="dropping a slot vector that has capacity but no elements",
         breaks="its memory is never released",
         demo="""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
use triple_arena::utils::NonZeroInxVec;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let before = LIVE.load(Ordering::SeqCst);
    let mut v: NonZeroInxVec<u64> = NonZeroInxVec::new();
    v.push(1);
    v.pop();
    drop(v);
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
"""),
    dict(id="surject_capacity_vals", property="V01",
         edits=[(SJ, """        res.reserve_vals(capacity_vals);""", """        // there are never more values than keys
        res.reserve_vals(core::cmp::min(capacity_keys, capacity_vals));""")],
         needs="SurjectArena::with_capacity with a greater capacity for values than for keys",
         breaks="the arena has less capacity for values than it was made for",
         demo="""use triple_arena::{ptr_struct, SurjectArena};
ptr_struct!(P0);
fn main() {
    let a: SurjectArena<P0, u32, u32> = SurjectArena::with_capacity(2, 9);
    assert!(a.capacity_keys() >= 2);
    assert!(a.capacity_vals() >= 9);
}
"""),
]
