"""Edits for mutate.py: (id, properties, (file, old, new)...)."""
from seeds import BASE, AIT, CH, CNG, CIT, SJ, SIT, OA, OIN, ORM, OIT, VEC, AT, SERDE
CNIT = "triple_arena/src/chain/chain_no_gen_iterators.rs"
OFI = "triple_arena/src/ord/find.rs"
PTR = "triple_arena/src/traits/ptr.rs"
PTRS = "triple_arena/src/traits/ptr_serde.rs"
SVEC = "triple_arena/src/arena/safe_nonzero_inx_vec.rs"

BUGS = [
    ("i_start2", "I01", (AIT, "inx: NonZeroUsize::new(1).unwrap(),", "inx: NonZeroUsize::new(2).unwrap(),")),
    ("i_step2", "I01", (AIT, "nzusize_unchecked(old_inx.get().wrapping_add(1))", "nzusize_unchecked(old_inx.get().wrapping_add(2))")),
    ("i_gen", "I01", (AIT, "return Some(P::_from_raw(P::Inx::new(old_inx), *g))", "return Some(P::_from_raw(P::Inx::new(old_inx), collection.generation()))")),
    ("i_nextslot", "I01", (AIT, "return Some(P::_from_raw(P::Inx::new(old_inx), *g))", "return Some(P::_from_raw(P::Inx::new(self.inx), *g))")),
    ("i_chain_rev", "I01", (CIT, "                    if let Some(link) = collection.a.get(self.init) {\n                        self.ptr = link.prev();", "                    if let Some(link) = collection.a.get(ptr) {\n                        self.ptr = link.prev();")),
    ("i_chain_noswitch", "I01", (CIT, "                    self.switch = true;\n", "")),
    ("i_chain_cyc", "I01", (CIT, "if next == self.init {", "if next == ptr {")),
    ("i_chain_max", "I01", (CIT, "max_advances: self.len(),", "max_advances: self.len() / 2,")),
    ("i_surj_max", "I01", (SIT, "max_advances: self.len_keys(),", "max_advances: self.len_vals(),")),
    ("i_surj_dead", "I01", (SIT, "            ptr: if self.contains(p_init) {\n                Some(p_init.inx())\n            } else {\n                None\n            },", "            ptr: Some(p_init.inx()),")),
    ("i_ord_start", "I01", (OIT, "ptr: self.first().map(|p| p.inx()),", "ptr: self.last().map(|p| p.inx()),")),
    ("i_ord_from", "I01", (OIT, "            ptr: if self.contains(p_start) {\n                Some(p_start.inx())\n            } else {\n                None\n            },", "            ptr: if self.contains(p_start) {\n                self.first().map(|p| p.inx())\n            } else {\n                None\n            },")),
    ("i_ord_prev", "I01", (OIT, "if let Some(next) = link.next() {", "if let Some(next) = link.prev() {")),
    ("i_ord_stop", "I01", (OIT, "            } else {\n                self.ptr = None;\n                None\n            }", "            } else {\n                None\n            }")),
    ("i_drain_early", "I01", (OIT, "        if !self.arena.is_empty() {\n            self.arena.clear();\n        }", "        if self.arena.len() > 1 {\n            self.arena.clear();\n        }")),
    ("i_drain_keep", "I01", (AIT, "        if !self.arena.is_empty() {\n            self.arena.clear();\n        }", "")),
    ("a4_drain", "A04", (AIT, "        self.inc_gen();\n        let adv = self.advancer();\n        Drain", "        let adv = self.advancer();\n        Drain")),
    ("i_iter_surj_val", "I01", (SIT, "surject_val: self.get_val(p_init),", "surject_val: self.vals.vals().next().map(|v| &v.v),")),
    ("i_cd_order", "I01", (CNIT, ".map(|link| LinkNoGen::new(link.prev_next(), &mut link.t))", ".map(|link| { let pn = link.prev_next(); LinkNoGen::new((pn.1, pn.0), &mut link.t) })")),
    ("g_tail", "A05", (BASE, "                        self.m.push(Free(old_root));", "                        self.m.push(Free(ptrinx_unchecked(target)));let _ = old_root;")),
    ("g_root", "A05", (BASE, "self.freelist_root = Some(ptrinx_unchecked(old_virt_cap.wrapping_add(1)));", "self.freelist_root = Some(ptrinx_unchecked(target));")),
    ("g_range", "A05", (BASE, "..old_virt_cap.wrapping_add(remaining).wrapping_add(1)", "..old_virt_cap.wrapping_add(remaining)")),
    ("cl_next", "A05", (BASE, "ptrinx_unchecked(i.get().wrapping_add(1).min(self.m.len()))", "ptrinx_unchecked(i.get().wrapping_add(2).min(self.m.len()))")),
    ("cl_root", "A05", (BASE, "                self.freelist_root = Some(ptrinx_unchecked(1));\n", "                self.freelist_root = Some(P::Inx::new(last));\n")),
    ("k_leftover", "K01", (BASE, "for i in self.m.len().wrapping_add(2)..old_virt_cap.wrapping_add(1) {", "for i in self.m.len().wrapping_add(1)..old_virt_cap {")),
    ("k_tail", "K01", (BASE, "                    // points to old root\n                    Some(inx) => Free(inx),", "                    Some(_) => Free(ptrinx_unchecked(self.m.len().wrapping_add(1))),")),
    ("k_root", "K01", (BASE, "            } else {\n                self.freelist_root = source.freelist_root;\n            }", "            }")),
    ("k_gen", "K01", (BASE, "                Allocated(generation, u) => Allocated(\n                    *generation,", "                Allocated(generation, u) => Allocated(\n                    self.generation,")),
    ("k_mapgen", "K01", (BASE, "map(P::_from_raw(P::Inx::new(i), *generation), u)", "map(P::_from_raw(P::Inx::new(i), self.generation), u)")),
    ("k_nogen", "K01", (BASE, "        self.generation = source.generation;\n        self.len = source.len;", "        self.len = source.len;")),
    ("k_ord_last", "K01", (OA, "        self.first = source.first;\n        self.last = source.last;", "        self.first = source.first;")),
    ("k_ord_tree", "K01", (OA, "            p_tree0: link.t.p_tree0,\n            p_tree1: link.t.p_tree1,\n            rank: link.t.rank,\n        });\n        self.root = source.root;", "            p_tree0: link.t.p_tree0,\n            p_tree1: link.t.p_tree0,\n            rank: link.t.rank,\n        });\n        self.root = source.root;")),
    ("k_chaingen", "K01", (CNG, "                let (generation, _) = self.a.get_no_gen(next).unwrap();\n                Some(Ptr::_from_raw(next, generation))", "                Some(Ptr::_from_raw(next, self.a.generation()))")),
    ("k_surj_val", "K01", (SJ, "                v,\n                key_count: val.key_count,\n            }\n        });", "                v,\n                key_count: NonZeroUsize::new(1).unwrap(),\n            }\n        });")),
    ("c_gen", "K02", (BASE, "                new_m.push(Allocated(generation, t));", "                new_m.push(Allocated(old_gen, t));")),
    ("c_newptr", "K02", (BASE, "                    Ptr::_from_raw(PtrInx::new(NonZeroUsize::new(j).unwrap()), generation),", "                    Ptr::_from_raw(PtrInx::new(i), generation),"), (BASE, "let mut j = 1;\n        for i in self.m", "let mut j = 1usize;\n        for i in self.m")),
    ("c_root", "K02", (BASE, "        self.m = new_m;\n        self.freelist_root = None;", "        self.m = new_m;")),
    ("c_chain_slcc", "K02", (CH, "Link::new((Some(q), Some(q)), link.t)", "Link::new((None, None), link.t)")),
    ("c_chain_map", "K02", (CH, "                        map(p, &mut new.get_inx_mut_unwrap(q.inx()).t, q);\n                        new.get_inx_mut_unwrap(q_prev.inx()).prev_next.1 = Some(q);", "                        map(p, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q);\n                        new.get_inx_mut_unwrap(q_prev.inx()).prev_next.1 = Some(q);")),
    ("c_chain_close", "K02", (CH, "                        new.get_inx_mut_unwrap(q_init.inx()).prev_next.0 = Some(q);\n", "")),
    ("c_chain_back", "K02", (CH, "                    new.get_inx_mut_unwrap(q_next.inx()).prev_next.0 = Some(q);\n", "                    new.get_inx_mut_unwrap(q_init.inx()).prev_next.0 = Some(q);\n")),
    ("c_chain_backlink", "K02", (CNG, "let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));", "let q = new.insert(LinkNoGen::new((None, Some(q_init.inx())), t));")),
    ("c_acyclic_prev", "K02", (CNG, "                let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));\n                map(p", "                let q = new.insert(LinkNoGen::new((None, None), t));\n                map(p")),
    ("c_acyclic_map", "K02", (CNG, "        map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);\n", "")),
    ("c_ord_last", "K02", (OA, "self.last = P::Inx::new(NonZeroUsize::new(self.a.len()).unwrap());", "self.last = p_first;")),
    ("c_recast_swap", "K02", (OIT, "self.compress_and_shrink_with(|p, _, _, q| *res.get_mut(p).unwrap() = q);", "self.compress_and_shrink_with(|p, _, _, q| *res.get_mut(p).unwrap() = P::_from_raw(q.inx(), p.generation()));")),
    ("c_chain_cap", "K02", (CH, "Arena::<P, Link<P, T>>::with_capacity(self.len());", "Arena::<P, Link<P, T>>::with_capacity(self.capacity());")),
    ("e_trail", "E01", (BASE, "        adv1.advance(other).is_none()\n    }\n}\n\nimpl<P: Ptr, T: Eq> Eq for Arena", "        true\n    }\n}\n\nimpl<P: Ptr, T: Eq> Eq for Arena")),
    ("e_inxonly", "E01", (BASE, "if p0 != p1 {", "if p0.inx() != p1.inx() {")),
    ("e_selfself", "E01", (BASE, "!= other.get_inx_unwrap(p1.inx())", "!= self.get_inx_unwrap(p1.inx())")),
    ("e_sj_val", "E01", (SJ, "                    != other.vals.get_inx_unwrap(key1.t.p_val.inx()).v", "                    != other.vals.get_inx_unwrap(key0.t.p_val.inx()).v")),
    ("e_sj_links", "E01", (SJ, "                if key0.prev_next() != key1.prev_next() {\n                    return false\n                }\n", "")),
    ("e_sj_next", "E01", (SJ, "if key0.prev_next() != key1.prev_next() {", "if key0.next() != key1.next() {")),
    ("e_ord_v", "E01", (OA, "if node0.t.v != node1.t.v {", "if node0.t.v != node0.t.v {")),
    ("e_ord_pord", "E01", (OA, "match node0.t.v.partial_cmp(&node1.t.v) {", "match node1.t.v.partial_cmp(&node0.t.v) {")),
    ("e_ord_less", "E01", (OA, "            Some(Ordering::Equal)\n        } else {\n            Some(Ordering::Less)", "            Some(Ordering::Less)\n        } else {\n            Some(Ordering::Equal)")),
    ("e_ord_greater", "E01", (OA, "return Some(Ordering::Greater)", "return Some(Ordering::Less)")),
    ("e_ord_cmp_v", "E01", (OA, "match node0.t.v.cmp(&node1.t.v) {", "match node0.t.k.cmp(&node1.t.k) {")),
    ("e_link_or", "E01", (CH, "(self.prev_next == other.prev_next) && (self.t == other.t)", "(self.prev_next == other.prev_next) || (self.t == other.t)")),
    ("e_link_prev", "E01", (CNG, "(self.prev_next == other.prev_next) && (self.t == other.t)", "(self.prev_next.0 == other.prev_next.0) && (self.t == other.t)")),
    ("e_link_tfirst", "E01", (CH, "match self.prev_next.partial_cmp(&other.prev_next) {\n            Some(core::cmp::Ordering::Equal) => {}\n            ord => return ord,\n        }\n        self.t.partial_cmp(&other.t)", "match self.t.partial_cmp(&other.t) {\n            Some(core::cmp::Ordering::Equal) => {}\n            ord => return ord,\n        }\n        self.prev_next.partial_cmp(&other.prev_next)")),
    ("e_link_rev", "E01", (CNG, "self.t.partial_cmp(&other.t)", "other.t.partial_cmp(&self.t)")),
    ("e_link_cmp", "E01", (CH, "self.partial_cmp(other).unwrap()", "other.partial_cmp(self).unwrap()")),
    ("e_hash", "E01", (CNG, "        self.prev_next.hash(state);\n", "")),
    ("e_chain_eq", "E01", (CH, "        self.a == other.a\n", "        self.a.len() == other.a.len()\n")),
    ("m_get_cap", "M01", (VEC, "        if inx.get() > self.len() {\n            None\n        } else {\n            // Safety: The first element is 1 so that the `wrapping_offset(-1)` is undone,\n            // we use `inx.get() > self.len()` instead of `inx.get >= self.len()`\n            unsafe { Some(&*", "        if inx.get() > self.capacity() {\n            None\n        } else {\n            // Safety: The first element is 1 so that the `wrapping_offset(-1)` is undone,\n            // we use `inx.get() > self.len()` instead of `inx.get >= self.len()`\n            unsafe { Some(&*")),
    ("m_get2_eq", "M01", (VEC, "(inx0 == inx1) || ", "")),
    ("m_get2_len", "M01", (VEC, " || (inx1.get() > self.len())", " || (inx0.get() > self.len())")),
    ("m_push_gt", "M01", (VEC, "        if self.len() == self.capacity() {", "        if self.len() > self.capacity() {")),
    ("m_push_cap", "M01", (VEC, "            self.set_capacity(new_cap)\n        }\n    }\n\n    /// Clears all", "            self.set_capacity(new_layout.size())\n        }\n    }\n\n    /// Clears all")),
    ("m_realloc_layout", "M01", (VEC, "                let old_layout = self.layout();", "                let old_layout = Layout::array::<T>(self.len()).unwrap();")),
    ("m_realloc_ptr", "M01", (VEC, "let old_ptr = self.allocation_ptr_mut() as *mut u8;", "let old_ptr = self.nonzero_index_ptr_mut() as *mut u8;")),
    ("m_dealloc_len", "M01", (VEC, "alloc::dealloc(self.allocation_ptr() as *mut u8, self.layout());\n                self.set_capacity(0);", "alloc::dealloc(self.allocation_ptr() as *mut u8, Layout::array::<T>(self.len()).unwrap());\n                self.set_capacity(0);")),
    ("m_dealloc_twice", "M01", (VEC, "                self.set_capacity(0);\n", "")),
    ("m_shrink_order", "M01", (VEC, "            alloc::dealloc(self.allocation_ptr() as *mut u8, self.layout());\n            self.set_allocation_ptr(new_ptr);\n            self.set_capacity(new_cap)", "            self.set_capacity(new_cap);\n            alloc::dealloc(self.allocation_ptr() as *mut u8, self.layout());\n            self.set_allocation_ptr(new_ptr)")),
    ("m_shrink_copy", "M01", (VEC, "ptr::copy(self.allocation_ptr(), new_ptr, self.len());", "ptr::copy(self.allocation_ptr(), new_ptr, self.capacity());")),
    ("m_shrink_short", "M01", (VEC, "ptr::copy(self.allocation_ptr(), new_ptr, self.len());", "ptr::copy(self.allocation_ptr(), new_ptr, self.len() - 1);")),
    ("m_pop_keep", "M01", (VEC, "                self.set_len(old_len.wrapping_sub(1));\n", "")),
    ("m_pop_first", "M01", (VEC, "Some(ptr::read(self.nonzero_index_ptr().wrapping_add(old_len)))", "Some(ptr::read(self.allocation_ptr().wrapping_add(old_len)))")),
    ("m_null", "M01", (VEC, "            if new_ptr.is_null() {\n                alloc::handle_alloc_error(new_layout)\n            }\n            self", "            self")),
    ("m_valsmut_stay", "M01", (AIT, "                    self.inx = nzusize_unchecked(old_inx.get().wrapping_add(1));", "                    if matches!(allocation, InternalEntry::Free(_)) { self.inx = nzusize_unchecked(old_inx.get().wrapping_add(1)); }")),
    ("m_clear_last", "M01", (BASE, "let last = nzusize_unchecked(self.m.len());", "let last = nzusize_unchecked(self.m.len().wrapping_sub(1));")),
    ("m_unreach", "M01", (AIT, "if let Some(allocation) = collection.m.get(old_inx) {", "if let Some(allocation) = Some(unsafe { collection.m.get(old_inx).unwrap_unchecked() }) {")),
    ("m_reserve_pow", "M01", (VEC, "            let bumped = minimum.next_power_of_two();", "            let bumped = additional.next_power_of_two();")),
    ("k_vec_first", "K01", (VEC, "            res.push(self.get(i).unwrap().clone());", "            res.push(self.get(NZONE).unwrap().clone());\n            let _ = i;")),
    ("k_vec_len", "K01", (VEC, "        for i in self.nziter() {\n            res.push(self", "        for i in nzusize_iter(NZONE, self.len().saturating_sub(1)) {\n            res.push(self")),
    ("r_gen", "R01", (AIT, "if let Some(res) = self.get(*item) {", "if let Some((_, res)) = self.get_no_gen(item.inx()) {")),
    ("r_errinv", "R01", (AIT, "            Err(*item)\n        }\n    }\n}", "            Err(core::mem::replace(item, P::invalid()))\n        }\n    }\n}")),
    ("r_swallow", "R01", (AIT, "            val.recast(recaster)?;", "            let _ = val.recast(recaster);")),
    ("r_link_pn", "R01", (CIT, "        self.prev_next.recast(recaster)?;\n", "")),
    ("r_link_t", "R01", (CIT, "        self.t.recast(recaster)?;\n        Ok(())", "        let _ = &self.t;\n        Ok(())")),
    ("r_link_next", "R01", (CIT, "self.prev_next.recast(recaster)?;", "self.prev_next.0.recast(recaster)?;")),
    ("r_sj_keys", "R01", (SIT, "        for key in self.keys_mut() {\n            key.recast(recaster)?;\n        }\n", "")),
    ("r_sj_vals", "R01", (SIT, "        for val in self.vals_mut() {\n            val.recast(recaster)?;\n        }\n        Ok(())", "        Ok(())")),
    ("r_sj_break", "R01", (SIT, "            key.recast(recaster)?;", "            if key.recast(recaster).is_err() {\n                break\n            }")),
    ("r_skip", "R01", (CIT, "        for val in self.vals_mut() {\n            val.t.recast(recaster)?;", "        for val in self.vals_mut().skip(1) {\n            val.t.recast(recaster)?;")),
    ("r_ord_first", "R01", (OIT, "            val.recast(recaster)?;\n        }\n        Ok(())", "            return val.recast(recaster)\n        }\n        Ok(())")),
    ("r_ng_cond", "R01", (CNIT, "            val.t.recast(recaster)?;", "            if val.next().is_some() {\n                val.t.recast(recaster)?;\n            }")),
    ("t_send", "T01", (VEC, "unsafe impl<T: Send> Send for", "unsafe impl<T> Send for")),
    ("t_sync", "T01", (VEC, "unsafe impl<T: Sync> Sync for", "unsafe impl<T> Sync for")),
    ("t_sync_send", "T01", (VEC, "unsafe impl<T: Sync> Sync for", "unsafe impl<T: Send> Sync for")),
    ("t_ordkey", "T01", (OA, "pub fn get_mut(&mut self, p: P) -> Option<(&K, &mut V)> {\n        self.a.get_mut(p).map(|t| (&t.k, &mut t.v))", "pub fn get_mut(&mut self, p: P) -> Option<(&mut K, &mut V)> {\n        self.a.get_mut(p).map(|t| (&mut t.k, &mut t.v))"), (AT, "fn get_mut(&mut self, p: Self::P) -> Option<(&K, &mut V)> {\n        self.get_mut(p)", "fn get_mut(&mut self, p: Self::P) -> Option<(&K, &mut V)> {\n        self.get_mut(p).map(|(k, v)| (&*k, v))")),
    ("t_linkmut", "T01", (CH, "pub fn get_inx_mut_unwrap(&mut self, p: P::Inx) -> Link<P, &mut T> {\n        let link = self.a.get_inx_mut_unwrap(p);\n        Link::new(link.prev_next(), &mut link.t)", "pub fn get_inx_mut_unwrap(&mut self, p: P::Inx) -> &mut Link<P, T> {\n        self.a.get_inx_mut_unwrap(p)")),
    ("t_life", "T01", (OIT, "    pub fn vals_mut(&mut self) -> ValsMut<P, K, V> {\n        let adv = self.advancer();\n        ValsMut { arena: self, adv }", "    pub fn vals_mut<'b>(&mut self) -> ValsMut<'b, P, K, V> {\n        let adv = self.advancer();\n        ValsMut { arena: unsafe { &mut *(self as *mut Self) }, adv }")),
    ("t_shared", "T01", (OIT, "    pub fn vals_mut(&mut self) -> ValsMut<P, K, V> {\n        let adv = self.advancer();\n        ValsMut { arena: self, adv }", "    pub fn vals_mut(&self) -> ValsMut<P, K, V> {\n        let adv = self.advancer();\n        #[allow(invalid_reference_casting)]\n        ValsMut { arena: unsafe { &mut *(self as *const Self as *mut Self) }, adv }")),
    ("t_contains", "T01", (BASE, "    pub fn contains(&self, p: P) -> bool {", "    pub fn contains<Q: Ptr<Inx = P::Inx, Gen = P::Gen>>(&self, p: Q) -> bool {")),
    ("o_key_dir", "O01", (OFI, "                Ordering::Less => p = node.p_tree0?,\n                Ordering::Equal => break Some(Ptr::_from_raw(p, generation)),\n                Ordering::Greater => p = node.p_tree1?,", "                Ordering::Less => p = node.p_tree1?,\n                Ordering::Equal => break Some(Ptr::_from_raw(p, generation)),\n                Ordering::Greater => p = node.p_tree0?,")),
    ("o_lin_empty", "O01", (OFI, "        if !self.a.contains(p_init) {\n            return self.find_similar_key(k)\n        }\n        let mut p = p_init.inx();", "        if self.a.is_empty() {\n            return None\n        }\n        let mut p = p_init.inx();")),
    ("o_lin_rev", "O01", (OFI, "                    if direction == Some(true) {\n                        return Some((p_with_gen, Ordering::Less))", "                    if direction == Some(false) {\n                        return Some((p_with_gen, Ordering::Less))")),
    ("o_lin_dir", "O01", (OFI, "                    direction = Some(false);\n                    if let Some(prev) = link.prev() {\n                        p = prev;\n                    } else {\n                        return", "                    direction = Some(true);\n                    if let Some(prev) = link.prev() {\n                        p = prev;\n                    } else {\n                        return")),
    ("o_lin_ord", "O01", (OFI, "                    if direction == Some(false) {\n                        return Some((p_with_gen, Ordering::Greater))", "                    if direction == Some(false) {\n                        return Some((p_with_gen, Ordering::Less))")),
    ("o_lin_end", "O01", (OFI, "                    if let Some(next) = link.next() {\n                        p = next;\n                    } else {\n                        return Some((p_with_gen, Ordering::Greater))", "                    if let Some(next) = link.next() {\n                        p = next;\n                    } else {\n                        return Some((p_with_gen, Ordering::Equal))")),
    ("o_lin_none", "O01", (OFI, "                    if let Some(next) = link.next() {\n                        p = next;\n                    } else {\n                        break", "                    if let Some(next) = link.next() {\n                        p = next;\n                    } else {\n                        return Some(p_init)")),
    ("o_lin_nofall", "O01", (OFI, "                    if direction == Some(false) {\n                        break\n                    }\n                    direction = Some(true);\n                    if let Some(next) = link.next() {", "                    if direction == Some(false) {\n                        return None\n                    }\n                    direction = Some(true);\n                    if let Some(next) = link.next() {")),
    ("o_with_gen", "O01", (OFI, "            let p_with_gen = Ptr::_from_raw(p, generation);\n            match f(p_with_gen, &node.k, &node.v) {\n                Ordering::Less => p = node.p_tree0?,", "            let p_with_gen = Ptr::_from_raw(p, generation);\n            match f(Ptr::_from_raw(self.root, generation), &node.k, &node.v) {\n                Ordering::Less => p = node.p_tree0?,")),
    ("o_with_sim", "O01", (OFI, "                    if let Some(tmp) = node.p_tree1 {\n                        p = tmp;\n                    } else {\n                        return Some((p_with_gen, Ordering::Greater))", "                    if let Some(tmp) = node.p_tree1 {\n                        p = tmp;\n                    } else {\n                        return Some((p_with_gen, Ordering::Less))")),
    ("o_with_empty", "O01", (OFI, "    pub fn find_with<F: FnMut(P, &K, &V) -> Ordering>(&self, mut f: F) -> Option<P> {\n        if self.a.is_empty() {\n            return None\n        }\n", "    pub fn find_with<F: FnMut(P, &K, &V) -> Ordering>(&self, mut f: F) -> Option<P> {\n")),
    ("o_sim_prev", "O01", (OFI, "                    if let Some(p_tree0) = node.p_tree0 {\n                        p = p_tree0;", "                    if let Some(p_tree0) = link.prev() {\n                        p = p_tree0;")),
    ("o_sim_first", "O01", (OFI, "        let mut p = self.root;\n        loop {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {\n                Ordering::Less => {", "        let mut p = self.first;\n        loop {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {\n                Ordering::Less => {")),
    ("o_sim_flip", "O01", (OFI, "            match Ord::cmp(k, &node.k) {\n                Ordering::Less => {\n                    if let Some(p_tree0)", "            match Ord::cmp(&node.k, k) {\n                Ordering::Less => {\n                    if let Some(p_tree0)")),
    ("o_lin_zero", "O01", (OFI, "        for _ in 0..num {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {", "        if num == 0 {\n            return None\n        }\n        for _ in 0..num {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {")),
    ('p_lin_rev', 'O02', (OIN, 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            self.insert_inx_manual_unwrap(p.inx(), direction, k, v)', 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            self.insert_inx_manual_unwrap(p.inx(), direction.reverse(), k, v)')),
    ('p_lin_init', 'O02', (OIN, 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            self.insert_inx_manual_unwrap(p.inx(), direction, k, v)', 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            self.insert_inx_manual_unwrap(p_init.inx(), direction, k, v)')),
    ('p_nl_eq', 'O02', (OIN, 'let (p, mut direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            if direction == Ordering::Equal {\n                direction = Ordering::Less;\n            }', 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();')),
    ('p_nl_eq2', 'O02', (OIN, 'let (p, mut direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            if direction == Ordering::Equal {\n                direction = Ordering::Less;\n            }', 'let (p, mut direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            if direction != Ordering::Equal {\n                direction = Ordering::Less;\n            }')),
    ('p_last', 'O02', (OIN, 'self.last == p {', 'self.last != p {')),
    ('p_first_last', 'O02', (OIN, 'self.first = p_new.inx()\n', 'self.last = p_new.inx()\n')),
    ('p_empty_last', 'O02', (OIN, '            self.last = p_new.inx();\n            self.root', '            self.root')),
    ('p_empty_if', 'O02', (OIN, '    pub fn insert_empty(&mut self, k: K, v: V) -> Option<P> {\n        if self.is_empty() {', '    pub fn insert_empty(&mut self, k: K, v: V) -> Option<P> {\n        if self.len() < 2 {')),
    ('p_eq_key', 'O02', (OIN, 'let old_v = mem::replace(&mut self.a.get_inx_mut_unwrap_t(p).v, v);', 'let n = self.a.get_inx_mut_unwrap_t(p);\n                let k = mem::replace(&mut n.k, k);\n                let old_v = mem::replace(&mut n.v, v);')),
    ('p_eq_new', 'O02', (OIN, 'Some((k, old_v))', 'Some((mem::replace(&mut self.a.get_inx_mut_unwrap_t(p).k, k), old_v))')),
    ('p_eq_gen', 'O02', (OIN, 'Ptr::_from_raw(p, self.a.get_no_gen(p).unwrap().0)', 'Ptr::_from_raw(p, self.a.generation())')),
    ('p_side', 'O02', (OIN, 'if link.t.p_tree0.is_some() {\n                    (link.prev().unwrap(), true)', 'if link.t.p_tree0.is_some() {\n                    (p, true)')),
    ('p_step', 'O02', (OIN, '(link.next().unwrap(), false)', '(link.next().unwrap(), true)')),
    ('p_gen_less', 'O02', (OIN, 'if let Ok(p_new) = self.a.insert((None, Some(p)), new_node)', 'if let Ok(p_new) = self.a.insert((None, self.a.get_inx_unwrap(p).prev().or(Some(p))), new_node)')),
    ('p_rebal', 'O02', (OIN, '        let mut d12 = n2.t.p_tree1 == Some(p1);\n        loop {', '        let mut d12 = n2.t.p_tree1 == Some(p1);\n        if d12 && (n2.t.rank == 7) {\n            self.last = p0;\n        }\n        loop {')),
    ('p_acc', 'O02', (OA, '            let generation = self.a.get_no_gen(self.last).unwrap().0;\n            Some(Ptr::_from_raw(self.last, generation))', '            let generation = self.a.get_no_gen(self.first).unwrap().0;\n            Some(Ptr::_from_raw(self.last, generation))')),
    ('y_inc_sat_n', 'G01', (PTR, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'this.saturating_add(1)')),
    ('y_inc_wrap_n', 'G01', (PTR, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'Self::new(this.get().wrapping_add(1)).unwrap_or(Self::new(2).unwrap())')),
    ('y_inc_u64_n', 'G01', (PTR, 'this.get().wrapping_add(1)', '(this.get() as u64).wrapping_add(1) as _')),
    ('y_two_n', 'G01', (PTR, 'Self::new(2).unwrap()', 'Self::new(1).unwrap()')),
    ('y_get32_n', 'G01', (PTR, 'NonZeroUsize::new(this.get() as usize).unwrap()', 'NonZeroUsize::new(this.get() as u32 as usize).unwrap()')),
    ('y_max_n', 'G01', (PTR, 'NonZeroUsize::new($x::MAX as usize).unwrap()', 'NonZeroUsize::new(($x::MAX >> 1) as usize).unwrap()')),
    ('y_inc_sat_s', 'G01', (PTRS, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'this.saturating_add(1)')),
    ('y_inc_wrap_s', 'G01', (PTRS, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'Self::new(this.get().wrapping_add(1)).unwrap_or(Self::new(2).unwrap())')),
    ('y_inc_u64_s', 'G01', (PTRS, 'this.get().wrapping_add(1)', '(this.get() as u64).wrapping_add(1) as _')),
    ('y_two_s', 'G01', (PTRS, 'Self::new(2).unwrap()', 'Self::new(1).unwrap()')),
    ('y_get32_s', 'G01', (PTRS, 'NonZeroUsize::new(this.get() as usize).unwrap()', 'NonZeroUsize::new(this.get() as u32 as usize).unwrap()')),
    ('y_max_s', 'G01', (PTRS, 'NonZeroUsize::new($x::MAX as usize).unwrap()', 'NonZeroUsize::new(($x::MAX >> 1) as usize).unwrap()')),
    ('y_nogen_arm', 'G01', (PTR, '$struct_name[core::num::NonZeroUsize]($gen_type)', '$struct_name[core::num::NonZeroUsize](core::num::NonZeroU64)')),
    ('y_inx_arm_s', 'G01', (PTRS, '$struct_name[$inx_type](core::num::NonZeroU64)', '$struct_name[core::num::NonZeroUsize](core::num::NonZeroU64)')),
    ('y_invalid_nogen', 'G01', (PTRS, '            _internal_inx: PtrInx::new(\n                core::num::NonZeroUsize::new(core::primitive::usize::MAX).unwrap(),\n            ),', '            _internal_inx: PtrInx::new(core::num::NonZeroUsize::new(1).unwrap()),')),
    ('y_des_gen', 'G01', (PTRS, '<<Self as $crate::Ptr>::Gen as $crate::utils::PtrGen>::two()', '<<Self as $crate::Ptr>::Gen as $crate::utils::PtrGen>::one()')),
    ('y_arena_gen', 'G01', (BASE, 'generation: PtrGen::two(),', 'generation: PtrGen::one(),')),
    ('y_eq_inx_n', 'G01', (PTR, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialEq for $struct_name {\n                fn eq(&self, other: &Self) -> bool {\n                    self._internal_inx == other._internal_inx\n                }\n            }\n')),
    ('y_ord_inx_n', 'G01', (PTR, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::PartialEq,\n                core::cmp::Eq\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialOrd for $struct_name {\n                fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n                    Some(self.cmp(other))\n                }\n            }\n\n            impl core::cmp::Ord for $struct_name {\n                fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n                    self._internal_inx.cmp(&other._internal_inx)\n                }\n            }\n')),
    ('y_eq_inx_s', 'G01', (PTRS, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialEq for $struct_name {\n                fn eq(&self, other: &Self) -> bool {\n                    self._internal_inx == other._internal_inx\n                }\n            }\n')),
    ('y_ord_inx_s', 'G01', (PTRS, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::PartialEq,\n                core::cmp::Eq\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialOrd for $struct_name {\n                fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n                    Some(self.cmp(other))\n                }\n            }\n\n            impl core::cmp::Ord for $struct_name {\n                fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n                    self._internal_inx.cmp(&other._internal_inx)\n                }\n            }\n')),

    ('d_dup', 'D01', (SERDE, """                InternalEntry::Allocated(..) => {
                    return Err(Error::custom(
                        "when deserializing a `triple_arena` arena, encountered duplicate pointer \\
                         index keys",
                    ))
                }""", """                InternalEntry::Allocated(_, old) => {
                    *old = t;
                }""")),
    ('d_dup_skip', 'D01', (SERDE, """                InternalEntry::Allocated(..) => {
                    return Err(Error::custom(
                        "when deserializing a `triple_arena` arena, encountered duplicate pointer \\
                         index keys",
                    ))
                }""", """                InternalEntry::Allocated(..) => {
                    if a.len > 1 {
                        return Err(Error::custom("duplicate pointer index keys"))
                    }
                }""")),
    ('d_len', 'D01', (SERDE, "a.len = len.wrapping_add(1);", "a.len = len.max(i);")),
    ('d_gen', 'D01', (SERDE, "entry.replace_free_with_allocated(PtrGen::two(), t)", "entry.replace_free_with_allocated(PtrGen::one(), t)")),
    ('d_gen_ord', 'D01', (SERDE, "InternalEntry::Allocated(PtrGen::two(), t)", "InternalEntry::Allocated(PtrGen::one(), t)")),
    ('d_free_self', 'D01', (SERDE, "*p = PtrInx::new(i);\n                    last_free = Some(i);", "last_free = Some(i);")),
    ('d_free_link', 'D01', (SERDE, "*p = PtrInx::new(*last_free);\n                    *last_free = i;", "*p = PtrInx::new(*last_free);")),
    ('d_free_old', 'D01', (SERDE, "*p = PtrInx::new(*last_free);\n                    *last_free = i;", "*last_free = i;\n                    *p = PtrInx::new(*last_free);")),
    ('d_free_root', 'D01', (SERDE, "        if let Some(last_free) = last_free {\n            a.freelist_root = Some(PtrInx::new(last_free));\n        } else {\n            a.freelist_root = None;\n        }\n", "        if let Some(last_free) = last_free {\n            a.freelist_root = if last_free.get() == a.m.len() { None } else { Some(PtrInx::new(last_free)) };\n        } else {\n            a.freelist_root = None;\n        }\n")),
    ('d_fill', 'D01', (SERDE, "if i > a.capacity() {", "if i >= a.capacity() {"), (SERDE, "0..(i.wrapping_sub(a.capacity()))", "0..=(i.wrapping_sub(a.capacity()))")),
    ('d_ser_skip', 'D01', (SERDE, "            s.serialize_entry(&p.inx(), t)?;", "            if PtrInx::get(p.inx()).get() <= self.capacity().saturating_sub(1) || self.len() < 9 {\n                s.serialize_entry(&p.inx(), t)?;\n            }")),
    ('d_ser_len', 'D01', (SERDE, "let mut s = serializer.serialize_map(Some(self.len()))?;\n        for (p, t)", "let mut s = serializer.serialize_map(Some(self.capacity()))?;\n        for (p, t)")),
    ('d_link_ser', 'D01', (SERDE, "s.serialize_element(&self.prev())?;\n        s.serialize_element(&self.next())?;", "s.serialize_element(&self.next())?;\n        s.serialize_element(&self.prev())?;")),
    ('d_link_de', 'D01', (SERDE, "Ok(Link::new((prev, next), t))", "Ok(Link::new((next, prev), t))")),
    ('d_linkng_de', 'D01', (SERDE, "Ok(LinkNoGen::new((prev, next), t))", "Ok(LinkNoGen::new((next, prev), t))")),
    ('d_link_none', 'D01', (SERDE, "Ok(Link::new((prev, next), t))", "Ok(Link::new((prev, if prev == next { None } else { next }), t))")),
    ('d_chain_skip', 'D01', (SERDE, "        match ChainArena::from_arena(a) {\n            Ok(res) => Ok(res),\n            Err(e) => Err(Error::custom(e)),\n        }", "        if a.is_empty() {\n            return Ok(ChainArena { a })\n        }\n        let res = ChainArena { a };\n        if res.a.len() == 1 {\n            return Ok(res)\n        }\n        match ChainArena::from_arena(res.a) {\n            Ok(res) => Ok(res),\n            Err(e) => Err(Error::custom(e)),\n        }")),
    ('d_chainng_skip', 'D01', (SERDE, "        match ChainNoGenArena::from_arena(a) {\n            Ok(res) => Ok(res),\n            Err(e) => Err(Error::custom(e)),\n        }", "        let _ = D::Error::custom::<&str>;\n        Ok(ChainNoGenArena { a })")),
    ('d_from_arena', 'D01', (CH, "        let res = Self { a: arena };\n        Self::_check_interlinks(&res)?;\n        Ok(res)", "        let res = Self { a: arena };\n        if res.len() > 1 {\n            Self::_check_interlinks(&res)?;\n        }\n        Ok(res)")),
    ('d_from_arena_ng', 'D01', (CNG, "        let res = Self { a: arena };\n        Self::_check_interlinks(&res)?;\n        Ok(res)", "        let res = Self { a: arena };\n        let _ = Self::_check_interlinks(&res);\n        Ok(res)")),
    ('d_il_prev_none', 'D01', (CH, "                    if let Some(next) = prev.next() {\n                        if p != next {\n                            return err\n                        }\n                    } else {\n                        return err\n                    }", "                    if let Some(next) = prev.next() {\n                        if p != next {\n                            return err\n                        }\n                    }")),
    ('d_il_next_dead', 'D01', (CH, "                    if let Some(prev) = next.prev() {\n                        if p != prev {\n                            return err\n                        }\n                    } else {\n                        return err\n                    }\n                } else {\n                    return err\n                }", "                    if let Some(prev) = next.prev() {\n                        if p != prev {\n                            return err\n                        }\n                    } else {\n                        return err\n                    }\n                }")),
    ('d_il_inx', 'D01', (CH, "if p != prev {\n                            return err", "if p.inx() != prev.inx() {\n                            return err")),
    ('d_il_ng_prev', 'D01', (CNG, "if p.inx() != prev {\n                            return err\n                        }", "if p.inx() == prev && this.a.len() == 1 {\n                            return err\n                        }")),
    ('d_il_ng_dead', 'D01', (CNG, "                        if p.inx() != next {\n                            return err\n                        }\n                    } else {\n                        return err\n                    }\n                } else {\n                    return err\n                }", "                        if p.inx() != next {\n                            return err\n                        }\n                    } else {\n                        return err\n                    }\n                }")),
    ('d_key_ser', 'D01', (SERDE, "s.serialize_element(&self.k)?;\n        s.serialize_element(&self.p_val)?;", "s.serialize_element(&self.p_val)?;\n        s.serialize_element(&self.k)?;")),
    ('d_val_ser', 'D01', (SERDE, "s.serialize_element(&self.v)?;\n        s.serialize_element(&self.key_count)?;", "s.serialize_element(&self.key_count)?;\n        s.serialize_element(&self.v)?;")),
    ('d_tuple', 'D01', (SERDE, "let mut s = serializer.serialize_tuple(2)?;\n        s.serialize_element(&self.keys)?;", "let mut s = serializer.serialize_tuple(3)?;\n        s.serialize_element(&self.keys)?;")),
    ('d_sj_skip', 'D01', (SERDE, "        if let Err(e) = SurjectArena::_check_surjects(&res) {\n            Err(Error::custom(e))\n        } else {\n            Ok(res)\n        }", "        match SurjectArena::_check_surjects(&res) {\n            Err(e) if !res.vals.is_empty() => Err(Error::custom(e)),\n            _ => Ok(res),\n        }")),
    ('d_sj_interlinks', 'D01', (SERDE, "SurjectArena::_check_surjects(&res)", "ChainNoGenArena::_check_interlinks(&res.keys)")),
    ('d_sj_noval', 'D01', (SJ, "                None => return Err(\"key points to nonexistent val\"),", "                None => (),")),
    ('d_sj_count', 'D01', (SJ, "if this.vals.get(p_val).unwrap().key_count.get() != *n {", "if this.vals.get(p_val).unwrap().key_count.get() < *n {")),
    ('d_sj_count2', 'D01', (SJ, "if this.vals.get(p_val).unwrap().key_count.get() != *n {", "if *n != 0 && this.vals.get(p_val).unwrap().key_count.get() != *n {")),
    ('d_sj_pval', 'D01', (SJ, "                    if link.t.p_val != this.keys.get(p).unwrap().p_val {\n                        return Err(\"key chain has keys associated with different values\")\n                    }\n", "")),
    ('d_sj_end', 'D01', (SJ, "                        if c != 0 {\n                            return Err(\"key chain did not have all keys associated with value\")\n                        }\n", "")),
    ('d_sj_end2', 'D01', (SJ, "                        if c != 0 {\n                            return Err(\"key chain did not have", "                        if c > 1 {\n                            return Err(\"key chain did not have")),
    ('d_sj_cyc', 'D01', (SJ, "                        return Err(\"key chain is not cyclic\")", "                        break")),
    ('d_sj_zero', 'D01', (SJ, "if c != 0 {\n                // upon", "if c > 1 {\n                // upon")),
    ('d_ord_next', 'D01', (SERDE, "            if let Some(last) = last {\n                a.get_inx_mut_unwrap(last).prev_next.1 = Some(p);\n            }\n", "")),
    ('d_ord_prev', 'D01', (SERDE, "LinkNoGen::new((last, None), Node {", "LinkNoGen::new((last.filter(|_| i > 2), None), Node {")),
    ('d_ord_len', 'D01', (SERDE, "a.len = a.m.len();", "a.len = i;")),
    ('d_ord_chk', 'D01', (SERDE, "PtrInx::get(last).get().saturating_add(1) != PtrInx::get(p.inx()).get()", "PtrInx::get(last).get() >= PtrInx::get(p.inx()).get()")),
    ('d_ord_chk1', 'D01', (SERDE, "                PtrInx::get(p.inx()).get() != 1\n", "                PtrInx::get(p.inx()).get() == 0\n")),
    ('d_ord_swap', 'D01', (SERDE, "            last = Some(p);\n", "            last = if i == 2 { Some(p) } else { last };\n")),
    ('d_ord_last', 'D01', (SERDE, "            last = Some(p.inx());\n", "            last = last.or(Some(p.inx()));\n")),
    ('d_ord_reb', 'D01', (SERDE, "        if !res.is_empty() {\n            res.raw", "        if res.a.len() > 1 {\n            res.raw")),
    ('d_ord_reb2', 'D01', (SERDE, "        if !res.is_empty() {\n            res.raw_rebalance_assuming_compressed();\n        }", "        res.raw_rebalance_assuming_compressed();")),
    ("v_sj_keys", "V01", (SJ, "res.reserve_keys(capacity_keys);", "")),
    ("v_sj_swapped", "V01", (SJ, "        self.vals.reserve(additional)", "        self.keys.reserve(additional)")),
    ("v_sj_len", "V01", (SJ, "    pub fn len_vals(&self) -> usize {\n        self.vals.len()", "    pub fn len_vals(&self) -> usize {\n        self.keys.len()")),
    ("v_sj_clear", "V01", (SJ, "        self.vals.clear_and_shrink();\n", "        self.vals.clear();\n")),
    ("v_sj_gen", "V01", (SJ, "    pub fn capacity_vals(&self) -> usize {\n        self.vals.capacity()", "    pub fn capacity_vals(&self) -> usize {\n        self.vals.len()")),
    ("v_with_cap", "V01", (CH, "        res.reserve(capacity);\n", "")),
    ("v_drop", "V01", (VEC, "    fn drop(&mut self) {\n        self.clear_and_shrink()", "    fn drop(&mut self) {\n        self.clear()")),
    ("v_drop2", "V01", (VEC, "    fn drop(&mut self) {\n        self.clear_and_shrink()", "    fn drop(&mut self) {\n        if !self.is_empty() {\n            self.clear_and_shrink()\n        }")),
    ("v_fit", "V01", (VEC, "            self.clear_and_shrink();\n            return", "            return")),
    ("v_reserve", "V01", (BASE, "        let remaining = target.wrapping_sub(old_virt_cap);", "        let remaining = target.wrapping_sub(old_real_cap.max(old_virt_cap));")),
    ("v_reserve2", "V01", (BASE, "            .checked_add(additional)\n            .expect(", "            .checked_add(additional / 2)\n            .expect(")),
    ("v_vec_reserve", "V01", (VEC, "            max(minimum, additional)", "            minimum")),
    ("v_vec_reserve2", "V01", (VEC, "let minimum = self.len().wrapping_add(additional);", "let minimum = additional;")),
    ("v_ord_cap", "V01", (OA, "    pub fn capacity(&self) -> usize {\n        self.a.capacity()", "    pub fn capacity(&self) -> usize {\n        self.a.len()")),
    ("v_shrink", "V01", (BASE, "        self.m.clear();\n        self.m.clear_and_shrink();", "        self.m.clear();")),
    ("v_drain", "V01", (OIT, "            self.arena.clear();", "            self.arena.clear_and_shrink();")),
    ("v_drain2", "V01", (AIT, "            self.arena.clear();", "            self.arena.clear_and_shrink();")),
    ('kv_noswap', 'K02', (SJ, '                        self.vals.raw_entry_swap_special(i_unallocated, i);\n', '')),
    ('kv_last', 'K02', (SJ, '                p_val_last = Some(p_val);\n', '                p_val_last = new_p_val.map(|i| Ptr::_from_raw(i, ())).or(Some(p_val));\n')),
    ('kv_stale', 'K02', (SJ, '                if !new_change {\n', '                if !new_change && first_unallocated.is_none() {\n')),
    ('kv_nokey', 'K02', (SJ, '            if let Some(new_p_val) = new_p_val {\n                key.p_val', '            if let (Some(new_p_val), true) = (new_p_val, Some(p_val) != p_val_last) {\n                key.p_val')),
    ('kv_root', 'K02', (SJ, '        self.vals.freelist_root = None;\n        self.vals.m.shrink_to_fit();', '        self.vals.m.shrink_to_fit();')),
    ('kv_pop', 'K02', (SJ, '            if let Some(InternalEntry::Free(_)) = self.vals.m.get(i) {', '            if i.get() > 0 && self.vals.m.get(i).is_some() {')),
    ('kv_pop1', 'K02', (SJ, '        self.vals.freelist_root = None;\n        self.vals.m.shrink_to_fit();', '        self.vals.m.pop();\n        self.vals.freelist_root = None;\n        self.vals.m.shrink_to_fit();')),
    ('kv_map', 'K02', (SJ, '&mut self.vals.get_inx_mut_unwrap(key.p_val.inx()).v,\n                q,', '&mut self.vals.get_inx_mut_unwrap(p_val.inx()).v,\n                q,')),
    ('kv_ptr', 'K02', (SJ, '                p,\n                &mut key.k,\n                &mut self.vals.get_inx', '                q,\n                &mut key.k,\n                &mut self.vals.get_inx')),
    ('kv_less', 'K02', (SJ, '                    if i > i_unallocated {', '                    if i < i_unallocated {')),
    ('kv_next2', 'K02', (SJ, '                            if matches!(\n                                self.vals.m_get(P::Inx::new(j_nz)).unwrap(),\n                                InternalEntry::Free(_)\n                            ) {', '                            if !matches!(\n                                self.vals.m_get(P::Inx::new(j_nz)).unwrap(),\n                                InternalEntry::Free(_)\n                            ) {')),
    ('kv_first', 'K02', (SJ, '            if matches!(\n                self.vals.m_get(P::Inx::new(i)).unwrap(),\n                InternalEntry::Free(_)\n            ) {\n                first', '            if !matches!(\n                self.vals.m_get(P::Inx::new(i)).unwrap(),\n                InternalEntry::Free(_)\n            ) {\n                first')),
    ('kv_len', 'K02', (SJ, '        self.vals.freelist_root = None;\n        self.vals.m.shrink_to_fit();', '        self.vals.freelist_root = None;\n        self.vals.len = self.vals.m.len().wrapping_sub(1);\n        self.vals.m.shrink_to_fit();')),
]

SAME = [
    # the slot was just filled
    ('skv_next', '', (SJ, '                        let mut j = i_unallocated.get().wrapping_add(1);', '                        let mut j = i_unallocated.get();')),
    # a chain with checked interlinks and one value comes back in time
    ('sd_sj_time', '', (SJ, "                    if c == 0 {\n                        return Err(\"did not reach end of key chain in expected time\")\n                    }\n", "")),
    ('skv_bool', '', (SJ, '                let mut new_change = false;\n', '                new_p_val = None;\n'), (SJ, '                        new_change = true;\n', ''), (SJ, '                if !new_change {\n                    // the `p_val` of this new surject we are encountering does not need to be\n                    // changed\n                    new_p_val = None;\n                }\n', '')),
    ('skv_order', '', (SJ, '        self.vals.freelist_root = None;\n        self.vals.m.shrink_to_fit();', '        self.vals.m.shrink_to_fit();\n        self.vals.freelist_root = None;')),
    ('skv_pop', '', (SJ, '            if let Some(InternalEntry::Free(_)) = self.vals.m.get(i) {\n                self.vals.m.pop().unwrap();\n            } else {\n                break\n            }', '            if !matches!(self.vals.m.get(i), Some(InternalEntry::Free(_))) {\n                break\n            }\n            drop(self.vals.m.pop());')),
    ('skv_while', '', (SJ, '                            if j > self.vals.m.len() {\n                                first_unallocated = None;\n                                break\n                            }\n                            let j_nz = NonZeroUsize::new(j).unwrap();\n                            if matches!(\n                                self.vals.m_get(P::Inx::new(j_nz)).unwrap(),\n                                InternalEntry::Free(_)\n                            ) {\n                                first_unallocated = Some(j_nz);\n                                break\n                            }\n                            j = j.wrapping_add(1);', '                            first_unallocated = None;\n                            if j > self.vals.m.len() {\n                                break\n                            }\n                            let j_nz = NonZeroUsize::new(j).unwrap();\n                            if let InternalEntry::Free(_) = self.vals.m_get(P::Inx::new(j_nz)).unwrap() {\n                                first_unallocated = Some(j_nz);\n                                break\n                            }\n                            j += 1;')),
    ('skv_local', '', (SJ, '            map(\n                p,\n                &mut key.k,\n                &mut self.vals.get_inx_mut_unwrap(key.p_val.inx()).v,\n                q,\n            )', '            let inx = key.p_val.inx();\n            let val = &mut self.vals.get_inx_mut_unwrap(inx).v;\n            map(p, &mut key.k, val, q)')),
    ("sv_drain", "", (OIT, "        if !self.arena.is_empty() {\n            self.arena.clear();\n        }", "        if self.arena.is_empty() {\n            return\n        }\n        self.arena.clear();")),
    ("sv_new", "", (BASE, "        self.m.clear();\n        self.m.clear_and_shrink();", "        self.m = NonZeroInxVec::new();")),
    ("sv_new2", "", (BASE, "        self.m.clear();\n        self.m.clear_and_shrink();", "        self.m.clear();\n        self.m = NonZeroInxVec::new();")),
    ("sv_sj_order", "", (SJ, "        self.keys.clear();\n        self.vals.clear();", "        self.vals.clear();\n        self.keys.clear();")),
    ("sv_reserve", "", (BASE, "        if reserve_amt > 0 {\n            self.m.reserve(reserve_amt);\n        }", "        if target > old_real_cap {\n            self.m.reserve(target.wrapping_sub(old_real_cap));\n        }"), (BASE, "        let reserve_amt = if target <= old_real_cap {", "        let _reserve_amt = if target <= old_real_cap {")),
    ("sv_shrink", "", (BASE, "        self.m.clear();\n        self.m.clear_and_shrink();", "        self.m.clear_and_shrink();")),
    ("sv_vec", "", (VEC, "        while self.pop().is_some() {}", "        loop {\n            if self.pop().is_none() {\n                break\n            }\n        }")),
    ("sv_empty", "", (SJ, "    pub fn is_empty(&self) -> bool {\n        self.vals.is_empty()", "    pub fn is_empty(&self) -> bool {\n        self.keys.len() == 0")),
    ("sv_fit", "", (VEC, "        if new_cap == self.capacity() {\n            // Don't do anything\n            return\n        }\n\n        if new_cap == 0 {\n            // this is all we have to do, capacity is set to 0 by this function\n            self.clear_and_shrink();\n            return\n        }", "        if new_cap == 0 {\n            return self.clear_and_shrink()\n        }\n        if self.capacity() == new_cap {\n            return\n        }")),

    ('sd_free_direct', "", (SERDE, """        let mut last_free = None;
        for i in a.m.nziter() {
            if let InternalEntry::Free(p) = a.m_get_mut(PtrInx::new(i)).unwrap() {
                if let Some(ref mut last_free) = last_free {
                    *p = PtrInx::new(*last_free);
                    *last_free = i;
                } else {
                    // points to itself
                    *p = PtrInx::new(i);
                    last_free = Some(i);
                }
            }
        }
        if let Some(last_free) = last_free {
            a.freelist_root = Some(PtrInx::new(last_free));
        } else {
            a.freelist_root = None;
        }
""", """        let mut last_free: Option<P::Inx> = None;
        for i in a.m.nziter() {
            let p = PtrInx::new(i);
            if let InternalEntry::Free(next) = a.m_get_mut(p).unwrap() {
                *next = last_free.unwrap_or(p);
                last_free = Some(p);
            }
        }
        a.freelist_root = last_free;
""")),
    ('sd_free_while', "", (SERDE, """        let mut last_free = None;
        for i in a.m.nziter() {
            if let InternalEntry::Free(p) = a.m_get_mut(PtrInx::new(i)).unwrap() {
                if let Some(ref mut last_free) = last_free {
                    *p = PtrInx::new(*last_free);
                    *last_free = i;
                } else {
                    // points to itself
                    *p = PtrInx::new(i);
                    last_free = Some(i);
                }
            }
        }
        if let Some(last_free) = last_free {
            a.freelist_root = Some(PtrInx::new(last_free));
        } else {
            a.freelist_root = None;
        }
""", """        a.freelist_root = None;
        let n = a.m.len();
        let mut i = 1usize;
        while i <= n {
            let p: P::Inx = PtrInx::new(NonZeroUsize::new(i).unwrap());
            let root = a.freelist_root;
            if let InternalEntry::Free(next) = a.m_get_mut(p).unwrap() {
                *next = if let Some(root) = root { root } else { p };
                a.freelist_root = Some(p);
            }
            i = i.wrapping_add(1);
        }
""")),
    ('sd_push_while', "", (SERDE, """            if i > a.capacity() {
                for _ in 0..(i.wrapping_sub(a.capacity())) {
                    a.m.push(InternalEntry::Free(PtrInx::new(
                        NonZeroUsize::new(1).unwrap(),
                    )))
                }
            }
""", """            while a.m.len() < i {
                a.m.push(InternalEntry::Free(p));
            }
""")),
    ('sd_visit_helper', "", (SERDE, """            let entry = a.m_get_mut(p).unwrap();
            match entry {
                InternalEntry::Free(_) => {
                    entry.replace_free_with_allocated(PtrGen::two(), t).unwrap();
                    let len = a.len;
                    a.len = len.wrapping_add(1);
                }
                InternalEntry::Allocated(..) => {
                    return Err(Error::custom(
                        "when deserializing a `triple_arena` arena, encountered duplicate pointer \\
                         index keys",
                    ))
                }
            }
""", """            if !fill_slot(&mut a, p, t) {
                return Err(Error::custom(
                    "when deserializing a `triple_arena` arena, encountered duplicate pointer \\
                     index keys",
                ))
            }
"""), (SERDE, "struct ArenaVisitor<P: Ptr, T>(", """fn fill_slot<P: Ptr, T>(a: &mut Arena<P, T>, p: P::Inx, t: T) -> bool {
    let entry = a.m_get_mut(p).unwrap();
    if matches!(entry, InternalEntry::Allocated(..)) {
        return false
    }
    *entry = InternalEntry::Allocated(PtrGen::two(), t);
    a.len += 1;
    true
}

struct ArenaVisitor<P: Ptr, T>(""")),
    ('sd_loop_match', "", (SERDE, "while let Some((p, t)) = access.next_entry::<P::Inx, T>()? {", "loop {\n            let (p, t) = match access.next_entry::<P::Inx, T>()? {\n                Some(entry) => entry,\n                None => break,\n            };")),
    ('sd_ord_count', "", (SERDE, """        let mut last = None;
        for (p, k, v) in self {
            let err = if let Some(last) = last {
                PtrInx::get(last).get().saturating_add(1) != PtrInx::get(p.inx()).get()
            } else {
                PtrInx::get(p.inx()).get() != 1
            };
            if err {""", """        let mut expected = 1usize;
        for (p, k, v) in self {
            if PtrInx::get(p.inx()).get() != expected {"""), (SERDE, "            last = Some(p.inx());\n", "            expected = expected.wrapping_add(1);\n")),
    ('sd_ord_map', "", (SERDE, """            let err = if let Some(last) = last {
                PtrInx::get(last).get().saturating_add(1) != PtrInx::get(p.inx()).get()
            } else {
                PtrInx::get(p.inx()).get() != 1
            };
            if err {""", """            let ok = match last {
                Some(last) => PtrInx::get(last).get().checked_add(1) == Some(PtrInx::get(p.inx()).get()),
                None => PtrInx::get(p.inx()).get() == 1,
            };
            if !ok {""")),
    ('sd_ord_first', "", (SERDE, "        if !res.is_empty() {\n            res.raw_rebalance_assuming_compressed();\n        }\n        Ok(res)", "        if last.is_none() {\n            return Ok(res)\n        }\n        res.raw_rebalance_assuming_compressed();\n        Ok(res)")),
    ('sd_chain_map', "", (SERDE, "        match ChainArena::from_arena(a) {\n            Ok(res) => Ok(res),\n            Err(e) => Err(Error::custom(e)),\n        }", "        ChainArena::from_arena(a).map_err(Error::custom)")),
    ('sd_chain_direct', "", (SERDE, "        match ChainNoGenArena::from_arena(a) {\n            Ok(res) => Ok(res),\n            Err(e) => Err(Error::custom(e)),\n        }", "        let res = ChainNoGenArena { a };\n        if let Err(e) = ChainNoGenArena::_check_interlinks(&res) {\n            return Err(Error::custom(e))\n        }\n        Ok(res)")),
    ('sd_sj_q', "", (SERDE, "        if let Err(e) = SurjectArena::_check_surjects(&res) {\n            Err(Error::custom(e))\n        } else {\n            Ok(res)\n        }", "        SurjectArena::_check_surjects(&res).map_err(Error::custom)?;\n        Ok(res)")),
    ('sd_link_locals', "", (SERDE, "        s.serialize_element(&self.prev())?;\n        s.serialize_element(&self.next())?;\n        s.serialize_element(&self.t)?;\n        s.end()", "        let (prev, next) = self.prev_next();\n        s.serialize_element(&prev)?;\n        s.serialize_element(&next)?;\n        s.serialize_element(&self.t)?;\n        s.end()")),
    ('sd_tuple_ser', "", (SERDE, "        let mut s = serializer.serialize_tuple(2)?;\n        s.serialize_element(&self.v)?;\n        s.serialize_element(&self.key_count)?;\n        s.end()", "        (&self.v, &self.key_count).serialize(serializer)")),
    ('sd_il_short', "", (CH, """                if p == prev {
                    // should be a single link cyclic chain
                    if link.next() != Some(p) {
                        return err
                    }
                }
            }
            // there are""", """            }
            // there are""")),
    ('sd_il_match', "", (CH, """                if let Some(prev) = this.a.get(prev) {
                    if let Some(next) = prev.next() {
                        if p != next {
                            return err
                        }
                    } else {
                        return err
                    }
                } else {
                    return err
                }
""", """                match this.a.get(prev) {
                    Some(prev) if prev.next() == Some(p) => (),
                    _ => return err,
                }
""")),
    ('sd_il_adv', "", (CNG, "        for (p, link) in &this.a {\n            // note: we must", "        let mut adv = this.a.advancer();\n        while let Some(p) = adv.advance(&this.a) {\n            let link = this.a.get(p).unwrap();\n            // note: we must")),
    ('sd_sj_for', "", (SJ, "        let mut adv = this.keys.advancer();\n        while let Some(p) = adv.advance(&this.keys) {\n            let mut c", "        for p in this.keys.ptrs() {\n            let mut c")),
    ('sd_sj_local', "", (SJ, "            let mut c = *count.get(this.keys.get(p).unwrap().p_val).unwrap();\n", "            let p_val = this.keys.get(p).unwrap().p_val;\n            let mut c = *count.get(p_val).unwrap();\n"), (SJ, "if link.t.p_val != this.keys.get(p).unwrap().p_val {", "if link.t.p_val != p_val {"), (SJ, "*count.get_mut(this.keys.get(p).unwrap().p_val).unwrap() = 0;", "*count.get_mut(p_val).unwrap() = 0;")),
    ('sd_sj_vals', "", (SJ, "        for (p_val, n) in &count {\n            if this.vals.get(p_val).unwrap().key_count.get() != *n {", "        for (p_val, val) in &this.vals {\n            if *count.get(p_val).unwrap() != val.key_count.get() {")),
    ('sd_sj_iter', "", (SJ, "        for link in this.keys.vals() {\n            match count.get_mut(link.t.p_val) {\n                Some(len) => *len = len.checked_add(1).unwrap(),\n                None => return Err(\"key points to nonexistent val\"),\n            }\n        }", "        for (_, link) in this.keys.iter() {\n            if let Some(len) = count.get_mut(link.t.p_val) {\n                *len += 1;\n            } else {\n                return Err(\"key points to nonexistent val\")\n            }\n        }")),
    ('sd_sj_continue', "", (SJ, "            if c != 0 {\n                // upon", "            if c == 0 {\n                continue\n            }\n            {\n                // upon")),
    ('sd_sj_order', "", (SJ, "                    let (_, link) = this.keys.get_no_gen(tmp).unwrap();\n                    if link.t.p_val != this.keys.get(p).unwrap().p_val {\n                        return Err(\"key chain has keys associated with different values\")\n                    }\n                    if let Some(next) = link.next() {\n                        tmp = next;\n                    } else {\n                        return Err(\"key chain is not cyclic\")\n                    }\n", "                    let (_, link) = this.keys.get_no_gen(tmp).unwrap();\n                    tmp = match link.next() {\n                        Some(next) => next,\n                        None => return Err(\"key chain is not cyclic\"),\n                    };\n                    if link.t.p_val != this.keys.get(p).unwrap().p_val {\n                        return Err(\"key chain has keys associated with different values\")\n                    }\n")),
    ('s_inc_checked_n', '', (PTR, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'this.checked_add(1).expect("generation overflow")')),
    ('s_inc_if_n', '', (PTR, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'if this == Self::MAX {\n                        panic!("generation overflow")\n                    }\n                    Self::new(this.get() + 1).unwrap()')),
    ('s_one_n', '', (PTR, 'Self::new(1).unwrap()', 'Self::MIN')),
    ('s_inc_checked_s', '', (PTRS, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'this.checked_add(1).expect("generation overflow")')),
    ('s_inc_if_s', '', (PTRS, 'match Self::new(this.get().wrapping_add(1)) {\n                        Some(x) => x,\n                        None => panic!("generation overflow"),\n                    }', 'if this == Self::MAX {\n                        panic!("generation overflow")\n                    }\n                    Self::new(this.get() + 1).unwrap()')),
    ('s_one_s', '', (PTRS, 'Self::new(1).unwrap()', 'Self::MIN')),
    ('s_eq_man_n', '', (PTR, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialEq for $struct_name {\n                #[inline]\n                fn eq(&self, other: &Self) -> bool {\n                    (self._internal_gen == other._internal_gen)\n                        && (self._internal_inx == other._internal_inx)\n                }\n            }\n')),
    ('s_ord_man_n', '', (PTR, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::PartialEq,\n                core::cmp::Eq\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialOrd for $struct_name {\n                fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n                    Some(core::cmp::Ord::cmp(self, other))\n                }\n            }\n\n            impl core::cmp::Ord for $struct_name {\n                fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n                    core::cmp::Ord::cmp(&self._internal_inx, &other._internal_inx)\n                        .then_with(|| core::cmp::Ord::cmp(&self._internal_gen, &other._internal_gen))\n                }\n            }\n')),
    ('s_eq_man_s', '', (PTRS, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialEq for $struct_name {\n                #[inline]\n                fn eq(&self, other: &Self) -> bool {\n                    (self._internal_gen == other._internal_gen)\n                        && (self._internal_inx == other._internal_inx)\n                }\n            }\n')),
    ('s_ord_man_s', '', (PTRS, '                core::cmp::PartialEq,\n                core::cmp::Eq,\n                core::cmp::PartialOrd,\n                core::cmp::Ord\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n', '                core::cmp::PartialEq,\n                core::cmp::Eq\n            )]\n            pub struct $struct_name {\n                // note: in this order `PartialOrd` will order primarily off of `_internal_inx`\n                #[doc(hidden)]\n                _internal_inx: $inx_type,\n                #[doc(hidden)]\n                _internal_gen: $gen_type,\n            }\n\n            impl core::cmp::PartialOrd for $struct_name {\n                fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n                    Some(core::cmp::Ord::cmp(self, other))\n                }\n            }\n\n            impl core::cmp::Ord for $struct_name {\n                fn cmp(&self, other: &Self) -> core::cmp::Ordering {\n                    core::cmp::Ord::cmp(&self._internal_inx, &other._internal_inx)\n                        .then_with(|| core::cmp::Ord::cmp(&self._internal_gen, &other._internal_gen))\n                }\n            }\n')),
    ('s_ins_via', '', (OIN, 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            self.insert_inx_manual_unwrap(p.inx(), direction, k, v)', 'match self.find_similar_key_linear(p_init, num, &k) {\n                Some((p, Ordering::Equal)) => {\n                    let (q, old) = self.insert_inx_manual_unwrap(p.inx(), Ordering::Equal, k, v);\n                    (q, old)\n                }\n                Some((p, d)) => self.insert_inx_manual_unwrap(p.inx(), d, k, v),\n                None => unreachable!(),\n            }')),
    ('s_ins_nl', '', (OIN, 'let (p, mut direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            if direction == Ordering::Equal {\n                direction = Ordering::Less;\n            }', 'let (p, direction) = self.find_similar_key_linear(p_init, num, &k).unwrap();\n            let direction = match direction {\n                Ordering::Equal | Ordering::Less => Ordering::Less,\n                Ordering::Greater => Ordering::Greater,\n            };')),
    ('s_ins_order', '', (OIN, '                self.a.get_inx_mut_unwrap_t(p).p_tree1 = Some(p_new.inx());\n                if self.last == p {\n                    self.last = p_new.inx()\n                }', '                if p == self.last {\n                    self.last = p_new.inx()\n                }\n                self.a.get_inx_mut_unwrap_t(p).p_tree1 = Some(p_new.inx());')),
    ('s_ins_helper', '', (OIN, '                self.a.get_inx_mut_unwrap_t(p).p_tree0 = Some(p_new.inx());\n                if self.first == p {\n                    self.first = p_new.inx()\n                }', '                self.attach_before(p, p_new.inx());'), (OIN, '    /// Rebalances starting from newly inserted node `p`', '    fn attach_before(&mut self, p: P::Inx, p_new: P::Inx) {\n        self.a.get_inx_mut_unwrap_t(p).p_tree0 = Some(p_new);\n        if self.first == p {\n            self.first = p_new\n        }\n    }\n\n    /// Rebalances starting from newly inserted node `p`')),
    ('s_ins_ends', '', (OIN, '            self.first = p_new.inx();\n            self.last = p_new.inx();\n            self.root = p_new.inx();\n            Some(p_new)\n', '            self.set_only(p_new.inx());\n            Some(p_new)\n'), (OIN, '    /// Rebalances starting from newly inserted node `p`', '    fn set_only(&mut self, p: P::Inx) {\n        self.root = p;\n        self.last = p;\n        self.first = p;\n    }\n\n    /// Rebalances starting from newly inserted node `p`')),
    ('s_acc_map', '', (OA, '            let generation = self.a.get_no_gen(self.last).unwrap().0;\n            Some(Ptr::_from_raw(self.last, generation))', '            self.a\n                .get_no_gen(self.last)\n                .map(|(generation, _)| Ptr::_from_raw(self.last, generation))')),
    ("s_find_sim", "", (OFI, "        if self.a.is_empty() {\n            return None\n        }\n        let mut p = self.root;\n        loop {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {\n                Ordering::Less => p = node.p_tree0?,\n                Ordering::Equal => break Some(Ptr::_from_raw(p, generation)),\n                Ordering::Greater => p = node.p_tree1?,\n            }\n        }", "        match self.find_similar_key(k) {\n            Some((p, Ordering::Equal)) => Some(p),\n            _ => None,\n        }")),
    ("s_find_while", "", (OFI, "        let mut p = self.root;\n        loop {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {\n                Ordering::Less => p = node.p_tree0?,\n                Ordering::Equal => break Some(Ptr::_from_raw(p, generation)),\n                Ordering::Greater => p = node.p_tree1?,\n            }\n        }", "        let mut cur = Some(self.root);\n        while let Some(p) = cur {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            cur = match Ord::cmp(&link.t.k, k) {\n                Ordering::Greater => link.t.p_tree0,\n                Ordering::Equal => return Some(Ptr::_from_raw(p, generation)),\n                Ordering::Less => link.t.p_tree1,\n            }\n        }\n        None")),
    ("s_find_child", "", (OFI, "                Ordering::Less => {\n                    if let Some(p_tree0) = node.p_tree0 {\n                        p = p_tree0;\n                    } else {\n                        break Some((Ptr::_from_raw(p, generation), Ordering::Less))\n                    }\n                }\n                Ordering::Equal => break Some((Ptr::_from_raw(p, generation), Ordering::Equal)),\n                Ordering::Greater => {\n                    if let Some(p_tree1) = node.p_tree1 {\n                        p = p_tree1;\n                    } else {\n                        break Some((Ptr::_from_raw(p, generation), Ordering::Greater))\n                    }\n                }", "                Ordering::Equal => return Some((Ptr::_from_raw(p, generation), Ordering::Equal)),\n                o => {\n                    let child = if o == Ordering::Less { node.p_tree0 } else { node.p_tree1 };\n                    match child {\n                        Some(c) => p = c,\n                        None => return Some((Ptr::_from_raw(p, generation), o)),\n                    }\n                }")),
    ("s_find_count", "", (OFI, "        for _ in 0..num {\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match Ord::cmp(k, &node.k) {", "        let mut left = num;\n        while left > 0 {\n            left -= 1;\n            let (generation, link) = self.a.get_no_gen(p).unwrap();\n            let node = &link.t;\n            match k.cmp(&node.k) {")),
    ("s_t_where", "", (VEC, "unsafe impl<T: Send> Send for NonZeroInxVec<T> {}", "unsafe impl<T> Send for NonZeroInxVec<T> where T: Send {}")),
    ("s_t_life", "", (OIT, "    pub fn vals_mut(&mut self) -> ValsMut<P, K, V> {", "    pub fn vals_mut<'b>(&'b mut self) -> ValsMut<'b, P, K, V> {")),
    ("s_t_field", "", (BASE, "    pub fn contains(&self, p: P) -> bool {", "    pub fn contains(&self, ptr: P) -> bool {\n        let p = ptr;")),
    ("s_rec_match", "", (AIT, "            val.recast(recaster)?;", "            match val.recast(recaster) {\n                Ok(()) => (),\n                Err(e) => return Err(e),\n            }")),
    ("s_rec_order", "", (SIT, "        for key in self.keys_mut() {\n            key.recast(recaster)?;\n        }\n        for val in self.vals_mut() {\n            val.recast(recaster)?;\n        }\n", "        for val in self.vals_mut() {\n            val.recast(recaster)?;\n        }\n        for key in self.keys_mut() {\n            key.recast(recaster)?;\n        }\n")),
    ("s_rec_while", "", (CIT, "        for val in self.vals_mut() {\n            val.t.recast(recaster)?;\n        }\n", "        let mut adv = self.advancer();\n        while let Some(p) = adv.advance(self) {\n            self.get_link_mut(p).unwrap().t.recast(recaster)?;\n        }\n"), (CIT, "use recasting::", "#[allow(unused_imports)]\nuse crate::Advancer as _;\nuse recasting::")),
    ("s_rec_link", "", (CIT, "        self.prev_next.recast(recaster)?;\n        self.t.recast(recaster)?;\n        Ok(())", "        if let Some(p) = self.prev_next.0.as_mut() {\n            recaster.recast_item(p)?;\n        }\n        self.prev_next.1.recast(recaster)?;\n        self.t.recast(recaster)")),
    ("s_rec_item", "", (AIT, "        if let Some(res) = self.get(*item) {\n            *item = *res;\n            Ok(())\n        } else {\n            Err(*item)\n        }", "        let res = self.get(*item).ok_or(*item)?;\n        *item = *res;\n        Ok(())")),
    ("s_rec_each", "", (OIT, "        for val in self.vals_mut() {\n            val.recast(recaster)?;\n        }\n        Ok(())", "        self.vals_mut().try_for_each(|val| val.recast(recaster))")),
    ("s_vec_get", "", (VEC, """        if inx.get() > self.len() {
            None
        } else {
            // Safety: The first element is 1 so that the `wrapping_offset(-1)` is undone,
            // we use `inx.get() > self.len()` instead of `inx.get >= self.len()`
            unsafe { Some(&*self.nonzero_index_ptr().wrapping_add(inx.get())) }
        }""", """        if inx.get() <= self.len() {
            unsafe { Some(&*self.allocation_ptr().wrapping_add(inx.get() - 1)) }
        } else {
            None
        }"""), (VEC, """        while self.pop().is_some() {}""", """        for _ in 0..self.len() {
            drop(self.pop());
        }""")),
    ("s_vec_shrink", "", (VEC, """            let new_ptr = alloc::alloc(new_layout);
            if new_ptr.is_null() {
                alloc::handle_alloc_error(new_layout)
            }
            let new_ptr = new_ptr as *mut T;
            ptr::copy(self.allocation_ptr(), new_ptr, self.len());
            alloc::dealloc(self.allocation_ptr() as *mut u8, self.layout());
            self.set_allocation_ptr(new_ptr);
            self.set_capacity(new_cap)""", """            let new_ptr = alloc::realloc(self.allocation_ptr_mut() as *mut u8, self.layout(), new_layout.size());
            if new_ptr.is_null() {
                alloc::handle_alloc_error(new_layout)
            }
            self.set_capacity(new_cap);
            self.set_allocation_ptr(new_ptr as *mut T)"""), (VEC, """            let new_len = self.len().wrapping_add(1);
            self.set_len(new_len);
            ptr::write(self.nonzero_index_ptr_mut().wrapping_add(new_len), t);""", """            let len = self.len();
            self.allocation_ptr_mut().wrapping_add(len).write(t);
            self.set_len(len + 1);""")),
    ("s_vec_helper", "", (VEC, """    pub fn get_mut(&mut self, inx: NonZeroUsize) -> Option<&mut T> {
        if inx.get() > self.len() {
            None
        } else {
            // Safety: The first element is 1 so that the `wrapping_offset(-1)` is undone,
            // we use `inx.get() > self.len()` instead of `inx.get >= self.len()`
            unsafe { Some(&mut *self.nonzero_index_ptr_mut().wrapping_add(inx.get())) }
        }
    }""", """    pub fn get_mut(&mut self, inx: NonZeroUsize) -> Option<&mut T> {
        if self.in_bounds(inx) {
            unsafe { Some(&mut *self.slot(inx)) }
        } else {
            None
        }
    }

    fn in_bounds(&self, inx: NonZeroUsize) -> bool {
        inx.get() <= self.len()
    }

    fn slot(&mut self, inx: NonZeroUsize) -> *mut T {
        self.nonzero_index_ptr_mut().wrapping_add(inx.get())
    }""")),
    ("s_eq_loop", "", (BASE, """        while let Some(p0) = adv0.advance(self) {
            if let Some(p1) = adv1.advance(other) {
                if p0 != p1 {
                    return false
                }
                if self.get_inx_unwrap(p0.inx()) != other.get_inx_unwrap(p1.inx()) {
                    return false
                }
            } else {
                return false
            }
        }
        adv1.advance(other).is_none()""", """        if self.len() != other.len() {
            return false
        }
        loop {
            match (adv0.advance(self), adv1.advance(other)) {
                (None, None) => return true,
                (Some(p0), Some(p1)) if p0 == p1 => {
                    let (t0, t1) = (self.get(p0).unwrap(), other.get(p1).unwrap());
                    if !(t0 == t1) {
                        return false
                    }
                }
                _ => return false,
            }
        }""")),
    ("s_eq_iter", "", (BASE, """        let mut adv0 = self.advancer();
        let mut adv1 = other.advancer();
        while let Some(p0) = adv0.advance(self) {
            if let Some(p1) = adv1.advance(other) {
                if p0 != p1 {
                    return false
                }
                if self.get_inx_unwrap(p0.inx()) != other.get_inx_unwrap(p1.inx()) {
                    return false
                }
            } else {
                return false
            }
        }
        adv1.advance(other).is_none()""", """        let mut it = other.iter();
        for (p0, t0) in self.iter() {
            match it.next() {
                Some((p1, t1)) => {
                    if p0 != p1 || t0 != t1 {
                        return false
                    }
                }
                None => return false,
            }
        }
        it.next().is_none()""")),
    ("s_eq_std", "", (BASE, """        let mut adv0 = self.advancer();
        let mut adv1 = other.advancer();
        while let Some(p0) = adv0.advance(self) {
            if let Some(p1) = adv1.advance(other) {
                if p0 != p1 {
                    return false
                }
                if self.get_inx_unwrap(p0.inx()) != other.get_inx_unwrap(p1.inx()) {
                    return false
                }
            } else {
                return false
            }
        }
        adv1.advance(other).is_none()""", """        self.iter().eq(other.iter())""")),
    ("s_link_cmp", "", (CH, """        match self.prev_next.partial_cmp(&other.prev_next) {
            Some(core::cmp::Ordering::Equal) => {}
            ord => return ord,
        }
        self.t.partial_cmp(&other.t)""", """        let ord = self.prev_next.partial_cmp(&other.prev_next);
        if ord != Some(core::cmp::Ordering::Equal) {
            return ord
        }
        self.t.partial_cmp(&other.t)"""), (CNG, "        self.prev_next.hash(state);", "        let pn = self.prev_next;\n        pn.0.hash(state);\n        pn.1.hash(state);")),
    ("s_ord_pair", "", (OA, """                if node0.t.k != node1.t.k {
                    return false
                }
                if node0.t.v != node1.t.v {
                    return false
                }""", """                if (&node0.t.k, &node0.t.v) != (&node1.t.k, &node1.t.v) {
                    return false
                }"""), (OA, """                match node0.t.k.cmp(&node1.t.k) {
                    Ordering::Equal => (),
                    ord => return ord,
                }
                match node0.t.v.cmp(&node1.t.v) {
                    Ordering::Equal => (),
                    ord => return ord,
                }""", """                let ord = node0.t.k.cmp(&node1.t.k).then_with(|| node0.t.v.cmp(&node1.t.v));
                if ord.is_ne() {
                    return ord
                }""")),
    ("s_adv_local", "", (AIT, """        loop {
            let old_inx = self.inx;
            if let Some(allocation) = collection.m.get(old_inx) {
                unsafe {
                    self.inx = nzusize_unchecked(old_inx.get().wrapping_add(1));
                }
                if let Allocated(g, _) = allocation {
                    return Some(P::_from_raw(P::Inx::new(old_inx), *g))
                }
            } else {
                return None
            }
        }""", """        let mut inx = self.inx;
        let mut res = None;
        while let Some(allocation) = collection.m.get(inx) {
            let here = inx;
            inx = unsafe { nzusize_unchecked(here.get().wrapping_add(1)) };
            if let Allocated(g, _) = allocation {
                res = Some(P::_from_raw(P::Inx::new(here), *g));
                break
            }
        }
        self.inx = inx;
        res""")),
    ("s_adv_helper", "", (AIT, """    fn advance(&mut self, collection: &Self::Collection) -> Option<Self::Item> {
        loop {
            let old_inx = self.inx;""", """    fn advance(&mut self, collection: &Self::Collection) -> Option<Self::Item> {
        self.search(collection)
    }
}

impl<P: Ptr, T> PtrAdvancer<P, T> {
    fn search(&mut self, collection: &Arena<P, T>) -> Option<P> {
        loop {
            let old_inx = self.inx;""")),
    ("s_chain_adv", "", (CIT, """                    if let Some(prev) = link.prev() {
                        self.ptr = Some(prev);
                    } else {
                        self.ptr = None;
                    }
                    // note""", """                    self.ptr = link.prev();
                    // note"""), (CIT, """                    if next == self.init {
                        // cyclical
                        self.ptr = None;
                    } else {
                        self.ptr = Some(next);
                    }""", """                    self.ptr = if next != self.init { Some(next) } else { None };""")),
    ("s_drain_match", "", (AIT, """        self.adv
            .advance(self.arena)
            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))""", """        match self.adv.advance(self.arena) {
            None => None,
            Some(p) => {
                let t = self.arena.remove_internal_inx_unwrap(p.inx(), false);
                Some((p, t))
            }
        }""")),
    ("s_ord_from", "", (OIT, """            ptr: if self.contains(p_start) {
                Some(p_start.inx())
            } else {
                None
            },""", """            ptr: self.a.get_link(p_start).map(|_| p_start.inx()),""")),
    ("s_surj_iter", "", (SIT, """        if let Some(p) = self.adv.advance(self.arena) {
            Some((p, self.arena.get_key(p).unwrap(), self.surject_val.unwrap()))
        } else {
            None
        }""", """        let p = self.adv.advance(self.arena)?;
        let (k, v) = self.arena.get(p).unwrap();
        Some((p, k, v))""")),
    ("s_clone_while", "", (BASE, """        for i in source.m.nziter() {
            let new = match source.m.get(i).unwrap() {
                // copy `source` freelist
                Free(inx) => Free(*inx),
                // map `source` allocated
                Allocated(generation, u) => Allocated(
                    *generation,
                    map(P::_from_raw(P::Inx::new(i), *generation), u),
                ),
            };
            self.m.push(new);
        }
""", """        let mut k = 1usize;
        while k <= source.m.len() {
            let i = NonZeroUsize::new(k).unwrap();
            let new = if let Allocated(generation, u) = source.m.get(i).unwrap() {
                let p = P::_from_raw(P::Inx::new(i), *generation);
                let t = map(p, u);
                Allocated(*generation, t)
            } else if let Free(inx) = source.m.get(i).unwrap() {
                Free(*inx)
            } else {
                unreachable!()
            };
            self.m.push(new);
            k += 1;
        }
""")),
    ("s_clone_order", "", (BASE, """        self.generation = source.generation;
        self.len = source.len;
        // Inv""", """        let n = source.len();
        self.len = n;
        let g = source.generation();
        self.generation = g;
        // Inv""")),
    ("s_clear_rev", "", (BASE, """        for i in self.m.nziter() {
            // Safety: `isize::MAX` guarantee
            unsafe {
                let next = ptrinx_unchecked(i.get().wrapping_add(1).min(self.m.len()));
                *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
            }
        }
""", """        let n = self.m.len();
        let mut i = 1;
        while i <= n {
            let next = if i == n { n } else { i + 1 };
            unsafe {
                *self.m.get_mut(nzusize_unchecked(i)).unwrap() = Free(ptrinx_unchecked(next));
            }
            i += 1;
        }
""")),
    ("s_res_helper", "", (BASE, """                for i in old_virt_cap.wrapping_add(2)
                    ..old_virt_cap.wrapping_add(remaining).wrapping_add(1)
                {
                    self.m.push(Free(ptrinx_unchecked(i)));
                }
""", """                let mut next = old_virt_cap.wrapping_add(2);
                while next <= target {
                    self.m.push(Free(ptrinx_unchecked(next)));
                    next = next.wrapping_add(1);
                }
""")),
    ("s_compress_match", "", (BASE, """            if let Allocated(old_gen, mut t) = entry {
                map(
                    Ptr::_from_raw(PtrInx::new(i), old_gen),
                    &mut t,
                    Ptr::_from_raw(PtrInx::new(NonZeroUsize::new(j).unwrap()), generation),
                );
                new_m.push(Allocated(generation, t));
                j = j.wrapping_add(1);
            }
""", """            match entry {
                Allocated(old_gen, mut t) => {
                    let q = Ptr::_from_raw(PtrInx::new(NonZeroUsize::new(j).unwrap()), generation);
                    let p = Ptr::_from_raw(PtrInx::new(i), old_gen);
                    j += 1;
                    map(p, &mut t, q);
                    new_m.push(Allocated(generation, t));
                }
                Free(_) => (),
            }
""")),
    ("s_chain_helper", "", (CH, """            let p = p_init;
            let link = self.a.remove(p_init).unwrap();
            let p_init = p_init.inx();
            let mut p_init_prev = None;
            let mut p_next = link.next().map(|p| p.inx());
""", """            let p = p_init;
            let link = self.a.remove(p).unwrap();
            let p_init = p.inx();
            let mut p_next = match link.next() {
                Some(n) => Some(n.inx()),
                None => None,
            };
            let mut p_init_prev = None;
"""), (CH, """            let mut p_prev = p_init_prev;
            let mut q_next = q_init;
            loop {
                p_prev = if let Some(p_prev) = p_prev {
                    let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                    let p = Ptr::_from_raw(p_prev, p_gen);
                    let link = self.a.remove(p).unwrap();
                    let tmp_prev = link.prev().map(|p| p.inx());
                    let t = link.t;
                    let q = new.insert(Link::new((None, Some(q_next)), t));
                    map(p, &mut new.get_inx_mut_unwrap(q.inx()).t, q);
                    new.get_inx_mut_unwrap(q_next.inx()).prev_next.0 = Some(q);
                    q_next = q;
                    tmp_prev
                } else {
                    break
                };
            }
""", """            let mut p_prev = p_init_prev;
            let mut q_next = q_init;
            while let Some(i) = p_prev {
                let p_gen = self.a.get_no_gen(i).unwrap().0;
                let p = Ptr::_from_raw(i, p_gen);
                let link = self.a.remove(p).unwrap();
                p_prev = link.prev().map(|p| p.inx());
                let q = new.insert(Link::new((None, Some(q_next)), link.t));
                new.get_inx_mut_unwrap(q_next.inx()).prev_next.0 = Some(q);
                map(p, &mut new.get_inx_mut_unwrap(q.inx()).t, q);
                q_next = q;
            }
""")),
]
