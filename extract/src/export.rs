use std::collections::{HashMap, HashSet, VecDeque};

use rustc_hir::def::DefKind;
use rustc_middle::{
    mir::{
        self, AggregateKind, Body, Operand, Place, PlaceElem, ProjectionElem, Rvalue, StatementKind,
        TerminatorKind,
    },
    ty::{self, TypeVisitableExt, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv},
};
use rustc_span::def_id::{DefId, LocalDefId};

use crate::json::J;

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    env_id: usize,
    types: Vec<J>,
    ty_ids: HashMap<(usize, Ty<'tcx>), usize>,
    envs: HashMap<String, usize>,
    bodies: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>)>,
}

fn skip_body(path: &str) -> bool {
    // library areas that no rule looks into; calls into them stay opaque
    const SKIP: &[&str] = &[
        "core::fmt", "alloc::fmt", "std::fmt", "core::panicking", "alloc::alloc", "std::alloc",
        "core::intrinsics", "core::ptr", "std::ptr", "core::str", "std::str", "core::slice",
        "std::slice", "core::alloc", "alloc::string", "std::string", "alloc::vec", "std::vec",
        "alloc::raw_vec", "alloc::boxed", "std::boxed", "core::hash", "std::hash", "core::ub_checks",
        "alloc::collections", "std::collections", "core::unicode", "core::char", "std::char",
        "std::io", "core::any", "std::any", "std::panicking", "core::mem::swap", "std::mem::swap",
        "core::mem::replace", "std::mem::replace", "std::intrinsics", "std::ub_checks",
        "serde", "serde_core",
    ];
    let p = path.trim_start_matches('<');
    SKIP.iter().any(|s| p.starts_with(s) && !p[s.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
}

impl<'tcx> Ex<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&(self.env_id, t)) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.ty_ids.insert((self.env_id, t), id);
        let tcx = self.tcx;
        let s = with_paths(|| format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", J::s("bool"))),
            TyKind::Char => o.push(("k", J::s("char"))),
            TyKind::Int(_) | TyKind::Uint(_) => o.push(("k", J::s("int"))),
            TyKind::Never => o.push(("k", J::s("never"))),
            TyKind::Str => o.push(("k", J::s("str"))),
            TyKind::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(v)));
            }
            TyKind::Ref(_, t, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(t);
                o.push(("to", x));
            }
            TyKind::RawPtr(t, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(t);
                o.push(("to", x));
            }
            TyKind::Array(t, _) | TyKind::Slice(t) => {
                o.push(("k", J::s("seq")));
                let x = self.ty(t);
                o.push(("to", x));
            }
            TyKind::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
                let mut bs = vec![];
                for c in self.env.param_env.caller_bounds() {
                    if let Some(tp) = c.as_trait_clause() {
                        let tp = tp.skip_binder();
                        if tp.self_ty() == t {
                            bs.push(J::s(self.path(tp.def_id())));
                        }
                    }
                }
                o.push(("bounds", J::A(bs)));
            }
            TyKind::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(self.path(d))));
            }
            TyKind::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.path(d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(ups)));
                let key = self.enqueue(Instance::new_raw(d, args));
                o.push(("body", key.map(J::S).unwrap_or(J::Null)));
            }
            TyKind::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(def.did()))));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("local", J::B(def.did().is_local())));
                let ta: Vec<J> = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(ta)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args);
                        let fty = match tcx.try_normalize_erasing_regions(self.env, fty) {
                            Ok(t) => t,
                            Err(_) => fty.skip_norm_wip(),
                        };
                        let j = self.ty(fty);
                        fs.push(J::O(vec![
                            ("name", J::s(f.name.to_string())),
                            ("ty", j),
                            ("vis", J::s(with_paths(|| format!("{:?}", f.vis)))),
                        ]));
                    }
                    let discr = if def.is_enum() {
                        J::I(def.discriminant_for_variant(tcx, vi).val as i128)
                    } else {
                        J::I(0)
                    };
                    vs.push(J::O(vec![
                        ("name", J::s(v.name.to_string())),
                        ("discr", discr),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            TyKind::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn path(&self, d: DefId) -> String {
        with_paths(|| self.tcx.def_path_str(d))
    }

    fn key(&self, i: &Instance<'tcx>) -> String {
        let s = with_paths(|| format!("{:?}", i));
        format!("{}|{}", self.env_id, s)
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> Option<String> {
        let i = self.tcx.erase_and_anonymize_regions(i);
        match i.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return None;
                }
                if !d.is_local() && skip_body(&self.path(d)) {
                    return None;
                }
                if !matches!(
                    self.tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
                ) {
                    return None;
                }
            }
            InstanceKind::Shim(k) => match k {
                ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) => (),
                _ => return None,
            },
            _ => return None,
        }
        let key = self.key(&i);
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key.clone(), i));
        }
        Some(key)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            let e: PlaceElem<'tcx> = e;
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), t])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::I(v.as_usize() as i128)]),
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![J::s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(v)
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        match *t.kind() {
            TyKind::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let f = self.callee(d, args);
                o.push(("fn", f));
            }
            _ => {
                let mut done = false;
                if self.is_number(t) {
                    if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
                        o.push(("int", J::S(b.to_string())));
                        done = true;
                    }
                }
                if !done {
                    if let mir::Const::Unevaluated(u, _) = c.const_ {
                        match u.promoted {
                            None => o.push(("item", J::s(self.path(u.def)))),
                            Some(p) => {
                                if let Some(k) = self.promoted(u.def, u.args, p) {
                                    o.push(("promoted", J::S(k)));
                                }
                            }
                        }
                    }
                    if let mir::Const::Val(v, t) = c.const_ {
                        if let Some(j) = self.const_value(v, t) {
                            o.push(("val", j));
                        }
                    }
                    let s = with_paths(|| format!("{:?}", c.const_));
                    o.push(("dbg", J::s(s)));
                }
            }
        }
        J::O(vec![("c", J::O(o))])
    }

    fn promoted(&mut self, d: DefId, args: GenericArgsRef<'tcx>, p: mir::Promoted) -> Option<String> {
        let key = with_paths(|| format!("{}|promoted {:?} {:?} {}", self.env_id, d, args, p.as_usize()));
        if self.seen.insert(key.clone()) {
            let raw = self.tcx.promoted_mir(d).get(p)?.clone();
            let b = self
                .tcx
                .try_instantiate_and_normalize_erasing_regions(
                    args,
                    self.env,
                    ty::EarlyBinder::bind(self.tcx, raw.clone()),
                )
                .unwrap_or(raw);
            let mut j = self.body(&b, false);
            if let J::O(o) = &mut j {
                o.push(("path", J::S(format!("promoted of {}", self.path(d)))));
                o.push(("name", J::s("promoted")));
                o.push(("local", J::B(false)));
                o.push(("norm", J::B(true)));
                o.push(("span", J::s("")));
            }
            self.bodies.push((key.clone(), j));
        }
        Some(key)
    }

    /// A type whose constants are plain numbers (as non-zero integers are).
    fn is_number(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            TyKind::Adt(a, args) => {
                self.path(a.did()) == "core::num::nonzero::NonZero" && args.types().all(|t| t.is_integral())
            }
            _ => t.is_integral() || t.is_bool() || t.is_char(),
        }
    }

    /// Variant and fields of a constant of enum, struct or tuple type.
    fn const_value(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Option<J> {
        if self.is_number(t) {
            let b = v.try_to_scalar_int()?;
            return Some(J::O(vec![("int", J::S(b.to_bits_unchecked().to_string()))]));
        }
        match t.kind() {
            TyKind::Adt(..) | TyKind::Tuple(_) if !t.has_non_region_param() => {
                let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let fs: Option<Vec<J>> = d.fields.iter().map(|(v, t)| self.const_value(*v, *t)).collect();
                Some(J::O(vec![
                    ("ty", self.ty(t)),
                    ("variant", J::I(d.variant.map(|v| v.as_u32() as i128).unwrap_or(0))),
                    ("fields", J::A(fs?)),
                ]))
            }
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let mut o = vec![("path", J::s(self.path(d)))];
        o.push(("full", J::s(with_paths(|| self.tcx.def_path_str_with_args(d, args)))));
        let ta: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(ta)));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.path(t))));
        }
        o.push(("name", J::s(self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        o.push(("local", J::B(d.is_local())));
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, d, args) {
            o.push(("rpath", J::s(self.path(i.def_id()))));
            o.push(("rlocal", J::B(i.def_id().is_local())));
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(_) => "shim",
                _ => "other",
            };
            o.push(("kind", J::s(kind)));
            if let InstanceKind::Shim(ty::ShimKind::Clone(..)) = i.def {
                o.push(("shim", J::s("clone")));
            }
            if let Some(k) = self.enqueue(i) {
                o.push(("key", J::S(k)));
            }
        }
        J::O(o)
    }

    fn operand(&mut self, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("p", p), ("mv", J::B(true))])
            }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let a: Vec<J> = match r {
            Rvalue::Use(x, _) => vec![J::s("use"), self.operand(x)],
            Rvalue::Repeat(x, _) => vec![J::s("repeat"), self.operand(x)],
            Rvalue::Ref(_, k, p) => {
                vec![J::s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(p)]
            }
            Rvalue::RawPtr(k, p) => {
                vec![J::s("raw"), J::B(matches!(k, mir::RawPtrKind::Mut)), self.place(p)]
            }
            Rvalue::Cast(k, x, t) => {
                vec![J::s("cast"), J::s(format!("{k:?}")), self.operand(x), self.ty(*t)]
            }
            Rvalue::BinaryOp(op, b) => {
                vec![J::s("bin"), J::s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1)]
            }
            Rvalue::UnaryOp(op, x) => vec![J::s("un"), J::s(format!("{op:?}")), self.operand(x)],
            Rvalue::Discriminant(p) => vec![J::s("discr"), self.place(p)],
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                vec![J::s("use"), J::O(vec![("p", p)])]
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", J::s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", J::s("tuple"))]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = match self.tcx.try_normalize_erasing_regions(self.env, t) {
                            Ok(t) => t,
                            Err(_) => t.skip_norm_wip(),
                        };
                        let t = self.ty(t);
                        J::O(vec![
                            ("k", J::s("adt")),
                            ("ty", t),
                            ("variant", J::I(v.as_usize() as i128)),
                            ("active", active.map(|a| J::I(a.as_usize() as i128)).unwrap_or(J::Null)),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        J::O(vec![("k", J::s("closure")), ("ty", t)])
                    }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", J::s("rawptr"))]),
                    _ => J::O(vec![("k", J::s("other"))]),
                };
                let ops: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                vec![J::s("agg"), kind, J::A(ops)]
            }
            Rvalue::Reborrow(_, m, p) => vec![J::s("ref"), J::B(m.is_mut()), self.place(p)],
            _ => vec![J::s("other"), J::s(format!("{r:?}"))],
        };
        J::A(a)
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        J::s(format!("{}:{}", f, l.line))
    }

    fn body(&mut self, b: &Body<'tcx>, local: bool) -> J {
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            let t = self.ty(d.ty);
            locals.push(t);
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), J::s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1);
                        let mut v = vec![J::s("="), p, r];
                        if local {
                            v.push(self.line(s.source_info.span));
                        }
                        st.push(J::A(v));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("setd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("sd"), J::I(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(x) => {
                            let x = self.operand(x);
                            st.push(J::A(vec![J::s("assume"), x]));
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let v = vec![
                                J::s("cno"),
                                self.operand(&c.src),
                                self.operand(&c.dst),
                                self.operand(&c.count),
                            ];
                            st.push(J::A(v));
                        }
                    },
                    _ => (),
                }
            }
            let t = bb.terminator();
            let bbj = |b: mir::BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![J::s("goto"), bbj(*target)],
                TerminatorKind::FalseEdge { real_target, .. } => vec![J::s("goto"), bbj(*real_target)],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![J::s("goto"), bbj(*real_target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let mut ts = vec![];
                    for (v, t) in targets.iter() {
                        ts.push(J::A(vec![J::S(v.to_string()), bbj(t)]));
                    }
                    vec![
                        J::s("switch"),
                        self.operand(discr),
                        J::A(ts),
                        bbj(targets.otherwise()),
                        self.ty(ty),
                    ]
                }
                TerminatorKind::Return => vec![J::s("return")],
                TerminatorKind::Unreachable => vec![J::s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![J::s("resume")]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, self.tcx).ty;
                    vec![J::s("drop"), self.place(place), bbj(*target), self.ty(ty)]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let un = match unwind {
                        mir::UnwindAction::Cleanup(c) => bbj(*c),
                        _ => J::Null,
                    };
                    vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(bbj).unwrap_or(J::Null),
                        self.line(t.source_info.span),
                        un,
                    ]
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    bbj(*target),
                    J::s(format!("{msg:?}").chars().take(60).collect::<String>()),
                ],
                _ => vec![J::s("other")],
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::A(tj)),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn run_queue(&mut self) {
        while let Some((key, i)) = self.queue.pop_front() {
            let raw = self.tcx.instance_mir(i.def);
            let r = i.try_instantiate_mir_and_normalize_erasing_regions(
                self.tcx,
                self.env,
                ty::EarlyBinder::bind(self.tcx, raw.clone()),
            );
            let (b, norm) = match r {
                Ok(b) => (b, true),
                Err(_) => (raw.clone(), false),
            };
            let local = i.def_id().is_local();
            let mut j = self.body(&b, local);
            let path = self.path(i.def_id());
            let name = self
                .tcx
                .opt_item_name(i.def_id())
                .map(|s| s.to_string())
                .unwrap_or_default();
            let span = self.line(self.tcx.def_span(i.def_id()));
            if let J::O(o) = &mut j {
                o.push(("path", J::S(path)));
                o.push(("name", J::S(name)));
                o.push(("local", J::B(local)));
                o.push(("norm", J::B(norm)));
                o.push(("span", span));
            }
            self.bodies.push((key, j));
        }
    }
}

pub fn with_paths<T>(f: impl FnOnce() -> T) -> T {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        rustc_middle::ty::print::with_no_trimmed_paths!(f())
    ))
}

pub fn export(tcx: TyCtxt<'_>) -> String {
    let mut ex = Ex {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        env_id: 0,
        types: vec![],
        ty_ids: HashMap::new(),
        envs: HashMap::new(),
        bodies: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
    };
    let mut fns = vec![];
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let eff = tcx.effective_visibilities(());
    for d in owners {
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let did = d.to_def_id();
        ex.env = TypingEnv::post_analysis(tcx, did);
        let es = with_paths(|| format!("{:?}", ex.env.param_env));
        let n = ex.envs.len() + 1;
        ex.env_id = *ex.envs.entry(es).or_insert(n);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let inst = Instance::new_raw(did, args);
        let key = ex.enqueue(inst);
        let sig = tcx.fn_sig(did).instantiate_identity();
        let sig = tcx.liberate_late_bound_regions(did, sig.skip_norm_wip());
        let ins: Vec<J> = sig.inputs().iter().map(|t| {
            let t2 = tcx.try_normalize_erasing_regions(ex.env, ty::Unnormalized::new(*t)).unwrap_or(*t);
            ex.ty(t2)
        }).collect();
        let out = sig.output();
        let out = tcx.try_normalize_erasing_regions(ex.env, ty::Unnormalized::new(out)).unwrap_or(out);
        let out = ex.ty(out);
        let mut o = vec![
            ("path", J::s(ex.path(did))),
            ("name", J::s(tcx.item_name(did).to_string())),
            ("key", key.map(J::S).unwrap_or(J::Null)),
            ("inputs", J::A(ins)),
            ("output", out),
            ("pub", J::B(eff.is_reachable(d))),
            ("vis", J::s(with_paths(|| format!("{:?}", tcx.visibility(did))))),
            ("span", ex.line(tcx.def_span(did))),
            ("unsafe", J::B(sig.safety().is_unsafe())),
        ];
        let params: Vec<J> = args.types().map(|t| J::s(format!("{t}"))).collect();
        o.push(("generics", J::A(params)));
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let j = ex.ty(st);
            o.push(("self_ty", j));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(ex.path(tr.def_id))));
                o.push(("trait_ref", J::s(with_paths(|| format!("{tr}")))));
            }
        } else if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", J::s(ex.path(t))));
        }
        let file_doc = tcx.def_span(did).from_expansion();
        o.push(("macro", J::B(file_doc)));
        fns.push(J::O(o));
        ex.run_queue();
    }
    let mut out = String::new();
    out.push_str("{\"fns\":");
    J::A(fns).write(&mut out);
    out.push_str(",\n\"surface\":");
    crate::surface::surface(tcx).write(&mut out);
    out.push_str(",\n\"types\":");
    J::A(ex.types).write(&mut out);
    out.push_str(",\n\"bodies\":{");
    for (n, (k, b)) in ex.bodies.iter().enumerate() {
        if n != 0 {
            out.push_str(",\n");
        }
        crate::json::str_to(k, &mut out);
        out.push(':');
        b.write(&mut out);
    }
    out.push_str("}}");
    out
}
