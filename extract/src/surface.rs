//! Exports what client programs can see: signatures with their lifetimes and
//! bounds, fields with their visibility, and hand-written auto trait impls.
use std::collections::HashMap;

use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, ClauseKind, GenericArg, GenericArgKind, Ty, TyCtxt, TyKind};
use rustc_span::def_id::DefId;

use crate::{export::with_paths, json::J};

struct Sf<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Sf<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_paths(|| self.tcx.def_path_str(d))
    }

    fn region(&self, r: ty::Region<'tcx>) -> J {
        J::s(match r.kind() {
            ty::ReStatic => "'static".to_owned(),
            ty::ReEarlyParam(p) => p.name.to_string(),
            _ => match r.get_name(self.tcx) {
                Some(n) => n.to_string(),
                None => format!("{r:?}"),
            },
        })
    }

    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> (J, J) {
        let rs = a.regions().map(|r| self.region(r)).collect();
        let ts = a.types().map(|t| self.ty(t)).collect();
        (J::A(rs), J::A(ts))
    }

    /// `Self::Item` and the like: the associated type of the crate's own impl
    fn expand(&self, def_id: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(def_id)?;
        for imp in tcx.all_impls(tr) {
            if !imp.is_local() {
                continue;
            }
            let pat = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let mut map = HashMap::new();
            if pat.args.iter().zip(args.iter()).all(|(p, a)| unify(p, a, &mut map)) {
                let ids = tcx.impl_item_implementor_ids(imp);
                let id = ids.get(&def_id).copied()?;
                let ok = tcx.generics_of(imp).own_params.iter().all(|p| map.contains_key(&p.index));
                if !ok {
                    return None;
                }
                let ga = ty::GenericArgs::for_item(tcx, imp, |p, _| map[&p.index]);
                return Some(tcx.type_of(id).instantiate(tcx, ga).skip_norm_wip());
            }
        }
        None
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        let s = with_paths(|| format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match *t.kind() {
            TyKind::Ref(r, to, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("r", self.region(r)));
                o.push(("to", self.ty(to)));
            }
            TyKind::RawPtr(to, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("to", self.ty(to)));
            }
            TyKind::Adt(d, a) => {
                let (rs, ts) = self.args(a);
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(d.did()))));
                o.push(("rs", rs));
                o.push(("args", ts));
            }
            TyKind::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.to_string())));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                o.push(("args", J::A(ts.iter().map(|t| self.ty(t)).collect())));
            }
            TyKind::Slice(t) | TyKind::Array(t, _) => {
                o.push(("k", J::s("slice")));
                o.push(("args", J::A(vec![self.ty(t)])));
            }
            TyKind::Alias(_, al) => {
                let d = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id),
                    _ => None,
                };
                if let Some(t) = d.and_then(|d| self.expand(d, al.args)) {
                    return self.ty(t);
                }
                let (rs, ts) = self.args(al.args);
                o.push(("k", J::s("alias")));
                o.push(("rs", rs));
                o.push(("args", ts));
            }
            _ => o.push(("k", J::s("other"))),
        }
        J::O(o)
    }

    fn preds(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for c in tcx.clauses_of(d).instantiate_identity(tcx).clauses {
            let c = c.skip_norm_wip();
            match c.kind().skip_binder() {
                ClauseKind::Trait(t) => {
                    let args: Vec<J> = t.trait_ref.args.iter().skip(1).filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.ty(t)),
                        _ => None,
                    }).collect();
                    v.push(J::O(vec![
                        ("of", self.ty(t.self_ty())),
                        ("trait", J::s(self.path(t.def_id()))),
                        ("args", J::A(args)),
                    ]));
                }
                _ => (),
            }
        }
        J::A(v)
    }
}

/// Matches a type of an impl header against a concrete one.
fn unify<'tcx>(p: GenericArg<'tcx>, a: GenericArg<'tcx>, map: &mut HashMap<u32, GenericArg<'tcx>>) -> bool {
    let mut put = |i: u32, map: &mut HashMap<u32, GenericArg<'tcx>>| *map.entry(i).or_insert(a) == a;
    match (p.kind(), a.kind()) {
        (GenericArgKind::Lifetime(r), GenericArgKind::Lifetime(_)) => match r.kind() {
            ty::ReEarlyParam(e) => put(e.index, map),
            _ => true,
        },
        (GenericArgKind::Type(x), GenericArgKind::Type(y)) => match (x.kind(), y.kind()) {
            (TyKind::Param(n), _) => put(n.index, map),
            (TyKind::Adt(d, u), TyKind::Adt(e, v)) => d == e && u.iter().zip(v.iter()).all(|(x, y)| unify(x, y, map)),
            (TyKind::Ref(r, u, m), TyKind::Ref(q, v, n)) => {
                m == n && unify((*r).into(), (*q).into(), map) && unify((*u).into(), (*v).into(), map)
            }
            _ => x == y,
        },
        _ => p == a,
    }
}

fn line(tcx: TyCtxt<'_>, d: DefId) -> J {
    let sm = tcx.sess.source_map();
    let l = sm.lookup_char_pos(tcx.def_span(d).lo());
    J::s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
}

pub fn surface(tcx: TyCtxt<'_>) -> J {
    let eff = tcx.effective_visibilities(());
    let (mut fns, mut adts, mut impls) = (vec![], vec![], vec![]);
    let sf = Sf { tcx };
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let imp = tcx.impl_of_assoc(did);
                let sig = tcx.fn_sig(did).instantiate_identity();
                let sig = tcx.liberate_late_bound_regions(did, sig.skip_norm_wip());
                let mut o = vec![
                    ("path", J::s(sf.path(did))),
                    ("name", J::s(tcx.item_name(did).to_string())),
                    ("pub", J::B(eff.is_reachable(d))),
                    ("unsafe", J::B(sig.safety().is_unsafe())),
                    ("inputs", J::A(sig.inputs().iter().map(|t| sf.ty(*t)).collect())),
                    ("output", sf.ty(sig.output())),
                    ("preds", sf.preds(did)),
                    ("span", line(tcx, did)),
                ];
                if let Some(imp) = imp {
                    o.push(("self", sf.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(sf.path(tr.def_id))));
                    }
                }
                fns.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let g = tcx.generics_of(did);
                let mut fields = vec![];
                for f in a.all_fields() {
                    let vis = match f.did.as_local() {
                        Some(l) => eff.is_reachable(l) && f.vis.is_public(),
                        None => true,
                    };
                    fields.push(J::O(vec![
                        ("name", J::s(f.name.to_string())),
                        ("pub", J::B(vis)),
                        ("ty", sf.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                    ]));
                }
                let mut rs = vec![];
                let mut ts = vec![];
                for p in &g.own_params {
                    match p.kind {
                        ty::GenericParamDefKind::Lifetime => rs.push(J::s(p.name.to_string())),
                        ty::GenericParamDefKind::Type { .. } => ts.push(J::s(p.name.to_string())),
                        _ => (),
                    }
                }
                adts.push(J::O(vec![
                    ("path", J::s(sf.path(did))),
                    ("pub", J::B(eff.is_reachable(d))),
                    ("rs", J::A(rs)),
                    ("ts", J::A(ts)),
                    ("fields", J::A(fields)),
                    ("preds", sf.preds(did)),
                    ("span", line(tcx, did)),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let neg = matches!(tcx.impl_polarity(did), ty::ImplPolarity::Negative);
                impls.push(J::O(vec![
                    ("trait", J::s(sf.path(tr.def_id))),
                    ("auto", J::B(tcx.trait_is_auto(tr.def_id))),
                    ("args", J::A(tr.args.types().skip(1).map(|t| sf.ty(t)).collect())),
                    ("neg", J::B(neg)),
                    ("self", sf.ty(tr.self_ty())),
                    ("preds", sf.preds(did)),
                    ("span", line(tcx, did)),
                ]));
            }
            _ => (),
        }
    }
    J::O(vec![("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(impls))])
}
