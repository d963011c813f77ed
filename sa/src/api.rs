//! The public surface of the storage variants, compared with each other.
use crate::interp::*;
use rustc_hir::def::{DefKind, Res};
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_middle::ty::{self, Ty};
use rustc_span::def_id::{CrateNum, DefId};
use std::collections::{BTreeMap, BTreeSet};

/// What a variant offers under one name: the text as written and with its block type abstracted.
type Item = (String, String);

/// Operations that reach storage without any check.
const UNCHECKED: [&str; 4] = ["set_len", "get_raw_unchecked", "set_raw_unchecked", "storage_mut"];

fn words(s: &str, from: &str, to: &str) -> String {
    let is = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(from) && !is(s[..i].chars().last()) && !is(s[i + from.len()..].chars().next()) {
            out += to;
            i += from.len();
        } else {
            let c = s[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

struct Surface<'a> {
    module: &'a str,
    storage: Option<String>,
    block: Option<String>,
    items: BTreeMap<String, Item>,
}
impl Surface<'_> {
    fn norm(&self, s: &str) -> Item {
        let mut s = s.replace(&format!("enum_vec::{}::", self.module), "M::").replace(&format!("{}::", self.module), "M::");
        if let Some(t) = &self.storage {
            s = s.replace(t, "Storage");
        }
        // names of regions carry no meaning
        let b = match &self.block {
            Some(b) => words(&s, b, "Block"),
            None => s.clone(),
        };
        (s, b)
    }
    fn add(&mut self, key: &str, text: &str) {
        let k = self.norm(key).1;
        let t = self.norm(text);
        self.items.entry(k).and_modify(|x| {
            // several inherent impls may offer the same thing under different bounds
            x.0 = format!("{} / {}", x.0, t.0);
            x.1 = format!("{} / {}", x.1, t.1);
        }).or_insert(t);
    }
}

impl<'tcx> Eng<'tcx> {
    /// Names of parameters carry no meaning.
    fn anon(&self, d: DefId, s: String) -> String {
        let mut s = s;
        let mut g = self.tcx.generics_of(d);
        loop {
            for p in &g.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) && p.name.as_str() != "Self" {
                    s = words(&s, p.name.as_str(), &format!("P{}", p.index));
                }
            }
            match g.parent {
                Some(x) => g = self.tcx.generics_of(x),
                None => break,
            }
        }
        let (mut out, mut seen, mut it) = (String::new(), vec![], s.chars().peekable());
        while let Some(c) = it.next() {
            out.push(c);
            if c == '\'' {
                let mut n = String::new();
                while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                    n.push(it.next().unwrap());
                }
                if n == "static" || n == "_" {
                    out += &n;
                } else {
                    let i = seen.iter().position(|x| *x == n).unwrap_or_else(|| {
                        seen.push(n.clone());
                        seen.len() - 1
                    });
                    out += &format!("r{}", i);
                }
            }
        }
        out
    }
    fn text(&self, t: impl std::fmt::Display) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t)))
    }
    fn bounds(&self, d: DefId) -> String {
        let mut v = BTreeSet::new();
        for (c, _) in self.tcx.clauses_of(d).instantiate_identity(self.tcx) {
            v.insert(self.text(c.skip_norm_wip()));
        }
        v.into_iter().collect::<Vec<_>>().join(", ")
    }
    fn params(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        g.own_params.iter().map(|p| match p.kind {
            ty::GenericParamDefKind::Lifetime => format!("'{}", p.name.as_str().trim_start_matches('\'')),
            ty::GenericParamDefKind::Type { has_default, .. } => format!("{}{}", p.name, if has_default { "=" } else { "" }),
            ty::GenericParamDefKind::Const { .. } => format!("const {}", p.name),
        }).collect::<Vec<_>>().join(", ")
    }
    fn signature(&self, d: DefId) -> String {
        let s = self.tcx.anonymize_bound_vars(self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
        format!("{}{} where {}", if self.tcx.is_const_fn(d) { "const " } else { "" }, self.text(s), self.bounds(d))
    }
    fn surface<'a>(&self, krate: CrateNum, module: &'a str) -> Option<Surface<'a>> {
        let tcx = self.tcx;
        let mut s = Surface { module, storage: None, block: None, items: Default::default() };
        let kids = |d: DefId| tcx.module_children(d);
        let m = kids(krate.as_def_id()).iter().find(|c| c.ident.name.as_str() == module && matches!(c.res, Res::Def(DefKind::Mod, _)))?;
        let Res::Def(_, m) = m.res else { return None };
        let mut adts = vec![];
        for c in kids(m) {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(DefKind::Struct | DefKind::Enum | DefKind::Union, d) = c.res {
                adts.push((c.ident.name, d));
            }
        }
        // the storage type, as shown by the accessor
        for (_, d) in &adts {
            for i in tcx.inherent_impls(*d) {
                for a in tcx.associated_items(*i).in_definition_order() {
                    if a.name().as_str() == "storage" && matches!(tcx.def_kind(a.def_id), DefKind::AssocFn) {
                        let o = tcx.fn_sig(a.def_id).instantiate_identity().skip_norm_wip().skip_binder().output().peel_refs();
                        s.storage = Some(self.text(o));
                        if let ty::Adt(_, args) = o.kind() {
                            if let Some(x) = args.types().next() {
                                let e = match x.kind() {
                                    ty::Array(e, _) => *e,
                                    _ => x,
                                };
                                s.block = Some(self.text(e));
                            }
                        }
                    }
                }
            }
        }
        for c in kids(m) {
            if !c.vis.is_public() {
                continue;
            }
            let n = c.ident.name;
            match c.res {
                Res::Def(k @ (DefKind::Struct | DefKind::Enum | DefKind::Union), d) => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut f = vec![];
                    if let ty::Adt(a, _) = t.kind() {
                        for x in a.all_fields() {
                            if x.vis.is_public() {
                                f.push(format!("{}: {}", x.name, self.text(tcx.type_of(x.did).instantiate_identity().skip_norm_wip())));
                            }
                        }
                    }
                    let var: Vec<String> = tcx.variances_of(d).iter().map(|v| format!("{:?}", v)).collect();
                    let x = format!("{:?} <{}> where {} fields {:?} variance {}", k, self.params(d), self.bounds(d), f, var.join(" "));
                    s.add(&format!("type {}", n), &self.anon(d, x));
                }
                Res::Def(DefKind::TyAlias, d) => {
                    s.add(&format!("type {}", n), &format!("= <{}> {}", self.params(d), self.text(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
                }
                Res::Def(DefKind::Fn, d) => s.add(&format!("function {}", n), &self.signature(d)),
                Res::Def(DefKind::Const { .. } | DefKind::Static { .. }, d) => {
                    s.add(&format!("constant {}", n), &self.text(tcx.type_of(d).instantiate_identity().skip_norm_wip()));
                }
                Res::Def(DefKind::Ctor(..), _) => {}
                Res::Def(k, _) => s.add(&format!("{:?} {}", k, n), ""),
                _ => {}
            }
        }
        for (n, d) in &adts {
            for i in tcx.inherent_impls(*d) {
                for a in tcx.associated_items(*i).in_definition_order() {
                    if !tcx.visibility(a.def_id).is_public() {
                        continue;
                    }
                    let text = match tcx.def_kind(a.def_id) {
                        DefKind::AssocFn => self.signature(a.def_id),
                        _ => self.text(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip()),
                    };
                    let on = self.text(tcx.type_of(*i).instantiate_identity().skip_norm_wip());
                    s.add(&format!("{}::{}", n, a.name()), &self.anon(a.def_id, format!("for {} where {}: {}", on, self.bounds(*i), text)));
                }
            }
        }
        let mine: std::collections::HashSet<DefId> = adts.iter().map(|x| x.1).collect();
        for tr in tcx.all_traits_including_private() {
            if !tcx.visibility(tr).is_public() {
                continue;
            }
            for i in tcx.all_impls(tr) {
                if i.krate != krate {
                    continue;
                }
                let r = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                let mut about = false;
                for a in r.args {
                    if let Some(t) = a.as_type() {
                        about |= t.walk().any(|x| matches!(x.as_type().map(|t| *t.kind()), Some(ty::Adt(d, _)) if mine.contains(&d.did())));
                    }
                }
                if !about {
                    continue;
                }
                let mut tys = vec![];
                for a in tcx.associated_items(i).in_definition_order() {
                    if matches!(tcx.def_kind(a.def_id), DefKind::AssocTy) {
                        tys.push(format!("{} = {}", a.name(), self.text(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip())));
                    }
                }
                tys.sort();
                let head = self.anon(i, format!("impl {} for {}", self.text(r.print_only_trait_path()), self.text(r.self_ty())));
                // together, so that parameters keep their names across both
                let body = self.anon(i, format!("{} for {} where {} {} {}", self.text(r.print_only_trait_path()), self.text(r.self_ty()), self.bounds(i), tys.join(" "), if tcx.trait_def(tr).safety.is_unsafe() { "unsafe" } else { "" }));
                s.add(&head, &body);
            }
        }
        // traits that hold without being written down
        if let Some(e) = self.elem_ty() {
            for (n, d) in &adts {
                let args = ty::GenericArgs::for_item(tcx, *d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => e.into(),
                });
                let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                for name in ["Send", "Sync"] {
                    if let Some(tr) = tcx.all_traits_including_private().find(|x| tcx.item_name(*x).as_str() == name && tcx.trait_is_auto(*x) || name == "Send" && Some(*x) == tcx.get_diagnostic_item(rustc_span::sym::Send)) {
                        s.add(&format!("auto trait {} for {}", name, n), if self.implements(t, tr) { "yes" } else { "no" });
                    }
                }
            }
        }
        Some(s)
    }
    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (inf, env) = self.tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
        inf.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
    }

    pub fn check_api(&mut self, modules: &[&str]) {
        let tcx = self.tcx;
        let Some(krate) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "enum_vec") else {
            self.push_unknown("C12", "enum_vec", "crate exists", "not found");
            return;
        };
        let mut all = vec![];
        for m in modules {
            match self.surface(krate, m) {
                Some(s) => all.push(s),
                None => self.push("C12", m, "the variant exists", Verdict::Refuted("no public module of this name".into())),
            }
        }
        let keys: BTreeSet<String> = all.iter().flat_map(|s| s.items.keys().cloned()).collect();
        for k in keys {
            let have: Vec<&Surface> = all.iter().filter(|s| s.items.contains_key(&k)).collect();
            let vote = |f: fn(&Item) -> &String| {
                let mut n: BTreeMap<&String, usize> = Default::default();
                for s in &have {
                    *n.entry(f(&s.items[&k])).or_insert(0) += 1;
                }
                n.into_iter().max_by_key(|x| x.1).unwrap()
            };
            let (raw, blk) = (vote(|x| &x.0), vote(|x| &x.1));
            let (text, pick): (&String, fn(&Item) -> &String) = if raw.1 >= blk.1 { (raw.0, |x| &x.0) } else { (blk.0, |x| &x.1) };
            let mut res = vec![];
            for s in &all {
                let site = format!("{}: {}", s.module, k);
                let v = match s.items.get(&k) {
                    None => Verdict::Refuted(format!("not offered here, but by {}", have.iter().map(|s| s.module).collect::<Vec<_>>().join(", "))),
                    Some(x) if pick(x) != text => Verdict::Refuted(format!("{} | elsewhere {}", pick(x), text)),
                    Some(_) => Verdict::Proved,
                };
                res.push((site, v));
            }
            for (site, v) in res {
                self.push("C12", &site, "offered alike by every variant", v);
            }
        }
        for m in modules {
            self.check_unsafe(krate, m);
        }
    }

    /// Nothing safe hands out storage or skips the checks.
    fn check_unsafe(&mut self, krate: CrateNum, module: &str) {
        let tcx = self.tcx;
        let Some(m) = tcx.module_children(krate.as_def_id()).iter().find(|c| c.ident.name.as_str() == module) else { return };
        let Res::Def(_, m) = m.res else { return };
        let mut found = vec![];
        for c in tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(DefKind::Struct, d) = c.res {
                for i in tcx.inherent_impls(d) {
                    for a in tcx.associated_items(*i).in_definition_order() {
                        if matches!(tcx.def_kind(a.def_id), DefKind::AssocFn) && tcx.visibility(a.def_id).is_public() {
                            found.push((format!("{}::{}", c.ident.name, a.name()), a.name().to_string(), a.def_id));
                        }
                    }
                }
            }
        }
        for (path, name, d) in found {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let safe = sig.safety().is_safe();
            if UNCHECKED.contains(&name.as_str()) {
                let v = if safe { Verdict::Refuted("can be called from safe code without any check".into()) } else { Verdict::Proved };
                self.push("C12", &format!("{}: {}", module, path), "unchecked operation is unsafe", v);
            }
            if safe {
                // a mutable way into blocks
                let bad = sig.output().walk().find_map(|x| {
                    let t = x.as_type()?;
                    match t.kind() {
                        ty::Ref(_, u, mu) if mu.is_mut() && self.is_storage(*u) => Some(self.text(t)),
                        ty::RawPtr(u, mu) if mu.is_mut() && self.is_storage(*u) => Some(self.text(t)),
                        _ => None,
                    }
                });
                let v = match bad {
                    Some(t) => Verdict::Refuted(format!("safe code obtains {}", t)),
                    None => Verdict::Proved,
                };
                self.push("C12", &format!("{}: {}", module, path), "no storage handed out mutably to safe code", v);
            }
        }
    }
    /// Blocks, or a container of blocks.
    fn is_storage(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Uint(u) => *u != ty::UintTy::Usize,
            ty::Slice(t) | ty::Array(t, _) => self.is_storage(*t),
            ty::Adt(d, a) => matches!(self.tcx.item_name(d.did()).as_str(), "Vec" | "SmallVec" | "Box") && a.types().next().is_some_and(|t| self.is_storage(t)),
            _ => false,
        }
    }
}
