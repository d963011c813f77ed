//! Iterators: every short history of calls, starting from a fresh iterator, against the window of
//! positions that are still to come.
use crate::interp::*;
use crate::lin::*;
use crate::maps::MAP;
use crate::state::*;
use crate::val::*;
use crate::vecs::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

pub struct SeqCtx {
    pub module: String,
    pub prefix: &'static str,
    pub prop: &'static str,
    pub back: bool,
    /// array with the items; otherwise item k is the value with discriminant k
    pub arr: Option<u32>,
    /// provided methods that the library overrides
    pub over: Vec<String>,
}
#[derive(Clone)]
struct Win {
    lo: Lin,
    hi: Lin,
}

impl<'tcx> Eng<'tcx> {
    /// Provided iterator methods that the crates implement themselves.
    pub fn overridden(&self, t: Ty<'tcx>) -> Vec<String> {
        let ty::Adt(d, _) = t.kind() else { return vec![] };
        let mut out = vec![];
        for tr in self.tcx.all_traits_including_private() {
            if !matches!(self.tcx.item_name(tr).as_str(), "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator") || self.tcx.crate_name(tr.krate).as_str() != "core" {
                continue;
            }
            for i in self.tcx.all_impls(tr) {
                if i.krate != d.did().krate {
                    continue;
                }
                let st = self.tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty();
                let st = match st.kind() {
                    ty::Ref(_, x, _) => *x,
                    _ => st,
                };
                if matches!(st.kind(), ty::Adt(x, _) if x.did() == d.did()) {
                    for a in self.tcx.associated_items(i).in_definition_order() {
                        if matches!(a.kind, ty::AssocKind::Fn { .. }) {
                            out.push(a.name().to_string());
                        }
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }
    /// A function that only records what it is called with.
    pub fn recorder(&mut self, s: &mut State<'tcx>, tk: u32) -> Val {
        let ret = arr_base("answer", AKind::Vals, tk, false);
        let log = arr_base("log", AKind::Vals, tk, true);
        s.alloc_ref(Val::Opq(Rc::new(Opq::Fun { id: 0, calls: Lin::zero(), log, ret, out: u32::MAX })))
    }
    /// What a recorder has seen.
    pub fn recorded(&mut self, s: &mut State<'tcx>, f: &Val) -> Option<(u32, Lin)> {
        let Val::Ref(p) = f else { return None };
        let Ok(Val::Opq(o)) = s.read_ptr(p) else { return None };
        let Opq::Fun { calls, log, .. } = &*o else { return None };
        Some((*log, s.norm(calls)))
    }
    fn seq_folds(&mut self, cx: &SeqCtx, st: &State<'tcx>, it: &Rc<Ptr>, w: &Win, trail: &str) {
        for o in &cx.over {
            let known = ["next", "next_back", "nth", "nth_back", "size_hint", "len", "count", "last", "fold", "rfold", "for_each"];
            if !known.contains(&o.as_str()) {
                self.push_unknown(cx.prop, &format!("{}::{}{}", cx.module, cx.prefix, o), "agrees with the default method", "method without a model");
            }
        }
        let rem = w.hi.sub(&w.lo);
        for op in ["fold", "for_each", "rfold"] {
            if !cx.over.iter().any(|o| o == op) {
                continue;
            }
            let site = format!("{}::{}{} after {}", cx.module, cx.prefix, op, trail);
            let mut s = st.clone();
            let Ok(x) = s.read_ptr(it) else { continue };
            let tk = cx.arr.map(|a| arr_kind(a).1).unwrap_or(0);
            let f = self.recorder(&mut s, tk);
            let outs = self.seq_call(cx, op, s, vec![x, f.clone()]);
            self.seq_each(cx, &site, outs, &mut |e, mut s, _| {
                let Some((log, n)) = e.recorded(&mut s, &f) else {
                    e.push_unknown(cx.prop, &site, "items passed to the function", "unknown");
                    return;
                };
                match cx.arr {
                    Some(a) if op != "rfold" => {
                        let seq = Seq { len: rem.clone(), pieces: vec![Piece { lo: Lin::zero(), hi: rem.clone(), src: Src::Arr(a, w.lo.clone()) }] };
                        e.check_seq(&s, cx.prop, &site, "passed to the function", log, &n, &seq);
                    }
                    _ => {
                        if !e.oblige(&s, cx.prop, &site, "every item is passed to the function", &Cond::eq(&n, &rem)) {
                            return;
                        }
                        let Some(n) = n.as_int() else {
                            e.push_unknown(cx.prop, &site, "items passed to the function", "unknown number of calls");
                            return;
                        };
                        for i in 0..n {
                            let k = if op == "rfold" { w.hi.addc(-1 - i) } else { w.lo.addc(i) };
                            match s.locate(log, &Lin::int(i), true) {
                                Ok(Loc::Val(v)) => e.seq_item(cx, &site, &s, &v, &k),
                                _ => e.push_unknown(cx.prop, &site, "items passed to the function", "unknown"),
                            }
                        }
                    }
                }
            });
        }
    }
    pub fn output(&self, f: rustc_hir::def_id::DefId) -> Ty<'tcx> {
        let t = self.tcx.instantiate_bound_regions_with_erased(self.tcx.fn_sig(f).instantiate_identity().skip_norm_wip()).output();
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    fn seq_call(&mut self, cx: &SeqCtx, op: &str, st: State<'tcx>, args: Vec<Val>) -> Option<Outs<'tcx>> {
        let name = format!("{}{}", cx.prefix, op);
        let f = self.find_local(&[&cx.module, &name])?;
        self.stack.clear();
        self.opaque_panics = false;
        let inst = Instance::mono(self.tcx, f);
        Some(self.call(st, inst, args))
    }
    fn seq_item(&mut self, cx: &SeqCtx, site: &str, s: &State<'tcx>, v: &Val, k: &Lin) {
        match cx.arr {
            Some(a) => self.check_elem(site, cx.prop, s, v, &Src::Arr(a, Lin::zero()), k),
            None => match v {
                Val::T(_, IntV::L(l)) => {
                    self.oblige(s, cx.prop, site, "the right item is yielded", &Cond::eq(l, k));
                }
                _ => self.push_unknown(cx.prop, site, "the right item is yielded", "unknown value"),
            },
        }
    }
    /// Result of a call that yields the item `k` exactly when `c` holds.
    fn seq_opt(&mut self, cx: &SeqCtx, site: &str, s: &State<'tcx>, v: &Val, c: &Cond, k: &Lin) -> bool {
        match v {
            Val::Agg(1, f) if f.len() == 1 => {
                let ok = self.oblige(s, cx.prop, site, "an item is yielded only when one is left", c);
                if ok {
                    self.seq_item(cx, site, s, &f[0], k);
                }
                ok
            }
            Val::Agg(0, _) => self.oblige(s, cx.prop, site, "an item is yielded while one is left", &c.not()),
            _ => {
                self.push_unknown(cx.prop, site, "an item is yielded while one is left", "unknown value");
                false
            }
        }
    }
    fn seq_num(&mut self, cx: &SeqCtx, site: &str, what: &str, s: &State<'tcx>, v: &Val, k: &Lin) {
        match v.lin() {
            Some(l) => {
                self.oblige(s, cx.prop, site, what, &Cond::eq(&l, k));
            }
            None => self.push_unknown(cx.prop, site, what, "unknown value"),
        }
    }
    fn seq_each(&mut self, cx: &SeqCtx, site: &str, outs: Option<Outs<'tcx>>, f: &mut dyn FnMut(&mut Self, State<'tcx>, Val)) {
        let Some(outs) = outs else {
            self.push_unknown(cx.prop, site, "operation exists", "not found");
            return;
        };
        for (s, o) in outs {
            match o {
                Outcome::Ret(v) => f(self, s, v),
                Outcome::Panic(m) => {
                    self.oblige(&s, cx.prop, site, &format!("no panic ({})", m), &Cond::B(false));
                }
                Outcome::Stuck(m) => self.push_unknown("*", site, "path followed", &m),
            }
        }
    }
    fn seq_observe(&mut self, cx: &SeqCtx, st: &State<'tcx>, it: &Rc<Ptr>, w: &Win, trail: &str) {
        let rem = w.hi.sub(&w.lo);
        let shared = Val::Ref(it.clone());
        for op in ["size", "len", "count", "last"] {
            if op == "last" && cx.arr.is_some() && !cx.over.iter().any(|o| o == "last") {
                continue;
            }
            let site = format!("{}::{}{} after {}", cx.module, cx.prefix, op, trail);
            let mut s = st.clone();
            let arg = match op {
                "size" | "len" => shared.clone(),
                _ => match s.read_ptr(it) {
                    Ok(v) => v,
                    Err(_) => continue,
                },
            };
            let outs = self.seq_call(cx, op, s, vec![arg]);
            let rem = rem.clone();
            self.seq_each(cx, &site, outs, &mut |e, s, v| match op {
                "len" => e.seq_num(cx, &site, "number of items left", &s, &v, &rem),
                "count" => e.seq_num(cx, &site, "number of items left", &s, &v, &rem),
                "last" => {
                    e.seq_opt(cx, &site, &s, &v, &Cond::Ge(rem.addc(-1)).simp(), &w.hi.addc(-1));
                }
                _ => match &v {
                    Val::Agg(_, f) if f.len() == 2 => {
                        e.seq_num(cx, &site, "lower size bound", &s, &f[0], &rem);
                        match &f[1] {
                            Val::Agg(1, g) if g.len() == 1 => e.seq_num(cx, &site, "upper size bound", &s, &g[0], &rem),
                            Val::Agg(0, _) => {
                                e.oblige(&s, cx.prop, &site, "upper size bound is given", &Cond::B(false));
                            }
                            _ => e.push_unknown(cx.prop, &site, "upper size bound", "unknown value"),
                        }
                    }
                    _ => e.push_unknown(cx.prop, &site, "size bounds", "unknown value"),
                },
            });
        }
    }
    fn seq_walk(&mut self, cx: &SeqCtx, st: State<'tcx>, it: Rc<Ptr>, w: Win, depth: usize, trail: String) {
        self.seq_observe(cx, &st, &it, &w, &trail);
        self.seq_folds(cx, &st, &it, &w, &trail);
        if depth == 0 {
            return;
        }
        let mut steps: Vec<&str> = if cx.back { vec!["next", "next_back", "nth"] } else { vec!["next", "nth"] };
        if cx.back && cx.over.iter().any(|o| o == "nth_back") {
            steps.push("nth_back");
        }
        for op in &steps {
            let site = format!("{}::{}{} after {}", cx.module, cx.prefix, op, trail);
            let mut s = st.clone();
            let rem = w.hi.sub(&w.lo);
            let mut args = vec![Val::Ref(it.clone())];
            let mut skip = Lin::zero();
            if op.starts_with("nth") {
                let v = new_var("n", false);
                MAP.with(|m| {
                    m.borrow_mut().free.insert(v);
                });
                skip = Lin::var(v);
                s.add_con(skip.clone(), false);
                s.add_con(skip.neg().addc(u64::MAX as i128), false);
                args.push(int(skip.clone()));
            }
            let some = Cond::lt(&skip, &rem);
            let item = if op.ends_with("_back") { w.hi.addc(-1).sub(&skip) } else { w.lo.add(&skip) };
            let after = if op.ends_with("_back") { Win { lo: w.lo.clone(), hi: item.clone() } } else { Win { lo: item.addc(1), hi: w.hi.clone() } };
            let outs = self.seq_call(cx, op, s, args);
            let mut next: Vec<(State<'tcx>, Win)> = vec![];
            self.seq_each(cx, &site, outs, &mut |e, s, v| {
                if !e.seq_opt(cx, &site, &s, &v, &some, &item) {
                    return;
                }
                if matches!(v, Val::Agg(0, _)) {
                    next.push((s, Win { lo: w.hi.clone(), hi: w.hi.clone() }));
                } else {
                    next.push((s, after.clone()));
                }
            });
            for (s, w2) in next {
                let t = format!("{},{}", trail, op);
                self.seq_walk(cx, s, it.clone(), w2, depth - 1, t);
            }
        }
    }
    /// The iterator over all values of a type.
    pub fn check_values(&mut self, depth: usize) {
        for zero in [false, true] {
            self.map_reset();
            let Some(f) = self.find_local(&["values", "start"]) else {
                self.push_unknown("L02", "values::start", "operation exists", "not found");
                return;
            };
            let t = self.find_local(&["marker", "A"]).map(|d| self.tcx.type_of(d).instantiate_identity().skip_norm_wip()).unwrap();
            let k = self.tkey(t);
            let mut st = State::new();
            let n = if zero {
                Lin::zero()
            } else {
                let v = new_var("NUM_VARIANTS", false);
                MAP.with(|x| x.borrow_mut().nv.insert(v, true));
                let l = Lin::var(v);
                self.base_facts = vec![l.addc(-1), l.neg().addc(u64::MAX as i128)];
                l
            };
            self.nv.insert(k, n.clone());
            for c in self.base_facts.clone() {
                st.add_con(c, true);
            }
            let cx = SeqCtx { module: "values".into(), prefix: "", prop: "L02", back: false, arr: None, over: self.overridden(self.output(f)) };
            let outs = self.call(st, Instance::mono(self.tcx, f), vec![]);
            let trail = if zero { "values() (no variants)" } else { "values()" };
            let mut starts = vec![];
            self.seq_each(&cx, "values::start", Some(outs), &mut |_, s, v| starts.push((s, v)));
            for (mut s, v) in starts {
                let r = s.alloc_ref(v);
                let Val::Ref(p) = r else { continue };
                self.seq_walk(&cx, s, p, Win { lo: Lin::zero(), hi: n.clone() }, depth, trail.into());
            }
        }
        self.map_end();
    }
    /// Iterators over the elements of a packed vector.
    pub fn check_iters(&mut self, module: &str, start: &str, depth: usize) {
        let site = format!("{}::{}", module, start);
        let Some(f) = self.find_local(&[module, start]) else {
            self.push_unknown("C12", &site, "operation exists", "not found");
            return;
        };
        let Some(su) = self.setup(f, false, true) else {
            self.push_unknown("*", &site, "operation analysable", "unexpected representation");
            return;
        };
        let p = su.vecs[0].clone();
        let prefix = if start == "into_iter" { "ii_" } else { "it_" };
        let cx = SeqCtx { module: module.into(), prefix, prop: "C10", back: true, arr: Some(p.arr), over: self.overridden(self.output(f)) };
        self.stack.clear();
        let outs = self.call(su.st.clone(), Instance::mono(self.tcx, f), su.args.clone());
        let mut starts = vec![];
        self.seq_each(&cx, &site, Some(outs), &mut |_, s, v| starts.push((s, v)));
        for (mut s, v) in starts {
            let Val::Ref(q) = s.alloc_ref(v) else { continue };
            self.seq_walk(&cx, s, q, Win { lo: Lin::zero(), hi: p.len.clone() }, depth, start.into());
        }
    }
}
