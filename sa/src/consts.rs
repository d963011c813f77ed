//! Compile-time evaluation: which instantiations are rejected by the compiler.
use crate::interp::*;
use crate::state::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{self, Const, ConstOperand, Location};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};

struct Collect<'tcx> {
    consts: Vec<(DefId, ty::GenericArgsRef<'tcx>, Ty<'tcx>)>,
    tys: Vec<Ty<'tcx>>,
}
impl<'tcx> Visitor<'tcx> for Collect<'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
        match c.const_ {
            Const::Unevaluated(u, t) => {
                if u.promoted.is_none() {
                    self.consts.push((u.def, u.args, t));
                }
            }
            Const::Val(_, t) => self.tys.push(t),
            Const::Ty(t, _) => self.tys.push(t),
        }
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: Location) {
        if let mir::Rvalue::Aggregate(k, _) = r {
            if let mir::AggregateKind::Closure(d, a) = &**k {
                let _ = (d, a);
            }
        }
        self.super_rvalue(r, l);
    }
}
#[derive(PartialEq, Debug)]
pub enum CStat {
    Ok,
    Fails,
    Mixed,
    Unknown,
}

impl<'tcx> Eng<'tcx> {
    fn ours(&self, d: DefId) -> bool {
        d.is_local() || self.tcx.crate_name(d.krate).as_str().starts_with("enum_")
    }
    /// All named constants that compiling `root` evaluates.
    pub fn required_consts(&mut self, root: Instance<'tcx>) -> Vec<(DefId, ty::GenericArgsRef<'tcx>, Ty<'tcx>)> {
        let tcx: TyCtxt<'tcx> = self.tcx;
        let mut seen: Vec<Instance<'tcx>> = vec![root];
        let mut i = 0;
        let mut out: Vec<(DefId, ty::GenericArgsRef<'tcx>, Ty<'tcx>)> = vec![];
        while i < seen.len() {
            let inst = seen[i];
            i += 1;
            if let ty::InstanceKind::Item(d) = inst.def {
                if !self.ours(d) {
                    continue;
                }
            }
            let is_const = matches!(inst.def, ty::InstanceKind::Item(d) if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }));
            let Some(b) = self.body_of(inst, is_const) else { continue };
            let mut c = Collect { consts: vec![], tys: vec![] };
            c.visit_body(&b.body);
            for k in c.consts {
                if self.ours(k.0) && !out.iter().any(|o| o.0 == k.0 && o.1 == k.1) {
                    out.push(k);
                    // and the constants it is made of
                    if let Ok(Some(n)) = Instance::try_resolve(tcx, self.env, k.0, k.1) {
                        if self.ours(n.def_id()) && !seen.contains(&n) {
                            seen.push(n);
                        }
                    }
                }
            }
            let mut tys: Vec<Ty<'tcx>> = c.tys;
            tys.extend(b.body.local_decls.iter().map(|l| l.ty));
            let mut callable: Vec<(DefId, ty::GenericArgsRef<'tcx>)> = vec![];
            for t in tys {
                for g in t.walk() {
                    if let Some(t) = g.as_type() {
                        match t.kind() {
                            ty::FnDef(d, a) => callable.push((*d, a.skip_binder())),
                            ty::Closure(d, a) => callable.push((*d, a)),
                            _ => {}
                        }
                    }
                }
            }
            for (d, a) in callable {
                if let Ok(Some(n)) = Instance::try_resolve(tcx, self.env, d, a) {
                    if matches!(n.def, ty::InstanceKind::Item(_)) && self.ours(n.def_id()) && !seen.contains(&n) {
                        seen.push(n);
                    }
                    // callable arguments of library functions
                    for g in a.iter().flat_map(|g| g.walk()) {
                        if let Some(t) = g.as_type() {
                            if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
                                let (d, a) = match t.kind() {
                                    ty::FnDef(d, a) => (*d, a.skip_binder()),
                                    ty::Closure(d, a) => (*d, *a),
                                    _ => continue,
                                };
                                if let Ok(Some(n)) = Instance::try_resolve(tcx, self.env, d, a) {
                                    if self.ours(n.def_id()) && !seen.contains(&n) {
                                        seen.push(n);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
    /// Does the constant evaluate, for the types under consideration?
    pub fn const_status(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> (CStat, Vec<(State<'tcx>, bool)>) {
        let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, def, args) else { return (CStat::Unknown, vec![]) };
        if self.tcx.item_name(inst.def_id()).as_str() == "NUM_VARIANTS" && self.tcx.impl_of_assoc(inst.def_id()).is_some() && inst.def_id().is_local() {
            return (CStat::Ok, vec![]);
        }
        let Some(b) = self.body_of(inst, true) else {
            // not generic: the compiler has already evaluated it
            let ok = inst.args.is_empty() && self.tcx.const_eval_instance(self.env, inst, rustc_span::DUMMY_SP).is_ok();
            return (if ok { CStat::Ok } else { CStat::Unknown }, vec![]);
        };
        let mut s0 = State::new();
        for l in self.base_facts.clone() {
            s0.add_con(l, false);
        }
        self.const_depth += 1;
        let save = self.release;
        self.release = false;
        let outs = self.call_body(s0, b, vec![]);
        self.release = save;
        self.const_depth -= 1;
        let mut sts = vec![];
        let (mut ok, mut bad, mut unk) = (0, 0, 0);
        for (s, o) in outs {
            match o {
                // a value computed from a constant that fails is no value
                Outcome::Ret(_) if s.lost.is_some() => unk += 1,
                Outcome::Ret(_) => {
                    ok += 1;
                    sts.push((s, true))
                }
                Outcome::Panic(_) => {
                    bad += 1;
                    sts.push((s, false))
                }
                Outcome::Stuck(_) => unk += 1,
            }
        }
        let c = match (ok, bad, unk) {
            (_, _, u) if u > 0 => CStat::Unknown,
            (o, 0, _) if o > 0 => CStat::Ok,
            (0, b, _) if b > 0 => CStat::Fails,
            (0, 0, _) => CStat::Unknown,
            _ => CStat::Mixed,
        };
        (c, sts)
    }
    /// Types that the storage supports compile; the others are rejected.
    pub fn check_width(&mut self, module: &str, s: usize, k: usize, nv: Option<i128>, ops: &[&str]) {
        self.set_cfg(s, k.max(1));
        let Some(t) = self.elem_ty() else { return };
        let key = self.tkey(t);
        let v = self.nv_of(key);
        self.base_facts = match nv {
            Some(n) => vec![v.addc(-n), v.neg().addc(n)],
            None => {
                let lo: i128 = if k == 1 { 2 } else { (1i128 << (k - 1)) + 1 };
                let hi: i128 = (1i128 << k).min(u64::MAX as i128);
                vec![v.addc(-lo), v.neg().addc(hi)]
            }
        };
        let accept = nv.is_none() && k <= s;
        let range = match nv {
            Some(n) => format!("{} variants", n),
            None => format!("{} bits", k),
        };
        for op in ops {
            let site = format!("{}::{}", module, op);
            let Some(f) = self.find_local(&[module, op]) else {
                self.push_unknown("C03", &site, "operation exists", "not found");
                continue;
            };
            let cs = self.required_consts(Instance::mono(self.tcx, f));
            if accept {
                for (d, a, _) in cs {
                    let name = self.tcx.def_path_str(d);
                    let (c, sts) = self.const_status(d, a);
                    match c {
                        CStat::Ok => self.obls.push(Obl { prop: "C03".into(), site: site.clone(), what: format!("a type of {} compiles ({})", range, name), verdict: Verdict::Proved }),
                        CStat::Unknown => self.push_unknown("C03", &site, &format!("a type of {} compiles ({})", range, name), "constant not evaluated"),
                        _ => {
                            for (st, good) in sts {
                                if !good {
                                    self.oblige(&st, "C03", &site, &format!("a type that fits the storage compiles ({})", name), &Cond::B(false));
                                }
                            }
                        }
                    }
                }
            } else {
                let mut all_ok = true;
                let mut fails = false;
                for (d, a, _) in cs {
                    let (c, _) = self.const_status(d, a);
                    match c {
                        CStat::Fails => fails = true,
                        CStat::Ok => {}
                        CStat::Mixed => {
                            // rejected for some of these types only
                            all_ok = false;
                        }
                        CStat::Unknown => all_ok = false,
                    }
                }
                let what = format!("a type {} is rejected at compile time", if nv.is_some() { "with fewer than two variants" } else { "that does not fit the storage block" });
                if fails {
                    self.obls.push(Obl { prop: "C03".into(), site, what, verdict: Verdict::Proved });
                } else if all_ok {
                    self.obls.push(Obl { prop: "C03".into(), site, what, verdict: Verdict::Refuted(format!("every constant evaluates for {} (operation {})", range, op)) });
                } else {
                    self.push_unknown("C03", &site, &what, &range);
                }
            }
        }
    }
}

impl<'tcx> Eng<'tcx> {
    /// Constants that compiling `root` evaluates: which of the types under consideration are rejected?
    /// Without a rejection, the states in which everything evaluates.
    pub fn rejection(&mut self, root: Instance<'tcx>) -> (CStat, Vec<State<'tcx>>) {
        let cs = self.required_consts(root);
        let (mut mixed, mut unknown, mut left) = (0, false, vec![]);
        for (d, a, _) in cs {
            let (c, sts) = self.const_status(d, a);
            match c {
                CStat::Fails => return (CStat::Fails, vec![]),
                CStat::Ok => {}
                CStat::Mixed => {
                    mixed += 1;
                    left = sts.into_iter().filter(|x| x.1).map(|x| x.0).collect();
                }
                CStat::Unknown => unknown = true,
            }
        }
        if unknown || mixed > 1 {
            (CStat::Unknown, vec![])
        } else if mixed == 1 {
            (CStat::Mixed, left)
        } else {
            (CStat::Ok, vec![])
        }
    }
    /// Packed integers of `w` bits.
    pub fn check_packed(&mut self, w: u32) {
        use crate::lin::*;
        use crate::maps::MAP;
        let (nf, gf) = (format!("new{}", w), format!("get{}", w));
        let (Some(n), Some(g)) = (self.find_local(&["packed", &nf]), self.find_local(&["packed", &gf])) else {
            self.push_unknown("L03", "packed", "operation exists", "not found");
            return;
        };
        let t = self.find_local(&["marker", "A"]).map(|d| self.tcx.type_of(d).instantiate_identity().skip_norm_wip()).unwrap();
        let (ni, gi) = (Instance::mono(self.tcx, n), Instance::mono(self.tcx, g));
        let site = format!("PackedU{}", w);
        let full = 1i128 << w;
        for (lo, hi, fits) in [(0, full, true), (full + 1, u64::MAX as i128, false)] {
            self.map_reset();
            let k = self.tkey(t);
            let v = new_var("NUM_VARIANTS", false);
            MAP.with(|m| {
                let mut m = m.borrow_mut();
                m.nv.insert(v, lo > 0);
                m.wide = true;
            });
            let nv = Lin::var(v);
            self.nv.insert(k, nv.clone());
            self.base_facts = vec![nv.addc(-lo), nv.neg().addc(hi)];
            if !fits {
                let what = format!("a type with more than 2^{} variants is rejected at compile time", w);
                match self.rejection(ni) {
                    (CStat::Fails, _) => self.obls.push(Obl { prop: "L03".into(), site: site.clone(), what, verdict: Verdict::Proved }),
                    (CStat::Ok, _) => self.obls.push(Obl { prop: "L03".into(), site: site.clone(), what, verdict: Verdict::Refuted("every constant that compiling `new` evaluates is fine for such types".into()) }),
                    (CStat::Mixed, sts) => {
                        for s in sts {
                            self.oblige(&s, "L03", &site, &what, &Cond::B(false));
                        }
                    }
                    (CStat::Unknown, _) => self.push_unknown("L03", &site, &what, "constants not evaluated"),
                }
                continue;
            }
            for (i, name) in [(ni, "new"), (gi, "get")] {
                for (d, a, _) in self.required_consts(i) {
                    let what = format!("types with up to 2^{} variants compile ({} in {})", w, self.tcx.item_name(d), name);
                    match self.const_status(d, a) {
                        (CStat::Ok, _) => self.obls.push(Obl { prop: "L03".into(), site: site.clone(), what, verdict: Verdict::Proved }),
                        (CStat::Unknown, _) => self.push_unknown("L03", &site, &what, "constant not evaluated"),
                        (_, sts) => {
                            for (s, good) in sts {
                                if !good {
                                    self.oblige(&s, "L03", &site, &what, &Cond::B(false));
                                }
                            }
                        }
                    }
                }
            }
            // every value
            let mut st = State::new();
            for c in self.base_facts.clone() {
                st.add_con(c, true);
            }
            let d = new_var("discr", false);
            MAP.with(|m| {
                m.borrow_mut().ub.insert(d, v);
            });
            let dl = Lin::var(d);
            st.add_con(dl.clone(), true);
            st.add_con(nv.sub(&dl).addc(-1), true);
            self.stack.clear();
            for (s, o) in self.call(st, ni, vec![Val::T(k, IntV::L(dl.clone()))]) {
                match o {
                    Outcome::Ret(p) => {
                        for (s, o) in self.call(s, gi, vec![p.clone()]) {
                            match o {
                                Outcome::Ret(Val::T(_, IntV::L(x))) => {
                                    self.oblige(&s, "L03", &site, "unpacking gives the packed value", &Cond::eq(&x, &dl));
                                }
                                Outcome::Ret(x) => self.push_unknown("L03", &site, "unpacking gives the packed value", &short(&x)),
                                Outcome::Panic(m) => {
                                    self.oblige(&s, "L03", &site, &format!("get does not panic ({})", m), &Cond::B(false));
                                }
                                Outcome::Stuck(m) => self.push_unknown("*", &site, "path followed", &m),
                            }
                        }
                    }
                    Outcome::Panic(m) => {
                        self.oblige(&s, "L03", &site, &format!("new does not panic ({})", m), &Cond::B(false));
                    }
                    Outcome::Stuck(m) => self.push_unknown("*", &site, "path followed", &m),
                }
            }
        }
        self.map_end();
    }
    /// Comparing packed integers of `w` bits.
    pub fn check_packed_order(&mut self, w: u32) {
        use crate::lin::*;
        use crate::maps::MAP;
        const P: &str = "L04";
        let Some(n) = self.find_local(&["packed", &format!("new{}", w)]) else {
            self.push_unknown(P, "packed", "operation exists", "not found");
            return;
        };
        let t = self.find_local(&["marker", "A"]).map(|d| self.tcx.type_of(d).instantiate_identity().skip_norm_wip()).unwrap();
        let ni = Instance::mono(self.tcx, n);
        for op in ["eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "clone"] {
            let site = format!("PackedU{}::{}", w, op);
            let Some(f) = self.find_local(&["order", &format!("{}{}", op, w)]) else {
                self.push_unknown(P, &site, "operation exists", "not found");
                continue;
            };
            let g = self.find_local(&["packed", &format!("get{}", w)]);
            let fi = Instance::mono(self.tcx, f);
            self.map_reset();
            let k = self.tkey(t);
            let v = new_var("NUM_VARIANTS", false);
            MAP.with(|m| {
                let mut m = m.borrow_mut();
                m.nv.insert(v, true);
                m.wide = true;
            });
            let nv = Lin::var(v);
            self.nv.insert(k, nv.clone());
            self.base_facts = vec![nv.clone(), nv.neg().addc(1 << w)];
            let mut st = State::new();
            for c in self.base_facts.clone() {
                st.add_con(c, true);
            }
            let mut ds = vec![];
            for name in ["discr", "other"] {
                let d = new_var(name, false);
                MAP.with(|m| {
                    m.borrow_mut().ub.insert(d, v);
                });
                let dl = Lin::var(d);
                st.add_con(dl.clone(), true);
                st.add_con(nv.sub(&dl).addc(-1), true);
                ds.push(dl);
            }
            self.stack.clear();
            let mut cur: Vec<(State<'tcx>, Vec<Val>)> = vec![(st, vec![])];
            for d in &ds[..if op == "clone" { 1 } else { 2 }] {
                let mut next = vec![];
                for (s, a) in cur {
                    for (mut s, o) in self.call(s, ni, vec![Val::T(k, IntV::L(d.clone()))]) {
                        match o {
                            Outcome::Ret(p) => {
                                let mut a = a.clone();
                                a.push(s.alloc_ref(p));
                                next.push((s, a));
                            }
                            // the packing itself is another property
                            Outcome::Panic(_) => {}
                            Outcome::Stuck(m) => self.push_unknown("*", &site, "path followed", &m),
                        }
                    }
                }
                cur = next;
            }
            let (lt, eq) = (Cond::lt(&ds[0], &ds[1]), Cond::eq(&ds[0], &ds[1]));
            let gt = Cond::lt(&ds[1], &ds[0]);
            for (s, a) in cur {
                for (s, o) in self.call(s, fi, a) {
                    let what = "returned value";
                    match (o, op) {
                        (Outcome::Panic(m), _) => {
                            self.oblige(&s, P, &site, &format!("comparing does not panic ({})", m), &Cond::B(false));
                        }
                        (Outcome::Stuck(m), _) => self.push_unknown("*", &site, "path followed", &m),
                        (Outcome::Ret(p), "clone") => {
                            let Some(g) = g else { continue };
                            for (s, o) in self.call(s, Instance::mono(self.tcx, g), vec![p]) {
                                match o {
                                    Outcome::Ret(Val::T(_, IntV::L(x))) => {
                                        self.oblige(&s, P, &site, "the copy holds the same value", &Cond::eq(&x, &ds[0]));
                                    }
                                    Outcome::Ret(x) => self.push_unknown(P, &site, "the copy holds the same value", &short(&x)),
                                    Outcome::Panic(m) => {
                                        self.oblige(&s, P, &site, &format!("get does not panic ({})", m), &Cond::B(false));
                                    }
                                    Outcome::Stuck(m) => self.push_unknown("*", &site, "path followed", &m),
                                }
                            }
                        }
                        (Outcome::Ret(Val::Bool(c)), _) => {
                            let e = match op {
                                "eq" => eq.clone(),
                                "ne" => eq.not(),
                                "lt" => lt.clone(),
                                "le" => gt.not(),
                                "gt" => gt.clone(),
                                _ => lt.not(),
                            };
                            for (c, e) in [(c.clone(), e.clone()), (c.not(), e.not())] {
                                for s in s.clone().assume(&c) {
                                    self.oblige(&s, P, &site, what, &e);
                                }
                            }
                        }
                        (Outcome::Ret(r), _) => {
                            let r = match (&r, op) {
                                (Val::Agg(1, f), "partial_cmp") => f.first().cloned().unwrap_or(Val::Top),
                                (Val::Agg(0, _), "partial_cmp") => {
                                    self.oblige(&s, P, &site, "any two values can be compared", &Cond::B(false));
                                    continue;
                                }
                                _ => r,
                            };
                            match crate::sets::ordering(&r) {
                                Some(o) => {
                                    let e = match o {
                                        std::cmp::Ordering::Less => &lt,
                                        std::cmp::Ordering::Equal => &eq,
                                        std::cmp::Ordering::Greater => &gt,
                                    };
                                    self.oblige(&s, P, &site, what, e);
                                }
                                None => self.push_unknown(P, &site, what, &short(&r)),
                            }
                        }
                    }
                }
            }
        }
        self.map_end();
    }
}
