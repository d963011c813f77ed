//! Mappings between values and discriminants: NUM_VARIANTS symbols, their products, mixed radix.
use crate::arith::product;
use crate::interp::*;
use crate::lin::*;
use crate::specs::judge;
use crate::state::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Default)]
pub struct MapMode {
    pub on: bool,
    /// discriminant symbol -> its NUM_VARIANTS symbol
    pub ub: BTreeMap<V, V>,
    /// NUM_VARIANTS symbols, and whether they are known to be positive
    pub nv: BTreeMap<V, bool>,
    /// further unconstrained numbers
    pub free: BTreeSet<V>,
    facts: HashMap<V, Vec<Lin>>,
    pub wide: bool,
}
thread_local! {
    pub static MAP: RefCell<MapMode> = RefCell::new(Default::default());
}
pub fn on() -> bool {
    MAP.with(|m| m.borrow().on)
}
fn pos(v: V) -> bool {
    MAP.with(|m| m.borrow().nv.get(&v).copied().unwrap_or(false))
}
fn remove(fs: &[V], f: V) -> Vec<V> {
    let mut r = fs.to_vec();
    let i = r.iter().position(|x| *x == f).unwrap();
    r.remove(i);
    r
}
fn mono(fs: &[V]) -> Lin {
    if fs.is_empty() {
        Lin::int(1)
    } else {
        Lin::var(mono_var(fs))
    }
}
/// What a symbol satisfies by being a discriminant, a number of variants or a product of those.
fn facts(v: V) -> Vec<Lin> {
    if let Some(f) = MAP.with(|m| m.borrow().facts.get(&v).cloned()) {
        return f;
    }
    let known = MAP.with(|m| {
        let m = m.borrow();
        m.ub.contains_key(&v) || m.nv.contains_key(&v)
    });
    let fs = mono_factors(v);
    if fs.len() == 1 && !known {
        return vec![];
    }
    let l = Lin::var(v);
    let mut out = vec![l.clone()];
    let distinct: BTreeSet<V> = fs.iter().copied().collect();
    for f in &distinct {
        let rest = remove(&fs, *f);
        if let Some(nv) = MAP.with(|m| m.borrow().ub.get(f).copied()) {
            let mut r2 = rest.clone();
            r2.push(nv);
            out.push(mono(&r2).sub(&mono(&rest)).sub(&l));
        }
    }
    MAP.with(|m| m.borrow_mut().facts.insert(v, out.clone()));
    out
}
/// `a` divides `b` and the rest is made of positive symbols.
fn below(a: &[V], b: &[V]) -> bool {
    if a.len() >= b.len() {
        return false;
    }
    let mut rest = b.to_vec();
    for f in a {
        match rest.iter().position(|x| x == f) {
            Some(i) => {
                rest.remove(i);
            }
            None => return false,
        }
    }
    rest.iter().all(|f| pos(*f))
}
/// Add the facts about all symbols involved.
pub fn close(cs: &mut Vec<Lin>, seed: &[&Lin]) {
    let mut seen: BTreeSet<V> = BTreeSet::new();
    let mut todo: Vec<V> = cs.iter().flat_map(|l| l.vars()).chain(seed.iter().flat_map(|l| l.vars())).collect();
    while let Some(v) = todo.pop() {
        if seen.len() > 400 || !seen.insert(v) {
            continue;
        }
        for f in facts(v) {
            todo.extend(f.vars());
            cs.push(f);
        }
    }
    // larger products of positive numbers are larger
    let ms: Vec<(V, Vec<V>)> = seen.iter().map(|v| (*v, mono_factors(*v))).collect();
    for (x, fx) in &ms {
        if fx.iter().all(|f| pos(*f)) {
            cs.push(Lin::var(*x).addc(-1));
        }
        let up: Vec<&(V, Vec<V>)> = ms.iter().filter(|(_, fy)| below(fx, fy)).collect();
        for (y, fy) in &up {
            if !up.iter().any(|(_, fz)| below(fz, fy)) {
                cs.push(Lin::var(*y).sub(&Lin::var(*x)));
            }
        }
    }
}

/// Concrete values for the symbols under which the state is possible.
pub fn falsify(s: &State<'_>) -> Result<String, String> {
    if let Some(m) = s.lost.as_ref().or(s.imprecise.as_ref()) {
        return Err(format!("imprecise: {}", m));
    }
    let lins: Vec<Lin> = s.cons.iter().map(|c| c.l.clone()).chain(s.eqs.iter().flat_map(|(v, e)| [Lin::var(*v).sub(e), e.sub(&Lin::var(*v))])).collect();
    let mut vars: BTreeSet<V> = lins.iter().flat_map(|l| l.vars()).collect();
    let (ub, nvs, free, wide) = MAP.with(|m| {
        let m = m.borrow();
        (m.ub.clone(), m.nv.clone(), m.free.clone(), m.wide)
    });
    // closure over definitions
    let mut order: Vec<V> = vec![];
    let mut todo: Vec<V> = vars.iter().copied().collect();
    while let Some(v) = todo.pop() {
        order.push(v);
        let mut dep: Vec<V> = vec![];
        let fs = mono_factors(v);
        if fs.len() > 1 {
            dep.extend(fs);
        } else if let Some((x, d)) = symquot_def(v) {
            dep.extend(x.vars());
            dep.extend(d.vars());
        } else if let Some((x, y)) = common_def(v) {
            dep.extend(x.vars());
            dep.extend(y.vars());
        } else if let Some((x, _)) = quot_def(v) {
            dep.extend(x.vars());
        } else if let Some(n) = ub.get(&v) {
            dep.push(*n);
        } else if !nvs.contains_key(&v) && !free.contains(&v) {
            return Err(format!("unknown quantity {} involved", var_name(v)));
        }
        for x in dep {
            if vars.insert(x) {
                todo.push(x);
            }
        }
    }
    let base_n: Vec<V> = vars.iter().copied().filter(|v| nvs.contains_key(v)).collect();
    let base_d: Vec<V> = vars.iter().copied().filter(|v| ub.contains_key(v)).collect();
    let base_f: Vec<V> = vars.iter().copied().filter(|v| free.contains(v)).collect();
    let nvals: &[i128] = if wide { &[1, 2, 3, 255, 256, 257, 4096, 65535, 65536, 65537] } else { &[3, 2, 1, 4, 5, 7] };
    let fvals: &[i128] = &[0, 1, 2, 3, 4, 5, 6, u64::MAX as i128, (u64::MAX - 1) as i128, 1 << 63, i64::MAX as i128];
    let mut seed: u64 = 0x9e3779b97f4a7c15;
    let mut rnd = |n: usize| -> usize {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) as usize % n
    };
    let mut ev: HashMap<V, i128> = HashMap::new();
    // types with many variants, one or two at a time among small ones
    let large: &[i128] = &[128, 129, 255, 256, 257, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 40, 1 << 62, 32767, 32768, 65535, (1 << 32) - 1, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 2, (1 << 64) - 1];
    for round in 0..12000 {
        ev.clear();
        for v in &base_n {
            let n = if round >= 6000 {
                if rnd(base_n.len().max(2)) == 0 { large[rnd(large.len())] } else { [2, 1, 3][rnd(3)] }
            } else {
                nvals[rnd(nvals.len())]
            };
            ev.insert(*v, n);
        }
        for v in &base_f {
            ev.insert(*v, fvals[rnd(fvals.len())]);
        }
        for v in &base_d {
            let n = ev[&ub[v]];
            let c = [0, 1, n - 1, n / 2, rnd(n.max(1) as usize) as i128];
            ev.insert(*v, c[rnd(5)].clamp(0, (n - 1).max(0)));
        }
        if lins.iter().all(|l| eval(l, &mut ev).map(|(n, d)| n >= 0 && d > 0).unwrap_or(false)) && s.eqs.iter().all(|(v, e)| eval(&Lin::var(*v).sub(e), &mut ev).map(|x| x.0 == 0).unwrap_or(false)) {
            let mut d: Vec<String> = base_n.iter().chain(&base_d).chain(&base_f).map(|v| format!("{}={}", var_name(*v), ev[v])).collect();
            d.truncate(10);
            return Ok(d.join(" "));
        }
    }
    Err("no concrete example found".into())
}
fn value(v: V, ev: &mut HashMap<V, i128>) -> Option<i128> {
    if let Some(x) = ev.get(&v) {
        return Some(*x);
    }
    let fs = mono_factors(v);
    let r = if fs.len() > 1 {
        let mut p: i128 = 1;
        for f in fs {
            p = p.checked_mul(value(f, ev)?)?;
        }
        p
    } else if let Some((x, d)) = symquot_def(v) {
        let (x, d) = (eval(&x, ev)?, eval(&d, ev)?);
        if x.1 != 1 || d.1 != 1 || d.0 <= 0 {
            return None;
        }
        x.0.div_euclid(d.0)
    } else if let Some((x, y)) = common_def(v) {
        let (x, y) = (eval(&x, ev)?, eval(&y, ev)?);
        if x.1 != 1 || y.1 != 1 || x.0 < 0 || y.0 < 0 {
            return None;
        }
        x.0 & y.0
    } else {
        let (x, n) = quot_def(v)?;
        let x = eval(&x, ev)?;
        if x.1 != 1 {
            return None;
        }
        x.0.div_euclid(n)
    };
    ev.insert(v, r);
    Some(r)
}
fn eval(l: &Lin, ev: &mut HashMap<V, i128>) -> Option<(i128, i128)> {
    let l2 = l.clone();
    let mut r = l2.c;
    for (v, c) in &l2.t {
        let x = value(*v, ev)?;
        if x.abs() > 1 << 90 {
            return None;
        }
        r = r.add(c.mul(Rat::int(x)));
    }
    Some((r.n, r.d))
}

impl<'tcx> Eng<'tcx> {
    fn like_trait(&self) -> Option<DefId> {
        self.tcx.all_traits_including_private().find(|t| self.tcx.item_name(*t).as_str() == "EnumLike" && self.tcx.crate_name(t.krate).as_str() == "enum_like")
    }
    fn like_item(&self, name: &str, t: Ty<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let tr = self.like_trait()?;
        let it = self.tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == name)?;
        Some((it.def_id, self.tcx.mk_args(&[t.into()])))
    }
    /// Number of values of a type, from its structure.
    fn count(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>) -> R<Lin> {
        if self.is_marker(t) {
            let k = self.tkey(t);
            return Ok(self.nv_of(k));
        }
        match t.kind() {
            ty::Bool => Ok(Lin::int(2)),
            ty::Tuple(ts) => {
                let mut p = Lin::int(1);
                for t in ts.iter() {
                    let c = self.count(st, t)?;
                    p = product(st, &p, &c)?;
                }
                Ok(p)
            }
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let c = self.count(st, *t)?;
                let mut p = Lin::int(1);
                for _ in 0..n {
                    p = product(st, &p, &c)?;
                }
                Ok(p)
            }
            ty::Adt(..) => {
                let vs = self.variants_of(t);
                let mut sum = Lin::zero();
                for (_, fs) in vs {
                    let c = self.count_fields(st, &fs)?;
                    sum = sum.add(&c);
                }
                Ok(sum)
            }
            _ => Err(Need::Fail(format!("values of {}", t))),
        }
    }
    fn count_fields(&mut self, st: &mut State<'tcx>, fs: &[Ty<'tcx>]) -> R<Lin> {
        let mut p = Lin::int(1);
        for t in fs {
            let c = self.count(st, *t)?;
            p = product(st, &p, &c)?;
        }
        Ok(p)
    }
    fn variants_of(&self, t: Ty<'tcx>) -> Vec<(String, Vec<Ty<'tcx>>)> {
        let ty::Adt(d, a) = t.kind() else { return vec![] };
        d.variants()
            .iter()
            .map(|v| {
                let fs: Vec<Ty<'tcx>> = v
                    .fields
                    .iter()
                    .map(|f| self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, a)))
                    .filter(|t| !matches!(t.kind(), ty::Adt(d, _) if d.is_phantom_data()))
                    .collect();
                (v.name.to_string(), fs)
            })
            .collect()
    }
    /// All shapes of values of a type; component values are symbolic.
    fn inhabit(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, cap: usize) -> Vec<Val> {
        if self.is_marker(t) {
            let k = self.tkey(t);
            let nv = self.nv_of(k);
            if nv.as_int() == Some(0) {
                return vec![];
            }
            let d = new_var("discr", false);
            if let Some((n, _)) = nv.t.first() {
                let n = *n;
                MAP.with(|m| {
                    let mut m = m.borrow_mut();
                    m.ub.insert(d, n);
                });
            }
            st.add_con(Lin::var(d), true);
            st.add_con(nv.sub(&Lin::var(d)).addc(-1), true);
            return vec![Val::T(k, IntV::L(Lin::var(d)))];
        }
        let prod = |e: &mut Self, st: &mut State<'tcx>, v: u32, ts: &[Ty<'tcx>]| -> Vec<Val> {
            let mut acc: Vec<Vec<Val>> = vec![vec![]];
            for t in ts {
                let mut next = vec![];
                for a in &acc {
                    for x in e.inhabit(st, *t, cap) {
                        let mut a = a.clone();
                        a.push(x);
                        next.push(a);
                        if next.len() > cap {
                            break;
                        }
                    }
                }
                acc = next;
                acc.truncate(cap);
            }
            acc.into_iter().map(|f| agg(v, f)).collect()
        };
        match t.kind() {
            ty::Bool => vec![Val::Bool(Cond::B(false)), Val::Bool(Cond::B(true))],
            ty::Tuple(ts) => {
                let ts: Vec<Ty<'tcx>> = ts.iter().collect();
                prod(self, st, 0, &ts)
            }
            ty::Array(t, n) => {
                let ts: Vec<Ty<'tcx>> = vec![*t; n.try_to_target_usize(self.tcx).unwrap_or(0) as usize];
                prod(self, st, 0, &ts)
            }
            ty::Adt(d, a) => {
                let mut out = vec![];
                for (i, v) in d.variants().iter().enumerate() {
                    let ts: Vec<Ty<'tcx>> = v.fields.iter().map(|f| self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, a))).collect();
                    out.extend(prod(self, st, i as u32, &ts));
                }
                out
            }
            _ => vec![],
        }
    }
    fn same(&self, a: &Val, b: &Val) -> Option<Cond> {
        Some(match (a, b) {
            (Val::T(k, IntV::L(x)), Val::T(l, IntV::L(y))) if k == l => Cond::eq(x, y),
            (Val::Bool(x), Val::Bool(y)) => match (x, y) {
                (Cond::B(p), Cond::B(q)) => Cond::B(p == q),
                (Cond::B(p), c) | (c, Cond::B(p)) => {
                    if *p {
                        c.clone()
                    } else {
                        c.not()
                    }
                }
                _ => return None,
            },
            (Val::Int(IntV::L(x)), Val::Int(IntV::L(y))) => Cond::eq(x, y),
            (Val::Agg(v, f), Val::Agg(w, g)) => {
                if v != w {
                    return Some(Cond::B(false));
                }
                if f.len() != g.len() {
                    return None;
                }
                let mut c = Cond::B(true);
                for (x, y) in f.iter().zip(g.iter()) {
                    c = Cond::and(&c, &self.same(x, y)?);
                }
                c
            }
            (a, b) if a == b => Cond::B(true),
            _ => return None,
        })
    }
    pub fn map_reset(&mut self) {
        self.set_cfg(0, 0);
        MAP.with(|m| {
            *m.borrow_mut() = MapMode { on: true, ..Default::default() };
        });
    }
    pub fn map_end(&mut self) {
        MAP.with(|m| *m.borrow_mut() = Default::default());
        self.set_cfg(0, 0);
    }
    fn markers_in(&mut self, t: Ty<'tcx>, out: &mut Vec<Ty<'tcx>>) {
        if self.is_marker(t) {
            if !out.contains(&t) {
                out.push(t);
            }
            return;
        }
        match t.kind() {
            ty::Tuple(ts) => ts.iter().for_each(|t| self.markers_in(t, out)),
            ty::Array(t, _) => self.markers_in(*t, out),
            ty::Adt(..) => {
                for (_, fs) in self.variants_of(t) {
                    for f in fs {
                        self.markers_in(f, out);
                    }
                }
            }
            _ => {}
        }
    }
    fn map_oblige(&mut self, st: &State<'tcx>, prop: &str, site: &str, what: &str, c: &Cond) -> bool {
        let mut s = st.clone();
        let verdict = judge(&mut s, c);
        let ok = verdict == Verdict::Proved;
        if self.trace && !ok {
            eprintln!("OBL {} {} {}: {:?}  {:?}", prop, site, what, verdict, c);
            s.dump();
        }
        self.obls.push(Obl { prop: prop.into(), site: site.into(), what: what.into(), verdict });
        ok
    }
    /// One type: the mapping is a bijection onto 0..NUM_VARIANTS.
    pub fn check_map(&mut self, module: &str, alias: &str, prop: &str) {
        let site = format!("{}::{}", module, alias);
        let Some(d) = self.find_local(&[module, alias]) else {
            self.push_unknown("*", &site, "type exists", "not found");
            return;
        };
        let t = self.tcx.normalize_erasing_regions(self.env, self.tcx.type_of(d).instantiate_identity());
        let mut ms = vec![];
        self.markers_in(t, &mut ms);
        // every number of values positive, then one of them zero
        for zero in std::iter::once(None).chain(ms.iter().copied().map(Some)) {
            self.map_reset();
            let mut facts = vec![];
            for m in &ms {
                let k = self.tkey(*m);
                if Some(*m) == zero {
                    self.nv.insert(k, Lin::zero());
                } else {
                    let v = new_var(&format!("NUM_VARIANTS({})", self.tcx.item_name(m.ty_adt_def().unwrap().did())), false);
                    self.nv.insert(k, Lin::var(v));
                    MAP.with(|x| x.borrow_mut().nv.insert(v, true));
                    facts.push(Lin::var(v).addc(-1));
                    facts.push(Lin::var(v).neg().addc(u64::MAX as i128));
                }
            }
            let mut st = State::new();
            for f in &facts {
                st.add_con(f.clone(), true);
            }
            let n = match self.count(&mut st, t) {
                Ok(n) => n,
                Err(m) => {
                    self.push_unknown(prop, &site, "number of values", &format!("{:?}", m));
                    return;
                }
            };
            // (partial products of a type without values stay countable as well)
            if let Some(z) = zero {
                let k = self.tkey(z);
                self.nv.insert(k, Lin::int(1));
                if let Ok(m) = self.count(&mut st, t) {
                    if !m.is_const() {
                        facts.push(m.neg().addc(u64::MAX as i128));
                    }
                }
                self.nv.insert(k, Lin::zero());
            }
            // types with more values than usize can count do not compile
            if !n.is_const() {
                facts.push(n.neg().addc(u64::MAX as i128));
            }
            self.base_facts = facts;
            let tag = match zero {
                None => String::new(),
                Some(m) => format!(" ({} has no values)", m),
            };
            self.map_case(t, &site, prop, &n, &tag);
        }
        self.too_many_values(t, &ms, &site, prop);
        self.map_end();
    }
    /// Number of values when the components have the given numbers of values.
    fn count_const(&self, t: Ty<'tcx>, of: &HashMap<Ty<'tcx>, u128>) -> Option<u128> {
        if self.is_marker(t) {
            return of.get(&t).copied();
        }
        let all = |ts: &[Ty<'tcx>]| ts.iter().try_fold(1u128, |p, t| p.checked_mul(self.count_const(*t, of)?));
        match t.kind() {
            ty::Bool => Some(2),
            ty::Tuple(ts) => all(&ts.iter().collect::<Vec<_>>()),
            ty::Array(t, n) => self.count_const(*t, of)?.checked_pow(n.try_to_target_usize(self.tcx)? as u32),
            ty::Adt(..) => self.variants_of(t).iter().try_fold(0u128, |s, v| s.checked_add(all(&v.1)?)),
            _ => None,
        }
    }
    /// A type with more values than `usize` can count does not compile.
    fn too_many_values(&mut self, t: Ty<'tcx>, ms: &[Ty<'tcx>], site: &str, prop: &str) {
        let mut tries: Vec<HashMap<Ty<'tcx>, u128>> = vec![];
        let with = |f: &dyn Fn(usize) -> u128| -> HashMap<Ty<'tcx>, u128> { ms.iter().enumerate().map(|(i, m)| (*m, f(i))).collect() };
        for v in [u64::MAX as u128, 1 << 63, 1 << 33, 1 << 22, 1 << 17, 1 << 13, 2050, 520, 258, 130, 65, 33, 17, 9, 8, 6, 5, 4, 3] {
            let a = with(&|_| v);
            if self.count_const(t, &a).map(|c| c >> 64 > 0 && c >> 100 == 0).unwrap_or(false) {
                tries.push(a);
                break;
            }
        }
        for i in 0..ms.len().min(6) {
            tries.push(with(&|j| if i == j { u64::MAX as u128 } else { 1 }));
            tries.push(with(&|j| if i == j || i + 1 == j { (1 << 33) + 1 } else { 1 }));
        }
        tries.retain(|a| self.count_const(t, a).map(|c| c >> 64 > 0 && c >> 100 == 0).unwrap_or(false));
        let Some(cn) = self.like_item("NUM_VARIANTS", t) else { return };
        for a in tries {
            self.map_reset();
            for m in ms {
                let k = self.tkey(*m);
                self.nv.insert(k, Lin::int(a[m] as i128));
            }
            self.base_facts = vec![];
            let mut st = State::new();
            (self.const_panic, self.const_stuck) = (false, false);
            let verdict = match self.named_const(&mut st, cn.0, cn.1, self.tcx.types.usize) {
                Err(_) if self.const_panic && !self.const_stuck => Verdict::Proved,
                Err(m) => Verdict::Unknown(format!("{:?}", m)),
                Ok(Val::Int(IntV::L(l))) if l.is_const() && st.lost.is_none() && st.imprecise.is_none() => {
                    let mut d: Vec<String> = ms.iter().map(|m| format!("NUM_VARIANTS({})={}", self.tcx.item_name(m.ty_adt_def().unwrap().did()), a[m])).collect();
                    d.truncate(6);
                    Verdict::Refuted(format!("{}; claims {} variants", d.join(" "), l.as_int().unwrap_or(-1)))
                }
                Ok(v) => Verdict::Unknown(short(&v)),
            };
            self.obls.push(Obl { prop: prop.into(), site: site.into(), what: "a type with too many values to count does not compile".into(), verdict });
        }
    }
    fn map_case(&mut self, t: Ty<'tcx>, site: &str, prop: &str, n: &Lin, tag: &str) {
        let mut st = State::new();
        for f in self.base_facts.clone() {
            st.add_con(f, true);
        }
        let (Some(cn), Some(td), Some(fd)) = (self.like_item("NUM_VARIANTS", t), self.like_item("to_discr", t), self.like_item("from_discr", t)) else {
            self.push_unknown(prop, site, "EnumLike", "trait not found");
            return;
        };
        let usize_ty = self.tcx.types.usize;
        match self.named_const(&mut st, cn.0, cn.1, usize_ty) {
            Ok(Val::Int(IntV::L(l))) => {
                self.map_oblige(&st, prop, site, &format!("NUM_VARIANTS is the number of values{}", tag), &Cond::eq(&l, n));
            }
            r => {
                self.push_unknown(prop, site, "NUM_VARIANTS evaluates", &format!("{:?}", r.err()));
            }
        }
        let (Ok(Some(ti)), Ok(Some(fi))) = (Instance::try_resolve(self.tcx, self.env, td.0, td.1), Instance::try_resolve(self.tcx, self.env, fd.0, fd.1)) else {
            self.push_unknown(prop, site, "mapping resolves", "");
            return;
        };
        let vals = self.inhabit(&mut st, t, 24);
        let vs = self.variants_of(t);
        let derived = site.contains("derive");
        // first discriminant of every variant with fields
        let units = vs.iter().filter(|v| v.1.is_empty()).count() as i128;
        let mut start: Vec<Option<(Lin, Lin)>> = vec![];
        if derived && vs.len() > 1 {
            let (mut u, mut off) = (0, Lin::int(units));
            for (_, fs) in &vs {
                if fs.is_empty() {
                    start.push(Some((Lin::int(u), Lin::int(u + 1))));
                    u += 1;
                } else {
                    match self.count_fields(&mut st, fs) {
                        Ok(c) => {
                            let e = off.add(&c);
                            start.push(Some((off.clone(), e.clone())));
                            off = e;
                        }
                        Err(_) => start.push(None),
                    }
                }
            }
        }
        for v in vals {
            let shape = shape_name(&v, &vs);
            for (s, o) in self.call(st.clone(), ti, vec![v.clone()]) {
                let d = match o {
                    Outcome::Ret(Val::Int(IntV::L(l))) => l,
                    Outcome::Ret(x) => {
                        self.push_unknown(prop, site, "discriminant", &short(&x));
                        continue;
                    }
                    Outcome::Panic(m) => {
                        self.map_oblige(&s, prop, site, &format!("to_discr of {} does not panic ({}){}", shape, m, tag), &Cond::B(false));
                        continue;
                    }
                    Outcome::Stuck(m) => {
                        self.push_unknown("*", site, "path followed", &m);
                        continue;
                    }
                };
                let inr = Cond::and(&Cond::Ge(d.clone()).simp(), &Cond::lt(&d, n));
                self.map_oblige(&s, prop, site, &format!("discriminant of {} is below NUM_VARIANTS{}", shape, tag), &inr);
                if let (Val::Agg(i, f), true) = (&v, !start.is_empty()) {
                    if let Some(Some((lo, hi))) = start.get(*i as usize) {
                        let c = Cond::and(&Cond::le(lo, &d), &Cond::lt(&d, hi));
                        let what = if f.is_empty() { format!("field-less variant {} is number {}", shape, lo) } else { format!("discriminants of {} follow those of the variants before it", shape) };
                        self.map_oblige(&s, "D02", site, &format!("{}{}", what, tag), &c);
                    }
                }
                for (s2, o2) in self.call(s.clone(), fi, vec![int(d.clone())]) {
                    match o2 {
                        Outcome::Ret(w) => match self.same(&v, &w) {
                            Some(c) => {
                                self.map_oblige(&s2, prop, site, &format!("from_discr gives {} back{}", shape, tag), &c);
                            }
                            None => self.push_unknown(prop, site, &format!("from_discr gives {} back", shape), &format!("{} {:?}", short(&w), s2.lost)),
                        },
                        Outcome::Panic(m) => {
                            self.map_oblige(&s2, prop, site, &format!("from_discr of {} does not panic ({}){}", shape, m, tag), &Cond::B(false));
                        }
                        Outcome::Stuck(m) => self.push_unknown("*", site, "path followed", &m),
                    }
                }
            }
        }
    }
}
fn shape_name(v: &Val, vs: &[(String, Vec<Ty<'_>>)]) -> String {
    match v {
        Val::Agg(i, f) if vs.len() > 1 => format!("{}{}", vs.get(*i as usize).map(|x| x.0.as_str()).unwrap_or("?"), if f.is_empty() { "".into() } else { format!("/{}", f.len()) }),
        Val::Bool(Cond::B(b)) => format!("{}", b),
        _ => "a value".into(),
    }
}
