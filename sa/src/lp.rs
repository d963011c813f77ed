//! Emptiness of systems of linear inequalities over integer symbols.
use crate::lin::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Res {
    Infeasible,
    /// Rational (or integer, if asked for) point.
    Model(BTreeMap<V, Rat>),
    Unknown,
}

struct Simplex {
    nv: usize, // structural variables
    // rows: basic variable = sum coef * nonbasic
    rows: Vec<BTreeMap<usize, Rat>>,
    basic: Vec<usize>, // basic var of each row
    row_of: Vec<Option<usize>>,
    val: Vec<Rat>,
    lo: Vec<Option<Rat>>,
}

impl Simplex {
    fn new(cons: &[Lin], idx: &HashMap<V, usize>) -> Simplex {
        let nv = idx.len();
        let m = cons.len();
        let mut s = Simplex {
            nv,
            rows: Vec::with_capacity(m),
            basic: Vec::with_capacity(m),
            row_of: vec![None; nv + m],
            val: vec![Rat::ZERO; nv + m],
            lo: vec![None; nv + m],
        };
        for (i, c) in cons.iter().enumerate() {
            let mut r = BTreeMap::new();
            for (v, k) in &c.t {
                r.insert(idx[v], *k);
            }
            s.rows.push(r);
            s.basic.push(nv + i);
            s.row_of[nv + i] = Some(i);
            s.lo[nv + i] = Some(c.c.neg());
        }
        s
    }
    fn check(&mut self) -> Option<bool> {
        let mut iters = 0;
        loop {
            iters += 1;
            if iters > 2000 {
                return None;
            }
            // Bland: smallest basic variable violating its lower bound
            let mut pick: Option<usize> = None;
            for r in 0..self.rows.len() {
                let b = self.basic[r];
                if let Some(l) = self.lo[b] {
                    if self.val[b].lt(l) && pick.is_none_or(|p| self.basic[p] > b) {
                        pick = Some(r);
                    }
                }
            }
            if OVERFLOW.with(|o| o.get()) {
                return None;
            }
            let Some(r) = pick else { return Some(true) };
            let b = self.basic[r];
            let target = self.lo[b].unwrap();
            // find a nonbasic that can increase b: structural vars are free, slacks may only
            // increase (or decrease while above their bound)
            let mut cand: Option<(usize, Rat)> = None;
            for (&j, &c) in &self.rows[r] {
                let ok = if c.n > 0 {
                    true
                } else {
                    match self.lo[j] {
                        None => true,
                        Some(l) => l.lt(self.val[j]),
                    }
                };
                if ok {
                    cand = Some((j, c));
                    break;
                }
            }
            let Some((j, c)) = cand else { return Some(false) };
            let delta = target.sub(self.val[b]).div(c);
            self.pivot(r, j, c);
            self.val[b] = target;
            let nj = self.val[j].add(delta);
            self.val[j] = nj;
            // recompute the other basics
            for r2 in 0..self.rows.len() {
                let bb = self.basic[r2];
                if bb == j {
                    continue;
                }
                let mut x = Rat::ZERO;
                for (&k, &kc) in &self.rows[r2] {
                    x = x.add(kc.mul(self.val[k]));
                }
                self.val[bb] = x;
            }
        }
    }
    fn pivot(&mut self, r: usize, j: usize, c: Rat) {
        let b = self.basic[r];
        // b = c*j + rest  =>  j = b/c - rest/c
        let old = std::mem::take(&mut self.rows[r]);
        let mut nr = BTreeMap::new();
        for (k, kc) in old {
            if k != j {
                nr.insert(k, kc.div(c).neg());
            }
        }
        nr.insert(b, Rat::ONE.div(c));
        for r2 in 0..self.rows.len() {
            if r2 == r {
                continue;
            }
            if let Some(jc) = self.rows[r2].remove(&j) {
                for (k, kc) in &nr {
                    let e = self.rows[r2].entry(*k).or_insert(Rat::ZERO);
                    *e = e.add(jc.mul(*kc));
                    if e.is_zero() {
                        self.rows[r2].remove(k);
                    }
                }
            }
        }
        self.rows[r] = nr;
        self.basic[r] = j;
        self.row_of[b] = None;
        self.row_of[j] = Some(r);
    }
}

thread_local! {
    static WORK: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, u64::MAX)) };
}
/// Restart the budget for linear problems.
pub fn set_budget(n: u64) {
    WORK.with(|w| w.set((0, n)))
}
fn lp(cons: &[Lin]) -> Res {
    WORK.with(|w| {
        let (n, l) = w.get();
        let n = n + cons.len() as u64 + 1;
        w.set((n, l));
        if n > l {
            w.set((0, l));
            std::panic::panic_any(crate::interp::OutOfBudget("too many linear problems"));
        }
    });
    crate::interp::tick();
    OVERFLOW.with(|o| o.set(false));
    let mut idx = HashMap::new();
    let mut rev = vec![];
    for c in cons {
        if c.t.is_empty() {
            if c.c.n < 0 {
                return Res::Infeasible;
            }
            continue;
        }
        for v in c.vars() {
            if !idx.contains_key(&v) {
                idx.insert(v, rev.len());
                rev.push(v);
            }
        }
    }
    let cs: Vec<Lin> = cons.iter().filter(|c| !c.t.is_empty()).cloned().collect();
    let mut s = Simplex::new(&cs, &idx);
    let r = s.check();
    if OVERFLOW.with(|o| o.replace(false)) {
        return Res::Unknown;
    }
    match r {
        None => Res::Unknown,
        Some(false) => Res::Infeasible,
        Some(true) => {
            let _ = s.nv;
            Res::Model(rev.iter().enumerate().map(|(i, v)| (*v, s.val[i])).collect())
        }
    }
}

/// Remove the equalities of the system by unimodular substitutions over the integers.
/// `None`: the system has no integer point.
fn eliminate(cons: &[Lin], subs: &mut Vec<(V, Lin)>, fresh: &mut V) -> Option<Vec<Lin>> {
    let mut cs: Vec<Lin> = cons.to_vec();
    for _ in 0..400 {
        // tighten, and keep the strongest of parallel constraints
        let mut best: HashMap<Vec<(V, i128)>, i128> = HashMap::new();
        let mut order: Vec<Vec<(V, i128)>> = vec![];
        for c in &cs {
            let c = c.tighten();
            if c.t.is_empty() {
                if c.c.n < 0 {
                    return None;
                }
                continue;
            }
            let k: Vec<(V, i128)> = c.t.iter().map(|x| (x.0, x.1.n)).collect();
            match best.get_mut(&k) {
                Some(x) => *x = (*x).min(c.c.n),
                None => {
                    best.insert(k.clone(), c.c.n);
                    order.push(k);
                }
            }
        }
        if OVERFLOW.with(|o| o.get()) {
            return Some(cs);
        }
        let mut eq: Option<(Vec<(V, i128)>, i128)> = None;
        for k in &order {
            let nk: Vec<(V, i128)> = k.iter().map(|x| (x.0, -x.1)).collect();
            if let Some(d) = best.get(&nk) {
                let c = best[k];
                if c + d < 0 {
                    return None;
                }
                if c + d == 0 {
                    let m = k.iter().map(|x| x.1.abs()).min().unwrap();
                    let better = match &eq {
                        None => true,
                        Some((e, _)) => e.iter().map(|x| x.1.abs()).min().unwrap() > m,
                    };
                    if better {
                        eq = Some((k.clone(), c));
                    }
                }
            }
        }
        cs = order.iter().map(|k| Lin { c: Rat::int(best[k]), t: k.iter().map(|x| (x.0, Rat::int(x.1))).collect() }).collect();
        let Some((k, c)) = eq else { return Some(cs) };
        let (xv, a) = *k.iter().min_by_key(|x| x.1.abs()).unwrap();
        let m = a.abs();
        let sg = a.signum();
        // t := sg*x + sum q_i x_i + q_c, so that the equation reads m*t + sum r_i x_i + r_c = 0
        let mut q = Lin::int(c.div_euclid(m));
        let mut rest = Lin::int(c.rem_euclid(m));
        for (v, b) in &k {
            if *v == xv {
                continue;
            }
            q = q.add_scaled(&Lin::var(*v), Rat::int(b.div_euclid(m)));
            rest = rest.add_scaled(&Lin::var(*v), Rat::int(b.rem_euclid(m)));
        }
        let def = if rest.is_const() && rest.c.is_zero() {
            // t = 0
            q.scale(Rat::int(-sg))
        } else {
            if m == 1 {
                unreachable!();
            }
            *fresh -= 1;
            Lin::var(*fresh).sub(&q).scale(Rat::int(sg))
        };
        for x in cs.iter_mut() {
            if x.has(xv) {
                *x = x.subst(xv, &def);
            }
        }
        subs.push((xv, def));
        if OVERFLOW.with(|o| o.get()) {
            return Some(cs);
        }
    }
    Some(cs)
}
fn bb(cons: &mut Vec<Lin>, budget: &mut i32) -> Res {
    OVERFLOW.with(|o| o.set(false));
    bb_at(cons, budget, V::MAX)
}
fn bb_at(cons: &[Lin], budget: &mut i32, fresh: V) -> Res {
    if *budget <= 0 {
        return Res::Unknown;
    }
    *budget -= 1;
    let mut subs = vec![];
    let mut fresh = fresh;
    let Some(mut cs) = eliminate(cons, &mut subs, &mut fresh) else { return Res::Infeasible };
    if OVERFLOW.with(|o| o.replace(false)) {
        return Res::Unknown;
    }
    let r = match lp(&cs) {
        Res::Model(m) => {
            let frac = m.iter().find(|(_, r)| !r.is_int()).map(|(v, r)| (*v, *r));
            match frac {
                None => Res::Model(m),
                Some((v, r)) => {
                    let f = r.floor();
                    let mut unknown = false;
                    let mut found = None;
                    for side in 0..2 {
                        let c = if side == 0 { Lin::int(f).sub(&Lin::var(v)) } else { Lin::var(v).addc(-(f + 1)) };
                        cs.push(c);
                        let r = bb_at(&cs, budget, fresh);
                        cs.pop();
                        match r {
                            Res::Model(m) => {
                                found = Some(m);
                                break;
                            }
                            Res::Unknown => unknown = true,
                            Res::Infeasible => {}
                        }
                    }
                    match found {
                        Some(m) => Res::Model(m),
                        None if unknown => Res::Unknown,
                        None => Res::Infeasible,
                    }
                }
            }
        }
        o => o,
    };
    match r {
        Res::Model(mut m) => {
            for (v, e) in subs.iter().rev() {
                let x = e.eval(&|v| m.get(&v).copied().unwrap_or(Rat::ZERO));
                m.insert(*v, x);
            }
            Res::Model(m)
        }
        o => o,
    }
}

thread_local! {
    static CACHE: RefCell<HashMap<Vec<Lin>, bool>> = RefCell::new(HashMap::new());
    pub static QUERIES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Restrict to the constraints connected with `seed`.
pub fn cone(cons: &[Lin], seed: &[Lin]) -> Vec<Lin> {
    let mut in_set: Vec<bool> = vec![false; cons.len()];
    let mut vars: std::collections::HashSet<V> = seed.iter().flat_map(|l| l.vars()).collect();
    loop {
        let mut ch = false;
        for (i, c) in cons.iter().enumerate() {
            if !in_set[i] && c.vars().any(|v| vars.contains(&v)) {
                in_set[i] = true;
                ch = true;
                vars.extend(c.vars());
            }
        }
        if !ch {
            break;
        }
    }
    cons.iter().zip(&in_set).filter(|(_, b)| **b).map(|(c, _)| c.clone()).collect()
}

/// Is `cons` (plus `extra`) certainly empty over the integers? `cons` alone is assumed non-empty.
pub fn infeasible(cons: &[Lin], extra: &[Lin]) -> bool {
    let ex: Vec<Lin> = extra.iter().map(|e| e.tighten()).collect();
    for e in &ex {
        if e.t.is_empty() && e.c.n < 0 {
            return true;
        }
    }
    let ex: Vec<Lin> = ex.into_iter().filter(|e| !e.t.is_empty()).collect();
    if ex.is_empty() {
        return false;
    }
    // quick syntactic contradiction: e + c == negative constant
    for e in &ex {
        for c in cons {
            if c.t.len() == e.t.len() {
                let s = e.add(c);
                if s.t.is_empty() && s.c.n < 0 {
                    return true;
                }
            }
        }
    }
    let mut cs = cone(cons, &ex);
    cs.extend(ex);
    cs.sort_by(|a, b| a.t.len().cmp(&b.t.len()).then_with(|| {
        let ka: Vec<_> = a.t.iter().map(|x| (x.0, x.1.n)).collect();
        let kb: Vec<_> = b.t.iter().map(|x| (x.0, x.1.n)).collect();
        ka.cmp(&kb).then(a.c.n.cmp(&b.c.n))
    }));
    cs.dedup();
    if let Some(r) = CACHE.with(|c| c.borrow().get(&cs).copied()) {
        return r;
    }
    QUERIES.with(|q| q.set(q.get() + 1));
    let mut budget = 40;
    let t0 = std::time::Instant::now();
    let r = matches!(bb(&mut cs.clone(), &mut budget), Res::Infeasible);
    if t0.elapsed().as_millis() > 100 && std::env::var("SA_SLOW").is_ok() {
        eprintln!("SLOW infeasible {:?} {}", t0.elapsed(), r);
        for c in &cs {
            eprintln!("    {} >= 0", c);
        }
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.insert(cs, r);
    });
    r
}

/// An integer point of the system, if one is found within the budget.
pub fn int_model(cons: &[Lin], budget: i32) -> Res {
    let mut cs: Vec<Lin> = cons.iter().map(|c| c.tighten()).collect();
    let mut b = budget;
    let t0 = std::time::Instant::now();
    let r = bb(&mut cs, &mut b);
    if t0.elapsed().as_millis() > 100 && std::env::var("SA_SLOW").is_ok() {
        eprintln!("SLOW int_model {:?} {}", t0.elapsed(), matches!(r, Res::Unknown));
        for c in &cs {
            eprintln!("    {} >= 0", c);
        }
    }
    r
}
