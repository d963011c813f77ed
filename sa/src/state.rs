//! Abstract states: memory plus linear, bit-level and universally quantified facts.
use crate::bits::{self, Bdd, BitVar, Word};
use crate::lin::*;
use crate::lp;
use crate::val::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// The analysis needs a case distinction before it can go on.
#[derive(Clone, Debug)]
pub enum Need {
    Cond(Cond),
    /// make a bounded expression constant
    Concretize(Lin),
    /// the operation is not supported: the result is unknown
    Fail(String),
}
pub type R<T> = Result<T, Need>;

#[derive(Clone, Debug, PartialEq)]
pub struct Con {
    pub l: Lin,
    /// an over-approximated fact (never restricts real executions), as opposed to a path condition
    pub fact: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Residue {
    pub base: Lin,
    pub n: i128,
    pub q: Lin,
    pub r: i128,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Forall {
    pub t: V,
    pub n: Lin,
    pub cond: Bdd,
}

/// One recorded case distinction.
pub struct Split {
    pub id: u32,
    pub branches: usize,
    pub cons: Rc<Vec<Con>>,
    pub eqs: Rc<Vec<(V, Lin)>>,
    pub resid: Rc<Vec<Residue>>,
    pub bitpc: Bdd,
    pub foralls: Rc<Vec<Forall>>,
}

/// How a conditional counter of a loop advanced: (selector, iteration symbol, path condition of advancing)
#[derive(Clone, Debug, PartialEq)]
pub struct CounterInfo {
    pub var: V,
    pub sel: u32,
    pub t: V,
    pub inc: Bdd,
    pub exact: bool,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub heap: Vec<Val>,
    pub cons: Rc<Vec<Con>>,
    pub eqs: Rc<Vec<(V, Lin)>>,
    pub resid: Rc<Vec<Residue>>,
    pub bitpc: Bdd,
    pub foralls: Rc<Vec<Forall>>,
    pub splits: Vec<(Rc<Split>, usize)>,
    pub counters: Rc<Vec<CounterInfo>>,
    /// set when the state no longer describes real executions exactly (over-approximation)
    pub imprecise: Option<Rc<String>>,
    /// set when an effect could not be modelled: nothing may be concluded
    pub lost: Option<Rc<String>>,
    pub unwinding: Option<Rc<String>>,
    pub statics: Vec<(Val, Root)>,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub body: crate::interp::BodyRef<'tcx>,
    pub locals: Vec<Val>,
}

thread_local! {
    static FACTS: RefCell<HashMap<V, Vec<Lin>>> = RefCell::new(HashMap::new());
    static MONO: RefCell<(HashMap<Vec<V>, V>, HashMap<V, Vec<V>>)> = RefCell::new(Default::default());
    static SYMQ: RefCell<HashMap<(Lin, Lin), V>> = RefCell::new(HashMap::new());
    static COMMON: RefCell<Vec<((Lin, Lin), V)>> = RefCell::new(vec![]);
    static QUOT: RefCell<(HashMap<(Lin, i128), V>, HashMap<V, (Lin, i128)>)> = RefCell::new(Default::default());
    static SPLIT_ID: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
thread_local! {
    static WORDV: RefCell<(HashMap<Word, V>, HashMap<V, Word>, HashMap<Lin, Word>)> = RefCell::new(Default::default());
    /// array of elements -> how many of them are valid
    static VALID: RefCell<HashMap<u32, Lin>> = RefCell::new(HashMap::new());
    static ELEM_NV: RefCell<Option<Lin>> = const { RefCell::new(None) };
}
/// The word whose value a symbol stands for.
pub fn word_def(v: V) -> Option<Word> {
    WORDV.with(|w| w.borrow().1.get(&v).cloned())
}
pub fn set_elem_nv(l: Option<Lin>) {
    ELEM_NV.with(|e| *e.borrow_mut() = l);
    VALID.with(|v| v.borrow_mut().clear());
}
pub fn set_valid(arr: u32, len: &Lin) {
    VALID.with(|v| v.borrow_mut().insert(arr, len.clone()));
}
pub fn next_split_id() -> u32 {
    SPLIT_ID.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}
/// Facts that hold by the definition of a symbol.
pub fn facts_of(v: V) -> Vec<Lin> {
    FACTS.with(|f| f.borrow().get(&v).cloned().unwrap_or_default())
}
pub fn add_fact_of(v: V, l: Lin) {
    FACTS.with(|f| {
        let mut f = f.borrow_mut();
        let e = f.entry(v).or_default();
        if !e.contains(&l) {
            e.push(l);
        }
    })
}
/// Factors of a product symbol.
pub fn mono_factors(v: V) -> Vec<V> {
    MONO.with(|m| m.borrow().1.get(&v).cloned().unwrap_or_else(|| vec![v]))
}
pub fn mono_var(fs: &[V]) -> V {
    if fs.len() == 1 {
        return fs[0];
    }
    let mut fs = fs.to_vec();
    fs.sort();
    if let Some(v) = MONO.with(|m| m.borrow().0.get(&fs).copied()) {
        return v;
    }
    let name: Vec<String> = fs.iter().map(|v| var_name(*v)).collect();
    let v = new_var(&name.join("*"), fs.iter().any(|v| var_taint(*v)));
    MONO.with(|m| {
        let mut m = m.borrow_mut();
        m.0.insert(fs.clone(), v);
        m.1.insert(v, fs);
    });
    v
}
pub fn symquot_var(k: &(Lin, Lin)) -> V {
    if let Some(v) = SYMQ.with(|m| m.borrow().get(k).copied()) {
        return v;
    }
    let v = new_var(&format!("({})/({})", k.0, k.1), k.0.tainted() || k.1.tainted());
    SYMQ.with(|m| m.borrow_mut().insert(k.clone(), v));
    v
}
pub fn symquot_def(v: V) -> Option<(Lin, Lin)> {
    SYMQ.with(|m| m.borrow().iter().find(|(_, x)| **x == v).map(|(k, _)| k.clone()))
}
/// The bits two numbers have in common.
pub fn common_var(x: &Lin, y: &Lin) -> V {
    let k = if format!("{}", x) <= format!("{}", y) { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
    if let Some(v) = COMMON.with(|m| m.borrow().iter().find(|(l, _)| *l == k).map(|x| x.1)) {
        return v;
    }
    let v = new_var(&format!("({})&({})", k.0, k.1), k.0.tainted() || k.1.tainted());
    COMMON.with(|m| m.borrow_mut().push((k, v)));
    v
}
pub fn common_def(v: V) -> Option<(Lin, Lin)> {
    COMMON.with(|m| m.borrow().iter().find(|(_, x)| *x == v).map(|(k, _)| k.clone()))
}
pub fn quot_def(v: V) -> Option<(Lin, i128)> {
    QUOT.with(|q| q.borrow().1.get(&v).cloned())
}

pub enum Loc {
    /// undecided (or base): symbolic read of this version at this index
    Sel(u32, Lin),
    Val(Val),
    /// field `t` of a whole block
    Field(Word, usize),
}

impl<'tcx> State<'tcx> {
    pub fn new() -> Self {
        State {
            frames: vec![],
            heap: vec![],
            cons: Rc::new(vec![]),
            eqs: Rc::new(vec![]),
            resid: Rc::new(vec![]),
            bitpc: bits::T,
            foralls: Rc::new(vec![]),
            splits: vec![],
            counters: Rc::new(vec![]),
            imprecise: None,
            lost: None,
            unwinding: None,
            statics: vec![],
        }
    }
    pub fn dump(&self) {
        for c in self.cons.iter() {
            eprintln!("   {} >= 0", c.l);
        }
        for (v, e) in self.eqs.iter() {
            eprintln!("   {} := {}", var_name(*v), e);
        }
        for v in bits::support(self.bitpc) {
            eprintln!("   pc {:?}", v);
        }
        for f in self.foralls.iter() {
            eprintln!("   forall {} < {}", var_name(f.t), f.n);
        }
    }
    pub fn taint(&mut self, why: &str) {
        if self.imprecise.is_none() {
            self.imprecise = Some(Rc::new(why.to_string()));
        }
    }
    pub fn lose(&mut self, why: &str) {
        self.taint(why);
        if self.lost.is_none() {
            self.lost = Some(Rc::new(why.to_string()));
        }
    }
    pub fn norm_val(&self, v: &Val) -> Val {
        match v {
            Val::Uninit | Val::Top | Val::Fn(_) | Val::Str => return v.clone(),
            _ => {}
        }
        Sub { lin: &|l| self.norm(l), arr: &no_arr, bit: &no_bit }.val(v)
    }
    // ------------------------------------------------------------ linear facts
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.eqs.is_empty() || l.t.is_empty() {
            return l.clone();
        }
        let mut r = l.clone();
        for (v, e) in self.eqs.iter() {
            if r.has(*v) {
                r = r.subst(*v, e);
            }
        }
        r
    }
    fn cons_lins(&self) -> Vec<Lin> {
        let mut v: Vec<Lin> = self.cons.iter().map(|c| c.l.clone()).collect();
        // the eliminated symbols are integers too
        for (x, e) in self.eqs.iter() {
            if !e.c.is_int() || e.t.iter().any(|(_, c)| !c.is_int()) {
                let l = Lin::var(*x).sub(e).integral();
                v.push(l.neg());
                v.push(l);
            }
        }
        v
    }
    /// Not known to be contradictory.
    pub fn feasible(&self) -> bool {
        let mut cs = self.cons_lins();
        if crate::maps::on() {
            crate::maps::close(&mut cs, &[]);
        }
        !lp::infeasible(&[], &cs)
    }
    pub fn entails_ge(&self, l: &Lin) -> bool {
        let l = self.norm(l);
        if l.is_const() {
            return l.c.n >= 0;
        }
        // negation over the integers: the value of `l` may be fractional only syntactically
        let i = l.integral();
        let mut cs = self.cons_lins();
        if crate::maps::on() {
            crate::maps::close(&mut cs, &[&i]);
        }
        lp::infeasible(&cs, &[i.neg().addc(-1)])
    }
    pub fn entails(&self, c: &Cond) -> bool {
        match c {
            Cond::B(b) => *b,
            Cond::Ge(l) => self.entails_ge(l),
            Cond::Eq(l) => {
                let l = self.norm(l);
                if l.is_const() {
                    return l.c.is_zero();
                }
                self.entails_ge(&l) && self.entails_ge(&l.neg())
            }
            Cond::Not(x) => match &**x {
                Cond::Eq(l) => {
                    let l = self.norm(l);
                    if l.is_const() {
                        return !l.c.is_zero();
                    }
                    let s = l.integral();
                    let g = s.t.iter().fold(0, |g, x| gcd(g, x.1.n));
                    if g > 0 && s.c.n % g != 0 {
                        return true;
                    }
                    self.entails_ge(&s.addc(-1)) || self.entails_ge(&s.neg().addc(-1))
                }
                _ => false,
            },
            Cond::Bit(b) => {
                if bits::implies(self.bitpc, *b) {
                    return true;
                }
                let r = self.renorm_bit(*b);
                bits::implies(self.bitpc, r)
            }
            Cond::And(v) => v.iter().all(|c| self.entails(c)),
            Cond::Or(v) => v.iter().any(|c| self.entails(c)),
            Cond::Top => false,
        }
    }
    pub fn refutes(&self, c: &Cond) -> bool {
        self.entails(&c.not())
    }
    pub fn decide(&self, c: &Cond) -> Option<bool> {
        if self.entails(c) {
            Some(true)
        } else if self.refutes(c) {
            Some(false)
        } else {
            None
        }
    }
    /// Require a decision, asking for a case split otherwise.
    pub fn want(&self, c: &Cond) -> R<bool> {
        match self.decide(c) {
            Some(b) => Ok(b),
            None => {
                if let Cond::Top = c {
                    return Err(Need::Fail("condition unknown".into()));
                }
                Err(Need::Cond(c.clone()))
            }
        }
    }
    pub fn add_con(&mut self, l: Lin, fact: bool) {
        let l = self.norm(&l).tighten();
        if l.is_const() {
            if l.c.n < 0 {
                // no execution comes here
                self.bitpc = bits::F;
            }
            return;
        }
        for c in self.cons.iter() {
            if c.l.t == l.t && c.l.c.cmp(l.c) != std::cmp::Ordering::Greater {
                return;
            }
        }
        let cons = Rc::make_mut(&mut self.cons);
        cons.retain(|c| c.l.t != l.t);
        cons.push(Con { l, fact });
    }
    /// Assume `l == 0`. Returns false when impossible.
    pub fn add_eq(&mut self, l: &Lin) -> bool {
        let l = self.norm(l);
        if l.is_const() {
            return l.c.is_zero();
        }
        let s = l.integral();
        let g = s.t.iter().fold(0, |g, x| gcd(g, x.1.n));
        if s.c.n % g != 0 {
            return false;
        }
        let mut cl = self.cons_lins();
        if crate::maps::on() {
            crate::maps::close(&mut cl, &[&l]);
        }
        if lp::infeasible(&cl, &[l.integral(), l.integral().neg()]) {
            return false;
        }
        let (v, k) = *l.t.last().unwrap();
        let mut e = l.clone();
        e.t.pop();
        let e = e.scale(Rat::ONE.div(k).neg());
        self.define(v, e);
        true
    }
    pub fn define(&mut self, v: V, e: Lin) {
        let eqs = Rc::make_mut(&mut self.eqs);
        for (_, x) in eqs.iter_mut() {
            *x = x.subst(v, &e);
        }
        eqs.push((v, e.clone()));
        if self.cons.iter().any(|c| c.l.has(v)) {
            let old = std::mem::replace(&mut self.cons, Rc::new(vec![]));
            for c in old.iter() {
                if c.l.has(v) {
                    self.add_con(c.l.subst(v, &e), c.fact);
                } else {
                    self.add_con(c.l.clone(), c.fact);
                }
            }
        }
        // the symbol itself stays an integer: keep non-trivial congruences available to the solver
    }
    /// Assume a condition; several states when the condition is a disjunction.
    pub fn assume(mut self, c: &Cond) -> Vec<State<'tcx>> {
        match c {
            Cond::B(true) | Cond::Top => vec![self],
            Cond::B(false) => vec![],
            Cond::Ge(l) => {
                let l = self.norm(l);
                if l.is_const() {
                    return if l.c.n >= 0 { vec![self] } else { vec![] };
                }
                if lp::infeasible(&self.cons_lins(), &[l.clone()]) {
                    return vec![];
                }
                // an inequality that is tight is an equality
                if lp::infeasible(&self.cons_lins(), &[l.integral().addc(-1)]) {
                    return if self.add_eq(&l) { vec![self] } else { vec![] };
                }
                self.add_con(l, false);
                vec![self]
            }
            Cond::Eq(l) => {
                if self.add_eq(l) {
                    vec![self]
                } else {
                    vec![]
                }
            }
            Cond::Bit(b) => {
                let b = self.renorm_bit(*b);
                self.bitpc = bits::and(self.bitpc, b);
                if self.bitpc == bits::F {
                    vec![]
                } else {
                    vec![self]
                }
            }
            Cond::Not(x) => match &**x {
                Cond::Eq(l) => {
                    let l = self.norm(l);
                    if l.is_const() {
                        return if l.c.is_zero() { vec![] } else { vec![self] };
                    }
                    let s = l.integral();
                    let a = self.clone().assume(&Cond::Ge(s.addc(-1)));
                    let b = self.assume(&Cond::Ge(s.neg().addc(-1)));
                    a.into_iter().chain(b).collect()
                }
                o => {
                    let n = o.not();
                    if matches!(n, Cond::Not(_)) {
                        vec![self]
                    } else {
                        self.assume(&n)
                    }
                }
            },
            Cond::And(v) => {
                let mut sts = vec![self];
                for c in v.iter() {
                    sts = sts.into_iter().flat_map(|s| s.assume(c)).collect();
                }
                sts
            }
            Cond::Or(v) => {
                let mut out = vec![];
                let mut rest = vec![self];
                for c in v.iter() {
                    let mut next = vec![];
                    for s in rest {
                        out.extend(s.clone().assume(c));
                        next.extend(s.assume(&c.not()));
                    }
                    rest = next;
                }
                out
            }
        }
    }
    /// Lower and upper integer bounds of an expression (searched within +-limit).
    pub fn bounds(&self, l: &Lin, limit: i128) -> Option<(i128, i128)> {
        let l = self.norm(l);
        if let Some(c) = l.as_int() {
            return Some((c, c));
        }
        if !self.entails_ge(&l.addc(limit)) || !self.entails_ge(&l.neg().addc(limit)) {
            return None;
        }
        let (mut a, mut b) = (-limit, limit);
        while a < b {
            let m = (a + b + 1).div_euclid(2);
            if self.entails_ge(&l.addc(-m)) {
                a = m;
            } else {
                b = m - 1;
            }
        }
        let lo = a;
        let (mut a, mut b) = (lo, limit);
        while a < b {
            let m = (a + b).div_euclid(2);
            if self.entails_ge(&l.neg().addc(m)) {
                b = m;
            } else {
                a = m + 1;
            }
        }
        Some((lo, a))
    }
    /// Split into the possible values of a bounded expression.
    pub fn concretize(self, l: &Lin) -> Result<Vec<State<'tcx>>, String> {
        let n = self.norm(l);
        let Some((lo, hi)) = self.bounds(&n, 4096) else {
            return Err(format!("unbounded value {}", n));
        };
        // stride
        let raw = l.integral();
        let (mut g, mut off) = (1i128, 0i128);
        if raw == *l && !l.t.is_empty() {
            g = l.t.iter().fold(0, |g, x| gcd(g, x.1.n));
            off = l.c.n;
        }
        let mut out = vec![];
        for v in lo..=hi {
            if (v - off).rem_euclid(g) != 0 {
                continue;
            }
            let mut s = self.clone();
            // remember residues for later divisions
            let mut rs = vec![];
            for (v0, c) in &l.t {
                if let Some((base, m)) = quot_def(*v0) {
                    // l = k*(base - m*q) + c0 ?
                    let k = c.div(Rat::int(-m));
                    let rest = l.sub(&base.sub(&Lin::var(*v0).scale(Rat::int(m))).scale(k));
                    if let (true, Some(c0)) = (k.is_int() && k.n != 0, rest.as_int()) {
                        if (v - c0) % k.n == 0 {
                            rs.push(Residue { base, n: m, q: Lin::var(*v0), r: (v - c0) / k.n });
                        }
                    }
                }
            }
            if s.add_eq(&l.addc(-v)) {
                for r in rs {
                    if !s.resid.contains(&r) {
                        Rc::make_mut(&mut s.resid).push(r);
                    }
                }
                out.push(s);
            }
        }
        Ok(out)
    }
    /// Quotient and remainder by a positive constant (`l` is known to be non-negative).
    pub fn divmod(&mut self, l: &Lin, n: i128) -> (Lin, Lin) {
        if n == 1 {
            return (l.clone(), Lin::zero());
        }
        let split = |x: &Lin| -> (Lin, Lin) {
            // x = n*a + r with r having small coefficients
            let mut a = Lin::zero();
            let mut r = Lin::zero();
            for (v, c) in &x.t {
                if c.is_int() && c.n % n == 0 {
                    a = a.add_scaled(&Lin::var(*v), Rat::int(c.n / n));
                } else {
                    r = r.add_scaled(&Lin::var(*v), *c);
                }
            }
            let k = x.c.floor().div_euclid(n);
            a.c = Rat::int(k);
            r.c = x.c.sub(Rat::int(k * n));
            (a, r)
        };
        // 1. as written, 2. normalised, 3. with known residues
        let mut cands = vec![l.clone(), self.norm(l)];
        let mut x = self.norm(l);
        for _ in 0..4 {
            let mut changed = false;
            for rs in self.resid.iter().rev() {
                if rs.n % n != 0 {
                    continue;
                }
                let base = self.norm(&rs.base);
                let Some(&(v, k)) = base.t.last() else { continue };
                let c = x.coef(v);
                if c.is_zero() {
                    continue;
                }
                let m = c.div(k);
                if !m.is_int() {
                    continue;
                }
                // replace base by n*q + r
                let repl = rs.q.scale(Rat::int(rs.n)).addc(rs.r);
                let y = x.add_scaled(&base, m.neg()).add_scaled(&repl, m);
                if y != x {
                    x = y;
                    changed = true;
                    cands.push(x.clone());
                }
            }
            if !changed {
                break;
            }
        }
        for x in &cands {
            let (a, r) = split(x);
            if r.is_const() && r.c.is_int() {
                return (a, r);
            }
        }
        for x in &cands {
            let (a, r) = split(x);
            if self.entails_ge(&r) && self.entails_ge(&r.neg().addc(n - 1)) {
                return (a, r);
            }
        }
        // fresh quotient of the simplest candidate with integer coefficients
        let best = cands
            .iter()
            .filter(|x| x.t.iter().all(|(_, c)| c.is_int()) && x.c.is_int())
            .min_by_key(|x| x.t.len())
            .cloned()
            .unwrap_or_else(|| l.clone());
        let (a, r) = split(&best);
        // the non-multiple part may be negative even though the whole is not: define the quotient on it anyway (floor)
        let q = self.quot_var(&r, n);
        (a.add(&Lin::var(q)), r.sub(&Lin::var(q).scale(Rat::int(n))))
    }
    fn quot_var(&mut self, r: &Lin, n: i128) -> V {
        let known = QUOT.with(|m| m.borrow().0.get(&(r.clone(), n)).copied());
        let q = match known {
            Some(q) => q,
            None => {
                let q = new_var(&format!("({})/{}", r, n), r.tainted());
                QUOT.with(|m| {
                    let mut m = m.borrow_mut();
                    m.0.insert((r.clone(), n), q);
                    m.1.insert(q, (r.clone(), n));
                });
                let d = r.sub(&Lin::var(q).scale(Rat::int(n)));
                add_fact_of(q, d.clone());
                add_fact_of(q, d.neg().addc(n - 1));
                q
            }
        };
        self.add_quot(q);
        q
    }
    /// (Re-)establish the defining inequalities of a quotient symbol.
    /// The value of a word as a symbol of linear arithmetic.
    pub fn word_lin(&mut self, w: &Word) -> R<Lin> {
        if crate::maps::on() {
            return Err(Need::Fail("value of a word".into()));
        }
        let mut n = w.len();
        while n > 0 && w[n - 1] == bits::F {
            n -= 1;
        }
        let w: Word = w[..n].to_vec().into();
        if let Some(c) = bits::w_as_const(&w) {
            if let Ok(c) = i128::try_from(c) {
                return Ok(Lin::int(c));
            }
        }
        if n > 64 {
            return Err(Need::Fail("value of a wide word".into()));
        }
        let v = match WORDV.with(|x| x.borrow().0.get(&w).copied()) {
            Some(v) => v,
            None => {
                let v = new_var("value", false);
                add_fact_of(v, Lin::var(v));
                add_fact_of(v, Lin::var(v).neg().addc((1i128 << n) - 1));
                WORDV.with(|x| {
                    let mut x = x.borrow_mut();
                    x.0.insert(w.clone(), v);
                    x.1.insert(v, w.clone());
                });
                v
            }
        };
        self.add_con(Lin::var(v), true);
        self.add_con(Lin::var(v).neg().addc((1i128 << n) - 1), true);
        // elements are discriminants
        if let (Some(nv), true) = (ELEM_NV.with(|e| e.borrow().clone()), n == crate::interp::cfg_b()) {
            let mut which: Option<BitVar> = None;
            let mut whole = true;
            for (i, b) in w.iter().enumerate() {
                let s = bits::support(*b);
                let x = match s.first() {
                    Some(BitVar::Sel { arr, idx, bit }) if *bit as usize == i => BitVar::Sel { arr: *arr, idx: idx.clone(), bit: 0 },
                    Some(BitVar::Named { id, bit, taint: false }) if *bit as usize == i => BitVar::Named { id: *id, bit: 0, taint: false },
                    _ => {
                        whole = false;
                        break;
                    }
                };
                let lit = match &x {
                    BitVar::Sel { arr, idx, .. } => BitVar::Sel { arr: *arr, idx: idx.clone(), bit: i as u16 },
                    BitVar::Named { id, .. } => BitVar::Named { id: *id, bit: i as u16, taint: false },
                    _ => unreachable!(),
                };
                if *b != bits::var(lit) || which.as_ref().is_some_and(|y| *y != x) {
                    whole = false;
                    break;
                }
                which = Some(x);
            }
            let ok = whole
                && match which {
                    Some(BitVar::Named { id, .. }) => bits::id_name(id).starts_with('x'),
                    Some(BitVar::Sel { arr, idx, .. }) => match VALID.with(|x| x.borrow().get(&arr).cloned()) {
                        Some(l) => self.entails(&Cond::lt(&idx, &l)),
                        None => matches!(arr_node(arr), ArrNode::Base { kind: AKind::Vals, taint: false, .. }),
                    },
                    _ => false,
                };
            if ok {
                self.add_con(nv.sub(&Lin::var(v)).addc(-1), true);
            }
        }
        Ok(self.norm(&Lin::var(v)))
    }
    /// The bits of a number.
    pub fn lin_word(&mut self, l: &Lin, width: usize) -> R<Word> {
        let l = self.norm(l);
        if let Some(c) = l.as_int() {
            if c >= 0 {
                return Ok(bits::w_const(c as u128, width));
            }
        }
        if l.t.iter().any(|(_, c)| !c.is_int()) || !l.c.is_int() {
            return Err(Need::Fail("bits of a number".into()));
        }
        // common factor
        let mut k = 0;
        while k < 120 && l.c.n % (1i128 << (k + 1)) == 0 && l.t.iter().all(|(_, c)| c.n % (1i128 << (k + 1)) == 0) {
            k += 1;
        }
        let m = l.scale(Rat::new(1, 1i128 << k));
        let mut w = None;
        if m.t.len() == 1 && m.c.is_zero() && m.t[0].1 == Rat::ONE {
            w = word_def(m.t[0].0);
        }
        let w = match w {
            Some(w) => w,
            None => {
                let b = crate::interp::cfg_b();
                let mut n = None;
                for c in [b, 8, 16, 32, 64] {
                    if c > 0 && c <= 64 && self.entails_ge(&m.neg().addc((1i128 << c) - 1)) {
                        n = Some(c);
                        break;
                    }
                }
                let Some(n) = n else { return Err(Need::Fail("bits of a number".into())) };
                if !self.entails_ge(&m) {
                    return Err(Need::Fail("bits of a number".into()));
                }
                let old = WORDV.with(|x| x.borrow().2.get(&m).cloned());
                let w = match old {
                    Some(w) if w.len() <= n => w,
                    _ => {
                        let id = bits::fresh_id("bits");
                        let w: Word = (0..n).map(|i| bits::named(id, i as u16, false)).collect();
                        WORDV.with(|x| x.borrow_mut().2.insert(m.clone(), w.clone()));
                        w
                    }
                };
                let v = self.word_lin(&w)?;
                if !self.add_eq(&v.sub(&m)) {
                    return Err(Need::Fail("bits of a number".into()));
                }
                w
            }
        };
        let mut o: Vec<Bdd> = vec![bits::F; k];
        o.extend(w.iter().copied());
        if o.len() > width && o[width..].iter().any(|b| *b != bits::F) {
            return Err(Need::Fail("bits of a number".into()));
        }
        Ok(bits::w_resize(&o.into(), width))
    }
    pub fn add_quot(&mut self, q: V) {
        if let Some((r, n)) = quot_def(q) {
            let d = r.sub(&Lin::var(q).scale(Rat::int(n)));
            let dn = self.norm(&d);
            if !dn.is_const() {
                self.add_con(d.clone(), true);
                self.add_con(d.neg().addc(n - 1), true);
                if self.entails_ge(&r) {
                    self.add_con(Lin::var(q), true);
                }
            }
        }
    }

    // ------------------------------------------------------------ arrays
    /// Resolve an element read as far as the facts decide it. `force` asks for case splits.
    pub fn locate(&mut self, arr: u32, j: &Lin, force: bool) -> R<Loc> {
        let mut a = arr;
        let mut j = self.norm(j);
        loop {
            match arr_node(a) {
                ArrNode::Base { .. } => return Ok(Loc::Sel(a, j)),
                ArrNode::Layer { below, layer } => {
                    let kind = arr_kind(a).0;
                    let nf = match kind {
                        AKind::Blocks { n, .. } => n as i128,
                        _ => 1,
                    };
                    macro_rules! ask {
                        ($c:expr) => {{
                            let c = $c;
                            match self.decide(&c) {
                                Some(b) => b,
                                None if force => return Err(Need::Cond(c)),
                                None => return Ok(Loc::Sel(a, j)),
                            }
                        }};
                    }
                    match layer {
                        Layer::Elem { at, val } => {
                            let d = self.norm(&j.sub(&at));
                            if let Some(c) = d.as_int() {
                                if c == 0 {
                                    return Ok(Loc::Val(val));
                                }
                                a = below;
                                continue;
                            }
                            if ask!(Cond::Eq(d.clone())) {
                                // entailed, but not syntactically: make it so
                                self.add_eq(&d);
                                return Ok(Loc::Val(val));
                            }
                            a = below;
                        }
                        Layer::Block { q, word } => {
                            let d = self.norm(&j.sub(&q.scale(Rat::int(nf))));
                            if let Some(c) = d.as_int() {
                                if c >= 0 && c < nf {
                                    return Ok(Loc::Field(word, c as usize));
                                }
                                a = below;
                                continue;
                            }
                            if !ask!(Cond::Ge(d.clone())) || !ask!(Cond::Ge(d.neg().addc(nf - 1))) {
                                a = below;
                                continue;
                            }
                            if force {
                                return Err(Need::Concretize(d));
                            }
                            return Ok(Loc::Sel(a, j));
                        }
                        Layer::RangeE { t, n, at, val } => {
                            let s = at.coef(t);
                            let mut a0 = at.clone();
                            a0.t.retain(|x| x.0 != t);
                            // s = +-1
                            let ti = self.norm(&j.sub(&a0).scale(s));
                            if !ask!(Cond::Ge(ti.clone()).simp()) || !ask!(Cond::Ge(n.sub(&ti).addc(-1)).simp()) {
                                a = below;
                                continue;
                            }
                            let mut m = BTreeMap::new();
                            m.insert(t, ti);
                            return Ok(Loc::Val(subst_lin_val(&val, &m)));
                        }
                        Layer::RangeB { t, n, at, word } => {
                            let s = at.coef(t);
                            let mut a0 = at.clone();
                            a0.t.retain(|x| x.0 != t);
                            // block range as element range
                            let (lo, hi) = if s.n > 0 {
                                (a0.clone(), a0.add(&n))
                            } else {
                                (a0.sub(&n).addc(1), a0.addc(1))
                            };
                            let dlo = j.sub(&lo.scale(Rat::int(nf)));
                            let dhi = hi.scale(Rat::int(nf)).sub(&j).addc(-1);
                            if !ask!(Cond::Ge(dlo).simp()) || !ask!(Cond::Ge(dhi).simp()) {
                                a = below;
                                continue;
                            }
                            // which block of the range?
                            let (q, r) = self.divmod(&j, nf);
                            let rn = self.norm(&r);
                            match rn.as_int() {
                                Some(r) => {
                                    let ti = self.norm(&q.sub(&a0).scale(s));
                                    let mut m = BTreeMap::new();
                                    m.insert(t, ti);
                                    return Ok(Loc::Field(subst_lin_word(&word, &m), r as usize));
                                }
                                None if force => return Err(Need::Concretize(r)),
                                None => return Ok(Loc::Sel(a, j)),
                            }
                        }
                        Layer::RangeSel { sel, t, n, at, trip, val } => {
                            let u = self.norm(&j.sub(&at));
                            if !ask!(Cond::Ge(u.clone()).simp()) || !ask!(Cond::Ge(n.sub(&u).addc(-1)).simp()) {
                                a = below;
                                continue;
                            }
                            let sv = sel_var(sel, &u);
                            for f in [Lin::var(sv).sub(&u), trip.sub(&Lin::var(sv)).addc(-1)] {
                                add_fact_of(sv, f.clone());
                                self.add_con(f, true);
                            }
                            let mut m = BTreeMap::new();
                            m.insert(t, Lin::var(sv));
                            return Ok(Loc::Val(subst_lin_val(&val, &m)));
                        }
                        Layer::Copy { at, n, src, off } => {
                            let dlo = j.sub(&at.scale(Rat::int(nf)));
                            let dhi = at.add(&n).scale(Rat::int(nf)).sub(&j).addc(-1);
                            if !ask!(Cond::Ge(dlo.clone()).simp()) || !ask!(Cond::Ge(dhi).simp()) {
                                a = below;
                                continue;
                            }
                            a = src;
                            j = self.norm(&dlo.add(&off.scale(Rat::int(nf))));
                        }
                        Layer::HavocFrom { q, id } => {
                            let d = j.sub(&q.scale(Rat::int(nf)));
                            if ask!(Cond::Ge(d).simp()) {
                                let (kind, tk, _) = arr_kind(a);
                                let hb = arr_mk(ArrNode::Base { id, kind, tk, taint: true });
                                return Ok(Loc::Sel(hb, j));
                            }
                            a = below;
                        }
                    }
                }
            }
        }
    }
    /// Bits of element `j` of a block array, or of a `Vals` array with `b` bits per value.
    pub fn elem_bits(&mut self, arr: u32, j: &Lin, b: usize, force: bool) -> R<Word> {
        Ok(match self.locate(arr, j, force)? {
            Loc::Sel(a, i) => (0..b).map(|k| bits::var(BitVar::Sel { arr: a, idx: i.clone(), bit: k as u16 })).collect(),
            Loc::Field(w, t) => {
                let fb = match arr_kind(arr).0 {
                    AKind::Blocks { b, .. } => b as usize,
                    _ => b,
                };
                w[t * fb..t * fb + b].into()
            }
            Loc::Val(v) => match v {
                Val::Int(IntV::W(w)) | Val::T(_, IntV::W(w)) => bits::w_resize(&w, b),
                Val::Int(IntV::L(l)) | Val::T(_, IntV::L(l)) => match l.as_int() {
                    Some(c) => bits::w_const(c as u128, b),
                    None => return Err(Need::Fail("symbolic integer as element bits".into())),
                },
                _ => return Err(Need::Fail(format!("element of unexpected shape {}", short(&v)))),
            },
        })
    }
    pub fn waste_bit(&mut self, arr: u32, q: &Lin, bit: usize) -> Bdd {
        let mut a = arr;
        let q = self.norm(q);
        loop {
            match arr_node(a) {
                ArrNode::Base { .. } => break,
                ArrNode::Layer { below, layer } => match layer {
                    Layer::Elem { .. } | Layer::RangeE { .. } | Layer::RangeSel { .. } => a = below,
                    Layer::Block { q: q2, word } => match self.decide(&Cond::Eq(q.sub(&q2)).simp()) {
                        Some(true) => return word[bit],
                        Some(false) => a = below,
                        None => break,
                    },
                    Layer::RangeB { t, n, at, word } => {
                        let s = at.coef(t);
                        let mut a0 = at.clone();
                        a0.t.retain(|x| x.0 != t);
                        let ti = self.norm(&q.sub(&a0).scale(s));
                        match (self.decide(&Cond::Ge(ti.clone()).simp()), self.decide(&Cond::Ge(n.sub(&ti).addc(-1)).simp())) {
                            (Some(true), Some(true)) => {
                                let mut m = BTreeMap::new();
                                m.insert(t, ti);
                                return subst_lin_word(&word, &m)[bit];
                            }
                            (Some(false), _) | (_, Some(false)) => a = below,
                            _ => break,
                        }
                    }
                    _ => break,
                },
            }
        }
        bits::var(BitVar::Waste { arr: a, q, bit: bit as u16 })
    }
    /// The whole block `q`.
    pub fn read_block(&mut self, arr: u32, q: &Lin) -> R<Word> {
        let (kind, _, _) = arr_kind(arr);
        let AKind::Blocks { s, n, b } = kind else { return Err(Need::Fail("block read of a value array".into())) };
        let mut out = Vec::with_capacity(s as usize);
        for t in 0..n {
            let j = q.scale(Rat::int(n as i128)).addc(t as i128);
            out.extend(self.elem_bits(arr, &j, b as usize, false)?.iter());
        }
        for p in (n * b)..s {
            out.push(self.waste_bit(arr, q, p as usize));
        }
        Ok(out.into())
    }
    pub fn write_block(&mut self, arr: u32, q: &Lin, w: &Word) -> R<u32> {
        let (kind, _, _) = arr_kind(arr);
        let AKind::Blocks { s, n, b } = kind else { return Err(Need::Fail("block write to a value array".into())) };
        let old = self.read_block(arr, q)?;
        let b = b as usize;
        let mut changed = vec![];
        for t in 0..n as usize {
            if old[t * b..t * b + b] != w[t * b..t * b + b] {
                changed.push(t);
            }
        }
        let waste_same = old[n as usize * b..s as usize] == w[n as usize * b..s as usize];
        if changed.is_empty() && waste_same {
            return Ok(arr);
        }
        let top_block = match arr_node(arr) {
            ArrNode::Layer { layer: Layer::Block { q: q2, .. }, .. } => {
                let d = self.norm(&q2.sub(q));
                d.is_const() && d.c.is_zero()
            }
            _ => false,
        };
        if changed.len() == 1 && waste_same && !top_block {
            let t = changed[0];
            let at = self.norm(&q.scale(Rat::int(n as i128)).addc(t as i128));
            let below = self.strip_elem(arr, &at);
            return Ok(arr_layer(below, Layer::Elem { at, val: word(w[t * b..t * b + b].into()) }));
        }
        // layers inside the block are overwritten
        let mut below = arr;
        while let ArrNode::Layer { below: b2, layer } = arr_node(below) {
            let inside = match layer {
                Layer::Block { q: q2, .. } => {
                    let d = self.norm(&q2.sub(q));
                    d.is_const() && d.c.is_zero()
                }
                Layer::Elem { at, .. } => match self.norm(&at.sub(&q.scale(Rat::int(n as i128)))).as_int() {
                    Some(d) => d >= 0 && d < n as i128,
                    None => false,
                },
                _ => false,
            };
            if !inside {
                break;
            }
            below = b2;
        }
        Ok(arr_layer(below, Layer::Block { q: self.norm(q), word: w.clone() }))
    }
    /// Drop an identical-index top layer that is about to be overwritten.
    fn strip_elem(&self, arr: u32, at: &Lin) -> u32 {
        if let ArrNode::Layer { below, layer: Layer::Elem { at: a2, .. } } = arr_node(arr) {
            if self.norm(&a2) == *at {
                return below;
            }
        }
        arr
    }
    pub fn write_val(&mut self, arr: u32, at: &Lin, v: Val) -> u32 {
        let at = self.norm(at);
        let below = self.strip_elem(arr, &at);
        arr_layer(below, Layer::Elem { at, val: v })
    }

    // ------------------------------------------------------------ bits
    /// Re-normalise the terms of a boolean function (indices, resolvable reads).
    pub fn renorm_bit(&self, b: Bdd) -> Bdd {
        if b <= 1 {
            return b;
        }
        let mut me = self.clone();
        bits::map_vars(b, &mut |v| me.renorm_var(v, false).unwrap_or_else(|_| bits::var(v.clone())))
    }
    fn renorm_var(&mut self, v: &BitVar, force: bool) -> R<Bdd> {
        Ok(match v {
            BitVar::Sel { arr, idx, bit } => match self.locate(*arr, idx, force)? {
                Loc::Sel(a, i) => bits::var(BitVar::Sel { arr: a, idx: i, bit: *bit }),
                Loc::Field(w, t) => {
                    let AKind::Blocks { b, .. } = arr_kind(*arr).0 else { return Err(Need::Fail("field".into())) };
                    let r = w[t * b as usize + *bit as usize];
                    self.renorm_force(r, force)?
                }
                Loc::Val(x) => {
                    let r = match x {
                        Val::Int(IntV::W(w)) | Val::T(_, IntV::W(w)) => w.get(*bit as usize).copied().unwrap_or(bits::F),
                        Val::Bool(Cond::Bit(b)) => b,
                        Val::Bool(Cond::B(b)) => b as Bdd,
                        Val::Int(IntV::L(l)) => match l.as_int() {
                            Some(c) => ((c >> *bit) & 1) as Bdd,
                            None => return Err(Need::Fail("symbolic integer as bits".into())),
                        },
                        _ => return Err(Need::Fail("element of unexpected shape".into())),
                    };
                    self.renorm_force(r, force)?
                }
            },
            BitVar::Waste { arr, q, bit } => {
                let r = self.waste_bit(*arr, q, *bit as usize);
                match bits::support(r).as_slice() {
                    [BitVar::Waste { .. }] => r,
                    _ if r == bits::var(v.clone()) => r,
                    _ => self.renorm_force(r, force)?,
                }
            }
            o => bits::var(o.clone()),
        })
    }
    pub fn renorm_force(&mut self, b: Bdd, force: bool) -> R<Bdd> {
        if b <= 1 {
            return Ok(b);
        }
        let mut err = None;
        let r = bits::map_vars(b, &mut |v| match self.renorm_var(v, force) {
            Ok(b) => b,
            Err(e) => {
                err.get_or_insert(e);
                bits::var(v.clone())
            }
        });
        match err {
            Some(e) if force => Err(e),
            _ => Ok(r),
        }
    }
    pub fn renorm_word(&mut self, w: &Word, force: bool) -> R<Word> {
        let mut out = vec![];
        for b in w.iter() {
            out.push(self.renorm_force(*b, force)?);
        }
        Ok(out.into())
    }

    // ------------------------------------------------------------ memory
    pub fn root(&self, r: Root) -> &Val {
        match r {
            Root::Local(f, l) => &self.frames[f as usize].locals[l as usize],
            Root::Heap(h) => &self.heap[h as usize],
        }
    }
    pub fn root_mut(&mut self, r: Root) -> &mut Val {
        match r {
            Root::Local(f, l) => &mut self.frames[f as usize].locals[l as usize],
            Root::Heap(h) => &mut self.heap[h as usize],
        }
    }
    pub fn alloc(&mut self, v: Val) -> Root {
        self.heap.push(v);
        Root::Heap((self.heap.len() - 1) as u32)
    }
    pub fn alloc_ref(&mut self, v: Val) -> Val {
        let r = self.alloc(v);
        Val::Ref(Rc::new(Ptr { root: r, proj: vec![] }))
    }
    pub fn read_ptr(&mut self, p: &Ptr) -> R<Val> {
        let mut v = self.root(p.root).clone();
        for e in &p.proj {
            v = self.project(&v, e)?;
        }
        Ok(v)
    }
    pub fn project(&mut self, v: &Val, e: &PE) -> R<Val> {
        Ok(match (v, e) {
            (Val::Agg(_, f), PE::Field(i)) => match f.get(*i as usize) {
                Some(x) => x.clone(),
                None => return Err(Need::Fail("field out of range".into())),
            },
            (Val::Agg(_, f), PE::Idx(l)) => {
                let l = self.norm(l);
                match l.as_int() {
                    Some(i) if (i as usize) < f.len() => f[i as usize].clone(),
                    Some(_) => return Err(Need::Fail("array index out of range".into())),
                    None => return Err(Need::Concretize(l)),
                }
            }
            (Val::Vec(o), PE::Idx(l)) => self.vec_read(o, l)?,
            (Val::Top, _) => Val::Top,
            (Val::Uninit, PE::Field(_)) => Val::Uninit,
            _ => return Err(Need::Fail(format!("projection {:?} of {:?}", e, short(v)))),
        })
    }
    pub fn vec_read(&mut self, o: &VecObj, i: &Lin) -> R<Val> {
        match o.kind {
            AKind::Blocks { .. } => Ok(word(self.read_block(o.arr, i)?)),
            AKind::Vals => {
                let b = crate::interp::cfg_b();
                match self.locate(o.arr, i, false)? {
                    Loc::Val(v) => Ok(v),
                    _ => Ok(Val::T(o.tk, IntV::W(bits::w_resize(&self.elem_bits(o.arr, i, b, false)?, 64)))),
                }
            }
            AKind::Gen => match self.locate(o.arr, i, true)? {
                Loc::Val(v) => Ok(v),
                _ => Err(Need::Fail("read of unknown vector content".into())),
            },
        }
    }
    pub fn write_ptr(&mut self, p: &Ptr, v: Val) -> R<()> {
        let mut root = std::mem::replace(self.root_mut(p.root), Val::Uninit);
        let r = self.write_in(&mut root, &p.proj, v);
        *self.root_mut(p.root) = root;
        r
    }
    fn write_in(&mut self, dst: &mut Val, proj: &[PE], v: Val) -> R<()> {
        if proj.is_empty() {
            *dst = v;
            return Ok(());
        }
        match (&mut *dst, &proj[0]) {
            (Val::Agg(_, f), PE::Field(i)) => {
                let f = Rc::make_mut(f);
                while f.len() <= *i as usize {
                    f.push(Val::Uninit);
                }
                self.write_in(&mut f[*i as usize], &proj[1..], v)
            }
            (Val::Agg(_, f), PE::Idx(l)) => {
                let l = self.norm(l);
                match l.as_int() {
                    Some(i) if (i as usize) < f.len() => {
                        let f = Rc::make_mut(f);
                        self.write_in(&mut f[i as usize], &proj[1..], v)
                    }
                    Some(_) => Err(Need::Fail("array index out of range".into())),
                    None => Err(Need::Concretize(l)),
                }
            }
            (Val::Vec(o), PE::Idx(l)) => {
                let o = Rc::make_mut(o);
                let nv = if proj.len() == 1 {
                    v
                } else {
                    let mut cur = self.vec_read(o, l)?;
                    self.write_in(&mut cur, &proj[1..], v)?;
                    cur
                };
                self.vec_write(o, l, nv)
            }
            (d @ Val::Uninit, PE::Field(i)) => {
                let mut f = vec![Val::Uninit; *i as usize + 1];
                self.write_in(&mut f[*i as usize], &proj[1..], v)?;
                *d = agg(0, f);
                Ok(())
            }
            (Val::Top, _) => Ok(()),
            (d, e) => Err(Need::Fail(format!("write through {:?} of {:?}", e, short(d)))),
        }
    }
    pub fn vec_write(&mut self, o: &mut VecObj, i: &Lin, v: Val) -> R<()> {
        o.arr = match o.kind {
            AKind::Blocks { s, .. } => {
                let w = to_word(&v, s as usize).ok_or_else(|| Need::Fail("block value unknown".into()))?;
                self.write_block(o.arr, i, &w)?
            }
            _ => self.write_val(o.arr, i, v),
        };
        Ok(())
    }
}

pub fn to_word(v: &Val, n: usize) -> Option<Word> {
    match v {
        Val::Int(IntV::W(w)) => Some(bits::w_resize(w, n)),
        Val::Int(IntV::L(l)) => {
            let c = l.as_int()?;
            Some(bits::w_const(c as u128, n))
        }
        _ => None,
    }
}

pub fn short(v: &Val) -> String {
    match v {
        Val::Int(IntV::L(l)) => format!("{}", l),
        Val::Int(IntV::W(w)) => match bits::w_as_const(w) {
            Some(c) => format!("{:#x}", c),
            None => "<word>".into(),
        },
        Val::Bool(Cond::B(b)) => format!("{}", b),
        Val::Bool(_) => "<bool>".into(),
        Val::Agg(k, f) => format!("#{}({})", k, f.iter().map(short).collect::<Vec<_>>().join(", ")),
        Val::Ref(p) => format!("&{:?}{:?}", p.root, p.proj.len()),
        Val::Slice { .. } => "<slice>".into(),
        Val::Vec(o) => format!("vec(len {}, {})", o.len, arr_name(o.arr)),
        Val::T(k, IntV::L(l)) => format!("T{}({})", k, l),
        Val::T(k, _) => format!("T{}", k),
        Val::Opq(_) => "<opaque>".into(),
        Val::Top => "?".into(),
        Val::Uninit => "uninit".into(),
        Val::Fn(_) => "fn".into(),
        Val::Str => "str".into(),
    }
}

/// All symbols mentioned by a value.
pub fn val_vars(v: &Val, out: &mut BTreeSet<V>) {
    let cell = RefCell::new(BTreeSet::new());
    let s = Sub {
        lin: &|l: &Lin| {
            cell.borrow_mut().extend(l.vars());
            l.clone()
        },
        arr: &no_arr,
        bit: &no_bit,
    };
    s.val(v);
    out.extend(cell.into_inner());
}
