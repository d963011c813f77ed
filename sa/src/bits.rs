//! Boolean functions of element bits (reduced ordered BDDs, hash-consed).
use crate::lin::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Bdd = u32;
pub const F: Bdd = 0;
pub const T: Bdd = 1;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BitVar {
    /// bit of the element `idx` of an array version
    Sel { arr: u32, idx: Lin, bit: u16 },
    /// unused high bit of block `q` of an array version
    Waste { arr: u32, q: Lin, bit: u16 },
    /// bit of a named opaque value
    Named { id: u32, bit: u16, taint: bool },
    /// exclusive or of two literals
    Xor(Bdd, Bdd),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Node {
    v: u32,
    lo: Bdd,
    hi: Bdd,
}

#[derive(Default)]
struct Mgr {
    nodes: Vec<Node>,
    uniq: HashMap<Node, Bdd>,
    ite: HashMap<(Bdd, Bdd, Bdd), Bdd>,
    vars: Vec<BitVar>,
    vidx: HashMap<BitVar, u32>,
    names: Vec<String>,
    work: u64,
    limit: u64,
}
/// Restart the budget for boolean functions.
pub fn set_budget(n: u64) {
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.work = 0;
        m.limit = n;
    })
}

thread_local! {
    static M: RefCell<Mgr> = RefCell::new({
        let mut m = Mgr::default();
        m.limit = u64::MAX;
        m.nodes.push(Node { v: u32::MAX, lo: 0, hi: 0 });
        m.nodes.push(Node { v: u32::MAX, lo: 1, hi: 1 });
        m
    });
}

impl Mgr {
    fn mk(&mut self, v: u32, lo: Bdd, hi: Bdd) -> Bdd {
        if lo == hi {
            return lo;
        }
        let n = Node { v, lo, hi };
        if let Some(&b) = self.uniq.get(&n) {
            return b;
        }
        self.nodes.push(n);
        let b = (self.nodes.len() - 1) as Bdd;
        self.uniq.insert(n, b);
        b
    }
    fn top(&self, b: Bdd) -> u32 {
        self.nodes[b as usize].v
    }
    fn cof(&self, b: Bdd, v: u32) -> (Bdd, Bdd) {
        let n = self.nodes[b as usize];
        if n.v == v { (n.lo, n.hi) } else { (b, b) }
    }
    fn ite(&mut self, f: Bdd, g: Bdd, h: Bdd) -> Bdd {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        if let Some(&r) = self.ite.get(&(f, g, h)) {
            return r;
        }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.ite.insert((f, g, h), r);
        self.work += 1;
        if self.work % 8192 == 0 {
            crate::interp::tick();
        }
        if self.work > self.limit {
            self.work = 0;
            std::panic::panic_any(crate::interp::OutOfBudget("boolean functions too large"));
        }
        r
    }
    fn var(&mut self, b: BitVar) -> Bdd {
        let i = match self.vidx.get(&b) {
            Some(&i) => i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(b.clone());
                self.vidx.insert(b, i);
                i
            }
        };
        self.mk(i, F, T)
    }
    /// literal: Some((variable, negated))
    fn lit(&self, b: Bdd) -> Option<(u32, bool)> {
        if b <= 1 {
            return None;
        }
        let n = self.nodes[b as usize];
        match (n.lo, n.hi) {
            (F, T) => Some((n.v, false)),
            (T, F) => Some((n.v, true)),
            _ => None,
        }
    }
}

pub fn var(b: BitVar) -> Bdd {
    M.with(|m| m.borrow_mut().var(b))
}
pub fn named(id: u32, bit: u16, taint: bool) -> Bdd {
    var(BitVar::Named { id, bit, taint })
}
pub fn fresh_id(name: &str) -> u32 {
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.names.push(name.to_string());
        (m.names.len() - 1) as u32
    })
}
pub fn id_name(id: u32) -> String {
    M.with(|m| m.borrow().names[id as usize].clone())
}
pub fn ite(f: Bdd, g: Bdd, h: Bdd) -> Bdd {
    M.with(|m| m.borrow_mut().ite(f, g, h))
}
pub fn not(a: Bdd) -> Bdd {
    ite(a, F, T)
}
pub fn and(a: Bdd, b: Bdd) -> Bdd {
    ite(a, b, F)
}
pub fn or(a: Bdd, b: Bdd) -> Bdd {
    ite(a, T, b)
}
pub fn xor(a: Bdd, b: Bdd) -> Bdd {
    if a == b {
        return F;
    }
    M.with(|m| {
        let mut m = m.borrow_mut();
        if let (Some((va, na)), Some((vb, nb))) = (m.lit(a), m.lit(b)) {
            if va == vb {
                return if na != nb { T } else { F };
            }
            let pa = m.mk(va, F, T);
            let pb = m.mk(vb, F, T);
            // x ^ (x ^ y) = y
            for (p, q) in [(pa, pb), (pb, pa)] {
                let (vq, _) = m.lit(q).unwrap();
                if let BitVar::Xor(x, y) = m.vars[vq as usize].clone() {
                    if x == p || y == p {
                        let r = if x == p { y } else { x };
                        return if na != nb { m.ite(r, F, T) } else { r };
                    }
                }
            }
            let (p, q) = if pa < pb { (pa, pb) } else { (pb, pa) };
            let r = m.var(BitVar::Xor(p, q));
            return if na != nb { m.ite(r, F, T) } else { r };
        }
        let nb = m.ite(b, F, T);
        m.ite(a, nb, b)
    })
}
pub fn iff(a: Bdd, b: Bdd) -> Bdd {
    not(xor(a, b))
}
pub fn implies(a: Bdd, b: Bdd) -> bool {
    and(a, not(b)) == F
}
pub fn size(a: Bdd) -> usize {
    M.with(|m| {
        let m = m.borrow();
        let mut seen = BTreeSet::new();
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if x > 1 && seen.insert(x) {
                st.push(m.nodes[x as usize].lo);
                st.push(m.nodes[x as usize].hi);
            }
        }
        seen.len()
    })
}
pub fn support(a: Bdd) -> Vec<BitVar> {
    if a <= 1 {
        return vec![];
    }
    M.with(|m| {
        let m = m.borrow();
        let mut seen = HashSet::new();
        let mut vs = BTreeSet::new();
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if x > 1 && seen.insert(x) {
                let n = m.nodes[x as usize];
                vs.insert(n.v);
                st.push(n.lo);
                st.push(n.hi);
            }
        }
        vs.into_iter().map(|v| m.vars[(v) as usize].clone()).collect()
    })
}
/// Support with exclusive-or literals expanded.
pub fn base_support(a: Bdd) -> Vec<BitVar> {
    if a <= 1 {
        return vec![];
    }
    M.with(|m| {
        let m = m.borrow();
        let mut seen = HashSet::new();
        let mut vs = BTreeSet::new();
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if x > 1 && seen.insert(x) {
                let n = m.nodes[x as usize];
                match &m.vars[n.v as usize] {
                    BitVar::Xor(x, y) => {
                        st.push(*x);
                        st.push(*y);
                    }
                    _ => {
                        vs.insert(n.v);
                    }
                }
                st.push(n.lo);
                st.push(n.hi);
            }
        }
        vs.into_iter().map(|v| m.vars[v as usize].clone()).collect()
    })
}
/// Replace every variable by a function.
pub fn map_vars(a: Bdd, f: &mut dyn FnMut(&BitVar) -> Bdd) -> Bdd {
    let mut vm: HashMap<BitVar, Bdd> = HashMap::new();
    for v in base_support(a) {
        let r = f(&v);
        vm.insert(v, r);
    }
    let same = vm.iter().all(|(k, r)| var(k.clone()) == *r);
    if same {
        return a;
    }
    let mut memo = HashMap::new();
    apply_map(a, &vm, &mut memo)
}
fn map_var(v: &BitVar, vm: &HashMap<BitVar, Bdd>, memo: &mut HashMap<Bdd, Bdd>) -> Bdd {
    match v {
        BitVar::Xor(x, y) => {
            let x = apply_map(*x, vm, memo);
            let y = apply_map(*y, vm, memo);
            xor(x, y)
        }
        o => vm[o],
    }
}
fn apply_map(a: Bdd, vm: &HashMap<BitVar, Bdd>, memo: &mut HashMap<Bdd, Bdd>) -> Bdd {
    if a <= 1 {
        return a;
    }
    if let Some(r) = memo.get(&a) {
        return *r;
    }
    let (v, lo, hi) = M.with(|m| {
        let m = m.borrow();
        let n = m.nodes[a as usize];
        (m.vars[n.v as usize].clone(), n.lo, n.hi)
    });
    let v = map_var(&v, vm, memo);
    let lo = apply_map(lo, vm, memo);
    let hi = apply_map(hi, vm, memo);
    let r = if lo == F && hi == T {
        v
    } else if lo == T && hi == F {
        not(v)
    } else {
        ite(v, hi, lo)
    };
    memo.insert(a, r);
    r
}
/// Expand the exclusive-or literals into functions of the base variables.
pub fn expand(a: Bdd) -> Bdd {
    fn go(a: Bdd, memo: &mut HashMap<Bdd, Bdd>) -> Bdd {
        if a <= 1 {
            return a;
        }
        if let Some(r) = memo.get(&a) {
            return *r;
        }
        let (v, lo, hi) = M.with(|m| {
            let m = m.borrow();
            let n = m.nodes[a as usize];
            (m.vars[n.v as usize].clone(), n.lo, n.hi)
        });
        let vb = match v {
            BitVar::Xor(x, y) => {
                let x = go(x, memo);
                let y = go(y, memo);
                ite(x, not(y), y)
            }
            o => var(o),
        };
        let lo = go(lo, memo);
        let hi = go(hi, memo);
        let r = ite(vb, hi, lo);
        memo.insert(a, r);
        r
    }
    go(a, &mut HashMap::new())
}
/// Exclusive-or literals are free variables only while they form a forest over the other literals.
pub fn xor_independent(a: Bdd) -> bool {
    let sup = support(a);
    let mut parent: HashMap<BitVar, BitVar> = HashMap::new();
    let ground = BitVar::Named { id: u32::MAX, bit: 0, taint: false };
    fn find(p: &HashMap<BitVar, BitVar>, x: &BitVar) -> BitVar {
        let mut x = x.clone();
        while let Some(n) = p.get(&x) {
            x = n.clone();
        }
        x
    }
    for v in sup {
        let (x, y) = match &v {
            BitVar::Xor(x, y) => {
                let (sx, sy) = (support(*x), support(*y));
                if sx.len() != 1 || sy.len() != 1 {
                    return false;
                }
                if matches!(sx[0], BitVar::Xor(..)) || matches!(sy[0], BitVar::Xor(..)) {
                    return false;
                }
                (sx[0].clone(), sy[0].clone())
            }
            o => (o.clone(), ground.clone()),
        };
        let (rx, ry) = (find(&parent, &x), find(&parent, &y));
        if rx == ry {
            return false;
        }
        parent.insert(rx, ry);
    }
    true
}
/// A satisfying assignment of a function over literals and exclusive ors of literals: a search through
/// the diagram that keeps the linear equations of the decisions made so far solvable.
/// The outer value is absent if the function is of another kind or the search takes too long.
pub fn sat_affine(f: Bdd) -> Option<Option<Vec<(BitVar, bool)>>> {
    // what a decision on a variable says: the exclusive or of some literals, with a constant
    let mut base: HashMap<BitVar, usize> = HashMap::new();
    let mut names: Vec<BitVar> = vec![];
    let mut eqs: HashMap<u32, (Vec<usize>, bool)> = HashMap::new();
    for v in support(f) {
        let mut index = |v: &BitVar| -> usize {
            if let Some(i) = base.get(v) {
                return *i;
            }
            base.insert(v.clone(), names.len());
            names.push(v.clone());
            names.len() - 1
        };
        let e = match &v {
            BitVar::Xor(x, y) => {
                let mut ix = vec![];
                let mut c = false;
                for z in [*x, *y] {
                    let sup = support(z);
                    if sup.len() != 1 || matches!(sup[0], BitVar::Xor(..)) {
                        return None;
                    }
                    c ^= z != var(sup[0].clone());
                    let i = index(&sup[0]);
                    match ix.iter().position(|j| *j == i) {
                        Some(p) => {
                            ix.remove(p);
                        }
                        None => ix.push(i),
                    }
                }
                (ix, c)
            }
            o => (vec![index(o)], false),
        };
        let id = M.with(|m| m.borrow().vidx[&v]);
        eqs.insert(id, e);
    }
    let words = names.len() / 64 + 1;
    // reduced equations: (pivot, literals, constant)
    type Row = (usize, Vec<u64>, bool);
    struct Search<'a> {
        eqs: &'a HashMap<u32, (Vec<usize>, bool)>,
        words: usize,
        rows: Vec<Row>,
        steps: u32,
    }
    impl Search<'_> {
        /// Add an equation: false if it contradicts the others.
        fn add(&mut self, ix: &[usize], rhs: bool) -> bool {
            let mut b = vec![0u64; self.words];
            for i in ix {
                b[i / 64] ^= 1 << (i % 64);
            }
            let mut c = rhs;
            for (p, r, d) in &self.rows {
                if b[p / 64] >> (p % 64) & 1 == 1 {
                    for (x, y) in b.iter_mut().zip(r) {
                        *x ^= y;
                    }
                    c ^= d;
                }
            }
            match b.iter().position(|x| *x != 0) {
                None => !c,
                Some(w) => {
                    let p = w * 64 + b[w].trailing_zeros() as usize;
                    self.rows.push((p, b, c));
                    true
                }
            }
        }
        fn go(&mut self, x: Bdd) -> Option<bool> {
            if x <= 1 {
                return Some(x != F);
            }
            self.steps += 1;
            if self.steps > 200_000 {
                return None;
            }
            let n = M.with(|m| m.borrow().nodes[x as usize]);
            let (ix, c) = self.eqs[&n.v].clone();
            for (val, next) in [(true, n.hi), (false, n.lo)] {
                if next == F {
                    continue;
                }
                let k = self.rows.len();
                if self.add(&ix, val ^ c) && self.go(next)? {
                    return Some(true);
                }
                self.rows.truncate(k);
            }
            Some(false)
        }
    }
    let mut s = Search { eqs: &eqs, words, rows: vec![], steps: 0 };
    if !s.go(f)? {
        return Some(None);
    }
    // every equation is free of the pivots of the earlier ones: solve from the last one back
    let mut val = vec![false; names.len()];
    for (p, r, c) in s.rows.iter().rev() {
        let mut v = *c;
        for (i, x) in val.iter().enumerate() {
            if i != *p && r[i / 64] >> (i % 64) & 1 == 1 {
                v ^= *x;
            }
        }
        val[*p] = v;
    }
    Some(Some(names.into_iter().zip(val).collect()))
}
/// One satisfying assignment.
pub fn sat_one(a: Bdd) -> Option<Vec<(BitVar, bool)>> {
    if a == F {
        return None;
    }
    M.with(|m| {
        let m = m.borrow();
        let mut out = vec![];
        let mut x = a;
        while x > 1 {
            let n = m.nodes[x as usize];
            if n.hi != F {
                out.push((m.vars[n.v as usize].clone(), true));
                x = n.hi;
            } else {
                out.push((m.vars[n.v as usize].clone(), false));
                x = n.lo;
            }
        }
        Some(out)
    })
}
pub fn num_nodes() -> usize {
    M.with(|m| m.borrow().nodes.len())
}

// ---------------------------------------------------------------- words
pub type Word = std::rc::Rc<[Bdd]>;

pub fn w_const(v: u128, n: usize) -> Word {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
}
pub fn w_as_const(w: &Word) -> Option<u128> {
    let mut r = 0u128;
    for (i, b) in w.iter().enumerate() {
        match *b {
            F => {}
            T if i < 128 => r |= 1 << i,
            _ => return None,
        }
    }
    Some(r)
}
pub fn w_map2(a: &Word, b: &Word, f: fn(Bdd, Bdd) -> Bdd) -> Word {
    a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect()
}
pub fn w_not(a: &Word) -> Word {
    a.iter().map(|x| not(*x)).collect()
}
pub fn w_shl(a: &Word, k: usize) -> Word {
    (0..a.len()).map(|i| if i >= k { a[i - k] } else { F }).collect()
}
pub fn w_shr(a: &Word, k: usize) -> Word {
    (0..a.len()).map(|i| if i + k < a.len() { a[i + k] } else { F }).collect()
}
pub fn w_resize(a: &Word, n: usize) -> Word {
    (0..n).map(|i| if i < a.len() { a[i] } else { F }).collect()
}
/// a + b + carry; returns (sum, carry out)
pub fn w_add(a: &Word, b: &Word, mut c: Bdd) -> (Word, Bdd) {
    let mut out = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let x = xor3(a[i], b[i], c);
        let carry = or(and(a[i], b[i]), and(c, or(a[i], b[i])));
        out.push(x);
        c = carry;
    }
    (out.into(), c)
}
fn xor3(a: Bdd, b: Bdd, c: Bdd) -> Bdd {
    if c <= 1 || a <= 1 || b <= 1 {
        return xor(xor(a, b), c);
    }
    // plain xor, to keep the number of derived literals small
    let ab = ite(a, not(b), b);
    ite(ab, not(c), c)
}
/// a - b; returns (difference, no borrow)
pub fn w_sub(a: &Word, b: &Word) -> (Word, Bdd) {
    // borrow chain, written directly so that constant operands stay cheap
    let mut bor = F;
    let mut out = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let (x, y) = (a[i], b[i]);
        let d = if y <= 1 && bor <= 1 {
            xor(xor(x, y), bor)
        } else {
            let xy = ite(x, not(y), y);
            ite(xy, not(bor), bor)
        };
        let nx = not(x);
        bor = or(and(nx, or(y, bor)), and(y, bor));
        out.push(d);
    }
    (out.into(), not(bor))
}
pub fn w_eq(a: &Word, b: &Word) -> Bdd {
    let mut r = T;
    // from the highest variable down keeps the intermediate results linear
    for i in (0..a.len()).rev() {
        r = and(iff(a[i], b[i]), r);
        if r == F {
            break;
        }
    }
    r
}
/// unsigned a < b
pub fn w_lt(a: &Word, b: &Word) -> Bdd {
    not(w_sub(a, b).1)
}
