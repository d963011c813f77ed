//! Loops: the first iterations are followed one by one; what all further iterations do is summarised
//! from one symbolic iteration, by an invariant that is inferred and then checked to be inductive.
use crate::bits::{self, Bdd, BitVar, Word};
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_middle::mir::BasicBlock;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// loops with at most this many iterations are followed to their end
const MAX_UNROLL: i128 = 34;
const BOUNDED: &str = "bounded";

pub fn do_loop<'tcx>(e: &mut Eng<'tcx>, st: State<'tcx>, bb: BasicBlock, fr: usize) -> Vec<(State<'tcx>, Exit)> {
    e.stats.loops += 1;
    let mut out = vec![];
    // state, iterations with a choice, iterations, whether all further iterations are summarised
    let mut work = vec![(st, 0usize, 0usize, false)];
    let mut bounded = false;
    while let Some((mut s, n, k, done)) = work.pop() {
        if n > e.unroll && !bounded || k > 300 {
            if !done {
                out.push((s, Exit::Stuck("loop".into())));
            }
            continue;
        }
        wipe(&mut s, bb, fr);
        let res = e.run(s.clone(), bb, fr, Some(bb));
        let single = res.len() == 1;
        let mut backs = vec![];
        for (s2, ex) in res {
            match ex {
                Exit::Back => backs.push((s2, ())),
                x => out.push((s2, x)),
            }
        }
        for b in backs.iter_mut() {
            wipe(&mut b.0, bb, fr);
        }
        let backs = e.merge(backs, s.splits.len(), &mut |_, _| true);
        let mut done = done;
        if !done && !bounded && !single && backs.len() == 1 && e.summarise {
            match summarise(e, &s, &backs[0].0, bb, fr) {
                Ok(exits) => {
                    e.stats.summarised += 1;
                    out.extend(exits);
                    done = true;
                }
                Err(m) => {
                    bounded |= m == BOUNDED;
                    if e.trace || std::env::var("SA_LOOPS").is_ok() {
                        eprintln!("LOOP {} bb{}: {}", s.frames[fr].body.name, bb.as_usize(), m);
                    }
                }
            }
        }
        for (b, _) in backs {
            work.push((b, if single { n } else { n + 1 }, k + 1, done));
        }
    }
    out
}

/// Forget the locals that are not read any more.
fn wipe<'tcx>(s: &mut State<'tcx>, bb: BasicBlock, fr: usize) {
    let body = s.frames[fr].body.clone();
    let live = &body.loops[&bb].live;
    for (i, v) in s.frames[fr].locals.iter_mut().enumerate() {
        if !live[i] {
            *v = Val::Uninit;
        }
    }
}

/// Two values of the same shape, leaf by leaf.
trait Walk {
    fn lin(&mut self, a: &Lin, b: &Lin) -> Option<Lin>;
    fn int(&mut self, a: &IntV, b: &IntV) -> Option<IntV>;
    fn cond(&mut self, a: &Cond, b: &Cond) -> Option<Cond>;
    fn arr(&mut self, a: u32, b: u32) -> Option<u32>;
    /// whether equal values need no visit
    fn quick(&self) -> bool;
}
fn walk_ptr(a: &Ptr, b: &Ptr, w: &mut dyn Walk) -> Option<Ptr> {
    if a.root != b.root || a.proj.len() != b.proj.len() {
        return None;
    }
    let mut proj = vec![];
    for (x, y) in a.proj.iter().zip(&b.proj) {
        proj.push(match (x, y) {
            (PE::Field(i), PE::Field(j)) if i == j => PE::Field(*i),
            (PE::Idx(i), PE::Idx(j)) => PE::Idx(w.lin(i, j)?),
            _ => return None,
        });
    }
    Some(Ptr { root: a.root, proj })
}
fn walk(a: &Val, b: &Val, w: &mut dyn Walk) -> Option<Val> {
    if w.quick() && a == b {
        return Some(a.clone());
    }
    Some(match (a, b) {
        (Val::Uninit, Val::Uninit) | (Val::Top, Val::Top) | (Val::Str, Val::Str) => a.clone(),
        (Val::Fn(x), Val::Fn(y)) if x == y => a.clone(),
        (Val::Int(x), Val::Int(y)) => Val::Int(w.int(x, y)?),
        (Val::Bool(x), Val::Bool(y)) => Val::Bool(w.cond(x, y)?),
        (Val::T(k, x), Val::T(k2, y)) if k == k2 => Val::T(*k, w.int(x, y)?),
        (Val::Agg(k, f), Val::Agg(k2, g)) if k == k2 && f.len() == g.len() => {
            let mut o = vec![];
            for (x, y) in f.iter().zip(g.iter()) {
                o.push(walk(x, y, w)?);
            }
            agg(*k, o)
        }
        (Val::Ref(p), Val::Ref(q)) => Val::Ref(Rc::new(walk_ptr(p, q, w)?)),
        (Val::Slice { ptr, start, len }, Val::Slice { ptr: p2, start: s2, len: l2 }) => {
            Val::Slice { ptr: Rc::new(walk_ptr(ptr, p2, w)?), start: w.lin(start, s2)?, len: w.lin(len, l2)? }
        }
        (Val::Vec(x), Val::Vec(y)) if x.kind == y.kind && x.tk == y.tk => Val::Vec(Rc::new(VecObj {
            kind: x.kind,
            tk: x.tk,
            len: w.lin(&x.len, &y.len)?,
            cap: w.lin(&x.cap, &y.cap)?,
            arr: w.arr(x.arr, y.arr)?,
        })),
        (Val::Opq(x), Val::Opq(y)) => Val::Opq(Rc::new(match (&**x, &**y) {
            (
                Opq::Iter { id, pos, total, seq, tk, wild },
                Opq::Iter { id: i2, pos: p2, total: t2, seq: s2, tk: k2, wild: w2 },
            ) if id == i2 && seq == s2 && tk == k2 && wild == w2 => {
                Opq::Iter { id: *id, pos: w.lin(pos, p2)?, total: w.lin(total, t2)?, seq: *seq, tk: *tk, wild: *wild }
            }
            (Opq::Fun { id, calls, log, ret, out }, Opq::Fun { id: i2, calls: c2, log: l2, ret: r2, out: o2 })
                if id == i2 && ret == r2 && out == o2 =>
            {
                Opq::Fun { id: *id, calls: w.lin(calls, c2)?, log: w.arr(*log, *l2)?, ret: *ret, out: *out }
            }
            (Opq::Hasher { id, n, log }, Opq::Hasher { id: i2, n: n2, log: l2 }) if id == i2 => {
                Opq::Hasher { id: *id, n: w.lin(n, n2)?, log: w.arr(*log, *l2)? }
            }
            (a, b) if a == b => a.clone(),
            _ => return None,
        })),
        _ => return None,
    })
}
type Mem = (Vec<Val>, Vec<Vec<Val>>);
fn mem(s: &State<'_>) -> Mem {
    (s.heap.clone(), s.frames.iter().map(|f| f.locals.clone()).collect())
}
fn set_mem(s: &mut State<'_>, m: Mem) {
    s.heap = m.0;
    for (f, l) in s.frames.iter_mut().zip(m.1) {
        f.locals = l;
    }
}
fn walk_mem(a: &Mem, b: &Mem, w: &mut dyn Walk) -> Result<Mem, String> {
    if a.0.len() != b.0.len() || a.1.len() != b.1.len() {
        return Err("memory layout changes".into());
    }
    let mut h = vec![];
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        h.push(walk(x, y, w).ok_or_else(|| format!("heap {}: {} -> {}", i, short(x), short(y)))?);
    }
    let mut fs = vec![];
    for (j, (f, g)) in a.1.iter().zip(&b.1).enumerate() {
        let mut l = vec![];
        for (i, (x, y)) in f.iter().zip(g).enumerate() {
            l.push(walk(x, y, w).ok_or_else(|| format!("frame {} local {}: {} -> {}", j, i, short(x), short(y)))?);
        }
        fs.push(l);
    }
    Ok((h, fs))
}
/// Drop memory cells allocated by the iteration that nothing refers to any more.
fn drop_tail(s: &mut State<'_>, len: usize) -> bool {
    if s.heap.len() == len {
        return true;
    }
    fn refers(v: &Val, len: u32) -> bool {
        match v {
            Val::Ref(p) | Val::Slice { ptr: p, .. } => matches!(p.root, Root::Heap(h) if h >= len),
            Val::Agg(_, f) => f.iter().any(|x| refers(x, len)),
            _ => false,
        }
    }
    let n = len as u32;
    if s.heap.len() < len
        || s.heap[..len].iter().any(|v| refers(v, n))
        || s.frames.iter().any(|f| f.locals.iter().any(|v| refers(v, n)))
        || s.statics.iter().any(|(_, r)| matches!(r, Root::Heap(h) if *h >= n))
    {
        return false;
    }
    s.heap.truncate(len);
    true
}

/// Infers what each cell is at the start of iteration `t`.
struct Template<'a, 'tcx> {
    t: V,
    s1: &'a State<'tcx>,
    ph: BTreeSet<V>,
    phw: BTreeMap<u32, usize>,
    /// decreasing quantities, presumed non-negative
    dec: Vec<Lin>,
}
impl Walk for Template<'_, '_> {
    fn quick(&self) -> bool {
        true
    }
    fn lin(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        let d = self.s1.norm(&b.sub(a));
        if let Some(d) = d.as_int() {
            let l = a.add_scaled(&Lin::var(self.t), Rat::int(d));
            if d < 0 && self.s1.entails_ge(b) && !self.dec.contains(&l) {
                self.dec.push(l.clone());
            }
            return Some(l);
        }
        if self.s1.entails(&Cond::Eq(d)) {
            return Some(a.clone());
        }
        let p = new_var("previous", false);
        self.ph.insert(p);
        Some(Lin::var(p))
    }
    fn int(&mut self, a: &IntV, b: &IntV) -> Option<IntV> {
        match (a, b) {
            (IntV::L(x), IntV::L(y)) => Some(IntV::L(self.lin(x, y)?)),
            (IntV::W(x), IntV::W(y)) if x == y => Some(a.clone()),
            (_, IntV::W(y)) => {
                let id = bits::fresh_id("previous");
                self.phw.insert(id, y.len());
                Some(IntV::W((0..y.len()).map(|k| if y[k] <= 1 && same_const(a, k, y[k]) { y[k] } else { bits::named(id, k as u16, false) }).collect()))
            }
            _ => None,
        }
    }
    fn cond(&mut self, a: &Cond, b: &Cond) -> Option<Cond> {
        (a == b).then(|| a.clone())
    }
    fn arr(&mut self, a: u32, b: u32) -> Option<u32> {
        (arr_kind(a) == arr_kind(b)).then_some(a)
    }
}
fn same_const(a: &IntV, k: usize, b: Bdd) -> bool {
    match a {
        IntV::W(w) => w.get(k) == Some(&b),
        IntV::L(l) => l.as_int().is_some_and(|c| k < 127 && ((c >> k) & 1) as Bdd == b),
    }
}

/// Reads off what one symbolic iteration did.
struct Extract<'a, 'tcx> {
    t: V,
    ph: &'a BTreeSet<V>,
    phw: &'a BTreeMap<u32, usize>,
    back: &'a State<'tcx>,
    f: BTreeMap<V, Lin>,
    fw: BTreeMap<u32, Word>,
    layers: BTreeMap<u32, Layer>,
    err: Option<String>,
}
fn next_lin(l: &Lin, t: V) -> Lin {
    l.subst(t, &Lin::var(t).addc(1))
}
impl Extract<'_, '_> {
    fn ph_word(&self, w: &Word) -> Option<u32> {
        for b in w.iter() {
            for v in bits::support(*b) {
                if let BitVar::Named { id, .. } = v {
                    if self.phw.contains_key(&id) {
                        return Some(id);
                    }
                }
            }
        }
        None
    }
}
impl Walk for Extract<'_, '_> {
    fn quick(&self) -> bool {
        false
    }
    fn lin(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        if a.t.len() == 1 && a.c.is_zero() && self.ph.contains(&a.t[0].0) {
            self.f.insert(a.t[0].0, b.clone());
            return Some(a.clone());
        }
        let d = self.back.norm(&b.sub(&next_lin(a, self.t)));
        if d.is_const() && d.c.is_zero() || self.back.entails(&Cond::Eq(d)) {
            return Some(a.clone());
        }
        None
    }
    fn int(&mut self, a: &IntV, b: &IntV) -> Option<IntV> {
        match (a, b) {
            (IntV::L(x), IntV::L(y)) => Some(IntV::L(self.lin(x, y)?)),
            (IntV::W(x), IntV::W(y)) if x.len() == y.len() => {
                if let Some(id) = self.ph_word(x) {
                    // the constant bits stay
                    if x.iter().zip(y.iter()).any(|(p, q)| *p <= 1 && p != q) {
                        return None;
                    }
                    self.fw.insert(id, y.clone());
                    return Some(a.clone());
                }
                x.iter().zip(y.iter()).all(|(p, q)| *p == *q || self.back.entails(&Cond::bit(bits::iff(*p, *q)))).then(|| a.clone())
            }
            _ => None,
        }
    }
    fn cond(&mut self, a: &Cond, b: &Cond) -> Option<Cond> {
        (a == b).then(|| a.clone())
    }
    fn arr(&mut self, a: u32, b: u32) -> Option<u32> {
        if a == b {
            return Some(a);
        }
        match arr_node(b) {
            ArrNode::Layer { below, layer } if below == a => {
                let ok = match &layer {
                    Layer::Elem { at, .. } => at.coef(self.t),
                    Layer::Block { q, .. } => q.coef(self.t),
                    _ => Rat::int(0),
                };
                if ok != Rat::int(1) && ok != Rat::int(-1) {
                    self.err = Some(format!("writes of all iterations: {}", arr_name(b)));
                    return None;
                }
                match self.layers.get(&a) {
                    Some(l) if *l != layer => None,
                    _ => {
                        self.layers.insert(a, layer);
                        Some(a)
                    }
                }
            }
            _ => {
                self.err = Some(format!("several writes: {}", arr_name(b)));
                None
            }
        }
    }
}

/// Rewrites expressions about iteration `t` (placeholders: values of iteration t-1).
struct Shift<'a> {
    t: V,
    to: Lin,
    f: BTreeMap<V, Lin>,
    fw: &'a BTreeMap<u32, Word>,
    /// the iteration number at which `fw` is taken
    fto: Lin,
}
impl Shift<'_> {
    fn with<R>(&self, k: impl FnOnce(&Sub<'_>) -> R) -> R {
        let mut m: BTreeMap<V, Lin> = self.f.clone();
        m.insert(self.t, self.to.clone());
        let mut m2 = BTreeMap::new();
        m2.insert(self.t, self.fto.clone());
        let lin = |l: &Lin| l.subst_map(&m);
        let bit = |v: &BitVar| match v {
            BitVar::Named { id, bit, .. } => self.fw.get(id).map(|w| {
                let x = w[*bit as usize];
                Sub { lin: &|l| l.subst_map(&m2), arr: &no_arr, bit: &no_bit }.bdd(x)
            }),
            _ => None,
        };
        k(&Sub { lin: &lin, arr: &no_arr, bit: &bit })
    }
}
/// The memory at the start of iteration t+1.
struct Build<'a> {
    sh: &'a Shift<'a>,
    arrs: &'a HashMap<u32, u32>,
}
impl Walk for Build<'_> {
    fn quick(&self) -> bool {
        false
    }
    fn lin(&mut self, a: &Lin, _: &Lin) -> Option<Lin> {
        Some(self.sh.with(|s| s.lin(a)))
    }
    fn int(&mut self, a: &IntV, _: &IntV) -> Option<IntV> {
        Some(self.sh.with(|s| s.intv(a)))
    }
    fn cond(&mut self, a: &Cond, _: &Cond) -> Option<Cond> {
        Some(a.clone())
    }
    fn arr(&mut self, a: u32, _: u32) -> Option<u32> {
        Some(self.arrs.get(&a).copied().unwrap_or(a))
    }
}
/// Checks that one state is described by another.
struct Same<'a, 'tcx> {
    st: &'a State<'tcx>,
    /// expected new top layer of an array
    layers: &'a HashMap<u32, Layer>,
    /// arrays with no iteration recorded yet
    empty: Option<&'a HashMap<u32, u32>>,
}
impl Same<'_, '_> {
    fn eq_lin(&self, a: &Lin, b: &Lin) -> bool {
        let d = self.st.norm(&a.sub(b));
        if d.is_const() {
            return d.c.is_zero();
        }
        self.st.entails(&Cond::Eq(d))
    }
    fn eq_bit(&self, a: Bdd, b: Bdd) -> bool {
        a == b || self.st.entails(&Cond::bit(bits::iff(a, b)))
    }
    fn eq_word(&self, a: &Word, b: &Word) -> bool {
        a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| self.eq_bit(*x, *y))
    }
    fn eq_val(&mut self, a: &Val, b: &Val) -> bool {
        walk(a, b, self).is_some()
    }
    fn eq_layer(&mut self, a: &Layer, b: &Layer) -> bool {
        match (a, b) {
            (Layer::Elem { at, val }, Layer::Elem { at: a2, val: v2 }) => self.eq_lin(at, a2) && self.eq_val(val, v2),
            (Layer::Block { q, word }, Layer::Block { q: q2, word: w2 }) => self.eq_lin(q, q2) && self.eq_word(word, w2),
            _ => false,
        }
    }
}
impl Walk for Same<'_, '_> {
    fn quick(&self) -> bool {
        self.layers.is_empty()
    }
    fn lin(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        self.eq_lin(a, b).then(|| a.clone())
    }
    fn int(&mut self, a: &IntV, b: &IntV) -> Option<IntV> {
        let ok = match (a, b) {
            (IntV::L(x), IntV::L(y)) => self.eq_lin(x, y),
            (IntV::W(x), IntV::W(y)) => self.eq_word(x, y),
            (IntV::W(x), IntV::L(l)) | (IntV::L(l), IntV::W(x)) => match l.as_int() {
                Some(c) => bits::w_as_const(x) == Some(c as u128),
                None => false,
            },
        };
        ok.then(|| a.clone())
    }
    fn cond(&mut self, a: &Cond, b: &Cond) -> Option<Cond> {
        (a == b).then(|| a.clone())
    }
    fn arr(&mut self, a: u32, b: u32) -> Option<u32> {
        if let Some(m) = self.empty {
            return (a == b || m.get(&a) == Some(&b)).then_some(a);
        }
        match self.layers.get(&a).cloned() {
            None => (a == b).then_some(a),
            Some(l) => match arr_node(b) {
                ArrNode::Layer { below, layer } if below == a => self.eq_layer(&l, &layer).then_some(a),
                _ => None,
            },
        }
    }
}

/// Symbols whose definition involves `t`.
fn depends(v: V, t: V, seen: &mut BTreeSet<V>) -> bool {
    if v == t {
        return true;
    }
    if !seen.insert(v) {
        return false;
    }
    let mut vs: Vec<V> = mono_factors(v).into_iter().filter(|x| *x != v).collect();
    if let Some(w) = word_def(v) {
        let mut x = BTreeSet::new();
        val_vars(&word(w), &mut x);
        vs.extend(x);
    }
    if let Some((r, _)) = quot_def(v) {
        vs.extend(r.vars());
    }
    if let Some((r, q)) = symquot_def(v) {
        vs.extend(r.vars());
        vs.extend(q.vars());
    }
    vs.into_iter().any(|x| depends(x, t, seen))
}
fn derived(vars: &BTreeSet<V>, t: V, ph: &BTreeSet<V>) -> bool {
    vars.iter().any(|v| {
        *v != t && !ph.contains(v) && (depends(*v, t, &mut BTreeSet::new()) || ph.iter().any(|p| depends(*v, *p, &mut BTreeSet::new())))
    })
}

/// `s0`: before some iteration, `s1`: after it. The exits of all later iterations.
fn summarise<'tcx>(e: &mut Eng<'tcx>, s0: &State<'tcx>, s1: &State<'tcx>, bb: BasicBlock, fr: usize) -> Result<Vec<(State<'tcx>, Exit)>, String> {
    if s1.lost.is_some() || s1.imprecise.is_some() {
        return Err("imprecise".into());
    }
    let mut s1 = s1.clone();
    if s1.statics.len() != s0.statics.len() || !drop_tail(&mut s1, s0.heap.len()) || s1.frames.len() != s0.frames.len() {
        return Err("memory allocated".into());
    }
    let t = new_var("iteration", false);
    add_fact_of(t, Lin::var(t));
    let m0 = mem(s0);
    let m1 = mem(&s1);
    // the cells at the start of iteration t
    let mut tp = Template { t, s1: &s1, ph: BTreeSet::new(), phw: BTreeMap::new(), dec: vec![] };
    let ma = walk_mem(&m0, &m1, &mut tp)?;
    let (ph, phw, dec) = (tp.ph, tp.phw, tp.dec);
    let mut sa = s0.clone();
    set_mem(&mut sa, ma.clone());
    sa.add_con(Lin::var(t), true);
    for d in &dec {
        sa.add_con(d.clone(), false);
    }
    sa.bitpc = bits::T;
    readd_facts(&mut sa);
    e.speculative += 1;
    let obls = e.obls.len();
    let unroll = e.unroll;
    let res = e.run(sa.clone(), bb, fr, Some(bb));
    e.speculative -= 1;
    e.obls.truncate(obls);
    e.unroll = unroll;
    let mut backs: Vec<(State<'tcx>, ())> = vec![];
    for (mut s, x) in res {
        if let Exit::Back = x {
            wipe(&mut s, bb, fr);
            backs.push((s, ()));
        }
    }
    let mut backs = e.merge(backs, sa.splits.len(), &mut |_, _| true);
    if backs.len() != 1 {
        if !backs.is_empty() && backs.iter().all(|(b, _)| b.entails_ge(&Lin::var(t).neg().addc(MAX_UNROLL))) {
            return Err(BOUNDED.into());
        }
        if std::env::var("SA_LOOPD").is_ok() {
            for (b, _) in backs.iter().take(3) {
                eprintln!("--- splits {} base {}", b.splits.iter().map(|s| format!("{}:{}/{}", s.0.id, s.1, s.0.branches)).collect::<Vec<_>>().join(" "), sa.splits.len());
                for (v, x) in b.eqs.iter() {
                    eprintln!("  {} := {}", var_name(*v), x);
                }
                for (i, v) in b.heap.iter().enumerate() {
                    eprintln!("  heap {} {}", i, short(v));
                }
                for (i, v) in b.frames[fr].locals.iter().enumerate() {
                    if *v != Val::Uninit {
                        eprintln!("  local {} {}", i, short(v));
                    }
                }
            }
        }
        return Err(format!("{} ways through the loop", backs.len()));
    }
    let mut ba = backs.pop().unwrap().0;
    if ba.lost.is_some() || ba.imprecise.is_some() {
        return Err("imprecise iteration".into());
    }
    if ba.statics.len() != sa.statics.len() || !drop_tail(&mut ba, s0.heap.len()) {
        return Err("memory allocated".into());
    }
    if ba.eqs.len() != sa.eqs.len() {
        return Err("iteration needs an equality".into());
    }
    if ba.foralls.len() != sa.foralls.len() {
        return Err("nested facts".into());
    }
    let mut ex = Extract { t, ph: &ph, phw: &phw, back: &ba, f: BTreeMap::new(), fw: BTreeMap::new(), layers: BTreeMap::new(), err: None };
    if let Err(m) = walk_mem(&ma, &mem(&ba), &mut ex) {
        return Err(format!("{} {}", m, ex.err.unwrap_or_default()));
    }
    let (f, fw, layers) = (ex.f, ex.fw, ex.layers);
    // what an iteration leaves behind must not depend on what the one before left behind
    let mut vars = BTreeSet::new();
    for l in f.values() {
        if l.vars().any(|v| ph.contains(&v)) {
            return Err("recursive value".into());
        }
        vars.extend(l.vars());
    }
    for w in fw.values() {
        val_vars(&word(w.clone()), &mut vars);
        for b in w.iter() {
            for v in bits::base_support(*b) {
                if matches!(v, BitVar::Named { id, .. } if phw.contains_key(&id)) {
                    return Err("recursive value".into());
                }
            }
        }
    }
    if vars.iter().any(|v| ph.contains(v)) {
        return Err("recursive value".into());
    }
    for l in layers.values() {
        match l {
            Layer::Elem { at, val } => {
                vars.extend(at.vars());
                val_vars(val, &mut vars);
            }
            Layer::Block { q, word: w } => {
                vars.extend(q.vars());
                val_vars(&word(w.clone()), &mut vars);
            }
            _ => {}
        }
        if let Layer::Elem { at: x, .. } | Layer::Block { q: x, .. } = l {
            if x.vars().any(|v| ph.contains(&v)) {
                return Err("position depends on earlier iteration".into());
            }
        }
    }
    if derived(&vars, t, &ph) {
        return Err("derived quantity of the iteration number".into());
    }
    // the condition for iteration t to go on
    let mut lin_d: Vec<Lin> = dec;
    for c in ba.cons.iter() {
        if c.fact || sa.entails_ge(&c.l) {
            continue;
        }
        let vs: BTreeSet<V> = c.l.vars().collect();
        if vs.iter().any(|v| ph.contains(v)) || derived(&vs, t, &ph) {
            continue;
        }
        lin_d.push(c.l.clone());
    }
    let mut bit_d = bits::T;
    if ba.bitpc != bits::T {
        let mut vs = BTreeSet::new();
        val_vars(&Val::Bool(Cond::Bit(ba.bitpc)), &mut vs);
        if derived(&vs, t, &ph) {
            return Err("derived quantity in a condition".into());
        }
        bit_d = ba.bitpc;
    }
    let tau = new_var("it", false);
    add_fact_of(tau, Lin::var(tau));
    // iteration number t -> tau + 1 for the recorded ones, t -> t + 1 for the current one
    let sub_f = |at: &Lin| -> BTreeMap<V, Lin> { f.iter().map(|(p, l)| (*p, l.subst(t, at))).collect() };
    let at_tau = Shift { t, to: Lin::var(tau).addc(1), f: sub_f(&Lin::var(tau)), fw: &fw, fto: Lin::var(tau) };
    let at_cur = Shift { t, to: Lin::var(t).addc(1), f: sub_f(&Lin::var(t)), fw: &fw, fto: Lin::var(t) };
    // arrays after iterations 0..=t
    let mut arrs: HashMap<u32, u32> = HashMap::new();
    let mut bases: HashMap<u32, u32> = HashMap::new();
    let mut expect: HashMap<u32, Layer> = HashMap::new();
    {
        // array of the template -> array after the first iteration
        struct Pair(HashMap<u32, u32>, bool);
        impl Walk for Pair {
            fn quick(&self) -> bool {
                false
            }
            fn lin(&mut self, a: &Lin, _: &Lin) -> Option<Lin> {
                Some(a.clone())
            }
            fn int(&mut self, a: &IntV, _: &IntV) -> Option<IntV> {
                Some(a.clone())
            }
            fn cond(&mut self, a: &Cond, _: &Cond) -> Option<Cond> {
                Some(a.clone())
            }
            fn arr(&mut self, a: u32, b: u32) -> Option<u32> {
                if let Some(o) = self.0.insert(a, b) {
                    if o != b {
                        self.1 = true;
                    }
                }
                Some(a)
            }
        }
        let mut p = Pair(HashMap::new(), false);
        walk_mem(&ma, &m1, &mut p)?;
        if p.1 {
            return Err("arrays shared".into());
        }
        for (a, l) in &layers {
            let Some(&b) = p.0.get(a) else { return Err("array lost".into()) };
            let n = Lin::var(t);
            let r = at_tau.with(|s| match l {
                Layer::Elem { at, val } => Layer::RangeE { t: tau, n: n.clone(), at: s.lin(at), val: s.val(val) },
                Layer::Block { q, word } => Layer::RangeB { t: tau, n: n.clone(), at: s.lin(q), word: s.word(word) },
                o => o.clone(),
            });
            let x = arr_layer(b, r);
            arrs.insert(*a, x);
            bases.insert(x, b);
            expect.insert(x, at_cur.with(|s| s.layer(l)));
        }
        for (a, b) in &p.0 {
            if a != b && !layers.contains_key(a) {
                return Err("array changed by the first iteration only".into());
            }
        }
    }
    let mb = walk_mem(&ma, &ma, &mut Build { sh: &at_cur, arrs: &arrs })?;
    let mut sb = s1.clone();
    set_mem(&mut sb, mb.clone());
    // holds after the first iteration
    {
        let mut m = BTreeMap::new();
        m.insert(t, Lin::zero());
        let z = |l: &Lin| l.subst_map(&m);
        let keep = |a: u32| if bases.contains_key(&a) { Some(a) } else { None };
        let sz = Sub { lin: &z, arr: &keep, bit: &no_bit };
        let none = HashMap::new();
        let mz: Mem = (mb.0.iter().map(|v| sz.val(v)).collect(), mb.1.iter().map(|f| f.iter().map(|v| sz.val(v)).collect()).collect());
        let mut w = Same { st: &s1, layers: &none, empty: Some(&bases) };
        walk_mem(&mz, &m1, &mut w).map_err(|m| format!("not established: {}", m))?;
        for d in &lin_d {
            if !s1.entails_ge(&z(d)) {
                return Err("condition not established".into());
            }
        }
    }
    sb.add_con(Lin::var(t), true);
    for d in &lin_d {
        sb.add_con(d.clone(), false);
    }
    let step_bit = at_cur.with(|s| s.bdd(bit_d));
    if bit_d != bits::T {
        Rc::make_mut(&mut sb.foralls).push(Forall { t: tau, n: Lin::var(t), cond: at_tau.with(|s| s.bdd(bit_d)) });
    }
    readd_facts(&mut sb);
    // one more iteration
    let res = e.run(sb.clone(), bb, fr, Some(bb));
    let mut backs = vec![];
    let mut exits = vec![];
    for (mut s, x) in res {
        match x {
            Exit::Back => {
                wipe(&mut s, bb, fr);
                backs.push((s, ()));
            }
            x => exits.push((s, x)),
        }
    }
    let backs = e.merge(backs, sb.splits.len(), &mut |_, _| true);
    let mut exact = true;
    for (mut b, _) in backs {
        let r = (|| {
            if b.lost.is_some() {
                return Err("lost".to_string());
            }
            if b.statics.len() != sb.statics.len() || !drop_tail(&mut b, s0.heap.len()) {
                return Err("memory allocated".to_string());
            }
            // the invariant for t + 1
            let keep = |a: u32| if bases.contains_key(&a) { Some(a) } else { None };
            let nl = |l: &Lin| next_lin(l, t);
            let sn = Sub { lin: &nl, arr: &keep, bit: &no_bit };
            let mn: Mem = (mb.0.iter().map(|v| sn.val(v)).collect(), mb.1.iter().map(|f| f.iter().map(|v| sn.val(v)).collect()).collect());
            walk_mem(&mn, &mem(&b), &mut Same { st: &b, layers: &expect, empty: None }).map_err(|m| format!("not inductive: {}", m))?;
            for d in &lin_d {
                if !b.entails_ge(&nl(d)) {
                    return Err(format!("condition {} not inductive", d));
                }
            }
            if !b.entails(&Cond::bit(step_bit)) {
                return Err("bit condition not inductive".into());
            }
            Ok(())
        })();
        if let Err(m) = r {
            e.obls.truncate(obls);
            return Err(m);
        }
        // are the recorded conditions all there is?
        let mut full = sb.clone();
        for d in &lin_d {
            full.add_con(next_lin(d, t), false);
        }
        full.bitpc = bits::and(full.bitpc, step_bit);
        for c in b.cons.iter().filter(|c| c.fact) {
            full.add_con(c.l.clone(), true);
        }
        if b.imprecise.is_some()
            || b.cons.iter().any(|c| !c.fact && !full.entails_ge(&c.l))
            || b.eqs.len() != sb.eqs.len()
            || !full.entails(&Cond::bit(b.bitpc))
        {
            exact = false;
            if std::env::var("SA_LOOPS").is_ok() {
                eprintln!("INEXACT {} bb{}", s0.frames[fr].body.name, bb.as_usize());
                for c in b.cons.iter().filter(|c| !c.fact && !full.entails_ge(&c.l)) {
                    eprintln!("   {} >= 0", c.l);
                }
                for (v, x) in b.eqs.iter().skip(sb.eqs.len()) {
                    eprintln!("   {} := {}", var_name(*v), x);
                }
                eprintln!("   bits {} {:?}", full.entails(&Cond::bit(b.bitpc)), b.imprecise);
            }
        }
    }
    if !exact {
        for (s, _) in exits.iter_mut() {
            s.taint("loop summary");
        }
    }
    Ok(exits)
}

#[allow(clippy::too_many_arguments)]
pub fn check_filtered<'tcx>(e: &mut Eng<'tcx>, site: &str, _s: &mut State<'tcx>, _p: &crate::vecs::PreVec, _ret: u32, _arr: u32, _len: &crate::lin::Lin, _b: usize) {
    e.obls.push(Obl { prop: "C07".into(), site: site.into(), what: "filtered".into(), verdict: Verdict::Unknown("todo".into()) });
}
