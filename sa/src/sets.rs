//! Sets: the bit sets of the `bit-set` crate are mathematical sets here. An unknown initial set is a
//! membership bit per point; a derived one is a boolean function of the membership bits at a generic
//! point, corrected at the points that were inserted or removed one by one.
use crate::bits::{self, Bdd, BitVar};
use crate::interp::*;
use crate::lin::*;
use crate::models::Info;
use crate::state::*;
use crate::val::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SetV {
    pub memb: Bdd,
    pub over: Vec<(Lin, bool)>,
    pub len: Lin,
}
type Key = (Bdd, Vec<(Lin, bool)>, Lin);
#[derive(Default)]
struct Sets {
    p: Option<V>,
    bases: Vec<u32>,
    /// number of points with each membership pattern
    regions: Vec<Lin>,
    items: HashMap<Key, V>,
    uppers: HashMap<Key, V>,
    user: HashMap<(u32, Lin), V>,
    /// 1 when the first set comes after the second in the order of the bit sets, 0 when before
    order: HashMap<(Key, Key), V>,
    /// number of bits that a bit set has room for; nothing about the members follows from it
    rooms: HashMap<Key, V>,
    nv: Option<Lin>,
}
thread_local! {
    static SETS: RefCell<Sets> = RefCell::new(Default::default());
}
pub fn on() -> bool {
    SETS.with(|s| s.borrow().p.is_some())
}
pub fn off() {
    SETS.with(|s| *s.borrow_mut() = Default::default());
}
/// Item of a caller-supplied iterator: any value.
pub fn user_item(s: &mut State<'_>, seq: u32, pos: &Lin) -> Lin {
    let (v, nv) = SETS.with(|x| {
        let mut x = x.borrow_mut();
        let n = x.nv.clone().unwrap();
        (*x.user.entry((seq, pos.clone())).or_insert_with(|| new_var("item", false)), n)
    });
    let l = Lin::var(v);
    s.add_con(l.clone(), true);
    s.add_con(nv.sub(&l).addc(-1), true);
    l
}
fn at_point(memb: Bdd, d: &Lin) -> Bdd {
    let p = SETS.with(|s| s.borrow().p.unwrap());
    crate::specs::subst_bdd(memb, p, d)
}
/// Value of the membership function for one membership pattern of the initial sets.
fn pattern(memb: Bdd, mask: usize) -> bool {
    let bases = SETS.with(|s| s.borrow().bases.clone());
    bits::map_vars(memb, &mut |v| match v {
        BitVar::Sel { arr, .. } => match bases.iter().position(|b| b == arr) {
            Some(i) if mask >> i & 1 == 1 => bits::T,
            _ => bits::F,
        },
        o => bits::var(o.clone()),
    }) == bits::T
}
/// Which of the initial sets have the point?
fn mask_at(s: &mut State<'_>, bases: &[u32], regions: &[Lin], d: &Lin) -> R<usize> {
    let mut mask = 0;
    for (i, b) in bases.iter().enumerate() {
        if s.want(&Cond::Bit(bits::var(BitVar::Sel { arr: *b, idx: d.clone(), bit: 0 })))? {
            mask |= 1 << i;
        }
    }
    if mask > 0 {
        s.add_con(regions[mask - 1].addc(-1), true);
    }
    Ok(mask)
}
/// A set whose members were enumerated: the function, its exceptions, and the members by position.
struct Listed {
    memb: Bdd,
    over: Vec<(Lin, bool)>,
    items: Vec<(Lin, Lin)>,
}
fn listed(s: &State<'_>) -> Vec<Listed> {
    let mut used: std::collections::BTreeSet<V> = s.cons.iter().flat_map(|c| c.l.vars()).chain(s.eqs.iter().map(|e| e.0)).collect();
    for v in bits::base_support(s.bitpc) {
        if let BitVar::Sel { idx, .. } = v {
            used.extend(idx.vars());
        }
    }
    let mut all: Vec<(Key, V)> = SETS.with(|x| x.borrow().items.iter().map(|(k, v)| (k.clone(), *v)).collect());
    all.sort_by_key(|e| e.1);
    let mut out: Vec<Listed> = vec![];
    for ((memb, over, pos), v) in all {
        if !used.contains(&v) {
            continue;
        }
        let over: Vec<(Lin, bool)> = over.iter().map(|(l, b)| (s.norm(l), *b)).collect();
        let it = (s.norm(&pos), s.norm(&Lin::var(v)));
        match out.iter_mut().find(|g| g.memb == memb && g.over == over) {
            Some(g) => g.items.push(it),
            None => out.push(Listed { memb, over, items: vec![it] }),
        }
    }
    out
}
fn base_points(s: &State<'_>, b: Bdd, bases: &[u32]) -> Vec<Lin> {
    let mut pts: Vec<Lin> = vec![];
    for f in [b, s.bitpc] {
        for v in bits::base_support(f) {
            if let BitVar::Sel { arr, idx, .. } = v {
                let i = s.norm(&idx);
                if bases.contains(&arr) && !pts.contains(&i) {
                    pts.push(i);
                }
            }
        }
    }
    pts
}
/// Are the quantities and membership bits those of actual sets? `val` gives the quantities; `f` says
/// what is required of the bits. The bits are returned.
pub fn realise(s: &State<'_>, val: &dyn Fn(&Lin) -> i128, mut f: Bdd) -> Option<Vec<(BitVar, bool)>> {
    let (bases, regions, nv) = SETS.with(|x| (x.borrow().bases.clone(), x.borrow().regions.clone(), x.borrow().nv.clone().unwrap()));
    let size: Vec<i128> = regions.iter().map(|r| val(r)).collect();
    let mut pts: Vec<i128> = vec![];
    let mut groups: Vec<(Bdd, Vec<(i128, bool)>, BTreeMap<i128, i128>)> = vec![];
    for g in listed(s) {
        let over: Vec<(i128, bool)> = g.over.iter().map(|(l, b)| (val(l), *b)).collect();
        let k = match groups.iter().position(|h| h.0 == g.memb && h.1 == over) {
            Some(k) => k,
            None => {
                groups.push((g.memb, over, BTreeMap::new()));
                groups.len() - 1
            }
        };
        for (p, m) in g.items {
            let (p, m) = (val(&p), val(&m));
            pts.push(m);
            if groups[k].2.insert(p, m).is_some_and(|o| o != m) {
                return None;
            }
        }
        pts.extend(groups[k].1.iter().map(|o| o.0));
    }
    let has = |g: &(Bdd, Vec<(i128, bool)>, BTreeMap<i128, i128>), q: i128| -> Bdd {
        match g.1.iter().rev().find(|o| o.0 == q) {
            Some((_, true)) => bits::T,
            Some((_, false)) => bits::F,
            None => at_point(g.0, &Lin::int(q)),
        }
    };
    for g in &groups {
        for (i, (p, m)) in g.2.iter().enumerate() {
            if *p != i as i128 {
                return None;
            }
            f = bits::and(f, has(g, *m));
        }
        if g.2.values().zip(g.2.values().skip(1)).any(|(a, b)| a >= b) {
            return None;
        }
    }
    for v in bits::base_support(f) {
        if let BitVar::Sel { arr, idx, .. } = v {
            if bases.contains(&arr) {
                pts.push(idx.as_int()?);
            }
        }
    }
    if !pts.is_empty() && asked(s) {
        return None;
    }
    pts.sort();
    pts.dedup();
    for _ in 0..300 {
        let a = bits::sat_one(f)?;
        let bit = |b: u32, q: i128| a.iter().any(|(v, x)| *x && matches!(v, BitVar::Sel { arr, idx, .. } if *arr == b && idx.as_int() == Some(q)));
        let mask: Vec<usize> = pts.iter().map(|q| bases.iter().enumerate().map(|(i, b)| (bit(*b, *q) as usize) << i).sum()).collect();
        let named = |r: usize| mask.iter().filter(|m| **m == r + 1).count() as i128;
        let mut ok = (0..size.len()).all(|r| named(r) <= size[r]);
        // room for the members without a name: behind those that are listed, between the points
        let rest: i128 = (0..size.len()).map(|r| size[r] - named(r)).sum();
        let from = groups.iter().filter_map(|g| g.2.values().last()).max().map_or(0, |m| m + 1);
        ok &= from + pts.iter().filter(|p| **p >= from).count() as i128 + rest <= val(&nv);
        for g in &groups {
            let member = |i: usize| match g.1.iter().rev().find(|o| o.0 == pts[i]) {
                Some((_, v)) => *v,
                None => pattern(g.0, mask[i]),
            };
            let mut n: i128 = (0..size.len()).filter(|r| pattern(g.0, r + 1)).map(|r| size[r]).sum();
            for i in 0..pts.len() {
                n += member(i) as i128 - pattern(g.0, mask[i]) as i128;
            }
            let Some(last) = g.2.values().last() else { continue };
            let k = g.2.len() as i128;
            ok &= k <= n;
            for i in 0..pts.len() {
                ok &= !member(i) || pts[i] > *last || g.2.values().any(|m| *m == pts[i]);
            }
            ok &= (0..pts.len()).filter(|i| member(*i) && pts[*i] > *last).count() as i128 + k <= n;
        }
        if ok {
            return Some(a);
        }
        let mut this = bits::T;
        for q in &pts {
            for b in &bases {
                let v = bits::var(BitVar::Sel { arr: *b, idx: Lin::int(*q), bit: 0 });
                this = bits::and(this, if bit(*b, *q) { v } else { bits::not(v) });
            }
        }
        f = bits::and(f, bits::not(this));
    }
    None
}
/// Bring out what the axioms of finite sets say about the points named so far: more precise states, or
/// nothing when there is nothing left to say.
pub fn saturate<'tcx>(s: &State<'tcx>, b: Bdd) -> Option<Vec<State<'tcx>>> {
    let (bases, regions) = SETS.with(|x| (x.borrow().bases.clone(), x.borrow().regions.clone()));
    if s.bitpc == bits::F || s.entails_ge(&Lin::int(-1)) {
        return Some(vec![]);
    }
    let groups = listed(s);
    let mut pts = base_points(s, b, &bases);
    for g in &groups {
        for p in g.over.iter().map(|o| &o.0).chain(g.items.iter().map(|o| &o.1)) {
            if !pts.contains(p) {
                pts.push(p.clone());
            }
        }
    }
    let mut s = s.clone();
    for i in 0..pts.len() {
        for j in 0..i {
            let d = pts[i].sub(&pts[j]);
            if d.is_const() {
                continue;
            }
            match s.decide(&Cond::Eq(d.clone())) {
                Some(true) => return Some(if s.add_eq(&d) { vec![s] } else { vec![] }),
                Some(false) => {}
                None => return crate::specs::split_plain(&s, &Need::Cond(Cond::Eq(d))),
            }
        }
    }
    let mut mask = vec![];
    for p in &pts {
        let mut m = 0;
        for (i, b) in bases.iter().enumerate() {
            let c = Cond::Bit(bits::var(BitVar::Sel { arr: *b, idx: p.clone(), bit: 0 }));
            match s.decide(&c) {
                Some(v) => m |= (v as usize) << i,
                None => return crate::specs::split_plain(&s, &Need::Cond(c)),
            }
        }
        mask.push(m);
    }
    let mut facts: Vec<Lin> = vec![];
    for (r, n) in regions.iter().enumerate() {
        facts.push(n.addc(-(mask.iter().filter(|m| **m == r + 1).count() as i128)));
    }
    for g in &groups {
        let at = |p: &Lin| pts.iter().position(|q| q == p);
        let over: Vec<(usize, bool)> = g.over.iter().filter_map(|(l, v)| Some((at(l)?, *v))).collect();
        let member = |i: usize| match over.iter().rev().find(|o| o.0 == i) {
            Some((_, v)) => *v,
            None => pattern(g.memb, mask[i]),
        };
        let mut n = Lin::zero();
        for (r, x) in regions.iter().enumerate() {
            if pattern(g.memb, r + 1) {
                n = n.add(x);
            }
        }
        for i in 0..pts.len() {
            n = n.addc(member(i) as i128 - pattern(g.memb, mask[i]) as i128);
        }
        // members from the front, without a gap
        let mut front: Vec<usize> = vec![];
        while let Some((_, m)) = g.items.iter().find(|e| e.0.as_int() == Some(front.len() as i128)) {
            front.push(at(m)?);
        }
        if front.is_empty() {
            continue;
        }
        if front.iter().any(|i| !member(*i)) {
            return Some(vec![]);
        }
        let last = &pts[front[front.len() - 1]];
        let mut more = 0;
        for i in 0..pts.len() {
            if member(i) && !front.contains(&i) {
                facts.push(pts[i].sub(last).addc(-1));
                more += 1;
            }
        }
        facts.push(n.addc(-(front.len() as i128) - more));
    }
    let mut new = false;
    for f in facts {
        if !s.entails_ge(&f) {
            new = true;
            s.add_con(f, true);
        }
    }
    if new {
        return Some(if s.bitpc == bits::F { vec![] } else { vec![s] });
    }
    None
}
impl SetV {
    pub fn empty() -> SetV {
        SetV { memb: bits::F, over: vec![], len: Lin::zero() }
    }
    fn val(&self) -> Val {
        Val::Opq(Rc::new(Opq::Set { memb: self.memb, over: self.over.clone(), len: self.len.clone() }))
    }
    fn iter(&self) -> Val {
        Val::Opq(Rc::new(Opq::SetIter { memb: self.memb, over: self.over.clone(), len: self.len.clone(), pos: Lin::zero() }))
    }
    pub fn of(v: &Val) -> Option<SetV> {
        match v {
            Val::Opq(o) => match &**o {
                Opq::Set { memb, over, len } => Some(SetV { memb: *memb, over: over.clone(), len: len.clone() }),
                _ => None,
            },
            _ => None,
        }
    }
    /// Is the point a member?
    pub fn has(&self, s: &mut State<'_>, d: &Lin) -> R<bool> {
        let d = s.norm(d);
        for (at, v) in self.over.iter().rev() {
            if s.want(&Cond::eq(at, &d))? {
                return Ok(*v);
            }
        }
        let (bases, regions) = SETS.with(|x| (x.borrow().bases.clone(), x.borrow().regions.clone()));
        let mask = mask_at(s, &bases, &regions, &d)?;
        Ok(pattern(self.memb, mask))
    }
    pub fn insert(&self, s: &mut State<'_>, d: &Lin) -> R<(SetV, bool)> {
        let mut r = self.clone();
        if self.has(s, d)? {
            return Ok((r, false));
        }
        r.over.push((s.norm(d), true));
        r.len = s.norm(&r.len.addc(1));
        Ok((r, true))
    }
    pub fn remove(&self, s: &mut State<'_>, d: &Lin) -> R<(SetV, bool)> {
        let mut r = self.clone();
        if !self.has(s, d)? {
            return Ok((r, false));
        }
        r.over.push((s.norm(d), false));
        r.len = s.norm(&r.len.addc(-1));
        Ok((r, true))
    }
    pub fn combine(s: &mut State<'_>, op: &str, a: &SetV, b: &SetV) -> R<SetV> {
        let f = |x: Bdd, y: Bdd| match op {
            "union" => bits::not(bits::and(bits::not(x), bits::not(y))),
            "intersection" => bits::and(x, y),
            "difference" => bits::and(x, bits::not(y)),
            _ => bits::xor(x, y),
        };
        let memb = f(a.memb, b.memb);
        let mut over: Vec<(Lin, bool)> = vec![];
        let (bases, regions) = SETS.with(|x| (x.borrow().bases.clone(), x.borrow().regions.clone()));
        let mut len = Lin::zero();
        for (i, n) in regions.iter().enumerate() {
            if pattern(memb, i + 1) {
                len = len.add(n);
            }
        }
        for (at, _) in a.over.iter().chain(b.over.iter()) {
            let k = |x: bool| if x { bits::T } else { bits::F };
            let x = a.has(s, at)?;
            let y = b.has(s, at)?;
            let at = s.norm(at);
            if over.iter().any(|o| o.0 == at) {
                continue;
            }
            let v = f(k(x), k(y)) == bits::T;
            // the size counts the initial membership of the point
            let mask = mask_at(s, &bases, &regions, &at)?;
            len = len.addc(v as i128 - pattern(memb, mask) as i128);
            over.push((at, v));
        }
        Ok(SetV { memb, over, len })
    }
    fn key(&self, s: &State<'_>, pos: &Lin) -> Key {
        (self.memb, self.over.iter().map(|(l, b)| (s.norm(l), *b)).collect(), s.norm(pos))
    }
    /// The member number `pos` in increasing order.
    pub fn item(&self, s: &mut State<'_>, pos: &Lin) -> Lin {
        let k = self.key(s, pos);
        let mut prev = k.clone();
        prev.2 = k.2.addc(-1);
        let (v, before, nv) = SETS.with(|x| {
            let mut x = x.borrow_mut();
            let b = x.items.get(&prev).copied();
            (*x.items.entry(k).or_insert_with(|| new_var("member", false)), b, x.nv.clone().unwrap())
        });
        let l = Lin::var(v);
        s.add_con(l.clone(), true);
        s.add_con(nv.sub(&l).addc(-1), true);
        if let Some(b) = before {
            s.add_con(l.sub(&Lin::var(b)).addc(-1), true);
        }
        if self.over.is_empty() {
            s.bitpc = bits::and(s.bitpc, at_point(self.memb, &l));
        }
        l
    }
    /// Number of bits the set has storage for: any number that has room for all members.
    fn room(&self, s: &mut State<'_>) -> Lin {
        let k = self.key(s, &Lin::zero());
        let (v, nv) = SETS.with(|x| {
            let mut x = x.borrow_mut();
            (*x.rooms.entry(k).or_insert_with(|| new_var("room", false)), x.nv.clone().unwrap())
        });
        let l = Lin::var(v);
        s.add_con(l.sub(&nv), true);
        s.add_con(l.neg().addc(1 << 50), true);
        l
    }
    /// Size bounds of the bit-set iterators: no lower bound; the upper bound counts 32 for every
    /// word behind the current one and 1 for the current one (which is too small: bit-set 0.5.3).
    pub fn hint(&self, s: &mut State<'_>, pos: &Lin) -> Lin {
        let k = self.key(s, pos);
        let v = SETS.with(|x| *x.borrow_mut().uppers.entry(k).or_insert_with(|| new_var("words", false)));
        let w = Lin::var(v);
        s.add_con(w.clone(), true);
        s.add_con(w.scale(Rat::int(32)).addc(32).sub(&self.len).add(pos), true);
        s.add_con(w.neg().addc(1 << 50), true);
        w.scale(Rat::int(32)).addc(1)
    }
}
fn fail<T>(m: &str) -> R<T> {
    Err(Need::Fail(m.to_string()))
}
fn deref<'tcx>(s: &mut State<'tcx>, v: &Val) -> R<Val> {
    match v {
        Val::Ref(p) => {
            let v = s.read_ptr(p)?;
            deref(s, &v)
        }
        v => Ok(v.clone()),
    }
}
fn the_set<'tcx>(s: &mut State<'tcx>, v: &Val) -> R<SetV> {
    let v = deref(s, v)?;
    match SetV::of(&v) {
        Some(x) => Ok(x),
        None => fail("bit set"),
    }
}
/// Hand a value to a hasher.
fn feed<'tcx>(s: &mut State<'tcx>, h: &Val, x: Val) -> R<Val> {
    let Val::Ref(p) = h else { return fail("hasher") };
    let Val::Opq(o) = s.read_ptr(p)? else { return fail("hasher") };
    let Opq::Hasher { id, n, log } = &*o else { return fail("hasher") };
    let log = s.write_val(*log, n, x);
    let o2 = Opq::Hasher { id: *id, n: s.norm(&n.addc(1)), log };
    s.write_ptr(p, Val::Opq(Rc::new(o2)))?;
    Ok(unit())
}
fn put<'tcx>(s: &mut State<'tcx>, at: &Val, x: &SetV) -> R<()> {
    match at {
        Val::Ref(p) => s.write_ptr(p, x.val()),
        _ => fail("bit set"),
    }
}
pub fn native<'tcx>(e: &mut Eng<'tcx>, st: State<'tcx>, info: &Info, _inst: Instance<'tcx>, vals: &[Val], _at: &[Ty<'tcx>], _d: Ty<'tcx>) -> Option<Outs<'tcx>> {
    if !on() || !matches!(info.krate.as_str(), "bit_set" | "bit_vec") {
        return None;
    }
    let v = |i: usize| vals[i].clone();
    let name = info.name.as_str();
    Some(match (info.head.as_str(), info.tr.as_str(), name) {
        ("BitSet", "", "new" | "with_capacity") | ("BitSet", "Default", "default") => ret(st, SetV::empty().val()),
        ("BitSet", "", "contains") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let Some(d) = v(1).lin() else { return fail("point of a set") };
            Ok(Val::Bool(Cond::B(a.has(s, &d)?)))
        }),
        ("BitSet", "", "insert" | "remove") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let Some(d) = v(1).lin() else { return fail("point of a set") };
            let (a, r) = if name == "insert" { a.insert(s, &d)? } else { a.remove(s, &d)? };
            put(s, &v(0), &a)?;
            Ok(Val::Bool(Cond::B(r)))
        }),
        ("BitSet", "", "clear") => e.simple(st, |_, s| {
            put(s, &v(0), &SetV::empty())?;
            Ok(unit())
        }),
        ("BitSet", "", "len") => e.simple(st, |_, s| Ok(int(the_set(s, &v(0))?.len))),
        ("BitSet", "", "is_empty") => e.simple(st, |_, s| Ok(Val::Bool(Cond::eq(&the_set(s, &v(0))?.len, &Lin::zero())))),
        ("BitSet", "", "shrink_to_fit" | "reserve_len" | "reserve_len_exact") => ret(st, unit()),
        ("BitSet", "", "union_with" | "intersect_with" | "difference_with" | "symmetric_difference_with") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            let op = match name {
                "intersect_with" => "intersection",
                n => n.strip_suffix("_with").unwrap(),
            };
            let r = SetV::combine(s, op, &a, &b)?;
            put(s, &v(0), &r)?;
            Ok(unit())
        }),
        ("BitSet", "", "union" | "intersection" | "difference" | "symmetric_difference") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            Ok(SetV::combine(s, name, &a, &b)?.iter())
        }),
        ("BitSet", "", "is_disjoint" | "is_subset" | "is_superset") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            Ok(Val::Bool(relation(s, name, &a, &b)?))
        }),
        ("BitSet", "PartialEq", "eq" | "ne") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            let c = relation(s, "eq", &a, &b)?;
            Ok(Val::Bool(if name == "eq" { c } else { c.not() }))
        }),
        ("BitSet", "Ord", "cmp") | ("BitSet", "PartialOrd", "partial_cmp") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            let c = relation(s, "eq", &a, &b)?;
            let o = if s.want(&c)? {
                std::cmp::Ordering::Equal
            } else if greater(s, &a, &b)? {
                std::cmp::Ordering::Greater
            } else {
                std::cmp::Ordering::Less
            };
            let o = ordering_val(o);
            Ok(if name == "cmp" { o } else { some(o) })
        }),
        // a bit set is hashed member by member: a function of the members, entered as one value
        ("BitSet", "Hash", "hash") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            feed(s, &v(1), a.val())
        }),
        // the bits are hashed behind their number
        ("BitVec", "Hash", "hash") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let n = a.room(s);
            feed(s, &v(1), int(n))?;
            feed(s, &v(1), a.val())
        }),
        ("BitVec", "PartialEq", "eq" | "ne") => e.simple(st, |_, s| {
            let (a, b) = (the_set(s, &v(0))?, the_set(s, &v(1))?);
            let (x, y) = (a.room(s), b.room(s));
            let c = relation(s, "eq", &a, &b)?;
            let eq = s.want(&Cond::eq(&x, &y))? && s.want(&c)?;
            Ok(Val::Bool(Cond::B(eq == (name == "eq"))))
        }),
        ("BitVec", "", "len" | "capacity") | ("BitSet", "", "capacity") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            Ok(int(a.room(s)))
        }),
        ("BitVec", "", "get") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let Some(d) = v(1).lin() else { return fail("point of a set") };
            let n = a.room(s);
            if !s.want(&Cond::lt(&d, &n))? {
                return Ok(none());
            }
            Ok(some(Val::Bool(Cond::B(a.has(s, &d)?))))
        }),
        ("BitVec", "", "any" | "none") => e.simple(st, |_, s| {
            let c = Cond::eq(&the_set(s, &v(0))?.len, &Lin::zero());
            Ok(Val::Bool(if name == "none" { c } else { c.not() }))
        }),
        ("BitVec", "", "is_empty") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let n = a.room(s);
            Ok(Val::Bool(Cond::eq(&n, &Lin::zero())))
        }),
        ("BitVec", "", "all") => e.simple(st, |_, s| {
            let a = the_set(s, &v(0))?;
            let n = a.room(s);
            Ok(Val::Bool(Cond::eq(&a.len, &n)))
        }),
        ("BitSet", "", "into_bit_vec" | "from_bit_vec") => ret(st, v(0)),
        ("BitSet", "", "get_ref") => ret(st, v(0)),
        ("BitSet", "Clone", "clone") => e.simple(st, |_, s| Ok(the_set(s, &v(0))?.val())),
        ("BitSet", "Clone", "clone_from") => e.simple(st, |_, s| {
            let b = the_set(s, &v(1))?;
            put(s, &v(0), &b)?;
            Ok(unit())
        }),
        ("BitSet", "", "iter") | (_, "IntoIterator", "into_iter") => e.simple(st, |_, s| Ok(the_set(s, &v(0))?.iter())),
        (_, "Iterator", "next") => e.simple(st, |_, s| {
            let Val::Opq(o) = deref(s, &v(0))? else { return fail("set iterator") };
            let Opq::SetIter { memb, over, len, pos } = &*o else { return fail("set iterator") };
            let a = SetV { memb: *memb, over: over.clone(), len: len.clone() };
            if !s.want(&Cond::lt(pos, len))? {
                return Ok(none());
            }
            let x = a.item(s, pos);
            let n = Opq::SetIter { memb: *memb, over: over.clone(), len: len.clone(), pos: s.norm(&pos.addc(1)) };
            match &vals[0] {
                Val::Ref(p) => s.write_ptr(p, Val::Opq(Rc::new(n)))?,
                _ => return fail("set iterator"),
            }
            Ok(some(int(x)))
        }),
        (_, "Iterator", "size_hint") => e.simple(st, |_, s| {
            let Val::Opq(o) = deref(s, &v(0))? else { return fail("set iterator") };
            let Opq::SetIter { memb, over, len, pos } = &*o else { return fail("set iterator") };
            let a = SetV { memb: *memb, over: over.clone(), len: len.clone() };
            let u = a.hint(s, pos);
            Ok(agg(0, vec![int(Lin::zero()), some(int(u))]))
        }),
        (_, "Clone", "clone") => e.simple(st, |_, s| deref(s, &v(0))),
        _ => return None,
    })
}
fn relation(s: &mut State<'_>, name: &str, a: &SetV, b: &SetV) -> R<Cond> {
    let r = match name {
        "is_disjoint" => SetV::combine(s, "intersection", a, b)?,
        "is_subset" => SetV::combine(s, "difference", a, b)?,
        "is_superset" => SetV::combine(s, "difference", b, a)?,
        _ => SetV::combine(s, "symmetric_difference", a, b)?,
    };
    Ok(Cond::eq(&r.len, &Lin::zero()))
}

/// Order of two different bit sets: `true` when the first one is greater.
fn greater(s: &mut State<'_>, a: &SetV, b: &SetV) -> R<bool> {
    let k = (a.key(s, &Lin::zero()), b.key(s, &Lin::zero()));
    let r = (k.1.clone(), k.0.clone());
    let (v, rev) = SETS.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(v) = x.order.get(&r) {
            return (*v, true);
        }
        (*x.order.entry(k).or_insert_with(|| new_var("greater", false)), false)
    });
    let l = Lin::var(v);
    s.add_con(l.clone(), true);
    s.add_con(l.neg().addc(1), true);
    let g = s.want(&Cond::eq(&l, &Lin::int(1)))? != rev;
    // the greater one is not empty; any two different sets of such sizes come in either order
    s.add_con(if g { a.len.addc(-1) } else { b.len.addc(-1) }, true);
    Ok(g)
}
/// Result of the comparison: the order of the bit sets where the path asked for it, the members
/// one by one where not.
fn compared(s: &mut State<'_>, a: &SetV, b: &SetV, depth: i128) -> R<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    let c = relation(s, "eq", a, b)?;
    if s.want(&c)? {
        return Ok(Equal);
    }
    if asked(s) {
        return Ok(if greater(s, a, b)? { Greater } else { Less });
    }
    for i in 0..depth {
        let i = Lin::int(i);
        if !s.want(&Cond::lt(&i, &a.len))? {
            return Ok(Less);
        }
        if !s.want(&Cond::lt(&i, &b.len))? {
            return Ok(Greater);
        }
        let (x, y) = (a.item(s, &i), b.item(s, &i));
        if !s.want(&Cond::eq(&x, &y))? {
            return Ok(if s.want(&Cond::lt(&x, &y))? { Less } else { Greater });
        }
    }
    fail("members beyond the bound")
}
/// Does the path depend on the order of bit sets?
fn asked(s: &State<'_>) -> bool {
    let vs: Vec<V> = SETS.with(|x| x.borrow().order.values().copied().collect());
    s.cons.iter().flat_map(|c| c.l.vars()).chain(s.eqs.iter().map(|e| e.0)).any(|v| vs.contains(&v))
}
pub fn ordering(v: &Val) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    match v {
        Val::Agg(i, f) if f.is_empty() => Some([Less, Equal, Greater][*i as usize]),
        _ => None,
    }
}
fn ordering_val(o: std::cmp::Ordering) -> Val {
    agg((o as i8 + 1) as u32, vec![])
}

pub const SET_OPS: &[&str] = &[
    "new", "default", "from_bits", "into_bits", "get_ref", "shrink", "union_with", "intersect_with", "difference_with", "symmetric_difference_with", "len", "is_empty", "clear", "contains", "is_disjoint", "is_subset",
    "is_superset", "insert", "remove", "extend", "from_iter", "clone", "clone_from", "debug", "eq", "ne", "hash", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "iter", "into_iter", "union", "intersection", "difference", "symmetric_difference",
];

impl<'tcx> Eng<'tcx> {
    fn set_call(&mut self, site: &str, prop: &str, op: &str, st: State<'tcx>, args: Vec<Val>) -> Vec<(State<'tcx>, Val)> {
        let Some(f) = self.find_local(&["sets", op]) else {
            self.push_unknown(prop, site, "operation exists", op);
            return vec![];
        };
        self.stack.clear();
        let mut out = vec![];
        for (s, o) in self.call(st, Instance::mono(self.tcx, f), args) {
            match o {
                Outcome::Ret(v) => out.push((s, v)),
                Outcome::Panic(m) => {
                    self.oblige(&s, prop, site, &format!("no panic ({})", m), &Cond::B(false));
                }
                Outcome::Stuck(m) => self.push_unknown("*", site, "path followed", &m),
            }
        }
        out
    }
    fn set_cases<T>(&mut self, prop: &str, site: &str, what: &str, st: State<'tcx>, f: &mut dyn FnMut(&mut State<'tcx>) -> R<T>) -> Vec<(State<'tcx>, T)> {
        let mut out = vec![];
        for (s, r) in self.with_splits(st, &mut |_, s| f(s)) {
            match r {
                Ok(x) => out.push((s, x)),
                Err(m) => self.push_unknown(prop, site, what, &m),
            }
        }
        out
    }
    fn any_elem(&mut self, st: &mut State<'tcx>) -> (Val, Lin) {
        let t = self.elem_ty().unwrap();
        let k = self.tkey(t);
        let nv = self.nv_of(k);
        let x = Lin::var(new_var("x", false));
        st.add_con(x.clone(), false);
        st.add_con(nv.sub(&x).addc(-1), false);
        (Val::T(k, IntV::L(x.clone())), x)
    }
    /// The set behind the pointer has exactly the expected members.
    fn set_is(&mut self, prop: &str, site: &str, st: &State<'tcx>, p: &Rc<Ptr>, what: &str, exp: &SetV) {
        let mut s = st.clone();
        let (x, xl) = self.any_elem(&mut s);
        let w = format!("members of {}", what);
        for (s, r) in self.set_call(site, prop, "contains", s, vec![Val::Ref(p.clone()), x]) {
            self.set_bool(prop, site, &w, &s, &r, &mut |s| Ok(Cond::B(exp.has(s, &xl)?)));
        }
        for (s, r) in self.set_call(site, prop, "len", st.clone(), vec![Val::Ref(p.clone())]) {
            match r.lin() {
                Some(l) => {
                    self.oblige(&s, prop, site, &format!("number of members of {}", what), &Cond::eq(&l, &exp.len));
                }
                None => self.push_unknown(prop, site, &format!("number of members of {}", what), "unknown value"),
            }
        }
    }
    fn set_bool(&mut self, prop: &str, site: &str, what: &str, s: &State<'tcx>, r: &Val, exp: &mut dyn FnMut(&mut State<'tcx>) -> R<Cond>) {
        let Val::Bool(c) = r else {
            self.push_unknown(prop, site, what, "unknown value");
            return;
        };
        for (s, e) in self.set_cases(prop, site, what, s.clone(), exp) {
            for (c, e) in [(c.clone(), e.clone()), (c.not(), e.not())] {
                if c == Cond::Top {
                    self.push_unknown(prop, site, what, "unknown value");
                    continue;
                }
                for s in s.clone().assume(&c) {
                    self.oblige(&s, prop, site, what, &e);
                }
            }
        }
    }
    /// The bit set itself has exactly the expected members.
    fn bits_are(&mut self, prop: &str, site: &str, st: &State<'tcx>, v: &Val, exp: &SetV) {
        let Some(got) = SetV::of(v) else {
            self.push_unknown(prop, site, "members of the bit set", "unknown value");
            return;
        };
        let mut s = st.clone();
        let (_, x) = self.any_elem(&mut s);
        for (s, (a, b)) in self.set_cases(prop, site, "members of the bit set", s, &mut |s| Ok((got.has(s, &x)?, exp.has(s, &x)?))) {
            self.oblige(&s, prop, site, "members of the bit set", &Cond::B(a == b));
        }
    }
    pub fn check_sets(&mut self, ops: &[&str], depth: usize) {
        // enough values to realise every combination; then few of them
        for (big, ops) in [(true, ops), (false, ops)] {
            for op in ops {
                self.check_set_op(op, big, depth);
                off();
            }
        }
        self.set_cfg(0, 0);
    }
    fn check_set_op(&mut self, op: &str, big: bool, depth: usize) {
        let site = format!("sets::{}", op);
        self.set_cfg(0, 0);
        let Some(f) = self.find_local(&["sets", op]) else {
            self.push_unknown("S01", &site, "operation exists", "not found");
            return;
        };
        let Some(t) = self.elem_ty() else { return };
        let k = self.tkey(t);
        let nv = Lin::var(new_var("NUM_VARIANTS", false));
        self.nv.insert(k, nv.clone());
        self.base_facts = if big { vec![nv.addc(-64), nv.neg().addc(u64::MAX as i128)] } else { vec![nv.clone(), nv.neg().addc(63)] };
        let mut st = State::new();
        for c in self.base_facts.clone() {
            st.add_con(c, true);
        }
        let mut room = nv.clone();
        let p = new_var("p", false);
        let bases: Vec<u32> = ["a", "b"].iter().map(|n| arr_base(n, AKind::Vals, k, false)).collect();
        let regions: Vec<Lin> = ["only_a", "only_b", "a_and_b"].iter().map(|n| Lin::var(new_var(n, false))).collect();
        for r in &regions {
            st.add_con(r.clone(), true);
            st.add_con(r.neg().addc(1 << 40), true);
            room = room.sub(r);
        }
        st.add_con(room, true);
        SETS.with(|s| {
            *s.borrow_mut() = Sets { p: Some(p), bases: bases.clone(), regions: regions.clone(), nv: Some(nv.clone()), ..Default::default() };
        });
        let base = |i: usize| SetV {
            memb: bits::var(BitVar::Sel { arr: bases[i], idx: Lin::var(p), bit: 0 }),
            over: vec![],
            len: regions[i].add(&regions[2]),
        };
        let prop = match op {
            "from_bits" | "into_bits" | "get_ref" | "iter" | "into_iter" | "union" | "intersection" | "difference" | "symmetric_difference" => "S02",
            "clone" | "clone_from" => "C14",
            "debug" => "C15",
            "eq" | "ne" | "hash" | "cmp" | "partial_cmp" | "lt" | "le" | "gt" | "ge" => "S03",
            _ => "S01",
        };
        // arguments
        let sig = self.tcx.fn_sig(f).instantiate_identity().skip_norm_wip();
        let sig = self.tcx.instantiate_bound_regions_with_erased(sig);
        let mut cur: Vec<(State<'tcx>, Vec<Val>)> = vec![(st, vec![])];
        let mut nsets = 0;
        let (mut ptrs, mut elems, mut items) = (vec![], vec![], vec![]);
        for t in sig.inputs() {
            let inner = t.builtin_deref(true);
            let nm = match inner.unwrap_or(*t).kind() {
                ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
                _ => String::new(),
            };
            let mut next = vec![];
            match nm.as_str() {
                "EnumSet" => {
                    for (s, a) in cur {
                        for (mut s, v) in self.set_call(&site, prop, "from_bits", s, vec![base(nsets).val()]) {
                            let mut a = a.clone();
                            if inner.is_some() {
                                a.push(s.alloc_ref(v));
                            } else {
                                a.push(v);
                            }
                            next.push((s, a));
                        }
                    }
                    nsets += 1;
                }
                "Formatter" | "Hash1" => {
                    let log = arr_base("shown", AKind::Vals, k, true);
                    for (mut s, mut a) in cur {
                        let f = s.alloc_ref(Val::Opq(Rc::new(Opq::Hasher { id: 0, n: Lin::zero(), log })));
                        a.push(f);
                        next.push((s, a));
                    }
                }
                "BitSet" => {
                    for (s, mut a) in cur {
                        a.push(base(nsets).val());
                        next.push((s, a));
                    }
                    nsets += 1;
                }
                "Iter" => {
                    let total = Lin::var(new_var("items", false));
                    let seq = arr_base("item", AKind::Vals, k, false);
                    for (mut s, mut a) in cur {
                        s.add_con(total.clone(), false);
                        s.add_con(total.neg().addc(1 << 40), false);
                        a.push(s.alloc_ref(Val::Opq(Rc::new(Opq::Iter { id: 1, pos: Lin::zero(), total: total.clone(), seq, tk: k, wild: false }))));
                        next.push((s, a));
                    }
                    items.push((seq, total));
                }
                _ if self.is_marker(*t) => {
                    let x = Lin::var(new_var("value", false));
                    for (mut s, mut a) in cur {
                        s.add_con(x.clone(), false);
                        s.add_con(nv.sub(&x).addc(-1), false);
                        a.push(Val::T(k, IntV::L(x.clone())));
                        next.push((s, a));
                    }
                    elems.push(x);
                }
                _ => {
                    self.push_unknown(prop, &site, "operation analysable", &format!("argument {}", t));
                    return;
                }
            }
            cur = next;
        }
        let mut hashed: Vec<(State<'tcx>, Lin, u32)> = vec![];
        for (s, args) in cur {
            ptrs.clear();
            for a in &args {
                if let Val::Ref(p) = a {
                    ptrs.push(p.clone());
                }
            }
            for (mut s, r) in self.set_call(&site, prop, op, s, args.clone()) {
                let mut after: Vec<SetV> = (0..nsets).map(base).collect();
                match op {
                    "new" | "default" => {
                        if let Val::Ref(q) = s.alloc_ref(r) {
                            self.set_is(prop, &site, &s, &q, "the new set", &SetV::empty());
                        }
                        continue;
                    }
                    "from_bits" | "clone" => {
                        if let Val::Ref(q) = s.alloc_ref(r) {
                            self.set_is(prop, &site, &s, &q, "the result", &base(0));
                        }
                        if op == "from_bits" {
                            continue;
                        }
                    }
                    "into_bits" => {
                        self.bits_are(prop, &site, &s, &r, &base(0));
                        continue;
                    }
                    "get_ref" => {
                        let v = deref(&mut s, &r).unwrap_or(Val::Top);
                        self.bits_are(prop, &site, &s, &v, &base(0));
                    }
                    "len" => match r.lin() {
                        Some(l) => {
                            self.oblige(&s, prop, &site, "returned number", &Cond::eq(&l, &base(0).len));
                        }
                        None => self.push_unknown(prop, &site, "returned number", "unknown value"),
                    },
                    "is_empty" => self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |_| Ok(Cond::eq(&base(0).len, &Lin::zero()))),
                    "contains" => self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |s| Ok(Cond::B(base(0).has(s, &elems[0])?))),
                    "is_disjoint" | "is_subset" | "is_superset" | "eq" => self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |s| relation(s, op, &base(0), &base(1))),
                    "ne" => self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |s| Ok(relation(s, op, &base(0), &base(1))?.not())),
                    "debug" => {
                        let Ok(Val::Opq(o)) = s.read_ptr(&ptrs[1]) else {
                            self.push_unknown(prop, &site, "members shown", "unknown");
                            continue;
                        };
                        let Opq::Hasher { id, n, log } = &*o else { continue };
                        if *id == crate::fmts::OTHER {
                            self.push_unknown(prop, &site, "shown as a set", "formatted by other means");
                            continue;
                        }
                        self.oblige(&s, prop, &site, "shown as a set", &Cond::B(*id == crate::fmts::SET_DONE));
                        if self.oblige(&s, prop, &site, "every member is shown", &Cond::eq(n, &base(0).len)) {
                            let Some(n) = n.as_int() else { continue };
                            for i in 0..n {
                                let want = base(0).item(&mut s, &Lin::int(i));
                                match s.locate(*log, &Lin::int(i), true) {
                                    Ok(Loc::Val(Val::T(_, IntV::L(l)))) => {
                                        self.oblige(&s, prop, &site, "the members are shown in order", &Cond::eq(&l, &want));
                                    }
                                    _ => self.push_unknown(prop, &site, "the members are shown in order", "unknown"),
                                }
                            }
                        }
                    }
                    "hash" => match s.read_ptr(&ptrs[1]) {
                        Ok(Val::Opq(o)) if matches!(&*o, Opq::Hasher { .. }) => {
                            if let Opq::Hasher { n, log, .. } = &*o {
                                hashed.push((s.clone(), n.clone(), *log));
                            }
                        }
                        _ => self.push_unknown(prop, &site, "hashed data", "unknown"),
                    },
                    "cmp" | "partial_cmp" => {
                        let o = match (&r, op) {
                            (Val::Agg(1, f), "partial_cmp") => f.first().and_then(ordering),
                            (r, "cmp") => ordering(r),
                            (Val::Agg(0, _), _) => {
                                self.oblige(&s, prop, &site, "the sets can be compared", &Cond::B(false));
                                continue;
                            }
                            _ => None,
                        };
                        match o {
                            None => self.push_unknown(prop, &site, "returned order", "unknown value"),
                            Some(o) => {
                                for (s, want) in self.set_cases(prop, &site, "returned order", s.clone(), &mut |s| compared(s, &base(0), &base(1), depth as i128)) {
                                    self.oblige(&s, prop, &site, "returned order", &Cond::B(o == want));
                                }
                            }
                        }
                    }
                    "lt" | "le" | "gt" | "ge" => self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |s| {
                        let o = compared(s, &base(0), &base(1), depth as i128)?;
                        Ok(Cond::B(match op {
                            "lt" => o.is_lt(),
                            "le" => o.is_le(),
                            "gt" => o.is_gt(),
                            _ => o.is_ge(),
                        }))
                    }),
                    "clear" => after[0] = SetV::empty(),
                    "clone_from" => after[0] = base(1),
                    "insert" | "remove" => {
                        let x = elems[0].clone();
                        let cs = self.set_cases(prop, &site, "members", s, &mut |s| if op == "insert" { base(0).insert(s, &x) } else { base(0).remove(s, &x) });
                        for (s, (a, changed)) in cs {
                            self.set_bool(prop, &site, "returned truth value", &s, &r, &mut |_| Ok(Cond::B(changed)));
                            self.set_is(prop, &site, &s, &ptrs[0], "the receiver", &a);
                        }
                        continue;
                    }
                    "union_with" | "intersect_with" | "difference_with" | "symmetric_difference_with" => {
                        let o = match op {
                            "intersect_with" => "intersection",
                            n => n.strip_suffix("_with").unwrap(),
                        };
                        if let Ok(x) = SetV::combine(&mut s, o, &base(0), &base(1)) {
                            after[0] = x;
                        }
                    }
                    "extend" | "from_iter" => {
                        let (seq, total) = items[0].clone();
                        // a path that stops early leaves the number of items open: every small number is a case
                        let known = s.norm(&total).as_int();
                        let counts: Vec<i128> = match known {
                            Some(n) => vec![n],
                            None => (0..4).collect(),
                        };
                        if known.is_none() {
                            self.push_unknown(prop, &site, "members", "number of items");
                        }
                        for n in counts {
                        for mut s in if known.is_some() { vec![s.clone()] } else { s.clone().assume(&Cond::eq(&total, &Lin::int(n))) } {
                        let start = if op == "extend" { base(0) } else { SetV::empty() };
                        let q = if op == "extend" {
                            ptrs[0].clone()
                        } else {
                            match s.alloc_ref(r.clone()) {
                                Val::Ref(q) => q,
                                _ => continue,
                            }
                        };
                        let cs = self.set_cases(prop, &site, "members", s, &mut |s| {
                            let mut a = start.clone();
                            for i in 0..n {
                                let x = user_item(s, seq, &Lin::int(i));
                                a = a.insert(s, &x)?.0;
                            }
                            Ok(a)
                        });
                        for (s, a) in cs {
                            self.set_is(prop, &site, &s, &q, "the set", &a);
                        }
                        }
                        }
                        continue;
                    }
                    "iter" | "into_iter" | "union" | "intersection" | "difference" | "symmetric_difference" => {
                        let exp = if nsets == 1 { Ok(base(0)) } else { SetV::combine(&mut s, op, &base(0), &base(1)) };
                        if let (Ok(exp), Val::Ref(q)) = (exp, s.alloc_ref(r.clone())) {
                            let kind = if nsets == 1 { "iter" } else { op };
                            let over = self.overridden(self.output(f));
                            self.set_walk(&site, kind, s.clone(), q, &exp, 0, depth, &over);
                        }
                    }
                    _ => {}
                }
                for (i, a) in after.iter().enumerate() {
                    if let Some(q) = ptrs.get(i).filter(|_| i < nsets) {
                        self.set_is(prop, &site, &s, q, if i == 0 { "the receiver" } else { "the argument" }, a);
                    }
                }
            }
        }
        self.set_hash_twins(prop, &site, hashed);
    }
    /// Sets with the same members may have room for different numbers of bits and so take different
    /// paths: all of them hash the same data.
    fn set_hash_twins(&mut self, prop: &str, site: &str, paths: Vec<(State<'tcx>, Lin, u32)>) {
        let what = "sets with the same members hash the same data";
        let rooms: Vec<V> = SETS.with(|x| x.borrow().rooms.values().copied().collect());
        let mut own: BTreeMap<V, Lin> = Default::default();
        let mut rename = |v: V| -> Lin {
            if rooms.contains(&v) {
                return own.entry(v).or_insert_with(|| Lin::var(new_var("room'", false))).clone();
            }
            if let Some((r, _)) = quot_def(v) {
                if r.vars().any(|x| rooms.contains(&x)) {
                    return own.entry(v).or_insert_with(|| Lin::var(new_var("quotient'", false))).clone();
                }
            }
            Lin::var(v)
        };
        let mut waste: HashMap<BitVar, u32> = HashMap::new();
        // what every path hashes, and how many numbers that are: a set counts its members
        let mut data: Vec<(&State<'tcx>, Vec<Val>, Lin)> = vec![];
        for (s, n, log) in &paths {
            let mut vs = vec![];
            let mut total = Lin::zero();
            let n = s.norm(n).as_int();
            for k in 0..n.unwrap_or(0) {
                match s.clone().locate(*log, &Lin::int(k), true) {
                    Ok(Loc::Val(x)) => {
                        total = match SetV::of(&x) {
                            Some(a) => total.add(&a.len),
                            None => total.addc(1),
                        };
                        vs.push(x);
                    }
                    _ => break,
                }
            }
            if n != Some(vs.len() as i128) {
                self.push_unknown(prop, site, what, "unknown data");
                continue;
            }
            data.push((s, vs, total));
        }
        for (sj, dj, tj) in &data {
            for (si, di, ti) in &data {
                let Some(m) = crate::vecs::twin_state(si, sj, &mut rename, &mut waste) else { continue };
                let a = m.norm(ti);
                let b = m.norm(&crate::vecs::rename_lin(tj, &mut rename));
                if !self.oblige(&m, prop, site, what, &Cond::eq(&a, &b)) {
                    continue;
                }
                if di.len() != dj.len() {
                    self.push_unknown(prop, site, what, "hashed in different ways");
                    continue;
                }
                for (x, y) in di.iter().zip(dj) {
                    let (x, y) = match (x, y) {
                        (Val::T(_, IntV::L(x)), Val::T(_, IntV::L(y))) => (int(x.clone()), int(y.clone())),
                        (x, y) => (x.clone(), y.clone()),
                    };
                    if let (Some(x), Some(y)) = (SetV::of(&x), SetV::of(&y)) {
                        if x.memb == y.memb && x.over == y.over {
                            self.oblige(&m, prop, site, what, &Cond::B(true));
                            continue;
                        }
                    } else if let (Some(x), Some(y)) = (x.lin(), y.lin()) {
                        let y = crate::vecs::rename_lin(&y, &mut rename);
                        self.oblige(&m, prop, site, what, &Cond::eq(&m.norm(&x), &m.norm(&y)));
                        continue;
                    }
                    self.push_unknown(prop, site, what, "hashed in different ways");
                }
            }
        }
    }
    /// Provided iterator methods that the library overrides.
    fn set_provided(&mut self, site: &str, kind: &str, st: &State<'tcx>, it: &Rc<Ptr>, exp: &SetV, pos: i128, over: &[String]) {
        let prop = "S02";
        for op in over {
            let op = op.as_str();
            if matches!(op, "next" | "size_hint") {
                continue;
            }
            if !matches!(op, "last" | "count" | "nth" | "fold" | "for_each") {
                self.push_unknown(prop, &format!("{}::{}", site, op), "agrees with the default method", "method without a model");
                continue;
            }
            let site = format!("{}::{}", site, op);
            let mut s = st.clone();
            let Ok(x) = s.read_ptr(it) else { continue };
            let mut args = vec![x];
            let mut skip = Lin::zero();
            match op {
                "nth" => {
                    args[0] = Val::Ref(it.clone());
                    let v = new_var("n", false);
                    skip = Lin::var(v);
                    s.add_con(skip.clone(), false);
                    s.add_con(skip.neg().addc(u64::MAX as i128), false);
                    args.push(int(skip.clone()));
                }
                "fold" | "for_each" => {
                    let f = self.recorder(&mut s, 0);
                    args.push(f);
                }
                _ => {}
            }
            let left = exp.len.addc(-pos);
            for (mut s, v) in self.set_call(&site, prop, &format!("{}_{}", kind, op), s, args.clone()) {
                let mut items: Vec<(Lin, Val)> = vec![];
                match (op, &v) {
                    ("count", v) => match v.lin() {
                        Some(l) => {
                            self.oblige(&s, prop, &site, "number of items left", &Cond::eq(&l, &left));
                        }
                        None => self.push_unknown(prop, &site, "number of items left", "unknown value"),
                    },
                    ("last" | "nth", Val::Agg(0, _)) => {
                        let c = if op == "last" { Cond::Ge(left.addc(-1)).simp() } else { Cond::lt(&skip, &left) };
                        self.oblige(&s, prop, &site, "an item is yielded while one is left", &c.not());
                    }
                    ("last" | "nth", Val::Agg(1, f)) => {
                        let c = if op == "last" { Cond::Ge(left.addc(-1)).simp() } else { Cond::lt(&skip, &left) };
                        if self.oblige(&s, prop, &site, "an item is yielded only when one is left", &c) {
                            items.push((if op == "last" { exp.len.addc(-1) } else { skip.addc(pos) }, f[0].clone()));
                        }
                    }
                    ("fold" | "for_each", _) => {
                        let Some((log, n)) = self.recorded(&mut s, &args[1]) else { continue };
                        if !self.oblige(&s, prop, &site, "every item is passed to the function", &Cond::eq(&n, &left)) {
                            continue;
                        }
                        let Some(n) = n.as_int() else {
                            self.push_unknown(prop, &site, "items passed to the function", "unknown number of calls");
                            continue;
                        };
                        for i in 0..n {
                            match s.locate(log, &Lin::int(i), true) {
                                Ok(Loc::Val(v)) => items.push((Lin::int(pos + i), v)),
                                _ => self.push_unknown(prop, &site, "items passed to the function", "unknown"),
                            }
                        }
                    }
                    _ => self.push_unknown(prop, &site, "agrees with the default method", "unknown value"),
                }
                for (k, v) in items {
                    let k = s.norm(&k);
                    let (Some(k), Val::T(_, IntV::L(l))) = (k.as_int(), &v) else {
                        self.push_unknown(prop, &site, "the item is the right member", "unknown value");
                        continue;
                    };
                    // members are numbered from the front
                    for j in pos..k {
                        exp.item(&mut s, &Lin::int(j));
                    }
                    let want = exp.item(&mut s, &Lin::int(k));
                    self.oblige(&s, prop, &site, "the item is the right member", &Cond::eq(l, &want));
                }
            }
        }
    }
    fn set_walk(&mut self, site: &str, kind: &str, st: State<'tcx>, it: Rc<Ptr>, exp: &SetV, pos: i128, depth: usize, over: &[String]) {
        let prop = "S02";
        let at = Lin::int(pos);
        let (size, next) = (format!("{}_size", kind), format!("{}_next", kind));
        for (mut s, v) in self.set_call(site, prop, &size, st.clone(), vec![Val::Ref(it.clone())]) {
            let u = exp.hint(&mut s, &at);
            let Val::Agg(_, f) = &v else {
                self.push_unknown(prop, site, "size bounds", "unknown value");
                continue;
            };
            match (f[0].lin(), &f[1]) {
                (Some(l), Val::Agg(1, g)) => {
                    self.oblige(&s, prop, site, "lower size bound of the underlying iterator", &Cond::eq(&l, &Lin::zero()));
                    match g[0].lin() {
                        Some(x) => {
                            self.oblige(&s, prop, site, "upper size bound of the underlying iterator", &Cond::eq(&x, &u));
                        }
                        None => self.push_unknown(prop, site, "size bounds", "unknown value"),
                    }
                }
                (Some(_), Val::Agg(0, _)) => {
                    self.oblige(&s, prop, site, "upper size bound of the underlying iterator", &Cond::B(false));
                }
                _ => self.push_unknown(prop, site, "size bounds", "unknown value"),
            }
        }
        self.set_provided(site, kind, &st, &it, exp, pos, over);
        if depth == 0 {
            return;
        }
        let more = Cond::lt(&at, &exp.len);
        for (mut s, v) in self.set_call(site, prop, &next, st, vec![Val::Ref(it.clone())]) {
            match &v {
                Val::Agg(0, _) => {
                    self.oblige(&s, prop, site, "an item is yielded while one is left", &more.not());
                }
                Val::Agg(1, f) => {
                    if !self.oblige(&s, prop, site, "an item is yielded only when one is left", &more) {
                        continue;
                    }
                    let want = exp.item(&mut s, &at);
                    match &f[0] {
                        Val::T(_, IntV::L(l)) => {
                            if self.oblige(&s, prop, site, "the item is the next member", &Cond::eq(l, &want)) {
                                self.set_walk(site, kind, s, it.clone(), exp, pos + 1, depth - 1, over);
                            }
                        }
                        _ => self.push_unknown(prop, site, "the item is the next member", "unknown value"),
                    }
                }
                _ => self.push_unknown(prop, site, "an item is yielded while one is left", "unknown value"),
            }
        }
    }
}
#[allow(dead_code)]
type _B = BTreeMap<u32, u32>;
