//! Abstract values, memory and array contents.
use crate::bits::{self, BitVar, Bdd, Word};
use crate::lin::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum IntV {
    L(Lin),
    W(Word),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    B(bool),
    /// lin >= 0
    Ge(Lin),
    /// lin == 0
    Eq(Lin),
    Bit(Bdd),
    Not(Rc<Cond>),
    And(Rc<Vec<Cond>>),
    Or(Rc<Vec<Cond>>),
    Top,
}

impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::B(b) => Cond::B(!b),
            Cond::Ge(l) => Cond::Ge(l.integral().neg().addc(-1)),
            Cond::Bit(b) => Cond::Bit(bits::not(*b)),
            Cond::Not(c) => (**c).clone(),
            Cond::And(v) => Cond::Or(Rc::new(v.iter().map(|c| c.not()).collect())),
            Cond::Or(v) => Cond::And(Rc::new(v.iter().map(|c| c.not()).collect())),
            Cond::Eq(_) => Cond::Not(Rc::new(self.clone())),
            Cond::Top => Cond::Top,
        }
    }
    pub fn and(a: &Cond, b: &Cond) -> Cond {
        match (a, b) {
            (Cond::B(false), _) | (_, Cond::B(false)) => Cond::B(false),
            (Cond::B(true), x) | (x, Cond::B(true)) => x.clone(),
            (Cond::Bit(x), Cond::Bit(y)) => Cond::bit(bits::and(*x, *y)),
            _ => Cond::And(Rc::new(vec![a.clone(), b.clone()])),
        }
    }
    pub fn or(a: &Cond, b: &Cond) -> Cond {
        Cond::and(&a.not(), &b.not()).not()
    }
    pub fn bit(b: Bdd) -> Cond {
        match b {
            bits::F => Cond::B(false),
            bits::T => Cond::B(true),
            b => Cond::Bit(b),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> Cond {
        Cond::Ge(b.sub(a).addc(-1)).simp()
    }
    pub fn le(a: &Lin, b: &Lin) -> Cond {
        Cond::Ge(b.sub(a)).simp()
    }
    pub fn eq(a: &Lin, b: &Lin) -> Cond {
        Cond::Eq(a.sub(b)).simp()
    }
    pub fn simp(self) -> Cond {
        match &self {
            Cond::Ge(l) if l.is_const() => Cond::B(l.c.n >= 0),
            Cond::Eq(l) if l.is_const() => Cond::B(l.c.n == 0),
            _ => self,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Root {
    Local(u32, u32),
    Heap(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    Field(u32),
    Idx(Lin),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub root: Root,
    pub proj: Vec<PE>,
}

/// How the elements of an array are laid out.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum AKind {
    /// storage blocks of `s` bits holding `n` fields of `b` bits
    Blocks { s: u16, n: u16, b: u16 },
    /// opaque enum-like values (type key)
    Vals,
    /// anything else
    Gen,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct VecObj {
    pub kind: AKind,
    pub len: Lin,
    pub cap: Lin,
    pub arr: u32,
    /// type key of the values of a `Vals` array
    pub tk: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Opq {
    /// user iterator: items `seq[pos]`, `total` of them
    Iter { id: u32, pos: Lin, total: Lin, seq: u32, tk: u32, wild: bool },
    /// user closure: log of argument tuples, results are `ret[calls]`
    Fun { id: u32, calls: Lin, log: u32, ret: u32, out: u32 },
    /// user hasher: log of the written values
    Hasher { id: u32, n: Lin, log: u32 },
    /// set of points: membership function at the generic point, corrections, size
    Set { memb: Bdd, over: Vec<(Lin, bool)>, len: Lin },
    SetIter { memb: Bdd, over: Vec<(Lin, bool)>, len: Lin, pos: Lin },
    Other(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Uninit,
    Top,
    Int(IntV),
    Bool(Cond),
    Agg(u32, Rc<Vec<Val>>),
    Ref(Rc<Ptr>),
    Slice { ptr: Rc<Ptr>, start: Lin, len: Lin },
    Vec(Rc<VecObj>),
    /// opaque enum-like value of type parameter `k`, identified by its discriminant
    T(u32, IntV),
    Opq(Rc<Opq>),
    /// zero-sized function item / closure without captures, constant string, type-only data
    Fn(u32),
    Str,
}

pub fn unit() -> Val {
    Val::Agg(0, Rc::new(vec![]))
}
pub fn agg(variant: u32, f: Vec<Val>) -> Val {
    Val::Agg(variant, Rc::new(f))
}
pub fn some(v: Val) -> Val {
    agg(1, vec![v])
}
pub fn none() -> Val {
    agg(0, vec![])
}
pub fn int(l: Lin) -> Val {
    Val::Int(IntV::L(l))
}
pub fn word(w: Word) -> Val {
    Val::Int(IntV::W(w))
}
impl Val {
    pub fn lin(&self) -> Option<Lin> {
        match self {
            Val::Int(IntV::L(l)) => Some(l.clone()),
            Val::Int(IntV::W(w)) => bits::w_as_const(w).map(|x| Lin::int(x as i128)),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- arrays
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Layer {
    Elem { at: Lin, val: Val },
    Block { q: Lin, word: Word },
    /// for t in [0, n): index `at(t)` holds `val(t)`; `at` has coefficient +-1 in t
    RangeE { t: V, n: Lin, at: Lin, val: Val },
    RangeB { t: V, n: Lin, at: Lin, word: Word },
    /// for u in [0, n): index `at + u` holds `val(sel(u))`, `sel` strictly increasing iteration numbers below `trip`
    RangeSel { sel: u32, t: V, n: Lin, at: Lin, trip: Lin, val: Val },
    /// blocks (or elements when the kind has no blocks) [at, at+n) are src[off ..]
    Copy { at: Lin, n: Lin, src: u32, off: Lin },
    /// everything from block `q` on is unknown (initialised) data
    HavocFrom { q: Lin, id: u32 },
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ArrNode {
    Base { id: u32, kind: AKind, tk: u32, taint: bool },
    Layer { below: u32, layer: Layer },
}

#[derive(Default)]
struct Arrs {
    nodes: Vec<ArrNode>,
    idx: HashMap<ArrNode, u32>,
    names: Vec<String>,
    sel: HashMap<(u32, Lin), V>,
    nsel: u32,
}
thread_local! {
    static A: RefCell<Arrs> = RefCell::new(Arrs::default());
}
pub fn arr_mk(n: ArrNode) -> u32 {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&i) = a.idx.get(&n) {
            return i;
        }
        a.nodes.push(n.clone());
        let i = (a.nodes.len() - 1) as u32;
        a.idx.insert(n, i);
        i
    })
}
pub fn arr_base(name: &str, kind: AKind, tk: u32, taint: bool) -> u32 {
    let id = A.with(|a| {
        let mut a = a.borrow_mut();
        a.names.push(name.to_string());
        (a.names.len() - 1) as u32
    });
    arr_mk(ArrNode::Base { id, kind, tk, taint })
}
pub fn arr_layer(below: u32, layer: Layer) -> u32 {
    arr_mk(ArrNode::Layer { below, layer })
}
pub fn arr_node(i: u32) -> ArrNode {
    A.with(|a| a.borrow().nodes[i as usize].clone())
}
pub fn arr_kind(mut i: u32) -> (AKind, u32, bool) {
    loop {
        match arr_node(i) {
            ArrNode::Base { kind, tk, taint, .. } => return (kind, tk, taint),
            ArrNode::Layer { below, .. } => i = below,
        }
    }
}
pub fn arr_name(i: u32) -> String {
    match arr_node(i) {
        ArrNode::Base { id, .. } => A.with(|a| a.borrow().names[id as usize].clone()),
        ArrNode::Layer { below, layer } => {
            let l = match layer {
                Layer::Elem { at, .. } => format!("[{}]:=..", at),
                Layer::Block { q, .. } => format!("block[{}]:=..", q),
                Layer::RangeE { n, at, .. } => format!("[{} for <{}]:=..", at, n),
                Layer::RangeB { n, at, .. } => format!("block[{} for <{}]:=..", at, n),
                Layer::RangeSel { n, at, .. } => format!("filtered[{}+<{}]:=..", at, n),
                Layer::Copy { at, n, src, .. } => format!("[{}..+{}]:={}", at, n, arr_name(src)),
                Layer::HavocFrom { q, .. } => format!("block[{}..]:=?", q),
            };
            format!("{}{{{}}}", arr_name(below), l)
        }
    }
}
pub fn new_sel() -> u32 {
    A.with(|a| {
        let mut a = a.borrow_mut();
        a.nsel += 1;
        a.nsel
    })
}
/// The symbol `sel(u)`.
pub fn sel_var(sel: u32, u: &Lin) -> V {
    if let Some(v) = A.with(|a| a.borrow().sel.get(&(sel, u.clone())).copied()) {
        return v;
    }
    let v = new_var(&format!("sel{}({})", sel, u), false);
    A.with(|a| a.borrow_mut().sel.insert((sel, u.clone()), v));
    v
}

// ---------------------------------------------------------------- substitution of symbols
pub struct Sub<'a> {
    pub lin: &'a dyn Fn(&Lin) -> Lin,
    /// replaces array versions (for generalising bases)
    pub arr: &'a dyn Fn(u32) -> Option<u32>,
    pub bit: &'a dyn Fn(&BitVar) -> Option<Bdd>,
}
impl Sub<'_> {
    pub fn lin(&self, l: &Lin) -> Lin {
        (self.lin)(l)
    }
    pub fn bdd(&self, b: Bdd) -> Bdd {
        bits::map_vars(b, &mut |v| {
            if let Some(r) = (self.bit)(v) {
                return r;
            }
            match v {
                BitVar::Sel { arr, idx, bit } => {
                    bits::var(BitVar::Sel { arr: self.arr(*arr), idx: self.lin(idx), bit: *bit })
                }
                BitVar::Waste { arr, q, bit } => {
                    bits::var(BitVar::Waste { arr: self.arr(*arr), q: self.lin(q), bit: *bit })
                }
                o => bits::var(o.clone()),
            }
        })
    }
    pub fn word(&self, w: &Word) -> Word {
        w.iter().map(|b| self.bdd(*b)).collect()
    }
    pub fn arr(&self, a: u32) -> u32 {
        if let Some(r) = (self.arr)(a) {
            return r;
        }
        match arr_node(a) {
            ArrNode::Base { .. } => a,
            ArrNode::Layer { below, layer } => {
                let b = self.arr(below);
                let l = self.layer(&layer);
                arr_layer(b, l)
            }
        }
    }
    pub fn layer(&self, l: &Layer) -> Layer {
        match l {
            Layer::Elem { at, val } => Layer::Elem { at: self.lin(at), val: self.val(val) },
            Layer::Block { q, word } => Layer::Block { q: self.lin(q), word: self.word(word) },
            Layer::RangeE { t, n, at, val } => {
                Layer::RangeE { t: *t, n: self.lin(n), at: self.lin(at), val: self.val(val) }
            }
            Layer::RangeB { t, n, at, word } => {
                Layer::RangeB { t: *t, n: self.lin(n), at: self.lin(at), word: self.word(word) }
            }
            Layer::RangeSel { sel, t, n, at, trip, val } => Layer::RangeSel {
                sel: *sel,
                t: *t,
                n: self.lin(n),
                at: self.lin(at),
                trip: self.lin(trip),
                val: self.val(val),
            },
            Layer::Copy { at, n, src, off } => {
                Layer::Copy { at: self.lin(at), n: self.lin(n), src: self.arr(*src), off: self.lin(off) }
            }
            Layer::HavocFrom { q, id } => Layer::HavocFrom { q: self.lin(q), id: *id },
        }
    }
    pub fn intv(&self, v: &IntV) -> IntV {
        match v {
            IntV::L(l) => IntV::L(self.lin(l)),
            IntV::W(w) => IntV::W(self.word(w)),
        }
    }
    pub fn cond(&self, c: &Cond) -> Cond {
        match c {
            Cond::B(_) | Cond::Top => c.clone(),
            Cond::Ge(l) => Cond::Ge(self.lin(l)).simp(),
            Cond::Eq(l) => Cond::Eq(self.lin(l)).simp(),
            Cond::Bit(b) => Cond::bit(self.bdd(*b)),
            Cond::Not(c) => self.cond(c).not(),
            Cond::And(v) => Cond::And(Rc::new(v.iter().map(|c| self.cond(c)).collect())),
            Cond::Or(v) => Cond::Or(Rc::new(v.iter().map(|c| self.cond(c)).collect())),
        }
    }
    pub fn ptr(&self, p: &Ptr) -> Ptr {
        Ptr {
            root: p.root,
            proj: p
                .proj
                .iter()
                .map(|e| match e {
                    PE::Idx(l) => PE::Idx(self.lin(l)),
                    o => o.clone(),
                })
                .collect(),
        }
    }
    pub fn val(&self, v: &Val) -> Val {
        match v {
            Val::Uninit | Val::Top | Val::Fn(_) | Val::Str => v.clone(),
            Val::Int(i) => Val::Int(self.intv(i)),
            Val::Bool(c) => Val::Bool(self.cond(c)),
            Val::Agg(k, f) => Val::Agg(*k, Rc::new(f.iter().map(|x| self.val(x)).collect())),
            Val::Ref(p) => Val::Ref(Rc::new(self.ptr(p))),
            Val::Slice { ptr, start, len } => {
                Val::Slice { ptr: Rc::new(self.ptr(ptr)), start: self.lin(start), len: self.lin(len) }
            }
            Val::Vec(o) => Val::Vec(Rc::new(VecObj {
                kind: o.kind,
                len: self.lin(&o.len),
                cap: self.lin(&o.cap),
                arr: self.arr(o.arr),
                tk: o.tk,
            })),
            Val::T(k, i) => Val::T(*k, self.intv(i)),
            Val::Opq(o) => Val::Opq(Rc::new(match &**o {
                Opq::Iter { id, pos, total, seq, tk, wild } => Opq::Iter {
                    id: *id,
                    pos: self.lin(pos),
                    total: self.lin(total),
                    seq: self.arr(*seq),
                    tk: *tk,
                    wild: *wild,
                },
                Opq::Fun { id, calls, log, ret, out } => {
                    Opq::Fun { id: *id, calls: self.lin(calls), log: self.arr(*log), ret: *ret, out: *out }
                }
                Opq::Hasher { id, n, log } => Opq::Hasher { id: *id, n: self.lin(n), log: self.arr(*log) },
                Opq::Set { memb, over, len } => Opq::Set { memb: *memb, over: over.iter().map(|(l, b)| (self.lin(l), *b)).collect(), len: self.lin(len) },
                Opq::SetIter { memb, over, len, pos } => Opq::SetIter {
                    memb: *memb,
                    over: over.iter().map(|(l, b)| (self.lin(l), *b)).collect(),
                    len: self.lin(len),
                    pos: self.lin(pos),
                },
                Opq::Other(i) => Opq::Other(*i),
            })),
        }
    }
}
pub fn no_arr(_: u32) -> Option<u32> {
    None
}
pub fn no_bit(_: &BitVar) -> Option<Bdd> {
    None
}
pub fn subst_lin_val(v: &Val, m: &BTreeMap<V, Lin>) -> Val {
    Sub { lin: &|l| l.subst_map(m), arr: &no_arr, bit: &no_bit }.val(v)
}
pub fn subst_lin_word(w: &Word, m: &BTreeMap<V, Lin>) -> Word {
    Sub { lin: &|l| l.subst_map(m), arr: &no_arr, bit: &no_bit }.word(w)
}
