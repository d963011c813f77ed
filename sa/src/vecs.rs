//! What each operation of the packed vectors must do.
use crate::bits::{self, Bdd, BitVar, Word};
use crate::interp::*;
use crate::lin::*;
use crate::models::MAXLEN;
use crate::specs::*;
use crate::state::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use std::collections::HashMap;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

/// quantities above this may be refused with "capacity overflow"
const HUGE: i128 = 1 << 40;

#[derive(Clone)]
pub struct PreVec {
    pub ptr: Option<Rc<Ptr>>,
    pub arr: u32,
    pub slen: Lin,
    pub len: Lin,
    pub name: String,
}
#[derive(Clone)]
pub enum Src {
    /// element `k + shift` of an array version
    Arr(u32, Lin),
    Word(Word),
}
#[derive(Clone)]
pub struct Piece {
    pub lo: Lin,
    pub hi: Lin,
    pub src: Src,
}
#[derive(Clone)]
pub struct Seq {
    pub len: Lin,
    pub pieces: Vec<Piece>,
}
#[derive(Clone)]
pub enum Exp {
    Any,
    Lin(Lin),
    Bool(Cond),
    Elem(Src, Lin),
    /// Some(element) exactly under the condition
    Opt(Cond, Src, Lin),
    OptLin(Option<Lin>),
    Seq(Seq),
    SizeHint(Lin),
    /// iterator over elements [a, b) of the sequence
    Iter(Seq),
    /// true exactly when some element in [0, len) equals the word
    Exists(u32, Lin, Word),
    Forall(u32, Lin, Word),
    EqSeq(u32, Lin, u32, Lin, bool),
}
/// A call of an operation, as set up for the analysis.
pub struct Setup<'tcx> {
    pub st: State<'tcx>,
    pub args: Vec<Val>,
    pub vecs: Vec<PreVec>,
    pub nums: Vec<Lin>,
    pub elems: Vec<Word>,
    /// (array, length) of slices, iterators and plain vectors
    pub seqs: Vec<(u32, Lin)>,
    pub funs: Vec<Rc<Ptr>>,
    pub iters: Vec<(Rc<Ptr>, Lin, Lin)>,
}
#[derive(Clone)]
pub struct Layout {
    pub n: usize,
    pub storage: usize,
    pub len: usize,
}
pub struct Spec {
    /// property of content and result
    pub prop: &'static str,
    pub refuse: Option<Cond>,
    /// what the caller of an unsafe operation guarantees
    pub pre: Cond,
    pub sizes: Vec<Lin>,
    pub ret: Exp,
    pub vecs: Vec<Option<Seq>>,
    pub max_elems: Option<Lin>,
    pub extra: Extra,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Extra {
    None,
    Retain,
    ForEach,
    Hash,
    Capacity,
    Shrink,
    Storage,
    KeepBlocks,
    Debug,
    IterStep,
}

pub fn word_elem(w: &Word, b: usize) -> Word {
    bits::w_resize(&bits::w_resize(w, b), 64)
}

impl<'tcx> Eng<'tcx> {
    /// Elements of `b` bits in blocks of `s` bits: NUM_VARIANTS is anything that needs exactly `b` bits.
    pub fn vec_cfg(&mut self, s: usize, b: usize) {
        self.set_cfg(s, b);
        if let Some(t) = self.elem_ty() {
            let k = self.tkey(t);
            let nv = self.nv_of(k);
            let lo: i128 = if b == 1 { 2 } else { (1i128 << (b - 1)) + 1 };
            let hi: i128 = (1i128 << b).min(u64::MAX as i128);
            set_elem_nv(Some(nv.clone()));
            self.base_facts = vec![nv.addc(-lo), nv.neg().addc(hi)];
        }
    }
    /// Which fields hold the blocks and the length?
    pub fn vec_layout(&self, t: Ty<'tcx>) -> Option<Layout> {
        let ty::Adt(d, a) = t.kind() else { return None };
        if !d.is_struct() {
            return None;
        }
        let fs: Vec<Ty<'tcx>> = d.non_enum_variant().fields.iter().map(|f| f.ty(self.tcx, a).skip_norm_wip()).collect();
        let fs: Vec<Ty<'tcx>> = fs.into_iter().map(|t| self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))).collect();
        let mut l = Layout { n: fs.len(), storage: usize::MAX, len: usize::MAX };
        for (i, t) in fs.iter().enumerate() {
            match t.kind() {
                ty::Adt(d, _) => match self.tcx.item_name(d.did()).as_str() {
                    "Vec" | "SmallVec" if l.storage == usize::MAX => l.storage = i,
                    "PhantomData" => {}
                    _ => return None,
                },
                ty::Uint(ty::UintTy::Usize) if l.len == usize::MAX => l.len = i,
                _ => return None,
            }
        }
        if l.storage == usize::MAX || l.len == usize::MAX {
            return None;
        }
        Some(l)
    }
    fn is_enum_vec(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).as_str() == "EnumVec",
            _ => false,
        }
    }
    fn mk_vec(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, name: &str) -> Option<(Val, PreVec)> {
        let l = self.vec_layout(t)?;
        let (s, b) = (cfg_s(), cfg_b());
        let kind = AKind::Blocks { s: s as u16, n: (s / b) as u16, b: b as u16 };
        let n = (s / b) as i128;
        let arr = arr_base(name, kind, 0, false);
        let slen = Lin::var(new_var(&format!("{}.blocks", name), false));
        let len = Lin::var(new_var(&format!("{}.len", name), false));
        let cap = Lin::var(new_var(&format!("{}.cap", name), false));
        st.add_con(slen.clone(), false);
        st.add_con(len.clone(), false);
        set_valid(arr, &len);
        st.add_con(cap.sub(&slen), false);
        st.add_con(cap.neg().addc(1 << 44), false);
        st.add_con(slen.scale(Rat::int(n)).sub(&len), false);
        let o = VecObj { kind, len: slen.clone(), cap, arr, tk: 0 };
        let mut f = vec![agg(0, vec![]); l.n];
        f[l.storage] = Val::Vec(Rc::new(o));
        f[l.len] = int(len.clone());
        Some((agg(0, f), PreVec { ptr: None, arr, slen, len, name: name.to_string() }))
    }
    pub fn setup(&mut self, f: DefId, wild: bool, exact_hint: bool) -> Option<Setup<'tcx>> {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(f).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let mut su = Setup {
            st: State::new(),
            args: vec![],
            vecs: vec![],
            nums: vec![],
            elems: vec![],
            seqs: vec![],
            funs: vec![],
            iters: vec![],
        };
        for c in self.base_facts.clone() {
            su.st.add_con(c, false);
        }
        let b = cfg_b();
        for (i, t) in sig.inputs().iter().enumerate() {
            let t = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(*t));
            let inner = t.builtin_deref(true);
            let v = if self.is_enum_vec(t) {
                let (v, p) = self.mk_vec(&mut su.st, t, &format!("v{}", i))?;
                su.vecs.push(p);
                v
            } else if let (true, Some(x)) = (inner.map(|x| self.is_enum_vec(x)).unwrap_or(false), inner) {
                let (v, mut p) = self.mk_vec(&mut su.st, x, &format!("v{}", i))?;
                let r = su.st.alloc_ref(v);
                if let Val::Ref(q) = &r {
                    p.ptr = Some(q.clone());
                }
                su.vecs.push(p);
                r
            } else if t.is_usize() {
                let v = Lin::var(new_var(&format!("arg{}", i), false));
                su.st.add_con(v.clone(), false);
                su.st.add_con(v.neg().addc(u64::MAX as i128), false);
                su.nums.push(v.clone());
                int(v)
            } else if self.is_marker(t) {
                let k = self.tkey(t);
                let id = bits::fresh_id(&format!("x{}", i));
                let w: Word = (0..b).map(|j| bits::named(id, j as u16, false)).collect();
                let w = bits::w_resize(&w, 64);
                su.elems.push(w.clone());
                Val::T(k, IntV::W(w))
            } else if let Some(x) = inner {
                let nm = match x.kind() {
                    ty::Adt(d, _) => tcx.item_name(d.did()).to_string(),
                    ty::Slice(_) => "[]".into(),
                    _ => return None,
                };
                let elem = self.elem_ty()?;
                let tk = self.tkey(elem);
                match nm.as_str() {
                    "[]" => {
                        let (o, a, n) = self.plain_vec(&mut su.st, &format!("s{}", i));
                        let r = su.st.alloc(Val::Vec(Rc::new(o)));
                        su.seqs.push((a, n.clone()));
                        Val::Slice { ptr: Rc::new(Ptr { root: r, proj: vec![] }), start: Lin::zero(), len: n }
                    }
                    "PredF" | "MutF" => {
                        let ret = arr_base("answer", AKind::Vals, tk, false);
                        let out = if nm == "MutF" { arr_base("output", AKind::Vals, tk, false) } else { u32::MAX };
                        let log = arr_base("log", AKind::Vals, tk, true);
                        let r = su.st.alloc_ref(Val::Opq(Rc::new(Opq::Fun { id: 0, calls: Lin::zero(), log, ret, out })));
                        if let Val::Ref(p) = &r {
                            su.funs.push(p.clone());
                        }
                        r
                    }
                    "Iter" => {
                        let seq = arr_base("item", AKind::Vals, tk, false);
                        let total = Lin::var(new_var("items", false));
                        su.st.add_con(total.clone(), false);
                        su.st.add_con(total.neg().addc(1 << 44), false);
                        let r = su.st.alloc_ref(Val::Opq(Rc::new(Opq::Iter {
                            id: if exact_hint { 0 } else { 1 },
                            pos: Lin::zero(),
                            total: total.clone(),
                            seq,
                            tk,
                            wild,
                        })));
                        su.seqs.push((seq, total));
                        r
                    }
                    "Hash1" | "Formatter" => {
                        let (kind, k) = if nm == "Hash1" { (AKind::Gen, 0) } else { (AKind::Vals, tk) };
                        let log = arr_base(if nm == "Hash1" { "hashed" } else { "shown" }, kind, k, true);
                        let r = su.st.alloc_ref(Val::Opq(Rc::new(Opq::Hasher { id: 0, n: Lin::zero(), log })));
                        if let Val::Ref(p) = &r {
                            su.funs.push(p.clone());
                        }
                        r
                    }
                    "EnumVecIter" | "EnumVecIntoIter" => {
                        let v = self.mk_iter(&mut su, x, i)?;
                        let r = su.st.alloc_ref(v);
                        if let Val::Ref(p) = &r {
                            su.iters.last_mut()?.0 = p.clone();
                        }
                        r
                    }
                    _ => return None,
                }
            } else {
                let ty::Adt(d, _) = t.kind() else { return None };
                match tcx.item_name(d.did()).as_str() {
                    "Vec" => {
                        let (o, a, n) = self.plain_vec(&mut su.st, &format!("s{}", i));
                        su.seqs.push((a, n));
                        Val::Vec(Rc::new(o))
                    }
                    "EnumVecIter" | "EnumVecIntoIter" => self.mk_iter(&mut su, t, i)?,
                    _ => return None,
                }
            };
            su.args.push(v);
        }
        Some(su)
    }
    pub fn elem_ty(&self) -> Option<Ty<'tcx>> {
        let d = self.find_local(&["marker", "Elem"])?;
        Some(self.tcx.type_of(d).instantiate_identity().skip_norm_wip())
    }
    fn plain_vec(&mut self, st: &mut State<'tcx>, name: &str) -> (VecObj, u32, Lin) {
        let elem = self.elem_ty().unwrap();
        let tk = self.tkey(elem);
        let a = arr_base(name, AKind::Vals, tk, false);
        let n = Lin::var(new_var(&format!("{}.len", name), false));
        st.add_con(n.clone(), false);
        st.add_con(n.neg().addc(1 << 44), false);
        (VecObj { kind: AKind::Vals, len: n.clone(), cap: n.clone(), arr: a, tk }, a, n)
    }
    /// An iterator in the middle of an iteration: fields are the vector and a range.
    fn mk_iter(&mut self, su: &mut Setup<'tcx>, t: Ty<'tcx>, i: usize) -> Option<Val> {
        let ty::Adt(d, a) = t.kind() else { return None };
        let fs: Vec<Ty<'tcx>> = d.non_enum_variant().fields.iter().map(|f| self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, a))).collect();
        let mut out = vec![];
        let mut nv = 0;
        let mut nr = 0;
        for t in fs {
            let inner = t.builtin_deref(true);
            if self.is_enum_vec(t) {
                let (v, p) = self.mk_vec(&mut su.st, t, &format!("v{}", i))?;
                su.vecs.push(p);
                out.push(v);
                nv += 1;
            } else if inner.map(|x| self.is_enum_vec(x)).unwrap_or(false) {
                let (v, mut p) = self.mk_vec(&mut su.st, inner?, &format!("v{}", i))?;
                let r = su.st.alloc_ref(v);
                if let Val::Ref(q) = &r {
                    p.ptr = Some(q.clone());
                }
                su.vecs.push(p);
                out.push(r);
                nv += 1;
            } else {
                let ty::Adt(d, _) = t.kind() else { return None };
                if self.tcx.item_name(d.did()).as_str() != "Range" {
                    return None;
                }
                let a = Lin::var(new_var("front", false));
                let e = Lin::var(new_var("back", false));
                out.push(agg(0, vec![int(a.clone()), int(e.clone())]));
                su.iters.push((Rc::new(Ptr { root: Root::Heap(0), proj: vec![] }), a, e));
                nr += 1;
            }
        }
        if nv != 1 || nr != 1 {
            return None;
        }
        let (_, a, e) = su.iters.last()?.clone();
        let l = su.vecs.last()?.len.clone();
        su.st.add_con(a.clone(), false);
        su.st.add_con(e.sub(&a), false);
        su.st.add_con(l.sub(&e), false);
        Some(agg(0, out))
    }
}

fn seq_pre(p: &PreVec) -> Seq {
    Seq { len: p.len.clone(), pieces: vec![piece(Lin::zero(), p.len.clone(), Src::Arr(p.arr, Lin::zero()))] }
}
fn piece(lo: Lin, hi: Lin, src: Src) -> Piece {
    Piece { lo, hi, src }
}

/// The specification of an operation. The state may be refined (case distinctions on the arguments).
pub fn spec_of(op: &str, su: &Setup<'_>, n: i128) -> Option<Spec> {
    let z = Lin::zero();
    let v = |i: usize| &su.vecs[i];
    let num = |i: usize| su.nums[i].clone();
    let arr = |p: &PreVec, s: Lin| Src::Arr(p.arr, s);
    let mut sp = Spec { prop: "C02", refuse: None, pre: Cond::B(true), sizes: vec![], ret: Exp::Any, vecs: su.vecs.iter().map(|p| Some(seq_pre(p))).collect(), max_elems: None, extra: Extra::None };
    let empty = Seq { len: z.clone(), pieces: vec![] };
    let el = |i: usize| Src::Word(su.elems[i].clone());
    let _ = n;
    if let Some(p) = su.vecs.first() {
        sp.max_elems = Some(p.len.clone());
    }
    match op {
        "new" | "default" => {
            sp.prop = "C06";
            sp.ret = Exp::Seq(empty);
            sp.max_elems = Some(z);
        }
        "with_capacity" => {
            sp.prop = "C11";
            sp.sizes = vec![num(0)];
            sp.ret = Exp::Seq(empty);
            sp.max_elems = Some(num(0));
            sp.extra = Extra::Capacity;
        }
        "capacity" => {
            sp.prop = "C11";
        }
        "get" => sp.ret = Exp::Opt(Cond::lt(&num(0), &v(0).len), arr(v(0), z), num(0)),
        "set" => {
            sp.refuse = Some(Cond::le(&v(0).len, &num(0)));
            let (i, l) = (num(0), v(0).len.clone());
            sp.vecs[0] = Some(Seq {
                len: l.clone(),
                pieces: vec![
                    piece(z.clone(), i.clone(), arr(v(0), z.clone())),
                    piece(i.clone(), i.addc(1), el(0)),
                    piece(i.addc(1), l, arr(v(0), z)),
                ],
            });
        }
        "reserve" => {
            sp.prop = "C11";
            sp.sizes = vec![num(0)];
            sp.max_elems = Some(v(0).len.add(&num(0)));
            sp.extra = Extra::Capacity;
        }
        "shrink_to_fit" => {
            sp.prop = "C11";
            sp.extra = Extra::Shrink;
        }
        "truncate" | "clear" => {
            sp.prop = "C06";
            // truncate keeps min(len, n): decided by case distinction in the caller
            let want = if op == "clear" { z.clone() } else { num(0) };
            sp.vecs[0] = Some(Seq { len: want.clone(), pieces: vec![piece(z.clone(), want, arr(v(0), z))] });
        }
        "swap_remove" => {
            let (i, l) = (num(0), v(0).len.clone());
            sp.refuse = Some(Cond::le(&l, &i));
            sp.ret = Exp::Elem(arr(v(0), z.clone()), i.clone());
            let last = l.addc(-1);
            sp.vecs[0] = Some(Seq {
                len: last.clone(),
                pieces: vec![
                    piece(z.clone(), i.clone(), arr(v(0), z.clone())),
                    piece(i.clone(), i.addc(1), arr(v(0), last.sub(&i))),
                    piece(i.addc(1), last, arr(v(0), z)),
                ],
            });
        }
        "insert" => {
            sp.prop = "C05";
            let (i, l) = (num(0), v(0).len.clone());
            sp.refuse = Some(Cond::lt(&l, &i));
            sp.max_elems = Some(l.addc(1));
            sp.vecs[0] = Some(Seq {
                len: l.addc(1),
                pieces: vec![
                    piece(z.clone(), i.clone(), arr(v(0), z.clone())),
                    piece(i.clone(), i.addc(1), el(0)),
                    piece(i.addc(1), l.addc(1), arr(v(0), Lin::int(-1))),
                ],
            });
        }
        "remove" => {
            sp.prop = "C05";
            let (i, l) = (num(0), v(0).len.clone());
            sp.refuse = Some(Cond::le(&l, &i));
            sp.ret = Exp::Elem(arr(v(0), z.clone()), i.clone());
            sp.vecs[0] = Some(Seq {
                len: l.addc(-1),
                pieces: vec![piece(z.clone(), i.clone(), arr(v(0), z.clone())), piece(i.clone(), l.addc(-1), arr(v(0), Lin::int(1)))],
            });
        }
        "retain" => {
            sp.prop = "C07";
            sp.vecs[0] = None;
            sp.extra = Extra::Retain;
        }
        "for_each" => {
            sp.prop = "C07";
            sp.vecs[0] = None;
            sp.extra = Extra::ForEach;
        }
        "push" => {
            let l = v(0).len.clone();
            sp.max_elems = Some(l.addc(1));
            sp.vecs[0] = Some(Seq {
                len: l.addc(1),
                pieces: vec![piece(z.clone(), l.clone(), arr(v(0), z)), piece(l.clone(), l.addc(1), el(0))],
            });
        }
        "pop" => {
            // the caller distinguishes the empty case
            let l = v(0).len.clone();
            sp.ret = Exp::Opt(Cond::Ge(l.addc(-1)).simp(), arr(v(0), z.clone()), l.addc(-1));
            sp.vecs[0] = Some(Seq { len: l.addc(-1), pieces: vec![piece(z.clone(), l.addc(-1), arr(v(0), z))] });
        }
        "append" => {
            sp.prop = "C06";
            let (l, m) = (v(0).len.clone(), v(1).len.clone());
            let t = l.add(&m);
            sp.max_elems = Some(t.clone());
            sp.vecs[0] = Some(Seq {
                len: t.clone(),
                pieces: vec![piece(z.clone(), l.clone(), arr(v(0), z.clone())), piece(l.clone(), t, arr(v(1), l.neg()))],
            });
            sp.vecs[1] = Some(empty);
        }
        "len" => sp.ret = Exp::Lin(v(0).len.clone()),
        "is_empty" => sp.ret = Exp::Bool(Cond::eq(&v(0).len, &z)),
        "split_off" => {
            sp.prop = "C06";
            let (i, l) = (num(0), v(0).len.clone());
            sp.refuse = Some(Cond::lt(&l, &i));
            sp.vecs[0] = Some(Seq { len: i.clone(), pieces: vec![piece(z.clone(), i.clone(), arr(v(0), z.clone()))] });
            let r = l.sub(&i);
            sp.ret = Exp::Seq(Seq { len: r.clone(), pieces: vec![piece(z, r, arr(v(0), i))] });
        }
        "resize" => {
            // the caller distinguishes growing
            sp.prop = "C06";
            let (m, l) = (num(0), v(0).len.clone());
            sp.sizes = vec![m.clone()];
            sp.max_elems = Some(m.clone());
            sp.vecs[0] = Some(Seq {
                len: m.clone(),
                pieces: vec![piece(z.clone(), l.clone(), arr(v(0), z)), piece(l, m, el(0))],
            });
        }
        "swap" => {
            // the caller distinguishes equal positions
            let (i, j, l) = (num(0), num(1), v(0).len.clone());
            sp.refuse = Some(Cond::or(&Cond::le(&l, &i), &Cond::le(&l, &j)));
            sp.vecs[0] = Some(Seq {
                len: l.clone(),
                pieces: vec![
                    piece(z.clone(), i.clone(), arr(v(0), z.clone())),
                    piece(i.clone(), i.addc(1), arr(v(0), j.sub(&i))),
                    piece(i.addc(1), j.clone(), arr(v(0), z.clone())),
                    piece(j.clone(), j.addc(1), arr(v(0), i.sub(&j))),
                    piece(j.addc(1), l, arr(v(0), z)),
                ],
            });
        }
        "to_vec" | "into_vec" => {
            sp.prop = "C06";
            sp.ret = Exp::Seq(seq_pre(v(0)));
        }
        "get_raw_unchecked" => {
            sp.prop = "C13";
            sp.pre = Cond::lt(&num(0), &v(0).len);
            sp.ret = Exp::Elem(arr(v(0), z), num(0));
        }
        "set_raw_unchecked" => {
            sp.prop = "C13";
            sp.pre = Cond::lt(&num(0), &v(0).len);
            let (i, l) = (num(0), v(0).len.clone());
            sp.vecs[0] = Some(Seq {
                len: l.clone(),
                pieces: vec![
                    piece(z.clone(), i.clone(), arr(v(0), z.clone())),
                    piece(i.clone(), i.addc(1), el(0)),
                    piece(i.addc(1), l, arr(v(0), z)),
                ],
            });
        }
        "set_len" => {
            sp.prop = "C13";
            let m = num(0);
            // whatever the blocks hold is an element afterwards
            sp.pre = Cond::Ge(v(0).slen.scale(Rat::int(n)).sub(&m)).simp();
            sp.max_elems = None;
            sp.extra = Extra::KeepBlocks;
            sp.vecs[0] = Some(Seq { len: m.clone(), pieces: vec![piece(z.clone(), m, arr(v(0), z))] });
        }
        "storage" | "storage_mut" => {
            sp.prop = "C13";
            sp.extra = Extra::Storage;
        }
        "clone" => {
            sp.prop = "C14";
            sp.ret = Exp::Seq(seq_pre(v(0)));
        }
        "clone_from" => {
            sp.prop = "C14";
            sp.vecs[0] = Some(seq_pre(v(1)));
            sp.max_elems = None;
        }
        "from_elem" | "macro_elem" => {
            sp.prop = "C06";
            sp.sizes = vec![num(0)];
            sp.max_elems = Some(num(0));
            sp.ret = Exp::Seq(Seq { len: num(0), pieces: vec![piece(z, num(0), el(0))] });
        }
        "macro_list" => {
            sp.prop = "C06";
            sp.max_elems = Some(Lin::int(3));
            sp.ret = Exp::Seq(Seq { len: Lin::int(3), pieces: (0..3).map(|i| piece(Lin::int(i), Lin::int(i + 1), el(i as usize))).collect() });
        }
        "from_slice" | "from_vec" | "from_iter" => {
            sp.prop = "C06";
            let (a, l) = su.seqs[0].clone();
            sp.max_elems = Some(l.clone());
            sp.ret = Exp::Seq(Seq { len: l.clone(), pieces: vec![piece(z.clone(), l, Src::Arr(a, z))] });
        }
        "extend" => {
            sp.prop = "C06";
            let (a, m) = su.seqs[0].clone();
            let l = v(0).len.clone();
            let t = l.add(&m);
            sp.max_elems = Some(t.clone());
            sp.vecs[0] = Some(Seq {
                len: t.clone(),
                pieces: vec![piece(z.clone(), l.clone(), arr(v(0), z)), piece(l.clone(), t, Src::Arr(a, l.neg()))],
            });
        }
        "any" => {
            sp.prop = "C08";
            sp.ret = Exp::Exists(v(0).arr, v(0).len.clone(), su.elems[0].clone());
        }
        "all" => {
            sp.prop = "C08";
            sp.ret = Exp::Forall(v(0).arr, v(0).len.clone(), su.elems[0].clone());
        }
        "eq" | "ne" => {
            sp.prop = "C09";
            sp.ret = Exp::EqSeq(v(0).arr, v(0).len.clone(), v(1).arr, v(1).len.clone(), op == "eq");
        }
        "hash" => {
            sp.prop = "C09";
            sp.extra = Extra::Hash;
        }
        "debug" => {
            sp.prop = "C15";
            sp.extra = Extra::Debug;
        }
        "iter" | "iter_ref" | "into_iter" => {
            sp.prop = "C10";
            sp.ret = Exp::Iter(seq_pre(v(0)));
        }
        _ => return iter_spec(op, su, sp),
    }
    Some(sp)
}
fn iter_spec(op: &str, su: &Setup<'_>, mut sp: Spec) -> Option<Spec> {
    let (_, a, e) = su.iters.first()?.clone();
    let v = &su.vecs[0];
    let z = Lin::zero();
    sp.prop = "C10";
    sp.extra = Extra::IterStep;
    let rem = e.sub(&a);
    match &op[3..] {
        "next" => sp.ret = Exp::Opt(Cond::Ge(rem.addc(-1)).simp(), Src::Arr(v.arr, z), a),
        "next_back" | "last" => sp.ret = Exp::Opt(Cond::Ge(rem.addc(-1)).simp(), Src::Arr(v.arr, z), e.addc(-1)),
        "nth" => {
            let k = su.nums[0].clone();
            sp.ret = Exp::Opt(Cond::lt(&k, &rem), Src::Arr(v.arr, z), a.add(&k))
        }
        "size" => sp.ret = Exp::SizeHint(rem),
        "len" | "count" => sp.ret = Exp::Lin(rem),
        _ => return None,
    }
    Some(sp)
}

impl<'tcx> Eng<'tcx> {
    /// Check one obligation with an explicit site.
    pub fn oblige(&mut self, st: &State<'tcx>, prop: &str, site: &str, what: &str, c: &Cond) -> bool {
        let mut s = st.clone();
        let verdict = judge(&mut s, c);
        let ok = verdict == Verdict::Proved;
        if self.trace && !ok {
            eprintln!("OBL {} {} {}: {:?}", prop, site, what, verdict);
            s.dump();
            if let Cond::Bit(b) = c {
                for v in bits::support(*b) {
                    eprintln!("   bit {:?}", v);
                }
            } else {
                eprintln!("   {:?}", c);
            }
        }
        self.obls.push(Obl { prop: prop.into(), site: site.into(), what: what.into(), verdict });
        ok
    }
    pub fn push(&mut self, prop: &str, site: &str, what: &str, verdict: Verdict) {
        self.obls.push(Obl { prop: prop.into(), site: site.into(), what: what.into(), verdict });
    }
    pub fn push_unknown(&mut self, prop: &str, site: &str, what: &str, why: &str) {
        if self.trace {
            eprintln!("UNK {} {} {}: {}", prop, site, what, why);
        }
        self.obls.push(Obl { prop: prop.into(), site: site.into(), what: what.into(), verdict: Verdict::Unknown(why.into()) });
    }
    /// Cases of a value computation, with failures reported as unknown.
    fn cases<T>(&mut self, st: State<'tcx>, f: &mut dyn FnMut(&mut Eng<'tcx>, &mut State<'tcx>) -> R<T>) -> (Vec<(State<'tcx>, T)>, Option<String>) {
        let mut out = vec![];
        let mut bad = None;
        for (s, r) in self.with_splits(st, f) {
            match r {
                Ok(v) => out.push((s, v)),
                Err(m) => bad = Some(m),
            }
        }
        (out, bad)
    }
    pub fn src_word(&mut self, s: &mut State<'tcx>, src: &Src, k: &Lin, b: usize) -> R<Word> {
        Ok(match src {
            Src::Word(w) => bits::w_resize(w, 64),
            Src::Arr(a, sh) => {
                let w = s.elem_bits(*a, &k.add(sh), b, true)?;
                bits::w_resize(&w, 64)
            }
        })
    }
    /// Compare an array of values or packed elements with the expected sequence.
    pub fn check_seq(&mut self, st: &State<'tcx>, prop: &str, site: &str, what: &str, arr: u32, len: &Lin, seq: &Seq) {
        let b = cfg_b();
        if !self.oblige(st, prop, site, &format!("length {}", what), &Cond::eq(len, &seq.len)) {
            return;
        }
        for (i, p) in seq.pieces.iter().enumerate() {
            let mut s = st.clone();
            let k = Lin::var(new_var("k", false));
            s.add_con(k.sub(&p.lo), false);
            if s.entails(&Cond::le(&p.hi, &k)) || s.entails(&Cond::le(&p.hi, &p.lo)) {
                continue;
            }
            s.add_con(p.hi.sub(&k).addc(-1), false);
            // a piece of one element: use its position
            if p.hi.sub(&p.lo).as_int() == Some(1) {
                s.add_eq(&k.sub(&p.lo));
            }
            let (cs, bad) = self.cases(s, &mut |e, s| {
                let x = match s.locate(arr, &k, true)? {
                    Loc::Val(Val::T(_, IntV::W(w))) => w,
                    _ => bits::w_resize(&s.elem_bits(arr, &k, b, true)?, 64),
                };
                let x = s.renorm_word(&bits::w_resize(&x, 64), true)?;
                let y = e.src_word(s, &p.src, &k, b)?;
                let y = s.renorm_word(&y, true)?;
                Ok(bits::w_eq(&x, &y))
            });
            if let Some(m) = bad {
                self.push_unknown(prop, site, &format!("elements {} (part {})", what, i), &m);
            }
            let mut done = std::collections::BTreeSet::new();
            for (s, c) in cs {
                if c == bits::T && !done.insert(i) {
                    continue;
                }
                self.oblige(&s, prop, site, &format!("elements {} (part {})", what, i), &Cond::bit(c));
            }
        }
    }
    /// (length, number of blocks, block array) of a packed vector value
    fn vec_parts(&mut self, v: &Val, l: &Layout) -> Option<(Lin, VecObj)> {
        let Val::Agg(_, f) = v else { return None };
        let Val::Vec(o) = f.get(l.storage)? else { return None };
        let n = f.get(l.len)?.lin()?;
        Some((n, (**o).clone()))
    }
    fn check_init(&mut self, st: &State<'tcx>, site: &str, len: &Lin, o: &VecObj) {
        let n = match o.kind {
            AKind::Blocks { n, .. } => n as i128,
            _ => 1,
        };
        self.oblige(st, "C01", site, "storage covers all elements afterwards", &Cond::le(len, &o.len.scale(Rat::int(n))));
    }
    fn check_c11(&mut self, st: &State<'tcx>, site: &str, o: &VecObj, n: i128, pre: Option<&PreVec>, max: &Lin) {
        let bound = Cond::Ge(max.sub(&o.len.addc(-2).scale(Rat::int(n))).addc(-1)).simp();
        let c = match pre {
            Some(p) => Cond::or(&Cond::Ge(p.slen.sub(&o.len)).simp(), &bound),
            None => bound,
        };
        self.oblige(st, "C11", site, "storage stays within one block of what the elements need", &c);
    }

    /// Analyse one operation of one vector variant.
    pub fn check_op(&mut self, module: &str, op: &str, exact_hint: bool) {
        let site = format!("{}::{}", module, op);
        let Some(f) = self.find_local(&[module, op]) else {
            self.push_unknown("C12", &site, "operation exists", "not found");
            return;
        };
        let Some(su) = self.setup(f, false, exact_hint) else {
            self.push_unknown("*", &site, "operation analysable", "unexpected representation");
            return;
        };
        let n = (cfg_s() / cfg_b()) as i128;
        let Some(_) = spec_of(op, &su, n) else { return };
        // case distinctions the specification makes on the arguments
        let mut variants: Vec<(State<'tcx>, &'static str)> = vec![];
        let st = su.st.clone();
        let two = |c: Cond, a: &'static str, b: &'static str| -> Vec<(State<'tcx>, &'static str)> {
            let mut v: Vec<(State<'tcx>, &'static str)> = st.clone().assume(&c).into_iter().map(|s| (s, a)).collect();
            v.extend(st.clone().assume(&c.not()).into_iter().map(|s| (s, b)));
            v
        };
        match op {
            "truncate" => variants = two(Cond::lt(&su.nums[0], &su.vecs[0].len), "", "keep"),
            "pop" => variants = two(Cond::Ge(su.vecs[0].len.addc(-1)).simp(), "", "keep"),
            "resize" => variants = two(Cond::lt(&su.vecs[0].len, &su.nums[0]), "", "shrink"),
            "swap" => {
                for s in st.clone().assume(&Cond::lt(&su.nums[0], &su.nums[1])) {
                    variants.push((s, ""));
                }
                for s in st.clone().assume(&Cond::lt(&su.nums[1], &su.nums[0])) {
                    variants.push((s, "reversed"));
                }
                for s in st.clone().assume(&Cond::eq(&su.nums[0], &su.nums[1])) {
                    variants.push((s, "keep"));
                }
            }
            _ => variants.push((st.clone(), "")),
        }
        for (s0, tag) in variants {
            let mut sp = spec_of(op, &su, n).unwrap();
            match tag {
                "keep" => sp.vecs[0] = Some(seq_pre(&su.vecs[0])),
                "shrink" => {
                    let m = su.nums[0].clone();
                    sp.max_elems = Some(su.vecs[0].len.clone());
                    sp.vecs[0] = Some(Seq { len: m.clone(), pieces: vec![piece(Lin::zero(), m, Src::Arr(su.vecs[0].arr, Lin::zero()))] });
                }
                "reversed" => {
                    let mut su2 = Setup { nums: vec![su.nums[1].clone(), su.nums[0].clone()], ..clone_setup(&su) };
                    su2.st = s0.clone();
                    sp = spec_of(op, &su2, n).unwrap();
                }
                _ => {}
            }
            let Some(s0) = s0.assume(&sp.pre).pop() else { continue };
            self.c11 = sp.max_elems.clone().map(|m| C11 { max_elems: m, n });
            self.stack.clear();
            self.opaque_panics = false;
            let sig_out = self.tcx.instantiate_bound_regions_with_erased(self.tcx.fn_sig(f).instantiate_identity().skip_norm_wip()).output();
            let inst = Instance::mono(self.tcx, f);
            let outs = self.call(s0, inst, su.args.clone());
            self.c11 = None;
            self.hashed.clear();
            for (s, o) in outs {
                self.check_outcome(&site, op, &su, &sp, s, o, sig_out, n);
            }
            if !self.hashed.is_empty() {
                self.check_hash_twins(&site, &su.vecs[0]);
            }
        }
    }
    /// Two vectors with the same elements may take different paths, as their storage may differ:
    /// whatever paths they take, the same data is hashed.
    fn check_hash_twins(&mut self, site: &str, p: &PreVec) {
        let paths = std::mem::take(&mut self.hashed);
        let what = "vectors with the same elements hash the same data";
        // entry `k` of every path
        let k = Lin::var(new_var("k", false));
        let mut entries = vec![];
        for (s, cnt, log) in &paths {
            let mut s2 = s.clone();
            s2.add_con(k.clone(), false);
            s2.add_con(cnt.sub(&k).addc(-1), false);
            if s.entails(&Cond::le(cnt, &Lin::zero())) || !s2.feasible() {
                continue;
            }
            let (cs, bad) = self.cases(s2, &mut |_, s| match s.locate(*log, &k, true)? {
                Loc::Val(Val::Int(IntV::W(w))) => Ok(Some(s.renorm_word(&w, true)?)),
                Loc::Val(Val::T(_, IntV::W(w))) => Ok(Some(s.renorm_word(&w, true)?)),
                Loc::Val(Val::Int(IntV::L(l))) => Ok(s.norm(&l).as_int().map(|c| bits::w_const(c as u128, 64))),
                _ => Ok(None),
            });
            if bad.is_some() || cs.iter().any(|c| c.1.is_none()) {
                continue;
            }
            for (s, w) in cs {
                entries.push((s, w.unwrap()));
            }
        }
        // everything fixed before the call, except the amount of storage, is common
        let mut own: std::collections::BTreeMap<V, Lin> = Default::default();
        let mut rename = |v: V| -> Lin {
            let len: Vec<V> = p.len.vars().collect();
            fn common(v: V, len: &[V], p: &str) -> bool {
                if len.contains(&v) {
                    return true;
                }
                let n = var_name(v);
                if n == format!("{}.blocks", p) || n == format!("{}.cap", p) {
                    return false;
                }
                if let Some((r, _)) = quot_def(v) {
                    return r.vars().all(|x| common(x, len, p));
                }
                n == "k"
            }
            if common(v, &len, &p.name) {
                return Lin::var(v);
            }
            own.entry(v).or_insert_with(|| Lin::var(new_var(&format!("{}'", var_name(v)), false))).clone()
        };
        let mut waste: HashMap<BitVar, u32> = HashMap::new();
        let mut n = 0;
        for (sj, cj, _) in &paths {
            for (si, ci, _) in &paths {
                let Some(m) = twin_state(si, sj, &mut rename, &mut waste) else { continue };
                n += 1;
                let cj = rename_lin(cj, &mut rename);
                let ci = m.norm(ci);
                let cj = m.norm(&cj);
                self.oblige(&m, "C09", site, what, &Cond::eq(&ci, &cj));
            }
        }
        for (sj, wj) in &entries {
            for (si, wi) in &entries {
                let Some(m) = twin_state(si, sj, &mut rename, &mut waste) else { continue };
                n += 1;
                if wi == wj {
                    continue;
                }
                let wj = rename_word(wj, &mut rename, &mut waste);
                let l = wi.len().max(wj.len());
                let (a, b) = (bits::w_resize(wi, l), bits::w_resize(&wj, l));
                let mut c = bits::T;
                for (x, y) in a.iter().zip(b.iter()) {
                    c = bits::and(c, bits::iff(*x, *y));
                }
                self.oblige(&m, "C09", site, what, &Cond::bit(c));
            }
        }
        if n > 0 {
            self.push("C09", site, &format!("{} ({} pairs of paths)", what, n), Verdict::Proved);
        }
    }
    /// Memory safety with misbehaving callers: panicking closures, iterators that misreport their length.
    pub fn check_wild(&mut self, module: &str, op: &str) {
        let site = format!("{}::{} (panicking or misreporting caller code)", module, op);
        let Some(f) = self.find_local(&[module, op]) else { return };
        let Some(su) = self.setup(f, true, false) else { return };
        self.c11 = None;
        self.stack.clear();
        self.opaque_panics = true;
        let inst = Instance::mono(self.tcx, f);
        let outs = self.call(su.st.clone(), inst, su.args.clone());
        self.opaque_panics = false;
        for (mut s, o) in outs {
            if let Outcome::Stuck(m) = &o {
                self.push_unknown("*", &site, "path followed", m);
                continue;
            }
            self.check_all_init(&site, &su, &mut s);
        }
    }
    fn check_all_init(&mut self, site: &str, su: &Setup<'tcx>, s: &mut State<'tcx>) {
        for p in &su.vecs {
            if let Some(q) = &p.ptr {
                let Ok(v) = s.read_ptr(q) else { continue };
                let Some((len, o)) = self.find_vec(&v) else { continue };
                self.check_init(s, site, &len, &o);
            }
        }
    }
    /// Representation of a packed vector value without knowing its type: one container, one integer.
    fn find_vec(&self, v: &Val) -> Option<(Lin, VecObj)> {
        let Val::Agg(_, f) = v else { return None };
        let mut o = None;
        let mut n = None;
        for x in f.iter() {
            match x {
                Val::Vec(q) => o = Some((**q).clone()),
                Val::Int(_) => n = x.lin(),
                _ => {}
            }
        }
        Some((n?, o?))
    }

    #[allow(clippy::too_many_arguments)]
    fn check_outcome(&mut self, site: &str, op: &str, su: &Setup<'tcx>, sp: &Spec, mut s: State<'tcx>, o: Outcome, rty: Ty<'tcx>, n: i128) {
        let _ = op;
        let ret = match o {
            Outcome::Stuck(m) => {
                self.push_unknown("*", site, "path followed", &m);
                return;
            }
            Outcome::Panic(m) => {
                let mut allowed = sp.refuse.clone().unwrap_or(Cond::B(false));
                for x in &sp.sizes {
                    allowed = Cond::or(&allowed, &Cond::Ge(x.addc(-HUGE)).simp());
                }
                if m == "capacity overflow" {
                    // beyond any memory that could exist
                    for x in su.vecs.iter().map(|p| &p.len).chain(su.seqs.iter().map(|x| &x.1)) {
                        allowed = Cond::or(&allowed, &Cond::Ge(x.addc(-HUGE)).simp());
                    }
                }
                let prop = sp.prop;
                self.oblige(&s, prop, site, &format!("no panic ({})", m), &allowed);
                if let (Exp::Opt(c, ..), "C02") = (&sp.ret, prop) {
                    // reading or taking where there is nothing gives no value, it does not panic
                    for s in s.clone().assume(&c.not()) {
                        self.oblige(&s, "C04", site, &format!("no panic ({})", m), &allowed);
                    }
                }
                // refused operations leave everything as it was
                if let Some(r) = &sp.refuse {
                    for s in s.clone().assume(r) {
                        self.check_unchanged(site, su, s);
                    }
                } else {
                    self.check_all_init(site, su, &mut s);
                }
                return;
            }
            Outcome::Ret(v) => v,
        };
        if let Some(r) = &sp.refuse {
            if !self.oblige(&s, "C04", site, "out-of-range position is refused", &r.not()) {
                return;
            }
        }
        // the vectors passed by reference
        for (p, e) in su.vecs.iter().zip(&sp.vecs) {
            let Some(q) = &p.ptr else { continue };
            let Ok(v) = s.read_ptr(q) else {
                self.push_unknown(sp.prop, site, "vector afterwards", "unreadable");
                continue;
            };
            let Some((len, vo)) = self.find_vec(&v) else {
                self.push_unknown(sp.prop, site, "vector afterwards", &format!("unknown ({:?})", s.lost));
                continue;
            };
            self.check_init(&s, site, &len, &vo);
            if let Some(m) = &sp.max_elems {
                let m = if p.name == su.vecs[0].name { m.clone() } else { p.len.clone() };
                self.check_c11(&s, site, &vo, n, Some(p), &m);
            }
            if let Some(seq) = e {
                self.check_seq(&s, sp.prop, site, &format!("of {}", p.name), vo.arr, &len, seq);
            }
            if let (Exp::Opt(c, ..), "C02") = (&sp.ret, sp.prop) {
                for s in s.clone().assume(&c.not()) {
                    self.check_seq(&s, "C04", site, &format!("of {} after nothing was returned", p.name), vo.arr, &len, &seq_pre(p));
                }
            }
        }
        self.check_ret(site, su, sp, &mut s, &ret, rty, n);
        self.check_extra(site, su, sp, &mut s, &ret, n);
    }
    fn check_unchanged(&mut self, site: &str, su: &Setup<'tcx>, mut s: State<'tcx>) {
        for p in &su.vecs {
            let Some(q) = &p.ptr else { continue };
            let Ok(v) = s.read_ptr(q) else { continue };
            let Some((len, vo)) = self.find_vec(&v) else {
                self.push_unknown("C04", site, "refused operation changes nothing", "unknown");
                continue;
            };
            self.check_init(&s, site, &len, &vo);
            self.check_seq(&s, "C04", site, "after the refused operation", vo.arr, &len, &seq_pre(p));
        }
    }
    fn word_of_elem(&mut self, v: &Val) -> Option<Word> {
        match v {
            Val::T(_, IntV::W(w)) => Some(bits::w_resize(w, 64)),
            Val::T(_, IntV::L(l)) => Some(bits::w_const(l.as_int()? as u128, 64)),
            _ => None,
        }
    }
    pub fn check_elem(&mut self, site: &str, prop: &str, s: &State<'tcx>, v: &Val, src: &Src, k: &Lin) {
        let b = cfg_b();
        if let Val::T(_, IntV::L(l)) = v {
            if l.as_int().is_none() {
                let (cs, bad) = self.cases(s.clone(), &mut |e, s| {
                    let y = e.src_word(s, src, k, b)?;
                    let y = s.renorm_word(&y, true)?;
                    s.word_lin(&y)
                });
                if let Some(m) = bad {
                    self.push_unknown(prop, site, "returned element", &m);
                }
                for (s, y) in cs {
                    self.oblige(&s, prop, site, "returned element", &Cond::eq(l, &y));
                }
                return;
            }
        }
        let Some(w) = self.word_of_elem(v) else {
            self.push_unknown(prop, site, "returned element", "unknown");
            return;
        };
        let (cs, bad) = self.cases(s.clone(), &mut |e, s| {
            let x = s.renorm_word(&w, true)?;
            let y = e.src_word(s, src, k, b)?;
            let y = s.renorm_word(&y, true)?;
            if e.trace {
                for i in 0..5 {
                    println!("  bit {}: {:?} / {:?}", i, bits::support(x[i]), bits::support(y[i]));
                }
                println!("  eqs {:?}", s.eqs);
            }
            Ok(bits::w_eq(&x, &y))
        });
        if let Some(m) = bad {
            self.push_unknown(prop, site, "returned element", &m);
        }
        for (s, c) in cs {
            self.oblige(&s, prop, site, "returned element", &Cond::bit(c));
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn check_ret(&mut self, site: &str, su: &Setup<'tcx>, sp: &Spec, s: &mut State<'tcx>, ret: &Val, rty: Ty<'tcx>, n: i128) {
        let prop = sp.prop;
        let b = cfg_b();
        match &sp.ret {
            Exp::Any => {}
            Exp::Lin(l) => match ret.lin() {
                Some(x) => {
                    self.oblige(s, prop, site, "returned number", &Cond::eq(&x, l));
                }
                None => self.push_unknown(prop, site, "returned number", "unknown"),
            },
            Exp::OptLin(_) => {}
            Exp::SizeHint(l) => match ret {
                Val::Agg(_, f) if f.len() == 2 => {
                    if let Some(x) = f[0].lin() {
                        self.oblige(s, prop, site, "lower size bound", &Cond::eq(&x, l));
                    }
                    match &f[1] {
                        Val::Agg(1, g) if g.len() == 1 => {
                            if let Some(x) = g[0].lin() {
                                self.oblige(s, prop, site, "upper size bound", &Cond::eq(&x, l));
                            }
                        }
                        Val::Agg(0, _) => {
                            self.oblige(s, prop, site, "upper size bound is given", &Cond::B(false));
                        }
                        _ => self.push_unknown(prop, site, "upper size bound", "unknown"),
                    }
                }
                _ => self.push_unknown(prop, site, "size bounds", "unknown"),
            },
            Exp::Bool(c) => {
                for (s, r) in self.bool_cases(s, ret) {
                    match r {
                        Some(true) => self.oblige(&s, prop, site, "returned truth value", c),
                        Some(false) => self.oblige(&s, prop, site, "returned truth value", &c.not()),
                        None => {
                            self.push_unknown(prop, site, "returned truth value", "unknown");
                            true
                        }
                    };
                }
            }
            Exp::Elem(src, k) => self.check_elem(site, prop, s, ret, src, k),
            Exp::Opt(c, src, k) => match ret {
                Val::Agg(1, f) if f.len() == 1 => {
                    let p = if prop == "C02" { "C04" } else { prop };
                    if self.oblige(s, p, site, "a value is returned only when there is one", c) {
                        self.check_elem(site, prop, s, &f[0], src, k);
                    }
                }
                Val::Agg(0, _) => {
                    self.oblige(s, prop, site, "a value is returned when there is one", &c.not());
                }
                _ => self.push_unknown(prop, site, "returned option", "unknown"),
            },
            Exp::Seq(seq) => {
                if self.is_enum_vec(rty) {
                    match self.find_vec(ret) {
                        Some((len, o)) => {
                            self.check_init(s, site, &len, &o);
                            if let Some(m) = &sp.max_elems {
                                self.check_c11(s, site, &o, n, if site.ends_with("::clone") { Some(&su.vecs[0]) } else { None }, if sp.vecs.is_empty() { m } else { &su.vecs[0].len });
                            }
                            self.check_seq(s, prop, site, "of the result", o.arr, &len, seq);
                        }
                        None => self.push_unknown(prop, site, "returned vector", "unknown"),
                    }
                } else if let Val::Vec(o) = ret {
                    self.check_seq(s, prop, site, "of the result", o.arr, &o.len, seq);
                } else {
                    self.push_unknown(prop, site, "returned vector", "unknown");
                }
            }
            Exp::Iter(seq) => {
                // the vector and the range inside
                let Val::Agg(_, f) = ret else {
                    self.push_unknown(prop, site, "returned iterator", "unknown");
                    return;
                };
                for x in f.iter() {
                    let v = match x {
                        Val::Ref(p) => s.read_ptr(p).unwrap_or(Val::Top),
                        v => v.clone(),
                    };
                    if let Some((len, o)) = self.find_vec(&v) {
                        self.check_seq(s, prop, site, "under the iterator", o.arr, &len, seq);
                    }
                }
            }
            Exp::Exists(arr, len, w) | Exp::Forall(arr, len, w) => {
                let exists = matches!(sp.ret, Exp::Exists(..));
                for (s, r) in self.bool_cases(s, ret) {
                    let Some(r) = r else {
                        self.push_unknown(prop, site, "returned truth value", "unknown");
                        continue;
                    };
                    if r == exists {
                        // a witness must exist
                        self.check_witness(site, prop, &s, *arr, len, &mut |e, s, k| {
                            let x = s.elem_bits(*arr, k, b, true)?;
                            let _ = e;
                            let c = bits::w_eq(&bits::w_resize(&x, 64), w);
                            Ok(if exists { c } else { bits::not(c) })
                        });
                    } else {
                        let mut s2 = s.clone();
                        let k = Lin::var(new_var("k", false));
                        s2.add_con(k.clone(), false);
                        if s2.entails(&Cond::le(len, &k)) {
                            continue;
                        }
                        s2.add_con(len.sub(&k).addc(-1), false);
                        let (cs, bad) = self.cases(s2, &mut |_, s| {
                            let x = s.elem_bits(*arr, &k, b, true)?;
                            Ok(bits::w_eq(&bits::w_resize(&x, 64), w))
                        });
                        if let Some(m) = bad {
                            self.push_unknown(prop, site, "every element", &m);
                        }
                        for (s, c) in cs {
                            let c = if exists { bits::not(c) } else { c };
                            self.oblige(&s, prop, site, &format!("answer {} for every element", r), &Cond::bit(c));
                        }
                    }
                }
            }
            Exp::EqSeq(a1, l1, a2, l2, positive) => {
                for (s, r) in self.bool_cases(s, ret) {
                    let Some(r) = r else {
                        self.push_unknown(prop, site, "returned truth value", "unknown");
                        continue;
                    };
                    if r == *positive {
                        if !self.oblige(&s, prop, site, "equal vectors have equal lengths", &Cond::eq(l1, l2)) {
                            continue;
                        }
                        let mut s2 = s.clone();
                        let k = Lin::var(new_var("k", false));
                        s2.add_con(k.clone(), false);
                        if s2.entails(&Cond::le(l1, &k)) {
                            continue;
                        }
                        s2.add_con(l1.sub(&k).addc(-1), false);
                        let (cs, bad) = self.cases(s2, &mut |_, s| {
                            let x = s.elem_bits(*a1, &k, b, true)?;
                            let y = s.elem_bits(*a2, &k, b, true)?;
                            Ok(bits::w_eq(&x, &y))
                        });
                        if let Some(m) = bad {
                            self.push_unknown(prop, site, "equal vectors", &m);
                        }
                        for (s, c) in cs {
                            self.oblige(&s, prop, site, "vectors reported equal have equal elements", &Cond::bit(c));
                        }
                    } else {
                        // different lengths, or a differing element
                        for s in s.assume(&Cond::eq(l1, l2)) {
                            self.check_witness(site, prop, &s, *a1, l1, &mut |_, s, k| {
                                let x = s.elem_bits(*a1, k, b, true)?;
                                let y = s.elem_bits(*a2, k, b, true)?;
                                Ok(bits::not(bits::w_eq(&x, &y)))
                            });
                        }
                    }
                }
            }
        }
    }
    fn bool_cases(&mut self, s: &State<'tcx>, v: &Val) -> Vec<(State<'tcx>, Option<bool>)> {
        match v {
            Val::Bool(c) => {
                let mut out: Vec<(State<'tcx>, Option<bool>)> = s.clone().assume(c).into_iter().map(|s| (s, Some(true))).collect();
                out.extend(s.clone().assume(&c.not()).into_iter().map(|s| (s, Some(false))));
                if let Cond::Top = c {
                    return vec![(s.clone(), None)];
                }
                out
            }
            _ => vec![(s.clone(), None)],
        }
    }
    /// Some element at one of the positions the path looked at must satisfy the predicate.
    #[allow(clippy::type_complexity)]
    fn check_witness(&mut self, site: &str, prop: &str, s: &State<'tcx>, arr: u32, len: &Lin, pred: &mut dyn FnMut(&mut Eng<'tcx>, &mut State<'tcx>, &Lin) -> R<bits::Bdd>) {
        let (cs, bad) = self.cases(s.clone(), &mut |_, s| {
            let b = s.renorm_force(s.bitpc, true)?;
            s.bitpc = b;
            Ok(())
        });
        if let Some(m) = bad {
            self.push_unknown(prop, site, "witness", &m);
        }
        for (s, _) in cs {
            let mut idx: Vec<Lin> = vec![];
            for v in bits::base_support(s.bitpc) {
                if let BitVar::Sel { arr: a, idx: i, .. } = v {
                    if a == arr && !idx.contains(&i) {
                        idx.push(i);
                    }
                }
            }
            // decide which of them are in range
            let idx2 = idx.clone();
            let (cs, bad) = self.cases(s, &mut |e, s| {
                let mut g = bits::F;
                for i in &idx2 {
                    if s.want(&Cond::Ge(i.clone()).simp())? && s.want(&Cond::lt(i, len))? {
                        g = bits::or(g, pred(e, s, i)?);
                    }
                }
                Ok(g)
            });
            if let Some(m) = bad {
                self.push_unknown(prop, site, "witness", &m);
            }
            for (s, g) in cs {
                let mut s2 = s.clone();
                let v = judge(&mut s2, &Cond::bit(g));
                // the answer may also be justified by elements the path did not look at
                let v = match v {
                    Verdict::Refuted(m) => {
                        // constructible: choose every other element to contradict the answer,
                        // possible unless a fact about all iterations forbids it
                        if s.foralls.is_empty() {
                            Verdict::Refuted(m)
                        } else {
                            Verdict::Unknown(m)
                        }
                    }
                    v => v,
                };
                if self.trace && v != Verdict::Proved {
                    eprintln!("OBL {} {} witness: {:?}", prop, site, v);
                }
                self.obls.push(Obl { prop: prop.into(), site: site.into(), what: "the answer is justified by an element".into(), verdict: v });
            }
        }
    }
    /// A number computed from a vector is the same for a vector with the same elements, but other storage.
    fn same_for_twin(&mut self, site: &str, s: &State<'tcx>, p: &PreVec, what: &str, l: &Lin) {
        let l = s.norm(l);
        let len = s.norm(&p.len);
        // what differs: the number of blocks and the capacity, as far as they are free
        let mut free: std::collections::BTreeSet<V> = std::collections::BTreeSet::new();
        for v in s.norm(&p.slen).vars().chain(l.vars()) {
            let n = var_name(v);
            if !len.has(v) && (n == format!("{}.blocks", p.name) || n == format!("{}.cap", p.name)) {
                free.insert(v);
            }
        }
        if free.is_empty() || l.vars().any(|v| !len.has(v) && !free.contains(&v)) {
            self.push_unknown("C09", site, what, &format!("{}", l));
            return;
        }
        let mut twin = s.clone();
        let m: std::collections::BTreeMap<V, Lin> = free.iter().map(|v| (*v, Lin::var(new_var(&format!("{}'", var_name(*v)), false)))).collect();
        for c in s.cons.iter() {
            if c.l.vars().any(|v| free.contains(&v)) {
                twin.add_con(c.l.subst_map(&m), false);
            }
        }
        self.oblige(&twin, "C09", site, what, &Cond::eq(&l, &l.subst_map(&m)));
    }
    fn check_extra(&mut self, site: &str, su: &Setup<'tcx>, sp: &Spec, s: &mut State<'tcx>, ret: &Val, n: i128) {
        let b = cfg_b();
        match sp.extra {
            Extra::None => {}
            Extra::Capacity => {
                let v = match (su.vecs.first().and_then(|p| p.ptr.clone()), ret) {
                    (Some(q), _) => s.read_ptr(&q).unwrap_or(Val::Top),
                    (None, v) => v.clone(),
                };
                let want = match su.vecs.first() {
                    Some(p) => p.len.add(&su.nums[0]),
                    None => su.nums[0].clone(),
                };
                match self.find_vec(&v) {
                    Some((_, o)) => {
                        let cap = if s.entails_ge(&o.cap.sub(&o.len)) { o.cap.clone() } else { o.len.clone() };
                        self.oblige(s, "C11", site, "capacity covers the request", &Cond::le(&want, &cap.scale(Rat::int(n))));
                    }
                    None => self.push_unknown("C11", site, "capacity covers the request", "unknown"),
                }
            }
            Extra::Shrink => {
                let q = su.vecs[0].ptr.clone().unwrap();
                let v = s.read_ptr(&q).unwrap_or(Val::Top);
                match self.find_vec(&v) {
                    Some((len, o)) => {
                        let c = Cond::and(
                            &Cond::Ge(o.len.scale(Rat::int(n)).sub(&len)).simp(),
                            &Cond::Ge(len.addc(n - 1).sub(&o.len.scale(Rat::int(n)))).simp(),
                        );
                        self.oblige(s, "C11", site, "exactly the needed blocks remain", &c);
                    }
                    None => self.push_unknown("C11", site, "exactly the needed blocks remain", "unknown"),
                }
            }
            Extra::Storage => {
                let got = match ret {
                    Val::Ref(p) => s.read_ptr(p).unwrap_or(Val::Top),
                    _ => Val::Top,
                };
                let Val::Vec(o) = &got else {
                    self.push_unknown("C13", site, "blocks of the vector", "unknown");
                    return;
                };
                let p = &su.vecs[0];
                self.oblige(s, "C13", site, "number of blocks", &Cond::eq(&o.len, &p.slen));
                self.check_seq(s, "C13", site, "in the blocks", o.arr, &p.len, &seq_pre(p));
                // writing through the reference changes the vector itself
                if let (Val::Ref(r), Some(q)) = (ret, &p.ptr) {
                    let inside = r.root == q.root && r.proj.len() >= q.proj.len() && r.proj[..q.proj.len()] == q.proj[..];
                    self.oblige(s, "C13", site, "the blocks are the vector's own", &Cond::B(inside));
                }
            }
            Extra::KeepBlocks => {
                let p = &su.vecs[0];
                let v = p.ptr.clone().and_then(|q| s.read_ptr(&q).ok()).unwrap_or(Val::Top);
                let Some((_, o)) = self.find_vec(&v) else {
                    self.push_unknown("C13", site, "blocks afterwards", "unknown");
                    return;
                };
                if !self.oblige(s, "C13", site, "number of blocks", &Cond::eq(&o.len, &p.slen)) {
                    return;
                }
                // the blocks behind the length are kept as well: it may be raised again
                let all = p.slen.scale(Rat::int(n));
                let mut e = seq_pre(p);
                e.len = all.clone();
                for x in e.pieces.iter_mut() {
                    x.hi = all.clone();
                }
                self.check_seq(s, "C13", site, "in the blocks", o.arr, &all, &e);
            }
            Extra::Debug => {
                let Ok(Val::Opq(o)) = s.read_ptr(&su.funs[0]) else {
                    self.push_unknown("C15", site, "elements shown", "unknown");
                    return;
                };
                let Opq::Hasher { id, n: cnt, log } = &*o else { return };
                if *id == crate::fmts::OTHER {
                    self.push_unknown("C15", site, "shown as a list", "formatted by other means");
                    return;
                }
                self.oblige(s, "C15", site, "shown as a list", &Cond::B(*id == crate::fmts::LIST_DONE));
                self.check_seq(s, "C15", site, "shown", *log, cnt, &seq_pre(&su.vecs[0]));
            }
            Extra::Hash => {
                let Ok(Val::Opq(o)) = s.read_ptr(&su.funs[0]) else {
                    self.push_unknown("C09", site, "hashed data", "unknown");
                    return;
                };
                let Opq::Hasher { n: cnt, log, .. } = &*o else { return };
                let p = &su.vecs[0];
                // the number of writes depends on the length only
                let cn = s.norm(cnt);
                self.hashed.push((s.clone(), cn.clone(), *log));
                let lenv = s.norm(&p.len);
                let bad: Vec<V> = cn.vars().filter(|v| !lenv.has(*v) && !p.len.has(*v)).collect();
                if !bad.is_empty() {
                    self.same_for_twin(site, s, p, "amount of hashed data depends on the elements only", &cn);
                }
                let mut s2 = s.clone();
                let k = Lin::var(new_var("k", false));
                s2.add_con(k.clone(), false);
                if s2.entails(&Cond::le(cnt, &k)) {
                    return;
                }
                s2.add_con(cnt.sub(&k).addc(-1), false);
                let log = *log;
                let (cs, bad) = self.cases(s2, &mut |_, s| {
                    let w = match s.locate(log, &k, true)? {
                        Loc::Val(Val::Int(IntV::W(w))) => w,
                        Loc::Val(Val::Int(IntV::L(l))) => {
                            // a number: must be a function of the length
                            return Ok((vec![], Some(s.norm(&l))));
                        }
                        Loc::Val(Val::T(_, IntV::W(w))) => w,
                        x => { let d = match &x { Loc::Val(v) => format!("{:?}", v), Loc::Sel(a, i) => format!("sel {} {}", a, i), Loc::Field(_, t) => format!("field {}", t) }; return Err(Need::Fail(format!("hashed value unknown {}", d))) }
                    };
                    let w = s.renorm_word(&w, true)?;
                    let mut vs = vec![];
                    for b in w.iter() {
                        for v in bits::base_support(*b) {
                            if !vs.contains(&v) {
                                vs.push(v);
                            }
                        }
                    }
                    Ok((vs, None))
                });
                if let Some(m) = bad {
                    self.push_unknown("C09", site, "hashed data", &m);
                }
                for (s, (vs, l)) in cs {
                    if let Some(l) = l {
                        if !l.vars().all(|v| p.len.has(v) || lenv.has(v)) {
                            self.same_for_twin(site, &s, p, "hashed number depends on the elements only", &l);
                        } else {
                            self.oblige(&s, "C09", site, "hashed number depends on the length only", &Cond::B(true));
                        }
                        continue;
                    }
                    let mut dup: Vec<Lin> = vec![];
                    for v in vs {
                        match v {
                            BitVar::Sel { arr, idx, .. } if arr == p.arr => {
                                if dup.contains(&idx) {
                                    continue;
                                }
                                dup.push(idx.clone());
                                self.oblige(&s, "C09", site, "hashed data comes from elements before the end", &Cond::lt(&idx, &p.len));
                            }
                            BitVar::Waste { .. } => {
                                self.oblige(&s, "C09", site, "hashed data does not include unused bits", &Cond::B(false));
                            }
                            o => self.push_unknown("C09", site, "hashed data", &format!("{:?}", o)),
                        }
                    }
                }
            }
            Extra::ForEach => {
                let Ok(Val::Opq(o)) = s.read_ptr(&su.funs[0]) else {
                    self.push_unknown("C07", site, "calls", "unknown");
                    return;
                };
                let Opq::Fun { calls, log, out, .. } = &*o else { return };
                let p = &su.vecs[0];
                self.check_seq(s, "C07", site, "seen by the function", *log, calls, &seq_pre(p));
                let q = p.ptr.clone().unwrap();
                let v = s.read_ptr(&q).unwrap_or(Val::Top);
                match self.find_vec(&v) {
                    Some((len, vo)) => {
                        let want = Seq { len: p.len.clone(), pieces: vec![piece(Lin::zero(), p.len.clone(), Src::Arr(*out, Lin::zero()))] };
                        self.check_seq(s, "C07", site, "afterwards", vo.arr, &len, &want);
                    }
                    None => self.push_unknown("C07", site, "vector afterwards", "unknown"),
                }
            }
            Extra::Retain => {
                let Ok(Val::Opq(o)) = s.read_ptr(&su.funs[0]) else {
                    self.push_unknown("C07", site, "calls", "unknown");
                    return;
                };
                let Opq::Fun { calls, log, ret, .. } = &*o else { return };
                let p = &su.vecs[0];
                self.check_seq(s, "C07", site, "seen by the predicate", *log, calls, &seq_pre(p));
                let q = p.ptr.clone().unwrap();
                let v = s.read_ptr(&q).unwrap_or(Val::Top);
                let Some((len, vo)) = self.find_vec(&v) else {
                    self.push_unknown("C07", site, "vector afterwards", "unknown");
                    return;
                };
                let nl = s.norm(&p.len);
                if let Some(cnt) = nl.as_int() {
                    // which elements were accepted?
                    let (cs, bad) = self.cases(s.clone(), &mut |_, s| {
                        let mut acc = vec![];
                        for i in 0..cnt {
                            let c = Cond::Bit(bits::var(BitVar::Sel { arr: *ret, idx: Lin::int(i), bit: 0 }));
                            if s.want(&c)? {
                                acc.push(i);
                            }
                        }
                        Ok(acc)
                    });
                    if let Some(m) = bad {
                        self.push_unknown("C07", site, "accepted elements", &m);
                    }
                    for (s, acc) in cs {
                        let want = Seq {
                            len: Lin::int(acc.len() as i128),
                            pieces: acc
                                .iter()
                                .enumerate()
                                .map(|(u, i)| piece(Lin::int(u as i128), Lin::int(u as i128 + 1), Src::Arr(p.arr, Lin::int(i - u as i128))))
                                .collect(),
                        };
                        self.check_seq(&s, "C07", site, "afterwards", vo.arr, &len, &want);
                    }
                    return;
                }
                crate::loops::check_filtered(self, site, s, p, *ret, vo.arr, &len, b);
            }
            Extra::IterStep => {
                let (q, a, e) = su.iters[0].clone();
                if matches!(q.root, Root::Heap(0)) && q.proj.is_empty() && su.vecs[0].ptr.is_none() && !matches!(su.args[0], Val::Ref(_)) {
                    return; // consumed
                }
                if !matches!(su.args[0], Val::Ref(_)) {
                    return;
                }
                let v = s.read_ptr(&q).unwrap_or(Val::Top);
                let Val::Agg(_, f) = &v else {
                    self.push_unknown("C10", site, "iterator afterwards", "unknown");
                    return;
                };
                let op = site.rsplit("::").next().unwrap_or("").to_string();
                // expected new range
                let (na, ne) = match &op[3..] {
                    "next" => (a.addc(1), e.clone()),
                    "next_back" => (a.clone(), e.addc(-1)),
                    "nth" => (a.add(&su.nums[0]).addc(1), e.clone()),
                    _ => (a.clone(), e.clone()),
                };
                for x in f.iter() {
                    let x = match x {
                        Val::Ref(p) => s.read_ptr(p).unwrap_or(Val::Top),
                        x => x.clone(),
                    };
                    if let Some((len, o)) = self.find_vec(&x) {
                        self.check_seq(s, "C10", site, "under the iterator", o.arr, &len, &seq_pre(&su.vecs[0]));
                        continue;
                    }
                    let Val::Agg(_, r) = &x else { continue };
                    if r.len() != 2 {
                        continue;
                    }
                    let (Some(ra), Some(re)) = (r[0].lin(), r[1].lin()) else {
                        self.push_unknown("C10", site, "remaining range", "unknown");
                        continue;
                    };
                    // either as expected, or exhausted
                    let exhausted = Cond::and(&Cond::le(&re, &ra), &Cond::le(&ne, &na));
                    let expected = Cond::and(&Cond::eq(&ra, &na), &Cond::eq(&re, &ne));
                    self.oblige(s, "C10", site, "exactly the consumed elements are gone", &Cond::or(&expected, &exhausted));
                }
            }
        }
    }
}
fn clone_setup<'tcx>(su: &Setup<'tcx>) -> Setup<'tcx> {
    Setup {
        st: su.st.clone(),
        args: su.args.clone(),
        vecs: su.vecs.clone(),
        nums: su.nums.clone(),
        elems: su.elems.clone(),
        seqs: su.seqs.clone(),
        funs: su.funs.clone(),
        iters: su.iters.clone(),
    }
}
#[allow(dead_code)]
const _M: i128 = MAXLEN;

impl<'tcx> Eng<'tcx> {
    pub fn module_vec_ty(&self, module: &str) -> Option<Ty<'tcx>> {
        let f = self.find_local(&[module, "new"])?;
        Some(self.tcx.instantiate_bound_regions_with_erased(self.tcx.fn_sig(f).instantiate_identity().skip_norm_wip()).output())
    }
    /// Value of an associated constant of the vector type.
    pub fn vec_const(&mut self, module: &str, name: &str) -> Option<Result<Val, String>> {
        let t = self.module_vec_ty(module)?;
        let ty::Adt(d, a) = t.kind() else { return None };
        for imp in self.tcx.inherent_impls(d.did()) {
            for it in self.tcx.associated_items(*imp).in_definition_order() {
                if it.name().as_str() == name && !it.is_fn() {
                    let mut s = State::new();
                    for c in self.base_facts.clone() {
                        s.add_con(c, true);
                    }
                    let cty = self.tcx.type_of(it.def_id).instantiate(self.tcx, a).skip_norm_wip();
                    return Some(match self.named_const(&mut s, it.def_id, a, cty) {
                        Ok(v) => Ok(v),
                        Err(Need::Fail(m)) => Err(m),
                        Err(n) => Err(format!("{:?}", n)),
                    });
                }
            }
        }
        None
    }
}

pub fn rename_lin(l: &Lin, rename: &mut dyn FnMut(V) -> Lin) -> Lin {
    let m: std::collections::BTreeMap<V, Lin> = l.vars().map(|v| (v, rename(v))).collect();
    l.subst_map(&m)
}
fn rename_bdd(b: Bdd, rename: &mut dyn FnMut(V) -> Lin, waste: &mut HashMap<BitVar, u32>) -> Bdd {
    bits::map_vars(b, &mut |v| match v {
        BitVar::Sel { arr, idx, bit } => bits::var(BitVar::Sel { arr: *arr, idx: rename_lin(idx, rename), bit: *bit }),
        BitVar::Xor(..) => bits::var(v.clone()),
        // unused bits may differ
        o => {
            let id = *waste.entry(o.clone()).or_insert_with(|| bits::fresh_id("other"));
            bits::named(id, 0, false)
        }
    })
}
fn rename_word(w: &Word, rename: &mut dyn FnMut(V) -> Lin, waste: &mut HashMap<BitVar, u32>) -> Word {
    w.iter().map(|b| rename_bdd(*b, rename, waste)).collect()
}
/// Both of two paths, taken by vectors that differ in their storage only.
pub fn twin_state<'tcx>(si: &State<'tcx>, sj: &State<'tcx>, rename: &mut dyn FnMut(V) -> Lin, waste: &mut HashMap<BitVar, u32>) -> Option<State<'tcx>> {
    let mut m = si.clone();
    for (v, x) in sj.eqs.iter() {
        let l = rename_lin(&Lin::var(*v).sub(x), rename);
        if !m.add_eq(&l) {
            return None;
        }
    }
    for c in sj.cons.iter() {
        let l = rename_lin(&c.l, rename);
        m.add_con(l, c.fact);
    }
    if m.bitpc == bits::F || !m.feasible() {
        return None;
    }
    m.bitpc = bits::and(m.bitpc, rename_bdd(sj.bitpc, rename, waste));
    if m.bitpc == bits::F {
        return None;
    }
    if !sj.foralls.is_empty() {
        m.taint("facts about all iterations");
    }
    if let Some(x) = &sj.imprecise {
        m.taint(x);
    }
    if m.lost.is_none() {
        m.lost = sj.lost.clone();
    }
    Some(m)
}
