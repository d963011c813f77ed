//! Calls: resolution, models of the standard containers, opaque callbacks.
use crate::arith::*;
use crate::bits::{self, BitVar};
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use std::rc::Rc;

/// Where a function lives: (head of the self type or module path, trait, name)
#[derive(Debug, Clone)]
pub struct Info {
    pub head: String,
    pub tr: String,
    pub name: String,
    pub krate: String,
}

pub fn idx_proj(p: &Ptr, i: Lin) -> Val {
    let mut p = p.clone();
    p.proj.push(PE::Idx(i));
    Val::Ref(Rc::new(p))
}
fn fail<T>(m: impl Into<String>) -> R<T> {
    Err(Need::Fail(m.into()))
}

impl<'tcx> Eng<'tcx> {
    pub fn head_of(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            ty::Slice(_) => "[T]".into(),
            ty::Array(..) => "[T;N]".into(),
            ty::Ref(_, t, _) => format!("&{}", self.head_of(*t)),
            ty::RawPtr(..) => "*ptr".into(),
            ty::Str => "str".into(),
            ty::Uint(_) | ty::Int(_) | ty::Bool | ty::Char => format!("{}", t),
            ty::Closure(..) => "{closure}".into(),
            ty::FnDef(..) => "{fn}".into(),
            ty::Tuple(..) => "()".into(),
            ty::Param(_) => "Param".into(),
            _ => format!("{}", t),
        }
    }
    pub fn info(&self, d: DefId) -> Info {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let tr = tcx
                .impl_opt_trait_ref(imp)
                .map(|t| tcx.item_name(t.instantiate_identity().skip_norm_wip().def_id).to_string())
                .unwrap_or_default();
            return Info { head: self.head_of(st), tr, name, krate };
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            return Info { head: "trait".into(), tr: tcx.item_name(t).to_string(), name, krate };
        }
        let path = match tcx.opt_parent(d) {
            Some(p) => tcx.def_path_str(p),
            None => String::new(),
        };
        Info { head: path, tr: String::new(), name, krate }
    }

    // ------------------------------------------------------------ call dispatch
    pub fn call_def(
        &mut self,
        st: State<'tcx>,
        d: DefId,
        args: GenericArgsRef<'tcx>,
        vals: Vec<Val>,
        argtys: &[Ty<'tcx>],
        dty: Ty<'tcx>,
    ) -> Outs<'tcx> {
        let tcx = self.tcx;
        let full = tcx.def_path_str(d);
        // trait methods: opaque receivers first
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let self_ty = args.type_at(0);
            let trn = tcx.item_name(tr).to_string();
            let name = tcx.item_name(d).to_string();
            if self.is_marker(self_ty) {
                if let Some(o) = self.marker_call(st.clone(), self_ty, &trn, &name, &vals, dty) {
                    return o;
                }
            }
            if matches!(trn.as_str(), "FnOnce" | "FnMut" | "Fn") {
                return self.fn_trait_call(st, self_ty, d, args, vals, argtys, dty);
            }
            if trn == "Clone" && name == "clone" && (self_ty.is_trivially_pure_clone_copy() || matches!(self_ty.kind(), ty::Ref(..))) {
                return self.simple(st, |_, s| match &vals[0] {
                    Val::Ref(p) => s.read_ptr(p),
                    _ => fail("clone"),
                });
            }
        }
        if dty.is_never() {
            return vec![(st, Outcome::Panic(full))];
        }
        let inst = match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => i,
            _ => return self.unknown_call(st, &full, vals, dty),
        };
        match inst.def {
            ty::InstanceKind::Intrinsic(_) => {
                let n = tcx.item_name(d).to_string();
                return self.intrinsic(st, &n, inst, vals, argtys, dty);
            }
            ty::InstanceKind::Item(d) if tcx.intrinsic(d).is_some() => {
                let n = tcx.item_name(d).to_string();
                return self.intrinsic(st, &n, inst, vals, argtys, dty);
            }
            ty::InstanceKind::Virtual(..) => return self.unknown_call(st, &full, vals, dty),
            ty::InstanceKind::Shim(sk) => match sk {
                ty::ShimKind::Clone(_, t) => {
                    let _ = t;
                    return self.simple(st, |_, s| match &vals[0] {
                        Val::Ref(p) => {
                            let v = s.read_ptr(p)?;
                            if contains_vec(&v) {
                                return fail("clone shim");
                            }
                            Ok(v)
                        }
                        _ => fail("clone"),
                    });
                }
                ty::ShimKind::DropGlue(..) => return ret(st, unit()),
                _ => {}
            },
            _ => {}
        }
        let rd = inst.def_id();
        let info = self.info(rd);
        if info.krate.starts_with("enum_") || info.krate == "probe" || info.krate == "example" {
            return self.call(st, inst, vals);
        }
        if let Some(o) = self.native(st.clone(), &info, inst, &vals, argtys, dty) {
            self.natives.insert(format!("{}::{}::{}", info.head, info.tr, info.name));
            return o;
        }
        if dty.is_never() {
            return vec![(st, Outcome::Panic(full))];
        }
        if full.contains("fmt::") || info.head.starts_with("core::fmt") || info.head.starts_with("std::fmt") {
            return ret(st, Val::Top);
        }
        if self.body_of(inst, false).is_some() {
            return self.call(st, inst, vals);
        }
        self.unknown_call(st, &full, vals, dty)
    }
    /// A model with a single result (after case splits).
    pub fn simple(&mut self, st: State<'tcx>, mut f: impl FnMut(&mut Eng<'tcx>, &mut State<'tcx>) -> R<Val>) -> Outs<'tcx> {
        self.multi(st, move |e, s| f(e, s).map(Outcome::Ret))
    }
    /// A model whose result may be a panic.
    pub fn multi(&mut self, st: State<'tcx>, mut f: impl FnMut(&mut Eng<'tcx>, &mut State<'tcx>) -> R<Outcome>) -> Outs<'tcx> {
        let obl0 = self.obls.len();
        let mut g = |e: &mut Eng<'tcx>, s: &mut State<'tcx>| {
            let n = e.obls.len();
            let mut c = s.clone();
            match f(e, &mut c) {
                Ok(v) => {
                    *s = c;
                    Ok(v)
                }
                Err(x) => {
                    e.obls.truncate(n);
                    Err(x)
                }
            }
        };
        let _ = obl0;
        let r = self.with_splits(st, &mut g);
        r.into_iter()
            .map(|(mut s, r)| match r {
                Ok(o) => (s, o),
                Err(m) => {
                    if self.trace {
                        eprintln!("LOST {} in {}", m, self.site());
                    }
                    s.lose(&m);
                    (s, Outcome::Ret(Val::Top))
                }
            })
            .collect()
    }
    fn fn_trait_call(
        &mut self,
        mut st: State<'tcx>,
        self_ty: Ty<'tcx>,
        d: DefId,
        args: GenericArgsRef<'tcx>,
        vals: Vec<Val>,
        argtys: &[Ty<'tcx>],
        dty: Ty<'tcx>,
    ) -> Outs<'tcx> {
        let tcx = self.tcx;
        let mut it = vals.into_iter();
        let (f, tup) = (it.next().unwrap(), it.next().unwrap_or_else(unit));
        let targs: Vec<Val> = match &tup {
            Val::Agg(_, v) => v.to_vec(),
            _ => return self.unknown_call(st, "closure call", vec![f, tup], dty),
        };
        match self_ty.kind() {
            ty::FnDef(fd, fa) => {
                let tys: Vec<Ty<'tcx>> = match argtys.get(1).map(|t| t.kind()) {
                    Some(ty::Tuple(ts)) => ts.iter().collect(),
                    _ => vec![],
                };
                self.call_def(st, *fd, fa.skip_binder(), targs, &tys, dty)
            }
            ty::Closure(cd, ca) => {
                let inst = Instance::new_raw(*cd, ca);
                let by_value = matches!(ca.as_closure().kind(), ty::ClosureKind::FnOnce);
                let name = tcx.item_name(d).to_string();
                let recv = if name == "call_once" && !by_value { st.alloc_ref(f) } else { f };
                let mut a = vec![recv];
                a.extend(targs);
                self.call(st, inst, a)
            }
            _ => match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(i)) if self.body_of(i, false).is_some() => {
                    self.call(st, i, vec![f, tup])
                }
                _ => self.unknown_call(st, "fn call", vec![f, tup], dty),
            },
        }
    }
    /// Call a function of the probe crate's `model` module.
    pub fn call_model(&mut self, st: State<'tcx>, name: &str, args: &[ty::GenericArg<'tcx>], vals: Vec<Val>) -> Outs<'tcx> {
        let Some(d) = self.find_local(&["model", name]) else {
            return vec![(st, Outcome::Stuck(format!("no model {}", name)))];
        };
        let inst = Instance::new_raw(d, self.tcx.mk_args(args));
        self.call(st, inst, vals)
    }
    pub fn find_local(&self, path: &[&str]) -> Option<DefId> {
        let mut cur = rustc_hir::def_id::CRATE_DEF_ID.to_def_id();
        for seg in path {
            let mut next = None;
            for c in self.tcx.module_children_local(cur.expect_local()) {
                let ctor = c.res.opt_def_id().map(|d| matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..))).unwrap_or(true);
                if c.ident.as_str() == *seg && !ctor {
                    next = c.res.opt_def_id();
                }
            }
            if next.is_none() {
                // private items
                for id in self.tcx.hir_crate_items(()).definitions() {
                    if self.tcx.opt_local_parent(id).map(|p| p.to_def_id()) == Some(cur) && self.tcx.opt_item_name(id.to_def_id()).map(|s| s.as_str() == *seg).unwrap_or(false) {
                        next = Some(id.to_def_id());
                    }
                }
            }
            cur = next?;
        }
        Some(cur)
    }

    // ------------------------------------------------------------ opaque things
    fn marker_call(&mut self, st: State<'tcx>, self_ty: Ty<'tcx>, tr: &str, name: &str, vals: &[Val], dty: Ty<'tcx>) -> Option<Outs<'tcx>> {
        let k = self.tkey(self_ty);
        Some(match (tr, name) {
            ("EnumLike", "to_discr") => self.simple(st, |_, _| match &vals[0] {
                Val::T(_, i) => Ok(Val::Int(i.clone())),
                v => fail(format!("to_discr of {}", short(v))),
            }),
            ("EnumLike", "from_discr") => {
                let v = vals[0].clone();
                self.simple(st, |e, s| match &v {
                    Val::Int(i) => {
                        e.check_discr(s, k, i);
                        Ok(Val::T(k, i.clone()))
                    }
                    v => fail(format!("from_discr of {}", short(v))),
                })
            }
            ("Clone", "clone") => self.simple(st, |_, s| match &vals[0] {
                Val::Ref(p) => s.read_ptr(p),
                _ => fail("clone"),
            }),
            ("PartialEq", "eq") | ("PartialEq", "ne") => self.simple(st, |_, s| {
                let (Val::Ref(a), Val::Ref(b)) = (&vals[0], &vals[1]) else { return fail("eq") };
                let (Val::T(_, a), Val::T(_, b)) = (s.read_ptr(a)?, s.read_ptr(b)?) else { return fail("eq") };
                let c = int_eq(&a, &b)?;
                Ok(Val::Bool(if name == "eq" { c } else { c.not() }))
            }),
            ("FnOnce" | "FnMut" | "Fn", _) => self.opaque_fn(st, vals, dty),
            ("Iterator", "next") => self.opaque_next(st, &vals[0]),
            ("Iterator", "size_hint") => {
                let wild = match &vals[0] {
                    Val::Ref(p) => matches!(st.clone().read_ptr(p), Ok(Val::Opq(o)) if matches!(&*o, Opq::Iter { wild: true, .. })),
                    _ => false,
                };
                let inexact = match &vals[0] {
                    Val::Ref(p) => matches!(st.clone().read_ptr(p), Ok(Val::Opq(o)) if matches!(&*o, Opq::Iter { wild: false, id, .. } if *id & 1 == 1)),
                    _ => false,
                };
                let mut outs = vec![];
                // the upper bound may be known or not
                for known in [false, true] {
                    if known && !inexact && !wild {
                        continue;
                    }
                    outs.extend(self.simple(st.clone(), |_, s| {
                        let Val::Ref(p) = &vals[0] else { return fail("size_hint") };
                        let Val::Opq(o) = s.read_ptr(p)? else { return fail("size_hint") };
                        let Opq::Iter { pos, total, wild, id, .. } = &*o else { return fail("size_hint") };
                        let any = |s: &mut State<'tcx>, n: &str| {
                            let v = Lin::var(new_var(n, false));
                            s.add_con(v.clone(), true);
                            s.add_con(v.neg().addc(u64::MAX as i128), true);
                            v
                        };
                        if *wild {
                            let v = any(s, "size_hint");
                            let u = if known { some(int(any(s, "upper_hint"))) } else { none() };
                            return Ok(agg(0, vec![int(v), u]));
                        }
                        // a correct lower bound: exact, or anything below
                        let rem = s.norm(&total.sub(pos));
                        if *id & 1 == 0 {
                            Ok(agg(0, vec![int(rem.clone()), some(int(rem))]))
                        } else {
                            let v = Lin::var(new_var("size_hint", false));
                            s.add_con(v.clone(), true);
                            s.add_con(rem.sub(&v), true);
                            let u = if known {
                                let u = any(s, "upper_hint");
                                s.add_con(u.sub(&rem), true);
                                some(int(u))
                            } else {
                                none()
                            };
                            Ok(agg(0, vec![int(v), u]))
                        }
                    }));
                }
                outs
            }
            ("ExactSizeIterator", "len") => return None,
            ("IntoIterator", "into_iter") => ret(st, vals[0].clone()),
            ("Hasher", "finish") => ret(st, Val::Top),
            ("Hasher", _) => self.simple(st, |_, s| {
                let Val::Ref(p) = &vals[0] else { return fail("hasher") };
                let Val::Opq(o) = s.read_ptr(p)? else { return fail("hasher") };
                let Opq::Hasher { id, n, log } = &*o else { return fail("hasher") };
                let v = vals.get(1).cloned().unwrap_or(Val::Top);
                let log = s.write_val(*log, n, v);
                let o2 = Opq::Hasher { id: *id, n: s.norm(&n.addc(1)), log };
                s.write_ptr(p, Val::Opq(Rc::new(o2)))?;
                Ok(unit())
            }),
            ("Default", _) => return None,
            _ => return None,
        })
    }
    /// `from_discr` must be given a valid discriminant.
    fn check_discr(&mut self, s: &mut State<'tcx>, k: u32, i: &IntV) {
        if let (IntV::L(l), Some(_)) = (i, self.nv.get(&k)) {
            if l.as_int().is_none() || cfg_s() == 0 {
                let nv = self.nv_of(k);
                self.obligation(s, "DISCR", "discriminant passed to from_discr is below NUM_VARIANTS", &Cond::lt(l, &nv));
            }
        }
    }
    fn opaque_fn(&mut self, st: State<'tcx>, vals: &[Val], dty: Ty<'tcx>) -> Outs<'tcx> {
        let base_splits = st.splits.len();
        let sp = mk_split(&st, 2);
        let mut outs = vec![];
        if self.opaque_panics {
            outs.push((st.clone(), Outcome::Panic("caller-supplied function".into())));
        }
        let vals = vals.to_vec();
        let r = self.simple(st, |e, s| {
            // the receiver: by value, or behind a reference
            let (p, o) = match &vals[0] {
                Val::Ref(p) => (Some(p.clone()), s.read_ptr(p)?),
                v => (None, v.clone()),
            };
            let Val::Opq(o) = o else { return fail("opaque function") };
            let Opq::Fun { id, calls, log, ret, out } = &*o else { return fail("opaque function") };
            let Val::Agg(_, targs) = &vals[1] else { return fail("opaque function arguments") };
            let mut log = *log;
            let a0 = targs.first().cloned().unwrap_or(Val::Top);
            let seen = match &a0 {
                Val::Ref(q) => s.read_ptr(q)?,
                v => v.clone(),
            };
            log = s.write_val(log, calls, seen);
            if *out != u32::MAX {
                // &mut T argument: store the next output value
                if let Val::Ref(q) = &a0 {
                    let w = s.elem_bits(*out, calls, cfg_b(), false)?;
                    let (_, tk, _) = arr_kind(*out);
                    s.write_ptr(q, Val::T(tk, IntV::W(bits::w_resize(&w, 64))))?;
                }
            }
            let rv = if dty.is_bool() {
                let c = s.norm(calls);
                Val::Bool(Cond::Bit(bits::var(BitVar::Sel { arr: *ret, idx: c, bit: 0 })))
            } else if dty.is_unit() {
                unit()
            } else if e.is_marker(dty) {
                let w = s.elem_bits(*ret, calls, cfg_b(), false)?;
                let (_, tk, _) = arr_kind(*ret);
                Val::T(tk, IntV::W(bits::w_resize(&w, 64)))
            } else {
                return fail("result of an opaque function");
            };
            let o2 = Opq::Fun { id: *id, calls: s.norm(&calls.addc(1)), log, ret: *ret, out: *out };
            if let Some(p) = p {
                s.write_ptr(&p, Val::Opq(Rc::new(o2)))?;
            }
            Ok(rv)
        });
        outs.extend(r);
        self.record_split_outs(base_splits, sp, &mut outs);
        outs
    }
    fn opaque_next(&mut self, st: State<'tcx>, it: &Val) -> Outs<'tcx> {
        let base_splits = st.splits.len();
        let sp = mk_split(&st, 2);
        let mut outs = vec![];
        if self.opaque_panics {
            outs.push((st.clone(), Outcome::Panic("caller-supplied iterator".into())));
        }
        let it = it.clone();
        let r = self.simple(st, |_, s| {
            let Val::Ref(p) = &it else { return fail("iterator") };
            let Val::Opq(o) = s.read_ptr(p)? else { return fail("iterator") };
            let Opq::Iter { id, pos, total, seq, tk, wild } = &*o else { return fail("iterator") };
            if s.want(&Cond::lt(pos, total))? {
                let item = if crate::sets::on() {
                    IntV::L(crate::sets::user_item(s, *seq, &s.norm(pos)))
                } else {
                    IntV::W(bits::w_resize(&s.elem_bits(*seq, pos, cfg_b(), false)?, 64))
                };
                let o2 = Opq::Iter { id: *id, pos: s.norm(&pos.addc(1)), total: total.clone(), seq: *seq, tk: *tk, wild: *wild };
                s.write_ptr(p, Val::Opq(Rc::new(o2)))?;
                Ok(some(Val::T(*tk, item)))
            } else {
                Ok(none())
            }
        });
        outs.extend(r);
        self.record_split_outs(base_splits, sp, &mut outs);
        outs
    }

    // ------------------------------------------------------------ containers
    pub fn akind(&mut self, t: Ty<'tcx>) -> (AKind, u32) {
        if self.is_marker(t) {
            let k = self.tkey(t);
            return (AKind::Vals, k);
        }
        if let Some((w, false)) = ity(t) {
            if w == cfg_s() && matches!(t.kind(), ty::Uint(u) if u.bit_width().is_some()) {
                let b = cfg_b();
                return (AKind::Blocks { s: w as u16, n: (w / b) as u16, b: b as u16 }, 0);
            }
        }
        (AKind::Gen, 0)
    }
    fn vec_elem(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        // Vec<T>, SmallVec<[T; N]>
        match t.kind() {
            ty::Adt(d, a) => {
                let n = self.tcx.item_name(d.did());
                match n.as_str() {
                    "Vec" => Some(a.type_at(0)),
                    "SmallVec" => match a.type_at(0).kind() {
                        ty::Array(t, _) => Some(*t),
                        _ => None,
                    },
                    "IntoIter" | "Iter" | "IterMut" => a.types().next(),
                    _ => None,
                }
            }
            ty::Slice(t) => Some(*t),
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => self.vec_elem(*t),
            _ => None,
        }
    }
    pub fn new_vec(&mut self, elem: Ty<'tcx>) -> VecObj {
        let (kind, tk) = self.akind(elem);
        VecObj { kind, len: Lin::zero(), cap: Lin::zero(), arr: arr_empty(kind, tk), tk }
    }
    /// The container behind a reference.
    pub fn the_vec(&mut self, s: &mut State<'tcx>, v: &Val) -> R<(Rc<Ptr>, VecObj)> {
        let Val::Ref(p) = v else { return fail(format!("container reference {}", short(v))) };
        match s.read_ptr(p)? {
            Val::Vec(o) => Ok((p.clone(), (*o).clone())),
            o => fail(format!("container {}", short(&o))),
        }
    }
    fn put_vec(&mut self, s: &mut State<'tcx>, p: &Ptr, o: VecObj) -> R<()> {
        s.write_ptr(p, Val::Vec(Rc::new(o)))
    }
    /// growth check for the storage-proportionality property
    fn grown(&mut self, s: &State<'tcx>, o: &VecObj, new_len: &Lin) {
        if !matches!(o.kind, AKind::Blocks { .. }) {
            return;
        }
        if let Some(c) = self.c11.clone() {
            // new_len <= old_len, or N*(new_len - 2) < max_elems, i.e. new_len <= ceil(max/N) + 1
            let bound = c.max_elems.sub(&new_len.addc(-2).scale(Rat::int(c.n))).addc(-1);
            let keep = Cond::Ge(o.len.sub(new_len)).simp();
            let cond = Cond::or(&keep, &Cond::Ge(bound).simp());
            self.obligation(s, "C11", "storage grows beyond what the elements need", &cond);
        }
    }
    fn vec_push(&mut self, s: &mut State<'tcx>, p: &Ptr, mut o: VecObj, v: Val) -> R<()> {
        let at = o.len.clone();
        s.vec_write(&mut o, &at, v)?;
        let nl = s.norm(&at.addc(1));
        self.grown(s, &o, &nl);
        o.len = nl;
        self.put_vec(s, p, o)
    }
    fn vec_truncate(&mut self, s: &mut State<'tcx>, p: &Ptr, mut o: VecObj, n: &Lin) -> R<()> {
        if s.want(&Cond::lt(n, &o.len))? {
            o.len = s.norm(n);
            self.put_vec(s, p, o)?;
        }
        Ok(())
    }
    fn vec_resize(&mut self, s: &mut State<'tcx>, p: &Ptr, mut o: VecObj, n: &Lin, v: Val) -> R<()> {
        if s.want(&Cond::lt(&o.len, n))? {
            let k = s.norm(&n.sub(&o.len));
            let nl = s.norm(n);
            self.grown(s, &o, &nl);
            o.arr = self.fill_layer(s, &o, &o.len.clone(), &k, v)?;
            o.len = nl;
        } else {
            o.len = s.norm(n);
        }
        self.put_vec(s, p, o)
    }
    fn fill_layer(&mut self, s: &mut State<'tcx>, o: &VecObj, at: &Lin, n: &Lin, v: Val) -> R<u32> {
        let t = fill_var();
        let at = at.add(&Lin::var(t));
        Ok(match o.kind {
            AKind::Blocks { s: w, .. } => {
                let Some(wd) = to_word(&v, w as usize) else { return fail("fill value") };
                let _ = &s;
                arr_layer(o.arr, Layer::RangeB { t, n: n.clone(), at, word: wd })
            }
            _ => arr_layer(o.arr, Layer::RangeE { t, n: n.clone(), at, val: v }),
        })
    }
    /// The capacity of a vector: `cap` is a lower bound, unless it already is
    /// the answer to an earlier question (or the capacity it came with).
    fn capacity_of(&mut self, s: &mut State<'tcx>, v: &Val, inline: Option<i128>) -> R<Lin> {
        let (p, mut o) = self.the_vec(s, v)?;
        if let Some(n) = inline {
            let known = matches!(&o.cap.t[..], [(v, q)] if o.cap.c.n == 0 && *q == Rat::int(1) && {
                let n = crate::lin::var_name(*v);
                n == "capacity" || n.ends_with(".cap") || n.ends_with(".cap'")
            });
            if known && s.want(&Cond::le(&o.len, &o.cap))? {
                s.add_con(o.cap.addc(-n), true);
                return Ok(o.cap);
            }
        }
        let c = Lin::var(new_var("capacity", false));
        s.add_con(c.sub(&o.cap), true);
        s.add_con(c.sub(&o.len), true);
        s.add_con(c.neg().addc(MAXLEN), true);
        if let Some(n) = inline {
            s.add_con(c.addc(-n), true);
            o.cap = c.clone();
            self.put_vec(s, &p, o)?;
        }
        Ok(c)
    }
    fn reserve(&mut self, s: &mut State<'tcx>, o: &mut VecObj, add: &Lin) -> R<bool> {
        let want = s.norm(&o.len.add(add));
        // capacity overflow panics
        if !s.want(&Cond::Ge(want.neg().addc(MAXLEN)).simp())? {
            return Ok(false);
        }
        if !s.entails_ge(&o.cap.sub(&want)) {
            if !s.entails_ge(&want.sub(&o.cap)) {
                // either bound is valid; keep the requested one
            }
            o.cap = want;
        }
        Ok(true)
    }
    fn slice_of(&mut self, s: &mut State<'tcx>, v: &Val) -> R<(Rc<Ptr>, Lin, Lin)> {
        match v {
            Val::Slice { ptr, start, len } => Ok((ptr.clone(), start.clone(), len.clone())),
            Val::Ref(p) => match s.read_ptr(p)? {
                Val::Vec(o) => Ok((p.clone(), Lin::zero(), o.len.clone())),
                Val::Slice { ptr, start, len } => Ok((ptr, start, len)),
                Val::Agg(_, f) => Ok((p.clone(), Lin::zero(), Lin::int(f.len() as i128))),
                Val::Ref(q) => self.slice_of(s, &Val::Ref(q)),
                o => fail(format!("slice of {}", short(&o))),
            },
            o => fail(format!("slice {}", short(o))),
        }
    }
    /// Resolve a slice index: Ok(Err(())) means out of bounds.
    fn slice_index(&mut self, s: &mut State<'tcx>, base: (Rc<Ptr>, Lin, Lin), idx: &Val, ity_: Ty<'tcx>, checked: bool) -> R<Result<Val, ()>> {
        let (p, start, len) = base;
        if let Some(i) = idx.lin() {
            if checked {
                if !s.want(&Cond::lt(&i, &len))? {
                    return Ok(Err(()));
                }
            } else {
                self.obligation(s, "C01", "unchecked access inside the initialised storage", &Cond::lt(&i, &len));
                let st2 = s.clone().assume(&Cond::lt(&i, &len));
                if st2.len() == 1 {
                    *s = st2.into_iter().next().unwrap();
                }
            }
            return Ok(Ok(idx_proj(&p, s.norm(&start.add(&i)))));
        }
        let h = self.head_of(ity_);
        let g = |k: usize| -> R<Lin> {
            match idx {
                Val::Agg(_, f) => f.get(k).and_then(|v| v.lin()).ok_or(Need::Fail("range".into())),
                _ => fail("range index"),
            }
        };
        let (a, b) = match h.as_str() {
            "Range" => (g(0)?, g(1)?),
            "RangeFrom" => (g(0)?, len.clone()),
            "RangeTo" => (Lin::zero(), g(0)?),
            "RangeFull" => (Lin::zero(), len.clone()),
            "RangeInclusive" => (g(0)?, g(1)?.addc(1)),
            "RangeToInclusive" => (Lin::zero(), g(0)?.addc(1)),
            _ => return fail(format!("index by {}", h)),
        };
        let ok = Cond::and(&Cond::le(&a, &b), &Cond::le(&b, &len));
        if checked {
            if !s.want(&Cond::le(&a, &b))? || !s.want(&Cond::le(&b, &len))? {
                return Ok(Err(()));
            }
        } else {
            self.obligation(s, "C01", "unchecked access inside the initialised storage", &ok);
        }
        Ok(Ok(Val::Slice { ptr: p, start: s.norm(&start.add(&a)), len: s.norm(&b.sub(&a)) }))
    }

    /// Models of library functions. None: interpret the body.
    fn native(&mut self, st: State<'tcx>, info: &Info, inst: Instance<'tcx>, vals: &[Val], argtys: &[Ty<'tcx>], dty: Ty<'tcx>) -> Option<Outs<'tcx>> {
        if matches!(info.krate.as_str(), "bit_set" | "bit_vec") {
            if let Some(o) = crate::sets::native(self, st.clone(), info, inst, vals, argtys, dty) {
                return Some(o);
            }
        }
        if matches!(info.head.as_str(), "Formatter" | "DebugList" | "DebugSet") || info.tr == "Debug" {
            if let Some(o) = crate::fmts::native(self, st.clone(), info, inst, vals, argtys) {
                return Some(o);
            }
        }
        let v = |i: usize| vals[i].clone();
        let (head, tr, name) = (info.head.as_str(), info.tr.as_str(), info.name.as_str());
        let is_vec = head == "Vec" || head == "SmallVec";
        let elem = inst.args.types().next().and_then(|t| match t.kind() {
            ty::Array(e, _) if head == "SmallVec" => Some(*e),
            _ => Some(t),
        });
        if is_vec {
            let elem = elem?;
            // elements a SmallVec keeps inside
            let inline = match inst.args.types().next().map(|t| t.kind()) {
                Some(ty::Array(_, n)) if head == "SmallVec" => n.try_to_target_usize(self.tcx).map(|n| n as i128),
                _ => None,
            };
            return Some(match (tr, name) {
                ("", "new") | ("Default", "default") => {
                    let o = self.new_vec(elem);
                    ret(st, Val::Vec(Rc::new(o)))
                }
                ("", "with_capacity") => {
                    let mut o = self.new_vec(elem);
                    self.multi(st, |_, s| {
                        let Some(n) = vals[0].lin() else { return fail("capacity") };
                        if !s.want(&Cond::Ge(n.neg().addc(MAXLEN)).simp())? {
                            return Ok(Outcome::Panic("capacity overflow".into()));
                        }
                        o.cap = s.norm(&n);
                        Ok(Outcome::Ret(Val::Vec(Rc::new(o.clone()))))
                    })
                }
                ("", "len") => self.simple(st, |e, s| Ok(int(e.the_vec(s, &vals[0])?.1.len))),
                ("", "is_empty") => self.simple(st, |e, s| Ok(Val::Bool(Cond::eq(&e.the_vec(s, &vals[0])?.1.len, &Lin::zero())))),
                ("", "capacity") => self.simple(st, |e, s| {
                    let c = e.capacity_of(s, &vals[0], inline)?;
                    Ok(int(c))
                }),
                ("", "inline_size") if inline.is_some() => ret(st, int(Lin::int(inline.unwrap()))),
                ("", "spilled") if inline.is_some() => self.simple(st, |e, s| {
                    let c = e.capacity_of(s, &vals[0], inline)?;
                    Ok(Val::Bool(Cond::lt(&Lin::int(inline.unwrap()), &c)))
                }),
                ("", "push") => self.simple(st, |e, s| {
                    let (p, o) = e.the_vec(s, &vals[0])?;
                    e.vec_push(s, &p, o, vals[1].clone())?;
                    Ok(unit())
                }),
                ("", "pop") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    if s.want(&Cond::Ge(o.len.addc(-1)).simp())? {
                        o.len = s.norm(&o.len.addc(-1));
                        let x = s.vec_read(&o, &o.len.clone())?;
                        e.put_vec(s, &p, o)?;
                        Ok(some(x))
                    } else {
                        Ok(none())
                    }
                }),
                ("", "truncate") => self.simple(st, |e, s| {
                    let (p, o) = e.the_vec(s, &vals[0])?;
                    let Some(n) = vals[1].lin() else { return fail("truncate") };
                    e.vec_truncate(s, &p, o, &n)?;
                    Ok(unit())
                }),
                ("", "clear") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    o.len = Lin::zero();
                    e.put_vec(s, &p, o)?;
                    Ok(unit())
                }),
                ("", "resize") => self.multi(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let Some(n) = vals[1].lin() else { return fail("resize") };
                    if s.want(&Cond::lt(&o.len, &n))? {
                        let add = n.sub(&o.len);
                        if !e.reserve(s, &mut o, &add)? {
                            return Ok(Outcome::Panic("capacity overflow".into()));
                        }
                    }
                    e.vec_resize(s, &p, o, &n, vals[2].clone())?;
                    Ok(Outcome::Ret(unit()))
                }),
                ("", "reserve") | ("", "reserve_exact") => self.multi(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let Some(n) = vals[1].lin() else { return fail("reserve") };
                    if !e.reserve(s, &mut o, &n)? {
                        return Ok(Outcome::Panic("capacity overflow".into()));
                    }
                    e.put_vec(s, &p, o)?;
                    Ok(Outcome::Ret(unit()))
                }),
                ("", "shrink_to_fit") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    o.cap = o.len.clone();
                    e.put_vec(s, &p, o)?;
                    Ok(unit())
                }),
                ("", "set_len") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let Some(n) = vals[1].lin() else { return fail("set_len") };
                    e.obligation(s, "C01", "storage length set within the initialised part", &Cond::le(&n, &o.len));
                    e.grown(s, &o, &n);
                    o.len = s.norm(&n);
                    e.put_vec(s, &p, o)?;
                    Ok(unit())
                }),
                ("", "append") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let (q, mut r) = e.the_vec(s, &vals[1])?;
                    let nl = s.norm(&o.len.add(&r.len));
                    e.grown(s, &o, &nl);
                    o.arr = arr_layer(o.arr, Layer::Copy { at: o.len.clone(), n: r.len.clone(), src: r.arr, off: Lin::zero() });
                    o.len = nl;
                    r.len = Lin::zero();
                    e.put_vec(s, &p, o)?;
                    e.put_vec(s, &q, r)?;
                    Ok(unit())
                }),
                ("", "extend_from_slice") => self.simple(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let (q, start, len) = e.slice_of(s, &vals[1])?;
                    let Val::Vec(r) = s.read_ptr(&q)? else { return fail("extend_from_slice") };
                    let nl = s.norm(&o.len.add(&len));
                    e.grown(s, &o, &nl);
                    o.arr = arr_layer(o.arr, Layer::Copy { at: o.len.clone(), n: len, src: r.arr, off: start });
                    o.len = nl;
                    e.put_vec(s, &p, o)?;
                    Ok(unit())
                }),
                ("", "split_off") => self.multi(st, |e, s| {
                    let (p, mut o) = e.the_vec(s, &vals[0])?;
                    let Some(at) = vals[1].lin() else { return fail("split_off") };
                    if !s.want(&Cond::le(&at, &o.len))? {
                        return Ok(Outcome::Panic("split_off out of bounds".into()));
                    }
                    let mut r = e.new_vec(elem);
                    r.len = s.norm(&o.len.sub(&at));
                    r.arr = arr_layer(r.arr, Layer::Copy { at: Lin::zero(), n: r.len.clone(), src: o.arr, off: at.clone() });
                    o.len = s.norm(&at);
                    e.put_vec(s, &p, o)?;
                    Ok(Outcome::Ret(Val::Vec(Rc::new(r))))
                }),
                ("", "as_slice") | ("", "as_mut_slice") | ("Deref", "deref") | ("DerefMut", "deref_mut") | ("AsRef", "as_ref") | ("AsMut", "as_mut") | ("Borrow", "borrow") => {
                    self.simple(st, |e, s| {
                        let (p, o) = e.the_vec(s, &vals[0])?;
                        Ok(Val::Slice { ptr: p, start: Lin::zero(), len: o.len })
                    })
                }
                ("", "as_ptr") | ("", "as_mut_ptr") => self.simple(st, |e, s| {
                    let (p, _) = e.the_vec(s, &vals[0])?;
                    Ok(idx_proj(&p, Lin::zero()))
                }),
                ("Index", "index") | ("IndexMut", "index_mut") => {
                    let it = argtys[1];
                    self.multi(st, |e, s| {
                        let b = e.slice_of(s, &vals[0])?;
                        Ok(match e.slice_index(s, b, &vals[1], it, true)? {
                            Ok(v) => Outcome::Ret(v),
                            Err(()) => Outcome::Panic("index out of bounds".into()),
                        })
                    })
                }
                ("Clone", "clone") => self.simple(st, |e, s| {
                    let (_, mut o) = e.the_vec(s, &vals[0])?;
                    o.cap = o.len.clone();
                    Ok(Val::Vec(Rc::new(o)))
                }),
                ("IntoIterator", "into_iter") => match &vals[0] {
                    Val::Vec(_) => ret(st, agg(0, vec![v(0), int(Lin::zero())])),
                    _ => self.simple(st, |e, s| {
                        let (p, a, l) = e.slice_of(s, &vals[0])?;
                        Ok(Val::Slice { ptr: p, start: a, len: l })
                    }),
                },
                ("Extend", "extend") => {
                    let model = if is_ref(inst.args.type_at(1)) || is_ref_item(inst, self) { "vec_extend_ref" } else { "vec_extend" };
                    let m = if head == "SmallVec" { format!("small_{}", model) } else { model.to_string() };
                    let i = inst.args.types().last().unwrap();
                    let args = [inst.args.type_at(0).into(), i.into()];
                    self.call_model(st, &m, &args, vals.to_vec())
                }
                ("FromIterator", "from_iter") => {
                    let i = inst.args.types().last().unwrap();
                    let args = [elem.into(), i.into()];
                    if head == "SmallVec" {
                        return None;
                    }
                    self.call_model(st, "vec_collect", &args, vals.to_vec())
                }
                ("From", "from") => self.simple(st, |e, s| match &vals[0] {
                    Val::Vec(_) => Ok(vals[0].clone()),
                    x => {
                        let (p, start, len) = e.slice_of(s, x)?;
                        e.copy_slice(s, &p, &start, &len, elem)
                    }
                }),
                ("", "swap_remove") | ("", "remove") | ("", "insert") | ("", "extend_from_within") | ("", "dedup") | ("", "retain") | ("", "drain") => {
                    return Some(self.unknown_call(st, &format!("{}::{}", head, name), vals.to_vec(), dty))
                }
                ("PartialEq", "eq") | ("PartialEq", "ne") => return Some(self.slice_eq(st, vals, name == "eq", dty)),
                _ => return None,
            });
        }
        if head == "alloc::vec" || head == "std::vec" {
            if name == "from_elem" {
                let elem = inst.args.type_at(0);
                let mut o = self.new_vec(elem);
                return Some(self.multi(st, |e, s| {
                    let Some(n) = vals[1].lin() else { return fail("from_elem") };
                    if !s.want(&Cond::Ge(n.neg().addc(MAXLEN)).simp())? {
                        return Ok(Outcome::Panic("capacity overflow".into()));
                    }
                    let mut x = o.clone();
                    e.grown(s, &x, &n);
                    x.arr = e.fill_layer(s, &x, &Lin::zero(), &n, vals[0].clone())?;
                    x.len = s.norm(&n);
                    x.cap = x.len.clone();
                    Ok(Outcome::Ret(Val::Vec(Rc::new(x))))
                }));
            }
            let _ = &mut ();
        }
        if (head == "&[T]" || head == "&mut [T]") && (tr, name) == ("IntoIterator", "into_iter") {
            return Some(self.simple(st, |e, s| {
                let (p, a, l) = e.slice_of(s, &vals[0])?;
                Ok(Val::Slice { ptr: p, start: a, len: l })
            }));
        }
        if head == "[T]" {
            return Some(match (tr, name) {
                ("PartialEq", "eq") | ("PartialEq", "ne") => self.slice_eq(st, vals, name == "eq", dty),
                ("", "len") => self.simple(st, |e, s| Ok(int(e.slice_of(s, &vals[0])?.2))),
                ("", "is_empty") => self.simple(st, |e, s| Ok(Val::Bool(Cond::eq(&e.slice_of(s, &vals[0])?.2, &Lin::zero())))),
                ("", "get_unchecked") | ("", "get_unchecked_mut") => {
                    let it = argtys[1];
                    self.simple(st, |e, s| {
                        let b = e.slice_of(s, &vals[0])?;
                        match e.slice_index(s, b, &vals[1], it, false)? {
                            Ok(v) => Ok(v),
                            Err(()) => fail("index"),
                        }
                    })
                }
                ("", "get") | ("", "get_mut") => {
                    let it = argtys[1];
                    self.simple(st, |e, s| {
                        let b = e.slice_of(s, &vals[0])?;
                        Ok(match e.slice_index(s, b, &vals[1], it, true)? {
                            Ok(v) => some(v),
                            Err(()) => none(),
                        })
                    })
                }
                ("Index", "index") | ("IndexMut", "index_mut") => {
                    let it = argtys[1];
                    self.multi(st, |e, s| {
                        let b = e.slice_of(s, &vals[0])?;
                        Ok(match e.slice_index(s, b, &vals[1], it, true)? {
                            Ok(v) => Outcome::Ret(v),
                            Err(()) => Outcome::Panic("index out of bounds".into()),
                        })
                    })
                }
                ("", "iter") | ("", "iter_mut") | ("IntoIterator", "into_iter") | ("", "as_ref") => self.simple(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    Ok(Val::Slice { ptr: p, start: a, len: l })
                }),
                ("", "as_ptr") | ("", "as_mut_ptr") => self.simple(st, |e, s| {
                    let (p, a, _) = e.slice_of(s, &vals[0])?;
                    Ok(idx_proj(&p, a))
                }),
                ("", "first") | ("", "last") | ("", "first_mut") | ("", "last_mut") => self.simple(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    if s.want(&Cond::Ge(l.addc(-1)).simp())? {
                        let i = if name.starts_with("first") { a } else { a.add(&l).addc(-1) };
                        Ok(some(idx_proj(&p, s.norm(&i))))
                    } else {
                        Ok(none())
                    }
                }),
                ("", "split_first") | ("", "split_last") | ("", "split_first_mut") | ("", "split_last_mut") => self.simple(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    if s.want(&Cond::Ge(l.addc(-1)).simp())? {
                        let front = name.starts_with("split_first");
                        let i = if front { a.clone() } else { a.add(&l).addc(-1) };
                        let x = idx_proj(&p, s.norm(&i));
                        let start = if front { s.norm(&a.addc(1)) } else { a };
                        Ok(some(agg(0, vec![x, Val::Slice { ptr: p, start, len: s.norm(&l.addc(-1)) }])))
                    } else {
                        Ok(none())
                    }
                }),
                ("", "swap") => self.multi(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    let (Some(i), Some(j)) = (vals[1].lin(), vals[2].lin()) else { return fail("swap") };
                    if !s.want(&Cond::lt(&i, &l))? || !s.want(&Cond::lt(&j, &l))? {
                        return Ok(Outcome::Panic("index out of bounds".into()));
                    }
                    let (Val::Ref(x), Val::Ref(y)) = (idx_proj(&p, a.add(&i)), idx_proj(&p, a.add(&j))) else { unreachable!() };
                    let (vx, vy) = (s.read_ptr(&x)?, s.read_ptr(&y)?);
                    s.write_ptr(&x, vy)?;
                    s.write_ptr(&y, vx)?;
                    Ok(Outcome::Ret(unit()))
                }),
                ("", "fill") => self.simple(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    let Val::Vec(o) = s.read_ptr(&p)? else { return fail("fill") };
                    let mut o = (*o).clone();
                    o.arr = e.fill_layer(s, &o, &a, &l, vals[1].clone())?;
                    e.put_vec(s, &p, o)?;
                    Ok(unit())
                }),
                ("", "copy_from_slice") | ("", "clone_from_slice") => self.multi(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    let (q, b, m) = e.slice_of(s, &vals[1])?;
                    if !s.want(&Cond::eq(&l, &m))? {
                        return Ok(Outcome::Panic("slice lengths differ".into()));
                    }
                    let Val::Vec(o) = s.read_ptr(&p)? else { return fail("copy") };
                    let Val::Vec(r) = s.read_ptr(&q)? else { return fail("copy") };
                    let mut o = (*o).clone();
                    o.arr = arr_layer(o.arr, Layer::Copy { at: a, n: l, src: r.arr, off: b });
                    e.put_vec(s, &p, o)?;
                    Ok(Outcome::Ret(unit()))
                }),
                ("", "split_at") | ("", "split_at_mut") => self.multi(st, |e, s| {
                    let (p, a, l) = e.slice_of(s, &vals[0])?;
                    let Some(m) = vals[1].lin() else { return fail("split_at") };
                    if !s.want(&Cond::le(&m, &l))? {
                        return Ok(Outcome::Panic("split_at".into()));
                    }
                    let x = Val::Slice { ptr: p.clone(), start: a.clone(), len: s.norm(&m) };
                    let y = Val::Slice { ptr: p, start: s.norm(&a.add(&m)), len: s.norm(&l.sub(&m)) };
                    Ok(Outcome::Ret(agg(0, vec![x, y])))
                }),
                ("", "to_vec") | ("ToOwned", "to_owned") | ("", "into_vec") => {
                    let elem = elem?;
                    self.simple(st, |e, s| {
                        let (p, a, l) = e.slice_of(s, &vals[0])?;
                        e.copy_slice(s, &p, &a, &l, elem)
                    })
                }
                _ => return None,
            });
        }
        // iterators over slices
        let slice_iter = (head == "Iter" || head == "IterMut") && info.krate == "core" && vals.first().map(|x| self.is_slice_iter(&st, x)).unwrap_or(false);
        if slice_iter {
            match (tr, name) {
                ("Iterator", "next") | ("DoubleEndedIterator", "next_back") | ("Iterator", "nth") => {
                    return Some(self.simple(st, |_, s| {
                        let Val::Ref(r) = &vals[0] else { return fail("slice iterator") };
                        let Val::Slice { ptr, start, len } = s.read_ptr(r)? else { return fail("slice iterator") };
                        let skip = if name == "nth" { vals[1].lin().ok_or(Need::Fail("nth".into()))? } else { Lin::zero() };
                        if s.want(&Cond::lt(&skip, &len))? {
                            let (i, ns) = if name == "next_back" {
                                (start.add(&len).addc(-1), start.clone())
                            } else {
                                (start.add(&skip), start.add(&skip).addc(1))
                            };
                            let nl = s.norm(&len.sub(&skip).addc(-1));
                            let ns = s.norm(&ns);
                            s.write_ptr(r, Val::Slice { ptr: ptr.clone(), start: ns, len: nl })?;
                            Ok(some(idx_proj(&ptr, s.norm(&i))))
                        } else {
                            let e = s.norm(&start.add(&len));
                            s.write_ptr(r, Val::Slice { ptr, start: e, len: Lin::zero() })?;
                            Ok(none())
                        }
                    }))
                }
                ("Iterator", "size_hint") => {
                    return Some(self.simple(st, |e, s| {
                        let l = e.slice_of(s, &vals[0])?.2;
                        Ok(agg(0, vec![int(l.clone()), some(int(l))]))
                    }))
                }
                ("ExactSizeIterator", "len") | ("Iterator", "count") | ("ExactSizeIterator", "is_empty") => {
                    return Some(self.simple(st, |e, s| {
                        let l = e.slice_of(s, &vals[0])?.2;
                        Ok(if name == "is_empty" { Val::Bool(Cond::eq(&l, &Lin::zero())) } else { int(l) })
                    }))
                }
                ("Clone", "clone") => {
                    return Some(self.simple(st, |_, s| match &vals[0] {
                        Val::Ref(p) => s.read_ptr(p),
                        _ => fail("clone"),
                    }))
                }
                ("Iterator", "fold") | ("Iterator", "for_each") | ("Iterator", "all") | ("Iterator", "any") | ("Iterator", "position") | ("Iterator", "find") => {
                    let m = format!("it_{}", name);
                    let self_ty = if name == "fold" || name == "for_each" { argtys[0] } else { deref_ty(argtys[0]) };
                    let mut a: Vec<ty::GenericArg<'tcx>> = vec![self_ty.into()];
                    a.extend(inst.args.types().skip(1).map(|t| ty::GenericArg::from(t)));
                    return Some(self.call_model(st, &m, &a, vals.to_vec()));
                }
                _ => return None,
            }
        }
        if head == "IntoIter" && info.krate == "alloc" {
            match (tr, name) {
                ("Iterator", "next") | ("DoubleEndedIterator", "next_back") => {
                    return Some(self.simple(st, |_, s| {
                        let Val::Ref(r) = &vals[0] else { return fail("vec iterator") };
                        let Val::Agg(_, f) = s.read_ptr(r)? else { return fail("vec iterator") };
                        let (Val::Vec(o), Some(pos)) = (&f[0], f[1].lin()) else { return fail("vec iterator") };
                        if s.want(&Cond::lt(&pos, &o.len))? {
                            if name == "next" {
                                let x = s.vec_read(o, &pos)?;
                                s.write_ptr(r, agg(0, vec![f[0].clone(), int(s.norm(&pos.addc(1)))]))?;
                                Ok(some(x))
                            } else {
                                let mut o = (**o).clone();
                                o.len = s.norm(&o.len.addc(-1));
                                let x = s.vec_read(&o, &o.len.clone())?;
                                s.write_ptr(r, agg(0, vec![Val::Vec(Rc::new(o)), f[1].clone()]))?;
                                Ok(some(x))
                            }
                        } else {
                            Ok(none())
                        }
                    }))
                }
                ("Iterator", "size_hint") | ("Iterator", "count") | ("ExactSizeIterator", "len") => {
                    return Some(self.simple(st, |_, s| {
                        let fv = match &vals[0] {
                            Val::Ref(r) => s.read_ptr(r)?,
                            v => v.clone(),
                        };
                        let Val::Agg(_, f) = fv else { return fail("vec iterator") };
                        let (Val::Vec(o), Some(pos)) = (&f[0], f[1].lin()) else { return fail("vec iterator") };
                        let l = s.norm(&o.len.sub(&pos));
                        Ok(if name == "size_hint" { agg(0, vec![int(l.clone()), some(int(l))]) } else { int(l) })
                    }))
                }
                ("Iterator", "fold") | ("Iterator", "for_each") => {
                    let mut a: Vec<ty::GenericArg<'tcx>> = vec![argtys[0].into()];
                    a.extend(inst.args.types().skip(if name == "fold" { 1 } else { 1 }).map(|t| ty::GenericArg::from(t)));
                    // generic arguments of the impl (element, allocator) come first
                    let own: Vec<ty::GenericArg<'tcx>> = method_args(self, inst);
                    let mut a2: Vec<ty::GenericArg<'tcx>> = vec![argtys[0].into()];
                    a2.extend(own);
                    let _ = a;
                    return Some(self.call_model(st, &format!("it_{}", name), &a2, vals.to_vec()));
                }
                _ => return None,
            }
        }
        if head == "*ptr" && matches!(name, "add" | "offset" | "sub" | "wrapping_add") {
            return Some(self.simple(st, |e, s| {
                let Val::Ref(p) = &vals[0] else { return fail("pointer arithmetic") };
                let Some(k) = vals[1].lin() else { return fail("pointer arithmetic") };
                let mut q = (**p).clone();
                let Some(PE::Idx(i)) = q.proj.pop() else { return fail("pointer arithmetic") };
                let ni = s.norm(&if name == "sub" { i.sub(&k) } else { i.add(&k) });
                if let Val::Vec(o) = s.read_ptr(&q)? {
                    e.obligation(s, "C01", "pointer stays inside the initialised storage", &Cond::and(&Cond::Ge(ni.clone()).simp(), &Cond::le(&ni, &o.len)));
                }
                q.proj.push(PE::Idx(ni));
                Ok(Val::Ref(Rc::new(q)))
            }));
        }
        None
    }
    fn is_slice_iter(&self, st: &State<'tcx>, v: &Val) -> bool {
        match v {
            Val::Slice { .. } => true,
            Val::Ref(p) => matches!(st.clone().read_ptr(p), Ok(Val::Slice { .. })),
            _ => false,
        }
    }
    /// Equality of two slices of integers: equal at every position, or different lengths, or
    /// different at some position.
    fn slice_eq(&mut self, st: State<'tcx>, vals: &[Val], positive: bool, dty: Ty<'tcx>) -> Outs<'tcx> {
        let mut c = st.clone();
        let ints = [0, 1].iter().all(|&i| match self.slice_of(&mut c, &vals[i]) {
            Ok((p, ..)) => matches!(c.read_ptr(&p), Ok(Val::Vec(o)) if !matches!(o.kind, AKind::Vals | AKind::Gen)),
            Err(_) => false,
        });
        if !ints {
            return self.unknown_call(st, "slice == slice", vals.to_vec(), dty);
        }
        let mut outs = vec![];
        for way in 0..3 {
            outs.extend(self.simple(st.clone(), |e, s| {
                let (pa, sa, la) = e.slice_of(s, &vals[0])?;
                let (pb, sb, lb) = e.slice_of(s, &vals[1])?;
                let (Val::Vec(a), Val::Vec(b)) = (s.read_ptr(&pa)?, s.read_ptr(&pb)?) else { return fail("slices") };
                let same = s.want(&Cond::eq(&la, &lb))?;
                let stop = |s: &mut State<'tcx>| {
                    s.add_con(Lin::int(-1), false);
                };
                let mut at = |s: &mut State<'tcx>, k: &Lin| -> R<bits::Bdd> {
                    let x = s.vec_read(&a, &sa.add(k))?;
                    let y = s.vec_read(&b, &sb.add(k))?;
                    let (Val::Int(x), Val::Int(y)) = (&x, &y) else { return fail("slice comparison") };
                    match int_eq(x, y)? {
                        Cond::Bit(c) => Ok(c),
                        Cond::B(true) => Ok(bits::T),
                        Cond::B(false) => Ok(bits::F),
                        _ => fail("slice comparison"),
                    }
                };
                let ans = match (way, same) {
                    (0, false) => false,
                    (1, true) => {
                        match la.as_int() {
                            Some(n) if n <= 8 => {
                                let mut g = bits::T;
                                for k in 0..n {
                                    g = bits::and(g, at(s, &Lin::int(k))?);
                                }
                                s.bitpc = bits::and(s.bitpc, g);
                            }
                            _ => {
                                let tau = new_var("at", false);
                                add_fact_of(tau, Lin::var(tau));
                                let cond = at(s, &Lin::var(tau))?;
                                Rc::make_mut(&mut s.foralls).push(Forall { t: tau, n: la.clone(), cond });
                            }
                        }
                        true
                    }
                    (2, true) => {
                        let k = Lin::var(new_var("differs_at", false));
                        s.add_con(k.clone(), true);
                        s.add_con(la.sub(&k).addc(-1), true);
                        let c = at(s, &k)?;
                        s.bitpc = bits::and(s.bitpc, bits::not(c));
                        false
                    }
                    _ => {
                        stop(s);
                        false
                    }
                };
                Ok(Val::Bool(Cond::B(ans == positive)))
            }));
        }
        outs.retain(|(s, _)| s.bitpc != bits::F && s.feasible());
        outs
    }
    pub fn copy_slice(&mut self, s: &mut State<'tcx>, p: &Rc<Ptr>, start: &Lin, len: &Lin, elem: Ty<'tcx>) -> R<Val> {
        let mut r = self.new_vec(elem);
        match s.read_ptr(p)? {
            Val::Vec(o) => {
                r.arr = arr_layer(r.arr, Layer::Copy { at: Lin::zero(), n: len.clone(), src: o.arr, off: start.clone() });
            }
            Val::Agg(_, f) => {
                for (i, x) in f.iter().enumerate() {
                    s.vec_write(&mut r, &Lin::int(i as i128), x.clone())?;
                }
            }
            _ => return fail("copy of a slice"),
        }
        r.len = len.clone();
        r.cap = len.clone();
        Ok(Val::Vec(Rc::new(r)))
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, st: State<'tcx>, name: &str, inst: Instance<'tcx>, vals: Vec<Val>, argtys: &[Ty<'tcx>], dty: Ty<'tcx>) -> Outs<'tcx> {
        use rustc_middle::mir::BinOp::*;
        let t0 = argtys.first().copied();
        let it = t0.and_then(ity);
        let rel = self.release;
        let bin = |e: &mut Self, st: State<'tcx>, op| e.simple(st, |_, s| binop(s, op, &vals[0], &vals[1], it, argtys.get(1).and_then(|t| ity(*t)), rel));
        match name {
            "unlikely" | "likely" | "black_box" | "must_use" | "caller_location" => ret(st, vals.first().cloned().unwrap_or(Val::Top)),
            "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => ret(st, unit()),
            "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" => ret(st, Val::Bool(Cond::B(false))),
            "add_with_overflow" => bin(self, st, AddWithOverflow),
            "sub_with_overflow" => bin(self, st, SubWithOverflow),
            "mul_with_overflow" => bin(self, st, MulWithOverflow),
            "unchecked_add" => bin(self, st, AddUnchecked),
            "unchecked_sub" => bin(self, st, SubUnchecked),
            "unchecked_mul" => bin(self, st, MulUnchecked),
            "unchecked_div" | "exact_div" => bin(self, st, Div),
            "unchecked_rem" => bin(self, st, Rem),
            "unchecked_shl" => bin(self, st, ShlUnchecked),
            "unchecked_shr" => bin(self, st, ShrUnchecked),
            "wrapping_add" => bin(self, st, Add),
            "wrapping_sub" => bin(self, st, Sub),
            "wrapping_mul" => {
                let save = self.release;
                let _ = save;
                self.simple(st, |_, s| binop(s, Mul, &vals[0], &vals[1], it, it, true))
            }
            "three_way_compare" => bin(self, st, Cmp),
            "integer_min" | "integer_max" => self.simple(st, |_, s| {
                let (Some(x), Some(y)) = (vals[0].lin(), vals[1].lin()) else { return fail("minimum of words") };
                let first = s.want(&Cond::le(&x, &y))? == (name == "integer_min");
                Ok(int(s.norm(if first { &x } else { &y })))
            }),
            "saturating_add" | "saturating_sub" => self.simple(st, |_, s| {
                let Some((w, sg)) = it else { return fail("saturating arithmetic") };
                let op = if name == "saturating_add" { AddWithOverflow } else { SubWithOverflow };
                let r = binop(s, op, &vals[0], &vals[1], it, it, rel)?;
                let Val::Agg(_, f) = &r else { return fail("saturating arithmetic") };
                let Val::Bool(c) = &f[1] else { return fail("saturating arithmetic") };
                if s.want(c)? {
                    if sg {
                        return fail("signed saturation");
                    }
                    Ok(if op == AddWithOverflow { mk_const(mask(w), w, false) } else { int(Lin::zero()) })
                } else {
                    Ok(f[0].clone())
                }
            }),
            "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "ctpop" => self.simple(st, |_, s| {
                let Some((w, _)) = it else { return fail("bit count") };
                if let Some(c) = as_const(&vals[0], w) {
                    let r = match name {
                        "ctpop" => c.count_ones() as usize,
                        "ctlz" | "ctlz_nonzero" => c.leading_zeros() as usize + w - 128,
                        _ => {
                            if c == 0 {
                                w
                            } else {
                                c.trailing_zeros() as usize
                            }
                        }
                    };
                    return Ok(int(Lin::int(r as i128)));
                }
                if let (Val::Int(IntV::L(l)), true) = (&vals[0], name.starts_with("ctlz")) {
                    // position of the highest bit of a bounded expression
                    for k in (0..w).rev() {
                        if s.want(&Cond::Ge(l.addc(-(1i128 << k))).simp())? {
                            return Ok(int(Lin::int((w - 1 - k) as i128)));
                        }
                    }
                    return Ok(int(Lin::int(w as i128)));
                }
                fail("bit count of a symbolic value")
            }),
            "rotate_left" | "rotate_right" => self.simple(st, |_, s| {
                let Some((w, _)) = it else { return fail("rotate") };
                let (Some(x), Some(k)) = (word_of(&vals[0], w), as_const(&vals[1], 32)) else { return fail("rotate") };
                let k = k as usize % w;
                let k = if name == "rotate_left" { k } else { (w - k) % w };
                let _ = &s;
                Ok(word((0..w).map(|i| x[(i + w - k) % w]).collect()))
            }),
            "size_of" | "size_of_val" | "align_of" | "min_align_of" | "needs_drop" => {
                let t = inst.args.types().next();
                let Some(t) = t else { return self.unknown_call(st, name, vals, dty) };
                match self.tcx.layout_of(self.env.as_query_input(t)) {
                    Ok(l) if name == "size_of" => ret(st, int(Lin::int(l.size.bytes() as i128))),
                    Ok(l) if name.contains("align") => ret(st, int(Lin::int(l.align.abi.bytes() as i128))),
                    Ok(_) if name == "needs_drop" => ret(st, Val::Bool(Cond::B(t.needs_drop(self.tcx, self.env)))),
                    _ => self.unknown_call(st, name, vals, dty),
                }
            }
            "transmute" | "transmute_unchecked" => {
                let (a, b) = (inst.args.type_at(0), inst.args.type_at(1));
                self.simple(st, |e, s| e.cast(s, rustc_middle::mir::CastKind::Transmute, vals[0].clone(), a, b))
            }
            "discriminant_value" => self.simple(st, |e, s| {
                let Val::Ref(p) = &vals[0] else { return fail("discriminant") };
                match s.read_ptr(p)? {
                    Val::Agg(k, _) => {
                        let t = inst.args.type_at(0);
                        if let ty::Adt(d, _) = t.kind() {
                            if d.is_enum() {
                                let dv = d.discriminant_for_variant(e.tcx, rustc_abi::VariantIdx::from_u32(k));
                                return Ok(int(Lin::int(dv.val as i128)));
                            }
                        }
                        Ok(int(Lin::zero()))
                    }
                    _ => fail("discriminant"),
                }
            }),
            "read_via_copy" | "volatile_load" => self.simple(st, |_, s| match &vals[0] {
                Val::Ref(p) => s.read_ptr(p),
                _ => fail("read through an unknown pointer"),
            }),
            "write_via_move" | "volatile_store" => self.simple(st, |_, s| match &vals[0] {
                Val::Ref(p) => {
                    s.write_ptr(p, vals[1].clone())?;
                    Ok(unit())
                }
                _ => fail("write through an unknown pointer"),
            }),
            "typed_swap_nonoverlapping" => self.simple(st, |_, s| match (&vals[0], &vals[1]) {
                (Val::Ref(p), Val::Ref(q)) => {
                    let (a, b) = (s.read_ptr(p)?, s.read_ptr(q)?);
                    s.write_ptr(p, b)?;
                    s.write_ptr(q, a)?;
                    Ok(unit())
                }
                _ => fail("swap through unknown pointers"),
            }),
            "select_unpredictable" => self.simple(st, |_, s| match &vals[0] {
                Val::Bool(c) => Ok(if s.want(c)? { vals[1].clone() } else { vals[2].clone() }),
                _ => fail("select"),
            }),
            "copy_nonoverlapping" | "copy" => self.simple(st, |e, s| {
                let (Val::Ref(p), Val::Ref(q), Some(n)) = (&vals[0], &vals[1], vals[2].lin()) else { return fail("copy") };
                if s.norm(&n).as_int() == Some(1) {
                    let v = s.read_ptr(p)?;
                    s.write_ptr(q, v)?;
                    return Ok(unit());
                }
                let (mut p, mut q) = ((**p).clone(), (**q).clone());
                let (Some(PE::Idx(i)), Some(PE::Idx(j))) = (p.proj.pop(), q.proj.pop()) else { return fail("copy") };
                let (Val::Vec(a), Val::Vec(b)) = (s.read_ptr(&p)?, s.read_ptr(&q)?) else { return fail("copy") };
                e.obligation(s, "C01", "copied range inside the initialised storage", &Cond::and(&Cond::le(&i.add(&n), &a.len), &Cond::le(&j.add(&n), &b.len)));
                let mut b = (*b).clone();
                b.arr = arr_layer(b.arr, Layer::Copy { at: j, n, src: a.arr, off: i });
                e.put_vec(s, &q, b)?;
                Ok(unit())
            }),
            "offset" | "arith_offset" => self.simple(st, |_, s| {
                let (Val::Ref(p), Some(k)) = (&vals[0], vals[1].lin()) else { return fail("offset") };
                let mut q = (**p).clone();
                let Some(PE::Idx(i)) = q.proj.pop() else { return fail("offset") };
                q.proj.push(PE::Idx(s.norm(&i.add(&k))));
                Ok(Val::Ref(Rc::new(q)))
            }),
            _ => self.unknown_call(st, &format!("intrinsic {}", name), vals, dty),
        }
    }
}

/// Largest admissible number of storage blocks (allocations beyond fail).
pub const MAXLEN: i128 = 1 << 48;

pub fn method_args<'tcx>(e: &Eng<'tcx>, inst: Instance<'tcx>) -> Vec<ty::GenericArg<'tcx>> {
    let g = e.tcx.generics_of(inst.def_id());
    inst.args[g.parent_count..].iter().copied().filter(|a| a.as_type().is_some()).collect()
}
fn is_ref(t: Ty<'_>) -> bool {
    matches!(t.kind(), ty::Ref(..))
}
fn deref_ty<'tcx>(t: Ty<'tcx>) -> Ty<'tcx> {
    t.builtin_deref(true).unwrap_or(t)
}
fn is_ref_item<'tcx>(inst: Instance<'tcx>, e: &Eng<'tcx>) -> bool {
    // impl Extend<&'a T> for Vec<T>
    match e.tcx.impl_of_assoc(inst.def_id()).and_then(|i| e.tcx.impl_opt_trait_ref(i)) {
        Some(t) => t.instantiate_identity().skip_norm_wip().args.types().nth(1).map(is_ref).unwrap_or(false),
        None => false,
    }
}
pub fn contains_vec(v: &Val) -> bool {
    match v {
        Val::Vec(_) => true,
        Val::Agg(_, f) => f.iter().any(contains_vec),
        _ => false,
    }
}
pub fn int_eq(a: &IntV, b: &IntV) -> R<Cond> {
    match (a, b) {
        (IntV::L(x), IntV::L(y)) => Ok(Cond::eq(x, y)),
        (IntV::W(x), IntV::W(y)) => {
            let n = x.len().max(y.len());
            Ok(Cond::bit(bits::w_eq(&bits::w_resize(x, n), &bits::w_resize(y, n))))
        }
        (IntV::L(l), IntV::W(w)) | (IntV::W(w), IntV::L(l)) => match l.as_int() {
            Some(c) if c >= 0 => Ok(Cond::bit(bits::w_eq(w, &bits::w_const(c as u128, w.len())))),
            _ => fail("comparison of an expression and a word"),
        },
    }
}
pub fn arr_empty(kind: AKind, tk: u32) -> u32 {
    thread_local! { static E: std::cell::RefCell<Vec<(AKind, u32, u32)>> = const { std::cell::RefCell::new(vec![]) }; }
    E.with(|e| {
        let mut e = e.borrow_mut();
        if let Some(x) = e.iter().find(|x| x.0 == kind && x.1 == tk) {
            return x.2;
        }
        let a = arr_base("uninit", kind, tk, true);
        e.push((kind, tk, a));
        a
    })
}
/// The bound symbol of fill layers.
pub fn fill_var() -> V {
    thread_local! { static T: std::cell::Cell<Option<V>> = const { std::cell::Cell::new(None) }; }
    T.with(|t| match t.get() {
        Some(v) => v,
        None => {
            let v = new_var("t", false);
            t.set(Some(v));
            v
        }
    })
}
#[allow(dead_code)]
fn unused(_: DefKind) {}
