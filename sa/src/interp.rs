//! Abstract interpretation of MIR: states, control flow, calls, merging.
use crate::bits::{self, Word};
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::mir::{self, BasicBlock, Body, ConstValue, Operand, Place, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

thread_local! {
    static CFG_B: Cell<usize> = const { Cell::new(0) };
    static CFG_S: Cell<usize> = const { Cell::new(0) };
}
/// Significant bits of an element of the current configuration.
pub fn cfg_b() -> usize {
    CFG_B.with(|c| c.get())
}
pub fn cfg_s() -> usize {
    CFG_S.with(|c| c.get())
}

pub struct LoopInfo {
    pub header: BasicBlock,
    pub blocks: BTreeSet<BasicBlock>,
    pub live: Vec<bool>,
}
pub struct BodyData<'tcx> {
    pub inst: Option<Instance<'tcx>>,
    pub body: Body<'tcx>,
    pub name: String,
    pub loops: HashMap<BasicBlock, LoopInfo>,
    pub borrowed: Vec<bool>,
}
/// Raised (as a panic) when an analysis exceeds its budget.
pub struct OutOfBudget(pub &'static str);
thread_local! {
    static DEADLINE: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) };
}
pub fn set_deadline(d: Option<std::time::Instant>) {
    DEADLINE.with(|x| x.set(d))
}
/// Stop the analysis of the operation when its time is used up.
pub fn tick() {
    DEADLINE.with(|x| {
        if let Some(d) = x.get() {
            if std::time::Instant::now() > d {
                x.set(None);
                std::panic::panic_any(OutOfBudget("time budget"));
            }
        }
    })
}
pub type BodyRef<'tcx> = Rc<BodyData<'tcx>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Ret,
    Panic(String),
    At(BasicBlock),
    Back,
    /// the path is not followed to its end
    Stuck(String),
}
#[derive(Clone, Debug)]
pub enum Outcome {
    Ret(Val),
    Panic(String),
    Stuck(String),
}
pub type Outs<'tcx> = Vec<(State<'tcx>, Outcome)>;

#[derive(Clone, Debug)]
pub enum PV {
    P(Ptr),
    S(Rc<Ptr>, Lin, Lin),
    Str,
    Top,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Proved,
    Refuted(String),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Obl {
    pub prop: String,
    pub site: String,
    pub what: String,
    pub verdict: Verdict,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    bodies: HashMap<(Instance<'tcx>, bool), BodyRef<'tcx>>,
    promoteds: HashMap<(DefId, u32, ty::GenericArgsRef<'tcx>), BodyRef<'tcx>>,
    pub consts: HashMap<(DefId, ty::GenericArgsRef<'tcx>), Val>,
    pub release: bool,
    /// opaque callbacks may panic
    pub opaque_panics: bool,
    pub obls: Vec<Obl>,
    pub depth: usize,
    pub steps: u64,
    pub max_steps: u64,
    pub stack: Vec<String>,
    pub nv: HashMap<u32, Lin>,
    pub tkeys: Vec<Ty<'tcx>>,
    /// definitional facts of the NUM_VARIANTS symbols
    pub base_facts: Vec<Lin>,
    pub c11: Option<C11>,
    /// what every path of a hash function fed to the hasher
    pub hashed: Vec<(State<'tcx>, Lin, u32)>,
    pub stats: Stats,
    pub trace: bool,
    pub const_depth: usize,
    /// a constant panicked, or could not be followed
    pub const_panic: bool,
    pub const_stuck: bool,
    pub speculative: usize,
    pub unroll: usize,
    pub summarise: bool,
    pub natives: BTreeSet<String>,
    pub unknown_calls: BTreeSet<String>,
    pub touched: BTreeSet<String>,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub loops: u64,
    pub summarised: u64,
    pub peeled: u64,
    pub merges: u64,
    pub paths: u64,
}
/// bound on the storage growth of the operation under analysis
#[derive(Clone)]
pub struct C11 {
    /// number of elements the vector may have been asked to hold
    pub max_elems: Lin,
    pub n: i128,
}

pub fn ret<'tcx>(st: State<'tcx>, v: Val) -> Outs<'tcx> {
    vec![(st, Outcome::Ret(v))]
}

impl<'tcx> Eng<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Eng {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            bodies: HashMap::new(),
            promoteds: HashMap::new(),
            consts: HashMap::new(),
            release: false,
            opaque_panics: false,
            obls: vec![],
            depth: 0,
            steps: 0,
            max_steps: 4_000_000,
            stack: vec![],
            nv: HashMap::new(),
            tkeys: vec![],
            base_facts: vec![],
            c11: None,
            hashed: vec![],
            stats: Stats::default(),
            trace: std::env::var("SA_TRACE").is_ok(),
            const_depth: 0,
            const_panic: false,
            const_stuck: false,
            speculative: 0,
            unroll: 70,
            summarise: std::env::var("SA_NOSUM").is_err(),
            natives: BTreeSet::new(),
            unknown_calls: BTreeSet::new(),
            touched: BTreeSet::new(),
        }
    }
    /// Forget the analysis in progress.
    pub fn reset(&mut self) {
        self.depth = 0;
        self.const_depth = 0;
        self.speculative = 0;
        self.stack.clear();
        self.opaque_panics = false;
        self.c11 = None;
    }
    pub fn set_cfg(&mut self, s: usize, b: usize) {
        CFG_S.with(|c| c.set(s));
        CFG_B.with(|c| c.set(b));
        self.consts.clear();
        self.nv.clear();
        self.base_facts.clear();
    }
    pub fn tkey(&mut self, t: Ty<'tcx>) -> u32 {
        if let Some(i) = self.tkeys.iter().position(|x| *x == t) {
            return i as u32;
        }
        if self.trace { println!("TKEY {:?} {:?}", t, self.tkeys); }
        self.tkeys.push(t);
        (self.tkeys.len() - 1) as u32
    }
    pub fn site(&self) -> String {
        // the innermost function of the crates under analysis
        for s in self.stack.iter().rev() {
            if s.contains("enum_") {
                return s.clone();
            }
        }
        self.stack.last().cloned().unwrap_or_default()
    }

    // ------------------------------------------------------------ bodies
    pub fn body_of(&mut self, inst: Instance<'tcx>, ctfe: bool) -> Option<BodyRef<'tcx>> {
        if let Some(b) = self.bodies.get(&(inst, ctfe)) {
            return Some(b.clone());
        }
        let tcx = self.tcx;
        let did = inst.def_id();
        let raw: &Body<'tcx> = match inst.def {
            ty::InstanceKind::Item(d) => {
                let kind = tcx.def_kind(d);
                if matches!(kind, DefKind::Ctor(..)) {
                    tcx.optimized_mir(d)
                } else if ctfe {
                    let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) && inst.args.types().next().is_some();
                    if !d.is_local() && !is_const && !tcx.is_mir_available(d) && !tcx.is_const_fn(d) {
                        return None;
                    }
                    tcx.mir_for_ctfe(d)
                } else {
                    if !tcx.is_mir_available(d) {
                        return None;
                    }
                    tcx.optimized_mir(d)
                }
            }
            ty::InstanceKind::Shim(_) => tcx.instance_mir(inst.def),
            _ => return None,
        };
        let body = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone())).ok()?;
        let name = tcx.def_path_str(did);
        if std::env::var("SA_MIR").is_ok_and(|x| name.contains(&x)) {
            for (bb, d) in body.basic_blocks.iter_enumerated().filter(|x| !x.1.is_cleanup) {
                eprintln!("MIR {} {:?}", name, bb);
                for s in &d.statements {
                    eprintln!("   {:?}", s);
                }
                eprintln!("   {:?}", d.terminator().kind);
            }
        }
        let b = Rc::new(self.mk_body(Some(inst), body, name));
        self.bodies.insert((inst, ctfe), b.clone());
        Some(b)
    }
    fn mk_body(&self, inst: Option<Instance<'tcx>>, body: Body<'tcx>, name: String) -> BodyData<'tcx> {
        let nb = body.basic_blocks.len();
        let dom = body.basic_blocks.dominators();
        let preds = body.basic_blocks.predecessors();
        let mut loops: HashMap<BasicBlock, LoopInfo> = HashMap::new();
        for (b, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                continue;
            }
            for h in data.terminator().successors() {
                if dom.dominates(h, b) {
                    let l = loops.entry(h).or_insert_with(|| LoopInfo { header: h, blocks: BTreeSet::from([h]), live: vec![] });
                    let mut st = vec![b];
                    while let Some(x) = st.pop() {
                        if l.blocks.insert(x) {
                            st.extend(preds[x].iter().copied());
                        }
                    }
                }
            }
        }
        // liveness
        let nl = body.local_decls.len();
        let mut borrowed = vec![false; nl];
        for data in body.basic_blocks.iter() {
            for s in &data.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    if let Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) = &b.1 {
                        if !p.is_indirect() {
                            borrowed[p.local.as_usize()] = true;
                        }
                    }
                }
            }
        }
        let mut live_in: Vec<Vec<bool>> = vec![vec![false; nl]; nb];
        if !loops.is_empty() {
            let mut changed = true;
            while changed {
                changed = false;
                for (b, data) in body.basic_blocks.iter_enumerated().rev() {
                    let mut live = vec![false; nl];
                    for s in data.terminator().successors() {
                        for i in 0..nl {
                            live[i] |= live_in[s.as_usize()][i];
                        }
                    }
                    let t = data.terminator();
                    if let TerminatorKind::Call { destination, .. } = &t.kind {
                        if destination.projection.is_empty() {
                            live[destination.local.as_usize()] = false;
                        }
                    }
                    if let TerminatorKind::Return = t.kind {
                        live[0] = true;
                    }
                    let mut use_op = |live: &mut Vec<bool>, o: &Operand<'tcx>| {
                        if let Operand::Copy(p) | Operand::Move(p) = o {
                            use_place(live, p);
                        }
                    };
                    match &t.kind {
                        TerminatorKind::SwitchInt { discr, .. } => use_op(&mut live, discr),
                        TerminatorKind::Call { func, args, destination, .. } => {
                            use_op(&mut live, func);
                            for a in args.iter() {
                                use_op(&mut live, &a.node);
                            }
                            if !destination.projection.is_empty() {
                                use_place(&mut live, destination);
                            }
                        }
                        TerminatorKind::Assert { cond, msg, .. } => {
                            use_op(&mut live, cond);
                            if let mir::AssertKind::BoundsCheck { len, index } = &**msg {
                                use_op(&mut live, len);
                                use_op(&mut live, index);
                            }
                        }
                        TerminatorKind::Drop { place, .. } => use_place(&mut live, place),
                        _ => {}
                    }
                    for s in data.statements.iter().rev() {
                        match &s.kind {
                            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => live[l.as_usize()] = false,
                            StatementKind::Assign(x) => {
                                let (p, rv) = &**x;
                                if p.projection.is_empty() {
                                    live[p.local.as_usize()] = false;
                                } else {
                                    use_place(&mut live, p);
                                }
                                rv_uses(rv, &mut |o| match o {
                                    Ok(op) => use_op(&mut live, op),
                                    Err(pl) => use_place(&mut live, pl),
                                });
                            }
                            StatementKind::SetDiscriminant { place, .. } => use_place(&mut live, place),
                            _ => {}
                        }
                    }
                    if live != live_in[b.as_usize()] {
                        live_in[b.as_usize()] = live;
                        changed = true;
                    }
                }
            }
        }
        for (h, l) in loops.iter_mut() {
            l.live = (0..nl).map(|i| live_in[h.as_usize()][i] || borrowed[i]).collect();
        }
        BodyData { inst, body, name, loops, borrowed }
    }

    // ------------------------------------------------------------ calls
    pub fn call(&mut self, st: State<'tcx>, inst: Instance<'tcx>, args: Vec<Val>) -> Outs<'tcx> {
        let Some(b) = self.body_of(inst, self.const_depth > 0 && matches!(inst.def, ty::InstanceKind::Item(d) if self.tcx.is_const_fn(d))) else {
            return vec![(st, Outcome::Stuck(format!("no body for {}", inst)))];
        };
        self.call_body(st, b, args)
    }
    pub fn call_body(&mut self, mut st: State<'tcx>, b: BodyRef<'tcx>, args: Vec<Val>) -> Outs<'tcx> {
        if self.depth > 110 {
            return vec![(st, Outcome::Stuck("call depth".into()))];
        }
        if b.name.contains("enum_") {
            self.touched.insert(b.name.clone());
        }
        let mut locals = vec![Val::Uninit; b.body.local_decls.len()];
        let n = b.body.arg_count;
        // (the arguments of a `rust-call` function arrive as one tuple already)
        {
            if args.len() != n {
                return vec![(st, Outcome::Stuck(format!("argument count of {}: {} vs {}", b.name, args.len(), n)))];
            }
            for (i, a) in args.into_iter().enumerate() {
                locals[i + 1] = a;
            }
        }
        self.stack.push(b.name.clone());
        self.depth += 1;
        let fr = st.frames.len();
        let name = b.name.clone();
        st.frames.push(Frame { body: b, locals });
        let nsplit = st.splits.len();
        let exits = self.run(st, mir::START_BLOCK, fr, None);
        self.depth -= 1;
        self.stack.pop();
        let mut out: Outs<'tcx> = vec![];
        for (mut s, e) in exits {
            let f = s.frames.pop().unwrap();
            debug_assert_eq!(s.frames.len(), fr);
            out.push(match e {
                Exit::Ret => (s, Outcome::Ret(f.locals[0].clone())),
                Exit::Panic(m) => (s, Outcome::Panic(m)),
                Exit::Stuck(m) => (s, Outcome::Stuck(m)),
                _ => (s, Outcome::Stuck("control left the function".into())),
            });
        }
        if self.trace && out.iter().any(|o| matches!(o.1, Outcome::Stuck(_))) {
            for o in &out {
                if let Outcome::Stuck(m) = &o.1 {
                    eprintln!("STUCK in {}: {}", name, m);
                }
            }
        }
        self.merge_outs(out, nsplit)
    }

    // ------------------------------------------------------------ merging
    pub fn merge_outs(&mut self, outs: Outs<'tcx>, nsplit: usize) -> Outs<'tcx> {
        if outs.len() < 2 {
            return outs;
        }
        // carry the returned value inside the memory while merging
        let v = outs
            .into_iter()
            .map(|(mut s, o)| {
                let k = match o {
                    Outcome::Ret(ref v) => {
                        s.heap.push(v.clone());
                        0u8
                    }
                    Outcome::Panic(ref m) => {
                        s.heap.push(Val::Str);
                        let _ = m;
                        1
                    }
                    Outcome::Stuck(_) => {
                        s.heap.push(Val::Str);
                        2
                    }
                };
                (s, (k, if let Outcome::Panic(m) | Outcome::Stuck(m) = o { m } else { String::new() }))
            })
            .collect();
        let m = self.merge(v, nsplit, &mut |a: &(u8, String), b: &(u8, String)| a == b);
        m.into_iter()
            .map(|(mut s, (k, msg))| {
                let v = s.heap.pop().unwrap();
                (
                    s,
                    match k {
                        0 => Outcome::Ret(v),
                        1 => Outcome::Panic(msg),
                        _ => Outcome::Stuck(msg),
                    },
                )
            })
            .collect()
    }
    /// Undo case distinctions (beyond the first `nsplit`) all of whose branches ended alike.
    pub fn merge<K: Clone>(&mut self, mut v: Vec<(State<'tcx>, K)>, nsplit: usize, same: &mut dyn FnMut(&K, &K) -> bool) -> Vec<(State<'tcx>, K)> {
        if v.len() < 2 {
            return v;
        }
        loop {
            let mut did = false;
            // candidate split ids, the deepest first
            let mut ids: Vec<(usize, u32)> = vec![];
            for (s, _) in &v {
                if s.splits.len() > nsplit {
                    let k = (s.splits.len(), s.splits.last().unwrap().0.id);
                    if !ids.contains(&k) {
                        ids.push(k);
                    }
                }
            }
            ids.sort_by(|a, b| b.cmp(a));
            'ids: for (len, id) in ids {
                let members: Vec<usize> = (0..v.len())
                    .filter(|i| v[*i].0.splits.len() == len && v[*i].0.splits[len - 1].0.id == id)
                    .collect();
                let nb = v[members[0]].0.splits[len - 1].0.branches;
                if members.len() < nb {
                    continue;
                }
                // every branch must be present exactly once with the same effect
                let mut classes: Vec<Vec<usize>> = vec![];
                for &i in &members {
                    let mut found = false;
                    for c in classes.iter_mut() {
                        let j = c[0];
                        if same(&v[i].1, &v[j].1) && same_memory(&v[i].0, &v[j].0) {
                            c.push(i);
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        classes.push(vec![i]);
                    }
                }
                for c in classes {
                    let br: BTreeSet<usize> = c.iter().map(|i| v[*i].0.splits[len - 1].1).collect();
                    if c.len() == nb && br.len() == nb {
                        let sp = v[c[0]].0.splits[len - 1].0.clone();
                        let mut st = v[c[0]].0.clone();
                        // values that agree only under the equalities of the branches
                        let group: Vec<&State<'tcx>> = c.iter().map(|i| &v[*i].0).collect();
                        let Some((heap, frames)) = merged_memory(&group) else { continue };
                        st.heap = heap;
                        for (f, l) in st.frames.iter_mut().zip(frames) {
                            f.locals = l;
                        }
                        for &i in &c[1..] {
                            if v[i].0.imprecise.is_some() && st.imprecise.is_none() {
                                st.imprecise = v[i].0.imprecise.clone();
                            }
                        }
                        st.splits.pop();
                        st.cons = sp.cons.clone();
                        st.eqs = sp.eqs.clone();
                        st.resid = sp.resid.clone();
                        st.bitpc = sp.bitpc;
                        st.foralls = sp.foralls.clone();
                        readd_facts(&mut st);
                        let k = v[c[0]].1.clone();
                        let mut keep: Vec<(State<'tcx>, K)> = vec![];
                        for (i, x) in v.into_iter().enumerate() {
                            if !c.contains(&i) {
                                keep.push(x);
                            }
                        }
                        keep.push((st, k));
                        v = keep;
                        self.stats.merges += 1;
                        did = true;
                        break 'ids;
                    }
                }
            }
            if !did || v.len() < 2 {
                return v;
            }
        }
    }
    /// Register a case distinction.
    pub fn record_split(&mut self, base: &State<'tcx>, mut v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        if v.len() > 1 {
            let n = v.len();
            let sp = mk_split(base, n);
            for (i, s) in v.iter_mut().enumerate() {
                s.splits.truncate(base.splits.len());
                s.splits.push((sp.clone(), i));
            }
        }
        v
    }
    pub fn record_split_outs<K>(&mut self, base_splits: usize, sp: Rc<Split>, v: &mut [(State<'tcx>, K)]) {
        if v.len() > 1 {
            let sp = Rc::new(Split {
                id: sp.id,
                branches: v.len(),
                cons: sp.cons.clone(),
                eqs: sp.eqs.clone(),
                resid: sp.resid.clone(),
                bitpc: sp.bitpc,
                foralls: sp.foralls.clone(),
            });
            for (i, (s, _)) in v.iter_mut().enumerate() {
                s.splits.truncate(base_splits);
                s.splits.push((sp.clone(), i));
            }
        } else {
            for (s, _) in v.iter_mut() {
                s.splits.truncate(base_splits);
            }
        }
    }
    /// Resolve a need by splitting the state.
    pub fn split(&mut self, st: State<'tcx>, need: &Need) -> Result<Vec<State<'tcx>>, String> {
        match need {
            Need::Fail(m) => Err(m.clone()),
            Need::Cond(c) => {
                let base = st.clone();
                let mut v = st.clone().assume(c);
                let m = v.len();
                v.extend(st.assume(&c.not()));
                let _ = m;
                Ok(self.record_split(&base, v))
            }
            Need::Concretize(l) => {
                let base = st.clone();
                let v = st.concretize(l)?;
                Ok(self.record_split(&base, v))
            }
        }
    }
    /// Run `f` on a state, splitting the state as often as needed.
    pub fn with_splits<T>(
        &mut self,
        st: State<'tcx>,
        f: &mut dyn FnMut(&mut Eng<'tcx>, &mut State<'tcx>) -> R<T>,
    ) -> Vec<(State<'tcx>, Result<T, String>)> {
        let mut out = vec![];
        let mut work = vec![st];
        let mut budget = 4000;
        while let Some(mut s) = work.pop() {
            match f(self, &mut s) {
                Ok(v) => out.push((s, Ok(v))),
                Err(n) => {
                    budget -= 1;
                    if budget == 0 {
                        out.push((s, Err("too many cases".into())));
                        continue;
                    }
                    match self.split(s.clone(), &n) {
                        Ok(v) => {
                            if v.len() == 1 && matches!(n, Need::Cond(_)) && v[0].cons.len() == s.cons.len() && v[0].eqs.len() == s.eqs.len() && v[0].bitpc == s.bitpc {
                                // no progress
                                out.push((s, Err(format!("undecidable condition {:?}", n))));
                            } else {
                                work.extend(v)
                            }
                        }
                        Err(m) => out.push((s, Err(m))),
                    }
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ control flow
    /// Execute from `bb`. With a region, stop at its header and when leaving it.
    pub fn run(&mut self, st: State<'tcx>, bb: BasicBlock, fr: usize, region: Option<BasicBlock>) -> Vec<(State<'tcx>, Exit)> {
        let mut out = vec![];
        let mut work = vec![(st, bb, region.is_some())];
        let b = work[0].0.frames[fr].body.clone();
        while let Some((mut s, bb, first)) = work.pop() {
            self.steps += 1;
            tick();
            if self.steps > self.max_steps {
                out.push((s, Exit::Stuck("step budget".into())));
                continue;
            }
            if !first {
                if let Some(h) = region {
                    if bb == h {
                        out.push((s, Exit::Back));
                        continue;
                    }
                    let l = &b.loops[&h];
                    if !l.blocks.contains(&bb) && !b.body.basic_blocks[bb].is_cleanup {
                        out.push((s, Exit::At(bb)));
                        continue;
                    }
                }
            }
            if b.loops.contains_key(&bb) && !(first && region == Some(bb)) {
                let ex = crate::loops::do_loop(self, s, bb, fr);
                for (s, e) in ex {
                    match e {
                        Exit::At(t) => work.push((s, t, false)),
                        e => out.push((s, e)),
                    }
                }
                continue;
            }
            // statements
            let data = &b.body.basic_blocks[bb];
            let mut cur = vec![(s, 0usize)];
            let nst = data.statements.len();
            let mut done = vec![];
            while let Some((mut s, i)) = cur.pop() {
                if i >= nst {
                    done.push(s);
                    continue;
                }
                match self.stmt(&mut s, fr, &data.statements[i]) {
                    Ok(()) => cur.push((s, i + 1)),
                    Err(Need::Fail(m)) => {
                        let m = format!("{} (in {})", m, b.name);
                        if self.trace {
                            eprintln!("LOST {}", m);
                        }
                        s.lose(&m);
                        if let StatementKind::Assign(x) = &data.statements[i].kind {
                            let _ = self.write_place(&mut s, fr, &x.0, Val::Top);
                        }
                        cur.push((s, i + 1));
                    }
                    Err(n) => match self.split(s.clone(), &n) {
                        Ok(v) => {
                            let stuck = v.len() == 1 && v[0].cons.len() == s.cons.len() && v[0].eqs.len() == s.eqs.len() && v[0].bitpc == s.bitpc;
                            for x in v {
                                if stuck {
                                    out.push((x, Exit::Stuck(format!("no progress on {:?}", n))));
                                } else {
                                    cur.push((x, i));
                                }
                            }
                        }
                        Err(m) => {
                            s.lose(&m);
                            if let StatementKind::Assign(x) = &data.statements[i].kind {
                                let _ = self.write_place(&mut s, fr, &x.0, Val::Top);
                            }
                            cur.push((s, i + 1));
                        }
                    },
                }
            }
            for s in done {
                self.terminator(s, fr, &b, bb, &mut work, &mut out);
            }
        }
        self.stats.paths += out.len() as u64;
        out
    }

    fn terminator(
        &mut self,
        st: State<'tcx>,
        fr: usize,
        b: &BodyRef<'tcx>,
        bb: BasicBlock,
        work: &mut Vec<(State<'tcx>, BasicBlock, bool)>,
        out: &mut Vec<(State<'tcx>, Exit)>,
    ) {
        let t = b.body.basic_blocks[bb].terminator();
        match &t.kind {
            TerminatorKind::Goto { target, .. } => work.push((st, *target, false)),
            TerminatorKind::FalseEdge { real_target, .. } => work.push((st, *real_target, false)),
            TerminatorKind::FalseUnwind { real_target, .. } => work.push((st, *real_target, false)),
            TerminatorKind::Return => out.push((st, Exit::Ret)),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                let m = st.unwinding.clone().map(|x| (*x).clone()).unwrap_or_default();
                out.push((st, Exit::Panic(m)))
            }
            TerminatorKind::Unreachable => {
                // reaching this would be undefined behaviour of an earlier unsafe operation
                out.push((st, Exit::Stuck("unreachable code reached".into())))
            }
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&b.body.local_decls, self.tcx).ty;
                let outs = self.drop_place(st, fr, place, ty);
                self.after_call(outs, fr, None, Some(*target), *unwind, work, out);
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&b.body.local_decls, self.tcx);
                let res = self.with_splits(st, &mut |e, s| {
                    let v = e.operand(s, fr, discr)?;
                    let w = int_width(ty);
                    for (k, t) in targets.iter() {
                        let c = match &v {
                            Val::Bool(c) => {
                                if k == 0 {
                                    c.not()
                                } else {
                                    c.clone()
                                }
                            }
                            Val::Int(IntV::L(l)) => {
                                let k = sign_ext(k, w);
                                Cond::eq(l, &Lin::int(k))
                            }
                            Val::Int(IntV::W(x)) => Cond::bit(bits::w_eq(x, &bits::w_const(k, x.len()))),
                            Val::Top => return Err(Need::Fail("branch on unknown value".into())),
                            o => return Err(Need::Fail(format!("branch on {}", short(o)))),
                        };
                        if s.want(&c)? {
                            return Ok(t);
                        }
                    }
                    Ok(targets.otherwise())
                });
                for (s, r) in res {
                    match r {
                        Ok(t) => work.push((s, t, false)),
                        Err(m) => {
                            // explore all targets, without claiming that any of them is taken
                            let mut s = s;
                            s.taint(&m);
                            let base = s.clone();
                            let ts: Vec<_> = targets.all_targets().to_vec();
                            let v = self.record_split(&base, vec![s; ts.len()]);
                            for (s, t) in v.into_iter().zip(ts) {
                                if !matches!(b.body.basic_blocks[t].terminator().kind, TerminatorKind::Unreachable) {
                                    work.push((s, t, false));
                                }
                            }
                        }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                if self.release && matches!(**msg, mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(_)) && self.const_depth == 0 {
                    // arithmetic overflow checks are compiled out; divisions keep theirs
                    let is_div = matches!(**msg, mir::AssertKind::Overflow(mir::BinOp::Div | mir::BinOp::Rem, ..));
                    if !is_div {
                        work.push((st, *target, false));
                        return;
                    }
                }
                if matches!(**msg, mir::AssertKind::MisalignedPointerDereference { .. } | mir::AssertKind::NullPointerDereference | mir::AssertKind::NullReferenceConstructed | mir::AssertKind::InvalidEnumConstruction(_)) {
                    work.push((st, *target, false));
                    return;
                }
                let what = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                    mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => "division by zero".into(),
                    _ => "assertion".into(),
                };
                let res = self.with_splits(st, &mut |e, s| {
                    let v = e.operand(s, fr, cond)?;
                    match v {
                        Val::Bool(c) => {
                            let c = if *expected { c } else { c.not() };
                            s.want(&c)
                        }
                        _ => Err(Need::Fail("assertion on unknown value".into())),
                    }
                });
                let mut outs = vec![];
                for (s, r) in res {
                    match r {
                        Ok(true) => outs.push((s, Outcome::Ret(unit()))),
                        Ok(false) => outs.push((s, Outcome::Panic(what.clone()))),
                        Err(m) => {
                            let mut s = s;
                            s.taint(&m);
                            let v = self.record_split(&s.clone(), vec![s.clone(), s]);
                            let mut it = v.into_iter();
                            outs.push((it.next().unwrap(), Outcome::Ret(unit())));
                            outs.push((it.next().unwrap(), Outcome::Panic(what.clone())));
                        }
                    }
                }
                self.after_call(outs, fr, None, Some(*target), *unwind, work, out);
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(&b.body.local_decls, self.tcx);
                let mut ops: Vec<&Operand<'tcx>> = vec![];
                for a in args.iter() {
                    ops.push(&a.node);
                }
                let res = self.with_splits(st, &mut |e, s| {
                    let mut v = vec![];
                    for o in &ops {
                        v.push(e.operand(s, fr, o)?);
                    }
                    Ok(v)
                });
                let argtys: Vec<Ty<'tcx>> = ops.iter().map(|o| o.ty(&b.body.local_decls, self.tcx)).collect();
                let dty = destination.ty(&b.body.local_decls, self.tcx).ty;
                for (mut s, r) in res {
                    let vals = match r {
                        Ok(v) => v,
                        Err(m) => {
                            s.lose(&m);
                            vec![Val::Top; ops.len()]
                        }
                    };
                    let outs = match fty.kind() {
                        ty::FnDef(d, ga) => self.call_def(s, *d, ga.skip_binder(), vals, &argtys, dty),
                        _ => {
                            let n = format!("indirect call in {}", b.name);
                            self.unknown_call(s, &n, vals, dty)
                        }
                    };
                    self.after_call(outs, fr, Some(destination), *target, *unwind, work, out);
                }
            }
            o => out.push((st, Exit::Stuck(format!("terminator {:?}", o)))),
        }
    }
    fn after_call(
        &mut self,
        outs: Outs<'tcx>,
        fr: usize,
        dest: Option<&Place<'tcx>>,
        target: Option<BasicBlock>,
        unwind: mir::UnwindAction,
        work: &mut Vec<(State<'tcx>, BasicBlock, bool)>,
        out: &mut Vec<(State<'tcx>, Exit)>,
    ) {
        for (mut s, o) in outs {
            match o {
                Outcome::Ret(v) => {
                    if let Some(d) = dest {
                        if let Err(n) = self.write_place(&mut s, fr, d, v) {
                            s.lose(&format!("result of call: {:?}", n));
                        }
                    }
                    match target {
                        Some(t) => work.push((s, t, false)),
                        None => out.push((s, Exit::Stuck("diverging call returned".into()))),
                    }
                }
                Outcome::Panic(m) => match unwind {
                    mir::UnwindAction::Cleanup(c) if s.unwinding.is_none() => {
                        s.unwinding = Some(Rc::new(m));
                        work.push((s, c, false));
                    }
                    _ => out.push((s, Exit::Panic(m))),
                },
                Outcome::Stuck(m) => out.push((s, Exit::Stuck(m))),
            }
        }
    }
    pub fn drop_place(&mut self, mut st: State<'tcx>, fr: usize, place: &Place<'tcx>, ty: Ty<'tcx>) -> Outs<'tcx> {
        // only destructors written in the analysed crates matter
        if let ty::Adt(def, args) = ty.kind() {
            if let Some(d) = self.tcx.adt_destructor(def.did()) {
                let cn = self.tcx.crate_name(def.did().krate);
                if cn.as_str().starts_with("enum_") {
                    let p = match self.place(&mut st, fr, place) {
                        Ok(PV::P(p)) => p,
                        _ => return vec![(st, Outcome::Stuck("drop of unknown place".into()))],
                    };
                    if matches!(st.read_ptr(&p), Ok(Val::Uninit)) {
                        return ret(st, unit());
                    }
                    let save = st.unwinding.take();
                    let drop_fn = d.did;
                    let inst = Instance::new_raw(drop_fn, args);
                    let outs = self.call(st, inst, vec![Val::Ref(Rc::new(p))]);
                    return outs
                        .into_iter()
                        .map(|(mut s, o)| {
                            if s.unwinding.is_none() {
                                s.unwinding = save.clone();
                            }
                            (s, o)
                        })
                        .collect();
                }
            }
            // fields with destructors
            if !def.is_box() && def.is_struct() && self.has_local_drop(ty, 0) {
                st.taint("nested destructor");
            }
        }
        ret(st, unit())
    }
    fn has_local_drop(&self, ty: Ty<'tcx>, d: usize) -> bool {
        if d > 4 {
            return false;
        }
        match ty.kind() {
            ty::Adt(def, args) => {
                if self.tcx.adt_destructor(def.did()).is_some() && self.tcx.crate_name(def.did().krate).as_str().starts_with("enum_") {
                    return true;
                }
                def.all_fields().any(|f| {
                    let t = f.ty(self.tcx, args).skip_norm_wip();
                    self.has_local_drop(t, d + 1)
                })
            }
            ty::Tuple(ts) => ts.iter().any(|t| self.has_local_drop(t, d + 1)),
            _ => false,
        }
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State<'tcx>, fr: usize, s: &mir::Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, rv) = &**x;
                let v = self.rvalue(st, fr, rv, p)?;
                self.write_place(st, fr, p, v)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                st.frames[fr].locals[l.as_usize()] = Val::Uninit;
                Ok(())
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let PV::P(p) = self.place(st, fr, place)? else { return Err(Need::Fail("set discriminant".into())) };
                let cur = st.read_ptr(&p)?;
                let f = match cur {
                    Val::Agg(_, f) => f,
                    _ => Rc::new(vec![]),
                };
                st.write_ptr(&p, Val::Agg(variant_index.as_u32(), f))
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(_) => Ok(()),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => Err(Need::Fail("copy_nonoverlapping".into())),
            },
            _ => Ok(()),
        }
    }
    pub fn write_place(&mut self, st: &mut State<'tcx>, fr: usize, p: &Place<'tcx>, v: Val) -> R<()> {
        if p.projection.is_empty() {
            st.frames[fr].locals[p.local.as_usize()] = v;
            return Ok(());
        }
        match self.place(st, fr, p)? {
            PV::P(ptr) => st.write_ptr(&ptr, v),
            _ => Err(Need::Fail("write to unknown place".into())),
        }
    }
    pub fn place(&mut self, st: &mut State<'tcx>, fr: usize, p: &Place<'tcx>) -> R<PV> {
        let mut cur = PV::P(Ptr { root: Root::Local(fr as u32, p.local.as_u32()), proj: vec![] });
        let body = st.frames[fr].body.clone();
        let mut pty = mir::PlaceTy::from_ty(body.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            cur = match e {
                mir::ProjectionElem::Deref => match cur {
                    PV::P(ptr) => {
                        let v = st.read_ptr(&ptr)?;
                        match v {
                            Val::Ref(p) => PV::P((*p).clone()),
                            Val::Slice { ptr, start, len } => PV::S(ptr, start, len),
                            Val::Str => PV::Str,
                            Val::Top => PV::Top,
                            o => return Err(Need::Fail(format!("dereference of {}", short(&o)))),
                        }
                    }
                    PV::Top => PV::Top,
                    _ => return Err(Need::Fail("dereference of unsized place".into())),
                },
                mir::ProjectionElem::Field(f, _) => match cur {
                    PV::P(mut ptr) => {
                        ptr.proj.push(PE::Field(f.as_u32()));
                        PV::P(ptr)
                    }
                    PV::Top => PV::Top,
                    _ => return Err(Need::Fail("field of unsized place".into())),
                },
                mir::ProjectionElem::Downcast(..) => cur,
                mir::ProjectionElem::Index(l) => {
                    let i = st.frames[fr].locals[l.as_usize()].clone();
                    let Some(i) = i.lin() else { return Err(Need::Fail("index unknown".into())) };
                    self.index(st, cur, i)?
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end {
                        let len = match &cur {
                            PV::S(_, _, len) => len.clone(),
                            PV::P(_) => match pty.ty.kind() {
                                ty::Array(_, n) => Lin::int(n.try_to_target_usize(self.tcx).unwrap_or(0) as i128),
                                _ => return Err(Need::Fail("constant index".into())),
                            },
                            _ => return Err(Need::Fail("constant index".into())),
                        };
                        len.addc(-(offset as i128))
                    } else {
                        Lin::int(offset as i128)
                    };
                    self.index(st, cur, i)?
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => match cur {
                    PV::S(p, start, len) => {
                        let s2 = start.addc(from as i128);
                        let l2 = if from_end { len.addc(-((from + to) as i128)) } else { Lin::int((to - from) as i128) };
                        PV::S(p, s2, l2)
                    }
                    _ => return Err(Need::Fail("subslice".into())),
                },
                _ => cur,
            };
            pty = pty.projection_ty(self.tcx, e);
        }
        Ok(cur)
    }
    pub fn index(&mut self, st: &mut State<'tcx>, cur: PV, i: Lin) -> R<PV> {
        Ok(match cur {
            PV::P(mut ptr) => {
                ptr.proj.push(PE::Idx(st.norm(&i)));
                PV::P(ptr)
            }
            PV::S(p, start, _) => {
                let mut ptr = (*p).clone();
                ptr.proj.push(PE::Idx(st.norm(&start.add(&i))));
                PV::P(ptr)
            }
            PV::Top => PV::Top,
            PV::Str => return Err(Need::Fail("index of str".into())),
        })
    }
    pub fn operand(&mut self, st: &mut State<'tcx>, fr: usize, o: &Operand<'tcx>) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    return Ok(st.frames[fr].locals[p.local.as_usize()].clone());
                }
                match self.place(st, fr, p)? {
                    PV::P(ptr) => st.read_ptr(&ptr),
                    PV::Top => Ok(Val::Top),
                    _ => Err(Need::Fail("read of unsized place".into())),
                }
            }
            Operand::Constant(c) => self.constant(st, fr, &c.const_),
            Operand::RuntimeChecks(_) => Ok(Val::Bool(Cond::B(false))),
        }
    }
    pub fn constant(&mut self, st: &mut State<'tcx>, _fr: usize, c: &mir::Const<'tcx>) -> R<Val> {
        match c {
            mir::Const::Val(v, ty) => Ok(self.const_val(*v, *ty)),
            mir::Const::Ty(ty, ct) => {
                if let Some(s) = ct.try_to_leaf() {
                    return Ok(self.scalar(Scalar::Int(s), *ty));
                }
                Ok(self.zst(*ty))
            }
            mir::Const::Unevaluated(uv, ty) => {
                if let Some(p) = uv.promoted {
                    return self.promoted(st, uv.def, p.as_u32(), uv.args, *ty);
                }
                self.named_const(st, uv.def, uv.args, *ty)
            }
        }
    }
    pub fn named_const(&mut self, st: &mut State<'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>, ty: Ty<'tcx>) -> R<Val> {
        let inst = match Instance::try_resolve(self.tcx, self.env, def, args) {
            Ok(Some(i)) => i,
            _ => return Err(Need::Fail(format!("constant {} does not resolve", self.tcx.def_path_str(def)))),
        };
        if self.trace {
            println!("const {} of {:?}", inst, ty);
        }
        // NUM_VARIANTS of an opaque element type
        if self.tcx.item_name(inst.def_id()).as_str() == "NUM_VARIANTS" {
            if let Some(imp) = self.tcx.impl_of_assoc(inst.def_id()) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                    let self_ty = tr.instantiate(self.tcx, inst.args).skip_norm_wip().self_ty();
                    if self.is_marker(self_ty) {
                        let k = self.tkey(self_ty);
                        return Ok(int(self.nv_of(k)));
                    }
                }
            }
        }
        if let Some(v) = self.consts.get(&(inst.def_id(), inst.args)) {
            return match v {
                Val::Top => Err(Need::Fail(format!("constant {} fails to evaluate", self.tcx.def_path_str(def)))),
                v => Ok(v.clone()),
            };
        }
        let key = (inst.def_id(), inst.args);
        let Some(b) = self.body_of(inst, true) else {
            // foreign constants without retained MIR: ask the compiler
            if let Ok(v) = self.tcx.const_eval_instance(self.env, inst, rustc_span::DUMMY_SP) {
                let v = self.const_val(v, ty);
                self.consts.insert(key, v.clone());
                return Ok(v);
            }
            return Err(Need::Fail("constant without body".into()));
        };
        // evaluated in an empty memory, under the facts about NUM_VARIANTS only
        let mut s0 = State::new();
        for l in self.base_facts.clone() {
            s0.add_con(l, true);
        }
        self.const_depth += 1;
        let save_rel = self.release;
        self.release = false;
        let outs = self.call_body(s0, b, vec![]);
        self.release = save_rel;
        self.const_depth -= 1;
        let mut res: Option<Val> = None;
        let mut ok = true;
        for (s, o) in outs {
            if self.trace {
                println!("   {:?} {:?} {:?}", o, s.cons, s.eqs);
            }
            match o {
                // computed from a constant that fails
                Outcome::Ret(Val::Top) => ok = false,
                Outcome::Ret(v) => {
                    let v = match v.lin() {
                        Some(l) => int(s.norm(&l)),
                        None => v,
                    };
                    if has_refs(&v) {
                        ok = false;
                        self.const_stuck = true;
                    }
                    match &res {
                        None => res = Some(v),
                        Some(r) if *r == v => {}
                        _ => {
                            ok = false;
                            self.const_stuck = true;
                        }
                    }
                }
                Outcome::Panic(_) => {
                    ok = false;
                    self.const_panic = true;
                }
                Outcome::Stuck(_) => {
                    ok = false;
                    self.const_stuck = true;
                }
            }
        }
        match (res, ok) {
            (Some(v), true) => {
                self.consts.insert(key, v.clone());
                Ok(v)
            }
            _ => {
                self.consts.insert(key, Val::Top);
                let _ = st;
                Err(Need::Fail(format!("constant {} fails to evaluate", self.tcx.def_path_str(def))))
            }
        }
    }
    fn promoted(&mut self, st: &mut State<'tcx>, def: DefId, p: u32, args: ty::GenericArgsRef<'tcx>, _ty: Ty<'tcx>) -> R<Val> {
        let key = (def, p, args);
        let b = match self.promoteds.get(&key) {
            Some(b) => b.clone(),
            None => {
                let ps = self.tcx.promoted_mir(def);
                let raw = ps[mir::Promoted::from_u32(p)].clone();
                let inst = Instance::new_raw(def, args);
                let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, raw)) {
                    Ok(b) => b,
                    Err(_) => return Err(Need::Fail("promoted".into())),
                };
                let b = Rc::new(self.mk_body(None, body, format!("promoted of {}", self.tcx.def_path_str(def))));
                self.promoteds.insert(key, b.clone());
                b
            }
        };
        let s0 = State::new();
        self.const_depth += 1;
        // promoteds only refer to their own locals: evaluate, then move the referenced data into the heap
        let fr = 0usize;
        let mut s0 = s0;
        for l in self.base_facts.clone() {
            s0.add_con(l, true);
        }
        s0.frames.push(Frame { body: b.clone(), locals: vec![Val::Uninit; b.body.local_decls.len()] });
        let ex = self.run(s0, mir::START_BLOCK, fr, None);
        self.const_depth -= 1;
        if ex.len() != 1 || ex[0].1 != Exit::Ret {
            return Err(Need::Fail("promoted constant".into()));
        }
        let (s, _) = ex.into_iter().next().unwrap();
        let v = s.frames[0].locals[0].clone();
        Ok(match v {
            Val::Ref(p) if matches!(p.root, Root::Local(0, _)) => {
                let mut s = s;
                let inner = s.read_ptr(&p)?;
                if has_refs(&inner) {
                    return Ok(Val::Top);
                }
                for (i, h) in st.statics.iter() {
                    if *i == inner {
                        return Ok(Val::Ref(Rc::new(Ptr { root: *h, proj: vec![] })));
                    }
                }
                let r = st.alloc(inner.clone());
                st.statics.push((inner, r));
                Val::Ref(Rc::new(Ptr { root: r, proj: vec![] }))
            }
            v if !has_refs(&v) => v,
            _ => Val::Top,
        })
    }
    pub fn scalar(&mut self, s: Scalar, ty: Ty<'tcx>) -> Val {
        match s {
            Scalar::Int(i) => {
                let b = i.to_bits(i.size());
                match ty.kind() {
                    ty::Bool => Val::Bool(Cond::B(b != 0)),
                    ty::Int(_) => int(Lin::int(sign_ext(b, i.size().bits() as usize))),
                    ty::Uint(_) if b > i128::MAX as u128 => word(bits::w_const(b, 128)),
                    ty::Uint(_) | ty::Char => int(Lin::int(b as i128)),
                    ty::Adt(d, a) if d.is_struct() => {
                        // transparent wrappers
                        let fs: Vec<Ty<'tcx>> = d.all_fields().map(|f| f.ty(self.tcx, a).skip_norm_wip()).collect();
                        let v = fs
                            .iter()
                            .map(|t| {
                                let t = self.norm_ty(*t);
                                if self.is_zst(t) {
                                    self.zst(t)
                                } else {
                                    self.scalar(s, t)
                                }
                            })
                            .collect();
                        agg(0, v)
                    }
                    ty::Adt(d, _) if d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()) => {
                        for (vi, dv) in d.discriminants(self.tcx) {
                            let bitsz = i.size().bits() as u32;
                            let m = if bitsz >= 128 { u128::MAX } else { (1u128 << bitsz) - 1 };
                            if dv.val & m == b {
                                return agg(vi.as_u32(), vec![]);
                            }
                        }
                        Val::Top
                    }
                    _ => Val::Top,
                }
            }
            _ => Val::Top,
        }
    }
    pub fn norm_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    pub fn is_zst(&self, t: Ty<'tcx>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.is_zst()).unwrap_or(false)
    }
    fn const_val(&mut self, v: ConstValue, ty: Ty<'tcx>) -> Val {
        match v {
            ConstValue::Scalar(s) => self.scalar_or_enum(s, ty),
            ConstValue::ZeroSized => self.zst(ty),
            ConstValue::Slice { .. } => Val::Str,
            ConstValue::Indirect { .. } => match self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                Some(d) => {
                    let f = d.fields.iter().map(|(v, t)| self.const_val(*v, *t)).collect();
                    agg(d.variant.map(|v| v.as_u32()).unwrap_or(0), f)
                }
                None => Val::Top,
            },
        }
    }
    fn scalar_or_enum(&mut self, s: Scalar, ty: Ty<'tcx>) -> Val {
        if let ty::Adt(d, _) = ty.kind() {
            if d.is_enum() {
                let v = self.scalar(s, ty);
                if v != Val::Top {
                    return v;
                }
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(ConstValue::Scalar(s), ty) {
                    let f = d.fields.iter().map(|(v, t)| self.const_val(*v, *t)).collect();
                    return agg(d.variant.map(|v| v.as_u32()).unwrap_or(0), f);
                }
            }
        }
        self.scalar(s, ty)
    }
    pub fn zst(&mut self, ty: Ty<'tcx>) -> Val {
        match ty.kind() {
            ty::Adt(d, a) if d.is_struct() => {
                let fs: Vec<Ty<'tcx>> = d.all_fields().map(|f| f.ty(self.tcx, a).skip_norm_wip()).collect();
                let v = fs
                    .into_iter()
                    .map(|t| {
                        let t = self.norm_ty(t);
                        self.zst(t)
                    })
                    .collect();
                agg(0, v)
            }
            ty::Tuple(ts) => agg(0, ts.iter().map(|t| self.zst(t)).collect()),
            ty::Array(..) => agg(0, vec![]),
            ty::FnDef(..) => Val::Fn(0),
            ty::Closure(..) => agg(0, vec![]),
            _ => unit(),
        }
    }
    pub fn is_marker(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => {
                d.did().is_local() && self.tcx.def_path_str(d.did()).contains("marker::")
            }
            _ => false,
        }
    }
    pub fn nv_of(&mut self, k: u32) -> Lin {
        if let Some(l) = self.nv.get(&k) {
            return l.clone();
        }
        let v = Lin::var(new_var(&format!("NUM_VARIANTS{}", k), false));
        self.nv.insert(k, v.clone());
        v
    }

    fn rvalue(&mut self, st: &mut State<'tcx>, fr: usize, rv: &Rvalue<'tcx>, dest: &Place<'tcx>) -> R<Val> {
        let body = st.frames[fr].body.clone();
        let ld = &body.body.local_decls;
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fr, o),
            Rvalue::CopyForDeref(p) => self.operand(st, fr, &Operand::Copy(*p)),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fr, o)?;
                match n.try_to_target_usize(self.tcx) {
                    Some(n) if n <= 256 => Ok(agg(0, vec![v; n as usize])),
                    _ => Err(Need::Fail("array repeat".into())),
                }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => Ok(match self.place(st, fr, p)? {
                PV::P(ptr) => Val::Ref(Rc::new(ptr)),
                PV::S(ptr, start, len) => Val::Slice { ptr, start, len },
                PV::Str => Val::Str,
                PV::Top => Val::Top,
            }),
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(ld, self.tcx);
                let v = self.operand(st, fr, o)?;
                self.cast(st, *k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                let ta = a.ty(ld, self.tcx);
                let tb = b.ty(ld, self.tcx);
                let va = self.operand(st, fr, a)?;
                let vb = self.operand(st, fr, b)?;
                crate::arith::binop(st, *op, &va, &vb, ity(ta), ity(tb), self.release && self.const_depth == 0)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(ld, self.tcx);
                let v = self.operand(st, fr, a)?;
                crate::arith::unop(st, *op, &v, ity(t))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(ld, self.tcx).ty;
                let v = self.operand(st, fr, &Operand::Copy(*p))?;
                match v {
                    Val::Agg(k, _) => {
                        if let ty::Adt(d, _) = t.kind() {
                            if d.is_enum() {
                                let dv = d.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(k));
                                let (w, signed) = ity(dv.ty).unwrap_or((64, false));
                                let x = if signed { sign_ext(dv.val, w) } else { dv.val as i128 };
                                return Ok(int(Lin::int(x)));
                            }
                        }
                        Ok(int(Lin::zero()))
                    }
                    // an enum with a single possible value needs no initialisation
                    Val::Uninit if self.only_variant(t).is_some() => {
                        let k = self.only_variant(t).unwrap();
                        let ty::Adt(d, _) = t.kind() else { unreachable!() };
                        let dv = d.discriminant_for_variant(self.tcx, k);
                        let (w, signed) = ity(dv.ty).unwrap_or((64, false));
                        Ok(int(Lin::int(if signed { sign_ext(dv.val, w) } else { dv.val as i128 })))
                    }
                    o => Err(Need::Fail(format!("discriminant of {}", short(&o)))),
                }
            }
            Rvalue::Aggregate(k, fs) => {
                let mut v = vec![];
                for f in fs.iter() {
                    v.push(self.operand(st, fr, f)?);
                }
                match &**k {
                    mir::AggregateKind::Adt(_, vi, _, _, active) => {
                        if active.is_some() {
                            return Err(Need::Fail("union".into()));
                        }
                        Ok(agg(vi.as_u32(), v))
                    }
                    mir::AggregateKind::RawPtr(..) => Err(Need::Fail("raw pointer from parts".into())),
                    _ => Ok(agg(0, v)),
                }
            }
            o => {
                let _ = dest;
                Err(Need::Fail(format!("rvalue {:?}", o)))
            }
        }
    }
    /// The only inhabited variant of a zero-sized enum.
    fn only_variant(&self, t: Ty<'tcx>) -> Option<rustc_abi::VariantIdx> {
        if !t.is_enum() {
            return None;
        }
        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
        match l.variants {
            rustc_abi::Variants::Single { index } if l.is_zst() => Some(index),
            _ => None,
        }
    }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: mir::CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        match k {
            mir::CastKind::IntToInt => crate::arith::int_cast(st, v, ity(from), ity(to), from.is_bool()),
            mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => {
                let (fi, ti) = (from.builtin_deref(true), to.builtin_deref(true));
                if let (Some(f), Some(t)) = (fi, ti) {
                    if let (ty::Array(_, n), ty::Slice(_)) = (f.kind(), t.kind()) {
                        if let (Val::Ref(p), Some(n)) = (&v, n.try_to_target_usize(self.tcx)) {
                            return Ok(Val::Slice { ptr: p.clone(), start: Lin::zero(), len: Lin::int(n as i128) });
                        }
                    }
                    // the value behind a trait object
                    if let (ty::Dynamic(..), Val::Ref(_)) = (t.kind(), &v) {
                        return Ok(v);
                    }
                }
                Ok(Val::Top)
            }
            mir::CastKind::PointerCoercion(..) | mir::CastKind::PtrToPtr | mir::CastKind::Subtype => {
                // slice pointer to element pointer
                if let Val::Slice { ptr, start, .. } = &v {
                    if let Some(t) = to.builtin_deref(true) {
                        if !matches!(t.kind(), ty::Slice(_)) {
                            let mut p = (**ptr).clone();
                            p.proj.push(PE::Idx(start.clone()));
                            return Ok(Val::Ref(Rc::new(p)));
                        }
                    }
                }
                Ok(v)
            }
            mir::CastKind::Transmute => {
                if let (Some((a, _)), Some((b, _))) = (ity(from), ity(to)) {
                    if a == b && from == to {
                        return Ok(v);
                    }
                    if a == b {
                        return crate::arith::int_cast(st, v, ity(from), ity(to), false);
                    }
                }
                if from == to || (from.is_any_ptr() && to.is_any_ptr()) {
                    return Ok(v);
                }
                // niche of non-zero integers
                if ity(from).is_some() {
                    if let ty::Adt(d, a) = to.kind() {
                        let nm = self.tcx.item_name(d.did());
                        if nm.as_str() == "NonZero" {
                            return Ok(agg(0, vec![agg(0, vec![v])]));
                        }
                        if nm.as_str() == "Option" {
                            if let Some(t) = a.types().next() {
                                if matches!(t.kind(), ty::Adt(d, _) if self.tcx.item_name(d.did()).as_str() == "NonZero") {
                                    if let Some(l) = v.lin() {
                                        let z = st.want(&Cond::eq(&l, &Lin::zero()))?;
                                        return Ok(if z { none() } else { some(agg(0, vec![agg(0, vec![v])])) });
                                    }
                                }
                            }
                        }
                    }
                }
                if ity(to).is_some() {
                    if let ty::Adt(d, _) = from.kind() {
                        if self.tcx.item_name(d.did()).as_str() == "NonZero" {
                            let mut x = v.clone();
                            while let Val::Agg(_, f) = &x {
                                if f.is_empty() {
                                    break;
                                }
                                x = f[0].clone();
                            }
                            if matches!(x, Val::Int(_)) {
                                return Ok(x);
                            }
                        }
                    }
                }
                // transparent wrappers around pointers
                if let ty::Adt(d, _) = from.kind() {
                    if d.is_struct() && to.is_any_ptr() {
                        let mut x = v.clone();
                        while let Val::Agg(_, f) = &x {
                            if f.is_empty() {
                                break;
                            }
                            x = f[0].clone();
                        }
                        if matches!(x, Val::Ref(_) | Val::Slice { .. }) {
                            return Ok(x);
                        }
                    }
                }
                Err(Need::Fail(format!("transmute {} -> {}", from, to)))
            }
            _ => Err(Need::Fail(format!("cast {:?}", k))),
        }
    }

    // ------------------------------------------------------------ obligations
    /// Record whether `c` holds in `st`.
    pub fn obligation(&mut self, st: &State<'tcx>, prop: &str, what: &str, c: &Cond) -> bool {
        let mut st2 = st.clone();
        let verdict = crate::specs::judge(&mut st2, c);
        let ok = verdict == Verdict::Proved;
        if self.speculative > 0 {
            return ok;
        }
        let site = self.site();
        self.obls.push(Obl { prop: prop.into(), site, what: what.into(), verdict });
        ok
    }
    pub fn unknown_call(&mut self, mut st: State<'tcx>, name: &str, args: Vec<Val>, dty: Ty<'tcx>) -> Outs<'tcx> {
        self.unknown_calls.insert(name.to_string());
        if dty.is_never() {
            return vec![(st, Outcome::Panic(format!("call of {}", name)))];
        }
        if self.trace {
            eprintln!("UNKNOWN CALL {}", name);
        }
        // everything reachable through the arguments may change
        let mut lost = false;
        for a in &args {
            if has_refs(a) {
                lost = true;
            }
        }
        if lost {
            st.lose(&format!("unknown function {}", name));
        } else {
            st.taint(&format!("unknown function {}", name));
        }
        ret(st, Val::Top)
    }
}

pub fn mk_split(base: &State<'_>, n: usize) -> Rc<Split> {
    Rc::new(Split {
        id: next_split_id(),
        branches: n,
        cons: base.cons.clone(),
        eqs: base.eqs.clone(),
        resid: base.resid.clone(),
        bitpc: base.bitpc,
        foralls: base.foralls.clone(),
    })
}
fn use_place(live: &mut [bool], p: &Place<'_>) {
    live[p.local.as_usize()] = true;
    for e in p.projection.iter() {
        if let mir::ProjectionElem::Index(l) = e {
            live[l.as_usize()] = true;
        }
    }
}
fn rv_uses<'a, 'tcx>(rv: &'a Rvalue<'tcx>, f: &mut dyn FnMut(Result<&'a Operand<'tcx>, &'a Place<'tcx>>)) {
    match rv {
        Rvalue::Use(o, _) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::WrapUnsafeBinder(o, _) => f(Ok(o)),
        Rvalue::BinaryOp(_, x) => {
            f(Ok(&x.0));
            f(Ok(&x.1));
        }
        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) => f(Err(p)),
        Rvalue::Aggregate(_, fs) => {
            for x in fs.iter() {
                f(Ok(x));
            }
        }
        Rvalue::Reborrow(_, _, p) => f(Err(p)),
        Rvalue::ThreadLocalRef(_) => {}
    }
}
pub fn has_refs(v: &Val) -> bool {
    match v {
        Val::Ref(_) | Val::Slice { .. } => true,
        Val::Agg(_, f) => f.iter().any(has_refs),
        _ => false,
    }
}
/// (width, signed)
pub fn ity(t: Ty<'_>) -> Option<(usize, bool)> {
    match t.kind() {
        ty::Uint(u) => Some((u.bit_width().unwrap_or(64) as usize, false)),
        ty::Int(u) => Some((u.bit_width().unwrap_or(64) as usize, true)),
        ty::Char => Some((32, false)),
        _ => None,
    }
}
fn int_width(t: Ty<'_>) -> Option<(usize, bool)> {
    ity(t)
}
pub trait Sx {
    fn to_w(self) -> usize;
}
impl Sx for usize {
    fn to_w(self) -> usize {
        self | 1 << 30
    }
}
impl Sx for Option<(usize, bool)> {
    fn to_w(self) -> usize {
        match self {
            Some((w, true)) => w | 1 << 30,
            Some((w, false)) => w,
            None => 64,
        }
    }
}
pub fn sign_ext<W: Sx>(v: u128, w: W) -> i128 {
    let k = w.to_w();
    let signed = k & (1 << 30) != 0;
    let w = k & 0xffff;
    if !signed || w >= 128 {
        return v as i128;
    }
    if v >> (w - 1) & 1 == 1 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}

/// Equality of memory, modulo the equalities of each state.
pub fn same_memory<'tcx>(a: &State<'tcx>, b: &State<'tcx>) -> bool {
    if a.heap.len() != b.heap.len() || a.frames.len() != b.frames.len() || a.unwinding.is_some() != b.unwinding.is_some() || a.lost.is_some() != b.lost.is_some() {
        return false;
    }
    merged_memory(&[a, b]).is_some()
}
/// The memory shared by all states, as values valid in each of them.
fn merged_memory<'tcx>(g: &[&State<'tcx>]) -> Option<(Vec<Val>, Vec<Vec<Val>>)> {
    let mut heap = vec![];
    for i in 0..g[0].heap.len() {
        heap.push(merged_val(g, &g.iter().map(|s| &s.heap[i]).collect::<Vec<_>>())?);
    }
    let mut frames = vec![];
    for f in 0..g[0].frames.len() {
        let mut l = vec![];
        for i in 0..g[0].frames[f].locals.len() {
            l.push(merged_val(g, &g.iter().map(|s| &s.frames[f].locals[i]).collect::<Vec<_>>())?);
        }
        frames.push(l);
    }
    Some((heap, frames))
}
fn merged_val<'tcx>(g: &[&State<'tcx>], v: &[&Val]) -> Option<Val> {
    if v[1..].iter().all(|x| *x == v[0]) {
        return Some(v[0].clone());
    }
    match v[0] {
        Val::Agg(k, f) => {
            if !v.iter().all(|x| matches!(x, Val::Agg(k2, f2) if k2 == k && f2.len() == f.len())) {
                return None;
            }
            let mut out = vec![];
            for i in 0..f.len() {
                let mut xs = vec![];
                for x in v {
                    match x {
                        Val::Agg(k2, f2) if k2 == k && f2.len() == f.len() => xs.push(&f2[i]),
                        _ => return None,
                    }
                }
                out.push(merged_val(g, &xs)?);
            }
            Some(agg(*k, out))
        }
        Val::Int(IntV::W(w)) => {
            let mut out = vec![];
            for i in 0..w.len() {
                let mut xs = vec![];
                for x in v {
                    match x {
                        Val::Int(IntV::W(w2)) if w2.len() == w.len() => xs.push(w2[i]),
                        _ => return None,
                    }
                }
                out.push(merged_bit(g, &xs)?);
            }
            Some(word(out.into()))
        }
        Val::T(k, IntV::W(w)) => {
            let mut out = vec![];
            for i in 0..w.len() {
                let mut xs = vec![];
                for x in v {
                    match x {
                        Val::T(k2, IntV::W(w2)) if w2.len() == w.len() && k2 == k => xs.push(w2[i]),
                        _ => return None,
                    }
                }
                out.push(merged_bit(g, &xs)?);
            }
            Some(Val::T(*k, IntV::W(out.into())))
        }
        Val::Vec(o) => {
            let mut os = vec![];
            for x in v {
                match x {
                    Val::Vec(p) if p.kind == o.kind && p.tk == o.tk => os.push(p.clone()),
                    _ => return None,
                }
            }
            Some(Val::Vec(Rc::new(VecObj {
                kind: o.kind,
                tk: o.tk,
                len: merged_lin(g, &os.iter().map(|p| p.len.clone()).collect::<Vec<_>>())?,
                cap: merged_lin(g, &os.iter().map(|p| p.cap.clone()).collect::<Vec<_>>())?,
                arr: merged_arr(g, &os.iter().map(|p| p.arr).collect::<Vec<_>>())?,
            })))
        }
        Val::Int(IntV::L(_)) => {
            let mut ls = vec![];
            for x in v {
                match x {
                    Val::Int(IntV::L(l)) => ls.push(l.clone()),
                    _ => return None,
                }
            }
            Some(int(merged_lin(g, &ls)?))
        }
        Val::Opq(o) => {
            let w = g[0].norm_val(v[0]);
            if g.iter().zip(v.iter()).all(|(s, x)| s.norm_val(x) == w) {
                return Some(w);
            }
            match &**o {
                Opq::Fun { id, ret, out, .. } => {
                    let (mut cs, mut ls) = (vec![], vec![]);
                    for x in v {
                        match x {
                            Val::Opq(p) => match &**p {
                                Opq::Fun { id: i2, calls, log, ret: r2, out: o2 } if i2 == id && r2 == ret && o2 == out => {
                                    cs.push(calls.clone());
                                    ls.push(*log);
                                }
                                _ => return None,
                            },
                            _ => return None,
                        }
                    }
                    Some(Val::Opq(Rc::new(Opq::Fun { id: *id, calls: merged_lin(g, &cs)?, log: merged_arr(g, &ls)?, ret: *ret, out: *out })))
                }
                _ => None,
            }
        }
        _ => {
            let w = g[0].norm_val(v[0]);
            if g.iter().zip(v.iter()).all(|(s, x)| s.norm_val(x) == w) {
                return Some(w);
            }
            None
        }
    }
}
/// Quantities with a different constant value in each of the states.
fn pinned<'tcx>(g: &[&State<'tcx>]) -> Vec<(V, Vec<i128>)> {
    let mut out = vec![];
    for (v, e) in g[0].eqs.iter() {
        let Some(c0) = e.as_int() else { continue };
        let mut cs = vec![c0];
        for s in &g[1..] {
            match s.eqs.iter().find(|x| x.0 == *v).and_then(|x| x.1.as_int()) {
                Some(c) => cs.push(c),
                None => break,
            }
        }
        if cs.len() == g.len() && cs.iter().any(|c| *c != c0) {
            out.push((*v, cs));
        }
    }
    out
}
fn merged_lin<'tcx>(g: &[&State<'tcx>], v: &[Lin]) -> Option<Lin> {
    if v[1..].iter().all(|x| *x == v[0]) {
        return Some(v[0].clone());
    }
    let n: Vec<Lin> = g.iter().zip(v).map(|(s, x)| s.norm(x)).collect();
    if n[1..].iter().all(|x| *x == n[0]) {
        return Some(n[0].clone());
    }
    let d: Option<Vec<i128>> = n.iter().map(|x| x.sub(&n[0]).as_int()).collect();
    let d = d?;
    for (p, cs) in pinned(g) {
        let i = cs.iter().position(|c| *c != cs[0]).unwrap();
        let k = Rat::int(d[i]).div(Rat::int(cs[i] - cs[0]));
        if k.is_int() && d.iter().zip(&cs).all(|(x, c)| *x == k.n * (c - cs[0])) {
            return Some(n[0].add_scaled(&Lin::var(p).addc(-cs[0]), k));
        }
    }
    None
}
fn merged_arr<'tcx>(g: &[&State<'tcx>], v: &[u32]) -> Option<u32> {
    if v[1..].iter().all(|x| *x == v[0]) {
        return Some(v[0]);
    }
    if let Some(a) = merged_layers(g, v) {
        return Some(a);
    }
    let n: Vec<u32> = g.iter().zip(v).map(|(s, x)| Sub { lin: &|l| s.norm(l), arr: &no_arr, bit: &no_bit }.arr(*x)).collect();
    if n[1..].iter().all(|x| *x == n[0]) {
        return Some(n[0]);
    }
    None
}
fn merged_layers<'tcx>(g: &[&State<'tcx>], v: &[u32]) -> Option<u32> {
    let mut below = vec![];
    let mut layers = vec![];
    for x in v {
        match arr_node(*x) {
            ArrNode::Layer { below: b, layer } => {
                below.push(b);
                layers.push(layer);
            }
            _ => return None,
        }
    }
    let b = merged_arr(g, &below)?;
    let l = match &layers[0] {
        Layer::Elem { .. } => {
            let (mut ats, mut vals) = (vec![], vec![]);
            for l in &layers {
                match l {
                    Layer::Elem { at, val } => {
                        ats.push(at.clone());
                        vals.push(val);
                    }
                    _ => return None,
                }
            }
            Layer::Elem { at: merged_lin(g, &ats)?, val: merged_val(g, &vals)? }
        }
        _ => {
            let n: Vec<Layer> = g.iter().zip(&layers).map(|(s, x)| Sub { lin: &|l| s.norm(l), arr: &no_arr, bit: &no_bit }.layer(x)).collect();
            if layers[1..].iter().all(|l| *l == layers[0]) {
                layers[0].clone()
            } else if n[1..].iter().all(|l| *l == n[0]) {
                n[0].clone()
            } else {
                return None;
            }
        }
    };
    Some(arr_layer(b, l))
}
fn merged_bit<'tcx>(g: &[&State<'tcx>], v: &[bits::Bdd]) -> Option<bits::Bdd> {
    if v[1..].iter().all(|x| *x == v[0]) {
        return Some(v[0]);
    }
    let n = |s: &State<'_>, b: bits::Bdd| Sub { lin: &|l| s.norm(l), arr: &no_arr, bit: &no_bit }.bdd(b);
    let w = n(g[0], v[0]);
    if g.iter().zip(v.iter()).all(|(s, x)| n(s, *x) == w) {
        return Some(w);
    }
    for (p, cs) in pinned(g) {
        for k in [1i128, -1] {
            let c = Sub { lin: &|l| g[0].norm(l).add_scaled(&Lin::var(p).addc(-cs[0]), Rat::int(k)), arr: &no_arr, bit: &no_bit }.bdd(v[0]);
            if g.iter().zip(v.iter()).all(|(s, x)| n(s, *x) == n(s, c)) {
                return Some(c);
            }
        }
    }
    None
}
/// Re-establish the definitional facts of the symbols in use.
pub fn readd_facts(st: &mut State<'_>) {
    let mut vars = BTreeSet::new();
    for v in st.heap.iter() {
        val_vars(v, &mut vars);
    }
    for f in st.frames.iter() {
        for v in &f.locals {
            val_vars(v, &mut vars);
        }
    }
    let mut seen = BTreeSet::new();
    let mut work: Vec<V> = vars.into_iter().collect();
    while let Some(v) = work.pop() {
        if !seen.insert(v) {
            continue;
        }
        for f in facts_of(v) {
            for w in f.vars() {
                work.push(w);
            }
            st.add_con(f, true);
        }
    }
}
pub type W = Word;
