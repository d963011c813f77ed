//! Judging conditions, and the specifications of the vector operations.
use crate::bits::{self, Bdd, BitVar, Word};
use crate::interp::*;
use crate::lin::*;
use crate::lp;
use crate::models::MAXLEN;
use crate::state::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

// ---------------------------------------------------------------- judging
/// Is `c` true in every execution described by the state; if not, is there certainly one where it is false?
pub fn judge<'tcx>(st: &mut State<'tcx>, c: &Cond) -> Verdict {
    let mut work = vec![(st.clone(), c.clone())];
    let mut budget = 600;
    let mut unknown: Option<String> = None;
    while let Some((mut s, c)) = work.pop() {
        budget -= 1;
        if budget == 0 {
            return Verdict::Unknown("too many cases".into());
        }
        if s.entails(&c) {
            continue;
        }
        match &c {
            Cond::And(v) => {
                for x in v.iter() {
                    work.push((s.clone(), x.clone()));
                }
                continue;
            }
            Cond::Or(v) if v.len() >= 2 => {
                // decide all but the last disjunct by assumption
                let mut sts = vec![s];
                for x in &v[..v.len() - 1] {
                    sts = sts.into_iter().flat_map(|s| s.assume(&x.not())).collect();
                }
                for s in sts {
                    work.push((s, v[v.len() - 1].clone()));
                }
                continue;
            }
            Cond::Bit(b) => {
                match s.renorm_force(*b, true) {
                    Ok(b2) => {
                        if bits::implies(s.bitpc, b2) {
                            continue;
                        }
                        match s.clone().renorm_force(s.bitpc, true) {
                            Ok(pc) => {
                                s.bitpc = pc;
                                if bits::implies(pc, b2) {
                                    continue;
                                }
                            }
                            Err(Need::Fail(m)) => {
                                unknown.get_or_insert(m);
                                continue;
                            }
                            Err(n) => {
                                if let Some(v) = split_plain(&s, &n) {
                                    work.extend(v.into_iter().map(|x| (x, c.clone())));
                                } else {
                                    unknown.get_or_insert("case split failed".into());
                                }
                                continue;
                            }
                        }
                        match instantiate(&s, b2) {
                            Ok(Some(v)) => {
                                // facts about all iterations used
                                if v.is_empty() {
                                    continue;
                                }
                                work.extend(v.into_iter().map(|x| (x, Cond::bit(b2))));
                                continue;
                            }
                            Ok(None) => {}
                            Err(m) => {
                                unknown.get_or_insert(m);
                                continue;
                            }
                        }
                        if let Some(v) = alias_cases(&s, b2, false) {
                            work.extend(v.into_iter().map(|x| (x, Cond::bit(b2))));
                            continue;
                        }
                        match falsify(&s, bits::not(b2)) {
                            Ok(m) => return Verdict::Refuted(m),
                            Err(m) if crate::sets::on() => match crate::sets::saturate(&s, b2) {
                                Some(v) => work.extend(v.into_iter().map(|x| (x, Cond::bit(b2)))),
                                None => {
                                    unknown.get_or_insert(m);
                                }
                            },
                            Err(m) => match alias_cases(&s, b2, true) {
                                Some(v) => work.extend(v.into_iter().map(|x| (x, Cond::bit(b2)))),
                                None => {
                                    unknown.get_or_insert(m);
                                }
                            },
                        }
                    }
                    Err(Need::Fail(m)) => {
                        unknown.get_or_insert(m);
                    }
                    Err(n) => {
                        if let Some(v) = split_plain(&s, &n) {
                            work.extend(v.into_iter().map(|x| (x, c.clone())));
                        } else {
                            unknown.get_or_insert("case split failed".into());
                        }
                    }
                }
            }
            Cond::Top => {
                unknown.get_or_insert("unknown condition".into());
            }
            _ => {
                let neg = s.clone().assume(&c.not());
                for mut n in neg {
                    // bring the path condition over base symbols
                    match n.clone().renorm_force(n.bitpc, true) {
                        Ok(pc) => n.bitpc = pc,
                        Err(Need::Fail(m)) => {
                            unknown.get_or_insert(m);
                            continue;
                        }
                        Err(nd) => {
                            if let Some(v) = split_plain(&n, &nd) {
                                work.extend(v.into_iter().map(|x| (x, Cond::B(false))));
                            }
                            continue;
                        }
                    }
                    if n.bitpc == bits::F {
                        continue;
                    }
                    match falsify(&n, bits::T) {
                        Ok(m) => return Verdict::Refuted(m),
                        Err(m) => {
                            let more = if crate::sets::on() { crate::sets::saturate(&n, bits::T) } else { None };
                            match more {
                                Some(v) => work.extend(v.into_iter().map(|x| (x, Cond::B(false)))),
                                None => {
                                    unknown.get_or_insert(m);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    match unknown {
        None => Verdict::Proved,
        Some(m) => Verdict::Unknown(m),
    }
}

/// Distinguish whether two elements that the condition talks about are the same one.
fn alias_cases<'tcx>(s: &State<'tcx>, b: Bdd, all: bool) -> Option<Vec<State<'tcx>>> {
    let mut idx: Vec<(u32, Lin)> = vec![];
    let mut seen: HashSet<(u32, Lin)> = HashSet::new();
    let mut goal = 0;
    for f in [b, s.bitpc] {
        for v in bits::base_support(f) {
            if let BitVar::Sel { arr, idx: i, .. } = v {
                if !seen.insert((arr, i.clone())) {
                    continue;
                }
                let e = (arr, s.norm(&i));
                if !idx.contains(&e) {
                    idx.push(e);
                }
            }
        }
        if f == b && goal == 0 {
            goal = idx.len();
        }
    }
    // pairs involving the condition itself, or all of them
    let pairs = (0..idx.len()).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|(_, j)| all || *j < goal);
    {
        for (i, j) in pairs {
            if idx[i].0 != idx[j].0 {
                continue;
            }
            let d = idx[i].1.sub(&idx[j].1);
            if d.is_const() {
                continue;
            }
            let c = Cond::Eq(d.clone());
            match s.decide(&c) {
                Some(true) => {
                    let mut s2 = s.clone();
                    return if s2.add_eq(&d) { Some(vec![s2]) } else { Some(vec![]) };
                }
                Some(false) => {}
                None => return split_plain(s, &Need::Cond(c)),
            }
        }
    }
    None
}
pub fn split_plain<'tcx>(s: &State<'tcx>, n: &Need) -> Option<Vec<State<'tcx>>> {
    match n {
        Need::Cond(c) => {
            let mut v = s.clone().assume(c);
            v.extend(s.clone().assume(&c.not()));
            if v.len() == 1 && v[0].cons.len() == s.cons.len() && v[0].eqs.len() == s.eqs.len() && v[0].bitpc == s.bitpc {
                return None;
            }
            Some(v)
        }
        Need::Concretize(l) => s.clone().concretize(l).ok(),
        Need::Fail(_) => None,
    }
}

/// Use the facts that hold for all iterations of a loop at the indices that `b` talks about.
/// `None` when nothing new is learnt; otherwise the refined states.
fn instantiate<'tcx>(s: &State<'tcx>, b: Bdd) -> Result<Option<Vec<State<'tcx>>>, String> {
    if s.foralls.is_empty() {
        return Ok(None);
    }
    let mut goal_idx: Vec<(u32, Lin)> = vec![];
    for f in [b, s.bitpc] {
        for v in bits::base_support(f) {
            if let BitVar::Sel { arr, idx, .. } = v {
                if !goal_idx.contains(&(arr, idx.clone())) {
                    goal_idx.push((arr, idx));
                }
            }
        }
        if !goal_idx.is_empty() {
            break;
        }
    }
    for f in s.foralls.iter() {
        // solve the indices used by the fact for the iteration number
        let mut terms: Vec<Lin> = vec![];
        for v in bits::base_support(f.cond) {
            let BitVar::Sel { arr, idx, .. } = v else { continue };
            let k = idx.coef(f.t);
            if k.is_zero() {
                continue;
            }
            for (ga, gi) in &goal_idx {
                if *ga != arr {
                    continue;
                }
                // gi = idx[t := x]  =>  x = (gi - idx[t:=0]) / k
                let rest = idx.subst(f.t, &Lin::zero());
                let x = s.norm(&gi.sub(&rest).scale(Rat::ONE.div(k)));
                if x.t.iter().all(|(_, c)| c.is_int()) && x.c.is_int() {
                    terms.push(x);
                } else {
                    // within the block: gi - rest = k*x + r, 0 <= r < |k|
                    let d = s.norm(&gi.sub(&rest));
                    let mut s2 = s.clone();
                    if k.is_int() && k.n > 1 {
                        let (q, r) = s2.divmod(&d, k.n);
                        match s2.norm(&r).as_int() {
                            Some(0) => terms.push(s2.norm(&q)),
                            Some(_) => {}
                            None => {
                                return match s2.concretize(&r) {
                                    Ok(v) => Ok(Some(v)),
                                    Err(m) => Err(m),
                                }
                            }
                        }
                    }
                }
            }
        }
        terms.sort_by_key(|l| format!("{}", l));
        terms.dedup();
        for x in terms {
            let inst = subst_bdd(f.cond, f.t, &x);
            let mut s2 = s.clone();
            for v in x.vars() {
                s2.add_quot(v);
            }
            match (s2.decide(&Cond::Ge(x.clone()).simp()), s2.decide(&Cond::Ge(f.n.sub(&x).addc(-1)).simp())) {
                (Some(false), _) | (_, Some(false)) => continue,
                (Some(true), Some(true)) => {
                    let i2 = match s2.renorm_force(inst, true) {
                        Ok(b) => b,
                        Err(Need::Fail(_)) => continue,
                        Err(n) => return Ok(split_plain(&s2, &n)),
                    };
                    let pc = bits::and(s2.bitpc, i2);
                    if pc == bits::F {
                        return Ok(Some(vec![]));
                    }
                    if pc != s2.bitpc {
                        s2.bitpc = pc;
                        return Ok(Some(vec![s2]));
                    }
                }
                (a, _) => {
                    let c = if a.is_none() { Cond::Ge(x.clone()) } else { Cond::Ge(f.n.sub(&x).addc(-1)) };
                    return Ok(split_plain(&s2, &Need::Cond(c)));
                }
            }
        }
    }
    Ok(None)
}
pub fn subst_bdd(b: Bdd, t: V, x: &Lin) -> Bdd {
    let mut m = BTreeMap::new();
    m.insert(t, x.clone());
    Sub { lin: &|l| l.subst_map(&m), arr: &no_arr, bit: &no_bit }.bdd(b)
}

/// Find concrete quantities and bits that the state allows and that make `extra` true.
pub fn falsify(s: &State<'_>, extra: Bdd) -> Result<String, String> {
    if let Some(m) = &s.lost {
        return Err(format!("imprecise: {}", m));
    }
    if let Some(m) = &s.imprecise {
        return Err(format!("imprecise: {}", m));
    }
    if crate::maps::on() && extra == bits::T && s.bitpc == bits::T {
        return crate::maps::falsify(s);
    }
    let mut lins: Vec<Lin> = s.cons.iter().map(|c| c.l.clone()).collect();
    // definitional facts of all symbols involved
    let mut vars: BTreeSet<V> = lins.iter().flat_map(|l| l.vars()).collect();
    for (v, e) in s.eqs.iter() {
        vars.insert(*v);
        vars.extend(e.vars());
    }
    let b = bits::and(s.bitpc, extra);
    // symbols for the values of words
    let mut links: Vec<(V, Word)> = vec![];
    for v in &vars {
        if let Some(w) = word_def(*v) {
            match s.clone().renorm_word(&w, false) {
                Ok(w) => links.push((*v, w)),
                Err(_) => return Err("value of an unknown word involved".into()),
            }
        }
    }
    let mut all: BTreeSet<Bdd> = links.iter().flat_map(|l| l.1.iter().copied()).collect();
    all.insert(b);
    for v in all.into_iter().flat_map(bits::base_support) {
        match v {
            BitVar::Sel { arr, idx, .. } => {
                vars.extend(s.norm(&idx).vars());
                if !matches!(arr_node(arr), ArrNode::Base { taint: false, .. }) {
                    return Err("unknown array contents involved".into());
                }
            }
            BitVar::Waste { arr, q, .. } => {
                vars.extend(s.norm(&q).vars());
                if !matches!(arr_node(arr), ArrNode::Base { taint: false, .. }) {
                    return Err("unknown array contents involved".into());
                }
            }
            BitVar::Named { taint: true, .. } => return Err("unknown value involved".into()),
            _ => {}
        }
    }
    for f in s.foralls.iter() {
        vars.extend(f.n.vars());
    }
    let mut todo: Vec<V> = vars.iter().copied().collect();
    while let Some(v) = todo.pop() {
        for f in facts_of(v) {
            let f = s.norm(&f);
            if !f.is_const() {
                for x in f.vars() {
                    if vars.insert(x) {
                        todo.push(x);
                    }
                }
                if !lins.contains(&f) {
                    lins.push(f);
                }
            }
        }
        for x in mono_factors(v) {
            if vars.insert(x) {
                todo.push(x);
            }
        }
    }
    if vars.iter().any(|v| word_def(*v).is_some() && !links.iter().any(|l| l.0 == *v)) {
        return Err("value of an unknown word involved".into());
    }
    if let Some(v) = vars.iter().find(|v| var_taint(**v)) {
        return Err(format!("unknown quantity {} involved", var_name(*v)));
    }
    // the eliminated symbols are integers too
    let free: Vec<V> = lins.iter().flat_map(|l| l.vars()).collect::<BTreeSet<V>>().into_iter().collect();
    let mut aux = vec![];
    for (v, e) in s.eqs.iter() {
        if e.t.iter().any(|(_, c)| !c.is_int()) || !e.c.is_int() {
            let l = Lin::var(*v).sub(e);
            aux.push(l.clone());
            aux.push(l.neg());
        }
    }
    let nvs: BTreeSet<V> = free.iter().copied().filter(|v| var_name(*v).starts_with("NUM_VARIANTS")).collect();
    let mut last = "no concrete example found".to_string();
    for lim in [8i128, 40, 300, 1 << 20, i128::MAX] {
        let mut cs = lins.clone();
        cs.extend(aux.iter().cloned());
        if lim != i128::MAX {
            for v in &free {
                if !nvs.contains(v) {
                    cs.push(Lin::var(*v).neg().addc(lim));
                    cs.push(Lin::var(*v).addc(lim));
                }
            }
        }
        if cfg_b() > 0 && cfg_b() < 64 {
            for v in &nvs {
                cs.push(Lin::var(*v).addc(-(1i128 << cfg_b())));
            }
        }
        let model = match lp::int_model(&cs, 300) {
            lp::Res::Model(m) => m,
            _ => continue,
        };
        let ev = |v: V| -> Rat { model.get(&v).copied().unwrap_or(Rat::int(0)) };
        // re-check everything
        if lins.iter().chain(aux.iter()).any(|l| {
            let x = l.eval(&ev);
            x.cmp(Rat::int(0)) == std::cmp::Ordering::Less
        }) {
            continue;
        }
        if vars.iter().any(|v| !ev(*v).is_int() && !s.eqs.iter().any(|e| e.0 == *v)) {
            continue;
        }
        // products
        let val = |v: V| -> Rat {
            match s.eqs.iter().find(|e| e.0 == v) {
                Some((_, e)) => e.eval(&ev),
                None => ev(v),
            }
        };
        let mut bad = false;
        for v in &vars {
            let f = mono_factors(*v);
            if f.len() > 1 {
                let p = f.iter().fold(Rat::int(1), |a, x| a.mul(val(*x)));
                if p != val(*v) {
                    bad = true;
                }
            }
        }
        if bad {
            last = "products of unknowns involved".into();
            continue;
        }
        // bits under the model: equal indices are the same element
        let mut names: HashMap<(u32, i128, u16, bool), Bdd> = HashMap::new();
        let conc = |b: Bdd, names: &mut HashMap<(u32, i128, u16, bool), Bdd>| -> Bdd {
            bits::map_vars(b, &mut |v| match v {
                BitVar::Sel { arr, idx, bit } => {
                    let i = s.norm(idx).eval(&ev).floor();
                    *names.entry((*arr, i, *bit, false)).or_insert_with(|| bits::var(BitVar::Sel { arr: *arr, idx: Lin::int(i), bit: *bit }))
                }
                BitVar::Waste { arr, q, bit } => {
                    let i = s.norm(q).eval(&ev).floor();
                    *names.entry((*arr, i, *bit, true)).or_insert_with(|| bits::var(BitVar::Waste { arr: *arr, q: Lin::int(i), bit: *bit }))
                }
                o => bits::var(o.clone()),
            })
        };
        let mut f = conc(b, &mut names);
        let mut ok = true;
        for (v, w) in &links {
            let x = val(*v);
            if !x.is_int() || x.n < 0 {
                ok = false;
                break;
            }
            for (i, b) in w.iter().enumerate() {
                let b = conc(*b, &mut names);
                f = bits::and(f, if (x.n >> i) & 1 == 1 { b } else { bits::not(b) });
            }
        }
        for fa in s.foralls.iter() {
            let n = s.norm(&fa.n).eval(&ev).floor();
            if n > 64 {
                ok = false;
                break;
            }
            for i in 0..n {
                let mut c = subst_bdd(fa.cond, fa.t, &Lin::int(i));
                let mut s2 = s.clone();
                // pin every symbol to its model value, so that reads resolve
                for v in &vars {
                    if !s2.add_eq(&Lin::var(*v).sub(&Lin { t: vec![], c: val(*v) })) {
                        ok = false;
                    }
                }
                match s2.renorm_force(c, true) {
                    Ok(x) => c = x,
                    Err(_) => ok = false,
                }
                f = bits::and(f, conc(c, &mut names));
            }
        }
        if !ok {
            last = "loop facts not checkable on the example".into();
            continue;
        }
        for v in bits::base_support(f) {
            if let BitVar::Sel { arr, .. } | BitVar::Waste { arr, .. } = v {
                if !matches!(arr_node(arr), ArrNode::Base { taint: false, .. }) {
                    return Err("unknown array contents involved".into());
                }
            }
        }
        let mut solved = None;
        if !bits::xor_independent(f) {
            if !crate::sets::on() {
                solved = bits::sat_affine(f);
            }
            if solved.is_none() {
                if bits::support(f).len() > 40 {
                    last = "boolean condition too large".into();
                    continue;
                }
                f = bits::expand(f);
            }
        }
        let found = match solved {
            Some(x) => x,
            None if crate::sets::on() => {
                let at = |l: &Lin| s.norm(l).eval(&ev).floor();
                crate::sets::realise(s, &at, f)
            }
            None => bits::sat_one(f),
        };
        match found {
            None => continue,
            Some(a) => {
                let mut d: Vec<String> = vec![];
                for v in &vars {
                    let n = var_name(*v);
                    if mono_factors(*v).len() > 1 || n.contains('/') || n.starts_with("NUM_VARIANTS") {
                        continue;
                    }
                    d.push(format!("{}={}", n, show_rat(val(*v))));
                }
                d.truncate(12);
                let mut e: Vec<String> = a
                    .iter()
                    .filter_map(|(v, x)| match v {
                        BitVar::Sel { arr, idx, bit } => Some(format!("{}[{}].{}={}", arr_name(*arr), idx, bit, *x as u8)),
                        BitVar::Waste { arr, q, bit } => Some(format!("{}.block[{}].bit{}={}", arr_name(*arr), q, bit, *x as u8)),
                        BitVar::Named { id, bit, .. } => Some(format!("{}.{}={}", bits::id_name(*id), bit, *x as u8)),
                        _ => None,
                    })
                    .collect();
                e.sort();
                e.truncate(8);
                return Ok(format!("{}{}{}", d.join(" "), if e.is_empty() { "" } else { "; " }, e.join(" ")));
            }
        }
    }
    Err(last)
}
fn show_rat(r: Rat) -> String {
    if r.is_int() {
        format!("{}", r.n)
    } else {
        format!("{}/{}", r.n, r.d)
    }
}
