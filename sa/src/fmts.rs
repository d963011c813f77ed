//! Formatting: the debug builders of core as a log of entries.
use crate::interp::*;
use crate::models::Info;
use crate::state::*;
use crate::val::*;
use rustc_middle::ty::{Instance, Ty};
use std::rc::Rc;

/// Stages of a formatter (the `id` of the log).
pub const UNTOUCHED: u32 = 0;
pub const LIST: u32 = 1;
pub const SET: u32 = 2;
pub const LIST_DONE: u32 = 3;
pub const SET_DONE: u32 = 4;
pub const OTHER: u32 = 9;

fn fail<T>(m: &str) -> R<T> {
    Err(Need::Fail(m.to_string()))
}
/// The formatter behind a reference, or a reference to a builder (which stands for its formatter).
fn the_log<'tcx>(s: &mut State<'tcx>, v: &Val) -> R<(Rc<Ptr>, Rc<Opq>)> {
    let Val::Ref(p) = v else { return fail("formatter") };
    match s.read_ptr(p)? {
        Val::Opq(o) if matches!(&*o, Opq::Hasher { .. }) => Ok((p.clone(), o)),
        x @ Val::Ref(_) => the_log(s, &x),
        _ => fail("formatter"),
    }
}
fn value<'tcx>(s: &mut State<'tcx>, v: &Val) -> R<Val> {
    match v {
        Val::Ref(p) => {
            let x = s.read_ptr(p)?;
            value(s, &x)
        }
        x => Ok(x.clone()),
    }
}
pub fn native<'tcx>(e: &mut Eng<'tcx>, st: State<'tcx>, info: &Info, inst: Instance<'tcx>, vals: &[Val], _at: &[Ty<'tcx>]) -> Option<Outs<'tcx>> {
    let (head, tr, name) = (info.head.as_str(), info.tr.as_str(), info.name.as_str());
    let stage = |e: &mut Eng<'tcx>, st: State<'tcx>, from: Vec<u32>, to: u32, out: Option<Val>| {
        let f = vals[0].clone();
        e.simple(st, move |_, s| {
            let (p, o) = the_log(s, &f)?;
            let Opq::Hasher { id, n, log } = &*o else { return fail("formatter") };
            let to = if from.contains(id) { to } else { OTHER };
            s.write_ptr(&p, Val::Opq(Rc::new(Opq::Hasher { id: to, n: n.clone(), log: *log })))?;
            Ok(out.clone().unwrap_or(Val::Ref(p)))
        })
    };
    let done = || Some(agg(0, vec![unit()]));
    Some(match (head, tr, name) {
        ("Formatter", "", "debug_list") => stage(e, st, vec![UNTOUCHED], LIST, None),
        ("Formatter", "", "debug_set") => stage(e, st, vec![UNTOUCHED], SET, None),
        ("DebugList", "", "finish") => stage(e, st, vec![LIST], LIST_DONE, done()),
        ("DebugSet", "", "finish") => stage(e, st, vec![SET], SET_DONE, done()),
        ("DebugList" | "DebugSet", "", "entry") => e.simple(st, |_, s| {
            let (p, o) = the_log(s, &vals[0])?;
            let Opq::Hasher { id, n, log } = &*o else { return fail("formatter") };
            let v = value(s, &vals[1])?;
            let log = s.write_val(*log, n, v);
            let n = s.norm(&n.addc(1));
            s.write_ptr(&p, Val::Opq(Rc::new(Opq::Hasher { id: *id, n, log })))?;
            Ok(Val::Ref(p))
        }),
        ("DebugList" | "DebugSet", "", "entries") => {
            let m = if head == "DebugList" { "list_entries" } else { "set_entries" };
            let args: Vec<_> = inst.args.types().map(|t| t.into()).collect();
            let args = [args[0], args[1]];
            let f = vals[0].clone();
            let mut out = vec![];
            for (mut s, o) in e.call_model(st, m, &args, vals.to_vec()) {
                match o {
                    Outcome::Ret(_) => {
                        let v = the_log(&mut s, &f).map(|x| Val::Ref(x.0)).unwrap_or(Val::Top);
                        out.push((s, Outcome::Ret(v)))
                    }
                    o => out.push((s, o)),
                }
            }
            out
        }
        ("[T]", "Debug", "fmt") => {
            let t = inst.args.types().next()?;
            e.call_model(st, "slice_debug", &[t.into()], vals.to_vec())
        }
        ("Vec", "Debug", "fmt") => {
            let t = inst.args.types().next()?;
            e.call_model(st, "vec_debug", &[t.into()], vals.to_vec())
        }
        ("Formatter", _, "write_str" | "write_fmt" | "pad" | "pad_integral" | "write_char" | "debug_struct" | "debug_tuple" | "debug_map") | ("DebugList" | "DebugSet", _, _) => stage(e, st, vec![], OTHER, Some(Val::Top)),
        _ => return None,
    })
}
