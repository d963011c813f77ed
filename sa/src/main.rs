#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

mod api;
mod arith;
mod bits;
mod consts;
mod fmts;
mod interp;
mod lin;
mod loops;
mod lp;
mod maps;
mod models;
mod seqs;
mod sets;
mod specs;
mod state;
mod val;
mod vecs;

use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;
use std::io::Write;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        drive(tcx);
        rustc_driver::Compilation::Stop
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}
pub const OPS: &[&str] = &[
    "new", "default", "with_capacity", "capacity", "get", "set", "reserve", "shrink_to_fit", "truncate", "swap_remove", "insert",
    "remove", "retain", "push", "pop", "append", "clear", "len", "is_empty", "split_off", "resize", "swap", "for_each", "to_vec",
    "into_vec", "from_elem", "from_slice", "from_vec", "from_iter", "extend", "macro_elem", "macro_list", "any", "all", "eq", "ne",
    "hash", "clone", "clone_from", "iter", "iter_ref", "into_iter", "it_next", "it_next_back", "it_nth", "it_size", "it_len",
    "it_count", "ii_next", "ii_next_back", "ii_nth", "ii_size", "ii_len", "ii_count",
];
/// What the vector inside an owning iterator looks like is not observable by
/// itself.  Where the iterator changes that vector, the single-step contracts
/// (which assume it untouched) do not describe it: they are left open and the
/// iterator is decided by the histories starting from `into_iter`.
fn iterator_inside(e: &mut interp::Eng<'_>, scale: u64, m: &str, op: &str, n0: usize) {
    const UNDER: &str = "under the iterator";
    let refuted = |o: &interp::Obl| matches!(o.verdict, interp::Verdict::Refuted(_));
    let mut owns = false;
    if op.starts_with("ii_") && e.obls[n0..].iter().any(refuted) {
        owns = e.obls[n0..].iter().any(|o| refuted(o) && o.what.contains(UNDER));
        for other in ["ii_next", "ii_next_back", "ii_nth"] {
            if owns || other == op {
                continue;
            }
            let n1 = e.obls.len();
            guarded(e, scale, m, &["*"], |e| e.check_op(m, other, true));
            owns = e.obls[n1..].iter().any(|o| o.what.contains(UNDER) && !matches!(o.verdict, interp::Verdict::Proved));
            e.obls.truncate(n1);
        }
    }
    for o in e.obls[n0..].iter_mut() {
        if refuted(o) && (owns || o.what.contains(UNDER)) {
            o.verdict = interp::Verdict::Unknown("the iterator changes the vector it owns".to_string());
        }
    }
}

/// Run one analysis within its budget; whatever goes wrong inside is an open obligation.
fn guarded<'tcx>(e: &mut interp::Eng<'tcx>, scale: u64, site: &str, props: &[&str], f: impl FnOnce(&mut interp::Eng<'tcx>)) {
    bits::set_budget(6_000_000 * scale);
    lp::set_budget(20_000_000 * scale);
    e.max_steps = e.steps + 200_000 * scale;
    let secs: u64 = std::env::var("SA_OP_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(3600);
    let until: u64 = std::env::var("SA_UNTIL").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    if now >= until {
        for p in props {
            e.push_unknown(p, site, "analysis completed", "no time left");
        }
        return;
    }
    interp::set_deadline(Some(std::time::Instant::now() + std::time::Duration::from_secs(secs.min(until - now + 30))));
    let n0 = e.obls.len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(e)));
    bits::set_budget(u64::MAX);
    lp::set_budget(u64::MAX);
    interp::set_deadline(None);
    if let Err(p) = r {
        let m = match p.downcast_ref::<interp::OutOfBudget>() {
            Some(m) => m.0.to_string(),
            None => match (p.downcast_ref::<String>(), p.downcast_ref::<&str>()) {
                (Some(s), _) => format!("internal: {}", s),
                (_, Some(s)) => format!("internal: {}", s),
                _ => "internal error".to_string(),
            },
        };
        e.reset();
        let _ = n0;
        for p in props {
            e.push_unknown(p, site, "analysis completed", &m);
        }
    }
}
fn drive(tcx: TyCtxt<'_>) {
    let var = |n: &str, d: &str| std::env::var(n).unwrap_or(d.to_string());
    let dev = std::env::var("SA_TASKS").is_err();
    let tasks: Vec<String> = match std::env::var("SA_TASKS") {
        Ok(p) => std::fs::read_to_string(p).expect("task file").lines().map(|l| l.to_string()).collect(),
        Err(_) if std::env::var("SA_TASK").is_ok() => var("SA_TASK", "").split(';').map(|l| l.to_string()).collect(),
        Err(_) => {
            let mut v = vec![];
            for m in var("SA_MODS", "ops_u32:32").split(',') {
                let (m, w) = m.split_once(':').unwrap();
                for b in var("SA_B", "3").split(',') {
                    for rel in var("SA_REL", "0").split(',') {
                        let ops = var("SA_OPS", "");
                        let ops = if ops.is_empty() { OPS.join(",") } else { ops };
                        v.push(format!("vec {} {} {} {} {}", m, w, b, rel, ops));
                    }
                }
            }
            v
        }
    };
    let mut out: Box<dyn Write> = match std::env::var("SA_OUT") {
        Ok(p) => Box::new(std::io::BufWriter::new(std::fs::File::create(p).expect("output file"))),
        Err(_) => Box::new(std::io::stdout()),
    };
    let unroll: usize = var("SA_UNROLL", "2").parse().unwrap();
    let scale: u64 = var("SA_SCALE", "1").parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<interp::OutOfBudget>().is_none() {
            eprintln!("analysis: {}", i);
        }
    }));
    for t in tasks {
        let f: Vec<&str> = t.split_whitespace().collect();
        if f.is_empty() {
            continue;
        }
        let mut e = interp::Eng::new(tcx);
        e.unroll = unroll;
        match f[0] {
            "vec" => {
                let (m, w, b, rel) = (f[1], f[2].parse::<usize>().unwrap(), f[3].parse::<usize>().unwrap(), f[4] == "1");
                e.release = rel;
                e.vec_cfg(w, b);
                for op in f[5].split(',') {
                    let t0 = std::time::Instant::now();
                    let (n0, st0) = (e.obls.len(), e.steps);
                    let site = format!("{}::{}", m, op);
                    let props: &[&str] = &["*"];
                    if let Some(o) = op.strip_prefix("wild_") {
                        guarded(&mut e, scale, &site, props, |e| e.check_wild(m, o));
                    } else if let Some(o) = op.strip_prefix("hint_") {
                        guarded(&mut e, scale, &site, props, |e| e.check_op(m, o, false));
                    } else {
                        guarded(&mut e, scale, &site, props, |e| e.check_op(m, op, true));
                        iterator_inside(&mut e, scale, m, op, n0);
                    }
                    report(&mut out, &e, &format!("{} b={} {}", m, b, if rel { "release" } else { "debug" }), op, n0, e.steps - st0, t0.elapsed(), dev);
                }
            }
            "width" => {
                let (m, w) = (f[1], f[2].parse::<usize>().unwrap());
                let (k, nv) = match f[3].strip_prefix("nv") {
                    Some(n) => (0, Some(n.parse::<i128>().unwrap())),
                    None => (f[3].parse::<usize>().unwrap(), None),
                };
                let t0 = std::time::Instant::now();
                let ops: Vec<&str> = f[4].split(',').collect();
                let n0 = e.obls.len();
                guarded(&mut e, scale, m, &["C03"], |e| e.check_width(m, w, k, nv, &ops));
                report(&mut out, &e, &format!("{} width {}", m, f[3]), "width", n0, e.steps, t0.elapsed(), dev);
            }
            "map" => {
                let (m, p) = (f[1], f[2]);
                for ty in f[3].split(',') {
                    let t0 = std::time::Instant::now();
                    let (n0, st0) = (e.obls.len(), e.steps);
                    guarded(&mut e, scale, &format!("{}::{}", m, ty), &["*"], |e| e.check_map(m, ty, p));
                    e.map_end();
                    for o in e.obls[n0..].iter_mut() {
                        if o.prop == "DISCR" {
                            o.prop = p.to_string();
                        }
                    }
                    report(&mut out, &e, m, ty, n0, e.steps - st0, t0.elapsed(), dev);
                }
            }
            "api" => {
                let t0 = std::time::Instant::now();
                let ms: Vec<&str> = f[1].split(',').collect();
                guarded(&mut e, scale, "interface", &["C12"], |e| e.check_api(&ms));
                report(&mut out, &e, "api", "interface", 0, e.steps, t0.elapsed(), dev);
            }
            "packed" => {
                e.release = f[1] == "1";
                let t0 = std::time::Instant::now();
                for w in [8, 16] {
                    if f.get(2).is_some() {
                        guarded(&mut e, scale, "packed", &["*"], |e| e.check_packed_order(w));
                    } else {
                        guarded(&mut e, scale, "packed", &["*"], |e| e.check_packed(w));
                    }
                    e.map_end();
                }
                for o in e.obls.iter_mut() {
                    if o.prop == "DISCR" {
                        o.prop = if f.get(2).is_some() { "L04" } else { "L03" }.to_string();
                    }
                }
                let what = if f.get(2).is_some() { "order" } else { "round trip" };
                report(&mut out, &e, &format!("packed {}", if e.release { "release" } else { "debug" }), what, 0, e.steps, t0.elapsed(), dev);
            }
            "sets" => {
                e.release = f[1] == "1";
                for op in if f[3] == "all" { sets::SET_OPS.to_vec() } else { f[3].split(',').collect() } {
                    let t0 = std::time::Instant::now();
                    let (n0, st0) = (e.obls.len(), e.steps);
                    guarded(&mut e, scale, &format!("sets::{}", op), &["*"], |e| e.check_sets(&[op], f[2].parse().unwrap()));
                    sets::off();
                    for o in e.obls[n0..].iter_mut() {
                        if o.prop == "DISCR" {
                            o.prop = "S02".to_string();
                        }
                    }
                    report(&mut out, &e, &format!("sets {}", if e.release { "release" } else { "debug" }), op, n0, e.steps - st0, t0.elapsed(), dev);
                }
            }
            "values" => {
                e.release = f[1] == "1";
                let t0 = std::time::Instant::now();
                guarded(&mut e, scale, "values", &["*"], |e| e.check_values(f[2].parse().unwrap()));
                e.map_end();
                for o in e.obls.iter_mut() {
                    if o.prop == "DISCR" {
                        o.prop = "L02".to_string();
                    }
                }
                report(&mut out, &e, &format!("values {}", if e.release { "release" } else { "debug" }), "histories", 0, e.steps, t0.elapsed(), dev);
            }
            "iters" => {
                let (m, w, b) = (f[1], f[2].parse::<usize>().unwrap(), f[3].parse::<usize>().unwrap());
                e.release = f[4] == "1";
                e.vec_cfg(w, b);
                for op in f[6].split(',') {
                    let t0 = std::time::Instant::now();
                    let (n0, st0) = (e.obls.len(), e.steps);
                    guarded(&mut e, scale, &format!("{}::{}", m, op), &["*"], |e| e.check_iters(m, op, f[5].parse().unwrap()));
                    report(&mut out, &e, &format!("{} b={} {}", m, b, if e.release { "release" } else { "debug" }), &format!("{} histories", op), n0, e.steps - st0, t0.elapsed(), dev);
                }
            }
            _ => panic!("unknown task {}", t),
        }
        if dev {
            writeln!(out, "unknown calls: {:?}", e.unknown_calls).unwrap();
        } else {
            for x in &e.touched {
                writeln!(out, "FN\t{}", x).unwrap();
            }
            for x in &e.unknown_calls {
                writeln!(out, "CALL\t{}", x).unwrap();
            }
            let s = &e.stats;
            writeln!(out, "STAT\t{}\t{}\t{}\t{}\t{}", s.loops, s.summarised, s.peeled, s.merges, e.steps).unwrap();
        }
    }
    out.flush().unwrap();
}
#[allow(clippy::too_many_arguments)]
fn report(out: &mut dyn Write, e: &interp::Eng<'_>, cfg: &str, op: &str, n0: usize, steps: u64, dt: std::time::Duration, dev: bool) {
    if !dev {
        writeln!(out, "OP\t{}\t{}\t{}\t{}", cfg, op, steps, dt.as_millis()).unwrap();
        let mut lines: std::collections::BTreeMap<String, u64> = Default::default();
        for o in &e.obls[n0..] {
            let (v, x) = match &o.verdict {
                interp::Verdict::Proved => ("proved", ""),
                interp::Verdict::Refuted(x) => ("refuted", x.as_str()),
                interp::Verdict::Unknown(x) => ("unknown", x.as_str()),
            };
            let c = |s: &str| s.replace(['\t', '\n'], " ");
            *lines.entry(format!("{}\t{}\t{}\t{}\t{}\t{}", o.prop, cfg, c(&o.site), c(&o.what), v, c(x))).or_insert(0) += 1;
        }
        for (l, n) in lines {
            writeln!(out, "OBL\t{}\t{}", l, n).unwrap();
        }
        out.flush().unwrap();
        return;
    }
    let (mut p, mut r, mut u) = (0, 0, 0);
    for o in &e.obls[n0..] {
        match o.verdict {
            interp::Verdict::Proved => p += 1,
            interp::Verdict::Refuted(_) => r += 1,
            _ => u += 1,
        }
    }
    writeln!(out, "{} {:<14} proved {:4} refuted {:3} unknown {:3}  steps {} {:?}", cfg, op, p, r, u, steps, dt).unwrap();
    let mut seen = std::collections::BTreeSet::new();
    for o in &e.obls[n0..] {
        match &o.verdict {
            interp::Verdict::Refuted(x) => writeln!(out, "   REFUTED {} {} [{}]: {}", o.prop, o.what, o.site, x).unwrap(),
            interp::Verdict::Unknown(x) => {
                let l = format!("   unknown {} {} [{}]: {}", o.prop, o.what, o.site, x);
                if seen.insert(l.clone()) && seen.len() < 8 {
                    writeln!(out, "{}", l).unwrap();
                }
            }
            _ => {}
        }
    }
}
fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1] == "rustc" || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    // As cargo's wrapper: compile normally and keep the command line for the analyses.
    if let Ok(p) = std::env::var("SA_SAVE") {
        if std::env::var("CARGO_PKG_NAME").map(|n| n == "probe").unwrap_or(false) && args.iter().any(|a| a == "--crate-name") {
            std::fs::write(p, args.join("\0")).expect("save command line");
        }
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
