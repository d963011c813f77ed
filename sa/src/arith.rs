//! Abstract integer and boolean operations.
use crate::bits::{self, Word};
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_middle::mir::{BinOp, UnOp};

pub type IT = Option<(usize, bool)>;

pub fn mask(bits: usize) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1 << bits) - 1
    }
}
/// Bit pattern of a constant.
pub fn as_const(v: &Val, bits: usize) -> Option<u128> {
    match v {
        Val::Int(IntV::L(l)) => l.as_int().map(|x| (x as u128) & mask(bits)),
        Val::Int(IntV::W(w)) => bits::w_as_const(w),
        Val::Bool(Cond::B(b)) => Some(*b as u128),
        _ => None,
    }
}
pub fn mk_const(p: u128, bits: usize, signed: bool) -> Val {
    let p = p & mask(bits);
    if signed {
        let x = if bits < 128 && p >> (bits - 1) & 1 == 1 { p as i128 - (1i128 << bits) } else { p as i128 };
        return int(Lin::int(x));
    }
    if p > i128::MAX as u128 {
        word(bits::w_const(p, bits))
    } else {
        int(Lin::int(p as i128))
    }
}
fn sval(p: u128, bits: usize, signed: bool) -> i128 {
    if signed && bits < 128 && p >> (bits - 1) & 1 == 1 {
        p as i128 - (1i128 << bits)
    } else {
        p as i128
    }
}
/// As a word of the given width, if the value is not a symbolic linear expression.
pub fn word_of(v: &Val, bits: usize) -> Option<Word> {
    match v {
        Val::Int(IntV::W(w)) => Some(bits::w_resize(w, bits)),
        Val::Bool(Cond::B(b)) => Some(bits::w_const(*b as u128, bits)),
        _ => as_const(v, bits).map(|c| bits::w_const(c, bits)),
    }
}
fn is_sym_lin(v: &Val) -> bool {
    matches!(v, Val::Int(IntV::L(l)) if l.as_int().is_none())
}
fn is_word(v: &Val) -> bool {
    matches!(v, Val::Int(IntV::W(_)))
}
fn fail<T>(m: &str) -> R<T> {
    Err(Need::Fail(m.to_string()))
}
pub fn bounds_of(bits: usize, signed: bool) -> (i128, i128) {
    if signed {
        if bits >= 127 {
            (i128::MIN / 4, i128::MAX / 4)
        } else {
            (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
        }
    } else if bits >= 126 {
        (0, 1i128 << 120)
    } else {
        (0, (1i128 << bits) - 1)
    }
}
pub fn in_range(l: &Lin, bits: usize, signed: bool) -> Cond {
    let (lo, hi) = bounds_of(bits, signed);
    Cond::and(&Cond::Ge(l.addc(-lo)).simp(), &Cond::Ge(l.neg().addc(hi)).simp())
}
/// Bring a mathematical result into the type's range. Returns the value and whether it overflowed.
fn wrap(st: &State<'_>, l: Lin, bits: usize, signed: bool) -> R<(Lin, bool)> {
    let (lo, hi) = bounds_of(bits, signed);
    if st.want(&Cond::Ge(l.addc(-lo)).simp())? {
        if st.want(&Cond::Ge(l.neg().addc(hi)).simp())? {
            return Ok((l, false));
        }
        let k = l.addc(-(hi - lo + 1));
        if st.want(&Cond::Ge(k.neg().addc(hi)).simp())? {
            return Ok((k, true));
        }
        return fail("wrap-around by more than one period");
    }
    let k = l.addc(hi - lo + 1);
    if st.want(&Cond::Ge(k.addc(-lo)).simp())? {
        return Ok((k, true));
    }
    fail("wrap-around by more than one period")
}

/// A product of two symbols, as a symbol of its own.
pub fn product(st: &mut State<'_>, a: &Lin, b: &Lin) -> R<Lin> {
    let a = st.norm(a);
    let b = st.norm(b);
    if let Some(c) = a.as_int() {
        return Ok(b.scale(Rat::int(c)));
    }
    if let Some(c) = b.as_int() {
        return Ok(a.scale(Rat::int(c)));
    }
    if !a.t.iter().chain(b.t.iter()).all(|(_, c)| c.is_int()) || !a.c.is_int() || !b.c.is_int() {
        return fail("product of fractions");
    }
    let mut r = Lin::int(a.c.n * b.c.n);
    r = r.add(&Lin { c: Rat::ZERO, t: b.t.clone() }.scale(a.c));
    r = r.add(&Lin { c: Rat::ZERO, t: a.t.clone() }.scale(b.c));
    for (x, cx) in &a.t {
        for (y, cy) in &b.t {
            let m = monomial(st, *x, *y);
            r = r.add_scaled(&m, cx.mul(*cy));
        }
    }
    Ok(r)
}
pub fn monomial(st: &mut State<'_>, x: V, y: V) -> Lin {
    let mut fs: Vec<V> = mono_factors(x);
    fs.extend(mono_factors(y));
    fs.sort();
    let v = mono_var(&fs);
    let l = Lin::var(v);
    // x, y >= 0 gives x*y >= 0; x >= 1 gives x*y >= y
    let (lx, ly) = (Lin::var(x), Lin::var(y));
    if st.entails_ge(&lx) && st.entails_ge(&ly) {
        st.add_con(l.clone(), true);
        if st.entails_ge(&lx.addc(-1)) {
            st.add_con(l.sub(&ly), true);
        }
        if st.entails_ge(&ly.addc(-1)) {
            st.add_con(l.sub(&lx), true);
        }
    }
    l
}
/// x <= y gives k*x <= k*y for k >= 0: add the products of known inequalities with a symbol
pub fn multiply_facts(st: &mut State<'_>, k: V, vars: &[V]) {
    let cons: Vec<Con> = st.cons.iter().cloned().collect();
    for c in cons {
        if c.l.t.is_empty() || c.l.t.len() > 4 || !c.l.t.iter().all(|(v, _)| vars.contains(v)) {
            continue;
        }
        if let Ok(p) = product(st, &c.l, &Lin::var(k)) {
            st.add_con(p, true);
        }
    }
}

pub fn binop<'tcx>(st: &mut State<'tcx>, op: BinOp, a: &Val, b: &Val, ta: IT, tb: IT, release: bool) -> R<Val> {
    use BinOp::*;
    // booleans
    if let (Val::Bool(x), Val::Bool(y)) = (a, b) {
        return Ok(Val::Bool(match op {
            BitAnd => Cond::and(x, y),
            BitOr => Cond::or(x, y),
            BitXor | Ne | Eq => {
                let e = match (x, y) {
                    (Cond::B(p), q) | (q, Cond::B(p)) => {
                        if *p {
                            q.clone()
                        } else {
                            q.not()
                        }
                    }
                    (Cond::Bit(p), Cond::Bit(q)) => Cond::bit(bits::iff(*p, *q)),
                    (p, q) => Cond::or(&Cond::and(p, q), &Cond::and(&p.not(), &q.not())),
                };
                if matches!(op, Eq) {
                    e
                } else {
                    e.not()
                }
            }
            Lt => Cond::and(&x.not(), y),
            Le => Cond::or(&x.not(), y),
            Gt => Cond::and(x, &y.not()),
            Ge => Cond::or(x, &y.not()),
            _ => return fail("boolean operation"),
        }));
    }
    // pointers
    if let (Val::Ref(p), Val::Ref(q)) = (a, b) {
        let same = p.root == q.root && p.proj.len() == q.proj.len();
        return match op {
            Eq | Ne if *p == *q => Ok(Val::Bool(Cond::B(op == Eq))),
            Eq | Ne if !same => Ok(Val::Bool(Cond::B(op == Ne))),
            _ => fail("pointer comparison"),
        };
    }
    let Some((w, signed)) = ta else {
        return fail(&format!("operands of {:?}: {} {}", op, short(a), short(b)));
    };
    // T values never appear here; unknown operands
    for v in [a, b] {
        if !matches!(v, Val::Int(_)) {
            return fail(&format!("{:?} on {}", op, short(v)));
        }
    }
    match op {
        Shl | Shr | ShlUnchecked | ShrUnchecked => return shift(st, op, a, b, w, signed, tb),
        _ => {}
    }
    let (ca, cb) = (as_const(a, w), as_const(b, w));
    if let (Some(x), Some(y)) = (ca, cb) {
        return const_binop(op, x, y, w, signed);
    }
    let words = is_word(a) || is_word(b);
    if words && !is_sym_lin(a) && !is_sym_lin(b) {
        let (x, y) = (word_of(a, w).unwrap(), word_of(b, w).unwrap());
        return word_binop(op, &x, &y, w, signed, ca, cb);
    }
    if words {
        if signed {
            return fail(&format!("{:?} on a linear expression and a word", op));
        }
        if matches!(op, BitAnd | BitOr | BitXor) {
            let mut g = |v: &Val| match v {
                Val::Int(IntV::L(l)) => st.lin_word(l, w),
                _ => word_of(v, w).ok_or_else(|| Need::Fail("operands".into())),
            };
            let (x, y) = (g(a)?, g(b)?);
            return word_binop(op, &x, &y, w, signed, None, None);
        }
        let mut g = |v: &Val| match v {
            Val::Int(IntV::W(x)) => st.word_lin(x).map(int),
            _ => Ok(v.clone()),
        };
        let (x, y) = (g(a)?, g(b)?);
        return binop(st, op, &x, &y, ta, tb, release);
    }
    let (Some(x), Some(y)) = (a.lin(), b.lin()) else { return fail("operands") };
    Ok(match op {
        Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked | AddWithOverflow | SubWithOverflow | MulWithOverflow => {
            let r = match op {
                Add | AddUnchecked | AddWithOverflow => x.add(&y),
                Sub | SubUnchecked | SubWithOverflow => x.sub(&y),
                _ => product(st, &x, &y)?,
            };
            let mulbig = matches!(op, Mul | MulUnchecked | MulWithOverflow);
            let r = if mulbig && !release {
                // a product may overflow by several periods; only the flag matters in checked mode
                let (lo, hi) = bounds_of(w, signed);
                let ok = st.want(&Cond::Ge(r.addc(-lo)).simp())? && st.want(&Cond::Ge(r.neg().addc(hi)).simp())?;
                if ok {
                    (r, false)
                } else if matches!(op, MulWithOverflow) {
                    return Ok(agg(0, vec![Val::Top, Val::Bool(Cond::B(true))]));
                } else {
                    return fail("multiplication wraps");
                }
            } else {
                wrap(st, r, w, signed)?
            };
            match op {
                AddWithOverflow | SubWithOverflow | MulWithOverflow => agg(0, vec![int(r.0), Val::Bool(Cond::B(r.1))]),
                _ => int(r.0),
            }
        }
        Div | Rem => {
            let Some(d) = st.norm(&y).as_int() else {
                return sym_div(st, op, &x, &y);
            };
            if d <= 0 {
                return fail("division by a non-positive constant");
            }
            if signed && !st.want(&Cond::Ge(x.clone()).simp())? {
                return fail("division of a negative value");
            }
            let (q, r) = st.divmod(&x, d);
            int(st.norm(if matches!(op, Div) { &q } else { &r }))
        }
        Eq => Val::Bool(Cond::eq(&x, &y)),
        Ne => Val::Bool(Cond::eq(&x, &y).not()),
        Lt => Val::Bool(Cond::lt(&x, &y)),
        Le => Val::Bool(Cond::le(&x, &y)),
        Gt => Val::Bool(Cond::lt(&y, &x)),
        Ge => Val::Bool(Cond::le(&y, &x)),
        Cmp => {
            // Less = -1 (variant 0), Equal (1), Greater (2)
            if st.want(&Cond::lt(&x, &y))? {
                agg(0, vec![])
            } else if st.want(&Cond::eq(&x, &y))? {
                agg(1, vec![])
            } else {
                agg(2, vec![])
            }
        }
        BitAnd | BitOr | BitXor if crate::maps::on() && !signed && ca.is_none() && cb.is_none() => {
            let a = Lin::var(common_var(&x, &y));
            for f in [a.clone(), x.sub(&a), y.sub(&a)] {
                st.add_con(f, true);
            }
            int(match op {
                BitAnd => a,
                BitOr => st.norm(&x.add(&y).sub(&a)),
                _ => st.norm(&x.add(&y).add_scaled(&a, Rat::int(-2))),
            })
        }
        BitAnd => {
            // masks of the form 2^k - 1, or their complement
            let (v, c) = match (ca, cb) {
                (Some(c), None) => (y, c),
                (None, Some(c)) => (x, c),
                _ => return fail("bitwise and of linear expressions"),
            };
            if signed {
                return fail("bitwise and of a signed linear expression");
            }
            int(and_mask(st, &v, c & mask(w), w)?)
        }
        BitOr | BitXor if ca == Some(0) => int(y),
        BitOr | BitXor if cb == Some(0) => int(x),
        BitOr | BitXor if !signed && (ca.is_some() || cb.is_some()) => {
            let (v, c) = if let Some(c) = ca { (y, c) } else { (x, cb.unwrap()) };
            let both = and_mask(st, &v, c & mask(w), w)?;
            // the common bits are counted once, or not at all
            let r = v.add(&Lin::int((c & mask(w)) as i128)).add_scaled(&both, Rat::int(if op == BitOr { -1 } else { -2 }));
            int(st.norm(&r))
        }
        _ => return fail(&format!("{:?} on linear expressions", op)),
    })
}

/// The bits of `v` selected by a constant, run by run: remainders of powers of two.
fn and_mask<'tcx>(st: &mut State<'tcx>, v: &Lin, c: u128, w: usize) -> R<Lin> {
    let mut r = Lin::zero();
    let (mut lo, mut runs) = (0, 0);
    while lo < w {
        if (c >> lo) & 1 == 0 {
            lo += 1;
            continue;
        }
        let mut hi = lo;
        while hi < w && (c >> hi) & 1 == 1 {
            hi += 1;
        }
        runs += 1;
        if runs > 4 || w > 64 {
            return fail("bitwise operation of a linear expression");
        }
        let top = if hi == w { v.clone() } else { st.divmod(v, 1i128 << hi).1 };
        let low = if lo == 0 { Lin::zero() } else { st.divmod(v, 1i128 << lo).1 };
        r = st.norm(&r.add(&top).sub(&low));
        lo = hi;
    }
    Ok(r)
}
fn sym_div<'tcx>(st: &mut State<'tcx>, op: BinOp, x: &Lin, d: &Lin) -> R<Val> {
    let (q, r) = sym_divmod(st, x, d)?;
    Ok(int(if matches!(op, BinOp::Div) { q } else { r }))
}
/// Division by a positive symbolic divisor.
pub fn sym_divmod<'tcx>(st: &mut State<'tcx>, x: &Lin, d: &Lin) -> R<(Lin, Lin)> {
    let d = st.norm(d);
    let x = st.norm(x);
    if !st.want(&Cond::Ge(d.addc(-1)).simp())? {
        return fail("division by zero");
    }
    if !st.want(&Cond::Ge(x.clone()).simp())? {
        return fail("division of a negative value");
    }
    // try quotients suggested by the monomials of x: x = q*d + r with 0 <= r < d
    let mut cands: Vec<Lin> = vec![Lin::zero()];
    // leading term: the product with most factors
    if let Some((lead, lc)) = d.t.iter().max_by_key(|(v, _)| (mono_factors(*v).len(), *v)).copied() {
        let dv = mono_factors(lead);
        let mut q = Lin::zero();
        let mut qs: Vec<Lin> = vec![];
        let mut r = x.clone();
        for _ in 0..60 {
            let mut step: Option<Lin> = None;
            for (v, c) in &r.t {
                let k = c.div(lc);
                if !k.is_int() {
                    continue;
                }
                let mut fs = mono_factors(*v);
                let ok = dv.iter().all(|f| match fs.iter().position(|g| g == f) {
                    Some(i) => {
                        fs.remove(i);
                        true
                    }
                    None => false,
                });
                if ok {
                    let t = if fs.is_empty() { Lin::int(1) } else { Lin::var(mono_var(&fs)) };
                    step = Some(t.scale(k));
                    break;
                }
            }
            let Some(t) = step else { break };
            let p = product(st, &t, &d)?;
            r = r.sub(&p);
            q = q.add(&t);
            qs.push(t);
        }
        cands.push(q.clone());
        if !q.t.is_empty() || !q.c.is_zero() {
            cands.push(q.addc(-1));
            cands.push(q.addc(1));
        }
        if qs.len() > 1 {
            cands.extend(qs);
        }
    }
    for q in cands {
        if q.t.iter().any(|(_, c)| !c.is_int()) || !q.c.is_int() {
            continue;
        }
        let p = product(st, &q, &d)?;
        let r = st.norm(&x.sub(&p));
        let dvars: Vec<V> = d.vars().collect();
        let _ = dvars;
        if st.entails_ge(&r) && st.entails_ge(&d.sub(&r).addc(-1)) {
            return Ok((q, r));
        }
    }
    // fresh quotient with its defining inequalities
    let key = (x.clone(), d.clone());
    let q = symquot_var(&key);
    let qv = Lin::var(q);
    st.add_con(qv.clone(), true);
    let p = product(st, &qv, &d)?;
    let r = st.norm(&x.sub(&p));
    st.add_con(r.clone(), true);
    st.add_con(d.sub(&r).addc(-1), true);
    Ok((qv, r))
}

fn const_binop(op: BinOp, x: u128, y: u128, w: usize, signed: bool) -> R<Val> {
    use BinOp::*;
    let (sx, sy) = (sval(x, w, signed), sval(y, w, signed));
    let m = mask(w);
    let ovf = |r: Option<i128>, wide: u128| -> (u128, bool) {
        // signed or small unsigned: check the mathematical result
        match r {
            Some(v) if signed && w < 128 => {
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                (wide & m, v < lo || v > hi)
            }
            Some(v) if signed => (v as u128, false),
            None if signed => (wide & m, true),
            _ => (wide & m, false),
        }
    };
    let (r, o) = match op {
        Add | AddUnchecked | AddWithOverflow => {
            let (s, c) = x.overflowing_add(y);
            let (v, o) = ovf(sx.checked_add(sy), s);
            if signed { (v, o) } else { (s & m, c || s > m) }
        }
        Sub | SubUnchecked | SubWithOverflow => {
            let s = x.wrapping_sub(y);
            let (v, o) = ovf(sx.checked_sub(sy), s);
            if signed { (v, o) } else { (s & m, x < y) }
        }
        Mul | MulUnchecked | MulWithOverflow => {
            let (s, c) = x.overflowing_mul(y);
            let (v, o) = ovf(sx.checked_mul(sy), s);
            if signed { (v, o) } else { (s & m, c || s > m) }
        }
        Div | Rem => {
            if y == 0 {
                return fail("division by zero");
            }
            let v = if signed {
                (if op == Div { sx.wrapping_div(sy) } else { sx.wrapping_rem(sy) }) as u128
            } else if op == Div {
                x / y
            } else {
                x % y
            };
            (v & m, false)
        }
        BitAnd => (x & y, false),
        BitOr => (x | y, false),
        BitXor => (x ^ y, false),
        Eq | Ne | Lt | Le | Gt | Ge | Cmp => {
            let c = if signed { sx.cmp(&sy) } else { x.cmp(&y) };
            use std::cmp::Ordering as O;
            return Ok(match op {
                Eq => Val::Bool(Cond::B(c == O::Equal)),
                Ne => Val::Bool(Cond::B(c != O::Equal)),
                Lt => Val::Bool(Cond::B(c == O::Less)),
                Le => Val::Bool(Cond::B(c != O::Greater)),
                Gt => Val::Bool(Cond::B(c == O::Greater)),
                Ge => Val::Bool(Cond::B(c != O::Less)),
                _ => agg(match c { O::Less => 0, O::Equal => 1, O::Greater => 2 }, vec![]),
            });
        }
        _ => return fail("operation"),
    };
    let v = mk_const(r, w, signed);
    Ok(match op {
        AddWithOverflow | SubWithOverflow | MulWithOverflow => agg(0, vec![v, Val::Bool(Cond::B(o))]),
        _ => v,
    })
}

fn word_binop(op: BinOp, x: &Word, y: &Word, w: usize, signed: bool, ca: Option<u128>, cb: Option<u128>) -> R<Val> {
    use BinOp::*;
    Ok(match op {
        Add | AddUnchecked => word(bits::w_add(x, y, bits::F).0),
        Sub | SubUnchecked => word(bits::w_sub(x, y).0),
        AddWithOverflow => {
            if signed {
                return fail("signed word arithmetic");
            }
            let (s, c) = bits::w_add(x, y, bits::F);
            agg(0, vec![word(s), Val::Bool(Cond::bit(c))])
        }
        SubWithOverflow => {
            if signed {
                return fail("signed word arithmetic");
            }
            let (s, nb) = bits::w_sub(x, y);
            agg(0, vec![word(s), Val::Bool(Cond::bit(bits::not(nb)))])
        }
        Mul | MulUnchecked | MulWithOverflow => {
            let (v, c) = match (ca, cb) {
                (Some(c), _) => (y, c),
                (_, Some(c)) => (x, c),
                _ => return fail("product of words"),
            };
            if signed {
                return fail("signed word arithmetic");
            }
            let wide = w * 2;
            let v2 = bits::w_resize(v, wide);
            let mut acc = bits::w_const(0, wide);
            for k in 0..w.min(128) {
                if c >> k & 1 == 1 {
                    acc = bits::w_add(&acc, &bits::w_shl(&v2, k), bits::F).0;
                }
            }
            let lo = bits::w_resize(&acc, w);
            if let MulWithOverflow = op {
                let mut o = bits::F;
                for k in w..wide {
                    o = bits::or(o, acc[k]);
                }
                agg(0, vec![word(lo), Val::Bool(Cond::bit(o))])
            } else {
                word(lo)
            }
        }
        Div | Rem => {
            let Some(c) = cb else { return fail("division of words") };
            if c == 0 || c & (c - 1) != 0 || signed {
                return fail("division of a word");
            }
            let k = c.trailing_zeros() as usize;
            if op == Div {
                word(bits::w_shr(x, k))
            } else {
                word(bits::w_resize(&bits::w_resize(x, k), w))
            }
        }
        BitAnd => word(bits::w_map2(x, y, bits::and)),
        BitOr => word(bits::w_map2(x, y, bits::or)),
        BitXor => word(bits::w_map2(x, y, bits::xor)),
        Eq => Val::Bool(Cond::bit(bits::w_eq(x, y))),
        Ne => Val::Bool(Cond::bit(bits::not(bits::w_eq(x, y)))),
        Lt | Le | Gt | Ge => {
            if signed {
                return fail("signed comparison of words");
            }
            let c = match op {
                Lt => bits::w_lt(x, y),
                Gt => bits::w_lt(y, x),
                Le => bits::not(bits::w_lt(y, x)),
                _ => bits::not(bits::w_lt(x, y)),
            };
            Val::Bool(Cond::bit(c))
        }
        Cmp => return fail("three-way comparison of words"),
        _ => return fail("word operation"),
    })
}

fn shift<'tcx>(st: &mut State<'tcx>, op: BinOp, a: &Val, b: &Val, w: usize, signed: bool, tb: IT) -> R<Val> {
    let wb = tb.map(|x| x.0).unwrap_or(64);
    let k = match as_const(b, wb) {
        Some(k) => k,
        None => match b {
            Val::Int(IntV::L(l)) => {
                let n = st.norm(l);
                match n.as_int() {
                    Some(k) => k as u128,
                    None => return Err(Need::Concretize(l.clone())),
                }
            }
            _ => return fail("shift by a word"),
        },
    };
    let k = (k & (w as u128 - 1)) as usize;
    let left = matches!(op, BinOp::Shl | BinOp::ShlUnchecked);
    if k == 0 {
        return Ok(a.clone());
    }
    if let Some(c) = as_const(a, w) {
        let p = if left {
            c << k
        } else if signed {
            (sval(c, w, true) >> k) as u128
        } else {
            c >> k
        };
        return Ok(mk_const(p, w, signed));
    }
    match a {
        Val::Int(IntV::W(x)) => {
            if left {
                Ok(word(bits::w_shl(x, k)))
            } else if signed {
                fail("arithmetic shift of a word")
            } else {
                Ok(word(bits::w_shr(x, k)))
            }
        }
        Val::Int(IntV::L(l)) => {
            if signed {
                return fail("shift of a signed expression");
            }
            if left {
                let r = l.scale(Rat::int(1i128 << k));
                if st.want(&in_range(&r, w, signed))? {
                    Ok(int(r))
                } else {
                    fail("shift drops bits of an expression")
                }
            } else {
                let (q, _) = st.divmod(l, 1i128 << k);
                Ok(int(st.norm(&q)))
            }
        }
        _ => fail("shift"),
    }
}

pub fn unop<'tcx>(_st: &mut State<'tcx>, op: UnOp, a: &Val, ta: IT) -> R<Val> {
    match op {
        UnOp::Not => match (a, ta) {
            (Val::Bool(c), _) => Ok(Val::Bool(c.not())),
            (v, Some((w, s))) => {
                if let Some(c) = as_const(v, w) {
                    return Ok(mk_const(!c, w, s));
                }
                match v {
                    Val::Int(IntV::W(x)) => Ok(word(bits::w_not(x))),
                    Val::Int(IntV::L(l)) if !s && w < 126 => Ok(int(l.neg().addc((1i128 << w) - 1))),
                    _ => fail("negation"),
                }
            }
            _ => fail("negation"),
        },
        UnOp::Neg => match (a, ta) {
            (v, Some((w, s))) => {
                if let Some(c) = as_const(v, w) {
                    return Ok(mk_const(0u128.wrapping_sub(c), w, s));
                }
                match v {
                    Val::Int(IntV::L(l)) if s => Ok(int(l.neg())),
                    _ => fail("arithmetic negation"),
                }
            }
            _ => fail("arithmetic negation"),
        },
        UnOp::PtrMetadata => match a {
            Val::Slice { len, .. } => Ok(int(len.clone())),
            Val::Ref(_) => Ok(unit()),
            _ => fail("pointer metadata"),
        },
    }
}

pub fn int_cast<'tcx>(st: &mut State<'tcx>, v: Val, from: IT, to: IT, from_bool: bool) -> R<Val> {
    let Some((tw, ts)) = to else { return fail("cast") };
    if from_bool {
        return match &v {
            Val::Bool(c) => {
                if let Cond::B(b) = c {
                    return Ok(int(Lin::int(*b as i128)));
                }
                if let Some(b) = st.decide(c) {
                    return Ok(int(Lin::int(b as i128)));
                }
                match c {
                    Cond::Bit(b) => {
                        let mut w = vec![bits::F; tw];
                        w[0] = *b;
                        Ok(word(w.into()))
                    }
                    c => Err(Need::Cond(c.clone())),
                }
            }
            _ => fail("cast of an unknown boolean"),
        };
    }
    let Some((fw, fs)) = from else { return fail("cast") };
    if let Some(c) = as_const(&v, fw) {
        let x = if fs { sval(c, fw, true) as u128 } else { c };
        return Ok(mk_const(x, tw, ts));
    }
    match &v {
        Val::Int(IntV::W(w)) => {
            if fs && tw > fw {
                let top = w[fw - 1];
                let mut o: Vec<_> = w.to_vec();
                o.resize(tw, top);
                return Ok(word(o.into()));
            }
            Ok(word(bits::w_resize(w, tw)))
        }
        Val::Int(IntV::L(l)) => {
            if tw >= fw && !fs && (!ts || tw > fw) {
                return Ok(v.clone());
            }
            if st.want(&in_range(l, tw, ts))? {
                return Ok(v.clone());
            }
            if !fs && !ts && tw < 100 {
                let (_, r) = st.divmod(l, 1i128 << tw);
                return Ok(int(st.norm(&r)));
            }
            if tw < 100 {
                // Modulo 2^tw, then as the target type reads it.
                let r = if fs && tw >= fw {
                    match st.want(&Cond::Ge(l.clone()).simp())? {
                        true => l.clone(),
                        false => l.addc(1i128 << tw),
                    }
                } else if !fs && tw == fw {
                    l.clone()
                } else {
                    st.divmod(l, 1i128 << tw).1
                };
                let r = st.norm(&r);
                if !ts {
                    return Ok(int(r));
                }
                return match st.want(&in_range(&r, tw, true))? {
                    true => Ok(int(r)),
                    false => Ok(int(r.addc(-(1i128 << tw)))),
                };
            }
            fail("narrowing cast of an expression")
        }
        _ => fail(&format!("cast of {}", short(&v))),
    }
}
