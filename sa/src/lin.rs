//! Linear expressions over integer-valued symbols, with rational coefficients.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut a, mut b) = (a as u64, b as u64);
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        return a as i128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

thread_local! {
    /// Set when an arithmetic operation left the representable range; the caller then knows
    /// that the current result is meaningless.
    pub static OVERFLOW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn ov() -> i128 {
    OVERFLOW.with(|o| o.set(true));
    0
}
fn mul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).unwrap_or_else(ov)
}
fn add(a: i128, b: i128) -> i128 {
    a.checked_add(b).unwrap_or_else(ov)
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 {
            ov();
            return Rat::ZERO;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * (n / g), d: s * (d / g) }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn is_int(self) -> bool {
        self.d == 1
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: add(self.n, o.n), d: 1 };
        }
        Rat::new(add(mul(self.n, o.d), mul(o.n, self.d)), mul(self.d, o.d))
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: mul(self.n, o.n), d: 1 };
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat { n: mul(self.n / g1, o.n / g2), d: mul(self.d / g2, o.d / g1).max(1) }
    }
    pub fn div(self, o: Rat) -> Rat {
        self.mul(Rat::new(o.d, o.n))
    }
    pub fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
    pub fn ceil(self) -> i128 {
        -((-self.n).div_euclid(self.d))
    }
    pub fn cmp(self, o: Rat) -> Ordering {
        if self.d == o.d {
            return self.n.cmp(&o.n);
        }
        let l = self.n.checked_mul(o.d);
        let r = o.n.checked_mul(self.d);
        match (l, r) {
            (Some(l), Some(r)) => l.cmp(&r),
            _ => {
                ov();
                Ordering::Equal
            }
        }
    }
    pub fn lt(self, o: Rat) -> bool {
        self.cmp(o) == Ordering::Less
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

pub type V = u32;

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    /// The symbol stands for an over-approximated value (loss of precision).
    pub taint: bool,
}

thread_local! {
    pub static VARS: RefCell<Vec<VarInfo>> = const { RefCell::new(Vec::new()) };
}

pub fn new_var(name: &str, taint: bool) -> V {
    VARS.with(|v| {
        let mut v = v.borrow_mut();
        v.push(VarInfo { name: name.to_string(), taint });
        (v.len() - 1) as V
    })
}
pub fn var_name(v: V) -> String {
    VARS.with(|vs| vs.borrow()[v as usize].name.clone())
}
pub fn var_taint(v: V) -> bool {
    VARS.with(|vs| vs.borrow()[v as usize].taint)
}
pub fn num_vars() -> usize {
    VARS.with(|vs| vs.borrow().len())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub c: Rat,
    pub t: Vec<(V, Rat)>,
}

impl Lin {
    pub fn int(n: i128) -> Lin {
        Lin { c: Rat::int(n), t: vec![] }
    }
    pub fn zero() -> Lin {
        Lin::int(0)
    }
    pub fn var(v: V) -> Lin {
        Lin { c: Rat::ZERO, t: vec![(v, Rat::ONE)] }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_int(&self) -> Option<i128> {
        if self.t.is_empty() && self.c.d == 1 {
            Some(self.c.n)
        } else {
            None
        }
    }
    pub fn coef(&self, v: V) -> Rat {
        match self.t.binary_search_by_key(&v, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => Rat::ZERO,
        }
    }
    pub fn has(&self, v: V) -> bool {
        self.t.binary_search_by_key(&v, |x| x.0).is_ok()
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, Rat::ONE)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, Rat::int(-1))
    }
    pub fn add_scaled(&self, o: &Lin, k: Rat) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                let c = o.t[j].1.mul(k);
                if !c.is_zero() {
                    t.push((o.t[j].0, c));
                }
                j += 1;
            } else {
                let c = self.t[i].1.add(o.t[j].1.mul(k));
                if !c.is_zero() {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { c: self.c.add(o.c.mul(k)), t }
    }
    pub fn scale(&self, k: Rat) -> Lin {
        if k.is_zero() {
            return Lin::zero();
        }
        Lin { c: self.c.mul(k), t: self.t.iter().map(|(v, c)| (*v, c.mul(k))).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(Rat::int(-1))
    }
    pub fn addc(&self, n: i128) -> Lin {
        Lin { c: self.c.add(Rat::int(n)), t: self.t.clone() }
    }
    pub fn subst(&self, v: V, e: &Lin) -> Lin {
        let c = self.coef(v);
        if c.is_zero() {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != v);
        r.add_scaled(e, c)
    }
    pub fn subst_map(&self, m: &BTreeMap<V, Lin>) -> Lin {
        if !self.t.iter().any(|(v, _)| m.contains_key(v)) {
            return self.clone();
        }
        let mut r = Lin { c: self.c, t: vec![] };
        for (v, c) in &self.t {
            match m.get(v) {
                Some(e) => r = r.add_scaled(e, *c),
                None => r = r.add_scaled(&Lin::var(*v), *c),
            }
        }
        r
    }
    pub fn vars(&self) -> impl Iterator<Item = V> + '_ {
        self.t.iter().map(|x| x.0)
    }
    /// The smallest positive integer multiple with integer coefficients.
    pub fn integral(&self) -> Lin {
        let mut l = self.c.d;
        for (_, c) in &self.t {
            l = mul(l / gcd(l, c.d).max(1), c.d);
        }
        if l == 1 {
            self.clone()
        } else {
            self.scale(Rat::int(l))
        }
    }
    /// Tighten `self >= 0` using integrality of the symbols.
    pub fn tighten(&self) -> Lin {
        // scale the coefficients only, then floor the constant
        let mut l = 1i128;
        for (_, c) in &self.t {
            l = mul(l / gcd(l, c.d).max(1), c.d);
        }
        let s = if l == 1 { self.clone() } else { self.scale(Rat::int(l)) };
        let mut g = 0i128;
        for (_, c) in &s.t {
            g = gcd(g, c.n);
        }
        if g == 0 {
            return s;
        }
        Lin {
            c: Rat::int(Rat::new(s.c.n, mul(s.c.d, g)).floor()),
            t: s.t.iter().map(|(v, c)| (*v, Rat::int(c.n / g))).collect(),
        }
    }
    pub fn tainted(&self) -> bool {
        self.t.iter().any(|(v, _)| var_taint(*v))
    }
    pub fn eval(&self, m: &dyn Fn(V) -> Rat) -> Rat {
        let mut r = self.c;
        for (v, c) in &self.t {
            r = r.add(c.mul(m(*v)));
        }
        r
    }
}

impl fmt::Display for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.t.is_empty() {
            return write!(f, "{}", self.c);
        }
        let mut first = true;
        for (v, c) in &self.t {
            let name = var_name(*v);
            let neg = c.n < 0;
            let a = Rat { n: c.n.abs(), d: c.d };
            if first {
                if neg {
                    write!(f, "-")?;
                }
            } else {
                write!(f, "{}", if neg { " - " } else { " + " })?;
            }
            first = false;
            if a == Rat::ONE {
                write!(f, "{}", name)?;
            } else {
                write!(f, "{}*{}", a, name)?;
            }
        }
        if self.c.n != 0 {
            let neg = self.c.n < 0;
            write!(f, "{}{}", if neg { " - " } else { " + " }, Rat { n: self.c.n.abs(), d: self.c.d })?;
        }
        Ok(())
    }
}
