//! Reference values: exact rationals, exact rational multiples of pi, and
//! outward-rounded intervals for everything else.

#[derive(Clone, Copy, Debug)]
pub enum V {
    /// n/d in lowest terms, d > 0
    R(i64, i64),
    /// (n/d)*pi, n != 0
    P(i64, i64),
    /// some value in [lo, hi]
    I(f64, f64),
}
use V::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    /// definitely undefined
    Undef,
    /// not decided by this arithmetic
    Unk,
}
pub type Res = Result<V, No>;

pub const ZERO: V = R(0, 1);
pub const ONE: V = R(1, 1);

fn gcd64(mut a: u64, mut b: u64) -> u64 {
    if a == 0 {
        return b;
    }
    if b == 0 {
        return a;
    }
    let s = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    loop {
        b >>= b.trailing_zeros();
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        b -= a;
        if b == 0 {
            return a << s;
        }
    }
}

fn gcd128(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            return gcd64(a as u64, b as u64) as u128;
        }
        (a, b) = (b, a % b);
    }
    a
}

/// Reduced n/d if it fits.
fn fit(n: i128, d: i128) -> Option<(i64, i64)> {
    let (mut n, mut d) = if d < 0 { (n.checked_neg()?, d.checked_neg()?) } else { (n, d) };
    let g = gcd128(n.unsigned_abs(), d as u128) as i128;
    if g > 1 {
        n /= g;
        d /= g;
    }
    Some((i64::try_from(n).ok()?, i64::try_from(d).ok()?))
}

fn down(x: f64) -> f64 {
    x.next_down().next_down()
}
fn up(x: f64) -> f64 {
    x.next_up().next_up()
}

pub fn iv(lo: f64, hi: f64) -> Res {
    if lo.is_finite() && hi.is_finite() && lo <= hi {
        Ok(I(lo, hi))
    } else {
        Err(No::Unk)
    }
}

pub fn rat(n: i64, d: i64) -> V {
    let (n, d) = fit(n as i128, d as i128).expect("small fraction");
    R(n, d)
}

/// sign * n / d for the wide types of the code under test.
pub fn wide(sign: i64, n: u64, d: u64) -> Res {
    if d == 0 {
        return Err(No::Undef);
    }
    let g = gcd64(n, d).max(1);
    let (n, d) = (n / g, d / g);
    if let (Ok(a), Ok(b)) = (i64::try_from(n), i64::try_from(d)) {
        return Ok(R(sign * a, b));
    }
    let f = sign as f64 * (n as f64 / d as f64);
    iv(f - f.abs() * 1e-15, f + f.abs() * 1e-15)
}

/// A floating-point number of the code under test: its own folding error is
/// allowed for, so that a correctly rounded folding never counts as different.
pub fn real(f: f64) -> Res {
    if !f.is_finite() {
        return Err(No::Undef);
    }
    let w = 1e-12 * f.abs().max(1.0);
    iv(f - w, f + w)
}

/// A floating-point number taken at face value.
pub fn real_exact(f: f64) -> Res {
    if !f.is_finite() {
        return Err(No::Undef);
    }
    if f == f.trunc() && f.abs() < 1e15 {
        return Ok(R(f as i64, 1));
    }
    let k = f * (1u64 << 20) as f64;
    if k == k.trunc() && k.abs() < 1e15 {
        return Ok(rat(k as i64, 1 << 20));
    }
    iv(f, f)
}

impl V {
    pub fn lo_hi(self) -> (f64, f64) {
        match self {
            R(n, d) => {
                if d == 1 && n.unsigned_abs() < (1 << 53) {
                    return (n as f64, n as f64);
                }
                let f = n as f64 / d as f64;
                (down(f), up(f))
            }
            P(n, d) => {
                let f = n as f64 / d as f64 * std::f64::consts::PI;
                (down(down(f)), up(up(f)))
            }
            I(a, b) => (a, b),
        }
    }
    pub fn mid(self) -> f64 {
        let (a, b) = self.lo_hi();
        a + (b - a) / 2.0
    }
    pub fn rad(self) -> f64 {
        let (a, b) = self.lo_hi();
        (b - a) / 2.0
    }
    pub fn exact(self) -> bool {
        !matches!(self, I(..))
    }
    pub fn is_zero(self) -> bool {
        matches!(self, R(0, _))
    }
    pub fn is_one(self) -> bool {
        matches!(self, R(1, 1))
    }
    /// Definitely nonzero
    pub fn nonzero(self) -> bool {
        let (a, b) = self.lo_hi();
        match self {
            R(n, _) => n != 0,
            P(..) => true,
            I(..) => a > 0.0 || b < 0.0,
        }
    }
    pub fn positive(self) -> bool {
        match self {
            R(n, _) | P(n, _) => n > 0,
            I(a, _) => a > 0.0,
        }
    }
    pub fn negative(self) -> bool {
        match self {
            R(n, _) | P(n, _) => n < 0,
            I(_, b) => b < 0.0,
        }
    }
    /// Narrow enough for a comparison with it to mean something.
    pub fn tight(self) -> bool {
        self.rad() <= 1e-6 * self.mid().abs().max(1e-3)
    }
    pub fn show(self) -> String {
        match self {
            R(n, 1) => format!("{n}"),
            R(n, d) => format!("{n}/{d}"),
            P(n, d) => format!("{n}/{d}*pi"),
            I(a, b) => format!("[{a:e}, {b:e}]"),
        }
    }
}

pub fn neg(a: V) -> Res {
    match a {
        R(n, d) => match n.checked_neg() {
            Some(n) => Ok(R(n, d)),
            None => iv(-(n as f64) / d as f64, -(n as f64) / d as f64),
        },
        P(n, d) => match n.checked_neg() {
            Some(n) => Ok(P(n, d)),
            None => {
                let (lo, hi) = a.lo_hi();
                iv(-hi, -lo)
            }
        },
        I(a, b) => Ok(I(-b, -a)),
    }
}

fn add_iv(a: V, b: V) -> Res {
    let ((a, b), (c, d)) = (a.lo_hi(), b.lo_hi());
    iv(down(a + c), up(b + d))
}

fn sum(n1: i64, d1: i64, n2: i64, d2: i64) -> Option<(i64, i64)> {
    if d1 == 1 && d2 == 1 {
        return n1.checked_add(n2).map(|n| (n, 1));
    }
    let a = n1 as i128 * d2 as i128;
    let b = n2 as i128 * d1 as i128;
    fit(a.checked_add(b)?, d1 as i128 * d2 as i128)
}

pub fn add(a: V, b: V) -> Res {
    match (a, b) {
        (R(0, _), x) | (x, R(0, _)) => Ok(x),
        (R(n1, d1), R(n2, d2)) => match sum(n1, d1, n2, d2) {
            Some((n, d)) => Ok(R(n, d)),
            None => add_iv(a, b),
        },
        (P(n1, d1), P(n2, d2)) => match sum(n1, d1, n2, d2) {
            Some((0, _)) => Ok(ZERO),
            Some((n, d)) => Ok(P(n, d)),
            None => add_iv(a, b),
        },
        _ => add_iv(a, b),
    }
}

pub fn sub(a: V, b: V) -> Res {
    add(a, neg(b)?)
}

fn mul_iv(a: V, b: V) -> Res {
    let ((a, b), (c, d)) = (a.lo_hi(), b.lo_hi());
    let p = [a * c, a * d, b * c, b * d];
    let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if p.iter().any(|x| x.is_nan()) {
        return Err(No::Unk);
    }
    iv(down(lo), up(hi))
}

pub fn mul(a: V, b: V) -> Res {
    match (a, b) {
        (R(0, _), _) | (_, R(0, _)) => Ok(ZERO),
        (R(1, 1), x) | (x, R(1, 1)) => Ok(x),
        (R(n1, d1), R(n2, d2)) => {
            match fit(n1 as i128 * n2 as i128, d1 as i128 * d2 as i128) {
                Some((n, d)) => Ok(R(n, d)),
                None => mul_iv(a, b),
            }
        }
        (R(n1, d1), P(n2, d2)) | (P(n1, d1), R(n2, d2)) => {
            match fit(n1 as i128 * n2 as i128, d1 as i128 * d2 as i128) {
                Some((n, d)) => Ok(P(n, d)),
                None => mul_iv(a, b),
            }
        }
        _ => mul_iv(a, b),
    }
}

pub fn inv(a: V) -> Res {
    match a {
        R(0, _) => Err(No::Undef),
        R(n, d) => {
            if n == i64::MIN {
                return Err(No::Unk);
            }
            Ok(if n < 0 { R(-d, -n) } else { R(d, n) })
        }
        _ => {
            let (lo, hi) = a.lo_hi();
            if lo > 0.0 || hi < 0.0 {
                iv(down(1.0 / hi), up(1.0 / lo))
            } else {
                Err(No::Unk)
            }
        }
    }
}

pub fn div(a: V, b: V) -> Res {
    if b.is_zero() {
        return Err(No::Undef);
    }
    match (a, b) {
        (R(0, _), _) => {
            if b.nonzero() {
                Ok(ZERO)
            } else {
                Err(No::Unk)
            }
        }
        (R(n1, d1), R(n2, d2)) | (P(n1, d1), P(n2, d2)) => {
            match fit(n1 as i128 * d2 as i128, d1 as i128 * n2 as i128) {
                Some((n, d)) => Ok(R(n, d)),
                None => mul(a, inv(b)?),
            }
        }
        (P(n1, d1), R(n2, d2)) => match fit(n1 as i128 * d2 as i128, d1 as i128 * n2 as i128) {
            Some((n, d)) => Ok(P(n, d)),
            None => mul_iv(a, inv(b)?),
        },
        _ => mul(a, inv(b)?),
    }
}

fn trig(a: V, f: fn(f64) -> f64) -> Res {
    let (m, r) = (a.mid(), a.rad());
    if m.abs() > 1e9 {
        return Err(No::Unk);
    }
    let s = f(m);
    let w = r * 1.0000001 + 4e-16 + m.abs() * 3e-16;
    iv((s - w).max(-1.0), (s + w).min(1.0))
}

pub fn sin(a: V) -> Res {
    match a {
        R(0, _) => Ok(ZERO),
        P(_, 1) => Ok(ZERO),
        P(n, 2) => Ok(R(if n.rem_euclid(4) == 1 { 1 } else { -1 }, 1)),
        _ => trig(a, f64::sin),
    }
}

pub fn cos(a: V) -> Res {
    match a {
        R(0, _) => Ok(ONE),
        P(n, 1) => Ok(R(if n.rem_euclid(2) == 0 { 1 } else { -1 }, 1)),
        P(_, 2) => Ok(ZERO),
        _ => trig(a, f64::cos),
    }
}

pub fn exp(a: V) -> Res {
    if a.is_zero() {
        return Ok(ONE);
    }
    let (lo, hi) = a.lo_hi();
    if hi > 650.0 || lo < -650.0 {
        return Err(No::Unk);
    }
    iv(lo.exp() * (1.0 - 1e-15), hi.exp() * (1.0 + 1e-15))
}

pub fn ln(a: V) -> Res {
    if a.is_one() {
        return Ok(ZERO);
    }
    if a.is_zero() || a.negative() {
        return Err(No::Undef);
    }
    if !a.positive() {
        return Err(No::Unk);
    }
    let (lo, hi) = a.lo_hi();
    let (l, h) = (lo.ln(), hi.ln());
    iv(l - l.abs() * 1e-15 - 1e-16, h + h.abs() * 1e-15 + 1e-16)
}

/// Power with the usual real conventions (0^0 = 1).
pub fn pow(b: V, r: V) -> Res {
    if let R(k, 1) = r {
        if k == 0 {
            return Ok(ONE);
        }
        if b.is_zero() {
            return if k > 0 { Ok(ZERO) } else { Err(No::Undef) };
        }
        if k.unsigned_abs() <= 200 {
            let mut acc = ONE;
            let mut base = b;
            let mut e = k.unsigned_abs();
            while e > 0 {
                if e & 1 == 1 {
                    acc = mul(acc, base)?;
                }
                e >>= 1;
                if e > 0 {
                    base = mul(base, base)?;
                }
            }
            return if k > 0 { Ok(acc) } else { inv(acc) };
        }
        if b.is_one() {
            return Ok(ONE);
        }
        if !b.positive() {
            return Err(No::Unk);
        }
    }
    if b.is_one() {
        return Ok(ONE);
    }
    if b.positive() {
        return exp(mul(r, ln(b)?)?);
    }
    if b.is_zero() {
        return if r.positive() {
            Ok(ZERO)
        } else if r.negative() {
            Err(No::Undef)
        } else {
            Err(No::Unk)
        };
    }
    if b.negative() && r.exact() && !matches!(r, R(_, 1)) {
        return Err(No::Undef);
    }
    Err(No::Unk)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Equal,
    Differ,
    /// the reference decides nothing here
    Skip,
    /// the implementation's value could not be decided narrowly enough
    Vague,
}

/// Compare the reference value with the value of what the code produced.
pub fn compare(want: Res, got: Res) -> Cmp {
    let w = match want {
        Err(_) => return Cmp::Skip,
        Ok(w) => w,
    };
    if !w.tight() {
        return Cmp::Skip;
    }
    match got {
        Err(No::Undef) => Cmp::Differ,
        Err(No::Unk) => Cmp::Vague,
        Ok(g) => {
            if let (R(a, b), R(c, d)) = (w, g) {
                return if a == c && b == d { Cmp::Equal } else { Cmp::Differ };
            }
            if let (P(a, b), P(c, d)) = (w, g) {
                return if a == c && b == d { Cmp::Equal } else { Cmp::Differ };
            }
            let ((a, b), (c, d)) = (w.lo_hi(), g.lo_hi());
            let gap = (a - d).max(c - b).max(0.0);
            let scale = a.abs().max(b.abs()).max(c.abs().min(d.abs()));
            if gap > 1e-11 * scale + 1e-13 {
                Cmp::Differ
            } else if g.rad() > 1e-3 * scale.max(1e-3) {
                Cmp::Vague
            } else {
                Cmp::Equal
            }
        }
    }
}
