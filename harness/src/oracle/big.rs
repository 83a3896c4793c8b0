//! Wide unsigned integers for the exact reference of 64-bit fraction arithmetic.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct U256(pub u128, pub u128); // hi, lo

impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
}

impl U256 {
    pub fn from(a: u128) -> U256 {
        U256(0, a)
    }
    pub fn mul(a: u128, b: u128) -> U256 {
        let m = u64::MAX as u128;
        let (ah, al, bh, bl) = (a >> 64, a & m, b >> 64, b & m);
        let ll = al * bl;
        let lh = al * bh;
        let hl = ah * bl;
        let hh = ah * bh;
        let mid = (ll >> 64) + (lh & m) + (hl & m);
        U256(hh + (lh >> 64) + (hl >> 64) + (mid >> 64), (mid << 64) | (ll & m))
    }
    pub fn add(self, o: U256) -> U256 {
        let (lo, c) = self.1.overflowing_add(o.1);
        U256(self.0 + o.0 + c as u128, lo)
    }
    pub fn sub(self, o: U256) -> U256 {
        let (lo, b) = self.1.overflowing_sub(o.1);
        U256(self.0 - o.0 - b as u128, lo)
    }
    pub fn is_zero(self) -> bool {
        self.0 == 0 && self.1 == 0
    }
    fn tz(self) -> u32 {
        if self.1 != 0 {
            self.1.trailing_zeros()
        } else {
            128 + self.0.trailing_zeros()
        }
    }
    fn shr(self, k: u32) -> U256 {
        if k == 0 {
            self
        } else if k >= 128 {
            U256(0, if k == 256 { 0 } else { self.0 >> (k - 128) })
        } else {
            U256(self.0 >> k, (self.1 >> k) | (self.0 << (128 - k)))
        }
    }
    fn shl(self, k: u32) -> U256 {
        if k == 0 {
            self
        } else if k >= 128 {
            U256(self.1 << (k - 128), 0)
        } else {
            U256((self.0 << k) | (self.1 >> (128 - k)), self.1 << k)
        }
    }
    pub fn gcd(mut a: U256, mut b: U256) -> U256 {
        if a.is_zero() {
            return b;
        }
        if b.is_zero() {
            return a;
        }
        let s = a.tz().min(b.tz());
        a = a.shr(a.tz());
        loop {
            b = b.shr(b.tz());
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            b = b.sub(a);
            if b.is_zero() {
                return a.shl(s);
            }
        }
    }
    /// Exact division by a divisor of self, by long division.
    pub fn div(self, d: U256) -> U256 {
        let (mut q, mut r) = (U256(0, 0), U256(0, 0));
        for k in (0..256).rev() {
            let bit = if k >= 128 { self.0 >> (k - 128) } else { self.1 >> k } & 1;
            r = r.shl(1);
            r.1 |= bit;
            q = q.shl(1);
            if r >= d {
                r = r.sub(d);
                q.1 |= 1;
            }
        }
        q
    }
}

/// An exact fraction: sign (-1, 0, 1), numerator, denominator (> 0).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Frac {
    pub s: i64,
    pub n: U256,
    pub d: U256,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
}
pub const OPS: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];

impl Frac {
    fn norm(s: i64, n: U256, d: U256) -> Frac {
        if n.is_zero() {
            return Frac { s: 0, n, d: U256(0, 1) };
        }
        if n.0 == 0 && d.0 == 0 && n.1 <= u64::MAX as u128 && d.1 <= u64::MAX as u128 {
            let (mut a, mut b) = (n.1 as u64, d.1 as u64);
            while b != 0 {
                (a, b) = (b, a % b);
            }
            return Frac { s, n: U256(0, n.1 / a as u128), d: U256(0, d.1 / a as u128) };
        }
        let g = U256::gcd(n, d);
        if g == U256(0, 1) {
            return Frac { s, n, d };
        }
        Frac { s, n: n.div(g), d: d.div(g) }
    }
    pub fn new(s: i64, n: u64, d: u64) -> Frac {
        Frac::norm(s.signum(), U256::from(n as u128), U256::from(d as u128))
    }
    /// Reference result for operands of 64-bit size; None for division by zero.
    pub fn op(o: Op, a: (i64, u64, u64), b: (i64, u64, u64)) -> Option<Frac> {
        let (s1, n1, d1) = (if a.1 == 0 { 0 } else { a.0.signum() }, a.1 as u128, a.2 as u128);
        let (s2, n2, d2) = (if b.1 == 0 { 0 } else { b.0.signum() }, b.1 as u128, b.2 as u128);
        Some(match o {
            Op::Mul => Frac::norm(s1 * s2, U256::from(n1 * n2), U256::from(d1 * d2)),
            Op::Div => {
                if s2 == 0 {
                    return None;
                }
                Frac::norm(s1 * s2, U256::from(n1 * d2), U256::from(d1 * n2))
            }
            Op::Add | Op::Sub => {
                let s2 = if o == Op::Sub { -s2 } else { s2 };
                let (x, y) = (U256::from(n1 * d2), U256::from(n2 * d1));
                let d = U256::from(d1 * d2);
                if s1 == s2 || s2 == 0 {
                    Frac::norm(s1, x.add(y), d)
                } else if s1 == 0 {
                    Frac::norm(s2, y, d)
                } else if x >= y {
                    Frac::norm(s1, x.sub(y), d)
                } else {
                    Frac::norm(s2, y.sub(x), d)
                }
            }
        })
    }
    /// Fits sign/u64/u64.
    pub fn small(&self) -> Option<(i64, u64, u64)> {
        let m = u64::MAX as u128;
        if self.n.0 == 0 && self.d.0 == 0 && self.n.1 <= m && self.d.1 <= m {
            Some((self.s, self.n.1 as u64, self.d.1 as u64))
        } else {
            None
        }
    }
    fn f(x: U256) -> f64 {
        x.0 as f64 * 2f64.powi(128) + x.1 as f64
    }
    pub fn to_f64(&self) -> f64 {
        self.s as f64 * (Frac::f(self.n) / Frac::f(self.d))
    }
    pub fn is(&self, s: i64, n: u64, d: u64) -> bool {
        d != 0 && *self == Frac::new(if n == 0 { 0 } else { s }, n, d)
    }
    pub fn show(&self) -> String {
        let t = |x: U256| if x.0 == 0 { x.1.to_string() } else { format!("{:#x}{:032x}", x.0, x.1) };
        format!("{}{}/{}", if self.s < 0 { "-" } else { "" }, t(self.n), t(self.d))
    }
}
