//! Truncated Laurent series in h = (variable - point): reference for Taylor
//! coefficients, higher derivatives and limits.
use super::eval::{eval, Env};
use super::val::*;
use crate::spec::{Bi, S, Un};

/// sum c[i] h^(v+i) + O(h^(v+len)); c[0] is not an exact zero.
#[derive(Clone, Debug)]
pub struct Ser {
    pub v: i32,
    pub c: Vec<V>,
}
const ALL: i32 = 1_000_000; // valuation of the exact zero function
type SR = Result<Ser, No>;

fn norm(mut v: i32, c: Vec<V>) -> Ser {
    let k = c.iter().take_while(|x| x.is_zero()).count();
    v += k as i32;
    Ser { v, c: c[k..].to_vec() }
}

impl Ser {
    pub fn constant(a: V, n: usize) -> Ser {
        if a.is_zero() {
            return Ser { v: ALL, c: vec![] };
        }
        let mut c = vec![ZERO; n];
        c[0] = a;
        Ser { v: 0, c }
    }
    fn prec(&self) -> i32 {
        self.v.saturating_add(self.c.len() as i32)
    }
    /// Known to be the zero function
    pub fn is_null(&self) -> bool {
        self.v >= ALL
    }
    /// Coefficient of h^k; None if beyond precision.
    pub fn coef(&self, k: i32) -> Option<V> {
        if k < self.v {
            Some(ZERO)
        } else {
            self.c.get((k - self.v) as usize).copied()
        }
    }
    /// Leading coefficient is known to be nonzero.
    fn led(&self) -> Result<(), No> {
        match self.c.first() {
            Some(a) if a.nonzero() => Ok(()),
            _ => Err(No::Unk),
        }
    }
}

fn sneg(a: &Ser) -> SR {
    Ok(Ser { v: a.v, c: a.c.iter().map(|x| neg(*x)).collect::<Result<_, _>>()? })
}

fn sadd(a: &Ser, b: &Ser, n: usize) -> SR {
    if a.is_null() {
        return Ok(b.clone());
    }
    if b.is_null() {
        return Ok(a.clone());
    }
    let v = a.v.min(b.v);
    let end = a.prec().min(b.prec()).min(v + n as i32);
    let mut c = vec![];
    for k in v..end {
        c.push(add(a.coef(k).ok_or(No::Unk)?, b.coef(k).ok_or(No::Unk)?)?);
    }
    Ok(norm(v, c))
}

fn smul(a: &Ser, b: &Ser) -> SR {
    if a.is_null() || b.is_null() {
        return Ok(Ser { v: ALL, c: vec![] });
    }
    let n = a.c.len().min(b.c.len());
    let mut c = vec![];
    for k in 0..n {
        let mut s = ZERO;
        for j in 0..=k {
            s = add(s, mul(a.c[j], b.c[k - j])?)?;
        }
        c.push(s);
    }
    Ok(norm(a.v + b.v, c))
}

fn sdiv(a: &Ser, b: &Ser) -> SR {
    if b.is_null() {
        return Err(No::Undef);
    }
    b.led()?;
    if a.is_null() {
        return Ok(a.clone());
    }
    let n = a.c.len().min(b.c.len());
    let mut c: Vec<V> = vec![];
    for k in 0..n {
        let mut s = a.c[k];
        for j in 1..=k {
            s = sub(s, mul(b.c[j], c[k - j])?)?;
        }
        c.push(div(s, b.c[0])?);
    }
    Ok(norm(a.v - b.v, c))
}

/// Taylor form: constant term and coefficients 1.. of an analytic series.
fn analytic(a: &Ser, n: usize) -> Result<Vec<V>, No> {
    if a.is_null() {
        return Ok(vec![ZERO; n]);
    }
    if a.v < 0 {
        a.led()?;
        return Err(No::Undef);
    }
    let m = (a.prec().min(n as i32)).max(0);
    let mut t = vec![];
    for k in 0..m {
        t.push(a.coef(k).ok_or(No::Unk)?);
    }
    if t.is_empty() {
        return Err(No::Unk);
    }
    Ok(t)
}

fn sexp(t: &[V]) -> Result<Vec<V>, No> {
    let mut e = vec![exp(t[0])?];
    for n in 1..t.len() {
        let mut s = ZERO;
        for k in 1..=n {
            s = add(s, mul(mul(V::R(k as i64, 1), t[k])?, e[n - k])?)?;
        }
        e.push(div(s, V::R(n as i64, 1))?);
    }
    Ok(e)
}

fn ssincos(t: &[V]) -> Result<(Vec<V>, Vec<V>), No> {
    let mut s = vec![sin(t[0])?];
    let mut c = vec![cos(t[0])?];
    for n in 1..t.len() {
        let (mut a, mut b) = (ZERO, ZERO);
        for k in 1..=n {
            let kt = mul(V::R(k as i64, 1), t[k])?;
            a = add(a, mul(kt, c[n - k])?)?;
            b = add(b, mul(kt, s[n - k])?)?;
        }
        s.push(div(a, V::R(n as i64, 1))?);
        c.push(neg(div(b, V::R(n as i64, 1))?)?);
    }
    Ok((s, c))
}

fn sln(t: &[V]) -> Result<Vec<V>, No> {
    let mut l = vec![ln(t[0])?];
    for n in 1..t.len() {
        let mut s = ZERO;
        for k in 1..n {
            s = add(s, mul(mul(V::R(k as i64, 1), l[k])?, t[n - k])?)?;
        }
        let s = div(s, V::R(n as i64, 1))?;
        l.push(div(sub(t[n], s)?, t[0])?);
    }
    Ok(l)
}

/// Series of `s` in `var` around `env[var]`, to about `n` terms.
pub fn series(s: &S, env: Env, var: &str, n: usize) -> SR {
    if !s.has_var(var) {
        return Ok(Ser::constant(eval(s, env)?, n));
    }
    Ok(match s {
        S::Var(_) => {
            let p = eval(s, env)?;
            let mut c = vec![ZERO; n];
            if p.is_zero() {
                c[0] = ONE;
                Ser { v: 1, c }
            } else {
                c[0] = p;
                if n > 1 {
                    c[1] = ONE;
                }
                Ser { v: 0, c }
            }
        }
        S::U(o, a) => {
            let a = series(a, env, var, n)?;
            match o {
                Un::Neg => sneg(&a)?,
                Un::Sin => norm(0, ssincos(&analytic(&a, n)?)?.0),
                Un::Cos => norm(0, ssincos(&analytic(&a, n)?)?.1),
                Un::Exp => norm(0, sexp(&analytic(&a, n)?)?),
                Un::Ln => norm(0, sln(&analytic(&a, n)?)?),
            }
        }
        S::B(o, a, b) => {
            let sa = series(a, env, var, n)?;
            let sb = series(b, env, var, n)?;
            match o {
                Bi::Add => sadd(&sa, &sb, n)?,
                Bi::Sub => sadd(&sa, &sneg(&sb)?, n)?,
                Bi::Mul => smul(&sa, &sb)?,
                Bi::Div => sdiv(&sa, &sb)?,
                Bi::Pow => {
                    if !b.has_var(var) {
                        if let (V::R(k, 1), true) = (eval(b, env)?, b.literal() || sa.led().is_ok() && sa.v == 0) {
                            if k.unsigned_abs() > 40 {
                                return Err(No::Unk);
                            }
                            let mut acc = Ser::constant(ONE, n);
                            for _ in 0..k.unsigned_abs() {
                                acc = smul(&acc, &sa)?;
                            }
                            return if k < 0 { sdiv(&Ser::constant(ONE, n), &acc) } else { Ok(acc) };
                        }
                    }
                    let t = analytic(&sa, n)?;
                    if !t[0].positive() {
                        return Err(No::Unk);
                    }
                    let l = norm(0, sln(&t)?);
                    let p = smul(&sb, &l)?;
                    norm(0, sexp(&analytic(&p, n)?)?)
                }
            }
        }
        _ => unreachable!(),
    })
}

/// What a function does as its variable tends to the point.
#[derive(Clone, Debug)]
pub enum Tend {
    Zero,
    To(V),
    Inf,
    /// stays bounded, has no limit
    Osc,
    Unk,
}

/// Behaviour near the point, with bounded oscillation followed through the
/// outermost operations.
#[derive(Clone, Debug)]
enum Beh {
    S(Ser),
    Osc,
    Zero,
    Unk,
}

fn beh(s: &S, env: Env, var: &str, n: usize) -> Beh {
    use Beh::*;
    match series(s, env, var, n) {
        Ok(x) => return S(x),
        Err(_) => {}
    }
    match s {
        crate::spec::S::U(Un::Sin | Un::Cos, a) => match beh(a, env, var, n) {
            S(x) if x.v < 0 && x.led().is_ok() => Osc,
            _ => Unk,
        },
        crate::spec::S::U(Un::Neg, a) => match beh(a, env, var, n) {
            Osc => Osc,
            Zero => Zero,
            _ => Unk,
        },
        crate::spec::S::B(Bi::Add | Bi::Sub, a, b) => match (beh(a, env, var, n), beh(b, env, var, n)) {
            (Osc, S(x)) | (S(x), Osc) => {
                if x.v >= 0 {
                    Osc
                } else {
                    Unk
                }
            }
            (Osc, Zero) | (Zero, Osc) => Osc,
            (Zero, Zero) => Zero,
            (Zero, S(x)) | (S(x), Zero) if x.v > 0 => Zero,
            _ => Unk,
        },
        crate::spec::S::B(Bi::Mul, a, b) => match (beh(a, env, var, n), beh(b, env, var, n)) {
            (Osc | Zero, S(x)) | (S(x), Osc | Zero) if x.v > 0 => Zero,
            (Osc, S(x)) | (S(x), Osc) if x.v == 0 && x.led().is_ok() => Osc,
            (Zero, S(x)) | (S(x), Zero) if x.v == 0 => Zero,
            (Zero, Osc | Zero) | (Osc, Zero) => Zero,
            _ => Unk,
        },
        crate::spec::S::B(Bi::Div, a, b) => match (beh(a, env, var, n), beh(b, env, var, n)) {
            (Osc, S(x)) if x.v == 0 && x.led().is_ok() => Osc,
            (Zero, S(x)) if x.v == 0 && x.led().is_ok() => Zero,
            (Osc | Zero, S(x)) if x.v < 0 && x.led().is_ok() => Zero,
            _ => Unk,
        },
        _ => Unk,
    }
}

pub fn tend(s: &S, env: Env, var: &str, n: usize) -> Tend {
    match beh(s, env, var, n) {
        Beh::Osc => Tend::Osc,
        Beh::Zero => Tend::Zero,
        Beh::Unk => Tend::Unk,
        Beh::S(x) => tend_of(&x),
    }
}

pub fn tend_of(x: &Ser) -> Tend {
    if x.is_null() || x.v > 0 {
        return Tend::Zero;
    }
    if x.v < 0 {
        return if x.led().is_ok() { Tend::Inf } else { Tend::Unk };
    }
    match x.c.first() {
        Some(c) => Tend::To(*c),
        None => Tend::Unk, // O(h^0): nothing known
    }
}
