//! Value of a reference expression at a point, and forward-mode derivative.
use super::val::*;
use crate::spec::{Bi, S, Un};

pub type Env<'a> = &'a [(&'static str, V)];

/// `impl_side`: the expression was produced by the code under test, whose
/// floating-point leaves carry folding error.
pub fn eval_as(s: &S, env: Env, impl_side: bool) -> Res {
    Ok(match s {
        S::Int(k) => V::R(*k, 1),
        S::Rat(g, n, d) => wide(*g, *n, *d)?,
        S::Real(f) => {
            if impl_side {
                real(*f)?
            } else {
                real_exact(*f)?
            }
        }
        S::Pi => V::P(1, 1),
        S::E => {
            let e = std::f64::consts::E;
            V::I(e.next_down(), e.next_up())
        }
        S::Var(n) => match env.iter().find(|(m, _)| m == n) {
            Some((_, v)) => *v,
            None => return Err(No::Unk),
        },
        S::U(o, a) => {
            let a = eval_as(a, env, impl_side)?;
            match o {
                Un::Neg => neg(a)?,
                Un::Sin => sin(a)?,
                Un::Cos => cos(a)?,
                Un::Exp => exp(a)?,
                Un::Ln => ln(a)?,
            }
        }
        S::B(o, a, b) => {
            let a = eval_as(a, env, impl_side);
            let b = eval_as(b, env, impl_side);
            let (a, b) = match (a, b) {
                (Err(No::Undef), _) | (_, Err(No::Undef)) => return Err(No::Undef),
                (a, b) => (a?, b?),
            };
            match o {
                Bi::Add => add(a, b)?,
                Bi::Sub => sub(a, b)?,
                Bi::Mul => mul(a, b)?,
                Bi::Div => div(a, b)?,
                Bi::Pow => pow(a, b)?,
            }
        }
        S::Bad(_) => return Err(No::Undef),
    })
}

pub fn eval(s: &S, env: Env) -> Res {
    eval_as(s, env, false)
}
pub fn eval_impl(s: &S, env: Env) -> Res {
    eval_as(s, env, true)
}

/// Value and derivative with respect to `var`; an error where the function is
/// not (known to be) differentiable.
pub fn deval(s: &S, env: Env, var: &str) -> Result<(V, V), No> {
    Ok(match s {
        S::Var(n) if *n == var => (eval(s, env)?, ONE),
        S::U(o, a) => {
            let (f, d) = deval(a, env, var)?;
            match o {
                Un::Neg => (neg(f)?, neg(d)?),
                Un::Sin => (sin(f)?, mul(cos(f)?, d)?),
                Un::Cos => (cos(f)?, neg(mul(sin(f)?, d)?)?),
                Un::Exp => {
                    let e = exp(f)?;
                    (e, mul(e, d)?)
                }
                Un::Ln => (ln(f)?, div(d, f)?),
            }
        }
        S::B(o, a, b) => {
            let (f, df) = deval(a, env, var)?;
            let (g, dg) = deval(b, env, var)?;
            match o {
                Bi::Add => (add(f, g)?, add(df, dg)?),
                Bi::Sub => (sub(f, g)?, sub(df, dg)?),
                Bi::Mul => (mul(f, g)?, add(mul(df, g)?, mul(f, dg)?)?),
                Bi::Div => {
                    let q = div(f, g)?;
                    (q, div(sub(df, mul(q, dg)?)?, g)?)
                }
                Bi::Pow => {
                    let p = pow(f, g)?;
                    if !b.has_var(var) {
                        // constant exponent
                        if !a.has_var(var) {
                            return Ok((p, ZERO));
                        }
                        if !f.nonzero() && !b.literal() {
                            // x^r at 0 with symbolic r: left out
                            return Err(No::Unk);
                        }
                        if g.is_zero() {
                            // u^0 with 0^0 = 1 is the constant 1
                            return Ok((p, ZERO));
                        }
                        (p, mul(mul(g, pow(f, sub(g, ONE)?)?)?, df)?)
                    } else {
                        if !f.positive() {
                            // real power with varying exponent needs a positive base
                            return Err(if f.negative() { No::Undef } else { No::Unk });
                        }
                        let t = add(mul(dg, ln(f)?)?, div(mul(g, df)?, f)?)?;
                        (p, mul(p, t)?)
                    }
                }
            }
        }
        _ => (eval(s, env)?, ZERO),
    })
}

/// Derivative by the textbook rules, zero and one operands dropped.
pub fn diff(s: &S, var: &str) -> S {
    use crate::spec::{bi, i, un};
    fn z(s: &S) -> bool {
        matches!(s, S::Int(0))
    }
    fn plus(a: S, b: S) -> S {
        if z(&a) {
            b
        } else if z(&b) {
            a
        } else {
            bi(Bi::Add, a, b)
        }
    }
    fn minus(a: S, b: S) -> S {
        if z(&b) {
            a
        } else if z(&a) {
            un(Un::Neg, b)
        } else {
            bi(Bi::Sub, a, b)
        }
    }
    fn times(a: S, b: S) -> S {
        if z(&a) || z(&b) {
            i(0)
        } else if a == i(1) {
            b
        } else if b == i(1) {
            a
        } else {
            bi(Bi::Mul, a, b)
        }
    }
    if !s.has_var(var) {
        return i(0);
    }
    match s {
        S::Var(_) => i(1),
        S::U(o, a) => {
            let d = diff(a, var);
            match o {
                Un::Neg => {
                    if z(&d) {
                        d
                    } else {
                        un(Un::Neg, d)
                    }
                }
                Un::Sin => times(un(Un::Cos, (**a).clone()), d),
                Un::Cos => times(un(Un::Neg, un(Un::Sin, (**a).clone())), d),
                Un::Exp => times(s.clone(), d),
                Un::Ln => {
                    if z(&d) {
                        d
                    } else {
                        bi(Bi::Div, d, (**a).clone())
                    }
                }
            }
        }
        S::B(o, a, b) => {
            let (da, db) = (diff(a, var), diff(b, var));
            let (a, b) = ((**a).clone(), (**b).clone());
            match o {
                Bi::Add => plus(da, db),
                Bi::Sub => minus(da, db),
                Bi::Mul => plus(times(da, b.clone()), times(a, db)),
                Bi::Div => {
                    // (u' - (u/v) v') / v
                    let n = minus(da, times(s.clone(), db));
                    if z(&n) {
                        n
                    } else {
                        bi(Bi::Div, n, b)
                    }
                }
                Bi::Pow => {
                    if !b.has_var(var) {
                        let r1 = match &b {
                            S::Int(k) => i(k - 1),
                            b => bi(Bi::Sub, b.clone(), i(1)),
                        };
                        if z(&b) {
                            return i(0);
                        }
                        let p = if z(&r1) { i(1) } else { bi(Bi::Pow, a, r1) };
                        times(times(b, p), da)
                    } else {
                        let l = times(db, un(Un::Ln, a.clone()));
                        let r = times(b, if z(&da) { da } else { bi(Bi::Div, da, a) });
                        times(s.clone(), plus(l, r))
                    }
                }
            }
        }
        _ => i(0),
    }
}

/// No power whose base may be zero has a symbolic or inexact exponent.
pub fn pow_ok(s: &S, env: Env) -> bool {
    match s {
        S::U(_, a) => pow_ok(a, env),
        S::B(o, a, b) => {
            (*o != Bi::Pow || b.literal() || eval(a, env).map(|v| v.nonzero()).unwrap_or(false))
                && pow_ok(a, env)
                && pow_ok(b, env)
        }
        _ => true,
    }
}
