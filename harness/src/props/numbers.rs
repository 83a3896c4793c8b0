//! C01-C05: the number tower.
use super::*;
use crate::ast::op::operand::AstOperand;
use crate::ast::tree::{AstNode, Expression};
use crate::engine::guarded;
use crate::oracle::big::{Frac, Op, OPS};
use crate::smart_num::rational::{RationalNum, ToRational};
use crate::smart_num::val_holder::IsClose;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::f64::consts::{E, PI};

pub fn num(s: &S) -> SmartNum {
    match s {
        S::Int(k) => SmartNum::from(*k),
        S::Rat(g, n, d) => SmartNum::new_rational(*g, *n, *d).expect("valid fraction refused"),
        S::Real(f) => SmartNum::from(*f),
        S::Pi => SmartNum::pi(),
        S::E => SmartNum::e(),
        _ => unreachable!(),
    }
}

fn parts(s: &S) -> Option<(i64, u64, u64)> {
    match s {
        S::Int(k) => Some((k.signum(), k.unsigned_abs(), 1)),
        S::Rat(g, n, d) => Some((*g, *n, *d)),
        _ => None,
    }
}
fn frac(s: &S) -> Option<Frac> {
    parts(s).map(|(g, n, d)| Frac::new(if n == 0 { 0 } else { g }, n, d))
}
fn rnum(s: &S) -> Option<RationalNum> {
    match s {
        S::Rat(g, n, d) => RationalNum::new(*g, *n, *d),
        S::Int(k) => Some(RationalNum::from(*k)),
        _ => None,
    }
}

fn ap(o: Op, a: SmartNum, b: SmartNum) -> SmartNum {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
    }
}
fn rap(o: Op, a: RationalNum, b: RationalNum) -> RationalNum {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
    }
}
fn fap(o: Op, a: f64, b: f64) -> f64 {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
    }
}
fn tok(o: Op) -> &'static str {
    match o {
        Op::Add => "+",
        Op::Sub => "-",
        Op::Mul => "*",
        Op::Div => "/",
    }
}

fn show_num(n: &SmartNum) -> String {
    match guarded(|| read_num(n).key()) {
        Ok(s) => s,
        Err(e) => format!("<unreadable: {e}>"),
    }
}

fn hash_num(n: &SmartNum) -> u64 {
    read_num(n).hash()
}

/// The exact value of an exact result.
fn exact_of(n: &SmartNum) -> Option<Frac> {
    let r = n.to_rational()?;
    if r.denominator == 0 {
        return None;
    }
    Some(Frac::new(if r.nominator == 0 { 0 } else { r.sign }, r.nominator, r.denominator))
}

fn same_f(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}

// ------------------------------------------------------------------ C01

fn small_exact(n: u64, d: u64) -> Vec<S> {
    let mut v = vec![];
    for k in 0..=n as i64 {
        v.push(i(k));
        if k > 0 {
            v.push(i(-k));
        }
    }
    for den in 1..=d {
        for k in 0..=n {
            v.push(q(1, k, den));
            v.push(q(-1, k, den));
        }
    }
    v
}

fn edge_exact(thin: bool) -> Vec<S> {
    let mut v: Vec<S> = edge_i64().into_iter().map(i).collect();
    let u: Vec<u64> = if thin {
        vec![1, 2, 3, (1 << 31) + 1, 1 << 32, (1 << 32) - 5, (1 << 53) + 1, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX]
    } else {
        vec![
            1, 2, 3, 6, 1 << 16, (1 << 31) - 1, (1 << 31) + 1, 1 << 32, (1 << 32) - 5, (1 << 32) + 1, 3_037_000_500,
            1 << 53, (1 << 53) + 1, (1 << 61) - 1, 1 << 62, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1,
            u64::MAX - 1, u64::MAX,
        ]
    };
    for n in &u {
        for d in &u {
            v.push(q(1, *n, *d));
            v.push(q(-1, *n, *d));
        }
    }
    v.push(q(1, 0, u64::MAX));
    v.push(q(-1, 0, 1 << 63));
    v
}

fn fits(w: &Frac) -> bool {
    w.small().is_some()
}

/// One pair of exact numbers under every operation (results that fit).
fn c01_pair(a: &S, b: &S, c: &mut Ctx) {
    let (pa, pb) = (parts(a).unwrap(), parts(b).unwrap());
    let key = |o: &str| format!("{} {o} {}", a.key(), b.key());
    for o in OPS {
        let w = match Frac::op(o, pa, pb) {
            Some(w) if fits(&w) => w,
            _ => {
                c.skip();
                continue;
            }
        };
        c.steps(2);
        match guarded(|| ap(o, num(a), num(b))) {
            Err(m) => c.fail(key(tok(o)), format!("expected {}, crashed: {m}", w.show())),
            Ok(r) => match exact_of(&r) {
                Some(g) if g == w => {
                    c.ok();
                    let h = hash_num(&r);
                    c.state(h);
                }
                _ => c.fail(key(tok(o)), format!("expected exactly {}, got {}", w.show(), show_num(&r))),
            },
        }
        let k2 = || format!("fraction {}", key(tok(o)));
        match guarded(|| rap(o, rnum(a).unwrap(), rnum(b).unwrap())) {
            Err(m) => c.fail(k2(), format!("expected {}, crashed: {m}", w.show())),
            Ok(r) => {
                if w.is(r.sign, r.nominator, r.denominator) {
                    c.ok()
                } else {
                    c.fail(k2(), format!("expected exactly {}, got {r:?}", w.show()))
                }
            }
        }
    }
    c.step();
    let same = frac(a) == frac(b);
    match guarded(|| rnum(a).unwrap() == rnum(b).unwrap()) {
        Err(m) => c.fail(key("=="), format!("crashed: {m}")),
        Ok(r) if r != same => c.fail(key("=="), format!("fractions reported {}equal", if r { "" } else { "un" })),
        Ok(_) => c.ok(),
    }
}

fn c01_one(a: &S, c: &mut Ctx) {
    let f = frac(a).unwrap();
    let w = Frac { s: -f.s, n: f.n, d: f.d };
    c.steps(3);
    match guarded(|| -num(a)) {
        Err(m) => c.fail(format!("-({})", a.key()), format!("crashed: {m}")),
        Ok(r) if exact_of(&r) == Some(w) => c.ok(),
        Ok(r) => c.fail(format!("-({})", a.key()), format!("expected exactly {}, got {}", w.show(), show_num(&r))),
    }
    let r = rnum(a).unwrap();
    let n = -r;
    if w.is(n.sign, n.nominator, n.denominator) {
        c.ok()
    } else {
        c.fail(format!("fraction -({})", a.key()), format!("got {n:?}"))
    }
    let z = r.reduce();
    let g = {
        let (mut p, mut q) = (z.nominator, z.denominator);
        while q != 0 {
            (p, q) = (q, p % q);
        }
        p
    };
    if f.is(z.sign, z.nominator, z.denominator) && g == 1 {
        c.ok()
    } else {
        c.fail(format!("reduce {}", a.key()), format!("got {z:?}"))
    }
}

fn pair_space(name: &str, bound: &str, l: Vec<S>, r: Vec<S>, f: fn(&S, &S, &mut Ctx)) -> Space {
    let (l, r) = (Arc::new(l), Arc::new(r));
    let (l2, r2) = (l.clone(), r.clone());
    let m = r.len() as u64;
    Space::new(
        name,
        &format!("{bound}: all {} x {} ordered pairs", l.len(), r.len()),
        l.len() as u64 * m,
        move |k| format!("{} , {}", l2[(k / m) as usize].key(), r2[(k % m) as usize].key()),
        move |k, c| {
            c.sample(|| format!("{} , {}", l[(k / m) as usize].key(), r[(k % m) as usize].key()));
            f(&l[(k / m) as usize], &r[(k % m) as usize], c)
        },
    )
}
fn one_space(name: &str, bound: &str, l: Vec<S>, f: fn(&S, &mut Ctx)) -> Space {
    let l = Arc::new(l);
    let l2 = l.clone();
    Space::new(name, bound, l.len() as u64, move |k| l2[k as usize].key(), move |k, c| f(&l[k as usize], c))
}

/// Numbers that stand out in decimal, and powers, factorials and products of primes.
pub fn landmarks() -> Vec<u64> {
    let mut l: Vec<u64> = vec![];
    for base in [3u64, 5, 6, 7, 10, 11, 12, 60, 100, 255, 365, 1000, 1024] {
        let mut p = base;
        loop {
            l.extend([p - 1, p, p + 1]);
            match p.checked_mul(base) {
                Some(n) if n < u64::MAX => p = n,
                _ => break,
            }
        }
    }
    let mut f = 1u64;
    for k in 2..=20 {
        f *= k;
        l.extend([f - 1, f, f + 1]);
    }
    let mut r = 1u64;
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47] {
        r = r.saturating_mul(p);
        l.push(r);
    }
    for digit in 1..10u64 {
        let mut n = digit;
        for _ in 0..18 {
            n = n * 10 + digit;
            l.push(n);
        }
    }
    l.sort();
    l.dedup();
    l
}

/// The landmarks (every step-th) as integers and in fractions, of both signs.
fn landmark_nums(step: usize) -> Vec<S> {
    let mut l = vec![];
    for m in landmarks().into_iter().step_by(step) {
        if let Ok(k) = i64::try_from(m) {
            l.extend([i(k), i(-k)]);
        }
        l.extend([q(1, 1, m), q(-1, m, 7), q(1, m + 1, m), q(-1, m, 1)]);
    }
    l
}

/// The numbers around k, in every role.
fn ladder_nums(k: u64) -> Vec<S> {
    let n = k as i64;
    vec![i(n), i(-n), q(1, k, 1), q(-1, 1, k.max(1)), q(1, k, k + 1), q(-1, k + 1, k.max(1)), q(1, k, 2), q(1, 2 * k, 4)]
}

/// Every integer up to `top`, as an integer and in fractions, with numbers near it and small ones, both ways round.
fn ladder_space(top: u64, f: fn(&S, &S, &mut Ctx)) -> Space {
    Space::new(
        "ladder",
        &format!("every k up to {top}, as k, 1/k, k/2, k/(k+1), (k+1)/k of both signs, with each of these, with k+1 and with small numbers, both ways round"),
        top,
        |k| format!("numbers around {k}"),
        move |k, c| {
            let l = ladder_nums(k);
            let mut r = l.clone();
            let n = k as i64;
            r.extend([i(0), i(1), i(-1), i(2), i(-3), i(10), q(1, 1, 2), q(-1, 2, 3), q(1, 6, 4), i(n + 1), i(-n - 1), q(1, k + 2, k + 1), q(-1, 1, k + 1)]);
            for a in &l {
                for b in &r {
                    f(a, b, c);
                    f(b, a, c);
                }
            }
        },
    )
}

// ---- operation histories ------------------------------------------------

/// Reference state of a number.
#[derive(Clone, Copy, Debug)]
enum M {
    /// exact value
    X(i64, u64, u64),
    /// floating point, as last observed (already compared with the prediction)
    F(f64),
    /// a division by exact zero happened
    Undef,
}

fn model(s: &S) -> M {
    match s {
        S::Real(f) => M::F(*f),
        S::Pi => M::F(PI),
        S::E => M::F(E),
        s => {
            let f = frac(s).unwrap().small().unwrap();
            M::X(f.0, f.1, f.2)
        }
    }
}

enum Pred {
    Exact(Frac),
    /// floating value and allowed error
    Float(f64, f64),
    NotFinite,
}

fn mf(m: M) -> f64 {
    match m {
        M::X(s, n, d) => s as f64 * (n as f64 / d as f64),
        M::F(f) => f,
        M::Undef => f64::NAN,
    }
}

fn predict(o: Op, a: M, b: M) -> Option<Pred> {
    let zero = |m: M| matches!(m, M::X(_, 0, _));
    let one = |m: M| matches!(m, M::X(1, 1, 1));
    if let (M::Undef, _) | (_, M::Undef) = (a, b) {
        // only these two combinations are promised
        if (o == Op::Mul && (zero(a) || zero(b))) || (o == Op::Div && zero(b)) {
            return Some(Pred::NotFinite);
        }
        return None;
    }
    if o == Op::Div && zero(b) {
        return Some(Pred::NotFinite);
    }
    if let (M::X(s1, n1, d1), M::X(s2, n2, d2)) = (a, b) {
        let w = Frac::op(o, (s1, n1, d1), (s2, n2, d2))?;
        if fits(&w) {
            return Some(Pred::Exact(w));
        }
        let (x, y) = (mf(a), mf(b));
        let e = match o {
            Op::Add | Op::Sub => 2e-15 * (x.abs() + y.abs()),
            _ => 2e-15 * w.to_f64().abs(),
        };
        return Some(Pred::Float(w.to_f64(), e));
    }
    let (x, y) = (mf(a), mf(b));
    match o {
        Op::Add if zero(a) => return Some(Pred::Float(y, 0.0)),
        Op::Add | Op::Sub if zero(b) => return Some(Pred::Float(x, 0.0)),
        Op::Sub if zero(a) => return Some(Pred::Float(-y, 0.0)),
        Op::Mul if one(a) => return Some(Pred::Float(y, 0.0)),
        Op::Mul if one(b) => return Some(Pred::Float(x, 0.0)),
        Op::Mul if (zero(a) && y.is_finite()) || (zero(b) && x.is_finite()) => {
            return Some(Pred::Exact(Frac::new(0, 0, 1)))
        }
        Op::Div if zero(a) && y.is_finite() && y != 0.0 => return Some(Pred::Float(0.0, 0.0)),
        _ => {}
    }
    let w = fap(o, x, y);
    let e = match o {
        Op::Add | Op::Sub => 1e-15 * (x.abs() + y.abs()),
        _ => 1e-15 * w.abs() + 1e-320,
    };
    Some(Pred::Float(w, if e.is_finite() { e } else { 0.0 }))
}

fn float_ok(got: f64, want: f64, e: f64) -> bool {
    same_f(got, want) || (got - want).abs() <= e
}

/// Check a result against the prediction; the next reference state.
fn settle(p: &Pred, r: &SmartNum) -> Result<M, String> {
    match p {
        Pred::Exact(w) => {
            if exact_of(r) == Some(*w) {
                let (s, n, d) = w.small().unwrap();
                Ok(M::X(s, n, d))
            } else {
                Err(format!("expected exactly {}, got {}", w.show(), show_num(r)))
            }
        }
        Pred::Float(w, e) => {
            let g = r.to_f64();
            if let Some(x) = exact_of(r) {
                // an exact answer is fine only where it is the floating-point one
                if same_f(x.to_f64(), *w) && x.small().is_some() {
                    let (s, n, d) = x.small().unwrap();
                    return Ok(M::X(s, n, d));
                }
                return Err(format!("expected the floating-point number {w:e}, got the exact {}", show_num(r)));
            }
            if float_ok(g, *w, *e) {
                Ok(M::F(g))
            } else {
                Err(format!("expected {w:e} (+-{e:e}), got {}", show_num(r)))
            }
        }
        Pred::NotFinite => {
            if r.to_f64().is_finite() {
                Err(format!("expected a non-finite number, got {}", show_num(r)))
            } else {
                Ok(M::Undef)
            }
        }
    }
}

/// Recognition, sign and form of a number whose reference state is known.
fn recognised(m: M, r: &SmartNum) -> Result<(), String> {
    let (z, o) = match m {
        M::X(_, n, d) => (n == 0, n == d && d == 1 && matches!(m, M::X(1, _, _))),
        _ => (false, false),
    };
    if r.is_zero() != z {
        return Err(format!("is_zero() = {} for {}", r.is_zero(), show_num(r)));
    }
    if r.is_one() != o {
        return Err(format!("is_one() = {} for {}", r.is_one(), show_num(r)));
    }
    if r.is_pi() && r.to_f64() != PI {
        return Err(format!("is_pi() for {:?}", r));
    }
    if r.is_e() && r.to_f64() != E {
        return Err(format!("is_e() for {:?}", r));
    }
    let w = match m {
        M::X(s, n, _) => Some(if n == 0 { 0 } else { s }),
        M::F(f) if !f.is_nan() => Some(if f == 0.0 { 0 } else { f.signum() as i64 }),
        _ => None,
    };
    if let Some(w) = w {
        if r.sign() != w {
            return Err(format!("sign() = {} for {}", r.sign(), show_num(r)));
        }
        // through an expression as well
        let e = Expression::from(*r);
        if e.is_zero() != z || e.is_one() != o || e.is_pi() != r.is_pi() || e.is_e() != r.is_e() {
            return Err(format!("an expression recognises {} differently", show_num(r)));
        }
    }
    let t = r.to_string();
    let special = [("0", z), ("1", o), ("pi", r.is_pi()), ("e", r.is_e())];
    for (txt, is) in special {
        if is && t != txt {
            return Err(format!("{} prints as {t:?}", show_num(r)));
        }
        if !is && t == txt {
            return Err(format!("{r:?} prints as {t:?}"));
        }
    }
    Ok(())
}

fn lowest(r: &RationalNum) -> bool {
    let (mut p, mut q) = (r.nominator, r.denominator);
    while q != 0 {
        (p, q) = (q, p % q);
    }
    p == 1 && (r.sign == 1 || r.sign == -1)
}

#[derive(Clone, Copy)]
enum Move {
    Neg,
    R(Op, usize),
    L(Op, usize),
}

fn moves(n: usize) -> Vec<Move> {
    let mut m = vec![Move::Neg];
    for o in OPS {
        for k in 0..n {
            m.push(Move::R(o, k));
            m.push(Move::L(o, k));
        }
    }
    m
}

#[derive(Clone, Copy, PartialEq)]
enum Look {
    Values,
    Recognition,
}

/// All histories start, move, move, ... of exactly `depth` moves; every
/// intermediate result is checked.
fn history_space(name: &str, alpha: Vec<S>, depth: u32, look: Look) -> Space {
    periodic_space(name, alpha, depth, 1, look)
}

/// The same with the moves repeated in a cycle.
fn periodic_space(name: &str, alpha: Vec<S>, depth: u32, repeat: u32, look: Look) -> Space {
    let mv = moves(alpha.len());
    let nm = mv.len() as u64;
    let n = alpha.len() as u64 * nm.pow(depth);
    let bound = format!(
        "every history of {depth} operations{} over the numbers {{{}}}, as either operand, and negation",
        if repeat > 1 { format!(", gone through {repeat} times,") } else { String::new() },
        alpha.iter().map(|a| a.key()).collect::<Vec<_>>().join(", ")
    );
    let alpha = Arc::new(alpha);
    let mv = Arc::new(mv);
    let text = {
        let (alpha, mv) = (alpha.clone(), mv.clone());
        move |mut k: u64| {
            let mut t = alpha[(k % alpha.len() as u64) as usize].key();
            k /= alpha.len() as u64;
            for _ in 0..depth {
                t = match mv[(k % nm) as usize] {
                    Move::Neg => format!("-({t})"),
                    Move::R(o, j) => format!("({t} {} {})", tok(o), alpha[j].key()),
                    Move::L(o, j) => format!("({} {} {t})", alpha[j].key(), tok(o)),
                };
                k /= nm;
            }
            if repeat > 1 {
                t.push_str(&format!(" repeated {repeat} times"));
            }
            t
        }
    };
    let t2 = text.clone();
    Space::new(name, &bound, n, text, move |idx, c| {
        let mut k = idx;
        let s0 = &alpha[(k % alpha.len() as u64) as usize];
        k /= alpha.len() as u64;
        let mut m = model(s0);
        let mut r = num(s0);
        // lowest terms so far?
        let mut low = r.to_rational().map(|x| lowest(&x)).unwrap_or(true);
        let full = idx;
        let cycle = k;
        for step in 0..depth * repeat {
            if step % depth == 0 {
                k = cycle;
            }
            let mvk = mv[(k % nm) as usize];
            k /= nm;
            // a shorter history is checked once, as the prefix with move 0
            let fresh = step + 1 >= depth || k == 0;
            let (p, x) = match mvk {
                Move::Neg => {
                    let p = match m {
                        M::X(s, n, d) => Some(Pred::Exact(Frac::new(-s, n, d))),
                        M::F(f) => Some(Pred::Float(-f, 0.0)),
                        M::Undef => None,
                    };
                    (p, guarded(|| -r))
                }
                Move::R(o, j) => (predict(o, m, model(&alpha[j])), guarded(|| ap(o, r, num(&alpha[j])))),
                Move::L(o, j) => (predict(o, model(&alpha[j]), m), guarded(|| ap(o, num(&alpha[j]), r))),
            };
            c.step();
            let x = match x {
                Ok(x) => x,
                Err(e) => {
                    if p.is_some() {
                        c.fail(t2(full), format!("crashed at step {}: {e}", step + 1));
                    }
                    return;
                }
            };
            let p = match p {
                Some(p) => p,
                None => {
                    c.skip();
                    return;
                }
            };
            match settle(&p, &x) {
                Ok(n) => m = n,
                Err(e) => {
                    if look == Look::Values {
                        c.fail(t2(full), format!("step {}: {e}", step + 1));
                    } else {
                        // a wrong value is C01/C02/C05's business
                        c.skip();
                    }
                    return;
                }
            }
            if look == Look::Recognition {
                if let Err(e) = recognised(m, &x) {
                    c.fail(t2(full), format!("step {}: {e}", step + 1));
                    return;
                }
                let (lo, unit) = match mvk {
                    Move::Neg => (low, true),
                    Move::R(_, j) | Move::L(_, j) => {
                        let y = num(&alpha[j]);
                        (
                            low && y.to_rational().map(|x| lowest(&x)).unwrap_or(true),
                            y.is_zero() || y.is_one() || r.is_zero() || r.is_one(),
                        )
                    }
                };
                if let Some(f) = x.to_rational() {
                    let l = f.denominator == 0 || lowest(&f);
                    if !l && (lo || !unit) {
                        c.fail(t2(full), format!("step {}: fraction not in lowest terms: {f:?}", step + 1));
                        return;
                    }
                    low = l;
                } else {
                    low = true;
                }
            }
            if fresh {
                c.ok();
                let h = hash_num(&x);
                c.state(h);
            }
            r = x;
        }
        c.sample(|| format!("{} = {}", t2(full), show_num(&r)));
    })
}

fn exact_alpha() -> Vec<S> {
    vec![
        i(0), i(1), i(-1), i(2), i(-3), i(10), q(1, 1, 2), q(-1, 1, 3), q(1, 6, 4), q(-1, 4, 4), q(1, 0, 5),
        q(-1, 0, 3), i(1 << 31), q(1, 7, 1 << 20),
    ]
}

/// Fractions whose parts share large factors.
fn shared_factors() -> Vec<S> {
    let mut shared = vec![];
    for g in [6u64, 1 << 16, 65_537, 1_048_573, (1 << 31) - 1, 1 << 40, 4_294_967_291, 1_000_000_007] {
        for a in [1u64, 2, 3, 5, 49, 1_000_003] {
            for b in [1u64, 2, 3, 7, 25, 999_983] {
                for (n, d) in [(a, b.checked_mul(g)), (a * 7, b.checked_mul(g)), (a * g, Some(b)), (a * g, b.checked_mul(g))] {
                    if let Some(d) = d {
                        shared.push(q(if a > b { -1 } else { 1 }, n, d));
                    }
                }
            }
        }
    }
    shared
}

/// Fractions whose parts take Euclid's algorithm as long as possible
/// (neighbouring Fibonacci numbers), in lowest terms and not.
fn euclid() -> Vec<S> {
    let mut f = vec![1u64, 1];
    while let Some(n) = f[f.len() - 1].checked_add(f[f.len() - 2]) {
        f.push(n);
    }
    let mut out = vec![];
    for k in (1..f.len() - 1).filter(|k| *k < 4 || k % 6 == 0 || *k > f.len() - 4) {
        for (n, d) in [(f[k], f[k + 1]), (f[k + 1], f[k])] {
            for g in [1u64, 2, 3, 1000, 1 << 20, 6_700_417] {
                if let (Some(n), Some(d)) = (n.checked_mul(g), d.checked_mul(g)) {
                    out.push(q(if k % 12 == 0 { -1 } else { 1 }, n, d));
                }
            }
        }
    }
    out
}

fn c01(t: Tier) -> Vec<Space> {
    let (n, d) = t.pick((48, 30), (80, 60));
    let small = small_exact(n, d);
    let edge = edge_exact(false);
    let shared = shared_factors();
    let euclid = euclid();
    vec![
        one_space(
            "single",
            "negation and reduction of every small and boundary number and of fractions with large common factors",
            small.iter().chain(&edge).chain(&euclid).chain(&shared).cloned().collect(),
            c01_one,
        ),
        pair_space(
            "small pairs",
            &format!("integers |k|<={n} and fractions n<={n}, d<={d} of both signs, reduced or not"),
            small.clone(),
            small.clone(),
            c01_pair,
        ),
        pair_space("boundary pairs", "numbers around every power of two", edge.clone(), edge.clone(), c01_pair),
        pair_space("boundary x small", "boundary numbers with small ones", edge.clone(), small_exact(12, 9), c01_pair),
        pair_space("small x boundary", "small numbers with boundary ones", small_exact(12, 9), edge, c01_pair),
        length_space(t, c01_pair),
        pair_space("common factors", "fractions whose parts share large factors", shared.clone(), shared, c01_pair),
        pair_space("long divisions", "multiples of neighbouring Fibonacci numbers over each other", euclid.clone(), euclid.clone(), c01_pair),
        pair_space("long divisions x small", "the same with small numbers", euclid.clone(), small_exact(12, 9), c01_pair),
        pair_space("small x long divisions", "small numbers with the same", small_exact(12, 9), euclid, c01_pair),
        ladder_space(t.pick(12_000, 200_000), c01_pair),
        pair_space("landmarks", "numbers that stand out in decimal, powers, factorials, products of primes", landmark_nums(1), landmark_nums(t.pick(3, 1)), c01_pair),
        history_space("histories", exact_alpha(), 3, Look::Values),
        periodic_space("periodic histories", vec![i(1), i(-1), i(2), i(-3), q(1, 1, 2), q(-1, 2, 3), i(0), q(1, 6, 4)], 2, t.pick(40, 150), Look::Values),
        history_space("long histories", vec![i(0), i(1), i(-2), q(-1, 2, 3), q(1, 4, 6)], t.pick(4, 5), Look::Values),
    ]
}

/// Fractions with a numerator and denominator of every (step-th) bit length.
fn lengths(mantissas: (u64, u64), step: usize, signs: &[i64]) -> Vec<S> {
    let cut = |m: u64, bits: usize| (m >> (64 - bits)) | 1;
    let mut l = vec![];
    for n in (1..=64usize).step_by(step) {
        for d in (1..=64usize).step_by(step) {
            for g in signs {
                l.push(q(*g, cut(mantissas.0, n), cut(mantissas.1, d)));
            }
        }
    }
    l
}

fn length_space(t: Tier, f: fn(&S, &S, &mut Ctx)) -> Space {
    pair_space(
        "bit lengths",
        "fractions with parts of every combination of bit lengths",
        lengths((0xB504_F333_F9DE_6485, 0xE15F_6E09_1F4F_2A11), 1, &[1]),
        lengths((0x9E37_79B9_7F4A_7C15, 0xCBBB_9D5D_C105_9ED9), t.pick(5, 1), &[1, -1]),
        f,
    )
}

// ------------------------------------------------------------------ C02

fn c02_pair(a: &S, b: &S, c: &mut Ctx) {
    for o in OPS {
        let w = match Frac::op(o, parts(a).unwrap(), parts(b).unwrap()) {
            Some(w) if !fits(&w) => w,
            _ => {
                c.skip();
                continue;
            }
        };
        c.step();
        let key = format!("{} {} {}", a.key(), tok(o), b.key());
        let p = predict(o, model(a), model(b)).unwrap();
        match guarded(|| ap(o, num(a), num(b))) {
            Err(m) => c.fail(key, format!("expected about {:e}, crashed: {m}", w.to_f64())),
            Ok(r) => match settle(&p, &r) {
                Err(e) => c.fail(key, e),
                Ok(_) => {
                    c.ok();
                    let h = hash_num(&r);
                    c.state(h);
                }
            },
        }
    }
}

fn c02_neg(a: &S, c: &mut Ctx) {
    c01_one(a, c)
}

fn c02(t: Tier) -> Vec<Space> {
    let edge = edge_exact(false);
    let mut odd = vec![];
    for p in [4_294_967_291u64, 4_294_967_279, 2_305_843_009_213_693_951, 18_446_744_073_709_551_557, 1_000_000_007] {
        for k in [1u64, 2, 3, 5, 1_000_003, 4_294_967_291, 4_294_967_279, 18_446_744_073_709_551_557] {
            odd.push(q(1, p, k));
            odd.push(q(-1, p, k));
            odd.push(q(1, k, p));
            odd.push(q(-1, k, p));
        }
    }
    vec![
        one_space("negation", "negation of every boundary number", edge.clone(), c02_neg),
        pair_space("boundary pairs", "numbers around every power of two", edge.clone(), edge.clone(), c02_pair),
        length_space(t, c02_pair),
        pair_space("landmarks", "numbers that stand out in decimal, powers, factorials, products of primes", landmark_nums(1), landmark_nums(t.pick(3, 1)), c02_pair),
        pair_space("prime pairs", "fractions with large prime parts", odd.clone(), odd.clone(), c02_pair),
        pair_space("prime x boundary", "fractions with large prime parts and boundary numbers", odd.clone(), edge.clone(), c02_pair),
        pair_space("boundary x prime", "boundary numbers and fractions with large prime parts", edge, odd, c02_pair),
        history_space(
            "histories",
            vec![
                i(1), i(-1), i(3), i(i64::MAX), i(i64::MIN), i((1 << 32) + 1), q(1, u64::MAX, 2), q(-1, 3, u64::MAX),
                q(1, 1, (1 << 63) + 1), q(1, (1 << 62) + 1, (1 << 62) - 1),
            ],
            t.pick(3, 4),
            Look::Values,
        ),
    ]
}

// ------------------------------------------------------------------ C03

fn mixed_alpha() -> Vec<S> {
    vec![
        i(0), i(1), i(-1), i(2), i(-2), q(1, 1, 2), q(-1, 1, 2), q(1, 3, 3), q(1, 0, 5), q(-1, 0, 3), q(1, 2, 4),
        q(-1, 7, 7), S::Pi, S::E, S::Real(1.0), S::Real(0.0), S::Real(0.5), S::Real(-2.5), i(i64::MAX), i(i64::MIN),
        S::Real(-0.0), q(1, u64::MAX, 1),
    ]
}

fn c03_fresh(s: &S, c: &mut Ctx) {
    c.step();
    let r = num(s);
    let m = model(s);
    if let Err(e) = recognised(m, &r) {
        c.fail(s.key(), e);
        return;
    }
    if r.is_pi() != matches!(s, S::Pi) || r.is_e() != matches!(s, S::E) {
        c.fail(s.key(), "special constant not recognised as built");
        return;
    }
    c.ok();
    c.state(s.hash());
}

/// One pair under every operation: recognition, sign, text and form of the result.
fn c03_pair(a: &S, b: &S, c: &mut Ctx) {
    let (x, y) = (num(a), num(b));
    let low = |n: &SmartNum| n.to_rational().map_or(true, |f| f.denominator == 0 || lowest(&f));
    let unit = x.is_zero() || y.is_zero() || x.is_one() || y.is_one();
    for o in OPS {
        let key = || format!("{} {} {}", a.key(), tok(o), b.key());
        c.step();
        let (p, r) = match (predict(o, model(a), model(b)), guarded(|| ap(o, x, y))) {
            (Some(p), Ok(r)) => (p, r),
            _ => {
                // C01, C02 and C05 answer for crashes
                c.skip();
                continue;
            }
        };
        // and for wrong values
        let m = match settle(&p, &r) {
            Ok(m) => m,
            Err(_) => {
                c.skip();
                continue;
            }
        };
        if let Err(e) = recognised(m, &r) {
            c.fail(key(), e);
        } else if !low(&r) && (!unit || (low(&x) && low(&y))) {
            c.fail(key(), format!("fraction not in lowest terms: {:?}", r.to_rational()));
        } else {
            c.ok();
            c.state(hash_num(&r));
        }
    }
}

fn c03(t: Tier) -> Vec<Space> {
    let (n, d) = t.pick((24, 16), (48, 30));
    let mut kinds = mixed_alpha();
    kinds.extend(small_exact(6, 5));
    for f in reals_of_every_size() {
        kinds.push(S::Real(f));
    }
    let mut fresh = small_exact(40, 24);
    fresh.extend(edge_exact(false));
    fresh.extend([S::Pi, S::E]);
    for f in [0.0, -0.0, 1.0, -1.0, 0.5, PI.next_up(), E.next_down(), 1e-300, f64::MIN_POSITIVE, 1e300, f64::INFINITY] {
        fresh.push(S::Real(f));
        fresh.push(S::Real(-f));
    }
    vec![
        one_space("built", "every small and boundary exact number, constants and reals as built", fresh, c03_fresh),
        pair_space("small pairs", "small exact numbers", small_exact(n, d), small_exact(n, d), c03_pair),
        pair_space("boundary pairs", "numbers around every power of two", edge_exact(false), edge_exact(false), c03_pair),
        pair_space("boundary x small", "boundary numbers with small ones", edge_exact(false), small_exact(9, 7), c03_pair),
        pair_space("small x boundary", "small numbers with boundary ones", small_exact(9, 7), edge_exact(false), c03_pair),
        length_space(t, c03_pair),
        pair_space("common factors", "fractions whose parts share large factors", shared_factors(), shared_factors(), c03_pair),
        pair_space("long divisions", "multiples of neighbouring Fibonacci numbers over each other", euclid(), euclid(), c03_pair),
        ladder_space(t.pick(8_000, 100_000), c03_pair),
        pair_space("landmarks", "numbers that stand out in decimal, powers, factorials, products of primes", landmark_nums(1), landmark_nums(t.pick(7, 1)), c03_pair),
        pair_space("all kinds", "exact and inexact numbers and constants", kinds.clone(), kinds, c03_pair),
        history_space("histories", mixed_alpha(), t.pick(2, 3), Look::Recognition),
        history_space(
            "long histories",
            vec![i(0), i(1), i(-1), q(1, 1, 2), q(-1, 2, 4), S::Pi, S::Real(1.0)],
            t.pick(3, 4),
            Look::Recognition,
        ),
        history_space(
            "exact histories",
            vec![i(1), i(-2), q(-1, 2, 3), q(1, 6, 4)],
            t.pick(3, 4),
            Look::Recognition,
        ),
        periodic_space(
            "periodic histories",
            vec![i(0), i(1), i(-1), i(2), q(1, 1, 2), q(-1, 2, 4), S::Pi, S::E, S::Real(1.0), S::Real(-0.5)],
            2,
            t.pick(24, 100),
            Look::Recognition,
        ),
    ]
}

// ------------------------------------------------------------------ C04

fn conv<T>(c: &mut Ctx, ty: &str, x: T, s: S)
where
    T: Copy + Into<SmartNum> + std::fmt::Debug,
    SmartNum: From<T>,
    Expression: From<T>,
    AstOperand: From<T>,
    AstNode: From<T>,
{
    let key = format!("{ty} {x:?}");
    c.steps(4);
    let forms: [(&str, Result<SmartNum, String>); 4] = [
        ("number", guarded(|| SmartNum::from(x))),
        ("expression", guarded(|| Expression::from(x).to_smart_num().expect("not a number"))),
        ("operand", guarded(|| AstOperand::from(x).to_smart_num().expect("not a number"))),
        (
            "node",
            guarded(|| match AstNode::from(x) {
                AstNode::Operand(o) => o.to_smart_num().expect("not a number"),
                _ => panic!("not an operand"),
            }),
        ),
    ];
    for (f, r) in forms {
        match r {
            Err(e) => c.fail(key.clone(), format!("{f}: {e}")),
            Ok(n) => {
                if let Err(e) = denotes(&s, &n) {
                    c.fail(key.clone(), format!("{f}: {e}"));
                } else {
                    c.ok();
                }
            }
        }
    }
    c.state(s.hash());
}

/// The number built from `s` reads back as `s`.
fn denotes(s: &S, n: &SmartNum) -> Result<(), String> {
    let got = || format!("reads back as {}", show_num(n));
    match s {
        S::Real(f) => {
            if !same_f(n.to_f64(), *f) || n.to_f64().is_sign_negative() != f.is_sign_negative() && !f.is_nan() {
                return Err(got());
            }
            if n.to_i64().map(|k| k as f64 != *f).unwrap_or(false) {
                return Err(got());
            }
            if exact_of(n).map(|k| k.to_f64() != *f).unwrap_or(false) {
                return Err(got());
            }
        }
        s => {
            let w = frac(s).unwrap();
            if exact_of(n) != Some(w) || n.clone().to_rational().is_none() {
                return Err(got());
            }
            if let S::Int(k) = s {
                if n.to_i64() != Some(*k) {
                    return Err(format!("to_i64() = {:?}", n.to_i64()));
                }
            } else if let Some(k) = n.to_i64() {
                if Some(w) != frac(&S::Int(k)) {
                    return Err(format!("to_i64() = {k}"));
                }
            }
            let f = n.to_f64();
            let (lo, hi) = (w.to_f64(), w.to_f64());
            let e = 4.5e-16 * lo.abs();
            if !(f >= lo - e && f <= hi + e) {
                return Err(format!("to_f64() = {f:e}, expected {lo:e}"));
            }
            let (_, n0, d0) = parts(s).unwrap();
            if n0 < 1 << 53 && d0 < 1 << 53 && f != w.s as f64 * (n0 as f64 / d0 as f64) {
                return Err(format!("to_f64() = {f:e}, expected {:e}", w.to_f64()));
            }
            if n0 == 0 && f != 0.0 {
                return Err(format!("to_f64() = {f:e}"));
            }
        }
    }
    Ok(())
}

fn c04_i64(k: i64, c: &mut Ctx) {
    conv(c, "i64", k, i(k));
    if let Ok(x) = u64::try_from(k) {
        conv(c, "u64", x, i(k));
    }
    if let Ok(x) = u32::try_from(k) {
        conv(c, "u32", x, i(k));
    }
    if let Ok(x) = i32::try_from(k) {
        conv(c, "i32", x, i(k));
    }
    if let Ok(x) = u16::try_from(k) {
        conv(c, "u16", x, i(k));
    }
    if let Ok(x) = i16::try_from(k) {
        conv(c, "i16", x, i(k));
    }
    if let Ok(x) = u8::try_from(k) {
        conv(c, "u8", x, i(k));
    }
    if let Ok(x) = i8::try_from(k) {
        conv(c, "i8", x, i(k));
    }
}

fn rational_as_built(g: i64, n: u64, d: u64, c: &mut Ctx) {
    let key = format!("fraction sign={g} {n}/{d}");
    let valid = (g == 1 || g == -1) && d != 0;
    c.steps(2);
    match guarded(|| (SmartNum::new_rational(g, n, d), RationalNum::new(g, n, d))) {
        Err(e) => c.fail(key, e),
        Ok((a, b)) => {
            if a.is_some() != valid || b.is_some() != valid {
                return c.fail(key, if valid { "refused" } else { "accepted" });
            }
            if let (Some(a), Some(b)) = (a, b) {
                let s = q(g, n, d);
                if let Err(e) = denotes(&s, &a) {
                    return c.fail(key, e);
                }
                if !frac(&s).unwrap().is(b.sign, b.nominator, b.denominator) {
                    return c.fail(key, format!("fraction {b:?}"));
                }
                let e = Expression::from(a);
                let f1 = (&e).to_rational();
                let f2 = e.clone().to_rational();
                let f3 = (&a).to_rational();
                for f in [f1, f2, f3] {
                    match f {
                        Some(f) if frac(&s).unwrap().is(f.sign, f.nominator, f.denominator) => {}
                        f => return c.fail(key, format!("read back as {f:?}")),
                    }
                }
                let bf = b.to_f64();
                if (bf - a.to_f64()).abs() > 4.5e-16 * bf.abs() {
                    return c.fail(key, format!("fraction to_f64() = {bf:e}"));
                }
            }
            c.ok();
            c.state(mix(mix(g as u64, n), d));
        }
    }
    c.steps(2);
    match guarded(|| (RationalNum::new_positive(n, d), RationalNum::new_negative(n, d))) {
        Err(e) => c.fail(format!("new_positive/negative {n}/{d}"), e),
        Ok((p, m)) => {
            let good = |r: &Option<RationalNum>, g: i64| match r {
                None => d == 0,
                Some(r) => d != 0 && Frac::new(if n == 0 { 0 } else { g }, n, d).is(r.sign, r.nominator, r.denominator),
            };
            if good(&p, 1) && good(&m, -1) {
                c.ok()
            } else {
                c.fail(format!("new_positive/negative {n}/{d}"), format!("{p:?} {m:?}"))
            }
        }
    }
    c.step();
    let r = RationalNum::from(n);
    if !Frac::new(1.min(n as i64 & i64::MAX).max((n > 0) as i64), n, 1).is(r.sign, r.nominator, r.denominator) {
        c.fail(format!("fraction from u64 {n}"), format!("{r:?}"));
    }
}

/// exact |a-b| < eps, None when too close to call in floating point
fn closer(a: &S, b: &S, eps: f64) -> Option<bool> {
    if let (Some(x), Some(y)) = (parts(a), parts(b)) {
        let d = Frac::op(Op::Sub, x, y)?;
        // exactly comparable
        if d.small().is_some() && d.d.1 < 1 << 20 && d.n.1 < 1 << 40 && eps.abs() < 1e12 {
            let dd = d.n.1 as f64 / d.d.1 as f64;
            if (d.d.1 & (d.d.1 - 1)) == 0 && x.1 < 1 << 50 && y.1 < 1 << 50 && x.2.is_power_of_two() && y.2.is_power_of_two() {
                return Some(dd < eps);
            }
        }
        let dd = d.to_f64().abs();
        let (u, w) = (mf(model(a)).abs(), mf(model(b)).abs());
        if (dd - eps).abs() <= 1e-12 * (u + w + eps.abs()) {
            return None;
        }
        return Some(dd < eps);
    }
    let (u, w) = (mf(model(a)), mf(model(b)));
    let dd = (u - w).abs();
    let dyadic = |f: f64| (f * 1024.0).fract() == 0.0 && f.abs() < 1e9;
    if dyadic(u) && dyadic(w) && dyadic(eps) {
        return Some(dd < eps);
    }
    if (dd - eps).abs() <= 1e-12 * (u.abs() + w.abs() + eps.abs()) {
        return None;
    }
    Some(dd < eps)
}

const EPS: [f64; 10] = [1e-9, 0.5, 1.0, 0.0, -1.0, 0.1, 2.0, 1e10, 1e19, 1e-3];

fn c04_close(a: &S, b: &S, c: &mut Ctx) {
    for eps in EPS {
        let w = match closer(a, b, eps) {
            Some(w) => w,
            None => {
                c.vague();
                continue;
            }
        };
        let key = || format!("|{} - {}| < {eps:e}", a.key(), b.key());
        c.steps(4);
        let (x, y) = (num(a), num(b));
        let (ex, ey) = (Expression::from(x), Expression::from(y));
        let got = guarded(|| {
            [
                x.is_close(y, eps),
                (&x).is_close(&y, eps),
                ex.near(&ey, eps).map_err(|_| ()).expect("near refused two numbers"),
                ey.near(&ex, eps).map_err(|_| ()).expect("near refused two numbers"),
                y.is_close(x, eps),
            ]
        });
        match got {
            Err(e) => c.fail(key(), e),
            Ok(g) => {
                if g.iter().all(|r| *r == w) {
                    c.ok()
                } else {
                    c.fail(key(), format!("expected {w}; is_close, by reference, near, near swapped, is_close swapped: {g:?}"))
                }
            }
        }
    }
}

fn c04(t: Tier) -> Vec<Space> {
    let mut ints: Vec<i64> = vec![];
    for k in edge_i64() {
        for d in -4..=4 {
            if let Some(k) = k.checked_add(d) {
                ints.push(k);
            }
        }
    }
    ints.sort();
    ints.dedup();
    let big: Vec<u64> = edge_u64().into_iter().filter(|u| *u > i64::MAX as u64).collect();
    let mut sparse: Vec<u64> = vec![];
    for a in 0..64 {
        for b in 0..=a {
            for e in 0..=b {
                let u = 1u64 << a | 1 << b | 1 << e;
                sparse.extend([u, !u]);
            }
        }
    }
    for k in 0..20 {
        for d in 1..10 {
            let u = 10u64.pow(k).saturating_mul(d);
            sparse.extend([u, u - 1, u.saturating_add(1), u.wrapping_neg()]);
        }
    }
    sparse.sort();
    sparse.dedup();
    let sparse = Arc::new(sparse);
    let s2 = sparse.clone();
    let ints = Arc::new(ints);
    let i2 = ints.clone();
    let big = Arc::new(big);
    let b2 = big.clone();
    let mant: Vec<u64> = vec![0, 1, 2, 3, 0x5555_5555_5555_5, 0x8_0000_0000_0000, 0xF_FFFF_FFFF_FFFF, 0xA_BCDE_F012_3456];
    let m2 = mant.clone();
    let m32: Vec<u32> = vec![0, 1, 2, 0x2A_AAAA, 0x40_0000, 0x7F_FFFF, 0x12_3456];
    let n32 = m32.clone();
    let fr = t.pick(400u64, 2000);
    let low = t.pick(1u64 << 17, 1 << 20);
    let lm = Arc::new(landmarks());
    let l2 = lm.clone();
    let nl = lm.len() as u64;
    let edges = Arc::new(edge_u64());
    let e2 = edges.clone();
    let ne = edges.len() as u64;
    let signs = [1i64, -1, 0, 2, -2, i64::MIN, i64::MAX];
    let close: Vec<S> = {
        let mut v: Vec<S> = [0i64, 1, -1, 2, -2, 3, 100, -100, 1 << 40, i64::MAX, i64::MIN, 10_000_000_000]
            .iter()
            .map(|k| i(*k))
            .collect();
        v.extend([
            q(1, 1, 2), q(-1, 1, 2), q(1, 3, 2), q(1, 2, 4), q(1, 1, 3), q(-1, 2, 3), q(1, 0, 3), q(-1, 0, 3), q(1, u64::MAX, 1),
            q(1, u64::MAX, u64::MAX - 1), q(1, 1, u64::MAX), q(1, 1001, 1000), S::Real(0.0), S::Real(0.5), S::Real(-0.5),
            S::Real(1.0), S::Real(1.5), S::Real(0.1), S::Real(1e10), S::Real(-1e18), S::Real(1e-9), S::Real(3.0), S::Pi, S::E,
            S::Real(3.1415), S::Real(f64::MAX), S::Real(0.999),
        ]);
        v
    };
    vec![
        Space::new(
            "values near zero",
            &format!("every value from -{low} to {}: every 16-bit and 8-bit value, and as many in the wider types", 16 * low - 1),
            17 * low,
            move |k| format!("{}", k as i64 - low as i64),
            move |k, c| c04_i64(k as i64 - low as i64, c),
        ),
        Space::new(
            "boundary values",
            "every 32/64-bit value within 4 of a power of two or a range end, in each type that holds it",
            ints.len() as u64,
            move |k| format!("{}", i2[k as usize]),
            move |k, c| c04_i64(ints[k as usize], c),
        ),
        Space::new(
            "sparse values",
            "every 64-bit pattern with at most three bits set, its complement, and every digit times a power of ten, as u64 and i64 and in each type that holds it",
            sparse.len() as u64,
            move |k| format!("{}", s2[k as usize]),
            move |k, c| {
                let u = sparse[k as usize];
                c04_i64(u as i64, c);
                if u > i64::MAX as u64 {
                    conv(c, "u64", u, q(1, u, 1));
                }
            },
        ),
        Space::new(
            "large u64",
            "u64 values above the i64 range",
            big.len() as u64,
            move |k| format!("u64 {}", b2[k as usize]),
            move |k, c| conv(c, "u64", big[k as usize], q(1, big[k as usize], 1)),
        ),
        Space::new(
            "f64 patterns",
            "every exponent x 8 mantissas x both signs, non-finite included",
            2048 * 8 * 2,
            move |k| format!("f64 {:?}", f64_of(k, &m2)),
            move |k, c| {
                let f = f64_of(k, &mant);
                conv(c, "f64", f, S::Real(f))
            },
        ),
        Space::new(
            "f32 patterns",
            "every exponent x 7 mantissas x both signs, non-finite included",
            256 * 7 * 2,
            move |k| format!("f32 {:?}", f32_of(k, &n32)),
            move |k, c| {
                let f = f32_of(k, &m32);
                conv(c, "f32", f, S::Real(f as f64))
            },
        ),
        Space::new(
            "fractions",
            &format!("sign in {signs:?} x numerator and denominator 0..={fr}"),
            7 * (fr + 1) * (fr + 1),
            move |k| format!("#{k}"),
            move |k, c| rational_as_built(signs[(k % 7) as usize], k / 7 % (fr + 1), k / 7 / (fr + 1), c),
        ),
        Space::new(
            "boundary fractions",
            "sign in the same set x boundary numerators and denominators",
            7 * ne * ne,
            move |k| format!("{} {}/{}", signs[(k % 7) as usize], e2[(k / 7 % ne) as usize], e2[(k / 7 / ne) as usize]),
            move |k, c| {
                rational_as_built(signs[(k % 7) as usize], edges[(k / 7 % ne) as usize], edges[(k / 7 / ne) as usize], c)
            },
        ),
        pair_space("closeness", "numbers of every kind x ten tolerances", close.clone(), close, c04_close),
        Space::new(
            "landmark fractions",
            "fractions of numbers that stand out in decimal, powers, factorials, products of primes",
            nl * nl,
            move |k| format!("{}/{}", l2[(k / nl) as usize], l2[(k % nl) as usize]),
            move |k, c| rational_as_built(if k % 2 == 0 { 1 } else { -1 }, lm[(k / nl) as usize], lm[(k % nl) as usize], c),
        ),
        ladder_space(t.pick(10_000, 200_000), c04_close),
        pair_space("closeness of landmarks", "numbers that stand out in decimal, powers, factorials, products of primes", landmark_nums(5), landmark_nums(t.pick(11, 3)), c04_close),
        pair_space("closeness of small numbers", "small exact numbers x ten tolerances", small_exact(6, 5), small_exact(6, 5), c04_close),
    ]
}

fn f64_of(k: u64, mant: &[u64]) -> f64 {
    f64::from_bits(((k & 1) << 63) | ((k / 16) << 52) | mant[(k / 2 % 8) as usize])
}
fn f32_of(k: u64, mant: &[u32]) -> f32 {
    let k = k as u32;
    f32::from_bits(((k & 1) << 31) | ((k / 14) << 23) | mant[(k / 2 % 7) as usize])
}

/// Reals of every size and both signs.
fn reals_of_every_size() -> Vec<f64> {
    let mut v = vec![];
    for e in (-1070..1024i32).step_by(23).chain([-2, -1, 0, 1, 2, 3, 52, 53, 62, 63, 64]) {
        for m in [1.0, 1.5, 1.2345678901234567] {
            let f = 2f64.powi(e.max(-1022)) * 2f64.powi(e.min(-1022) + 1022) * m;
            v.push(f);
            v.push(-f);
        }
    }
    v
}

// ------------------------------------------------------------------ C05

/// Is the number, in the form it has, converted to a double in one way only?
fn plain(s: &S) -> bool {
    match s {
        S::Int(k) => k.unsigned_abs() <= 1 << 53,
        S::Rat(_, n, d) => *n <= 1 << 53 && *d <= 1 << 53,
        _ => true,
    }
}

fn c05_pair(a: &S, b: &S, c: &mut Ctx) {
    for o in OPS {
        let key = || format!("{} {} {}", a.key(), tok(o), b.key());
        let p = match predict(o, model(a), model(b)) {
            Some(p @ Pred::NotFinite) => p,
            Some(p) if parts(a).is_none() || parts(b).is_none() => p,
            _ => {
                c.skip();
                continue;
            }
        };
        c.step();
        let r = match guarded(|| ap(o, num(a), num(b))) {
            Ok(r) => r,
            Err(e) => {
                c.fail(key(), format!("crashed: {e}"));
                continue;
            }
        };
        if let Err(e) = settle(&p, &r) {
            c.fail(key(), e);
            continue;
        }
        // where the operands' values as doubles leave no choice, the result does neither
        if let (Pred::Float(w, _), true) = (&p, plain(a) && plain(b)) {
            if !same_f(r.to_f64(), *w) {
                c.fail(key(), format!("expected {w:e}, got {}", show_num(&r)));
                continue;
            }
        }
        let (za, zb) = (num(a).is_zero(), num(b).is_zero());
        let (oa, ob) = (num(a).is_one(), num(b).is_one());
        let kept = match o {
            Op::Add if za => Some(b),
            Op::Add | Op::Sub if zb => Some(a),
            Op::Mul if oa && !zb => Some(b),
            Op::Mul if ob && !za => Some(a),
            _ => None,
        };
        if let Some(k) = kept {
            if r.is_pi() != matches!(k, S::Pi) || r.is_e() != matches!(k, S::E) || !same_f(r.to_f64(), num(k).to_f64()) {
                c.fail(key(), format!("a neutral operand changed the other one to {}", show_num(&r)));
                continue;
            }
        }
        c.ok();
        let h = hash_num(&r);
        c.state(h);
    }
}

/// x / 0 for every x, then everything that must stay non-finite.
fn c05_undef(a: &S, b: &S, c: &mut Ctx) {
    // b: which zero
    let key = |t: &str| format!("{t} with x = {}, 0 as {}", a.key(), b.key());
    let z = num(b);
    let steps: [(&str, fn(SmartNum, SmartNum) -> SmartNum); 8] = [
        ("x/0", |x, z| x / z),
        ("(x/0)*0", |x, z| (x / z) * z),
        ("0*(x/0)", |x, z| z * (x / z)),
        ("(x/0)/0", |x, z| (x / z) / z),
        ("((x/0)*0)*0", |x, z| ((x / z) * z) * z),
        ("0*((x/0)/0)", |x, z| z * ((x / z) / z)),
        ("(-(x/0))*0", |x, z| (-(x / z)) * z),
        ("-((x/0)*0)", |x, z| -((x / z) * z)),
    ];
    for (t, f) in steps {
        c.step();
        match guarded(|| f(num(a), z)) {
            Err(e) => c.fail(key(t), format!("crashed: {e}")),
            Ok(r) if r.to_f64().is_finite() => c.fail(key(t), format!("is the finite number {}", show_num(&r))),
            Ok(r) if r.is_zero() || r.is_one() || r.is_pi() || r.is_e() => {
                c.fail(key(t), "is recognised as a definite constant".to_string())
            }
            Ok(r) => {
                c.ok();
                let h = hash_num(&r);
                c.state(h);
            }
        }
        let txt = t;
        if let Ok(r) = guarded(|| f(num(a), z).to_string()) {
            if ["0", "1", "pi", "e"].contains(&r.as_str()) {
                c.fail(key(txt), format!("prints as {r:?}"));
            }
        }
    }
}

fn c05(t: Tier) -> Vec<Space> {
    let exact = vec![
        i(0), i(1), i(-1), i(2), i(-3), i(7), q(1, 1, 2), q(-1, 3, 4), q(1, 6, 4), q(1, 0, 7), q(-1, 0, 2), q(1, 5, 5), q(-1, 5, 5),
        q(1, 1, 3), i(i64::MAX), i(i64::MIN), i((1 << 53) + 1), q(1, u64::MAX, 3), q(-1, 1, u64::MAX), q(1, u64::MAX, u64::MAX),
    ];
    let mut reals = vec![S::Pi, S::E];
    for f in [0.0, 0.5, 2.5, 1.0, 3.0, 0.1, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, f64::INFINITY, PI, E] {
        reals.push(S::Real(f));
        reals.push(S::Real(-f));
    }
    reals.push(S::Real(f64::NAN));
    let mut all = exact.clone();
    all.extend(reals.clone());
    let mut xs = all.clone();
    xs.extend(small_exact(9, 7));
    xs.extend(edge_exact(true));
    let mut sweep = vec![];
    for k in 0..t.pick(3000, 20000) {
        sweep.push(S::Real((k as f64 - 200.0) * 0.37 + 0.011));
    }
    let small = small_exact(10, 8);
    let top = t.pick(70_000u64, 1_000_000);
    let all_reals: Vec<S> = reals.iter().cloned().chain(landmarks().into_iter().step_by(4).map(|m| S::Real(-(m as f64) / 8.0))).collect();
    let sizes: Vec<S> = reals_of_every_size().into_iter().map(S::Real).collect();
    vec![
        pair_space("sizes", "reals of every size and sign", sizes.clone(), sizes.clone(), c05_pair),
        pair_space("sizes x exact", "reals of every size with exact numbers", sizes.clone(), xs.clone(), c05_pair),
        pair_space("exact x sizes", "exact numbers with reals of every size", xs.clone(), sizes, c05_pair),
        pair_space("pairs", "exact, inexact and special numbers", all.clone(), all, c05_pair),
        Space::new(
            "ladder",
            "every k, as k, k/2, k + 1/4, k/10 and 1/k in floating point, with exact numbers around k and small ones, both ways round",
            top,
            |k| format!("reals around {k}"),
            |k, c| {
                let f = k as f64;
                let mut r = ladder_nums(k);
                r.extend([i(0), i(1), i(2), i(-3), q(-1, 2, 3)]);
                for a in [f, -f, f / 2.0, -f - 0.25, f / 10.0, 1.0 / f] {
                    for b in &r {
                        c05_pair(&S::Real(a), b, c);
                        c05_pair(b, &S::Real(a), c);
                    }
                }
            },
        ),
        pair_space("landmarks", "numbers that stand out in decimal, powers, factorials, products of primes, with reals of every size", landmark_nums(t.pick(9, 2)), all_reals.clone(), c05_pair),
        pair_space("landmarks second", "the same the other way round", all_reals, landmark_nums(t.pick(9, 2)), c05_pair),
        pair_space("real x exact", "a ladder of reals with small exact numbers", sweep.clone(), small.clone(), c05_pair),
        pair_space("exact x real", "small exact numbers with a ladder of reals", small, sweep, c05_pair),
        pair_space(
            "division by zero",
            "every number divided by each form of exact zero and combined with zero again",
            xs,
            vec![i(0), q(1, 0, 1), q(-1, 0, 1), q(1, 0, 9), q(-1, 0, u64::MAX)],
            c05_undef,
        ),
        history_space(
            "histories",
            vec![i(0), i(1), i(-2), q(1, 1, 3), S::Real(0.5), S::Real(-3.0), S::Pi, S::E, q(-1, 0, 4)],
            3,
            Look::Values,
        ),
        history_space("long histories", vec![i(0), i(2), S::Real(0.5), S::Pi], t.pick(4, 5), Look::Values),
        periodic_space(
            "periodic histories",
            vec![i(0), i(1), i(-2), q(1, 1, 3), S::Real(0.5), S::Real(-3.0), S::Pi, S::E],
            2,
            t.pick(24, 100),
            Look::Values,
        ),
    ]
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["the reference arithmetic (128/256-bit fractions, IEEE doubles of the same machine) is right"];
    vec![
        Prop { id: "C01", rule: "every ordered pair / history of the listed number sets is one case; a result that fits must equal the exact fraction computed with 256-bit integers", assumptions: A, spaces: c01 },
        Prop { id: "C02", rule: "every ordered pair / history of the listed boundary sets is one case; where the exact result does not fit it must come back as a floating-point number within rounding of the operands", assumptions: A, spaces: c02 },
        Prop { id: "C03", rule: "every built number and every operation history is one case; recognition, sign, text and form are compared with the tracked exact value after every step", assumptions: A, spaces: c03 },
        Prop { id: "C04", rule: "every listed primitive value / fraction / pair with tolerance is one case; it is converted in every way offered and read back in every way offered", assumptions: A, spaces: c04 },
        Prop { id: "C05", rule: "every pair / history involving an inexact number or a division by exact zero is one case; compared with the double-precision operation", assumptions: A, spaces: c05 },
    ]
}
