//! C23: answers keep to the request. C24: more attempts never change a found limit.
//! C25: repeating a request takes no further memory.
//! C26: limits do not depend on how the request is written.
use super::limits::{limit, limit_units, quotients, show_lim, towers};
use super::total::{compute, OPS};
use super::*;
use crate::ast::op::operand::Variable;
use crate::ast::tree::Expression;
use crate::compute::derivative::Derivative;
use crate::compute::limit::limit_expression::LimitExpression;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
use crate::engine::guarded;
use crate::oracle::eval::eval;
use crate::sched::taken;
use crate::smart_num::rational::ToRational;
use crate::smart_num::{SmartNum, ToSmartNum};
use crate::verif_hook;

// ------------------------------------------------------------------ C23

/// Other variables at values where nothing vanishes by chance.
fn generic(k: usize) -> Vec<(&'static str, V)> {
    let of: [(i64, i64); 4] = [[(37, 29), (41, 31), (43, 23), (47, 19)], [(83, 61), (71, 97), (101, 73), (103, 53)]][k];
    ["x", "y", "a", "b"].iter().zip(of).map(|(n, (p, d))| (*n, rat(p, d))).collect()
}

fn not_one(s: &S, env: &[(&'static str, V)]) -> bool {
    let r = eval(s, env);
    r.is_ok() && matches!(compare(Ok(ONE), r), Cmp::Differ)
}

/// Whether computing with it never divides by zero, takes a power or the
/// logarithm of zero, or meets exp 1.
fn harmless(s: &S, env: &[(&'static str, V)]) -> bool {
    let nonzero = |s: &S| eval(s, env).is_ok_and(|v| v.nonzero());
    match s {
        S::U(o, a) => {
            harmless(a, env)
                && match o {
                    Un::Exp => not_one(a, env),
                    Un::Ln => nonzero(a),
                    _ => true,
                }
        }
        S::B(o, a, b) => {
            harmless(a, env)
                && harmless(b, env)
                && match o {
                    Bi::Div => nonzero(b),
                    Bi::Pow => nonzero(a),
                    _ => true,
                }
        }
        _ => true,
    }
}

/// What is wrong with an answer that may mention these variables.
fn wrong(e: &Expression, vars: &[&'static str], exact: bool) -> Option<String> {
    let r = read(e);
    let bad = |t: &S| match t {
        S::Bad(_) => true,
        S::Rat(s, _, d) => *d == 0 && exact || s.abs() != 1,
        _ => false,
    };
    if r.any(&bad) {
        return Some(format!("not well formed: {}", r.key()));
    }
    let mut has = vec![];
    r.vars(&mut has);
    if let Some(n) = has.iter().find(|n| !vars.contains(n)) {
        return Some(format!("mentions `{n}`: {}", r.key()));
    }
    if exact && r.any(&|t| matches!(t, S::Real(_) | S::Pi | S::E)) {
        return Some(format!("has inexact numbers: {}", r.key()));
    }
    if r.any(&|t| matches!(t, S::Rat(_, _, 0))) {
        return None; // cannot be built anew
    }
    let (is, should) = (e.to_string(), r.build().to_string());
    if is != should {
        return Some(format!("prints as {is:?}, but as {should:?} when built anew: {}", r.key()));
    }
    None
}

/// Whether all numbers in it are integers or fractions.
fn exact(s: &S) -> bool {
    !s.any(&|t| matches!(t, S::Real(_) | S::Pi | S::E))
}

fn c23_case(s: &S, ats: &[S], order: u64, c: &mut Ctx) {
    let (x, y) = (Variable::new_variable("x"), Variable::new_variable("y"));
    let e = s.build();
    let mut own = vec![];
    s.vars(&mut own);
    let plain = exact(s) && (0..2).any(|k| harmless(s, &generic(k)));
    let tell = |c: &mut Ctx, what: &str, vars: &[&'static str], exact: bool, r: Option<&Expression>| -> bool {
        c.step();
        let Some(r) = r else { return true };
        if exact {
            c.ok()
        } else {
            c.skip()
        }
        match wrong(r, vars, exact) {
            None => true,
            Some(m) => {
                c.fail(format!("{what} of {}", s.key()), m);
                false
            }
        }
    };
    let got = guarded(|| {
        let one = e.clone().derivative(&x).ok();
        let other = e.clone().derivative(&y).ok();
        let two = one.clone().and_then(|d| d.derivative(&x).ok());
        let mixed = one.clone().and_then(|d| d.derivative(&y).ok());
        [
            ("simplification", Some(e.clone().num_aggregate())),
            ("derivative by x", one),
            ("derivative by y", other),
            ("second derivative by x", two),
            ("derivative by x and y", mixed),
        ]
    });
    let Ok(got) = got else { return c.skip() }; // C22
    for (what, r) in &got {
        if !tell(c, what, &own, plain, r.as_ref()) {
            return;
        }
    }
    for at in ats {
        let a = at.build();
        let mut vars: Vec<&'static str> = own.iter().filter(|n| **n != "x").copied().collect();
        let moved = own.contains(&"x");
        if moved {
            at.vars(&mut vars);
        }
        let mut all = vars.clone();
        all.extend(own.iter());
        at.vars(&mut all);
        // with x at that point
        let there = |k: usize| {
            let mut env = generic(k);
            if let Ok(p) = eval(at, &env) {
                env[0].1 = p;
                Some(env)
            } else {
                None
            }
        };
        let fine = plain && exact(at) && (0..2).any(|k| harmless(at, &generic(k)) && there(k).map_or(false, |env| harmless(s, &env)));
        let got = guarded(|| {
            let by = e.clone().substitute(&x, &a).ok();
            let done = by.clone().map(|e| e.num_aggregate());
            (by, done, e.clone().taylor_expansion(&x, &a, order).ok(), verif_hook::limit_of_variable(e.clone(), &x, a.clone(), 2))
        });
        let Ok((by, done, ex, lim)) = got else {
            c.skip();
            continue;
        };
        let at_that = |what: &str| format!("{what} at {}", at.key());
        if !tell(c, &at_that("substitution"), &vars, exact(s) && exact(at), by.as_ref()) {
            return;
        }
        if !tell(c, &at_that("simplified substitution"), &vars, fine, done.as_ref()) {
            return;
        }
        if let Some(ex) = &ex {
            for (k, e) in ex.coefficient.iter().enumerate() {
                if !tell(c, &at_that(&format!("coefficient {k}")), &vars, fine, Some(e)) {
                    return;
                }
            }
            if !tell(c, &at_that("residual"), &own, plain, Some(&ex.residual)) {
                return;
            }
            let names = (read(&ex.of) == v("x"), read(&ex.at) == *at);
            if names != (true, true) {
                return c.fail(format!("expansion of {} at {}", s.key(), at.key()), "of another variable or at another point");
            }
        }
        if let Ok(LimitExpression::Normal(r)) = &lim {
            // a limit divides only by what does not tend to zero
            let exps = (0..2).any(|k| there(k).map_or(false, |env| !s.any(&|t| matches!(t, S::U(Un::Exp, a) if !not_one(a, &env)))));
            let fine = plain && exps && exact(at) && (0..2).any(|k| harmless(at, &generic(k)));
            if !tell(c, &at_that("limit"), &vars, fine, Some(r)) {
                return;
            }
        }
    }
    c.state(s.hash());
    c.sample(|| format!("{}: {}", s.key(), read(got[1].1.as_ref().unwrap_or(&e)).key()));
}

fn c23(t: Tier) -> Vec<Space> {
    let ats: Arc<Vec<S>> = Arc::new(vec![i(0), i(1), q(-1, 6, 4), v("a"), bi(Bi::Mul, i(2), v("y"))]);
    let more: Arc<Vec<S>> = Arc::new(vec![i(2), v("a"), bi(Bi::Sub, v("x"), v("b")), S::Real(0.5), S::Pi, bi(Bi::Div, i(1), v("a"))]);
    let (m1, m2) = (more.clone(), more.clone());
    let (a1, a2, a3, a4, a5, a6) = (ats.clone(), ats.clone(), ats.clone(), ats.clone(), ats.clone(), ats.clone());
    let c23a: TreeCheck = Arc::new(move |s, c| c23_case(s, &a6[..4], 1, c));
    let leaves = vec![v("x"), v("y"), i(0), i(1), i(-2), q(1, 2, 3), q(-1, 4, 6)];
    vec![
        tree_space("trees", leaves.clone(), &UNS, &BIS, t.pick(5, 6), Arc::new(move |s, c| c23_case(s, &a1, 2, c))),
        tree_space("other points", leaves, &UNS, &BIS, t.pick(4, 5), Arc::new(move |s, c| c23_case(s, &more, 3, c))),
        tree_space("larger trees", vec![v("x"), i(2), i(-1)], &UNS, &BIS, t.pick(6, 7), Arc::new(move |s, c| c23_case(s, &a2, 1, c))),
        tree_space("arithmetic", vec![v("x"), i(3), q(-1, 1, 2)], &[Un::Neg], &ARITH, t.pick(7, 8), Arc::new(move |s, c| c23_case(s, &a3[..3], 2, c))),
        tree_space("of small expressions", units(), &UNS, &BIS, t.pick(4, 5), Arc::new(move |s, c| c23_case(s, &a4, 2, c))),
        tree_space("numbers of every kind", full_leaves(), &UNS, &BIS, t.pick(4, 5), Arc::new(move |s, c| c23_case(s, &m1, 2, c))),
        list_space("deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("y"), q(1, 1, 2)], &UNS, &BIS, 2, t.pick(&[4, 6], &[4, 6, 7])), c23a.clone()),
        list_space("very deep", "nestings of every single wrapping by + - and negation, hundreds deep", very_deep(&[Un::Neg], &[Bi::Add, Bi::Sub], t.pick(&[140, 300], &[140, 300, 1050])), c23a.clone()),
        list_space("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub], t.pick(&[8, 9], &[8, 9, 11])), c23a.clone()),
        list_space("deeper", "nestings of every single wrapping by + - * negation, sine and cosine", spine_list(&[v("x")], &[v("y"), i(2)], &[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub, Bi::Mul], 1, t.pick(&[12, 33], &[12, 33, 60])), c23a.clone()),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 4], &[3, 4, 5])), c23a.clone()),
        list_space("many variables", "chains and balanced trees of up to 18 different variables", many_list(&ARITH, &[3, 9, 18]).into_iter().map(|s| s.rename(&[("v2", "x")])).collect(), c23a),
        list_space("number ladder", "every number up to 300 (2000), as integer, fraction and real, in small expressions", around(&number_ladder(t.pick(300, 2000), 1000)), Arc::new(move |s, c| c23_case(s, &a5[..2], 2, c))),
        list_space("quotients", "quotients with known orders of vanishing, in context", quotients(), Arc::new(move |s, c| c23_case(s, &ats, 1, c))),
        list_space("look-alikes", "different expressions with the same text under every operator", alike_short(), Arc::new(move |s, c| c23_case(s, &m2, 1, c))),
    ]
}

// ------------------------------------------------------------------ C24

/// Many more attempts than needed.
const HUGE: [u64; 16] = [16, 40, 127, 128, 255, 256, 257, 1000, 65_535, 65_536, 70_000, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 1, u64::MAX];

fn same(a: &LimitExpression, b: &LimitExpression) -> bool {
    use LimitExpression::*;
    match (a, b) {
        (Normal(a), Normal(b)) => read(a) == read(b),
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

/// Raises the allowance until a limit is found (at most to `most`), then further.
fn c24_case(s: &S, to: &S, most: u64, c: &mut Ctx) {
    let mut found: Option<(u64, LimitExpression)> = None;
    let mut rest = HUGE.iter();
    let mut n = 0;
    loop {
        c.step();
        let l = match limit(s, "x", to, n) {
            Ok(l) => l,
            Err(m) => match &found {
                Some((k, _)) => return c.fail(format!("lim {} at {} with {n} steps", s.key(), to.key()), format!("crashed ({m}), though found with {k} steps")),
                None => return c.skip(), // C17
            },
        };
        match (&found, l) {
            (None, Ok(l)) => found = Some((n, l)),
            (None, Err(_)) if n >= most => return c.skip(),
            (None, Err(_)) => {}
            (Some((k, was)), l) => {
                let fine = l.as_ref().map_or(false, |l| same(was, l));
                if !fine {
                    return c.fail(
                        format!("lim {} at {} with {n} steps", s.key(), to.key()),
                        format!("{}, but {} with {k} steps", show_lim(&l), show_lim(&Ok(was.clone()))),
                    );
                }
                c.ok();
            }
        }
        n = match &found {
            Some((k, _)) if n >= k + 3 => match rest.find(|h| **h > n) {
                Some(h) => *h,
                None => break,
            },
            _ => n + 1,
        };
    }
    c.state(mix(s.hash(), to.hash()));
    if let Some((k, l)) = &found {
        c.outcome(mix(*k, show_lim(&Ok(l.clone())).bytes().fold(3, |h, b| mix(h, b as u64))));
        c.sample(|| format!("lim {} at {} from {k} steps on: {}", s.key(), to.key(), show_lim(&Ok(l.clone()))));
    }
}

fn c24(t: Tier) -> Vec<Space> {
    let at = |tos: Vec<S>, most: u64| -> TreeCheck { Arc::new(move |s, c| tos.iter().for_each(|to| c24_case(s, to, most, c))) };
    let some = || vec![i(0), i(1), q(-1, 1, 2), v("a")];
    const TRIG: [Un; 3] = [Un::Neg, Un::Sin, Un::Cos];
    vec![
        tree_space("trees", vec![v("x"), v("y"), i(0), i(1), q(1, 1, 2)], &UNS, &BIS, t.pick(5, 6), at(some(), 2)),
        tree_space("larger trees", vec![v("x"), i(1), i(-2)], &TRIG, &ARITH, t.pick(7, 8), at(vec![i(0), i(1), v("a")], 2)),
        tree_space("rational functions", vec![v("x"), i(1)], &[], &ARITH, t.pick(9, 9), at(vec![i(0), i(1)], 2)),
        tree_space("of small expressions", limit_units(), &[Un::Neg], &ARITH, t.pick(5, 5), at(vec![i(0), i(1)], 3)),
        list_space("very deep", "nestings of every single wrapping by + - and negation, hundreds deep", very_deep(&[Un::Neg], &[Bi::Add, Bi::Sub], t.pick(&[140, 300], &[140, 300, 1050])), at(vec![i(0), v("a")], 1)),
        list_space("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[9], &[9, 11])), at(vec![i(0), v("a")], 1)),
        list_space("deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("x"), v("y"), i(2)], &TRIG, &ARITH, 2, &[5, t.pick(7, 9)]), at(vec![i(0), i(1), v("a")], 1)),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, &[3, 4]), at(some(), 1)),
        list_space("many variables", "chains and balanced trees of up to 18 different variables", many_list(&ARITH, &[3, 9, 18]).into_iter().map(|s| s.rename(&[("v2", "x")])).collect(), at(some(), 1)),
        list_space("quotients", "quotients with known orders of vanishing, in context", quotients(), at(some(), 3)),
        list_space("high order zeros", "quotients of powers up to the sixth", towers(), at(vec![i(0), i(1)], 8)),
        list_space("cancelling waves", "quotients of sums of sines and cosines that vanish to orders up to 17", super::limits::cancelling_quotients(17), at(vec![i(0)], 17)),
    ]
}

// ------------------------------------------------------------------ C25

const AGAIN: usize = 70;

/// Repeats a request, each answer dropped, and compares the memory in use.
fn repeat(c: &mut Ctx, key: &dyn Fn() -> String, f: &dyn Fn()) -> bool {
    c.steps(2 + AGAIN as u64);
    if guarded(|| (f(), f())).is_err() {
        c.skip(); // C22
        return true;
    }
    let before = taken();
    for _ in 0..AGAIN {
        f();
    }
    let more = taken() - before;
    if more > 0 {
        c.fail(key(), format!("{more} bytes of memory not given back after {AGAIN} repetitions"));
        return false;
    }
    c.ok();
    true
}

fn c25_case(s: &S, ats: &[S], c: &mut Ctx) {
    let e = s.build();
    let build = || {
        let e = s.build();
        drop((format!("{e:?}"), e.near(&s.build(), 1e-3).map_err(|m| m.to_string())));
    };
    if !repeat(c, &|| format!("building {}", s.key()), &build) {
        return;
    }
    for at in ats {
        let a = at.build();
        for (k, what) in OPS.iter().enumerate() {
            if k < 5 && at != &ats[0] {
                continue;
            }
            if !repeat(c, &|| format!("{what} of {} (with {})", s.key(), at.key()), &|| {
                compute(k, e.clone(), &a);
            }) {
                return;
            }
        }
        // requests that are refused
        if !at.is_leaf() || at.is_num() {
            let refused: [(&str, &dyn Fn()); 3] = [
                ("derivative", &|| drop(e.clone().derivative(&a).map_err(|m| m.to_string()))),
                ("substitution", &|| drop(e.clone().substitute(a.clone(), e.clone()).map_err(|m| m.to_string()))),
                ("expansion", &|| drop(e.clone().taylor_expansion(a.clone(), e.clone(), 1).map_err(|m| m.to_string()))),
            ];
            for (what, f) in refused {
                if !repeat(c, &|| format!("{what} of {} by {}", s.key(), at.key()), f) {
                    return;
                }
            }
        }
    }
    c.state(s.hash());
    c.sample(|| s.key());
}

/// Every operation on two numbers.
fn c25_numbers(a: &S, b: &S, c: &mut Ctx) {
    let num = |s: &S| s.build().to_smart_num().ok();
    let (Some(x), Some(y)) = (num(a), num(b)) else { return c.skip() };
    let all = || {
        for r in [x + y, x - y, x * y, x / y, -x] {
            drop((r.to_string(), r.to_i64(), r.to_f64(), r.to_rational(), r.sign()));
        }
        let _ = SmartNum::new_rational(-1, 6, 4);
        let _ = Expression::from(x).near(&Expression::from(y), 1e-3);
    };
    if repeat(c, &|| format!("operations on {} and {}", a.key(), b.key()), &all) {
        c.state(mix(a.hash(), b.hash()));
    }
}

fn c25(t: Tier) -> Vec<Space> {
    let ats: Arc<Vec<S>> = Arc::new(vec![i(1), bi(Bi::Add, v("y"), i(1))]);
    let (a1, a2, a3, a4, a5) = (ats.clone(), ats.clone(), ats.clone(), ats.clone(), ats.clone());
    let mut nums = super::total::extremes();
    nums.extend(near_nums());
    nums.extend([i(2), q(1, 2, 3), q(-1, 4, 6), S::E, S::Real(0.5)]);
    let nums = Arc::new(nums);
    let n = nums.len() as u64;
    let n2 = nums.clone();
    vec![
        tree_space("trees", vec![v("x"), v("y"), i(0), i(2), q(-1, 1, 2)], &UNS, &BIS, t.pick(5, 5), Arc::new(move |s, c| c25_case(s, &a1, c))),
        tree_space("numbers of every kind", full_leaves(), &UNS, &BIS, t.pick(3, 4), Arc::new(move |s, c| c25_case(s, &a2, c))),
        tree_space("of small expressions", units(), &UNS, &BIS, t.pick(3, 3), Arc::new(move |s, c| c25_case(s, &a3, c))),
        list_space("deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("y"), i(2)], &UNS, &[Bi::Add, Bi::Sub, Bi::Mul, Bi::Div], 2, &[7]), Arc::new(move |s, c| c25_case(s, &a4[..1], c))),
        list_space("look-alikes", "different expressions with the same text under every operator", alike_short(), Arc::new(move |s, c| c25_case(s, &a5[..1], c))),
        Space::new(
            "numbers",
            &format!("every pair of {n} numbers, every operation"),
            n * n,
            move |k| format!("{} and {}", n2[(k / n) as usize].key(), n2[(k % n) as usize].key()),
            move |k, c| c25_numbers(&nums[(k / n) as usize], &nums[(k % n) as usize], c),
        ),
    ]
}

// ------------------------------------------------------------------ C26

fn rewrite(s: &S, f: &dyn Fn(S) -> S) -> S {
    f(match s {
        S::U(o, a) => un(*o, rewrite(a, f)),
        S::B(o, a, b) => bi(*o, rewrite(a, f), rewrite(b, f)),
        s => s.clone(),
    })
}

/// The same request written in other ways: how, expression, point, and what
/// the answer must be of the first answer.
fn spellings(s: &S, to: &S) -> Vec<(&'static str, S, S, fn(S) -> S)> {
    let same: fn(S) -> S = |l| l;
    let commuted = rewrite(s, &|t| match t {
        S::B(o @ (Bi::Add | Bi::Mul), a, b) => S::B(o, b, a),
        t => t,
    });
    let sums = rewrite(s, &|t| match t {
        S::B(Bi::Sub, a, b) => bi(Bi::Add, *a, un(Un::Neg, *b)),
        t => t,
    });
    let t = || to.clone();
    let shift = |c: S| s.subst("x", &bi(Bi::Add, v("x"), c));
    let mut l: Vec<(&'static str, S, S, fn(S) -> S)> = vec![
        ("operands of sums and products swapped", commuted, t(), same),
        ("differences written as sums", sums, t(), same),
        ("negated", un(Un::Neg, s.clone()), t(), |l| un(Un::Neg, l)),
        ("negated twice", un(Un::Neg, un(Un::Neg, s.clone())), t(), same),
        ("times 3", bi(Bi::Mul, i(3), s.clone()), t(), |l| bi(Bi::Mul, i(3), l)),
        ("times -1/2", bi(Bi::Mul, s.clone(), q(-1, 1, 2)), t(), |l| bi(Bi::Mul, q(-1, 1, 2), l)),
        ("divided by 7", bi(Bi::Div, s.clone(), i(7)), t(), |l| bi(Bi::Div, l, i(7))),
        ("plus 5", bi(Bi::Add, s.clone(), i(5)), t(), |l| bi(Bi::Add, l, i(5))),
        ("2/3 minus it", bi(Bi::Sub, q(1, 2, 3), s.clone()), t(), |l| bi(Bi::Sub, q(1, 2, 3), l)),
    ];
    if *to != i(0) {
        l.push(("moved to zero", shift(to.clone()), i(0), same));
    } else {
        l.push(("moved to one", s.subst("x", &bi(Bi::Sub, v("x"), i(1))), i(1), same));
        l.push(("for 2x", s.subst("x", &bi(Bi::Mul, i(2), v("x"))), i(0), same));
    }
    l
}

fn c26_case(s: &S, to: &S, n: u64, c: &mut Ctx) {
    use LimitExpression::*;
    c.step();
    let Ok(was) = limit(s, "x", to, n) else { return c.skip() };
    let value = |l: &LimitExpression| match l {
        Infinitesimal => Some(i(0)),
        Normal(e) => Some(read(e)),
        _ => None,
    };
    for (how, t, at, of) in spellings(s, to) {
        c.step();
        let Ok(is) = limit(&t, "x", &at, n) else { return c.skip() };
        let fine = match (&was, &is) {
            (Err(_), Err(_)) => true,
            (Ok(a), Ok(b)) => match (value(a), value(b)) {
                (None, None) => std::mem::discriminant(a) == std::mem::discriminant(b),
                (Some(a), Some(b)) => {
                    let should = of(a);
                    !(0..2).any(|k| {
                        let env = generic(k);
                        matches!(compare(eval(&should, &env), eval(&b, &env)), Cmp::Differ)
                    })
                }
                _ => false,
            },
            _ => false,
        };
        if !fine {
            return c.fail(
                format!("lim {} at {} with {n} steps, {how}: lim {} at {}", s.key(), to.key(), t.key(), at.key()),
                format!("{}, but {} as first written", show_lim(&is), show_lim(&was)),
            );
        }
        c.ok();
    }
    c.state(mix(s.hash(), mix(to.hash(), n)));
    c.sample(|| format!("lim {} at {}: {} however written", s.key(), to.key(), show_lim(&was)));
}

fn c26(t: Tier) -> Vec<Space> {
    let at = |tos: Vec<S>, ns: &'static [u64]| -> TreeCheck { Arc::new(move |s, c| tos.iter().for_each(|to| ns.iter().for_each(|n| c26_case(s, to, *n, c)))) };
    let some = || vec![i(0), i(1), q(-1, 1, 2), v("a")];
    const TRIG: [Un; 3] = [Un::Neg, Un::Sin, Un::Cos];
    vec![
        tree_space("trees", vec![v("x"), v("y"), i(0), i(1), q(1, 1, 2)], &UNS, &BIS, t.pick(5, 6), at(some(), &[1])),
        tree_space("larger trees", vec![v("x"), i(1), i(-2)], &TRIG, &ARITH, t.pick(7, 8), at(vec![i(0), i(1), v("a")], &[0, 1, 2])),
        tree_space("rational functions", vec![v("x"), i(1)], &[], &ARITH, t.pick(9, 9), at(vec![i(0), i(1)], &[1, 2])),
        tree_space("of small expressions", limit_units(), &[Un::Neg], &ARITH, t.pick(5, 5), at(vec![i(0), i(1)], &[1, 3])),
        list_space("number ladder", "every number up to 60 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(60, t.pick(12, 1))), at(vec![i(0), q(-1, 7, 3)], &[1])),
        list_space("very deep", "nestings of every single wrapping by + - and negation, hundreds deep", very_deep(&[Un::Neg], &[Bi::Add, Bi::Sub], t.pick(&[140, 300], &[140, 300, 1050])), at(vec![i(0), v("a")], &[1])),
        list_space("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[8], &[8, 10])), at(vec![i(0), v("a")], &[1])),
        list_space("deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("x"), v("y"), i(2)], &TRIG, &ARITH, 2, &[5, t.pick(7, 9)]), at(vec![i(0), i(1), v("a")], &[1])),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, &[3, 4]), at(some(), &[0, 1])),
        list_space("many variables", "chains and balanced trees of up to 18 different variables", many_list(&ARITH, &[3, 9, 18]).into_iter().map(|s| s.rename(&[("v2", "x")])).collect(), at(some(), &[1])),
        list_space("quotients", "quotients with known orders of vanishing, in context", quotients(), at(some(), &[0, 1, 2, 3])),
        list_space("high order zeros", "quotients of powers up to the sixth", towers(), at(vec![i(0), i(1)], &[2, 6, 8])),
        list_space("cancelling waves", "quotients of sums of sines and cosines that vanish to orders up to 17", super::limits::cancelling_quotients(10), at(vec![i(0)], &[4, 10])),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "every tree x point x number of steps is one case: it is asked as it is and in up to eleven other spellings with a known relation between the answers; all are found or none, and the answers must be so related",
            assumptions: &["values are compared by the reference at two generic assignments of the other variables"],
            spaces: c26,
        },
        Prop {
            id: "C23",
            rule: "every expression x point is one case: every answer (simplification, derivatives, substitution, coefficients, residual, limit) is read back, and must be well formed, print like the same expression built anew, mention only the variables of the request and, where the request is exact and harmless, hold only integers and fractions",
            assumptions: &["where nothing vanishes is decided by the reference at two generic assignments"],
            spaces: c23,
        },
        Prop {
            id: "C24",
            rule: "every tree x point is one case: the number of attempts is raised from 0 until a limit is found, then by three more single steps and to 16 much larger numbers up to 2^64 - 1; the answer must stay the same",
            assumptions: &[],
            spaces: c24,
        },
        Prop {
            id: "C25",
            rule: "every expression x argument x operation (and pair of numbers) is one case: the request is made twice, then 70 times more, each answer dropped; the bytes in use by the thread may not grow",
            assumptions: &["memory is what the program takes from its allocator on the thread that makes the request"],
            spaces: c25,
        },
    ]
}
