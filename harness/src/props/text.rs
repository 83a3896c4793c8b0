//! C14: the text of expressions.
use super::exprs::{points, spine_names, the_grid};
use super::*;
use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::tree::Expression;
use crate::compute::derivative::Derivative;
use crate::compute::num_aggregate::NumAggregate;
use crate::engine::guarded;
use crate::oracle::eval::{eval, eval_impl};
use crate::parse;

/// Every floating-point number rounded to three decimals; None where the
/// rounding is a tie or the number has no decimals to speak of.
pub fn three_decimals(s: &S) -> Option<S> {
    Some(match s {
        S::Real(f) => {
            if !f.is_finite() || ((f * 1000.0).fract().abs() - 0.5).abs() < 1e-3 {
                return None;
            }
            S::Real(format!("{f:.3}").parse().ok()?)
        }
        S::U(o, a) => un(*o, three_decimals(a)?),
        S::B(o, a, b) => bi(*o, three_decimals(a)?, three_decimals(b)?),
        s => s.clone(),
    })
}

fn text_is(what: &str, e: &Expression, s: &S, impl_side: bool, c: &mut Ctx) -> bool {
    c.step();
    let key = || format!("{what}{}", s.key());
    let text = match guarded(|| e.to_string()) {
        Ok(t) => t,
        Err(m) => {
            c.fail(key(), format!("printing crashed: {m}"));
            return false;
        }
    };
    if guarded(|| format!("{e}")).as_deref() != Ok(text.as_str()) {
        c.fail(key(), "to_string and formatting differ");
        return false;
    }
    // inexact numbers are shown to three decimals: what is read back is compared
    // with the expression in which they are rounded so
    let s = match &three_decimals(s) {
        Some(r) => &r.clone(),
        None => {
            c.vague();
            return true;
        }
    };
    let envs = points(s, the_grid());
    let val = |s: &S, k: usize| if impl_side { eval_impl(s, &envs[k]) } else { eval(s, &envs[k]) };
    let defined = (0..envs.len()).any(|k| val(s, k).is_ok());
    let r = match parse::expression(&text, all_names()) {
        Ok(r) => r,
        Err(m) => {
            if defined {
                c.fail(key(), format!("the text {text:?} cannot be read: {m}"));
                return false;
            }
            c.skip();
            return true;
        }
    };
    for k in 0..envs.len() {
        let (w, g) = (val(s, k), val(&r, k));
        match compare(w, g) {
            Cmp::Equal => c.ok(),
            Cmp::Skip => c.skip(),
            Cmp::Vague => c.vague(),
            Cmp::Differ => {
                c.fail(
                    key(),
                    format!(
                        "the text {text:?} reads {}, which is {} at {} instead of {}",
                        r.key(),
                        show_res(&g),
                        show_env(&envs[k], s),
                        show_res(&w)
                    ),
                );
                return false;
            }
        }
    }
    c.outcome(text.bytes().fold(7, |h, b| mix(h, b as u64)));
    c.sample(|| format!("{} -> {text}", key()));
    true
}

fn c14_tree(s: &S, c: &mut Ctx) {
    if let S::Var(n) = s {
        // a variable by itself, as an operand and as an expression
        let l = [Variable::new_variable(n).to_string(), AstOperand::new_variable(n).to_string(), s.build().to_string()];
        if l.iter().any(|t| t != n) {
            return c.fail(s.key(), format!("the variable prints as {l:?}"));
        }
    }
    text_is("", &s.build(), s, false, c);
    c.state(s.hash());
}

/// Text of what the operations produce.
fn c14_results(s: &S, c: &mut Ctx) {
    let e = s.build();
    if let Ok(r) = guarded(|| e.clone().num_aggregate()) {
        if !text_is("simplified ", &r, &read(&r), true, c) {
            return;
        }
    }
    if let Ok(Ok(r)) = guarded(|| e.derivative(&Variable::new_variable("x"))) {
        text_is("derivative ", &r, &read(&r), true, c);
    }
    c.state(s.hash());
}

fn c14(t: Tier) -> Vec<Space> {
    let f: TreeCheck = Arc::new(c14_tree);
    let mut leaves = full_leaves();
    leaves.extend([S::Real(-0.5), i(-7), q(1, 5, 1), q(-1, 3, 3), S::Real(2.125), q(1, 0, 4)]);
    let sp = spine_list(&[v("x"), i(-2), q(1, 1, 2)], &[v("y"), i(2), i(-1), q(-1, 1, 2)], &UNS, &BIS, 2, &[3, 4]);
    let deep = spine_list(&[v("x"), i(-2)], &[v("y"), i(2)], &UNS, &BIS, 2, &[t.pick(9, 12)]);
    let calm = spine_list(
        &[v("x"), i(-2), q(-1, 1, 2)],
        &[v("y"), i(2), q(-1, 1, 2)],
        &[Un::Neg, Un::Sin, Un::Cos],
        &[Bi::Add, Bi::Sub, Bi::Mul, Bi::Div],
        2,
        t.pick(&[20, 34], &[20, 34, 68]),
    );
    let mut reals: Vec<S> = vec![];
    for k in 0..t.pick(4000i64, 40_000) {
        // 0.0000, 0.0003, ... and the same around larger magnitudes
        for (m, d) in [(3.0, 1e4), (17.0, 1e3), (1234.567, 7.0)] {
            reals.push(S::Real(k as f64 * m / d));
            reals.push(S::Real(-(k as f64) * m / d));
        }
    }
    for e in 0..t.pick(40, 300) {
        for m in [1.0, 1.5, 2.0, 3.25, 9.999, 9.9994, 9.9996, 1.0004, 1.0006, 7.125, 8.001, 6.0101] {
            for z in [1.0, -1.0] {
                reals.push(S::Real(z * m * 10f64.powi(e)));
                reals.push(S::Real(z * m * 10f64.powi(-e)));
            }
        }
    }
    let names: Vec<S> = spine_names().into_iter().map(v).collect();
    let mut edge: Vec<S> = vec![];
    for k in edge_i64() {
        edge.push(i(k));
    }
    for n in edge_u64() {
        for d in edge_u64() {
            if d != 0 {
                edge.push(q(1, n, d));
                edge.push(q(-1, n, d));
            }
        }
    }
    vec![
        tree_space("trees", leaves.clone(), &UNS, &BIS, t.pick(5, 6), f.clone()),
        tree_space("larger trees", vec![v("x"), v("y"), i(2), i(-1)], &UNS, &BIS, t.pick(6, 7), f.clone()),
        tree_space("arithmetic", vec![v("x"), v("y"), i(3)], &[Un::Neg], &[Bi::Add, Bi::Sub, Bi::Mul, Bi::Div, Bi::Pow], t.pick(8, 9), f.clone()),
        tree_space("two symbols", vec![v("x"), v("y")], &[Un::Neg, Un::Sin], &[Bi::Sub, Bi::Div, Bi::Pow], t.pick(8, 9), f.clone()),
        tree_space("negative numbers", vec![i(-2), q(-1, 1, 2), S::Real(-0.5), v("x")], &[Un::Neg, Un::Sin], &BIS, t.pick(5, 6), f.clone()),
        tree_space("names", names, &[Un::Sin, Un::Ln, Un::Exp], &[Bi::Mul, Bi::Pow], t.pick(3, 4), f.clone()),
        list_space("numbers", "integers and fractions with boundary parts", edge, f.clone()),
        list_space("inexact numbers", "floating-point numbers in steps of 0.0003, 0.017 and about 176, and around powers of ten, both signs", reals, f.clone()),
        list_space("deeper", "deep nestings of every pattern of two wrappings by + - * / negation, sine and cosine", calm, f.clone()),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&ARITH, t.pick(&[12], &[12, 14])), f.clone()),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 5], &[3, 4, 5, 6])), f.clone()),
        list_space("many variables", "chains and balanced trees of up to 40 different variables", many_list(&ARITH, &[3, 9, 17, 40]), f.clone()),
        list_space("very deep", "nestings of every single wrapping by + - * / negation, sine and cosine, hundreds deep", very_deep(&[Un::Neg, Un::Sin, Un::Cos], &ARITH, t.pick(&[140, 270], &[140, 270, 530])), f.clone()),
        list_space("number ladder", "every number up to 130 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(t.pick(130, 2000), t.pick(6, 1))), f.clone()),
        list_space("powers of numbers", "small and boundary bases with every exponent from -70 to 70 and others; functions of multiples and fractions of pi, e and x", number_powers(), f.clone()),
        list_space("nested", "nestings of every pattern of two wrappings", sp, f.clone()),
        list_space("deep", "deeper nestings of every pattern of two wrappings", deep, f.clone()),
        tree_space("results", vec![v("x"), v("y"), i(2), i(-1), q(1, 1, 2), S::Pi], &UNS, &BIS, t.pick(5, 6), Arc::new(c14_results)),
        tree_space("of small expressions", units(), &UNS, &BIS, 5, f.clone()),
        tree_space("of four small expressions", few_units(), &[], &BIS, 7, f.clone()),
        tree_space("results of small expressions", units(), &UNS, &BIS, 5, Arc::new(c14_results)),
        tree_space("results, larger", vec![v("x"), v("y"), i(2)], &UNS, &BIS, t.pick(6, 7), Arc::new(c14_results)),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "every tree is one case: its text is read by an independent reader and the values compared at every grid point",
        assumptions: &["floating-point numbers are shown to three decimals: the text is compared with the expression whose floating-point numbers are rounded so (ties left out)"],
        spaces: c14,
    }]
}
