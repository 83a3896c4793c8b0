//! C18, C20: misuse, and agreement of the entry points.
use super::exprs::{odd_names, the_small_grid};
use super::limits::show_lim;
use super::*;
use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::verif_hook;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};
use crate::engine::guarded;
use crate::math_op::{
    cos::{cos, Cos},
    exp::{exp, Exp},
    ln::{ln, Ln},
    pow::Pow,
    sin::{sin, Sin},
};
use crate::compute::num_aggregate::NumAggregate;
use crate::smart_num::rational::{RationalNum, ToRational};
use crate::smart_num::val_holder::IsClose;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::error::Error;

// ------------------------------------------------------------------ C18

fn is_var(s: &S) -> bool {
    matches!(s, S::Var(_))
}

/// The outcome of a request that must be refused iff `bad`.
fn verdict<T>(c: &mut Ctx, what: &str, s: &S, bad: bool, r: Result<Result<T, String>, String>) {
    c.step();
    let key = format!("{what} {}", s.key());
    match r {
        Err(m) => c.fail(key, format!("crashed: {m}")),
        Ok(Ok(_)) if bad => c.fail(key, "accepted"),
        Ok(Err(e)) if !bad => c.fail(key, format!("refused: {e}")),
        Ok(Err(e)) if e.is_empty() => c.fail(key, "the error has no text"),
        Ok(_) => c.ok(),
    }
}

/// `s` where a variable is required.
fn c18_variable(s: &S, c: &mut Ctx) {
    let bad = !is_var(s);
    let e = s.build();
    let targets = [
        bi(Bi::Add, bi(Bi::Mul, v("x"), v("x")), un(Un::Sin, v("y"))),
        i(3),
        v("x"),
        s.clone(),
        bi(Bi::Div, s.clone(), bi(Bi::Pow, v("x"), i(2))),
    ];
    for t in &targets {
        let f = t.build();
        verdict(c, "derivative by reference in", s, bad, guarded(|| f.clone().derivative(&e).map_err(|x| x.to_string())));
        verdict(c, "derivative in", s, bad, guarded(|| f.clone().derivative(e.clone()).map_err(|x| x.to_string())));
        verdict(
            c,
            "substitution for",
            s,
            bad,
            guarded(|| f.clone().substitute(e.clone(), Expression::one()).map_err(|x| x.to_string())),
        );
        verdict(
            c,
            "substitution by reference for",
            s,
            bad,
            guarded(|| f.clone().substitute(&e, &Expression::one()).map_err(|x| x.to_string())),
        );
        for order in [0, 2] {
            verdict(
                c,
                "expansion in",
                s,
                bad,
                guarded(|| f.clone().taylor_expansion(e.clone(), Expression::one(), order).map_err(|x| x.to_string())),
            );
        }
        // a limit may be refused for other reasons, except where it is obvious
        c.step();
        match guarded(|| verif_hook::limit_of_expression(f.clone(), e.clone(), Expression::one(), 1)) {
            Err(m) => c.fail(format!("limit in {} of {}", s.key(), t.key()), format!("crashed: {m}")),
            Ok(Ok(l)) if bad => c.fail(format!("limit in {} of {}", s.key(), t.key()), format!("answered {}", show_lim(&Ok(l)))),
            Ok(Err(_)) if !bad && (*t == targets[0] || *t == i(3) || *t == v("x")) => {
                c.fail(format!("limit in {} of {}", s.key(), t.key()), "refused")
            }
            Ok(Err(e)) if format!("{e:?}").is_empty() => c.fail(format!("limit in {}", s.key()), "the error has no text"),
            Ok(_) => c.ok(),
        }
    }
    c.state(s.hash());
    c.sample(|| format!("{} where a variable is required", s.key()));
}

/// `s` where a number is required.
fn c18_number(s: &S, c: &mut Ctx) {
    let bad = !s.is_num();
    let e = s.build();
    let chain = |x: &dyn Error| {
        let mut t = x.to_string();
        let mut k = x.source();
        while let Some(y) = k {
            t += &y.to_string();
            k = y.source();
        }
        format!("{t}{x:?}")
    };
    verdict(c, "number of", s, bad, guarded(|| (&e).to_smart_num().map(|_| ()).map_err(|x| chain(&x))));
    verdict(c, "number (by value) of", s, bad, guarded(|| e.clone().to_smart_num().map(|_| ()).map_err(|x| chain(&x))));
    for other in [i(1), v("x"), S::Pi, bi(Bi::Add, i(1), i(1)), q(1, 1, 2)] {
        let o = other.build();
        let b = bad || !other.is_num();
        verdict(c, &format!("near {}:", other.key()), s, b, guarded(|| e.near(&o, 0.5).map_err(|x| chain(&x))));
        verdict(c, &format!("{} near", other.key()), s, b, guarded(|| o.near(&e, 0.5).map_err(|x| chain(&x))));
    }
    if let AstNode::Operand(o) = &e.root {
        verdict(c, "number of operand", s, bad, guarded(|| o.to_smart_num().map(|_| ()).map_err(|x| chain(x))));
        verdict(c, "number of operand (by value)", s, bad, guarded(|| o.clone().to_smart_num().map(|_| ()).map_err(|x| chain(x))));
    }
    c.step();
    let exact = matches!(s, S::Int(_) | S::Rat(..));
    match guarded(|| ((&e).to_rational().is_some(), e.clone().to_rational().is_some())) {
        Ok((a, b)) if a == exact && b == exact => c.ok(),
        r => c.fail(format!("fraction of {}", s.key()), format!("{r:?}")),
    }
    c.state(s.hash());
    c.sample(|| format!("{} where a number is required", s.key()));
}

/// Compound expressions whose text has a wide character at every position.
fn wide_texts() -> Vec<S> {
    static L: std::sync::OnceLock<Vec<S>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut l = vec![];
        for k in 0..280 {
            for w in ["\u{3bb}", "\u{6f22}", "\u{1f600}"] {
                let name: &'static str = Box::leak(format!("{}{w}", "n".repeat(k)).into_boxed_str());
                l.push(bi(Bi::Add, v(name), i(1)));
                if k % 40 == 0 {
                    l.push(v(name));
                }
            }
        }
        l
    })
    .clone()
}

fn alike_leaves() -> Vec<S> {
    alike_pairs().into_iter().flat_map(|(a, b)| [a, b]).chain(near_nums()).collect()
}

fn c18(t: Tier) -> Vec<Space> {
    let mut leaves = full_leaves();
    leaves.extend([S::Real(0.0), S::Real(1.0), q(1, 3, 3), q(1, 0, 2), i(i64::MIN)]);
    let f: TreeCheck = Arc::new(c18_variable);
    let g: TreeCheck = Arc::new(c18_number);
    let names: Vec<S> = odd_names().into_iter().map(v).collect();
    let undef: Vec<S> = {
        // numbers that came out of undefined operations
        let mut l = vec![];
        for a in [i(0), i(1), i(-1), S::Real(0.0), S::Pi] {
            l.push(bi(Bi::Div, a, i(0)));
        }
        l
    };
    vec![
        tree_space("as variable", leaves.clone(), &UNS, &BIS, t.pick(4, 5), f.clone()),
        tree_space("as variable, larger", vec![v("x"), i(1)], &UNS, &BIS, t.pick(6, 7), f.clone()),
        tree_space("as number", leaves, &UNS, &BIS, t.pick(5, 6), g.clone()),
        list_space("error texts", "compound expressions whose text has a character of two, three or four bytes at every position up to 280", wide_texts(), f.clone()),
        list_space("error texts as number", "compound expressions whose text has a character of two, three or four bytes at every position up to 280", wide_texts(), g.clone()),
        list_space("very deep", "nestings of every single wrapping", very_deep(&UNS, &BIS, &[70, 280]), f.clone()),
        list_space("many variables", "chains and balanced trees of up to 40 different variables", many_list(&ARITH, &[3, 40]), f.clone()),
        list_space("look-alikes as variable", "expressions and variables with the same text", alike_leaves(), f.clone()),
        list_space("look-alikes as number", "expressions and variables with the same text", alike_leaves(), g.clone()),
        list_space("names as variable", "unusual names", names.clone(), f.clone()),
        list_space("names as number", "unusual names", names, g.clone()),
        list_space("undefined quotients as variable", "quotients by zero", undef.clone(), f),
        list_space("undefined quotients as number", "quotients by zero", undef, g),
    ]
}

// ------------------------------------------------------------------ C20

fn show_p(r: &Result<PartialExpansion, String>) -> String {
    match r {
        Ok(p) => format!(
            "order {} of {} at {}: {} residual {} text {}",
            p.order,
            read(&p.of).key(),
            read(&p.at).key(),
            p.coefficient.iter().map(|e| read(e).key()).collect::<Vec<_>>().join(" | "),
            read(&p.residual).key(),
            p
        ),
        Err(e) => format!("error {e}"),
    }
}

fn all_same(c: &mut Ctx, key: impl Fn() -> String, l: Vec<(&str, String)>) -> bool {
    c.steps(l.len() as u64);
    for (n, r) in &l[1..] {
        if *r != l[0].1 {
            c.fail(key(), format!("{} gives {}, {n} gives {r}", l[0].0, l[0].1));
            return false;
        }
    }
    c.ok();
    true
}

fn ge<E: std::fmt::Display>(f: impl FnOnce() -> Result<Expression, E>) -> String {
    match guarded(|| f().map(|e| read(&e).key()).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => format!("error {e}"),
        Err(m) => format!("crash {m}"),
    }
}

fn c20_tree(s: &S, c: &mut Ctx) {
    let e = s.build();
    let show = |e: Expression| read(&e).key();
    // functions and methods
    let un_forms = [
        vec![("fn sin", show(sin(e.clone()))), ("method", show(e.clone().sin())), ("method on reference", show((&e).sin()))],
        vec![("fn cos", show(cos(e.clone()))), ("method", show(e.clone().cos())), ("method on reference", show((&e).cos()))],
        vec![("fn exp", show(exp(e.clone()))), ("method", show(e.clone().exp()))],
        vec![("fn ln", show(ln(e.clone()))), ("method", show(e.clone().ln()))],
    ];
    for f in un_forms {
        if !all_same(c, || format!("function of {}", s.key()), f) {
            return;
        }
    }
    let by_kind = [
        vec![
            ("pow(i64)", show(e.clone().pow(3_i64))),
            ("pow(u8)", show(e.clone().pow(3_u8))),
            ("pow(u64)", show(e.clone().pow(3_u64))),
            ("pow(number)", show(e.clone().pow(SmartNum::from(3_i32)))),
            ("pow(expression)", show(e.clone().pow(Expression::from(3_i16)))),
        ],
        vec![("pow(f64)", show(e.clone().pow(0.5_f64))), ("pow(f32)", show(e.clone().pow(0.5_f32))), ("pow(expression)", show(e.clone().pow(Expression::from(0.5))))],
        vec![("pow(variable)", show(e.clone().pow(Variable::new_variable("y")))), ("pow(expression)", show(e.clone().pow(Expression::new_variable("y"))))],
        vec![("text", e.to_string()), ("formatted", format!("{e}"))],
    ];
    for f in by_kind {
        if !all_same(c, || format!("power or text of {}", s.key()), f) {
            return;
        }
    }
    for name in ["x", "y"] {
        let var = Variable::new_variable(name);
        let ev = Expression::new_variable(name);
        let ok = all_same(
            c,
            || format!("d/d{name} {}", s.key()),
            vec![
                ("&Variable", ge(|| e.clone().derivative(&var))),
                ("&Expression", ge(|| e.clone().derivative(&ev))),
                ("Expression", ge(|| e.clone().derivative(ev.clone()))),
            ],
        );
        if !ok {
            return;
        }
        for by in [bi(Bi::Add, v("x"), i(1)), i(0), v("y"), un(Un::Neg, bi(Bi::Mul, v("y"), v("x"))), bi(Bi::Add, i(1), i(1)), un(Un::Sin, i(0))] {
            let b = by.build();
            let ok = all_same(
                c,
                || format!("{} with {name} := {}", s.key(), by.key()),
                vec![
                    ("(&Variable, &Expression)", ge(|| e.clone().substitute(&var, &b))),
                    ("(Expression, Expression)", ge(|| e.clone().substitute(ev.clone(), b.clone()))),
                    ("(&Expression, &Expression)", ge(|| e.clone().substitute(&ev, &b))),
                ],
            );
            if !ok {
                return;
            }
        }
        for (at, n) in [(i(0), 2u64), (i(1), 1), (v("a"), 1), (bi(Bi::Add, v("x"), i(1)), 1), (bi(Bi::Add, i(1), i(1)), 1), (un(Un::Neg, un(Un::Neg, v("a"))), 0)] {
            let a = at.build();
            let p1 = guarded(|| show_p(&e.clone().taylor_expansion(&var, &a, n).map_err(|e| e.to_string())));
            let p2 = guarded(|| show_p(&e.clone().taylor_expansion(ev.clone(), a.clone(), n).map_err(|e| e.to_string())));
            let ok = all_same(
                c,
                || format!("expansion of {} in {name} at {}", s.key(), at.key()),
                vec![("(&Variable, &Expression)", format!("{p1:?}")), ("(Expression, Expression)", format!("{p2:?}"))],
            );
            if !ok {
                return;
            }
        }
        for (to, n) in [(i(0), 1u64), (i(1), 2), (v("a"), 0), (bi(Bi::Sub, i(1), i(1)), 1), (bi(Bi::Mul, i(1), v("a")), 1)] {
            let a = to.build();
            let l1 = guarded(|| show_lim(&verif_hook::limit_of_variable(e.clone(), &var, a.clone(), n)));
            let l2 = guarded(|| show_lim(&verif_hook::limit_of_expression(e.clone(), ev.clone(), a.clone(), n)));
            let ok = all_same(
                c,
                || format!("limit of {} in {name} at {}", s.key(), to.key()),
                vec![("&Variable", format!("{l1:?}")), ("Expression", format!("{l2:?}"))],
            );
            if !ok {
                return;
            }
        }
    }
    c.state(s.hash());
    c.sample(|| s.key());
}

fn c20_order_list() -> Vec<S> {
    let x = || v("x");
    vec![x(), bi(Bi::Mul, x(), x()), un(Un::Sin, x()), un(Un::Exp, x()), un(Un::Exp, un(Un::Neg, x())), i(3)]
}

fn c20_orders(s: &S, c: &mut Ctx) {
    let e = s.build();
    let (var, ev) = (Variable::new_variable("x"), Expression::new_variable("x"));
    let orders = (0..=70u64).chain([99, 100, 127, 128, 129, 170, 171, 200, 255, 256, 257, 300, 1000, 1024, 65_535, 65_536, 70_000]);
    for n in orders {
        for at in [i(0), i(1)] {
            if n > 100 && (at == i(1) || s.any(&|t| matches!(t, S::U(Un::Neg, _)))) {
                continue;
            }
            let a = at.build();
            let show = |p: Result<PartialExpansion, String>| match p {
                Ok(p) => {
                    let h = p.coefficient.iter().fold(0, |h, e| mix(h, read(e).hash()));
                    format!("order {} with {} coefficients ({h:x}), residual {}", p.order, p.coefficient.len(), read(&p.residual).key())
                }
                Err(e) => e,
            };
            let p1 = guarded(|| show(e.clone().taylor_expansion(&var, &a, n).map_err(|e| e.to_string())));
            let p2 = guarded(|| show(e.clone().taylor_expansion(ev.clone(), a.clone(), n).map_err(|e| e.to_string())));
            let ok = all_same(
                c,
                || format!("expansion of {} at {} to order {n}", s.key(), at.key()),
                vec![("(&Variable, &Expression)", format!("{p1:?}")), ("(Expression, Expression)", format!("{p2:?}"))],
            );
            if !ok {
                return;
            }
            let f = || e.clone() / Expression::new_variable("x");
            let l1 = guarded(|| show_lim(&verif_hook::limit_of_variable(f(), &var, a.clone(), n)));
            let l2 = guarded(|| show_lim(&verif_hook::limit_of_expression(f(), ev.clone(), a.clone(), n)));
            let ok = all_same(
                c,
                || format!("limit of {} / x at {} with {n} steps", s.key(), at.key()),
                vec![("&Variable", format!("{l1:?}")), ("Expression", format!("{l2:?}"))],
            );
            if !ok {
                return;
            }
        }
        c.state(mix(s.hash(), n));
    }
}

fn c20_num(s: &S, c: &mut Ctx) {
    let n = super::numbers::num(s);
    let e = Expression::from(n);
    let sm = |n: &SmartNum| read_num(n).key();
    let key = || s.key();
    let exprs = vec![
        ("from number", read(&e).key()),
        ("operand", read(&Expression::from(AstOperand::from(n))).key()),
        ("number read back", sm((&e).to_smart_num().ok().expect("number"))),
        ("number read back by value", sm(&e.clone().to_smart_num().ok().expect("number"))),
        ("copy", sm(&n.clone())),
    ];
    if !all_same(c, key, exprs) {
        return;
    }
    let mut texts = vec![("number", n.to_string()), ("expression", e.to_string()), ("operand", AstOperand::from(n).to_string())];
    texts.push(("operand formatted", format!("{}", AstOperand::from(n))));
    if !all_same(c, key, texts) {
        return;
    }
    let fr = |r: Option<crate::smart_num::rational::RationalNum>| format!("{:?}", r.map(|r| (r.sign, r.nominator, r.denominator)));
    let rats = vec![
        ("number", fr(n.to_rational())),
        ("reference", fr((&n).to_rational())),
        ("expression", fr(e.clone().to_rational())),
        ("expression reference", fr((&e).to_rational())),
    ];
    if !all_same(c, key, rats) {
        return;
    }
    let f = |b: [bool; 4]| format!("{b:?}");
    let o = AstOperand::from(n);
    if !all_same(
        c,
        key,
        vec![
            ("number zero/one/pi/e", f([n.is_zero(), n.is_one(), n.is_pi(), n.is_e()])),
            ("expression", f([e.is_zero(), e.is_one(), e.is_pi(), e.is_e()])),
            ("operand", f([o.is_zero(), o.is_one(), o.is_pi(), o.is_e()])),
        ],
    ) {
        return;
    }
    // functions take anything that converts to an expression
    let show = |e: Expression| read(&e).key();
    if !all_same(c, key, vec![("sin(number)", show(sin(n))), ("sin(expression)", show(sin(e.clone())))]) {
        return;
    }
    if !all_same(c, key, vec![("cos(number)", show(cos(n))), ("cos(expression)", show(cos(e.clone())))]) {
        return;
    }
    if let S::Int(k) = s {
        if !all_same(c, key, vec![("sin(i64)", show(sin(*k))), ("sin(number)", show(sin(n)))]) {
            return;
        }
    }
    let named: Option<(Expression, SmartNum)> = match s {
        S::Int(0) => Some((Expression::zero(), SmartNum::zero())),
        S::Int(1) => Some((Expression::one(), SmartNum::one())),
        S::Pi => Some((Expression::pi(), SmartNum::pi())),
        S::E => Some((Expression::e(), SmartNum::e())),
        _ => None,
    };
    if let Some((x, y)) = named {
        if !all_same(c, key, vec![("built", read(&e).key()), ("named expression", read(&x).key()), ("named number", sm(&y))]) {
            return;
        }
    }
    for o in [i(0), i(1), q(1, 1, 2), S::Pi, S::Real(0.25), q(-1, 7, 3)] {
        let m = super::numbers::num(&o);
        let em = Expression::from(m);
        for eps in [1e-9, 0.3, 1.7] {
            let x = (n.to_f64() - m.to_f64()).abs();
            if (x - eps).abs() < 1e-9 * (1.0 + x) || !x.is_finite() {
                continue;
            }
            let l = vec![
                ("is_close", format!("{}", n.is_close(m, eps))),
                ("is_close by reference", format!("{}", (&n).is_close(&m, eps))),
                ("near", format!("{}", e.near(&em, eps).ok().expect("numbers"))),
            ];
            if !all_same(c, || format!("{} close to {} within {eps}", s.key(), o.key()), l) {
                return;
            }
        }
    }
    c.state(s.hash());
}

/// Two numbers combined as numbers and as an expression of numbers.
fn c20_pair(a: &S, b: &S, c: &mut Ctx) {
    let (x, y) = (super::numbers::num(a), super::numbers::num(b));
    let sm = |r: Result<SmartNum, String>| match r {
        Ok(n) => read_num(&n).key(),
        Err(m) => format!("crash {m}"),
    };
    let ops: [(&str, fn(SmartNum, SmartNum) -> SmartNum, fn(Expression, Expression) -> Expression); 4] =
        [("+", |a, b| a + b, |a, b| a + b), ("-", |a, b| a - b, |a, b| a - b), ("*", |a, b| a * b, |a, b| a * b), ("/", |a, b| a / b, |a, b| a / b)];
    for (t, f, g) in ops {
        let n = sm(guarded(|| f(x, y)));
        let e = match guarded(|| g(Expression::from(x), Expression::from(y)).num_aggregate()) {
            Ok(e) => read(&e).key(),
            Err(m) => format!("crash {m}"),
        };
        if !all_same(c, || format!("{} {t} {}", a.key(), b.key()), vec![("numbers", n), ("simplified expression", e)]) {
            return;
        }
    }
    c.state(mix(a.hash(), b.hash()));
}

/// Fractions built directly.
fn c20_fraction(n: u64, d: u64, c: &mut Ctx) {
    let f = |r: &RationalNum| format!("{:?}", (r.sign, r.nominator, r.denominator));
    for sign in [1i64, -1] {
        let made = RationalNum::new(sign, n, d);
        let short = if sign == 1 { RationalNum::new_positive(n, d) } else { RationalNum::new_negative(n, d) };
        let key = || format!("fraction {sign} {n}/{d}");
        let show = |r: &Option<RationalNum>| r.as_ref().map(f).unwrap_or("none".into());
        let of_num = SmartNum::new_rational(sign, n, d);
        let l = vec![("new", show(&made)), ("new_positive/new_negative", show(&short)), ("number", show(&of_num.and_then(|x| x.to_rational())))];
        if !all_same(c, key, l) {
            return;
        }
        let (Some(r), Some(m)) = (made, of_num) else { continue };
        let l = vec![("value of fraction", format!("{:?}", r.to_f64())), ("value of number", format!("{:?}", m.to_f64()))];
        if !all_same(c, key, l) {
            return;
        }
        if n != 0 && !(n == d) {
            let l = vec![("text of fraction", r.to_string()), ("text of number", m.to_string())];
            if !all_same(c, key, l) {
                return;
            }
        }
    }
    if d == 1 {
        let mut l = vec![("from u64", f(&RationalNum::from(n))), ("new", f(&RationalNum::new(1, n, 1).unwrap()))];
        if let Ok(k) = i64::try_from(n) {
            l.push(("from i64", f(&RationalNum::from(k))));
        }
        if n != 0 && !all_same(c, || format!("fraction {n}/1"), l) {
            return;
        }
    }
    c.state(mix(n, d));
}

fn c20(t: Tier) -> Vec<Space> {
    let f: TreeCheck = Arc::new(c20_tree);
    let g: TreeCheck = Arc::new(c20_num);
    let mut nums = super::exprs::wide_nums();
    for n in 0..=t.pick(30, 80) {
        for d in 1..=t.pick(24, 60) {
            nums.push(q(1, n, d));
            nums.push(q(-1, n, d));
        }
    }
    for k in edge_i64() {
        nums.push(i(k));
    }
    for k in 0..200 {
        nums.push(S::Real((k as f64 - 100.0) * 0.25));
    }
    let mut pairs = super::exprs::wide_nums();
    pairs.extend(full_leaves().into_iter().filter(|s| s.is_num()));
    for n in 0..=t.pick(6, 12) {
        for d in 1..=t.pick(5, 9) {
            pairs.push(q(1, n, d));
            pairs.push(q(-1, n, d));
        }
    }
    let (np, pairs) = (pairs.len() as u64, Arc::new(pairs));
    let p2 = pairs.clone();
    let nf = t.pick(120u64, 600);
    let edge: Vec<u64> = edge_u64();
    let ne = edge.len() as u64;
    vec![
        Space::new(
            "pairs of numbers",
            &format!("every ordered pair of {np} numbers of every kind under + - * /, as numbers and as a simplified expression"),
            np * np,
            move |k| format!("{} , {}", p2[(k / np) as usize].key(), p2[(k % np) as usize].key()),
            move |k, c| c20_pair(&pairs[(k / np) as usize], &pairs[(k % np) as usize], c),
        ),
        Space::new(
            "fractions",
            &format!("numerators and denominators 0..{nf}"),
            nf * nf,
            move |k| format!("{}/{}", k / nf, k % nf),
            move |k, c| c20_fraction(k / nf, k % nf, c),
        ),
        Space::new(
            "boundary fractions",
            "numerators and denominators around every power of two",
            ne * ne,
            |k| format!("boundary #{k}"),
            move |k, c| c20_fraction(edge[(k / ne) as usize], edge[(k % ne) as usize], c),
        ),
        tree_space("trees", vec![v("x"), v("y"), i(2), i(0), i(-1), S::Pi], &UNS, &BIS, t.pick(4, 5), f.clone()),
        tree_space("larger trees", vec![v("x"), i(1)], &UNS, &BIS, t.pick(6, 7), f.clone()),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&[Bi::Add, Bi::Mul], t.pick(&[5], &[5, 6])), f.clone()),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, &[3]), f.clone()),
        list_space("look-alikes", "different expressions with the same text under every operator", alike_short(), f.clone()),
        list_space("very deep", "nestings of every single wrapping by + - negation, sine and cosine", very_deep(&[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub], t.pick(&[20, 40], &[20, 40, 70])), f.clone()),
        list_space("deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("y"), i(2)], &UNS, &BIS, 2, t.pick(&[4, 6], &[4, 6, 7])), f.clone()),
        list_space("many variables", "chains and balanced trees of up to 9 different variables", many_list(&ARITH, &[3, 9]), f.clone()),
        list_space("number ladder", "every number up to 60 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(60, t.pick(12, 1))), f.clone()),
        list_space("orders", "expansions to orders up to 70000 and limits with up to 70000 steps", c20_order_list(), Arc::new(c20_orders)),
        list_space("numbers", "numbers of every kind", nums, g),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", rule: "every expression in every position that requires a variable or a number is one case: accepted exactly when it is one", assumptions: &[], spaces: c18 },
        Prop { id: "C20", rule: "every expression and number x every group of equivalent entry points is one case: all spellings must give structurally identical results", assumptions: &[], spaces: c20 },
    ]
}
