//! C06-C11: building, simplifying, differentiating, substituting.
use super::*;
use crate::ast::op::operand::Variable;
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::engine::guarded;
use crate::oracle::eval::{deval, diff, eval, eval_impl, pow_ok};
use crate::smart_num::rational::ToRational;
use crate::smart_num::ToSmartNum;
use std::sync::OnceLock;

type Grid = Vec<Vec<(&'static str, V)>>;
pub fn the_grid() -> &'static Grid {
    static G: OnceLock<Grid> = OnceLock::new();
    G.get_or_init(grid)
}
pub fn the_small_grid() -> &'static Grid {
    static G: OnceLock<Grid> = OnceLock::new();
    G.get_or_init(small_grid)
}

/// Grid points that differ on the variables of `s`.
pub fn points<'a>(s: &S, g: &'a Grid) -> &'a [Vec<(&'static str, V)>] {
    if s.any(&|t| matches!(t, S::Var(_))) {
        g
    } else {
        &g[..1]
    }
}

/// Compare the reference value of `want` with the value of `got` at the points.
/// Returns false after a failure.
pub fn same_values(
    key: &dyn Fn() -> String,
    what: &str,
    want: &dyn Fn(usize) -> Res,
    got: &S,
    envs: &[Vec<(&'static str, V)>],
    shown: &S,
    c: &mut Ctx,
) -> bool {
    if got.bad() {
        c.fail(key(), format!("{what} is malformed: {}", got.key()));
        return false;
    }
    for (k, env) in envs.iter().enumerate() {
        let w = want(k);
        if w.is_err() {
            c.skip();
            continue;
        }
        let g = eval_impl(got, env);
        match compare(w, g) {
            Cmp::Equal => c.ok(),
            Cmp::Skip => c.skip(),
            Cmp::Vague => c.vague(),
            Cmp::Differ => {
                c.fail(
                    key(),
                    format!(
                        "{what} is {}; at {} it is {} but should be {}",
                        got.key(),
                        show_env(env, shown),
                        show_res(&g),
                        show_res(&w)
                    ),
                );
                return false;
            }
        }
    }
    true
}

// ------------------------------------------------------------------ C06

fn facts(e: &Expression) -> [bool; 7] {
    [e.is_operator(), e.is_operand(), e.is_num(), e.is_zero(), e.is_one(), e.is_pi(), e.is_e()]
}

fn c06_tree(s: &S, c: &mut Ctx) {
    c.steps(s.size() as u64);
    let e = s.build();
    let r = read(&e);
    if r != *s {
        return c.fail(s.key(), format!("built as {}", r.key()));
    }
    c.ok();
    let k = e.clone();
    if read(&k) != *s {
        return c.fail(s.key(), format!("copied as {}", read(&k).key()));
    }
    let leaf = s.is_leaf();
    let num = s.is_num();
    let (zero, one) = match s {
        S::Int(k) => (*k == 0, *k == 1),
        S::Rat(g, n, d) => (*n == 0, *g == 1 && n == d),
        _ => (false, false),
    };
    let want = [!leaf, leaf, num, zero, one, matches!(s, S::Pi), matches!(s, S::E)];
    if facts(&e) != want {
        return c.fail(s.key(), format!("operator/operand/num/zero/one/pi/e reported as {:?}, expected {want:?}", facts(&e)));
    }
    let name = match s {
        S::Var(n) => Some(*n),
        _ => None,
    };
    let by_ref: Option<&Variable> = (&e).into();
    let by_val: Option<Variable> = e.clone().into();
    if by_ref.map(|v| v.name.as_str()) != name || by_val.as_ref().map(|v| v.name.as_str()) != name {
        return c.fail(s.key(), format!("variable extracted as {by_ref:?} / {by_val:?}"));
    }
    let n1 = (&e).to_smart_num();
    let n2 = e.clone().to_smart_num();
    let n1 = n1.as_ref().ok().map(|n| read_num(n));
    let n2 = n2.as_ref().ok().map(read_num);
    let want = if num { Some(s.clone()) } else { None };
    if n1 != want || n2 != want {
        return c.fail(s.key(), format!("number extracted as {n1:?} / {n2:?}"));
    }
    let exact = matches!(s, S::Int(_) | S::Rat(..));
    if (&e).to_rational().is_some() != exact || e.clone().to_rational().is_some() != exact {
        return c.fail(s.key(), "extraction of a fraction succeeds or fails wrongly");
    }
    // the expression is unchanged by all that
    if read(&e) != *s {
        return c.fail(s.key(), "changed by being inspected");
    }
    if let Some(v) = by_val {
        if read(&Expression::from(v)) != *s {
            return c.fail(s.key(), "a variable turned back into an expression differs");
        }
    }
    c.ok();
    c.state(s.hash());
    c.sample(|| s.key());
}

pub fn odd_names() -> Vec<&'static str> {
    NAMES.to_vec()
}

/// Names that do not clash with a function or constant name in text.
pub fn spine_names() -> Vec<&'static str> {
    vec!["x", "y", "z", "a", "b", "c", "t", "u", "X", "xx", "xy", "x1", "x_1", "theta", "n", "λ"]
}

/// Operators are equal exactly when they are the same operator.
fn c06_operators(k: u64, c: &mut Ctx) {
    let all: Vec<S> = UNS.iter().map(|u| un(*u, v("x"))).chain(BIS.iter().map(|b| bi(*b, v("x"), v("y")))).collect();
    let n = all.len() as u64;
    let (a, b) = (&all[(k / n) as usize], &all[(k % n) as usize]);
    c.step();
    let (ea, eb) = (a.build(), b.build());
    let key = || format!("{} , {}", a.key(), b.key());
    let (AstNode::Operator(x), AstNode::Operator(y)) = (&ea.root, &eb.root) else {
        return c.fail(key(), "no operator at the root");
    };
    if (x == y) != (a == b) {
        return c.fail(key(), format!("operators reported {}equal", if x == y { "" } else { "un" }));
    }
    if a != b && x.to_string() == y.to_string() && !matches!((a, b), (S::U(Un::Neg, _), S::B(Bi::Sub, ..)) | (S::B(Bi::Sub, ..), S::U(Un::Neg, _))) {
        return c.fail(key(), format!("both operators are shown as {x}"));
    }
    c.ok();
    c.state(k);
}

fn c06(t: Tier) -> Vec<Space> {
    let f: TreeCheck = Arc::new(c06_tree);
    let mut leaves = full_leaves();
    leaves.extend([S::Real(0.0), S::Real(1.0), S::Real(-2.5), i(i64::MAX), i(i64::MIN), q(1, 3, 3), q(-1, 3, 3), q(1, 0, 5), q(1, u64::MAX, 2)]);
    let names: Vec<S> = odd_names().into_iter().map(v).collect();
    let sp = spine_list(
        &[v("x"), i(0), i(1)],
        &[v("y"), i(0), i(1), q(1, 1, 2)],
        &UNS,
        &BIS,
        2,
        &[t.pick(70, 200), t.pick(135, 300)],
    );
    vec![
        Space::new("operators", "every pair of the ten operators", 100, |k| format!("pair #{k}"), c06_operators),
        tree_space("all leaf kinds", leaves, &UNS, &BIS, 5, f.clone()),
        tree_space("trees", full_leaves(), &UNS, &BIS, t.pick(6, 7), f.clone()),
        tree_space("larger trees", slim_leaves(), &UNS, &BIS, t.pick(7, 8), f.clone()),
        tree_space("names", names, &[Un::Neg, Un::Sin], &[Bi::Add, Bi::Pow], t.pick(4, 5), f.clone()),
        list_space("deep", "nestings of every pattern of two wrappings", sp, f.clone()),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&ARITH, t.pick(&[12], &[12, 14])), f.clone()),
        list_space("wide", "complete binary trees", balanced_list(&BIS, t.pick(&[3, 7], &[3, 6, 8, 9])), f.clone()),
        list_space("hundreds of variables", "sums, differences and products of up to 600 different variables", crowd_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[60, 300], &[60, 300, 600])), f.clone()),
        list_space("many variables", "chains and balanced trees of up to 40 different variables", many_list(&BIS, &[3, 9, 17, 40]), f.clone()),
        list_space("look-alikes", "different expressions with the same text under every operator, in context", alike_list(), f.clone()),
        list_space("near the constants", "every pair of numbers next to 0, 1, pi and e under every operator, alone and around a variable", number_contexts(&near_nums()), f.clone()),
        list_space("very deep", "nestings of every single wrapping, hundreds deep", very_deep(&UNS, &BIS, t.pick(&[280, 1050], &[280, 1050, 2100])), f),
    ]
}

// ------------------------------------------------------------------ C07, C08

fn c07_tree(s: &S, c: &mut Ctx) {
    c.step();
    let r = match guarded(|| read(&s.build().num_aggregate())) {
        Ok(r) => r,
        Err(m) => return c.fail(s.key(), format!("crashed: {m}")),
    };
    if let S::B(Bi::Pow, a, b) = s {
        // zero to a negative power has no value, so it is no number either
        let at = |s: &S| if s.literal() { eval(s, &[]).ok() } else { None };
        if at(a).map_or(false, |v| v.is_zero()) && at(b).map_or(false, |v| v.lo_hi().1 < 0.0) {
            c.note("zero to a negative power");
            if r.is_num() && eval(&r, &[]).is_ok() {
                return c.fail(s.key(), format!("has no value, but simplifies to {}", r.key()));
            }
            c.ok();
        }
    }
    let envs = points(s, the_grid());
    same_values(&|| s.key(), "the simplified form", &|k| eval(s, &envs[k]), &r, envs, s, c);
    c.state(s.hash());
    c.outcome(r.hash());
    c.sample(|| format!("{} -> {}", s.key(), r.key()));
}

fn zero_leaf(s: &S) -> bool {
    matches!(s, S::Int(0)) || matches!(s, S::Rat(_, 0, d) if *d != 0)
}
fn one_leaf(s: &S) -> bool {
    matches!(s, S::Int(1)) || matches!(s, S::Rat(1, n, d) if n == d && *d != 0)
}

fn positive_leaf(s: &S) -> bool {
    match s {
        S::Int(k) => *k > 0,
        S::Rat(g, n, d) => *g == 1 && *n != 0 && *d != 0,
        S::Real(x) => *x > 0.0,
        S::Pi | S::E => true,
        _ => false,
    }
}

fn unfolded(s: &S) -> Option<String> {
    match s {
        S::U(o, a) => {
            if *o == Un::Neg && (a.is_num() || matches!(**a, S::U(Un::Neg, _))) {
                return Some(format!("negation of {}", a.key()));
            }
            let special = match o {
                Un::Sin | Un::Cos => zero_leaf(a) || **a == S::Pi,
                Un::Exp => zero_leaf(a) || one_leaf(a) || matches!(**a, S::U(Un::Ln, _)),
                Un::Ln => **a == S::E || one_leaf(a) || matches!(**a, S::U(Un::Exp, _)),
                _ => false,
            };
            if special {
                return Some(format!("unfolded {}", s.key()));
            }
            unfolded(a)
        }
        S::B(Bi::Pow, a, b) if zero_leaf(b) || one_leaf(b) || one_leaf(a) || (zero_leaf(a) && positive_leaf(b)) => Some(format!("unfolded {}", s.key())),
        S::B(Bi::Div, a, _) if zero_leaf(a) => Some(format!("unfolded {}", s.key())),
        S::B(o, a, b) => {
            if *o != Bi::Pow && a.is_num() && b.is_num() {
                return Some(format!("unfolded {}", s.key()));
            }
            if matches!(o, Bi::Add | Bi::Sub | Bi::Mul) && (zero_leaf(a) || zero_leaf(b)) {
                return Some(format!("zero operand in {}", s.key()));
            }
            if *o == Bi::Mul && (one_leaf(a) || one_leaf(b)) {
                return Some(format!("factor one in {}", s.key()));
            }
            unfolded(a).or_else(|| unfolded(b))
        }
        _ => None,
    }
}

fn c08_tree(s: &S, c: &mut Ctx) {
    c.steps(2);
    let (r, r2) = match guarded(|| {
        let e = s.build().num_aggregate();
        (read(&e), read(&e.num_aggregate()))
    }) {
        Ok(r) => r,
        Err(m) => return c.fail(s.key(), format!("crashed: {m}")),
    };
    if r.bad() {
        return c.fail(s.key(), format!("malformed result {}", r.key()));
    }
    if s.numeric_arith() && !r.is_num() {
        return c.fail(s.key(), format!("numbers only, but simplifies to {}", r.key()));
    }
    if let Some(m) = unfolded(&r) {
        return c.fail(s.key(), format!("simplifies to {}: {m}", r.key()));
    }
    if r2 != r {
        return c.fail(s.key(), format!("simplifies to {}, and that again to {}", r.key(), r2.key()));
    }
    if r.size() > s.size() {
        return c.fail(s.key(), format!("grows to {}", r.key()));
    }
    let (mut v1, mut v2) = (vec![], vec![]);
    s.vars(&mut v1);
    r.vars(&mut v2);
    if v2.iter().any(|n| !v1.contains(n)) {
        return c.fail(s.key(), format!("mentions a new variable: {}", r.key()));
    }
    c.ok();
    c.state(s.hash());
    c.outcome(r.hash());
    c.sample(|| format!("{} -> {}", s.key(), r.key()));
}

/// Every pair of numbers under every binary operator, alone and next to a
/// variable in both positions.
fn number_contexts(nums: &[S]) -> Vec<S> {
    let mut out = vec![];
    for a in nums {
        for u in UNS {
            out.push(un(u, a.clone()));
            out.push(un(u, un(Un::Neg, a.clone())));
            for u2 in UNS {
                out.push(un(u, un(u2, a.clone())));
            }
        }
        for o in BIS {
            out.push(bi(o, a.clone(), v("x")));
            out.push(bi(o, v("x"), a.clone()));
            for b in nums {
                let p = bi(o, a.clone(), b.clone());
                out.push(p.clone());
                out.push(bi(Bi::Mul, p.clone(), v("x")));
                out.push(bi(Bi::Add, v("x"), p.clone()));
                out.push(bi(Bi::Pow, v("x"), p.clone()));
                for o2 in ARITH {
                    out.push(bi(o2, bi(o, a.clone(), v("x")), b.clone()));
                    out.push(bi(o2, b.clone(), bi(o, v("x"), a.clone())));
                }
            }
        }
    }
    out
}

pub fn wide_nums() -> Vec<S> {
    let mut v = vec![
        i(0), i(1), i(-1), i(2), i(-2), i(3), i(-3), i(7), q(1, 1, 2), q(-1, 1, 2), q(1, 2, 4), q(1, 3, 3), q(-1, 3, 3), q(1, 0, 5),
        q(-1, 0, 5), q(1, 7, 3), q(-1, 9, 4), S::Pi, S::E, S::Real(0.5), S::Real(-2.5), S::Real(1.0), S::Real(3.75),
    ];
    v.extend([i(i64::MAX), i(i64::MIN), i(1 << 40), q(1, u64::MAX, 2), q(1, 1, 1 << 40)]);
    v
}

fn simp_spaces(t: Tier, f: TreeCheck, nums: Vec<S>) -> Vec<Space> {
    let sp = spine_list(
        &[v("x"), i(0), i(1), i(2)],
        &[v("y"), i(0), i(1), q(-1, 1, 2)],
        &UNS,
        &BIS,
        2,
        t.pick(&[5, 34, 70], &[5, 34, 70, 135, 260]),
    );
    let mut out = vec![
        list_space("numbers in context", "every pair of a wide set of numbers under every operator, alone and around a variable", number_contexts(&nums), f.clone()),
        tree_space("trees", full_leaves(), &UNS, &BIS, t.pick(6, 7), f.clone()),
        tree_space("larger trees", mid_leaves(), &UNS, &BIS, t.pick(7, 8), f.clone()),
        tree_space("arithmetic", vec![v("x"), i(0), i(1), i(-1)], &[Un::Neg], &ARITH, t.pick(8, 9), f.clone()),
        tree_space("numbers", num_leaves(), &[Un::Neg], &ARITH, t.pick(6, 7), f.clone()),
        list_space("deep", "nestings of every pattern of two wrappings", sp, f.clone()),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&ARITH, t.pick(&[12], &[12, 14])), f.clone()),
        list_space("wide", "complete binary trees", balanced_list(&BIS, t.pick(&[3, 5, 7], &[3, 4, 5, 6, 7, 8])), f.clone()),
    ];
    out.push(list_space("number ladder", "every number up to 130 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(t.pick(130, 2000), t.pick(6, 1))), f.clone()));
    out.push(list_space("powers of numbers", "small and boundary bases with every exponent from -70 to 70 and others; functions of multiples and fractions of pi, e and x", number_powers(), f.clone()));
    out.push(list_space("hundreds of variables", "sums, differences and products of up to 600 different variables", crowd_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[60, 300], &[60, 300, 600])), f.clone()));
    out.push(list_space("many variables", "chains and balanced trees of up to 40 different variables", many_list(&BIS, &[3, 9, 17, 40]), f.clone()));
    out.push(list_space("near the constants", "every pair of numbers next to 0, 1, pi and e under every operator, alone and around a variable", number_contexts(&near_nums()), f.clone()));
    out.push(list_space("look-alikes", "different expressions with the same text under every operator, in context", alike_list(), f.clone()));
    out.push(list_space("very deep", "nestings of every single wrapping, hundreds deep", very_deep(&UNS, &BIS, t.pick(&[280, 1050], &[280, 1050, 2100])), f.clone()));
    out.extend(unit_spaces(7, &f));
    out.push(tree_space("slim trees", vec![v("x"), i(0), i(1)], &UNS, &BIS, t.pick(8, 9), f));
    out
}

fn c07(t: Tier) -> Vec<Space> {
    simp_spaces(t, Arc::new(c07_tree), wide_nums())
}
fn c08(t: Tier) -> Vec<Space> {
    simp_spaces(t, Arc::new(c08_tree), wide_nums())
}

// ------------------------------------------------------------------ C09

fn c09_tree(s: &S, c: &mut Ctx) {
    let mut vs = vec![];
    s.vars(&mut vs);
    c09_by(s, &vs, c)
}

fn c09_by(s: &S, vs: &[&'static str], c: &mut Ctx) {
    for &var in vs {
        c.step();
        let key = || format!("d/d{var} {}", s.key());
        let r = match guarded(|| s.build().derivative(&Variable::new_variable(var))) {
            Ok(Ok(e)) => read(&e),
            Ok(Err(e)) => {
                c.fail(key(), format!("refused: {e}"));
                continue;
            }
            Err(m) => {
                c.fail(key(), format!("crashed: {m}"));
                continue;
            }
        };
        let envs = the_grid();
        same_values(&key, "the derivative", &|k| deval(s, &envs[k], var).map(|d| d.1), &r, envs, s, c);
        c.outcome(r.hash());
        c.sample(|| format!("{} = {}", key(), r.key()));
    }
    c.state(s.hash());
}

fn c09(t: Tier) -> Vec<Space> {
    let f: TreeCheck = Arc::new(c09_tree);
    let sp = spine_list(&[v("x")], &[v("x"), v("y"), i(2)], &UNS, &BIS, 2, &[4]);
    let sp2 = spine_list(&[v("x")], &[v("y"), i(2)], &UNS, &ARITH, 1, &[t.pick(9, 11)]);
    // values stay moderate under these, so that deep nestings remain decidable
    let sp3 = spine_list(
        &[v("x")],
        &[v("y"), v("x"), q(1, 1, 2)],
        &[Un::Neg, Un::Sin, Un::Cos],
        &[Bi::Add, Bi::Sub, Bi::Mul],
        2,
        t.pick(&[18, 34], &[18, 34, 66]),
    );
    let mut pw = vec![];
    let bases = [
        v("x"), v("y"), i(2), S::E, S::Pi, bi(Bi::Add, v("x"), i(1)), bi(Bi::Mul, v("x"), v("y")), bi(Bi::Sub, v("x"), v("y")),
        un(Un::Sin, v("x")), un(Un::Exp, v("x")), un(Un::Neg, v("x")), bi(Bi::Mul, v("x"), v("x")), bi(Bi::Div, v("x"), v("y")), un(Un::Cos, v("x")),
        un(Un::Ln, v("x")), bi(Bi::Pow, v("x"), i(2)), q(1, 1, 2), i(1), i(0),
    ];
    let exps = [
        i(0), i(1), i(2), i(3), i(5), i(-1), i(-2), q(1, 1, 2), q(-1, 3, 2), q(1, 7, 3), q(1, 4, 2), v("x"), v("y"), S::Pi, S::E,
        bi(Bi::Add, v("x"), i(1)), bi(Bi::Add, i(1), i(1)), bi(Bi::Mul, v("x"), v("y")), un(Un::Neg, v("x")), un(Un::Sin, v("x")),
        bi(Bi::Sub, i(3), i(1)), un(Un::Neg, i(1)), bi(Bi::Div, i(6), i(3)), S::Real(0.5),
        i(4), i(7), i(10), i(-3), i(-10), i(17), i(64), i(100), i(i64::MAX), i(i64::MIN), i(-i64::MAX), q(1, 21, 2), q(-1, 1, 3), q(1, 0, 5),
        q(1, 5, 5), q(1, u64::MAX, 2), un(Un::Neg, i(3)), un(Un::Neg, un(Un::Neg, i(2))), S::Real(3.0), S::Real(-1.5), un(Un::Neg, v("y")),
    ];
    for b in &bases {
        for e in &exps {
            let p = bi(Bi::Pow, b.clone(), e.clone());
            for o in ARITH {
                pw.push(bi(o, p.clone(), v("x")));
                pw.push(bi(o, v("x"), p.clone()));
            }
            for u in UNS {
                pw.push(un(u, p.clone()));
            }
            for e2 in [i(2), q(1, 1, 2), v("x")] {
                pw.push(bi(Bi::Pow, p.clone(), e2));
            }
            pw.push(p);
        }
    }
    let mut out = vec![
        tree_space("trees", full_leaves(), &UNS, &BIS, t.pick(5, 6), f.clone()),
        tree_space("larger trees", vec![v("x"), v("y"), i(2)], &UNS, &BIS, t.pick(6, 7), f.clone()),
        tree_space("one variable", vec![v("x"), i(2)], &UNS, &BIS, t.pick(7, 8), f.clone()),
        list_space("powers", "every base with every exponent of a wide set, alone and in context", pw, f.clone()),
        list_space("nested", "nestings of every pattern of two wrappings, depth 4", sp, f.clone()),
        list_space("deep", "nestings of every single wrapping", sp2, f.clone()),
        list_space("deeper", "nestings of every pattern of two wrappings by + - * negation, sine and cosine", sp3, f.clone()),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&ARITH, t.pick(&[11], &[11, 13])), f.clone()),
        list_space("wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 5], &[3, 4, 5, 6, 7])), f.clone()),
        tree_space("names", vec![v("x"), v("xx"), v("X"), v("x1"), v("")], &[Un::Sin], &[Bi::Mul, Bi::Div, Bi::Pow], 3, Arc::new(c09_names)),
    ];
    out.push(list_space("hundreds of variables", "sums, differences and products of up to 600 different variables", crowd_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[60, 300], &[60, 300, 600])), Arc::new(|s, c| c09_by(s, &["w1", "w2", "w57", "w256", "w257", "w300"], c))));
    out.push(list_space("many variables", "chains and balanced trees of up to 33 different variables", many_list(&[Bi::Add, Bi::Sub, Bi::Mul, Bi::Div], t.pick(&[3, 9, 18], &[3, 9, 18, 33])), f.clone()));
    out.push(list_space("very deep", "nestings of every single wrapping by + - negation, sine and cosine, hundreds deep", very_deep(&[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub], t.pick(&[140, 270], &[140, 270, 530])), f.clone()));
    out.push(list_space("look-alikes", "different expressions with the same text under every operator, in context", alike_list(), f.clone()));
    out.push(list_space("near the constants", "every pair of numbers next to 0, 1, pi and e under every operator, alone and around a variable", number_contexts(&near_nums()), f.clone()));
    out.push(list_space("number ladder", "every number up to 130 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(t.pick(130, 2000), t.pick(6, 1))), f.clone()));
    out.push(list_space("powers of numbers", "small and boundary bases with every exponent from -70 to 70 and others; functions of multiples and fractions of pi, e and x", number_powers(), f.clone()));
    out.extend(unit_spaces(7, &f));
    out.push(tree_space("x only", vec![v("x")], &UNS, &BIS, t.pick(8, 9), f.clone()));
    out.push(tree_space("rational functions", vec![v("x"), v("y"), i(2), i(-1)], &[Un::Neg], &ARITH, t.pick(7, 8), f));
    out.push(list_space("names alike", "a few expressions in two variables whose names are nearly the same, or agree in one of 34 usual digests", names::same_digest_list(t.pick(6, 60)), Arc::new(|s, c| {
        let mut vs = vec![];
        s.vars(&mut vs);
        let envs: Vec<(&'static str, V)> = vs.iter().zip([rat(3, 7), rat(5, 3)]).map(|(n, v)| (*n, v)).collect();
        c09_by_names(s, &vs, &envs, c)
    })));
    out
}

/// Variables with similar names are different variables.
fn c09_names(s: &S, c: &mut Ctx) {
    let envs: Vec<(&'static str, V)> =
        vec![("x", rat(3, 7)), ("xx", rat(5, 3)), ("X", rat(7, 4)), ("x1", rat(9, 5)), ("", rat(11, 6)), ("x ", rat(2, 9))];
    c09_by_names(s, &["x", "xx", "X", "x1", "", "x "], &envs, c)
}

fn c09_by_names(s: &S, by: &[&'static str], envs: &[(&'static str, V)], c: &mut Ctx) {
    for var in by.iter().copied() {
        c.step();
        let r = match s.build().derivative(&Variable::new_variable(var)) {
            Ok(e) => read(&e),
            Err(e) => return c.fail(s.key(), format!("refused: {e}")),
        };
        let key = || format!("d/d`{var}` {}", s.key());
        let w = deval(s, envs, var).map(|d| d.1);
        same_values(&key, "the derivative", &|_| w, &r, &[envs.to_vec()], s, c);
    }
    c.state(s.hash());
}

// ------------------------------------------------------------------ C10

fn c10_tree(s: &S, orders: &[&[&'static str]], c: &mut Ctx) {
    c10_case(s, orders, &["z", "xx"], c)
}

fn c10_case(s: &S, orders: &[&[&'static str]], away: &[&'static str], c: &mut Ctx) {
    let g = the_small_grid();
    let defined = points(s, the_grid()).iter().any(|e| eval(s, e).is_ok());
    let mut vs = vec![];
    s.vars(&mut vs);
    // absent variable
    if defined {
        for absent in away {
            if vs.contains(absent) {
                continue;
            }
            c.step();
            match guarded(|| s.build().derivative(&Variable::new_variable(absent))) {
                Ok(Ok(e)) if e.is_zero() => c.ok(),
                Ok(Ok(e)) => return c.fail(format!("d/d{absent} {}", s.key()), format!("is {} instead of 0", read(&e).key())),
                Ok(Err(e)) => return c.fail(format!("d/d{absent} {}", s.key()), format!("refused: {e}")),
                Err(m) => return c.fail(format!("d/d{absent} {}", s.key()), format!("crashed: {m}")),
            }
        }
    }
    for seq in orders {
        if seq.iter().any(|v| !vs.contains(v)) {
            continue;
        }
        let key = || format!("d/d{} {}", seq.join(" d/d"), s.key());
        c.steps(seq.len() as u64);
        let r = guarded(|| {
            let mut e = s.build();
            for v in seq.iter() {
                e = e.derivative(&Variable::new_variable(v)).map_err(|e| e.to_string())?;
            }
            Ok::<S, String>(read(&e))
        });
        let r = match r {
            Ok(Ok(r)) => r,
            Ok(Err(e)) | Err(e) => return c.fail(key(), format!("refused or crashed: {e}")),
        };
        let mut rv = vec![];
        r.vars(&mut rv);
        if let Some(n) = rv.iter().find(|n| !vs.contains(n)) {
            return c.fail(key(), format!("mentions {n:?}, which the original does not: {}", r.key()));
        }
        // reference: textbook rules for all but the last, then dual numbers
        let mut d = s.clone();
        for v in &seq[..seq.len() - 1] {
            d = diff(&d, v);
        }
        let last = seq[seq.len() - 1];
        let want = |k: usize| -> Res {
            let env = &g[k];
            eval(s, env)?;
            if !pow_ok(s, env) {
                return Err(No::Unk);
            }
            let mut part = s.clone();
            for v in &seq[..seq.len() - 1] {
                deval(&part, env, v)?;
                part = diff(&part, v);
            }
            Ok(deval(&d, env, last)?.1)
        };
        if !same_values(&key, "the repeated derivative", &want, &r, g, s, c) {
            return;
        }
        c.outcome(r.hash());
        c.sample(|| format!("{} = {}", key(), r.key()));
    }
    c.state(s.hash());
}

const TWO: &[&[&str]] = &[&["x"], &["x", "x"], &["x", "y"], &["y", "x"], &["y", "y"]];
const THREE: &[&[&str]] = &[
    &["x", "x", "x"],
    &["x", "x", "y"],
    &["x", "y", "x"],
    &["y", "x", "x"],
    &["x", "y", "y"],
    &["y", "x", "y"],
    &["y", "y", "x"],
    &["y", "y", "y"],
];

/// A deep nesting times, plus, over (…) the other variable.
fn beside_deep(depths: &[usize]) -> Vec<S> {
    let mut out = vec![];
    for d in spine_list(&[bi(Bi::Mul, v("x"), v("x")), un(Un::Sin, v("x"))], &[i(2)], &[Un::Neg], &[Bi::Add, Bi::Sub, Bi::Mul], 1, depths) {
        for o in ARITH {
            for other in [v("y"), un(Un::Sin, v("y"))] {
                out.push(bi(o, d.clone(), other.clone()));
                out.push(bi(o, other, d.clone()));
            }
        }
        for f in UNS {
            out.push(bi(Bi::Mul, un(f, d.clone()), v("y")));
        }
    }
    out
}

fn c10(t: Tier) -> Vec<Space> {
    let two: TreeCheck = Arc::new(|s, c| c10_tree(s, TWO, c));
    let three: TreeCheck = Arc::new(|s, c| c10_tree(s, THREE, c));
    let absent: TreeCheck = Arc::new(|s, c| c10_tree(s, &[], c));
    let mut el = vec![];
    for n in 0..=7i64 {
        el.push(bi(Bi::Pow, v("x"), i(n)));
        el.push(bi(Bi::Pow, bi(Bi::Add, v("x"), i(1)), i(-n)));
    }
    let x = || v("x");
    el.extend([
        un(Un::Sin, x()),
        un(Un::Cos, x()),
        un(Un::Exp, x()),
        un(Un::Ln, x()),
        bi(Bi::Div, i(1), x()),
        bi(Bi::Mul, x(), bi(Bi::Mul, x(), x())),
        bi(Bi::Mul, x(), un(Un::Exp, x())),
        bi(Bi::Pow, i(2), x()),
        bi(Bi::Pow, x(), q(1, 1, 2)),
        bi(Bi::Pow, x(), q(-1, 3, 2)),
        un(Un::Sin, bi(Bi::Mul, i(2), x())),
        un(Un::Neg, un(Un::Exp, un(Un::Neg, x()))),
    ]);
    let names = odd_names();
    let n2 = names.clone();
    let named: TreeCheck = Arc::new(move |s, c| c10_case(s, &[], &n2, c));
    let depth = t.pick(7, 9);
    let long: TreeCheck = Arc::new(move |s, c| c10_long(s, depth, c));
    let (two_more, two_again) = (two.clone(), two.clone());
    let many: TreeCheck = Arc::new(|s, c| {
        c10_case(s, &[&["v1", "v2"], &["v3", "v1"], &["v9", "v2"], &["v9", "v9"], &["v18", "v3"], &["v2", "v18"]], &["v", "v40", "v11"], c)
    });
    vec![
        tree_space("absent variables", full_leaves(), &UNS, &BIS, t.pick(5, 6), absent.clone()),
        tree_space("absent variables, larger", vec![v("x"), i(2), i(0)], &UNS, &BIS, t.pick(7, 8), absent.clone()),
        list_space("absent variables, deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("y"), i(2)], &UNS, &BIS, 2, t.pick(&[9, 17], &[9, 17, 33])), absent.clone()),
        list_space("absent variables, very deep", "nestings of every single wrapping, hundreds deep", very_deep(&UNS, &BIS, t.pick(&[64, 280], &[64, 280, 530])), absent.clone()),
        list_space("absent variables, wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 5], &[3, 5, 7])), absent),
        list_space("second derivatives, deep", "nestings of every pattern of two wrappings by + - * / negation, sine and cosine", spine_list(&[v("x")], &[v("y"), v("x"), q(1, 1, 2)], &[Un::Neg, Un::Sin, Un::Cos], &ARITH, 2, t.pick(&[5, 7], &[5, 7, 8])), two.clone()),
        list_space("second derivatives, deeper", "nestings of every single wrapping by + - * negation, sine and cosine", spine_list(&[v("x")], &[v("y"), i(2)], &[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub, Bi::Mul], 1, t.pick(&[12, 20], &[12, 20, 40])), two.clone()),
        list_space("second derivatives, very deep", "nestings of every pattern of two wrappings by + - * and negation", spine_list(&[bi(Bi::Mul, v("x"), v("y")), bi(Bi::Mul, v("x"), bi(Bi::Mul, v("x"), v("x")))], &[v("y"), i(2)], &[Un::Neg], &[Bi::Add, Bi::Sub, Bi::Mul], 2, t.pick(&[34, 70], &[34, 70, 140])), two.clone()),
        list_space("second derivatives, very deep left or right", "deep nestings of a single wrapping next to the other variable", beside_deep(t.pick(&[28], &[28, 70])), two.clone()),
        list_space("second derivatives, wide", "complete binary trees", balanced_list(&ARITH, &[3]), two.clone()),
        tree_space("absent variables with similar names", names.into_iter().map(v).collect(), &[Un::Sin, Un::Neg], &[Bi::Add, Bi::Mul, Bi::Div], t.pick(3, 4), named),
        tree_space("second derivatives", vec![v("x"), v("y"), i(2), i(0), i(-1)], &UNS, &BIS, 6, two.clone()),
        tree_space("second derivatives of small expressions", units(), &UNS, &BIS, t.pick(4, 5), two.clone()),
        tree_space("second derivatives of three small expressions", few_units(), &[], &BIS, 5, two.clone()),
        tree_space("second derivatives, larger", vec![v("x"), v("y")], &UNS, &BIS, t.pick(6, 7), two),
        tree_space("third derivatives", vec![v("x"), v("y"), i(2)], &UNS, &BIS, 5, three.clone()),
        tree_space("third derivatives, arithmetic", vec![v("x"), v("y"), i(3)], &[Un::Neg], &[Bi::Add, Bi::Mul, Bi::Div, Bi::Pow], t.pick(5, 6), three),
        list_space("look-alikes", "different expressions with the same text under every operator, in context, differentiated twice", alike_list(), two_more),
        list_space("many variables", "chains and balanced trees of up to 18 different variables, differentiated twice by the first, a middle and the last one", many_list(&ARITH, t.pick(&[3, 9], &[3, 9, 18])), many),
        list_space("number ladder", "every number up to 130 and others that stand out, as integer, fraction and real, in small expressions, differentiated twice", around(&number_ladder(130, t.pick(12, 1))), two_again),
        list_space("names alike", "a few expressions in two variables whose names are nearly the same, or agree in one of 34 usual digests", names::same_digest_list(t.pick(6, 60)), Arc::new(|s, c| {
            let mut vs = vec![];
            s.vars(&mut vs);
            let S::B(_, part, _) = s else { return };
            let mut own = vec![];
            part.vars(&mut own);
            if own.len() == 1 {
                // a part with one of the names alone, by the other
                let other = if own[0] == vs[0] { vs[1] } else { vs[0] };
                c.step();
                let key = || format!("d/d{other} {}", part.key());
                return match guarded(|| part.build().derivative(&Variable::new_variable(other))) {
                    Ok(Ok(e)) if e.is_zero() => c.ok(),
                    Ok(Ok(e)) => c.fail(key(), format!("is {} instead of 0", read(&e).key())),
                    _ => c.fail(key(), "refused or crashed"),
                };
            }
            let envs: Vec<(&'static str, V)> = vs.iter().zip([rat(3, 7), rat(5, 3)]).map(|(n, v)| (*n, v)).collect();
            for (a, b) in [(vs[0], vs[1]), (vs[1], vs[0]), (vs[0], vs[0])] {
                c.step();
                let key = || format!("d/d{a} d/d{b} {}", s.key());
                let d = guarded(|| s.build().derivative(&Variable::new_variable(a)).and_then(|d| d.derivative(&Variable::new_variable(b))).map_err(|m| m.to_string()));
                let Ok(Ok(d)) = d else { return c.fail(key(), "refused or crashed") };
                let w = deval(&diff(s, a), &envs, b).map(|d| d.1);
                same_values(&key, "the second derivative", &|_| w, &read(&d), &[envs.clone()], s, c);
            }
        })),
        list_space("high derivatives", &format!("elementary functions differentiated up to {depth} times"), el, long),
    ]
}

fn c10_long(s: &S, depth: usize, c: &mut Ctx) {
    let g = the_small_grid();
    let mut e = s.build();
    for n in 1..=depth {
        c.step();
        e = match guarded(|| e.clone().derivative(&Variable::new_variable("x"))) {
            Ok(Ok(e)) => e,
            _ => return c.fail(s.key(), format!("derivative {n} refused or crashed")),
        };
        let r = read(&e);
        let want = |k: usize| -> Res {
            // n! times the n-th series coefficient
            let env = &g[k];
            eval(s, env)?;
            let ser = crate::oracle::series::series(s, env, "x", n + 2)?;
            if ser.v < 0 {
                return Err(No::Undef);
            }
            let mut w = ser.coef(n as i32).ok_or(No::Unk)?;
            for k in 2..=n {
                w = mul(w, V::R(k as i64, 1))?;
            }
            Ok(w)
        };
        if !same_values(&|| format!("derivative {n} of {}", s.key()), "it", &want, &r, g, s, c) {
            return;
        }
        c.state(r.hash());
    }
}

// ------------------------------------------------------------------ C11

fn substitutes() -> Vec<S> {
    let x = || v("x");
    vec![
        i(0),
        v("y"),
        x(),
        bi(Bi::Add, x(), i(1)),
        bi(Bi::Mul, x(), x()),
        bi(Bi::Div, v("y"), x()),
        un(Un::Neg, x()),
        un(Un::Sin, bi(Bi::Sub, v("y"), x())),
        bi(Bi::Pow, v("y"), x()),
        q(-1, 2, 4),
        S::Pi,
        S::Real(0.5),
        bi(Bi::Add, i(1), i(1)),
        un(Un::Ln, un(Un::Exp, v("z"))),
    ]
}

fn c11_tree(s: &S, names: &[&'static str], subs: &[S], c: &mut Ctx) {
    for name in names {
        for by in subs {
            c.step();
            let key = || format!("{} with `{name}` := {}", s.key(), by.key());
            let want = s.subst(name, by);
            let r = guarded(|| {
                let b = by.build();
                let r = s.build().substitute(&Variable::new_variable(name), &b).map_err(|e| e.to_string())?;
                if read(&b) != *by {
                    return Err("the substitute was changed".to_string());
                }
                Ok::<S, String>(read(&r))
            });
            match r {
                Ok(Ok(r)) if r == want => {
                    c.ok();
                    c.outcome(r.hash());
                }
                Ok(Ok(r)) => return c.fail(key(), format!("expected {}, got {}", want.key(), r.key())),
                Ok(Err(e)) | Err(e) => return c.fail(key(), format!("refused or crashed: {e}")),
            }
        }
    }
    c.state(s.hash());
    c.sample(|| s.key());
}

fn c11(t: Tier) -> Vec<Space> {
    let subs = substitutes();
    let s2 = vec![bi(Bi::Add, v("x"), i(1)), v("y"), i(0)];
    let f: TreeCheck = Arc::new(move |s, c| c11_tree(s, &["x", "y", "z"], &subs, c));
    let g: TreeCheck = Arc::new(move |s, c| c11_tree(s, &["x", "y"], &s2, c));
    let names = odd_names();
    let n2 = names.clone();
    let h: TreeCheck = Arc::new(move |s, c| c11_tree(s, &n2, &[i(0), v("x"), bi(Bi::Add, v("x"), v("xx"))], c));
    let sp = spine_list(&[v("x"), v("y"), i(1)], &[v("x"), v("y")], &UNS, &BIS, 2, t.pick(&[40, 135], &[40, 70, 135, 260]));
    vec![
        tree_space("trees", full_leaves(), &UNS, &BIS, t.pick(4, 5), f.clone()),
        tree_space("larger trees", vec![v("x"), v("y"), i(1)], &UNS, &BIS, t.pick(6, 7), f),
        tree_space("two variables", vec![v("x"), v("y")], &UNS, &BIS, t.pick(7, 8), g.clone()),
        tree_space("of small expressions", units(), &UNS, &BIS, 5, g.clone()),
        tree_space("of four small expressions", few_units(), &[], &BIS, 7, g.clone()),
        tree_space("names", names.into_iter().map(v).collect(), &[Un::Sin], &[Bi::Sub], 3, h),
        list_space("deep", "nestings of every pattern of two wrappings", sp, g.clone()),
        list_space("look-alikes", "different expressions with the same text, each substituted for each other's variables", alike_list(), Arc::new(|s, c| {
            let mut vs = vec![];
            s.vars(&mut vs);
            vs.push("pi");
            c11_tree(s, &vs, &[v("y"), S::Real(0.5002), v("e")], c)
        })),
        list_space("near the constants", "every pair of numbers next to 0, 1, pi and e under every operator, alone and around a variable", number_contexts(&near_nums()), g.clone()),
        list_space("number ladder", "every number up to 130 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(t.pick(130, 2000), t.pick(6, 1))), g.clone()),
        list_space("substituted numbers", "every number up to 1000 and others that stand out, substituted", number_ladder(t.pick(1000, 20_000), 1), Arc::new(|n, c| {
            for s in [v("x"), bi(Bi::Mul, v("x"), v("y")), un(Un::Sin, v("x")), bi(Bi::Pow, v("x"), v("x"))] {
                c11_tree(&s, &["x"], std::slice::from_ref(n), c)
            }
        })),
        list_space("huge", "complete binary trees of thousands of leaves", huge_list(&ARITH, t.pick(&[12], &[12, 14])), g.clone()),
        list_space("wide", "complete binary trees", balanced_list(&BIS, t.pick(&[3, 7], &[3, 5, 6, 7, 8, 9])), g.clone()),
        list_space("very deep", "nestings of every single wrapping, hundreds deep", very_deep(&UNS, &BIS, t.pick(&[280, 1050], &[280, 1050, 2100])), g),
        list_space("names alike", "a few expressions in two variables whose names are nearly the same, or agree in one of 34 usual digests", names::same_digest_list(t.pick(6, 60)), Arc::new(|s, c| {
            let mut vs = vec![];
            s.vars(&mut vs);
            let by = [bi(Bi::Add, v(vs[0]), i(1)), bi(Bi::Mul, v(vs[vs.len() - 1]), v("x"))];
            c11_tree(s, &vs, &by, c)
        })),
        list_space("hundreds of variables", "sums, differences and products of up to 600 different variables", crowd_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[60, 300], &[60, 300, 600])), Arc::new(|s, c| {
            c11_tree(s, &["w1", "w2", "w60", "w255", "w256", "w257", "w300", "w600"], &[bi(Bi::Add, v("w3"), v("w290")), i(0)], c)
        })),
        list_space("many variables", "chains and balanced trees of up to 40 different variables, each substituted", many_list(&BIS, &[3, 9, 17, 40]), Arc::new(|s, c| {
            c11_tree(s, MANY, &[bi(Bi::Add, v("v3"), v("v12")), i(0)], c)
        })),
    ]
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &[
        "reference values are exact rationals, exact rational multiples of pi, or outward-rounded double intervals; points where those decide nothing are counted as outside the domain",
        "libm sin/cos/exp/ln of this machine are accurate to a few units in the last place",
    ];
    vec![
        Prop { id: "C06", rule: "every tree is one case: it is built through the public operators and read back node by node", assumptions: &[], spaces: c06 },
        Prop { id: "C07", rule: "every tree is one case: simplified once, then compared with the reference value of the original at every grid point", assumptions: A, spaces: c07 },
        Prop { id: "C08", rule: "every tree is one case: simplified twice, forms inspected node by node", assumptions: &[], spaces: c08 },
        Prop { id: "C09", rule: "every tree x variable is one case: derivative compared with a forward-mode dual-number derivative at every grid point", assumptions: A, spaces: c09 },
        Prop { id: "C10", rule: "every tree x differentiation sequence is one case: compared with an independently derived higher derivative", assumptions: A, spaces: c10 },
        Prop { id: "C11", rule: "every tree x variable x substitute is one case: compared node by node with the reference substitution", assumptions: &[], spaces: c11 },
    ]
}
