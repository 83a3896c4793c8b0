//! C15-C17: limits.
use super::exprs::the_grid;
use super::taylor::near_around;
use super::*;
use crate::ast::op::operand::Variable;
use crate::compute::limit::limit_expression::{LimitExpression, NoValidLimitFound};
use crate::verif_hook;
use crate::engine::guarded;
use crate::oracle::eval::{eval, eval_impl};
use crate::oracle::series::{series, tend, Tend};

type L = Result<LimitExpression, NoValidLimitFound>;

pub fn show_lim(l: &L) -> String {
    match l {
        Err(_) => "refused".into(),
        Ok(LimitExpression::Infinitesimal) => "zero".into(),
        Ok(LimitExpression::Infinity) => "infinity".into(),
        Ok(LimitExpression::BoundedFluctuation) => "bounded fluctuation".into(),
        Ok(LimitExpression::Normal(e)) => format!("value {}", read(e).key()),
    }
}

pub fn limit(s: &S, var: &str, to: &S, order: u64) -> Result<L, String> {
    guarded(|| verif_hook::limit_of_variable(s.build(), &Variable::new_variable(var), to.build(), order))
}

fn show_tend(t: &Tend) -> String {
    match t {
        Tend::Zero => "tends to zero".into(),
        Tend::To(v) => format!("tends to {}", v.show()),
        Tend::Inf => "grows without bound".into(),
        Tend::Osc => "has no limit".into(),
        Tend::Unk => "undecided".into(),
    }
}

/// Is the answer true of a function that behaves like `t`? None: undecided.
fn truth(l: &LimitExpression, t: &Tend, env: &[(&'static str, V)]) -> Option<bool> {
    use LimitExpression::*;
    Some(match (l, t) {
        (_, Tend::Unk) => return None,
        (Infinitesimal, Tend::Zero) => true,
        (Infinitesimal, Tend::To(v)) => {
            if v.nonzero() {
                false
            } else {
                return None;
            }
        }
        (Infinitesimal, _) => false,
        (Infinity, Tend::Inf) => true,
        (Infinity, _) => false,
        (BoundedFluctuation, Tend::Inf) => false,
        (BoundedFluctuation, _) => true,
        (Normal(_), Tend::Inf | Tend::Osc) => false,
        (Normal(e), Tend::Zero | Tend::To(_)) => {
            let w = if let Tend::To(v) = t { *v } else { ZERO };
            match compare(Ok(w), eval_impl(&read(e), env)) {
                Cmp::Equal => true,
                Cmp::Differ => false,
                _ => return None,
            }
        }
    })
}

fn has_bi(s: &S, o: Bi) -> bool {
    s.any(&|t| matches!(t, S::B(p, _, _) if *p == o))
}

/// Every constant the computation can meet is an integer or fraction: the
/// arguments of sine and cosine tend to zero (or do not tend at all).
fn plain(s: &S, env: &[(&'static str, V)], var: &str, n: usize) -> bool {
    match s {
        S::U(Un::Sin | Un::Cos, a) => {
            !matches!(tend(a, env, var, n), Tend::To(_)) && plain(a, env, var, n)
        }
        S::U(Un::Neg, a) => plain(a, env, var, n),
        S::U(..) => false,
        S::B(Bi::Pow, ..) => false,
        S::B(_, a, b) => plain(a, env, var, n) && plain(b, env, var, n),
        S::Real(_) | S::Pi | S::E => false,
        _ => true,
    }
}

/// Values of the other variables at which nothing vanishes that does not vanish always.
fn generic(s: &S, to: &S) -> Vec<(&'static str, V)> {
    let mut names = vec![];
    s.vars(&mut names);
    to.vars(&mut names);
    const OF: [(i64, i64); 6] = [(37, 29), (41, 31), (-43, 23), (47, 19), (-53, 17), (59, 13)];
    names.into_iter().enumerate().map(|(k, n)| (n, rat(OF[k % 6].0 + 60 * (k / 6) as i64, OF[k % 6].1))).collect()
}

/// With other variables around, nothing is compared with zero or differentiated
/// but what `plain` allows: what mentions them vanishes only by a factor (or
/// both terms) that does, and no quotient or product that mentions them is left open.
fn plain_with(s: &S, env: &[(&'static str, V)], var: &str, moving: bool) -> bool {
    let mentions = |s: &S| s.any(&|t| matches!(t, S::Var(n) if *n != var || moving));
    if !mentions(s) {
        return plain(s, env, var, terms(s));
    }
    let of = |s: &S| tend(s, env, var, terms(s));
    let go = |s: &S| plain_with(s, env, var, moving);
    let (zero, inf) = (|t: &Tend| matches!(t, Tend::Zero), |t: &Tend| matches!(t, Tend::Inf));
    match s {
        S::U(Un::Neg | Un::Sin | Un::Cos, a) => go(a),
        S::U(..) => false,
        S::B(o, a, b) => {
            if !go(a) || !go(b) {
                return false;
            }
            let (x, y) = (of(a), of(b));
            match o {
                Bi::Add | Bi::Sub => !(inf(&x) && inf(&y)) && (!zero(&of(s)) || zero(&x) && zero(&y)),
                Bi::Mul => !(inf(&x) && zero(&y) || zero(&x) && inf(&y)),
                Bi::Div => match y {
                    Tend::To(v) => v.nonzero(),
                    Tend::Zero => matches!(x, Tend::To(v) if v.nonzero()) || inf(&x),
                    Tend::Inf => !inf(&x),
                    _ => false,
                },
                Bi::Pow => false,
            }
        }
        _ => true,
    }
}

/// Built from numbers, the variable, + - * negation, sine and cosine only.
fn divisionless(s: &S) -> bool {
    match s {
        S::U(Un::Neg | Un::Sin | Un::Cos, a) => divisionless(a),
        S::U(..) => false,
        S::B(Bi::Add | Bi::Sub | Bi::Mul, a, b) => divisionless(a) && divisionless(b),
        S::B(..) => false,
        _ => true,
    }
}

const N: usize = 14;

/// Number of terms of the reference series.
fn terms(s: &S) -> usize {
    if s.size() > 30 {
        24
    } else {
        N
    }
}

fn c15_case(s: &S, var: &'static str, to: &S, order: u64, c: &mut Ctx) {
    let key = || format!("lim {} as `{var}` -> {} with {order} steps", s.key(), to.key());
    c.step();
    let l = match limit(s, var, to, order) {
        Ok(l) => l,
        Err(_) => return c.skip(), // C17
    };
    c.state(mix(mix(s.hash(), to.hash()), order));
    let l = match l {
        Ok(l) => l,
        Err(_) => return c.skip(),
    };
    let moving = !to.literal();
    let alone = !moving && s.only_var(var);
    let mut env = if alone { vec![] } else { generic(s, to) };
    match eval(to, &env) {
        Ok(p) if !to.has_var(var) => {
            env.retain(|(n, _)| *n != var);
            env.push((var, p))
        }
        _ => return c.skip(),
    }
    if has_bi(s, Bi::Div) && !(if alone { plain(s, &env, var, terms(s)) } else { plain_with(s, &env, var, moving) }) {
        return c.skip();
    }
    let t = tend(s, &env, var, terms(s));
    match truth(&l, &t, &env) {
        Some(true) => c.ok(),
        None => c.vague(),
        Some(false) => {
            return c.fail(key(), format!("answered {}, but the expression {}", show_lim(&Ok(l)), show_tend(&t)))
        }
    }
    c.outcome(show_lim(&Ok(l.clone())).bytes().fold(3, |h, b| mix(h, b as u64)));
    c.sample(|| format!("{} = {}", key(), show_lim(&Ok(l))));
}

type LimCase = fn(&S, &'static str, &S, u64, &mut Ctx);

fn lim_space(name: &str, leaves: Vec<S>, uns: &[Un], bis: &[Bi], max: usize, tos: Vec<S>, orders: Vec<u64>, f: LimCase) -> Space {
    let g = Arc::new(Grammar::new(leaves, uns, bis, max));
    let (nt, no) = (tos.len() as u64, orders.len() as u64);
    let bound = format!(
        "every tree of at most {max} nodes over leaves {{{}}} and operators {uns:?} {bis:?} x points {{{}}} x steps {orders:?}",
        g.leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", "),
        tos.iter().map(|a| a.key()).collect::<Vec<_>>().join(", ")
    );
    let (g2, t2, o2) = (g.clone(), tos.clone(), orders.clone());
    Space::new(
        name,
        &bound,
        g.count_upto(max) * nt * no,
        move |k| {
            format!("lim {} at {} with {} steps", g2.tree_upto(max, k / (nt * no)).key(), t2[(k % nt) as usize].key(), o2[(k / nt % no) as usize])
        },
        move |k, c| f(&g.tree_upto(max, k / (nt * no)), "x", &tos[(k % nt) as usize], orders[(k / nt % no) as usize], c),
    )
}

/// The same trees with the limit variable and the bystander in other roles.
fn lim_roles(name: &str, leaves: Vec<S>, uns: &[Un], bis: &[Bi], max: usize, tos: Vec<S>, order: u64, f: LimCase) -> Space {
    let g = Arc::new(Grammar::new(leaves, uns, bis, max));
    let (nt, nr) = (tos.len() as u64, ROLES.len() as u64);
    let bound = format!(
        "every tree of at most {max} nodes over leaves {{{}}} and operators {uns:?} {bis:?} x points {{{}}}, {order} steps, with (x, y) renamed to each of {ROLES:?}",
        g.leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", "),
        tos.iter().map(|a| a.key()).collect::<Vec<_>>().join(", ")
    );
    let n = g.count_upto(max) * nt * nr;
    let case = move |k: u64| {
        let r = (k % nr) as usize;
        (in_roles(&g.tree_upto(max, k / (nt * nr)), r), ROLES[r].0, in_roles(&tos[(k / nr % nt) as usize], r))
    };
    let case = Arc::new(case);
    let case2 = case.clone();
    Space::new(
        name,
        &bound,
        n,
        move |k| {
            let (s, var, to) = case2(k);
            format!("lim {} as `{var}` -> {}", s.key(), to.key())
        },
        move |k, c| {
            let (s, var, to) = case(k);
            f(&s, var, &to, order, c)
        },
    )
}

fn lim_list(name: &str, bound: &str, l: Vec<S>, tos: Vec<S>, orders: Vec<u64>, f: LimCase) -> Space {
    let (nt, no) = (tos.len() as u64, orders.len() as u64);
    let bound = format!(
        "{bound} x points {} x steps {orders:?}",
        show_points(&tos)
    );
    let (l2, t2, o2) = (l.clone(), tos.clone(), orders.clone());
    Space::new(
        name,
        &bound,
        l.len() as u64 * nt * no,
        move |k| format!("lim {} at {} with {} steps", l2[(k / (nt * no)) as usize].key(), t2[(k % nt) as usize].key(), o2[(k / nt % no) as usize]),
        move |k, c| f(&l[(k / (nt * no)) as usize], "x", &tos[(k % nt) as usize], orders[(k / nt % no) as usize], c),
    )
}

/// Variables with names that are alike.
fn lim_alike(each: usize, order: u64, f: LimCase) -> Space {
    let l = Arc::new(names::alike_requests(each));
    let l2 = l.clone();
    Space::new(
        "names alike",
        &format!("a few expressions in two variables whose names are nearly the same, or agree in one of 34 usual digests, at three points with {order} steps"),
        l.len() as u64,
        move |k| {
            let (s, p, to) = &l2[k as usize];
            format!("lim {} as `{p}` -> {}", s.key(), to.key())
        },
        move |k, c| {
            let (s, p, to) = &l[k as usize];
            f(s, p, to, order, c)
        },
    )
}

const TRIG: [Un; 3] = [Un::Neg, Un::Sin, Un::Cos];

/// Quotients of functions with known orders of vanishing.
pub fn quotients() -> Vec<S> {
    let x = || v("x");
    let m = |a: S, b: S| bi(Bi::Mul, a, b);
    let parts = vec![
        x(),
        un(Un::Sin, x()),
        m(x(), x()),
        bi(Bi::Sub, i(1), un(Un::Cos, x())),
        bi(Bi::Sub, un(Un::Sin, x()), x()),
        m(x(), un(Un::Sin, x())),
        m(x(), un(Un::Cos, x())),
        bi(Bi::Sub, x(), i(1)),
        bi(Bi::Sub, m(x(), x()), i(1)),
        bi(Bi::Add, x(), i(2)),
        i(3),
        i(0),
        un(Un::Neg, x()),
        un(Un::Sin, un(Un::Sin, x())),
        m(m(x(), x()), x()),
        un(Un::Sin, m(i(2), x())),
        bi(Bi::Div, i(1), x()),
        bi(Bi::Div, x(), bi(Bi::Sub, x(), i(1))),
        bi(Bi::Sub, un(Un::Cos, x()), un(Un::Cos, m(i(2), x()))),
        un(Un::Sin, bi(Bi::Sub, x(), i(1))),
    ];
    let mut l = vec![];
    for a in &parts {
        for b in &parts {
            l.push(bi(Bi::Div, a.clone(), b.clone()));
            for k in [x(), i(2)] {
                l.push(bi(Bi::Add, k.clone(), bi(Bi::Div, a.clone(), b.clone())));
                l.push(bi(Bi::Sub, bi(Bi::Div, a.clone(), b.clone()), k.clone()));
                l.push(bi(Bi::Mul, k.clone(), bi(Bi::Div, a.clone(), b.clone())));
                l.push(bi(Bi::Div, bi(Bi::Div, a.clone(), b.clone()), k));
            }
            l.push(un(Un::Neg, bi(Bi::Div, a.clone(), b.clone())));
            l.push(un(Un::Sin, bi(Bi::Div, a.clone(), b.clone())));
            l.push(bi(Bi::Mul, a.clone(), bi(Bi::Div, i(1), b.clone())));
            l.push(bi(Bi::Add, bi(Bi::Div, i(1), a.clone()), bi(Bi::Div, i(1), b.clone())));
            l.push(bi(Bi::Sub, bi(Bi::Div, i(1), a.clone()), bi(Bi::Div, i(1), b.clone())));
        }
    }
    l
}

/// Quotients f^a / g^b (and products) that need many L'Hopital steps.
pub fn towers() -> Vec<S> {
    let x = || v("x");
    let m = |a: S, b: S| bi(Bi::Mul, a, b);
    let bases = [x(), un(Un::Sin, x()), bi(Bi::Sub, x(), i(1))];
    let tower = |b: &S, k: usize| (1..k).fold(b.clone(), |e, _| m(e, b.clone()));
    let mut parts = vec![bi(Bi::Sub, i(1), un(Un::Cos, x())), bi(Bi::Sub, un(Un::Sin, x()), x())];
    for (b, top) in bases.iter().zip([6, 4, 4]) {
        for k in 1..=top {
            parts.push(tower(b, k));
        }
    }
    let mut l = vec![];
    for a in &parts {
        for b in &parts {
            l.push(bi(Bi::Div, a.clone(), b.clone()));
        }
    }
    l
}

/// Sums of sines or cosines of multiples of x with integer factors that vanish
/// at 0 to exactly the k-th order, k >= 1, and whose derivatives stay small.
fn cancelling(k: usize) -> S {
    let m = (k / 2) as i64;
    let binom = |j: i64| (0..(m + j).max(0)).fold(1i64, |a, l| a * (2 * m - l) / (l + 1));
    let p = |j: i64| if j.abs() > m { 0 } else { binom(j) * if j % 2 == 0 { 1 } else { -1 } };
    let mut out: Option<S> = None;
    let top = if k % 2 == 0 { m } else { m + 1 };
    for j in 0..=top {
        let wave = |u: Un| un(u, bi(Bi::Mul, i(j), v("x")));
        let t = match (k % 2, j) {
            (0, 0) => i(p(0)),
            (0, j) => bi(Bi::Mul, i(2 * p(j)), wave(Un::Cos)),
            (_, 0) => continue,
            (_, j) => bi(Bi::Mul, i(p(j - 1) - p(j + 1)), wave(Un::Sin)),
        };
        out = Some(match out {
            None => t,
            Some(o) => bi(Bi::Add, o, t),
        });
    }
    out.unwrap()
}

/// Quotients of these that need as many L'Hopital steps as the smaller order.
pub fn cancelling_quotients(top: usize) -> Vec<S> {
    let mut l = vec![];
    for a in 1..=top {
        for b in a.saturating_sub(2).max(1)..=(a + 2).min(top) {
            let q = bi(Bi::Div, cancelling(a), cancelling(b));
            l.push(bi(Bi::Add, i(1), q.clone()));
            l.push(un(Un::Neg, q.clone()));
            l.push(q);
        }
    }
    l
}

/// Small expressions that take the place of leaves.
pub fn limit_units() -> Vec<S> {
    let x = || v("x");
    let m = |a: S, b: S| bi(Bi::Mul, a, b);
    vec![
        x(),
        i(1),
        un(Un::Sin, x()),
        un(Un::Cos, x()),
        m(x(), x()),
        bi(Bi::Div, i(1), x()),
        bi(Bi::Sub, x(), i(1)),
        bi(Bi::Sub, i(1), un(Un::Cos, x())),
        i(2),
        i(-1),
        bi(Bi::Div, un(Un::Sin, x()), x()),
        un(Un::Sin, bi(Bi::Div, i(1), x())),
        m(x(), un(Un::Sin, x())),
        un(Un::Sin, m(i(3), x())),
        bi(Bi::Div, i(1), bi(Bi::Sub, x(), i(1))),
        bi(Bi::Add, x(), m(x(), x())),
    ]
}

fn points_exact() -> Vec<S> {
    vec![i(0), i(1), i(-1), i(2), q(1, 1, 2), q(-1, 6, 4)]
}

fn c15(t: Tier) -> Vec<Space> {
    let leaves = vec![v("x"), i(0), i(1), i(2), i(-1), q(1, 1, 2)];
    vec![
        lim_list("quotients", "quotients with known orders of vanishing, in context", quotients(), points_exact(), vec![0, 1, 2, 3], c15_case),
        lim_space("trees", leaves, &TRIG, &ARITH, t.pick(6, 7), points_exact(), vec![1], c15_case),
        lim_space("steps", vec![v("x"), i(1), i(0)], &TRIG, &ARITH, t.pick(6, 7), points_exact(), vec![0, 2, 3], c15_case),
        lim_space("larger trees", vec![v("x"), i(1)], &TRIG, &ARITH, t.pick(8, 9), vec![i(0), i(1), i(-2)], vec![1], c15_case),
        lim_space("rational functions", vec![v("x"), i(1), i(-2)], &[Un::Neg], &ARITH, t.pick(8, 9), points_exact(), vec![1], c15_case),
        lim_space("all operators", vec![v("x"), i(2)], &UNS, &BIS, t.pick(6, 7), vec![i(0), i(1)], vec![1], c15_case),
        lim_roles("other names", vec![v("x"), i(1), i(0)], &TRIG, &ARITH, t.pick(6, 7), vec![i(0), i(1), q(1, 1, 2)], 1, c15_case),
        lim_list("high order zeros", "quotients of powers up to the sixth", towers(), vec![i(0), i(1)], (0..=t.pick(8, 12)).collect(), c15_case),
        lim_list("near the constants", "numbers next to 0, 1, pi and e around the variable", near_around(), near_nums().into_iter().filter(|n| n.literal()).collect(), vec![1], c15_case),
        lim_list("wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 4], &[3, 4, 5])), vec![i(0), i(1), q(-1, 1, 2), v("a")], vec![0, 1], c15_case),
        lim_list("number ladder", "every number up to 60 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(60, t.pick(12, 2))), vec![i(0), i(1), q(-1, 1, 2), v("a")], vec![1], c15_case),
        lim_list("point ladder", "every eighth quotient at every number up to 100 and others that stand out", quotients().into_iter().step_by(t.pick(8, 2)).collect(), number_ladder(100, t.pick(10, 1)).into_iter().filter(|n| n.literal()).collect(), vec![1], c15_case),
        lim_list("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[9, 11], &[9, 11, 13])), vec![i(0), i(1), v("a")], vec![1], c15_case),
        lim_list("very deep", "nestings of every single wrapping", very_deep(&TRIG, &[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[64, 280], &[64, 280, 530])), points_exact(), vec![1], c15_case),
        lim_list("many steps", "the same quotients with generous step allowances", towers(), vec![i(0)], t.pick(vec![16, 40], vec![16, 33, 64, 100]), c15_case),
        lim_list("cancelling waves", "quotients of sums of sines and cosines that vanish to orders up to 17", cancelling_quotients(t.pick(14, 17)), vec![i(0)], (0..=20).collect(), c15_case),
        lim_space("of small expressions", limit_units(), &[Un::Neg], &ARITH, t.pick(5, 5), points_exact(), vec![0, 1, 3], c15_case),
        lim_space("of four small expressions", limit_units().into_iter().take(8).collect(), &[], &ARITH, 7, vec![i(0)], vec![2], c15_case),
        lim_space("other variables", vec![v("x"), v("y"), i(1), i(0)], &TRIG, &ARITH, t.pick(6, 7), vec![i(0), i(1), q(-1, 1, 2)], vec![0, 1, 2], c15_case),
        lim_space("symbolic points", vec![v("x"), v("a"), i(2)], &TRIG, &ARITH, t.pick(6, 7), vec![v("a"), un(Un::Neg, v("a")), bi(Bi::Add, v("b"), i(1)), bi(Bi::Mul, v("a"), v("b")), un(Un::Sin, v("b")), bi(Bi::Div, i(1), v("a"))], vec![0, 1], c15_case),
        lim_space("other variables, all operators", vec![v("x"), v("y"), i(2)], &UNS, &BIS, t.pick(5, 6), vec![i(0), i(1), v("a"), v("y")], vec![1], c15_case),
        lim_list("other variables, deep", "nestings of every pattern of two wrappings", spine_list(&[v("x")], &[v("x"), v("y"), i(2)], &TRIG, &ARITH, 2, t.pick(&[5, 9], &[5, 9, 14])), vec![i(0), i(1), v("a"), v("y")], vec![1], c15_case),
        lim_list("many variables", "chains and balanced trees of up to 18 different variables", many_list(&ARITH, &[3, 9, 18]).into_iter().map(|s| s.rename(&[("v2", "x")])).collect(), vec![i(0), i(1), v("v1"), v("v40")], vec![1], c15_case),
        lim_alike(t.pick(6, 60), 1, c15_case),
        lim_roles("other variables, other names", vec![v("x"), v("y"), i(1)], &TRIG, &ARITH, t.pick(5, 6), vec![i(0), i(1), v("y")], 1, c15_case),
    ]
}

// ------------------------------------------------------------------ C16

#[derive(Clone)]
struct Germ {
    class: usize, // 0 infinitesimal, 1 infinity, 2 bounded, 3.. values
    f: S,
    /// takes the value zero arbitrarily near the point
    zeros: bool,
}

fn germs() -> (Vec<Germ>, Vec<S>) {
    let h = || v("x");
    let inv = |a: S| bi(Bi::Div, i(1), a);
    let m = |a: S, b: S| bi(Bi::Mul, a, b);
    let add = |a: S, b: S| bi(Bi::Add, a, b);
    let osc = || un(Un::Sin, inv(h()));
    const T: u64 = 1_000_000_000_000;
    let vals = vec![i(1), i(-1), i(2), q(-1, 3, 2), v("a"), un(Un::Sin, v("a")), q(1, 1, T), q(-1, T - 1, T), i(T as i64), S::Pi, S::Real(0.25001), S::Real(0.25002), v("sina")];
    let mut g = vec![];
    let mut put = |class: usize, f: S, zeros: bool| g.push(Germ { class, f, zeros });
    for f in [h(), un(Un::Neg, h()), m(h(), h()), m(i(3), h()), un(Un::Sin, h()), add(h(), m(h(), h())), m(m(h(), h()), h())] {
        put(0, f.clone(), false);
        put(1, inv(f), false);
    }
    put(0, m(h(), osc()), true);
    put(0, m(h(), add(i(2), osc())), false);
    put(1, add(inv(h()), i(1)), false);
    put(1, bi(Bi::Sub, i(2), inv(m(h(), h()))), false);
    for (f, z) in [
        (osc(), true),
        (un(Un::Neg, osc()), true),
        (un(Un::Cos, inv(h())), true),
        (add(i(2), osc()), false),
        (m(i(2), osc()), true),
        (bi(Bi::Sub, i(1), osc()), true),
        // a bounded function may as well have a limit
        (i(1), false),
        (h(), false),
    ] {
        put(2, f, z);
    }
    for (k, a) in vals.iter().enumerate() {
        for f in [a.clone(), add(a.clone(), h()), bi(Bi::Sub, a.clone(), m(h(), h()))] {
            put(3 + k, f, false);
        }
    }
    (g, vals)
}

fn lim_of(class: usize, vals: &[S]) -> LimitExpression {
    match class {
        0 => LimitExpression::Infinitesimal,
        1 => LimitExpression::Infinity,
        2 => LimitExpression::BoundedFluctuation,
        k => LimitExpression::Normal(vals[k - 3].build()),
    }
}

fn class_name(k: usize, vals: &[S]) -> String {
    match k {
        0 => "infinitesimal".into(),
        1 => "infinity".into(),
        2 => "bounded fluctuation".into(),
        k => format!("value {}", vals[k - 3].key()),
    }
}

fn agree(a: &Tend, b: &Tend) -> bool {
    match (a, b) {
        (Tend::Zero, Tend::Zero) | (Tend::Inf, Tend::Inf) | (Tend::Osc, Tend::Osc) => true,
        (Tend::To(x), Tend::To(y)) => {
            let ((a, b), (c, d)) = (x.lo_hi(), y.lo_hi());
            a <= d + 1e-12 && c <= b + 1e-12
        }
        _ => false,
    }
}

fn c16_case(k: u64, c: &mut Ctx) {
    let (g, vals) = germs();
    let nc = 3 + vals.len() as u64;
    let o = ARITH[(k % 4) as usize];
    let (a, b) = ((k / 4 % nc) as usize, (k / 4 / nc) as usize);
    let env = vec![("x", ZERO), ("a", rat(4, 9)), ("sina", rat(5, 3))];
    let key = format!("{} {o:?} {}", class_name(a, &vals), class_name(b, &vals));
    c.step();
    let r = guarded(|| {
        let (x, y) = (lim_of(a, &vals), lim_of(b, &vals));
        match o {
            Bi::Add => x + y,
            Bi::Sub => x - y,
            Bi::Mul => x * y,
            _ => x / y,
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(m) => return c.fail(key, format!("crashed: {m}")),
    };
    let mut seen: Vec<(Tend, String)> = vec![];
    let mut may_be_undefined = false;
    for f in g.iter().filter(|f| f.class == a) {
        for h in g.iter().filter(|h| h.class == b) {
            let e = bi(o, f.f.clone(), h.f.clone());
            if o == Bi::Div && h.zeros {
                may_be_undefined = true;
                continue;
            }
            c.step();
            let t = tend(&e, &env, "x", N);
            if let Tend::Unk = t {
                c.vague();
                continue;
            }
            c.state(mix(e.hash(), k));
            if let Ok(l) = &r {
                match truth(l, &t, &env) {
                    Some(true) => c.ok(),
                    None => c.vague(),
                    Some(false) => {
                        return c.fail(key, format!("answers {}, but {} {}", show_lim(&r), e.key(), show_tend(&t)))
                    }
                }
            }
            seen.push((t, e.key()));
        }
    }
    if r.is_err() {
        // a refusal needs a reason: two outcomes, or a possibly undefined combination
        let differ = seen.iter().any(|s| !agree(&s.0, &seen[0].0)) || seen.iter().any(|s| matches!(s.0, Tend::Osc));
        if !differ && !may_be_undefined {
            return c.fail(
                key,
                format!("refused, though all {} pairs of representatives agree: {}", seen.len(), seen.first().map(|s| show_tend(&s.0)).unwrap_or_default()),
            );
        }
        c.ok();
    }
    c.outcome(show_lim(&r).bytes().fold(k, |h, b| mix(h, b as u64)));
    c.sample(|| format!("{key} = {} over {} pairs of functions", show_lim(&r), seen.len()));
}

fn c16_neg(k: u64, c: &mut Ctx) {
    let (g, vals) = germs();
    let env = vec![("x", ZERO), ("a", rat(4, 9)), ("sina", rat(5, 3))];
    let cl = k as usize;
    let key = format!("-({})", class_name(cl, &vals));
    c.step();
    let r = match guarded(|| -lim_of(cl, &vals)) {
        Ok(r) => r,
        Err(m) => return c.fail(key, format!("crashed: {m}")),
    };
    for f in g.iter().filter(|f| f.class == cl) {
        let t = tend(&un(Un::Neg, f.f.clone()), &env, "x", N);
        match truth(&r, &t, &env) {
            Some(true) => c.ok(),
            None => c.vague(),
            Some(false) => return c.fail(key, format!("answers {}, but -({}) {}", show_lim(&Ok(r)), f.f.key(), show_tend(&t))),
        }
        c.state(mix(f.f.hash(), k));
    }
    c.sample(|| format!("{key} = {}", show_lim(&Ok(r))));
}

/// Text of each class.
fn c16_text(k: u64, c: &mut Ctx) {
    let (_, vals) = germs();
    c.step();
    let l = lim_of(k as usize, &vals);
    let t = l.to_string();
    let want = match k {
        0 => "0".to_string(),
        1 => "infinity".to_string(),
        2 => "~".to_string(),
        k => vals[k as usize - 3].build().to_string(),
    };
    if t != want {
        c.fail(class_name(k as usize, &vals), format!("prints as {t:?} instead of {want:?}"));
    } else {
        c.ok();
    }
}

/// Chains: a combined limit is combined again with a third one.
fn c16_chain(k: u64, c: &mut Ctx) {
    let (g, vals) = germs();
    let nc = 3 + vals.len() as u64;
    let (o1, o2) = (ARITH[(k % 4) as usize], ARITH[(k / 4 % 4) as usize]);
    let k2 = k / 16;
    let cl = [(k2 % nc) as usize, (k2 / nc % nc) as usize, (k2 / nc / nc) as usize];
    let env = vec![("x", ZERO), ("a", rat(4, 9)), ("sina", rat(5, 3))];
    let key = || format!("({} {o1:?} {}) {o2:?} {}", class_name(cl[0], &vals), class_name(cl[1], &vals), class_name(cl[2], &vals));
    let op = |o: Bi, x: LimitExpression, y: LimitExpression| match o {
        Bi::Add => x + y,
        Bi::Sub => x - y,
        Bi::Mul => x * y,
        _ => x / y,
    };
    c.step();
    let l: L = match guarded(|| op(o1, lim_of(cl[0], &vals), lim_of(cl[1], &vals)).and_then(|r| op(o2, r, lim_of(cl[2], &vals)))) {
        Ok(l) => l,
        Err(m) => return c.fail(key(), format!("crashed: {m}")),
    };
    let l = match l {
        Ok(l) => l,
        Err(_) => return c.skip(),
    };
    let pick = |n: usize| g.iter().filter(move |f| f.class == n).take(4);
    for f in pick(cl[0]) {
        for h in pick(cl[1]) {
            for j in pick(cl[2]) {
                if (o1 == Bi::Div && h.zeros) || (o2 == Bi::Div && j.zeros) {
                    continue;
                }
                let inner = bi(o1, f.f.clone(), h.f.clone());
                // the contract of the algebra: a value is not zero
                if let Tend::Zero = tend(&inner, &env, "x", N) {
                    if cl[0] >= 3 && cl[1] >= 3 {
                        c.skip();
                        continue;
                    }
                }
                let e = bi(o2, inner, j.f.clone());
                let t = tend(&e, &env, "x", N);
                match truth(&l, &t, &env) {
                    Some(true) => c.ok(),
                    None => c.vague(),
                    Some(false) => {
                        return c.fail(key(), format!("answers {}, but {} {}", show_lim(&Ok(l)), e.key(), show_tend(&t)))
                    }
                }
            }
        }
    }
    c.state(k);
}

/// Chains of four over fewer classes.
const SOME: [usize; 7] = [0, 1, 2, 3, 4, 5, 7];
fn c16_long(k: u64, per: usize, c: &mut Ctx) {
    let (g, vals) = germs();
    let o: Vec<Bi> = (0..3).map(|j| ARITH[(k >> (2 * j) & 3) as usize]).collect();
    let n = SOME.len() as u64;
    let cl: Vec<usize> = (0..4).map(|j| SOME[(k / 64 / n.pow(j) % n) as usize]).collect();
    let env = vec![("x", ZERO), ("a", rat(4, 9)), ("sina", rat(5, 3))];
    let op = |o: Bi, x: LimitExpression, y: LimitExpression| match o {
        Bi::Add => x + y,
        Bi::Sub => x - y,
        Bi::Mul => x * y,
        _ => x / y,
    };
    // both ways to put the parentheses that are not chains of two already
    for balanced in [false, true] {
        let of = |j: usize| lim_of(cl[j], &vals);
        let key = || {
            let n = |j: usize| class_name(cl[j], &vals);
            if balanced {
                format!("({} {:?} {}) {:?} ({} {:?} {})", n(0), o[0], n(1), o[1], n(2), o[2], n(3))
            } else {
                format!("{} {:?} ({} {:?} ({} {:?} {}))", n(0), o[0], n(1), o[1], n(2), o[2], n(3))
            }
        };
        c.step();
        // the result and both limits it is combined from in between
        let l = guarded(|| {
            let right = op(o[2], of(2), of(3))?;
            let inner = if balanced { op(o[0], of(0), of(1))? } else { op(o[1], of(1), right.clone())? };
            let l = if balanced { op(o[1], inner.clone(), right.clone())? } else { op(o[0], of(0), inner.clone())? };
            Ok((l, right, inner))
        });
        let l: Result<(LimitExpression, LimitExpression, LimitExpression), NoValidLimitFound> = match l {
            Ok(l) => l,
            Err(m) => return c.fail(key(), format!("crashed: {m}")),
        };
        let (l, r_lim, i_lim) = match l {
            Ok(l) => l,
            Err(_) => {
                c.skip();
                continue;
            }
        };
        let pick = |n: usize| g.iter().filter(move |f| f.class == n).take(per);
        for f0 in pick(cl[0]) {
            for f1 in pick(cl[1]) {
                for f2 in pick(cl[2]) {
                    for f3 in pick(cl[3]) {
                        let zero = |s: &S| matches!(tend(s, &env, "x", N), Tend::Zero);
                        let bounded = |k: usize| cl[k] == 2;
                        // a bounded divisor may vanish; a value that cancels is no value
                        let right = bi(o[2], f2.f.clone(), f3.f.clone());
                        let left = bi(o[0], f0.f.clone(), f1.f.clone());
                        let inner = if balanced { left.clone() } else { bi(o[1], f1.f.clone(), right.clone()) };
                        let hidden = |l: &LimitExpression, s: &S| matches!(l, LimitExpression::Normal(_)) && zero(s);
                        if (0..4).any(bounded) && o.contains(&Bi::Div) || hidden(&r_lim, &right) || hidden(&i_lim, &inner) {
                            c.skip();
                            continue;
                        }
                        let e = if balanced { bi(o[1], left, right) } else { bi(o[0], f0.f.clone(), inner) };
                        let t = tend(&e, &env, "x", N);
                        match truth(&l, &t, &env) {
                            Some(true) => c.ok(),
                            None => c.vague(),
                            Some(false) => return c.fail(key(), format!("answers {}, but {} {}", show_lim(&Ok(l)), e.key(), show_tend(&t))),
                        }
                    }
                }
            }
        }
    }
    c.state(k);
}

fn c16(t: Tier) -> Vec<Space> {
    let (g, vals) = germs();
    let nc = 3 + vals.len() as u64;
    let per = t.pick(2, 3);
    vec![
        Space::new(
            "pairs",
            &format!("every ordered pair of {nc} limit classes under + - * /, against every pair of their {} representative functions", g.len()),
            nc * nc * 4,
            |k| format!("pair #{k}"),
            c16_case,
        ),
        Space::new("negation", "every class", nc, |k| format!("class #{k}"), c16_neg),
        Space::new("text", "every class", nc, |k| format!("class #{k}"), c16_text),
        Space::new(
            "chains",
            "every combination of three classes by two operators, against four representatives of each",
            nc * nc * nc * 16,
            |k| format!("chain #{k}"),
            c16_chain,
        ),
        Space::new(
            "longer chains",
            &format!("every combination of four of {} classes by three operators, with the parentheses to the right or balanced, against {per} representatives of each", SOME.len()),
            (SOME.len() as u64).pow(4) * 64,
            |k| format!("longer chain #{k}"),
            move |k, c| c16_long(k, per, c),
        ),
    ]
}

// ------------------------------------------------------------------ C17

fn c17_total(s: &S, var: &'static str, to: &S, order: u64, c: &mut Ctx) {
    let key = || format!("lim {} as `{var}` -> {} with {order} steps", s.key(), to.key());
    c.step();
    let l = match limit(s, var, to, order) {
        Ok(l) => l,
        Err(m) => return c.fail(key(), format!("crashed: {m}")),
    };
    c.ok();
    c.state(mix(mix(s.hash(), to.hash()), order));
    c.outcome(show_lim(&l).bytes().fold(3, |h, b| mix(h, b as u64)));
    // must it be found?
    let found = matches!(l, Ok(LimitExpression::Normal(_) | LimitExpression::Infinitesimal | LimitExpression::Infinity));
    let reason = must_find(s, var, to, order);
    if let Some(why) = reason {
        c.note(why);
        if !found {
            return c.fail(key(), format!("answered {}, though {why}", show_lim(&l)));
        }
        c.ok();
    }
    c.sample(|| format!("{} = {}", key(), show_lim(&l)));
}

fn must_find(s: &S, var: &'static str, to: &S, order: u64) -> Option<&'static str> {
    if s.any(&|t| matches!(t, S::Real(_))) {
        return None;
    }
    if divisionless(s) {
        return Some("it is built without division");
    }
    let mut env: Vec<_> = the_grid()[0].iter().filter(|(n, _)| *n != var && !to.has_var(n)).cloned().collect();
    env.extend(the_grid()[0].iter().filter(|(n, _)| *n != var && to.has_var(n)).cloned());
    if to.has_var(var) {
        return None;
    }
    match eval(to, &env) {
        Ok(p) => env.push((var, p)),
        Err(_) => return None,
    }
    if finite(s, &env, var) {
        return Some("it is built by + - * negation, sine and cosine and by quotients whose denominator does not tend to zero");
    }
    if to.literal() && s.only_var(var) && plain(s, &env, var, terms(s)) && clear(s, &env, var, order) {
        return Some("the limits of its parts are found and decide it");
    }
    None
}

/// A quotient of expressions without division, decided by the number of
/// derivatives allowed.
fn by_derivatives(a: &S, b: &S, env: &[(&'static str, V)], var: &str, order: u64) -> bool {
    if !divisionless(a) || !divisionless(b) || !matches!(tend(b, env, var, terms(b)), Tend::Zero) || series(b, env, var, terms(b)).map_or(true, |s| s.is_null()) {
        return false;
    }
    if let Tend::To(v) = tend(a, env, var, terms(a)) {
        return v.nonzero();
    }
    let (Ok(x), Ok(y)) = (series(a, env, var, terms(a)), series(b, env, var, terms(b))) else { return false };
    let m = x.v.min(y.v);
    let sure = |s: &crate::oracle::series::Ser| s.is_null() || s.c.first().map(|c| c.nonzero()).unwrap_or(false);
    m >= 1 && (m as u64) <= order && sure(&x) && sure(&y)
}

/// The limits of all parts are found and leave no choice (for expressions whose
/// constants are all exact).
fn clear(s: &S, env: &[(&'static str, V)], var: &str, order: u64) -> bool {
    let of = |s: &S| tend(s, env, var, terms(s));
    let zero = |t: &Tend| matches!(t, Tend::Zero);
    let inf = |t: &Tend| matches!(t, Tend::Inf);
    let value = |t: &Tend| matches!(t, Tend::To(v) if v.nonzero());
    let known = |t: &Tend| zero(t) || inf(t) || value(t);
    match s {
        S::U(Un::Neg, a) => clear(a, env, var, order),
        S::U(Un::Sin | Un::Cos, a) => continuous(a, env) || (clear(a, env, var, order) && (zero(&of(a)) || value(&of(a)))),
        S::U(..) => false,
        S::B(o, a, b) => {
            if *o == Bi::Div && by_derivatives(a, b, env, var, order) {
                return true;
            }
            if !clear(a, env, var, order) || !clear(b, env, var, order) {
                return false;
            }
            let (x, y) = (of(a), of(b));
            known(&x)
                && known(&y)
                && match o {
                    Bi::Add | Bi::Sub => !(inf(&x) && inf(&y)),
                    Bi::Mul => !(inf(&x) && zero(&y) || zero(&x) && inf(&y)),
                    Bi::Div if zero(&y) => !zero(&x) && inf(&of(s)),
                    Bi::Div => !(inf(&x) && inf(&y)),
                    Bi::Pow => false,
                }
        }
        S::Real(_) | S::Bad(_) => false,
        _ => true,
    }
}

/// Defined at the point, and continuous there in every part.
fn continuous(s: &S, env: &[(&'static str, V)]) -> bool {
    let at = |s: &S| eval(s, env);
    (match s {
        S::U(o, a) => continuous(a, env) && (*o != Un::Ln || at(a).map_or(false, |v| v.lo_hi().0 > 0.0)),
        S::B(o, a, b) => {
            continuous(a, env)
                && continuous(b, env)
                && match o {
                    Bi::Div => at(b).map_or(false, |v| v.nonzero()),
                    Bi::Pow => matches!(**b, S::Int(k) if k >= 0) || at(a).map_or(false, |v| v.lo_hi().0 > 0.0),
                    _ => true,
                }
        }
        _ => true,
    }) && at(s).is_ok()
}

/// Built so that every part has a finite limit which only takes arithmetic.
fn finite(s: &S, env: &[(&'static str, V)], var: &str) -> bool {
    match s {
        S::U(Un::Neg, a) => finite(a, env, var),
        S::U(Un::Sin | Un::Cos, a) => continuous(a, env) || finite(a, env, var),
        S::U(..) => false,
        S::B(Bi::Add | Bi::Sub | Bi::Mul, a, b) => finite(a, env, var) && finite(b, env, var),
        S::B(Bi::Div, a, b) => {
            finite(a, env, var) && finite(b, env, var) && matches!(tend(b, env, var, terms(b)), Tend::To(v) if v.nonzero())
        }
        S::B(..) | S::Bad(_) => false,
        S::Real(_) => false,
        _ => true,
    }
}

fn c17(t: Tier) -> Vec<Space> {
    let leaves = vec![v("x"), v("y"), i(0), i(1), i(-1), S::Pi];
    let tos = vec![i(0), i(1), S::Pi, v("a"), bi(Bi::Add, v("a"), i(1)), q(-1, 1, 2)];
    // points that mention the tree's own letters, the limit variable included
    let symbolic = vec![
        v("a"),
        v("x"),
        v("y"),
        un(Un::Neg, v("a")),
        bi(Bi::Add, v("a"), i(1)),
        bi(Bi::Mul, v("a"), v("y")),
        bi(Bi::Sub, v("a"), v("x")),
        un(Un::Sin, v("a")),
        bi(Bi::Div, i(1), v("a")),
    ];
    let mut l = quotients();
    let mut more = vec![];
    for s in l.iter().take(400) {
        for u in [Un::Exp, Un::Ln] {
            more.push(un(u, s.clone()));
            more.push(bi(Bi::Add, un(u, s.clone()), v("x")));
        }
        more.push(bi(Bi::Pow, s.clone(), i(2)));
        more.push(bi(Bi::Pow, i(2), s.clone()));
    }
    l.extend(more);
    let sp = spine_list(&[v("x"), i(1)], &[v("x"), i(2), v("y")], &TRIG, &[Bi::Add, Bi::Sub, Bi::Mul], 2, &[t.pick(14, 30)]);
    vec![
        lim_space("trees", leaves, &UNS, &BIS, t.pick(5, 6), tos, vec![0, 1, 2], c17_total),
        lim_space("symbolic points", vec![v("x"), v("a"), i(1), i(2)], &UNS, &BIS, 4, symbolic.clone(), vec![0, 1, 2], c17_total),
        lim_space("symbolic points, arithmetic", vec![v("x"), v("a"), i(1)], &[Un::Neg], &ARITH, 5, symbolic, vec![1], c17_total),
        lim_space("one variable", vec![v("x"), i(2), i(0)], &UNS, &BIS, t.pick(6, 7), vec![i(0), i(1), v("a")], vec![1, 2], c17_total),
        lim_space("without division", vec![v("x"), i(1), i(-2)], &TRIG, &[Bi::Add, Bi::Sub, Bi::Mul], t.pick(8, 9), points_exact(), vec![0], c17_total),
        lim_space("with division", vec![v("x"), i(1)], &TRIG, &ARITH, t.pick(8, 9), vec![i(0), i(1)], vec![1, 2], c17_total),
        lim_space("rational functions", vec![v("x"), i(1)], &[Un::Neg], &ARITH, t.pick(8, 9), vec![i(0), i(1)], vec![1, 2, 3], c17_total),
        lim_list("quotients", "quotients with known orders of vanishing, in context", l, points_exact(), vec![0, 1, 2, 3], c17_total),
        lim_space("of small expressions", limit_units(), &[Un::Neg], &ARITH, t.pick(5, 5), vec![i(0), i(1), v("a")], vec![0, 1, 2], c17_total),
        lim_space("of four small expressions", limit_units().into_iter().take(8).collect(), &[], &ARITH, 7, vec![i(0)], vec![1], c17_total),
        lim_roles("other names", vec![v("x"), v("y"), i(1), i(2)], &UNS, &BIS, t.pick(5, 6), vec![i(0), i(1), v("a"), v("y")], 1, c17_total),
        lim_list("high order zeros", "quotients of powers up to the sixth", towers(), vec![i(0), i(1)], (0..=t.pick(8, 12)).collect(), c17_total),
        lim_list("many steps", "the same quotients with generous step allowances", towers(), vec![i(0)], t.pick(vec![16, 40], vec![16, 33, 64, 100]), c17_total),
        lim_list("cancelling waves", "quotients of sums of sines and cosines that vanish to orders up to 17", cancelling_quotients(t.pick(14, 17)), vec![i(0)], (0..=20).collect(), c17_total),
        lim_list("deep", "nestings of every pattern of two wrappings", sp, vec![i(0), i(1), v("a")], vec![1], c17_total),
        lim_list("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[9, 11], &[9, 11, 13])), vec![i(0), i(1), v("a")], vec![1], c17_total),
        lim_list("very deep", "nestings of every single wrapping", very_deep(&UNS, &[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[64, 280], &[64, 280, 530])), vec![i(0), i(1), v("a")], vec![1], c17_total),
        lim_list("deep quotients", "nestings of every single wrapping by a quotient", very_deep(&[], &[Bi::Div], t.pick(&[12, 33], &[12, 33, 64])), vec![i(0), i(1), v("a")], vec![0, 1, 2], c17_total),
        lim_list("many variables", "chains and balanced trees of up to 18 different variables", many_list(&ARITH, &[3, 9, 18]).into_iter().map(|s| s.rename(&[("v2", "x")])).collect(), vec![i(0), i(1), v("v1"), v("v40")], vec![1], c17_total),
        lim_list("wide", "complete binary trees", balanced_list(&ARITH, t.pick(&[3, 4], &[3, 4, 5])), vec![i(0), i(1), q(-1, 1, 2), v("a")], vec![0, 1], c17_total),
        lim_list("number ladder", "every number up to 60 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(60, t.pick(12, 2))), vec![i(0), i(1), q(-1, 1, 2), v("a")], vec![1], c17_total),
        lim_list("point ladder", "every eighth quotient at every number up to 100 and others that stand out", quotients().into_iter().step_by(t.pick(8, 2)).collect(), number_ladder(100, t.pick(10, 1)), vec![1], c17_total),
        lim_list("look-alikes", "different expressions with the same text under every operator", alike_short(), vec![i(0), i(1), v("pi"), v("0")], vec![1], c17_total),
        lim_list("near the constants", "numbers next to 0, 1, pi and e around the variable", near_around(), near_nums(), vec![1], c17_total),
    ]
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["reference behaviour near the point comes from truncated Laurent series over exact rationals or outward-rounded intervals (14 terms), with bounded oscillation followed separately"];
    vec![
        Prop { id: "C15", rule: "every tree x point x number of L'Hopital attempts is one case; an answer is compared with the reference behaviour", assumptions: A, spaces: c15 },
        Prop { id: "C16", rule: "every pair (and triple) of limit classes and operators is one case, compared with every pair of representative functions", assumptions: A, spaces: c16 },
        Prop { id: "C17", rule: "every tree x point x number of attempts is one case; it must return, and find the limit in the listed easy cases", assumptions: A, spaces: c17 },
    ]
}
