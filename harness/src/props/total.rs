//! C22: every computation returns, with reasonable work.
use super::*;
use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::verif_hook;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
use crate::engine::guarded;
use crate::sched::{cpu_time, work};
use crate::smart_num::rational::ToRational;
use crate::smart_num::ToSmartNum;

/// Numbers of every extreme kind.
pub fn extremes() -> Vec<S> {
    let r = S::Real;
    vec![
        r(f64::INFINITY),
        r(f64::NEG_INFINITY),
        r(f64::NAN),
        r(-0.0),
        r(0.0),
        r(f64::MAX),
        r(f64::MIN),
        r(f64::MIN_POSITIVE),
        r(5e-324),
        r(1e18),
        r(-9.3e18),
        r(1.9e19),
        i(i64::MAX),
        i(i64::MIN),
        i(i64::MIN + 1),
        q(1, u64::MAX, 1),
        q(-1, u64::MAX, 2),
        q(1, 1, u64::MAX),
        q(-1, 1, u64::MAX),
        q(1, u64::MAX, u64::MAX - 1),
        q(1, 0, u64::MAX),
        q(-1, 0, 1),
        q(-1, 1 << 63, 1),
        q(1, 1 << 63, 3),
        i(0),
        i(1),
        i(-1),
        S::Pi,
    ]
}

pub const OPS: &[&str] = &["simplify", "text", "derivative", "second derivative", "mixed derivative", "substitute", "expand", "limit", "number", "copy"];

/// One computation; whether it succeeded.
pub fn compute(k: usize, e: Expression, at: &Expression) -> bool {
    let x = Variable::new_variable("x");
    let y = Variable::new_variable("y");
    match k {
        0 => {
            e.num_aggregate();
            true
        }
        1 => !e.to_string().is_empty(),
        2 => e.derivative(&x).is_ok(),
        3 => e.derivative(&x).and_then(|d| d.derivative(&x)).is_ok(),
        4 => e.derivative(&x).and_then(|d| d.derivative(&y)).is_ok(),
        5 => e.substitute(&x, at).map(|e| e.num_aggregate()).is_ok(),
        6 => e.taylor_expansion(&x, at, 2).map(|p| p.to_string()).is_ok(),
        7 => {
            let _ = verif_hook::limit_of_variable(e, &x, at.clone(), 2);
            true
        }
        8 => {
            let _ = e.near(at, 1e-3);
            let number = matches!(e.root, AstNode::Operand(AstOperand::Num(_)));
            let n = e.to_smart_num();
            if let Ok(n) = &n {
                n.to_string();
                (n.to_i64(), n.to_f64(), n.to_rational(), n.sign());
            }
            n.is_ok() || !number
        }
        _ => {
            let _ = e.clone();
            true
        }
    }
}

fn returns(s: &S, ats: &[S], c: &mut Ctx) {
    let e = s.build();
    for at in ats {
        let a = at.build();
        for (k, what) in OPS.iter().enumerate() {
            if k < 5 && at != &ats[0] {
                continue;
            }
            c.step();
            match guarded(|| compute(k, e.clone(), &a)) {
                Err(m) => return c.fail(format!("{what} of {} (with {})", s.key(), at.key()), format!("crashed: {m}")),
                Ok(false) => return c.fail(format!("{what} of {} (with {})", s.key(), at.key()), "refused"),
                Ok(true) => c.ok(),
            }
        }
    }
    c.state(s.hash());
    c.sample(|| s.key());
}

/// The power of the size that the work may at most grow with.
const POWER: f64 = 4.5;
/// Seconds of the processor that are too many for any of them (at most 0.03 are taken in the quick sizes,
/// 0.2 in the thorough ones).
const SLOW: f64 = 3.0;
/// Below this, work counts as none.
const LITTLE: u64 = 300;

fn has_div(s: &S) -> bool {
    match s {
        S::U(_, a) => has_div(a),
        S::B(o, a, b) => *o == Bi::Div || has_div(a) || has_div(b),
        _ => false,
    }
}

/// Nestings of growing size.
fn growth(shape: &dyn Fn(usize) -> S, c: &mut Ctx, sizes: &[usize]) {
    let at = i(1).build();
    for k in [0, 1, 2, 5, 7, 9] {
        if OPS[k] == "limit" && has_div(&shape(sizes[0])) {
            continue;
        }
        let mut last: Option<(usize, u64)> = None;
        for n in sizes {
            let s = shape(*n);
            let size = s.size();
            let e = s.build();
            c.step();
            let t = cpu_time();
            let (r, w) = work(|| guarded(|| compute(k, e, &at)));
            let t = cpu_time() - t;
            let key = || format!("{} of {}", OPS[k], s.key()).chars().take(400).collect::<String>();
            if let Err(m) = r {
                return c.fail(key(), format!("crashed: {m}"));
            }
            if t > SLOW {
                return c.fail(key(), format!("{t:.1} s of the processor for {size} nodes"));
            }
            let w = w.max(LITTLE);
            if let Some((ps, pw)) = last {
                let most = pw as f64 * (size as f64 / ps as f64).powf(POWER);
                if w as f64 > most {
                    return c.fail(key(), format!("{w} pieces of memory for {size} nodes after {pw} for {ps}"));
                }
            }
            last = Some((size, w));
            c.ok();
        }
    }
    c.state(shape(sizes[0]).hash());
}

type Shape = (String, Box<dyn Fn(usize) -> S + Send + Sync>);

/// Long thin nestings, of period one or two.
fn spines() -> Vec<Shape> {
    let mut out: Vec<Shape> = vec![];
    let sides = vec![v("y"), v("x"), i(0), i(1), i(2), i(-2), q(-1, 1, 2), S::Real(1.5), S::Pi, un(Un::Sin, v("x")), bi(Bi::Add, v("x"), v("y"))];
    let w = wraps(&UNS, &BIS, sides.len());
    for p in w.iter() {
        for q in w.iter() {
            let (p, q, sides) = (*p, *q, sides.clone());
            let one = spine(&v("x"), &sides, &[p, q], 2);
            out.push((one.key(), Box::new(move |n| spine(&v("x"), &sides, &[p, q], n))));
        }
    }
    out
}

/// Full trees with one operator for every level, repeated every three levels.
fn bushes() -> Vec<Shape> {
    fn grow(ops: &[Result<Bi, Un>], level: usize, leaves: &[S], next: &mut usize) -> S {
        if level == 0 {
            *next += 1;
            return leaves[*next % leaves.len()].clone();
        }
        match ops[level % ops.len()] {
            Ok(o) => {
                let a = grow(ops, level - 1, leaves, next);
                bi(o, a, grow(ops, level - 1, leaves, next))
            }
            Err(o) => un(o, grow(ops, level - 1, leaves, next)),
        }
    }
    let ops: Vec<Result<Bi, Un>> = BIS.iter().map(|o| Ok(*o)).chain(UNS.iter().map(|o| Err(*o))).collect();
    let mut out: Vec<Shape> = vec![];
    for leaves in [vec![v("x")], vec![v("x"), v("y"), i(2)], vec![i(1), v("x"), i(0), q(1, 1, 2)]] {
        for a in &ops {
            for b in &ops {
                for c in &ops {
                    let some = [*a, *b, *c];
                    let wide = some.iter().filter(|o| o.is_ok()).count();
                    if wide == 0 {
                        continue;
                    }
                    let leaves = leaves.clone();
                    let f = move |n: usize| grow(&some, 3 * n / wide, &leaves, &mut 0);
                    out.push((f(1).key(), Box::new(f)));
                }
            }
        }
    }
    out
}

fn grown(name: &str, bound: &str, shapes: Vec<Shape>, sizes: &'static [usize]) -> Space {
    let sh = Arc::new(shapes);
    let sh2 = sh.clone();
    Space::new(
        name,
        &format!("{bound}, of sizes {sizes:?}"),
        sh.len() as u64,
        move |k| sh2[k as usize].0.clone(),
        move |k, c| growth(&*sh[k as usize].1, c, sizes),
    )
}

fn spaces(t: Tier) -> Vec<Space> {
    let mut leaves = vec![v("x"), v("y")];
    leaves.extend(extremes());
    let mut few = vec![v("x"), S::Real(f64::INFINITY), S::Real(f64::NAN), i(0), i(i64::MIN), q(1, u64::MAX, 2)];
    if t == Tier::Thorough {
        few.push(i(1));
    }
    let ats = Arc::new(leaves.clone());
    let some: Arc<Vec<S>> = Arc::new(vec![i(0), i(i64::MIN), S::Real(f64::NAN), S::Real(f64::INFINITY), q(-1, u64::MAX, 2), v("y"), bi(Bi::Div, i(1), i(0))]);
    let some2 = some.clone();
    vec![
        tree_space("extreme numbers", leaves, &UNS, &BIS, 3, Arc::new(move |s, c| returns(s, &ats, c))),
        tree_space("trees", few, &UNS, &BIS, t.pick(5, 6), Arc::new(move |s, c| returns(s, &some, c))),
        grown("thin nestings", "nestings of every operator in every other, with eleven side operands", spines(), t.pick(&[8, 16, 32, 64], &[8, 16, 32, 64, 128])),
        grown("full trees", "full trees with any three operators by turns", bushes(), t.pick(&[3, 5, 7], &[3, 5, 7, 9])),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "every expression (with every other operand for those that take one) is one case: each kind of computation on it must return and, where its arguments are well formed, succeed; every shape of expression is one case, built in growing sizes: the pieces of memory taken and given back may grow at most like size to the 4.5",
        assumptions: &["work is judged by the allocations and releases of memory; what takes none of them only by three seconds of the processor for one computation, and by the engine's limit on time"],
        spaces,
    }]
}
