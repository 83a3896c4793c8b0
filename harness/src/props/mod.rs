//! The properties: what is enumerated, and what is checked on every case.

pub mod c19;
pub mod exprs;
pub mod keep;
pub mod limits;
pub mod misc;
pub mod names;
pub mod numbers;
pub mod taylor;
pub mod text;
pub mod total;

use crate::engine::{Ctx, Prop, Space, Tier};
use crate::oracle::eval::Env;
use crate::oracle::val::*;
use crate::spec::*;
use std::sync::Arc;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(numbers::props());
    v.extend(exprs::props());
    v.extend(taylor::props());
    v.extend(text::props());
    v.extend(total::props());
    v.extend(limits::props());
    v.extend(misc::props());
    v.extend(names::props());
    v.extend(keep::props());
    v.push(c19::prop());
    v.sort_by_key(|p| p.id);
    v
}

// ------------------------------------------------------------------ alphabets

/// Leaves of every kind, simplest first.
pub fn full_leaves() -> Vec<S> {
    vec![
        v("x"),
        v("y"),
        i(0),
        i(1),
        i(2),
        i(-1),
        S::Pi,
        S::E,
        q(1, 1, 2),
        q(-1, 3, 2),
        S::Real(0.5),
    ]
}
pub fn mid_leaves() -> Vec<S> {
    vec![v("x"), v("y"), i(0), i(1), i(2)]
}
pub fn slim_leaves() -> Vec<S> {
    vec![v("x"), i(2), i(0), i(1)]
}
pub fn num_leaves() -> Vec<S> {
    vec![i(0), i(1), i(2), i(-3), q(1, 1, 2), q(-1, 4, 6), S::Real(0.5), S::Pi]
}

/// Points (x, y, z) used to compare values: zero, one, negative, fractional and
/// irrational coordinates, in every role.
pub fn grid() -> Vec<Vec<(&'static str, V)>> {
    let r = rat;
    let irr = |f: f64| V::I(f.next_down(), f.next_up());
    [
        (r(3, 7), r(5, 3)),
        (r(-5, 3), r(2, 7)),
        (r(2, 1), r(-3, 5)),
        (r(0, 1), r(5, 3)),
        (r(7, 4), r(0, 1)),
        (r(1, 1), r(2, 1)),
        (r(2, 1), r(1, 1)),
        (r(-1, 1), r(-1, 2)),
        (r(1, 2), r(3, 1)),
        (irr(std::f64::consts::SQRT_2), irr(-0.577_215_664_901_532_9)),
        (V::P(1, 2), V::P(-1, 3)),
    ]
    .iter()
    .enumerate()
    .map(|(k, (x, y))| {
        let mut e = vec![("x", *x), ("y", *y), ("z", r(11, 13)), ("a", r(4, 9)), ("b", r(8, 5))];
        for (j, n) in LONG.iter().enumerate() {
            e.push((n, r(3 + 2 * j as i64 + k as i64, 9)));
        }
        for (j, n) in ["c", "t", "u", "X", "xx", "xy", "x1", "x_1", "theta", "n", "\u{3bb}"].iter().enumerate() {
            e.push((n, r(2 + j as i64 + k as i64, 7)));
        }
        for (j, n) in ALIKE.iter().enumerate() {
            e.push((n, r(5 + 3 * j as i64 - 2 * k as i64, 11)));
        }
        for (j, n) in MANY.iter().enumerate() {
            e.push((n, r([2, -3, 1, 5, 4][(j + k) % 5] + (j % 3) as i64, [3, 2, 5, 4][(j / 2 + k) % 4])));
        }
        for (j, n) in crate::spec::crowd().iter().enumerate() {
            e.push((n, r(90 + (7 * j + 5 * k) as i64 % 101, 140)));
        }
        e
    })
    .collect()
}

/// A smaller grid, for costly per-case work.
pub fn small_grid() -> Vec<Vec<(&'static str, V)>> {
    let g = grid();
    [0usize, 1, 2, 3, 4, 7].iter().map(|k| g[*k].clone()).collect()
}

/// What the operated variable and the bystander are called: every role swapped,
/// names that contain each other, other letters, other scripts.
pub const ROLES: &[(&str, &str)] = &[
    ("y", "x"),
    ("t", "x"),
    ("a", "b"),
    ("xx", "x"),
    ("x", "xx"),
    ("x1", "x"),
    ("x", "x1"),
    ("X", "x"),
    ("x_1", "xy"),
    ("theta", "t"),
    ("n", "u"),
    ("\u{3bb}", "y"),
    (LONG[0], LONG[1]),
    (LONG[3], LONG[2]),
    (LONG[4], LONG[5]),
    (LONG[7], LONG[6]),
    (LONG[8], LONG[9]),
    (LONG[10], LONG[11]),
];

/// `x` and `y` (and a point's `a`) renamed into the roles.
pub fn in_roles(s: &S, k: usize) -> S {
    let (var, other) = ROLES[k];
    s.rename(&[("x", var), ("y", other), ("a", if var == "a" || other == "a" { "c" } else { "a" })])
}

pub fn show_env(env: Env, s: &S) -> String {
    let mut vs = vec![];
    s.vars(&mut vs);
    env.iter()
        .filter(|(n, _)| vs.contains(n))
        .map(|(n, v)| format!("{n}={}", v.show()))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn show_res(r: &Res) -> String {
    match r {
        Ok(v) => v.show(),
        Err(No::Undef) => "undefined".into(),
        Err(No::Unk) => "undecided".into(),
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(23) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

// --------------------------------------------------------------- tree spaces

pub type TreeCheck = Arc<dyn Fn(&S, &mut Ctx) + Send + Sync>;

pub fn tree_space(name: &str, leaves: Vec<S>, uns: &[Un], bis: &[Bi], max: usize, f: TreeCheck) -> Space {
    let bound = format!(
        "every tree of at most {max} nodes over leaves {{{}}} and operators {uns:?} {bis:?}",
        leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", ")
    );
    let g = Arc::new(Grammar::new(leaves, uns, bis, max));
    let g2 = g.clone();
    Space::new(
        name,
        &bound,
        g.count_upto(max),
        move |k| g2.tree_upto(max, k).key(),
        move |k, c| f(&g.tree_upto(max, k), c),
    )
}

/// Pick combinations of three operators out of a window of the operator list,
/// so that deep nestings of any triple are covered with larger trees.
pub fn list_space(name: &str, bound: &str, list: Vec<S>, f: TreeCheck) -> Space {
    let l = Arc::new(list);
    let l2 = l.clone();
    Space::new(name, bound, l.len() as u64, move |k| l2[k as usize].key(), move |k, c| f(&l[k as usize], c))
}

/// Deep nestings: every repeated pattern of one or two wrappings around a base.
pub fn spine_list(bases: &[S], sides: &[S], uns: &[Un], bis: &[Bi], pat: usize, depths: &[usize]) -> Vec<S> {
    let w = wraps(uns, bis, sides.len());
    let mut out = vec![];
    for d in depths {
        for b in bases {
            for p in &w {
                out.push(spine(b, sides, &[*p], *d));
                if pat > 1 {
                    for q in &w {
                        out.push(spine(b, sides, &[*p, *q], *d));
                    }
                }
            }
        }
    }
    out
}

/// Complete binary trees: two operators by level, leaves in a cycle, and with a
/// single odd leaf at chosen places.
pub fn balanced_list(bis: &[Bi], depths: &[usize]) -> Vec<S> {
    fn full(d: usize, k: usize, ops: &[Bi], leaf: &dyn Fn(usize) -> S) -> S {
        if d == 0 {
            return leaf(k);
        }
        bi(ops[d % ops.len()], full(d - 1, 2 * k, ops, leaf), full(d - 1, 2 * k + 1, ops, leaf))
    }
    let (x, y) = (v("x"), v("y"));
    let cycles: Vec<Vec<S>> = vec![
        vec![x.clone()],
        vec![x.clone(), y.clone()],
        vec![x.clone(), i(1)],
        vec![i(0), x.clone()],
        vec![i(2), x.clone(), y.clone()],
        vec![x.clone(), x.clone(), y.clone(), q(-1, 1, 2)],
        vec![i(1), i(2), q(1, 1, 2)],
    ];
    let mut out = vec![];
    for d in depths {
        for a in bis {
            for b in bis {
                for c in &cycles {
                    out.push(full(*d, 0, &[*a, *b], &|k| c[k % c.len()].clone()));
                }
                let n = 1usize << d;
                for at in [0, 1, n / 2 - 1, n / 2, n - 2, n - 1] {
                    out.push(full(*d, 0, &[*a, *b], &|k| if k == at { x.clone() } else { y.clone() }));
                    out.push(full(*d, 0, &[*a, *b], &|k| if k == at { y.clone() } else { x.clone() }));
                }
            }
        }
    }
    out
}

/// Complete binary trees of thousands of leaves.
pub fn huge_list(bis: &[Bi], depths: &[usize]) -> Vec<S> {
    fn full(d: usize, k: usize, ops: &[Bi], leaf: &dyn Fn(usize) -> S) -> S {
        if d == 0 {
            return leaf(k);
        }
        bi(ops[d % ops.len()], full(d - 1, 2 * k, ops, leaf), full(d - 1, 2 * k + 1, ops, leaf))
    }
    let (x, y) = (v("x"), v("y"));
    let mut out = vec![];
    for d in depths {
        let n = 1usize << d;
        for a in bis {
            for b in bis {
                let ops = [*a, *b];
                for c in [vec![x.clone(), y.clone()], vec![i(1), i(2), x.clone()]] {
                    out.push(full(*d, 0, &ops, &|k| c[k % c.len()].clone()));
                }
                for at in [0, n / 2, n - 1] {
                    out.push(full(*d, 0, &ops, &|k| if k == at { x.clone() } else { i(1) }));
                    out.push(full(*d, 0, &ops, &|k| if k == at { i(2) } else { y.clone() }));
                }
            }
        }
    }
    // in the context of neutral and absorbing numbers
    for d in depths {
        let big = full(*d, 0, &[bis[0], bis[bis.len() - 1]], &|k| if k % 2 == 0 { x.clone() } else { y.clone() });
        for o in BIS {
            for n in [i(0), i(1), i(2)] {
                out.push(bi(o, n.clone(), big.clone()));
                out.push(bi(o, big.clone(), n));
            }
        }
        for f in UNS {
            out.push(un(f, big.clone()));
            out.push(un(Un::Neg, un(f, un(Un::Neg, big.clone()))));
            out.push(un(f, un(Un::Ln, big.clone())));
            out.push(un(f, un(Un::Exp, big.clone())));
        }
    }
    out
}

/// Sums and products of hundreds of different variables.
pub fn crowd_list(bis: &[Bi], counts: &[usize]) -> Vec<S> {
    fn full(l: &[S], d: usize, ops: &[Bi]) -> S {
        if l.len() == 1 {
            return l[0].clone();
        }
        let m = l.len() / 2;
        bi(ops[d % 2], full(&l[..m], d + 1, ops), full(&l[m..], d + 1, ops))
    }
    let mut out = vec![];
    for n in counts {
        let l: Vec<S> = crate::spec::crowd()[..*n].iter().map(|n| v(n)).collect();
        for a in bis {
            for b in bis {
                let ops = [*a, *b];
                let mut left = l[0].clone();
                for k in 1..*n {
                    left = bi(ops[k % 2], left, l[k].clone());
                }
                out.push(left);
                out.push(full(&l, 0, &ops));
            }
        }
    }
    out
}

/// Combinations of many different variables: chains from the left and from the
/// right and balanced trees of every pattern of two operators.
pub fn many_list(bis: &[Bi], counts: &[usize]) -> Vec<S> {
    fn full(l: &[S], d: usize, ops: &[Bi]) -> S {
        if l.len() == 1 {
            return l[0].clone();
        }
        let m = l.len() / 2;
        bi(ops[d % 2], full(&l[..m], d + 1, ops), full(&l[m..], d + 1, ops))
    }
    let mut out = vec![];
    for n in counts {
        let names: Vec<S> = MANY[..*n].iter().map(|n| v(n)).collect();
        let wrapped: Vec<S> = (0..*n)
            .map(|k| match k % 4 {
                0 => un(Un::Sin, names[k].clone()),
                1 => un(Un::Neg, names[k].clone()),
                2 => names[k].clone(),
                _ => bi(Bi::Mul, i(2), names[k].clone()),
            })
            .collect();
        for l in [&names, &wrapped] {
            for a in bis {
                for b in bis {
                    let ops = [*a, *b];
                    let mut left = l[0].clone();
                    let mut right = l[*n - 1].clone();
                    for k in 1..*n {
                        left = bi(ops[k % 2], left, l[k].clone());
                        right = bi(ops[k % 2], l[*n - 1 - k].clone(), right);
                    }
                    out.push(left);
                    out.push(right);
                    out.push(full(l, 0, &ops));
                }
            }
        }
    }
    out
}

/// Very deep nestings of every single wrapping.
pub fn very_deep(uns: &[Un], bis: &[Bi], depths: &[usize]) -> Vec<S> {
    spine_list(&[v("x"), i(1)], &[v("y"), v("x"), i(0), i(1), i(2)], uns, bis, 1, depths)
}

/// Numbers next to the special ones (0, 1, pi, e) and special values in other
/// guises.
pub fn near_nums() -> Vec<S> {
    use std::f64::consts::{E, PI};
    const T: u64 = 1_000_000_000_000;
    vec![
        q(1, 22, 7),
        q(1, 355, 113),
        q(-1, 355, 113),
        q(1, 103_993, 33_102),
        q(1, 314_159, 100_000),
        S::Real(PI),
        S::Real(-PI),
        S::Real(3.141_592_6),
        S::Real(PI / 2.0),
        S::Real(2.0 * PI),
        q(1, 19, 7),
        q(1, 1457, 536),
        q(1, 25_946, 9_545),
        q(1, 271_828, 100_000),
        S::Real(E),
        S::Real(2.718_281_8),
        S::Real(1e-10),
        S::Real(-1e-10),
        S::Real(1e-12),
        q(1, 1, T),
        q(-1, 1, T),
        q(1, 1, u64::MAX),
        q(1, T + 1, T),
        q(1, T - 1, T),
        q(-1, T + 1, T),
        q(1, u64::MAX, u64::MAX - 1),
        S::Real(1.0 + 1e-10),
        S::Real(1.0 - 1e-10),
        S::Real(1.0),
        S::Real(-1.0),
        S::Real(2.0),
        i(2),
        q(1, 2, 1),
        q(1, 4, 2),
        q(-1, 2, 2),
        q(1, 999, 1000),
        q(1, 1, 1000),
        i(-1),
        S::Pi,
        S::E,
        i(0),
        i(1),
    ]
}

/// Different expressions that look alike: numbers beyond the three decimals
/// shown, variables that are called like something else.
pub fn alike_pairs() -> Vec<(S, S)> {
    let r = S::Real;
    let mut l = vec![
        (r(0.5001), r(0.5004)),
        (r(0.5), r(0.5002)),
        (r(-0.5001), r(-0.5004)),
        (r(1.0), r(1.0004)),
        (r(1.0), r(0.9996)),
        (r(0.0), r(0.0004)),
        (r(0.0004), r(1e-9)),
        (r(1e-3), r(1.2e-3)),
        (r(1e6), r(1e6 + 0.0003)),
        (r(std::f64::consts::PI), r(3.1416)),
        (r(2.0), r(2.0003)),
    ];
    let x = || v("x");
    let forms = [
        ("pi", S::Pi),
        ("e", S::E),
        ("0", i(0)),
        ("1", i(1)),
        ("2", i(2)),
        ("-1", i(-1)),
        ("1/2", q(1, 1, 2)),
        ("0.500", r(0.5)),
        ("x + 1", bi(Bi::Add, x(), i(1))),
        ("x * y", bi(Bi::Mul, x(), v("y"))),
        ("sinx", un(Un::Sin, x())),
        ("-x", un(Un::Neg, x())),
        ("x ^ 2", bi(Bi::Pow, x(), i(2))),
        ("(x)", x()),
        ("x ", x()),
    ];
    for (n, s) in forms {
        l.push((v(n), s));
    }
    l
}

/// Every operator between look-alikes in the same context, alone, in either
/// order and inside a further operation.
pub fn alike_list() -> Vec<S> {
    alike_in(true)
}

/// The same without the further operation.
pub fn alike_short() -> Vec<S> {
    alike_in(false)
}

fn alike_in(further: bool) -> Vec<S> {
    let x = || v("x");
    let around: Vec<fn(S) -> S> = vec![
        |a| a,
        |a| bi(Bi::Mul, v("x"), a),
        |a| bi(Bi::Mul, a, v("x")),
        |a| bi(Bi::Add, v("x"), a),
        |a| bi(Bi::Sub, a, v("x")),
        |a| bi(Bi::Div, v("x"), a),
        |a| bi(Bi::Pow, v("x"), a),
        |a| un(Un::Sin, bi(Bi::Mul, a, v("x"))),
        |a| un(Un::Cos, a),
        |a| un(Un::Exp, a),
        |a| un(Un::Ln, bi(Bi::Add, bi(Bi::Mul, v("x"), v("x")), a)),
        |a| un(Un::Neg, bi(Bi::Mul, a, v("x"))),
    ];
    let mut out = vec![];
    for (a, b) in alike_pairs() {
        for f in &around {
            for o in BIS {
                for (a, b) in [(&a, &b), (&b, &a)] {
                    let p = bi(o, f(a.clone()), f(b.clone()));
                    if further {
                        for o2 in [Bi::Add, Bi::Mul, Bi::Div] {
                            out.push(bi(o2, p.clone(), x()));
                            out.push(bi(o2, v("y"), p.clone()));
                            out.push(bi(o2, f(a.clone()), p.clone()));
                            out.push(bi(o2, p.clone(), f(b.clone())));
                        }
                        for u in UNS {
                            out.push(un(u, p.clone()));
                        }
                    }
                    out.push(p);
                }
            }
        }
    }
    out
}

/// Powers of numbers: every small base with exponents up to and beyond the
/// range where the power fits, negative and fractional ones included; and
/// functions of multiples and fractions of the constants.
pub fn number_powers() -> Vec<S> {
    let bases = [
        i(0), i(1), i(2), i(3), i(4), i(5), i(7), i(8), i(9), i(10), i(16), i(27), i(100), i(-1), i(-2), i(-3), i(-8), i(-27), q(1, 1, 2), q(-1, 1, 2),
        q(1, 3, 2), q(-1, 2, 3), q(1, 4, 9), q(1, 1, 10), q(1, 2, 4), i(1 << 31), i(3_037_000_500), i(i64::MAX), i(i64::MIN), q(1, u64::MAX, 2), S::Pi,
        S::E, S::Real(0.5), S::Real(-1.5), S::Real(2.0),
    ];
    let mut exps: Vec<S> = (-70..=70).map(i).collect();
    exps.extend([i(127), i(128), i(1023), i(1024), i(-1074), i(1 << 32), i(i64::MAX), i(i64::MIN)]);
    for d in 2..=5u64 {
        for n in 0..=7u64 {
            exps.push(q(1, n, d));
            exps.push(q(-1, n, d));
        }
    }
    exps.extend([S::Real(2.0), S::Real(0.5), S::Real(-3.0), S::Pi, S::E]);
    let mut out = vec![];
    for b in &bases {
        for e in &exps {
            let p = bi(Bi::Pow, b.clone(), e.clone());
            out.push(bi(Bi::Mul, v("x"), p.clone()));
            out.push(bi(Bi::Pow, bi(Bi::Pow, v("x"), b.clone()), e.clone()));
            out.push(p);
        }
    }
    for c in [S::Pi, S::E, v("x")] {
        for n in -12..=12i64 {
            for d in 1..=6i64 {
                let forms = [
                    bi(Bi::Div, bi(Bi::Mul, i(n), c.clone()), i(d)),
                    bi(Bi::Mul, bi(Bi::Div, i(n), i(d)), c.clone()),
                    bi(Bi::Mul, c.clone(), q(n.signum().min(0) * 2 + 1, n.unsigned_abs(), d as u64)),
                    bi(Bi::Add, bi(Bi::Div, c.clone(), i(d)), i(n)),
                    bi(Bi::Sub, i(n), bi(Bi::Div, c.clone(), i(d))),
                    bi(Bi::Pow, c.clone(), bi(Bi::Div, i(n), i(d))),
                ];
                for f in forms {
                    for u in UNS {
                        out.push(un(u, f.clone()));
                        out.push(bi(Bi::Pow, un(u, f.clone()), i(2)));
                        for u2 in UNS {
                            out.push(un(u2, un(u, f.clone())));
                        }
                    }
                }
            }
        }
    }
    out
}

/// Numbers at and around every power of two, as integers and fractions.
pub fn edge_u64() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 10];
    for k in [8u32, 15, 16, 20, 31, 32, 33, 47, 52, 53, 54, 61, 62, 63] {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 2, 3_037_000_499, 3_037_000_500, 4_294_967_291, 6_700_417]);
    v.sort();
    v.dedup();
    v
}
pub fn edge_i64() -> Vec<i64> {
    let mut v: Vec<i64> = edge_u64().into_iter().filter_map(|u| i64::try_from(u).ok()).collect();
    let n: Vec<i64> = v.iter().map(|k| -k).collect();
    v.extend(n);
    v.push(i64::MIN);
    v.push(i64::MIN + 1);
    v.sort_by_key(|k| (k.unsigned_abs(), *k < 0));
    v.dedup();
    v
}

/// Small expressions that take the place of leaves.
pub fn units() -> Vec<S> {
    let (x, y) = (|| v("x"), || v("y"));
    vec![
        x(),
        y(),
        i(2),
        q(-1, 1, 2),
        un(Un::Sin, x()),
        un(Un::Cos, x()),
        un(Un::Exp, x()),
        un(Un::Ln, x()),
        un(Un::Sin, y()),
        un(Un::Exp, y()),
        un(Un::Ln, y()),
        un(Un::Neg, x()),
        bi(Bi::Pow, x(), i(2)),
        bi(Bi::Div, i(1), x()),
        bi(Bi::Mul, x(), y()),
        bi(Bi::Add, x(), i(1)),
        un(Un::Exp, un(Un::Neg, x())),
        un(Un::Sin, bi(Bi::Mul, i(2), x())),
    ]
}

pub fn few_units() -> Vec<S> {
    let (x, y) = (|| v("x"), || v("y"));
    vec![x(), i(2), un(Un::Sin, x()), un(Un::Cos, x()), un(Un::Exp, x()), un(Un::Ln, x()), un(Un::Sin, y())]
}

/// Larger trees whose leaves are small expressions already.
pub fn unit_spaces(few: usize, f: &TreeCheck) -> Vec<Space> {
    vec![
        tree_space("of small expressions", units(), &UNS, &BIS, 5, f.clone()),
        tree_space("of four small expressions", few_units(), &[], &BIS, few, f.clone()),
    ]
}

/// Every number up to `top` and every step-th one that stands out, as integer, fraction and real.
pub fn number_ladder(top: u64, step: usize) -> Vec<S> {
    let mut l = vec![];
    for k in (2..=top).chain(numbers::landmarks().into_iter().filter(|m| *m > top).step_by(step)) {
        if let Ok(n) = i64::try_from(k) {
            l.extend([i(n), i(-n)]);
        }
        l.extend([q(1, 1, k), q(-1, k, 7), q(1, k, k - 1), S::Real(k as f64 - 0.25)]);
    }
    l
}

/// These numbers in small expressions.
pub fn around(nums: &[S]) -> Vec<S> {
    let x = || v("x");
    let mut l = vec![];
    for n in nums {
        let n = || n.clone();
        for u in UNS {
            l.push(un(u, n()));
        }
        for u in [Un::Sin, Un::Cos, Un::Exp] {
            l.push(un(u, bi(Bi::Mul, n(), x())));
        }
        l.push(un(Un::Ln, bi(Bi::Add, x(), n())));
        for o in BIS {
            l.push(bi(o, x(), n()));
            l.push(bi(o, n(), x()));
            l.push(bi(o, n(), i(2)));
            l.push(bi(o, q(-1, 1, 2), n()));
        }
        for o in ARITH {
            l.push(bi(o, n(), n()));
            l.push(bi(Bi::Mul, v("y"), bi(o, x(), n())));
        }
        l.push(bi(Bi::Pow, bi(Bi::Add, x(), n()), i(2)));
        l.push(bi(Bi::Add, bi(Bi::Mul, n(), bi(Bi::Mul, x(), x())), n()));
    }
    l
}

/// Points for the statement of a bound.
pub fn show_points(l: &[S]) -> String {
    let few: Vec<String> = l.iter().take(40).map(|a| a.key()).collect();
    let rest = l.len() - few.len();
    format!("{{{}{}}}", few.join(", "), if rest > 0 { format!(" and {rest} more") } else { String::new() })
}
