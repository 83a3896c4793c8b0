//! C12, C13: Taylor expansions and their text.
use super::exprs::{the_grid, the_small_grid};
use super::*;
use crate::ast::op::operand::Variable;
use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};
use crate::engine::guarded;
use crate::oracle::eval::{eval, eval_impl, pow_ok};
use crate::oracle::series::series;
use crate::parse;

fn expand(s: &S, var: &str, at: &S, order: u64) -> Result<PartialExpansion, String> {
    match guarded(|| s.build().taylor_expansion(&Variable::new_variable(var), &at.build(), order)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(m) => Err(format!("crashed: {m}")),
    }
}

fn with(env: &[(&'static str, V)], var: &'static str, val: V) -> Vec<(&'static str, V)> {
    let mut e: Vec<_> = env.iter().filter(|(n, _)| *n != var).cloned().collect();
    e.push((var, val));
    e
}

/// Value of a coefficient times k!, a floating-point coefficient being taken
/// with a relative error only.
fn scaled(c: &S, env: &[(&'static str, V)], fact: &[V]) -> Res {
    let mut r = match c {
        S::Real(f) if f.is_finite() => {
            let w = 1e-9 * f.abs();
            iv(f - w, f + w)?
        }
        c => eval_impl(c, env)?,
    };
    for k in fact {
        r = mul(r, *k)?;
    }
    Ok(r)
}

fn c12_case(s: &S, var: &'static str, at: &S, order: u64, envs: &[Vec<(&'static str, V)>], c: &mut Ctx) {
    let key = || format!("{} in `{var}` at {} to order {order}", s.key(), at.key());
    c.step();
    let p = match expand(s, var, at, order) {
        Ok(p) => p,
        Err(e) => return c.fail(key(), e),
    };
    if p.order != order || read(&p.of) != v(var) || read(&p.at) != *at {
        return c.fail(key(), format!("reports order {}, variable {}, point {}", p.order, read(&p.of).key(), read(&p.at).key()));
    }
    if p.coefficient.len() as u64 != order + 1 {
        return c.fail(key(), format!("{} coefficients", p.coefficient.len()));
    }
    let cs: Vec<S> = p.coefficient.iter().map(read).collect();
    let res = read(&p.residual);
    if order <= 2 {
        // the other spelling of the same request
        match guarded(|| s.build().taylor_expansion(v(var).build(), at.build(), order)) {
            Err(m) => return c.fail(key(), format!("crashed when asked for with expressions: {m}")),
            Ok(Err(e)) => return c.fail(key(), format!("refused when asked for with expressions: {e}")),
            Ok(Ok(p)) => {
                let same = p.order == order && read(&p.of) == v(var) && read(&p.at) == *at && read(&p.residual) == res;
                if !same || p.coefficient.iter().map(read).ne(cs.iter().cloned()) {
                    return c.fail(
                        key(),
                        format!("asked for with expressions: order {}, variable {}, point {} and {} coefficients, not the same", p.order, read(&p.of).key(), read(&p.at).key(), p.coefficient.len()),
                    );
                }
            }
        }
    }
    if let Some(b) = cs.iter().find(|c| c.bad()) {
        return c.fail(key(), format!("malformed coefficient {}", b.key()));
    }
    let n = order as usize + 3;
    for env in envs {
        let pt = match eval(at, env) {
            Ok(pt) => pt,
            Err(_) => {
                c.skip();
                continue;
            }
        };
        let at_pt = with(env, var, pt);
        let ser = if eval(s, &at_pt).is_ok() && pow_ok(s, &at_pt) { series(s, &at_pt, var, n) } else { Err(No::Unk) };
        match ser {
            Ok(ser) if ser.v >= 0 => {
                let mut fact: Vec<V> = vec![];
                for (k, ck) in cs.iter().enumerate() {
                    if k > 1 {
                        fact.push(V::R(k as i64, 1));
                    }
                    let w = (|| -> Res {
                        let mut w = ser.coef(k as i32).ok_or(No::Unk)?;
                        for f in &fact {
                            w = mul(w, *f)?;
                        }
                        Ok(w)
                    })();
                    if w.is_err() {
                        c.skip();
                        continue;
                    }
                    // the coefficient may mention the variable only through the point
                    let g = scaled(ck, env, &fact);
                    match compare(w, g) {
                        Cmp::Equal => c.ok(),
                        Cmp::Skip => c.skip(),
                        Cmp::Vague => c.vague(),
                        Cmp::Differ => {
                            return c.fail(
                                key(),
                                format!(
                                    "coefficient {k} is {}; times {k}! it is {} but should be {} ({})",
                                    ck.key(),
                                    show_res(&g),
                                    show_res(&w),
                                    show_env(env, at)
                                ),
                            )
                        }
                    }
                }
            }
            _ => c.skip(),
        }
        // residual: the next derivative, as a function of the variable
        let w = (|| -> Res {
            eval(s, env)?;
            if !pow_ok(s, env) {
                return Err(No::Unk);
            }
            let ser = series(s, env, var, n)?;
            if ser.v < 0 {
                return Err(No::Undef);
            }
            let mut w = ser.coef(order as i32 + 1).ok_or(No::Unk)?;
            for k in 2..=order as i64 + 1 {
                w = mul(w, V::R(k, 1))?;
            }
            Ok(w)
        })();
        if w.is_ok() {
            let g = eval_impl(&res, env);
            match compare(w, g) {
                Cmp::Equal => c.ok(),
                Cmp::Skip => c.skip(),
                Cmp::Vague => c.vague(),
                Cmp::Differ => {
                    return c.fail(
                        key(),
                        format!("residual {} is {} but should be {} at {}", res.key(), show_res(&g), show_res(&w), show_env(env, s)),
                    )
                }
            }
        } else {
            c.skip();
        }
    }
    c.state(mix(mix(s.hash(), at.hash()), order));
    c.outcome(cs.iter().fold(1, |h, c| mix(h, c.hash())));
    c.sample(|| format!("{} -> {}", key(), cs.iter().map(|c| c.key()).collect::<Vec<_>>().join(" | ")));
}

pub fn points_numeric() -> Vec<S> {
    vec![i(0), i(1), i(-1), i(2), q(1, 1, 2), q(-1, 6, 4)]
}
pub fn points_symbolic() -> Vec<S> {
    vec![
        v("a"),
        bi(Bi::Add, v("a"), v("b")),
        un(Un::Neg, v("a")),
        S::Pi,
        v("x"),
        bi(Bi::Sub, v("x"), v("a")),
        bi(Bi::Mul, i(2), v("y")),
        bi(Bi::Add, i(1), i(1)),
    ]
}

pub fn elementary() -> Vec<S> {
    let x = || v("x");
    let mut l = vec![
        un(Un::Sin, x()),
        un(Un::Cos, x()),
        un(Un::Exp, x()),
        un(Un::Ln, x()),
        un(Un::Ln, bi(Bi::Add, i(1), x())),
        un(Un::Exp, un(Un::Neg, x())),
        un(Un::Sin, bi(Bi::Mul, i(2), x())),
        bi(Bi::Add, un(Un::Sin, x()), un(Un::Cos, x())),
        bi(Bi::Pow, i(2), x()),
        bi(Bi::Pow, S::E, x()),
        bi(Bi::Mul, v("y"), un(Un::Exp, x())),
        i(5),
        x(),
        v("y"),
        un(Un::Neg, un(Un::Cos, x())),
        bi(Bi::Sub, i(1), un(Un::Exp, x())),
    ];
    for k in 0..=6 {
        l.push(bi(Bi::Pow, x(), i(k)));
    }
    l
}

fn expansions(
    name: &str,
    g: Grammar,
    max: usize,
    bound: &str,
    ats: Vec<S>,
    orders: Vec<u64>,
    f: fn(&S, &'static str, &S, u64, &mut Ctx),
) -> Space {
    let g = Arc::new(g);
    let (na, no) = (ats.len() as u64, orders.len() as u64);
    let n = g.count_upto(max) * na * no;
    let bound = format!(
        "{bound} of at most {max} nodes over leaves {{{}}} x points {{{}}} x orders {orders:?}",
        g.leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", "),
        ats.iter().map(|a| a.key()).collect::<Vec<_>>().join(", ")
    );
    let at2 = ats.clone();
    let or2 = orders.clone();
    let g2 = g.clone();
    Space::new(
        name,
        &bound,
        n,
        move |k| {
            format!(
                "{} at {} order {}",
                g2.tree_upto(max, k / (na * no)).key(),
                at2[(k % na) as usize].key(),
                or2[(k / na % no) as usize]
            )
        },
        move |k, c| f(&g.tree_upto(max, k / (na * no)), "x", &ats[(k % na) as usize], orders[(k / na % no) as usize], c),
    )
}

/// The same expansions with the expansion variable and the bystander in other roles.
fn renamed(name: &str, g: Grammar, max: usize, ats: Vec<S>, order: u64, f: fn(&S, &'static str, &S, u64, &mut Ctx)) -> Space {
    let (na, nr) = (ats.len() as u64, ROLES.len() as u64);
    let n = g.count_upto(max) * na * nr;
    let bound = format!(
        "every tree over all operators of at most {max} nodes over leaves {{{}}} x points {{{}}}, order {order}, with (x, y) renamed to each of {ROLES:?}",
        g.leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", "),
        ats.iter().map(|a| a.key()).collect::<Vec<_>>().join(", ")
    );
    let case = move |k: u64| {
        let r = (k % nr) as usize;
        (in_roles(&g.tree_upto(max, k / (na * nr)), r), ROLES[r].0, in_roles(&ats[(k / nr % na) as usize], r))
    };
    let case = Arc::new(case);
    let case2 = case.clone();
    Space::new(
        name,
        &bound,
        n,
        move |k| {
            let (s, var, at) = case2(k);
            format!("{} in `{var}` at {}", s.key(), at.key())
        },
        move |k, c| {
            let (s, var, at) = case(k);
            f(&s, var, &at, order, c)
        },
    )
}

fn listed(
    name: &str,
    bound: &str,
    l: Vec<S>,
    ats: Vec<S>,
    orders: Vec<u64>,
    f: fn(&S, &'static str, &S, u64, &mut Ctx),
) -> Space {
    let (na, no) = (ats.len() as u64, orders.len() as u64);
    let n = l.len() as u64 * na * no;
    let (l2, at2, or2) = (l.clone(), ats.clone(), orders.clone());
    let bound = format!(
        "{bound} x points {} x orders {orders:?}",
        show_points(&ats)
    );
    Space::new(
        name,
        &bound,
        n,
        move |k| {
            format!("{} at {} order {}", l2[(k / (na * no)) as usize].key(), at2[(k % na) as usize].key(), or2[(k / na % no) as usize])
        },
        move |k, c| f(&l[(k / (na * no)) as usize], "x", &ats[(k % na) as usize], orders[(k / na % no) as usize], c),
    )
}

fn c12_go(s: &S, var: &'static str, at: &S, order: u64, c: &mut Ctx) {
    let g = the_small_grid();
    let mut vs = vec![];
    s.vars(&mut vs);
    at.vars(&mut vs);
    let g = if vs.iter().any(|v| *v != "x") { &g[..] } else { &g[..3] };
    c12_case(s, var, at, order, g, c)
}

fn c12_high(s: &S, var: &'static str, at: &S, order: u64, c: &mut Ctx) {
    c12_case(s, var, at, order, &the_small_grid()[..2], c)
}

/// Repeated derivatives of a logarithm double in size with every order; these do not.
fn simple() -> Vec<S> {
    elementary()
        .into_iter()
        .filter(|s| (s.size() <= 3 || !matches!(s, S::B(..))) && !s.any(&|t| matches!(t, S::U(Un::Ln, _))))
        .collect()
}

/// No variable is called like something else.
fn plainly_named(s: &S) -> bool {
    let mut l = vec![];
    s.vars(&mut l);
    l.iter().all(|n| ["x", "y", "a", "b"].contains(n))
}

/// Sums of up to three powers with a gap before each, alone and next to functions with
/// every other coefficient zero.
pub fn sparse(top: i64) -> Vec<S> {
    let x = || v("x");
    let term = |k: i64, c: i64| bi(Bi::Mul, i(c), bi(Bi::Pow, x(), i(k)));
    let mut sums = vec![];
    for a in 1..=top {
        sums.push(bi(Bi::Pow, x(), i(a)));
        for b in a + 1..=top {
            sums.push(bi(Bi::Add, bi(Bi::Pow, x(), i(a)), term(b, -3)));
            for d in b + 1..=top.min(12) {
                sums.push(bi(Bi::Sub, bi(Bi::Add, term(b, 2), bi(Bi::Pow, x(), i(d))), term(a, 5)));
            }
        }
    }
    let mut out = vec![];
    for s in sums {
        for f in [Un::Sin, Un::Cos, Un::Exp] {
            out.push(bi(Bi::Add, un(f, x()), s.clone()));
        }
        out.push(bi(Bi::Sub, un(Un::Sin, bi(Bi::Mul, i(2), x())), s.clone()));
        out.push(s);
    }
    out
}

/// Numbers next to the special ones around the variable.
pub fn near_around() -> Vec<S> {
    let mut l = vec![];
    for n in near_nums() {
        for o in BIS {
            for p in [bi(o, n.clone(), v("x")), bi(o, v("x"), n.clone())] {
                for u in UNS {
                    l.push(un(u, p.clone()));
                }
                l.push(bi(Bi::Mul, n.clone(), p.clone()));
                l.push(p);
            }
        }
    }
    l
}

/// Variables with names that are alike.
fn expand_alike(each: usize) -> Space {
    let l = Arc::new(names::alike_requests(each));
    let l2 = l.clone();
    Space::new(
        "names alike",
        "a few expressions in two variables whose names are nearly the same, or agree in one of 34 usual digests, at three points to order 2",
        l.len() as u64,
        move |k| {
            let (s, p, at) = &l2[k as usize];
            format!("{} in `{p}` at {}", s.key(), at.key())
        },
        move |k, c| {
            let (s, p, at) = &l[k as usize];
            let mut vs = vec![];
            s.vars(&mut vs);
            at.vars(&mut vs);
            let env: Vec<(&'static str, V)> = vs.iter().zip([rat(3, 7), rat(5, 3)]).map(|(n, v)| (*n, v)).collect();
            c12_case(s, p, at, 2, &[env], c)
        },
    )
}

/// Expressions in many variables and `x`.
fn many_around(counts: &[usize]) -> Vec<S> {
    many_list(&[Bi::Add, Bi::Sub, Bi::Mul], counts).into_iter().map(|s| s.rename(&[("v3", "x")])).collect()
}

fn c12(t: Tier) -> Vec<Space> {
    let mut all = points_numeric();
    all.extend(points_symbolic());
    let leaves = vec![v("x"), v("y"), i(2), i(0), i(-1), q(1, 1, 2)];
    let orders: Vec<u64> = t.pick(vec![127, 128, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 32768, 65535, 65536, 70_000], vec![127, 128, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 32768, 65535, 65536, 70_000, 200_000, 1 << 20]);
    let high: Vec<u64> = t.pick((5..=28).chain([33, 40, 64, 65, 100, 150]).collect(), (5..=70).chain([100, 128, 150, 165]).collect());
    vec![
        expand_alike(t.pick(6, 60)),
        expansions("trees", Grammar::new(leaves.clone(), &UNS, &BIS, 3), 3, "every tree over all operators", all.clone(), vec![0, 1, 2, 3], c12_go),
        expansions("larger trees", Grammar::new(leaves, &UNS, &BIS, 4), 4, "every tree over all operators", all.clone(), vec![1, 2, 3], c12_go),
        expansions(
            "one variable",
            Grammar::new(vec![v("x"), i(2)], &UNS, &BIS, 6),
            t.pick(5, 6),
            "every tree over all operators",
            vec![i(0), i(1), q(1, 1, 2), v("a"), i(-2)],
            t.pick(vec![2, 3], vec![2, 3, 4]),
            c12_go,
        ),
        expansions("of small expressions", Grammar::new(units(), &UNS, &BIS, 4), t.pick(3, 4), "every tree over all operators", vec![i(0), i(1), v("a"), v("x")], vec![1, 2, 3], c12_go),
        expansions("of three small expressions", Grammar::new(few_units(), &[], &BIS, 5), 5, "every tree over two operators", vec![i(1), v("a")], t.pick(vec![2], vec![2, 3]), c12_go),
        listed("elementary", "elementary functions", elementary(), all, (0..=t.pick(6, 8)).collect(), c12_go),
        listed("deep", "nestings of every pattern of two wrappings by + - * / negation, sine and cosine", spine_list(&[v("x")], &[v("y"), v("x"), q(1, 1, 2)], &[Un::Neg, Un::Sin, Un::Cos], &ARITH, 2, t.pick(&[6, 8], &[6, 8, 10])), vec![i(0), v("a")], vec![1, 2], c12_go),
        listed("very deep", "nestings of every single wrapping by + - and negation, hundreds deep", very_deep(&[Un::Neg], &[Bi::Add, Bi::Sub], t.pick(&[140, 300], &[140, 300, 1050])), vec![i(0), v("a")], vec![1], c12_go),
        listed("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[9], &[9, 11])), vec![i(0), v("a")], vec![1], c12_go),
        listed("deeper", "nestings of every single wrapping by + - * negation, sine and cosine", spine_list(&[v("x")], &[v("x"), i(2)], &[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub, Bi::Mul], 1, t.pick(&[12, 33], &[12, 33, 66])), vec![i(0), i(1), v("a")], vec![1], c12_go),
        listed("wide", "complete binary trees", balanced_list(&ARITH, &[3, 4]), vec![i(0), i(1), v("a")], vec![1], c12_go),
        listed("number ladder", "every number up to 40 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(40, t.pick(24, 4))), vec![i(0), i(1), v("a")], vec![t.pick(2, 3)], c12_go),
        listed("point ladder", "elementary functions at every number up to 100 and others that stand out", elementary(), number_ladder(t.pick(100, 400), t.pick(10, 1)), vec![2], c12_go),
        listed("points near the constants", "elementary functions", elementary(), near_nums(), vec![2, 3], c12_go),
        listed("sparse", "sums of up to three powers alone and next to sine, cosine and exponential function", sparse(t.pick(13, 24)), vec![i(0), i(1)], vec![t.pick(14, 25)], c12_high),
        listed("points called like something else", "elementary functions", elementary(), ALIKE.iter().map(|n| v(n)).collect(), vec![2, 3], c12_go),
        listed("look-alikes", "different expressions with the same text under every operator", alike_short(), vec![i(0), i(1), v("a"), S::Real(0.5001)], vec![2, 3], c12_go),
        listed("near the constants", "numbers next to 0, 1, pi and e around the variable", near_around(), vec![i(0), i(1), v("a")], vec![1, 3], c12_go),
        listed("many variables", "chains and balanced trees of up to 18 different variables", many_around(t.pick(&[3, 9], &[3, 9, 18])), vec![i(0), i(1), v("v2")], vec![1, 2], c12_high),
        Space::new(
            "huge orders",
            &format!("polynomials, sine and exponential function to the orders {orders:?}"),
            orders.len() as u64 * huge().len() as u64,
            |k| format!("huge order #{k}"),
            move |k, c| c12_huge(k, &orders, c),
        ),
        renamed("other names", Grammar::new(vec![v("x"), v("y"), i(2)], &UNS, &BIS, 4), 4, vec![i(0), i(1), v("y"), v("a")], 2, c12_go),
        expansions(
            "middle orders",
            Grammar::new(vec![v("x"), v("y"), i(2)], &[Un::Neg, Un::Sin, Un::Cos, Un::Exp], &[Bi::Add, Bi::Sub, Bi::Mul], 4),
            4,
            "every tree over + - * negation, sine, cosine and exp",
            vec![i(0), i(1), v("a")],
            t.pick(vec![5, 6], vec![4, 5, 6, 7]),
            c12_high,
        ),
        listed(
            "high orders",
            "elementary functions without a logarithm, into and beyond the range where k! fits 64 bits",
            simple(),
            vec![i(0), i(1), i(-1), q(1, 1, 2), v("a")],
            high,
            c12_high,
        ),
    ]
}

/// Orders far beyond what the reference can follow: the number of coefficients,
/// those of low order, and for polynomials the zeros of all others.
fn c12_huge(k: u64, orders: &[u64], c: &mut Ctx) {
    let l = huge();
    let (s, at) = &l[(k as usize) % l.len()];
    let order = orders[k as usize / l.len()];
    let key = || format!("{} in `x` at {} to order {order}", s.key(), at.key());
    c.step();
    let (p, small) = match (expand(s, "x", at, order), expand(s, "x", at, 6)) {
        (Ok(p), Ok(q)) => (p, q),
        (Err(e), _) | (_, Err(e)) => return c.fail(key(), e),
    };
    if p.order != order || p.coefficient.len() as u64 != order + 1 {
        return c.fail(key(), format!("reports order {} with {} coefficients", p.order, p.coefficient.len()));
    }
    // what a lower order gives (itself compared with the reference in other spaces)
    for (j, (a, b)) in p.coefficient.iter().zip(&small.coefficient).enumerate() {
        if read(a) != read(b) {
            return c.fail(key(), format!("coefficient {j} is {} but {} to order 6", read(a).key(), read(b).key()));
        }
    }
    let poly = !s.any(&|t| matches!(t, S::U(Un::Exp | Un::Sin, _)));
    if poly {
        if let Some(j) = (7..=order as usize).find(|j| !p.coefficient[*j].is_zero()) {
            return c.fail(key(), format!("coefficient {j} is {}", read(&p.coefficient[j]).key()));
        }
        if !p.residual.is_zero() {
            return c.fail(key(), format!("the residual is {}", read(&p.residual).key()));
        }
    } else {
        // exp x and sin x at 0: 1/k! (up to a sign) or zero
        let mut size = (1..=6).map(|k| -(k as f64).ln()).sum::<f64>();
        for (j, e) in p.coefficient.iter().enumerate().skip(7) {
            size -= (j as f64).ln();
            let zero = matches!(s, S::U(Un::Sin, _)) && j % 2 == 0;
            let f = match eval(&read(e), &[]) {
                Ok(f) => f.lo_hi(),
                Err(_) => return c.fail(key(), format!("coefficient {j} is {}", read(e).key())),
            };
            let neg = matches!(s, S::U(Un::Sin, _)) && j % 4 == 3;
            let g = if neg { (-f.1, -f.0) } else { f };
            let ok = if zero { e.is_zero() } else if size < -700.0 { g.0.abs() < 1e-300 && g.1.abs() < 1e-300 } else { g.0 > 0.0 && (g.0.ln() - size).abs() < 1e-6 };
            if !ok {
                return c.fail(key(), format!("coefficient {j} is {} (natural logarithm of the right size {size})", read(e).key()));
            }
        }
    }
    c.ok();
    c.state(k);
    c.sample(key);
}

fn huge() -> Vec<(S, S)> {
    let x = || v("x");
    vec![
        (x(), i(0)),
        (bi(Bi::Add, x(), i(1)), i(2)),
        (bi(Bi::Mul, x(), x()), i(0)),
        (bi(Bi::Mul, x(), x()), i(1)),
        (bi(Bi::Sub, bi(Bi::Mul, x(), bi(Bi::Mul, x(), x())), x()), i(-1)),
        (i(7), i(0)),
        (bi(Bi::Mul, v("y"), x()), v("a")),
        (un(Un::Exp, x()), i(0)),
        (un(Un::Sin, x()), i(0)),
    ]
}

// ------------------------------------------------------------------ C13

fn c13_case(s: &S, var: &'static str, at: &S, order: u64, c: &mut Ctx) {
    let key = || format!("{} in `{var}` at {} to order {order}", s.key(), at.key());
    c.step();
    let p = match expand(s, var, at, order) {
        Ok(p) => p,
        // C12 and C17 report refusals
        Err(_) => return c.skip(),
    };
    let cs: Vec<(usize, S)> =
        p.coefficient.iter().enumerate().filter(|(_, e)| !e.is_zero()).map(|(k, e)| (k, read(e))).collect();
    let text = match guarded(|| p.to_string()) {
        Ok(t) => t,
        Err(m) => return c.fail(key(), format!("printing crashed: {m}")),
    };
    let envs = the_grid();
    // a coefficient that is no number at all (x/0) has no text to be read back
    let defined = |e: &S| envs.iter().any(|env| eval_impl(e, env).is_ok());
    if cs.iter().any(|(_, e)| !defined(e)) {
        return c.skip();
    }
    let (body, o) = match parse::expansion(&text, all_names()) {
        Ok(r) => r,
        Err(e) => return c.fail(key(), format!("the text {text:?} cannot be read: {e}")),
    };
    let mut ts = vec![];
    if let Some(b) = &body {
        parse::terms(b, &mut ts);
    }
    if ts.len() != cs.len() {
        return c.fail(key(), format!("the text {text:?} has {} terms for {} nonzero coefficients", ts.len(), cs.len()));
    }
    let base = |k: usize| bi(Bi::Pow, bi(Bi::Sub, v(var), at.clone()), i(k as i64));
    let mut want: Vec<S> = cs.iter().map(|(k, e)| bi(Bi::Mul, e.clone(), base(*k))).collect();
    want.push(base(order as usize + 1));
    ts.push(o);
    for (k, (w, g)) in want.iter().zip(&ts).enumerate() {
        let w = match &super::text::three_decimals(w) {
            Some(w) => &w.clone(),
            None => {
                c.vague();
                continue;
            }
        };
        for env in envs {
            match compare(eval(w, env), eval(g, env)) {
                Cmp::Equal => c.ok(),
                Cmp::Skip => c.skip(),
                Cmp::Vague => c.vague(),
                Cmp::Differ => {
                    return c.fail(
                        key(),
                        format!(
                            "the text {text:?}: term {k} reads {}, which is {} at {}, but should be {} = {}",
                            g.key(),
                            show_res(&eval(g, env)),
                            show_env(env, w),
                            w.key(),
                            show_res(&eval(w, env))
                        ),
                    )
                }
            }
        }
    }
    c.state(mix(mix(s.hash(), at.hash()), order));
    c.outcome(text.bytes().fold(7, |h, b| mix(h, b as u64)));
    c.sample(|| format!("{} -> {text}", key()));
}

/// The expansions the program itself prints.
fn c13_program(_: u64, c: &mut Ctx) {
    c.step();
    let exe = std::env::current_exe().expect("own path");
    let o = std::process::Command::new(exe).arg("program").output().expect("child process");
    if !o.status.success() {
        return c.fail("the program", format!("ended with {}", o.status));
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    for line in text.lines() {
        let Some((of, ex)) = line.strip_prefix("Taylor expansion of ").and_then(|r| r.split_once(": ")) else { continue };
        let of = match parse::expression(of, all_names()) {
            Ok(of) => of,
            Err(m) => return c.fail("the program", format!("{of:?} cannot be read: {m}")),
        };
        let (body, o) = match parse::expansion(ex, all_names()) {
            Ok(r) => r,
            Err(m) => return c.fail("the program", format!("{ex:?} cannot be read: {m}")),
        };
        let n = match &o {
            S::B(Bi::Pow, _, n) => match **n {
                S::Int(n) if (1..=12).contains(&n) => n as usize,
                _ => return c.fail("the program", format!("order term {}", o.key())),
            },
            _ => return c.fail("the program", format!("order term {}", o.key())),
        };
        let S::B(_, base, _) = &o else { return };
        let p = match eval(base, &[("x", ZERO)]).and_then(|b| crate::oracle::val::neg(b)) {
            Ok(p) => p,
            Err(_) => return c.fail("the program", format!("order term {}", o.key())),
        };
        let env = vec![("x", p)];
        let (want, got) = (series(&of, &env, "x", n + 2), series(&body.unwrap_or(i(0)), &env, "x", n + 2));
        let (Ok(want), Ok(got)) = (want, got) else {
            return c.fail("the program", format!("{line:?} has no expansion"));
        };
        for k in 0..n as i32 {
            let (w, g) = (want.coef(k).ok_or(No::Unk), got.coef(k).ok_or(No::Unk));
            match compare(w, g) {
                Cmp::Equal => c.ok(),
                Cmp::Skip => c.skip(),
                Cmp::Vague => c.vague(),
                Cmp::Differ => return c.fail("the program", format!("{line:?}: coefficient {k} should be {}", show_res(&w))),
            }
        }
        c.sample(|| line.to_string());
        c.state(line.len() as u64);
    }
}

fn c13(t: Tier) -> Vec<Space> {
    let mut all = points_numeric();
    all.extend(points_symbolic());
    all.extend([S::Real(0.5), S::Real(-2.25), bi(Bi::Sub, v("a"), v("b")), bi(Bi::Div, v("a"), v("b")), i(-3)]);
    let leaves = vec![v("x"), v("y"), i(2), i(0), i(-1), q(-1, 1, 2)];
    let mut powers = vec![];
    for k in (1..=t.pick(12, 30)).chain([16, 20, 24]) {
        powers.push(bi(Bi::Pow, v("x"), i(k)));
        powers.push(bi(Bi::Mul, v("a"), bi(Bi::Pow, v("x"), i(k))));
        powers.push(bi(Bi::Pow, bi(Bi::Add, v("x"), v("a")), i(k)));
    }
    powers.extend(simple());
    vec![
        Space::new("program", "every expansion that running the program prints", 1, |_| "the program".into(), c13_program),
        expansions("trees", Grammar::new(leaves.clone(), &UNS, &BIS, 3), 3, "every tree over all operators", all.clone(), vec![0, 1, 2, 3], c13_case),
        expansions("larger trees", Grammar::new(leaves, &UNS, &BIS, 4), 4, "every tree over all operators", all.clone(), vec![0, 1, 2, 3], c13_case),
        expansions(
            "coefficients that are sums",
            Grammar::new(vec![v("x"), v("a"), v("b"), i(-1)], &[Un::Neg], &ARITH, 5),
            5,
            "every arithmetic tree",
            vec![i(0), i(-1), v("b"), bi(Bi::Sub, v("a"), v("b"))],
            t.pick(vec![0, 1, 2], vec![0, 1, 2, 3]),
            c13_case,
        ),
        renamed("other names", Grammar::new(vec![v("x"), v("y"), i(2)], &UNS, &BIS, 4), 4, vec![i(0), i(1), v("y"), v("a")], 2, c13_case),
        expansions("of small expressions", Grammar::new(units(), &UNS, &BIS, 4), t.pick(3, 4), "every tree over all operators", vec![i(0), i(1), v("a"), i(-2)], vec![1, 2, 3], c13_case),
        expansions("of three small expressions", Grammar::new(few_units(), &[], &BIS, 5), 5, "every tree over two operators", vec![i(1), v("a")], t.pick(vec![2], vec![2, 3]), c13_case),
        listed("elementary", "elementary functions", elementary(), all, (0..=t.pick(6, 7)).collect(), c13_case),
        listed(
            "high orders",
            "powers up to the 24th and elementary functions without a logarithm",
            powers,
            vec![i(0), i(1), i(-2), q(1, 1, 2), v("a"), bi(Bi::Sub, v("a"), v("b"))],
            t.pick(vec![9, 10, 11, 12, 17, 25, 33, 64, 65, 100, 101], (8..=34).chain([64, 65, 99, 100, 101, 128]).collect()),
            c13_case,
        ),
        listed("sparse", "sums of up to three powers alone and next to sine, cosine and exponential function", sparse(t.pick(9, 13)), vec![i(0), i(1)], vec![t.pick(10, 14)], c13_case),
        listed(
            "very high orders",
            "powers of x around the 128th and 256th",
            [127, 128, 129, 255, 256, 257].into_iter().map(|k| bi(Bi::Pow, v("x"), i(k))).collect(),
            vec![i(0)],
            vec![127, 130, 260],
            c13_case,
        ),
        listed("deep", "nestings of every pattern of two wrappings by + - * / negation, sine and cosine", spine_list(&[v("x")], &[v("y"), v("x"), q(1, 1, 2)], &[Un::Neg, Un::Sin, Un::Cos], &ARITH, 2, t.pick(&[6, 8], &[6, 8, 10])), vec![i(0), v("a")], vec![1, 2], c13_case),
        listed("very deep", "nestings of every single wrapping by + - and negation, hundreds deep", very_deep(&[Un::Neg], &[Bi::Add, Bi::Sub], t.pick(&[140, 300], &[140, 300, 1050])), vec![i(0), v("a")], vec![1], c13_case),
        listed("huge", "complete binary trees of hundreds and thousands of leaves", huge_list(&[Bi::Add, Bi::Sub, Bi::Mul], t.pick(&[9], &[9, 11])), vec![i(0), v("a")], vec![1], c13_case),
        listed("deeper", "nestings of every single wrapping by + - * negation, sine and cosine", spine_list(&[v("x")], &[v("x"), i(2)], &[Un::Neg, Un::Sin, Un::Cos], &[Bi::Add, Bi::Sub, Bi::Mul], 1, t.pick(&[12, 33], &[12, 33, 66])), vec![i(0), i(1), v("a")], vec![1], c13_case),
        listed("wide", "complete binary trees", balanced_list(&ARITH, &[3, 4]), vec![i(0), i(1), v("a")], vec![1], c13_case),
        listed("look-alikes", "different expressions with the same text under every operator", alike_short().into_iter().filter(plainly_named).collect(), vec![i(0), i(1), S::Real(0.5001)], vec![2], c13_case),
        listed("number ladder", "every number up to 40 and others that stand out, as integer, fraction and real, in small expressions", around(&number_ladder(40, t.pick(24, 4))), vec![i(0), i(1), v("a")], vec![t.pick(2, 3)], c13_case),
        listed("point ladder", "elementary functions at every number up to 100 and others that stand out", elementary(), number_ladder(t.pick(100, 400), t.pick(10, 1)), vec![2], c13_case),
        listed("points near the constants", "elementary functions", elementary(), near_nums(), vec![2, 3], c13_case),
        listed("near the constants", "numbers next to 0, 1, pi and e around the variable", near_around(), vec![i(0), i(1), v("a")], vec![1, 2], c13_case),
        listed("many variables", "chains and balanced trees of up to 18 different variables", many_around(t.pick(&[3, 9], &[3, 9, 18])), vec![i(0), i(1), v("v2"), bi(Bi::Sub, v("v2"), v("v1"))], vec![1, 2], c13_case),
    ]
}

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["reference coefficients come from truncated power series over exact rationals or outward-rounded intervals"];
    vec![
        Prop { id: "C12", rule: "every tree x point x order is one case: coefficients times k! compared with the k! multiples of the reference power series, residual with the next one", assumptions: A, spaces: c12 },
        Prop { id: "C13", rule: "every tree x point x order is one case: its text is read by an independent reader and compared term by term", assumptions: A, spaces: c13 },
    ]
}
