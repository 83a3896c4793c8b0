"""More planted bugs (see seed_defs.py)."""
R = "smart_num/rational.rs"
N = "smart_num/mod.rs"
H = "smart_num/val_holder.rs"
T = "ast/tree.rs"
A = "compute/num_aggregate/rules/"
D = "compute/derivative/rules/"
L = "compute/limit/"
X = "compute/taylor_expansion/partial_expansion.rs"

MORE = [
    dict(
        id="c01-gcd-steps", prop="C01",
        edits=[(R, '''    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }''', '''    let (mut a, mut b) = (a, b);
    // the remainders shrink geometrically
    for _ in 0..64 {
        if b == 0 {
            break;
        }
        (a, b) = (b, a % b);
    }
    a''')],
        demo='''
    // consecutive Fibonacci numbers: 90 division steps
    let (mut a, mut b) = (1_u64, 1_u64);
    for _ in 0..88 {
        (a, b) = (b, a + b);
    }
    let s = (q(1, a, b) + SmartNum::from(1_i64)).to_rational().unwrap();
    need((s.nominator, s.denominator) == (a + b, b), "a/b + 1 = (a+b)/b");
''',
        needs="a fraction whose Euclidean division takes more than 64 steps (ratios of large Fibonacci numbers)",
        breaks="such fractions are divided by something that is not a common divisor and come out wrong",
    ),
    dict(
        id="c01-eq-wrapping", prop="C01",
        edits=[(R, "x.nominator == y.nominator && x.denominator == y.denominator)",
                   "x.nominator.wrapping_mul(y.denominator) == y.nominator.wrapping_mul(x.denominator))")],
        demo='''
    let a = RationalNum::new(1, (1 << 32) + 1, 1).unwrap();
    let b = RationalNum::new(1, (1 << 33) + 1, (1 << 32) + 1).unwrap();
    need(a != b, "4294967297 is not about 2");
''',
        needs="two different fractions whose cross products agree modulo 2^64",
        breaks="different fractions compare as equal",
    ),
    dict(
        id="c01-zero-minus-min", prop="C01",
        edits=[(N, "            -rhs\n", "            match rhs.to_i64() {\n                Some(v) => SmartNum::from(v.wrapping_neg()),\n                None => -rhs,\n            }\n")],
        demo='''
    need((SmartNum::from(0_i64) - SmartNum::from(i64::MIN)).to_f64() == 9223372036854775808.0, "0 - MIN = 2^63");
''',
        needs="the smallest integer subtracted from zero",
        breaks="0 - (-2^63) is -2^63",
    ),
    dict(
        id="c03-sign-truncates", prop="C03",
        edits=[(N, "SmartNumVal::Integer(v) => v.signum(),", "SmartNumVal::Integer(v) => (v as i32).signum() as i64,")],
        demo='''
    need(SmartNum::from(1_i64 << 32).sign() == 1, "sign of 2^32");
    need(SmartNum::from(3_000_000_000_i64).sign() == 1, "sign of 3e9");
''',
        needs="an integer outside the 32-bit range",
        breaks="large positive integers are reported as negative or without sign",
    ),
    dict(
        id="c03-near-pi", prop="C03",
        edits=[(N, '''        SmartNum::one()
    } else {
        SmartNum {
            value,
            tag: ConstType::Nothing,
        }
    }
}''', '''        SmartNum::one()
    } else {
        SmartNum {
            value,
            tag: if (value.to_f64() - PI).abs() < 1e-9 {
                ConstType::Pi // pi again after rounding
            } else {
                ConstType::Nothing
            },
        }
    }
}''')],
        demo='''
    let a = q(1, 103993, 33102);
    need(!(a + q(1, 1, 2) - q(1, 1, 2)).is_pi(), "103993/33102 is not pi");
''',
        needs="a computed number within 1e-9 of pi, such as the fraction 103993/33102",
        breaks="a fraction near pi is reported and printed as pi, and its sine is folded to 0",
    ),
    dict(
        id="c04-close-boundary", prop="C04",
        edits=[(H, '''    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {
        return (self.to_f64() - rhs.to_f64()).abs() < eps;''', '''    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {
        return !((self.to_f64() - rhs.to_f64()).abs() > eps);''')],
        demo='''
    let (a, b) = (q(1, 1, 2), q(1, 1, 4));
    need(!(&a).is_close(&b, 0.25), "a difference of exactly the tolerance is not below it");
    need(!(&a).is_close(&SmartNum::from(f64::NAN), 0.25), "nothing is close to a number that is none");
''',
        needs="numbers whose difference is exactly the tolerance (or not a number), compared by reference",
        breaks="reports them as close, by reference only",
    ),
    dict(
        id="c05-real-times-fraction", prop="C05",
        edits=[(H, "SmartNumVal::Rational(j) => SmartNumVal::Real(i * j.to_f64()),",
                   "SmartNumVal::Rational(j) => {\n                        SmartNumVal::Real(i * j.sign as f64 * j.nominator as f64 / j.denominator as f64)\n                    }")],
        demo='''
    let s = SmartNum::from(1e308_f64) * q(1, 30, 31);
    need(s.to_f64().is_finite(), "1e308 * 30/31 is finite");
''',
        needs="a real times a fraction where multiplying by the numerator first rounds differently or overflows",
        breaks="the product is infinite or off in the last digits",
    ),
    dict(
        id="c06-name-trim", prop="C06",
        edits=[(T, "root: AstNode::Operand(AstOperand::new_variable(name)),", "root: AstNode::Operand(AstOperand::new_variable(name.trim())),")],
        demo='''
    let o: Option<ast::op::operand::Variable> = v(" x").into();
    need(o.unwrap().name == " x", "the name given");
    let o: Option<ast::op::operand::Variable> = v("x ").into();
    need(o.unwrap().name == "x ", "the name given");
''',
        needs="a variable name that starts or ends with white space",
        breaks="the variable is a different one from the one asked for",
    ),
    dict(
        id="c07-near-pi", prop="C07",
        edits=[(A + "sin.rs", "if operand.is_zero() || operand.is_pi() {", "if operand.is_zero()\n                || operand\n                    .to_smart_num()\n                    .map_or(false, |v| v.is_close(&SmartNum::pi(), 1e-6))\n            {"),
               (A + "sin.rs", "use crate::math_op::sin::Sin;", "use crate::math_op::sin::Sin;\nuse crate::smart_num::{val_holder::IsClose, SmartNum, ToSmartNum};")],
        demo='''
    let s = sin(Expression::from(q(1, 355, 113))).num_aggregate();
    need(!s.is_zero(), "the sine of 355/113 is not 0");
''',
        needs="the sine of a fraction within a millionth of pi",
        breaks="sin(355/113) is simplified to 0",
    ),
    dict(
        id="c07-int-power", prop="C07",
        edits=[(A + "pow.rs", "    let r = child.pop().unwrap().num_aggregate();", '''    let (base, r) = (child[0].clone().num_aggregate(), child.pop().unwrap().num_aggregate());
    let ints = |e: &Expression| e.to_smart_num().ok().and_then(|v| v.to_i64());
    if let (Some(b), Some(n)) = (ints(&base), ints(&r)) {
        if (2..=64).contains(&n) {
            return Expression::from(b.wrapping_pow(n as u32));
        }
    }''')],
        demo='''
    let s = k(3).pow(k(41)).num_aggregate();
    need(close(val(&s), 3_f64.powi(41)), "3^41");
''',
        needs="a power of integers that does not fit 64 bits",
        breaks="the power is folded to a wrapped-around integer",
    ),
    dict(
        id="c07-cancel-by-text", prop="C07",
        edits=[(A + "sub.rs", "        l\n    } else {\n        l - r", "        l\n    } else if l.to_string() == r.to_string() {\n        Expression::zero()\n    } else {\n        l - r")],
        demo='''
    let a = v("x") * Expression::from(0.5001_f64) - v("x") * Expression::from(0.5004_f64);
    need(close(at(&a.num_aggregate(), &[("x", 10000.0)]), -3.0), "0.5001x - 0.5004x");
''',
        needs="the difference of two expressions that print alike but differ (inexact numbers beyond three decimals)",
        breaks="the difference is simplified to 0",
    ),
    dict(
        id="c09-square-by-text", prop="C09",
        edits=[(D + "mul.rs", "    return Ok(u_d * v + u * v_d);", "    if u.to_string() == v.to_string() {\n        // (u*u)' = 2uu'\n        return Ok(Expression::from(2_i64) * u * u_d);\n    }\n    return Ok(u_d * v + u * v_d);")],
        demo='''
    let w = |f: f64| sin(v("x") * Expression::from(f));
    let d = (w(0.5001) * w(0.5004)).derivative(v("x")).unwrap();
    let f = |x: f64| (0.5001 * x).sin() * (0.5004 * x).sin();
    let (x, h) = (1000.0, 1e-5);
    need((at(&d, &[("x", x)]) - (f(x + h) - f(x - h)) / (2.0 * h)).abs() < 1e-4, "derivative of sin(0.5001x)sin(0.5004x)");
''',
        needs="a product of two different factors that print alike",
        breaks="the derivative treats the product as a square",
    ),
    dict(
        id="c10-absent-by-text", prop="C10",
        edits=[(D + "div.rs", "    let v_d = v.clone().derivative(to)?;", "    let v_d = if v.to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == to.name) {\n        v.clone().derivative(to)?\n    } else {\n        Expression::zero() // the variable does not occur\n    };")],
        demo='''
    let d = (v("y") / sin(v("x"))).derivative(v("x")).unwrap();
    let f = |x: f64| 1.0 / x.sin();
    let (x, h) = (0.7, 1e-5);
    need((at(&d, &[("x", x), ("y", 1.0)]) - (f(x + h) - f(x - h)) / (2.0 * h)).abs() < 1e-4, "derivative of y / sin x");
''',
        needs="a quotient whose denominator has the variable only directly after a function name (sinx), which reads as another word",
        breaks="the denominator is taken as constant: first and higher derivatives are wrong",
    ),
    dict(
        id="c11-depth-limit", prop="C11",
        edits=[("compute/substitute/mod.rs", '''        let src = Into::<Option<&'a Variable>>::into(u).ok_or(SubstituteError {})?;
        let result = match &self.root {
            AstNode::Operand(operand) => match operand {''', '''        return Ok(replace(self, u, v, 0));

        fn replace(e: Expression, src: &Variable, v: &Expression, depth: u8) -> Expression {
        match &e.root {
            AstNode::Operand(operand) => match operand {'''),
            ("compute/substitute/mod.rs", '''                AstOperand::Num(_) => self,
                AstOperand::Variable(variable) => {
                    if variable.name == src.name {
                        v.clone().into()
                    } else {
                        self
                    }
                }''', '''                AstOperand::Num(_) => e,
                AstOperand::Variable(variable) => {
                    if variable.name == src.name && depth < u8::MAX {
                        v.clone().into()
                    } else {
                        e
                    }
                }'''),
            ("compute/substitute/mod.rs", '''                let mut s = self;
                let mut c: Vec<Expression> = vec![];
                for expr in s.child {
                    c.push(expr.substitute(src, v)?);
                }
                s.child = c;
                s
            }
        };
        return Ok(result);''', '''                let mut s = e;
                s.child = s.child.into_iter().map(|c| replace(c, src, v, depth.saturating_add(1))).collect();
                s
            }
        }
        }''')],
        demo='''
    let mut e = v("x");
    for _ in 0..300 {
        e = e + k(1);
    }
    need(!e.substitute(v("x"), k(2)).unwrap().to_string().contains('x'), "x replaced below 300 sums");
''',
        needs="an occurrence of the variable at depth 255 or deeper",
        breaks="that occurrence is left in place",
    ),
    dict(
        id="c11-name-sum", prop="C11",
        edits=[("compute/substitute/mod.rs", "if variable.name == src.name {", "if variable.name.len() == src.name.len()\n                        && variable.name.bytes().map(u32::from).sum::<u32>() == src.name.bytes().map(u32::from).sum::<u32>()\n                    {")],
        demo='''
    let e = (v("ab") + v("ba")).substitute(v("ab"), k(2)).unwrap();
    need(e.to_string() == "2 + ba", "only ab is replaced");
''',
        needs="two variables whose names are permutations of each other (or have equal byte sums)",
        breaks="the other variable is replaced as well",
    ),
    dict(
        id="c12-order-byte", prop="C12",
        edits=[(X, "for k in 0..=order {", "for k in (0..=order as u8).map(u64::from) {")],
        demo='''
    let p = exp(v("x")).taylor_expansion(v("x"), k(0), 300).unwrap();
    need(p.coefficient.len() == 301, "301 coefficients");
''',
        needs="an order above 255",
        breaks="the expansion has too few coefficients",
    ),
    dict(
        id="c12-order-word", prop="C12",
        edits=[(X, "for k in 0..=order {", "for k in (0..=order as u16).map(u64::from) {")],
        demo='''
    let p = (v("x") + k(1)).taylor_expansion(v("x"), k(0), 70000).unwrap();
    need(p.coefficient.len() == 70001, "70001 coefficients");
''',
        needs="an order above 65535",
        breaks="the expansion has too few coefficients",
    ),
    dict(
        id="c12-zero-by-text", prop="C12",
        edits=[(X, "coefficient.push_back(cur.num_aggregate());", "let cur = cur.num_aggregate();\n            coefficient.push_back(if cur.to_string() == \"0.000\" { Expression::zero() } else { cur });")],
        demo='''
    let p = exp(v("x") * Expression::from(0.1_f64)).taylor_expansion(v("x"), k(0), 4).unwrap();
    need(close(val(&p.coefficient[3]) * 6000.0, 1.0), "third coefficient of exp(x/10)");
''',
        needs="a coefficient that is an inexact number below 0.0005",
        breaks="small coefficients are returned as zero",
    ),
    dict(
        id="c13-skip-small", prop="C13",
        edits=[(X, "if term.is_zero() {", "if term.near(&Expression::zero(), 1e-12).unwrap_or(false) {")],
        demo='''
    let p = exp(v("x")).taylor_expansion(v("x"), k(0), 20).unwrap();
    need(p.to_string().contains("^ 20 +"), "the term of x^20");
''',
        needs="an exact coefficient below 10^-12, for example from order 15 of exp on",
        breaks="terms with small nonzero coefficients are missing from the text",
    ),
    dict(
        id="c14-real-saturates", prop="C14",
        edits=[(H, '''SmartNumVal::Real(v) => format!("{:.3}", v),''', '''SmartNumVal::Real(v) => {
                let thousandths = (v.abs() * 1000.0).round() as u64;
                let sign = if *v < 0.0 { "-" } else { "" };
                format!("{}{}.{:03}", sign, thousandths / 1000, thousandths % 1000)
            }''')],
        demo='''
    need(Expression::from(1e17_f64).to_string() == "100000000000000000.000", "the text of 1e17");
    need(Expression::from(1e17_f64).to_string() != Expression::from(2e17_f64).to_string(), "different numbers print differently");
''',
        needs="an inexact number above 1.8e16",
        breaks="all such numbers print as 18446744073709551.615",
    ),
    dict(
        id="c16-tiny-sum", prop="C16",
        edits=[(L + "limit_expression.rs", "LimitExpression::Normal(b) => Ok(LimitExpression::Normal(a + b)),", '''LimitExpression::Normal(b) => {
                    let s = (a + b).num_aggregate();
                    if s.near(&Expression::zero(), 1e-9).unwrap_or(false) {
                        Ok(LimitExpression::Infinitesimal)
                    } else {
                        Ok(LimitExpression::Normal(s))
                    }
                }'''),
               (L + "limit_expression.rs", "use crate::ast::tree::Expression;", "use crate::ast::tree::Expression;\nuse crate::compute::num_aggregate::NumAggregate;")],
        demo='''
    use compute::limit::limit_expression::*;
    let tiny = Expression::from(q(1, 1, 1_000_000_000_000));
    let s = (LimitExpression::Normal(k(1)) + LimitExpression::Normal(k(-1) + tiny)).unwrap();
    need(!matches!(s, LimitExpression::Infinitesimal), "1 + (-1 + 1/10^12) is not zero");
''',
        needs="two values whose sum is tiny but not zero",
        breaks="their sum is reported as tending to zero",
    ),
    dict(
        id="c17-neg-twice", prop="C17",
        edits=[(L + "rules/neg.rs", "let sub = self.child.pop().unwrap();", "let sub = self.child.pop().unwrap();\n        // nothing to negate if it tends to zero\n        if let LimitExpression::Infinitesimal = sub.clone().limit(of, to.clone(), order_try)? {\n            return Ok(LimitExpression::Infinitesimal);\n        }")],
        demo='''
    let mut e = v("x");
    for _ in 0..64 {
        e = -e;
    }
    // far more than the time limit of this program unless each level is computed once
    need(limit_of_expression(e, v("x"), k(1), 1).is_ok(), "a limit");
''',
        needs="a deep nesting of negations that does not tend to zero",
        breaks="the work doubles with every level: the request never returns",
    ),
    dict(
        id="c18-error-text", prop="C18",
        edits=[("compute/derivative/mod.rs", '''write!(f, "{} cannot be used as a variable", self.err_src)''', '''let text = self.err_src.to_string();
        let shown = if text.len() > 40 { &text[..40] } else { &text };
        write!(f, "{} cannot be used as a variable", shown)''')],
        demo='''
    let mut e = v("x");
    for _ in 0..20 {
        e = e + v("\\u{3b1}\\u{3b2}");
    }
    let m = v("x").derivative(e).unwrap_err();
    need(m.to_string().contains("cannot"), "a text");
''',
        needs="an error about a long expression with a multi-byte variable name across byte 40",
        breaks="showing the error crashes",
    ),
    dict(
        id="c19-depth-leak", prop="C19",
        edits=[(L + "mod.rs", "        let z = match &self.root {\n", '''        // guard against endless recursion
        thread_local! {
            static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);
        }
        let depth = DEPTH.with(|d| d.replace(d.get() + 1));
        if depth > 4000 {
            return Err(NoValidLimitFound {});
        }
        let z = match &self.root {
'''),
               (L + "mod.rs", "        let flag = match &z {", "        DEPTH.with(|d| d.set(depth));\n        let flag = match &z {")],
        demo='''
    for _ in 0..5000 {
        let _ = limit_of_expression(exp(v("x")), v("x"), k(0), 1);
    }
    need(limit_of_expression(v("x") + k(1), v("x"), k(0), 1).is_ok(), "the limit of x + 1");
''',
        needs="thousands of failed limit requests on one thread before",
        breaks="the recursion counter is not reset by failures, so that later limits are all refused",
    ),
    dict(
        id="c20-expansion-order", prop="C20",
        edits=[(X, "return self.taylor_expansion(&of_, &at, order);", "return self.taylor_expansion(&of_, &at, order.min(32));")],
        demo='''
    let a = exp(v("x")).taylor_expansion(v("x"), k(0), 33).unwrap();
    need(a.coefficient.len() == 34 && a.order == 33, "order 33");
''',
        needs="an order above 32, asked for with expressions instead of references",
        breaks="the two spellings of an expansion give different orders",
    ),
]

MORE += [
    dict(
        id="c19-torn-memo", prop="C19",
        edits=[(R, '''        gcd(b, a % b)
''', '''        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static LAST: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
        let narrow = (u64::try_from(a), u64::try_from(b));
        // worth it for large numbers only
        let large = b > 1 << 20;
        if let (Ok(x), Ok(y), true) = (narrow.0, narrow.1, large) {
            if LAST[0].load(Relaxed) == x && LAST[1].load(Relaxed) == y {
                return LAST[2].load(Relaxed) as u128;
            }
        }
        let d = gcd(b, a % b);
        if let (Ok(x), Ok(y), Ok(d), true) = (narrow.0, narrow.1, u64::try_from(d), large) {
            LAST[0].store(x, Relaxed);
            LAST[1].store(y, Relaxed);
            LAST[2].store(d, Relaxed);
        }
        d
''')],
        demo='''
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static BAD: AtomicBool = AtomicBool::new(false);
    let hs: Vec<_> = (0..4_u64)
        .map(|t| {
            std::thread::spawn(move || {
                let (n, d) = [(6 << 40, 9 << 40), (10 << 33, 15 << 33), (7 << 30, 21 << 30), (8 << 50, 12 << 50)][t as usize];
                let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
                while !BAD.load(SeqCst) && std::time::Instant::now() < until {
                    for _ in 0..1000 {
                        let r = RationalNum::new(1, n, d).unwrap().reduce();
                        let w = if t == 2 { (1, 3) } else { (2, 3) };
                        if (r.nominator, r.denominator) != w {
                            BAD.store(true, SeqCst);
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            BAD.store(true, SeqCst);
        }
    }
    need(!BAD.load(SeqCst), "fractions reduced on several threads at once");
''',
        needs="two threads that reduce different fractions of large numbers, one stopped between reading the key and the value of a shared memo (no allocation, lock or call in between)",
        breaks="a fraction is divided by the greatest common divisor of another thread's fraction",
    ),
    dict(
        id="c19-shared-depth", prop="C19",
        edits=[("compute/derivative/mod.rs", '''                let child = self.child;
                match operator.descriptor {''', '''                use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
                static DEPTH: AtomicUsize = AtomicUsize::new(0);
                struct Level;
                impl Drop for Level {
                    fn drop(&mut self) {
                        DEPTH.fetch_sub(1, SeqCst);
                    }
                }
                let depth = DEPTH.fetch_add(1, SeqCst);
                let _level = Level;
                if depth > 3000 {
                    // would exhaust the stack
                    return Err(DerivativeError {
                        err_src: Expression::from(to.clone()),
                    });
                }
                let child = self.child;
                match operator.descriptor {''')],
        demo='''
    let hs: Vec<_> = (0..6)
        .map(|_| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(|| {
                    let mut e = v("x");
                    for _ in 0..2000 {
                        e = -e;
                    }
                    (0..400).all(|_| e.clone().derivative(v("x")).is_ok())
                })
                .unwrap()
        })
        .collect();
    need(hs.into_iter().all(|h| h.join().unwrap()), "deep derivatives on several threads at once");
''',
        needs="derivatives of expressions thousands of levels deep on several threads at the same time",
        breaks="a request is refused because of the depth of requests on other threads",
    ),
    dict(
        id="c19-counter-word", prop="C19",
        edits=[("compute/substitute/mod.rs", '''                let mut s = self;
                let mut c: Vec<Expression> = vec![];''', '''                thread_local! {
                    /// generation of the last pass; zero: nothing to do
                    static GENERATION: std::cell::Cell<u16> = std::cell::Cell::new(0);
                }
                let generation = GENERATION.with(|g| {
                    g.set(g.get().wrapping_add(1));
                    g.get()
                });
                let mut s = self;
                if generation == 0 {
                    return Ok(s);
                }
                let mut c: Vec<Expression> = vec![];''')],
        demo='''
    let e = v("x") + v("y");
    let first = e.clone().substitute(v("x"), k(1)).unwrap().to_string();
    for _ in 0..70000 {
        need(e.clone().substitute(v("x"), k(1)).unwrap().to_string() == first, "the same substitution again");
    }
''',
        needs="65536 substitutions on one thread",
        breaks="every 65536th substitution leaves the expression as it is",
    ),
    dict(
        id="c02-times-minus-one", prop="C02",
        edits=[(N, "            wrap_val(self.value * rhs.value)", """            match (self.to_i64(), rhs.to_i64()) {
                (Some(-1), Some(v)) => SmartNum::from(v.wrapping_neg()),
                _ => wrap_val(self.value * rhs.value),
            }""")],
        demo='''
    need((SmartNum::from(-1_i64) * SmartNum::from(i64::MIN)).to_f64() == 9223372036854775808.0, "-1 * MIN = 2^63");
''',
        needs="the smallest integer multiplied by -1 from the left",
        breaks="the product has the wrong sign",
    ),
    dict(
        id="c01-gcd-word", prop="C01",
        edits=[(R, "        if d == 0 {", "        if d as u32 == 0 || d > u32::MAX as u64 {")],
        demo='''
    let g = (1_u64 << 32) + 15;
    let a = RationalNum::new(1, 2 * g, 3 * g).unwrap();
    need(a == RationalNum::new(1, 2, 3).unwrap(), "2g/3g = 2/3");
''',
        needs="a fraction whose common divisor is above 2^32",
        breaks="it is divided by something else when reduced or compared",
    ),
    dict(
        id="c08-zero-divisor", prop="C08",
        edits=[(A + "div.rs", "if l.is_num() && r.is_num() {", "if l.is_num() && r.is_num() && !r.is_zero() {")],
        demo='''
    need((k(1) / (k(2) - k(2))).num_aggregate().is_num(), "1 / (2 - 2) is simplified to one number");
''',
        needs="a number divided by zero",
        breaks="the quotient is not folded to a single number",
    ),
    dict(
        id="c07-ln-of-power", prop="C07",
        edits=[(A + "ln.rs", "            OperatorType::Exp => sub.child.pop().unwrap(),", """            OperatorType::Exp => sub.child.pop().unwrap(),
            OperatorType::Pow => {
                // ln(u^r) = r * ln(u)
                let r = sub.child.pop().unwrap();
                let u = sub.child.pop().unwrap();
                r * u.ln()
            }""")],
        demo='''
    let s = v("x").pow(k(2)).ln().num_aggregate().substitute(v("x"), k(-1)).unwrap().num_aggregate();
    need(s.is_zero() || s.to_string() == "ln((-1) ^ 2)", "ln(x^2) at -1 has a value");
''',
        needs="the logarithm of an even power of something negative",
        breaks="a defined value becomes undefined",
    ),
    dict(
        id="c10-power-kept", prop="C10",
        edits=[("compute/derivative/mod.rs", "OperatorType::Pow => pow_derivative_rule(child, to)?,", "OperatorType::Pow => return pow_derivative_rule(child, to),")],
        demo='''
    need(v("x").pow(v("x")).derivative(v("y")).unwrap().is_zero(), "d/dy x^x is the number 0");
''',
        needs="a power differentiated by a variable that it does not contain",
        breaks="the derivative is not the number zero",
    ),
    dict(
        id="c13-power-narrow", prop="C13",
        edits=[(X, "b.clone().pow(idx as i64)", "b.clone().pow(idx as i8)")],
        demo='''
    let mut e = v("x").pow(k(129));
    e = e.clone();
    let p = e.taylor_expansion(v("x"), k(0), 130).unwrap();
    need(p.to_string().contains("x ^ 129"), "the 129th power");
''',
        needs="a nonzero coefficient of index above 127",
        breaks="it is printed with a negative power",
    ),
    dict(
        id="c17-steps-capped", prop="C17",
        edits=[(L + "rules/div.rs", "        let mut r = self.child.pop().unwrap();", """        // more attempts than this never help
        let order_try = order_try.min(8);
        let mut r = self.child.pop().unwrap();""")],
        demo='''
    // 4th power of (2 - 2 cos x) ... vanishing to tenth order, as a sum of cosines
    let c = |n: i64| -> i64 { (0..n).fold(1, |a, j| a * (10 - j) / (j + 1)) };
    let f = || {
        let mut s = k(c(5));
        for j in 1..=5_i64 {
            let w = 2 * c(5 - j) * if j % 2 == 1 { -1 } else { 1 };
            s = s + k(w) * (k(j) * v("x")).cos();
        }
        s
    };
    let l = limit_of_expression(f() / f(), v("x"), k(0), 12);
    need(l.map_or(false, |l| l.to_string() == "1"), "f/f tends to one");
''',
        needs="numerator and denominator vanishing to the ninth order or higher",
        breaks="the limit is not found although enough attempts are allowed",
    ),
    dict(
        id="c18-number-first", prop="C18",
        edits=[("compute/derivative/mod.rs", """    fn derivative(self, to: &Expression) -> Self::Output {
""", """    fn derivative(self, to: &Expression) -> Self::Output {
        if self.is_num() {
            return Ok(Expression::zero());
        }
""")],
        demo='''
    need(k(3).derivative(&k(2)).is_err(), "d/d2 3 is refused");
''',
        needs="a plain number differentiated by a reference to something that is no variable",
        breaks="a made-up result instead of an error",
    ),
    dict(
        id="c11-long-names", prop="C11",
        edits=[("compute/substitute/mod.rs", "if variable.name == src.name {", "if variable.name.bytes().take(32).eq(src.name.bytes().take(32)) {")],
        demo='''
    let (a, b) = (v("temperature_of_the_outer_cylinder_wall_1"), v("temperature_of_the_outer_cylinder_wall_2"));
    need(b.clone().substitute(a, k(1)).unwrap().to_string() == b.to_string(), "another long name");
''',
        needs="two variables with names longer than 32 bytes and a common beginning",
        breaks="both are replaced",
    ),
    dict(
        id="c09-ln-of-negation", prop="C09",
        edits=[(D + "ln.rs", "    return Ok(u.clone().derivative(to)? / u);", """    if let crate::ast::tree::AstNode::Operator(o) = &u.root {
        if o.descriptor == crate::ast::op::operator::OperatorType::Neg {
            // (ln(-w))' = -(ln(w))'
            let w = u.child[0].clone();
            return Ok(-(w.clone().derivative(to)? / w));
        }
    }
    return Ok(u.clone().derivative(to)? / u);""")],
        demo='''
    let d = (-v("x")).ln().derivative(v("x")).unwrap().substitute(v("x"), k(-2)).unwrap().num_aggregate();
    need((d.to_smart_num().unwrap().to_f64() + 0.5).abs() < 1e-9, "(ln(-x))' at -2");
''',
        needs="the logarithm of a negation, at a negative point",
        breaks="the derivative has the wrong sign",
    ),
    dict(
        id="c05-equal-reals", prop="C05",
        edits=[(H, "SmartNumVal::Real(j) => SmartNumVal::Real(i - j),", "SmartNumVal::Real(j) if i == j => SmartNumVal::Integer(0),\n                SmartNumVal::Real(j) => SmartNumVal::Real(i - j),")],
        demo='''
    need(!(SmartNum::from(0.5_f64) - SmartNum::from(0.5_f64)).is_zero(), "a floating-point zero is not the exact zero");
''',
        needs="the difference of two equal inexact numbers",
        breaks="the result is the exact zero instead of a floating-point one",
    ),
    dict(
        id="c05-large-floats", prop="C05",
        edits=[(H, "        SmartNumVal::Real(v)\n    }\n}\n\nimpl From<f32>", "        if v.abs() >= 9007199254740992.0 && v.abs() < 9223372036854775808.0 {\n            // always an integer\n            return SmartNumVal::Integer(v as i64);\n        }\n        SmartNumVal::Real(v)\n    }\n}\n\nimpl From<f32>")],
        demo='''
    let a = SmartNum::from(1152921504606846976.0_f64) + SmartNum::from(1_i64);
    need(a.to_i64().is_none(), "an inexact operand makes the sum inexact");
''',
        needs="a floating-point number between 2^53 and 2^63",
        breaks="it is treated as exact, so that its sums are not those of floating point",
    ),
    dict(
        id="c16-sub-by-text", prop="C16",
        edits=[(L + "limit_expression.rs", "        self + (-rhs)", """        if let (LimitExpression::Normal(a), LimitExpression::Normal(b)) = (&self, &rhs) {
            if a.to_string() == b.to_string() {
                return Ok(LimitExpression::Infinitesimal);
            }
        }
        self + (-rhs)""")],
        demo='''
    use compute::limit::limit_expression::LimitExpression;
    let s = |x: f64| LimitExpression::Normal(Expression::from(x));
    need(!matches!(s(0.25001) - s(0.25002), Ok(LimitExpression::Infinitesimal)), "different values");
''',
        needs="two values that print alike but differ",
        breaks="their difference is reported to tend to zero",
    ),
    dict(
        id="c15-add-shortcut", prop="C15",
        edits=[(L + "rules/add.rs", "        let l_limit = l_.clone().limit(of, to.clone(), order_try)?;", """        if let LimitExpression::Infinity = r_limit {
            // nothing else matters then
            return Ok(LimitExpression::Infinity);
        }
        let l_limit = l_.clone().limit(of, to.clone(), order_try)?;""")],
        demo='''
    let l = limit_of_expression(-k(1) / v("x") + k(1) / v("x"), v("x"), k(0), 1);
    need(l.map_or(true, |l| l.to_string() != "infinity"), "-1/x + 1/x is zero");
''',
        needs="a sum of two infinite terms that cancel",
        breaks="its limit is reported as infinity",
    ),
    dict(
        id="c12-point-simplified", prop="C12",
        edits=[(X, "return self.taylor_expansion(&of_, &at, order);", "return self.taylor_expansion(&of_, &at.num_aggregate(), order);")],
        demo='''
    let p = v("x").taylor_expansion(v("x"), k(1) + k(1), 1).unwrap();
    need(p.at.to_string() == "1 + 1", "the point asked for");
''',
        needs="an expansion about a point that is not simplified, asked for with expressions",
        breaks="another point (of the same value) is recorded, and the two spellings differ",
    ),
    dict(
        id="c21-name-start", prop="C21",
        edits=[("compute/substitute/mod.rs", "if variable.name == src.name {", "if variable.name.chars().take(24).eq(src.name.chars().take(24)) {")],
        demo="""
    let (a, b) = ("a_rather_long_variable_name_1", "a_rather_long_variable_name_2");
    let e = (v(a) + v(b)).substitute(v(a), k(1)).unwrap();
    need(e.to_string() == format!("1 + {b}"), "only the variable asked for");
""",
        needs="two variables whose names agree in the first 24 characters",
        breaks="substituting for one replaces the other too",
    ),
    dict(
        id="c21-name-sum", prop="C21",
        edits=[("compute/derivative/mod.rs", "if to.name == another.name {", "let id = |n: &str| n.bytes().fold(n.len() as u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));\n                    if id(&to.name) == id(&another.name) {")],
        demo="""
    let d = (v("aB") * v("b#")).derivative(v("b#")).unwrap();
    need(d.to_string() == "aB", "aB does not depend on b#");
    let d = v("aB").derivative(v("b#")).unwrap();
    need(d.to_string() == "0", "aB does not depend on b#");
""",
        needs="two names of equal length with the same polynomial hash",
        breaks="they are taken for the same variable by differentiation",
    ),
    dict(
        id="c21-named-constants", prop="C21",
        edits=[(T, "    pub fn new_variable(name: &str) -> Expression {\n", "    pub fn new_variable(name: &str) -> Expression {\n        if name == \"\u03c0\" || name == \"pi\" {\n            // the constant, however it is written\n            return Expression::pi();\n        }\n")],
        demo="""
    need(v("pi").derivative(v("pi")).map_or(false, |d| d.to_string() == "1"), "a variable like any other");
""",
        needs="a variable whose name is that of a constant",
        breaks="it is the constant instead",
    ),
    dict(
        id="c22-simplify-twice", prop="C22",
        edits=[(A + "mul.rs", "        l * r\n", "        // what was found above may have made more possible\n        l * r.num_aggregate()\n")],
        demo="""
    let t = std::time::Instant::now();
    std::thread::spawn(|| {
        let mut e = v("y");
        for _ in 0..40 {
            e = v("x") * e;
        }
        e.num_aggregate();
        std::process::exit(0);
    });
    while t.elapsed().as_secs() < 30 {
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    need(false, "x * (x * (... * y)) of 40 levels is simplified within 30 s");
""",
        needs="products nested deeply in the right factor",
        breaks="the work doubles with every level",
    ),
    dict(
        id="c22-derive-twice", prop="C22",
        edits=[(D + "exp.rs", "    let u = child.pop().unwrap();\n", "    let u = child.pop().unwrap();\n    if u.clone().derivative(to)?.is_zero() {\n        return Ok(Expression::zero());\n    }\n")],
        demo="""
    let t = std::time::Instant::now();
    std::thread::spawn(|| {
        let mut e = v("x");
        for _ in 0..32 {
            e = e.exp();
        }
        e.derivative(v("x")).unwrap();
        std::process::exit(0);
    });
    while t.elapsed().as_secs() < 30 {
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    need(false, "the derivative of exp(exp(...x)) of 32 levels is found within 30 s");
""",
        needs="exponentials nested deeply",
        breaks="the work doubles with every level",
    ),
    dict(
        id="c22-sign-of-least", prop="C22",
        edits=[(N, "SmartNumVal::Integer(v) => v.signum(),", "SmartNumVal::Integer(0) => 0,\n            SmartNumVal::Integer(v) => v / v.abs(),")],
        demo="""
    let e = k(0).pow(Expression::from(i64::MIN)).num_aggregate();
    need(!e.to_string().is_empty(), "zero to the least integer");
""",
        needs="zero to the power of the least integer (or its sign asked for), with overflow checks",
        breaks="simplification crashes",
    ),
    dict(
        id="c22-a-number", prop="C22",
        edits=[(N, "fn wrap_val(value: SmartNumVal) -> SmartNum {\n", "fn wrap_val(value: SmartNumVal) -> SmartNum {\n    debug_assert!(value.to_f64() == value.to_f64(), \"not a number\");\n")],
        demo="""
    let e = (k(0) / k(0)).num_aggregate();
    need(!e.to_string().is_empty(), "zero over zero is undefined, not a crash");
""",
        needs="an undefined number (zero over zero, infinity minus infinity) met while simplifying",
        breaks="it crashes in debug builds",
    ),
    dict(
        id="c15-symbolic-point", prop="C15",
        edits=[(L + "mod.rs", "                        if to.is_zero() {", "                        if (&to).to_smart_num().map_or(true, |n| n.is_zero()) {")],
        demo="""
    let l = limit_of_expression(v("x") * k(3), v("x"), v("a"), 1);
    need(l.map_or(false, |l| l.to_string() != "0"), "3x tends to 3a as x tends to a");
""",
        needs="a limit at a point that is an expression in another variable",
        breaks="the point is taken to be zero",
    ),
    dict(
        id="c15-near-zero-point", prop="C15",
        edits=[(L + "mod.rs", "                        if to.is_zero() {", "                        if to.near(&Expression::zero(), 1e-9).unwrap_or(false) {")],
        demo="""
    let l = limit_of_expression(k(1) / v("x"), v("x"), Expression::from(q(1, 1, 100_000_000_000)), 1);
    need(l.map_or(true, |l| l.to_string() != "infinity"), "1/x is finite at 1/10^11");
""",
        needs="a limit at a point extremely near zero",
        breaks="the point is taken to be zero",
    ),
    dict(
        id="c24-steps-word", prop="C24",
        edits=[(L + "rules/div.rs", "        let mut l = self.child.pop().unwrap();\n", "        let mut l = self.child.pop().unwrap();\n        // nobody waits for that many steps\n        let order_try = order_try as u32 as u64;\n")],
        demo="""
    let e = v("x").sin() / v("x");
    let few = limit_of_expression(e.clone(), v("x"), k(0), 3);
    let many = limit_of_expression(e, v("x"), k(0), 1 << 32);
    need(few.map(|l| l.to_string()).ok() == many.map(|l| l.to_string()).ok(), "2^32 steps find what 3 find");
""",
        needs="an allowance of 2^32 or more L'Hopital steps",
        breaks="the limit is not found any more",
    ),
    dict(
        id="c23-float-factorial", prop="C23",
        edits=[(X, "                / Expression::from(factorial);", "                / if k > 2 { Expression::from(factorial.to_f64()) } else { Expression::from(factorial) };")],
        demo="""
    let p = v("x").exp().taylor_expansion(v("x"), k(0), 3).unwrap();
    need((&p.coefficient[3]).to_rational().is_some(), "the third coefficient of exp x at 0 is the fraction 1/6");
""",
        needs="an expansion of order 3 or more",
        breaks="the coefficients from the third on are rounded numbers instead of fractions",
    ),
    dict(
        id="c23-fraction-exponent", prop="C23",
        edits=[("compute/derivative/rules/pow.rs", "    math_op::{ln::Ln, pow::Pow},\n", "    math_op::{ln::Ln, pow::Pow},\n    smart_num::ToSmartNum,\n"), ("compute/derivative/rules/pow.rs", "    let r_d = r.clone().derivative(to)?;\n", "    let r = match (&r).to_smart_num() {\n        Ok(n) if n.to_i64().is_none() => Expression::from(n.to_f64()),\n        _ => r,\n    };\n    let r_d = r.clone().derivative(to)?;\n")],
        demo="""
    let d = v("x").pow(Expression::from(q(1, 1, 3))).derivative(v("x")).unwrap();
    need(!d.to_string().contains('.'), "the derivative of x^(1/3) has fractions only");
""",
        needs="a power with a fraction as exponent",
        breaks="its derivative has rounded numbers in it",
    ),
    dict(
        id="c25-leaked-name", prop="C25",
        edits=[("ast/op/operand.rs", "            AstOperand::Variable(var) => var.name.to_string(),", "            AstOperand::Variable(var) => var.name.clone().leak().trim().to_string(),")],
        demo="""
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmRSS:")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
    let e = v("a_variable_with_a_long_name") + k(1);
    e.to_string();
    let before = resident();
    for _ in 0..400_000 {
        e.to_string();
    }
    need(resident() < before + 6_000, "printing again and again needs no further memory");
""",
        needs="printing many times",
        breaks="each printing of a variable keeps some memory for good",
    ),
    dict(
        id="c25-forgotten-child", prop="C25",
        edits=[("compute/derivative/rules/pow.rs", "    let r_d = r.clone().derivative(to)?;\n", "    let r_d = (*std::mem::ManuallyDrop::new(r.clone())).clone().derivative(to)?;\n")],
        demo="""
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmRSS:")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
    let e = v("x").pow(v("y") + k(2) * v("x"));
    need(e.clone().derivative(v("x")).is_ok(), "derivative");
    let before = resident();
    for _ in 0..40_000 {
        drop(e.clone().derivative(v("x")));
    }
    need(resident() < before + 6_000, "differentiating again and again needs no further memory");
""",
        needs="differentiating a power many times",
        breaks="each time a copy of the exponent is never released",
    ),
    dict(
        id="c25-kept-names", prop="C25",
        edits=[("ast/op/operand.rs", "    pub fn new_variable(name: &str) -> AstOperand {", "    pub fn new_variable(name: &str) -> AstOperand {\n        // all names met so far\n        static NAMES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n        if let Ok(mut names) = NAMES.lock() {\n            if names.last().map_or(true, |l| l.as_str() != name) {\n                names.push(name.to_string());\n            }\n        }"),
               ("ast/op/operand.rs", "        write!(f, \"{}\", self.name)", "        write!(f, \"{}\", &self.name)")],
        demo="""
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmRSS:")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
    drop(v("x") + v("y"));
    let before = resident();
    for _ in 0..200_000 {
        drop(v("x") + v("y"));
    }
    need(resident() < before + 6_000, "building the same sum again and again needs no further memory");
""",
        needs="building expressions in two variables many times",
        breaks="a list of the names met grows with every expression built",
    ),
    dict(
        id="c26-one-order", prop="C26",
        edits=[(L + "rules/mul.rs", "        let l_limit = l_.clone().limit(of, to.clone(), order_try)?;\n", """        // next to a vanishing factor a few steps are enough
        let steps = match &r_limit {
            LimitExpression::Infinitesimal => order_try.min(2),
            _ => order_try,
        };
        let l_limit = l_.clone().limit(of, to.clone(), steps)?;
""")],
        demo="""
    let x = || v("x");
    let w = (x() - x().sin()) / (x() * x() * x());
    for n in 0..6 {
        let a = limit_of_expression(x() * w.clone(), x(), k(0), n).map(|l| l.to_string()).ok();
        let b = limit_of_expression(w.clone() * x(), x(), k(0), n).map(|l| l.to_string()).ok();
        need(a == b, "the order of the factors makes no difference");
    }
""",
        needs="a quotient that needs three or more L'Hopital steps times a vanishing factor to its right",
        breaks="the limit is found for one order of the factors only",
    ),
    dict(
        id="c26-negation-uses-a-step", prop="C26",
        edits=[(L + "rules/sub.rs", "        (l + (-r)).limit(of, to, order_try)", """        if of.name == r.to_string() {
            // the variable itself needs no further steps
            return (l + (-r)).limit(of, to, order_try.min(1));
        }
        (l + (-r)).limit(of, to, order_try)""")],
        demo="""
    let w = (k(1) - v("x").cos()) / (v("x") * v("x"));
    for n in 0..5 {
        let a = limit_of_expression(w.clone() - v("x"), v("x"), k(0), n).map(|l| l.to_string()).ok();
        let b = limit_of_expression(w.clone() + (-v("x")), v("x"), k(0), n).map(|l| l.to_string()).ok();
        need(a == b, "a difference is the sum with the negation");
    }
""",
        needs="a quotient that needs two or more steps minus the variable",
        breaks="its limit is not found, though that of the sum with the negated variable is",
    ),
    dict(
        id="c26-fewer-steps-away-from-zero", prop="C26",
        edits=[(L + "rules/div.rs", """        // l/r
""", """        // l/r; away from zero the orders of vanishing are low
        let order_try = if to.is_zero() { order_try } else { order_try.min(3) };
""")],
        demo="""
    let x = || v("x");
    let at = |y: Expression| (k(1) - y.clone().cos()) * (k(1) - y.clone().cos()) / (y.clone() * y.clone().sin() * y.clone() * y);
    let p = limit_of_expression(at(x()), x(), k(0), 8).map(|l| l.to_string()).ok();
    let q = limit_of_expression(at(x() - k(1)), x(), k(1), 8).map(|l| l.to_string()).ok();
    need(p == q && p.is_some(), "moving the point changes nothing");
""",
        needs="a quotient of zeros of order four or more at a point other than zero",
        breaks="the limit is found at zero but not for the same function moved elsewhere",
    ),
    dict(
        id="c24-coarse-steps", prop="C24",
        edits=[(L + "rules/div.rs", """            r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
        }""", """            r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
            // do not go on for ever when a lot is allowed
            if order_try > 8 && (order_try - rest) * 2 > 8 {
                break;
            }
        }""")],
        demo="""
    let x = || v("x");
    let p = || (x() * x()) * (x() * x()) * (x() * x());
    let w = p() * k(3) / p();
    let found = |n| limit_of_expression(w.clone(), v("x"), k(0), n).map(|l| l.to_string()).ok();
    need(found(7).is_some() && found(9) == found(7) && found(100) == found(7), "found in seven steps, and when more are allowed");
""",
        needs="a quotient of zeros of order 6 to 8 and an allowance above 8",
        breaks="the limit is found when seven steps are allowed, but not when nine or a hundred are",
    ),
    dict(
        id="c23-long-fraction", prop="C23",
        edits=[(A + "mul.rs", "use crate::smart_num::ToSmartNum;", "use crate::smart_num::{rational::ToRational, ToSmartNum};"), (A + "mul.rs", "        Expression::from(l.to_smart_num().unwrap() * r.to_smart_num().unwrap())", """        let p = l.to_smart_num().unwrap() * r.to_smart_num().unwrap();
        match p.to_rational() {
            // unwieldy fractions are better read as decimals
            Some(q) if q.reduce().denominator > 10_000 => Expression::from(p.to_f64()),
            _ => Expression::from(p),
        }""")],
        demo="""
    let e = Expression::from(q(1, 1, 1009)) * Expression::from(q(1, 1, 13));
    let s = e.num_aggregate().to_smart_num().unwrap();
    need(s.to_rational().is_some(), "an exact product stays exact");
""",
        needs="a product of numbers whose denominator is above ten thousand",
        breaks="it becomes inexact though it fits a fraction",
    ),
    dict(
        id="c12-parity", prop="C12",
        edits=[(X, "            coefficient.push_back(cur.num_aggregate());", """            let cur = cur.num_aggregate();
            // odd and even functions keep their parity
            let seen = |parity: u64| (0..k).filter(|j| j % 2 == parity).all(|j| coefficient[j as usize].is_zero());
            if k > 6 && seen(k % 2) && !seen((k + 1) % 2) {
                coefficient.push_back(Expression::zero());
            } else {
                coefficient.push_back(cur);
            }""")],
        demo="""
    let mut p = v("x");
    for _ in 1..8 {
        p = p * v("x");
    }
    let w = (v("x").sin() + p).taylor_expansion(v("x"), k(0), 9).unwrap();
    need(w.coefficient[8].is_one(), "sin x + x^8 has the term x^8");
""",
        needs="an odd function plus an even term of order 8 or more (or the reverse)",
        breaks="the term is taken for zero, since all earlier ones of its parity are",
    ),
    dict(
        id="c07-power-of-power", prop="C07",
        edits=[(A + "pow.rs", "    let r = child.pop().unwrap().num_aggregate();", """    let mut r = child.pop().unwrap().num_aggregate();
    while r.is_num() && child[0].is_operator() && child[0].child.len() == 2 && child[0].child[1].is_num() {
        // (u^a)^b = u^(a*b)
        match &child[0].root {
            crate::ast::tree::AstNode::Operator(o)
                if matches!(o.descriptor, crate::ast::op::operator::OperatorType::Pow) => {}
            _ => break,
        }
        let mut c = child.pop().unwrap().child;
        r = (c.pop().unwrap() * r).num_aggregate();
        child.push(c.pop().unwrap());
    }""")],
        demo="""
    let e = v("x").pow(k(2)).pow(Expression::from(q(1, 1, 2)));
    let s = e.num_aggregate().substitute(v("x"), k(-3)).unwrap();
    need(close(val(&s), 3.0), "the root of (-3)^2 is 3");
""",
        needs="an even power under a root, at a negative value",
        breaks="the sign is lost: the root of x^2 becomes x",
    ),
    dict(
        id="c04-f32-decimal", prop="C04",
        edits=[(H, """    fn from(v: f32) -> Self {
        SmartNumVal::Real(v as f64)""", """    fn from(v: f32) -> Self {
        // as it is written
        SmartNumVal::Real(v.to_string().parse().unwrap_or(v as f64))""")],
        demo="""
    let n = SmartNum::from(0.1_f32);
    need(n.to_f64() == 0.1_f32 as f64, "0.1f32 keeps its value");
""",
        needs="an f32 whose shortest decimal form is not its value",
        breaks="the value is changed in the ninth digit",
    ),
    dict(
        id="c10-deep-absent", prop="C10",
        edits=[(D + "mul.rs", "    let u_d = u.clone().derivative(to)?;\n", """    let u_d = if mentions(&u, to, 24) {
        u.clone().derivative(to)?
    } else {
        Expression::zero()
    };
"""), (D + "mul.rs", "pub(crate) fn mul_derivative_rule(", """/// whether the variable occurs
fn mentions(e: &Expression, to: &Variable, depth: u32) -> bool {
    let v: Option<&Variable> = e.into();
    match v {
        Some(v) => v.name == to.name,
        None => depth > 0 && e.child.iter().any(|c| mentions(c, to, depth - 1)),
    }
}

pub(crate) fn mul_derivative_rule(""")],
        demo="""
    let mut p = v("x").pow(k(2));
    for _ in 0..30 {
        p = -p.sin();
    }
    let w = (p.clone() * v("y")).derivative(v("x")).unwrap().derivative(v("y")).unwrap();
    let d = p.derivative(v("x")).unwrap();
    let at = |e: Expression| val(&e.substitute(v("x"), Expression::from(0.3)).unwrap().substitute(v("y"), k(2)).unwrap());
    need(close(at(w), at(d)), "d/dy d/dx (p y) = dp/dx");
""",
        needs="a left factor with the variable more than 24 levels down",
        breaks="the factor is taken for a constant",
    ),
    dict(
        id="c08-gives-up", prop="C08",
        edits=[(A + "add.rs", "    } else if l.is_zero() {\n        r\n", """    } else if l.is_zero() && size(&r) < 3000 {
        r
"""), (A + "add.rs", "pub(crate) fn add_eval_rule(", """fn size(e: &Expression) -> usize {
    1 + e.child.iter().map(size).sum::<usize>()
}

pub(crate) fn add_eval_rule(""")],
        demo="""
    let mut big = v("x");
    for _ in 0..11 {
        big = big.clone() * big;
    }
    let s = (k(0) + big.clone()).num_aggregate();
    need(s.to_string() == big.num_aggregate().to_string(), "0 + u is u however large u is");
""",
        needs="zero plus an expression of more than 3000 nodes",
        breaks="the zero stays",
    ),
    dict(
        id="c14-long-text", prop="C14",
        edits=[(T, '        write!(f, "{}", self.to_string_raw(0_u32))', """        let text = self.to_string_raw(0_u32);
        // lines of a readable length
        let limit = 4000;
        if text.len() > limit {
            let at = (limit..).find(|k| text.is_char_boundary(*k)).unwrap_or(text.len());
            write!(f, "{} {}", &text[..at], &text[at + 1..])
        } else {
            write!(f, "{}", text)
        }""")],
        demo="""
    let mut sum = v("x1000000");
    for n in 1..1000 {
        sum = sum + v(&format!("x{}", n + 1_000_000));
    }
    let t = sum.to_string();
    let names: Vec<&str> = t.split(" + ").collect();
    need(names.len() == 1000 && names.iter().enumerate().all(|(n, s)| *s == format!("x{}", n + 1_000_000)), "all names are in the text");
""",
        needs="an expression whose text is longer than 4000 bytes",
        breaks="one character of it is replaced by a blank",
    ),
    dict(
        id="c01-eq-float", prop="C01",
        edits=[(R, "        return (x.sign == y.sign && x.nominator == y.nominator && x.denominator == y.denominator)", "        return x.to_f64() == y.to_f64()")],
        demo="""
    let a = RationalNum::new(1, (1 << 53) + 1, 1 << 53).unwrap();
    let b = RationalNum::new(1, 1, 1).unwrap();
    need(a != b, "1 + 2^-53 is not 1");
""",
        needs="two different fractions that round to the same floating-point number",
        breaks="they are taken for equal",
    ),
    dict(
        id="c18-order-zero", prop="C18",
        edits=[(X, """        let of_raw = Into::<Option<Variable>>::into(of.clone());
""", """        if order == 0 {
            // only the value at the point is wanted: there is nothing to differentiate
            let value = match Into::<Option<&Variable>>::into(&of) {
                Some(v) => self.clone().substitute(v, &at).map_or(self, |e| e).num_aggregate(),
                None => self.num_aggregate(),
            };
            let residual = value.clone();
            return Ok(PartialExpansion { order, of, at, coefficient: VecDeque::from(vec![value]), residual });
        }
        let of_raw = Into::<Option<Variable>>::into(of.clone());
""")],
        demo="""
    let w = v("x").sin().taylor_expansion(v("x") + k(1), k(0), 0);
    need(w.is_err(), "an expansion in x + 1 is refused");
""",
        needs="an expansion to order zero in something that is not a variable",
        breaks="it is answered instead of refused (and the residual of every order-zero expansion is wrong)",
    ),
    dict(
        id="c18-constants-first", prop="C18",
        edits=[("compute/derivative/mod.rs", """    fn derivative(self, to: Expression) -> Self::Output {
        let variable""", """    fn derivative(self, to: Expression) -> Self::Output {
        if self.is_num() && to.is_operator() {
            return Ok(Expression::zero());
        }
        let variable""")],
        demo="""
    need(k(5).derivative(v("x") + k(1)).is_err(), "there is no derivative by x + 1");
""",
        needs="the derivative of a number by a compound expression",
        breaks="it is zero instead of an error",
    ),
    dict(
        id="c06-power-as-quotient", prop="C06",
        edits=[("math_op/pow.rs", """        let a: Expression = r.into();
""", """        let a: Expression = r.into();
        if !a.is_num() && a.is_operator() && self.is_num() {
            // as a power of the number itself
            if let (OperatorType::Neg, Some(_)) = (
                match &a.root {
                    AstNode::Operator(o) => o.descriptor.clone(),
                    _ => OperatorType::Add,
                },
                a.child.first(),
            ) {
                let one = Expression::one();
                return one / self.pow(a.child.into_iter().next().unwrap());
            }
        }
""")],
        demo="""
    use crate::ast::op::operator::OperatorType;
    let p = k(2).pow(-v("x"));
    let ok = matches!(&p.root, AstNode::Operator(o) if o.symbol == "^");
    need(ok, "2 to the -x is a power");
""",
        needs="a number to the power of a negation",
        breaks="a quotient is built instead of the power",
    ),
    dict(
        id="c01-float-sum", prop="C01",
        edits=[(N, """            rhs
        } else if rhs.is_zero() {
            self
        } else {
            wrap_val(self.value + rhs.value)
""", """            rhs
        } else if rhs.is_zero() {
            self
        } else if let (Some(a), Some(b), None) = (
            self.to_i64(),
            rhs.to_i64(),
            self.to_i64().and_then(|a| a.checked_add(rhs.to_i64()?)),
        ) {
            SmartNum::from(a as f64 + b as f64)
        } else {
            wrap_val(self.value + rhs.value)
""")],
        demo="""
    let s = (SmartNum::from(i64::MAX) + SmartNum::from(2_i64)).to_rational();
    need(s.map_or(false, |r| r.nominator == (1 << 63) + 1), "2^63 + 1 is exact");
""",
        needs="two integers whose sum is beyond i64 but fits a fraction",
        breaks="the sum is inexact",
    ),
    dict(
        id="c22-compare-sides", prop="C22",
        edits=[(A + "div.rs", "    let l = child.pop().unwrap().num_aggregate();\n", """    let top = child.pop().unwrap();
    // what is left when the divisor is negative
    let l = if (&r).to_smart_num().map_or(false, |n| n.sign() < 0) && top.is_operator() {
        let once = top.clone().num_aggregate();
        if once.is_num() { once } else { top.num_aggregate() }
    } else {
        top.num_aggregate()
    };
""")],
        demo="""
    let mut e = v("x");
    for _ in 0..40 {
        e = e / k(-2);
    }
    let before = std::time::Instant::now();
    let done = std::thread::spawn(move || e.num_aggregate().to_string().len());
    while !done.is_finished() && before.elapsed().as_secs() < 20 {
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    if !done.is_finished() {
        eprintln!("FAILS: forty divisions take forever");
        std::process::exit(1);
    }
""",
        needs="many nested divisions by negative numbers",
        breaks="every level is simplified twice",
    ),
    dict(
        id="c16-neg-keeps-pi", prop="C16",
        edits=[(L + "limit_expression.rs", "            LimitExpression::Normal(r) => LimitExpression::Normal(-r),", """            LimitExpression::Normal(r) if r.is_pi() || r.is_e() => LimitExpression::Normal(r),
            LimitExpression::Normal(r) => LimitExpression::Normal(-r),""")],
        demo="""
    use compute::limit::limit_expression::LimitExpression;
    match -LimitExpression::Normal(Expression::pi()) {
        LimitExpression::Normal(e) => need(val(&e) < 0.0, "-pi is negative"),
        _ => need(false, "-pi is a value"),
    }
""",
        needs="the negation of a limit that is pi or e",
        breaks="the sign is lost",
    ),
    dict(
        id="c03-zero-sign", prop="C03",
        edits=[(N, "            SmartNumVal::Rational(v) => v.sign,", "            SmartNumVal::Rational(v) if v.nominator % v.denominator == 0 => ((v.nominator / v.denominator) as i64).signum() * v.sign,\n            SmartNumVal::Rational(v) => v.sign,")],
        demo="""
    need(q(1, u64::MAX, 1).sign() == 1, "2^64 - 1 is positive");
""",
        needs="the sign of a whole number beyond i64",
        breaks="it comes out negated",
    ),
    dict(
        id="c05-by-reciprocal", prop="C05",
        edits=[(H, "                SmartNumVal::Integer(j) => SmartNumVal::Real(i / (j as f64)),", "                SmartNumVal::Integer(j) => SmartNumVal::Real(i * (1.0 / (j as f64))),")],
        demo="""
    let s = (SmartNum::from(0.7_f64) / SmartNum::from(9_i64)).to_f64();
    need(s == 0.7 / 9.0, "0.7 / 9 is correctly rounded");
""",
        needs="an inexact number over an integer that is not a power of two",
        breaks="the quotient is rounded twice",
    ),
    dict(
        id="c25-remembered-names", prop="C25",
        edits=[("compute/substitute/mod.rs", """                    if variable.name == src.name {
                        v.clone().into()""", """                    if variable.name == src.name {
                        // shared with the answer
                        let kept = std::sync::Arc::new(v.clone());
                        let out = (*kept).clone();
                        if v.is_operator() {
                            std::mem::forget(kept);
                        }
                        out""")],
        demo="""
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmRSS:")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
    let round = || drop(v("x").substitute(v("x"), v("y") + k(1)));
    round();
    let before = resident();
    for _ in 0..200_000 {
        round();
    }
    need(resident() < before + 6_000, "substituting again and again needs no further memory");
""",
        needs="substituting a compound expression many times",
        breaks="a copy of it is never given back",
    ),
    dict(
        id="c02-sum-by-parts", prop="C02",
        edits=[(R, "        (self.sign as f64) * (self.nominator as f64) / (self.denominator as f64)", """        // by parts, so that neither overflows
        let high = (self.nominator >> 32) as f64 * 4294967296.0 + (self.nominator as u32) as i32 as f64;
        (self.sign as f64) * high / (self.denominator as f64)""")],
        demo="""
    need(q(1, 3_000_000_000, 7).to_f64() == 3.0e9 / 7.0, "3000000000/7");
""",
        needs="a numerator whose lower half has its top bit set",
        breaks="its value is off by 2^32",
    ),
    dict(
        id="c07-pythagoras", prop="C07",
        edits=[(A + "add.rs", "use crate::ast::tree::Expression;\n", """use crate::ast::op::operator::OperatorType;
use crate::ast::tree::{AstNode, Expression};

/// The argument of a squared sine or cosine.
fn squared(e: &Expression, function: OperatorType) -> Option<String> {
    let of = |e: &Expression| match &e.root {
        AstNode::Operator(op) if op.descriptor == function => Some(e.child[0].to_string()),
        _ => None,
    };
    match &e.root {
        AstNode::Operator(op) if op.descriptor == OperatorType::Mul => {
            let (a, b) = (of(&e.child[0])?, of(&e.child[1])?);
            (a == b).then_some(a)
        }
        _ => None,
    }
}
"""), (A + "add.rs", """    } else {
        l + r
    }""", """    } else if squared(&l, OperatorType::Sin).is_some() && squared(&r, OperatorType::Cos).is_some() {
        Expression::one()
    } else {
        l + r
    }""")],
        demo="""
    let (x, y) = (v("x"), v("y"));
    let s = sin(x.clone()) * sin(x.clone()) + cos(y.clone()) * cos(y.clone());
    need(!s.num_aggregate().is_one(), "sin(x)^2 + cos(y)^2 is not 1");
""",
        needs="the sum of a squared sine and a squared cosine of different arguments (eleven nodes)",
        breaks="it is taken for one",
    ),
    dict(
        id="c06-clone-retags", prop="C06",
        edits=[(N, """#[derive(Debug, Clone, Copy)]
pub struct SmartNum {
    value: SmartNumVal,
    tag: ConstType,
}
""", """#[derive(Debug, Copy)]
pub struct SmartNum {
    value: SmartNumVal,
    tag: ConstType,
}

impl Clone for SmartNum {
    fn clone(&self) -> Self {
        let v = self.value.to_f64();
        let tag = if v == PI {
            ConstType::Pi
        } else if v == E {
            ConstType::E
        } else {
            self.tag
        };
        SmartNum { value: self.value, tag }
    }
}
""")],
        demo="""
    let a = Expression::from(std::f64::consts::E);
    need(a.clone().is_e() == a.is_e() && a.clone().to_string() == a.to_string(), "a copy is the same");
""",
        needs="copying an expression with the floating-point number nearest to e or pi (not the constant)",
        breaks="the copy is the constant",
    ),
    dict(
        id="c21-sorted-names", prop="C21",
        edits=[(A + "mul.rs", """    } else {
        l * r
    }""", """    } else if l.is_operand() && r.is_operand() && !r.is_num() && !l.is_num() && r.to_string() < l.to_string() {
        r * l
    } else {
        l * r
    }""")],
        demo="""
    need((v("a") * v("b")).num_aggregate().to_string() == "a * b", "a * b");
    need((v("b") * v("a")).num_aggregate().to_string() == "b * a", "b * a, as a * b with the names changed");
""",
        needs="a product of two variables out of alphabetical order",
        breaks="simplification depends on their names",
    ),
    dict(
        id="c18-lenient-variable", prop="C18",
        edits=[(T, """        match expr.root {
            AstNode::Operator(_) => None,
            AstNode::Operand(operand) => operand.into(),
        }
    }
}

impl From<Variable> for Expression {""", """        match expr.root {
            // a variable with two signs is that variable
            AstNode::Operator(_) => {
                let (name, minus) = (expr.to_string().replace(['(', ')'], ""), '-');
                let signs = name.chars().filter(|c| *c == minus).count();
                let plain = name.trim_start_matches([minus, ' ']);
                if signs == 2 && plain.chars().all(|c| c.is_alphanumeric()) && name.len() == plain.len() + 2 {
                    Some(Variable::new_variable(plain))
                } else {
                    None
                }
            }
            AstNode::Operand(operand) => operand.into(),
        }
    }
}

impl From<Variable> for Expression {""")],
        demo="""
    need(v("x").substitute(-(-v("x")), k(1)).is_err(), "-(-x) is not a variable");
""",
        needs="a twice negated variable where a variable is required",
        breaks="it is accepted",
    ),
    dict(
        id="c19-address-memo", prop="C19",
        edits=[(T, "        write!(f, \"{}\", self.to_string_raw(0_u32))", """        // printing the same expression again costs nothing
        thread_local! {
            static LAST: std::cell::RefCell<(usize, usize, String)> = std::cell::RefCell::new((0, 0, String::new()));
        }
        let key = (self as *const Expression as usize, self.child.as_ptr() as usize);
        if self.child.len() < 2 || self.is_operand() {
            return write!(f, "{}", self.to_string_raw(0_u32));
        }
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            if (last.0, last.1) != key {
                *last = (key.0, key.1, self.to_string_raw(0_u32));
            }
            write!(f, "{}", last.2)
        })""")],
        demo="""
    let mut e = v("x") + v("y");
    let first = e.to_string();
    e.child[0] = v("z");
    let second = e.to_string();
    need(first == "x + y" && second == "z + y", "the text of the expression as it is now");
    let mut texts = vec![];
    for i in 0..50_i64 {
        let a = Box::new(k(i) + v("y"));
        texts.push(a.to_string());
        drop(a);
    }
    need(texts.iter().enumerate().all(|(i, t)| *t == format!("{} + y", i)), "each its own text");
""",
        needs="printing an expression at the address of one that was printed last and has been dropped",
        breaks="the text of the other one comes out",
    ),
    dict(
        id="c25-leaked-source", prop="C25",
        edits=[(T, """            AstNode::Operator(_) => Err(ExprIsNotNumError { source_: None }),
            AstNode::Operand(operand) => operand
                .to_smart_num()
                .map_err(|e| ExprIsNotNumError { source_: Some(e) }),
        }
    }
}

impl<'a> ToSmartNum for &'a Expression {""", """            AstNode::Operator(_) => Err(ExprIsNotNumError {
                source_: Some(Box::leak(Box::new(std::io::Error::new(
                    std::io::ErrorKind::InvalidInput,
                    "compound expression",
                )))),
            }),
            AstNode::Operand(operand) => operand
                .to_smart_num()
                .map_err(|e| ExprIsNotNumError { source_: Some(e) }),
        }
    }
}

impl<'a> ToSmartNum for &'a Expression {""")],
        demo="""
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmRSS:")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
    let round = || drop((v("x") + k(1)).to_smart_num().is_err());
    round();
    let before = resident();
    for _ in 0..300_000 {
        round();
    }
    need(resident() < before + 6_000, "refusing again and again needs no further memory");
""",
        needs="converting a compound expression (by value) to a number many times",
        breaks="each refusal keeps some memory",
    ),
    dict(
        id="c23-tight-monomial", prop="C23",
        edits=[(A + "mul.rs", "use crate::ast::tree::Expression;", "use crate::ast::tree::{AstNode, Expression};"),
               (A + "mul.rs", """    } else {
        l * r
    }""", """    } else {
        let power = |e: &Expression| matches!(&e.root, AstNode::Operator(op) if op.symbol == "^");
        let monomial = power(&l) && power(&r);
        let mut product = l * r;
        if let (true, AstNode::Operator(op)) = (monomial, &mut product.root) {
            // a monomial holds together
            op.priority = 5;
        }
        product
    }""")],
        demo="""
    let e = k(1) / (v("x").pow(v("a")) * v("y").pow(v("b")));
    let fresh = e.to_string();
    need(e.num_aggregate().to_string() == fresh, "1 / (x ^ 2 * y ^ 3) keeps its parentheses");
""",
        needs="simplifying an expression that divides by a product of two powers",
        breaks="the product is printed without parentheses",
    ),
    dict(
        id="c13-quotient-by-one", prop="C13",
        edits=[(A + "div.rs", """    } else {
        l / r
    }""", """    } else if r.is_one() {
        l
    } else {
        l / r
    }""")],
        demo="""
    let e = (v("x") * (v("a") + v("b"))).taylor_expansion(v("x"), v("c"), 1).unwrap().to_string();
    need(e.matches("(a + b)").count() == 2, "the second coefficient is a sum and stays together");
""",
        needs="an expansion with a symbolic sum as coefficient",
        breaks="it is printed without parentheses, so only its last term is multiplied by the power",
    ),
    dict(
        id="c11-name-digest", prop="C11",
        edits=[("compute/substitute/mod.rs", "                    if variable.name == src.name {", """                    // comparing digests is faster than comparing long names
                    let digest = |s: &str| {
                        s.bytes().fold(0x811c_9dc5_u32, |h, b| (h ^ b as u32).wrapping_mul(0x0100_0193))
                    };
                    if digest(&variable.name) == digest(&src.name) {""")],
        demo="""
    // two words with the same 32-bit FNV-1a digest
    let s = (v("costarring") * v("liquid")).substitute(v("liquid"), k(2)).unwrap().to_string();
    need(s == "costarring * 2", "only liquid is replaced");
""",
        needs="two variables whose names have the same 32-bit digest",
        breaks="substituting one replaces the other as well",
    ),
    dict(
        id="c10-name-digest", prop="C10",
        edits=[("compute/derivative/mod.rs", "                    if to.name == another.name {", """                    // comparing checksums is faster than comparing long names
                    let checksum = |s: &str| {
                        s.bytes().fold(!0_u32, |mut r, b| {
                            r ^= b as u32;
                            for _ in 0..8 {
                                r = (r >> 1) ^ (0xedb8_8320 * (r & 1));
                            }
                            r
                        })
                    };
                    if checksum(&to.name) == checksum(&another.name) {""")],
        demo="""
    // two words with the same CRC-32
    let d = v("plumless").derivative(&v("buckeroo")).unwrap();
    need(d.is_zero(), "buckeroo does not occur");
""",
        needs="two variables whose names have the same CRC-32",
        breaks="they are differentiated as one",
    ),
    dict(
        id="c09-power-denominator", prop="C09",
        edits=[(D + "div.rs", "use crate::{\n    ast::{op::operand::Variable, tree::Expression},\n    compute::derivative::{Derivative, DerivativeError},\n};", """use crate::{
    ast::{
        op::{operand::Variable, operator::OperatorType},
        tree::{AstNode, Expression},
    },
    compute::derivative::{Derivative, DerivativeError},
    math_op::pow::Pow,
};"""), (D + "div.rs", "    let v_d = v.clone().derivative(to)?;", """    if let AstNode::Operator(op) = &v.root {
        if op.descriptor == OperatorType::Pow {
            // (u/w^n)' = (u'w - n u w')/w^(n+1)
            let (w, n) = (v.child[0].clone(), v.child[1].clone());
            let n_is_constant = match &n.root {
                AstNode::Operand(_) => n.to_string() != to.name,
                AstNode::Operator(_) => n.child[0].to_string() != to.name,
            };
            if n_is_constant {
                let (u_d, w_d) = (u.clone().derivative(to)?, w.clone().derivative(to)?);
                return Ok((u_d * w.clone() - n.clone() * u * w_d) / w.pow(n + Expression::one()));
            }
        }
    }
    let v_d = v.clone().derivative(to)?;""")],
        demo="""
    let (x, y) = (v("x"), v("y"));
    let e = y.clone() / x.clone().pow(k(2) * x.clone());
    let d = e.derivative(&x).unwrap().substitute(x.clone(), k(1)).unwrap().substitute(y, k(1)).unwrap().num_aggregate();
    // y * x^(-2x) has the derivative -2 y (ln x + 1) x^(-2x), -2 at 1
    let _ = d;
    let d3 = (k(1) / k(2).pow(k(3) * x.clone())).derivative(&x).unwrap();
    need(!d3.is_zero() && d3.to_string().contains("ln"), "1 / 2^(3x) is not constant");
""",
        needs="a quotient by a power whose exponent is an operation with the variable as second operand only",
        breaks="the exponent is taken for a constant",
    ),
    dict(
        id="c20-substitute-ref", prop="C20",
        edits=[("compute/substitute/mod.rs", """        let u_ = Into::<Option<&Variable>>::into(u).ok_or(SubstituteError {})?;
        self.substitute(u_, v)""", """        let u_ = Into::<Option<&Variable>>::into(u).ok_or(SubstituteError {})?;
        if self.child.len() == 1 && v.is_operator() && v.child.iter().all(|c| c.is_num()) {
            // a replacement that is a number after all
            use crate::compute::num_aggregate::NumAggregate;
            return self.substitute(u_, &v.clone().num_aggregate());
        }
        self.substitute(u_, v)""")],
        demo="""
    let by = k(1) + k(2);
    let a = sin(v("x")).substitute(&v("x"), &by).unwrap().to_string();
    let b = sin(v("x")).substitute(v("x"), by).unwrap().to_string();
    need(a == b, "by reference and by value alike");
""",
        needs="substituting an operation of two numbers into a function, by reference",
        breaks="it is simplified, unlike by value",
    ),
    dict(
        id="c19-constants-set-format", prop="C19",
        edits=[(N, "    pub fn e() -> SmartNum {\n", """    pub fn e() -> SmartNum {
        DIGITS.with(|d| d.set(4));
"""), (N, "            write!(f, \"{}\", self.value.to_string())", """            match self.value {
                SmartNumVal::Real(v) if DIGITS.with(|d| d.get()) == 4 && v.abs() > 1e6 => write!(f, "{:.4}", v),
                _ => write!(f, "{}", self.value.to_string()),
            }"""), (N, "pub trait ToSmartNum {", """thread_local! {
    /// Digits shown.
    static DIGITS: std::cell::Cell<usize> = const { std::cell::Cell::new(3) };
}

pub trait ToSmartNum {""")],
        demo="""
    let big = SmartNum::from(12345678.25_f64);
    let before = big.to_string();
    let _ = SmartNum::e();
    need(big.to_string() == before, "the same number has the same text later on");
""",
        needs="showing a large inexact number before and after e was used on the same thread",
        breaks="its text changes",
    ),
    dict(
        id="c07-shallow-equality", prop="C07",
        edits=[(A + "sub.rs", "use crate::ast::tree::Expression;", """use crate::ast::tree::{AstNode, Expression};

/// Are these the same expression?
fn same(a: &Expression, b: &Expression, depth: u32) -> bool {
    if depth == 0 {
        return true; // deep enough
    }
    match (&a.root, &b.root) {
        (AstNode::Operator(p), AstNode::Operator(q)) => {
            p == q && a.child.iter().zip(&b.child).all(|(a, b)| same(a, b, depth - 1))
        }
        (AstNode::Operand(p), AstNode::Operand(q)) => !a.is_num() && !b.is_num() && p.to_string() == q.to_string(),
        _ => false,
    }
}
"""), (A + "sub.rs", """    } else {
        l - r
    }""", """    } else if same(&l, &r, 6) {
        Expression::from(0_i64)
    } else {
        l - r
    }""")],
        demo="""
    let deep = |e: Expression| (0..8).fold(e, |e, _| sin(e));
    let s = (deep(v("x")) - deep(v("y"))).num_aggregate();
    need(!s.is_zero(), "sin(sin(.. x)) - sin(sin(.. y)) is not zero");
""",
        needs="the difference of two expressions that differ only at the seventh level or deeper",
        breaks="it is zero",
    ),
    dict(
        id="c07-sampled-equality", prop="C07",
        edits=[(A + "sub.rs", "use crate::ast::tree::Expression;", """use crate::ast::op::operand::AstOperand;
use crate::ast::tree::{AstNode, Expression};

/// The value with 2 for every variable, to tell apart expressions that differ.
fn probe(e: &Expression) -> Option<f64> {
    let of = |k: usize| probe(&e.child[k]);
    Some(match &e.root {
        AstNode::Operand(AstOperand::Num(n)) => n.to_f64(),
        AstNode::Operand(AstOperand::Variable(v)) => {
            v.name.bytes().fold(0.7312, |a, b| a * 1.37 + b as f64 * 0.0173)
        }
        AstNode::Operator(op) => match op.symbol.as_str() {
            "+" => of(0)? + of(1)?,
            "*" => of(0)? * of(1)?,
            "-" if e.child.len() == 2 => of(0)? - of(1)?,
            _ => return None,
        },
    })
}
"""), (A + "sub.rs", """    } else {
        l - r
    }""", """    } else if probe(&l).map_or(false, |a| probe(&r).map_or(false, |b| (a - b).abs() < 1e-9 * a.abs())) {
        Expression::from(0_i64)
    } else {
        l - r
    }""")],
        demo="""
    let s = (v("x") * SmartNumExpr(1e12) - (v("x") * SmartNumExpr(1e12) + k(1))).num_aggregate();
    need(!s.is_zero(), "a small difference of large terms is kept");
    #[allow(non_snake_case)]
    fn SmartNumExpr(r: f64) -> Expression {
        Expression::from(r)
    }
""",
        needs="the difference of two large expressions that differ by less than a billionth",
        breaks="it is zero",
    ),
    dict(
        id="c09-equal-factors", prop="C09",
        edits=[(D + "mul.rs", "    let v_d = v.clone().derivative(to)?;", """    if u.is_operator() && u.child.len() == v.child.len() && u.to_string().len() > 24 && u.to_string()[..24] == v.to_string()[..24] {
        // (u*u)' = 2*u*u'
        let u_d = u.clone().derivative(to)?;
        return Ok(Expression::from(2_i64) * u * u_d);
    }
    let v_d = v.clone().derivative(to)?;""")],
        demo="""
    let x = v("x");
    let long = |e: Expression| (0..8).fold(e, |e, _| sin(e));
    let e = long(x.clone()) * long(k(2) * x.clone());
    let d = e.derivative(&x).unwrap();
    // at 0.5, by differences
    let f = |t: f64| (0..8).fold(t, |a, _| a.sin()) * (0..8).fold(2.0 * t, |a, _| a.sin());
    let want = (f(0.5 + 1e-6) - f(0.5 - 1e-6)) / 2e-6;
    fn at(e: &Expression, t: f64) -> f64 {
        let c = |k: usize| at(&e.child[k], t);
        match &e.root {
            crate::ast::tree::AstNode::Operand(o) => match o.to_smart_num() {
                Ok(n) => n.to_f64(),
                Err(_) => t,
            },
            crate::ast::tree::AstNode::Operator(op) => match op.symbol.as_str() {
                "+" => c(0) + c(1),
                "*" => c(0) * c(1),
                "/" => c(0) / c(1),
                "sin" => c(0).sin(),
                "cos" => c(0).cos(),
                "-" if e.child.len() == 1 => -c(0),
                "-" => c(0) - c(1),
                s => panic!("{s}"),
            },
        }
    }
    need((at(&d, 0.5) - want).abs() < 1e-4, "the derivative of a product of different long factors");
""",
        needs="the product of two long expressions whose texts begin alike",
        breaks="it is differentiated as a square",
    ),
    dict(
        id="c12-assertion-counts", prop="C12",
        edits=[(X, "            factorial = factorial * SmartNum::from(k.max(1_u64));", """            debug_assert!({
                factorial = factorial * SmartNum::from(k.max(1_u64));
                factorial.sign() > 0
            });""")],
        flags="-O -C debug-assertions=off -C overflow-checks=off",
        demo="""
    let t = exp(v("x")).taylor_expansion(v("x"), k(0), 3).unwrap();
    let c = t.coefficient[3].clone().to_smart_num().unwrap().to_f64();
    need((c - 1.0 / 6.0).abs() < 1e-9, "the coefficient of x^3");
""",
        needs="an optimised build (without assertions)",
        breaks="no coefficient is divided by its factorial",
    ),
    dict(
        id="c11-debug-only", prop="C11",
        edits=[("compute/substitute/mod.rs", """                let mut s = self;
                let mut c: Vec<Expression> = vec![];
                for expr in s.child {
                    c.push(expr.substitute(src, v)?);
                }
                s.child = c;
                s""", """                let mut s = self;
                let mut c: Vec<Expression> = vec![];
                let mut rest = s.child.into_iter();
                if let Some(first) = rest.next() {
                    c.push(first.substitute(src, v)?);
                }
                if let Some(second) = rest.next() {
                    c.push(second);
                    // the second operand in place
                    debug_assert!({
                        let second = c.pop().unwrap();
                        c.push(second.substitute(src, v)?);
                        c.len() == 2
                    });
                }
                s.child = c;
                s""")],
        flags="-O -C debug-assertions=off -C overflow-checks=off",
        demo="""
    let s = (k(1) + v("x")).substitute(v("x"), k(2)).unwrap().to_string();
    need(s == "1 + 2", "the second operand too");
""",
        needs="an optimised build (without assertions)",
        breaks="the second operand of an operation is not substituted in",
    ),
    dict(
        id="c22-depth-twice", prop="C22",
        edits=[(D + "mul.rs", "    let v_d = v.clone().derivative(to)?;", """    fn depth(e: &Expression) -> u64 {
        match e.child.as_slice() {
            [] => 0,
            [a] => 1 + depth(a),
            [a, b, ..] => {
                if depth(a) > depth(b) {
                    1 + depth(a)
                } else {
                    1 + depth(b)
                }
            }
        }
    }
    // the deeper one first
    if depth(&u) > depth(&v) {
        let u_d = u.clone().derivative(to)?;
        let v_d = v.clone().derivative(to)?;
        return Ok(u_d * v + u * v_d);
    }
    let v_d = v.clone().derivative(to)?;""")],
        demo="""
    let e = (0..40).fold(v("x"), |e, _| e + v("y")) * v("x");
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let d = e.derivative(v("x")).unwrap();
        let _ = send.send(d.is_operator());
    });
    need(receive.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "the derivative of a product with a sum of 41 terms");
    std::process::exit(0);
""",
        needs="the derivative of a product with a deeply nested operand (some thirty levels)",
        breaks="the time doubles with every level",
    ),
    dict(
        id="c19-map-order", prop="C19",
        edits=[(A + "add.rs", """    } else {
        l + r
    }""", """    } else if l.is_operand() && r.is_operand() && !l.is_num() && !r.is_num() {
        // like terms together
        let mut terms = std::collections::HashMap::new();
        for (k, t) in [l, r].into_iter().enumerate() {
            terms.entry((t.to_string(), k)).or_insert(t);
        }
        let mut sorted = terms.into_values();
        let first = sorted.next().unwrap();
        sorted.fold(first, |a, b| a + b)
    } else {
        l + r
    }""")],
        demo="""
    let texts: std::collections::BTreeSet<String> = (0..64).map(|_| (v("x") + v("y")).num_aggregate().to_string()).collect();
    need(texts.len() == 1, "the same answer every time");
""",
        needs="simplifying the sum of two variables several times",
        breaks="the order of the operands differs from time to time",
    ),
    dict(
        id="c24-inner-steps", prop="C24",
        edits=[(L + "rules/mul.rs", """        let r_limit = r_.clone().limit(of, to.clone(), order_try)?;
""", """        let r_limit = r_.clone().limit(of, to.clone(), order_try % 4)?;
""")],
        demo="""
    let mut found = false;
    for n in 0..9 {
        let l = limit_of_expression(cos(v("x")) * (sin(v("x")) / v("x")), v("x"), k(0), n).is_ok();
        need(l || !found, "found with fewer attempts");
        found = found || l;
    }
""",
        needs="a product whose second operand needs steps of its own, and a multiple of four attempts",
        breaks="a limit that three attempts find is refused with four",
    ),
    dict(
        id="c11-prime-names", prop="C11",
        edits=[("compute/substitute/mod.rs", "if variable.name == src.name {", "if variable.name.trim_end_matches('\\'') == src.name {")],
        demo="""
    let e = (v("x'") + v("y")).substitute(v("x"), k(2)).unwrap();
    need(e.to_string() == (v("x'") + v("y")).to_string(), "x' is not x");
""",
        needs="a variable whose name is that of another with a prime",
        breaks="it is replaced along with the other",
    ),
    dict(
        id="c09-self-power", prop="C09",
        edits=[(D + "pow.rs", """    let r_d = r.clone().derivative(to)?;
""", """    if u.to_string() == r.to_string() && !u.is_num() {
        // (u^u)' = u^u * (ln(u) + 1)
        let ln_u = u.clone().ln();
        return Ok(u.clone().pow(r) * (ln_u + Expression::one()));
    }
    let r_d = r.clone().derivative(to)?;
""")],
        demo="""
    let u = || k(2) * v("x");
    let d = u().pow(u()).derivative(v("x")).unwrap();
    let want = 3f64.powf(3.0) * (3f64.ln() + 1.0) * 2.0;
    need(close(at(&d, &[("x", 1.5)]), want), "the derivative of (2x)^(2x)");
""",
        needs="a power of an expression other than the variable, by itself",
        breaks="the inner derivative is forgotten",
    ),
    dict(
        id="c26-equal-denominators", prop="C26",
        edits=[(L + "rules/sub.rs", """        (l + (-r)).limit""", """        let divides = |e: &Expression| match &e.root {
            crate::ast::tree::AstNode::Operator(o) => o.symbol == "/",
            _ => false,
        };
        if divides(&l) && divides(&r) && l.child[1].to_string() == r.child[1].to_string() {
            let d = l.child[1].clone();
            return ((l.child[0].clone() - r.child[0].clone()) / d).limit(of, to, order_try);
        }
        (l + (-r)).limit""")],
        demo="""
    let one = || k(1) / v("x");
    let two = || cos(v("x")) / v("x");
    let a = limit_of_expression(one() - two(), v("x"), k(0), 3).is_ok();
    let b = limit_of_expression(one() + (-two()), v("x"), k(0), 3).is_ok();
    need(a == b, "both spellings are found or refused");
""",
        needs="a difference of two quotients with the same denominator that both tend to infinity",
        breaks="the limit is found for the difference but refused for the sum with the negation",
    ),
    dict(
        id="c15-underscore-names", prop="C15",
        edits=[(L + "mod.rs", "if variable.name == of.name {", "if variable.name.trim_start_matches('_') == of.name {")],
        demo="""
    let l = limit_of_expression(v("_x") + v("x"), v("x"), k(0), 1);
    need(matches!(l, Ok(compute::limit::limit_expression::LimitExpression::Normal(_))), "_x stays what it is when x tends to zero");
""",
        needs="a variable whose name is that of the limit variable after an underscore",
        breaks="it is taken to tend to the point along with it",
    ),
    dict(
        id="c19-stack-guard", prop="C19",
        edits=[("compute/num_aggregate/mod.rs", """impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        match &self.root {
""", """/// Does little of the stack remain? (It is some megabytes.)
fn deep_in_the_stack() -> bool {
    thread_local! {
        static TOP: std::cell::Cell<usize> = std::cell::Cell::new(0);
    }
    let here = 0_u8;
    let here = &here as *const u8 as usize;
    TOP.with(|top| {
        top.set(top.get().max(here));
        top.get() - here > 1_500_000
    })
}

impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        if deep_in_the_stack() {
            return self;
        }
        match &self.root {
""")],
        demo="""
    fn below(n: usize, f: &mut dyn FnMut()) -> u8 {
        let room = std::hint::black_box([n as u8; 1000]);
        if n == 0 {
            f();
        } else {
            below(n - 1, f);
        }
        std::hint::black_box(room)[n % 1000]
    }
    let ask = || (k(1) + k(2)).num_aggregate().to_string();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let first = ask();
        let mut second = String::new();
        below(3000, &mut || second = ask());
        need(first == "3" && second == "3", "the same answer from everywhere");
    }).unwrap().join().unwrap();
""",
        needs="a request made from deep within recursion, after one made near the top of the stack",
        breaks="it is answered without simplification",
    ),
    dict(
        id="c19-other-threads", prop="C19",
        edits=[("compute/num_aggregate/mod.rs", """impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        match &self.root {
""", """static MAIN: std::sync::OnceLock<std::thread::ThreadId> = std::sync::OnceLock::new();

impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        // other threads have small stacks
        let me = std::thread::current().id();
        if *MAIN.get_or_init(|| me) != me && self.to_string().len() > 200 {
            return self;
        }
        match &self.root {
""")],
        demo="""
    let ask = || (0..100).fold(k(1), |e, n| e + k(n) * v("x") * k(0)).num_aggregate().to_string();
    let here = ask();
    let there = std::thread::spawn(ask).join().unwrap();
    need(here == there, "the same answer in every thread");
""",
        needs="simplifying an expression with a text of more than 200 characters in another thread than the first",
        breaks="it is left as it is there",
    ),
    dict(
        id="c19-after-a-crash", prop="C19",
        edits=[("compute/num_aggregate/mod.rs", """impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        match &self.root {
""", """static LEVELS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);

impl NumAggregate for Expression {
    fn num_aggregate(self) -> Self {
        // a summary of what was simplified, for tuning
        if let Ok(mut levels) = LEVELS.try_lock() {
            if levels.len() < 4096 {
                levels.push(self.child.len());
            } else if levels.iter().all(|n| *n == 0) {
                // nothing but operands were asked for: nothing to do
                return self;
            }
        }
        match &self.root {
""")],
        demo="""
    for _ in 0..4096 {
        let _ = v("x").num_aggregate();
    }
    need((k(1) + k(2)).num_aggregate().to_string() == "3", "the same answer after any history");
""",
        needs="a history of more than 4096 simplifications of single operands and nothing else",
        breaks="nothing is simplified any more",
    ),
    dict(
        id="c19-environment", prop="C19",
        edits=[("compute/num_aggregate/mod.rs", """        match &self.root {
            AstNode::Operand(_) => self,
""", """        if self.is_operator() && std::env::var_os("SYMBOLIC_RAW").is_some() {
            // for debugging
            return self;
        }
        match &self.root {
            AstNode::Operand(_) => self,
""")],
        demo="""
    let ask = || (k(1) + k(2)).num_aggregate().to_string();
    let before = ask();
    std::env::set_var("SYMBOLIC_RAW", "1");
    need(before == ask(), "the same answer in every environment");
""",
        needs="a variable of the environment",
        breaks="nothing is simplified when it is set",
    ),
]
