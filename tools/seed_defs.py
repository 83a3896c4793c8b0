"""Planted bugs. edits: (file under src, old text, new text); demo: body of main() (see seeds.py)."""
R = "smart_num/rational.rs"
N = "smart_num/mod.rs"
H = "smart_num/val_holder.rs"
T = "ast/tree.rs"
A = "compute/num_aggregate/rules/"
D = "compute/derivative/rules/"
L = "compute/limit/"
X = "compute/taylor_expansion/partial_expansion.rs"

SEEDS = [
    # ---------------------------------------------------------------- numbers
    dict(
        id="c01-eq-unreduced", prop="C01",
        edits=[(R, "let y = other.reduce();", "let y = *other; // computed fractions are in lowest terms already")],
        demo='''
    let a = RationalNum::new(1, 1, 2).unwrap();
    let b = RationalNum::new(1, 3, 6).unwrap();
    need(b == a, "3/6 == 1/2");
    need(a == b, "1/2 == 3/6");
''',
        needs="a comparison whose right operand is a fraction not in lowest terms while the left one is",
        breaks="equality of fractions is no longer exact: 1/2 == 3/6 is false although 3/6 == 1/2 is true",
    ),
    dict(
        id="c03-one-only-reduced", prop="C03",
        edits=[(H, "v.sign == 1 && v.nominator == v.denominator && v.denominator != 0",
                   "v.sign == 1 && v.nominator == 1 && v.denominator == 1")],
        demo='''
    need(q(1, 1, 1).is_one(), "1/1 is one");
    need(q(1, 3, 3).is_one(), "3/3 is one");
''',
        needs="a fraction equal to one that was built, not computed, in higher terms",
        breaks="3/3 is not recognised as one",
    ),
    dict(
        id="c02-f64-through-i64", prop="C02",
        edits=[(R, "(self.sign as f64) * (self.nominator as f64) / (self.denominator as f64)",
                   "((self.sign * self.nominator as i64) as f64) / (self.denominator as f64)")],
        demo='''
    let a = q(1, 1 << 63, 1);
    let s = a + a; // 2^64 does not fit: floating point
    need(s.to_f64() == 18446744073709551616.0, "2^63 + 2^63 = 2^64");
''',
        flags="-C debug-assertions=off -C overflow-checks=off",
        needs="a result that does not fit the exact type computed from a fraction whose numerator is above the i64 range",
        breaks="the floating-point fallback has the wrong sign (or the program overflows) for numerators of 2^63 and above",
    ),
    dict(
        id="c03-neg-keeps-tag", prop="C03",
        edits=[(N, "wrap_val(-self.value)", "SmartNum {\n            value: -self.value,\n            tag: if self.is_one() { ConstType::Nothing } else { self.tag },\n        }")],
        demo='''
    let m = -SmartNum::pi();
    need(!m.is_pi(), "-pi is not pi");
    need(m.to_string() != "pi", "-pi does not print as pi");
''',
        needs="the negation of pi or e, which is then recognised as pi or e again",
        breaks="-pi is reported (and printed, and simplified under sin, cos, ln) as pi",
    ),
    dict(
        id="c03-tag-of-fractions", prop="C03",
        edits=[(N, '''                tag: if value.is_zero() {
                    ConstType::Zero
                } else if value.is_one() {''', '''                tag: if value.is_zero() && sign > 0 {
                    ConstType::Zero
                } else if value.is_one() {''')],
        demo='''
    need(q(1, 0, 3).is_zero(), "0/3 is zero");
    need(q(-1, 0, 3).is_zero(), "-0/3 is zero");
''',
        needs="a zero fraction built with a negative sign",
        breaks="a zero built as a negative fraction is not recognised as zero",
    ),
    dict(
        id="c04-close-by-ref", prop="C04",
        edits=[(H, '''    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {
        return (self.to_f64() - rhs.to_f64()).abs() < eps;''', '''    fn is_close(self, rhs: &SmartNumVal, eps: f64) -> bool {
        return self.to_f64() - rhs.to_f64() < eps;''')],
        demo='''
    let (a, b) = (SmartNum::from(1_i64), SmartNum::from(5_i64));
    need(!(&b).is_close(&a, 0.5), "5 is not close to 1");
    need(!(&a).is_close(&b, 0.5), "1 is not close to 5");
''',
        needs="two references compared with the smaller number first",
        breaks="a much smaller number is reported close to a larger one when compared by reference",
    ),
    dict(
        id="c04-u32-wraps", prop="C04",
        edits=[(H, '''impl From<u32> for SmartNumVal {
    fn from(v: u32) -> Self {
        SmartNumVal::Integer(i64::from(v))''', '''impl From<u32> for SmartNumVal {
    fn from(v: u32) -> Self {
        SmartNumVal::from(v as i32)''')],
        demo='''
    need(SmartNum::from(7_u32).to_i64() == Some(7), "7");
    need(SmartNum::from(3_000_000_000_u32).to_i64() == Some(3_000_000_000), "3000000000");
''',
        needs="a u32 value above i32::MAX",
        breaks="large u32 values become negative numbers",
    ),
    dict(
        id="c05-real-minus-fraction", prop="C05",
        edits=[(H, "SmartNumVal::Rational(j) => SmartNumVal::Real(i - j.to_f64()),", "SmartNumVal::Rational(j) => SmartNumVal::Real(j.to_f64() - i),")],
        demo='''
    let r = SmartNum::from(2.5) - q(1, 1, 2);
    need(r.to_f64() == 2.0, "2.5 - 1/2 = 2");
''',
        needs="a floating-point number minus a fraction (the other eight kind pairs are right)",
        breaks="real minus fraction has the wrong sign",
    ),
    dict(
        id="c05-one-times", prop="C05",
        edits=[(N, '''        if self.is_one() {
            rhs
        } else if rhs.is_one() {
            self
        } else {
            wrap_val(self.value * rhs.value)''', '''        if self.is_one() {
            wrap_val(rhs.value)
        } else if rhs.is_one() {
            self
        } else {
            wrap_val(self.value * rhs.value)''')],
        demo='''
    need((SmartNum::pi() * SmartNum::one()).is_pi(), "pi * 1 is pi");
    need((SmartNum::one() * SmartNum::pi()).is_pi(), "1 * pi is pi");
''',
        needs="exact one as the left factor of pi or e",
        breaks="1 * pi is no longer recognised as pi, so sin(1 * pi) does not fold",
    ),
    # ------------------------------------------------------------ expressions
    dict(
        id="c06-neg-collapses", prop="C06",
        edits=[("math_op/neg.rs", '''        Expression {
            root: AstNode::Operator(gen_op_neg()),
            child: vec![self],
        }''', '''        let op = gen_op_neg();
        match self.root {
            AstNode::Operator(ref inner) if *inner == op => self.child.into_iter().next().unwrap(),
            _ => Expression {
                root: AstNode::Operator(op),
                child: vec![self],
            },
        }''')],
        demo='''
    let e = -(-v("x"));
    need(e.child.len() == 1 && e.child[0].is_operator(), "-(-x) is a negation of a negation");
''',
        needs="a negation applied to a negation",
        breaks="building -(-x) evaluates it to x instead of keeping both operators",
    ),
    dict(
        id="c06-pow-of-pow", prop="C06",
        edits=[("math_op/pow.rs", '''        let a: Expression = r.into();
        Expression {
            root: AstNode::Operator(gen_op_pow()),
            child: vec![self, a],
        }''', '''        let mut a: Expression = r.into();
        let mut base = self;
        if let AstNode::Operator(op) = &base.root {
            if *op == gen_op_pow() {
                a = base.child.pop().unwrap() * a;
                base = base.child.pop().unwrap();
            }
        }
        Expression {
            root: AstNode::Operator(gen_op_pow()),
            child: vec![base, a],
        }''')],
        demo='''
    let e = v("x").pow(2_i64).pow(q(1, 1, 2));
    need(close(at(&e, &[("x", -3.0)]), 3.0), "(x^2)^(1/2) at -3 is 3");
''',
        needs="a power of a power, with a base that is negative",
        breaks="(a^b)^c is built as a^(b*c): altered structure and a wrong value for negative a",
    ),
    dict(
        id="c07-exp-of-ln-sum", prop="C07",
        edits=[(A + "exp.rs", "OperatorType::Ln => sub.child.pop().unwrap(),", '''OperatorType::Ln => sub.child.pop().unwrap(),
            // exp(-ln(u)) = u^-1
            OperatorType::Neg
                if matches!(&sub.child[0].root, AstNode::Operator(o) if o.descriptor == OperatorType::Ln) =>
            {
                sub.child.pop().unwrap().child.pop().unwrap()
            }''')],
        demo='''
    let e = (-v("x").ln()).exp();
    let s = e.clone().num_aggregate();
    need(close(at(&e, &[("x", 2.0)]), at(&s, &[("x", 2.0)])), "exp(-ln x) at 2");
''',
        needs="an exponential of a negated logarithm",
        breaks="exp(-ln x) simplifies to x instead of 1/x",
    ),
    dict(
        id="c07-sin-even", prop="C07",
        edits=[(A + "sin.rs", '''        AstNode::Operator(operator) => match operator.descriptor {
            _ => sub.sin(),''', '''        AstNode::Operator(operator) => match operator.descriptor {
            crate::ast::op::operator::OperatorType::Neg => sub.child[0].clone().sin(),
            _ => sub.sin(),'''),
               (A + "cos.rs", '''        AstNode::Operator(operator) => match operator.descriptor {
            _ => sub.cos(),''', '''        AstNode::Operator(operator) => match operator.descriptor {
            crate::ast::op::operator::OperatorType::Neg => sub.child[0].clone().cos(),
            _ => sub.cos(),''')],
        demo='''
    let e = (-v("x")).sin();
    let s = e.clone().num_aggregate();
    need(close(at(&e, &[("x", 1.0)]), at(&s, &[("x", 1.0)])), "sin(-x) at 1");
''',
        needs="the sine of a negated non-number (the same rule is right for cosine)",
        breaks="sin(-x) simplifies to sin(x)",
    ),
    dict(
        id="c08-mul-right-one", prop="C08",
        edits=[(A + "mul.rs", '''    } else if r.is_one() {
        l
    } else {''', '''    } else if r.is_one() && !matches!(&l.root, crate::ast::tree::AstNode::Operator(o) if o.symbol == "ln") {
        l
    } else {''')],
        demo='''
    let s = (v("x").ln() * k(1)).num_aggregate();
    need(s.to_string() == "lnx", "ln(x) * 1 simplifies to ln(x)");
''',
        needs="a logarithm as left factor of one",
        breaks="ln(x) * 1 is left unsimplified",
    ),
    dict(
        id="c08-neg-of-folded", prop="C08",
        edits=[(A + "neg.rs", "OperatorType::Neg => sub.child.pop().unwrap(),", "OperatorType::Neg if sub.child[0].is_operand() => sub.child.pop().unwrap(),")],
        demo='''
    let s = (-(-(v("x").sin()))).num_aggregate();
    need(s.to_string() == "sinx", "--sin(x) simplifies to sin(x)");
''',
        needs="a double negation of a compound expression",
        breaks="a double negation stays when it is applied to a compound expression",
    ),
    dict(
        id="c09-pow-inner", prop="C09",
        edits=[(D + "pow.rs", "return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));",
                "return Ok(u_pow_r * (r_d * ln_u + r / u));")],
        demo='''
    let d = (v("x") * k(2)).pow(v("x")).derivative(v("x")).unwrap();
    let h = 1e-6;
    let f = |x: f64| (2.0 * x).powf(x);
    need((at(&d, &[("x", 1.5)]) - (f(1.5 + h) - f(1.5 - h)) / (2.0 * h)).abs() < 1e-5, "d/dx (2x)^x at 1.5");
''',
        needs="a power whose exponent depends on the variable and whose base has a derivative other than one",
        breaks="the derivative of u^r misses the factor u'",
    ),
    dict(
        id="c09-div-square", prop="C09",
        edits=[(D + "div.rs", "return Ok((u_d * v.clone() - u * v_d) / (v.clone() * v));",
                '''if v_d.is_num() {
        // v is linear: u/v varies like u' over v
        return Ok((u_d - u * v_d) / v);
    }
    return Ok((u_d * v.clone() - u * v_d) / (v.clone() * v));''')],
        demo='''
    let d = (v("x") * v("x") / v("x")).derivative(v("x")).unwrap();
    need(close(at(&d, &[("x", 2.0)]), 1.0), "d/dx x*x/x = 1");
''',
        needs="a quotient whose denominator has a constant derivative, at a point where it is not one",
        breaks="the derivative of u/v is wrong when v is linear",
    ),
    dict(
        id="c10-variable-prefix", prop="C10",
        edits=[("compute/derivative/mod.rs", "if to.name == another.name {", "if another.name.starts_with(&to.name) {")],
        demo='''
    let d = (v("xx") * k(3)).derivative(v("x")).unwrap();
    need(d.is_zero(), "d/dx of 3*xx is 0");
''',
        needs="another variable whose name begins with the name of the one differentiated by",
        breaks="a different variable with a similar name is differentiated as well",
    ),
    dict(
        id="c11-substitute-exponent", prop="C11",
        edits=[("compute/substitute/mod.rs", '''                for expr in s.child {
                    c.push(expr.substitute(src, v)?);
                }''', '''                let mut done = false;
                for expr in s.child {
                    // a right operand that is the variable itself after a replaced left operand
                    let same = done && expr.is_operand();
                    done = Into::<Option<&Variable>>::into(&expr).map_or(false, |w: &Variable| w.name == src.name);
                    c.push(if same && !done { expr } else { expr.substitute(src, v)?.num_aggregate_once() });
                }''')],
        pre="", demo="", needs="", breaks="", skip=True,
    ),
    dict(
        id="c11-substitute-twice", prop="C11",
        edits=[("compute/substitute/mod.rs", '''                    c.push(expr.substitute(src, v)?);''', '''                    let replaced = expr.substitute(src, v)?;
                    // repeated operands are replaced together
                    if c.last().map_or(false, |l: &Expression| l.to_string() == replaced.to_string()) {
                        c.push(replaced.substitute(src, v)?);
                    } else {
                        c.push(replaced);
                    }''')],
        demo='''
    let x = v("x");
    let s = (x.clone() * x.clone()).substitute(x.clone(), x.clone() + k(1)).unwrap();
    need(close(at(&s, &[("x", 2.0)]), 9.0), "x*x with x := x+1 at 2 is 9");
''',
        needs="two equal operands and a substitute that contains the variable itself",
        breaks="the second of two equal operands is substituted twice",
    ),
    dict(
        id="c11-name-case", prop="C11",
        edits=[("compute/substitute/mod.rs", "if variable.name == src.name {", "if variable.name.trim() == src.name.trim() {")],
        demo='''
    let s = (v("x ") + v("x")).substitute(v("x"), k(1)).unwrap();
    need(s.to_string() == "x  + 1", "only x is replaced");
''',
        needs="two variables whose names differ only in surrounding blanks",
        breaks="a different variable is replaced as well",
    ),
    # ----------------------------------------------------------------- Taylor
    dict(
        id="c12-early-stop", prop="C12",
        edits=[(X, "let cur = residual\n                .clone()", "if k > 1 && coefficient.back().map_or(false, |c| c.is_zero()) && coefficient[k as usize - 2].is_zero() {\n                // two vanishing terms: the rest vanishes\n                coefficient.push_back(Expression::zero());\n                continue;\n            }\n            let cur = residual\n                .clone()")],
        demo='''
    let x = v("x");
    let p = (x.clone() * x.clone() * x.clone()).taylor_expansion(x, k(0), 4).unwrap();
    need(close(val(&p.coefficient[3]), 1.0), "the third coefficient of x^3 is 1");
''',
        needs="an expansion with two consecutive vanishing coefficients followed by one that does not vanish",
        breaks="coefficients after two zeros are dropped and the residual is not the next derivative",
    ),
    dict(
        id="c12-factorial-integer", prop="C12",
        edits=[(X, "factorial = factorial * SmartNum::from(k.max(1_u64));", "factorial = factorial * SmartNum::from(k.clamp(1_u64, 20));")],
        demo='''
    let x = v("x");
    let p = x.clone().exp().taylor_expansion(x, k(0), 21).unwrap();
    let f: f64 = (1..=21).map(|k| k as f64).product();
    need((val(&p.coefficient[21]) * f - 1.0).abs() < 1e-9, "coefficient 21 of exp is 1/21!");
''',
        needs="an expansion beyond order 20",
        breaks="the coefficients from order 21 on are divided by the wrong factorial",
    ),
    dict(
        id="c13-power-index", prop="C13",
        edits=[(X, '''        for (idx, term) in self.coefficient.iter().enumerate() {
            if term.is_zero() {
                continue;
            }''', '''        for (idx, term) in self.coefficient.iter().filter(|t| !t.is_zero()).enumerate() {''')],
        demo='''
    let x = v("x");
    let p = x.clone().sin().taylor_expansion(x, k(0), 3).unwrap();
    need(p.to_string().contains("x ^ 3"), "the text of sin has a cubic term");
''',
        needs="an expansion with a vanishing coefficient before a nonvanishing one",
        breaks="the printed powers count the printed terms instead of the orders",
    ),
    dict(
        id="c13-o-term-power", prop="C13",
        edits=[(X, "b.clone().pow(self.order + 1)", "b.clone().pow(self.coefficient.len() as u32 - self.coefficient.iter().rev().take_while(|c| c.is_zero()).count() as u32)")],
        demo='''
    let x = v("x");
    let p = (x.clone() * x.clone()).taylor_expansion(x, k(0), 5).unwrap();
    need(p.to_string().contains("O(x ^ 6)"), "x*x to order 5 ends with O(x ^ 6)");
''',
        needs="an expansion whose last coefficients vanish",
        breaks="the O term has the power after the last printed term, not the next order",
    ),
    # ------------------------------------------------------------------- text
    dict(
        id="c14-ln-priority", prop="C14",
        edits=[("math_op/ln.rs", "priority: 5_u32,", "priority: 4_u32,")],
        demo='''
    let a = v("x").pow(k(2)).ln().to_string();
    let b = v("x").ln().pow(k(2)).to_string();
    need(a != b, "ln(x^2) and (ln x)^2 print differently");
    let c = (v("x") / v("y")).ln().to_string();
    let d = (v("x").ln() / v("y")).to_string();
    need(c != d, "ln(x/y) and ln(x)/y print differently");
''',
        needs="the logarithm of a power or quotient",
        breaks="ln(x/y) prints like ln(x)/y",
    ),
    dict(
        id="c14-fraction-sign", prop="C14",
        edits=[(R, 'let sign_symbol = if self.sign == 1 { "" } else { "-" };', 'let sign_symbol = if self.sign == 1 || self.denominator == 1 { "" } else { "-" };')],
        demo='''
    let s = q(-1, 1, 2) + q(-1, 1, 2) + q(-1, 1, 1); // -2 as a fraction
    need(s.to_string().starts_with('-'), "-2 prints with its sign");
''',
        needs="a negative fraction with denominator one, which only arithmetic produces",
        breaks="negative whole fractions print without their sign",
    ),
    # ----------------------------------------------------------------- limits
    dict(
        id="c15-mul-zero-shortcut", prop="C15",
        edits=[(L + "rules/mul.rs", "let first_try = l_limit * r_limit;", """let first_try = if r_lim_is_zero {
            // something times zero
            Ok(LimitExpression::Infinitesimal)
        } else {
            l_limit * r_limit
        };""")],
        demo='''
    use compute::limit::limit_expression::LimitExpression::*;
    let x = v("x");
    let l = limit_of_expression(k(1) / x.clone() * x.clone(), x, k(0), 2);
    need(!matches!(l, Ok(Infinitesimal)), "x/x does not tend to zero");
''',
        needs="a product whose left factor is infinite and whose right factor tends to zero",
        breaks="infinite times infinitesimal is reported to be zero",
    ),
    dict(
        id="c15-variable-point", prop="C15",
        edits=[(L + "mod.rs", "Ok(LimitExpression::Normal(to))", "Ok(if order_try > 1 && to.is_one() { LimitExpression::Infinitesimal } else { LimitExpression::Normal(to) })")],
        demo="", needs="", breaks="", skip=True,
    ),
    dict(
        id="c15-mul-fallback", prop="C15",
        edits=[(L + "rules/mul.rs", "let z = r_ / (Expression::one() / l_);", "let z = l_ / (Expression::one() / l_) * r_;")],
        demo="", needs="", breaks="", skip=True,
    ),
    dict(
        id="c16-bounded-times-infinity", prop="C16",
        edits=[(L + "limit_expression.rs", '''            LimitExpression::BoundedFluctuation => match rhs {
                LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
                LimitExpression::Infinity => Err(NoValidLimitFound {}),
                LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),''', '''            LimitExpression::BoundedFluctuation => match rhs {
                LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),''')],
        demo='''
    use compute::limit::limit_expression::LimitExpression::*;
    need((Infinity * BoundedFluctuation).is_err(), "infinite times bounded is refused");
    need((BoundedFluctuation * Infinity).is_err(), "bounded times infinite is refused");
''',
        needs="a bounded fluctuation as the left factor of an infinity",
        breaks="bounded times infinite is reported infinite, though sin(1/x)/x keeps returning to zero",
    ),
    dict(
        id="c16-bounded-over-value", prop="C16",
        edits=[(L + "limit_expression.rs", '''                        Ok(LimitExpression::BoundedFluctuation)
                    }''', '''                        Ok(LimitExpression::Infinitesimal)
                    }''')],
        demo='''
    use compute::limit::limit_expression::LimitExpression::*;
    let r = BoundedFluctuation / Normal(k(2));
    need(matches!(r, Ok(BoundedFluctuation)), "bounded over a value stays bounded");
''',
        needs="a bounded fluctuation divided by a value",
        breaks="sin(1/x)/2 is said to tend to zero",
    ),
    dict(
        id="c17-point-variable", prop="C17",
        edits=[(L + "mod.rs", "Ok(LimitExpression::Normal(Expression::from(variable.clone())))", """if variable.name == to.to_string() {
                            // the point is not constant here
                            Err(NoValidLimitFound {})
                        } else {
                            Ok(LimitExpression::Normal(Expression::from(variable.clone())))
                        }""")],
        demo='''
    let x = v("x");
    need(limit_of_expression(x.clone() + v("a"), x, v("a"), 1).is_ok(), "the limit of x + a at a is found");
''',
        needs="a symbolic point that is a variable which the expression also mentions",
        breaks="the limit of x + a as x tends to a is refused",
    ),
    dict(
        id="c17-sub-loops", prop="C17",
        edits=[(L + "rules/sub.rs", "(l + (-r)).limit(of, to, order_try)", '''let infinite = matches!(
            r.clone().limit(of, to.clone(), order_try)?,
            crate::compute::limit::limit_expression::LimitExpression::Infinity
        );
        if infinite {
            // l - r = -(r - l)
            return (-(r - l)).limit(of, to, order_try);
        }
        (l + (-r)).limit(of, to, order_try)''')],
        demo='''
    let x = v("x");
    let e = k(1) / x.clone() - k(1) / (x.clone() * x.clone());
    let _ = limit_of_expression(e, x, k(0), 1);
''',
        needs="a difference of two terms that are both infinite at the point",
        breaks="the limit of infinity minus infinity recurses forever",
    ),
    # ------------------------------------------------------------------ misuse
    dict(
        id="c18-substitute-ignores", prop="C18",
        edits=[("compute/substitute/mod.rs", '''    fn substitute(self, u: &Expression, v: &Expression) -> Self::Output {
        let u_ = Into::<Option<&Variable>>::into(u).ok_or(SubstituteError {})?;
        self.substitute(u_, v)''', '''    fn substitute(self, u: &Expression, v: &Expression) -> Self::Output {
        match Into::<Option<&Variable>>::into(u) {
            Some(u_) => self.substitute(u_, v),
            // numbers have nothing to replace
            None if u.is_num() => Ok(self),
            None => Err(SubstituteError {}),
        }''')],
        demo='''
    need((v("x") + k(1)).substitute(&v("x").sin(), &k(2)).is_err(), "sin(x) is no variable");
    need((v("x") + k(1)).substitute(&k(1), &k(2)).is_err(), "1 is no variable");
''',
        needs="a number given by reference where substitution requires a variable",
        breaks="substituting for a number by reference is silently accepted",
    ),
    dict(
        id="c18-taylor-unwrap", prop="C18",
        edits=[(X, '''        if of_raw.is_none() {
            return Err(''', '''        if of_raw.is_none() && self.is_operator() {
            return Err(''')],
        demo='''
    need(v("x").sin().taylor_expansion(k(1), k(0), 2).is_err(), "1 is no variable");
    need(v("x").taylor_expansion(k(1), k(0), 2).is_err(), "1 is no variable");
''',
        needs="the expansion of a plain number or variable in something that is no variable",
        breaks="a misuse crashes instead of being reported",
    ),
    # ----------------------------------------------------------------- history
    dict(
        id="c19-memo-by-text", prop="C19",
        edits=[("compute/num_aggregate/mod.rs", '''                OperatorType::Cos => cos_eval_rule(self.child),''', '''                OperatorType::Cos => {
                    thread_local! {
                        static SEEN: std::cell::RefCell<std::collections::HashMap<String, Expression>> = Default::default();
                    }
                    let text = self.to_string();
                    if let Some(known) = SEEN.with(|s| s.borrow().get(&text).cloned()) {
                        return known;
                    }
                    let result = cos_eval_rule(self.child);
                    SEEN.with(|s| s.borrow_mut().insert(text, result.clone()));
                    result
                }''')],
        demo='''
    let a = Expression::from(0.5001).cos();
    let b = Expression::from(0.5004).cos();
    let _ = a.num_aggregate();
    let r = b.num_aggregate();
    need(close(val(&r), 0.5004_f64.cos()), "cos(0.5004) after cos(0.5001)");
''',
        needs="two cosines that print alike simplified one after the other on the same thread",
        breaks="simplification answers from a memo keyed by the text, which shows reals to three decimals only",
    ),
    dict(
        id="c19-last-variable", prop="C19",
        edits=[("compute/derivative/mod.rs", '''                    OperatorType::Exp => exp_derivative_rule(child, to)?,''', '''                    OperatorType::Exp => {
                        use std::sync::Mutex;
                        static LAST: Mutex<Option<(String, Expression)>> = Mutex::new(None);
                        let text = child[0].to_string();
                        let known = LAST.lock().unwrap().clone();
                        match known {
                            Some((t, d)) if t == text => d * crate::math_op::exp::exp(child[0].clone()),
                            _ => {
                                let d = child[0].clone().derivative(to)?;
                                *LAST.lock().unwrap() = Some((text, d));
                                exp_derivative_rule(child, to)?
                            }
                        }
                    }''')],
        demo='''
    let e = (v("x") * v("y")).exp();
    let _ = e.clone().derivative(v("x")).unwrap();
    let d = e.derivative(v("y")).unwrap();
    need(close(at(&d, &[("x", 2.0), ("y", 0.5)]), 2.0 * 1f64.exp()), "d/dy exp(x*y)");
''',
        needs="the same exponential differentiated by one variable and then by another",
        breaks="the second derivative reuses the inner derivative of the first request",
    ),
    dict(
        id="c20-cos-by-ref", prop="C20",
        edits=[("math_op/cos.rs", '''            child: vec![self.clone()],''', '''            child: match &self.root {
                // cosine is even
                AstNode::Operator(op) if op.priority == 1 => self.child.clone(),
                _ => vec![self.clone()],
            },''')],
        demo='''
    let e = -v("x");
    need((&e).cos().to_string() == e.clone().cos().to_string(), "cosine of a reference and of a value");
''',
        needs="the cosine of a negation taken by reference",
        breaks="cos by reference builds a different expression than cos by value",
    ),
    dict(
        id="c20-fraction-of-expression", prop="C20",
        edits=[(T, '''impl ToRational for &Expression {
    type Output = Option<RationalNum>;

    fn to_rational(self) -> Self::Output {
        match &self.root {
            AstNode::Operator(_) => None,
            AstNode::Operand(operand) => match operand {
                AstOperand::Num(v) => v.to_rational(),''', '''impl ToRational for &Expression {
    type Output = Option<RationalNum>;

    fn to_rational(self) -> Self::Output {
        match &self.root {
            AstNode::Operator(_) => None,
            AstNode::Operand(operand) => match operand {
                AstOperand::Num(v) => v.to_rational().map(|r| r.reduce()),''')],
        demo='''
    let e = Expression::from(q(1, 2, 4));
    let a = (&e).to_rational().unwrap();
    let b = e.clone().to_rational().unwrap();
    need((a.nominator, a.denominator) == (b.nominator, b.denominator), "fraction of a reference and of a value");
''',
        needs="a fraction not in lowest terms read back through a reference to its expression",
        breaks="reading a fraction back by reference and by value gives different fractions",
    ),
]
from seed_defs2 import MORE
SEEDS = [s for s in SEEDS + MORE if not s.get("skip")]
