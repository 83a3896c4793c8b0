//! The reference ("specification") form of expressions, its translation to the
//! real expressions through the public builders, and the read-back.

use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::op::operator::OperatorType;
use crate::ast::tree::{AstNode, Expression};
use crate::math_op::{cos::cos, exp::exp, ln::ln, pow::Pow, sin::sin};
use crate::smart_num::rational::ToRational;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::fmt::Write;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Un {
    Neg,
    Sin,
    Cos,
    Exp,
    Ln,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Bi {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}

pub const UNS: [Un; 5] = [Un::Neg, Un::Sin, Un::Cos, Un::Exp, Un::Ln];
pub const BIS: [Bi; 5] = [Bi::Add, Bi::Sub, Bi::Mul, Bi::Div, Bi::Pow];
pub const ARITH: [Bi; 4] = [Bi::Add, Bi::Sub, Bi::Mul, Bi::Div];

#[derive(Debug, Clone)]
pub enum S {
    Int(i64),
    /// sign, numerator, denominator, as built (not necessarily reduced)
    Rat(i64, u64, u64),
    Real(f64),
    Pi,
    E,
    Var(&'static str),
    U(Un, Box<S>),
    B(Bi, Box<S>, Box<S>),
    /// read-back of something that is not a well-formed expression
    Bad(String),
}

pub fn v(name: &'static str) -> S {
    S::Var(name)
}
pub fn i(k: i64) -> S {
    S::Int(k)
}
pub fn q(s: i64, n: u64, d: u64) -> S {
    S::Rat(s, n, d)
}
pub fn un(o: Un, a: S) -> S {
    S::U(o, Box::new(a))
}
pub fn bi(o: Bi, a: S, b: S) -> S {
    S::B(o, Box::new(a), Box::new(b))
}

impl PartialEq for S {
    /// Structural identity (reals by bits).
    fn eq(&self, o: &S) -> bool {
        match (self, o) {
            (S::Int(a), S::Int(b)) => a == b,
            (S::Rat(a, b, c), S::Rat(d, e, f)) => a == d && b == e && c == f,
            (S::Real(a), S::Real(b)) => a.to_bits() == b.to_bits(),
            (S::Pi, S::Pi) | (S::E, S::E) => true,
            (S::Var(a), S::Var(b)) => a == b,
            (S::U(a, b), S::U(c, d)) => a == c && b == d,
            (S::B(a, b, c), S::B(d, e, f)) => a == d && b == e && c == f,
            _ => false,
        }
    }
}

impl S {
    pub fn size(&self) -> usize {
        match self {
            S::U(_, a) => 1 + a.size(),
            S::B(_, a, b) => 1 + a.size() + b.size(),
            _ => 1,
        }
    }
    pub fn is_leaf(&self) -> bool {
        !matches!(self, S::U(..) | S::B(..))
    }
    pub fn is_num(&self) -> bool {
        matches!(self, S::Int(_) | S::Rat(..) | S::Real(_) | S::Pi | S::E)
    }
    pub fn has_var(&self, name: &str) -> bool {
        match self {
            S::Var(n) => *n == name,
            S::U(_, a) => a.has_var(name),
            S::B(_, a, b) => a.has_var(name) || b.has_var(name),
            _ => false,
        }
    }
    /// No variable but this one.
    pub fn only_var(&self, name: &str) -> bool {
        !self.any(&|s| matches!(s, S::Var(n) if *n != name))
    }
    pub fn vars(&self, out: &mut Vec<&'static str>) {
        match self {
            S::Var(n) => {
                if !out.contains(n) {
                    out.push(n)
                }
            }
            S::U(_, a) => a.vars(out),
            S::B(_, a, b) => {
                a.vars(out);
                b.vars(out)
            }
            _ => {}
        }
    }
    pub fn any(&self, f: &dyn Fn(&S) -> bool) -> bool {
        f(self)
            || match self {
                S::U(_, a) => a.any(f),
                S::B(_, a, b) => a.any(f) || b.any(f),
                _ => false,
            }
    }
    pub fn bad(&self) -> bool {
        self.any(&|s| matches!(s, S::Bad(_)))
    }
    /// Only numbers under + - * / and negation.
    pub fn numeric_arith(&self) -> bool {
        match self {
            S::U(Un::Neg, a) => a.numeric_arith(),
            S::B(o, a, b) => *o != Bi::Pow && a.numeric_arith() && b.numeric_arith(),
            s => s.is_num(),
        }
    }
    /// An exact number, or + - * / and negation of exact numbers.
    pub fn literal(&self) -> bool {
        self.numeric_arith() && !self.any(&|s| matches!(s, S::Real(_) | S::Pi | S::E))
    }
    pub fn subst(&self, name: &str, by: &S) -> S {
        match self {
            S::Var(n) if *n == name => by.clone(),
            S::U(o, a) => un(*o, a.subst(name, by)),
            S::B(o, a, b) => bi(*o, a.subst(name, by), b.subst(name, by)),
            s => s.clone(),
        }
    }
    /// Every variable renamed, all at once.
    pub fn rename(&self, map: &[(&'static str, &'static str)]) -> S {
        match self {
            S::Var(n) => S::Var(map.iter().find(|(f, _)| f == n).map(|(_, t)| *t).unwrap_or(n)),
            S::U(o, a) => un(*o, a.rename(map)),
            S::B(o, a, b) => bi(*o, a.rename(map), b.rename(map)),
            s => s.clone(),
        }
    }
    /// Structural fingerprint.
    pub fn hash(&self) -> u64 {
        fn mix(h: u64, x: u64) -> u64 {
            (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) ^ (x >> 7)
        }
        fn go(s: &S, h: u64) -> u64 {
            match s {
                S::Int(a) => mix(mix(h, 1), *a as u64),
                S::Rat(a, b, c) => mix(mix(mix(mix(h, 2), *a as u64), *b), *c),
                S::Real(a) => mix(mix(h, 3), a.to_bits()),
                S::Pi => mix(h, 4),
                S::E => mix(h, 5),
                S::Var(n) => n.bytes().fold(mix(h, 6), |h, b| mix(h, b as u64)),
                S::U(o, a) => go(a, mix(h, 10 + *o as u64)),
                S::B(o, a, b) => go(b, mix(go(a, mix(h, 20 + *o as u64)), 77)),
                S::Bad(t) => t.bytes().fold(mix(h, 8), |h, b| mix(h, b as u64)),
            }
        }
        go(self, 0x1234_5678_9abc_def1)
    }
    /// Unambiguous prefix text, used to identify cases.
    pub fn key(&self) -> String {
        let mut o = String::new();
        self.key_into(&mut o);
        o
    }
    fn key_into(&self, o: &mut String) {
        match self {
            S::Int(a) => write!(o, "{a}").unwrap(),
            S::Rat(s, n, d) => write!(o, "{}{n}/{d}", if *s < 0 { "-" } else { "+" }).unwrap(),
            S::Real(a) => write!(o, "{a:?}f").unwrap(),
            S::Pi => o.push_str("PI"),
            S::E => o.push_str("E"),
            S::Var(n) => write!(o, "`{n}`").unwrap(),
            S::U(u, a) => {
                write!(o, "({u:?} ").unwrap();
                a.key_into(o);
                o.push(')');
            }
            S::B(b, x, y) => {
                write!(o, "({b:?} ").unwrap();
                x.key_into(o);
                o.push(' ');
                y.key_into(o);
                o.push(')');
            }
            S::Bad(t) => write!(o, "<BAD {t}>").unwrap(),
        }
    }

    /// Build the real expression through the public constructors and operators.
    pub fn build(&self) -> Expression {
        self.build_as(&|n| n)
    }
    /// The same with every variable called what `name` says.
    pub fn build_as<'a>(&self, name: &dyn Fn(&'static str) -> &'a str) -> Expression {
        match self {
            S::Int(a) => Expression::from(*a),
            S::Rat(s, n, d) => {
                Expression::from(SmartNum::new_rational(*s, *n, *d).expect("valid fraction refused"))
            }
            S::Real(a) => Expression::from(*a),
            S::Pi => Expression::pi(),
            S::E => Expression::e(),
            S::Var(n) => Expression::new_variable(name(n)),
            S::U(o, a) => {
                let a = a.build_as(name);
                match o {
                    Un::Neg => -a,
                    Un::Sin => sin(a),
                    Un::Cos => cos(a),
                    Un::Exp => exp(a),
                    Un::Ln => ln(a),
                }
            }
            S::B(o, a, b) => {
                let (a, b) = (a.build_as(name), b.build_as(name));
                match o {
                    Bi::Add => a + b,
                    Bi::Sub => a - b,
                    Bi::Mul => a * b,
                    Bi::Div => a / b,
                    Bi::Pow => a.pow(b),
                }
            }
            S::Bad(t) => panic!("cannot build {t}"),
        }
    }
}

/// Variable names used anywhere in the harness; others are interned on demand.
pub const NAMES: &[&str] = &[
    "x", "y", "z", "a", "b", "c", "t", "u", "w", "X", "Y", "xx", "xy", "x1", "x2", "x_1", "1x", "yx", "",
    "x ", " x", "theta", "k", "n", "xyz", "λ", "é", "0", "1", "sinx", "variable_with_a_long_name",
    LONG[0],
    LONG[1],
    LONG[2],
    LONG[3],
    LONG[4],
    LONG[5],
    LONG[6],
    LONG[7],
    LONG[8],
    LONG[9],
    LONG[10],
    LONG[11],
];

/// Pairs of long names that differ in one end only.
pub const LONG: &[&str] = &[
    "longnamep",
    "longnameq",
    "longname_longnamp",
    "longname_longnamq",
    "longname_longname_longname_longnp",
    "longname_longname_longname_longnq",
    "longname_longname_longname_longname_longname_longname_longname_lp",
    "longname_longname_longname_longname_longname_longname_longname_lq",
    "longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longp",
    "longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longname_longq",
    "ptail_of_it_tail_of_it_tail_of_it_tail_of",
    "qtail_of_it_tail_of_it_tail_of_it_tail_of",
];

/// Many different variables.
pub const MANY: &[&str] = &[
    "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29", "v30", "v31", "v32", "v33", "v34", "v35", "v36", "v37", "v38", "v39", "v40",
];

/// Variables called like something else (not part of what the reader of text knows).
pub const ALIKE: &[&str] = &["pi", "e", "0", "1", "2", "-1", "1/2", "0.500", "x + 1", "x * y", "sinx", "-x", "x ^ 2", "(x)", "x "];

/// Every name that can occur in text.
pub fn all_names() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| NAMES.iter().chain(MANY).copied().collect())
}

/// Hundreds of different variables (not part of what the reader of text knows).
pub fn crowd() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| (1..=600).map(|k| &*Box::leak(format!("w{k}").into_boxed_str())).collect())
}

fn intern(name: &str) -> &'static str {
    if let Some(k) = name.strip_prefix('w').and_then(|k| k.parse::<usize>().ok()) {
        if (1..=600).contains(&k) && crowd()[k - 1] == name {
            return crowd()[k - 1];
        }
    }
    for n in all_names().iter().chain(ALIKE) {
        if *n == name {
            return n;
        }
    }
    Box::leak(name.to_string().into_boxed_str())
}

pub fn read_num(n: &SmartNum) -> S {
    let kinds = [n.is_zero(), n.is_one(), n.is_pi(), n.is_e()];
    if kinds.iter().filter(|b| **b).count() > 1 {
        return S::Bad(format!("number with several kinds: {n:?}"));
    }
    if n.is_pi() {
        if n.to_f64() != std::f64::consts::PI {
            return S::Bad(format!("pi with value {}", n.to_f64()));
        }
        return S::Pi;
    }
    if n.is_e() {
        if n.to_f64() != std::f64::consts::E {
            return S::Bad(format!("e with value {}", n.to_f64()));
        }
        return S::E;
    }
    if let Some(k) = n.to_i64() {
        return S::Int(k);
    }
    match n.to_rational() {
        Some(r) => S::Rat(r.sign, r.nominator, r.denominator),
        None => S::Real(n.to_f64()),
    }
}

/// Read a real expression back into reference form.
pub fn read(e: &Expression) -> S {
    match &e.root {
        AstNode::Operand(o) => {
            if !e.child.is_empty() {
                return S::Bad(format!("operand with {} children", e.child.len()));
            }
            match o {
                AstOperand::Num(n) => read_num(n),
                AstOperand::Variable(var) => S::Var(intern(&var.name)),
            }
        }
        AstNode::Operator(op) => {
            let u = match op.descriptor {
                OperatorType::Neg => Some(Un::Neg),
                OperatorType::Sin => Some(Un::Sin),
                OperatorType::Cos => Some(Un::Cos),
                OperatorType::Exp => Some(Un::Exp),
                OperatorType::Ln => Some(Un::Ln),
                _ => None,
            };
            if let Some(u) = u {
                if e.child.len() != 1 {
                    return S::Bad(format!("{u:?} with {} children", e.child.len()));
                }
                return un(u, read(&e.child[0]));
            }
            let b = match op.descriptor {
                OperatorType::Add => Bi::Add,
                OperatorType::Sub => Bi::Sub,
                OperatorType::Mul => Bi::Mul,
                OperatorType::Div => Bi::Div,
                _ => Bi::Pow,
            };
            if e.child.len() != 2 {
                return S::Bad(format!("{b:?} with {} children", e.child.len()));
            }
            bi(b, read(&e.child[0]), read(&e.child[1]))
        }
    }
}

/// A bounded expression language: all trees with exactly `size` nodes are
/// numbered, so that a space of trees can be enumerated and split.
pub struct Grammar {
    pub leaves: Vec<S>,
    pub uns: Vec<Un>,
    pub bis: Vec<Bi>,
    counts: Vec<u64>,
}

impl Grammar {
    pub fn new(leaves: Vec<S>, uns: &[Un], bis: &[Bi], max: usize) -> Grammar {
        let mut counts = vec![0u64, leaves.len() as u64];
        for s in 2..=max {
            let mut n = uns.len() as u64 * counts[s - 1];
            for a in 1..s - 1 {
                n += bis.len() as u64 * counts[a] * counts[s - 1 - a];
            }
            counts.push(n);
        }
        Grammar { leaves, uns: uns.to_vec(), bis: bis.to_vec(), counts }
    }
    pub fn count(&self, size: usize) -> u64 {
        self.counts[size]
    }
    /// Trees of at most `max` nodes.
    pub fn count_upto(&self, max: usize) -> u64 {
        self.counts[1..=max].iter().sum()
    }
    pub fn tree(&self, size: usize, mut k: u64) -> S {
        if size == 1 {
            return self.leaves[k as usize].clone();
        }
        let c = self.counts[size - 1];
        let nu = self.uns.len() as u64 * c;
        if k < nu {
            return un(self.uns[(k / c) as usize], self.tree(size - 1, k % c));
        }
        k -= nu;
        for a in 1..size - 1 {
            let (ca, cb) = (self.counts[a], self.counts[size - 1 - a]);
            let n = self.bis.len() as u64 * ca * cb;
            if k < n {
                let o = self.bis[(k / (ca * cb)) as usize];
                let r = k % (ca * cb);
                return bi(o, self.tree(a, r / cb), self.tree(size - 1 - a, r % cb));
            }
            k -= n;
        }
        panic!("tree index out of range")
    }
    /// k-th tree among those of at most `max` nodes, smallest first.
    pub fn tree_upto(&self, max: usize, mut k: u64) -> S {
        for s in 1..=max {
            if k < self.counts[s] {
                return self.tree(s, k);
            }
            k -= self.counts[s];
        }
        panic!("tree index out of range")
    }
}

/// Deep "spines": a leaf wrapped `depth` times by the operator pattern, the
/// other operand of a binary operator being a fixed side leaf.
#[derive(Clone, Copy, Debug)]
pub enum Wrap {
    U(Un),
    /// operator, side operand index, spine on the left?
    B(Bi, usize, bool),
}

pub fn spine(base: &S, sides: &[S], pattern: &[Wrap], depth: usize) -> S {
    let mut e = base.clone();
    for d in 0..depth {
        e = match pattern[d % pattern.len()] {
            Wrap::U(u) => un(u, e),
            Wrap::B(o, s, true) => bi(o, e, sides[s].clone()),
            Wrap::B(o, s, false) => bi(o, sides[s].clone(), e),
        }
    }
    e
}

pub fn wraps(uns: &[Un], bis: &[Bi], nsides: usize) -> Vec<Wrap> {
    let mut w: Vec<Wrap> = uns.iter().map(|u| Wrap::U(*u)).collect();
    for b in bis {
        for s in 0..nsides {
            w.push(Wrap::B(*b, s, true));
            w.push(Wrap::B(*b, s, false));
        }
    }
    w
}
