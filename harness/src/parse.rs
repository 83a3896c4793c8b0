//! An independent reader for the text of expressions, by the usual rules:
//! functions bind tightest, then powers (right to left), then products and
//! quotients (left to right), a leading minus, then sums and differences (left
//! to right). `n/d` written without spaces is one fraction.

use crate::spec::{bi, un, Bi, Un, S};

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Num(S),
    Id(String),
    Fun(Un),
    Op(char),
    Open,
    Close,
    /// the order term of an expansion
    BigO,
}

fn lex(t: &str, expansion: bool) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut k = 0;
    while k < c.len() {
        let ch = c[k];
        if ch == ' ' {
            k += 1;
        } else if ch == '(' {
            o.push(Tok::Open);
            k += 1;
        } else if ch == ')' {
            o.push(Tok::Close);
            k += 1;
        } else if "+-*/^".contains(ch) {
            o.push(Tok::Op(ch));
            k += 1;
        } else if ch.is_ascii_digit() {
            let st = k;
            while k < c.len() && c[k].is_ascii_digit() {
                k += 1;
            }
            let a: String = c[st..k].iter().collect();
            if k + 1 < c.len() && c[k] == '.' && c[k + 1].is_ascii_digit() {
                k += 1;
                while k < c.len() && c[k].is_ascii_digit() {
                    k += 1;
                }
                let f: String = c[st..k].iter().collect();
                o.push(Tok::Num(S::Real(f.parse().map_err(|_| format!("bad number {f}"))?)));
            } else if k + 1 < c.len() && c[k] == '/' && c[k + 1].is_ascii_digit() {
                k += 1;
                let s2 = k;
                while k < c.len() && c[k].is_ascii_digit() {
                    k += 1;
                }
                let b: String = c[s2..k].iter().collect();
                o.push(Tok::Num(S::Rat(
                    1,
                    a.parse().map_err(|_| format!("bad number {a}"))?,
                    b.parse().map_err(|_| format!("bad number {b}"))?,
                )));
            } else {
                let n: u64 = a.parse().map_err(|_| format!("bad number {a}"))?;
                o.push(Tok::Num(match i64::try_from(n) {
                    Ok(v) => S::Int(v),
                    Err(_) => S::Rat(1, n, 1),
                }));
            }
        } else if ch.is_alphabetic() || ch == '_' {
            let rest: String = c[k..].iter().collect();
            let fun = [("sin", Un::Sin), ("cos", Un::Cos), ("exp", Un::Exp), ("ln", Un::Ln)]
                .into_iter()
                .find(|(n, _)| rest.starts_with(n));
            if let Some((n, f)) = fun {
                o.push(Tok::Fun(f));
                k += n.len();
                continue;
            }
            let st = k;
            while k < c.len() && (c[k].is_alphanumeric() || c[k] == '_') {
                k += 1;
            }
            let n: String = c[st..k].iter().collect();
            if expansion && n == "O" && k < c.len() && c[k] == '(' {
                o.push(Tok::BigO);
            } else {
                o.push(Tok::Id(n));
            }
        } else {
            return Err(format!("unexpected character {ch:?}"));
        }
    }
    Ok(o)
}

struct P {
    t: Vec<Tok>,
    k: usize,
    depth: usize,
    names: Vec<&'static str>,
}

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.k)
    }
    fn is_op(&self, s: &str) -> Option<char> {
        match self.peek() {
            Some(Tok::Op(c)) if s.contains(*c) => Some(*c),
            _ => None,
        }
    }
    fn sum(&mut self) -> Result<S, String> {
        self.depth += 1;
        if self.depth > 4000 {
            return Err("too deep".into());
        }
        let mut l = self.signed_product()?;
        while let Some(c) = self.is_op("+-") {
            if matches!(self.t.get(self.k + 1), Some(Tok::BigO)) {
                break;
            }
            self.k += 1;
            let r = self.signed_product()?;
            l = bi(if c == '+' { Bi::Add } else { Bi::Sub }, l, r);
        }
        self.depth -= 1;
        Ok(l)
    }
    fn signed_product(&mut self) -> Result<S, String> {
        if self.is_op("-").is_some() {
            self.k += 1;
            return Ok(un(Un::Neg, self.signed_product()?));
        }
        let mut l = self.power()?;
        while let Some(c) = self.is_op("*/") {
            self.k += 1;
            let r = self.signed_power()?;
            l = bi(if c == '*' { Bi::Mul } else { Bi::Div }, l, r);
        }
        Ok(l)
    }
    /// right operand of an operator: may carry its own minus
    fn signed_power(&mut self) -> Result<S, String> {
        if self.is_op("-").is_some() {
            self.k += 1;
            return Ok(un(Un::Neg, self.signed_power()?));
        }
        self.power()
    }
    fn power(&mut self) -> Result<S, String> {
        let b = self.tight()?;
        if self.is_op("^").is_some() {
            self.k += 1;
            let r = self.signed_power()?;
            return Ok(bi(Bi::Pow, b, r));
        }
        Ok(b)
    }
    fn tight(&mut self) -> Result<S, String> {
        match self.peek().cloned() {
            Some(Tok::Fun(f)) => {
                self.k += 1;
                // a function directly followed by a negative number
                if self.is_op("-").is_some() && matches!(self.t.get(self.k + 1), Some(Tok::Num(_))) {
                    self.k += 1;
                    let a = self.tight()?;
                    return Ok(un(f, un(Un::Neg, a)));
                }
                Ok(un(f, self.tight()?))
            }
            Some(Tok::Num(n)) => {
                self.k += 1;
                Ok(n)
            }
            Some(Tok::Id(n)) => {
                self.k += 1;
                if n == "pi" {
                    return Ok(S::Pi);
                }
                if n == "e" {
                    return Ok(S::E);
                }
                match self.names.iter().find(|m| **m == n) {
                    Some(m) => Ok(S::Var(m)),
                    None => Err(format!("unknown name {n:?}")),
                }
            }
            Some(Tok::Open) => {
                self.k += 1;
                let s = self.sum()?;
                if self.peek() != Some(&Tok::Close) {
                    return Err("missing )".into());
                }
                self.k += 1;
                Ok(s)
            }
            t => Err(format!("unexpected {t:?}")),
        }
    }
}

/// Read the text of an expression whose variables are among `names`.
pub fn expression(t: &str, names: &[&'static str]) -> Result<S, String> {
    let mut p = P { t: lex(t, false)?, k: 0, depth: 0, names: names.to_vec() };
    let s = p.sum()?;
    if p.k != p.t.len() {
        return Err(format!("left over from token {}", p.k));
    }
    Ok(s)
}

/// Read the text of an expansion: the sum (None if there are no terms) and the
/// argument of the order term.
pub fn expansion(t: &str, names: &[&'static str]) -> Result<(Option<S>, S), String> {
    let mut p = P { t: lex(t, true)?, k: 0, depth: 0, names: names.to_vec() };
    let mut body = None;
    if p.peek() != Some(&Tok::BigO) {
        body = Some(p.sum()?);
        if p.is_op("+").is_none() {
            return Err("no + before the order term".into());
        }
        p.k += 1;
    }
    if p.peek() != Some(&Tok::BigO) {
        return Err("no order term".into());
    }
    p.k += 1;
    let o = p.tight()?;
    if p.k != p.t.len() {
        return Err("text after the order term".into());
    }
    Ok((body, o))
}

/// Terms of a sum, left to right.
pub fn terms(s: &S, out: &mut Vec<S>) {
    match s {
        S::B(Bi::Add, a, b) => {
            terms(a, out);
            out.push((**b).clone());
        }
        s => out.push(s.clone()),
    }
}
