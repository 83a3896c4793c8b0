//! C21: variable names carry no meaning.
use super::*;
use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::op::operator::OperatorType;
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::compute::limit::limit_expression::LimitExpression;
use crate::verif_hook;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
use crate::engine::guarded;
use std::fmt::Write;
use std::sync::OnceLock;

/// What the two variables are called in the answers compared with.
const P: &str = "\u{e000}";
const Q: &str = "\u{e001}";

/// The structure of an expression with the two names replaced by those.
fn plain(e: &Expression, p: &str, q: &str, out: &mut String) {
    match &e.root {
        AstNode::Operand(AstOperand::Variable(v)) => {
            if v.name == p {
                out.push_str(P)
            } else if v.name == q {
                out.push_str(Q)
            } else {
                write!(out, "another variable, {:?}", v.name).unwrap()
            }
        }
        AstNode::Operand(AstOperand::Num(n)) => out.push_str(&read_num(n).key()),
        AstNode::Operator(o) => {
            write!(out, "({:?}", o.descriptor).unwrap();
            for c in &e.child {
                out.push(' ');
                plain(c, p, q, out);
            }
            out.push(')');
        }
    }
}

struct Answer {
    what: &'static str,
    tree: usize,
    text: bool,
    is: String,
}

/// Every operation on every tree, x called `p` and y called `q`.
fn answers(trees: &[S], p: &str, q: &str, mut tell: impl FnMut(Answer) -> bool) {
    let call = |n: &'static str| if n == "x" { p } else { q };
    let (vp, vq) = (Variable::new_variable(p), Variable::new_variable(q));
    for (k, t) in trees.iter().enumerate() {
        let e = t.build_as(&call);
        let show = |e: &Expression| {
            let mut s = String::new();
            plain(e, p, q, &mut s);
            s
        };
        let res = |r: Result<Expression, String>| match r {
            Ok(e) => show(&e),
            Err(_) => "error".into(),
        };
        let of = |s: S| s.build_as(&call);
        let mut go = true;
        let mut put = |what: &'static str, text: bool, f: &mut dyn FnMut() -> String| {
            if go {
                let is = match guarded(|| f()) {
                    Ok(s) => s,
                    Err(m) => format!("crash {m}"),
                };
                go = tell(Answer { what, tree: k, text, is });
            }
        };
        put("simplified", false, &mut || show(&e.clone().num_aggregate()));
        put("text", true, &mut || e.to_string());
        put("derivative by the first", false, &mut || res(e.clone().derivative(&vp).map_err(|m| m.to_string())));
        put("derivative by the second", false, &mut || res(e.clone().derivative(&vq).map_err(|m| m.to_string())));
        put("mixed derivative", false, &mut || {
            res(e.clone().derivative(&vq).and_then(|d| d.derivative(&vp)).map_err(|m| m.to_string()))
        });
        put("text of the derivative", true, &mut || e.clone().derivative(&vp).map(|d| d.to_string()).unwrap_or_default());
        let by: [(&'static str, &Variable, S); 4] = [
            ("first := 2", &vp, i(2)),
            ("first := second", &vp, v("y")),
            ("first := first * second", &vp, bi(Bi::Mul, v("x"), v("y"))),
            ("second := first", &vq, v("x")),
        ];
        for (what, var, s) in by {
            put(what, false, &mut || res(e.clone().substitute(var, &of(s.clone())).map_err(|m| m.to_string())));
        }
        let at: [(&'static str, &Variable, S, u64); 3] =
            [("expanded at 0", &vp, i(0), 2), ("expanded at the second", &vp, v("y"), 1), ("expanded in the second", &vq, i(1), 1)];
        for (what, var, s, n) in at {
            put(what, false, &mut || match e.clone().taylor_expansion(var, &of(s.clone()), n) {
                Ok(x) => format!(
                    "{} in {} at {}: {} rest {}",
                    x.order,
                    show(&x.of),
                    show(&x.at),
                    x.coefficient.iter().map(&show).collect::<Vec<_>>().join(" , "),
                    show(&x.residual)
                ),
                Err(_) => "error".into(),
            });
        }
        put("text of the expansion", true, &mut || {
            e.clone().taylor_expansion(&vp, &of(v("y")), 1).map(|x| x.to_string()).unwrap_or_default()
        });
        let to: [(&'static str, &Variable, S); 4] = [
            ("limit at 0", &vp, i(0)),
            ("limit at the second", &vp, v("y")),
            ("limit in the second at 1", &vq, i(1)),
            ("limit in the second at the first", &vq, v("x")),
        ];
        for (what, var, s) in to {
            put(what, false, &mut || match verif_hook::limit_of_variable(e.clone(), var, of(s.clone()), 1) {
                Err(_) => "refused".into(),
                Ok(LimitExpression::Infinitesimal) => "zero".into(),
                Ok(LimitExpression::Infinity) => "infinity".into(),
                Ok(LimitExpression::BoundedFluctuation) => "bounded fluctuation".into(),
                Ok(LimitExpression::Normal(e)) => format!("value {}", show(&e)),
            });
        }
        if !go {
            return;
        }
    }
}

struct Trees {
    list: Vec<S>,
    base: Vec<Answer>,
}

fn with_base(list: Vec<S>) -> Trees {
    let mut base = vec![];
    answers(&list, P, Q, |a| {
        base.push(a);
        true
    });
    Trees { list, base }
}

/// A few trees in which the names meet in every way.
fn few() -> &'static Trees {
    static T: OnceLock<Trees> = OnceLock::new();
    T.get_or_init(|| {
        let (x, y) = (|| v("x"), || v("y"));
        with_base(vec![
            bi(Bi::Add, bi(Bi::Mul, x(), y()), un(Un::Sin, x())),
            bi(Bi::Div, bi(Bi::Sub, x(), y()), bi(Bi::Mul, y(), bi(Bi::Sub, y(), x()))),
            bi(Bi::Pow, bi(Bi::Add, y(), i(1)), x()),
            bi(Bi::Sub, bi(Bi::Mul, x(), x()), bi(Bi::Mul, y(), un(Un::Ln, un(Un::Exp, y())))),
            bi(Bi::Div, un(Un::Sin, x()), x()),
        ])
    })
}

fn check(t: &Trees, p: &str, q: &str, c: &mut Ctx) {
    if p == q {
        return c.skip();
    }
    let mut k = 0;
    let texts = !p.starts_with('-') && !q.starts_with('-');
    answers(&t.list, p, q, |a| {
        let b = &t.base[k];
        k += 1;
        c.step();
        let want;
        let same = if a.text {
            if !texts {
                return true;
            }
            want = b.is.replace(P, p).replace(Q, q);
            a.is == want
        } else {
            want = b.is.clone();
            a.is == want
        };
        if !same {
            let key = format!("first variable {p:?}, second variable {q:?}, {} of {}", a.what, t.list[a.tree].key());
            let cut = |s: &str| s.chars().take(600).collect::<String>();
            c.fail(key.chars().take(900).collect::<String>(), format!("{} instead of {}", cut(&a.is), cut(&want)));
            return false;
        }
        c.ok();
        true
    });
    if k == t.base.len() {
        c.state(mix(hash(p), hash(q)) ^ t.base.len() as u64);
        c.sample(|| format!("variables {:?} and {:?}", p.chars().take(40).collect::<String>(), q.chars().take(40).collect::<String>()));
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(s.len() as u64, |h, b| mix(h, b as u64))
}

/// Names that look like something else, or are used for something elsewhere.
const WORDS: &[&str] = &[
    "", "pi", "PI", "Pi", "π", "e", "E", "ℯ", "exp", "ln", "log", "sin", "cos", "tan", "sqrt", "abs", "pow", "neg", "add", "sub", "mul", "div", "sin(", "sin(x)",
    "sinx", "cosx", "lnx", "expx", "sin x", "(x)", "x)", "(x", "x + y", "x * y", "x - y", "x / y", "x ^ 2", "-x", "- x", "+", "-", "*", "/", "^", "(", ")", "=", ",", ".", " ",
    "  ", "\t", "\n", "\0", "0", "1", "2", "3", "10", "-1", "-0", "00", "01", "1/2", "1/1", "0/1", "0.5", "0.500", "1.0", "1e5", "2x", "x2", "x^2", "O", "O(x)", "o", "i", "j", "I", "k", "n", "N", "inf",
    "-inf", "Inf", "Infinity", "infinity", "∞", "NaN", "nan", "-nan", "undefined", "null", "None", "none", "nil", "true", "false", "x", "y", "z", "t", "u", "w", "a", "b", "c", "d", "f", "g", "h", "X", "Y", "x1", "x2",
    "x01", "x10", "x_1", "_x", "x_", "_", "__", "x'", "x''", "dx", "dy", "d/dx", "var", "variable", "tmp", "temp", "of", "at", "to", "limit", "order", "self", "zero", "one", "Zero", "One",
    "Special", "num", "Num", "op", "Neg", "Sin", "Cos", "Exp", "Ln", "Add", "Sub", "Mul", "Div", "Pow", "Infinitesimal", "theta", "θ", "λ", "Δx", "ε", "é", "e\u{301}", "ß", "ss", "ﬁ", "fi", "ı", "İ", "x\u{200b}",
    "\u{feff}x", "х", "𝑥", "x\u{0}", "🦀", "変数", "\u{10ffff}", "{}", "{x}", "{0}", "%s", "\\", "\"", "'", "`", "#", "$", "&", "|", "~", "!", "?", "@", ":", ";", "<", ">", "[", "]", "placeholder",
];

/// Single characters: all of ASCII and some others.
fn letters() -> Vec<String> {
    (0u32..128).chain([0xa0, 0xb5, 0xb7, 0xb2, 0xd7, 0xe9, 0xff, 0x131, 0x17f, 0x212a, 0x3b1, 0x3bb, 0x3c0, 0x3c9, 0x430, 0x435, 0x445, 0x5d0, 0x660, 0x2212, 0x221e, 0x4e00, 0xff58, 0xfffd, 0x1f980, 0x10ffff])
        .map(|k| char::from_u32(k).unwrap().to_string())
        .collect()
}

fn printable(k: u64) -> char {
    (32 + k as u8) as char
}

type Two = (String, String);

/// Pairs of names that differ little.
fn near(lens: &[usize], every: usize) -> Vec<Two> {
    let mut l = vec![];
    for n in lens {
        let base: Vec<char> = (0..*n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        let s = |c: &[char]| c.iter().collect::<String>();
        let mut with = |c: Vec<char>| l.push((s(&base), s(&c)));
        for at in (0..*n).filter(|k| k % every == 0 || k + 3 > *n || *k < 3) {
            let mut c = base.clone();
            c[at] = 'Z';
            with(c.clone());
            c[at] = base[at].to_ascii_uppercase();
            with(c.clone());
            c[at] = 'é';
            with(c.clone());
            let mut c = base.clone();
            c.remove(at);
            with(c);
            let mut c = base.clone();
            c.insert(at, '_');
            with(c);
            if at + 1 < *n {
                let mut c = base.clone();
                c.swap(at, at + 1);
                with(c);
            }
        }
        with(base.iter().rev().copied().collect());
        with(base.iter().cycle().take(2 * n).copied().collect());
        with([&base[..], &[' ']].concat());
        with([&[' '], &base[..]].concat());
        with([&base[..], &['\0']].concat());
        with(base.iter().map(|c| c.to_ascii_uppercase()).collect());
    }
    l
}

fn pairs(name: &str, bound: &str, n: u64, get: impl Fn(u64) -> Two + Send + Sync + Clone + 'static) -> Space {
    let g = get.clone();
    Space::new(
        name,
        bound,
        n,
        move |k| {
            let (p, q) = g(k);
            format!("variables {p:?} and {q:?}").chars().take(300).collect()
        },
        move |k, c| {
            let (p, q) = get(k);
            check(few(), &p, &q, c)
        },
    )
}

fn both(l: Vec<Two>) -> Vec<Two> {
    l.into_iter().flat_map(|(a, b)| [(a.clone(), b.clone()), (b, a)]).collect()
}

fn listed(name: &str, bound: &str, l: Vec<Two>) -> Space {
    let n = l.len() as u64;
    let l = Arc::new(l);
    pairs(name, bound, n, move |k| l[k as usize].clone())
}

type Digest = (&'static str, fn(&[u8]) -> u64);

fn sip(b: &[u8], as_text: bool) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    match as_text {
        true => std::str::from_utf8(b).unwrap().hash(&mut h),
        false => h.write(b),
    }
    h.finish()
}

fn crc(b: &[u8]) -> u64 {
    let mut r = !0u32;
    for x in b {
        r ^= *x as u32;
        for _ in 0..8 {
            r = if r & 1 == 1 { (r >> 1) ^ 0xedb8_8320 } else { r >> 1 };
        }
    }
    !r as u64
}

fn fnv64(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

fn murmur(b: &[u8]) -> u64 {
    let mix = |k: u32| k.wrapping_mul(0xcc9e_2d51).rotate_left(15).wrapping_mul(0x1b87_3593);
    let mut h = 0u32;
    let mut parts = b.chunks_exact(4);
    for p in &mut parts {
        h = (h ^ mix(u32::from_le_bytes(p.try_into().unwrap()))).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    let rest = parts.remainder().iter().rev().fold(0u32, |k, x| k << 8 | *x as u32);
    h ^= mix(rest) ^ b.len() as u32;
    h = (h ^ h >> 16).wrapping_mul(0x85eb_ca6b);
    h = (h ^ h >> 13).wrapping_mul(0xc2b2_ae35);
    (h ^ h >> 16) as u64
}

/// The ways in which names are digested into a number usually, as wide as two of them can still be found to agree.
const DIGESTS: &[Digest] = &[
    ("31 (32 bits)", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(31).wrapping_add(*x as u32)) as u64),
    ("33", |b| b.iter().fold(5381u32, |h, x| h.wrapping_mul(33).wrapping_add(*x as u32)) as u64),
    ("33 and exclusive or", |b| b.iter().fold(5381u32, |h, x| h.wrapping_mul(33) ^ *x as u32) as u64),
    ("37", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(37).wrapping_add(*x as u32)) as u64),
    ("131", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(131).wrapping_add(*x as u32)) as u64),
    ("256 mod 10^9+7", |b| b.iter().fold(0u64, |h, x| (h * 256 + *x as u64) % 1_000_000_007)),
    ("131 mod 10^9+7", |b| b.iter().fold(0u64, |h, x| (h * 131 + *x as u64) % 1_000_000_007)),
    ("31 mod 10^9+7", |b| b.iter().fold(0u64, |h, x| (h * 31 + *x as u64) % 1_000_000_007)),
    ("31 mod 10^9+9", |b| b.iter().fold(0u64, |h, x| (h * 31 + *x as u64) % 1_000_000_009)),
    ("65599", |b| b.iter().fold(0u32, |h, x| h.wrapping_mul(65599).wrapping_add(*x as u32)) as u64),
    ("FNV-1", |b| b.iter().fold(0x811c_9dc5u32, |h, x| h.wrapping_mul(0x0100_0193) ^ *x as u32) as u64),
    ("FNV-1a", |b| b.iter().fold(0x811c_9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x0100_0193)) as u64),
    ("FNV-1a 64, low half", |b| fnv64(b) & 0xffff_ffff),
    ("FNV-1a 64, high half", |b| fnv64(b) >> 32),
    ("FNV-1a 64, folded", |b| (fnv64(b) >> 32) ^ (fnv64(b) & 0xffff_ffff)),
    ("CRC-32", crc),
    ("Adler-32", |b| {
        let (l, h) = b.iter().fold((1u64, 0u64), |(l, h), x| ((l + *x as u64) % 65521, (h + l + *x as u64) % 65521));
        h << 16 | l
    }),
    ("one at a time", |b| {
        let h = b.iter().fold(0u32, |h, x| {
            let h = h.wrapping_add(*x as u32);
            let h = h.wrapping_add(h << 10);
            h ^ h >> 6
        });
        let h = h.wrapping_add(h << 3);
        let h = h ^ h >> 11;
        h.wrapping_add(h << 15) as u64
    }),
    ("rotate by 5", |b| b.iter().fold(0u32, |h, x| h.rotate_left(5) ^ *x as u32) as u64),
    ("murmur", murmur),
    ("the standard one, low half", |b| sip(b, true) & 0xffff_ffff),
    ("the standard one, high half", |b| sip(b, true) >> 32),
    ("the standard one, folded", |b| (sip(b, true) >> 32) ^ (sip(b, true) & 0xffff_ffff)),
    ("the standard one of the bytes, low half", |b| sip(b, false) & 0xffff_ffff),
    ("the standard one mod 10^9+7", |b| sip(b, true) % 1_000_000_007),
    ("the standard one mod 1000003", |b| sip(b, true) % 1_000_003),
    ("the standard one mod 10007", |b| sip(b, true) % 10_007),
    ("the standard one mod 1000", |b| sip(b, true) % 1000),
    ("the standard one mod 1009", |b| sip(b, true) % 1009),
    ("the standard one mod 997", |b| sip(b, true) % 997),
    ("sum and length", |b| b.iter().fold(b.len() as u64, |h, x| h + 1000 * *x as u64)),
    ("sum of squares", |b| b.iter().fold(0, |h, x| h + (*x as u64).pow(2))),
    ("product mod 2^32", |b| b.iter().fold(1u32, |h, x| h.wrapping_mul(*x as u32 | 1)) as u64),
    ("exclusive or", |b| b.iter().fold(0, |h, x| h ^ *x as u64)),
];

/// Pairs of different names with the same digest.
fn collisions(each: usize) -> Vec<Two> {
    let letters = |mut m: u64, n: usize| {
        let mut s = String::new();
        while s.len() < n {
            s.push((b'a' + (m % 26) as u8) as char);
            m /= 26;
        }
        s
    };
    let names: Vec<String> = (0..26u64.pow(3))
        .map(|k| letters(k, 3))
        .chain((0..350_000).map(|k| letters(mix(k, 1), 9)))
        .chain((0..60_000).map(|k| format!("x{k}")))
        .chain((0..60_000).map(|k| format!("var_{}", k * 17)))
        .collect();
    let found: Vec<Vec<Two>> = std::thread::scope(|s| {
        let work: Vec<_> = DIGESTS
            .iter()
            .map(|(_, f)| {
                let names = &names;
                s.spawn(move || {
                    let mut l: Vec<(u64, usize)> = names.iter().enumerate().map(|(k, n)| (f(n.as_bytes()), k)).collect();
                    l.sort_unstable();
                    l.windows(2).filter(|w| w[0].0 == w[1].0).map(|w| (names[w[0].1].clone(), names[w[1].1].clone())).take(each).collect::<Vec<_>>()
                })
            })
            .collect();
        work.into_iter().map(|w| w.join().unwrap()).collect()
    });
    for ((what, _), l) in DIGESTS.iter().zip(&found) {
        assert!(!l.is_empty(), "no two names with the same digest: {what}");
    }
    found.into_iter().flatten().collect()
}

/// Pairs of names of which one is a little more than the other.
fn kin() -> Vec<Two> {
    let mut l = near(&(1..=6).chain([8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect::<Vec<_>>(), 16);
    for base in ["x", "ab", "theta"] {
        for c in (0u8..128).map(|c| (c as char).to_string()).chain(["é", "π", "′", "₁", "²", "\u{301}", "\u{200b}", "\u{a0}"].map(String::from)) {
            l.push((base.to_string(), format!("{base}{c}")));
            l.push((base.to_string(), format!("{c}{base}")));
            l.push((base.to_string(), format!("{c}{base}{c}")));
            l.push((base.to_string(), format!("{base}{c}{base}")));
            l.push((format!("{base}{c}"), format!("{base}{c}{c}")));
        }
        for end in ["_0", "_1", "_2", "01", "10", "00", "''", "_old", "_new", "(t)", ".x", ".y", "[0]", " 1", "+1", "*2"] {
            l.push((base.to_string(), format!("{base}{end}")));
        }
    }
    l.retain(|(p, q)| p != q);
    l.sort();
    l.dedup();
    l
}

/// Pairs of names that are nearly the same, or have the same digest.
pub fn alike_names(each: usize) -> Vec<(&'static str, &'static str)> {
    let leak = |s: String| &*Box::leak(s.into_boxed_str());
    collisions(each).into_iter().chain(kin()).map(|(p, q)| (leak(p), leak(q))).collect()
}

/// A few trees in two variables with such names.
pub fn same_digest_list(each: usize) -> Vec<S> {
    alike_names(each)
        .into_iter()
        .flat_map(|(p, q)| {
            let (p, q) = (v(p), v(q));
            let mut l = vec![];
            for (p, q) in [(&p, &q), (&q, &p)] {
                l.push(p.clone());
                l.push(un(Un::Sin, p.clone()));
                l.push(bi(Bi::Sub, bi(Bi::Mul, p.clone(), bi(Bi::Mul, q.clone(), p.clone())), un(Un::Exp, q.clone())));
                l.push(bi(Bi::Div, bi(Bi::Add, p.clone(), i(2)), bi(Bi::Mul, q.clone(), q.clone())));
            }
            // what takes the names for the same must be told them in both roles
            l.into_iter().map(move |s| bi(Bi::Add, s, bi(Bi::Sub, p.clone(), q.clone()))).collect::<Vec<_>>()
        })
        .collect()
}

/// Requests about few expressions in variables with such names: expression, variable, point.
pub fn alike_requests(each: usize) -> Vec<(S, &'static str, S)> {
    let (x, y) = (|| v("x"), || v("y"));
    let trees = [
        y(),
        bi(Bi::Add, x(), y()),
        bi(Bi::Add, un(Un::Cos, y()), bi(Bi::Mul, x(), y())),
        bi(Bi::Div, bi(Bi::Sub, y(), i(2)), bi(Bi::Add, bi(Bi::Mul, x(), x()), i(3))),
    ];
    let mut l = vec![];
    for (p, q) in alike_names(each) {
        for (p, q) in [(p, q), (q, p)] {
            for t in &trees {
                for at in [i(0), q_(1, 2), y()] {
                    l.push((t.rename(&[("x", p), ("y", q)]), p, at.rename(&[("y", q)])));
                }
            }
        }
    }
    l
}

fn q_(n: u64, d: u64) -> S {
    q(1, n, d)
}

/// For every tree, what it is like with the usual names.
fn tree_names(name: &str, leaves: Vec<S>, max: usize, roles: &'static [(&'static str, &'static str)]) -> Space {
    let g = Arc::new(Grammar::new(leaves.clone(), &UNS, &BIS, max));
    let g2 = g.clone();
    Space::new(
        name,
        &format!("every tree of at most {max} nodes over leaves {{{}}} and all operators, with the variables called {roles:?}", leaves.iter().map(|l| l.key()).collect::<Vec<_>>().join(", ")),
        g.count_upto(max),
        move |k| g2.tree_upto(max, k).key(),
        move |k, c| {
            let t = with_base(vec![g.tree_upto(max, k)]);
            for (p, q) in roles {
                check(&t, p, q, c);
            }
        },
    )
}

const CLASHES: &[(&str, &str)] = &[("pi", "e"), ("e", "x"), ("0", "1"), ("2", ""), ("y", "x"), ("b", "a"), ("x", "xx"), ("sin", "ln"), ("longname_longnamep", "longname_longnameq")];

fn spaces(t: Tier) -> Vec<Space> {
    let letters = Arc::new(letters());
    let n = letters.len() as u64;
    let words: Vec<String> = {
        let mut w: Vec<String> = WORDS.iter().map(|s| s.to_string()).collect();
        w.sort();
        w.dedup();
        w
    };
    let m = words.len() as u64;
    let words = Arc::new(words);
    let lens: Vec<usize> = (1..=t.pick(80, 140)).collect();
    let big: Vec<usize> = vec![127, 128, 129, 192, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 65535, 65536];
    let counts = t.pick(1100, 5000);
    let numbered = both(
        (0..counts)
            .flat_map(|k| {
                let x = format!("x{k}");
                [(x.clone(), "x".to_string()), (x.clone(), format!("x{}", k + 1)), (x.clone(), format!("x0{k}")), (x.clone(), format!("X{k}")), (x, format!("{k}"))]
            })
            .collect(),
    );
    let (l1, w1, w2) = (letters.clone(), words.clone(), words.clone());
    let l2 = letters.clone();
    let every_two = |s: u64| format!("{}{}", printable(s / 95), printable(s % 95));
    vec![
        pairs("letters", "every ordered pair of single characters: all of ASCII and some others", n * n, move |k| {
            (l1[(k / n) as usize].clone(), l1[(k % n) as usize].clone())
        }),
        pairs("words", &format!("every ordered pair of {m} words that mean something, or nothing, elsewhere"), m * m, move |k| {
            (w1[(k / m) as usize].clone(), w1[(k % m) as usize].clone())
        }),
        pairs("words and letters", "every word with every single character", m * n, move |k| (w2[(k / n) as usize].clone(), l2[(k % n) as usize].clone())),
        pairs("two characters", "every name of two printable characters beside x", 95 * 95, move |k| (every_two(k), "x".into())),
        pairs("two characters, second", "x beside every name of two printable characters", 95 * 95, move |k| ("x".into(), every_two(k))),
        pairs("two characters, swapped", "every name of two printable characters beside the reverse", 95 * 95, move |k| {
            (every_two(k), format!("{}{}", printable(k % 95), printable(k / 95)))
        }),
        pairs("two characters, shifted", "every name of two printable characters beside those with the same sum, and the same usual hash, of characters", 95 * 95 * 3, move |k| {
            let (s, j) = (k / 3, k % 3);
            let (a, b) = (s / 95, s % 95);
            let (da, db) = [(1u64, 1u64), (1, 31), (1, 33)][j as usize];
            (every_two(s), format!("{}{}", printable((a + da) % 95), printable((b + 95 - db % 95) % 95)))
        }),
        listed("nearly the same", "every name of many lengths beside those with a character changed, missing, added, exchanged, in capitals or with an accent, at every place", both(near(&lens, 1))),
        listed("long and nearly the same", "the same for names of up to 65536 bytes, at some places", both(near(&big, t.pick(997, 97)))),
        listed("numbered", &format!("x0 .. x{counts} beside the next, x, and others"), numbered),
        listed("same digest", &format!("pairs of names that agree in one of {} usual digests (32 bits of each), of 490000 names", DIGESTS.len()), both(collisions(t.pick(12, 100)))),
        tree_names("trees", vec![v("x"), v("y"), i(2)], t.pick(5, 6), CLASHES),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "every pair of names is one case: all operations on a few expressions in the two variables, compared with the answers for two other names; every tree likewise for a few pairs of names",
        assumptions: &["the names U+E000 and U+E001, with which the answers are compared, mean nothing special themselves"],
        spaces,
    }]
}
