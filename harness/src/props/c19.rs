//! C19: results do not depend on history or thread.
use super::limits::{limit, show_lim};
use super::*;
use crate::ast::op::operand::Variable;
use crate::compute::derivative::Derivative;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
use crate::engine::guarded;
use crate::sched;
use crate::smart_num::ToSmartNum;
use std::fmt::Write as _;
use std::process::Command;
use std::sync::OnceLock;

/// One request; everything it needs is built afresh, the answer is text.
#[derive(Clone)]
enum Req {
    Simp(S),
    Diff(S, &'static str),
    Sub(S, &'static str, S),
    Tay(S, &'static str, S, u64),
    Lim(S, &'static str, S, u64),
    Text(S),
    Num(S, char, S),
    Near(S, S, f64),
    /// built from shared parts, as is
    Build(S),
    /// a compound or number where a variable is required
    Misuse(S, u8),
}

impl Req {
    fn name(&self) -> String {
        let mut n = self.long_name();
        if n.len() > 1000 {
            n = format!("{}... ({} bytes, {:x})", &n[..200], n.len(), digest(&n));
        }
        n
    }
    fn long_name(&self) -> String {
        match self {
            Req::Simp(s) => format!("simplify {}", s.key()),
            Req::Diff(s, v) => format!("d/d{v} {}", s.key()),
            Req::Sub(s, v, t) => format!("{} with {v} := {}", s.key(), t.key()),
            Req::Tay(s, v, a, n) => format!("expand {} in {v} at {} to {n}", s.key(), a.key()),
            Req::Lim(s, v, a, n) => format!("limit {} in {v} at {} steps {n}", s.key(), a.key()),
            Req::Text(s) => format!("text {}", s.key()),
            Req::Num(a, o, b) => format!("{} {o} {}", a.key(), b.key()),
            Req::Near(a, b, e) => format!("{} near {} within {e}", a.key(), b.key()),
            Req::Build(s) => format!("build {}", s.key()),
            Req::Misuse(s, k) => format!("misuse {k} of {}", s.key()),
        }
    }
    fn answer(&self) -> String {
        let key = |s: &crate::ast::tree::Expression| sched::quiet(|| read(s).key());
        let same = |s: &crate::ast::tree::Expression, w: &S| sched::quiet(|| read(s) == *w);
        let e = |s: &crate::ast::tree::Expression| {
            let t = s.to_string();
            sched::quiet(|| format!("{} [{t}]", read(s).key()))
        };
        let r = guarded(|| match self {
            Req::Simp(s) => {
                // the caller's copy must survive
                let mine = s.build();
                let r = mine.clone().num_aggregate();
                assert!(same(&mine, s), "the caller's expression changed");
                e(&r)
            }
            Req::Diff(s, v) => {
                let mine = s.build();
                let r = mine.clone().derivative(&Variable::new_variable(v));
                assert!(same(&mine, s), "the caller's expression changed");
                match r {
                    Ok(r) => e(&r),
                    Err(x) => format!("error {x}"),
                }
            }
            Req::Sub(s, v, t) => {
                let (mine, by) = (s.build(), t.build());
                let r = mine.clone().substitute(&Variable::new_variable(v), &by);
                assert!(same(&mine, s) && same(&by, t), "the caller's expression changed");
                match r {
                    Ok(r) => e(&r),
                    Err(x) => format!("error {x}"),
                }
            }
            Req::Tay(s, v, a, n) => {
                let (mine, at) = (s.build(), a.build());
                let r = mine.clone().taylor_expansion(&Variable::new_variable(v), &at, *n);
                assert!(same(&mine, s) && same(&at, a), "the caller's expression changed");
                match r {
                    Ok(p) => format!(
                        "{} | {} | {p}",
                        p.coefficient.iter().map(|c| key(c)).collect::<Vec<_>>().join(" , "),
                        key(&p.residual)
                    ),
                    Err(x) => format!("error {x}"),
                }
            }
            Req::Lim(s, v, a, n) => match limit(s, v, a, *n) {
                Ok(l) => sched::quiet(|| show_lim(&l)),
                Err(m) => format!("crash {m}"),
            },
            Req::Text(s) => s.build().to_string(),
            Req::Num(a, o, b) => {
                let (x, y) = (super::numbers::num(a), super::numbers::num(b));
                let r = match o {
                    '+' => x + y,
                    '-' => x - y,
                    '*' => x * y,
                    _ => x / y,
                };
                assert!(read_num(&x) == *a && read_num(&y) == *b, "the caller's number changed");
                format!("{} [{r}] {}{}{}{} {}", read_num(&r).key(), r.is_zero(), r.is_one(), r.is_pi(), r.is_e(), r.sign())
            }
            Req::Build(s) => {
                let (a, b) = (s.build(), s.build());
                let both = a.clone() * crate::math_op::sin::sin(b.clone()) - a.clone();
                assert!(same(&a, s) && same(&b, s), "the caller's expression changed");
                format!("{} {}", e(&a), e(&both))
            }
            Req::Misuse(s, k) => {
                let w = s.build();
                let f = v("x").build() * v("y").build();
                let show = |r: Result<crate::ast::tree::Expression, String>| match r {
                    Ok(x) => e(&x),
                    Err(x) => format!("error {x}"),
                };
                match k {
                    0 => show(f.derivative(&w).map_err(|x| x.to_string())),
                    1 => show(f.substitute(&w, &v("z").build()).map_err(|x| x.to_string())),
                    _ => match (&w).to_smart_num() {
                        Ok(n) => format!("number {}", read_num(n).key()),
                        Err(x) => format!("error {x}"),
                    },
                }
            }
            Req::Near(a, b, e) => format!("{:?}", a.build().near(&b.build(), *e).map_err(|e| e.to_string())),
        });
        match r {
            Ok(s) => s,
            Err(m) => format!("crash {m}"),
        }
    }
}

/// Requests chosen to collide: same printed text, same shape, same names, same
/// value, same hash-relevant parts.
fn requests() -> Vec<Req> {
    use Req::*;
    let x = || v("x");
    let y = || v("y");
    let add = |a: S, b: S| bi(Bi::Add, a, b);
    let mul = |a: S, b: S| bi(Bi::Mul, a, b);
    let div = |a: S, b: S| bi(Bi::Div, a, b);
    let pow = |a: S, b: S| bi(Bi::Pow, a, b);
    let sub = |a: S, b: S| bi(Bi::Sub, a, b);
    let sin = |a: S| un(Un::Sin, a);
    vec![
        // same text, different structure or value
        Simp(add(x(), S::Real(0.5001))),
        Simp(add(x(), S::Real(0.4999))),
        Simp(div(i(1), i(2))),
        Text(div(i(1), i(2))),
        Text(q(1, 1, 2)),
        Simp(q(1, 2, 4)),
        Text(mul(x(), div(y(), i(2)))),
        Text(div(mul(x(), y()), i(2))),
        Simp(sin(x())),
        Simp(v("sinx")),
        // same expression, different variable, point or order
        Diff(mul(x(), y()), "x"),
        Diff(mul(x(), y()), "y"),
        Diff(pow(x(), y()), "x"),
        Diff(pow(x(), y()), "y"),
        Diff(mul(x(), y()), "z"),
        Diff(sin(mul(x(), x())), "x"),
        Diff(sin(mul(x(), y())), "x"),
        Sub(add(x(), y()), "x", i(1)),
        Sub(add(x(), y()), "y", i(1)),
        Sub(add(x(), y()), "x", y()),
        Sub(add(x(), y()), "x", add(x(), i(1))),
        Tay(sin(x()), "x", i(0), 3),
        Tay(sin(x()), "x", i(0), 5),
        Tay(sin(x()), "x", i(1), 3),
        Tay(sin(y()), "y", i(0), 3),
        Tay(sin(x()), "y", i(0), 3),
        Tay(un(Un::Exp, x()), "x", i(0), 4),
        Tay(un(Un::Exp, x()), "x", v("a"), 2),
        Lim(div(sin(x()), x()), "x", i(0), 1),
        Lim(div(sin(x()), x()), "x", i(0), 0),
        Lim(div(sin(x()), x()), "x", i(1), 1),
        Lim(div(sin(y()), y()), "y", i(0), 1),
        Lim(div(sin(x()), x()), "y", i(0), 1),
        // numbers, in and out of range, special and not
        Simp(div(i(6), i(4))),
        Simp(mul(add(x(), i(0)), i(1))),
        Simp(un(Un::Ln, un(Un::Exp, x()))),
        Simp(un(Un::Cos, S::Pi)),
        Simp(un(Un::Cos, i(0))),
        Num(q(1, 1, 3), '+', q(1, 1, 6)),
        Num(q(1, 1, 3), '-', q(1, 1, 3)),
        Num(i(i64::MAX), '*', i(i64::MAX)),
        Num(i(0), '/', i(0)),
        Num(S::Pi, '+', i(0)),
        Num(S::Pi, '*', i(2)),
        Num(q(1, 2, 4), '*', q(1, 4, 2)),
        Near(q(1, 1, 3), S::Real(0.333), 1e-2),
        Near(q(1, 1, 3), S::Real(0.333), 1e-9),
        Near(x(), i(1), 1e-2),
        Simp(sub(x(), x())),
        Diff(un(Un::Ln, x()), "x"),
        // large numbers, and two like them
        Num(q(1, 6 << 40, 9 << 40), '+', q(-1, 7 << 30, 9 << 41)),
        Num(q(1, 10 << 33, 15 << 33), '*', q(1, 8 << 50, 12 << 50)),
        Simp(mul(x(), add(q(1, 6 << 40, 35 << 41), q(1, 10 << 33, 21 << 33)))),
        Num(S::Real(0.1), '*', q(1, 1, 3)),
        Num(q(1, (1 << 50) + 1, 3), '/', q(1, 1 << 40, (1 << 45) - 1)),
    ]
}


// ------------------------------------------------------- numbered requests

const OPS: usize = 22;

fn op_on(k: usize, s: S) -> Req {
    use Req::*;
    let plus1 = |n| bi(Bi::Add, v(n), i(1));
    match k {
        0 => Simp(s),
        1 => Text(s),
        2 => Diff(s, "x"),
        3 => Diff(s, "y"),
        4 => Diff(s, "z"),
        5 => Sub(s, "x", i(1)),
        6 => Sub(s, "x", v("y")),
        7 => Sub(s, "x", plus1("x")),
        8 => Sub(s, "y", plus1("x")),
        9 => Tay(s, "x", i(0), 2),
        10 => Tay(s, "x", i(1), 1),
        11 => Tay(s, "y", i(0), 2),
        12 => Tay(s, "x", v("a"), 1),
        13 => Lim(s, "x", i(0), 1),
        14 => Lim(s, "x", i(0), 0),
        15 => Lim(s, "x", i(1), 1),
        16 => Lim(s, "y", i(0), 1),
        17 => Lim(s, "x", v("a"), 1),
        18 => Build(s),
        19 => Misuse(s, 0),
        20 => Misuse(s, 1),
        _ => Misuse(s, 2),
    }
}

/// Different expressions that are alike: same text, value, shape or names.
fn alike() -> Vec<S> {
    let x = || v("x");
    let y = || v("y");
    let b = |o: Bi, l: S, r: S| bi(o, l, r);
    vec![
        b(Bi::Div, i(1), i(2)),
        q(1, 1, 2),
        q(1, 2, 4),
        S::Real(0.5),
        S::Real(0.5001),
        S::Real(0.4999),
        S::Pi,
        S::Real(std::f64::consts::PI),
        S::Real(3.1416),
        S::E,
        S::Real(2.718),
        i(1),
        S::Real(1.0),
        q(1, 3, 3),
        i(0),
        q(1, 0, 5),
        S::Real(0.0),
        i(-2),
        un(Un::Neg, i(2)),
        x(),
        v("X"),
        v("xx"),
        b(Bi::Mul, x(), y()),
        b(Bi::Mul, y(), x()),
        b(Bi::Add, x(), y()),
        b(Bi::Sub, x(), y()),
        b(Bi::Add, x(), un(Un::Neg, y())),
        b(Bi::Sub, y(), x()),
        b(Bi::Div, x(), i(2)),
        b(Bi::Mul, x(), q(1, 1, 2)),
        b(Bi::Mul, b(Bi::Div, i(1), i(2)), x()),
        b(Bi::Pow, x(), i(2)),
        b(Bi::Mul, x(), x()),
        b(Bi::Pow, x(), b(Bi::Add, i(1), i(1))),
        b(Bi::Add, x(), b(Bi::Add, y(), i(2))),
        b(Bi::Add, b(Bi::Add, x(), y()), i(2)),
        b(Bi::Mul, x(), b(Bi::Div, y(), i(2))),
        b(Bi::Div, b(Bi::Mul, x(), y()), i(2)),
        un(Un::Sin, x()),
        v("sin(x)"),
        v("x + y"),
        v("1/2"),
        v("pi"),
        v("2"),
        un(Un::Neg, x()),
        b(Bi::Sub, i(0), x()),
        i(i64::MAX),
        S::Real(i64::MAX as f64),
    ]
}

fn in_context(k: usize, s: S) -> S {
    let (x, y) = (v("x"), v("y"));
    match k {
        0 => s,
        1 => bi(Bi::Add, s, x),
        2 => un(Un::Sin, bi(Bi::Mul, x, s)),
        3 => bi(Bi::Sub, bi(Bi::Mul, s.clone(), x.clone()), bi(Bi::Mul, y, s)),
        4 => bi(Bi::Pow, bi(Bi::Add, x, i(1)), s),
        5 => bi(Bi::Div, un(Un::Exp, bi(Bi::Add, x.clone(), s)), un(Un::Cos, bi(Bi::Mul, x, y))),
        _ => bi(
            Bi::Add,
            bi(Bi::Mul, bi(Bi::Add, un(Un::Sin, x.clone()), y.clone()), bi(Bi::Sub, un(Un::Cos, y), x.clone())),
            bi(Bi::Mul, x, s),
        ),
    }
}
const CONTEXTS: usize = 7;

/// Requests on expressions thousands of levels deep.
fn deep() -> Vec<Req> {
    const DEPTH: usize = 2100;
    let nest = |f: &dyn Fn(S) -> S| (0..DEPTH).fold(v("x"), |s, _| f(s));
    let neg = nest(&|s| un(Un::Neg, s));
    let plus = nest(&|s| bi(Bi::Add, s, i(1)));
    let num = (0..DEPTH).fold(i(1), |s, _| bi(Bi::Add, s, i(1)));
    vec![
        Req::Simp(num),
        Req::Simp(neg.clone()),
        Req::Diff(neg.clone(), "x"),
        Req::Diff(plus.clone(), "x"),
        Req::Lim(neg, "x", i(1), 1),
    ]
}

struct Uni {
    hand: Vec<Req>,
    plain: Grammar,
    rich: Grammar,
    alike: Vec<S>,
    nums: Vec<S>,
    deep: Vec<Req>,
    /// number of trees of each family
    trees: [usize; 3],
}

/// All requests: the hand-picked ones, then operations on trees (three
/// families), then operations on numbers.
fn uni() -> &'static Uni {
    static U: OnceLock<Uni> = OnceLock::new();
    U.get_or_init(|| {
        let plain = Grammar::new(vec![v("x"), v("y"), i(2)], &UNS, &BIS, 4);
        let rich = vec![
            v("x"), v("y"), v("X"), v("xx"), i(0), i(1), i(2), i(-1), q(1, 1, 2), q(1, 2, 4), S::Real(0.5), S::Real(0.5001),
            S::Real(0.4999), S::Pi, S::Real(3.1416), S::E,
        ];
        let nums = rich[4..].iter().cloned().chain([i(i64::MAX), i(i64::MIN), q(-1, 1, 3), S::Real(1.0), q(1, 3, 3), q(1, u64::MAX, 2)]).collect();
        let rich = Grammar::new(rich, &UNS, &BIS, 3);
        let alike = alike();
        let trees = [plain.count_upto(4) as usize, rich.count_upto(3) as usize, alike.len() * CONTEXTS];
        Uni { hand: requests(), plain, rich, alike, nums, deep: deep(), trees }
    })
}

impl Uni {
    fn ntrees(&self) -> usize {
        self.trees.iter().sum()
    }
    fn tree(&self, k: usize) -> S {
        let [a, b, _] = self.trees;
        if k < a {
            self.plain.tree_upto(4, k as u64)
        } else if k < a + b {
            self.rich.tree_upto(3, (k - a) as u64)
        } else {
            let k = k - a - b;
            in_context(k / self.alike.len(), self.alike[k % self.alike.len()].clone())
        }
    }
    fn on_tree(&self, tree: usize, op: usize) -> usize {
        self.hand.len() + tree * OPS + op
    }
    fn numbers(&self) -> usize {
        self.hand.len() + self.ntrees() * OPS
    }
    fn len(&self) -> usize {
        self.deep_from() + self.deep.len()
    }
    fn deep_from(&self) -> usize {
        self.numbers() + self.nums.len() * self.nums.len() * 4
    }
    fn req(&self, k: usize) -> Req {
        if k < self.hand.len() {
            return self.hand[k].clone();
        }
        if k < self.numbers() {
            let k = k - self.hand.len();
            return op_on(k % OPS, self.tree(k / OPS));
        }
        if k >= self.deep_from() {
            return self.deep[k - self.deep_from()].clone();
        }
        let k = k - self.numbers();
        let n = self.nums.len();
        Req::Num(self.nums[k / 4 / n].clone(), ['+', '-', '*', '/'][k % 4], self.nums[k / 4 % n].clone())
    }
}

fn digest(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

// ----------------------------------------------------------- child process

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

/// One request of a history: thread (0: the main one, -1: a new one, -2 and below: one of its own,
/// from so far down its stack; -100 and below: the main one in another world), request, repetitions.
type Item = (i32, usize, usize);

fn one(k: usize) -> Item {
    (0, k, 1)
}

fn item_text(i: &Item) -> String {
    let mut s = i.1.to_string();
    if i.0 != 0 {
        write!(s, "@{}", i.0).unwrap();
    }
    if i.2 != 1 {
        write!(s, "*{}", i.2).unwrap();
    }
    s
}

fn item_parse(t: &str) -> Item {
    let (t, times) = t.split_once('*').map(|(a, b)| (a, b.parse().unwrap())).unwrap_or((t, 1));
    let (t, th) = t.split_once('@').map(|(a, b)| (a, b.parse().unwrap())).unwrap_or((t, 0));
    (th, t.parse().unwrap(), times)
}

type Workers = Vec<(std::sync::mpsc::Sender<usize>, std::sync::mpsc::Receiver<String>)>;

fn thread(f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("thread")
}

/// KiB of the stack in use when the request is made, for the threads -2 and below.
const DOWN: [usize; 10] = [0, 200, 3_000, 64, 512, 1_024, 2_048, 8_192, 16_384, 49_152];

#[inline(never)]
fn down<T>(kib: usize, f: &mut dyn FnMut() -> T) -> T {
    let room = std::hint::black_box([std::mem::MaybeUninit::<u8>::uninit(); 8 << 10]);
    let r = if kib < 8 { f() } else { down(kib - 8, f) };
    std::hint::black_box(&room);
    r
}

/// Answer a history in this process.
fn play(plan: &[Item], mut tell: impl FnMut(String)) {
    use std::sync::mpsc;
    let u = uni();
    let mut workers: Workers = vec![];
    let mut low: Option<(mpsc::Sender<(usize, usize)>, mpsc::Receiver<String>)> = None;
    for (th, r, times) in plan.iter().copied() {
        let mut last: Option<String> = None;
        for k in 0..times {
            let ans = match th {
                0 => u.req(r).answer(),
                -1 => {
                    let (tx, rx) = mpsc::channel();
                    let h = thread(move || {
                        tx.send(uni().req(r).answer()).ok();
                    });
                    let a = rx.recv().unwrap_or_default();
                    h.join().ok();
                    a
                }
                ..=-100 => sched::in_world(sched::WORLDS[(-100 - th) as usize], || u.req(r).answer()),
                ..=-2 => {
                    let w = low.get_or_insert_with(|| {
                        let (tx, rx) = mpsc::channel::<(usize, usize)>();
                        let (tx2, rx2) = mpsc::channel::<String>();
                        std::thread::Builder::new()
                            .stack_size(72 << 20)
                            .spawn(move || {
                                for (kib, r) in rx {
                                    tx2.send(down(kib, &mut || uni().req(r).answer())).ok();
                                }
                            })
                            .expect("thread");
                        (tx, rx2)
                    });
                    w.0.send((DOWN[(-2 - th) as usize], r)).unwrap();
                    w.1.recv().unwrap_or_default()
                }
                _ => {
                    while workers.len() < th as usize {
                        let (tx, rx) = mpsc::channel::<usize>();
                        let (tx2, rx2) = mpsc::channel::<String>();
                        thread(move || {
                            for k in rx {
                                tx2.send(uni().req(k).answer()).ok();
                            }
                        });
                        workers.push((tx, rx2));
                    }
                    let w = &workers[th as usize - 1];
                    w.0.send(r).unwrap();
                    w.1.recv().unwrap_or_default()
                }
            };
            if last.as_ref().map(|l| *l != ans).unwrap_or(false) {
                last = Some(format!("after {k} repetitions {ans}"));
                break;
            }
            last = Some(ans);
        }
        tell(last.unwrap_or_default());
    }
}

/// `E <pieces> <fresh> <a> <ha> <b> <hb>`: every schedule of requests a and b
/// on two threads with one (or two) preemptions. Prints "<schedules> <stops>",
/// or "bad <description>".
fn interleave(a: &[&str], fresh_k: Option<u64>) -> String {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (pieces, ra, ha, rb, hb) = (n(0), n(2) as usize, n(3), n(4) as usize, n(5));
    let pair = sched::Pair::new();
    let job = |r: usize| -> Box<dyn FnOnce() -> String + Send> {
        let q = uni().req(r);
        Box::new(move || q.answer())
    };
    let (mut schedules, mut stops, mut blocked) = (0u64, 0u64, 0u64);
    let stride = a.get(7).map(|s| s.parse().unwrap()).unwrap_or(1u64);
    let start = a.get(8).map(|s| s.parse().unwrap()).unwrap_or(1u64);
    let mut k1 = fresh_k.unwrap_or(start);
    loop {
        let mut k2 = if pieces > 1 { 1 } else { 0 };
        loop {
            let o = pair.run(k1, k2, job(ra), job(rb));
            schedules += 1;
            stops += o.stops[0] + o.stops[1];
            blocked += o.blocked as u64;
            for (w, h) in [(0, ha), (1, hb)] {
                if digest(&o.answers[w]) != h {
                    return format!(
                        "bad request {} on thread {} answers {} when thread 1 is stopped at its {k1}th point{}",
                        w + 1, w + 1, o.answers[w].replace('\n', "\\n"),
                        if k2 > 0 { format!(" and thread 2 at its {k2}th") } else { String::new() }
                    );
                }
            }
            if pieces < 2 || o.stops[1] == 0 {
                if o.stops[0] == 0 || fresh_k.is_some() {
                    return format!("{schedules} {stops} {blocked}");
                }
                break;
            }
            k2 += 1;
        }
        k1 += stride;
    }
}

/// Thread 1 stopped once, right before one of its machine instructions, while
/// thread 2 runs its request; afterwards both requests again.
fn at_instruction(pair: &sched::Pair, p: (u32, u32), (ra, ha): (usize, u64), (rb, hb): (usize, u64)) -> Result<bool, String> {
    let mut stopped = false;
    for _ in 0..3 {
        let o = pair.run(
            0,
            0,
            Box::new(move || {
                let q = uni().req(ra);
                sched::steps::set(p);
                let r = sched::steps::armed(|| q.answer());
                sched::steps::clear();
                r
            }),
            Box::new(move || uni().req(rb).answer()),
        );
        for (w, h) in [(0, ha), (1, hb)] {
            if digest(&o.answers[w]) != h {
                return Err(format!(
                    "bad request {} on thread {} answers {} when thread 1 is stopped before its instruction +{:x} (execution {})",
                    w + 1, w + 1, o.answers[w].replace('\n', "\\n"), p.0, p.1 + 1
                ));
            }
        }
        stopped = o.stops[0] > 0;
        if stopped {
            break;
        }
    }
    for (r, h) in [(ra, ha), (rb, hb)] {
        let s = uni().req(r).answer();
        if digest(&s) != h {
            return Err(format!(
                "bad request {} afterwards answers {} when thread 1 was stopped before its instruction +{:x} (execution {})",
                uni().req(r).name().replace('\n', " "), s.replace('\n', "\\n"), p.0, p.1 + 1
            ));
        }
    }
    Ok(stopped)
}

fn instructions(a: &[&str]) -> String {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (ra, rb) = ((n(0) as usize, n(1)), (n(2) as usize, n(3)));
    if !sched::steps::install() {
        return "unavailable".into();
    }
    let pair = sched::Pair::new();
    for r in [rb.0, ra.0] {
        uni().req(r).answer();
    }
    let q = uni().req(ra.0);
    let (_, points) = sched::steps::record(|| q.answer());
    if points.is_empty() {
        return "unavailable".into();
    }
    let mut stops = 0u64;
    for p in &points {
        match at_instruction(&pair, *p, ra, rb) {
            Ok(s) => stops += s as u64,
            Err(e) => return e,
        }
    }
    format!("{} {stops} 0", points.len())
}

/// `history <file>`: each line of the file is played in a copy of this pristine
/// process (which has not called the code under test); one line of output each.
pub fn child(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    uni(); // numbering only; does not call the code under test
    let text = std::fs::read_to_string(&a[0]).expect("plan");
    for line in text.lines() {
        let mut it = line.split(' ');
        let cmd = it.next().unwrap();
        let rest: Vec<&str> = it.collect();
        let patience = if cmd == "I" { (600, 3000) } else { (60, 300) };
        let copy_once = |f: &mut dyn FnMut() -> String| unsafe {
            let pid = fork();
            if pid == 0 {
                // endless work is ended by the processor time it takes, a
                // deadlock by the (much longer) time that passes
                let (cpu, wall) = patience;
                setrlimit(0, &[cpu as u64, cpu as u64 + 5]);
                alarm(wall);
                let mut out = f();
                out.push('\n');
                use std::io::Write;
                let mut so = std::io::stdout();
                so.write_all(out.as_bytes()).ok();
                so.flush().ok();
                _exit(0);
            }
            let mut st = 0;
            if pid < 0 || waitpid(pid, &mut st, 0) != pid {
                println!("fork failed");
                std::process::exit(2);
            }
            st
        };
        // a death counts if it happens every time
        let copy = |f: &mut dyn FnMut() -> String| {
            let mut st = 0;
            for _ in 0..3 {
                st = copy_once(f);
                if st == 0 || st == 14 || st == 24 {
                    break;
                }
            }
            if st != 0 {
                println!("died {st}");
            }
            st == 0
        };
        match cmd {
            // digests, or with F the text of each answer
            "H" | "F" => {
                copy(&mut || {
                    let plan: Vec<Item> = rest.iter().map(|t| item_parse(t)).collect();
                    let mut out = String::new();
                    play(&plan, |s| {
                        if cmd == "F" {
                            out += &s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
                            out.push('\t');
                        } else {
                            write!(out, "{:x} ", digest(&s)).unwrap();
                        }
                    });
                    out
                });
            }
            "E" if rest[1] == "0" => {
                copy(&mut || interleave(&rest, None));
            }
            "E" => {
                // every schedule in its own process
                let mut k = 1;
                loop {
                    let mut cmdline = rest.clone();
                    cmdline[1] = "0";
                    let ok = copy(&mut || interleave(&cmdline, Some(k)));
                    k += 1;
                    // the number of points of the first request, counted in a process of its own
                    if !ok || k > rest[6].parse::<u64>().unwrap() {
                        break;
                    }
                }
                println!("end");
            }
            // stopped at every instruction, in one process
            "I" => {
                copy(&mut || instructions(&rest));
            }
            // the instructions a request executes when it comes first
            "R" => {
                copy(&mut || {
                    if !sched::steps::install() {
                        return "unavailable".into();
                    }
                    let q = uni().req(rest[0].parse().unwrap());
                    let (_, points) = sched::steps::record(|| q.answer());
                    if points.is_empty() {
                        return "unavailable".into();
                    }
                    points.iter().map(|p| format!("{}:{}", p.0, p.1)).collect::<Vec<_>>().join(" ")
                });
            }
            // stopped at one instruction, in a process of its own
            "J" => {
                copy(&mut || {
                    if !sched::steps::install() {
                        return "0 0 0".into();
                    }
                    let n = |k: usize| rest[k].parse::<u64>().unwrap();
                    let pair = sched::Pair::new();
                    let p = (n(4) as u32, n(5) as u32);
                    match at_instruction(&pair, p, (n(0) as usize, n(1)), (n(2) as usize, n(3))) {
                        Ok(s) => format!("1 {} 0", s as u64),
                        Err(e) => e,
                    }
                });
            }
            // how many scheduling points a request has when it comes first
            "P" => {
                copy(&mut || {
                    let pair = sched::Pair::new();
                    let r: usize = rest[0].parse().unwrap();
                    let job = |r: usize| -> Box<dyn FnOnce() -> String + Send> {
        let q = uni().req(r);
        Box::new(move || q.answer())
    };
                    let nothing = || -> Box<dyn FnOnce() -> String + Send> { Box::new(String::new) };
                    let big = 1u64 << 40;
                    let o = pair.run(big, 0, job(r), nothing());
                    format!("{}", big - o.left)
                });
            }
            _ => panic!("unknown plan {line}"),
        }
    }
}

fn ask(lines: &[String]) -> Vec<String> {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::var("SYMCHECK_TMP").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let file = format!("{dir}/history-{}-{}", std::process::id(), N.fetch_add(1, SeqCst));
    std::fs::write(&file, lines.join("\n")).expect("write plan");
    let exe = std::env::current_exe().expect("own path");
    let o = Command::new(exe).arg("history").arg(&file).output().expect("child process");
    std::fs::remove_file(&file).ok();
    let v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
    assert!(o.status.success(), "the explorer's own child failed: {} {}", o.status, String::from_utf8_lossy(&o.stderr));
    v
}

fn line(cmd: &str, plan: &[Item]) -> String {
    let mut s = String::from(cmd);
    for p in plan {
        s.push(' ');
        s += &item_text(p);
    }
    s
}

fn digests(l: &str) -> Vec<Option<u64>> {
    l.split_whitespace().map(|t| u64::from_str_radix(t, 16).ok()).collect()
}

/// Digest of the answer of every request alone in a fresh process.
fn base() -> &'static Vec<Option<u64>> {
    static B: OnceLock<Vec<Option<u64>>> = OnceLock::new();
    B.get_or_init(|| {
        let n = uni().len();
        let step = n / 32 + 1;
        let parts: Vec<Vec<Option<u64>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|w| {
                    sc.spawn(move || {
                        let mut out = vec![];
                        for part in (w..32).step_by(8) {
                            let r = (part * step).min(n)..((part + 1) * step).min(n);
                            let lines: Vec<String> = r.clone().map(|k| line("H", &[one(k)])).collect();
                            let a = ask(&lines);
                            assert!(a.len() == lines.len(), "missing answers");
                            out.push((part, a.iter().map(|l| digests(l).first().copied().flatten()).collect::<Vec<_>>()));
                        }
                        out
                    })
                })
                .collect();
            let mut all: Vec<(usize, Vec<Option<u64>>)> = hs.into_iter().flat_map(|h| h.join().expect("baseline")).collect();
            all.sort_by_key(|p| p.0);
            all.into_iter().map(|p| p.1).collect()
        });
        parts.concat()
    })
}

fn full(plan: &[Item]) -> Vec<String> {
    ask(&[line("F", plan)]).first().map(|l| l.split('\t').map(|s| s.to_string()).collect()).unwrap_or_default()
}

fn item_name(p: &Item) -> String {
    let n = uni().req(p.1).name();
    let n = match p.0 {
        0 => n,
        -1 => format!("{n} on a new thread"),
        t @ ..=-100 => format!("{n} in the world of {:?}", sched::WORLDS[(-100 - t) as usize]),
        ..=-2 => format!("{n} with {} KiB of the stack in use", DOWN[(-2 - p.0) as usize]),
        t => format!("{n} on thread {t}"),
    };
    if p.2 > 1 {
        format!("{n} ({} times)", p.2)
    } else {
        n
    }
}

fn first_wrong(plan: &[Item], ans: &str) -> Option<usize> {
    let d = digests(ans);
    (0..plan.len()).find(|k| d.get(*k).copied().flatten() != base()[plan[*k].1])
}

/// Report the answer at `k` of the history as wrong, after shortening it.
fn blame(plan: &[Item], k: usize, c: &mut Ctx) {
    let mut short: Vec<Item> = plan[..=k].to_vec();
    if k > 1 {
        // is one earlier request enough?
        let mut earlier: Vec<usize> = (0..k).rev().collect();
        let mut seen = std::collections::HashSet::new();
        earlier.retain(|j| seen.insert(plan[*j]));
        earlier.truncate(6000);
        let mut tries = vec![vec![plan[k]]];
        tries.extend(earlier.iter().map(|j| vec![plan[*j], plan[k]]));
        let a = ask(&tries.iter().map(|p| line("H", p)).collect::<Vec<_>>());
        if let Some(t) = tries.iter().zip(&a).find(|(p, l)| first_wrong(p, l) == Some(p.len() - 1)) {
            short = t.0.clone();
        }
    }
    let got = full(&short);
    let want = full(&[one(plan[k].1)]);
    let got = got.get(short.len() - 1).cloned().unwrap_or_else(|| got.join(" "));
    let hist: Vec<String> = short[..short.len() - 1].iter().rev().take(6).rev().map(item_name).collect();
    c.fail(
        format!("history [{}{}] request {}", if short.len() > 7 { "... ; " } else { "" }, hist.join(" ; "), item_name(&plan[k])),
        format!("the answer is {got:?}, but alone in a fresh process it is {:?}", want.first().cloned().unwrap_or_default()),
    )
}

/// Play every history in its own fresh process; every answer must be the one
/// the request gets alone.
fn judge(plans: Vec<Vec<Item>>, c: &mut Ctx) {
    base();
    let got = ask(&plans.iter().map(|p| line("H", p)).collect::<Vec<_>>());
    for (k, plan) in plans.iter().enumerate() {
        c.steps(plan.iter().map(|p| p.2 as u64).sum());
        let g = got.get(k).map(|s| s.as_str()).unwrap_or("");
        if let Some(j) = first_wrong(plan, g) {
            return blame(plan, j, c);
        }
        c.validated += plan.len() as u64;
        c.state(plan.iter().fold(9, |h, p| mix(mix(h, p.1 as u64), (p.0 as i64 as u64) << 32 | p.2 as u64)));
    }
    if let Some(p) = plans.last() {
        for d in digests(got.last().map(|s| s.as_str()).unwrap_or("")).into_iter().flatten().take(50) {
            c.outcome(d);
        }
        c.sample(|| {
            format!(
                "{} histories like [{}]: every answer as in a fresh process",
                plans.len(),
                p.iter().rev().take(3).rev().map(item_name).collect::<Vec<_>>().join(" ; ")
            )
        });
    }
}

fn digits(mut k: u64, n: u64, len: usize) -> Vec<usize> {
    let mut d = vec![0; len];
    for j in (0..len).rev() {
        d[j] = (k % n) as usize;
        k /= n;
    }
    d
}

/// A cyclic sequence containing every word of length `w` over `n` symbols.
fn de_bruijn(n: usize, w: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, w: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > w {
            if w % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, w, a, out);
            for j in a[t - p] + 1..n {
                a[t] = j;
                db(t + 1, t, n, w, a, out);
            }
        }
    }
    let mut a = vec![0; n * w + 1];
    let mut out = vec![];
    db(1, 1, n, w, &mut a, &mut out);
    out.extend_from_within(0..w - 1);
    out
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn interleavings(name: &str, bound: &str, pieces: u64, fresh: bool, set: Vec<usize>) -> Space {
    interleavings_by(name, bound, pieces, fresh, set, 0)
}

fn interleavings_by(name: &str, bound: &str, pieces: u64, fresh: bool, set: Vec<usize>, places: u64) -> Space {
    let n = set.len();
    let set2 = set.clone();
    // the long ones: one case for each pair
    let split = if pieces > 1 || fresh { n } else { 1 };
    let parts: usize = if pieces > 1 { 8 } else { 1 };
    Space::new(
        name,
        bound,
        (n * split * parts) as u64,
        move |k| format!("thread 1: {}", uni().req(set2[k as usize / parts / split]).name()),
        move |k, c| {
            let part = k as usize % parts;
            let k = k / parts as u64;
            let a = set[k as usize / split];
            let b = base();
            let known = |r: usize| b[r].map(|h| h.to_string());
            let Some(ha) = known(a) else { return c.skip() };
            let points = if fresh || places > 0 { ask(&[format!("P {a}")]).first().cloned().unwrap_or_default() } else { "0".into() };
            let stride = if places > 0 { (points.parse::<u64>().unwrap_or(0) / places).max(1) } else { parts as u64 };
            let mut lines = vec![];
            let mut second = vec![];
            for (j, r) in set.iter().enumerate() {
                if split > 1 && j != k as usize % split {
                    continue;
                }
                let Some(hb) = known(*r) else { continue };
                lines.push(format!("E {pieces} {} {a} {ha} {r} {hb} {points} {stride} {}", fresh as u8, part + 1));
                second.push(*r);
            }
            let got = ask(&lines);
            if second.is_empty() {
                return c.skip();
            }
            let mut at = 0;
            for l in &got {
                if l == "end" {
                    at += 1;
                    continue;
                }
                let r = second[at.min(second.len() - 1)];
                let f: Vec<u64> = l.split(' ').filter_map(|t| t.parse().ok()).collect();
                if l.starts_with("bad") || l.starts_with("died") || f.len() != 3 {
                    return c.fail(
                        format!("[{}] beside [{}]", uni().req(a).name(), uni().req(r).name()),
                        format!(
                            "{}; alone: {:?} and {:?}",
                            if l.starts_with("died") { format!("the process {l} (deadlock or crash)") } else { l.clone() },
                            full(&[one(a)]).first().cloned().unwrap_or_default(),
                            full(&[one(r)]).first().cloned().unwrap_or_default()
                        ),
                    );
                }
                c.steps(f[0] * 2);
                c.validated += f[0] * 2;
                *c.notes.entry("schedules".into()).or_insert(0) += f[0];
                *c.notes.entry("preemptions".into()).or_insert(0) += f[1];
                *c.notes.entry("schedules in which a thread waited for a lock".into()).or_insert(0) += f[2];
                c.state(mix(mix(a as u64, r as u64), pieces * 2 + fresh as u64 + ((part as u64) << 8)));
                if !fresh {
                    at += 1;
                }
            }
            if at != second.len() {
                c.fail(format!("[{}]", uni().req(a).name()), "schedules without an outcome");
            }
            c.sample(|| format!("thread 1: {}; {} requests on thread 2, every preemption point", uni().req(a).name(), second.len()));
        },
    )
}

/// Thread 1 stopped once before every machine instruction it executes.
fn at_instructions(name: &str, bound: &str, fresh: bool, set: Vec<usize>) -> Space {
    let n = set.len();
    let set2 = set.clone();
    let parts: usize = if fresh { 16 } else { 1 };
    Space::new(
        name,
        bound,
        (n * n * parts) as u64,
        move |k| {
            let k = k as usize / parts;
            format!("thread 1: {}, thread 2: {}", uni().req(set2[k / n]).name(), uni().req(set2[k % n]).name())
        },
        move |k, c| {
            let part = k as usize % parts;
            let k = k / parts as u64;
            let (a, r) = (set[k as usize / n], set[k as usize % n]);
            let (Some(ha), Some(hb)) = (base()[a], base()[r]) else { return c.skip() };
            let lines: Vec<String> = if fresh {
                let p = ask(&[format!("R {a}")]).first().cloned().unwrap_or_default();
                if p == "unavailable" {
                    return c.skip();
                }
                p.split(' ').skip(part).step_by(parts).map(|p| format!("J {a} {ha} {r} {hb} {}", p.replace(':', " "))).collect()
            } else {
                vec![format!("I {a} {ha} {r} {hb}")]
            };
            let got = ask(&lines);
            if got.iter().any(|l| l == "unavailable") {
                // this machine does not let a program single-step itself
                return c.skip();
            }
            if got.len() != lines.len() {
                return c.fail(format!("[{}] beside [{}]", uni().req(a).name(), uni().req(r).name()), "schedules without an outcome");
            }
            let (mut schedules, mut stops) = (0, 0);
            for l in &got {
                let f: Vec<u64> = l.split(' ').filter_map(|t| t.parse().ok()).collect();
                if l.starts_with("bad") || l.starts_with("died") || f.len() != 3 {
                    return c.fail(
                        format!("[{}] beside [{}]", uni().req(a).name(), uni().req(r).name()),
                        format!(
                            "{}; alone: {:?} and {:?}",
                            if l.starts_with("died") { format!("the process {l} (deadlock or crash)") } else { l.clone() },
                            full(&[one(a)]).first().cloned().unwrap_or_default(),
                            full(&[one(r)]).first().cloned().unwrap_or_default()
                        ),
                    );
                }
                schedules += f[0];
                stops += f[1];
            }
            c.steps(schedules * 2);
            c.validated += schedules * 2;
            *c.notes.entry("schedules".into()).or_insert(0) += schedules;
            *c.notes.entry("preemptions".into()).or_insert(0) += stops;
            *c.notes.entry("preemptions before a chosen machine instruction".into()).or_insert(0) += stops;
            c.state(mix(mix(a as u64, r as u64), 77 + fresh as u64 + ((part as u64) << 8)));
            c.sample(|| format!("thread 1: {}; thread 2: {}; {stops} preemptions", uni().req(a).name(), uni().req(r).name()));
        },
    )
}

fn spaces(t: Tier) -> Vec<Space> {
    let u = uni();
    let all = u.len();
    let n = u.hand.len() as u64;
    let (plain3, plain2) = (u.plain.count_upto(3) as usize, u.plain.count_upto(2) as usize);
    let rich2 = u.rich.count_upto(2) as usize;
    let [f1, f2, f3] = u.trees;
    let name = |k: u64| uni().req(k as usize).name();
    let mut out = vec![];
    // every request by itself
    let batch = 256usize;
    out.push(Space::new(
        "single",
        &format!("each of {all} requests twice in a fresh process, then on another thread, on a new thread, and again"),
        (all / batch + 1) as u64,
        move |k| format!("requests {}..", k as usize * batch),
        move |k, c| {
            let r = (k as usize * batch).min(all)..((k as usize + 1) * batch).min(all);
            judge(r.map(|r| vec![one(r), one(r), (1, r, 1), (-1, r, 1), one(r)]).collect(), c)
        },
    ));
    // all ordered pairs in fresh processes: hand-picked, and every operation on small trees
    let mut small: Vec<usize> = (0..n as usize).collect();
    for tr in 0..plain2 {
        small.extend((0..OPS).map(|o| u.on_tree(tr, o)));
    }
    if t == Tier::Thorough {
        for tr in f1 + f2..f1 + f2 + u.alike.len() {
            small.extend([0, 1, 2, 5, 9, 13, 18].map(|o| u.on_tree(tr, o)));
        }
    }
    let mut some = small.clone();
    some.extend(u.deep_from()..u.deep_from() + u.deep.len());
    let some2 = some.clone();
    out.push(Space::new(
        "other worlds",
        &format!("each of {} requests in the worlds {:?}: clocks that stand or leap between looks, and environments with every variable set", some.len(), sched::WORLDS),
        some.len() as u64,
        move |k| name(some2[k as usize] as u64),
        move |k, c| {
            let r = some[k as usize];
            let l = sched::WORLDS.len() as i32;
            judge((0..l).map(|w| vec![(-100 - w, r, 1), one(r), (-100 - w, r, 2)]).collect(), c)
        },
    ));
    let from = u.deep_from();
    let low: Vec<usize> = (0..n as usize).chain(from..from + u.deep.len()).collect();
    let low2 = low.clone();
    out.push(Space::new(
        "deep in the stack",
        &format!("every request of {} and on expressions 2100 levels deep, from every one of {DOWN:?} KiB down the stack of one thread after every other", n),
        low.len() as u64,
        move |k| name(low2[k as usize] as u64),
        move |k, c| {
            let r = low[k as usize];
            let l = DOWN.len() as i32;
            let mut plans: Vec<Vec<Item>> = vec![];
            for a in 0..l {
                plans.push((0..l).flat_map(|b| [(-2 - a, r, 1), (-2 - b, r, 1)]).collect());
                plans.push((0..l).map(|b| (-2 - (a + b) % l, r, 1)).collect());
            }
            judge(plans, c)
        },
    ));
    let sm = small.clone();
    out.push(Space::new(
        "pairs",
        &format!("every ordered pair of {} requests, each pair in a fresh process", small.len()),
        small.len() as u64,
        {
            let s = small.clone();
            move |k| format!("{} first", name(s[k as usize] as u64))
        },
        move |k, c| judge(sm.iter().map(|r| vec![one(sm[k as usize]), one(*r)]).collect(), c),
    ));
    out.push(Space::new(
        "pairs on two threads",
        &format!("every ordered pair of {n} requests, each thread assignment that uses both threads, each in a fresh process"),
        n,
        move |k| format!("{} first", name(k)),
        move |k, c| {
            let k = k as usize;
            let mut l = vec![];
            for r in 0..n as usize {
                l.push(vec![(1, k, 1), (2, r, 1), (1, k, 1)]);
                l.push(vec![(0, k, 1), (1, r, 1), (0, k, 1)]);
                l.push(vec![(-1, k, 1), (0, r, 1), (-1, k, 1)]);
            }
            judge(l, c)
        },
    ));
    out.push(Space::new(
        "triples",
        &format!("every ordered triple of {n} requests, each in a fresh process"),
        n * n,
        move |k| digits(k, n, 2).iter().map(|d| name(*d as u64)).collect::<Vec<_>>().join(" ; "),
        move |k, c| {
            let d = digits(k, n, 2);
            judge((0..n as usize).map(|r| vec![one(d[0]), one(d[1]), one(r)]).collect(), c)
        },
    ));
    // every request in one process, in many orders
    let orders: Vec<(usize, bool)> = (0..)
        .map(|j| if j == 0 { 1 } else { j * 7919 % all + 1 })
        .filter(|s| gcd(*s, all) == 1)
        .take(t.pick(8, 64))
        .flat_map(|s| [(s, false), (s, true)])
        .collect();
    out.push(Space::new(
        "grand tours",
        &format!("one history of all {all} requests, in {} different orders, on one and on three threads", orders.len()),
        orders.len() as u64,
        |k| format!("tour {k}"),
        move |k, c| {
            let (s, threads) = orders[k as usize];
            let plan = (0..all).map(|j| (if threads { (j % 3) as i32 } else { 0 }, (j * s + k as usize) % all, 1)).collect();
            judge(vec![plan], c)
        },
    ));
    // all ordered pairs of operations on one tree
    let nt = u.ntrees();
    let ops = de_bruijn(OPS, 2);
    let per = 16usize;
    out.push(Space::new(
        "operations of one tree",
        &format!("for each of {nt} trees one history with every ordered pair of {OPS} operations on it"),
        (nt / per + 1) as u64,
        move |k| format!("trees {}..", k as usize * per),
        move |k, c| {
            let r = (k as usize * per).min(nt)..((k as usize + 1) * per).min(nt);
            judge(r.map(|tr| ops.iter().map(|o| one(uni().on_tree(tr, *o))).collect()).collect(), c)
        },
    ));
    // all ordered pairs of trees under one operation
    let mut trees: Vec<usize> = (0..t.pick(plain3, f1)).collect();
    trees.extend(f1..f1 + rich2);
    trees.extend(f1 + f2..f1 + f2 + t.pick(2 * u.alike.len(), f3));
    let m = trees.len();
    let piece = 20_000usize;
    let parts = m * m / piece + 1;
    let tour = std::sync::Arc::new(de_bruijn(m, 2));
    out.push(Space::new(
        "trees under one operation",
        &format!("for each of {OPS} operations, histories with every ordered pair of {m} trees, in processes of {piece} requests each"),
        (OPS * parts) as u64,
        move |k| format!("operation {} part {}", k as usize / parts, k as usize % parts),
        {
            let tour = tour.clone();
            move |k, c| {
                let (o, p) = (k as usize / parts, k as usize % parts);
                let a = (p * piece).min(tour.len());
                let b = (a + piece + 1).min(tour.len());
                judge(vec![tour[a..b].iter().map(|x| one(uni().on_tree(trees[*x], o))).collect()], c)
            }
        },
    ));
    // numbers
    let first = u.numbers();
    let nn = u.deep_from() - first;
    out.push(Space::new(
        "numbers",
        &format!("histories with every ordered pair of {nn} number operations"),
        nn as u64,
        move |k| name(first as u64 + k),
        move |k, c| {
            let mut plan = vec![];
            for j in 0..nn {
                plan.push(one(first + k as usize));
                plan.push(one(first + j));
            }
            judge(vec![plan], c)
        },
    ));
    // repetition
    let reps = move |k: u64| {
        let long = matches!(uni().req(k as usize), Req::Tay(..) | Req::Lim(..));
        t.pick(if long { 5_000usize } else { 66_000 }, 70_000)
    };
    out.push(Space::new(
        "repetition",
        &format!("each of {n} requests {} times (expansions and limits {}), then each of them once", t.pick(66_000, 70_000), t.pick(5_000, 70_000)),
        n,
        move |k| format!("{} x {}", name(k), reps(k)),
        move |k, c| {
            let mut plan = vec![(0, k as usize, reps(k))];
            plan.extend((0..n as usize).map(one));
            judge(vec![plan], c)
        },
    ));
    // a thread for each request
    out.push(Space::new(
        "new threads",
        &format!("every operation on {plain3} trees, each request on a thread of its own, in one process per operation"),
        OPS as u64,
        |k| format!("operation {k}"),
        move |k, c| judge(vec![(0..plain3).map(|tr| (-1, uni().on_tree(tr, k as usize), 1)).collect()], c),
    ));
    // preemptive schedules
    let hand: Vec<usize> = (0..n as usize).collect();
    let few: Vec<usize> = vec![0, 1, 2, 4, 8, 9, 10, 11, 17, 19, 21, 23, 26, 28, 30, 38, 40, 42, 45, 46];
    let four: Vec<usize> = vec![6, 10, 19, 23, 28, 34];
    let mut wide = hand.clone();
    for tr in (0..plain3).step_by(7) {
        wide.extend([0, 1, 2, 3, 7, 9, 13, 16].map(|o| u.on_tree(tr, o)));
    }
    let points = "scheduling points are all allocations and releases of memory";
    out.push(interleavings(
        "interleavings",
        &format!("every ordered pair of {n} requests on two threads, thread 1 preempted once at every possible point ({points})"),
        1,
        false,
        hand.clone(),
    ));
    let s = t.pick(few.clone(), hand.clone());
    out.push(interleavings(
        "interleavings in fresh processes",
        &format!("every ordered pair of {} requests on two threads, one preemption at every possible point, each schedule in a fresh process ({points})", s.len()),
        1,
        true,
        s,
    ));
    let s = t.pick(four, few.clone());
    out.push(interleavings(
        "two preemptions",
        &format!("every ordered pair of {} requests on two threads, each thread preempted once at every pair of points ({points})", s.len()),
        2,
        false,
        s,
    ));
    let from = u.deep_from();
    out.push(interleavings_by(
        "interleavings of deep requests",
        &format!("every ordered pair of {} requests on expressions 2100 levels deep, thread 1 preempted once at {} evenly spaced points ({points})", u.deep.len(), t.pick(100, 1000)),
        1,
        false,
        (from..from + u.deep.len()).collect(),
        t.pick(100, 1000),
    ));
    let exact = "scheduling points are all machine instructions of the program";
    let s = t.pick(vec![0, 2, 6, 8, 11, 17, 36, 38, 40, 43, 45, 49, 50, 51, 52, 54], hand.clone());
    out.push(at_instructions(
        "interleavings of instructions",
        &format!("every ordered pair of {} requests on two threads, thread 1 preempted once before every instruction ({exact}), then both again", s.len()),
        false,
        s,
    ));
    let s = t.pick(vec![38, 51], vec![0, 8, 17, 38, 39, 44, 45, 48, 50, 51, 53]);
    out.push(at_instructions(
        "interleavings of instructions in fresh processes",
        &format!("every ordered pair of {} requests on two threads, thread 1 preempted once before every instruction ({exact}), each schedule in a fresh process, then both again", s.len()),
        true,
        s,
    ));
    if t == Tier::Thorough {
        out.push(interleavings(
            "interleavings of many requests",
            &format!("every ordered pair of {} requests on two threads, one preemption at every possible point ({points})", wide.len()),
            1,
            false,
            wide,
        ));
        out.push(Space::new(
            "triples on two threads",
            &format!("every ordered triple of {n} requests under every assignment to two threads, each in a fresh process"),
            n * n,
            move |k| digits(k, n, 2).iter().map(|d| name(*d as u64)).collect::<Vec<_>>().join(" ; "),
            move |k, c| {
                let d = digits(k, n, 2);
                let mut l = vec![];
                for r in 0..n as usize {
                    for b in 1..7 {
                        let th = |j: i32| 1 + (b >> j & 1);
                        l.push(vec![(th(0), d[0], 1), (th(1), d[1], 1), (th(2), r, 1)]);
                    }
                }
                judge(l, c)
            },
        ));
        let tour = std::sync::Arc::new(de_bruijn(n as usize, 3));
        let parts = tour.len() / piece + 1;
        out.push(Space::new(
            "tour",
            &format!("histories containing every word of 3 of {n} requests, in processes of {piece} requests each"),
            parts as u64,
            |k| format!("tour part {k}"),
            move |k, c| {
                let a = (k as usize * piece).min(tour.len());
                let b = (a + piece + 2).min(tour.len());
                judge(vec![tour[a..b].iter().map(|x| one(*x)).collect()], c)
            },
        ));
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "every history of requests (with thread assignment) and every two-thread schedule within the preemption bound is explored in processes of its own; each answer must equal the answer of the same request alone in a fresh process",
        assumptions: &[
            "a request is preempted where it allocates or releases memory; before any machine instruction for the requests listed under the instruction-level spaces",
            "the preempted thread's stores are visible to the other thread at once (no weak memory effects; the processor here is x86-64)",
            "a copy (fork) of a process that has not yet called the code under test counts as a fresh process",
        ],
        spaces,
    }
}
