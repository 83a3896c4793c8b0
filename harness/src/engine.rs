//! Exhaustive exploration of numbered case spaces on the real code, with
//! crash/hang isolation, known findings, replay files and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const STAMP: &str = env!("SYMCHECK_STAMP");
const HANG_S: u64 = 60;

/// Seconds after which a case counts as hung (confirmed alone afterwards).
fn hang_s() -> u64 {
    std::env::var("SYMCHECK_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(HANG_S)
}
const MAX_FAILS: usize = 200;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

/// Built with the overflow behaviour of the repository's dev/test profile?
pub fn checked_build() -> bool {
    cfg!(debug_assertions)
}

pub struct Space {
    pub name: String,
    /// what the space contains and how far
    pub bound: String,
    pub n: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
    pub show: Box<dyn Fn(u64) -> String + Send + Sync>,
}

impl Space {
    pub fn new(
        name: &str,
        bound: &str,
        n: u64,
        show: impl Fn(u64) -> String + Send + Sync + 'static,
        run: impl Fn(u64, &mut Ctx) + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), n, run: Box::new(run), show: Box::new(show) }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

/// Per-thread recorder of one exploration.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub validated: u64,
    pub skipped: u64,
    pub vague: u64,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    fails: Vec<(String, String)>,
    want_sample: bool,
}

impl Ctx {
    /// A distinct state reached (fingerprint).
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    /// A call into the code under test.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One prediction of the reference compared conclusively with the code.
    pub fn ok(&mut self) {
        self.validated += 1;
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    pub fn vague(&mut self) {
        self.vague += 1;
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        self.fails.push((key.into(), msg.into()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let s = f();
            self.samples.push(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

struct Fail {
    space: String,
    idx: u64,
    key: String,
    msg: String,
}

#[derive(Default)]
struct Report {
    cases: u64,
    states: u64,
    outcomes: u64,
    transitions: u64,
    validated: u64,
    skipped: u64,
    vague: u64,
    samples: Vec<String>,
    notes: BTreeMap<String, u64>,
    spaces: Vec<(String, u64, u64, String)>, // name, planned, done, bound
    fails: Vec<Fail>,
}

struct Slot {
    start_ms: AtomicU64,
    idx: AtomicU64,
}

/// Known findings: "known: property=<id> key=<key> :: what"
fn known(verif: &str, id: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} key=");
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(k, w)| (k.trim().to_string(), w.trim().to_string()))
        .collect()
}

fn run_worker(p: &Prop, tier: Tier, verif: &str, out: &str, journal: Option<&str>) {
    hook();
    let known: HashSet<String> = known(verif, p.id).into_iter().map(|x| x.0).collect();
    let mut spaces = (p.spaces)(tier);
    // of every space only the first cases, that is (in an enumeration of trees) the smallest ones
    if let Some(most) = std::env::var("SYMCHECK_FIRST").ok().and_then(|s| s.parse::<u64>().ok()) {
        for s in spaces.iter_mut().filter(|s| s.n > most) {
            s.bound = format!("the first {most} of the {} cases: {}", s.n, s.bound);
            s.n = most;
        }
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let journal = journal.map(|j| fs::File::create(j).expect("journal"));
    let mut rep = Report::default();
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let t0 = Instant::now();
    let slots: Vec<Slot> =
        (0..nthreads).map(|_| Slot { start_ms: AtomicU64::new(0), idx: AtomicU64::new(0) }).collect();
    let cur_space = AtomicU64::new(0);
    let done_all = AtomicBool::new(false);
    std::thread::scope(|sc| {
        // watchdog
        let (slots, cur_space, done_all) = (&slots, &cur_space, &done_all);
        let hang_ms = hang_s() * 1000;
        sc.spawn(move || {
            while !done_all.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for s in slots {
                    let st = s.start_ms.load(SeqCst);
                    if st != 0 && now > st + hang_ms {
                        println!("hang\t{}\t{}", cur_space.load(SeqCst), s.idx.load(SeqCst));
                        std::io::stdout().flush().ok();
                        std::process::exit(97);
                    }
                }
            }
        });
        for (si, sp) in spaces.iter().enumerate() {
            cur_space.store(si as u64, SeqCst);
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let slow = AtomicU64::new(0);
            let chunk = (sp.n / (nthreads as u64 * 16)).clamp(1, 2048);
            let merged: Mutex<(Vec<Fail>, Vec<Ctx>, u64)> = Mutex::new((vec![], vec![], 0));
            std::thread::scope(|sc2| {
                let (next, stop, merged, known, journal, slots) =
                    (&next, &stop, &merged, &known, &journal, &slots);
                let slow = &slow;
                for ti in 0..nthreads {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc2, move || {
                            let mut ctx = Ctx::default();
                            let mut fails = vec![];
                            let mut done = 0u64;
                            loop {
                                if stop.load(SeqCst) {
                                    break;
                                }
                                let a = next.fetch_add(chunk, SeqCst);
                                if a >= sp.n {
                                    break;
                                }
                                for idx in a..(a + chunk).min(sp.n) {
                                    slots[ti].idx.store(idx, SeqCst);
                                    slots[ti]
                                        .start_ms
                                        .store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                    if let Some(j) = journal {
                                        let mut b = [0u8; 16];
                                        b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                        b[8..].copy_from_slice(&idx.to_le_bytes());
                                        j.write_all_at(&b, ti as u64 * 16).ok();
                                    }
                                    ctx.want_sample = sp.n <= 3 || idx % (sp.n / 3) == sp.n / 7;
                                    if let Err(m) = guarded(|| (sp.run)(idx, &mut ctx)) {
                                        ctx.fails.push(((sp.show)(idx), format!("panicked: {m}")));
                                    }
                                    done += 1;
                                    slow.fetch_max(t0.elapsed().as_millis() as u64 + 1 - slots[ti].start_ms.load(SeqCst), SeqCst);
                                    for (key, msg) in ctx.fails.drain(..) {
                                        if !known.contains(&key) {
                                            stop.store(true, SeqCst);
                                        }
                                        if fails.len() < MAX_FAILS || known.contains(&key) {
                                            fails.push(Fail { space: sp.name.clone(), idx, key, msg });
                                        }
                                    }
                                }
                                slots[ti].start_ms.store(0, SeqCst);
                            }
                            slots[ti].start_ms.store(0, SeqCst);
                            let mut m = merged.lock().unwrap();
                            m.0.extend(fails);
                            m.1.push(ctx);
                            m.2 += done;
                        })
                        .expect("thread");
                }
            });
            let (fails, ctxs, done) = merged.into_inner().unwrap();
            rep.spaces.push((sp.name.clone(), sp.n, done, sp.bound.clone()));
            rep.cases += done;
            for c in ctxs {
                if states.len() < 60_000_000 {
                    states.extend(c.states);
                }
                outcomes.extend(c.outcomes);
                rep.transitions += c.transitions;
                rep.validated += c.validated;
                rep.skipped += c.skipped;
                rep.vague += c.vague;
                rep.samples.extend(c.samples.into_iter().map(|s| format!("{}: {}", sp.name, s)));
                for (k, v) in c.notes {
                    *rep.notes.entry(k).or_insert(0) += v;
                }
            }
            let bad = fails.iter().any(|f| !known.contains(&f.key));
            rep.fails.extend(fails);
            if std::env::var("SYMCHECK_VERBOSE").is_ok() {
                eprintln!("{:8.2}s  {} {}: {} cases, slowest {} ms", t0.elapsed().as_secs_f64(), p.id, sp.name, done, slow.load(SeqCst));
            }
            if bad && std::env::var("SYMCHECK_KEEP_GOING").is_err() {
                break;
            }
        }
        done_all.store(true, SeqCst);
    });
    rep.states = states.len() as u64;
    rep.outcomes = outcomes.len() as u64;
    rep.fails.sort_by_key(|f| {
        (spaces.iter().position(|s| s.name == f.space).unwrap_or(0), f.idx)
    });
    let mut o = String::new();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r");
    for (k, v) in [
        ("cases", rep.cases),
        ("states", rep.states),
        ("outcomes", rep.outcomes),
        ("transitions", rep.transitions),
        ("validated", rep.validated),
        ("skipped", rep.skipped),
        ("vague", rep.vague),
    ] {
        o += &format!("stat\t{k}\t{v}\n");
    }
    for (k, v) in &rep.notes {
        o += &format!("note\t{}\t{v}\n", esc(k));
    }
    for (n, a, b, d) in &rep.spaces {
        o += &format!("space\t{}\t{a}\t{b}\t{}\n", esc(n), esc(d));
    }
    for s in rep.samples.iter() {
        o += &format!("sample\t{}\n", esc(s));
    }
    for f in &rep.fails {
        o += &format!("fail\t{}\t{}\t{}\t{}\n", esc(&f.space), f.idx, esc(&f.key), esc(&f.msg));
    }
    fs::write(out, o).expect("write report");
}

fn run_case(p: &Prop, tier: Tier, space: &str, idx: u64) -> i32 {
    hook();
    let spaces = (p.spaces)(tier);
    let sp = spaces.iter().find(|s| s.name == space).expect("no such space in this tier");
    let mut ctx = Ctx { want_sample: true, ..Default::default() };
    println!("case {} #{}: {}", space, idx, (sp.show)(idx));
    std::io::stdout().flush().ok();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                if let Err(m) = guarded(|| (sp.run)(idx, &mut ctx)) {
                    ctx.fails.push(((sp.show)(idx), format!("panicked: {m}")));
                }
                ctx
            })
            .unwrap()
            .join()
            .unwrap()
    });
    for s in &r.samples {
        println!("  {s}");
    }
    for (k, m) in &r.fails {
        println!("  FAILS [{k}] {m}");
    }
    if r.fails.is_empty() {
        println!("  holds");
        0
    } else {
        1
    }
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parse_report(t: &str) -> Report {
    let mut r = Report::default();
    for l in t.lines() {
        let f: Vec<String> = l.split('\t').map(unesc).collect();
        match f[0].as_str() {
            "stat" => {
                let v: u64 = f[2].parse().unwrap_or(0);
                match f[1].as_str() {
                    "cases" => r.cases = v,
                    "states" => r.states = v,
                    "outcomes" => r.outcomes = v,
                    "transitions" => r.transitions = v,
                    "validated" => r.validated = v,
                    "skipped" => r.skipped = v,
                    "vague" => r.vague = v,
                    _ => {}
                }
            }
            "note" => {
                r.notes.insert(f[1].clone(), f[2].parse().unwrap_or(0));
            }
            "space" => r.spaces.push((
                f[1].clone(),
                f[2].parse().unwrap_or(0),
                f[3].parse().unwrap_or(0),
                f[4].clone(),
            )),
            "sample" => r.samples.push(f[1].clone()),
            "fail" => r.fails.push(Fail {
                space: f[1].clone(),
                idx: f[2].parse().unwrap_or(0),
                key: f[3].clone(),
                msg: f[4].clone(),
            }),
            _ => {}
        }
    }
    r
}

enum Child {
    Done(i32, String),
    Signal(i32, String),
    Timeout,
}

fn child(cmd: &mut Command, limit: Duration) -> Child {
    let mut c = cmd.stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("spawn worker");
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        so.read_to_string(&mut s).ok();
        s
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            let out = rd.join().unwrap_or_default();
            return match (st.code(), st.signal()) {
                (Some(k), _) => Child::Done(k, out),
                (_, Some(s)) => Child::Signal(s, out),
                _ => Child::Done(-1, out),
            };
        }
        if t0.elapsed() > limit {
            c.kill().ok();
            c.wait().ok();
            return Child::Timeout;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// The worker died: find the case that kills it, confirm it alone.
fn culprit(p: &Prop, tier: Tier, bin: &str, verif: &str, tmp: &str, said: &str, first: u64) -> Option<Fail> {
    let spaces = (p.spaces)(tier);
    let mut cands: Vec<(usize, u64)> = vec![];
    if let Some(l) = said.lines().find(|l| l.starts_with("hang\t")) {
        let f: Vec<&str> = l.split('\t').collect();
        cands.push((f[1].parse().ok()?, f[2].parse().ok()?));
    } else {
        for _ in 0..2 {
            let j = format!("{tmp}.journal");
            let r = child(
                Command::new(bin).args(["worker", p.id, tier.name(), verif, tmp, &j]).env("SYMCHECK_FIRST", first.to_string()),
                Duration::from_secs(800),
            );
            if let Child::Done(97, o) = &r {
                if let Some(l) = o.lines().find(|l| l.starts_with("hang\t")) {
                    let f: Vec<&str> = l.split('\t').collect();
                    cands.push((f[1].parse().ok()?, f[2].parse().ok()?));
                }
            }
            let b = fs::read(&j).unwrap_or_default();
            fs::remove_file(&j).ok();
            for c in b.chunks_exact(16) {
                let s = u64::from_le_bytes(c[..8].try_into().unwrap());
                let k = u64::from_le_bytes(c[8..].try_into().unwrap());
                if s > 0 {
                    cands.push((s as usize - 1, k));
                }
            }
            if !cands.is_empty() {
                break;
            }
        }
    }
    cands.sort();
    cands.dedup();
    for (s, k) in cands {
        let name = spaces.get(s)?.name.clone();
        let key = (spaces[s].show)(k);
        let r = child(
            Command::new(bin).args(["case", p.id, tier.name(), &name, &k.to_string()]),
            Duration::from_secs(2 * HANG_S),
        );
        let msg = match r {
            Child::Signal(sig, _) => format!("the process died with signal {sig} (stack overflow or abort)"),
            Child::Timeout => format!("no answer within {} s", 2 * HANG_S),
            Child::Done(0, _) => continue,
            Child::Done(1, o) => o,
            Child::Done(c, _) => format!("the process ended with status {c}"),
        };
        return Some(Fail { space: name, idx: k, key, msg });
    }
    None
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn check(p: &Prop, tier: Tier, verif: &str, bins: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut total = Report::default();
    let mut builds = vec![];
    let mut fails: Vec<(String, Fail)> = vec![];
    let mut exhaustive = true;
    let dir = std::env::var("SYMCHECK_TMP").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let kn = known(verif, p.id);
    for (k, (name, bin)) in bins.iter().enumerate() {
        // Other builds than the first one differ in overflow checks and assertions only: of what does not
        // calculate with numbers itself they repeat the first cases of every space.
        let numbers = ["C01", "C02", "C03", "C04", "C05"].contains(&p.id);
        let first = match p.id {
            _ if k == 0 || numbers => u64::MAX,
            "C19" => tier.pick(150, 3000), // every case is many processes
            _ => tier.pick(10_000, 200_000),
        };
        let tmp = format!("{dir}/symcheck-{}-{}-{}", std::process::id(), p.id, name);
        let limit = || Duration::from_secs(tier.pick(840, 4 * 3600)).saturating_sub(t0.elapsed());
        let mut hang = HANG_S;
        let rep = loop {
            let r = child(
                Command::new(bin).args(["worker", p.id, tier.name(), verif, &tmp]).env("SYMCHECK_HANG", hang.to_string()).env("SYMCHECK_FIRST", first.to_string()),
                limit(),
            );
            let (what, out) = match r {
                Child::Done(0, _) => break parse_report(&fs::read_to_string(&tmp).unwrap_or_default()),
                Child::Timeout => {
                    eprintln!("exploration did not finish in time");
                    return 3;
                }
                Child::Done(97, o) => ("hung".to_string(), o),
                Child::Done(c, o) => {
                    eprintln!("worker ended with status {c}: {o}");
                    return 3;
                }
                Child::Signal(s, o) => (format!("died with signal {s}"), o),
            };
            let mut rep = Report::default();
            match culprit(p, tier, bin, verif, &tmp, &out, first) {
                Some(f) => rep.fails.push(f),
                None if what == "hung" && hang == HANG_S => {
                    // merely slow, on a busy machine: again, with more patience
                    hang = 6 * HANG_S;
                    continue;
                }
                None => {
                    eprintln!("worker {what}, but no single case reproduces it");
                    return 3;
                }
            }
            break rep;
        };
        fs::remove_file(&tmp).ok();
        builds.push(format!(
            "{{\"build\":{},\"cases\":{},\"distinct_states\":{},\"transitions\":{},\"validated\":{}}}",
            js(name), rep.cases, rep.states, rep.transitions, rep.validated
        ));
        total.cases += rep.cases;
        total.states = total.states.max(rep.states);
        total.outcomes = total.outcomes.max(rep.outcomes);
        total.transitions += rep.transitions;
        total.validated += rep.validated;
        total.skipped += rep.skipped;
        total.vague += rep.vague;
        for (n, a, b, d) in rep.spaces {
            if a != b {
                exhaustive = false;
            }
            total.spaces.push((format!("{name}/{n}"), a, b, d));
        }
        for (k, v) in rep.notes {
            *total.notes.entry(k).or_insert(0) += v;
        }
        total.samples.extend(rep.samples);
        let found = rep.fails.iter().any(|f| kn.iter().all(|k| k.0 != f.key));
        for f in rep.fails {
            fails.push((name.clone(), f));
        }
        if found {
            break;
        }
    }
    let mut hit: BTreeMap<String, String> = BTreeMap::new();
    let mut bad: Vec<&(String, Fail)> = vec![];
    for f in &fails {
        match kn.iter().find(|k| k.0 == f.1.key) {
            Some(k) => {
                hit.insert(k.0.clone(), k.1.clone());
            }
            None => bad.push(f),
        }
    }
    for (k, w) in &hit {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, k, w);
    }
    let mut replay = String::new();
    if let Some((build, f)) = bad.first() {
        exhaustive = false;
        let rd = format!("{verif}/replays");
        fs::create_dir_all(&rd).ok();
        replay = format!("{rd}/{}-{:016x}.json", p.id, hash_str(&format!("{build}{}{}", f.key, f.msg)));
        let bin = &bins.iter().find(|b| b.0 == *build).unwrap().1;
        let mut t = format!(
            "{{\n \"property\": {},\n \"build\": {},\n \"tier\": {},\n \"space\": {},\n \"index\": {},\n \"case\": {},\n \"what\": {},\n \"replay_cmd\": {},\n \"other_failing_cases\": [",
            js(p.id), js(build), js(tier.name()), js(&f.space), f.idx, js(&f.key), js(&f.msg),
            js(&format!("{bin} case {} {} '{}' {}", p.id, tier.name(), f.space, f.idx))
        );
        let more: Vec<String> = bad[1..].iter().take(20).map(|b| js(&format!("{}: {}", b.1.key, b.1.msg))).collect();
        t += &more.join(",\n  ");
        t += "]\n}\n";
        fs::write(&replay, t).ok();
    }
    // evidence
    let mut samples: Vec<String> = vec![];
    let step = (total.samples.len() / 24).max(1);
    for s in total.samples.iter().step_by(step).take(24) {
        samples.push(js(s));
    }
    if samples.is_empty() {
        for f in fails.iter().take(3) {
            samples.push(js(&format!("{}: {}", f.1.key, f.1.msg)));
        }
    }
    let spaces: Vec<String> = total
        .spaces
        .iter()
        .map(|(n, a, b, d)| format!("{{\"space\":{},\"cases\":{a},\"explored\":{b},\"bound\":{}}}", js(n), js(d)))
        .collect();
    let notes: Vec<String> = total.notes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"distinct_outcomes\": {},\n  \"outside_reference_domain\": {},\n  \"inconclusive\": {},\n  \"exhaustive\": {exhaustive},\n  \"rule\": {},\n  \"notes\": {{{}}},\n  \"builds\": [{}],\n  \"spaces\": [\n   {}],\n  \"samples\": [\n   {}]\n }},\n \"assumptions\": [{}],\n \"known_findings\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(p.id), js(tier.name()), total.states, total.transitions, total.validated, total.cases,
        total.outcomes, total.skipped, total.vague, js(p.rule), notes.join(","), builds.join(","),
        spaces.join(",\n   "), samples.join(",\n   "),
        p.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","), hit.len(),
        t0.elapsed().as_secs_f64(), bad.len()
    );
    fs::create_dir_all(format!("{verif}/evidence")).ok();
    fs::write(format!("{verif}/evidence/{}.json", p.id), ev).expect("write evidence");
    if let Some((build, f)) = bad.first() {
        println!("[{}] {} build, {} #{}", p.id, build, f.space, f.idx);
        println!("  case: {}", f.key);
        println!("  {}", f.msg);
        println!("VIOLATION property={} replay={}", p.id, replay);
        return 1;
    }
    println!(
        "{} holds: {} cases, {} states, {} transitions, {} conclusive comparisons, {} outside the reference's domain, {} inconclusive, {:.1}s",
        p.id, total.cases, total.states, total.transitions, total.validated, total.skipped, total.vague,
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let props = crate::props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no check for {id}"));
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id)
            }
        }
        // check <id> <tier> <verif> name=bin...
        Some("check") => {
            let bins: Vec<(String, String)> = a[4..]
                .iter()
                .map(|s| s.split_once('=').map(|(x, y)| (x.to_string(), y.to_string())).expect("name=bin"))
                .collect();
            std::process::exit(check(find(&a[1]), tier(&a[2]), &a[3], &bins));
        }
        Some("worker") => {
            run_worker(find(&a[1]), tier(&a[2]), &a[3], &a[4], a.get(5).map(|s| s.as_str()));
        }
        Some("case") => {
            std::process::exit(run_case(find(&a[1]), tier(&a[2]), &a[3], a[4].parse().expect("index")));
        }
        Some("spaces") => {
            for s in (find(&a[1]).spaces)(tier(&a[2])) {
                println!("{:40} {:12}  {}", s.name, s.n, s.bound);
            }
        }
        Some("program") => {
            crate::run_program();
        }
        Some("history") => crate::props::c19::child(&a[1..]),
        _ => {
            eprintln!("usage: symcheck check|worker|case|spaces|list ...");
            std::process::exit(2);
        }
    }
}
