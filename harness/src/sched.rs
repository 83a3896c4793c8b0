//! A controlled scheduler for two threads: every allocation and release of
//! memory is a point at which the running thread can be stopped and the other
//! one run. Installed as the allocator of the explorer; idle unless armed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

pub struct Hooked;

#[global_allocator]
static HOOKED: Hooked = Hooked;

thread_local! {
    /// points left until this thread gives way; 0: not armed
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<u32> = const { Cell::new(0) };
    /// instruction-level scheduling: is this thread inside the request?
    static ARMED: Cell<bool> = const { Cell::new(false) };
    /// bytes this thread has taken less those it has given back
    static TAKEN: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn take(n: i64) {
    TAKEN.with(|t| t.set(t.get() + n));
}

/// Bytes this thread has taken less those it has given back.
pub fn taken() -> i64 {
    TAKEN.with(|t| t.get())
}

/// Whose turn it is: 1 or 2.
static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicBool; 3] = [AtomicBool::new(true), AtomicBool::new(true), AtomicBool::new(true)];
static TID: [AtomicI32; 3] = [AtomicI32::new(0), AtomicI32::new(0), AtomicI32::new(0)];
/// how often each thread was actually stopped in the current schedule
static STOPS: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
/// threads that wait for their turn, plus threads that have finished
static READY: AtomicU32 = AtomicU32::new(0);
static LEFT_OF_1: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        take(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        take(-(l.size() as i64));
        point();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        take(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        take(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Run harness code without scheduling points.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let k = LEFT.with(|l| l.replace(0));
    let a = ARMED.with(|l| l.replace(false));
    let r = f();
    ARMED.with(|l| l.set(a));
    LEFT.with(|l| l.set(k));
    r
}

/// Run `f`, counting the allocations and releases of memory in it.
pub fn work<T>(f: impl FnOnce() -> T) -> (T, u64) {
    const MANY: u64 = 1 << 60;
    let k = LEFT.with(|l| l.replace(MANY));
    let r = f();
    let left = LEFT.with(|l| l.replace(k));
    (r, MANY - left)
}

/// Seconds of processor time that the calling thread has taken.
pub fn cpu_time() -> f64 {
    let mut t = [0i64; 2];
    unsafe { syscall(SYS_CLOCK_GETTIME, 3i64, &mut t as *mut i64) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

const SYS_CLOCK_GETTIME: i64 = 228;

/// What the code under test is told about the world around it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum World {
    Real,
    /// Every look at a clock finds it this many seconds later than the one before.
    Clock(i64),
    /// Every variable of the environment has this value.
    Environment(&'static str),
}
/// The values end in a zero byte.
pub const WORLDS: [World; 8] = [
    World::Clock(0),
    World::Clock(1),
    World::Clock(100_000),
    World::Clock(100_000_000),
    World::Environment("1\0"),
    World::Environment("0\0"),
    World::Environment("\0"),
    World::Environment("true\0"),
];

thread_local! {
    static WORLD: Cell<World> = const { Cell::new(World::Real) };
    static LOOKS: Cell<i64> = const { Cell::new(0) };
}

/// Run `f` in such a world.
pub fn in_world<T>(w: World, f: impl FnOnce() -> T) -> T {
    struct Back(World);
    impl Drop for Back {
        fn drop(&mut self) {
            WORLD.with(|c| c.set(self.0))
        }
    }
    let _back = Back(WORLD.with(|c| c.replace(w)));
    f()
}

/// Stands in for the system's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    if let World::Clock(step) = WORLD.with(|w| w.get()) {
        let k = LOOKS.with(|l| l.replace(l.get() + 1));
        *t = 1_000_000 + k * step;
        *t.add(1) = 0;
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, clock as i64, t) as i32
}

/// Stands in for the system's.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if let World::Environment(value) = WORLD.with(|w| w.get()) {
        return value.as_ptr();
    }
    extern "C" {
        static environ: *const *const u8;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let (mut a, mut b) = (*e, name);
        while *b != 0 && *a == *b {
            (a, b) = (a.add(1), b.add(1));
        }
        if *b == 0 && *a == b'=' {
            return a.add(1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[inline]
fn point() {
    LEFT.with(|l| {
        let k = l.get();
        if k != 0 {
            l.set(k - 1);
            if k == 1 {
                give_way();
            }
        }
    })
}

extern "C" {
    fn gettid() -> i32;
    fn syscall(n: i64, ...) -> i64;
}
const SYS_FUTEX: i64 = 202;

/// Sleep while `a` is still `was`, at most a few milliseconds.
fn sleep_while(a: &AtomicU32, was: u32) {
    let time = [0i64, 3_000_000];
    unsafe { syscall(SYS_FUTEX, a.as_ptr(), 128, was as i64, &time as *const i64, 0i64, 0i64) };
}

fn until_ready(want: u32) {
    for n in 0u64.. {
        let r = READY.load(SeqCst);
        if r == want {
            break;
        }
        if n > SPIN {
            sleep_while(&READY, r);
        }
    }
}

/// Store and wake all that sleep.
fn set(a: &AtomicU32, to: u32) {
    a.store(to, SeqCst);
    wake(a);
}

fn wake(a: &AtomicU32) {
    unsafe { syscall(SYS_FUTEX, a.as_ptr(), 129, i32::MAX as i64, 0i64, 0i64, 0i64) };
}

/// Wait until the turn is `me`; every few milliseconds `idle` may end the wait.
fn await_turn(me: u32, mut idle: impl FnMut() -> bool) {
    for n in 0u64.. {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        if n < SPIN {
            std::hint::spin_loop();
            continue;
        }
        sleep_while(&TURN, t);
        if TURN.load(SeqCst) == t && idle() {
            return;
        }
    }
}
const SPIN: u64 = 50;

/// Is that thread asleep in the kernel (waiting for a lock)?
fn asleep(tid: i32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    t.rsplit_once(") ").map(|x| x.1.starts_with('S')).unwrap_or(true)
}

#[cold]
fn give_way() {
    let me = ME.with(|m| m.get());
    let other = 3 - me;
    if DONE[other as usize].load(SeqCst) {
        return;
    }
    STOPS[me as usize].fetch_add(1, SeqCst);
    set(&TURN, other);
    wait(me);
}

/// Wait for the turn, or until the other thread is found blocked.
fn wait(me: u32) {
    let other = (3 - me) as usize;
    let mut slept = 0;
    await_turn(me, || {
        // it waits for something only this thread can release
        slept = if asleep(TID[other].load(SeqCst)) { slept + 1 } else { 0 };
        let blocked = slept >= 3 && TURN.load(SeqCst) != me;
        if blocked {
            BLOCKED.fetch_add(1, SeqCst);
            TURN.store(me, SeqCst);
        }
        blocked
    });
}

/// Run `f` as thread `me` of a schedule, giving way after `k` points (0: never).
fn run<T>(me: u32, k: u64, f: impl FnOnce() -> T) -> T {
    ME.with(|m| m.set(me));
    READY.fetch_add(1, SeqCst);
    wake(&READY);
    await_turn(me, || false);
    LEFT.with(|l| l.set(k));
    let r = f();
    let left = LEFT.with(|l| l.replace(0));
    if me == 1 {
        LEFT_OF_1.store(left, SeqCst);
    }
    DONE[me as usize].store(true, SeqCst);
    set(&TURN, 3 - me);
    r
}

type Job = Box<dyn FnOnce() -> String + Send>;

/// Two threads that run one schedule after another.
pub struct Pair {
    send: [std::sync::mpsc::Sender<(u64, Job)>; 2],
    recv: [std::sync::mpsc::Receiver<String>; 2],
}

pub struct Outcome {
    pub answers: [String; 2],
    /// stops of each thread
    pub stops: [u64; 2],
    /// points thread 1 had left
    pub left: u64,
    pub blocked: bool,
}

impl Pair {
    pub fn new() -> Pair {
        let mk = |me: u32| {
            let (tx, rx) = std::sync::mpsc::channel::<(u64, Job)>();
            let (tx2, rx2) = std::sync::mpsc::channel::<String>();
            let (ready, is_ready) = std::sync::mpsc::channel::<()>();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    TID[me as usize].store(unsafe { gettid() }, SeqCst);
                    ready.send(()).ok();
                    for (k, job) in rx {
                        let r = run(me, k, job);
                        tx2.send(r).ok();
                        READY.fetch_add(1, SeqCst);
                        wake(&READY);
                    }
                })
                .expect("thread");
            is_ready.recv().expect("thread");
            (tx, rx2)
        };
        let (a, b) = (mk(1), mk(2));
        Pair { send: [a.0, b.0], recv: [a.1, b.1] }
    }
    /// Thread 1 runs first and stops after `k1` points; thread 2 then runs and
    /// stops after `k2` points (0: runs to its end); then 1, then 2 to the end.
    pub fn run(&self, k1: u64, k2: u64, a: Job, b: Job) -> Outcome {
        for d in 1..3 {
            DONE[d].store(false, SeqCst);
            STOPS[d].store(0, SeqCst);
        }
        BLOCKED.store(0, SeqCst);
        TURN.store(0, SeqCst);
        READY.store(0, SeqCst);
        self.send[0].send((k1, a)).expect("thread");
        self.send[1].send((k2, b)).expect("thread");
        until_ready(2);
        set(&TURN, 1);
        // (no allocation or other library code here meanwhile: it could meet
        // the breakpoint meant for thread 1)
        until_ready(4);
        let x = self.recv[0].recv().expect("thread");
        let y = self.recv[1].recv().expect("thread");
        Outcome {
            answers: [x, y],
            stops: [STOPS[1].load(SeqCst), STOPS[2].load(SeqCst)],
            left: LEFT_OF_1.load(SeqCst),
            blocked: BLOCKED.load(SeqCst) > 0,
        }
    }
}

/// Scheduling points at every machine instruction of the program (that is, of
/// the code under test and the library code compiled into it; not of the
/// system's C library). A recording run single-steps through a request and
/// notes every instruction it executes; a schedule then stops the thread right
/// before one of them with a breakpoint.
pub mod steps {
    use super::*;
    use std::sync::atomic::AtomicUsize;

    const SIGTRAP: i32 = 5;
    const TF: i64 = 0x100;
    const EFL: usize = 17;
    const RIP: usize = 16;

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
        fn mprotect(a: usize, n: usize, prot: i32) -> i32;
    }

    static LO: AtomicUsize = AtomicUsize::new(0);
    static HI: AtomicUsize = AtomicUsize::new(0);
    /// recording: where to, how many so far
    static LOG: AtomicUsize = AtomicUsize::new(0);
    static LOGGED: AtomicUsize = AtomicUsize::new(0);
    static RECORDING: AtomicBool = AtomicBool::new(false);
    const LOG_MAX: usize = 1 << 22;
    /// the breakpoint: address (0: none), byte it replaces, hits left
    static AT: AtomicUsize = AtomicUsize::new(0);
    static BYTE: AtomicUsize = AtomicUsize::new(0);
    static HITS: AtomicU64 = AtomicU64::new(0);

    unsafe fn poke(at: usize, b: u8) {
        std::ptr::write_volatile(at as *mut u8, b);
    }

    unsafe extern "C" fn on_trap(_: i32, _: usize, context: *mut u8) {
        let reg = |k: usize| (context.add(40) as *mut i64).add(k);
        let rip = *reg(RIP) as usize;
        if RECORDING.load(SeqCst) {
            if ARMED.with(|a| a.get()) && rip >= LO.load(SeqCst) && rip < HI.load(SeqCst) {
                let n = LOGGED.fetch_add(1, SeqCst);
                if n < LOG_MAX {
                    *(LOG.load(SeqCst) as *mut u32).add(n) = (rip - LO.load(SeqCst)) as u32;
                }
            }
            return;
        }
        if *reg(EFL) & TF != 0 {
            // the replaced instruction has been executed
            *reg(EFL) &= !TF;
            let at = AT.load(SeqCst);
            if at != 0 {
                poke(at, 0xcc);
            }
            return;
        }
        let at = AT.load(SeqCst);
        if at == 0 || rip != at + 1 {
            return; // left over from an earlier schedule
        }
        poke(at, BYTE.load(SeqCst) as u8);
        *reg(RIP) = at as i64;
        if ARMED.with(|a| a.get()) && HITS.fetch_sub(1, SeqCst) == 1 {
            AT.store(0, SeqCst);
            let a = ARMED.with(|l| l.replace(false));
            give_way();
            ARMED.with(|l| l.set(a));
        } else {
            *reg(EFL) |= TF;
        }
    }

    /// Once per process; false where this is impossible.
    #[must_use]
    pub fn install() -> bool {
        let maps = std::fs::read_to_string("/proc/self/maps").expect("own memory map");
        let here = on_trap as *const () as usize;
        for l in maps.lines() {
            let (r, _) = l.split_once(' ').expect("map");
            let (a, b) = r.split_once('-').expect("map");
            let (a, b) = (usize::from_str_radix(a, 16).expect("map"), usize::from_str_radix(b, 16).expect("map"));
            if a <= here && here < b {
                LO.store(a, SeqCst);
                HI.store(b, SeqCst);
            }
        }
        let (a, b) = (LO.load(SeqCst), HI.load(SeqCst));
        let act = Action { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        unsafe { b > a && mprotect(a, b - a, 7) == 0 && sigaction(SIGTRAP, &act, std::ptr::null_mut()) == 0 }
    }

    #[inline(never)]
    fn single_step(on: bool) {
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
            }
        }
    }

    /// Every instruction the request executes, as (address, how often it was
    /// executed before).
    pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<(u32, u32)>) {
        let mut log = vec![0u32; LOG_MAX];
        LOG.store(log.as_mut_ptr() as usize, SeqCst);
        LOGGED.store(0, SeqCst);
        RECORDING.store(true, SeqCst);
        single_step(true);
        ARMED.with(|a| a.set(true));
        let r = f();
        ARMED.with(|a| a.set(false));
        single_step(false);
        RECORDING.store(false, SeqCst);
        let n = LOGGED.load(SeqCst);
        assert!(n <= LOG_MAX, "the request is too long to record");
        let mut seen = std::collections::HashMap::new();
        let l = log[..n]
            .iter()
            .map(|a| {
                let k = seen.entry(*a).or_insert(0u32);
                *k += 1;
                (*a, *k - 1)
            })
            .collect();
        (r, l)
    }

    /// Thread 1 stops right before its instruction `p`.
    pub fn set(p: (u32, u32)) {
        let at = LO.load(SeqCst) + p.0 as usize;
        unsafe {
            BYTE.store(std::ptr::read_volatile(at as *const u8) as usize, SeqCst);
            HITS.store(p.1 as u64 + 1, SeqCst);
            AT.store(at, SeqCst);
            poke(at, 0xcc);
        }
    }
    pub fn clear() {
        let at = AT.swap(0, SeqCst);
        if at != 0 {
            unsafe { poke(at, BYTE.load(SeqCst) as u8) };
        }
    }

    /// Run as the stoppable thread.
    pub fn armed<T>(f: impl FnOnce() -> T) -> T {
        ARMED.with(|a| a.set(true));
        let r = f();
        ARMED.with(|a| a.set(false));
        r
    }
}
