//! The simulator's runtime: every seam through which nondeterminism can reach the
//! code under test, and the scheduler that owns all of them.
//!
//! * one baton: simulated callers are OS threads, but exactly one of them runs at any
//!   instant and only the scheduler decides which (and where it is preempted);
//! * preemption points: every basic-block edge of the instrumented crates, every
//!   allocation, every user callback, every operation boundary;
//! * blocking: `futex` waits issued by a simulated caller become scheduler decisions;
//! * faults: panic in the n-th callback, failure of the n-th allocation;
//! * environment: hash keys (`getrandom`), clocks, sleeps and environment variables.
//!
//! This crate is compiled without instrumentation.
#![feature(alloc_error_hook)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};

// ------------------------------------------------------------------ PRNG

/// splitmix64: one integer decides everything.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        Rng(mix(a, b))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

// ------------------------------------------------------------------ thread state

thread_local! {
    /// 0: not a simulated caller; otherwise task id + 1
    static TASK: Cell<u32> = const { Cell::new(0) };
    /// > 0 while the caller is inside an operation of the code under test
    static LIB: Cell<u32> = const { Cell::new(0) };
    /// > 0 while simulator bookkeeping runs on this thread
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static N_CB: Cell<u64> = const { Cell::new(0) };
    static N_ALLOC: Cell<u64> = const { Cell::new(0) };
    static CB_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ALLOC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
    static OP_STEPS: Cell<u64> = const { Cell::new(0) };
    static OP_REENTERED: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
fn active() -> bool {
    LIB.with(|l| l.get()) > 0 && QUIET.with(|q| q.get()) == 0
}

/// Simulator bookkeeping: no preemption, no fault, nothing counted.
#[inline(always)]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

/// No faults inside (neither injected nor counted as a place for one), scheduling goes on.
pub fn undisturbed<R>(f: impl FnOnce() -> R) -> R {
    struct G(u64, u64, u64, u64);
    impl Drop for G {
        fn drop(&mut self) {
            N_CB.with(|c| c.set(self.0));
            N_ALLOC.with(|c| c.set(self.1));
            CB_AT.with(|c| c.set(self.2));
            ALLOC_AT.with(|c| c.set(self.3));
        }
    }
    let _g = G(
        N_CB.with(|c| c.get()),
        N_ALLOC.with(|c| c.get()),
        CB_AT.with(|c| c.replace(u64::MAX)),
        ALLOC_AT.with(|c| c.replace(u64::MAX)),
    );
    f()
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct OpCount {
    pub callbacks: u64,
    pub allocs: u64,
    pub steps: u64,
    /// 0 none, 1 callback panic, 2 allocation failure
    pub fired: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Arm {
    None,
    CallbackPanic(u64),
    AllocFail(u64),
}

/// The payload of an injected panic.
pub struct Injected(pub &'static str);

/// Whether this operation's callbacks may use the library once more (they do so often enough
/// early on; on very long lines it would take too long to go on).
pub fn may_reenter() -> bool {
    OP_REENTERED.with(|c| {
        c.set(c.get() + 1);
        c.get() < 300
    })
}
/// Run one operation of the code under test with the seams active.
pub fn in_lib<R>(arm: Arm, f: impl FnOnce() -> R) -> (Result<R, String>, OpCount) {
    N_CB.with(|c| c.set(0));
    N_ALLOC.with(|c| c.set(0));
    FIRED.with(|c| c.set(0));
    OP_STEPS.with(|c| c.set(0));
    OP_REENTERED.with(|c| c.set(0));
    CB_AT.with(|c| c.set(if let Arm::CallbackPanic(n) = arm { n } else { u64::MAX }));
    ALLOC_AT.with(|c| c.set(if let Arm::AllocFail(n) = arm { n } else { u64::MAX }));
    let saved_q = QUIET.with(|q| q.replace(0));
    LIB.with(|l| l.set(l.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LIB.with(|l| l.set(l.get() - 1));
    QUIET.with(|q| q.set(saved_q));
    CB_AT.with(|c| c.set(u64::MAX));
    ALLOC_AT.with(|c| c.set(u64::MAX));
    let cnt = OpCount {
        callbacks: N_CB.with(|c| c.get()),
        allocs: N_ALLOC.with(|c| c.get()),
        steps: OP_STEPS.with(|c| c.get()),
        fired: FIRED.with(|c| c.get()),
    };
    let r = r.map_err(|p| {
        if let Some(i) = p.downcast_ref::<Injected>() {
            format!("injected:{}", i.0)
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    });
    (r, cnt)
}

pub fn in_lib_now() -> bool {
    active()
}

// ------------------------------------------------------------------ the scheduler

pub const MAXT: usize = 6;
const MAIN: usize = MAXT;

/// A scheduling decision, addressed so that it stays meaningful when other parts of a
/// run are removed: after `pt` points of operation `op`, `task` hands over to `to`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Switch {
    pub task: u8,
    pub op: u32,
    pub pt: u32,
    pub to: u8,
}

#[derive(Clone, Debug, Default)]
pub struct SchedCfg {
    pub seed: u64,
    /// mean distance between basic-block/allocation preemptions; 0 = never
    pub mean_bb: u32,
    /// slice lengths drawn log-uniformly up to 2^heavy instead; 0 = off
    pub heavy: u32,
    /// chance (of 256) to switch where a branch edge is seen for the 1st, 2nd, 4th,
    /// 8th, … time in this run
    pub p_rare: u32,
    /// chance (of 256) to switch at a user callback / at an operation boundary
    pub p_cb: u32,
    pub p_op: u32,
    /// explicit schedule: only these switches happen (plus forced ones, round robin)
    pub explicit: Option<Vec<Switch>>,
}

/// longest slice of one operation, in points
const FAIR: u32 = 1 << 20;
pub const STEP_LIMIT: u64 = 400_000_000;
/// the limit for the lines of the current run
pub static STEPS_MAX: AtomicU64 = AtomicU64::new(STEP_LIMIT);
pub const EXIT_NO_PROGRESS: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;
pub const EXIT_ALLOC_ABORT: i32 = 79;

struct World {
    running: bool,
    n: usize,
    cur: usize,
    done: [bool; MAXT],
    started: [bool; MAXT],
    /// (address, expected value) of the futex this task waits for
    blocked: [Option<(usize, u32)>; MAXT],
    woken: [bool; MAXT],
    op: [u32; MAXT],
    pt: [u32; MAXT],
    rng: Rng,
    mean_bb: u32,
    heavy: u32,
    p_rare: u32,
    epoch: u32,
    p_cb: u32,
    p_op: u32,
    countdown: u32,
    explicit: Option<[Vec<Switch>; MAXT + 1]>,
    cursor: [usize; MAXT + 1],
    last_points: u64,
    trace: Vec<Switch>,
    hash: u64,
    points: u64,
    forced_idle: u32,
    switches_bb: u64,
    switches_alloc: u64,
    switches_cb: u64,
    switches_op: u64,
    switches_block: u64,
}
struct Shared(UnsafeCell<World>);
// Only the baton holder (or the controller while no caller runs) touches it.
unsafe impl Sync for Shared {}
static W: Shared = Shared(UnsafeCell::new(World {
    running: false,
    n: 0,
    cur: MAIN,
    done: [false; MAXT],
    started: [false; MAXT],
    blocked: [None; MAXT],
    woken: [false; MAXT],
    op: [0; MAXT],
    pt: [0; MAXT],
    rng: Rng(0),
    mean_bb: 0,
    heavy: 0,
    p_rare: 0,
    epoch: 0,
    p_cb: 0,
    p_op: 0,
    countdown: 0,
    explicit: None,
    cursor: [0; MAXT + 1],
    last_points: 0,
    trace: Vec::new(),
    hash: 0,
    points: 0,
    forced_idle: 0,
    switches_bb: 0,
    switches_alloc: 0,
    switches_cb: 0,
    switches_op: 0,
    switches_block: 0,
}));
static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[allow(clippy::mut_from_ref)]
fn w() -> &'static mut World {
    unsafe { &mut *W.0.get() }
}

const TRACE_CAP: usize = 12_000;

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    pub trace: Vec<Switch>,
    pub hash: u64,
    pub points: u64,
    pub sw_bb: u64,
    pub sw_alloc: u64,
    pub sw_cb: u64,
    pub sw_op: u64,
    pub sw_block: u64,
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
const SYS_FUTEX: i64 = 202;

fn baton_give(to: usize) {
    GO[to].store(1, SeqCst);
    unsafe {
        raw_syscall(SYS_FUTEX, &GO[to] as *const _ as i64, 1 | 128, 1, 0, 0, 0);
    }
}
fn baton_wait(me: usize) {
    loop {
        if GO[me].swap(0, SeqCst) == 1 {
            return;
        }
        unsafe {
            raw_syscall(SYS_FUTEX, &GO[me] as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}

fn eligible(t: usize) -> bool {
    let w = w();
    if w.done[t] || !w.started[t] {
        return false;
    }
    match w.blocked[t] {
        None => true,
        Some((addr, val)) => w.woken[t] || unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val,
    }
}

fn draw_countdown() {
    let w = w();
    w.countdown = if w.heavy > 0 {
        let top = 1u64 << w.rng.below(w.heavy as u64 + 1);
        1 + w.rng.below(top) as u32
    } else if w.mean_bb == 0 {
        u32::MAX
    } else {
        1 + w.rng.below(2 * w.mean_bb as u64) as u32
    };
}

fn record(me: usize, to: usize) {
    let w = w();
    w.hash = mix(w.hash, ((me as u64) << 56) ^ ((w.op[me] as u64) << 32) ^ ((w.pt[me] as u64) << 3) ^ to as u64);
    if w.trace.len() < TRACE_CAP {
        w.trace.push(Switch { task: me as u8, op: w.op[me], pt: w.pt[me], to: to as u8 });
    }
}

fn switch_to(me: usize, to: usize) {
    record(me, to);
    let w = w();
    w.cur = to;
    baton_give(to);
    baton_wait(me);
}

/// The explicit schedule's decision for the current point of `me`, if it has one.
/// Per task the decisions are sorted by (op, pt), and so are the points a task passes.
fn explicit_target(me: usize) -> Option<usize> {
    let w = w();
    let here = (w.op[me], w.pt[me]);
    let list = &w.explicit.as_ref()?[me];
    let mut c = w.cursor[me];
    while c < list.len() && (list[c].op, list[c].pt) < here {
        c += 1;
    }
    w.cursor[me] = c;
    list.get(c).filter(|s| (s.op, s.pt) == here).map(|s| s.to as usize)
}

/// Somebody waits: progress elsewhere resets the idle budget.
fn idle_tick(msg: &str) {
    let w = w();
    if w.points != w.last_points {
        w.last_points = w.points;
        w.forced_idle = 0;
    }
    w.forced_idle += 1;
    if w.forced_idle > 20_000 {
        fatal(EXIT_DEADLOCK, msg);
    }
}

fn pick_other(me: usize) -> Option<usize> {
    let w = w();
    if w.explicit.is_some() {
        if let Some(t) = explicit_target(me) {
            if t < w.n && t != me && eligible(t) {
                return Some(t);
            }
        }
        return (1..w.n).map(|k| (me + k) % w.n).find(|&t| eligible(t));
    }
    let cands: u32 = (0..w.n).filter(|&t| t != me && eligible(t)).count() as u32;
    if cands == 0 {
        return None;
    }
    let k = w.rng.below(cands as u64) as usize;
    (0..w.n).filter(|&t| t != me && eligible(t)).nth(k)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Block,
    Alloc,
    Callback,
    Boundary,
}

#[inline(never)]
fn point_slow(kind: Kind, me: usize) {
    let w = w();
    let voluntary = if w.explicit.is_some() {
        explicit_target(me).is_some()
    } else {
        match kind {
            Kind::Block | Kind::Alloc => {
                draw_countdown();
                true
            }
            Kind::Callback => w.p_cb > 0 && w.rng.below(256) < w.p_cb as u64,
            Kind::Boundary => w.p_op > 0 && w.rng.below(256) < w.p_op as u64,
        }
    };
    if !voluntary || w.trace.len() >= TRACE_CAP - 8 {
        return;
    }
    if let Some(to) = pick_other(me) {
        match kind {
            Kind::Block => w.switches_bb += 1,
            Kind::Alloc => w.switches_alloc += 1,
            Kind::Callback => w.switches_cb += 1,
            Kind::Boundary => w.switches_op += 1,
        }
        switch_to(me, to);
    }
}

#[inline(always)]
fn point(kind: Kind) {
    let t = TASK.with(|t| t.get());
    if t == 0 {
        return;
    }
    let me = t as usize - 1;
    let w = w();
    w.pt[me] = w.pt[me].wrapping_add(1);
    w.points += 1;
    if w.pt[me] & (FAIR - 1) == 0 {
        // nobody runs for ever while others could: a caller may be spinning on something
        // only another one can release
        if let Some(to) = pick_other(me) {
            switch_to(me, to);
        }
    } else if w.explicit.is_some() {
        point_slow(kind, me);
    } else {
        match kind {
            Kind::Block | Kind::Alloc => {
                w.countdown = w.countdown.wrapping_sub(1);
                if w.countdown == 0 {
                    point_slow(kind, me);
                }
            }
            _ => point_slow(kind, me),
        }
    }
}

/// The caller waits (in simulated terms) until `cond` holds; others run meanwhile.
pub fn wait_until(cond: impl Fn() -> bool) {
    loop {
        if cond() {
            w().forced_idle = 0;
            return;
        }
        let t = TASK.with(|t| t.get());
        assert!(t > 0, "wait_until outside a simulated caller");
        let me = t as usize - 1;
        let w = w();
        idle_tick("callers wait for each other and nobody can run");
        w.pt[me] = w.pt[me].wrapping_add(1);
        match pick_other(me) {
            Some(to) => switch_to(me, to),
            None => fatal(EXIT_DEADLOCK, "a caller waits and nobody else can run"),
        }
    }
}

/// One uninterrupted slice (only while no caller is inside the code under test).
pub fn unscheduled<R>(f: impl FnOnce() -> R) -> R {
    let t = TASK.with(|t| t.replace(0));
    let r = f();
    TASK.with(|x| x.set(t));
    r
}

/// Marks the start of operation `op` of this caller (a preemption point of its own).
pub fn op_begin(op: u32) {
    let t = TASK.with(|t| t.get());
    if t == 0 {
        return;
    }
    let me = t as usize - 1;
    let w = w();
    w.op[me] = op;
    w.pt[me] = 0;
    w.forced_idle = 0;
    point(Kind::Boundary);
}

pub static FATAL_FD: AtomicI64 = AtomicI64::new(2);
pub fn fatal(code: i32, msg: &str) -> ! {
    unsafe {
        let fd = FATAL_FD.load(Relaxed);
        raw_syscall(1, fd, b"FATAL ".as_ptr() as i64, 6, 0, 0, 0);
        raw_syscall(1, fd, msg.as_ptr() as i64, msg.len() as i64, 0, 0, 0);
        raw_syscall(1, fd, b"\n".as_ptr() as i64, 1, 0, 0, 0);
        raw_syscall(231, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Run `n` simulated callers to completion. One call = one simulated run.
pub fn run_tasks(cfg: &SchedCfg, n: usize, body: impl Fn(usize) + Sync) -> RunStats {
    assert!(n >= 1 && n <= MAXT);
    {
        let w = w();
        w.running = true;
        w.n = n;
        w.cur = MAIN;
        for t in 0..MAXT {
            w.done[t] = false;
            w.started[t] = t < n;
            w.blocked[t] = None;
            w.woken[t] = false;
            w.op[t] = 0;
            w.pt[t] = 0;
        }
        w.rng = Rng::new(cfg.seed, 0x5C4ED);
        w.mean_bb = cfg.mean_bb;
        w.heavy = cfg.heavy;
        w.p_rare = cfg.p_rare;
        w.epoch = w.epoch.wrapping_add(1);
        w.p_cb = cfg.p_cb;
        w.p_op = cfg.p_op;
        w.explicit = cfg.explicit.as_ref().map(|l| {
            let mut per: [Vec<Switch>; MAXT + 1] = Default::default();
            for s in l {
                if (s.task as usize) <= MAXT {
                    per[s.task as usize].push(*s);
                }
            }
            for p in per.iter_mut() {
                p.sort_by_key(|s| (s.op, s.pt));
            }
            per
        });
        w.cursor = [0; MAXT + 1];
        w.last_points = 0;
        w.trace = Vec::with_capacity(TRACE_CAP);
        w.hash = 0xfeed;
        w.points = 0;
        w.forced_idle = 0;
        w.switches_bb = 0;
        w.switches_alloc = 0;
        w.switches_cb = 0;
        w.switches_op = 0;
        w.switches_block = 0;
        draw_countdown();
    }
    std::thread::scope(|s| {
        for t in 0..n {
            let body = &body;
            s.spawn(move || {
                baton_wait(t);
                TASK.with(|c| c.set(t as u32 + 1));
                LIB.with(|c| c.set(0));
                QUIET.with(|c| c.set(0));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| on_stack(stack_off(), &mut || body(t))));
                TASK.with(|c| c.set(0));
                let w = w();
                w.done[t] = true;
                w.forced_idle = 0;
                if let Err(p) = r {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    fatal(3, &format!("simulator error in a caller: {m}"));
                }
                w.op[t] = u32::MAX;
                w.pt[t] = 0;
                match pick_other(t) {
                    Some(to) => {
                        record(t, to);
                        w.cur = to;
                        baton_give(to);
                    }
                    None => {
                        if (0..w.n).any(|k| !w.done[k]) {
                            fatal(EXIT_DEADLOCK, "remaining callers are blocked for ever");
                        }
                        baton_give(MAIN);
                    }
                }
            });
        }
        let first = {
            let w = w();
            if w.explicit.is_some() {
                w.explicit
                    .as_ref()
                    .unwrap()[MAIN]
                    .first()
                    .map(|s| s.to as usize)
                    .filter(|&t| t < n)
                    .unwrap_or(0)
            } else {
                w.rng.below(n as u64) as usize
            }
        };
        w().trace.push(Switch { task: MAIN as u8, op: 0, pt: 0, to: first as u8 });
        w().cur = first;
        baton_give(first);
        baton_wait(MAIN);
    });
    let w = w();
    w.running = false;
    RunStats {
        trace: std::mem::take(&mut w.trace),
        hash: w.hash,
        points: w.points,
        sw_bb: w.switches_bb,
        sw_alloc: w.switches_alloc,
        sw_cb: w.switches_cb,
        sw_op: w.switches_op,
        sw_block: w.switches_block,
    }
}

// ------------------------------------------------------------------ callbacks

/// Every user callback of the workload (resolver, matcher, equality, clone, debug,
/// measure) passes through here: a preemption point, and a place to fail.
#[inline(never)]
pub fn callback(name: &'static str) {
    if !active() || std::thread::panicking() {
        return;
    }
    let n = N_CB.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    point(Kind::Callback);
    if n == CB_AT.with(|c| c.get()) {
        CB_AT.with(|c| c.set(u64::MAX));
        FIRED.with(|c| c.set(1));
        std::panic::panic_any(Injected(name));
    }
}

// ------------------------------------------------------------------ allocator seam

pub struct SimAlloc;

#[inline(always)]
fn alloc_fault() -> bool {
    if !active() || std::thread::panicking() {
        return false;
    }
    let n = N_ALLOC.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    point(Kind::Alloc);
    if n == ALLOC_AT.with(|c| c.get()) {
        if in_once() {
            // a failure here would leave the `Once` poisoned for good: fail the next one
            ALLOC_AT.with(|c| c.set(n + 1));
            return false;
        }
        ALLOC_AT.with(|c| c.set(u64::MAX));
        FIRED.with(|c| c.set(2));
        return true;
    }
    false
}

// What an allocation failure may do. Rust code may answer it by ending the process (the
// standard library's B-trees do, and so does every program built without the unstable hook
// used here), and a `Once` whose initialiser unwinds is poisoned for good. Neither says
// anything about the code under test, so the first is not judged and the second is avoided.

/// addresses of the functions that run a `Once`'s initialiser
static ONCE: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();

fn once_functions() -> Vec<(usize, usize)> {
    let u = |b: &[u8], at: usize, n: usize| b.get(at..at + n).map_or(0usize, |x| x.iter().rev().fold(0, |a, c| a << 8 | *c as usize));
    let mut v = vec![];
    let Ok(b) = std::fs::read("/proc/self/exe") else { return v };
    let (shoff, shnum) = (u(&b, 40, 8), u(&b, 60, 2));
    let sec = |i: usize| shoff + i * u(&b, 58, 2);
    // where the first loaded byte of the program is now, and where the file says it is
    extern "C" {
        static __executable_start: u8;
    }
    let here = unsafe { &__executable_start as *const u8 as usize };
    for i in 0..shnum {
        let h = sec(i);
        if u(&b, h + 4, 4) != 2 {
            continue; // not a symbol table
        }
        let (off, size, link) = (u(&b, h + 24, 8), u(&b, h + 32, 8), u(&b, h + 40, 4));
        let names = u(&b, sec(link) + 24, 8);
        let mut at = off;
        while at + 24 <= off + size {
            let n = names + u(&b, at, 4);
            let end = b.get(n..).and_then(|x| x.iter().position(|c| *c == 0)).unwrap_or(0);
            let name = std::str::from_utf8(&b[n..n + end]).unwrap_or("");
            if (name.contains("4once5futex") && name.contains("4Once") && name.contains("4call")) || name.contains("8LazyCell") {
                v.push((here + u(&b, at + 8, 8), u(&b, at + 16, 8)));
            }
            at += 24;
        }
    }
    v
}
/// to be called before anything is executed
pub fn learn_symbols() {
    ONCE.set(once_functions()).ok();
}
/// is the calling thread inside the initialiser of a `Once`?
fn in_once() -> bool {
    extern "C" {
        fn _Unwind_Backtrace(f: unsafe extern "C" fn(*mut u8, *mut u8) -> i32, arg: *mut u8) -> i32;
        fn _Unwind_GetIP(c: *mut u8) -> usize;
    }
    unsafe extern "C" fn step(c: *mut u8, found: *mut u8) -> i32 {
        let ip = _Unwind_GetIP(c);
        if let Some(v) = ONCE.get() {
            if v.iter().any(|f| ip.wrapping_sub(f.0) < f.1) {
                *found = 1;
                return 5;
            }
        }
        0
    }
    quiet(|| unsafe {
        let mut found = 0u8;
        _Unwind_Backtrace(step, &mut found);
        found == 1
    })
}

extern "C" fn on_sigill(_: i32) {
    if FIRED.with(|c| c.get()) == 2 && std::thread::panicking() {
        fatal(EXIT_ALLOC_ABORT, "the injected allocation failure ended the process");
    }
    unsafe {
        extern "C" {
            fn signal(n: i32, h: usize) -> usize;
        }
        signal(4, 0); // and again, this time for real
    }
}

/// a number shared with the processes forked from this one
pub fn shared_cell() -> *const AtomicU64 {
    unsafe {
        let p = raw_syscall(9, 0, 4096, 3, 0x21, -1, 0);
        assert!(p > 0, "mmap");
        p as *const AtomicU64
    }
}

// Where values lie in memory is part of the environment too: part of the allocations of the
// code under test come from an arena growing downwards whose memory is never used again.
const ARENA: usize = 256 << 20;
static ARENA_BASE: AtomicU64 = AtomicU64::new(0);
static ARENA_TOP: AtomicU64 = AtomicU64::new(0);
static ADDR_MODE: AtomicU64 = AtomicU64::new(0);
static ADDR_N: AtomicU64 = AtomicU64::new(0);
pub static SEEN_ARENA: AtomicU64 = AtomicU64::new(0);
/// what fresh memory contains
static FILL: AtomicU64 = AtomicU64::new(0xA5);
/// what is left in freed memory
const GONE: u8 = 0xDD;
static STACK_OFF: AtomicU64 = AtomicU64::new(0);

/// Runs `f` at another place of the stack.
#[inline(never)]
pub fn on_stack<R>(n: u64, f: &mut dyn FnMut() -> R) -> R {
    if n == 0 {
        return f();
    }
    let b = std::hint::black_box([FILL.load(Relaxed) as u8; 1000]);
    let r = on_stack(n - 1, f);
    std::hint::black_box(&b);
    r
}
pub fn stack_off() -> u64 {
    STACK_OFF.load(Relaxed)
}

/// 0: the plain allocator; otherwise placement is drawn from this seed
pub fn set_placement(seed: u64) {
    FILL.store(if seed == 0 { 0xA5 } else { mix(seed, 77) & 0xff }, Relaxed);
    STACK_OFF.store(if seed == 0 { 0 } else { mix(seed, 78) % 200 }, Relaxed);
    ADDR_N.store(0, Relaxed);
    ADDR_MODE.store(seed, Relaxed);
}
unsafe fn arena_alloc(l: &Layout) -> *mut u8 {
    let mode = ADDR_MODE.load(Relaxed);
    if mode == 0 || l.size() > 1 << 16 || l.align() > 16 || !active() {
        return std::ptr::null_mut();
    }
    let n = ADDR_N.fetch_add(1, Relaxed);
    if mix(mode, n) % 4 >= mode % 4 {
        return std::ptr::null_mut();
    }
    if ARENA_BASE.load(Relaxed) == 0 {
        let p = raw_syscall(9, 0, ARENA as i64, 3, 0x4022, -1, 0);
        if p < 0 {
            return std::ptr::null_mut();
        }
        ARENA_BASE.store(p as u64, Relaxed);
        ARENA_TOP.store(p as u64 + ARENA as u64, Relaxed);
    }
    // as little aligned as the layout allows
    let off = (mix(mode, n) >> 8) % 16 & !(l.align() as u64 - 1);
    let need = ((l.size().max(1) as u64 + 15) & !15) + 16;
    let top = ARENA_TOP.load(Relaxed);
    if top - ARENA_BASE.load(Relaxed) < need {
        return std::ptr::null_mut();
    }
    ARENA_TOP.store(top - need, Relaxed);
    SEEN_ARENA.fetch_add(1, Relaxed);
    (top - need + off) as *mut u8
}
#[inline(always)]
fn in_arena(p: *mut u8) -> bool {
    let b = ARENA_BASE.load(Relaxed);
    b != 0 && (p as u64).wrapping_sub(b) < ARENA as u64
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if alloc_fault() {
            return std::ptr::null_mut();
        }
        let mut p = arena_alloc(&l);
        if p.is_null() {
            p = System.alloc(l);
        }
        if !p.is_null() {
            std::ptr::write_bytes(p, FILL.load(Relaxed) as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if alloc_fault() {
            return std::ptr::null_mut();
        }
        // fresh pages are zero and arena memory is never used twice
        let p = arena_alloc(&l);
        if !p.is_null() {
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if alloc_fault() {
            return std::ptr::null_mut();
        }
        if in_arena(p) {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                std::ptr::write_bytes(p, GONE, l.size());
                if n > l.size() {
                    std::ptr::write_bytes(q.add(l.size()), FILL.load(Relaxed) as u8, n - l.size());
                }
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), FILL.load(Relaxed) as u8, n - l.size());
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if active() && !std::thread::panicking() {
            point(Kind::Alloc);
        }
        std::ptr::write_bytes(p, GONE, l.size());
        if in_arena(p) {
            return;
        }
        System.dealloc(p, l)
    }
}

/// Installs the seams that need installing. Call once, first thing in `main`.
pub fn init() {
    std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(Injected("alloc")));
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { ENVIRON.store(environ as *mut _, Relaxed) };
    unsafe {
        extern "C" {
            fn signal(n: i32, h: usize) -> usize;
        }
        signal(4, on_sigill as *const () as usize);
    }
}

// ------------------------------------------------------------------ basic blocks

const EDGE_CAP: usize = 1 << 16;
static EDGES: [AtomicBool; EDGE_CAP] = [const { AtomicBool::new(false) }; EDGE_CAP];
static N_EDGES: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !active() {
        return;
    }
    let id = *g as usize;
    if id < EDGE_CAP {
        EDGES[id].store(true, Relaxed);
    }
    let steps = OP_STEPS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if steps > STEPS_MAX.load(Relaxed) {
        fatal(EXIT_NO_PROGRESS, "an operation did not finish within the step budget");
    }
    if !std::thread::panicking() {
        if id < EDGE_CAP && TASK.with(|t| t.get()) > 0 {
            rare_edge(id);
        }
        point(Kind::Block);
    }
}
/// A branch taken for the 1st, 2nd, 4th, … time in this run is where code differs from
/// what it did so far: hand over right there now and then.
#[inline(always)]
fn rare_edge(id: usize) {
    let w = w();
    if w.p_rare == 0 || w.explicit.is_some() {
        return;
    }
    let seen = unsafe { &mut SEEN.0.get().as_mut().unwrap()[id] };
    if seen.0 != w.epoch {
        *seen = (w.epoch, 0);
    }
    seen.1 += 1;
    if seen.1.is_power_of_two() && w.rng.below(256) < w.p_rare as u64 {
        w.countdown = 1;
    }
}
struct Seen(UnsafeCell<[(u32, u32); EDGE_CAP]>);
unsafe impl Sync for Seen {}
static SEEN: Seen = Seen(UnsafeCell::new([(0, 0); EDGE_CAP]));
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    let mut p = s;
    while p < e {
        if *p == 0 {
            *p = N_EDGES.fetch_add(1, Relaxed) + 1;
        }
        p = p.add(1);
    }
}
pub fn edges_hit() -> Vec<u32> {
    (0..EDGE_CAP as u32).filter(|&i| EDGES[i as usize].load(Relaxed)).collect()
}
pub fn edges_total() -> u32 {
    N_EDGES.load(Relaxed)
}

// ------------------------------------------------------------------ environment seams

static HASH_KEY: AtomicU64 = AtomicU64::new(0x0123_4567_89ab_cdef);
static CLOCK: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);
static CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
static ENV_MODE: AtomicU32 = AtomicU32::new(0);
pub static SEEN_RANDOM: AtomicU64 = AtomicU64::new(0);
pub static SEEN_CLOCK: AtomicU64 = AtomicU64::new(0);
pub static SEEN_SLEEP: AtomicU64 = AtomicU64::new(0);
pub static SEEN_ENV: AtomicU64 = AtomicU64::new(0);

/// What the process environment looks like to the code under test during a run.
pub fn set_environment(hash_key: u64, clock_ns: u64, clock_step: u64, env_mode: u32) {
    HASH_KEY.store(hash_key, Relaxed);
    CLOCK.store(clock_ns, Relaxed);
    CLOCK_STEP.store(clock_step, Relaxed);
    ENV_MODE.store(env_mode, Relaxed);
    unsafe {
        // for those who list the variables instead of asking for one
        const VARS: [&[u8]; 12] = [
            b"LANG=de_DE.UTF-8\0", b"DEBUG=1\0", b"USER=a\0", b"LANGUAGE=en\0", b"EDITOR=x\0", b"TZ=Asia/Tokyo\0", b"LC_ALL=C\0", b"RUST_LOG=trace\0",
            b"NO_COLOR=1\0", b"TERM=dumb\0", b"LAYERED_NLP=1\0", b"COLUMNS=20\0",
        ];
        static mut LIST: [*const i8; 11] = [std::ptr::null(); 11];
        let list = &raw mut LIST;
        let n = env_mode as usize % 11;
        for i in 0..11 {
            (*list)[i] = if i < n { VARS[(i + env_mode as usize) % 12].as_ptr() as *const i8 } else { std::ptr::null() };
        }
        environ = list as *const *const i8;
    }
}

fn errno_set(v: i32) {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    unsafe { *__errno_location() = v }
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        errno_set(-r as i32);
        -1
    } else {
        r
    }
}

/// std's hash keys (`RandomState`) come from here, once per thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _f: u32) -> isize {
    SEEN_RANDOM.fetch_add(1, Relaxed);
    let t = TASK.with(|t| t.get()) as u64;
    let mut r = Rng::new(HASH_KEY.load(Relaxed), t);
    let mut i = 0;
    while i < n {
        let v = r.next().to_le_bytes();
        for x in v {
            if i < n {
                *b.add(i) = x;
                i += 1;
            }
        }
    }
    n as isize
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if active() {
        SEEN_CLOCK.fetch_add(1, Relaxed);
        let mut t = CLOCK.fetch_add(CLOCK_STEP.load(Relaxed), Relaxed);
        if id == 0 && ENV_MODE.load(Relaxed) % 3 == 2 {
            // the time of day jumps, also backwards
            t = t.wrapping_add(mix(HASH_KEY.load(Relaxed), t) % (365 * 86_400 * 1_000_000_000)) >> 1;
        }
        (*ts).s = (t / 1_000_000_000) as i64;
        (*ts).ns = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if active() {
        SEEN_SLEEP.fetch_add(1, Relaxed);
        CLOCK.fetch_add(((*req).s * 1_000_000_000 + (*req).ns) as u64, Relaxed);
        point(Kind::Callback);
        return 0;
    }
    ret(raw_syscall(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if active() {
        SEEN_SLEEP.fetch_add(1, Relaxed);
        CLOCK.fetch_add(((*req).s * 1_000_000_000 + (*req).ns) as u64, Relaxed);
        point(Kind::Callback);
        return 0;
    }
    let r = raw_syscall(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        let t = TASK.with(|t| t.get());
        if t > 0 {
            block_hop(t as usize - 1);
        }
        return 0;
    }
    ret(raw_syscall(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if active() {
        SEEN_ENV.fetch_add(1, Relaxed);
        return 2 + (HASH_KEY.load(Relaxed) % 4_000_000) as i32;
    }
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}
/// how many processors there are
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if active() {
        SEEN_ENV.fetch_add(1, Relaxed);
        std::ptr::write_bytes(mask, 0, n);
        let cpus = 1 + (HASH_KEY.load(Relaxed) >> 40) as usize % 64;
        for i in 0..cpus.min(n * 8) {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw_syscall(204, pid as i64, n as i64, mask as i64, 0, 0, 0);
    if r < 0 {
        return ret(r) as i32;
    }
    if (r as usize) < n {
        std::ptr::write_bytes(mask.add(r as usize), 0, n - r as usize);
    }
    0
}
/// the current directory
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if active() && !buf.is_null() {
        SEEN_ENV.fetch_add(1, Relaxed);
        let d: &[u8] = [&b"/\0"[..], b"/srv/app\0", b"/home/user/a b\0"][(HASH_KEY.load(Relaxed) >> 20) as usize % 3];
        if d.len() > n {
            errno_set(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len());
        return buf;
    }
    if buf.is_null() {
        errno_set(22);
        return std::ptr::null_mut();
    }
    let r = raw_syscall(79, buf as i64, n as i64, 0, 0, 0, 0);
    if r < 0 {
        ret(r);
        return std::ptr::null_mut();
    }
    buf
}
/// what environment variables may be set to
pub const ENV_VALUES: [&[u8]; 12] = [
    b"1\0", b"0\0", b"\0", b"true\0", b"C\0", b"en_US.UTF-8\0", b"de_DE.UTF-8\0", b"fr_FR.UTF-8\0", b"tr_TR.UTF-8\0",
    b"debug\0", b"64\0", b"/nonexistent\0",
];
extern "C" {
    static mut environ: *const *const i8;
}
/// the process's own variables, which the simulator itself uses
static ENVIRON: std::sync::atomic::AtomicPtr<*const i8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

// Files: nothing exists in the world of the reference; elsewhere (C10) the seed says which
// paths exist, and what they contain.
pub static SEEN_FILE: AtomicU64 = AtomicU64::new(0);
/// what is at `path`: None, or contents
unsafe fn file_at(path: *const i8) -> Option<&'static [u8]> {
    SEEN_FILE.fetch_add(1, Relaxed);
    let mode = ENV_MODE.load(Relaxed) as u64;
    if mode == 0 {
        return None;
    }
    let mut h = mode;
    let mut i = 0;
    while *path.add(i) != 0 {
        h = mix(h, *path.add(i) as u64);
        i += 1;
    }
    let v = ENV_VALUES.get((h % (ENV_VALUES.len() as u64 + 6)) as usize)?;
    Some(&v[..v.len() - 1])
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    if active() {
        return match file_at(path) {
            None => {
                errno_set(2);
                -1
            }
            Some(text) => {
                let fd = raw_syscall(319, b"file\0".as_ptr() as i64, 1, 0, 0, 0, 0);
                if fd >= 0 {
                    raw_syscall(1, fd, text.as_ptr() as i64, text.len() as i64, 0, 0, 0);
                    raw_syscall(8, fd, 0, 0, 0, 0, 0);
                }
                ret(fd) as i32
            }
        };
    }
    ret(raw_syscall(257, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if active() && *path != 0 {
        return match file_at(path) {
            None => {
                errno_set(2);
                -1
            }
            Some(text) => {
                std::ptr::write_bytes(buf, 0, 256);
                *(buf as *mut u32) = 0x7ff; // what is filled in
                *(buf.add(28) as *mut u16) = 0o100644;
                *(buf.add(40) as *mut u64) = text.len() as u64;
                0
            }
        };
    }
    ret(raw_syscall(332, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if active() {
        SEEN_ENV.fetch_add(1, Relaxed);
        return (1 + mix(HASH_KEY.load(Relaxed), 0x99) % 40_000) as i32;
    }
    raw_syscall(110, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if active() {
        SEEN_ENV.fetch_add(1, Relaxed);
        return (ENV_MODE.load(Relaxed) % 2) as i32;
    }
    let mut b = [0u8; 64];
    (ret(raw_syscall(16, fd as i64, 0x5401, b.as_mut_ptr() as i64, 0, 0, 0)) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    if active() {
        SEEN_ENV.fetch_add(1, Relaxed);
        let mode = ENV_MODE.load(Relaxed) as usize;
        if mode == 0 {
            return std::ptr::null();
        }
        if mode <= ENV_VALUES.len() {
            return ENV_VALUES[mode - 1].as_ptr() as *const i8;
        }
        // every variable its own value, or none
        let mut h = mode as u64;
        let mut i = 0;
        while *name.add(i) != 0 {
            h = mix(h, *name.add(i) as u64);
            i += 1;
        }
        return match ENV_VALUES.get((h % (ENV_VALUES.len() as u64 + 2)) as usize) {
            Some(v) => v.as_ptr() as *const i8,
            None => std::ptr::null(),
        };
    }
    let mut p = ENVIRON.load(Relaxed) as *const *const i8;
    if p.is_null() {
        p = environ;
    }
    if p.is_null() || name.is_null() {
        return std::ptr::null();
    }
    while !(*p).is_null() {
        let e = *p;
        let mut i = 0;
        while *name.add(i) != 0 && *e.add(i) == *name.add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *e.add(i) == b'=' as i8 {
            return e.add(i + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

fn block_hop(me: usize) {
    let w = w();
    w.pt[me] = w.pt[me].wrapping_add(1);
    idle_tick("callers block each other inside the code under test");
    if let Some(to) = pick_other(me) {
        w.switches_block += 1;
        switch_to(me, to);
    }
}

/// std's locks, once-cells and parking block through `syscall(SYS_futex, ..)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && TASK.with(|t| t.get()) > 0 && W.0.get().as_ref().unwrap().running {
        let me = TASK.with(|t| t.get()) as usize - 1;
        let cmd = b & 0x7f;
        if cmd == 0 || cmd == 9 {
            let word = &*(a as *const AtomicU32);
            if word.load(SeqCst) != c as u32 {
                return ret(-11);
            }
            let w = w();
            w.blocked[me] = Some((a as usize, c as u32));
            w.woken[me] = false;
            let has_timeout = d != 0;
            if pick_other_exists(me) {
                block_hop(me);
                w.blocked[me] = None;
                return 0;
            }
            w.blocked[me] = None;
            if has_timeout {
                return ret(-110);
            }
            fatal(EXIT_DEADLOCK, "a caller blocks inside the code under test and nobody can release it");
        }
        if cmd == 1 || cmd == 10 {
            let w = w();
            let mut left = c as i32;
            for t in 0..w.n {
                if left > 0 && w.blocked[t].map_or(false, |(x, _)| x == a as usize) && !w.woken[t] {
                    w.woken[t] = true;
                    left -= 1;
                }
            }
            return (c as i32 - left) as i64;
        }
    }
    if n == SYS_FUTEX && active() && TASK.with(|t| t.get()) == 0 {
        // a caller alone in its process
        let cmd = b & 0x7f;
        if (cmd == 0 || cmd == 9) && (*(a as *const AtomicU32)).load(SeqCst) == c as u32 {
            if d != 0 {
                return ret(-110);
            }
            fatal(EXIT_DEADLOCK, "a caller blocks inside the code under test and nobody can release it");
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
fn pick_other_exists(me: usize) -> bool {
    let w = w();
    (0..w.n).any(|t| t != me && eligible(t))
}
