//! Seeded search over runs, confirmation and minimisation of failures, evidence.
use crate::exec::{sink_name, thread_promises};
use crate::plan::*;
use crate::run::*;
use simrt::{mix, Arm, Switch};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn seed_of(base: u64, idx: u64) -> u64 {
    mix(mix(base, 0x5EED), idx)
}

// ------------------------------------------------------------------ worker

/// Executes groups of consecutive runs. Every group starts in a process which has never
/// called the library (a fork of this one); within a group the process is reused.
pub fn worker(prop: &str, big: &str, base: &str, cuts: &str) -> i32 {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, st: *mut i32, fl: i32) -> i32;
        fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        fn _exit(c: i32) -> !;
        fn kill(p: i32, s: i32) -> i32;
        fn getpid() -> i32;
    }
    let prop = Prop::parse(prop).expect("property");
    let base: u64 = base.parse().unwrap();
    let cuts: Vec<(u64, u64)> = cuts
        .split(',')
        .map(|x| {
            let (a, b) = x.split_once('-').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    simrt::learn_symbols();
    let zy = Zygote::start();
    simrt::FATAL_FD.store(1, Relaxed);
    // the run a group's process is at, seen by both
    let at = unsafe { &*simrt::shared_cell() };
    let mut todo: std::collections::VecDeque<(u64, u64)> = cuts.into();
    while let Some(w) = todo.pop_front() {
        unsafe {
            let c = fork();
            assert!(c >= 0, "fork");
            if c == 0 {
                prctl(1, 9, 0, 0, 0);
                group(prop, big == "1", base, w.0, w.1, &zy, at);
                _exit(0);
            }
            let mut st = 0;
            waitpid(c, &mut st, 0);
            if st == simrt::EXIT_ALLOC_ABORT << 8 {
                // the injected allocation failure ended the process, as it may
                let i = at.load(Relaxed);
                println!("K {i}");
                if i + 1 < w.1 {
                    todo.push_front((i + 1, w.1));
                }
                continue;
            }
            if st & 0x7f != 0 {
                kill(getpid(), st & 0x7f);
                _exit(3);
            }
            if st != 0 {
                _exit((st >> 8) & 0xff);
            }
        }
    }
    0
}

fn group(prop: Prop, big: bool, base: u64, from: u64, to: u64, zy: &Zygote, at: &std::sync::atomic::AtomicU64) {
    let so = std::io::stdout();
    for idx in from..to {
        let seed = seed_of(base, idx);
        at.store(idx, Relaxed);
        {
            let mut o = so.lock();
            writeln!(o, "B {idx} {seed}").ok();
            o.flush().ok();
        }
        let spec = RunSpec { prop, seed, big, keep: None, faults: None, explicit: None };
        let r = execute(&spec, zy);
        let mut o = so.lock();
        for v in r.violations.iter().take(3) {
            writeln!(o, "V {idx} {seed} {}\t{}", v.kind, v.msg.replace('\n', "\\n")).ok();
        }
        let c = &r.cnt;
        let mut kv: Vec<(&str, u64)> = vec![
            ("ops", r.ops),
            ("references", r.refs),
            ("points", r.stats.points),
            ("switch_block", r.stats.sw_bb),
            ("switch_alloc", r.stats.sw_alloc),
            ("switch_callback", r.stats.sw_cb),
            ("switch_boundary", r.stats.sw_op),
            ("switch_futex", r.stats.sw_block),
            ("fault_planned", r.faults_planned),
            ("fault_callback_panic", c.faults[0]),
            ("fault_alloc_failure", c.faults[1]),
            ("fault_sink_refused", c.sink_refused),
            ("misuse_keep_selection", c.misuse[0]),
            ("misuse_cross_line", c.misuse[1]),
            ("misuse_foreign_range", c.misuse[2]),
            ("rebuilds", c.rebuilds),
            ("queries", c.queries),
            ("finds", c.finds),
            ("renders", c.renders),
            ("nav_steps", c.nav_steps),
            ("nav_selections", c.nav_sels),
            ("assignments", c.assigns),
            ("shipped_layers", c.shipped),
            ("layers", c.layers),
            ("tokens", c.tokens),
            ("lines", c.lines),
            ("skipped_too_large", c.skipped),
            ("handovers", c.handovers),
            ("values", c.values),
            ("twins", c.twins),
        ];
        let names = ["", "sink_fmt_byte", "sink_fmt_call", "sink_io_short_eintr", "sink_io_full", "sink_io_zero", "sink_fmt_once", "sink_io_once"];
        for k in 1..8 {
            kv.push((names[k], c.sinks[k]));
        }
        let s: Vec<String> = kv.iter().filter(|x| x.1 > 0).map(|(k, v)| format!("{k}={v}")).collect();
        writeln!(o, "E {idx} {seed} {:016x} {:016x} {} {}", r.hash, r.stats.hash, r.active as u8, s.join(" ")).ok();
        o.flush().ok();
    }
    let edges: Vec<String> = simrt::edges_hit().iter().map(|e| e.to_string()).collect();
    let mut o = so.lock();
    writeln!(
        o,
        "X {} {} {} {} {} {} {} {} {}",
        simrt::edges_total(),
        simrt::SEEN_RANDOM.load(Relaxed),
        simrt::SEEN_CLOCK.load(Relaxed),
        simrt::SEEN_SLEEP.load(Relaxed),
        simrt::SEEN_ENV.load(Relaxed),
        crate::vals::REENTERED.load(Relaxed),
        simrt::SEEN_ARENA.load(Relaxed),
        simrt::SEEN_FILE.load(Relaxed),
        edges.join(",")
    )
    .ok();
    o.flush().ok();
}

// ------------------------------------------------------------------ replay files

#[derive(Clone, Debug)]
pub struct Replay {
    pub prop: Prop,
    pub big: bool,
    /// runs executed before, in the same process
    /// executed by the build without debug assertions and overflow checks
    pub plain: bool,
    pub pre: Vec<u64>,
    pub seed: u64,
    pub keep: Option<Vec<u32>>,
    pub faults: Option<Vec<(u32, Arm)>>,
    pub explicit: Option<Vec<Switch>>,
    pub kind: String,
    pub msg: String,
}
impl Replay {
    fn spec(&self) -> RunSpec {
        RunSpec {
            prop: self.prop,
            seed: self.seed,
            big: self.big,
            keep: self.keep.clone(),
            faults: self.faults.clone(),
            explicit: self.explicit.clone(),
        }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "lsim-replay 1").unwrap();
        writeln!(s, "property {}", self.prop.name()).unwrap();
        writeln!(s, "kind {}", self.kind).unwrap();
        writeln!(s, "message {}", self.msg.replace('\n', "\\n")).unwrap();
        writeln!(s, "big {}", self.big as u8).unwrap();
        writeln!(s, "build {}", if self.plain { "plain" } else { "debug" }).unwrap();
        for p in &self.pre {
            writeln!(s, "before {p}").unwrap();
        }
        writeln!(s, "seed {}", self.seed).unwrap();
        if let Some(k) = &self.keep {
            writeln!(s, "keep {}", k.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
        }
        if let Some(f) = &self.faults {
            writeln!(s, "faults {}", f.len()).unwrap();
            for (o, a) in f {
                match a {
                    Arm::CallbackPanic(n) => writeln!(s, "fault {o} callback {n}").unwrap(),
                    Arm::AllocFail(n) => writeln!(s, "fault {o} alloc {n}").unwrap(),
                    Arm::None => {}
                }
            }
        }
        if let Some(e) = &self.explicit {
            writeln!(s, "schedule {}", e.len()).unwrap();
            for x in e {
                writeln!(s, "switch {} {} {} {}", x.task, x.op, x.pt, x.to).unwrap();
            }
        }
        s
    }
    fn parse(t: &str) -> Option<Replay> {
        let mut r = Replay {
            prop: Prop::C01,
            big: false,
            plain: false,
            pre: vec![],
            seed: 0,
            keep: None,
            faults: None,
            explicit: None,
            kind: String::new(),
            msg: String::new(),
        };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let nums = || -> Vec<u64> { v.split(' ').filter_map(|x| x.parse().ok()).collect() };
            match k {
                "property" => r.prop = Prop::parse(v)?,
                "kind" => r.kind = v.into(),
                "message" => r.msg = v.into(),
                "big" => r.big = v == "1",
                "build" => r.plain = v == "plain",
                "before" => r.pre.push(v.parse().ok()?),
                "seed" => r.seed = v.parse().ok()?,
                "keep" => r.keep = Some(v.split(',').filter_map(|x| x.parse().ok()).collect()),
                "faults" => r.faults = Some(vec![]),
                "fault" => {
                    let f: Vec<&str> = v.split(' ').collect();
                    let n: u64 = f.get(2)?.parse().ok()?;
                    let a = if f[1] == "callback" { Arm::CallbackPanic(n) } else { Arm::AllocFail(n) };
                    r.faults.as_mut()?.push((f[0].parse().ok()?, a));
                }
                "schedule" => r.explicit = Some(vec![]),
                "switch" => {
                    let n = nums();
                    r.explicit.as_mut()?.push(Switch { task: n[0] as u8, op: n[1] as u32, pt: n[2] as u32, to: n[3] as u8 });
                }
                _ => {}
            }
        }
        Some(r)
    }
}

/// internal: execute a replay file, write violations, trace and placed faults
pub fn eval(file: &str, out: &str) -> i32 {
    let Some(r) = std::fs::read_to_string(file).ok().and_then(|t| Replay::parse(&t)) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    simrt::learn_symbols();
    let zy = Zygote::start();
    let mut o = std::fs::File::create(out).expect("output");
    use std::os::fd::AsRawFd;
    simrt::FATAL_FD.store(o.as_raw_fd() as i64, Relaxed);
    let mut found = false;
    for p in &r.pre {
        let s = RunSpec { prop: r.prop, seed: *p, big: r.big, keep: None, faults: None, explicit: None };
        execute(&s, &zy);
    }
    let x = execute(&r.spec(), &zy);
    for v in &x.violations {
        found = true;
        writeln!(o, "V {}\t{}", v.kind, v.msg.replace('\n', "\\n")).ok();
    }
    writeln!(o, "H {:016x}", x.hash).ok();
    for (op, a) in &x.faults {
        match a {
            Arm::CallbackPanic(n) => writeln!(o, "F {op} callback {n}").ok(),
            Arm::AllocFail(n) => writeln!(o, "F {op} alloc {n}").ok(),
            Arm::None => None,
        };
    }
    for t in &x.stats.trace {
        writeln!(o, "T {} {} {} {}", t.task, t.op, t.pt, t.to).ok();
    }
    found as i32
}

#[derive(Clone, Debug, Default)]
struct Verdict {
    /// (kind, message); empty: held
    viol: Vec<(String, String)>,
    trace: Vec<Switch>,
    faults: Vec<(u32, Arm)>,
    hash: String,
    error: Option<String>,
}

fn scratch() -> String {
    let d = format!("{}/target/tmp-{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&d).ok();
    d
}
pub fn verif_dir() -> String {
    std::env::var("LSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// the simulator in one of its two builds
fn exe(plain: bool) -> std::path::PathBuf {
    if plain {
        let me = std::env::current_exe().expect("own path");
        let p = me.parent().and_then(|p| p.parent()).map(|p| p.join("plain/lsim")).expect("own path");
        assert!(p.exists(), "the plain build is missing; run build.sh");
        p
    } else {
        "/proc/self/exe".into()
    }
}

fn judge(r: &Replay, dir: &str, tag: &str, limit: Duration) -> Verdict {
    let (f, o) = (format!("{dir}/{tag}.replay"), format!("{dir}/{tag}.out"));
    std::fs::write(&f, r.text()).expect("scratch");
    std::fs::remove_file(&o).ok();
    let mut ch = Command::new(exe(r.plain))
        .args(["eval", &f, &o])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break Some(s);
        }
        if t0.elapsed() > limit {
            ch.kill().ok();
            ch.wait().ok();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut v = Verdict::default();
    let text = String::from_utf8_lossy(&std::fs::read(&o).unwrap_or_default()).to_string();
    for l in text.lines() {
        let (k, x) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "V" => {
                let (a, b) = x.split_once('\t').unwrap_or((x, ""));
                v.viol.push((a.into(), b.into()));
            }
            "H" => v.hash = x.into(),
            "F" => {
                let f: Vec<&str> = x.split(' ').collect();
                let n: u64 = f[2].parse().unwrap_or(0);
                v.faults.push((f[0].parse().unwrap_or(0), if f[1] == "callback" { Arm::CallbackPanic(n) } else { Arm::AllocFail(n) }));
            }
            "T" => {
                let n: Vec<u64> = x.split(' ').filter_map(|x| x.parse().ok()).collect();
                v.trace.push(Switch { task: n[0] as u8, op: n[1] as u32, pt: n[2] as u32, to: n[3] as u8 });
            }
            _ => {}
        }
    }
    match st {
        None => v.viol.push(("stuck".into(), "the run does not end".into())),
        Some(s) => match exit_violation(s.code(), s.signal(), &text) {
            Ok(None) => {}
            Ok(Some(x)) => v.viol.push(x),
            Err(e) => v.error = Some(e),
        },
    }
    v
}

/// an abnormal end of a simulated process as a violation, or as an error of ours
fn exit_violation(code: Option<i32>, signal: Option<i32>, text: &str) -> Result<Option<(String, String)>, String> {
    let last = text.lines().rev().find(|l| l.starts_with("FATAL ")).unwrap_or("").to_string();
    match (code, signal) {
        (Some(0), _) | (Some(1), _) => Ok(None),
        (Some(c), _) if c == simrt::EXIT_ALLOC_ABORT => Ok(None),
        (Some(c), _) if c == simrt::EXIT_NO_PROGRESS => Ok(Some(("no-progress".into(), last))),
        (Some(c), _) if c == simrt::EXIT_DEADLOCK => Ok(Some(("deadlock".into(), last))),
        (_, Some(9)) => Err("a simulated process was killed from outside".into()),
        (_, Some(s)) => Ok(Some((format!("crash-{s}"), format!("the process died with signal {s}")))),
        (c, _) => Err(format!("a simulated process failed: exit {c:?} {last}")),
    }
}

pub fn replay(file: &str) -> i32 {
    let Some(r) = std::fs::read_to_string(file).ok().and_then(|t| Replay::parse(&t)) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let d = scratch();
    let v = judge(&r, &d, "replay", Duration::from_secs(300));
    std::fs::remove_dir_all(&d).ok();
    if let Some(e) = v.error {
        eprintln!("ERROR {e}");
        return 2;
    }
    for (k, m) in &v.viol {
        println!("{k}: {m}");
    }
    if v.viol.is_empty() {
        println!("held: the replayed run does not violate {}", r.prop.name());
        0
    } else {
        println!("VIOLATION property={} replay={}", r.prop.name(), file);
        1
    }
}

pub fn show(prop: &str, seed: &str) -> i32 {
    let p = generate(Prop::parse(prop).expect("property"), seed.parse().expect("seed"), false);
    print!("{}", describe(&p, usize::MAX));
    0
}

pub fn describe(p: &Plan, cap: usize) -> String {
    let mut s = String::new();
    writeln!(s, "{} seed {}: {} callers, {} lines, schedule {{block every ~{}, callback {}/256, boundary {}/256}}, reentrant callbacks {}", p.prop.name(), p.seed, p.n_tasks, p.lines.len(), p.sched.mean_bb, p.sched.p_cb, p.sched.p_op, p.reenter).unwrap();
    for (i, l) in p.lines.iter().enumerate() {
        writeln!(s, "line {i}: {:?}", l.create).unwrap();
    }
    for o in &p.ops {
        let what = match &o.kind {
            OpK::Layer(i) => match &p.lines[o.line].layers[*i] {
                Layer::Shipped(k) => format!("layer {i}: {:?}", p.shared[*k]),
                l => format!("layer {i}: {l:?}"),
            },
            k => format!("{k:?}"),
        };
        let f = o.fault.map_or(String::new(), |f| format!(" !{:?}", f.0));
        writeln!(s, "op {} caller {} line {}: {}{}", o.id, o.task, o.line, what, f).unwrap();
    }
    if s.len() > cap {
        let mut k = cap;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}

// ------------------------------------------------------------------ minimising

struct Mini<'a> {
    dir: &'a str,
    kind: String,
    evals: usize,
    t0: Instant,
    limit: Duration,
    per: Duration,
}
impl<'a> Mini<'a> {
    fn out(&self) -> bool {
        self.evals > 900 || self.t0.elapsed() > self.limit
    }
    fn fails(&mut self, r: &Replay) -> Option<Verdict> {
        if self.out() {
            return None;
        }
        self.evals += 1;
        let v = judge(r, self.dir, "mini", self.per);
        if v.error.is_none() && v.viol.iter().any(|x| x.0 == self.kind) {
            Some(v)
        } else {
            None
        }
    }
    /// ddmin over a list: smallest sublist found for which `f` still holds
    fn shrink<T: Clone>(&mut self, mut xs: Vec<T>, mut f: impl FnMut(&mut Self, &[T]) -> bool) -> Vec<T> {
        if xs.is_empty() {
            return xs;
        }
        if f(self, &[]) {
            return vec![];
        }
        let mut chunk = xs.len().div_ceil(2);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < xs.len() {
                if self.out() {
                    return xs;
                }
                let mut ys = xs.clone();
                ys.drain(i..(i + chunk).min(xs.len()));
                if !ys.is_empty() && f(self, &ys) {
                    xs = ys;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                if !any {
                    return xs;
                }
            } else {
                chunk = chunk.div_ceil(2);
            }
        }
    }
}

fn minimise(mut r: Replay, first: Verdict, dir: &str, limit: Duration) -> (Replay, usize) {
    let per = if r.kind == "no-progress" || r.kind == "stuck" { Duration::from_secs(60) } else { Duration::from_secs(30) };
    let mut m = Mini { dir, kind: r.kind.clone(), evals: 0, t0: Instant::now(), limit, per };
    // what ran before in the process
    let pre = r.pre.clone();
    let base = r.clone();
    r.pre = m.shrink(pre, |m, p| {
        let mut c = base.clone();
        c.pre = p.to_vec();
        m.fails(&c).is_some()
    });
    // pin faults and schedule down
    let v = if r.pre.len() == base.pre.len() { first } else { m.fails(&r).unwrap_or(first) };
    if !v.hash.is_empty() {
        let mut c = r.clone();
        c.faults = Some(v.faults.clone());
        c.explicit = Some(v.trace.clone());
        if m.fails(&c).is_some() {
            r = c;
        }
    }
    // operations
    let ids: Vec<u32> = match &r.keep {
        Some(k) => k.clone(),
        None => make_plan(&r.spec()).ops.iter().map(|o| o.id).collect(),
    };
    let base = r.clone();
    let keep = m.shrink(ids, |m, k| {
        let mut c = base.clone();
        c.keep = Some(k.to_vec());
        m.fails(&c).is_some()
    });
    r.keep = Some(keep);
    // what the plan no longer contains
    let plan = make_plan(&r.spec());
    r.keep = Some(plan.ops.iter().map(|o| o.id).collect());
    let has = |id: u32| plan.ops.iter().any(|o| o.id == id);
    if let Some(f) = &mut r.faults {
        f.retain(|x| has(x.0));
        let base = r.clone();
        let fs = base.faults.clone().unwrap();
        r.faults = Some(m.shrink(fs, |m, k| {
            let mut c = base.clone();
            c.faults = Some(k.to_vec());
            m.fails(&c).is_some()
        }));
    }
    if let Some(e) = &mut r.explicit {
        e.retain(|x| x.op == u32::MAX || x.task as usize == simrt::MAXT || has(x.op));
        let base = r.clone();
        let mut sw = base.explicit.clone().unwrap();
        let mut test = |m: &mut Mini, k: &[Switch]| {
            let mut c = base.clone();
            c.explicit = Some(k.to_vec());
            m.fails(&c).is_some()
        };
        // nothing after the violation matters: a short prefix
        let (mut lo, mut hi) = (0, sw.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if test(&mut m, &sw[..mid]) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        sw.truncate(hi);
        // all decisions inside one operation at once
        let mut groups: Vec<(u8, u32)> = sw.iter().map(|s| (s.task, s.op)).collect();
        groups.sort();
        groups.dedup();
        if groups.len() > 1 && sw.len() > 8 {
            let all = sw.clone();
            let pick = |g: &[(u8, u32)]| -> Vec<Switch> { all.iter().filter(|s| g.contains(&(s.task, s.op))).copied().collect() };
            let g = m.shrink(groups, |m, g| test(m, &pick(g)));
            sw = pick(&g);
        }
        r.explicit = Some(m.shrink(sw, |m, k| test(m, k)));
    }
    (r, m.evals)
}

// ------------------------------------------------------------------ the check

struct Shared {
    viol: Mutex<Vec<(u64, u64, u64, String, String)>>, // idx, seed, batch start, kind, msg
    errors: Mutex<Vec<String>>,
    kv: Mutex<BTreeMap<String, u64>>,
    hashes: Mutex<BTreeSet<u64>>,
    scheds: Mutex<BTreeSet<u64>>,
    edges: Mutex<BTreeSet<u32>>,
    edges_total: AtomicUsize,
    runs: AtomicUsize,
    active: AtomicUsize,
    stop: AtomicBool,
    all: Mutex<Option<BTreeMap<u64, String>>>,
}
impl Shared {
    fn new(all: bool) -> Shared {
        Shared {
            viol: Mutex::new(vec![]),
            errors: Mutex::new(vec![]),
            kv: Mutex::new(BTreeMap::new()),
            hashes: Mutex::new(BTreeSet::new()),
            scheds: Mutex::new(BTreeSet::new()),
            edges: Mutex::new(BTreeSet::new()),
            edges_total: AtomicUsize::new(0),
            runs: AtomicUsize::new(0),
            active: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            all: Mutex::new(if all { Some(BTreeMap::new()) } else { None }),
        }
    }
}

/// one worker process over one batch of consecutive runs
fn run_batch(sh: &Shared, prop: Prop, big: bool, base: u64, plain: bool, cuts: &[(u64, u64)], deadline: Instant) {
    let arg = cuts.iter().map(|x| format!("{}-{}", x.0, x.1)).collect::<Vec<_>>().join(",");
    let ended: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let start = |idx: u64| {
        let s = cuts.iter().find(|c| c.0 <= idx && idx < c.1).map_or(idx, |c| c.0);
        ended.lock().unwrap().iter().filter(|k| **k < idx).map(|k| k + 1).fold(s, u64::max)
    };
    let mut ch = match Command::new(exe(plain))
        .args(["worker", &prop.name(), if big { "1" } else { "0" }, &base.to_string(), &arg])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            sh.errors.lock().unwrap().push(format!("spawn: {e}"));
            return;
        }
    };
    let out = ch.stdout.take().unwrap();
    let pid = ch.id();
    let last = Mutex::new(Instant::now());
    let done = AtomicBool::new(false);
    let stuck = AtomicBool::new(false);
    let killed = AtomicBool::new(false);
    let mut open: Option<(u64, u64)> = None;
    let mut fatal = String::new();
    std::thread::scope(|s| {
        s.spawn(|| {
            extern "C" {
                fn kill(p: i32, s: i32) -> i32;
            }
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let idle = last.lock().unwrap().elapsed();
                let over = Instant::now() > deadline || sh.stop.load(Relaxed);
                if over || idle > Duration::from_secs(100) {
                    if over {
                        killed.store(true, Relaxed);
                    } else {
                        stuck.store(true, Relaxed);
                    }
                    unsafe { kill(pid as i32, 9) };
                    return;
                }
            }
        });
        let mut rd = BufReader::new(out);
        let mut buf = Vec::new();
        loop {
            buf.clear();
            match rd.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                Ok(_) => {}
            }
            *last.lock().unwrap() = Instant::now();
            let l = String::from_utf8_lossy(&buf).trim_end().to_string();
            let (k, x) = l.split_once(' ').unwrap_or((&l, ""));
            match k {
                "B" => {
                    let n: Vec<u64> = x.split(' ').filter_map(|x| x.parse().ok()).collect();
                    open = Some((n[0], n[1]));
                }
                "V" => {
                    let (h, m) = x.split_once('\t').unwrap_or((x, ""));
                    let f: Vec<&str> = h.split(' ').collect();
                    let i = f[0].parse().unwrap_or(0);
                    sh.viol.lock().unwrap().push((i, f[1].parse().unwrap_or(0), start(i), f[2].to_string(), m.to_string()));
                    sh.stop.store(true, Relaxed);
                }
                "K" => {
                    open = None;
                    ended.lock().unwrap().push(x.parse().unwrap_or(0));
                    *sh.kv.lock().unwrap().entry("ended_by_alloc_failure".to_string()).or_default() += 1;
                }
                "E" => {
                    open = None;
                    let f: Vec<&str> = x.split(' ').collect();
                    sh.runs.fetch_add(1, Relaxed);
                    let h = u64::from_str_radix(f[2], 16).unwrap_or(0);
                    if f[4] == "1" {
                        sh.active.fetch_add(1, Relaxed);
                        sh.hashes.lock().unwrap().insert(h);
                    }
                    sh.scheds.lock().unwrap().insert(u64::from_str_radix(f[3], 16).unwrap_or(0));
                    if let Some(a) = sh.all.lock().unwrap().as_mut() {
                        a.insert(f[0].parse().unwrap_or(0), x.to_string());
                    }
                    let mut kv = sh.kv.lock().unwrap();
                    for p in &f[5..] {
                        if let Some((k, v)) = p.split_once('=') {
                            *kv.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                }
                "X" => {
                    let f: Vec<&str> = x.split(' ').collect();
                    if plain {
                        continue; // branch edges are numbered differently in that build
                    }
                    sh.edges_total.store(f[0].parse().unwrap_or(0), Relaxed);
                    let mut kv = sh.kv.lock().unwrap();
                    for (k, v) in ["seam_random", "seam_clock", "seam_sleep", "seam_env", "reentrant_calls", "seam_placement", "seam_files"].iter().zip(&f[1..8]) {
                        *kv.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
                    }
                    let mut e = sh.edges.lock().unwrap();
                    e.extend(f.get(8).unwrap_or(&"").split(',').filter_map(|x| x.parse::<u32>().ok()));
                }
                "FATAL" => fatal = l.clone(),
                _ => {}
            }
        }
        done.store(true, Relaxed);
    });
    let st = ch.wait().expect("wait");
    if killed.load(Relaxed) {
        return;
    }
    if stuck.load(Relaxed) {
        if let Some((i, s)) = open {
            sh.viol.lock().unwrap().push((i, s, start(i), "stuck".into(), "the run does not end".into()));
            sh.stop.store(true, Relaxed);
        }
        return;
    }
    match exit_violation(st.code(), st.signal(), &fatal) {
        Ok(None) => {}
        Ok(Some((k, m))) => {
            let (i, s) = open.unwrap_or((cuts[0].0, seed_of(base, cuts[0].0)));
            sh.viol.lock().unwrap().push((i, s, start(i), k, m));
            sh.stop.store(true, Relaxed);
        }
        Err(e) => {
            sh.errors.lock().unwrap().push(e);
            sh.stop.store(true, Relaxed);
        }
    }
}

/// Where a process starts anew: groups of different lengths, so that how much a process
/// has done before varies. Part of what a seed stands for.
fn groups(runs: u64, base: u64) -> Vec<u64> {
    let mut v = vec![0];
    let mut at = 0;
    let mut k = 0;
    while at < runs {
        let n = match mix(base, 0xBA7C4 + k) % 8 {
            0..=4 => 1,
            5 => 3,
            6 => 10,
            _ => 40,
        };
        k += 1;
        at = (at + n).min(runs);
        v.push(at);
    }
    v
}

/// which of the two builds executes the group that starts with run `from`
fn is_plain(base: u64, from: u64) -> bool {
    mix(base ^ 0x91A1_0000, from) % 3 == 0
}

type Chunk = (bool, Vec<(u64, u64)>);
/// groups handed to one worker process
fn chunks(cuts: &[u64], size: u64, base: u64) -> Vec<Chunk> {
    let mut v = vec![];
    let mut cur: [Vec<(u64, u64)>; 2] = Default::default();
    for w in cuts.windows(2) {
        let p = is_plain(base, w[0]);
        let c = &mut cur[p as usize];
        c.push((w[0], w[1]));
        if c.iter().map(|x| x.1 - x.0).sum::<u64>() >= size {
            v.push((p, std::mem::take(c)));
        }
    }
    for (p, c) in cur.into_iter().enumerate() {
        if !c.is_empty() {
            v.push((p == 1, c));
        }
    }
    v
}

fn search(sh: &Shared, prop: Prop, big: bool, base: u64, bs: &[Chunk], jobs: usize, deadline: Instant) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Relaxed);
                if k >= bs.len() || sh.stop.load(Relaxed) || Instant::now() > deadline {
                    return;
                }
                run_batch(sh, prop, big, base, bs[k].0, &bs[k].1, deadline);
            });
        }
    });
}

fn jobs() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}

/// number of runs per tier
fn budget(prop: Prop, thorough: bool) -> u64 {
    let q = match prop {
        Prop::C01 => 12000,
        Prop::C02 => 12000,
        Prop::C03 => 16000,
        Prop::C04 => 10000,
        Prop::C05 => 9000,
        Prop::C06 => 10000,
        Prop::C07 => 9000,
        Prop::C08 => 15000,
        Prop::C09 => 10000,
        Prop::C10 => 9000,
        Prop::C11 => 20000,
        Prop::C12 => 14000,
    };
    let q = std::env::var("LSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(q);
    if thorough {
        q * 30
    } else {
        q
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(name: &str) -> i32 {
    let Some(prop) = Prop::parse(name) else {
        eprintln!("unknown property {name}");
        return 2;
    };
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let tier = if thorough { "thorough" } else { "quick" };
    let runs = budget(prop, thorough);
    println!("lsim {name}: VERIF_SEED={base} tier={tier} runs={runs}");
    let wall = if thorough { 3 * 3600 } else { 420 };
    let deadline = t0 + Duration::from_secs(wall);
    let sh = Shared::new(false);
    let base_p = mix(base, 0x9_0000 + prop as u64);
    search(&sh, prop, thorough, base_p, &chunks(&groups(runs, base_p), 60, base_p), jobs(), deadline);

    let errors = sh.errors.lock().unwrap().clone();
    let mut viols = sh.viol.lock().unwrap().clone();
    viols.sort_by_key(|v| v.0);
    let dir = format!("{}/replays", verif_dir());
    let mut code = 0;
    let mut nv = 0;
    let mut note = String::new();
    if prop == Prop::C05 {
        for (t, send, sync) in thread_promises() {
            if !send || !sync {
                std::fs::create_dir_all(&dir).ok();
                let f = format!("{dir}/C05-threads-{t}.txt");
                std::fs::write(&f, format!("{t}: can be handed between threads: {send}; can be used by several threads at once: {sync}\n")).ok();
                println!("{t}: Send={send} Sync={sync}");
                println!("VIOLATION property=C05 replay={f}");
                nv += 1;
                code = 1;
            }
        }
    }
    if let (Some((idx, seed, from, kind, msg)), 0) = (viols.first().cloned(), code) {
        std::fs::create_dir_all(&dir).ok();
        let sd = scratch();
        let mut r = Replay { prop, big: thorough, plain: is_plain(base_p, from), pre: vec![], seed, keep: None, faults: None, explicit: None, kind: kind.clone(), msg: msg.clone() };
        println!("seed {seed} (run {idx}): {kind}: {msg}");
        let lim = Duration::from_secs(120);
        let mut v = judge(&r, &sd, "first", lim);
        if v.viol.is_empty() {
            // needs what the process had done before
            r.pre = (from..idx).map(|i| seed_of(base_p, i)).collect();
            for _ in 0..3 {
                v = judge(&r, &sd, "first", lim);
                if !v.viol.is_empty() {
                    break;
                }
            }
        }
        let stable = !v.viol.is_empty();
        if stable {
            if !v.viol.iter().any(|x| x.0 == r.kind) {
                r.kind = v.viol[0].0.clone();
                r.msg = v.viol[0].1.clone();
            }
            let (mut m, evals) = minimise(r.clone(), v, &sd, Duration::from_secs(if thorough { 300 } else { 100 }));
            let last = judge(&m, &sd, "last", lim);
            if let Some(x) = last.viol.iter().find(|x| x.0 == m.kind) {
                m.msg = x.1.clone();
                r = m;
            }
            note = format!(
                "minimised with {evals} re-executions to {} operations, {} faults, {} scheduling decisions, {} earlier runs",
                r.keep.as_ref().map_or(0, |k| k.len()),
                r.faults.as_ref().map_or(0, |k| k.len()),
                r.explicit.as_ref().map_or(0, |k| k.len()),
                r.pre.len()
            );
        } else {
            note = "seen once, not again when re-executed: the outcome depends on something outside the simulator's control".into();
        }
        let f = format!("{dir}/{}-{}.replay", prop.name(), seed);
        let plan = make_plan(&RunSpec { prop, seed: r.seed, big: r.big, keep: r.keep.clone(), faults: None, explicit: None });
        let mut t = r.text();
        for l in describe(&plan, 20000).lines() {
            writeln!(t, "# {l}").unwrap();
        }
        writeln!(t, "# {note}").unwrap();
        std::fs::write(&f, t).expect("replay file");
        std::fs::remove_dir_all(&sd).ok();
        println!("{note}");
        println!("{}: {}", r.kind, r.msg);
        println!("VIOLATION property={} replay={}", prop.name(), f);
        nv += 1;
        code = 1;
    }
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {e}");
        }
        code = 2;
    }
    let ran = sh.runs.load(Relaxed);
    if code == 0 && (ran as u64) < runs / 20 {
        eprintln!("ERROR only {ran} of {runs} runs were completed");
        code = 2;
    }
    evidence(&sh, prop, tier, base, base_p, runs, t0, nv, &note, thorough);
    if code == 0 {
        println!("held: {} on {ran} simulated runs ({:.1} s)", prop.name(), t0.elapsed().as_secs_f64());
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(sh: &Shared, prop: Prop, tier: &str, base: u64, base_p: u64, runs: u64, t0: Instant, nv: u64, note: &str, big: bool) {
    let wall = t0.elapsed().as_secs_f64();
    let ran = sh.runs.load(Relaxed);
    let kv = sh.kv.lock().unwrap();
    let g = |k: &str| kv.get(k).copied().unwrap_or(0);
    let mut s = String::new();
    let rule = match prop {
        Prop::C01 => "a layer ran and every attribute type was queried and compared with the model",
        Prop::C02 => "at least one find, rendering or step was compared with the model",
        Prop::C03 => "at least one selection step was executed and compared with the model",
        Prop::C04 => "a line and a twin with the same layers in another order were compared",
        Prop::C05 => "at least one preemption inside an operation",
        Prop::C06 => "a shipped resolver was applied at least twice",
        Prop::C07 => "at least one injected fault fired inside an operation",
        Prop::C08 => "at least one tracked value was handed to the library",
        Prop::C09 => "at least one rendering into a faulty sink",
        Prop::C10 => "at least one layer or read executed under the perturbed environment and compared",
        Prop::C11 => "at least one line created and its tokens and positions checked",
        Prop::C12 => "at least one misuse of a selection attempted",
    };
    let mut samples = vec![];
    for i in 0..3u64 {
        samples.push(js(&describe(&generate(prop, seed_of(base_p, i * 7), big), 1800)));
    }
    write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"wall_s\": {:.2},\n \"violations\": {},\n",
        js(&prop.name()), js(tier), base, wall, nv
    )
    .unwrap();
    write!(
        s,
        " \"coverage\": {{\n  \"evaluations\": {ran},\n  \"runs_planned\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        sh.hashes.lock().unwrap().len(),
        js(&format!("One evaluation = one simulated run: callers, operations, data, schedule and faults all drawn from one seed. Non-trivial: {rule}. Distinct: by a hash over every scheduling decision and every operation's result."))
    )
    .unwrap();
    write!(
        s,
        "  \"seeds\": \"run i uses seed mix(mix(mix({base},property),0x5EED),i), i in 0..{runs}\",\n  \"runs_per_hour\": {:.0},\n  \"distinct_schedules\": {},\n  \"basic_block_edges_reached\": {},\n  \"basic_block_edges_instrumented\": {},\n",
        ran as f64 / wall.max(0.001) * 3600.0,
        sh.scheds.lock().unwrap().len(),
        sh.edges.lock().unwrap().len(),
        sh.edges_total.load(Relaxed)
    )
    .unwrap();
    write!(
        s,
        "  \"simulated_time\": {},\n  \"simulated_steps\": {},\n",
        js("the code under test has no timers; simulated progress is counted in preemption points (basic-block edges, allocations, callbacks, operation boundaries)"),
        g("points")
    )
    .unwrap();
    write!(s, "  \"faults_injected\": {{").unwrap();
    let fk: Vec<&String> = kv.keys().filter(|k| k.starts_with("fault_") || k.starts_with("sink_") || k.starts_with("misuse_")).collect();
    write!(s, "{}", fk.iter().map(|k| format!("{}: {}", js(k), kv[*k])).collect::<Vec<_>>().join(", ")).unwrap();
    write!(s, "}},\n  \"preemptions\": {{").unwrap();
    let fk: Vec<&String> = kv.keys().filter(|k| k.starts_with("switch_")).collect();
    write!(s, "{}", fk.iter().map(|k| format!("{}: {}", js(k), kv[*k])).collect::<Vec<_>>().join(", ")).unwrap();
    write!(s, "}},\n  \"environment_seams_reached\": {{").unwrap();
    let fk: Vec<&String> = kv.keys().filter(|k| k.starts_with("seam_")).collect();
    write!(s, "{}", fk.iter().map(|k| format!("{}: {}", js(k), kv[*k])).collect::<Vec<_>>().join(", ")).unwrap();
    write!(s, "}},\n  \"work\": {{").unwrap();
    let fk: Vec<&String> = kv
        .keys()
        .filter(|k| !["fault_", "sink_", "misuse_", "switch_", "seam_"].iter().any(|p| k.starts_with(p)) && *k != "points")
        .collect();
    write!(s, "{}", fk.iter().map(|k| format!("{}: {}", js(k), kv[*k])).collect::<Vec<_>>().join(", ")).unwrap();
    write!(s, "}},\n  \"real_code\": {},\n  \"stubs\": {},\n", 
        js("layered-nlp, layered-amount, layered-clauses, layered-part-of-speech and all their dependencies, compiled from /repo's working tree; std collections, Rc/Arc and threads"),
        js("user-side callbacks (resolvers, matchers, measure functions, attribute values), output sinks, allocator failures and memory placement, hash-key source, clock, sleep, environment variables, program arguments, files, process and parent id, processor count, terminal and current directory are the simulator's")).unwrap();
    write!(s, "  \"samples\": [{}]\n }},\n", samples.join(", ")).unwrap();
    let mut asm = vec![
        "sampled, not exhaustive: the property held on every run executed".to_string(),
        "preemption points lie in the four crates under test and in the generic code instantiated for the workload, not inside other dependencies".to_string(),
    ];
    if !note.is_empty() {
        asm.push(note.to_string());
    }
    writeln!(s, " \"assumptions\": [{}]\n}}", asm.iter().map(|a| js(a)).collect::<Vec<_>>().join(", ")).unwrap();
    let d = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&d).ok();
    std::fs::write(format!("{d}/{}.json", prop.name()), s).expect("evidence file");
    let _ = sink_name;
}

// ------------------------------------------------------------------ determinism

/// Every seed several times, in different processes, at different worker counts and in
/// different batches; everything recorded must be identical.
pub fn selftest(n: u64) -> i32 {
    let mut total = 0;
    let far = Instant::now() + Duration::from_secs(3600);
    for prop in PROPS {
        let base = mix(77, prop as u64);
        let mut bad = 0;
        let cuts = groups(n, base);
        let mut logs = vec![];
        for (size, j) in [(1, 8), (n, 1), (17, 3), (60, 16)] {
            let bs = chunks(&cuts, size, base);
            let sh = Shared::new(true);
            search(&sh, prop, false, base, &bs, j, far);
            logs.push(sh.all.lock().unwrap().clone().unwrap());
            for e in sh.errors.lock().unwrap().iter() {
                println!("{}: {e}", prop.name());
                bad += 1;
            }
            for v in sh.viol.lock().unwrap().iter() {
                println!("{}: {v:?}", prop.name());
                bad += 1;
            }
        }
        for l in &logs[1..] {
            for (k, v) in &logs[0] {
                if l.get(k) != Some(v) {
                    println!("{} run {k}:\n  {v}\n  {:?}", prop.name(), l.get(k));
                    bad += 1;
                }
            }
        }
        println!("{}: {} seeds x 4 executions, {} differences", prop.name(), logs[0].len(), bad);
        total += bad;
    }
    (total > 0) as i32
}
