//! One simulated run: plan -> reference histories -> the scheduled, fault-injected
//! execution -> verdict.
use crate::exec::*;
use crate::plan::*;
use crate::vals::*;
use simrt::{mix, Arm, OpCount, RunStats, Switch};
use std::sync::atomic::Ordering::Relaxed;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, fl: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[derive(Clone, Debug)]
pub struct RunSpec {
    pub prop: Prop,
    pub seed: u64,
    pub big: bool,
    /// operations kept (all when None)
    pub keep: Option<Vec<u32>>,
    /// faults, absolute (placed by the plan when None)
    pub faults: Option<Vec<(u32, Arm)>>,
    pub explicit: Option<Vec<Switch>>,
}

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub violations: Vec<Violation>,
    pub stats: RunStats,
    pub cnt: Counters,
    pub faults: Vec<(u32, Arm)>,
    pub faults_planned: u64,
    pub hash: u64,
    pub ops: u64,
    pub refs: u64,
    pub active: bool,
}

pub fn make_plan(s: &RunSpec) -> Plan {
    let mut p = generate(s.prop, s.seed, s.big);
    if let Some(k) = &s.keep {
        p.ops.retain(|o| k.contains(&o.id));
    }
    // what is left must still make sense
    let n = p.lines.len();
    let created: Vec<bool> =
        (0..n).map(|l| p.ops.iter().find(|o| o.line == l).map_or(false, |o| matches!(o.kind, OpK::Create))).collect();
    let published: Vec<bool> =
        (0..n).map(|l| p.ops.iter().any(|o| o.line == l && matches!(o.kind, OpK::Publish))).collect();
    p.ops.retain(|o| created[o.line] && (published[o.line] || !matches!(o.kind, OpK::SharedRead(_))));
    if let Some(e) = &s.explicit {
        p.sched.explicit = Some(e.clone());
    }
    p
}

// ------------------------------------------------------------------ references

pub struct RefOp {
    pub id: u32,
    pub hash: u64,
    pub text: String,
    pub cnt: OpCount,
    pub panicked: bool,
}
pub struct RefLine {
    /// how the process executing the line alone ended
    pub status: i32,
    pub msg: String,
    pub ops: Vec<RefOp>,
}

/// A process that has never called the library. For every line of every run it forks a
/// child that executes that line's history alone, with fresh resolvers and without
/// faults, in a fixed environment.
pub struct Zygote {
    to: i32,
    from: i32,
}

unsafe fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = write(fd, b.as_ptr(), b.len());
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
unsafe fn read_exact(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let mut k = 0;
    while k < n {
        let r = read(fd, v.as_mut_ptr().add(k), n - k);
        if r <= 0 {
            return None;
        }
        k += r as usize;
    }
    Some(v)
}
unsafe fn read_frame(fd: i32) -> Option<Vec<u8>> {
    let n = u64::from_le_bytes(read_exact(fd, 8)?.try_into().unwrap());
    read_exact(fd, n as usize)
}
unsafe fn write_frame(fd: i32, b: &[u8]) -> bool {
    write_all(fd, &(b.len() as u64).to_le_bytes()) && write_all(fd, b)
}

impl Zygote {
    /// An own program execution: it shares nothing with this process, not even arguments.
    pub fn start() -> Zygote {
        use std::os::fd::IntoRawFd;
        use std::process::{Command, Stdio};
        let mut c = Command::new("/proc/self/exe")
            .arg("zygote")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("reference process");
        let (to, from) = (c.stdin.take().unwrap().into_raw_fd(), c.stdout.take().unwrap().into_raw_fd());
        Zygote { to, from }
    }

    /// the reference process: requests on standard input, answers on standard output
    pub fn serve() -> i32 {
        unsafe {
            prctl(1, 9, 0, 0, 0); // die with the parent
            while let Some(req) = read_frame(0) {
                let mut p = [0i32; 2];
                if pipe(p.as_mut_ptr()) != 0 {
                    return 3;
                }
                let c = fork();
                if c < 0 {
                    return 3;
                }
                if c == 0 {
                    prctl(1, 9, 0, 0, 0);
                    simrt::FATAL_FD.store(p[1] as i64, Relaxed);
                    let blob = reference_child(&String::from_utf8(req).unwrap());
                    write_all(p[1], blob.as_bytes());
                    _exit(0);
                }
                close(p[1]);
                let mut out = vec![];
                let mut buf = [0u8; 65536];
                loop {
                    let n = read(p[0], buf.as_mut_ptr(), buf.len());
                    if n <= 0 {
                        break;
                    }
                    out.extend_from_slice(&buf[..n as usize]);
                }
                close(p[0]);
                let mut st = 0;
                waitpid(c, &mut st, 0);
                let mut f = (st as i64).to_le_bytes().to_vec();
                f.extend(out);
                if !write_frame(1, &f) {
                    return 0;
                }
            }
        }
        0
    }

    pub fn line(&self, s: &RunSpec, line: usize) -> RefLine {
        let keep = match &s.keep {
            None => "-".to_string(),
            Some(k) => k.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        };
        let req = format!("{} {} {} {} {}", s.prop.name(), s.seed, s.big as u8, line, keep);
        let f = unsafe {
            if !write_frame(self.to, req.as_bytes()) {
                simrt::fatal(3, "reference process gone");
            }
            match read_frame(self.from) {
                Some(f) => f,
                None => simrt::fatal(3, "reference process gone"),
            }
        };
        let status = i64::from_le_bytes(f[..8].try_into().unwrap()) as i32;
        let body = String::from_utf8_lossy(&f[8..]).to_string();
        let mut out = RefLine { status, msg: String::new(), ops: vec![] };
        if status != 0 {
            out.msg = body.lines().last().unwrap_or("").to_string();
            return out;
        }
        for rec in body.split('\u{1e}').filter(|r| !r.is_empty()) {
            let f: Vec<&str> = rec.splitn(7, '\u{1f}').collect();
            out.ops.push(RefOp {
                id: f[0].parse().unwrap(),
                hash: f[1].parse().unwrap(),
                cnt: OpCount {
                    callbacks: f[2].parse().unwrap(),
                    allocs: f[3].parse().unwrap(),
                    steps: f[4].parse().unwrap(),
                    fired: 0,
                },
                panicked: f[5] == "1",
                text: f[6].to_string(),
            });
        }
        out
    }
}

fn reference_child(req: &str) -> String {
    let f: Vec<&str> = req.split(' ').collect();
    let spec = RunSpec {
        prop: Prop::parse(f[0]).unwrap(),
        seed: f[1].parse().unwrap(),
        big: f[2] == "1",
        keep: if f[4] == "-" { None } else { Some(f[4].split(',').filter_map(|x| x.parse().ok()).collect()) },
        faults: None,
        explicit: None,
    };
    let line: usize = f[3].parse().unwrap();
    let plan = make_plan(&spec);
    simrt::set_environment(0x0123_4567_89ab_cdef, 1_700_000_000_000_000_000, 1000, 0);
    REENTER.store(plan.reenter, Relaxed);
    ledger_reset();
    let ex = Exec::new(&plan, None, 0);
    let mut out = String::new();
    for op in plan.ops.iter().filter(|o| o.line == line) {
        ex.run_op(op, Arm::None);
        let r = ex.res(op.id);
        out.push_str(&format!(
            "{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1f}{}\u{1e}",
            op.id, r.hash, r.cnt.callbacks, r.cnt.allocs, r.cnt.steps, r.panicked as u8,
            r.text.replace(['\u{1e}', '\u{1f}'], "?")
        ));
    }
    out
}

// ------------------------------------------------------------------ the run

pub fn describe_exit(st: i32) -> String {
    if st & 0x7f != 0 {
        format!("was killed by signal {}", st & 0x7f)
    } else {
        match (st >> 8) & 0xff {
            simrt_c if simrt_c == simrt::EXIT_NO_PROGRESS => "made no progress".into(),
            c if c == simrt::EXIT_DEADLOCK => "deadlocked".into(),
            c => format!("exited with {c}"),
        }
    }
}

pub fn execute(spec: &RunSpec, zy: &Zygote) -> RunOut {
    let plan = make_plan(spec);
    let mut out = RunOut { ops: plan.ops.len() as u64, ..Default::default() };
    let any_fault = plan.ops.iter().any(|o| o.fault.is_some());
    let need_ref = spec.prop.differential() || (any_fault && spec.faults.is_none());

    // every line's history alone
    let mut refs: Vec<Option<RefOp>> = Vec::new();
    let mut ref_bad: Vec<Violation> = vec![];
    refs.resize_with(plan.ops.iter().map(|o| o.id + 1).max().unwrap_or(0) as usize, || None);
    if need_ref {
        for l in 0..plan.lines.len() {
            if !plan.ops.iter().any(|o| o.line == l) {
                continue;
            }
            let r = zy.line(spec, l);
            out.refs += 1;
            if r.status != 0 {
                if (r.status >> 8) & 0xff == 3 && r.status & 0x7f == 0 {
                    simrt::fatal(3, &format!("reference failed: {}", r.msg));
                }
                ref_bad.push(Violation {
                    kind: "alone".into(),
                    msg: format!("line {l} executed alone in a fresh process {}: {}", describe_exit(r.status), r.msg),
                });
                continue;
            }
            for o in r.ops {
                let id = o.id as usize;
                refs[id] = Some(o);
            }
        }
    }
    if !ref_bad.is_empty() {
        out.violations = ref_bad;
        return out;
    }

    // where the faults strike
    let faults: Vec<(u32, Arm)> = match &spec.faults {
        Some(f) => f.clone(),
        None => plan
            .ops
            .iter()
            .filter_map(|o| {
                let (k, r) = o.fault?;
                let c = refs[o.id as usize].as_ref()?.cnt;
                match k {
                    FaultKind::Callback if c.callbacks > 0 => Some((o.id, Arm::CallbackPanic(r % c.callbacks))),
                    _ if c.allocs > 0 => Some((o.id, Arm::AllocFail(r % c.allocs))),
                    _ => None,
                }
            })
            .collect(),
    };
    out.faults_planned = faults.len() as u64;

    // the world
    if spec.prop == Prop::C10 {
        let e = plan.env;
        simrt::set_environment(e.0, e.1, e.2, e.3);
        simrt::set_placement(e.0);
    } else {
        simrt::set_placement(0);
        simrt::set_environment(0x0123_4567_89ab_cdef, 1_700_000_000_000_000_000, 1000, 0);
    }
    let n = plan.lines.iter().map(|l| l.create.inputs.len() as u64).max().unwrap_or(0);
    simrt::STEPS_MAX.store(simrt::STEP_LIMIT + 5_000 * n, Relaxed);
    REENTER.store(plan.reenter, Relaxed);
    EXTRACT_BAD.store(0, Relaxed);
    ledger_reset();
    let shared: Sh<Vec<Res>> =
        std::thread::scope(|s| s.spawn(|| Sh(simrt::in_lib(Arm::None, || plan.shared.iter().map(build_res).collect()).0.unwrap_or_default())).join()).unwrap_or_else(|_| Sh(vec![]));
    if shared.0.len() != plan.shared.len() {
        out.violations.push(Violation { kind: "panic".into(), msg: "building a resolver panicked".into() });
        return out;
    }
    let base = ledger_live();
    let ex = Exec::new(&plan, Some(shared.0), base);
    let mut last_task = vec![usize::MAX; plan.lines.len()];
    for o in &plan.ops {
        if last_task[o.line] != usize::MAX && last_task[o.line] != o.task {
            ex.c().handovers += 1;
        }
        last_task[o.line] = o.task;
    }
    let warm = plan.warm;
    let warm_done = std::sync::atomic::AtomicBool::new(warm.0 == 0);
    let stats = simrt::run_tasks(&plan.sched, plan.n_tasks, |t| {
        if warm.0 > 0 && t == 0 {
            REENTER.store(false, Relaxed);
            let r = simrt::unscheduled(|| warm_up(warm.0, ex.shared.as_ref().and_then(|s| s.get(warm.1)).map(|s| (s, res_ty(&plan.shared[warm.1])))));
            REENTER.store(plan.reenter, Relaxed);
            if let Err(e) = r {
                ex.violate("history", format!("a small line failed after many others: {e}"));
            }
            warm_done.store(true, Relaxed);
        }
        simrt::wait_until(|| warm_done.load(Relaxed));
        for op in plan.ops.iter().filter(|o| o.task == t) {
            simrt::op_begin(op.id);
            simrt::wait_until(|| ex.ready(op));
            let arm = faults.iter().find(|f| f.0 == op.id).map_or(Arm::None, |f| f.1);
            ex.run_op(op, arm);
        }
    });

    // --- over the recorded history
    if spec.prop.differential() {
        for op in &plan.ops {
            let (Some(want), got) = (&refs[op.id as usize], ex.res(op.id)) else { continue };
            if want.panicked && matches!(spec.prop, Prop::C07 | Prop::C09) {
                ex.violate("panic", format!("op {}: panicked by itself even when executed alone", op.id));
            }
            if want.hash != got.hash {
                let k = format!("{:?}", op.kind);
                ex.violate(
                    "differs",
                    format!(
                        "op {} ({} of line {} by caller {}, {} attempt(s)): alone it gives …{}… here it gave …{}…",
                        op.id,
                        k.chars().take(160).collect::<String>(),
                        op.line,
                        op.task,
                        got.attempts.max(1),
                        want.text.chars().take(400).collect::<String>(),
                        got.text.chars().take(400).collect::<String>()
                    ),
                );
            }
        }
    }
    if spec.prop == Prop::C04 {
        ex.twins();
    }
    let rb = REENTER_BAD.load(Relaxed);
    if rb > 0 && matches!(spec.prop, Prop::C05 | Prop::C07 | Prop::C11) {
        ex.violate("reentrant", format!("{rb} uses of the library from inside a callback gave wrong results"));
    }
    let mut h = stats.hash;
    for op in &plan.ops {
        let r = ex.res(op.id);
        h = mix(h, r.hash);
        h = mix(h, r.attempts as u64);
    }
    let mut violations = std::mem::take(ex.violations());
    out.cnt = ex.c().clone();
    out.cnt.values = ledger_made() as u64;
    drop(ex);
    if spec.prop == Prop::C08 {
        let eb = EXTRACT_BAD.swap(0, Relaxed);
        if eb > 0 {
            violations.push(Violation { kind: "extract".into(), msg: format!("{eb} prepared attributes did not give their value back") });
        }
        if ledger_bad() > 0 {
            violations.push(Violation {
                kind: "ledger".into(),
                msg: format!("{} times a value was dropped twice, or used after it was dropped", ledger_bad()),
            });
        }
        if ledger_live() > 0 {
            violations.push(Violation {
                kind: "leak".into(),
                msg: format!("{} of {} attribute values are still alive after everything is gone", ledger_live(), ledger_made()),
            });
        }
    } else if spec.prop == Prop::C01 && ledger_bad() > 0 {
        violations.push(Violation { kind: "ledger".into(), msg: "a reported value is not alive".into() });
    }
    let c = &out.cnt;
    out.active = match spec.prop {
        Prop::C01 => c.queries > 0 && c.layers > 0,
        Prop::C02 => c.finds + c.renders + c.nav_steps > 0,
        Prop::C03 => c.nav_steps > 0,
        Prop::C04 => c.twins > 0 && c.layers > 1,
        Prop::C05 => stats.sw_bb + stats.sw_alloc + stats.sw_cb > 0,
        Prop::C06 => c.shipped > 1,
        Prop::C07 => c.faults[0] + c.faults[1] > 0,
        Prop::C08 => c.values > 0,
        Prop::C09 => c.sinks.iter().sum::<u64>() > 0,
        Prop::C10 => c.layers + c.queries + c.finds > 0,
        Prop::C11 => c.lines > 0,
        Prop::C12 => c.misuse.iter().sum::<u64>() > 0,
    };
    for v in &violations {
        h = mix(h, hash_str(&v.kind));
    }
    out.hash = h;
    out.violations = violations;
    out.stats = stats;
    out.faults = faults;
    out
}
