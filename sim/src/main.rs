//! lsim: deterministic simulation of layered-nlp with fault injection.
//!
//!   lsim check PROP            seeded search (VERIF_SEED, VERIF_TIER), evidence, replay file
//!   lsim replay FILE           re-execute a replay file; exit 1 when it reproduces
//!   lsim selftest [N]          every seed twice, in different processes and batches
//!   lsim show PROP SEED        the plan a seed stands for
//!   lsim worker / eval / zygote   internal
mod driver;
mod exec;
mod model;
mod plan;
mod run;
mod vals;

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

extern "C" {
    fn personality(p: u64) -> i32;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // same addresses in every process, where the system lets us
    unsafe {
        const NO_RANDOMIZE: u64 = 0x0040000;
        if std::env::var_os("LSIM_NO_REEXEC").is_none() && std::env::args_os().len() > 1 {
            let cur = personality(0xffff_ffff);
            if cur >= 0 && cur as u64 & NO_RANDOMIZE == 0 && personality(cur as u64 | NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("LSIM_NO_REEXEC", "1").exec();
                eprintln!("re-exec: {e}");
            }
        }
    }
    simrt::init();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["worker", prop, big, base, cuts] => driver::worker(prop, big, base, cuts),
        ["zygote"] => run::Zygote::serve(),
        ["eval", file, out] => driver::eval(file, out),
        ["check", prop] => driver::check(prop),
        ["replay", file] => driver::replay(file),
        ["selftest"] => driver::selftest(40),
        ["selftest", n] => driver::selftest(n.parse().unwrap_or(40)),
        ["show", prop, seed] => driver::show(prop, seed),
        _ => {
            eprintln!("usage: lsim check PROP | replay FILE | selftest [N] | show PROP SEED");
            2
        }
    };
    std::process::exit(code);
}
