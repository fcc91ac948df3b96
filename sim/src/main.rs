mod audit;
mod disk;
mod driver;
mod exec;
mod gen;
mod hooks;
mod maps;
mod prog;
mod rng;
mod shrink;
mod strip;

use exec::{run_prog, RunOut, Violation};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub const SMALL: bool = cfg!(feature = "small");
/// file buffers in chunks of 512 bytes
pub const TINY: bool = cfg!(siamesedb_small_chunks);
/// bytes in a chunk of a file buffer
pub const CHUNK: u32 = if TINY { 512 } else { 128 * 1024 };
/// seconds of processor time of one run; the longest honest runs take less than two (S03)
pub const CPU_LIMIT: i64 = 40;

#[repr(C)]
struct Timeval {
    s: i64,
    us: i64,
}
#[repr(C)]
struct Itimerval {
    interval: Timeval,
    value: Timeval,
}
extern "C" {
    fn setitimer(which: i32, new: *const Itimerval, old: *mut Itimerval) -> i32;
    fn mallopt(what: i32, v: i32) -> i32;
    fn setrlimit(what: i32, r: *const [u64; 2]) -> i32;
}
/// the process dies by SIGPROF when a run uses this much processor time
pub fn watchdog() {
    let t = Itimerval {
        interval: Timeval { s: 0, us: 0 },
        value: Timeval { s: CPU_LIMIT, us: 0 },
    };
    unsafe {
        setitimer(2, &t, std::ptr::null_mut());
    }
}
fn limits() {
    unsafe {
        // keep memory instead of giving it back page by page: only speed
        mallopt(-3, 32 << 20);
        mallopt(-1, 1 << 30);
        mallopt(-8, 1);
        setrlimit(9, &[3 << 30, 3 << 30]); // address space
        setrlimit(4, &[0, 0]); // no core files
    }
}

/// the operations the property speaks about did happen
pub fn nontrivial(prop: &str, o: &RunOut) -> bool {
    let h = |k: &str| o.st.oracle.get(k).copied().unwrap_or(0) > 0;
    let fired = |f: &dyn Fn(&str) -> bool| o.counters.fired.iter().any(|(k, n)| *n > 0 && f(k));
    let hard = || fired(&|k| ["eio", "enospc", "stuck", "full", "emfile", "eacces"].iter().any(|p| k.starts_with(p)));
    match prop {
        "A01" | "A05" | "A06" => h("read") && h("write"),
        "A02" => h("iteration") && h("write"),
        "A03" => h("bulk-read") && h("write"),
        "A04" => h("reopen") && h("full-read"),
        "D01" | "D02" | "D03" | "D04" => h("crash-recovery"),
        "D05" => h("files-unchanged"),
        "F01" | "F02" | "F03" | "F05" | "F06" => hard(),
        "F04" => fired(&|k| ["eintr", "short", "wb"].iter().any(|p| k.starts_with(p))),
        "S01" => h("structure"),
        "S02" | "C03" => h("audit"),
        "S03" => h("growth-bound"),
        "C01" => h("twin"),
        "C02" => h("refusal"),
        "C04" => h("file-vs-memory"),
        _ => false,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "A01" | "A05" | "A06" => "seeded random programs over the public API on the simulated disk (swarm-weighted operations, buffer configurations, reopen schedule, harmless I/O disturbances); non-trivial: at least one write and one judged read; distinct: different system call traces",
        "A02" => "seeded random programs; non-trivial: at least one write and one judged iteration; distinct: different system call traces",
        "A03" => "seeded random programs with bulk operations; non-trivial: at least one write and one judged bulk read; distinct: different system call traces",
        "A04" => "seeded random programs with close/reopen schedules; non-trivial: an existing map was opened again and read completely; distinct: different system call traces",
        "D01" | "D02" | "D03" | "D04" => "seeded random programs with crash points placed on the system calls of a fault-free run; non-trivial: at least one crash image was recovered by the real code and compared; distinct: different system call traces",
        "D05" => "seeded random programs; non-trivial: file bytes were compared around at least one read-only operation on a settled map; distinct: different system call traces",
        "F01" | "F02" | "F03" | "F05" | "F06" => "seeded random programs with I/O errors placed on system calls of a fault-free run; non-trivial: at least one hard I/O error really fired; distinct: different system call traces",
        "F04" => "seeded random programs with short and interrupted transfers; non-trivial: at least one such disturbance really fired; distinct: different system call traces",
        "S01" => "seeded random programs; non-trivial: at least one structure inspection was judged; distinct: different system call traces",
        "S02" | "C03" => "seeded random programs; non-trivial: at least one byte-level audit of settled files; distinct: different system call traces",
        "S03" => "seeded churn programs repeating one cycle; non-trivial: file sizes compared after the warm-up; distinct: different system call traces",
        "C01" => "seeded random programs run under two buffer configurations; non-trivial: both runs completed and were compared; distinct: different system call traces",
        "C02" => "seeded random programs with refused openings; non-trivial: at least one refusal judged; distinct: different system call traces",
        "C04" => "seeded random programs run on the file and the memory database; non-trivial: at least one answer compared; distinct: different system call traces",
        _ => "",
    }
}

fn focus(prop: &str) -> &'static str {
    gen::ALL.iter().find(|p| **p == prop).copied().unwrap_or("")
}

/// the program of a run; `dry`: may execute it without faults first
pub fn program(prop: &str, seed: u64, pools: &gen::Pools) -> Result<prog::Prog, (prog::Prog, RunOut)> {
    let mut p = gen::skeleton(prop, seed, SMALL, pools);
    if gen::needs_dry_run(prop, seed) {
        let twin = p.twin.take();
        let o = run_prog(&p, false, focus(prop));
        if o.viol.is_some() {
            return Err((p, o));
        }
        p.twin = twin;
        gen::place(prop, &mut p, &o.calls, seed);
    }
    Ok(p)
}

/// in this process: does the violation speak about the property?
fn attributed(prop: &str, p: &prog::Prog, v: &Violation) -> bool {
    match strip::verdict(prop, p, &strip::tags_of(v), &v.kind, v.op) {
        strip::Verdict::Mine => true,
        strip::Verdict::Foreign => false,
        strip::Verdict::Unless(qs) => !qs.iter().any(|q| {
            watchdog();
            run_prog(q, false, focus(prop)).viol.is_some()
        }),
    }
}

fn worker(a: &[String]) {
    let prop = a[0].as_str();
    let (first, stride, count, base): (u64, u64, u64, u64) =
        (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a[5].parse().unwrap());
    let outfile = &a[6];
    let pools = gen::Pools::new();
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |k: &str, n: u64| *c.entry(k.to_string()).or_insert(0) += n;
    let mut traces: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut i = first;
    let mut max_us = 0;
    let out = std::io::stdout();
    while i < count {
        if std::time::Instant::now() > deadline {
            add("stopped_by_deadline", 1);
            break;
        }
        let seed = run_seed(base, i);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "@ {}", i);
            let _ = o.flush();
        }
        watchdog();
        let t0 = std::time::Instant::now();
        let (p, o) = match program(prop, seed, &pools) {
            Ok(p) => {
                watchdog();
                let o = run_prog(&p, false, focus(prop));
                (p, o)
            }
            Err(x) => x,
        };
        let us = t0.elapsed().as_micros() as u64;
        if let Some(u) = &o.unsupported {
            println!("U {} {}", i, u);
            std::process::exit(2);
        }
        add("runs", 1);
        add("us", us);
        add("ops", o.st.ops);
        add("skipped_ops", o.st.skipped);
        if o.st.aside > 0 {
            add("set_aside", o.st.aside);
            println!("X {} {}", i, one_line(o.st.aside_msg.as_deref().unwrap_or("")));
        }
        let c0 = max_us;
        max_us = c0.max(us);
        add("sim_ns", o.counters.sim_ns);
        add("faults_planned", o.counters.planned);
        add("crash_images:process-kill", o.counters.crashes_kill);
        add("crash_images:power-loss", o.counters.crashes_power);
        add("crash_images:inside-an-operation", o.counters.crashes_mid_op);
        add("power_loss_sectors:lost", o.counters.pl.lost);
        add("power_loss_sectors:kept", o.counters.pl.kept);
        add("power_loss_sectors:torn", o.counters.pl.torn);
        add("power_loss_sectors:files_gone", o.counters.pl.files_gone);
        for (k, n) in &o.counters.calls {
            add(&format!("calls:{}", k), *n);
        }
        for (k, n) in &o.counters.fired {
            add(&format!("fired:{}", k), *n);
        }
        for (k, n) in &o.st.oracle {
            add(&format!("oracle:{}", k), *n);
        }
        if nontrivial(prop, &o) {
            add("nontrivial", 1);
            traces.insert(o.trace);
        }
        states.extend(o.st.states.iter());
        match &o.viol {
            Some(v) => {
                if attributed(prop, &p, v) {
                    println!("V {} {}", i, one_line(&format!("{}: {}", v.kind, v.msg)));
                } else {
                    add("foreign", 1);
                    println!("X {} {}", i, one_line(&format!("{} {:?}: {}", v.kind, strip::tags_of(v), v.msg)));
                }
            }
            None => {
                if i / stride % 40 == 7 {
                    watchdog();
                    let b = run_prog(&p, false, focus(prop));
                    add("determinism:reruns", 1);
                    if b.trace != o.trace || b.st.result_hash != o.st.result_hash || b.viol.is_some() {
                        add("determinism:diverged", 1);
                        println!("N {}", i);
                    }
                }
            }
        }
        i += stride;
    }
    add(&format!("max_us:{}", first), max_us);
    let mut t = String::new();
    for (k, n) in &c {
        t.push_str(&format!("{} {}\n", k, n));
    }
    std::fs::write(outfile, t).unwrap();
    let b = |s: &HashSet<u64>| s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    std::fs::write(format!("{}.traces", outfile), b(&traces)).unwrap();
    std::fs::write(format!("{}.states", outfile), b(&states)).unwrap();
    println!("E");
}

pub fn run_seed(base: u64, i: u64) -> u64 {
    rng::mix(base, i)
}
pub fn one_line(s: &str) -> String {
    s.replace(['\n', '\r'], " ")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    exec::quiet_panics();
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("exec") => {
            // exec FILE PROP [log]: one line about what happens
            limits();
            watchdog();
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let p = match prog::Prog::parse(&t) {
                Ok(p) => p,
                Err(e) => {
                    eprintln!("bad program: {}", e);
                    std::process::exit(2);
                }
            };
            let o = run_prog(&p, a.len() > 4, a.get(3).map_or("", |s| focus(s)));
            if let Some(u) = &o.unsupported {
                println!("U {}", u);
                std::process::exit(2);
            }
            match &o.viol {
                Some(v) => println!("V\t{}\t{}\t{}\t{:x}\t{}", v.kind, strip::tags_of(v).join(","), v.op, o.trace, one_line(&v.msg)),
                None => println!("OK\t{:x}\t{:x}", o.trace, o.st.result_hash),
            }
            0
        }
        Some("gen") => {
            limits();
            watchdog();
            let seed: u64 = match a[3].split_once(":") { Some((b, i)) => run_seed(b.parse().unwrap(), i.parse().unwrap()), None => a[3].parse().unwrap() };
            let pools = gen::Pools::new();
            let p = match program(&a[2], seed, &pools) {
                Ok(p) => p,
                Err((p, _)) => p,
            };
            print!("{}", p.text());
            0
        }
        Some("gen0") => {
            let seed: u64 = match a[3].split_once(":") { Some((b, i)) => run_seed(b.parse().unwrap(), i.parse().unwrap()), None => a[3].parse().unwrap() };
            print!("{}", gen::skeleton(&a[2], seed, SMALL, &gen::Pools::new()).text());
            0
        }
        Some("worker") => {
            limits();
            worker(&a[2..]);
            0
        }
        Some("check") => driver::check(&a[2..]),
        Some("min") => driver::min(&a[2..]),
        Some("replay") => driver::replay(&a[2..]),
        _ => {
            eprintln!("usage: sim exec|gen|gen0|worker|check|replay ...");
            2
        }
    };
    std::process::exit(r);
}
