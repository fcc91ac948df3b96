//! The batch: workers run seeds, the driver confirms, shrinks and reports what they find.
use crate::prog::Prog;
use crate::shrink::shrink;
use crate::strip::{verdict, Verdict};
use crate::{one_line, rule, run_seed};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// the variant that executes run i is VARIANTS[i % WORKERS]
const VARIANTS: [usize; WORKERS as usize] = [0, 1, 2, 1, 2, 0, 2, 0];
pub fn variant_of(i: u64) -> usize {
    VARIANTS[(i % WORKERS) as usize]
}

pub struct Bins {
    /// variant 0: as shipped; variant 1: small index nodes, debug assertions and overflow checks
    /// variant 2: small index nodes and small file buffer chunks, release
    path: [String; 3],
    scratch: String,
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok(String),
    Viol { kind: String, tags: Vec<String>, op: usize, trace: String, msg: String },
    Harness(String),
}

fn run_child(mut c: Child, secs: u64) -> (Option<i32>, Option<i32>, String) {
    use std::os::unix::process::ExitStatusExt;
    let mut o = c.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut s);
        let _ = tx.send(s);
    });
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let s = rx.recv().unwrap_or_default();
                return (st.code(), st.signal(), s);
            }
            _ => {
                if Instant::now() > end {
                    let _ = c.kill();
                    let _ = c.wait();
                    return (None, Some(27), String::new());
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

impl Bins {
    fn exec(&self, variant: usize, prop: &str, p: &Prog, n: u64) -> Outcome {
        let f = format!("{}/p{}.prog", self.scratch, n);
        std::fs::write(&f, p.text()).unwrap();
        let c = Command::new(&self.path[variant])
            .args(["exec", &f, prop])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let c = match c {
            Ok(c) => c,
            Err(e) => return Outcome::Harness(e.to_string()),
        };
        let (code, sig, out) = run_child(c, 60);
        match (code, sig) {
            (Some(0), _) => {
                let w: Vec<&str> = out.trim_end().split('\t').collect();
                match w.first() {
                    Some(&"OK") => Outcome::Ok(w.get(1).unwrap_or(&"").to_string()),
                    Some(&"V") if w.len() >= 6 => Outcome::Viol {
                        kind: w[1].into(),
                        tags: w[2].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
                        op: w[3].parse().unwrap_or(0),
                        trace: w[4].into(),
                        msg: w[5].into(),
                    },
                    _ => Outcome::Harness(format!("odd output {:?}", out)),
                }
            }
            (None, Some(s)) => Outcome::Viol {
                kind: if s == 27 || s == 24 { "hang".into() } else { "abort".into() },
                tags: vec![],
                op: usize::MAX,
                trace: "-".into(),
                msg: if s == 27 || s == 24 {
                    "an operation never ends".into()
                } else {
                    format!("the process was aborted (signal {})", s)
                },
            },
            (Some(c), _) => Outcome::Harness(format!("exit {} {}", c, out)),
            _ => Outcome::Harness("?".into()),
        }
    }
    /// fails, and the failure speaks about the property
    fn judge(&self, variant: usize, prop: &str, p: &Prog) -> Option<Outcome> {
        let o = self.exec(variant, prop, p, 0);
        if let Outcome::Viol { kind, tags, op, .. } = &o {
            match verdict(prop, p, tags, kind, *op) {
                Verdict::Mine => Some(o),
                Verdict::Foreign => None,
                Verdict::Unless(qs) => {
                    for q in &qs {
                        if !matches!(self.exec(variant, prop, q, 1), Outcome::Ok(_)) {
                            return None;
                        }
                    }
                    Some(o)
                }
            }
        } else {
            None
        }
    }
    fn gen(&self, variant: usize, prop: &str, seed: u64) -> Option<Prog> {
        for how in ["gen", "gen0"] {
            let c = Command::new(&self.path[variant])
                .args([how, prop, &seed.to_string()])
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .ok()?;
            let (code, _, out) = run_child(c, 60);
            if code == Some(0) {
                return Prog::parse(&out).ok();
            }
        }
        None
    }
}

enum Ev {
    Line(u64, String),
    End(u64, bool),
}

fn spawn(bins: &Bins, prop: &str, w: u64, first: u64, count: u64, base: u64, secs: u64, part: u64, tx: &Sender<Ev>) -> Child {
    let mut c = Command::new(&bins.path[variant_of(w)])
        .args([
            "worker",
            prop,
            &first.to_string(),
            &WORKERS.to_string(),
            &count.to_string(),
            &base.to_string(),
            &secs.to_string(),
            &format!("{}/w{}.{}", bins.scratch, w, part),
        ])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
    let o = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let mut ended = false;
        for l in BufReader::new(o).lines().map_while(|l| l.ok()) {
            if l == "E" {
                ended = true;
            }
            let _ = tx.send(Ev::Line(w, l));
        }
        let _ = tx.send(Ev::End(w, ended));
    });
    c
}

/// runs in the quick tier
fn quick_runs(prop: &str) -> u64 {
    crate::gen::budget(prop)
}

struct Found {
    i: u64,
    variant: usize,
    prog: Prog,
    out: Outcome,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    property: String,
    matches: String,
    text: String,
    replay: String,
}
fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=ID replay=FILE match="SUBSTRING" TEXT
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(2, " replay=");
            let property = it.next().unwrap_or("").to_string();
            let rest = it.next().unwrap_or("");
            let mut it = rest.splitn(2, " match=\"");
            let replay = it.next().unwrap_or("").to_string();
            let rest = it.next().unwrap_or("");
            let mut it = rest.splitn(2, "\" ");
            let matches = it.next().unwrap_or("").to_string();
            let text = it.next().unwrap_or("").to_string();
            v.push(Known { property, matches, text, replay });
        }
    }
    v
}

/// check PROP TIER SEED BIN0 BIN1 BIN2 VERIFDIR
pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let (prop, tier) = (a[0].as_str(), a[1].as_str());
    let base: u64 = a[2].parse().unwrap_or(1);
    let verif = &a[6];
    if !crate::gen::ALL.contains(&prop) {
        eprintln!("no such property {}", prop);
        return 2;
    }
    let scratch = format!("{}/simck-{}-{}", std::env::temp_dir().display(), prop, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let bins = Bins { path: [a[3].clone(), a[4].clone(), a[5].clone()], scratch: scratch.clone() };
    let r = check_in(prop, tier, base, verif, &bins, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

fn check_in(prop: &str, tier: &str, base: u64, verif: &str, bins: &Bins, t0: Instant) -> i32 {
    let quick = tier != "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let count = env("SIM_RUNS").unwrap_or(if quick { quick_runs(prop) } else { u64::MAX / 4 });
    let secs = env("SIM_SECS").unwrap_or(if quick { 300 } else { 1500 });
    println!("seed {} property {} tier {}: {} runs at most, {} s at most", base, prop, tier, count, secs);
    let knowns: Vec<Known> = known(&format!("{}/known-findings.txt", verif))
        .into_iter()
        .filter(|k| k.property == prop)
        .collect();
    for k in &knowns {
        let f = format!("{}/{}", verif, k.replay);
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let variant = header(&t, "variant").and_then(|s| s.parse().ok()).unwrap_or(0);
        if let Ok(p) = Prog::parse(&t) {
            if let Outcome::Viol { msg, .. } = bins.exec(variant, prop, &p, 2) {
                if msg.contains(&k.matches) {
                    println!("KNOWN-FINDING: property={} {}", prop, k.text);
                }
            }
        }
    }
    let listed = |msg: &str| knowns.iter().any(|k| msg.contains(&k.matches));

    let (tx, rx): (Sender<Ev>, Receiver<Ev>) = channel();
    let mut kids: BTreeMap<u64, Child> = BTreeMap::new();
    let mut at: BTreeMap<u64, u64> = BTreeMap::new();
    let mut parts: u64 = 0;
    for w in 0..WORKERS {
        kids.insert(w, spawn(bins, prop, w, w, count, base, secs, 0, &tx));
    }
    let mut found: Option<Found> = None;
    let mut foreign: u64 = 0;
    let mut foreign_msgs: Vec<String> = vec![];
    let mut deaths = 0u64;
    let mut confirming = Duration::ZERO;
    let mut unconfirmed: Vec<String> = vec![];
    let mut harness: Option<String> = None;
    let mut diverged: Vec<u64> = vec![];
    let mut known_hits = 0u64;
    let stop = Instant::now() + Duration::from_secs(secs + 120);
    while !kids.is_empty() && found.is_none() && harness.is_none() {
        let ev = match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(e) => e,
            Err(_) => {
                if Instant::now() > stop {
                    break;
                }
                continue;
            }
        };
        match ev {
            Ev::Line(w, l) => {
                let mut it = l.splitn(3, ' ');
                let c = it.next().unwrap_or("");
                let i: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let rest = it.next().unwrap_or("").to_string();
                match c {
                    "@" => {
                        at.insert(w, i);
                    }
                    "V" => {
                        let variant = variant_of(w);
                        match confirm(bins, prop, variant, base, i) {
                            Some(f) => {
                                if listed(&text_of(&f.out)) {
                                    known_hits += 1;
                                } else {
                                    found = Some(f);
                                }
                            }
                            None => unconfirmed.push(format!("{} {}", i, rest)),
                        }
                    }
                    "X" => {
                        foreign += 1;
                        if foreign_msgs.len() < 5 {
                            foreign_msgs.push(format!("{}: {}", i, rest));
                        }
                    }
                    "N" => diverged.push(i),
                    "U" => harness = Some(format!("system call outside the simulation: {}", rest)),
                    _ => (),
                }
            }
            Ev::End(w, clean) => {
                let mut k = kids.remove(&w).unwrap();
                let st = k.wait().ok();
                if clean {
                    continue;
                }
                use std::os::unix::process::ExitStatusExt;
                let i = at.get(&w).copied().unwrap_or(w);
                if let Some(c) = st.and_then(|s| s.code()) {
                    harness = Some(format!("worker exit {} at run {}", c, i));
                    break;
                }
                let sig = st.and_then(|s| s.signal()).unwrap_or(0);
                deaths += 1;
                let variant = variant_of(w);
                // hangs take long to confirm: some of them are enough
                let c0 = Instant::now();
                let r = if confirming < Duration::from_secs(160) { confirm(bins, prop, variant, base, i) } else { None };
                confirming += c0.elapsed();
                match r {
                    Some(f) => {
                        if listed(&text_of(&f.out)) {
                            known_hits += 1;
                        } else {
                            found = Some(f);
                        }
                    }
                    None => {
                        foreign += 1;
                        if foreign_msgs.len() < 5 {
                            foreign_msgs.push(format!("{}: worker died of signal {}", i, sig));
                        }
                    }
                }
                if found.is_none() && deaths < 40 {
                    let used = t0.elapsed().as_secs();
                    if used < secs {
                        parts += 1;
                        kids.insert(w, spawn(bins, prop, w, i + WORKERS, count, base, secs - used, parts, &tx));
                    }
                }
            }
        }
    }
    for (_, k) in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    if let Some(h) = harness {
        eprintln!("HARNESS ERROR: {}", h);
        return 2;
    }
    // confirmation failed although a worker saw it: it depends on what ran before in that process
    if found.is_none() && !unconfirmed.is_empty() {
        for u in &unconfirmed {
            println!("note: not reproduced in a process of its own: {}", u);
        }
    }
    let mut viol_lines = vec![];
    if let Some(f) = found {
        let (p, out, tries) = minimise(bins, prop, &f, quick);
        let dir = format!("{}/evidence/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.prog", dir, prop, f.i);
        let (kind, tags, op, trace, msg) = match &out {
            Outcome::Viol { kind, tags, op, trace, msg } => (kind.clone(), tags.join(","), *op, trace.clone(), msg.clone()),
            _ => unreachable!(),
        };
        let head = format!(
            "# property: {}\n# variant: {}\n# seed: {} run {}\n# kind: {}\n# tags: {}\n# trace: {}\n# violation: {}\n# minimised from {} to {} operations in {} executions\n",
            prop,
            f.variant,
            base,
            f.i,
            kind,
            tags,
            trace,
            one_line(&msg),
            f.prog.ops.len(),
            p.ops.len(),
            tries
        );
        let _ = op;
        let mut fh = std::fs::File::create(&path).unwrap();
        let _ = fh.write_all(head.as_bytes());
        let _ = fh.write_all(p.text().as_bytes());
        println!("run {} of seed {} ({} operations, variant {}): {}", f.i, base, f.prog.ops.len(), f.variant, text_of(&f.out));
        println!("minimised to {} operations: {}", p.ops.len(), msg);
        println!("VIOLATION property={} replay={}", prop, path);
        viol_lines.push(msg);
    }
    // ----- evidence
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    // (directories cannot be listed in this executable: opendir is part of the seam)
    for w in 0..WORKERS {
        for part in 0..=parts {
            let base = format!("{}/w{}.{}", bins.scratch, w, part);
            for (ext, s) in [("traces", &mut traces), ("states", &mut states)] {
                let b = std::fs::read(format!("{}.{}", base, ext)).unwrap_or_default();
                s.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
            }
            for l in std::fs::read_to_string(&base).unwrap_or_default().lines() {
                if let Some((k, v)) = l.rsplit_once(' ') {
                    *c.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let get = |k: &str| c.get(k).copied().unwrap_or(0);
    // runs of killed workers are known only by their number
    let runs = if viol_lines.is_empty() { get("runs") } else { get("runs").max(at.values().map(|i| i / WORKERS + 1).sum()) };
    let group = |pre: &str| {
        let v: Vec<String> = c
            .iter()
            .filter(|(k, _)| k.starts_with(pre))
            .map(|(k, n)| format!("{}: {}", js(&k[pre.len()..]), n))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let mut samples = vec![];
    for i in 0..3u64 {
        if let Some(p) = bins.gen(variant_of(i), prop, run_seed(base, i)) {
            let t = p.text();
            let short: String = t.chars().take(1500).collect();
            samples.push(js(&format!("run {} (variant {}):\n{}", i, variant_of(i), short)));
        }
    }
    let per_hour = if wall > 0.0 { runs as f64 * 3600.0 / wall } else { 0.0 };
    let j = format!(
        r#"{{
 "property": {}, "tier": {}, "seed": {}, "level": "exploration",
 "coverage": {{
  "evaluations": {}, "distinct_nontrivial": {}, "rule": {},
  "samples": [{}],
  "runs_per_hour": {:.0}, "seeds_per_hour": {:.0},
  "operations": {}, "simulated_io_seconds": {:.3},
  "faults_planned": {}, "faults_fired": {},
  "crash_images": {}, "power_loss_sectors": {},
  "oracle_verdicts": {}, "system_calls_simulated": {},
  "distinct_states": {}, "state_measure": "digests of crash images and final disk images, and shapes (node, free-list and entry counts) met in structure inspections and file audits",
  "distinct_interleaving_measure": "hash of the complete sequence of simulated system calls of a run (class, file offset or path, length)",
  "determinism": {},
  "longest_run_ms": {},
  "operations_skipped_as_inapplicable": {}, "violations_of_other_properties_met": {}, "worker_deaths": {}, "known_findings_met": {},
  "foreign_examples": [{}],
  "components_real": ["siamesedb (file database, memory database, bulk operations, buffers parameters)", "rabuf buffer cache", "Rust standard library file layer"],
  "components_simulated": ["the C library's file system calls (open, read, write, lseek, fsync, ftruncate, stat, mkdir, ...): in-memory disk with page-cache and durable state, faults, process kill and power loss"],
  "variants": ["shipped features, release", "feature small_node_slots, debug assertions and overflow checks", "feature small_node_slots and --cfg siamesedb_small_chunks (file buffer chunks of 512 bytes instead of 128 KiB), release"]
 }},
 "assumptions": ["power loss: a file's unsynced 512-byte sectors persist independently, old or new; a synced file's directory entry is durable; size grows no further than written data", "a failed fsync leaves the pages dirty", "one process, one thread per database (the types are neither Send nor Sync)"],
 "violations": [{}],
 "wall_s": {:.2}
}}
"#,
        js(prop),
        js(if quick { "quick" } else { "thorough" }),
        base,
        runs,
        traces.len(),
        js(rule(prop)),
        samples.join(", "),
        per_hour,
        per_hour,
        get("ops"),
        get("sim_ns") as f64 / 1e9,
        get("faults_planned"),
        group("fired:"),
        group("crash_images:"),
        group("power_loss_sectors:"),
        group("oracle:"),
        group("calls:"),
        states.len(),
        group("determinism:"),
        c.iter().filter(|(k, _)| k.starts_with("max_us:")).map(|x| *x.1).max().unwrap_or(0) / 1000,
        get("skipped_ops"),
        foreign,
        deaths,
        known_hits,
        foreign_msgs.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        viol_lines.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if std::fs::write(format!("{}/evidence/{}.json", verif, prop), j).is_err() {
        eprintln!("HARNESS ERROR: cannot write the evidence file");
        return 2;
    }
    println!(
        "{}: {} runs ({} distinct non-trivial), {} operations, {:.1} s of simulated I/O, {} faults fired, {} crash images, {} foreign, {} diverged, longest run {} ms, {:.1} s",
        prop,
        runs,
        traces.len(),
        get("ops"),
        get("sim_ns") as f64 / 1e9,
        c.iter().filter(|(k, _)| k.starts_with("fired:")).map(|x| *x.1).sum::<u64>(),
        get("crash_images:process-kill") + get("crash_images:power-loss"),
        foreign,
        diverged.len(),
        c.iter().filter(|(k, _)| k.starts_with("max_us:")).map(|x| *x.1).max().unwrap_or(0) / 1000,
        wall
    );
    for f in &foreign_msgs {
        println!("  foreign {}", f);
    }
    if !viol_lines.is_empty() {
        return 1;
    }
    if runs == 0 {
        eprintln!("HARNESS ERROR: nothing ran");
        return 2;
    }
    0
}

fn text_of(o: &Outcome) -> String {
    match o {
        Outcome::Viol { kind, msg, .. } => format!("{}: {}", kind, msg),
        x => format!("{:?}", x),
    }
}

fn confirm(bins: &Bins, prop: &str, variant: usize, base: u64, i: u64) -> Option<Found> {
    let prog = bins.gen(variant, prop, run_seed(base, i))?;
    let out = bins.judge(variant, prop, &prog)?;
    Some(Found { i, variant, prog, out })
}

fn minimise(bins: &Bins, prop: &str, f: &Found, quick: bool) -> (Prog, Outcome, u64) {
    let (kind0, tags0) = match &f.out {
        Outcome::Viol { kind, tags, .. } => (kind.clone(), tags.clone()),
        _ => unreachable!(),
    };
    let end = Instant::now() + Duration::from_secs(if quick { 60 } else { 240 });
    let mut tries = 0u64;
    let mut best = f.out.clone();
    // the failing operation ends the run: what follows is not needed
    let mut start = f.prog.clone();
    if let Outcome::Viol { op, .. } = &f.out {
        if *op < start.ops.len() && start.twin.is_none() {
            start.ops.truncate(*op + 1);
        }
    }
    match bins.judge(f.variant, prop, &start) {
        Some(o @ Outcome::Viol { .. }) => best = o,
        _ => start = f.prog.clone(),
    }
    let p = shrink(
        start,
        |q| {
            tries += 1;
            match bins.judge(f.variant, prop, q) {
                Some(o) => {
                    let same = matches!(&o, Outcome::Viol { kind, tags, .. } if *kind == kind0 && excl(tags) == excl(&tags0));
                    if same {
                        best = o;
                    }
                    same
                }
                None => false,
            }
        },
        || Instant::now() < end,
    );
    (p, best, tries)
}

fn excl(tags: &[String]) -> Vec<&String> {
    tags.iter().filter(|t| !t.starts_with('+')).collect()
}

fn header<'t>(t: &'t str, k: &str) -> Option<&'t str> {
    let pre = format!("# {}: ", k);
    t.lines().find_map(|l| l.strip_prefix(pre.as_str()))
}

/// replay FILE BIN0 BIN1 BIN2
pub fn replay(a: &[String]) -> i32 {
    let t = match std::fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let prop = header(&t, "property").unwrap_or("").to_string();
    let variant: usize = header(&t, "variant").and_then(|s| s.parse().ok()).unwrap_or(0);
    let want = (header(&t, "kind").unwrap_or("").to_string(), header(&t, "trace").unwrap_or("").to_string());
    let p = match Prog::parse(&t) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let scratch = format!("{}/simrp-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let bins = Bins { path: [a[1].clone(), a[2].clone(), a[3].clone()], scratch: scratch.clone() };
    let o = bins.judge(variant, &prop, &p);
    let _ = std::fs::remove_dir_all(&scratch);
    match o {
        Some(Outcome::Viol { kind, trace, msg, .. }) => {
            println!("{}: {}", kind, msg);
            println!(
                "{} (system call trace {}, recorded {})",
                if kind == want.0 && trace == want.1 { "reproduced exactly" } else { "fails, but not as recorded" },
                trace,
                want.1
            );
            println!("VIOLATION property={} replay={}", prop, a[0]);
            1
        }
        Some(x) => {
            eprintln!("{:?}", x);
            2
        }
        None => {
            println!("the recorded program no longer violates {}", prop);
            0
        }
    }
}

/// min FILE PROP VARIANT BIN0 BIN1 BIN2: shrink a failing program by hand
pub fn min(a: &[String]) -> i32 {
    let p = Prog::parse(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let scratch = format!("{}/simmin-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let bins = Bins { path: [a[3].clone(), a[4].clone(), a[5].clone()], scratch: scratch.clone() };
    let variant = a[2].parse().unwrap();
    let r = match bins.judge(variant, &a[1], &p) {
        Some(out) => {
            let f = Found { i: 0, variant, prog: p, out };
            let (q, o, n) = minimise(&bins, &a[1], &f, true);
            println!("# {}\n# {} executions\n{}", text_of(&o), n, q.text());
            1
        }
        None => 0,
    };
    let _ = std::fs::remove_dir_all(&scratch);
    r
}
