//! Seeds, workers, violations, minimisation, replay files and evidence.

use crate::core::{Log, Stop, StepBudget, VERBOSE};
use crate::json::{i, obj, s, V};
use crate::props::{find, Prop};
use crate::rng::{mix, Fnv, Rng};
use crate::shrink::Shrinker;
use crate::sys::{harness_error, Patience};
use crate::{cli, det};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

const HANG_S: u64 = 40;

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}
fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false)
}
fn home() -> PathBuf {
    PathBuf::from(std::env::var("MINSIM_HOME").unwrap_or_else(|_| "/verif".into()))
}

pub fn run_seed(seed: u64, p: &Prop, idx: u64) -> u64 {
    let mut f = Fnv::new();
    f.bytes(p.id.as_bytes());
    mix(mix(seed, f.0), idx)
}

fn quiet_panics() {
    if std::env::var_os("MINSIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// The verdict of one scenario: "" held, "~" out of scope, otherwise class and detail.
pub fn execute(p: &Prop, sc: &V, log: &mut Log) -> (String, String) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(sc, log)));
    match r {
        Ok(Ok(())) => (String::new(), String::new()),
        Ok(Err(Stop::Invalid)) => ("~".into(), String::new()),
        Ok(Err(Stop::Bad(c, d))) => (c.to_string(), d),
        Err(e) => {
            let m = if let Some(x) = e.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = e.downcast_ref::<&str>() {
                x.to_string()
            } else if let Some(x) = e.downcast_ref::<StepBudget>() {
                format!("no progress: {}", x.0)
            } else {
                "?".into()
            };
            ("panic".into(), format!("panicked: {m}"))
        }
    }
}

// ---------------------------------------------------------------- worker

#[derive(Default)]
struct Stats {
    evals: u64,
    invalid: u64,
    steps: u64,
    sim_ns: u64,
    nontrivial: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    fold: u64,
}

/// worker PROP seed thorough w W count cap_s dir
pub fn worker(id: &str, a: &[&str]) -> i32 {
    let p = find(id);
    quiet_panics();
    let n = |k: usize| a.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or_else(|| harness_error("bad worker arguments"));
    let (seed, thorough, w, of, count, cap) = (n(0), n(1) == 1, n(2), n(3), n(4), n(5));
    let dir = PathBuf::from(a[6]);
    if matches!(p.id, "D01" | "D02") && !det::hash_seam_works() {
        harness_error("hash keys are not under control");
    }
    if p.id == "D02" && !det::scheduling_points_work() {
        harness_error("threads are not interrupted where the scheduler says");
    }
    let prog = fs::File::create(dir.join(format!("progress{w}"))).unwrap_or_else(|e| harness_error(&e.to_string()));
    let mut st = Stats::default();
    let mut hashes: Vec<u8> = vec![];
    let mut samples: Vec<V> = vec![];
    let mut found: Vec<V> = vec![];
    let mut classes: HashSet<String> = HashSet::new();
    let start = Instant::now();
    let mut stop_at: Option<Instant> = None;
    let mut idx = w;
    let mut capped = false;
    use std::os::unix::fs::FileExt;
    while idx < count {
        if start.elapsed().as_secs() >= cap {
            capped = true;
            break;
        }
        if stop_at.is_some_and(|t| Instant::now() >= t) {
            break;
        }
        let _ = prog.write_all_at(&idx.to_le_bytes(), 0);
        let mut rng = Rng::new(run_seed(seed, p, idx));
        let sc = (p.gen)(&mut rng, thorough);
        let mut log = Log::new();
        let (class, detail) = execute(p, &sc, &mut log);
        if class == "~" {
            st.invalid += 1;
        } else {
            st.evals += 1;
            st.steps += log.steps;
            st.sim_ns += log.sim_ns;
            st.fold = st.fold.wrapping_add(mix(log.hash(), idx));
            for (k, v) in &log.faults {
                *st.faults.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &log.probes {
                *st.probes.entry(k.to_string()).or_insert(0) += v;
            }
            if log.nontrivial {
                st.nontrivial += 1;
                hashes.extend_from_slice(&log.hash().to_le_bytes());
                if samples.len() < 2 {
                    samples.push(obj(vec![("run", i(idx as usize)), ("scenario", sc.clone()), ("steps", i(log.steps as usize))]));
                }
            }
            if !class.is_empty() && classes.insert(class.clone()) {
                found.push(obj(vec![("idx", i(idx as usize)), ("class", V::S(class)), ("detail", V::S(detail)), ("scenario", sc)]));
                if stop_at.is_none() {
                    stop_at = Some(Instant::now() + Duration::from_secs(5));
                }
            }
        }
        idx += of;
    }
    let m = |x: &BTreeMap<String, u64>| V::O(x.iter().map(|(k, v)| (k.clone(), V::I(*v as i64))).collect());
    let out = obj(vec![
        ("evals", i(st.evals as usize)),
        ("invalid", i(st.invalid as usize)),
        ("steps", i(st.steps as usize)),
        ("sim_ms", i((st.sim_ns / 1_000_000) as usize)),
        ("nontrivial", i(st.nontrivial as usize)),
        ("faults", m(&st.faults)),
        ("probes", m(&st.probes)),
        ("fold", V::S(format!("{:016x}", st.fold))),
        ("capped", V::B(capped)),
        ("samples", V::A(samples)),
        ("found", V::A(found)),
    ]);
    if fs::write(dir.join(format!("hashes{w}")), &hashes).is_err() || fs::write(dir.join(format!("result{w}")), out.dump()).is_err() {
        harness_error("cannot write the results");
    }
    cli::leave();
    0
}

// ---------------------------------------------------------------- subprocess executor

/// Runs scenarios one per line; answers `class\tdetail\tloghash\tnontrivial`.
pub fn try_loop(id: &str) -> i32 {
    let p = find(id);
    quiet_panics();
    if std::env::var_os("MINSIM_TEXT").is_some() {
        VERBOSE.store(true, Ordering::Relaxed);
    }
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let (c, d, h, t) = match V::parse(&line) {
            None => ("~".to_string(), "unparsable".to_string(), 0, vec![]),
            Some(sc) => {
                let mut log = Log::new();
                let (c, d) = execute(p, &sc, &mut log);
                (c, d, log.hash(), log.text.take().unwrap_or_default())
            }
        };
        let ans = obj(vec![("class", V::S(c)), ("detail", V::S(d)), ("hash", V::S(format!("{h:016x}"))), ("log", V::A(t.into_iter().map(V::S).collect()))]);
        let out = std::io::stdout();
        let mut out = out.lock();
        if writeln!(out, "{}", ans.dump()).is_err() || out.flush().is_err() {
            break;
        }
    }
    cli::leave();
    0
}

struct Executor {
    id: &'static str,
    text: bool,
    child: Option<(Child, Receiver<String>)>,
}

impl Executor {
    fn new(id: &'static str, text: bool) -> Executor {
        Executor { id, text, child: None }
    }
    fn start(&mut self) {
        let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
        let mut c = Command::new(exe);
        c.args(["try", self.id]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        if self.text {
            c.env("MINSIM_TEXT", "1");
        }
        let mut ch = c.spawn().unwrap_or_else(|e| harness_error(&e.to_string()));
        let out = ch.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((ch, rx));
    }
    /// class, detail, hash, log
    fn run(&mut self, sc: &V, limit_s: u64) -> V {
        if self.child.is_none() {
            self.start();
        }
        let (ch, rx) = self.child.as_mut().unwrap();
        let sent = ch.stdin.as_mut().map(|x| writeln!(x, "{}", sc.dump()).and_then(|_| x.flush()).is_ok()).unwrap_or(false);
        let mut patience = Patience::new(ch.id());
        let got = loop {
            if !sent {
                break Err(std::sync::mpsc::RecvTimeoutError::Disconnected);
            }
            match rx.recv_timeout(Duration::from_secs(1)) {
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) if !patience.over(limit_s * 1000) => {}
                x => break x,
            }
        };
        match got {
            Ok(l) => V::parse(&l).unwrap_or(V::Null),
            Err(e) => {
                let hung = e == std::sync::mpsc::RecvTimeoutError::Timeout;
                let _ = ch.kill();
                let st = ch.wait();
                self.child = None;
                let (c, d) = if hung {
                    ("hang", format!("no answer within {limit_s} s"))
                } else {
                    ("crash", format!("the process running the library ended abnormally: {st:?}"))
                };
                obj(vec![("class", s(c)), ("detail", V::S(d)), ("hash", s("0")), ("log", V::A(vec![]))])
            }
        }
    }
}

impl Drop for Executor {
    fn drop(&mut self) {
        if let Some((mut ch, _)) = self.child.take() {
            drop(ch.stdin.take());
            let t = Instant::now();
            while t.elapsed().as_secs() < 3 {
                if matches!(ch.try_wait(), Ok(Some(_))) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
}

// ---------------------------------------------------------------- supervisor

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn prepare(p: &Prop) -> Scratch {
    let root = cli::prepare_scratch();
    let sc = Scratch(root.clone());
    *crate::sys::SCRATCH.lock().unwrap() = Some(root.clone());
    std::env::set_var("MINSIM_SCRATCH", &root);
    if p.cli {
        cli::install_binaries(&root);
        std::env::remove_var("MINSIM_UNPRIV");
        if cli::can_drop_privileges(&root) {
            std::env::set_var("MINSIM_UNPRIV", "1");
        }
    }
    sc
}

struct Outcome {
    results: Vec<V>,
    hashes: Vec<u64>,
    found: Vec<V>,
}

fn workers() -> u64 {
    std::env::var("MINSIM_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 16))
}

fn campaign(p: &'static Prop, seed: u64, thorough: bool, count: u64, cap: u64, of: u64, root: &Path) -> Outcome {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
    let dir = root.join(format!("c{of}-{}", rand_name()));
    if let Err(e) = fs::create_dir_all(&dir) {
        harness_error(&e.to_string());
    }
    let spawn = |w: u64| {
        Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), if thorough { "1" } else { "0" }, &w.to_string(), &of.to_string(), &count.to_string(), &cap.to_string()])
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| harness_error(&e.to_string()))
    };
    struct W {
        child: Child,
        last: u64,
        since: Patience,
        done: bool,
        suspect: Option<(u64, &'static str)>,
    }
    let mut ws: Vec<W> = (0..of).map(|w| {
        let child = spawn(w);
        W { since: Patience::new(child.id()), child, last: u64::MAX, done: false, suspect: None }
    }).collect();
    let prog = |w: usize| fs::read(dir.join(format!("progress{w}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let mut grace: Option<Instant> = None;
    loop {
        let mut alive = false;
        for (k, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.success() {
                        if fs::read_to_string(dir.join(format!("result{k}"))).map(|t| !t.contains("\"found\":[]")).unwrap_or(false) && grace.is_none() {
                            grace = Some(Instant::now() + Duration::from_secs(10));
                        }
                    } else if st.code() == Some(2) {
                        harness_error("a worker failed");
                    } else {
                        w.suspect = Some((prog(k).unwrap_or(k as u64), "crash"));
                    }
                    continue;
                }
                Ok(None) => {}
                Err(e) => harness_error(&e.to_string()),
            }
            alive = true;
            let at = prog(k).unwrap_or(u64::MAX);
            if at != w.last {
                w.last = at;
                w.since = Patience::new(w.child.id());
            } else if w.since.over(HANG_S * 1000) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                w.suspect = Some((at, "hang"));
            }
            if grace.is_some_and(|t| Instant::now() >= t) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut o = Outcome { results: vec![], hashes: vec![], found: vec![] };
    for (k, w) in ws.iter().enumerate() {
        if let Some((idx, what)) = w.suspect {
            if idx == u64::MAX {
                harness_error("a worker never started");
            }
            // was it the scenario, or the machine?
            let sc = (p.gen)(&mut Rng::new(run_seed(seed, p, idx)), thorough);
            let ans = Executor::new(p.id, false).run(&sc, HANG_S);
            let c = ans.get("class").str().to_string();
            if c.is_empty() || c == "~" {
                harness_error(&format!("a worker ended with a {what} at run {idx} that does not repeat"));
            }
            o.found.push(obj(vec![("idx", i(idx as usize)), ("class", V::S(c)), ("detail", ans.get("detail").clone()), ("scenario", sc)]));
            continue;
        }
        match fs::read_to_string(dir.join(format!("result{k}"))).ok().and_then(|t| V::parse(&t)) {
            Some(r) => {
                o.found.extend(r.get("found").arr().iter().cloned());
                o.results.push(r);
                let b = fs::read(dir.join(format!("hashes{k}"))).unwrap_or_default();
                o.hashes.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
            }
            None if grace.is_some() => {}
            None => harness_error("a worker left no result"),
        }
    }
    let _ = fs::remove_dir_all(&dir);
    o.found.sort_by_key(|f| f.get("idx").int());
    o
}

fn rand_name() -> String {
    use std::sync::atomic::AtomicU64;
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed).to_string()
}

fn sum(rs: &[V], k: &str) -> u64 {
    rs.iter().map(|r| r.get(k).int() as u64).sum()
}
fn sum_map(rs: &[V], k: &str) -> V {
    let mut m: BTreeMap<String, i64> = BTreeMap::new();
    for r in rs {
        if let V::O(o) = r.get(k) {
            for (n, v) in o {
                *m.entry(n.clone()).or_insert(0) += v.int();
            }
        }
    }
    V::O(m.into_iter().map(|(k, v)| (k, V::I(v))).collect())
}

/// Lines `open: property=<id> class=<class> scenario=<text the minimised scenario contains> -- <what fails>`
fn known(id: &str) -> Vec<(String, String, String)> {
    let t = fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: property=")?;
            let l = l.strip_prefix(id)?.strip_prefix(" class=")?;
            let (class, l) = l.split_once(" scenario=")?;
            let (sc, what) = l.split_once(" -- ")?;
            Some((class.to_string(), sc.to_string(), what.to_string()))
        })
        .collect()
}

pub fn check(id: &str) -> i32 {
    let p = find(id);
    let t0 = Instant::now();
    let (seed, thorough) = (env_seed(), env_thorough());
    let scratch = prepare(p);
    let count = std::env::var("MINSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = std::env::var("MINSIM_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 1500 } else { 120 });
    let of = workers();
    println!("minsim {id} seed={seed} tier={} runs={count} workers={of}", if thorough { "thorough" } else { "quick" });
    let o = campaign(p, seed, thorough, count, cap, of, &scratch.0);
    let search_s = t0.elapsed().as_secs_f64();
    let mut distinct = o.hashes.clone();
    distinct.sort_unstable();
    distinct.dedup();

    // violations: one report per class, the lowest run of each
    let known = known(id);
    let mut classes: HashSet<String> = HashSet::new();
    let mut violations = 0;
    let mut known_hit: HashSet<usize> = HashSet::new();
    let mut reported = vec![];
    let mut unrepeated: Vec<String> = vec![];
    for f in &o.found {
        let class = f.get("class").str().to_string();
        if !classes.insert(class.clone()) || classes.len() > 3 {
            continue;
        }
        let budget = if class == "hang" { 60 } else { 25 };
        let limit = if class == "hang" { 6 } else { HANG_S };
        let mut ex = Executor::new(p.id, false);
        let mut still = |c: &V| ex.run(c, limit).get("class").str() == class;
        let mut sh = Shrinker { still: &mut still, until: Instant::now() + Duration::from_secs(budget), tries: 0 };
        let start = f.get("scenario");
        let min = sh.run(start);
        let tries = sh.tries;
        drop(ex);
        // a fresh process, twice: the verdict and the log must be the same
        let idx = f.get("idx").int() as u64;
        let mut a = Executor::new(p.id, true).run(&min, HANG_S);
        let b = Executor::new(p.id, true).run(&min, HANG_S);
        let mut scenario = min;
        let mut history: Vec<u64> = vec![];
        if a.get("class").str() != class || a.get("hash") != b.get("hash") {
            scenario = start.clone();
            a = Executor::new(p.id, true).run(start, HANG_S);
            if a.get("class").str() != class {
                // what went on before in the same process may matter
                match with_history(p, seed, thorough, idx, of, &class) {
                    Some((h, x)) => (history, a) = (h, x),
                    None => {
                        unrepeated.push(format!("run {idx} gave {class} once and {:?} in a fresh process", a.get("class").str()));
                        continue;
                    }
                }
            }
        }
        let dump = scenario.dump();
        if let Some(k) = known.iter().position(|(c, sc, _)| *c == class && dump.contains(sc.as_str())) {
            known_hit.insert(k);
            continue;
        }
        violations += 1;
        let rep = obj(vec![
            ("property", s(id)),
            ("class", s(&class)),
            ("detail", a.get("detail").clone()),
            ("verif_seed", V::I(seed as i64)),
            ("tier", s(if thorough { "thorough" } else { "quick" })),
            ("run", f.get("idx").clone()),
            ("run_seed", V::S(run_seed(seed, p, f.get("idx").int() as u64).to_string())),
            ("minimiser_tries", i(tries as usize)),
            ("original_size", i(start.dump().len())),
            ("scenario", scenario),
            ("after_runs", V::A(history.iter().map(|x| V::I(*x as i64)).collect())),
            ("log_hash", a.get("hash").clone()),
            ("log", a.get("log").clone()),
        ]);
        let dir = home().join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{class}-{seed}.json"));
        if fs::write(&path, rep.dump()).is_err() {
            harness_error("cannot write the replay file");
        }
        println!("  run {} class {class}: {}", f.get("idx").int(), a.get("detail").str());
        println!("VIOLATION property={id} replay={}", path.display());
        reported.push(s(&format!("{class}: {}", a.get("detail").str())));
    }
    for u in &unrepeated {
        if violations == 0 {
            harness_error(u);
        }
        println!("  not repeated, not reported: {u}");
    }
    for (class, sc, what) in known.iter() {
        println!("KNOWN-FINDING: property={id} {what} (class {class}, scenario with {sc})");
    }

    let evals = sum(&o.results, "evals");
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = if search_s > 0.0 { (evals as f64 / search_s * 3600.0) as i64 } else { 0 };
    let mut samples: Vec<V> = vec![];
    for r in &o.results {
        for x in r.get("samples").arr() {
            if samples.len() < 3 && x.dump().len() < 6000 {
                samples.push(x.clone());
            }
        }
    }
    if samples.is_empty() {
        for r in &o.results {
            if let Some(x) = r.get("samples").arr().first() {
                samples.push(V::S(x.dump().chars().take(2000).collect()));
                break;
            }
        }
    }
    let cov = obj(vec![
        ("evaluations", i(evals as usize)),
        ("distinct_nontrivial", i(distinct.len())),
        ("rule", s(p.rule)),
        ("samples", V::A(samples)),
        ("nontrivial_runs", i(sum(&o.results, "nontrivial") as usize)),
        ("out_of_scope_scenarios", i(sum(&o.results, "invalid") as usize)),
        ("runs_planned", i(count as usize)),
        ("stopped_by_time_limit", V::B(o.results.iter().any(|r| r.get("capped").bool()))),
        ("runs_and_seeds_per_hour", V::I(per_hour)),
        ("simulated_steps", i(sum(&o.results, "steps") as usize)),
        (
            "simulated_time",
            if p.cli {
                s(&format!("{} s on the simulated clock (it stamps the files and passes with the system calls and between runs)", sum(&o.results, "sim_ms") / 1000))
            } else {
                s("none: the code under test reads no clock and sets no timer; progress is counted in simulated events (simulated_steps)")
            },
        ),
        ("faults_injected", sum_map(&o.results, "faults")),
        ("probes", sum_map(&o.results, "probes")),
        ("workers", i(of as usize)),
        ("real_components", s(p.real)),
        ("simulated_components", s(p.stub)),
        ("violations_seen", V::A(reported)),
    ]);
    let ev = obj(vec![
        ("property", s(id)),
        ("tier", s(if thorough { "thorough" } else { "quick" })),
        ("seed", V::I(seed as i64)),
        ("level", s("exploration")),
        ("coverage", cov),
        ("assumptions", V::A(p.assume.iter().map(|x| s(x)).collect())),
        ("wall_s", V::F(wall)),
        ("violations", i(violations)),
    ]);
    let _ = fs::create_dir_all(home().join("evidence"));
    if fs::write(home().join("evidence").join(format!("{id}.json")), ev.dump() + "\n").is_err() {
        harness_error("cannot write the evidence");
    }
    drop(scratch);
    println!("{id}: {evals} runs, {} distinct, {violations} violations, {wall:.1} s", distinct.len());
    if violations > 0 {
        1
    } else {
        0
    }
}

/// A verdict that needs the runs before it in the same process: the shortest tail (in powers of two)
/// of the worker's runs after which it shows again.
fn with_history(p: &'static Prop, seed: u64, thorough: bool, idx: u64, of: u64, class: &str) -> Option<(Vec<u64>, V)> {
    let until = Instant::now() + Duration::from_secs(90);
    let done = idx / of;
    let mut k = 1;
    while Instant::now() < until {
        let k_now = k.min(done);
        let h: Vec<u64> = (1..=k_now).rev().map(|n| idx - n * of).collect();
        if let Some(a) = run_history(p, seed, thorough, &h, idx, until) {
            if a.get("class").str() == class {
                return Some((h, a));
            }
        }
        if k_now == done {
            break;
        }
        k *= 4;
    }
    None
}

fn run_history(p: &'static Prop, seed: u64, thorough: bool, h: &[u64], idx: u64, until: Instant) -> Option<V> {
    let mut ex = Executor::new(p.id, true);
    let mut last = None;
    for n in h.iter().chain([&idx]) {
        if Instant::now() >= until {
            return None;
        }
        let sc = (p.gen)(&mut Rng::new(run_seed(seed, p, *n)), thorough);
        last = Some(ex.run(&sc, HANG_S));
    }
    last
}

pub fn replay(file: &str) -> i32 {
    let mut t = String::new();
    if fs::File::open(file).and_then(|mut f| f.read_to_string(&mut t)).is_err() {
        harness_error("cannot read the replay file");
    }
    let v = V::parse(&t).unwrap_or_else(|| harness_error("not a replay file"));
    let p = find(v.get("property").str());
    let _scratch = prepare(p);
    let before: Vec<u64> = v.get("after_runs").ints().iter().map(|x| *x as u64).collect();
    let a = if before.is_empty() {
        Executor::new(p.id, true).run(v.get("scenario"), HANG_S)
    } else {
        let until = Instant::now() + Duration::from_secs(600);
        run_history(p, v.get("verif_seed").int() as u64, v.get("tier").str() == "thorough", &before, v.get("run").int() as u64, until).unwrap_or(V::Null)
    };
    for l in a.get("log").arr() {
        println!("  {}", l.str());
    }
    let (c, h) = (a.get("class").str(), a.get("hash").str());
    if c == v.get("class").str() {
        let same = h == v.get("log_hash").str();
        println!("REPRODUCED property={} class={c} identical_log={same}: {}", p.id, a.get("detail").str());
        1
    } else {
        println!("NOT REPRODUCED property={} got {c:?} {}", p.id, a.get("detail").str());
        0
    }
}

pub fn show_one(id: &str, idx: u64) -> i32 {
    let p = find(id);
    let sc = (p.gen)(&mut Rng::new(run_seed(env_seed(), p, idx)), env_thorough());
    println!("{}", sc.dump());
    let _scratch = prepare(p);
    let a = Executor::new(p.id, true).run(&sc, HANG_S);
    for l in a.get("log").arr() {
        println!("  {}", l.str());
    }
    println!("{:?} {}", a.get("class").str(), a.get("detail").str());
    0
}

/// The same seeds with different numbers of processes, repeatedly: all logs must be identical.
pub fn selftest(id: &str, n: u64) -> i32 {
    let p = find(id);
    let scratch = prepare(p);
    let mut folds = vec![];
    for of in [8, 3, 13, 1, 8, 16] {
        let o = campaign(p, env_seed(), env_thorough(), n, 3600, of, &scratch.0);
        let mut f = 0u64;
        for r in &o.results {
            f = f.wrapping_add(u64::from_str_radix(r.get("fold").str(), 16).unwrap_or(0));
        }
        folds.push((f, sum(&o.results, "evals"), sum(&o.results, "steps")));
    }
    drop(scratch);
    let ok = folds.iter().all(|x| *x == folds[0]);
    println!("selftest {id}: {n} seeds x 6 campaigns (8,3,13,1,8,16 processes): {} {:?}", if ok { "identical" } else { "DIFFERENT" }, folds[0]);
    if ok {
        0
    } else {
        println!("{folds:?}");
        1
    }
}
