mod exec;
mod gens;
mod json;
mod judge;
mod minimise;
mod model;
mod props;
mod scenario;

use exec::{execute, Outcome, Ret};
use json::J;
use judge::Verdict;
use scenario::Case;
use simstd::sched::{self, Report};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// the system's randomness, as seen by the crate's dependencies
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let buf = unsafe { std::slice::from_raw_parts_mut(dest, len) };
    match sched::system_random(buf) {
        Some(true) => Ok(()),
        Some(false) => Err(getrandom::Error::UNSUPPORTED),
        None => {
            for (i, b) in buf.iter_mut().enumerate() {
                *b = (i as u8).wrapping_mul(37) ^ 0x5a;
            }
            Ok(())
        }
    }
}

/// Execute all runs of a case and judge it. Aborted runs (deadlock, step budget) end the process in the handler.
fn run_case(case: &Case, outs: &mut Vec<Outcome>) -> Result<(), Verdict> {
    outs.clear();
    for s in &case.runs {
        outs.push(execute(s, false));
    }
    judge::judge(case, outs)
}

fn verdict_json(v: &Verdict) -> J {
    J::obj().set("class", v.class.as_str()).set("msg", v.msg.as_str())
}

static WORKER_INDEX: Mutex<Option<u64>> = Mutex::new(None);

/// Called from inside the simulation when a run cannot go on.
fn on_abort(why: &str, rep: &Report) {
    let class = if why.contains("step budget") { "never-ends" } else { "deadlock" };
    let v = verdict_json(&Verdict {
        class: class.into(),
        msg: format!("the call does not return: {why} at step {} (faults so far: {:?})", rep.steps, rep.fired),
    })
    .set("deviations", deviations(rep))
    .set("hash", format!("{:016x}", rep.log_hash));
    let idx = WORKER_INDEX.try_lock().ok().and_then(|g| *g);
    let mut o = std::io::stdout().lock();
    match idx {
        Some(i) => {
            let _ = writeln!(o, "V {i} {v}");
        }
        None => {
            let _ = writeln!(o, "J {v}");
        }
    }
    let _ = o.flush();
    std::process::exit(10);
}
fn deviations(r: &Report) -> J {
    J::Arr(r.deviations.iter().map(|(a, b)| J::Arr(vec![J::from(*a), J::from(*b)])).collect())
}

#[derive(Default)]
struct Stats {
    cases: u64,
    runs: u64,
    calls: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    evals: u64,
    threads: u64,
    families: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
}
const FAULT_KINDS: [&str; 7] = [
    "cancel token set",
    "worker thread killed",
    "thread creation refused",
    "random source failed",
    "callback panicked",
    "callback stalled",
    "thread stalled",
];
impl Stats {
    fn add(&mut self, case: &Case, outs: &[Outcome]) {
        self.cases += 1;
        *self.families.entry(case.family.clone()).or_default() += 1;
        for (s, o) in case.runs.iter().zip(outs) {
            let r = &o.report;
            self.runs += 1;
            self.steps += r.steps;
            self.switches += r.switches;
            self.sim_ns += r.sim_ns;
            self.threads += r.threads;
            for f in &r.faults {
                *self.faults.entry(FAULT_KINDS[f.1 as usize].into()).or_default() += 1;
            }
            // an interleaving counts when at some point more than one thread could run and the schedule switched
            if r.max_runnable >= 2 && r.switches >= 2 {
                self.hashes.insert(r.log_hash);
            }
            let mut p = |n: &str| *self.probes.entry(n.into()).or_default() += 1;
            if r.total_sends > s.clients.iter().flatten().map(|c| c.threads as u64).sum() {
                p("runs with a merge before the workers' last one");
            }
            if r.ops[sched::Op::Block as usize] > 4 {
                p("runs in which threads blocked repeatedly");
            }
            if s.clients.len() > 1 {
                p("runs with several callers");
            }
            for rec in o.recs.iter().flatten() {
                self.calls += 1;
                match &rec.ret {
                    Ret::Ok(x) => self.evals += x.eval_count,
                    Ret::Err(_) => *self.probes.entry("calls refused".into()).or_default() += 1,
                    Ret::Panic(_) => *self.probes.entry("calls that panicked".into()).or_default() += 1,
                }
                if !rec.token_before && rec.token_after {
                    *self.probes.entry("calls cancelled while running".into()).or_default() += 1;
                }
            }
        }
    }
    fn to_json(&self) -> J {
        let m = |x: &BTreeMap<String, u64>| J::Obj(x.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect());
        J::obj()
            .set("cases", self.cases)
            .set("runs", self.runs)
            .set("calls", self.calls)
            .set("steps", self.steps)
            .set("switches", self.switches)
            .set("sim_ns", self.sim_ns)
            .set("evals", self.evals)
            .set("threads", self.threads)
            .set("families", m(&self.families))
            .set("faults", m(&self.faults))
            .set("probes", m(&self.probes))
            .set("hashes", J::Arr(self.hashes.iter().map(|h| J::from(*h)).collect()))
    }
    fn merge(&mut self, j: &J) {
        self.cases += j.get("cases").u();
        self.runs += j.get("runs").u();
        self.calls += j.get("calls").u();
        self.steps += j.get("steps").u();
        self.switches += j.get("switches").u();
        self.sim_ns += j.get("sim_ns").u();
        self.evals += j.get("evals").u();
        self.threads += j.get("threads").u();
        for (mine, k) in [(&mut self.families, "families"), (&mut self.faults, "faults"), (&mut self.probes, "probes")] {
            if let J::Obj(o) = j.get(k) {
                for (n, v) in o {
                    *mine.entry(n.clone()).or_default() += v.u();
                }
            }
        }
        for h in j.get("hashes").a() {
            self.hashes.insert(h.u());
        }
    }
}

fn say(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// One case in a copy of this process, in which the crate has not been used yet. False: a violation was reported.
fn fork_case(prop: &str, seed: u64, i: u64, trace: bool) -> bool {
    // sound: this process has a single thread
    let pid = unsafe { fork() };
    if pid == 0 {
        let case = props::make(prop, seed, i);
        let mut outs = vec![];
        let mut st = Stats::default();
        let r = run_case(&case, &mut outs);
        st.add(&case, &outs);
        say(format!("P {}", st.to_json()));
        if trace {
            say(hash_line(prop, i, &outs, r.is_ok()));
        }
        if let Err(v) = r {
            let dev: Vec<J> = outs.iter().map(|o| deviations(&o.report)).collect();
            say(format!("V {i} {}", verdict_json(&v).set("deviations_all", J::Arr(dev))));
            unsafe { _exit(10) }
        }
        unsafe { _exit(0) }
    }
    let mut status = 0;
    if pid < 0 || unsafe { waitpid(pid, &mut status, 0) } != pid {
        eprintln!("fork failed");
        std::process::exit(3);
    }
    if status == 0 {
        return true;
    }
    if status == 10 << 8 {
        return false;
    }
    // the copy was ended by a signal
    std::process::exit(4)
}
fn hash_line(prop: &str, i: u64, outs: &[Outcome], ok: bool) -> String {
    let h: Vec<String> = outs.iter().map(|o| format!("{:016x}:{}:{:?}", o.report.log_hash, o.report.steps, o.report.faults)).collect();
    format!("H {prop} {i} {} {ok}", h.join(" "))
}

// ------------------------------------------------------------------ worker: a share of the cases, in one process
fn worker(prop: &str, seed: u64, from: u64, step: u64, count: u64, secs: u64) {
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut outs = vec![];
    let mut i = from;
    let trace = std::env::var("HARNESS_HASHES").is_ok();
    let fresh = props::fresh(prop);
    while i < count {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        say(format!("I {i}"));
        *WORKER_INDEX.lock().unwrap() = Some(i);
        if fresh && !fork_case(prop, seed, i, trace) {
            std::process::exit(10);
        }
        if fresh {
            i += step;
            continue;
        }
        let case = props::make(prop, seed, i);
        let r = run_case(&case, &mut outs);
        st.add(&case, &outs);
        if trace {
            say(hash_line(prop, i, &outs, r.is_ok()));
        }
        if let Err(v) = r {
            let dev: Vec<J> = outs.iter().map(|o| deviations(&o.report)).collect();
            say(format!("S {}", st.to_json()));
            say(format!("V {i} {}", verdict_json(&v).set("deviations_all", J::Arr(dev))));
            std::process::exit(10);
        }
        i += step;
    }
    say(format!("S {}", st.to_json()));
}

// ------------------------------------------------------------------ judge one file (in a process of its own)
fn load(path: &str) -> (J, Vec<Case>, Case) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let j = J::parse(&t).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let prelude = j.get("prelude").a().iter().map(Case::from_json).collect();
    let case = Case::from_json(j.get("case"));
    (j, prelude, case)
}
fn judge_file(path: &str) {
    let (_, prelude, case) = load(path);
    let mut outs = vec![];
    for c in &prelude {
        let _ = run_case(c, &mut outs);
    }
    match run_case(&case, &mut outs) {
        Ok(()) => say(format!("J {}", J::obj().set("ok", true))),
        Err(v) => {
            let dev: Vec<J> = outs.iter().map(|o| deviations(&o.report)).collect();
            let h: Vec<J> = outs.iter().map(|o| J::from(format!("{:016x}", o.report.log_hash))).collect();
            let fired: Vec<J> = outs.iter().map(|o| J::from(o.report.fired.clone())).collect();
            say(format!(
                "J {}",
                verdict_json(&v).set("deviations_all", J::Arr(dev)).set("hashes", J::Arr(h)).set("fired", J::Arr(fired))
            ));
            std::process::exit(10);
        }
    }
}

/// Runs `harness judge FILE` and returns its verdict (None: no violation).
pub struct Judged {
    pub class: String,
    pub msg: String,
    pub info: J,
}
pub fn judge_in_child(path: &Path, timeout: Duration) -> Result<Option<Judged>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe)
        .arg("judge")
        .arg(path)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut out = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    match rx.recv_timeout(timeout) {
        Err(_) => {
            let _ = ch.kill();
            let _ = ch.wait();
            Ok(Some(Judged { class: "hang".into(), msg: format!("the call does not return (no answer within {timeout:?})"), info: J::obj() }))
        }
        Ok(s) => {
            let st = ch.wait().map_err(|e| e.to_string())?;
            if let Some(l) = s.lines().rev().find_map(|l| l.strip_prefix("J ")) {
                let j = J::parse(l)?;
                if j.get("ok").b() {
                    return Ok(None);
                }
                return Ok(Some(Judged { class: j.get("class").s().into(), msg: j.get("msg").s().into(), info: j }));
            }
            if st.code() == Some(2) {
                return Err("the case file could not be read".into());
            }
            Ok(Some(Judged { class: "crash".into(), msg: format!("the process ended with {st}"), info: J::obj() }))
        }
    }
}
fn replay(path: &str) -> i32 {
    let (j, prelude, case) = load(path);
    let prop = case.prop.clone();
    println!("property {prop}, family {}, {} simulated run(s), {} preceding case(s)", case.family, case.runs.len(), prelude.len());
    for s in &case.runs {
        println!("{}", s.to_json());
    }
    match judge_in_child(Path::new(path), Duration::from_secs(300)) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Ok(Some(v)) => {
            println!("{}: {}", v.class, v.msg);
            let same = v.class == j.get("class").s() && v.info.get("hashes") == j.get("hashes");
            println!("{}", if same { "same violation and same event history as recorded" } else { "differs from the recorded violation" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

// ------------------------------------------------------------------ check: the whole exploration
enum Msg {
    Line(usize, String),
    End(usize),
}
struct Found {
    index: u64,
    class: String,
    msg: String,
    worker: u64,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (count, secs) = if thorough {
        ((props::quick(prop) as f64 * 40.0 * scale) as u64, 3600u64)
    } else {
        ((props::quick(prop) as f64 * scale) as u64, 240u64)
    };
    let k = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, 16) as u64;
    println!("property {prop}: seed {seed}, {} tier, {count} cases in {k} processes", if thorough { "thorough" } else { "quick" });

    // known findings first: each is one recorded case
    let kf_path = verif().join("known_findings.json");
    let kf = match std::fs::read_to_string(&kf_path) {
        Ok(t) => match J::parse(&t) {
            Ok(j) => j,
            Err(e) => {
                eprintln!("{}: {e}", kf_path.display());
                return 2;
            }
        },
        Err(_) => J::obj(),
    };
    let scratch = std::env::temp_dir().join(format!("pokers-sim-{prop}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let mut known = 0u64;
    for f in kf.get("findings").a() {
        if f.get("property").s() != prop {
            continue;
        }
        let p = scratch.join("known.json");
        let _ = std::fs::write(&p, J::obj().set("case", f.get("case").clone()).to_string());
        match judge_in_child(&p, Duration::from_secs(120)) {
            Err(e) => {
                eprintln!("known finding: {e}");
                return 2;
            }
            Ok(None) => println!("(listed finding no longer fails: {})", f.get("what").s()),
            Ok(Some(v)) if v.class == f.get("class").s() => {
                known += 1;
                println!("KNOWN-FINDING: property={prop} {}", f.get("what").s());
            }
            Ok(Some(v)) => {
                // the recorded input fails in another way than the recorded one
                let case = Case::from_json(f.get("case"));
                return report(prop, seed, &case, vec![], &v.class, &v.msg, &scratch, u64::MAX, t0, &Stats::default(), thorough, k);
            }
        }
    }

    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids: Vec<Child> = vec![];
    for w in 0..k {
        let mut ch = Command::new(&exe)
            .args(["worker", prop, &seed.to_string(), &w.to_string(), &k.to_string(), &count.to_string(), &secs.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker process");
        let out = ch.stdout.take().unwrap();
        let tx = tx.clone();
        let w = w as usize;
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send(Msg::Line(w, l));
            }
            let _ = tx.send(Msg::End(w));
        });
        kids.push(ch);
    }
    let mut st = Stats::default();
    let mut last: Vec<Option<u64>> = vec![None; k as usize];
    let mut seen: Vec<Instant> = vec![Instant::now(); k as usize];
    let mut done = vec![false; k as usize];
    let mut complete = vec![false; k as usize];
    let mut found: Option<Found> = None;
    let patience = Duration::from_secs(150);
    while !done.iter().all(|d| *d) && found.is_none() {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Line(w, l)) => {
                seen[w] = Instant::now();
                if let Some(i) = l.strip_prefix("I ") {
                    last[w] = i.parse().ok();
                } else if let Some(s) = l.strip_prefix("S ") {
                    complete[w] = true;
                    if let Ok(j) = J::parse(s) {
                        st.merge(&j);
                    }
                } else if let Some(s) = l.strip_prefix("P ") {
                    if let Ok(j) = J::parse(s) {
                        st.merge(&j);
                    }
                } else if let Some(v) = l.strip_prefix("V ") {
                    let (i, v) = v.split_once(' ').unwrap();
                    let j = J::parse(v).unwrap_or(J::Null);
                    found = Some(Found { index: i.parse().unwrap(), class: j.get("class").s().into(), msg: j.get("msg").s().into(), worker: w as u64 });
                }
            }
            Ok(Msg::End(w)) => {
                done[w] = true;
                let status = kids[w].wait();
                if !complete[w] && found.is_none() {
                    match last[w] {
                        Some(i) => found = Some(Found { index: i, class: "crash".into(), msg: format!("the process ended with {status:?}"), worker: w as u64 }),
                        None => {
                            eprintln!("worker {w} ended with {status:?} before its first case");
                            for c in &mut kids {
                                let _ = c.kill();
                            }
                            return 2;
                        }
                    }
                }
            }
            Err(_) => {
                for w in 0..k as usize {
                    if !done[w] && seen[w].elapsed() > patience {
                        if let Some(i) = last[w] {
                            found = Some(Found { index: i, class: "hang".into(), msg: format!("the call does not return (no answer within {patience:?})"), worker: w as u64 });
                        }
                    }
                }
            }
        }
    }
    for c in &mut kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    let code = match found {
        None => {
            if st.cases == 0 {
                eprintln!("nothing was explored");
                return 2;
            }
            evidence(prop, seed, thorough, &st, t0, 0, k, count, known, None);
            println!("{} cases, {} simulated runs, {} distinct interleavings: {prop} held", st.cases, st.runs, st.hashes.len());
            0
        }
        Some(f) => {
            let case = props::make(prop, seed, f.index);
            // cases executed before it by the same process, most recent first
            let before: Vec<u64> = if props::fresh(prop) { 0..0 } else { 0..u64::MAX }.map(|n| f.worker + n * k).take_while(|i| *i < f.index).collect();
            report(prop, seed, &case, before, &f.class, &f.msg, &scratch, f.index, t0, &st, thorough, k)
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

#[allow(clippy::too_many_arguments)]
fn report(
    prop: &str,
    seed: u64,
    case: &Case,
    before: Vec<u64>,
    class: &str,
    msg: &str,
    scratch: &Path,
    index: u64,
    t0: Instant,
    st: &Stats,
    thorough: bool,
    k: u64,
) -> i32 {
    println!("violation in case {index}: {class}: {msg}");
    let file = |prelude: &[Case], case: &Case| {
        J::obj().set("prelude", prelude.iter().map(Case::to_json).collect::<Vec<J>>()).set("case", case.to_json())
    };
    let p = scratch.join("first.json");
    let mut prelude: Vec<Case> = vec![];
    let mut shown: Option<Judged> = None;
    // reproduce in a fresh process; a violation that needs what the process did before is replayed with that history
    let mut take = 0usize;
    loop {
        prelude = before.iter().rev().take(take).rev().map(|i| props::make(prop, seed, *i)).collect();
        let _ = std::fs::write(&p, file(&prelude, case).to_string());
        match judge_in_child(&p, Duration::from_secs(200)) {
            Ok(Some(v)) => {
                shown = Some(v);
                break;
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
        if take >= before.len() || t0.elapsed().as_secs() > 500 {
            break;
        }
        take = if take == 0 { 1 } else { (take * 4).min(before.len()) };
    }
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let out = dir.join(format!("{prop}-{seed}-{}.json", if index == u64::MAX { "known".to_string() } else { index.to_string() }));
    let (final_case, final_prelude, v) = match shown {
        None => {
            println!("(not reproduced in a fresh process; the recorded case is kept as it was)");
            prelude.clear();
            (case.clone(), prelude, None)
        }
        Some(v) => {
            let quickly = std::env::var("HARNESS_NOMIN").is_ok();
            let budget = Duration::from_secs(if quickly { 0 } else if thorough { 240 } else { 60 });
            let (c, pre, v) = minimise::minimise(case.clone(), prelude, v, scratch, budget);
            (c, pre, Some(v))
        }
    };
    let mut j = file(&final_prelude, &final_case).set("property", prop).set("seed", seed).set("index", index);
    match &v {
        Some(v) => {
            j = j
                .set("class", v.class.as_str())
                .set("message", v.msg.as_str())
                .set("hashes", v.info.get("hashes").clone())
                .set("fired", v.info.get("fired").clone());
            println!("minimised: {}: {}", v.class, v.msg);
        }
        None => j = j.set("class", class).set("message", msg),
    }
    if std::fs::write(&out, j.to_string()).is_err() {
        eprintln!("cannot write {}", out.display());
        return 2;
    }
    evidence(prop, seed, thorough, st, t0, 1, k, 0, 0, Some(&final_case));
    println!("VIOLATION property={prop} replay={}", out.display());
    1
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, seed: u64, thorough: bool, st: &Stats, t0: Instant, violations: u64, k: u64, count: u64, known: u64, bad: Option<&Case>) {
    let wall = t0.elapsed().as_secs_f64();
    let m = |x: &BTreeMap<String, u64>| J::Obj(x.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect());
    let mut samples: Vec<J> = (0..2).map(|i| props::make(prop, seed, i)).map(|c| sample(&c)).collect();
    if let Some(c) = bad {
        samples = vec![sample(c)];
    }
    let per_hour = |n: u64| if wall > 0.0 { n as f64 / wall * 3600.0 } else { 0.0 };
    let cov = J::obj()
        .set("evaluations", st.runs)
        .set("distinct_nontrivial", st.hashes.len() as u64)
        .set(
            "rule",
            "a case (request, worker counts, schedule strategy, faults, seeds) is a pure function of (VERIF_SEED, property, index); \
             evaluations counts simulated executions of the whole calculator; an execution is counted as distinct and non-trivial \
             when at some step at least two threads could run, the schedule switched threads at least twice, and the hash of its complete event \
             log (thread, operation, object) occurred for the first time",
        )
        .set("samples", J::Arr(samples))
        .set("cases", st.cases)
        .set("cases_planned", count)
        .set("families", m(&st.families))
        .set("calls", st.calls)
        .set("faults_injected", m(&st.faults))
        .set("probes", m(&st.probes))
        .set("scheduling_steps", st.steps)
        .set("context_switches", st.switches)
        .set("simulated_threads", st.threads)
        .set("simulated_seconds", st.sim_ns as f64 / 1e9)
        .set("hand_evaluations_by_the_crate", st.evals)
        .set("runs_per_hour", per_hour(st.runs))
        .set("seeds_per_hour", per_hour(st.cases))
        .set("worker_processes", k)
        .set("known_findings_seen", known)
        .set(
            "real_components",
            vec![
                "pokers: all of its code, unmodified, built in release mode",
                "rand 0.9 (ThreadRng, SmallRng, Uniform, shuffle)",
                "std::thread::scope's memory and panic semantics, Arc, collections",
            ],
        )
        .set(
            "stubbed_components",
            vec![
                "std::sync::{Mutex, RwLock, Condvar, Barrier, Once, OnceLock, LazyLock, mpsc, atomic}: simulated",
                "std::thread::{scope, spawn, sleep, park, yield, available_parallelism}: one thread runs at a time, chosen by the seed",
                "std::time: simulated clock",
                "getrandom's system source: the run's PRNG",
            ],
        );
    let ev = J::obj()
        .set("property", prop)
        .set("tier", if thorough { "thorough" } else { "quick" })
        .set("seed", seed)
        .set("level", "exploration")
        .set("coverage", cov)
        .set(
            "assumptions",
            vec![
                "atomics are sequentially consistent in the simulation: weaker orderings are not explored",
                "code between two synchronisation operations runs without interruption (sound for data-race-free code, which safe Rust is)",
                "the reference enumeration and its hand evaluator are right (they share no code or table with the crate)",
            ],
        )
        .set("wall_s", wall)
        .set("violations", violations);
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{prop}.tmp"));
    if std::fs::write(&tmp, ev.to_string()).is_ok() {
        let _ = std::fs::rename(&tmp, dir.join(format!("{prop}.json")));
    }
}
fn sample(c: &Case) -> J {
    let mut c = c.clone();
    c.runs.truncate(2);
    for s in &mut c.runs {
        for call in s.clients.iter_mut().flatten() {
            for r in call.ranges.iter_mut() {
                if r.len() > 120 {
                    let cut = r[..120].rfind(',').unwrap_or(120);
                    *r = format!("{},... ({} tokens)", &r[..cut], r.split(',').count());
                }
            }
        }
    }
    c.to_json()
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    if std::env::var("HARNESS_DEBUG").is_err() && mode != "check" && mode != "show" {
        // panics of simulated threads are outcomes, not messages
        std::panic::set_hook(Box::new(|_| {}));
    }
    sched::set_abort_handler(on_abort);
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if !props::ALL.contains(&a[2].as_str()) => {
            eprintln!("unknown property {}", a[2]);
            2
        }
        Some("check") => check(&a[2]),
        Some("worker") => {
            worker(&a[2], n(3), n(4), n(5), n(6), n(7));
            0
        }
        Some("judge") => {
            judge_file(&a[2]);
            0
        }
        Some("replay") => replay(&a[2]),
        Some("show") => {
            println!("{}", props::make(&a[2], n(3), n(4)).to_json());
            0
        }
        _ => {
            eprintln!("usage: harness check PROPERTY | replay FILE | show PROPERTY SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
