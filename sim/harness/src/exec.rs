//! Executes a scenario in a fresh simulation and records the history.
use crate::scenario::{Act, Call, Fault, Look, Scenario};
use pokers::{approx_equity, exact_equity, get_card_mask, HandRange, SimulationResults};
use simstd::sched::{self, Action, Config, Report};
use simstd::sync::atomic::AtomicBool;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub enum Ret {
    Ok(Box<SimulationResults>),
    Err(String),
    Panic(String),
}
impl Ret {
    pub fn short(&self) -> String {
        match self {
            Ret::Ok(_) => "Ok".into(),
            Ret::Err(e) => format!("Err({e})"),
            Ret::Panic(p) => format!("panic: {p}"),
        }
    }
}
pub struct CallRec {
    pub ret: Ret,
    /// (reported value, step)
    pub reports: Vec<(u8, u64)>,
    pub token_before: bool,
    pub token_after: bool,
    pub start: u64,
    pub end: u64,
    pub spawns: u64,
    pub sends: u64,
    /// library threads still running when the call returned
    pub leftover: u64,
    pub cb_panicked: bool,
    pub nested: Vec<(Call, CallRec)>,
}
pub struct Outcome {
    pub recs: Vec<Vec<CallRec>>,
    pub tokens: Vec<bool>,
    pub report: Report,
    /// what the readers' lookups returned, and what the same lookups return when nothing else runs
    pub looks: Vec<Vec<String>>,
    pub quiet: Vec<Vec<String>>,
}

fn text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub const CB_PANIC: &str = "simulated fault: callback panicked";

fn parse(c: &Call, out: &mut Vec<(Vec<String>, Vec<HandRange>)>) {
    if !out.iter().any(|x| x.0 == c.ranges) {
        out.push((c.ranges.clone(), HandRange::from_strings(c.ranges.clone())));
    }
    for a in &c.cb {
        if let Act::Nested(n) = &a.act {
            parse(n, out);
        }
    }
}

fn do_call(c: &Call, tokens: &[Arc<AtomicBool>], parsed: &[(Vec<String>, Vec<HandRange>)]) -> CallRec {
    let ranges = &parsed.iter().find(|x| x.0 == c.ranges).unwrap().1;
    let board = get_card_mask(&c.board);
    let dead = get_card_mask(&c.dead);
    let token = tokens[c.token].clone();
    let token_before = token.raw().load(std::sync::atomic::Ordering::SeqCst);
    if token_before {
        sched::mark(c.token as u32);
    }
    let (start, spawn0, send0) = sched::counters();
    let reports: RefCell<Vec<(u8, u64)>> = RefCell::new(vec![]);
    let count = Cell::new(0u64);
    let panicked = Cell::new(false);
    let nested: RefCell<Vec<(Call, CallRec)>> = RefCell::new(vec![]);
    let cb = |v: u8| {
        let k = count.get();
        count.set(k + 1);
        reports.borrow_mut().push((v, sched::counters().0));
        for a in c.cb.iter().filter(|a| a.at == k) {
            match &a.act {
                Act::Cancel(t) => {
                    tokens[*t].raw().store(true, std::sync::atomic::Ordering::SeqCst);
                    sched::mark(*t as u32);
                }
                Act::Panic => {
                    sched::note(4, format!("callback panicked at report {k}"));
                    panicked.set(true);
                    panic!("{}", CB_PANIC);
                }
                Act::Stall(ns) => {
                    sched::note(5, format!("callback stalled for {ns} ns at report {k}"));
                    sched::sleep(*ns);
                }
                Act::Nested(n) => {
                    let r = do_call(n, tokens, parsed);
                    nested.borrow_mut().push(((**n).clone(), r));
                }
            }
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.exact {
            exact_equity(ranges, board, dead, c.threads, token.clone(), cb)
        } else {
            approx_equity(ranges, board, dead, c.threads, c.target, token.clone(), cb)
        }
    }));
    let ret = match r {
        Ok(Ok(r)) => Ret::Ok(Box::new(r)),
        Ok(Err(e)) => Ret::Err(format!("{e:?}")),
        Err(p) => Ret::Panic(text(p)),
    };
    let (end, spawn1, send1) = sched::counters();
    CallRec {
        ret,
        reports: reports.into_inner(),
        token_before,
        token_after: token.raw().load(std::sync::atomic::Ordering::SeqCst),
        start,
        end,
        spawns: spawn1 - spawn0,
        sends: send1 - send0,
        leftover: sched::live_workers(),
        cb_panicked: panicked.get(),
        nested: nested.into_inner(),
    }
}

/// A result in which every hand and every combo carries its own position, doubled up over two players.
pub fn numbered() -> SimulationResults {
    let ranges = HandRange::from_strings(vec!["2s2h".into(), "3s3h".into()]);
    let token = Arc::new(AtomicBool::new(false));
    let mut r = exact_equity(&ranges, get_card_mask("4s5h6c8dTs"), 0, 1, token, |_| {}).expect("a plain request");
    for (i, h) in r.hand_results.iter_mut().enumerate() {
        h.wins = i as u64;
    }
    for (i, h) in r.combo_results.iter_mut().enumerate() {
        h.wins = i as u64;
    }
    r
}
fn look(r: &SimulationResults, l: &Look) -> String {
    let x = catch_unwind(AssertUnwindSafe(|| if l.combo { r.get_combo_result(l.player, l.name.clone()) } else { r.get_hand_result(l.player, l.name.clone()) }));
    match x {
        Ok(Ok(u)) => u.wins.to_string(),
        Ok(Err(_)) => "unknown".into(),
        Err(_) => "panic".into(),
    }
}

pub fn execute(s: &Scenario, keep_log: bool) -> Outcome {
    let mut parsed = vec![];
    for c in s.clients.iter().flatten() {
        parse(c, &mut parsed);
    }
    let parsed = Arc::new(parsed);
    let tokens: Arc<Vec<Arc<AtomicBool>>> =
        Arc::new(s.tokens.iter().map(|b| Arc::new(AtomicBool::new(*b))).collect());
    let agenda = s
        .faults
        .iter()
        .map(|(step, f)| {
            (
                *step,
                match f {
                    Fault::SetToken(t) => Action::SetToken(*t as u32, tokens[*t].clone()),
                    Fault::Kill => Action::KillWorker,
                    Fault::Stall(ns) => Action::Stall(*ns),
                },
            )
        })
        .collect();
    let cfg = Config {
        strategy: s.strategy.clone(),
        sched_seed: s.sched_seed,
        random_seed: s.random_seed,
        max_steps: s.max_steps,
        agenda,
        spawn_fail: s.spawn_fail.clone(),
        random_fail: s.random_fail.clone(),
        keep_log,
        cpus: 4,
    };
    let n = s.clients.len();
    let recs: Arc<Mutex<Vec<Vec<CallRec>>>> = Arc::new(Mutex::new((0..n).map(|_| vec![]).collect()));
    let (recs2, tokens2, clients) = (recs.clone(), tokens.clone(), s.clients.clone());
    let shared: Arc<Mutex<Option<Arc<SimulationResults>>>> = Arc::new(Mutex::new(None));
    let looks: Arc<Mutex<Vec<Vec<String>>>> = Arc::new(Mutex::new(s.readers.iter().map(|_| vec![]).collect()));
    let (shared2, looks2, readers) = (shared.clone(), looks.clone(), s.readers.clone());
    let report = sched::run(cfg, move || {
        let mut reading = vec![];
        if !readers.is_empty() {
            let r = Arc::new(numbered());
            *shared2.lock().unwrap() = Some(r.clone());
            for (i, list) in readers.into_iter().enumerate() {
                let (r, looks) = (r.clone(), looks2.clone());
                reading.push(sched::spawn_client(move || {
                    for l in &list {
                        let a = look(&r, l);
                        looks.lock().unwrap()[i].push(a);
                    }
                }));
            }
        }
        let body = move |i: usize, calls: Vec<Call>| {
            for c in &calls {
                let r = do_call(c, &tokens2, &parsed);
                recs2.lock().unwrap()[i].push(r);
            }
        };
        let mut it = clients.into_iter().enumerate();
        let first = it.next();
        let tids: Vec<u32> = it
            .map(|(i, calls)| {
                let b = body.clone();
                sched::spawn_client(move || b(i, calls))
            })
            .collect();
        if let Some((i, calls)) = first {
            body(i, calls);
        }
        for t in tids.into_iter().chain(reading) {
            sched::join_client(t);
        }
    });
    let looks = std::mem::take(&mut *looks.lock().unwrap());
    let quiet = match shared.lock().unwrap().take() {
        Some(r) => s.readers.iter().map(|l| l.iter().map(|l| look(&r, l)).collect()).collect(),
        None => vec![],
    };
    let recs = std::mem::take(&mut *recs.lock().unwrap());
    let tokens = tokens.iter().map(|t| t.raw().load(std::sync::atomic::Ordering::SeqCst)).collect();
    Outcome { recs, tokens, report, looks, quiet }
}
