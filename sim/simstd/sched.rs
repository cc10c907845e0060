//! The deterministic scheduler: one simulated thread runs at a time; at every synchronisation operation the
//! strategy (a pure function of the run's seed) decides who runs next and which fault strikes.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// steps a run may spend on waiting in loops
const SPIN_BUDGET: u64 = 3_000_000;
pub const INJECTED: &str = "simulated fault: worker killed";

/// Kinds of scheduling points (also used as counters).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op {
    Spawn = 0,
    Start = 1,
    Finish = 2,
    Join = 3,
    Lock = 4,
    Read = 5,
    Write = 6,
    Send = 7,
    Recv = 8,
    Load = 9,
    Store = 10,
    Rmw = 11,
    Wait = 12,
    Notify = 13,
    Sleep = 14,
    Yield = 15,
    Block = 16,
    Random = 17,
    Other = 18,
}
pub const N_OPS: usize = 19;

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// with probability `permille`/1000 pick uniformly among the runnable threads, else keep running
    Uniform { permille: u32 },
    /// random priorities, `changes` priority drops within the first `horizon` steps
    Pct { changes: u32, horizon: u64 },
    /// switch to the next runnable thread every `quantum` steps
    RoundRobin { quantum: u32 },
    /// like Uniform, but thread `victim` (by id modulo the number of threads) only runs when nobody else can,
    /// within a window of steps
    Starve { permille: u32, victim: u32, from: u64, len: u64 },
    /// switch with probability `permille`/1000 only at the operations in `mask`
    OpBias { mask: u32, permille: u32 },
    /// replay: (step, thread) deviations from the default choice
    Replay(BTreeMap<u64, u32>),
}

#[derive(Clone)]
pub enum Action {
    /// another thread of the process sets a cancel token
    SetToken(u32, Arc<crate::sync::atomic::AtomicBool>),
    /// the next worker (thread spawned by the library) to reach a scheduling point dies there
    KillWorker,
    /// the next thread to reach a scheduling point makes no progress for that many nanoseconds
    Stall(u64),
}

#[derive(Clone)]
pub struct Config {
    pub strategy: Strategy,
    pub sched_seed: u64,
    pub random_seed: u64,
    pub max_steps: u64,
    pub agenda: Vec<(u64, Action)>,
    /// ordinals of thread creations that fail
    pub spawn_fail: Vec<u64>,
    /// ordinals of reads of the system's random source that fail
    pub random_fail: Vec<u64>,
    /// keep the full event log (otherwise only its hash)
    pub keep_log: bool,
    pub cpus: usize,
}

#[derive(Clone, Default, Debug)]
pub struct Mark {
    pub step: u64,
    pub sends: Vec<u64>,
    pub total_sends: u64,
    pub spawned: u64,
    pub recvs: u64,
}

#[derive(Clone, Default, Debug)]
pub struct Report {
    pub steps: u64,
    /// steps in which a thread gave way while it waited for others in a loop
    pub spins: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub log_hash: u64,
    pub ops: [u64; N_OPS],
    pub threads: u64,
    /// (step, thread) choices that differ from the default
    pub deviations: Vec<(u64, u32)>,
    pub fired: Vec<String>,
    /// (step, kind) of every fault that struck: 0 token set, 1 worker killed, 2 thread creation refused,
    /// 3 random source failed, 4 callback panicked, 5 callback stalled, 6 thread stalled
    pub faults: Vec<(u64, u8)>,
    pub marks: BTreeMap<u32, Mark>,
    pub sends: Vec<u64>,
    pub total_sends: u64,
    pub spawn_attempts: u64,
    pub random_reads: u64,
    pub log: Vec<(u64, u32, u8, u64)>,
    pub max_runnable: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    Blocked(u64),
    BlockedUntil(u64, u64),
    Finished,
}

struct Th {
    status: Status,
    handle: Option<std::thread::Thread>,
    worker: bool,
    scope: u64,
    prio: u64,
    timed_out: bool,
    park_token: bool,
    /// gave way and nothing has happened since
    yielded: bool,
    /// loads and failed attempts in a row
    idle: u32,
}

struct State {
    threads: Vec<Th>,
    current: u32,
    cfg: Config,
    rng: Rng,
    source: Rng,
    rep: Report,
    next_obj: u64,
    /// effort of threads that wait in loops or do nothing but operations on atomics
    spun: u64,
    next_scope: u64,
    kills: u32,
    stalls: Vec<u64>,
    change_points: Vec<u64>,
    rr_left: u32,
    prio_floor: u64,
    live: u32,
    no_preempt: u32,
}

pub struct Sim {
    st: Mutex<State>,
    done: Condvar,
    epoch: u64,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Sim>, u32)>> = const { RefCell::new(None) };
}
thread_local! {
    static HOT: std::cell::Cell<Hot> = const { std::cell::Cell::new(Hot { streak: 0, skip: 0, passed: false }) };
}
#[derive(Clone, Copy)]
struct Hot {
    /// operations on atomics since the last other operation that were scheduling points
    streak: u32,
    /// how many more of them are none
    skip: u32,
    /// the last one was none
    passed: bool,
}
/// A thread that does nothing but operations on atomics for a long time (a counter bumped or a flag read for every board it
/// evaluates) is not stopped at each of them: after the first 400 at ever fewer, in the end at one of 4096.
fn passes(op: Op) -> bool {
    HOT.with(|h| {
        let mut x = h.get();
        if !matches!(op, Op::Load | Op::Store | Op::Rmw) {
            x = Hot { streak: 0, skip: 0, passed: false };
        } else if x.skip > 0 {
            x.skip -= 1;
            x.passed = true;
        } else {
            x.streak = (x.streak + 1).min(4495);
            x.skip = x.streak.saturating_sub(400);
            x.passed = false;
        }
        h.set(x);
        x.passed
    })
}
static EPOCH: AtomicU64 = AtomicU64::new(1);
static ABORT: Mutex<Option<fn(&str, &Report)>> = Mutex::new(None);

/// Called (never returns normally) when a run deadlocks or exceeds its step budget.
pub fn set_abort_handler(f: fn(&str, &Report)) {
    *ABORT.lock().unwrap() = Some(f);
}

fn ctx() -> Option<(Arc<Sim>, u32)> {
    CTX.try_with(|c| c.borrow().clone()).ok().flatten()
}
pub fn in_sim() -> bool {
    CTX.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

fn abort_run(st: MutexGuard<'_, State>, why: &str) -> ! {
    let rep = st.rep.clone();
    drop(st);
    let h = *ABORT.lock().unwrap();
    if let Some(h) = h {
        h(why, &rep);
    }
    eprintln!("simulation aborted: {why}");
    std::process::exit(90);
}

impl State {
    fn log(&mut self, tid: u32, op: Op, obj: u64) {
        let r = &mut self.rep;
        r.ops[op as usize] += 1;
        let mut h = r.log_hash;
        for v in [tid as u64, op as u64, obj & 0xffff_ffff] {
            h = (h ^ v).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        r.log_hash = h;
        if self.cfg.keep_log {
            let e = (r.steps, tid, op as u8, obj & 0xffff_ffff);
            r.log.push(e);
        }
    }
    fn default_choice(&self, me: Option<u32>) -> Option<u32> {
        if let Some(m) = me {
            if self.threads[m as usize].status == Status::Runnable {
                return Some(m);
            }
        }
        self.threads.iter().position(|t| t.status == Status::Runnable).map(|i| i as u32)
    }
    fn choose(&mut self, me: u32, op: Op) -> Option<u32> {
        let default = self.default_choice(Some(me))?;
        if self.no_preempt > 0 && self.threads[me as usize].status == Status::Runnable {
            return Some(me);
        }
        let run: Vec<u32> =
            self.threads.iter().enumerate().filter(|(_, t)| t.status == Status::Runnable).map(|(i, _)| i as u32).collect();
        self.rep.max_runnable = self.rep.max_runnable.max(run.len() as u64);
        let step = self.rep.steps;
        if run.len() == 1 {
            return Some(run[0]);
        }
        if op == Op::Yield && self.threads[me as usize].status == Status::Runnable {
            return Some(self.give_way(me, &run));
        }
        let n = run.len() as u64;
        let chosen = match &mut self.cfg.strategy {
            Strategy::Uniform { permille } => {
                if self.rng.below(1000) < *permille as u64 || default != me { run[self.rng.below(n) as usize] } else { default }
            }
            Strategy::Starve { permille, victim, from, len } => {
                let nt = self.threads.len() as u32;
                let v = *victim % nt.max(1);
                let starving = step >= *from && step < *from + *len;
                let cand: Vec<u32> = if starving { run.iter().copied().filter(|&t| t != v).collect() } else { run.clone() };
                if default == me && !(starving && me == v) && self.rng.below(1000) >= *permille as u64 {
                    default
                } else {
                    cand[self.rng.below(cand.len() as u64) as usize]
                }
            }
            Strategy::OpBias { mask, permille } => {
                let hit = (*mask >> (op as u32)) & 1 == 1 && self.rng.below(1000) < *permille as u64;
                if hit {
                    let others: Vec<u32> = run.iter().copied().filter(|&t| t != me).collect();
                    others[self.rng.below(others.len() as u64) as usize]
                } else if default != me {
                    run[self.rng.below(n) as usize]
                } else {
                    default
                }
            }
            Strategy::RoundRobin { quantum } => {
                if default == me && self.rr_left > 0 {
                    self.rr_left -= 1;
                    me
                } else {
                    self.rr_left = *quantum;
                    *run.iter().find(|&&t| t > me).unwrap_or(&run[0])
                }
            }
            Strategy::Pct { .. } => {
                if let Some(i) = self.change_points.iter().position(|&c| c <= step) {
                    self.change_points.swap_remove(i);
                    self.prio_floor -= 1;
                    let f = self.prio_floor;
                    self.threads[me as usize].prio = f;
                }
                *run.iter().max_by_key(|&&t| (self.threads[t as usize].prio, u32::MAX - t)).unwrap()
            }
            Strategy::Replay(m) => match m.get(&step) {
                Some(t) if run.contains(t) => *t,
                _ => default,
            },
        };
        if chosen != default {
            self.rep.deviations.push((step, chosen));
        }
        Some(chosen)
    }
    /// A thread that gives way in a loop waits for somebody else: whatever the strategy, others go first.
    fn give_way(&mut self, me: u32, run: &[u32]) -> u32 {
        let step = self.rep.steps;
        let mut cand: Vec<u32> = run.iter().copied().filter(|&t| !self.threads[t as usize].yielded).collect();
        if cand.is_empty() {
            for t in &mut self.threads {
                t.yielded = false;
            }
            cand = run.iter().copied().filter(|&t| t != me).collect();
        }
        let default = *cand.iter().find(|&&t| t > me).unwrap_or(&cand[0]);
        let chosen = match &self.cfg.strategy {
            Strategy::RoundRobin { .. } => default,
            Strategy::Pct { .. } => {
                self.prio_floor -= 1;
                let f = self.prio_floor;
                self.threads[me as usize].prio = f;
                *cand.iter().max_by_key(|&&t| (self.threads[t as usize].prio, u32::MAX - t)).unwrap()
            }
            Strategy::Replay(m) => match m.get(&step) {
                Some(t) if cand.contains(t) => *t,
                _ => default,
            },
            _ => cand[self.rng.below(cand.len() as u64) as usize],
        };
        if chosen != default {
            self.rep.deviations.push((step, chosen));
        }
        chosen
    }
    /// Notes what the operation says about waiting in a loop; the operation as the scheduler should see it.
    fn account(&mut self, me: u32, op: Op, neutral: bool) -> Op {
        let t = &mut self.threads[me as usize];
        let mut op = op;
        if op == Op::Load || neutral {
            t.idle += 1;
            if t.idle >= 200 {
                op = Op::Yield;
            }
        } else if op != Op::Yield {
            t.idle = 0;
            self.progress();
        }
        let skip = HOT.with(|h| h.get().skip) as u64;
        if op == Op::Yield || skip > 0 {
            self.spun += 1 + skip / 40;
        }
        if op == Op::Yield {
            self.threads[me as usize].yielded = true;
            self.rep.spins += 1;
            // everybody waits in a loop: time passes until a timer ends somebody's pause
            if self.threads.iter().all(|t| t.status != Status::Runnable || t.yielded) && self.advance_clock() {
                self.progress();
                self.threads[me as usize].yielded = true;
            }
        }
        op
    }
    fn progress(&mut self) {
        for t in &mut self.threads {
            t.yielded = false;
        }
    }
    fn over_budget(&self) -> bool {
        self.rep.steps - self.rep.spins > self.cfg.max_steps || self.spun > SPIN_BUDGET
    }
    fn fire(&mut self, me: u32) {
        let step = self.rep.steps;
        let mut i = 0;
        while i < self.cfg.agenda.len() {
            if self.cfg.agenda[i].0 <= step {
                let (_, a) = self.cfg.agenda.remove(i);
                match a {
                    Action::SetToken(id, tok) => {
                        tok.raw().store(true, Ordering::SeqCst);
                        self.rep.fired.push(format!("cancel token {id} set by another thread at step {step}"));
                        self.rep.faults.push((step, 0));
                        self.mark(id);
                    }
                    Action::KillWorker => self.kills += 1,
                    Action::Stall(ns) => self.stalls.push(ns),
                }
            } else {
                i += 1;
            }
        }
        let _ = me;
    }
    fn mark(&mut self, id: u32) {
        let m = Mark {
            step: self.rep.steps,
            sends: self.rep.sends.clone(),
            total_sends: self.rep.total_sends,
            spawned: self.rep.threads,
            recvs: self.rep.ops[Op::Recv as usize],
        };
        self.rep.marks.entry(id).or_insert(m);
    }
    fn add_thread(&mut self, worker: bool, scope: u64) -> u32 {
        let prio = 1_000_000 + self.rng.below(1_000_000);
        self.threads.push(Th {
            status: Status::Runnable,
            handle: None,
            worker,
            scope,
            prio,
            timed_out: false,
            park_token: false,
            yielded: false,
            idle: 0,
        });
        self.rep.sends.push(0);
        self.rep.threads += 1;
        self.live += 1;
        (self.threads.len() - 1) as u32
    }
    fn wake_key(&mut self, key: u64) {
        for t in &mut self.threads {
            match t.status {
                Status::Blocked(k) | Status::BlockedUntil(k, _) if k == key => {
                    t.status = Status::Runnable;
                    t.timed_out = false;
                }
                _ => {}
            }
        }
    }
    fn wake_one(&mut self, key: u64) -> bool {
        for t in &mut self.threads {
            match t.status {
                Status::Blocked(k) | Status::BlockedUntil(k, _) if k == key => {
                    t.status = Status::Runnable;
                    t.timed_out = false;
                    return true;
                }
                _ => {}
            }
        }
        false
    }
    /// nothing runnable: jump the clock to the earliest timer
    fn advance_clock(&mut self) -> bool {
        let mut best: Option<u64> = None;
        for t in &self.threads {
            if let Status::BlockedUntil(_, at) = t.status {
                best = Some(best.map_or(at, |b: u64| b.min(at)));
            }
        }
        match best {
            None => false,
            Some(at) => {
                self.rep.sim_ns = self.rep.sim_ns.max(at);
                for t in &mut self.threads {
                    if let Status::BlockedUntil(_, a) = t.status {
                        if a <= at {
                            t.status = Status::Runnable;
                            t.timed_out = true;
                        }
                    }
                }
                true
            }
        }
    }
    fn expire_timers(&mut self) {
        let now = self.rep.sim_ns;
        for t in &mut self.threads {
            if let Status::BlockedUntil(_, a) = t.status {
                if a <= now {
                    t.status = Status::Runnable;
                    t.timed_out = true;
                }
            }
        }
    }
    fn tick(&mut self) {
        self.rep.steps += 1;
        self.rep.sim_ns += 1000;
        self.expire_timers();
    }
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// hand the baton to `next` and wait until it comes back to `me`
    fn switch(&self, mut st: MutexGuard<'_, State>, me: u32, next: u32) {
        if next == me {
            return;
        }
        st.current = next;
        st.rep.switches += 1;
        let h = st.threads[next as usize].handle.clone();
        drop(st);
        if let Some(h) = h {
            h.unpark();
        }
        self.await_turn(me);
    }
    fn await_turn(&self, me: u32) {
        loop {
            {
                let mut st = self.lock();
                if st.threads[me as usize].handle.is_none() {
                    st.threads[me as usize].handle = Some(std::thread::current());
                }
                if st.current == me {
                    return;
                }
            }
            std::thread::park();
        }
    }
    fn point(&self, me: u32, op: Op, obj: u64) {
        self.point_report(me, op, obj, false, false)
    }
    fn point_report(&self, me: u32, op: Op, obj: u64, report: bool, neutral: bool) {
        let mut st = self.lock();
        st.tick();
        st.log(me, op, obj);
        let op = st.account(me, op, neutral);
        if report {
            st.rep.sends[me as usize] += 1;
            st.rep.total_sends += 1;
        }
        st.fire(me);
        if st.kills > 0 && st.threads[me as usize].worker && !std::thread::panicking() && op != Op::Start && op != Op::Finish && !in_destructor() {
            st.kills -= 1;
            let s = st.rep.steps;
            st.rep.fired.push(format!("worker thread {me} killed at step {s} in {op:?}"));
            st.rep.faults.push((s, 1));
            drop(st);
            panic!("{}", INJECTED);
        }
        if st.over_budget() {
            abort_run(st, "step budget exceeded");
        }
        if st.no_preempt == 0 && op != Op::Finish {
            if let Some(ns) = st.stalls.pop() {
                let (s, at) = (st.rep.steps, st.rep.sim_ns.saturating_add(ns));
                st.rep.fired.push(format!("thread {me} stalled for {ns} ns at step {s} in {op:?}"));
                st.rep.faults.push((s, 6));
                drop(st);
                self.block(me, stall_key(me), Some(at));
                return;
            }
        }
        let next = match st.choose(me, op) {
            Some(n) => n,
            None => abort_run(st, "no runnable thread"),
        };
        self.switch(st, me, next);
    }
    /// returns true when woken by its timer
    fn block(&self, me: u32, key: u64, until: Option<u64>) -> bool {
        let mut st = self.lock();
        st.tick();
        st.log(me, Op::Block, key);
        st.account(me, Op::Block, false);
        st.threads[me as usize].status = match until {
            None => Status::Blocked(key),
            Some(t) => Status::BlockedUntil(key, t),
        };
        st.threads[me as usize].timed_out = false;
        st.fire(me);
        if st.over_budget() {
            abort_run(st, "step budget exceeded");
        }
        let next = loop {
            match st.choose(me, Op::Block) {
                Some(n) => break n,
                None => {
                    if !st.advance_clock() {
                        abort_run(st, "deadlock: every thread is blocked");
                    }
                }
            }
        };
        if next != me {
            self.switch(st, me, next);
        } else {
            drop(st);
        }
        self.lock().threads[me as usize].timed_out
    }
    fn finish(&self, me: u32) {
        let mut st = self.lock();
        st.tick();
        st.log(me, Op::Finish, 0);
        st.account(me, Op::Finish, false);
        st.threads[me as usize].status = Status::Finished;
        st.live -= 1;
        let scope = st.threads[me as usize].scope;
        st.wake_key(join_key(me));
        st.wake_key(scope_key(scope));
        if st.live == 0 {
            drop(st);
            self.done.notify_all();
            return;
        }
        let next = loop {
            match st.choose(me, Op::Finish) {
                Some(n) => break n,
                None => {
                    if !st.advance_clock() {
                        abort_run(st, "deadlock: every thread is blocked");
                    }
                }
            }
        };
        st.current = next;
        st.rep.switches += 1;
        let h = st.threads[next as usize].handle.clone();
        drop(st);
        if let Some(h) = h {
            h.unpark();
        }
    }
}

fn join_key(tid: u32) -> u64 {
    0x1000_0000_0000_0000 | tid as u64
}
fn scope_key(s: u64) -> u64 {
    0x2000_0000_0000_0000 | s
}
fn park_key(tid: u32) -> u64 {
    0x3000_0000_0000_0000 | tid as u64
}
fn stall_key(tid: u32) -> u64 {
    0x5000_0000_0000_0000 | tid as u64
}
fn sleep_key(tid: u32) -> u64 {
    0x4000_0000_0000_0000 | tid as u64
}

// ---------------------------------------------------------------- interface for the shims

/// A scheduling point. No effect outside a simulation.
pub fn point(op: Op, obj: u64) {
    if passes(op) {
        return;
    }
    if let Some((s, me)) = ctx() {
        s.point(me, op, obj);
    }
}
/// The sending of a message; only messages that are progress values are counted as reports.
pub fn point_send<T>(obj: u64) {
    passes(Op::Send);
    if let Some((s, me)) = ctx() {
        s.point_report(me, Op::Send, obj, std::any::type_name::<T>() == "u8", false);
    }
}
/// The scheduling point before an attempt that may fail (`try_lock`, `compare_exchange`, `try_recv`).
pub fn point_attempt(op: Op, obj: u64) {
    if passes(op) {
        return;
    }
    if let Some((s, me)) = ctx() {
        s.point_report(me, op, obj, false, true);
    }
}
/// Success means that the thread is not waiting.
pub fn attempted<T, E>(r: Result<T, E>) -> Result<T, E> {
    if r.is_ok() && !HOT.with(|h| h.get().passed) {
        if let Some((s, me)) = ctx() {
            let mut st = s.lock();
            st.threads[me as usize].idle = 0;
            st.progress();
        }
    }
    r
}
/// A message was sent after an attempt; only messages that are progress values are counted as reports.
pub fn note_report<T>() {
    if let Some((s, me)) = ctx() {
        if std::any::type_name::<T>() == "u8" {
            let mut st = s.lock();
            st.rep.sends[me as usize] += 1;
            st.rep.total_sends += 1;
        }
    }
}
pub fn block(key: u64) {
    if let Some((s, me)) = ctx() {
        s.block(me, key, None);
    }
}
/// Blocks until woken or until `ns` of simulated time have passed; true on timeout.
pub fn block_for(key: u64, ns: u64) -> bool {
    match ctx() {
        Some((s, me)) => {
            let at = s.lock().rep.sim_ns.saturating_add(ns);
            s.block(me, key, Some(at))
        }
        None => false,
    }
}
pub fn wake(key: u64) {
    if let Some((s, _)) = ctx() {
        s.lock().wake_key(key);
    }
}
pub fn wake_one(key: u64) -> bool {
    match ctx() {
        Some((s, _)) => s.lock().wake_one(key),
        None => false,
    }
}
pub fn sleep(ns: u64) {
    passes(Op::Sleep);
    if let Some((s, me)) = ctx() {
        let at = s.lock().rep.sim_ns.saturating_add(ns);
        s.block(me, sleep_key(me), Some(at));
    }
}
pub fn now_ns() -> Option<u64> {
    ctx().map(|(s, _)| s.lock().rep.sim_ns)
}
pub fn cpus() -> Option<usize> {
    ctx().map(|(s, _)| s.lock().cfg.cpus)
}
pub fn park(ns: Option<u64>) {
    passes(Op::Other);
    if let Some((s, me)) = ctx() {
        {
            let mut st = s.lock();
            if st.threads[me as usize].park_token {
                st.threads[me as usize].park_token = false;
                return;
            }
        }
        // std allows spurious wake-ups; a timed park always ends, an untimed one ends at an unpark only
        let at = ns.map(|n| s.lock().rep.sim_ns.saturating_add(n));
        s.block(me, park_key(me), at);
    }
}
pub struct NoPreempt(Option<Arc<Sim>>);
pub fn no_preempt() -> NoPreempt {
    match ctx() {
        Some((s, _)) => {
            s.lock().no_preempt += 1;
            NoPreempt(Some(s))
        }
        None => NoPreempt(None),
    }
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        if let Some(s) = &self.0 {
            s.lock().no_preempt -= 1;
        }
    }
}

/// Stable identity of a shim object within the current simulation.
pub struct ObjId(AtomicU64);
impl ObjId {
    pub const fn new() -> ObjId {
        ObjId(AtomicU64::new(0))
    }
    pub fn get(&self) -> u64 {
        match ctx() {
            None => 0,
            Some((s, _)) => {
                let v = self.0.load(Ordering::Relaxed);
                if v >> 32 == s.epoch {
                    return v;
                }
                let mut st = s.lock();
                st.next_obj += 1;
                let v = (s.epoch << 32) | st.next_obj;
                self.0.store(v, Ordering::Relaxed);
                v
            }
        }
    }
}

pub struct ThreadToken {
    sim: Arc<Sim>,
    pub tid: u32,
}
/// Registers a new simulated thread. Err: the simulated system refuses to create a thread.
pub fn new_thread(scope: u64) -> Option<Result<ThreadToken, std::io::Error>> {
    let (s, me) = ctx()?;
    s.point(me, Op::Spawn, 0);
    let mut st = s.lock();
    let ord = st.rep.spawn_attempts;
    st.rep.spawn_attempts += 1;
    if st.cfg.spawn_fail.contains(&ord) {
        st.rep.fired.push(format!("creation of thread number {ord} refused"));
        let s = st.rep.steps;
        st.rep.faults.push((s, 2));
        return Some(Err(std::io::Error::from(std::io::ErrorKind::WouldBlock)));
    }
    let tid = st.add_thread(true, scope);
    drop(st);
    Some(Ok(ThreadToken { sim: s, tid }))
}
/// Runs in the new OS thread for the lifetime of the simulated thread.
pub struct Running(ThreadToken);
impl ThreadToken {
    pub fn start(self) -> Running {
        CTX.with(|c| *c.borrow_mut() = Some((self.sim.clone(), self.tid)));
        passes(Op::Start);
        self.sim.await_turn(self.tid);
        self.sim.point(self.tid, Op::Start, 0);
        Running(self)
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        let t = &self.0;
        CTX.with(|c| *c.borrow_mut() = None);
        t.sim.finish(t.tid);
    }
}
pub fn join_thread(tid: u32) {
    if let Some((s, me)) = ctx() {
        s.point(me, Op::Join, tid as u64);
        loop {
            if s.lock().threads[tid as usize].status == Status::Finished {
                return;
            }
            s.block(me, join_key(tid), None);
        }
    }
}
pub fn thread_finished(tid: u32) -> Option<bool> {
    ctx().map(|(s, _)| s.lock().threads[tid as usize].status == Status::Finished)
}
pub fn new_scope() -> u64 {
    match ctx() {
        Some((s, _)) => {
            let mut st = s.lock();
            st.next_scope += 1;
            st.next_scope
        }
        None => 0,
    }
}
pub fn join_scope(scope: u64) {
    if let Some((s, me)) = ctx() {
        loop {
            {
                let st = s.lock();
                if st.threads.iter().all(|t| t.scope != scope || t.status == Status::Finished) {
                    return;
                }
            }
            s.block(me, scope_key(scope), None);
        }
    }
}
pub fn unpark_tid(tid: u32) {
    if let Some((s, _)) = ctx() {
        let mut st = s.lock();
        if !st.wake_one(park_key(tid)) {
            st.threads[tid as usize].park_token = true;
        }
    }
}

/// System randomness: Some(false) = the read fails.
pub fn system_random(buf: &mut [u8]) -> Option<bool> {
    let (s, me) = ctx()?;
    s.point(me, Op::Random, 0);
    let mut st = s.lock();
    let ord = st.rep.random_reads;
    st.rep.random_reads += 1;
    if st.cfg.random_fail.contains(&ord) {
        st.rep.fired.push(format!("read number {ord} of the system's random source failed"));
        let s = st.rep.steps;
        st.rep.faults.push((s, 3));
        return Some(false);
    }
    for c in buf.chunks_mut(8) {
        let v = st.source.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    Some(true)
}

// ---------------------------------------------------------------- interface for the harness

/// The caller declares that token `id` has just been set by its own code (e.g. from a callback).
pub fn mark(id: u32) {
    if let Some((s, _)) = ctx() {
        let mut st = s.lock();
        let step = st.rep.steps;
        if !st.rep.marks.contains_key(&id) {
            st.rep.fired.push(format!("cancel token {id} set by a client at step {step}"));
            st.rep.faults.push((step, 0));
        }
        st.mark(id);
    }
}
pub fn note(kind: u8, s: String) {
    if let Some((sim, _)) = ctx() {
        let mut st = sim.lock();
        let step = st.rep.steps;
        st.rep.fired.push(s);
        st.rep.faults.push((step, kind));
    }
}
pub fn report_now() -> Report {
    match ctx() {
        Some((s, _)) => s.lock().rep.clone(),
        None => Report::default(),
    }
}
pub fn my_tid() -> u32 {
    ctx().map(|(_, t)| t).unwrap_or(u32::MAX)
}
/// (steps so far, thread creations attempted so far)
pub fn counters() -> (u64, u64, u64) {
    match ctx() {
        Some((s, _)) => {
            let st = s.lock();
            (st.rep.steps, st.rep.spawn_attempts, st.rep.total_sends)
        }
        None => (0, 0, 0),
    }
}

/// A worker dies of a panic in its code, not within a destructor that would have run to its end.
fn in_destructor() -> bool {
    let b = std::backtrace::Backtrace::force_capture().to_string();
    // "   5: drop<u8>" (inlined), "   5: core::ptr::drop_in_place::<T>", "   5: <T as core::ops::drop::Drop>::drop"
    b.lines().filter_map(|l| l.trim_start().split_once(": ")).any(|(n, f)| {
        n.bytes().all(|c| c.is_ascii_digit()) && (f.starts_with("drop") || f.contains("drop_in_place") || f.contains("Drop>::drop"))
    })
}

/// Threads created by the library that have not finished.
pub fn live_workers() -> u64 {
    match ctx() {
        Some((s, _)) => s.lock().threads.iter().filter(|t| t.worker && t.status != Status::Finished).count() as u64,
        None => 0,
    }
}

/// Spawns a client thread (not a library worker: it cannot be killed and its creation cannot fail).
pub fn spawn_client<F: FnOnce() + Send + 'static>(f: F) -> u32 {
    let (s, _) = ctx().expect("spawn_client outside a simulation");
    let tid = s.lock().add_thread(false, 0);
    let tok = ThreadToken { sim: s, tid };
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let _r = tok.start();
            f();
        })
        .expect("os thread");
    tid
}
pub fn join_client(tid: u32) {
    join_thread(tid)
}

/// Runs `root` as the first simulated thread and returns when every simulated thread has finished.
pub fn run<F: FnOnce() + Send + 'static>(cfg: Config, root: F) -> Report {
    let mut rng = Rng::new(cfg.sched_seed ^ 0x5ced_5ced_5ced_5ced);
    let mut change_points = vec![];
    if let Strategy::Pct { changes, horizon } = &cfg.strategy {
        for _ in 0..*changes {
            change_points.push(rng.below((*horizon).max(1)));
        }
    }
    let source = Rng::new(cfg.random_seed ^ 0xab1e_5eed_0000_0001);
    let sim = Arc::new(Sim {
        st: Mutex::new(State {
            threads: vec![],
            current: 0,
            cfg,
            rng,
            source,
            rep: Report { log_hash: 0xcbf29ce484222325, ..Report::default() },
            next_obj: 0,
            spun: 0,
            next_scope: 0,
            kills: 0,
            stalls: vec![],
            change_points,
            rr_left: 0,
            prio_floor: 1000,
            live: 0,
            no_preempt: 0,
        }),
        done: Condvar::new(),
        epoch: EPOCH.fetch_add(1, Ordering::Relaxed) & 0x7fff_ffff,
    });
    let tid = sim.lock().add_thread(false, 0);
    let tok = ThreadToken { sim: sim.clone(), tid };
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let _r = tok.start();
            root();
        })
        .expect("os thread");
    let mut st = sim.lock();
    while st.live > 0 {
        st = sim.done.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    let rep = st.rep.clone();
    drop(st);
    let _ = h.join();
    rep
}
