//! A scenario is one simulated execution, written down completely: calls, schedule, faults, seeds.
//! A case is what one verdict is based on: one or several scenarios of the same property.
use crate::json::J;
use crate::model::{expand, parse_cards, Request};
use simstd::sched::Strategy;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// set a cancel token
    Cancel(usize),
    Panic,
    /// spend simulated time (a slow consumer of progress reports)
    Stall(u64),
    /// make another call from within the callback
    Nested(Box<Call>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct CbAct {
    /// ordinal of the progress report, counted per call
    pub at: u64,
    pub act: Act,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub exact: bool,
    pub ranges: Vec<String>,
    pub board: String,
    pub dead: String,
    pub threads: u8,
    pub target: f64,
    pub token: usize,
    pub cb: Vec<CbAct>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    SetToken(usize),
    Kill,
    /// the next thread to reach a scheduling point stands still for so many nanoseconds
    Stall(u64),
}
/// One lookup of a result by name.
#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub combo: bool,
    pub player: usize,
    pub name: String,
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub clients: Vec<Vec<Call>>,
    /// threads that look up names in one shared result while the clients are at work
    pub readers: Vec<Vec<Look>>,
    /// initial values of the cancel tokens
    pub tokens: Vec<bool>,
    pub strategy: Strategy,
    pub sched_seed: u64,
    pub random_seed: u64,
    pub faults: Vec<(u64, Fault)>,
    pub spawn_fail: Vec<u64>,
    pub random_fail: Vec<u64>,
    pub max_steps: u64,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub family: String,
    pub runs: Vec<Scenario>,
}

impl Call {
    pub fn request(&self) -> Request {
        Request {
            ranges: self.ranges.iter().map(|t| expand(t)).collect(),
            board: parse_cards(&self.board),
            dead: parse_cards(&self.dead),
        }
    }
    pub fn to_json(&self) -> J {
        J::obj()
            .set("calculator", if self.exact { "exact" } else { "approx" })
            .set("ranges", self.ranges.clone())
            .set("board", self.board.as_str())
            .set("dead", self.dead.as_str())
            .set("threads", self.threads)
            .set("target", self.target)
            .set("token", self.token)
            .set(
                "callback",
                self.cb
                    .iter()
                    .map(|c| {
                        let o = J::obj().set("at", c.at);
                        match &c.act {
                            Act::Cancel(t) => o.set("do", "cancel").set("token", *t),
                            Act::Panic => o.set("do", "panic"),
                            Act::Stall(n) => o.set("do", "stall").set("ns", *n),
                            Act::Nested(c) => o.set("do", "call").set("call", c.to_json()),
                        }
                    })
                    .collect::<Vec<J>>(),
            )
    }
    pub fn from_json(j: &J) -> Call {
        Call {
            exact: j.get("calculator").s() == "exact",
            ranges: j.get("ranges").a().iter().map(|x| x.s().to_string()).collect(),
            board: j.get("board").s().to_string(),
            dead: j.get("dead").s().to_string(),
            threads: j.get("threads").u() as u8,
            target: j.get("target").f(),
            token: j.get("token").u() as usize,
            cb: j
                .get("callback")
                .a()
                .iter()
                .map(|c| CbAct {
                    at: c.get("at").u(),
                    act: match c.get("do").s() {
                        "cancel" => Act::Cancel(c.get("token").u() as usize),
                        "panic" => Act::Panic,
                        "stall" => Act::Stall(c.get("ns").u()),
                        _ => Act::Nested(Box::new(Call::from_json(c.get("call")))),
                    },
                })
                .collect(),
        }
    }
}
fn strategy_json(s: &Strategy) -> J {
    let o = J::obj();
    match s {
        Strategy::Uniform { permille } => o.set("kind", "uniform").set("permille", *permille),
        Strategy::Pct { changes, horizon } => o.set("kind", "pct").set("changes", *changes).set("horizon", *horizon),
        Strategy::RoundRobin { quantum } => o.set("kind", "roundrobin").set("quantum", *quantum),
        Strategy::Starve { permille, victim, from, len } => {
            o.set("kind", "starve").set("permille", *permille).set("victim", *victim).set("from", *from).set("len", *len)
        }
        Strategy::OpBias { mask, permille } => o.set("kind", "opbias").set("mask", *mask).set("permille", *permille),
        Strategy::Replay(m) => o.set("kind", "replay").set(
            "switches",
            m.iter().map(|(a, b)| J::Arr(vec![J::from(*a), J::from(*b)])).collect::<Vec<J>>(),
        ),
    }
}
fn strategy_from(j: &J) -> Strategy {
    let g = |k: &str| j.get(k).u();
    match j.get("kind").s() {
        "uniform" => Strategy::Uniform { permille: g("permille") as u32 },
        "pct" => Strategy::Pct { changes: g("changes") as u32, horizon: g("horizon") },
        "roundrobin" => Strategy::RoundRobin { quantum: g("quantum") as u32 },
        "starve" => Strategy::Starve {
            permille: g("permille") as u32,
            victim: g("victim") as u32,
            from: g("from"),
            len: g("len"),
        },
        "opbias" => Strategy::OpBias { mask: g("mask") as u32, permille: g("permille") as u32 },
        _ => {
            let mut m = BTreeMap::new();
            for p in j.get("switches").a() {
                m.insert(p.a()[0].u(), p.a()[1].u() as u32);
            }
            Strategy::Replay(m)
        }
    }
}
fn ints(v: &[u64]) -> J {
    J::Arr(v.iter().map(|x| J::from(*x)).collect())
}
impl Scenario {
    pub fn to_json(&self) -> J {
        J::obj()
            .set(
                "clients",
                self.clients.iter().map(|c| J::Arr(c.iter().map(Call::to_json).collect())).collect::<Vec<J>>(),
            )
            .set(
                "readers",
                self.readers
                    .iter()
                    .map(|r| {
                        J::Arr(
                            r.iter()
                                .map(|l| J::obj().set("kind", if l.combo { "combo" } else { "hand" }).set("player", l.player as u64).set("name", l.name.as_str()))
                                .collect(),
                        )
                    })
                    .collect::<Vec<J>>(),
            )
            .set("tokens", self.tokens.clone())
            .set("schedule", strategy_json(&self.strategy))
            .set("sched_seed", self.sched_seed)
            .set("random_seed", self.random_seed)
            .set(
                "faults",
                self.faults
                    .iter()
                    .map(|(s, f)| match f {
                        Fault::SetToken(t) => J::obj().set("step", *s).set("do", "set_token").set("token", *t),
                        Fault::Kill => J::obj().set("step", *s).set("do", "kill_worker"),
                        Fault::Stall(ns) => J::obj().set("step", *s).set("do", "stall").set("ns", *ns),
                    })
                    .collect::<Vec<J>>(),
            )
            .set("spawn_fail", ints(&self.spawn_fail))
            .set("random_fail", ints(&self.random_fail))
            .set("max_steps", self.max_steps)
    }
    pub fn from_json(j: &J) -> Scenario {
        Scenario {
            clients: j.get("clients").a().iter().map(|c| c.a().iter().map(Call::from_json).collect()).collect(),
            readers: j
                .get("readers")
                .a()
                .iter()
                .map(|r| {
                    r.a()
                        .iter()
                        .map(|l| Look { combo: l.get("kind").s() == "combo", player: l.get("player").u() as usize, name: l.get("name").s().into() })
                        .collect()
                })
                .collect(),
            tokens: j.get("tokens").a().iter().map(|x| x.b()).collect(),
            strategy: strategy_from(j.get("schedule")),
            sched_seed: j.get("sched_seed").u(),
            random_seed: j.get("random_seed").u(),
            faults: j
                .get("faults")
                .a()
                .iter()
                .map(|f| {
                    (
                        f.get("step").u(),
                        match f.get("do").s() {
                            "kill_worker" => Fault::Kill,
                            "stall" => Fault::Stall(f.get("ns").u()),
                            _ => Fault::SetToken(f.get("token").u() as usize),
                        },
                    )
                })
                .collect(),
            spawn_fail: j.get("spawn_fail").a().iter().map(|x| x.u()).collect(),
            random_fail: j.get("random_fail").a().iter().map(|x| x.u()).collect(),
            max_steps: j.get("max_steps").u(),
        }
    }
    pub fn one(call: Call, strategy: Strategy, sched_seed: u64, random_seed: u64) -> Scenario {
        Scenario {
            clients: vec![vec![call]],
            readers: vec![],
            tokens: vec![false],
            strategy,
            sched_seed,
            random_seed,
            faults: vec![],
            spawn_fail: vec![],
            random_fail: vec![],
            max_steps: 30_000_000,
        }
    }
}
impl Case {
    pub fn to_json(&self) -> J {
        J::obj()
            .set("property", self.prop.as_str())
            .set("family", self.family.as_str())
            .set("runs", self.runs.iter().map(Scenario::to_json).collect::<Vec<J>>())
    }
    pub fn from_json(j: &J) -> Case {
        Case {
            prop: j.get("property").s().to_string(),
            family: j.get("family").s().to_string(),
            runs: j.get("runs").a().iter().map(Scenario::from_json).collect(),
        }
    }
}
