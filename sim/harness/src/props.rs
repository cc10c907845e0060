//! The workloads: for every property, what one case consists of. A case is a pure function of (seed, property, index).
use crate::gens::*;
use crate::model::{hand_name, RANKS};
use crate::scenario::{Act, Call, CbAct, Case, Fault, Look, Scenario};

pub const ALL: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C23", "C24"];

/// Number of cases of the quick check.
pub fn quick(prop: &str) -> u64 {
    match prop {
        "C01" => 12000,
        "C02" => 2700,
        "C03" => 8000,
        "C04" => 8000,
        "C05" => 8000,
        "C06" => 6000,
        "C07" => 2000,
        "C08" => 7000,
        "C09" => 6000,
        "C10" => 240,
        "C11" => 400,
        "C12" => 8000,
        "C13" => 5000,
        "C14" => 6000,
        "C15" => 9000,
        "C22" => 2500,
        "C23" => 240,
        "C24" => 4000,
        _ => 100,
    }
}

/// Is every case run in a process in which the crate has not been used before?
pub fn fresh(prop: &str) -> bool {
    prop == "C24"
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn make(prop: &str, seed: u64, index: u64) -> Case {
    let mut g = G::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(prop) ^ index.wrapping_mul(0xD1B54A32D192ED03));
    g.0.next();
    let g = &mut g;
    let (family, runs) = match prop {
        "C01" | "C03" => exact_runs(g, prop),
        "C02" => pairs(g),
        "C04" => breakdowns(g),
        "C05" => consistency(g),
        "C06" => cancels(g),
        "C07" => partials(g),
        "C08" => progress(g),
        "C09" => samples(g),
        "C10" => pooled(g),
        "C11" => stopping(g),
        "C12" => faults(g),
        "C13" => isolation(g),
        "C14" => overflow(g),
        "C15" => refusals(g),
        "C22" => liveness(g),
        "C23" => freshness(g),
        "C24" => first_use(g),
        p => panic!("unknown property {p}"),
    };
    Case { prop: prop.into(), family: family.into(), runs }
}

/// Many small requests, some with enough deals for several work reservations and many merges.
fn exact_request(g: &mut G) -> (Req, &'static str) {
    match g.weighted(&[55, 25, 12, 8]) {
        0 => {
            let max = g.pick(&[3e3, 5e4, 3e5]);
            (request(g, &Opts { cost: (1.0, max), ..Opts::default() }), "small")
        }
        1 => (request(g, &Opts { cost: (1e5, 2.5e6), n: (2, 5), ..Opts::default() }), "merging"),
        2 => {
            // large ranges on the turn or river: too big to be joined, several reservations
            let n = g.pick(&[2, 2, 3, 3, 4]);
            (request(g, &Opts { n: (n, n), board: [0, 0, 0, 0, 2, 3], cost: (3e5, 4e6), min_product: 1.2e4, full_deck: 70, ..Opts::default() }), "unjoined")
        }
        _ => {
            let n = g.r(5, 9);
            (request(g, &Opts { n: (n, n), cost: (1.0, 1e6), ..Opts::default() }), "many players")
        }
    }
}
fn exact_runs(g: &mut G, _prop: &str) -> (&'static str, Vec<Scenario>) {
    let (req, fam) = exact_request(g);
    let mut c = req.exact(threads(g));
    if g.p(15) {
        slow_callback(g, &mut c);
    }
    (fam, vec![scenario(g, c)])
}
fn pairs(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let (req, fam) = if g.p(25) {
        (request(g, &Opts { n: (2, 4), cost: (2e6, 1.2e7), ..Opts::default() }), "large")
    } else {
        exact_request(g)
    };
    let k = if fam == "large" { 2 } else { g.r(2, 4) };
    let mut runs = vec![];
    for i in 0..k {
        let t = if i == 0 && g.p(50) { 1 } else { threads(g) };
        let mut c = req.exact(t);
        if g.p(10) {
            slow_callback(g, &mut c);
        }
        runs.push(scenario(g, c));
    }
    (fam, runs)
}
const SAMPLE: Opts = Opts {
    n: (2, 9),
    board: [2, 1, 1, 3, 3, 3],
    cost: (1.0, 2e5),
    weights: Weights::Any,
    max_hands: 1326,
    full_deck: 15,
    min_product: 1.0,
    min_accept: 0.05,
};
/// `SAMPLE`, with a cheap reference
fn sample_request(g: &mut G) -> Req {
    let max = g.pick(&[2e3, 3e4, 3e5]);
    request(g, &Opts { cost: (1.0, max), ..SAMPLE })
}
fn sample_target(g: &mut G) -> f64 {
    g.pick(&[0.05, 0.02, 0.01, 0.005, 0.003])
}
fn breakdowns(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let b = [0, 0, 0, 4, 3, 3];
    match g.weighted(&[60, 20, 20]) {
        0 => {
            let max = g.pick(&[3e3, 1e5, 5e5]);
            let req = request(g, &Opts { board: b, cost: (1.0, max), ..Opts::default() });
            let c = req.exact(few_threads(g));
            ("exact", vec![scenario(g, c)])
        }
        1 => {
            let req = request(g, &Opts { board: b, cost: (1.0, 1e6), ..SAMPLE });
            let c = req.approx(few_threads(g), sample_target(g));
            ("sampled", vec![scenario(g, c)])
        }
        _ => {
            let exact = g.p(70);
            let req = request(g, &Opts { board: [0, 0, 0, 4, 3, 1], cost: (1e5, 3e6), n: (2, 5), ..if exact { Opts::default() } else { SAMPLE } });
            let t = few_threads(g);
            let c = if exact { req.exact(t) } else { req.approx(t, 1e-7) };
            let mut s = scenario(g, c);
            cancellation(g, &mut s, 0, 400);
            bound_sample(&mut s);
            ("cancelled", vec![s])
        }
    }
}
/// A sample that never converges must be cancelled at some point.
fn bound_sample(s: &mut Scenario) {
    let c = &s.clients[0][0];
    if !c.exact && c.target < 1e-5 {
        s.faults.push((600, Fault::SetToken(c.token)));
        s.max_steps = 60_000 + 2_000 * c.threads as u64;
    }
}
fn consistency(g: &mut G) -> (&'static str, Vec<Scenario>) {
    match g.weighted(&[30, 30, 20, 20]) {
        0 => {
            let (req, _) = exact_request(g);
            let c = req.exact(threads(g));
            ("exact", vec![scenario(g, c)])
        }
        1 => {
            let req = request(g, &Opts { cost: (3e4, 3e6), n: (2, 6), ..Opts::default() });
            let c = req.exact(few_threads(g));
            let mut s = scenario(g, c);
            cancellation(g, &mut s, 0, 400);
            ("exact cancelled", vec![s])
        }
        2 => {
            let req = sample_request(g);
            let c = req.approx(threads(g), sample_target(g));
            ("sampled", vec![scenario(g, c)])
        }
        _ => {
            let req = sample_request(g);
            let c = req.approx(few_threads(g), 1e-7);
            let mut s = scenario(g, c);
            cancellation(g, &mut s, 0, 300);
            bound_sample(&mut s);
            ("sampled cancelled", vec![s])
        }
    }
}
/// Ranges too large to be joined that share their first hands: the enumeration starts among conflicting deals.
fn conflict_heavy(g: &mut G) -> Req {
    let n = g.r(3, 7) as usize;
    let base = g.pick(&["A2+", "22+,A2+", "A2s+,K2s+,Q2s+,J2s+", "random", "K2+", "22+,AT+,KT+"]);
    let mut ranges = vec![base.to_string(); n];
    if g.p(30) {
        ranges[0] = g.pick(&["random", "22+", "T2+"]).to_string();
    }
    let mut deck: Vec<u8> = (0..48).collect();
    g.shuffle(&mut deck);
    let nb = g.pick(&[3usize, 3, 4]);
    Req { ranges, board: crate::model::mask_name(mask(&deck[..nb])), dead: String::new() }
}
fn cancels(g: &mut G) -> (&'static str, Vec<Scenario>) {
    match g.weighted(&[35, 25, 30, 10]) {
        0 => {
            // a large exact calculation
            let nb = g.pick(&[3usize, 3, 4, 5, 2]);
            let mut deck: Vec<u8> = (0..52).collect();
            g.shuffle(&mut deck);
            let n = g.r(2, 4) as usize;
            let ranges = (0..n)
                .map(|_| g.pick(&["random", "22+,A2+,K2+", "22+,A2s+,KT+", "A2+,K2+,Q2+,J2+", "T2+,92+,22-55"]).to_string())
                .collect();
            let req = Req { ranges, board: crate::model::mask_name(mask(&deck[..nb])), dead: String::new() };
            let c = req.exact(threads(g));
            let mut s = scenario(g, c);
            cancellation(g, &mut s, 0, 250);
            s.faults.push((600, Fault::SetToken(0)));
            s.max_steps = 200_000 + 4_000 * s.clients[0][0].threads as u64;
            ("exact", vec![s])
        }
        1 => {
            let req = conflict_heavy(g);
            let c = req.exact(few_threads(g));
            let mut s = scenario(g, c);
            if g.p(20) {
                s.tokens[0] = true;
            }
            s.faults.push((g.log(5, 300), Fault::SetToken(0)));
            s.max_steps = 20_000;
            ("conflicting", vec![s])
        }
        2 => {
            let req = sample_request(g);
            let c = req.approx(threads(g).min(64), g.pick(&[0.0, 1e-9, 1e-7]));
            let mut s = scenario(g, c);
            cancellation(g, &mut s, 0, 300);
            s.faults.push((500, Fault::SetToken(0)));
            s.max_steps = 60_000 + 2_000 * s.clients[0][0].threads as u64;
            ("sampled", vec![s])
        }
        _ => {
            let req = request(g, &Opts { n: (2, 3), board: [0, 0, 0, 3, 2, 0], cost: (1.5e6, 5e6), full_deck: 60, ..Opts::default() });
            let c = req.exact(1);
            let full = scenario(g, c);
            let c = req.exact(g.r(1, 3) as u8);
            let mut s = scenario(g, c);
            s.tokens[0] = true;
            ("preset", vec![full, s])
        }
    }
}
fn partials(g: &mut G) -> (&'static str, Vec<Scenario>) {
    // with single-hand opponents every deal shows up in a cell of its own, so that a deal counted twice is visible
    let (req, fam) = if g.p(65) {
        let n = g.pick(&[2usize, 2, 2, 3]);
        let mut r = request(g, &Opts { n: (n as u64, n as u64), board: [0, 0, 1, 3, 3, 0], cost: (1e5, 3e6), full_deck: 50, ..Opts::default() });
        let keep = g.u(n as u64) as usize;
        for p in 0..n {
            if p != keep {
                let m = r.model().live();
                let h = m[p].iter().find(|h| h.w > 0).unwrap();
                r.ranges[p] = hand_name(h.a, h.b);
            }
        }
        // a wide range for the remaining player
        let nm = r.model();
        let used = nm.live().iter().enumerate().filter(|(p, _)| *p != keep).fold(nm.board | nm.dead, |u, (_, l)| u | l[0].mask());
        let free: Vec<u8> = (0..52u8).filter(|c| used >> c & 1 == 0).collect();
        let mut toks = vec![];
        for i in 0..free.len() {
            for j in 0..i {
                toks.push(hand_name(free[i], free[j]));
            }
        }
        g.shuffle(&mut toks);
        toks.truncate(g.log(20, 1200) as usize);
        if g.p(50) {
            for t in toks.iter_mut() {
                *t = format!("{t}@{}", g.r(1, 100));
            }
        }
        r.ranges[keep] = toks.join(",");
        let feas = r.model().feasible_weighted() == Some(true);
        if feas {
            (r, "traced")
        } else {
            (request(g, &Opts { n: (2, 4), cost: (5e4, 2e6), ..Opts::default() }), "general")
        }
    } else {
        (request(g, &Opts { n: (2, 4), cost: (5e4, 2.5e6), ..Opts::default() }), "general")
    };
    let c = req.exact(1);
    let mut runs = vec![scenario(g, c)];
    for _ in 0..g.r(2, 5) {
        let c = req.exact(few_threads(g));
        let mut s = scenario(g, c);
        cancellation(g, &mut s, 0, 300);
        runs.push(s);
    }
    (fam, runs)
}
/// Two ranges that are too large to be joined, and whose last positions are all conflicting deals:
/// the last reservation of a worker then yields nothing.
fn conflicting_tail(g: &mut G) -> Req {
    let mut deck: Vec<u8> = (0..52).collect();
    g.shuffle(&mut deck);
    let nb = 3;
    let b = deck[..nb].to_vec();
    // ranges are kept in rank order: the hands with an ace come last
    let Some(x) = deck[nb..].iter().copied().find(|c| c >> 2 == 12) else { return conflicting_tail(g) };
    let rest: Vec<u8> = deck[nb..].iter().copied().filter(|c| *c != x).collect();
    let hero: Vec<String> = rest.iter().map(|c| hand_name(x, *c)).collect();
    let mut others: Vec<(u8, u8)> = vec![];
    for i in 0..rest.len() {
        for j in 0..i {
            if rest[i] >> 2 != 12 && rest[j] >> 2 != 12 {
                others.push((rest[i], rest[j]));
            }
        }
    }
    g.shuffle(&mut others);
    others.truncate(g.r(225, 420) as usize);
    let mut tail: Vec<u8> = rest.to_vec();
    if g.p(30) {
        tail.truncate(g.r(20, 48) as usize);
    }
    let mut villain: Vec<String> = others.iter().map(|(a, b)| hand_name(*a, *b)).collect();
    villain.extend(tail.iter().map(|c| hand_name(x, *c)));
    let mut ranges = vec![hero.join(","), villain.join(",")];
    if g.p(20) {
        ranges.swap(0, 1);
    }
    Req { ranges, board: crate::model::mask_name(mask(&b)), dead: String::new() }
}
fn progress(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let exact = g.p(65);
    let mut fam = if exact { "exact" } else { "sampled" };
    let mut s = if exact && g.p(12) {
        fam = "conflicting tail";
        let req = conflicting_tail(g);
        let c = req.exact(g.pick(&[1u8, 1, 2, 3]));
        scenario(g, c)
    } else if exact {
        let req = if g.p(40) { exact_request(g).0 } else { request(g, &Opts { cost: (5e4, 2e6), n: (2, 5), ..Opts::default() }) };
        let c = req.exact(threads(g));
        scenario(g, c)
    } else {
        let req = sample_request(g);
        let t = g.pick(&[0.3, 0.05, 0.01, 0.004]);
        let c = req.approx(threads(g), t);
        scenario(g, c)
    };
    if g.p(40) {
        slow_callback(g, &mut s.clients[0][0]);
    }
    if g.p(20) {
        cancellation(g, &mut s, 0, 300);
        fam = if fam == "conflicting tail" { fam } else if exact { "exact cancelled" } else { "sampled cancelled" };
    }
    (fam, vec![s])
}
fn samples(g: &mut G) -> (&'static str, Vec<Scenario>) {
    // few live cards: most illegal deals lead to an outcome that the enumeration excludes
    let req = match g.weighted(&[45, 30, 25]) {
        0 => request(g, &Opts { cost: (1.0, 3e3), full_deck: 0, ..SAMPLE }),
        1 => request(g, &Opts { cost: (1.0, 1e5), full_deck: 5, weights: Weights::Mixed, ..SAMPLE }),
        _ => sample_request(g),
    };
    let t = g.pick(&[0.05, 0.02, 0.008]);
    let c = req.approx(threads(g), t);
    let mut s = scenario(g, c);
    if g.p(25) {
        s.clients[0][0].target = 1e-7;
        cancellation(g, &mut s, 0, 200);
        bound_sample(&mut s);
    }
    ("sampled", vec![s])
}
fn pooled(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let (req, fam) = match g.weighted(&[35, 35, 30]) {
        0 => (request(g, &Opts { cost: (50.0, 5e4), full_deck: 0, n: (2, 6), max_hands: 12, ..SAMPLE }), "small deck"),
        1 => (request(g, &Opts { cost: (50.0, 5e5), n: (2, 5), weights: Weights::Mixed, max_hands: 30, ..SAMPLE }), "weighted"),
        _ => (request(g, &Opts { cost: (1e3, 3e6), n: (2, 5), min_product: 2e4, board: [0, 0, 0, 1, 2, 3], ..SAMPLE }), "unjoined"),
    };
    let target = g.pick(&[0.05, 0.02, 0.01]);
    let runs = (0..32)
        .map(|_| {
            let c = req.approx(few_threads(g), target);
            scenario(g, c)
        })
        .collect();
    (fam, runs)
}
fn stopping(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let spread = g.p(70);
    let opts = Opts { cost: (50.0, 1e6), n: (2, 6), max_hands: 60, weights: if spread { Weights::PerRange } else { Weights::Any }, min_accept: 0.1, ..SAMPLE };
    let req = request(g, &opts);
    let target = g.pick(&[0.02, 0.005, 0.002, 0.001, 0.0005]);
    let runs = (0..if spread { 12 } else { 4 })
        .map(|_| {
            let c = req.approx(threads(g).min(64), target);
            scenario(g, c)
        })
        .collect();
    (if spread { "spread" } else { "mixed weights" }, runs)
}
fn faults(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let exact = g.p(60);
    let one = |g: &mut G, exact: bool| -> Call {
        if exact {
            let max = g.pick(&[3e3, 1e5, 6e5]);
            let req = request(g, &Opts { cost: (1.0, max), n: (2, 5), ..Opts::default() });
            req.exact(few_threads(g))
        } else {
            let req = sample_request(g);
            req.approx(few_threads(g), g.pick(&[0.02, 0.01]))
        }
    };
    let c = one(g, exact);
    let mut s = scenario(g, c);
    let fam = match g.weighted(&[25, 35, 20, if exact { 0 } else { 20 }, 10]) {
        0 => {
            s.clients[0][0].cb.push(CbAct { at: g.log(1, 12) - 1, act: Act::Panic });
            "callback panic"
        }
        1 => {
            for _ in 0..g.r(1, 3) {
                s.faults.push((g.log(2, 200), Fault::Kill));
            }
            "worker death"
        }
        2 => {
            for _ in 0..g.r(1, 2) {
                s.spawn_fail.push(g.u(6));
            }
            "no thread"
        }
        3 => {
            s.random_fail.push(g.u(2));
            "no randomness"
        }
        _ => {
            s.clients[0][0].cb.push(CbAct { at: g.log(1, 8) - 1, act: Act::Panic });
            s.faults.push((g.log(2, 100), Fault::Kill));
            if g.p(50) {
                s.spawn_fail.push(g.u(4));
            }
            "several"
        }
    };
    // a later call in the same process, and sometimes a neighbour
    if g.p(60) {
        let e = g.p(70);
        let c = one(g, e);
        s.clients[0].push(c);
    }
    if g.p(30) {
        let e = g.p(70);
        let c = one(g, e);
        s.clients.push(vec![c]);
    }
    if g.p(20) {
        slow_callback(g, &mut s.clients[0][0]);
    }
    (fam, vec![s])
}
/// A request like `r` that differs in one respect, if there is one that can be dealt at a similar cost.
fn variant(g: &mut G, r: &Req) -> Req {
    let mut v = r.clone();
    let m = r.model();
    let n = r.ranges.len();
    match g.u(8) {
        0 => v.ranges.reverse(),
        1 => {
            // other dead card
            let free: Vec<u8> = (0..52u8).filter(|c| (m.board | m.dead) >> c & 1 == 0).collect();
            v.dead = crate::model::mask_name(m.dead | 1 << g.pick(&free));
        }
        2 => {
            // one range loses a part of its hands
            let p = g.u(n as u64) as usize;
            if v.ranges[p] == "random" {
                v.ranges[p] = g.pick(&["22+,A2+,K2+", "A2s+,K2s+,Q2s+,J2s+", "T2+,92+,82+"]).into();
            } else {
                let t: Vec<&str> = r.ranges[p].split(',').collect();
                let keep = g.r(1, t.len() as u64) as usize;
                v.ranges[p] = t[..keep].join(",");
            }
        }
        3 => {
            // one range is given other weights
            let p = g.u(n as u64) as usize;
            if v.ranges[p] != "random" {
                v.ranges[p] = r.ranges[p].split(',').map(|t| format!("{}@{}", t.split('@').next().unwrap(), g.pick(&[1, 20, 60, 100]))).collect::<Vec<_>>().join(",");
            }
        }
        4 => {
            // one board card is another one
            let bs: Vec<u8> = (0..52u8).filter(|c| m.board >> c & 1 == 1).collect();
            let free: Vec<u8> = (0..52u8).filter(|c| (m.board | m.dead) >> c & 1 == 0).collect();
            if !bs.is_empty() {
                v.board = crate::model::mask_name(m.board & !(1 << g.pick(&bs)) | 1 << g.pick(&free));
            }
        }
        5 => {
            // a player leaves
            if n > 2 {
                v.ranges.remove(g.u(n as u64) as usize);
            }
        }
        _ => {}
    }
    let m = v.model();
    let ok = 2 * m.ranges.len() as u32 + m.dead.count_ones() + 5 <= 52
        && m.live().iter().all(|l| !l.is_empty())
        && m.cost() <= 4e6
        && m.feasible_weighted() == Some(true)
        && acceptance(g, &m) > 0.05;
    if ok { v } else { r.clone() }
}
fn isolation(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let mut pool: Vec<Req> = vec![];
    // large ranges, so that several groups are not joined
    let big = g.p(25);
    let call = |g: &mut G, pool: &mut Vec<Req>| -> Call {
        let exact = g.p(65);
        // the same request again, or a variant of an earlier one, is where stale state shows
        let req = if !pool.is_empty() && g.p(60) {
            let r = g.pick(pool);
            variant(g, &r)
        } else {
            let r = if big {
                request(g, &Opts { n: (2, 3), board: [0, 0, 0, 0, 1, 3], cost: (1e4, 1.5e6), min_product: 1.2e4, full_deck: 70, ..SAMPLE })
            } else {
                let max = g.pick(&[3e3, 5e4, 3e5]);
                request(g, &Opts { cost: (1.0, max), n: (2, 5), ..SAMPLE })
            };
            pool.push(r.clone());
            r
        };
        let t = g.pick(&[1, 2, 2, 3, 4]);
        if exact { req.exact(t) } else { req.approx(t, g.pick(&[0.05, 0.02, 0.01])) }
    };
    let first = call(g, &mut pool);
    let mut s = scenario(g, first);
    let fam = match g.weighted(&[40, 25, 35]) {
        0 => {
            for _ in 0..g.r(1, 3) {
                let c = call(g, &mut pool);
                s.clients.push(vec![c]);
            }
            "side by side"
        }
        1 => {
            let inner = call(g, &mut pool);
            s.clients[0][0].cb.push(CbAct { at: g.pick(&[0, 0, 1, 2]), act: Act::Nested(Box::new(inner)) });
            if g.p(40) {
                let c = call(g, &mut pool);
                s.clients.push(vec![c]);
            }
            "nested"
        }
        _ => {
            for _ in 0..g.r(1, 3) {
                let c = call(g, &mut pool);
                s.clients[0].push(c);
            }
            "in sequence"
        }
    };
    // tokens: shared by all, or one each; sometimes one client of several is cancelled
    if g.p(50) {
        let mut k = 0;
        for (i, cl) in s.clients.iter_mut().enumerate() {
            for c in cl.iter_mut() {
                c.token = i;
            }
            k = i;
        }
        s.tokens = vec![false; k + 1];
        if k > 0 && g.p(50) {
            let v = g.u(k as u64 + 1) as usize;
            s.faults.push((g.log(1, 150), Fault::SetToken(v)));
        }
    }
    (fam, vec![s])
}
/// All deals together exceed 64 bits, but no hand, player or winner set does: the sums over combos and rows have to be scaled.
/// Every player holds pairs of a rank of their own; who has the highest card of the board's suit wins.
fn beyond(g: &mut G) -> Option<Scenario> {
    let n = g.pick(&[7usize, 8, 8, 9, 9]);
    let mut ranks: Vec<u8> = (0..13).collect();
    g.shuffle(&mut ranks);
    let suit = g.u(4) as u8;
    let mut suits: Vec<u8> = (0..4).filter(|s| *s != suit).collect();
    g.shuffle(&mut suits);
    let nb = g.pick(&[5usize, 5, 4, 3]);
    let free = &ranks[n..];
    let mut board: Vec<u8> = (0..nb.min(4)).map(|i| 4 * free[i] + if nb == 4 && i == 3 { suits[0] } else { suit }).collect();
    if nb == 5 {
        board.push(4 * free[g.u(4) as usize] + suits[1]);
    }
    let left = (52 - nb - 2 * n) as f64;
    let boards = [left * (left - 1.0) / 2.0, left, 1.0][nb - 3];
    let k = ((2.5e5 / boards).powf(1.0 / n as f64) as usize).clamp(2, 6);
    let bits = (64.1 + g.u(120) as f64 / 100.0 - (boards * (k as f64).powi(n as i32)).log2()) / n as f64;
    let mean = bits.exp2().min(92.0);
    let ranges = (0..n)
        .map(|p| {
            let mut pairs: Vec<(u8, u8)> = (0..4u8).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
            g.shuffle(&mut pairs);
            let mut w: Vec<u64> = (0..k).map(|_| ((mean * (0.85 + 0.3 * g.u(101) as f64 / 100.0)).round() as u64).clamp(1, 100)).collect();
            while w.iter().fold(0, |a, b| crate::model::gcd(a, *b)) > 1 {
                w[0] = if w[0] > 1 { w[0] - 1 } else { 1 };
            }
            pairs[..k].iter().zip(w).map(|((a, b), w)| format!("{}@{w}", hand_name(4 * ranks[p] + a, 4 * ranks[p] + b))).collect::<Vec<_>>().join(",")
        })
        .collect();
    let req = Req { ranges, board: crate::model::mask_name(mask(&board)), dead: String::new() };
    let c = req.exact(few_threads(g));
    let t = crate::judge::reference(&c);
    let fits = |x: u128| x < 1 << 64;
    let ok = t.sum >= 1 << 64 && t.by_mask.iter().all(|x| fits(*x)) && t.hands.iter().flatten().all(|h| fits(h.total));
    ok.then(|| scenario(g, c))
}
fn overflow(g: &mut G) -> (&'static str, Vec<Scenario>) {
    if g.p(4) {
        for _ in 0..4 {
            if let Some(s) = beyond(g) {
                return ("beyond", vec![s]);
            }
        }
    }
    let n = g.pick(&[5, 6, 7, 8, 8, 9, 9]);
    match g.weighted(&[35, 30, 15, 20]) {
        3 => {
            // weights that share no factor: products of up to 62 bits
            let n = g.r(4, 8);
            let req = request(g, &Opts { n: (n, n), weights: Weights::Mixed, cost: (1.0, 2e5), max_hands: 6, ..Opts::default() });
            let c = req.exact(few_threads(g));
            ("mixed", vec![scenario(g, c)])
        }
        0 => {
            // no weights written, or all 100
            let max = g.pick(&[200.0, 3e3, 5e4, 4e5]);
            let mut req = request(g, &Opts { n: (n, n), weights: Weights::Full, cost: (1.0, max), ..Opts::default() });
            if g.p(50) {
                for r in req.ranges.iter_mut() {
                    if r != "random" {
                        *r = r.split(',').map(|t| if t.contains('@') { t.to_string() } else { format!("{t}@100") }).collect::<Vec<_>>().join(",");
                    }
                }
            }
            let c = req.exact(few_threads(g));
            ("unweighted", vec![scenario(g, c)])
        }
        1 => {
            // the same request with the weights of some ranges multiplied
            let n = g.r(2, 9);
            let max = g.pick(&[200.0, 3e3, 5e4]);
            let req = request(g, &Opts { n: (n, n), weights: Weights::Full, cost: (1.0, max), ..Opts::default() });
            let mut small = req.clone();
            let mut big = req.clone();
            for p in 0..n as usize {
                if req.ranges[p].contains("random") || g.p(30) {
                    continue;
                }
                let k = g.pick(&[2u64, 3, 5, 10, 20, 50]);
                let (mut a, mut b) = (vec![], vec![]);
                let mixed = n <= 5 && g.p(60);
                for t in req.ranges[p].split(',') {
                    let t = t.split('@').next().unwrap();
                    let w = if mixed { g.r(1, 100 / k) } else { 1 };
                    a.push(format!("{t}@{w}"));
                    b.push(if w * k == 100 && g.p(50) { t.to_string() } else { format!("{t}@{}", w * k) });
                }
                small.ranges[p] = a.join(",");
                big.ranges[p] = b.join(",");
            }
            let a = small.exact(few_threads(g));
            let b = big.exact(few_threads(g));
            ("scaled", vec![scenario(g, a), scenario(g, b)])
        }
        _ => {
            let weights = g.pick(&[Weights::Full, Weights::PerRange]);
            let req = request(g, &Opts { n: (n, n), weights, cost: (1.0, 1e5), ..SAMPLE });
            let c = req.approx(few_threads(g), 0.01);
            ("sampled", vec![scenario(g, c)])
        }
    }
}
/// Contention: many workers with little work each, several callers, nested calls, stalled threads and slow callbacks.
fn liveness(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let call = |g: &mut G, max: f64, t: u8| -> Call {
        let mut c = if g.p(55) {
            let req = request(g, &Opts { cost: (1.0, max), n: (2, 6), ..Opts::default() });
            req.exact(t)
        } else {
            let req = request(g, &Opts { cost: (1.0, max.min(2e5)), n: (2, 6), ..SAMPLE });
            req.approx(t, g.pick(&[0.3, 0.05, 0.01]))
        };
        if g.p(40) {
            slow_callback(g, &mut c);
        }
        c
    };
    match g.weighted(&[30, 25, 25, 20]) {
        0 => {
            let t = g.pick(&[8, 16, 24, 32, 64, 100, 255]);
            let c = call(g, 1e5, t);
            ("many workers", vec![scenario(g, c)])
        }
        1 => {
            let t = threads(g);
            let c = call(g, 2e6, t);
            let mut s = scenario(g, c);
            for _ in 0..g.r(1, 6) {
                s.faults.push((g.log(1, 800), Fault::Stall(g.log(1_000_000, 600_000_000_000))));
            }
            ("stalled", vec![s])
        }
        2 => {
            let t = few_threads(g);
            let c = call(g, 2e5, t);
            let mut s = scenario(g, c);
            for _ in 0..g.r(1, 4) {
                let t = few_threads(g);
                let c = call(g, 2e5, t);
                s.clients.push(vec![c]);
            }
            ("several callers", vec![s])
        }
        _ => {
            let t = few_threads(g);
            let mut c = call(g, 3e5, t);
            let t = few_threads(g);
            let inner = call(g, 1e5, t);
            c.cb.push(CbAct { at: g.pick(&[0, 0, 1]), act: Act::Nested(Box::new(inner)) });
            ("nested", vec![scenario(g, c)])
        }
    }
}
fn first_use(g: &mut G) -> (&'static str, Vec<Scenario>) {
    if g.p(15) {
        let (_, s) = faults(g);
        return ("failing first use", s);
    }
    let call = |g: &mut G| -> Call {
        let t = few_threads(g);
        if g.p(65) {
            let b = g.pick(&[3e3, 3e4]);
            request(g, &Opts { cost: (1.0, b), n: (2, 5), ..Opts::default() }).exact(t)
        } else {
            request(g, &Opts { cost: (1.0, 3e3), n: (2, 5), ..SAMPLE }).approx(t, g.pick(&[0.3, 0.05]))
        }
    };
    let c = call(g);
    let mut s = scenario(g, c);
    let readers = if g.p(65) {
        for _ in 0..g.pick(&[0, 0, 1]) {
            let c = call(g);
            s.clients.push(vec![c]);
        }
        g.r(1, 6)
    } else {
        for _ in 0..g.r(1, 3) {
            let c = call(g);
            s.clients.push(vec![c]);
        }
        0
    };
    let combos = crate::model::all_combo_names();
    // often the same names in all threads
    let pool: Vec<Look> = (0..g.r(1, 40))
        .map(|_| {
            let combo = g.p(40);
            let x = g.u(52) as u8;
            let y = (x + 1 + g.u(51) as u8) % 52;
            let mut name = if combo { combos[g.u(169) as usize].clone() } else { hand_name(x.max(y), x.min(y)) };
            if g.p(8) {
                name = g.pick(&["", "AsAs", "XX", "AKs", "AsKs", "2sAs", "KAo", "AKx", "22s"]).to_string();
            }
            Look { combo, player: if g.p(4) { 7 } else { g.u(2) as usize }, name }
        })
        .collect();
    for _ in 0..readers {
        let n = g.r(1, 12);
        let list = (0..n).map(|_| pool[g.u(pool.len() as u64) as usize].clone()).collect();
        s.readers.push(list);
    }
    ("first use", vec![s])
}
fn freshness(g: &mut G) -> (&'static str, Vec<Scenario>) {
    if g.p(40) {
        // successive calls and calls of different processes
        // one hand per player: all that varies are the boards, which are drawn independently
        let mut req = request(g, &Opts { board: [0, 0, 1, 4, 4, 0], cost: (300.0, 1e6), n: (2, 4), full_deck: 60, ..SAMPLE });
        let mut used = 0;
        let live = req.model().live();
        for (r, l) in req.ranges.iter_mut().zip(live) {
            let free: Vec<_> = l.iter().filter(|h| h.mask() & used == 0).collect();
            if free.is_empty() {
                return freshness(g);
            }
            let h = g.pick(&free);
            used |= h.mask();
            *r = hand_name(h.a, h.b);
        }
        if g.p(60) {
            // many calls: as many samples as the randomness can tell apart
            let t = g.pick(&[1u8, 1, 1, 2]);
            let runs = (0..30)
                .map(|_| {
                    let c = req.approx(t, 0.3);
                    scenario(g, c)
                })
                .collect();
            return ("many calls", runs);
        }
        let t = g.pick(&[1u8, 1, 1, 2, 4]);
        let runs = (0..3)
            .map(|_| {
                let c = req.approx(t, 0.02);
                let mut s = scenario(g, c.clone());
                // the same schedule for all: only the system's randomness differs
                s.strategy = simstd::sched::Strategy::RoundRobin { quantum: 0 };
                s.faults.clear();
                s.clients[0].push(c);
                s
            })
            .collect();
        return ("calls", runs);
    }
    let opts = Opts { cost: (300.0, 1e6), n: (2, 5), max_hands: 60, min_product: 4.0, weights: Weights::PerRange, min_accept: 0.1, ..SAMPLE };
    let req = request(g, &opts);
    let t = g.pick(&[24u8, 32, 48, 64]);
    let target = g.pick(&[0.01, 0.002, 0.001]);
    let runs = (0..24)
        .map(|_| {
            let c = req.approx(t, target);
            scenario(g, c)
        })
        .collect();
    ("workers", runs)
}
fn refusals(g: &mut G) -> (&'static str, Vec<Scenario>) {
    let valid = |g: &mut G| -> Call {
        let req = request(g, &Opts { cost: (1.0, 3e4), n: (2, 5), ..SAMPLE });
        if g.p(65) { req.exact(few_threads(g)) } else { req.approx(few_threads(g), 0.02) }
    };
    fn cards(g: &mut G, k: usize) -> Vec<u8> {
        let mut d: Vec<u8> = (0..52).collect();
        g.shuffle(&mut d);
        d.truncate(k);
        d
    }
    let name = |v: &[u8]| crate::model::mask_name(mask(v));
    let invalid = |g: &mut G| -> Call {
        let base = request(g, &Opts { cost: (1.0, 3e4), n: (2, 6), ..SAMPLE });
        let mut c = if g.p(60) { base.exact(few_threads(g)) } else { base.approx(few_threads(g), 0.02) };
        match g.u(7) {
            0 => c.ranges.truncate(1),
            1 => c.ranges.clear(),
            2 => {
                let k = g.pick(&[10usize, 10, 11, 15, 30]);
                c.ranges = (0..k).map(|_| g.pick(&["random", "22+", "AK"]).to_string()).collect();
            }
            3 => {
                let k = g.pick(&[6usize, 6, 7, 10]);
                let b = cards(g, k);
                c.board = name(&b);
            }
            4 => {
                // one dead card more than the deal can spare
                let n = c.ranges.len();
                let k = 52 - 5 - 2 * n + g.pick(&[1, 1, 2]);
                let d = cards(g, k);
                c.dead = name(&d);
                c.board = String::new();
            }
            5 => {
                // a range without any hand left
                let p = g.u(c.ranges.len() as u64) as usize;
                if g.p(30) {
                    // none of its hands is ever dealt
                    let h = g.r(1, 4);
                    c.ranges[p] = (0..h).map(|_| format!("{}@0", g.pick(&["AA", "KQs", "72o", "55", "A5s", "JTo", "T9"]))).collect::<Vec<_>>().join(",");
                } else if c.board.len() >= 2 && g.p(70) {
                    let b = crate::model::parse_cards(&c.board);
                    let x = b.trailing_zeros() as u8;
                    let y = (0..52u8).find(|y| b >> y & 1 == 0).unwrap();
                    c.ranges[p] = hand_name(x, y);
                } else {
                    c.ranges[p] = String::new();
                }
            }
            _ => {
                c.ranges.truncate(1);
                let b = cards(g, 6);
                c.board = name(&b);
            }
        }
        if g.p(20) {
            c.threads = g.pick(&[1, 64, 255]);
        }
        c
    };
    match g.weighted(&[30, 20, 22, 18, 10]) {
        0 => {
            let c = invalid(g);
            let mut s = scenario(g, c);
            if g.p(50) {
                let c = invalid(g);
                s.clients[0].push(c);
            }
            if g.p(30) {
                let c = valid(g);
                s.clients[0].push(c);
            }
            if g.p(20) {
                s.tokens[0] = true;
                s.clients[0].retain(|c| c.request().live().iter().any(|r| r.iter().all(|h| h.w == 0)) || c.ranges.len() < 2);
                if s.clients[0].is_empty() {
                    s.tokens[0] = false;
                    let c = invalid(g);
                    s.clients[0].push(c);
                }
            }
            ("refused", vec![s])
        }
        1 => {
            let c = valid(g);
            let mut s = scenario(g, c);
            for _ in 0..g.r(1, 2) {
                let c = invalid(g);
                s.clients.push(vec![c]);
            }
            ("beside others", vec![s])
        }
        2 => {
            // every pair of ranges may be dealt, but not all of them together
            let r = g.r(1, 12) as usize;
            let a = RANKS[r] as char;
            let mut ranges: Vec<String> = match g.u(4) {
                // three pairs of one rank
                0 => vec![format!("{a}{a}"); 3],
                // five hands that each need one of four cards
                1 => {
                    let x = RANKS[g.u(r as u64) as usize] as char;
                    vec![format!("{a}{x}"); 5]
                }
                // wide ranges that all hold one of four cards: too large to be joined
                2 => {
                    let r = g.r(8, 12) as usize;
                    let a = RANKS[r] as char;
                    vec![format!("{a}2+"); 5]
                }
                _ => {
                    // two cards, three players, each needs one of them
                    let x = hand_name(4 * r as u8, 4 * (r as u8 - 1));
                    vec![x.clone(), format!("{a}{a}"), x]
                }
            };
            if g.p(40) {
                let at = g.u(ranges.len() as u64 + 1) as usize;
                ranges.insert(at, g.pick(&["22", "76s", "KQ", "random"]).to_string());
            }
            let large = ranges.iter().filter(|r| r.ends_with("2+")).count() >= 5;
            let free: Vec<u8> = (0..52u8).filter(|c| (c >> 2) as usize != r).collect();
            let nb = g.pick(&[0usize, 3, 4, 5]);
            let mut f = free.clone();
            g.shuffle(&mut f);
            if !large && g.p(35) {
                // hands that would make it dealable, if they were ever dealt
                for (k, range) in ranges.iter_mut().enumerate() {
                    if !["22", "76s", "KQ", "random"].contains(&range.as_str()) {
                        *range += &format!(",{}@0", hand_name(f[5 + 2 * k].max(f[6 + 2 * k]), f[5 + 2 * k].min(f[6 + 2 * k])));
                    }
                }
            }
            let mut req = Req { ranges, board: name(&f[..nb]), dead: String::new() };
            if large || req.ranges.iter().any(|r| r == "random") {
                // keep the number of joint positions small enough to be searched through
                let k = (52 - 5 - 2 * req.ranges.len()).min(g.r(20, 26) as usize);
                req.dead = name(&f[nb..nb + k]);
            }
            if g.p(8) {
                // four players, each needs one of three cards; too many combinations to be joined in advance
                let b = cards(g, 52);
                let key = &b[..3];
                let rest = &b[6..47];
                let mut toks = vec![];
                for k in key {
                    for r in rest {
                        toks.push(hand_name(*k, *r));
                    }
                }
                g.shuffle(&mut toks);
                req = Req { ranges: vec![toks.join(","); 4], board: name(&b[3..6]), dead: name(&b[47..]) };
            }
            let m = req.model();
            let product: f64 = m.live().iter().map(|l| l.len() as f64).product();
            if product > 3.5e8 || m.live().iter().any(|l| l.is_empty()) {
                req = Req { ranges: vec!["AA".into(); 3], board: String::new(), dead: String::new() };
            }
            let t = few_threads(g);
            let c = if g.p(60) { req.exact(t) } else { req.approx(t, 0.02) };
            ("undealable", vec![scenario(g, c)])
        }
        3 => {
            // all 52 cards are needed
            let n = g.r(2, 9) as usize;
            let k = 52 - 5 - 2 * n;
            let mut d = cards(g, 52);
            let dead: Vec<u8> = d.drain(..k).collect();
            let nb = g.pick(&[0usize, 0, 3, 5]);
            let b: Vec<u8> = d.drain(..nb).collect();
            let mut ranges = vec![];
            for _ in 0..n {
                let (x, y) = (d.pop().unwrap(), d.pop().unwrap());
                ranges.push(hand_name(x, y));
            }
            if g.p(50) {
                ranges[0] = format!("{},{}", ranges[0], ranges[1]);
                ranges[1] = ranges[0].clone();
            }
            let req = Req { ranges, board: name(&b), dead: name(&dead) };
            let t = few_threads(g);
            let c = if g.p(60) { req.exact(t) } else { req.approx(t, 0.02) };
            ("borderline", vec![scenario(g, c)])
        }
        _ => {
            // more joint positions than 64 bits can count
            let n = g.r(7, 9) as usize;
            let d = cards(g, 3);
            let mut pairs: Vec<(u8, u8)> = vec![];
            let free: Vec<u8> = (0..52u8).filter(|c| !d.contains(c)).collect();
            for i in 0..free.len() {
                for j in 0..i {
                    pairs.push((free[i], free[j]));
                }
            }
            let bits = if n == 7 { 10 } else { g.r(8, 10) };
            let mut ranges = vec![];
            for p in 0..n {
                let k = if g.p(80) || p > 0 { 1usize << bits } else { 1000 };
                // different first hands, so that the first positions can be dealt
                let (x, y) = (free[2 * p], free[2 * p + 1]);
                let mut v = pairs.clone();
                g.shuffle(&mut v);
                v.retain(|h| *h != (y, x));
                v.insert(0, (y, x));
                ranges.push(v[..k].iter().map(|(a, b)| hand_name(*a, *b)).collect::<Vec<_>>().join(","));
            }
            let req = Req { ranges, board: name(&d), dead: String::new() };
            let c = req.exact(few_threads(g));
            let mut s = scenario(g, c);
            s.faults.push((g.r(60, 200), Fault::SetToken(0)));
            s.max_steps = 20_000;
            ("huge", vec![s])
        }
    }
}
