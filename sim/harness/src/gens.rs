//! Seeded generators of requests, schedules and faults. Everything is a pure function of the generator's PRNG.
use crate::model::{card_name, hand_name, mask_name, Request, RANKS};
use crate::scenario::{Act, Call, CbAct, Fault, Scenario};
use simstd::sched::{Rng, Strategy};

pub struct G(pub Rng);
impl G {
    pub fn new(seed: u64) -> G {
        G(Rng::new(seed))
    }
    pub fn u(&mut self, n: u64) -> u64 {
        self.0.below(n)
    }
    /// lo..=hi
    pub fn r(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.0.below(hi - lo + 1)
    }
    pub fn p(&mut self, percent: u64) -> bool {
        self.0.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.0.below(v.len() as u64) as usize].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.0.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// log-uniform in lo..=hi
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo as f64).ln(), ((hi + 1) as f64).ln());
        let x = a + (b - a) * (self.0.below(1 << 30) as f64 / (1u64 << 30) as f64);
        (x.exp() as u64).clamp(lo, hi)
    }
    /// an index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.u(w.iter().sum());
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub n: (u64, u64),
    /// relative weight of 0..=5 board cards
    pub board: [u64; 6],
    /// bounds on model::Request::cost
    pub cost: (f64, f64),
    pub weights: Weights,
    /// most hands in one range
    pub max_hands: u64,
    /// percentage of requests on a full deck (no dead card)
    pub full_deck: u64,
    /// the product of the ranges' sizes is at least this
    pub min_product: f64,
    /// at most this many evaluations of crate code
    pub min_accept: f64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Weights {
    Any,
    /// all hands 100
    Full,
    /// one constant per range
    PerRange,
    /// different per hand
    Mixed,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts {
            n: (2, 9),
            board: [2, 1, 1, 3, 3, 3],
            cost: (1.0, 2.0e6),
            weights: Weights::Any,
            max_hands: 1326,
            full_deck: 20,
            min_product: 1.0,
            min_accept: 0.0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub ranges: Vec<String>,
    pub board: String,
    pub dead: String,
}
impl Req {
    pub fn model(&self) -> Request {
        Call {
            exact: true,
            ranges: self.ranges.clone(),
            board: self.board.clone(),
            dead: self.dead.clone(),
            threads: 1,
            target: 0.0,
            token: 0,
            cb: vec![],
        }
        .request()
    }
    pub fn exact(&self, threads: u8) -> Call {
        Call {
            exact: true,
            ranges: self.ranges.clone(),
            board: self.board.clone(),
            dead: self.dead.clone(),
            threads,
            target: 0.0,
            token: 0,
            cb: vec![],
        }
    }
    pub fn approx(&self, threads: u8, target: f64) -> Call {
        Call { exact: false, target, ..self.exact(threads) }
    }
}

fn binom(n: u64, k: u64) -> f64 {
    let mut x = 1.0;
    for i in 0..k {
        x *= (n - i) as f64 / (i + 1) as f64;
    }
    x
}
pub fn mask(v: &[u8]) -> u64 {
    v.iter().fold(0, |m, c| m | 1 << c)
}

/// A random board, sometimes of a special texture.
fn board(g: &mut G, deck: &mut Vec<u8>, k: usize) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let style = g.weighted(&[50, 12, 12, 10, 8, 8]);
    let suit = g.u(4) as u8;
    let rank = g.u(13) as u8;
    let lo = g.u(10) as u8;
    // ten runs of five ranks; the lowest starts with the ace
    let run = |c: u8, n: u8| -> bool {
        let r = c >> 2;
        if lo == 9 { r == 12 || r < n - 1 } else { (lo..lo + n).contains(&r) }
    };
    let pref = |c: u8, i: usize| -> bool {
        match style {
            1 => c & 3 == suit,                              // monotone
            2 => c >> 2 == rank || i >= 2,                   // paired and more
            3 => run(c, 5),                                  // connected
            4 => c & 3 == suit && run(c, 6),
            5 => c & 3 == suit || i >= 3,                    // three of a suit
            _ => true,
        }
    };
    g.shuffle(deck);
    for i in 0..k {
        let pos = deck.iter().position(|&c| pref(c, i)).unwrap_or(0);
        out.push(deck.remove(pos));
    }
    out
}

fn class_token(g: &mut G) -> String {
    let h = g.r(1, 12) as usize;
    let l = g.u(h as u64) as usize;
    let (a, b) = (RANKS[h] as char, RANKS[l] as char);
    let kind = g.pick(&["", "s", "o"]);
    match g.u(9) {
        0 => format!("{a}{a}"),
        1 => format!("{a}{a}+"),
        2 => format!("{a}{a}-{b}{b}"),
        3 => format!("{a}{b}{kind}+"),
        4 if l > 0 => {
            let l2 = g.u(l as u64) as usize;
            format!("{a}{b}{kind}-{a}{}{kind}", RANKS[l2] as char)
        }
        _ => format!("{a}{b}{kind}"),
    }
}

fn weight(g: &mut G, mode: u64, constant: u64) -> u64 {
    match mode {
        0 => 100,
        1 => constant,
        2 => g.r(1, 100),
        3 => g.pick(&[1, 50, 99, 100, 100, 7]),
        4 => g.pick(&[0, 1, 33, 100, 97, 83]),
        _ => g.pick(&[100, 100, 100, 100, 60]),
    }
}

pub fn request(g: &mut G, o: &Opts) -> Req {
    // a combination of wishes that (nearly) excludes itself is relaxed rather than given up
    for round in 0..24 {
        let o = Opts { cost: (o.cost.0 / 2f64.powi(round), o.cost.1 * 1.5f64.powi(round)), min_accept: o.min_accept, ..*o };
        for attempt in 0..1500 {
            if let Some(r) = try_request(g, &o, attempt) {
                return r;
            }
        }
    }
    panic!("generator cannot satisfy {o:?}");
}

fn try_request(g: &mut G, o: &Opts, attempt: u64) -> Option<Req> {
    let span = o.n.1 - o.n.0;
    let n = if o.n.0 == 2 && span > 0 {
        let x = g.weighted(&[40, 22, 12, 7, 5, 4, 4, 6]) as u64 + 2;
        if x > o.n.1 { g.r(2, o.n.1) } else { x }
    } else {
        g.r(o.n.0, o.n.1)
    } as usize;
    let nb = g.weighted(&o.board);
    let mut deck: Vec<u8> = (0..52).collect();
    let b = board(g, &mut deck, nb);
    // number of cards that are neither on the board nor dead: enough for the deal and within the documented limit
    let need = 2 * n + 5 - nb;
    let lo_live = need;
    let hi_live = 52 - nb;
    let live = if g.p(o.full_deck) {
        hi_live
    } else {
        let extra = g.log(1, (hi_live - lo_live + 1) as u64) as usize - 1;
        lo_live + extra
    };
    let n_dead = hi_live - live;
    // the calculators count dead cards against a full board
    if 2 * n + n_dead + 5 > 52 {
        return None;
    }
    if binom(live as u64, (5 - nb) as u64) * n as f64 * 2.0 > o.cost.1 {
        return None;
    }
    g.shuffle(&mut deck);
    // dead cards: random, or clustered on few ranks or suits
    if g.p(30) {
        let s = g.u(4) as u8;
        deck.sort_by_key(|c| (c & 3 != s) as u8);
    } else if g.p(30) {
        let r0 = g.u(13) as u8;
        deck.sort_by_key(|c| ((c >> 2) + 13 - r0) % 13);
    }
    let dead: Vec<u8> = deck[..n_dead].to_vec();
    let mut livec: Vec<u8> = deck[n_dead..].to_vec();
    g.shuffle(&mut livec);

    let boards = binom(live as u64, (5 - nb) as u64);
    let per = ((o.cost.1 / boards).powf(1.0 / n as f64)).max(1.0);
    let cap = (per * g.pick(&[0.6, 1.0, 1.5, 2.5])).max(1.0).min(o.max_hands as f64) as u64;
    let mode = match o.weights {
        Weights::Full => 0,
        Weights::PerRange => 1,
        Weights::Mixed => g.pick(&[2, 3, 4, 4]),
        Weights::Any => g.pick(&[0, 0, 1, 2, 3, 4, 5]),
    };
    let mut ranges: Vec<String> = vec![];
    for p in 0..n {
        let constant = if mode == 1 { g.pick(&[1, 2, 37, 50, 99, 100]) } else { 100 };
        // a range like another player's range is the common case at a table
        if p > 0 && g.p(15) {
            let q = g.u(p as u64) as usize;
            ranges.push(ranges[q].clone());
            continue;
        }
        let style = if live >= 40 && attempt % 3 != 2 { g.weighted(&[45, 45, 10]) } else { g.weighted(&[85, 10, 5]) };
        let mut toks: Vec<String> = vec![];
        match style {
            2 if cap >= 500 => toks.push("random".into()),
            1 => {
                for _ in 0..g.log(1, 6) {
                    let t = class_token(g);
                    let w = weight(g, mode, constant);
                    toks.push(if w == 100 && g.p(80) { t } else { format!("{t}@{w}") });
                }
            }
            _ => {
                let mut pairs: Vec<(u8, u8)> = vec![];
                for i in 0..livec.len() {
                    for j in 0..i {
                        pairs.push((livec[i], livec[j]));
                    }
                }
                g.shuffle(&mut pairs);
                match g.u(5) {
                    0 => pairs.sort_by_key(|(a, b)| (a >> 2 != b >> 2) as u8),
                    1 => pairs.sort_by_key(|(a, b)| (a & 3 != b & 3) as u8),
                    2 => {
                        let c = g.pick(&livec);
                        pairs.sort_by_key(|(a, b)| (*a != c && *b != c) as u8);
                    }
                    _ => {}
                }
                let k = g.log(1, cap.max(1)).min(pairs.len() as u64) as usize;
                let mut hs: Vec<(u8, u8)> = pairs[..k].to_vec();
                g.shuffle(&mut hs);
                for (a, b) in hs {
                    let w = weight(g, mode, constant);
                    let t = hand_name(a, b);
                    toks.push(if w == 100 && g.p(80) { t } else { format!("{t}@{w}") });
                }
                // hands that are blocked by the board or by dead cards must not matter
                if g.p(25) && !dead.is_empty() {
                    let d = g.pick(&dead);
                    let c = g.pick(&livec);
                    toks.push(hand_name(c, d));
                }
                if g.p(15) && !b.is_empty() {
                    let d = g.pick(&b);
                    let c = g.pick(&livec);
                    let at = g.u(toks.len() as u64 + 1) as usize;
                    toks.insert(at, hand_name(c, d));
                }
            }
        }
        ranges.push(toks.join(","));
    }
    let order = |v: &mut Vec<u8>, g: &mut G| {
        g.shuffle(v);
        v.iter().map(|c| card_name(*c)).collect::<String>()
    };
    let _ = order;
    let req = Req { ranges, board: mask_name(mask(&b)), dead: mask_name(mask(&dead)) };
    let m = req.model();
    let c = m.cost();
    if c < o.cost.0 || c > o.cost.1 {
        return None;
    }
    let lv = m.live();
    if lv.iter().any(|r| r.is_empty() || r.iter().all(|h| h.w == 0)) {
        return None;
    }
    if lv.iter().map(|r| r.len() as f64).product::<f64>() < o.min_product {
        return None;
    }
    if m.feasible_weighted() != Some(true) {
        return None;
    }
    // tallies must fit the crate's 64-bit counters after the common factor of every range's weights is taken out
    // (the rest is the subject of C14 and its known finding)
    if m.reduced_bound() > u64::MAX as f64 / 4.0 {
        return None;
    }
    if o.min_accept > 0.0 && m.reduced_max() > 1e11 {
        return None;
    }
    if o.min_accept > 0.0 && acceptance(g, &m) < o.min_accept {
        return None;
    }
    Some(req)
}

/// Fraction of independent draws of one hand per player that do not conflict.
pub fn acceptance(g: &mut G, m: &Request) -> f64 {
    let live = m.live();
    let mut ok = 0;
    for _ in 0..400 {
        let mut used = 0u64;
        let mut good = true;
        for r in &live {
            let h = r[g.u(r.len() as u64) as usize];
            if h.mask() & used != 0 {
                good = false;
                break;
            }
            used |= h.mask();
        }
        ok += good as u32;
    }
    ok as f64 / 400.0
}

pub fn threads(g: &mut G) -> u8 {
    match g.weighted(&[8, 20, 20, 30, 12, 7, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => g.r(2, 6) as u8,
        4 => 8,
        5 => g.r(9, 16) as u8,
        6 => g.r(17, 64) as u8,
        _ => g.pick(&[100, 200, 255]),
    }
}
pub fn few_threads(g: &mut G) -> u8 {
    g.pick(&[1, 2, 2, 3, 3, 4, 5, 8])
}

pub fn strategy(g: &mut G) -> Strategy {
    match g.weighted(&[35, 25, 12, 13, 15]) {
        0 => Strategy::Uniform { permille: g.pick(&[10, 50, 150, 400, 700, 1000]) },
        1 => Strategy::Pct { changes: g.r(1, 6) as u32, horizon: g.log(20, 3000) },
        2 => Strategy::RoundRobin { quantum: g.log(1, 30) as u32 - 1 },
        3 => Strategy::Starve {
            permille: g.pick(&[50, 300, 1000]),
            victim: g.u(12) as u32,
            from: g.log(1, 300) - 1,
            len: g.log(5, 3000),
        },
        _ => {
            let mut mask = 0u32;
            for _ in 0..g.r(1, 3) {
                mask |= 1 << g.pick(&[1u32, 4, 5, 6, 7, 8, 9, 10, 11, 16, 2]);
            }
            Strategy::OpBias { mask, permille: g.pick(&[100, 400, 800]) }
        }
    }
}
pub fn scenario(g: &mut G, call: Call) -> Scenario {
    let st = strategy(g);
    let (a, b) = (g.0.next() >> 1, g.0.next() >> 1);
    let mut s = Scenario::one(call, st, a, b);
    // stalled threads are part of every environment
    if g.p(25) {
        for _ in 0..g.r(1, 4) {
            s.faults.push((g.log(1, 400), Fault::Stall(g.log(1_000, 120_000_000_000))));
        }
    }
    s
}
/// stalls of the progress consumer: legal, and harmless for every property
pub fn slow_callback(g: &mut G, c: &mut Call) {
    for _ in 0..g.r(1, 3) {
        let at = g.log(1, 40) - 1;
        c.cb.push(CbAct { at, act: Act::Stall(g.log(1_000, 10_000_000)) });
    }
}
/// cancellation of token `t`: before the call, by another thread at some step, or by the callback
pub fn cancellation(g: &mut G, s: &mut Scenario, t: usize, horizon: u64) {
    match g.weighted(&[10, 55, 35]) {
        0 => s.tokens[t] = true,
        1 => s.faults.push((g.log(1, horizon), Fault::SetToken(t))),
        _ => {
            let at = g.log(1, 30) - 1;
            let c = &mut s.clients[0][0];
            c.cb.push(CbAct { at, act: Act::Cancel(t) });
        }
    }
}
