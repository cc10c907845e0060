//! Verdicts. Every judge looks only at the observable results, the recorded history and the reference model.
use crate::exec::{CallRec, Outcome, Ret};
use crate::model::{self, all_combo_names, category, combo_name, combo_size, gcd, hand_name, Request, Set4, Tally};
use crate::scenario::{Call, Case, Scenario};
use pokers::{SimulationResults, UnitResults};
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Verdict {
    pub class: String,
    pub msg: String,
}
pub type V = Result<(), Verdict>;
fn bad<T>(class: &str, msg: String) -> Result<T, Verdict> {
    Err(Verdict { class: class.into(), msg })
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { return bad($class, format!($($a)*)); } };
}

const REL: f64 = 1e-9;
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= REL * a.abs().max(b.abs())
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9
}

// ------------------------------------------------------------------ names
pub struct Names {
    /// hand_results index of each pair id
    pub idx: Vec<usize>,
    pub cards: Vec<(u8, u8)>,
    pub name: Vec<String>,
    pub combos: Vec<(String, Vec<usize>)>,
}
/// The correspondence between names and positions, observed through the public name lookup.
pub fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| {
        let r = crate::exec::numbered();
        let mut n = Names { idx: vec![0; 1326], cards: vec![(0, 0); 1326], name: vec![String::new(); 1326], combos: vec![] };
        let mut by: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for a in 0..52u8 {
            for b in 0..a {
                let id = model::pair_id(a, b);
                let name = hand_name(a, b);
                // a name that is not accepted is reported by the checks that use it
                n.idx[id] = r.get_hand_result(0, name.clone()).map(|u| u.wins as usize).unwrap_or(0);
                n.cards[id] = (a, b);
                n.name[id] = name;
                by.entry(combo_name(a, b)).or_default().push(id);
            }
        }
        n.combos = all_combo_names().into_iter().map(|c| (c.clone(), by.remove(&c).unwrap())).collect();
        n
    })
}
pub fn hand<'a>(r: &'a SimulationResults, p: usize, id: usize) -> &'a UnitResults {
    &r.hand_results[1326 * p + names().idx[id]]
}

// ------------------------------------------------------------------ the reference, cached per process
pub fn key(c: &Call) -> String {
    format!("{}|{}|{}", c.ranges.join(";"), c.board, c.dead)
}
thread_local! {
    static CACHE: std::cell::RefCell<HashMap<String, std::rc::Rc<Tally>>> = Default::default();
}
pub fn reference(c: &Call) -> std::rc::Rc<Tally> {
    CACHE.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 8 {
            m.clear();
        }
        m.entry(key(c)).or_insert_with(|| std::rc::Rc::new(c.request().enumerate())).clone()
    })
}

fn ok<'a>(c: &Call, rec: &'a CallRec) -> Result<&'a SimulationResults, Verdict> {
    match &rec.ret {
        Ret::Ok(r) => Ok(r),
        x => bad("not-accepted", format!("a dealable request was not answered: {} ({})", x.short(), key(c))),
    }
}
pub fn total(r: &SimulationResults) -> u128 {
    r.wins_by_mask.iter().map(|&x| x as u128).sum()
}

// ------------------------------------------------------------------ comparisons with the enumeration
/// Winner sets, wins, ties and equities of a complete exact result.
pub fn matches_tally(r: &SimulationResults, t: &Tally, ctx: &str) -> V {
    let n = t.n;
    ensure!(r.wins_by_mask.len() == 1 << n && r.wins.len() == n && r.ties.len() == n && r.equities.len() == n, "shape", "{ctx}: wrong lengths for {n} players");
    let sum = total(r);
    ensure!(sum > 0, "tally", "{ctx}: nothing was counted");
    let s = sum as f64 / t.sum as f64;
    for m in 0..1usize << n {
        let (got, want) = (r.wins_by_mask[m] as f64, t.by_mask[m] as f64 * s);
        ensure!(close(got, want), "winner-sets", "{ctx}: winner set {m:#b} counted {got}, enumeration {want} (scale {s})");
    }
    for p in 0..n {
        ensure!(close(r.wins[p] as f64, t.wins(p) as f64 * s), "wins", "{ctx}: wins[{p}] = {}, enumeration {}", r.wins[p], t.wins(p) as f64 * s);
        ensure!(close(r.ties[p], t.ties(p) * s), "ties", "{ctx}: ties[{p}] = {}, enumeration {}", r.ties[p], t.ties(p) * s);
        ensure!(near(r.equities[p], t.equity(p)), "equity", "{ctx}: equities[{p}] = {}, enumeration {}", r.equities[p], t.equity(p));
    }
    Ok(())
}
fn unit_eq(u: &UnitResults, wins: f64, ties: f64, total: f64, credit: f64, ctx: &str) -> V {
    ensure!(close(u.wins as f64, wins), "hand-wins", "{ctx}: wins {} expected {wins}", u.wins);
    ensure!(close(u.ties as f64, ties), "hand-ties", "{ctx}: ties {} expected {ties}", u.ties);
    ensure!(close(u.total as f64, total), "hand-total", "{ctx}: total {} expected {total}", u.total);
    ensure!(close(u.corrected_ties, credit), "hand-credit", "{ctx}: shared ties {} expected {credit}", u.corrected_ties);
    Ok(())
}
fn rates(u: &UnitResults, ctx: &str) -> V {
    if u.total > 0 {
        let t = u.total as f64;
        ensure!(near(u.equity, (u.wins as f64 + u.corrected_ties) / t), "hand-equity", "{ctx}: equity {} is not ({} + {}) / {}", u.equity, u.wins, u.corrected_ties, u.total);
        ensure!(near(u.winrate, u.wins as f64 / t), "hand-rates", "{ctx}: winrate {} is not {} / {}", u.winrate, u.wins, u.total);
        ensure!(near(u.tierate, u.ties as f64 / t), "hand-rates", "{ctx}: tierate {} is not {} / {}", u.tierate, u.ties, u.total);
    } else {
        ensure!(u.wins == 0 && u.ties == 0 && u.corrected_ties == 0.0, "hand-zero", "{ctx}: never dealt but wins {} ties {} credit {}", u.wins, u.ties, u.corrected_ties);
        ensure!(u.equity == 0.0 && u.winrate == 0.0 && u.tierate == 0.0, "hand-zero", "{ctx}: never dealt but equity {} winrate {} tierate {}", u.equity, u.winrate, u.tierate);
    }
    Ok(())
}
/// Per-hand and per-combo results by name.
pub fn hands_match(r: &SimulationResults, c: &Call, t: &Tally) -> V {
    let req = c.request();
    let live = req.live();
    let s = total(r) as f64 / t.sum as f64;
    let nm = names();
    for p in 0..t.n {
        let mut w: HashMap<usize, u8> = HashMap::new();
        for h in &live[p] {
            w.insert(h.id(), h.w);
        }
        let mut hands: Vec<UnitResults> = Vec::with_capacity(1326);
        for id in 0..1326 {
            let name = &nm.name[id];
            let u = match r.get_hand_result(p, name.clone()) {
                Ok(u) => u,
                Err(e) => return bad("hand-name", format!("lookup of hand {name}: {e}")),
            };
            let ctx = format!("player {p} hand {name}");
            let h = &t.hands[p][id];
            match w.get(&id) {
                Some(&wt) => {
                    ensure!(u.valid, "hand-valid", "{ctx} is in the range but not valid");
                    ensure!(u.weight == wt as u32, "hand-weight", "{ctx}: weight {} expected {wt}", u.weight);
                }
                None => {
                    ensure!(!u.valid, "hand-valid", "{ctx} is not in the range (or blocked) but valid");
                    ensure!(u.weight == 0, "hand-weight", "{ctx} is not in the range but has weight {}", u.weight);
                }
            }
            unit_eq(&u, h.wins as f64 * s, h.tied() as f64 * s, h.total as f64 * s, h.credit() * s, &ctx)?;
            rates(&u, &ctx)?;
            hands.push(u);
        }
        combos_match(r, p, &hands)?;
    }
    Ok(())
}
fn combos_match(r: &SimulationResults, p: usize, hands: &[UnitResults]) -> V {
    for (name, ids) in &names().combos {
        let u = match r.get_combo_result(p, name.clone()) {
            Ok(u) => u,
            Err(e) => return bad("combo-name", format!("lookup of combo {name}: {e}")),
        };
        let ctx = format!("player {p} combo {name}");
        let mut wins = 0u128;
        let mut ties = 0u128;
        let mut tot = 0u128;
        let mut credit = 0f64;
        let mut weight = 0u64;
        for &id in ids {
            let h = &hands[id];
            wins += h.wins as u128;
            ties += h.ties as u128;
            tot += h.total as u128;
            credit += h.corrected_ties;
            if h.total > 0 {
                weight += h.weight as u64;
            }
        }
        // sums beyond 64 bits may be scaled down: judge by rates only
        if tot <= u64::MAX as u128 {
            unit_eq(&u, wins as f64, ties as f64, tot as f64, credit, &ctx)?;
        }
        if tot > 0 {
            ensure!(u.valid, "combo-valid", "{ctx} has results but is not valid");
            let t = tot as f64;
            ensure!((u.equity - (wins as f64 + credit) / t).abs() < 1e-6, "combo-equity", "{ctx}: equity {} expected {}", u.equity, (wins as f64 + credit) / t);
            ensure!((u.winrate - wins as f64 / t).abs() < 1e-6, "combo-rates", "{ctx}: winrate {} expected {}", u.winrate, wins as f64 / t);
            ensure!((u.tierate - ties as f64 / t).abs() < 1e-6, "combo-rates", "{ctx}: tierate {} expected {}", u.tierate, ties as f64 / t);
            let (w, e) = (u.wins as f64 / u.total as f64, u.ties as f64 / u.total as f64);
            ensure!((w - wins as f64 / t).abs() < 1e-6 && (e - ties as f64 / t).abs() < 1e-6, "combo-counts", "{ctx}: {} wins and {} ties of {}, expected {wins} and {ties} of {tot}", u.wins, u.ties, u.total);
            ensure!(u.weight as u64 == weight / combo_size(name) as u64, "combo-weight", "{ctx}: weight {} expected {}", u.weight, weight / combo_size(name) as u64);
        } else {
            ensure!(u.equity == 0.0 && u.winrate == 0.0 && u.tierate == 0.0, "combo-zero", "{ctx} was never dealt but has rates {} {} {}", u.equity, u.winrate, u.tierate);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ board breakdown
pub fn breakdown(r: &SimulationResults, c: &Call) -> V {
    let req = c.request();
    let nb = req.board.count_ones();
    if nb < 3 {
        return Ok(());
    }
    let n = req.ranges.len();
    let live = req.live();
    ensure!(r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n, "rows-shape", "{} made-hand and {} draw rows for {n} players", r.board_results.len(), r.board_draws.len());
    let bs = Set4::from_mask(req.board);
    let bh = pokers::Hand::from_bit_mask(req.board);
    for p in 0..n {
        #[derive(Default, Clone)]
        struct Row {
            wins: u128,
            ties: u128,
            total: u128,
            credit: f64,
            weight: u64,
        }
        let mut made = vec![Row::default(); 9];
        let mut draws = vec![Row::default(); 10];
        for h in &live[p] {
            let u = hand(r, p, h.id());
            let name = hand_name(h.a, h.b);
            let cat = category(bs.with(h.a).with(h.b)) - 1;
            ensure!(u.rank == cat, "hand-category", "player {p} hand {name}: category {} on board {}, expected {cat}", u.rank, c.board);
            let marker = if nb < 5 { pokers::get_draw(pokers::Hand::from_hole_cards(h.a, h.b), bh, cat) } else { 0 };
            ensure!(u.draw == marker, "hand-draw", "player {p} hand {name}: draw marker {:#b} on board {}, expected {marker:#b}", u.draw, c.board);
            let mut rows: Vec<&mut Row> = vec![];
            let (a, b) = (&mut made, &mut draws);
            rows.push(&mut a[cat as usize]);
            for (k, row) in b.iter_mut().enumerate() {
                let m = u.draw;
                let in_row = match k {
                    0..=6 => m >> k & 1 == 1,
                    // bit 7 says the flush, flush draw or backdoor flush draw is to the nuts
                    7 => m >> 7 & 1 == 1 && m >> 6 & 1 == 1 && m >> 5 & 1 == 0,
                    8 => m >> 7 & 1 == 1 && m >> 5 & 1 == 1,
                    _ => m >> 7 & 1 == 1 && m >> 6 & 1 == 0 && m >> 5 & 1 == 0,
                };
                if in_row {
                    rows.push(row);
                }
            }
            for row in rows {
                row.wins += u.wins as u128;
                row.ties += u.ties as u128;
                row.total += u.total as u128;
                row.credit += u.corrected_ties;
                row.weight += u.weight as u64;
            }
        }
        for (kind, rows, got) in [("made-hand", &made, &r.board_results[9 * p..9 * p + 9]), ("draw", &draws, &r.board_draws[10 * p..10 * p + 10])] {
            for (k, (w, g)) in rows.iter().zip(got).enumerate() {
                let ctx = format!("player {p} {kind} row {k}");
                if w.total > u64::MAX as u128 {
                    // such sums are scaled down: judge by rates
                    let t = w.total as f64;
                    for (what, got, want) in [("equity", g.equity, (w.wins as f64 + w.credit) / t), ("winrate", g.winrate, w.wins as f64 / t), ("tierate", g.tierate, w.credit / t), ("wins per deal", g.wins as f64 / g.total as f64, w.wins as f64 / t), ("ties per deal", g.ties as f64 / g.total as f64, w.ties as f64 / t)] {
                        ensure!((got - want).abs() < 1e-6, "row-equity", "{ctx}: {what} {got} expected {want}");
                    }
                    ensure!(g.weight as u64 == w.weight, "row-weight", "{ctx}: weight {} expected {}", g.weight, w.weight);
                    continue;
                }
                if w.total > 0 {
                    unit_eq(g, w.wins as f64, w.ties as f64, w.total as f64, w.credit, &ctx).map_err(|v| Verdict { class: format!("{kind}-row"), msg: v.msg })?;
                    ensure!(g.weight as u64 == w.weight, "row-weight", "{ctx}: weight {} expected {}", g.weight, w.weight);
                    let t = w.total as f64;
                    ensure!(near(g.equity, (w.wins as f64 + w.credit) / t), "row-equity", "{ctx}: equity {} expected {}", g.equity, (w.wins as f64 + w.credit) / t);
                    ensure!(near(g.winrate, w.wins as f64 / t), "row-equity", "{ctx}: winrate {} expected {}", g.winrate, w.wins as f64 / t);
                } else {
                    ensure!(g.wins == 0 && g.ties == 0 && g.total == 0 && g.corrected_ties == 0.0, "row-zero", "{ctx}: nothing belongs to it but it has wins {} ties {} total {}", g.wins, g.ties, g.total);
                }
            }
        }
        // together the made-hand rows are the player's whole result
        if made.iter().any(|w| w.total > u64::MAX as u128) {
            continue;
        }
        let sum: u128 = r.board_results[9 * p..9 * p + 9].iter().map(|g| g.total as u128).sum();
        ensure!(sum == total(r), "rows-partition", "player {p}: made-hand rows add up to {sum}, all deals to {}", total(r));
        let w: u128 = r.board_results[9 * p..9 * p + 9].iter().map(|g| g.wins as u128).sum();
        ensure!(w == r.wins[p] as u128, "rows-partition", "player {p}: wins of the made-hand rows add up to {w}, wins[{p}] = {}", r.wins[p]);
    }
    Ok(())
}

// ------------------------------------------------------------------ internal consistency
pub fn consistent(r: &SimulationResults, c: &Call) -> V {
    let n = c.ranges.len();
    ensure!(r.wins_by_mask.len() == 1 << n && r.wins.len() == n && r.ties.len() == n && r.equities.len() == n, "shape", "wrong lengths for {n} players");
    ensure!(r.hand_results.len() == 1326 * n && r.combo_results.len() == 169 * n, "shape", "{} hand and {} combo results for {n} players", r.hand_results.len(), r.combo_results.len());
    let t = total(r);
    ensure!(r.wins_by_mask[0] == 0, "empty-winner-set", "deals without a winner: {}", r.wins_by_mask[0]);
    ensure!(t == 0 || r.eval_count > 0, "eval-count", "deals of weight {t} but eval_count = 0");
    let req = c.request();
    if req.live().iter().all(|l| l.iter().all(|h| h.w > 0)) {
        ensure!(t >= r.eval_count as u128, "eval-count", "{} deals were evaluated, but they only weigh {t}", r.eval_count);
        if !c.exact && uniform_weights(c) && r.eval_count > 0 {
            ensure!(t % r.eval_count as u128 == 0, "eval-count", "{} deals of equal weight were evaluated, but the tallies amount to {t}", r.eval_count);
        }
    }
    for p in 0..n {
        let mut tie_credit = 0f64;
        let mut tie_weight = 0u128;
        for m in 0..1usize << n {
            if m >> p & 1 == 1 && m.count_ones() > 1 {
                tie_credit += r.wins_by_mask[m] as f64 / m.count_ones() as f64;
                tie_weight += r.wins_by_mask[m] as u128;
            }
        }
        ensure!(r.wins[p] == r.wins_by_mask[1 << p], "wins", "wins[{p}] = {} but the winner set has {}", r.wins[p], r.wins_by_mask[1 << p]);
        ensure!(close(r.ties[p], tie_credit), "ties", "ties[{p}] = {} but the winner sets give {tie_credit}", r.ties[p]);
        let hs = &r.hand_results[1326 * p..1326 * (p + 1)];
        let tot: u128 = hs.iter().map(|h| h.total as u128).sum();
        let wins: u128 = hs.iter().map(|h| h.wins as u128).sum();
        let ties: u128 = hs.iter().map(|h| h.ties as u128).sum();
        let credit: f64 = hs.iter().map(|h| h.corrected_ties).sum();
        ensure!(tot == t, "hand-conservation", "player {p}: totals of the hands add up to {tot}, winner sets to {t}");
        ensure!(wins == r.wins[p] as u128, "hand-conservation", "player {p}: wins of the hands add up to {wins}, wins[{p}] = {}", r.wins[p]);
        ensure!(ties == tie_weight, "hand-conservation", "player {p}: ties of the hands add up to {ties}, winner sets to {tie_weight}");
        ensure!(close(credit, tie_credit), "hand-conservation", "player {p}: shared ties of the hands add up to {credit}, winner sets to {tie_credit}");
    }
    if t == 0 {
        return Ok(());
    }
    let mut sum = 0.0;
    for p in 0..n {
        let e = r.equities[p];
        ensure!(e.is_finite() && (0.0..=1.0 + 1e-12).contains(&e), "equity-range", "equities[{p}] = {e}");
        ensure!(near(e, (r.wins[p] as f64 + r.ties[p]) / t as f64), "equity-share", "equities[{p}] = {e}, wins and ties give {}", (r.wins[p] as f64 + r.ties[p]) / t as f64);
        sum += e;
    }
    ensure!(near(sum, 1.0), "equity-sum", "equities add up to {sum}");
    for p in 0..n {
        for id in 0..1326 {
            let u = hand(r, p, id);
            ensure!(u.wins as u128 + u.ties as u128 <= u.total as u128, "hand-bound", "player {p} hand {}: {} wins + {} ties of {} deals", names().name[id], u.wins, u.ties, u.total);
            rates(u, &format!("player {p} hand {}", names().name[id]))?;
        }
    }
    for p in 0..n {
        let hands: Vec<UnitResults> = (0..1326).map(|id| hand(r, p, id).clone()).collect();
        combos_match(r, p, &hands)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ partial results
/// `r` is part of `s` times the enumeration.
pub fn part_of(r: &SimulationResults, t: &Tally, s: f64) -> V {
    let le = |a: f64, b: f64| a <= b * (1.0 + REL);
    for m in 0..1usize << t.n {
        ensure!(le(r.wins_by_mask[m] as f64, t.by_mask[m] as f64 * s), "part-winner-sets", "winner set {m:#b} counted {} of {}", r.wins_by_mask[m], t.by_mask[m] as f64 * s);
    }
    for p in 0..t.n {
        ensure!(le(r.ties[p], t.ties(p) * s), "part-ties", "ties[{p}] = {} of {}", r.ties[p], t.ties(p) * s);
        for id in 0..1326 {
            let (u, h) = (hand(r, p, id), &t.hands[p][id]);
            let ctx = || format!("player {p} hand {}", names().name[id]);
            ensure!(le(u.total as f64, h.total as f64 * s), "part-hands", "{}: {} deals of {}", ctx(), u.total, h.total as f64 * s);
            ensure!(le(u.wins as f64, h.wins as f64 * s), "part-hands", "{}: {} wins of {}", ctx(), u.wins, h.wins as f64 * s);
            ensure!(le(u.ties as f64, h.tied() as f64 * s), "part-hands", "{}: {} ties of {}", ctx(), u.ties, h.tied() as f64 * s);
        }
    }
    Ok(())
}
/// What has zero weight in the enumeration has zero count in a sample.
pub fn supported(r: &SimulationResults, c: &Call, t: &Tally) -> V {
    ensure!(r.wins_by_mask.len() == 1 << t.n, "shape", "wrong number of winner sets");
    for m in 0..1usize << t.n {
        ensure!(t.by_mask[m] > 0 || r.wins_by_mask[m] == 0, "impossible-winner-set", "winner set {m:#b} is impossible but was counted {}", r.wins_by_mask[m]);
    }
    let live = c.request().live();
    for p in 0..t.n {
        let g = live[p].iter().fold(0, |g, h| gcd(g, h.w as u64)).max(1);
        let mut unit: Vec<u64> = vec![1; 1326];
        for h in &live[p] {
            unit[h.id()] = (h.w as u64 / g).max(1);
        }
        for id in 0..1326 {
            let (u, h) = (hand(r, p, id), &t.hands[p][id]);
            let ctx = || format!("player {p} hand {}", names().name[id]);
            ensure!(h.total > 0 || u.total == 0, "impossible-hand", "{} cannot be dealt but was counted {}", ctx(), u.total);
            ensure!(h.wins > 0 || u.wins == 0, "impossible-win", "{} cannot win but was counted {}", ctx(), u.wins);
            ensure!(h.tied() > 0 || u.ties == 0, "impossible-tie", "{} cannot tie but was counted {}", ctx(), u.ties);
            ensure!(h.wins + h.tied() < h.total || u.wins as u128 + u.ties as u128 == u.total as u128, "impossible-loss", "{} cannot lose but won or tied only {} of {}", ctx(), u.wins as u128 + u.ties as u128, u.total);
            // a deal counts with the product of the weights of the hands in it
            ensure!(u.total % unit[id] == 0 && u.wins % unit[id] == 0 && u.ties % unit[id] == 0, "foreign-weight", "{}: counts {}/{}/{} are not multiples of its weight {}", ctx(), u.wins, u.ties, u.total, unit[id]);
        }
    }
    Ok(())
}
/// A converged sample of an uncancelled request.
pub fn converged(r: &SimulationResults, c: &Call, t: &Tally) -> V {
    ensure!(r.batch_count >= 10.0, "stopped-early", "stopped after {} batches", r.batch_count);
    ensure!(r.stdev.is_finite() && r.stdev <= 2.0 * c.target, "not-converged", "returned with a deviation of {} for a target of {}", r.stdev, c.target);
    ensure!((r.equities[0] - t.equity(0)).abs() <= 10.0 * c.target + 1e-9, "far-off", "equities[0] = {}, enumeration {}, target {}", r.equities[0], t.equity(0), c.target);
    Ok(())
}
/// The reported deviation is the standard error over the reported batches.
pub fn honest(r: &SimulationResults, uniform: bool) -> V {
    let (n, s, s2) = (r.batch_count, r.batch_sum, r.batch_sum2);
    let var = (s2 - s * s / n).max(0.0);
    let (lo, hi) = (var.sqrt() / n, (var + 4e-9).sqrt() / n);
    ensure!(r.stdev >= lo * (1.0 - 1e-6) - 1e-9 && r.stdev <= hi * (1.0 + 1e-6) + 1e-9, "deviation-formula", "stdev = {}, the {} batches give {lo}..{hi}", r.stdev, n);
    if uniform {
        ensure!((s / n - r.equities[0]).abs() < 1e-6, "batch-mean", "the mean of the {n} batches is {}, equities[0] = {}", s / n, r.equities[0]);
    }
    Ok(())
}

pub fn progress(c: &Call, rec: &CallRec, cancelled: bool, check_sends: bool) -> V {
    ensure!(!rec.reports.is_empty(), "no-progress", "no progress report was delivered");
    for (v, st) in &rec.reports {
        ensure!(*v <= 100, "progress-range", "progress {v} reported at step {st}");
    }
    if check_sends && rec.sends > 0 {
        ensure!(rec.sends == rec.reports.len() as u64, "progress-lost", "{} reports were sent, {} delivered before the call returned", rec.sends, rec.reports.len());
    }
    if c.exact {
        for w in rec.reports.windows(2) {
            ensure!(w[0].0 <= w[1].0, "progress-order", "progress {} at step {} follows {}", w[1].0, w[1].1, w[0].0);
        }
        if !cancelled {
            let l = rec.reports.last().unwrap().0;
            ensure!(l == 100, "progress-end", "the last progress report of a complete calculation is {l}");
        }
    }
    Ok(())
}

pub fn identical(a: &SimulationResults, b: &SimulationResults) -> V {
    ensure!(a.wins_by_mask == b.wins_by_mask, "schedule-dependent", "winner sets differ: {:?} and {:?}", nz(&a.wins_by_mask), nz(&b.wins_by_mask));
    ensure!(a.wins == b.wins, "schedule-dependent", "wins differ: {:?} and {:?}", a.wins, b.wins);
    for p in 0..a.wins.len() {
        ensure!(close(a.ties[p], b.ties[p]), "schedule-dependent", "ties[{p}] differ: {} and {}", a.ties[p], b.ties[p]);
        ensure!(near(a.equities[p], b.equities[p]), "schedule-dependent", "equities[{p}] differ: {} and {}", a.equities[p], b.equities[p]);
    }
    for (kind, x, y) in [
        ("hand", &a.hand_results, &b.hand_results),
        ("combo", &a.combo_results, &b.combo_results),
        ("made-hand row", &a.board_results, &b.board_results),
        ("draw row", &a.board_draws, &b.board_draws),
    ] {
        ensure!(x.len() == y.len(), "schedule-dependent", "number of {kind} results differs");
        for (i, (u, v)) in x.iter().zip(y.iter()).enumerate() {
            let same = u.wins == v.wins && u.ties == v.ties && u.total == v.total && u.weight == v.weight && u.valid == v.valid && u.rank == v.rank && u.draw == v.draw;
            let f = |p: f64, q: f64| (p.is_nan() && q.is_nan()) || close(p, q) || near(p, q);
            ensure!(same && f(u.corrected_ties, v.corrected_ties) && f(u.equity, v.equity) && f(u.winrate, v.winrate) && f(u.tierate, v.tierate), "schedule-dependent", "{kind} result {i} differs: {u:?} and {v:?}");
        }
    }
    Ok(())
}
fn nz(v: &[u64]) -> Vec<(usize, u64)> {
    v.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, x)| (i, *x)).collect()
}

// ------------------------------------------------------------------ judges per property
fn uniform_weights(c: &Call) -> bool {
    c.request().live().iter().all(|r| r.iter().all(|h| h.w == r[0].w))
}
fn cancelled(s: &Scenario, o: &Outcome, c: &Call) -> bool {
    s.tokens[c.token] || o.report.marks.contains_key(&(c.token as u32))
}
/// A call that nothing disturbed: its result is right.
fn undisturbed(c: &Call, rec: &CallRec) -> V {
    let r = ok(c, rec)?;
    let t = reference(c);
    if c.exact {
        matches_tally(r, &t, &format!("exact {}", key(c)))?;
        for p in 0..t.n {
            for id in 0..1326 {
                let (u, h) = (hand(r, p, id), &t.hands[p][id]);
                let s = total(r) as f64 / t.sum as f64;
                ensure!(close(u.total as f64, h.total as f64 * s) && close(u.wins as f64, h.wins as f64 * s), "hands", "player {p} hand {}: {} wins of {}, expected {} of {}", names().name[id], u.wins, u.total, h.wins as f64 * s, h.total as f64 * s);
            }
        }
    } else {
        supported(r, c, &t)?;
        consistent(r, c)?;
        converged(r, c, &t)?;
    }
    Ok(())
}
/// The hands of each range are marked valid and carry the caller's weights.
fn weights_reported(r: &SimulationResults, c: &Call) -> V {
    let live = c.request().live();
    for p in 0..live.len() {
        let mut w = vec![None; 1326];
        for h in &live[p] {
            w[h.id()] = Some(h.w as u32);
        }
        for id in 0..1326 {
            let u = hand(r, p, id);
            let want = w[id].unwrap_or(0);
            ensure!(u.valid == w[id].is_some() && u.weight == want, "hand-weight", "player {p} hand {}: weight {} (valid: {}), expected {want}", names().name[id], u.weight, u.valid);
        }
    }
    Ok(())
}
fn all_calls<'a>(s: &'a Scenario, o: &'a Outcome) -> Vec<(&'a Call, &'a CallRec)> {
    fn add<'a>(c: &'a Call, r: &'a CallRec, v: &mut Vec<(&'a Call, &'a CallRec)>) {
        v.push((c, r));
        for (c, r) in &r.nested {
            add(c, r, v);
        }
    }
    let mut v = vec![];
    for (cs, rs) in s.clients.iter().zip(&o.recs) {
        for (c, r) in cs.iter().zip(rs) {
            add(c, r, &mut v);
        }
    }
    v
}

pub fn judge(case: &Case, outs: &[Outcome]) -> V {
    match case.prop.as_str() {
        "C02" => {
            let first = &case.runs[0].clients[0][0];
            let a = ok(first, &outs[0].recs[0][0])?;
            for (s, o) in case.runs.iter().zip(outs).skip(1) {
                let b = ok(&s.clients[0][0], &o.recs[0][0])?;
                identical(a, b)?;
            }
            return Ok(());
        }
        "C10" => return pooled(case, outs),
        "C11" => return stopping(case, outs),
        "C23" => return fresh(case, outs),
        "C07" => return partial(case, outs),
        "C14" => return overflow(case, outs),
        _ => {}
    }
    for (s, o) in case.runs.iter().zip(outs) {
        judge_one(case, s, o)?;
    }
    if case.prop == "C06" && case.family == "preset" {
        // generous: the workers' first batches are a small part of this request
        let full = ok(&case.runs[0].clients[0][0], &outs[0].recs[0][0])?;
        let part = ok(&case.runs[1].clients[0][0], &outs[1].recs[0][0])?;
        ensure!(full.eval_count < 200_000 || part.eval_count as f64 <= 0.5 * full.eval_count as f64, "new-work", "the token was set before the call, but {} of {} evaluations were made", part.eval_count, full.eval_count);
    }
    Ok(())
}

fn judge_one(case: &Case, s: &Scenario, o: &Outcome) -> V {
    let calls = all_calls(s, o);
    match case.prop.as_str() {
        "C01" => {
            for (c, rec) in calls {
                let r = ok(c, rec)?;
                matches_tally(r, &reference(c), "exact")?;
            }
        }
        "C03" => {
            for (c, rec) in calls {
                hands_match(ok(c, rec)?, c, &reference(c))?;
            }
        }
        "C04" => {
            for (c, rec) in calls {
                let r = ok(c, rec)?;
                breakdown(r, c)?;
                if c.exact && !cancelled(s, o, c) {
                    rows_match(r, c)?;
                }
            }
        }
        "C05" => {
            for (c, rec) in calls {
                consistent(ok(c, rec)?, c)?;
            }
        }
        "C06" => {
            let c = &s.clients[0][0];
            let rec = &o.recs[0][0];
            let r = match &rec.ret {
                Ret::Ok(r) => r,
                // everything had been looked at, and nothing could be dealt
                Ret::Err(e) if e == "ConflictingRanges" && c.request().feasible_weighted() != Some(true) => return Ok(()),
                x => return bad("cancel-result", format!("a cancelled call did not return its partial result: {}", x.short())),
            };
            if let Some(m) = o.report.marks.get(&(c.token as u32)) {
                for (t, n) in o.report.sends.iter().enumerate() {
                    let before = m.sends.get(t).copied().unwrap_or(0);
                    ensure!(n - before <= 2, "slow-cancel", "worker thread {t} produced {} progress reports after the token was set at step {}", n - before, m.step);
                }
                let workers = c.threads as u64;
                let after = rec.reports.iter().filter(|(_, st)| *st > m.step).count() as u64;
                // reports already under way when the token was set may still be delivered
                let pending = m.total_sends.saturating_sub(rec.reports.iter().filter(|(_, st)| *st <= m.step).count() as u64);
                // (a transport of the crate's own, which the simulator does not see, may hold any number of them)
                let seen = o.report.total_sends >= rec.reports.len() as u64;
                ensure!(!seen || after <= 2 * workers + pending, "slow-cancel", "{after} progress reports after the token was set at step {} ({workers} workers, {pending} under way)", m.step);
            }
            ensure!(rec.leftover == 0, "cancel-leftover", "{} workers still running when the call returned", rec.leftover);
            let _ = r;
        }
        "C08" => {
            for (c, rec) in calls {
                ok(c, rec)?;
                progress(c, rec, cancelled(s, o, c), true)?;
            }
        }
        "C09" => {
            for (c, rec) in calls {
                supported(ok(c, rec)?, c, &reference(c))?;
            }
        }
        "C12" => faults(s, o)?,
        "C13" => {
            for (c, rec) in calls {
                if s.tokens[c.token] || touched(s, c.token) {
                    // someone cancels this one: only its own form is judged
                    let r = match &rec.ret {
                        Ret::Ok(r) => r,
                        x => return bad("cancelled-neighbour", format!("a cancelled call ended with {}", x.short())),
                    };
                    consistent(r, c)?;
                    continue;
                }
                ensure!(!rec.token_after, "token-written", "the cancel token was set by the library during {}", key(c));
                undisturbed(c, rec)?;
                weights_reported(ok(c, rec)?, c)?;
                progress(c, rec, false, false)?;
            }
            for (i, t) in o.tokens.iter().enumerate() {
                ensure!(*t == (s.tokens[i] || o.report.marks.contains_key(&(i as u32))), "token-written", "token {i} ended as {t}");
            }
        }
        "C15" => refused(case, s, o)?,
        "C22" => returns(s, o)?,
        "C24" => first_use(case, s, o)?,
        p => panic!("no judge for {p}"),
    }
    Ok(())
}

fn first_use(case: &Case, s: &Scenario, o: &Outcome) -> V {
    for ((list, got), quiet) in s.readers.iter().zip(&o.looks).zip(&o.quiet) {
        for ((l, got), quiet) in list.iter().zip(got).zip(quiet) {
            let what = format!("{} {:?} of player {}", if l.combo { "combo" } else { "hand" }, l.name, l.player);
            if l.player > 1 {
                // no such player: this lookup may fail as it likes
                ensure!(got == "panic" || got == "unknown", "wrong-lookup", "{what} gave entry {got} although there are two players");
                continue;
            }
            ensure!(got == quiet, "racing-lookup", "{what} gave {got} while other threads were looking names up, {quiet} afterwards");
            let known = if l.combo {
                all_combo_names().iter().position(|n| *n == l.name)
            } else {
                (0..1326).find(|id| names().name[*id] == l.name)
            };
            match known {
                None => ensure!(got == "unknown", "wrong-lookup", "{what} gave {got} although there is no such name"),
                Some(id) => {
                    let n: u64 = match got.parse() {
                        Ok(n) => n,
                        Err(_) => return bad("wrong-lookup", format!("{what} gave {got}")),
                    };
                    let each = if l.combo { 169 } else { 1326 };
                    ensure!(n / each == l.player as u64, "wrong-lookup", "{what} gave entry {n}, which is of another player");
                    if !l.combo {
                        let (a, b) = names().cards[id];
                        let want = 1326 * l.player + pokers::get_card_index(a, b);
                        ensure!(n == want as u64, "wrong-lookup", "{what} gave entry {n}, its position is {want}");
                    }
                }
            }
        }
    }
    if case.family == "failing first use" {
        return faults(s, o);
    }
    for (c, rec) in all_calls(s, o) {
        undisturbed(c, rec)?;
        if c.exact {
            hands_match(ok(c, rec)?, c, &reference(c))?;
        }
    }
    Ok(())
}

/// Is the token set by anyone in this scenario?
fn touched(s: &Scenario, t: usize) -> bool {
    use crate::scenario::{Act, Fault};
    fn call(c: &Call, t: usize) -> bool {
        c.cb.iter().any(|a| match &a.act {
            Act::Cancel(x) => *x == t,
            Act::Nested(n) => call(n, t),
            _ => false,
        })
    }
    s.faults.iter().any(|f| f.1 == Fault::SetToken(t)) || s.clients.iter().flatten().any(|c| call(c, t))
}

fn rows_match(r: &SimulationResults, c: &Call) -> V {
    let t = reference(c);
    let req = c.request();
    let bs = Set4::from_mask(req.board);
    let s = total(r) as f64 / t.sum as f64;
    for p in 0..t.n {
        let mut w = [0u128; 9];
        let mut tot = [0u128; 9];
        for h in req.live()[p].iter() {
            let k = category(bs.with(h.a).with(h.b)) as usize - 1;
            w[k] += t.hands[p][h.id()].wins;
            tot[k] += t.hands[p][h.id()].total;
        }
        for k in 0..9 {
            let g = &r.board_results[9 * p + k];
            ensure!(close(g.total as f64, tot[k] as f64 * s) && close(g.wins as f64, w[k] as f64 * s), "made-hand-row", "player {p} made-hand row {k}: {} wins of {}, enumeration {} of {}", g.wins, g.total, w[k] as f64 * s, tot[k] as f64 * s);
        }
    }
    Ok(())
}

fn partial(case: &Case, outs: &[Outcome]) -> V {
    let c0 = &case.runs[0].clients[0][0];
    let full = ok(c0, &outs[0].recs[0][0])?;
    let t = reference(c0);
    matches_tally(full, &t, "complete")?;
    let s = total(full) as f64 / t.sum as f64;
    for (sc, o) in case.runs.iter().zip(outs).skip(1) {
        let c = &sc.clients[0][0];
        let rec = &o.recs[0][0];
        let r = match &rec.ret {
            Ret::Ok(r) => r,
            x => return bad("cancel-result", format!("a cancelled exact call ended with {}", x.short())),
        };
        part_of(r, &t, s)?;
        consistent(r, c)?;
        if !cancelled(sc, o, c) {
            ensure!(total(r) == total(full), "incomplete", "the token was never set but only {} of {} was counted", total(r), total(full));
        }
    }
    Ok(())
}

fn overflow(case: &Case, outs: &[Outcome]) -> V {
    let mut eq: Vec<Vec<f64>> = vec![];
    for (s, o) in case.runs.iter().zip(outs) {
        let c = &s.clients[0][0];
        let r = ok(c, &o.recs[0][0])?;
        let t = reference(c);
        for p in 0..t.n {
            for id in 0..1326 {
                let u = hand(r, p, id);
                ensure!(u.wins as u128 + u.ties as u128 <= u.total as u128, "hand-bound", "player {p} hand {}: {} wins + {} ties of {} deals", names().name[id], u.wins, u.ties, u.total);
            }
        }
        if c.exact {
            matches_tally(r, &t, "exact")?;
            for p in 0..t.n {
                let s = total(r) as f64 / t.sum as f64;
                for id in 0..1326 {
                    let (u, h) = (hand(r, p, id), &t.hands[p][id]);
                    ensure!(close(u.total as f64, h.total as f64 * s) && close(u.wins as f64, h.wins as f64 * s) && close(u.ties as f64, h.tied() as f64 * s), "hand-tallies", "player {p} hand {}: {} wins, {} ties of {}; enumeration {}, {} of {}", names().name[id], u.wins, u.ties, u.total, h.wins as f64 * s, h.tied() as f64 * s, h.total as f64 * s);
                }
            }
            if case.family == "beyond" || case.family == "mixed" {
                hands_match(r, c, &t)?;
                breakdown(r, c)?;
            }
            eq.push(r.equities.clone());
        } else {
            consistent(r, c)?;
            converged(r, c, &t)?;
            for p in 0..t.n {
                ensure!((r.equities[p] - t.equity(p)).abs() < 0.08, "far-off", "equities[{p}] = {}, enumeration {}", r.equities[p], t.equity(p));
            }
        }
    }
    if case.family == "scaled" {
        for e in &eq[1..] {
            for p in 0..e.len() {
                ensure!(near(e[p], eq[0][p]), "weight-scaling", "scaling the weights changed equities[{p}] from {} to {}", eq[0][p], e[p]);
            }
        }
    }
    Ok(())
}

fn faults(s: &Scenario, o: &Outcome) -> V {
    // every fault that can make a call fail: (step, kind)
    let harmful: Vec<(u64, u8)> = o.report.faults.iter().copied().filter(|f| (1..=4).contains(&f.1)).collect();
    let mut failed = 0;
    let single = s.clients.len() == 1;
    for (c, rec) in all_calls(s, o) {
        let during: Vec<&(u64, u8)> = harmful.iter().filter(|f| f.0 >= rec.start && f.0 <= rec.end).collect();
        if rec.cb_panicked && matches!(rec.ret, Ret::Ok(_)) {
            return bad("swallowed-panic", "the progress callback panicked but the call returned Ok".into());
        }
        if single {
            ensure!(rec.leftover == 0, "leftover-worker", "{} workers still running when the call ended ({})", rec.leftover, rec.ret.short());
        }
        match &rec.ret {
            Ret::Ok(_) => {
                if !cancelled(s, o, c) {
                    undisturbed(c, rec).map_err(|v| Verdict { class: format!("wrong-success/{}", v.class), msg: format!("a call during or after faults {:?} returned Ok with a wrong result: {}", o.report.fired, v.msg) })?;
                }
            }
            x => {
                failed += 1;
                ensure!(!during.is_empty(), "failure-leaks", "a call that no fault touched ended with {} (faults: {:?})", x.short(), o.report.fired);
            }
        }
        ensure!(rec.token_after == (s.tokens[c.token] || o.report.marks.contains_key(&(c.token as u32))), "token-written", "the cancel token was changed");
    }
    ensure!(failed <= harmful.len().max(0), "failure-leaks", "{failed} calls failed but only {} faults struck: {:?}", harmful.len(), o.report.fired);
    Ok(())
}

fn refused(case: &Case, s: &Scenario, o: &Outcome) -> V {
    for (c, rec) in all_calls(s, o) {
        let req: Request = c.request();
        let n = req.ranges.len();
        let mut want: Vec<&str> = vec![];
        let mut inspection = true;
        if n < 2 {
            want.push("TooFewPlayers");
        }
        if n > 9 {
            want.push("TooManyPlayers");
        }
        if req.board.count_ones() > 5 {
            want.push("TooManyBoardCards");
        }
        if 2 * n as u32 + req.dead.count_ones() + 5 > 52 {
            want.push("TooManyDeadCards");
        }
        if n > 0 && req.live().iter().any(|r| r.iter().all(|h| h.w == 0)) {
            want.push("ConflictingRanges");
        }
        if want.is_empty() && case.family != "huge" {
            match req.feasible_weighted() {
                Some(true) => {}
                Some(false) => {
                    want.push("ConflictingRanges");
                    inspection = false;
                }
                None => continue,
            }
        }
        ensure!(rec.token_after == rec.token_before || o.report.marks.contains_key(&(c.token as u32)), "token-written", "the cancel token was changed");
        if want.is_empty() {
            let r = match &rec.ret {
                Ret::Ok(r) => r,
                x => return bad("wrongly-refused", format!("a dealable request was answered with {}: {}", x.short(), key(c))),
            };
            if case.family == "huge" {
                ensure!(cancelled(s, o, c), "ended-by-itself", "a request with more than 2^64 positions ended before it was cancelled");
                consistent(r, c)?;
            } else if cancelled(s, o, c) {
                consistent(r, c)?;
            } else {
                undisturbed(c, rec)?;
            }
        } else {
            match &rec.ret {
                Ret::Err(e) => ensure!(want.contains(&e.as_str()), "wrong-error", "refused with {e}, expected one of {want:?}: {}", key(c)),
                // cancelled before the search for a deal was over
                Ret::Ok(r) if !inspection && cancelled(s, o, c) && r.eval_count == 0 && total(r) == 0 => {}
                x => return bad("not-refused", format!("an impossible request ({want:?}) was answered with {}: {}", x.short(), key(c))),
            }
            if inspection {
                ensure!(rec.reports.is_empty(), "refused-progress", "a refused request reported progress {:?}", rec.reports);
                if s.clients.len() == 1 {
                    ensure!(rec.spawns == 0, "refused-spawn", "a refused request started {} workers", rec.spawns);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ pooled judgements over many seeds
struct Stat {
    name: String,
    want: f64,
    xs: Vec<f64>,
}
fn pooled(case: &Case, outs: &[Outcome]) -> V {
    let c = &case.runs[0].clients[0][0];
    let t = reference(c);
    let mut stats: Vec<Stat> = vec![];
    let mut evals = 0f64;
    let push = |stats: &mut Vec<Stat>, i: usize, first: bool, name: String, want: f64, x: f64| {
        if first {
            stats.push(Stat { name, want, xs: vec![] });
        }
        stats[i].xs.push(x);
    };
    let mut first = true;
    for (s, o) in case.runs.iter().zip(outs) {
        let r = ok(&s.clients[0][0], &o.recs[0][0])?;
        let tot = total(r) as f64;
        ensure!(tot > 0.0, "nothing-sampled", "an uncancelled sample of a dealable request counted nothing");
        evals += r.eval_count as f64;
        let mut i = 0;
        for p in 0..t.n {
            push(&mut stats, i, first, format!("equities[{p}]"), t.equity(p), r.equities[p]);
            i += 1;
            push(&mut stats, i, first, format!("tie share of player {p}"), t.ties(p) / t.sum as f64, r.ties[p] / tot);
            i += 1;
            let mut shown = 0;
            for id in 0..1326 {
                let h = &t.hands[p][id];
                let f = h.total as f64 / t.sum as f64;
                if f > 0.01 && shown < 40 {
                    shown += 1;
                    let u = hand(r, p, id);
                    push(&mut stats, i, first, format!("frequency of player {p} hand {}", names().name[id]), f, u.total as f64 / tot);
                    i += 1;
                    push(&mut stats, i, first, format!("equity share of player {p} hand {}", names().name[id]), (h.wins as f64 + h.credit()) / t.sum as f64, (u.wins as f64 + u.corrected_ties) / tot);
                    i += 1;
                }
            }
        }
        if t.n <= 4 {
            for m in 1..1usize << t.n {
                push(&mut stats, i, first, format!("frequency of winner set {m:#b}"), t.by_mask[m] as f64 / t.sum as f64, r.wins_by_mask[m] as f64 / tot);
                i += 1;
            }
        }
        first = false;
    }
    // weights make the evaluations count unequally
    let neff = evals * weight_efficiency(c);
    for s in &stats {
        let n = s.xs.len() as f64;
        let mean = s.xs.iter().sum::<f64>() / n;
        let var = s.xs.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0);
        let q = s.want.clamp(0.0, 1.0);
        let se = (var / n).sqrt().max((q * (1.0 - q) / neff).sqrt());
        let lim = 9.0 * se + 6.0 / neff + 1e-9;
        ensure!((mean - s.want).abs() <= lim, "biased", "{}: mean over {} seeds is {mean}, enumeration {}; the difference is {:.1} standard errors ({se:.3e})", s.name, s.xs.len(), s.want, (mean - s.want).abs() / se);
    }
    Ok(())
}
/// (sum w)^2 / (n sum w^2) over the ranges, a lower bound for the share of the evaluations that count.
fn weight_efficiency(c: &Call) -> f64 {
    let mut e = 1.0;
    for r in c.request().live() {
        let s: f64 = r.iter().map(|h| h.w as f64).sum();
        let s2: f64 = r.iter().map(|h| (h.w as f64).powi(2)).sum();
        e *= s * s / (r.len() as f64 * s2);
    }
    e
}
fn stopping(case: &Case, outs: &[Outcome]) -> V {
    let mut z2 = 0.0;
    let mut n = 0.0;
    for (s, o) in case.runs.iter().zip(outs) {
        let c = &s.clients[0][0];
        let t = reference(c);
        let r = ok(c, &o.recs[0][0])?;
        converged(r, c, &t)?;
        honest(r, uniform_weights(c))?;
        let k = c.threads as f64;
        if c.threads == 1 {
            ensure!(r.stdev <= c.target * (1.0 + 1e-9), "not-converged", "the only worker stopped with a deviation of {} for a target of {}", r.stdev, c.target);
        }
        if r.batch_count >= 150.0 + 10.0 * k {
            ensure!(r.stdev >= 0.6 * c.target, "stopped-late", "went on to {} batches and a deviation of {} for a target of {}", r.batch_count, r.stdev, c.target);
        }
        let e = t.equity(0);
        // a deviation dominated by its regularising constant says nothing about the scatter
        if r.stdev > 5e-6 && e > 0.02 && e < 0.98 {
            z2 += ((r.equities[0] - e) / r.stdev).powi(2);
            n += 1.0;
        }
    }
    if n >= 10.0 && case.family == "spread" {
        let rms = (z2 / n).sqrt();
        ensure!((0.12..=3.2).contains(&rms), "dishonest-deviation", "over {n} seeds the error is {rms:.2} times the reported deviation (root mean square)");
    }
    Ok(())
}

/// Liveness: the call came back (otherwise the run was aborted), with all of its workers, after a number of steps in proportion to its work.
fn returns(s: &Scenario, o: &Outcome) -> V {
    let calls = all_calls(s, o);
    let mut work = 0u64;
    for (c, rec) in &calls {
        let r = ok(c, rec)?;
        let live = c.request().live();
        let positions = live.iter().map(|l| l.len() as f64).product::<f64>().min(1e9) as u64;
        work += r.eval_count + if c.exact { positions } else { 0 } + 500 * (c.threads as u64 + rec.reports.len() as u64 + 20);
        if s.clients.len() == 1 && rec.nested.is_empty() && calls.len() == 1 {
            ensure!(rec.leftover == 0, "leftover-worker", "{} workers still running when the call returned", rec.leftover);
            ensure!(rec.spawns <= c.threads as u64 + 1, "too-many-workers", "{} threads were started for {} workers", rec.spawns, c.threads);
        }
        ensure!(!rec.reports.is_empty(), "no-progress", "no progress report was delivered");
    }
    ensure!(o.report.steps - o.report.spins <= 30 * work, "too-many-steps", "{} steps for work of {work}", o.report.steps);
    Ok(())
}

/// Fresh randomness: calls and workers do not repeat each other's samples.
fn fresh(case: &Case, outs: &[Outcome]) -> V {
    let c = &case.runs[0].clients[0][0];
    let t = reference(c);
    if case.family != "workers" {
        let rs: Vec<&SimulationResults> = case
            .runs
            .iter()
            .zip(outs)
            .flat_map(|(s, o)| s.clients.iter().flatten().zip(o.recs.iter().flatten()))
            .map(|(c, rec)| ok(c, rec))
            .collect::<Result<_, _>>()?;
        // the boards can tell samples apart: a winner set of intermediate frequency, many deals
        let f = t.by_mask.iter().map(|x| *x as f64 / t.sum as f64).map(|f| f * (1.0 - f)).fold(0.0, f64::max);
        let n = rs.iter().map(|r| r.eval_count).min().unwrap_or(0) as f64 * weight_efficiency(c);
        // the batch moments are of the first player's share
        let share = |m: usize| if m & 1 == 1 { 1.0 / m.count_ones() as f64 } else { 0.0 };
        let m1: f64 = t.by_mask.iter().enumerate().map(|(m, x)| share(m) * *x as f64 / t.sum as f64).sum();
        let m2: f64 = t.by_mask.iter().enumerate().map(|(m, x)| share(m).powi(2) * *x as f64 / t.sum as f64).sum();
        let f = f.min(m2 - m1 * m1);
        if f * n < 2000.0 {
            return Ok(());
        }
        let mut same = 0;
        let mut pairs = 0;
        for i in 0..rs.len() {
            for j in 0..i {
                pairs += 1;
                same += (rs[i].wins_by_mask == rs[j].wins_by_mask && rs[i].eval_count == rs[j].eval_count && (rs[i].batch_sum2 - rs[j].batch_sum2).abs() < 1e-9) as u32;
            }
        }
        if case.family == "many calls" {
            ensure!(f * n < 4000.0 || same < 2, "repeated-sample", "{same} of {pairs} pairs of calls with independent system randomness returned the same sample of {n} deals");
            return Ok(());
        }
        // independent samples practically never agree on all of this; six pairs are at least three equal calls, twice
        ensure!(same < 6, "repeated-sample", "{same} of {pairs} pairs of calls with independent system randomness returned the same sample of {n} deals");
        return Ok(());
    }
    let (mut z2, mut n, mut sum, mut m) = (0.0, 0.0, 0.0, 0.0);
    let e = t.equity(0);
    for (s, o) in case.runs.iter().zip(outs) {
        let c = &s.clients[0][0];
        let r = ok(c, &o.recs[0][0])?;
        if r.stdev > 5e-6 && e > 0.02 && e < 0.98 {
            z2 += ((r.equities[0] - e) / r.stdev).powi(2);
            n += 1.0;
        }
        sum += r.batch_count;
        m += 1.0;
    }
    if n >= 10.0 {
        let rms = (z2 / n as f64).sqrt();
        ensure!(rms <= 2.0, "repeated-sample", "{} workers, {:.0} batches: over {n} seeds the error is {rms:.2} times the reported deviation, as if workers drew the same deals", c.threads, sum / m);
    }
    Ok(())
}
