//! Shrinks a failing case: every candidate is judged in a process of its own and kept when the same class of violation
//! remains.
use crate::json::J;
use crate::scenario::{Act, Case, Scenario};
use crate::{judge_in_child, Judged};
use simstd::sched::Strategy;
use std::collections::BTreeMap;
use std::path::Path;
use std::time::{Duration, Instant};

struct M<'a> {
    case: Case,
    prelude: Vec<Case>,
    v: Judged,
    scratch: &'a Path,
    end: Instant,
    timeout: Duration,
    trials: u64,
}
impl M<'_> {
    fn over(&self) -> bool {
        Instant::now() >= self.end
    }
    fn try_(&mut self, case: Case, prelude: Vec<Case>) -> bool {
        if self.over() {
            return false;
        }
        let sane = |s: &Scenario| s.clients.iter().flatten().all(|c| c.threads > 0 && c.token < s.tokens.len());
        if case.runs.is_empty() || !case.runs.iter().all(sane) {
            return false;
        }
        self.trials += 1;
        let p = self.scratch.join("try.json");
        let j = J::obj().set("prelude", prelude.iter().map(Case::to_json).collect::<Vec<J>>()).set("case", case.to_json());
        if std::fs::write(&p, j.to_string()).is_err() {
            return false;
        }
        match judge_in_child(&p, self.timeout) {
            Ok(Some(v)) if v.class == self.v.class => {
                self.case = case;
                self.prelude = prelude;
                self.v = v;
                true
            }
            _ => false,
        }
    }
    fn with(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.case.clone();
        f(&mut c);
        let p = self.prelude.clone();
        self.try_(c, p)
    }
}

/// The exact form of a request must stay within the generators' domain.
fn valid(c: &Case) -> bool {
    c.runs.iter().flat_map(|s| s.clients.iter().flatten()).all(|c| {
        let m = c.request();
        m.ranges.len() >= 2 && m.live().iter().all(|r| !r.is_empty()) && m.feasible_weighted() == Some(true)
    })
}

pub fn minimise(case: Case, prelude: Vec<Case>, v: Judged, scratch: &Path, budget: Duration) -> (Case, Vec<Case>, Judged) {
    let now = Instant::now();
    let timeout = if v.class == "hang" { Duration::from_secs(30) } else { Duration::from_secs(60) };
    let mut m = M { case, prelude, v, scratch, end: now + budget, timeout, trials: 0 };
    if m.v.class == "hang" {
        return (m.case, m.prelude, m.v);
    }
    let pooled = matches!(m.case.prop.as_str(), "C10" | "C11");
    let pairs = matches!(m.case.prop.as_str(), "C02" | "C07" | "C14") || m.case.family == "preset";
    let free = m.case.prop == "C15";
    // preceding cases
    let mut i = 0;
    while i < m.prelude.len() && !m.over() {
        let mut p = m.prelude.clone();
        p.remove(i);
        let c = m.case.clone();
        if !m.try_(c, p) {
            i += 1;
        }
    }
    // runs of the case
    let min_runs = if pooled { usize::MAX } else if pairs { 2 } else { 1 };
    let mut i = 0;
    while i < m.case.runs.len() && m.case.runs.len() > min_runs && !m.over() {
        if !m.with(|c| {
            c.runs.remove(i);
        }) {
            i += 1;
        }
    }
    // clients, calls, faults, callback actions
    for r in 0..m.case.runs.len() {
        let mut i = 1;
        while i < m.case.runs[r].clients.len() && !m.over() {
            if !m.with(|c| {
                c.runs[r].clients.remove(i);
            }) {
                i += 1;
            }
        }
        for cl in 0..m.case.runs[r].clients.len() {
            let mut i = 0;
            while m.case.runs[r].clients[cl].len() > 1 && i < m.case.runs[r].clients[cl].len() && !m.over() {
                if !m.with(|c| {
                    c.runs[r].clients[cl].remove(i);
                }) {
                    i += 1;
                }
            }
            for k in 0..m.case.runs[r].clients[cl].len() {
                let mut i = 0;
                while i < m.case.runs[r].clients[cl][k].cb.len() && !m.over() {
                    if !m.with(|c| {
                        c.runs[r].clients[cl][k].cb.remove(i);
                    }) {
                        i += 1;
                    }
                }
                for i in 0..m.case.runs[r].clients[cl][k].cb.len() {
                    if let Act::Stall(n) = m.case.runs[r].clients[cl][k].cb[i].act.clone() {
                        if n > 1000 {
                            m.with(|c| c.runs[r].clients[cl][k].cb[i].act = Act::Stall(1000));
                        }
                    }
                }
            }
        }
        let mut i = 0;
        while i < m.case.runs[r].readers.len() && !m.over() {
            if !m.with(|c| {
                c.runs[r].readers.remove(i);
            }) {
                let mut k = 0;
                while m.case.runs[r].readers[i].len() > 1 && k < m.case.runs[r].readers[i].len() && !m.over() {
                    if !m.with(|c| {
                        c.runs[r].readers[i].remove(k);
                    }) {
                        k += 1;
                    }
                }
                i += 1;
            }
        }
        for what in 0..3 {
            let len = |s: &Scenario| match what {
                0 => s.faults.len(),
                1 => s.spawn_fail.len(),
                _ => s.random_fail.len(),
            };
            let mut i = 0;
            while i < len(&m.case.runs[r]) && !m.over() {
                if !m.with(|c| match what {
                    0 => {
                        c.runs[r].faults.remove(i);
                    }
                    1 => {
                        c.runs[r].spawn_fail.remove(i);
                    }
                    _ => {
                        c.runs[r].random_fail.remove(i);
                    }
                }) {
                    i += 1;
                }
            }
        }
        // worker threads
        for cl in 0..m.case.runs[r].clients.len() {
            for k in 0..m.case.runs[r].clients[cl].len() {
                for t in [1u8, 2, 3, 4, 8] {
                    if t < m.case.runs[r].clients[cl][k].threads && m.with(|c| c.runs[r].clients[cl][k].threads = t) {
                        break;
                    }
                }
            }
        }
    }
    // the request: the same edit in every run that has the same ranges
    if m.case.runs.iter().all(|s| s.clients.len() == 1 && s.clients[0].len() == 1) {
        let same = m.case.runs.iter().all(|s| s.clients[0][0].ranges == m.case.runs[0].clients[0][0].ranges);
        if same {
            let edit = |m: &mut M, f: &dyn Fn(&mut crate::scenario::Call)| -> bool {
                let mut c = m.case.clone();
                for s in &mut c.runs {
                    f(&mut s.clients[0][0]);
                }
                if !free && !valid(&c) {
                    return false;
                }
                let p = m.prelude.clone();
                m.try_(c, p)
            };
            let mut p = 0;
            while p < m.case.runs[0].clients[0][0].ranges.len() && !m.over() {
                let more_than_two = m.case.runs[0].clients[0][0].ranges.len() > 2;
                if !(more_than_two && edit(&mut m, &|c| {
                    c.ranges.remove(p);
                })) {
                    p += 1;
                }
            }
            for p in 0..m.case.runs[0].clients[0][0].ranges.len() {
                let mut chunk = m.case.runs[0].clients[0][0].ranges[p].split(',').count() / 2;
                while chunk >= 1 && !m.over() {
                    let mut at = 0;
                    loop {
                        let toks: Vec<String> = m.case.runs[0].clients[0][0].ranges[p].split(',').map(|x| x.to_string()).collect();
                        if at >= toks.len() || toks.len() <= 1 || m.over() {
                            break;
                        }
                        let mut t = toks.clone();
                        t.drain(at..(at + chunk).min(toks.len()));
                        if t.is_empty() || !edit(&mut m, &|c| c.ranges[p] = t.join(",")) {
                            at += chunk;
                        }
                    }
                    chunk /= 2;
                }
                // plain weights
                if m.case.runs[0].clients[0][0].ranges[p].contains('@') {
                    edit(&mut m, &|c| {
                        c.ranges[p] = c.ranges[p].split(',').map(|t| t.split('@').next().unwrap()).collect::<Vec<_>>().join(",")
                    });
                }
            }
            edit(&mut m, &|c| c.dead = String::new());
        }
    }
    // the schedule, written out as deviations from "keep running the same thread", then reduced
    for r in 0..m.case.runs.len() {
        if m.over() || pooled {
            break;
        }
        if m.with(|c| c.runs[r].strategy = Strategy::Replay(BTreeMap::new())) {
            continue;
        }
        let dev: BTreeMap<u64, u32> = m
            .v
            .info
            .get("deviations_all")
            .a()
            .get(r)
            .map(|d| d.a().to_vec())
            .unwrap_or_else(|| m.v.info.get("deviations").a().to_vec())
            .iter()
            .map(|p| (p.a()[0].u(), p.a()[1].u() as u32))
            .collect();
        if !m.with(|c| c.runs[r].strategy = Strategy::Replay(dev.clone())) {
            continue;
        }
        let mut chunk = dev.len().div_ceil(2);
        while chunk >= 1 && !m.over() {
            let mut at = 0;
            loop {
                let cur: Vec<(u64, u32)> = match &m.case.runs[r].strategy {
                    Strategy::Replay(d) => d.iter().map(|(a, b)| (*a, *b)).collect(),
                    _ => vec![],
                };
                if at >= cur.len() || m.over() {
                    break;
                }
                let kept: BTreeMap<u64, u32> =
                    cur.iter().enumerate().filter(|(i, _)| *i < at || *i >= at + chunk).map(|(_, x)| *x).collect();
                if !m.with(|c| c.runs[r].strategy = Strategy::Replay(kept)) {
                    at += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    println!("minimised in {} trials", m.trials);
    (m.case, m.prelude, m.v)
}
