//! Reference model, written from the rules of poker and the documentation, sharing no code or table with the crate:
//! cards, range texts, hand strength, and the full enumeration of a request.
use std::sync::OnceLock;

pub const RANKS: &[u8; 13] = b"23456789TJQKA";
pub const SUITS: &[u8; 4] = b"shcd";

pub fn card_name(c: u8) -> String {
    format!("{}{}", RANKS[(c >> 2) as usize] as char, SUITS[(c & 3) as usize] as char)
}
pub fn mask_name(m: u64) -> String {
    (0..52).filter(|c| m >> c & 1 == 1).map(card_name).collect()
}
pub fn parse_cards(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut m = 0u64;
    let mut i = 0;
    while i + 1 < b.len() {
        let r = RANKS.iter().position(|&x| x == b[i].to_ascii_uppercase()).unwrap() as u64;
        let u = SUITS.iter().position(|&x| x == b[i + 1].to_ascii_lowercase()).unwrap() as u64;
        m |= 1 << (4 * r + u);
        i += 2;
    }
    m
}
/// "AsAh", "AsKh": higher rank first, equal ranks in the order s h c d
pub fn hand_name(a: u8, b: u8) -> String {
    let (x, y) = if a >> 2 > b >> 2 || (a >> 2 == b >> 2 && (a & 3) < (b & 3)) { (a, b) } else { (b, a) };
    format!("{}{}", card_name(x), card_name(y))
}
pub fn combo_name(a: u8, b: u8) -> String {
    let (h, l) = ((a >> 2).max(b >> 2), (a >> 2).min(b >> 2));
    let mut s = format!("{}{}", RANKS[h as usize] as char, RANKS[l as usize] as char);
    if h != l {
        s.push(if a & 3 == b & 3 { 's' } else { 'o' });
    }
    s
}
pub fn combo_size(name: &str) -> usize {
    if name.ends_with('s') { 4 } else if name.ends_with('o') { 12 } else { 6 }
}
pub fn all_combo_names() -> Vec<String> {
    let mut v = vec![];
    for h in 0..13usize {
        for l in 0..=h {
            let n = format!("{}{}", RANKS[h] as char, RANKS[l] as char);
            if h == l {
                v.push(n);
            } else {
                v.push(format!("{n}s"));
                v.push(format!("{n}o"));
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hole {
    pub a: u8,
    pub b: u8,
    pub w: u8,
}
impl Hole {
    pub fn mask(&self) -> u64 {
        1 << self.a | 1 << self.b
    }
    /// dense index of the unordered pair
    pub fn id(&self) -> usize {
        pair_id(self.a, self.b)
    }
}
pub fn pair_id(a: u8, b: u8) -> usize {
    let (h, l) = (a.max(b) as usize, a.min(b) as usize);
    h * (h - 1) / 2 + l
}

fn rank_of(c: u8) -> Option<u8> {
    RANKS.iter().position(|&x| x == c.to_ascii_uppercase()).map(|x| x as u8)
}
fn suit_of(c: u8) -> Option<u8> {
    SUITS.iter().position(|&x| x == c.to_ascii_lowercase()).map(|x| x as u8)
}
fn class(h: u8, l: u8, s: bool, o: bool, w: u8, out: &mut Vec<Hole>) {
    for a in 0..4u8 {
        for b in 0..4u8 {
            let (x, y) = (4 * h + a, 4 * l + b);
            if h == l && a <= b {
                continue;
            }
            if h != l && ((a == b && !s) || (a != b && !o)) {
                continue;
            }
            out.push(Hole { a: x, b: y, w });
        }
    }
}
/// Expands a range text of the subset of the notation that the generators use (high rank first).
pub fn expand(text: &str) -> Vec<Hole> {
    let mut v: Vec<Hole> = vec![];
    if text == "random" {
        for a in 0..52u8 {
            for b in 0..a {
                v.push(Hole { a, b, w: 100 });
            }
        }
        return v;
    }
    for tok in text.split(',') {
        if tok.is_empty() {
            continue;
        }
        let (body, w) = match tok.split_once('@') {
            Some((b, w)) => (b, w.parse::<u8>().expect("weight")),
            None => (tok, 100),
        };
        let b = body.as_bytes();
        let mut part: Vec<Hole> = vec![];
        if b.len() == 4 && suit_of(b[1]).is_some() && rank_of(b[2]).is_some() && suit_of(b[3]).is_some() {
            let x = 4 * rank_of(b[0]).unwrap() + suit_of(b[1]).unwrap();
            let y = 4 * rank_of(b[2]).unwrap() + suit_of(b[3]).unwrap();
            part.push(Hole { a: x.max(y), b: x.min(y), w });
        } else if let Some((x, y)) = body.split_once('-') {
            let (x, y) = (x.as_bytes(), y.as_bytes());
            let (h, l, l2) = (rank_of(x[0]).unwrap(), rank_of(x[1]).unwrap(), rank_of(y[1]).unwrap());
            let (s, o) = kind(x.get(2));
            if h == l {
                for r in l2..=h {
                    class(r, r, true, true, w, &mut part);
                }
            } else {
                for r in l2..=l {
                    class(h, r, s, o, w, &mut part);
                }
            }
        } else {
            let (h, l) = (rank_of(b[0]).unwrap(), rank_of(b[1]).unwrap());
            let plus = b.last() == Some(&b'+');
            let (s, o) = kind(b.get(2));
            if h == l {
                for r in h..=(if plus { 12 } else { h }) {
                    class(r, r, true, true, w, &mut part);
                }
            } else {
                for r in l..=(if plus { h - 1 } else { l }) {
                    class(h, r, s, o, w, &mut part);
                }
            }
        }
        for p in part {
            if !v.iter().any(|q| q.id() == p.id()) {
                v.push(p);
            }
        }
    }
    v
}
fn kind(c: Option<&u8>) -> (bool, bool) {
    match c {
        Some(b's') | Some(b'S') => (true, false),
        Some(b'o') | Some(b'O') => (false, true),
        _ => (true, true),
    }
}

// ------------------------------------------------------------------------------------------------ hand strength
struct Tab {
    /// highest rank of a straight in a 13-bit rank set, +1; 0 = none
    straight: Vec<u8>,
    /// the five highest ranks of a set, as a set
    top5: Vec<u16>,
}
fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut straight = vec![0u8; 8192];
        let mut top5 = vec![0u16; 8192];
        for m in 0..8192usize {
            for hi in (3..13usize).rev() {
                let need = if hi == 3 { 0b1_0000_0000_1111 } else { 0b11111 << (hi - 4) };
                if m & need == need {
                    straight[m] = hi as u8 + 1;
                    break;
                }
            }
            let mut t = m;
            while t.count_ones() > 5 {
                t &= t - 1;
            }
            top5[m] = t as u16;
        }
        Tab { straight, top5 }
    })
}
fn top(mut m: u32, n: u32) -> u32 {
    while m.count_ones() > n {
        m &= m - 1;
    }
    m
}
fn hi(m: u32) -> u32 {
    31 - m.leading_zeros()
}

#[derive(Clone, Copy, Default)]
pub struct Set4(pub [u16; 4]);
impl Set4 {
    pub fn from_mask(m: u64) -> Set4 {
        let mut s = Set4::default();
        for c in 0..52 {
            if m >> c & 1 == 1 {
                s.0[c & 3] |= 1 << (c >> 2);
            }
        }
        s
    }
    #[inline]
    pub fn with(mut self, c: u8) -> Set4 {
        self.0[(c & 3) as usize] |= 1 << (c >> 2);
        self
    }
}
/// Strength of the best five-card hand of up to 7 cards: category (1 = high card .. 9 = straight flush) in bits 28..,
/// then the tie-breaking ranks.
pub fn strength(s: Set4) -> u32 {
    let t = tab();
    let [a, b, c, d] = s.0.map(|x| x as u32);
    for f in [a, b, c, d] {
        if f.count_ones() >= 5 {
            let st = t.straight[f as usize];
            if st > 0 {
                return 9 << 28 | st as u32;
            }
            // with at most 7 cards, five of one suit exclude four of a kind and a full house
            return 6 << 28 | t.top5[f as usize] as u32;
        }
    }
    let any = a | b | c | d;
    let four = a & b & c & d;
    let two = (a & b) | (a & c) | (a & d) | (b & c) | (b & d) | (c & d);
    let three = (a & b & c) | (a & b & d) | (a & c & d) | (b & c & d);
    if four != 0 {
        let q = hi(four);
        let rest = any & !(1 << q);
        return 8 << 28 | q << 13 | if rest == 0 { 0 } else { 1 << hi(rest) };
    }
    if three != 0 {
        let x = hi(three);
        let pairs = two & !(1 << x);
        if pairs != 0 {
            return 7 << 28 | x << 8 | hi(pairs);
        }
    }
    let st = t.straight[any as usize];
    if st > 0 {
        return 5 << 28 | st as u32;
    }
    if three != 0 {
        let x = hi(three);
        return 4 << 28 | x << 13 | top(any & !(1 << x), 2);
    }
    if two != 0 {
        let x = hi(two);
        let second = two & !(1 << x);
        if second != 0 {
            let y = hi(second);
            let rest = any & !(1 << x) & !(1 << y);
            return 3 << 28 | x << 20 | y << 14 | if rest == 0 { 0 } else { 1 << hi(rest) };
        }
        return 2 << 28 | x << 13 | top(any & !(1 << x), 3);
    }
    1 << 28 | top(any, 5)
}
pub fn category(s: Set4) -> u8 {
    (strength(s) >> 28) as u8
}

// ------------------------------------------------------------------------------------------------ enumeration
#[derive(Clone, Debug)]
pub struct Request {
    pub ranges: Vec<Vec<Hole>>,
    pub board: u64,
    pub dead: u64,
}
#[derive(Clone, Debug, Default)]
pub struct HandTally {
    pub total: u128,
    pub wins: u128,
    /// ties[k]: weight of the deals tied k ways
    pub ties: [u128; 10],
}
impl HandTally {
    pub fn tied(&self) -> u128 {
        self.ties.iter().sum()
    }
    pub fn credit(&self) -> f64 {
        (2..10).map(|k| self.ties[k] as f64 / k as f64).sum()
    }
}
#[derive(Clone, Debug)]
pub struct Tally {
    pub n: usize,
    pub by_mask: Vec<u128>,
    /// per player, indexed by pair_id
    pub hands: Vec<Vec<HandTally>>,
    /// number of (deal, board) pairs
    pub deals: u128,
    pub sum: u128,
}
impl Tally {
    pub fn wins(&self, p: usize) -> u128 {
        self.by_mask[1 << p]
    }
    pub fn ties(&self, p: usize) -> f64 {
        (0..1usize << self.n)
            .filter(|m| m >> p & 1 == 1 && m.count_ones() > 1)
            .map(|m| self.by_mask[m] as f64 / m.count_ones() as f64)
            .sum()
    }
    pub fn equity(&self, p: usize) -> f64 {
        (self.wins(p) as f64 + self.ties(p)) / self.sum as f64
    }
}
impl Request {
    /// hands that are not blocked by board or dead cards
    pub fn live(&self) -> Vec<Vec<Hole>> {
        let used = self.board | self.dead;
        self.ranges.iter().map(|r| r.iter().copied().filter(|h| h.mask() & used == 0).collect()).collect()
    }
    pub fn boards(&self) -> f64 {
        let left = 52 - (self.board | self.dead).count_ones();
        let k = 5u32.saturating_sub(self.board.count_ones());
        let mut x = 1.0;
        for i in 0..k {
            x *= (left.saturating_sub(i)) as f64 / (i + 1) as f64;
        }
        x
    }
    /// rough upper bound on the number of elementary steps of `enumerate`
    pub fn cost(&self) -> f64 {
        let live = self.live();
        let prod: f64 = live.iter().map(|r| r.len() as f64).product();
        let sum: f64 = live.iter().map(|r| r.len() as f64).sum();
        self.boards() * (prod + 2.0 * sum)
    }
    /// Is there at least one joint deal of hole cards? (None: search budget exhausted)
    pub fn feasible(&self) -> Option<bool> {
        let mut live = self.live();
        live.sort_by_key(|r| r.len());
        let mut budget = 200_000_000u64;
        fn go(l: &[Vec<Hole>], used: u64, budget: &mut u64) -> Option<bool> {
            if l.is_empty() {
                return Some(true);
            }
            for h in &l[0] {
                if *budget == 0 {
                    return None;
                }
                *budget -= 1;
                if h.mask() & used == 0 {
                    match go(&l[1..], used | h.mask(), budget) {
                        Some(false) => {}
                        x => return x,
                    }
                }
            }
            Some(false)
        }
        go(&live, self.board | self.dead, &mut budget)
    }
    /// Is there at least one joint deal in which every hand has a positive weight?
    pub fn feasible_weighted(&self) -> Option<bool> {
        let mut r = self.clone();
        for x in &mut r.ranges {
            x.retain(|h| h.w > 0);
        }
        r.feasible()
    }
    /// Upper bound on the sum of the weights of all deals, once the common factor of every range's weights is taken out.
    pub fn reduced_bound(&self) -> f64 {
        let mut x = self.boards();
        for r in self.live() {
            let g = r.iter().fold(0u64, |g, h| gcd(g, h.w as u64)).max(1);
            x *= r.iter().map(|h| (h.w as u64 / g) as f64).sum::<f64>();
        }
        x
    }
    /// Largest weight of a single deal, once the common factor of every range's weights is taken out.
    pub fn reduced_max(&self) -> f64 {
        let mut x = 1.0;
        for r in self.live() {
            let g = r.iter().fold(0u64, |g, h| gcd(g, h.w as u64)).max(1);
            x *= r.iter().map(|h| (h.w as u64 / g) as f64).fold(0.0, f64::max);
        }
        x
    }
    pub fn enumerate(&self) -> Tally {
        let n = self.ranges.len();
        let live = self.live();
        let mut t = Tally {
            n,
            by_mask: vec![0; 1 << n],
            hands: vec![vec![HandTally::default(); 1326]; n],
            deals: 0,
            sum: 0,
        };
        let deck: Vec<u8> = (0..52u8).filter(|c| (self.board | self.dead) >> c & 1 == 0).collect();
        let k = 5 - self.board.count_ones() as usize;
        let mut pick: Vec<usize> = (0..k).collect();
        let mut score = vec![0u32; 1326];
        let mut stamp = vec![0u32; 1326];
        let mut round = 0u32;
        if k > deck.len() {
            return t;
        }
        loop {
            let mut b = self.board;
            for &i in &pick {
                b |= 1 << deck[i];
            }
            round += 1;
            let bs = Set4::from_mask(b);
            let lists: Vec<Vec<(u64, u32, u8, u16)>> = live
                .iter()
                .map(|r| {
                    r.iter()
                        .filter(|h| h.mask() & b == 0)
                        .map(|h| {
                            let id = h.id();
                            if stamp[id] != round {
                                stamp[id] = round;
                                score[id] = strength(bs.with(h.a).with(h.b));
                            }
                            (h.mask(), score[id], h.w, id as u16)
                        })
                        .collect()
                })
                .collect();
            rec(&mut t, &lists, 0, 0, 1, 0, 0, &mut [0u16; 9]);
            // next combination
            let mut i = k;
            loop {
                if i == 0 {
                    return t;
                }
                i -= 1;
                if pick[i] < deck.len() - k + i {
                    pick[i] += 1;
                    for j in i + 1..k {
                        pick[j] = pick[j - 1] + 1;
                    }
                    break;
                }
            }
        }
    }
}
pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
#[allow(clippy::too_many_arguments)]
fn rec(
    t: &mut Tally,
    l: &[Vec<(u64, u32, u8, u16)>],
    p: usize,
    used: u64,
    w: u128,
    best: u32,
    win: u16,
    ids: &mut [u16; 9],
) {
    if p == t.n {
        t.deals += 1;
        t.sum += w;
        t.by_mask[win as usize] += w;
        let k = win.count_ones() as usize;
        for q in 0..t.n {
            let h = &mut t.hands[q][ids[q] as usize];
            h.total += w;
            if win >> q & 1 == 1 {
                if k == 1 {
                    h.wins += w;
                } else {
                    h.ties[k] += w;
                }
            }
        }
        return;
    }
    for &(m, s, hw, id) in &l[p] {
        if m & used != 0 {
            continue;
        }
        ids[p] = id;
        let (b, wm) = match s.cmp(&best) {
            std::cmp::Ordering::Greater => (s, 1 << p),
            std::cmp::Ordering::Equal => (best, win | 1 << p),
            std::cmp::Ordering::Less => (best, win),
        };
        rec(t, l, p + 1, used | m, w * hw as u128, b, wm, ids);
    }
}
