//! Reference semantics of the human strategies: candidate states, what each pattern is, what it justifies.
use crate::model::*;
use sudoku::board::{CellState, Digit};
use sudoku::bitset::Set;
use sudoku::strategy::{Deduction, Strategy, StrategySolver};
use sudoku::board::Candidate;

pub const NAMES: [&str; 17] = [
    "NakedSingles", "HiddenSingles", "LockedCandidates", "NakedPairs", "NakedTriples", "NakedQuads", "HiddenPairs",
    "HiddenTriples", "HiddenQuads", "XWing", "Swordfish", "Jellyfish", "XyWing", "XyzWing", "MutantSwordfish",
    "MutantJellyfish", "AvoidableRectangles",
];
/// the order the documentation grades them in
pub const BY_DIFFICULTY: [usize; 14] = [0, 1, 2, 3, 9, 6, 4, 10, 7, 12, 13, 5, 11, 8];

pub fn api(s: usize) -> Strategy {
    use Strategy::*;
    [
        NakedSingles, HiddenSingles, LockedCandidates, NakedPairs, NakedTriples, NakedQuads, HiddenPairs, HiddenTriples,
        HiddenQuads, XWing, Swordfish, Jellyfish, XyWing, XyzWing, MutantSwordfish, MutantJellyfish, AvoidableRectangles,
    ][s]
        .clone()
}
pub fn index(s: &Strategy) -> usize {
    use Strategy::*;
    match s {
        NakedSingles => 0,
        HiddenSingles => 1,
        LockedCandidates => 2,
        NakedPairs => 3,
        NakedTriples => 4,
        NakedQuads => 5,
        HiddenPairs => 6,
        HiddenTriples => 7,
        HiddenQuads => 8,
        XWing => 9,
        Swordfish => 10,
        Jellyfish => 11,
        XyWing => 12,
        XyzWing => 13,
        MutantSwordfish => 14,
        MutantJellyfish => 15,
        AvoidableRectangles => 16,
        _ => 99,
    }
}
pub fn names(l: &[usize]) -> String {
    format!("[{}]", l.iter().map(|&s| NAMES[s]).collect::<Vec<_>>().join(", "))
}

/// A starting state: entered digits, and for empty cells the candidates that are not excluded from the outset.
#[derive(Clone, PartialEq, Eq)]
pub struct Start {
    pub dig: Grid,
    pub allowed: [u16; 81],
    /// the entered digits that the user inserts one by one into a solver built without them, in this order
    pub inserted: Vec<(usize, u8)>,
}
impl Start {
    pub fn of(g: &Grid) -> Start {
        Start { dig: *g, allowed: [511; 81], inserted: vec![] }
    }
    pub fn plain(&self) -> bool {
        (0..81).all(|c| self.dig[c] != 0 || self.allowed[c] == 511)
    }
    pub fn grid_state(&self) -> [CellState; 81] {
        std::array::from_fn(|c| match self.dig[c] {
            0 => CellState::Candidates(set(self.allowed[c])),
            d => CellState::Digit(Digit::new(d)),
        })
    }
    pub fn solver(&self) -> StrategySolver {
        if !self.inserted.is_empty() {
            let mut base = Start { inserted: vec![], ..self.clone() };
            self.inserted.iter().for_each(|&(c, _)| base.dig[c] = 0);
            let mut s = base.solver();
            for &(c, d) in &self.inserted {
                let _ = s.insert_candidate(Candidate { cell: sudoku::board::Cell::new(c as u8), digit: Digit::new(d) });
            }
            return s;
        }
        if self.plain() {
            StrategySolver::from_sudoku(crate::props::solving::su(&self.dig))
        } else {
            StrategySolver::from_grid_state(self.grid_state())
        }
    }
    pub fn masks(&self) -> [u16; 81] {
        std::array::from_fn(|c| match self.dig[c] {
            0 => self.allowed[c],
            d => 1 << (d - 1),
        })
    }
    pub fn show(&self) -> String {
        if !self.inserted.is_empty() {
            let base = Start { inserted: vec![], ..self.clone() };
            return format!("{} (of which (cell, digit) {:?} were inserted by hand)", base.show(), self.inserted);
        }
        if self.plain() {
            return line(&self.dig);
        }
        let m = |c: usize| match self.dig[c] {
            0 if self.allowed[c] == 511 => "*".to_string(),
            0 => format!("{{{}}}", digits(self.allowed[c])),
            d => d.to_string(),
        };
        (0..81).map(m).collect::<Vec<_>>().join(" ")
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.dig.to_vec();
        for m in self.allowed {
            v.extend(m.to_le_bytes());
        }
        v.extend(self.inserted.iter().flat_map(|x| [x.0 as u8, x.1]));
        v
    }
}
pub fn digits(m: u16) -> String {
    (0..9).filter(|k| m >> k & 1 == 1).map(|k| (b'1' + k as u8) as char).collect()
}
pub fn set(m: u16) -> Set<Digit> {
    Set::from_bits(m)
}
pub fn mask(s: Set<Digit>) -> u16 {
    s.into_iter().fold(0, |m, d| m | 1 << (d.get() - 1))
}
pub fn read_state(gs: &[CellState; 81]) -> (Grid, [u16; 81]) {
    let (mut d, mut m) = ([0; 81], [0; 81]);
    for c in 0..81 {
        match gs[c] {
            CellState::Digit(x) => d[c] = x.get(),
            CellState::Candidates(s) => m[c] = mask(s),
        }
    }
    (d, m)
}

/// Digits entered and, for empty cells, the remaining candidates.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pos {
    pub dig: Grid,
    pub cand: [u16; 81],
}
impl Pos {
    pub fn new(s: &Start) -> Pos {
        let mut p = Pos { dig: s.dig, cand: [0; 81] };
        for c in 0..81 {
            if s.dig[c] == 0 {
                p.cand[c] = s.allowed[c];
                for &q in &peers()[c] {
                    if s.dig[q] != 0 {
                        p.cand[c] &= !(1 << (s.dig[q] - 1));
                    }
                }
            }
        }
        p
    }
    pub fn has(&self, c: usize, d: u8) -> bool {
        self.cand[c] >> (d - 1) & 1 == 1
    }
    pub fn place(&mut self, c: usize, d: u8) {
        self.dig[c] = d;
        self.cand[c] = 0;
        for &q in &peers()[c] {
            self.cand[q] &= !(1 << (d - 1));
        }
    }
    pub fn eliminate(&mut self, c: usize, d: u8) {
        self.cand[c] &= !(1 << (d - 1));
    }
    /// no direct contradiction: no digit twice in a house, no empty cell without candidates
    pub fn locally_consistent(&self) -> bool {
        is_consistent(&self.dig) && (0..81).all(|c| self.dig[c] != 0 || self.cand[c] != 0)
    }
    pub fn placed_in(&self, h: usize) -> u16 {
        houses()[h].iter().fold(0, |m, &c| if self.dig[c] != 0 { m | 1 << (self.dig[c] - 1) } else { m })
    }
    /// positions (bits 0..9) of a digit's candidates in a house
    pub fn spots(&self, h: usize, d: u8) -> u16 {
        (0..9).fold(0, |m, k| m | (self.cand[houses()[h][k]] >> (d - 1) & 1) << k)
    }
    pub fn render(&self) -> String {
        (0..81)
            .map(|c| if self.dig[c] != 0 { self.dig[c].to_string() } else { format!("{{{}}}", digits(self.cand[c])) })
            .collect::<Vec<_>>()
            .join(" ")
    }
}

fn combos(k: u32) -> &'static Vec<u16> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
    &C.get_or_init(|| (0..=9u32).map(|k| (0..512u16).filter(|m| m.count_ones() == k).collect()).collect())[k as usize]
}
fn bits(m: u16) -> impl Iterator<Item = usize> {
    (0..9).filter(move |k| m >> k & 1 == 1)
}
fn spots_of(sp: &[u16; 9], ds: u16) -> u16 {
    bits(ds).fold(0, |m, d| m | sp[d])
}

/// An instance of strategy `s` that would change the state, if there is one.
pub fn applies(s: usize, p: &Pos) -> Option<String> {
    let h = houses();
    match s {
        0 => (0..81).find(|&c| p.cand[c].count_ones() == 1).map(|c| format!("naked single in cell {c}")),
        1 => {
            for i in 0..27 {
                let placed = p.placed_in(i);
                for d in 1..=9u8 {
                    if placed >> (d - 1) & 1 == 0 && p.spots(i, d).count_ones() == 1 {
                        return Some(format!("hidden single {d} in house {i}"));
                    }
                }
            }
            None
        }
        2 => {
            for line in 0..18 {
                for k in 0..3 {
                    let seg: Vec<usize> = (0..3).map(|j| h[line][k * 3 + j]).collect();
                    let b = 18 + blk(seg[0]);
                    let here = seg.iter().fold(0, |m, &c| m | p.cand[c]);
                    let out = |hh: usize| h[hh].iter().filter(|c| !seg.contains(c)).fold(0, |m, &c| m | p.cand[c]);
                    let (rest_line, rest_block) = (out(line), out(b));
                    if here & !rest_block & rest_line != 0 {
                        return Some(format!("pointing candidates {} of block {} in line {line}", digits(here & !rest_block & rest_line), b - 18));
                    }
                    if here & !rest_line & rest_block != 0 {
                        return Some(format!("claiming candidates {} of line {line} in block {}", digits(here & !rest_line & rest_block), b - 18));
                    }
                }
            }
            None
        }
        3..=5 => {
            let k = s as u32 - 1;
            for i in 0..27 {
                let c: [u16; 9] = std::array::from_fn(|j| p.cand[h[i][j]]);
                for &ps in combos(k) {
                    if bits(ps).any(|j| c[j] == 0) {
                        continue;
                    }
                    let u = spots_of(&c, ps);
                    if u.count_ones() == k && bits(511 & !ps).any(|j| c[j] & u != 0) {
                        return Some(format!("naked subset {} in house {i}, positions {:?}", digits(u), bits(ps).collect::<Vec<_>>()));
                    }
                }
            }
            None
        }
        6..=8 => {
            let k = s as u32 - 4;
            for i in 0..27 {
                let sp: [u16; 9] = std::array::from_fn(|d| p.spots(i, d as u8 + 1));
                for &ds in combos(k) {
                    if bits(ds).any(|d| sp[d] == 0) {
                        continue;
                    }
                    let u = spots_of(&sp, ds);
                    if u.count_ones() == k && bits(u).any(|j| p.cand[h[i][j]] & !ds != 0) {
                        return Some(format!("hidden subset {} in house {i}, positions {:?}", digits(ds), bits(u).collect::<Vec<_>>()));
                    }
                }
            }
            None
        }
        9..=11 => {
            let k = s as u32 - 7;
            for d in 1..=9u8 {
                for o in 0..2 {
                    let sp: [u16; 9] = std::array::from_fn(|l| p.spots(o * 9 + l, d));
                    for &ls in combos(k) {
                        // a line with a single candidate is a hidden single, not part of a fish
                        if bits(ls).any(|l| sp[l].count_ones() < 2) {
                            continue;
                        }
                        let u = spots_of(&sp, ls);
                        if u.count_ones() == k && bits(511 & !ls).any(|l| sp[l] & u != 0) {
                            return Some(format!("basic fish of {d} in {} {:?}", ["rows", "columns"][o], bits(ls).collect::<Vec<_>>()));
                        }
                    }
                }
            }
            None
        }
        12 | 13 => {
            let bi: Vec<usize> = (0..81).filter(|&c| p.cand[c].count_ones() == 2).collect();
            for hinge in 0..81 {
                let m = p.cand[hinge];
                if m.count_ones() != s as u32 - 10 {
                    continue;
                }
                for (i, &a) in bi.iter().enumerate() {
                    for &b in &bi[..i] {
                        let (x, y) = (p.cand[a], p.cand[b]);
                        let z = x & y;
                        if !sees(hinge, a) || !sees(hinge, b) || z.count_ones() != 1 || same_house3(hinge, a, b) {
                            continue;
                        }
                        let shape = if s == 12 { (x | y) & !z == m && m & z == 0 } else { x | y == m };
                        if !shape {
                            continue;
                        }
                        let hit = (0..81).find(|&c| c != hinge && p.cand[c] & z != 0 && sees(c, a) && sees(c, b) && (s == 12 || sees(c, hinge)));
                        if let Some(c) = hit {
                            return Some(format!("wing with hinge {hinge}, pincers {b} and {a} removing {} from cell {c}", digits(z)));
                        }
                    }
                }
            }
            None
        }
        _ => None,
    }
}
pub fn same_house3(a: usize, b: usize, c: usize) -> bool {
    houses().iter().any(|h| h.contains(&a) && h.contains(&b) && h.contains(&c))
}

pub struct Step {
    pub label: usize,
    pub place: Option<(usize, u8)>,
    pub gone: Vec<(usize, u8)>,
}

pub fn cand(c: &Candidate) -> (usize, u8) {
    (c.cell.get() as usize, c.digit.get())
}

/// Does the recorded deduction hold in state `p`: pattern present, every conflict implied by it and possible?
pub fn justify(d: &Deduction<&[Candidate]>, p: &Pos) -> Result<Step, String> {
    let h = houses();
    macro_rules! need {
        ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
    }
    let list = |cs: &[Candidate]| -> Result<Vec<(usize, u8)>, String> {
        let v: Vec<(usize, u8)> = cs.iter().map(cand).collect();
        need!(!v.is_empty(), "the step has no conflicts");
        for (i, x) in v.iter().enumerate() {
            need!(p.has(x.0, x.1), "conflict: {} was not a candidate of cell {}", x.1, x.0);
            need!(!v[..i].contains(x), "conflict listed twice: {} in cell {}", x.1, x.0);
        }
        Ok(v)
    };
    Ok(match *d {
        Deduction::NakedSingles(ref c) => {
            let (c, d) = cand(c);
            need!(p.dig[c] == 0, "cell {c} is already filled");
            need!(p.cand[c] == 1 << (d - 1), "cell {c} has the candidates {}, not only {d}", digits(p.cand[c]));
            Step { label: 0, place: Some((c, d)), gone: vec![] }
        }
        Deduction::HiddenSingles(ref c, t) => {
            use sudoku::board::positions::HouseType::*;
            let (c, d) = cand(c);
            let (i, want, got) = match t {
                Row(r) => (r.get() as usize, row(c), r.get() as usize),
                Col(k) => (9 + k.get() as usize, col(c), k.get() as usize),
                Block(b) => (18 + b.get() as usize, blk(c), b.get() as usize),
            };
            need!(want == got, "cell {c} does not lie in the named house {i}");
            need!(p.has(c, d), "{d} is not a candidate of cell {c}");
            need!(p.placed_in(i) >> (d - 1) & 1 == 0, "{d} is already placed in house {i}");
            need!(p.spots(i, d).count_ones() == 1, "{d} has several places in house {i}");
            Step { label: 1, place: Some((c, d)), gone: vec![] }
        }
        Deduction::LockedCandidates { digit, miniline, is_pointing, conflicts } => {
            let d = digit.get();
            let m = miniline.get() as usize;
            let (line, k) = if m < 27 { (m / 3, m % 3) } else { (9 + (m - 27) / 3, (m - 27) % 3) };
            let seg: Vec<usize> = (0..3).map(|j| h[line][k * 3 + j]).collect();
            let b = 18 + blk(seg[0]);
            need!(seg.iter().any(|&c| p.has(c, d)), "{d} is no candidate in miniline {m}");
            let (base, target) = if is_pointing { (b, line) } else { (line, b) };
            need!(h[base].iter().all(|c| seg.contains(c) || !p.has(*c, d)), "{d} has candidates in house {base} outside miniline {m}");
            let v = list(conflicts)?;
            for &(c, x) in &v {
                need!(x == d && h[target].contains(&c) && !seg.contains(&c), "conflict {x} in cell {c} does not follow from miniline {m}");
            }
            Step { label: 2, place: None, gone: v }
        }
        Deduction::Subsets { house, positions, digits: ds, conflicts } => {
            let i = house.get() as usize;
            let ps = positions.into_iter().fold(0u16, |m, q| m | 1 << q.get());
            let ds = mask(ds);
            let k = ps.count_ones();
            need!((2..=4).contains(&k) && ds.count_ones() == k, "{k} positions for {} digits", ds.count_ones());
            let v = list(conflicts)?;
            need!(v.iter().all(|x| h[i].contains(&x.0)), "a conflict lies outside house {i}");
            let inside = |x: &(usize, u8)| bits(ps).any(|j| h[i][j] == x.0);
            let hidden = inside(&v[0]);
            need!(v.iter().all(|x| inside(x) == hidden), "conflicts inside and outside of the subset's cells");
            need!(bits(ps).all(|j| p.cand[h[i][j]] != 0), "a cell of the subset has no candidates");
            if hidden {
                let sp: [u16; 9] = std::array::from_fn(|d| p.spots(i, d as u8 + 1));
                need!(bits(ds).all(|d| sp[d] != 0), "a digit of the subset has no place");
                need!(spots_of(&sp, ds) == ps, "the digits {} are not confined to exactly the named positions of house {i}", digits(ds));
                need!(v.iter().all(|x| ds >> (x.1 - 1) & 1 == 0), "a conflict removes a digit of the hidden subset");
            } else {
                let u = bits(ps).fold(0, |m, j| m | p.cand[h[i][j]]);
                need!(u == ds, "the named positions of house {i} hold {}, not exactly {}", digits(u), digits(ds));
                need!(v.iter().all(|x| ds >> (x.1 - 1) & 1 == 1), "a conflict removes a digit outside the naked subset");
            }
            Step { label: k as usize + if hidden { 4 } else { 1 }, place: None, gone: v }
        }
        Deduction::BasicFish { digit, lines, positions, conflicts } => {
            let d = digit.get();
            let ls: Vec<usize> = lines.into_iter().map(|l| l.get() as usize).collect();
            let ps = positions.into_iter().fold(0u16, |m, q| m | 1 << q.get());
            let k = ls.len();
            need!((2..=4).contains(&k) && ps.count_ones() as usize == k, "{k} lines for {} positions", ps.count_ones());
            let o = ls[0] / 9;
            need!(ls.iter().all(|l| l / 9 == o), "rows and columns are mixed");
            let mut u = 0;
            for &l in &ls {
                let s = p.spots(l, d);
                need!(s != 0, "line {l} has no candidate {d}");
                u |= s;
            }
            need!(u == ps, "the candidates {d} in the lines {ls:?} are not confined to exactly the named positions");
            let v = list(conflicts)?;
            for &(c, x) in &v {
                let (l, q) = if o == 0 { (row(c), col(c)) } else { (9 + col(c), row(c)) };
                need!(x == d && ps >> q & 1 == 1 && !ls.contains(&l), "conflict {x} in cell {c} does not follow from the fish");
            }
            Step { label: k + 7, place: None, gone: v }
        }
        Deduction::Fish { digit, base, cover, conflicts } => {
            let d = digit.get();
            let hs = |s: sudoku::bitset::Set<sudoku::board::positions::House>| -> Vec<usize> { s.into_iter().map(|x| x.get() as usize).collect() };
            let (b, cv) = (hs(base), hs(cover));
            need!(b.len() == cv.len() && (2..=4).contains(&b.len()), "{} base houses, {} cover houses", b.len(), cv.len());
            let inb = |c: usize| b.iter().filter(|&&i| h[i].contains(&c)).count();
            let inc = |c: usize| cv.iter().filter(|&&i| h[i].contains(&c)).count();
            for c in 0..81 {
                need!(!p.has(c, d) || inb(c) == 0 || (inb(c) == 1 && inc(c) >= 1), "candidate {d} of cell {c} breaks the fish");
            }
            let v = list(conflicts)?;
            for &(c, x) in &v {
                need!(x == d && inc(c) > inb(c), "conflict {x} in cell {c} does not follow from the fish");
            }
            let kind = |v: &Vec<usize>| v.iter().all(|i| i / 9 == v[0] / 9);
            let basic = kind(&b) && kind(&cv) && b[0] / 9 != 2 && cv[0] / 9 != 2;
            Step { label: if basic { b.len() + 7 } else { b.len() + 11 }, place: None, gone: v }
        }
        Deduction::Wing { hinge, hinge_digits, pincers, conflicts } => {
            let m = mask(hinge_digits);
            let hg = hinge.get() as usize;
            let pc: Vec<usize> = pincers.into_iter().map(|c| c.get() as usize).collect();
            need!(pc.len() == 2, "{} pincers", pc.len());
            let (a, b) = (pc[0], pc[1]);
            need!(sees(hg, a) && sees(hg, b), "the hinge {hg} does not see both pincers {a}, {b}");
            need!(p.cand[hg] == m, "the hinge {hg} has the candidates {}, not {}", digits(p.cand[hg]), digits(m));
            let (x, y) = (p.cand[a], p.cand[b]);
            let z = x & y;
            need!(x.count_ones() == 2 && y.count_ones() == 2 && z.count_ones() == 1, "the pincers have the candidates {} and {}", digits(x), digits(y));
            let xyz = m.count_ones() == 3;
            need!(if xyz { x | y == m } else { m.count_ones() == 2 && (x | y) & !z == m }, "the candidates {}, {}, {} do not form a wing", digits(m), digits(x), digits(y));
            let v = list(conflicts)?;
            for &(c, d) in &v {
                need!(1 << (d - 1) == z && sees(c, a) && sees(c, b) && c != hg && (!xyz || sees(c, hg)), "conflict {d} in cell {c} does not follow from the wing");
            }
            Step { label: if xyz { 13 } else { 12 }, place: None, gone: v }
        }
        _ => return Err("unknown kind of deduction".into()),
    })
}
