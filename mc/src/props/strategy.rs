//! C18 soundness, C19 deduction log, C20 completeness at the fixpoint, C21 verdicts of the strategy solver.
use super::solving::su;
use crate::engine::*;
use crate::model::*;
use crate::spaces::{self, take, GridSpace};
use crate::strat::*;
use crate::{corpus, ensure};
use std::sync::Arc;
use sudoku::strategy::deduction::Deductions;
use sudoku::strategy::{Strategy, StrategySolver};

pub type Case = (Start, Vec<usize>);
#[derive(Clone)]
pub struct Cases {
    pub name: String,
    pub about: String,
    pub n: u64,
    pub at: Arc<dyn Fn(u64) -> Case + Send + Sync>,
}
fn cases(name: &str, about: String, n: usize, at: impl Fn(usize) -> Case + Send + Sync + 'static) -> Cases {
    Cases { name: name.into(), about, n: n as u64, at: Arc::new(move |i| at(i as usize)) }
}
fn on_grids(s: &GridSpace, lists: Vec<Vec<usize>>) -> Cases {
    let at = s.at.clone();
    let k = lists.len();
    let about = format!("{}; x {k} strategy lists", s.about);
    cases(&s.name, about, s.n as usize * k, move |i| (Start::of(&at((i / k) as u64)), lists[i % k].clone()))
}

pub fn all_strategies() -> Vec<usize> {
    BY_DIFFICULTY.to_vec()
}
/// none, every single strategy, every ordered pair, prefixes and rotations of the graded order, singles + each, reversed
pub fn lists() -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for a in 0..14 {
        v.push(vec![a]);
        for b in (0..14).filter(|&b| b != a) {
            v.push(vec![a, b]);
        }
        v.push([&BY_DIFFICULTY[a..], &BY_DIFFICULTY[..a]].concat());
        v.push(BY_DIFFICULTY[..a + 1].to_vec());
        v.push(vec![0, 1, a]);
        v.push(vec![1, 0, 2, a]);
    }
    v.push(BY_DIFFICULTY.iter().rev().copied().collect());
    v.push(vec![14, 15]);
    v.push([&BY_DIFFICULTY[..], &[14, 15]].concat());
    v.push(vec![0, 0, 1, 1]);
    v
}

fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    spaces::subsets(n, k).into_iter().filter(|s| s.len() == k).map(|s| s.iter().map(|&x| x as usize).collect()).collect()
}

/// A naked or hidden subset in an otherwise empty grid: every house, every set of positions, every set of digits.
/// `thin`: each cell (or digit) of the subset misses one of the digits (positions), in a cycle.
fn subset_case(hidden: bool, house: usize, ps: &[usize], ds: &[usize], thin: bool) -> Start {
    let k = ps.len();
    let mut s = Start::of(&[0; 81]);
    let h = houses()[house];
    if !hidden {
        for (i, &p) in ps.iter().enumerate() {
            s.allowed[h[p]] = ds.iter().enumerate().filter(|&(j, _)| !thin || k == 2 || j != i).fold(0, |m, (_, &d)| m | 1 << d);
        }
    } else {
        for (j, &d) in ds.iter().enumerate() {
            for (q, &c) in h.iter().enumerate() {
                let keep = ps.iter().position(|&p| p == q).map_or(false, |i| !thin || k == 2 || i != j);
                if !keep {
                    s.allowed[c] &= !(1 << d);
                }
            }
        }
    }
    s
}
fn subset_cases(t: Tier, hidden: bool, k: usize) -> Cases {
    let cs = combos(9, k);
    let nd = t.pick(cs.len().min(9), cs.len());
    let m = cs.len();
    let s = if hidden { 4 + k } else { 1 + k };
    let strat: Vec<Vec<usize>> = vec![vec![s], vec![0, 1, s]];
    cases(
        &format!("{}{k}", if hidden { "hidden" } else { "naked" }),
        format!("empty grid with one {} subset of size {k}: 27 houses x {m} position sets x {nd} digit sets x (full, thinned) x 2 strategy lists", if hidden { "hidden" } else { "naked" }),
        27 * m * nd * 2 * 2,
        move |i| {
            let (l, thin, i) = (i % 2, i / 2 % 2 == 1, i / 4);
            let (h, p, d) = (i % 27, i / 27 % m, i / 27 / m);
            let d = if nd == m { d } else { (d * m / nd + p * 7 + h) % m };
            (subset_case(hidden, h, &cs[p], &cs[d], thin), strat[l].clone())
        },
    )
}
fn fish_cases(t: Tier, k: usize) -> Cases {
    let cs = combos(9, k);
    let m = cs.len();
    let nd = t.pick([9, 9, 2][k - 2], 9);
    let strat: Vec<Vec<usize>> = vec![vec![7 + k], vec![0, 1, 7 + k]];
    cases(
        &format!("fish{k}"),
        format!("empty grid with one basic fish of size {k}: {nd} digits (fewer than 9: the digits rotate) x rows/columns x {m} line sets x {m} position sets x (full, thinned) x 2 strategy lists"),
        nd * 2 * m * m * 4,
        move |i| {
            let (l, thin, i) = (i % 2, i / 2 % 2 == 1, i / 4);
            let (ls, i) = (&cs[i % m], i / m);
            let (ps, i) = (&cs[i % m], i / m);
            let (o, d) = (i % 2, i / 2);
            let d = if nd == 9 { d } else { (d * 4 + ls[0] * 5 + ps[0] * 3 + ps[k - 1]) % 9 };
            let mut s = Start::of(&[0; 81]);
            for (a, &line) in ls.iter().enumerate() {
                for q in 0..9 {
                    let keep = ps.iter().position(|&p| p == q).map_or(false, |b| !thin || k == 2 || a != b);
                    if !keep {
                        s.allowed[houses()[o * 9 + line][q]] &= !(1 << d);
                    }
                }
            }
            (s, strat[l].clone())
        },
    )
}
fn locked_cases() -> Cases {
    let strat: Vec<Vec<usize>> = vec![vec![2], vec![0, 1, 2], vec![1, 2]];
    cases(
        "locked",
        "empty grid with one pointing or claiming pattern: 54 minilines x 9 digits x 2 kinds x 7 subsets of the miniline x 3 strategy lists".into(),
        54 * 9 * 2 * 7 * 3,
        move |i| {
            let (l, i) = (i % 3, i / 3);
            let (sub, i) = (i % 7 + 1, i / 7);
            let (pointing, i) = (i % 2 == 0, i / 2);
            let (d, m) = (i % 9, i / 9);
            let (line, k) = (m / 3, m % 3);
            let seg: Vec<usize> = (0..3).map(|j| houses()[line][k * 3 + j]).collect();
            let base = if pointing { 18 + blk(seg[0]) } else { line };
            let mut s = Start::of(&[0; 81]);
            for &c in &houses()[base] {
                let keep = seg.iter().position(|&x| x == c).map_or(false, |j| sub >> j & 1 == 1);
                if !keep {
                    s.allowed[c] &= !(1 << d);
                }
            }
            (s, strat[l].clone())
        },
    )
}
fn wing_cases(t: Tier, xyz: bool) -> Cases {
    let pairs = combos(20, 2);
    let triples: Vec<[usize; 3]> = combos(9, 3)
        .into_iter()
        .flat_map(|v| (0..3).map(move |r| [v[r], v[(r + 1) % 3], v[(r + 2) % 3]]))
        .collect();
    let nt = t.pick(8, triples.len());
    let s = if xyz { 13 } else { 12 };
    let strat: Vec<Vec<usize>> = vec![vec![s], vec![0, 1, s]];
    let np = pairs.len();
    cases(
        if xyz { "xyzwing" } else { "xywing" },
        format!("empty grid with one hinge and two pincers: 81 hinges x {np} pairs of its peers x {nt} digit triples x pincers exchanged or not x 2 strategy lists"),
        81 * np * nt * 2 * 2,
        move |i| {
            let (l, ex, i) = (i % 2, i / 2 % 2 == 1, i / 4);
            let (hinge, i) = (i % 81, i / 81);
            let (pr, k) = (&pairs[i % np], i / np);
            let k = if nt == triples.len() { k } else { (k * triples.len() / nt + hinge * 5 + pr[0]) % triples.len() };
            let [x, y, z] = triples[k];
            let (mut a, mut b) = (peers()[hinge][pr[0]], peers()[hinge][pr[1]]);
            if ex {
                std::mem::swap(&mut a, &mut b);
            }
            let mut st = Start::of(&[0; 81]);
            st.allowed[hinge] = 1 << x | 1 << y | if xyz { 1 << z } else { 0 };
            st.allowed[a] = 1 << x | 1 << z;
            st.allowed[b] = 1 << y | 1 << z;
            (st, strat[l].clone())
        },
    )
}
/// two constrained cells: singles, hidden singles and contradictions among them
fn single_cases() -> Cases {
    let strat: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![0, 1], vec![1, 0], BY_DIFFICULTY.to_vec()];
    cases(
        "two_singles",
        "empty grid with every pair of cells restricted to one digit each (equal or different), as candidates or entered, and hidden singles by exclusion from a house; x 5 strategy lists".into(),
        3240 * 2 * 3 * 5,
        move |i| {
            let (l, i) = (i % 5, i / 5);
            let (kind, i) = (i % 3, i / 3);
            let (same, mut p) = (i % 2 == 0, i / 2);
            let mut a = 0;
            while p >= 80 - a {
                p -= 80 - a;
                a += 1;
            }
            let b = a + 1 + p;
            let d = (a * 5 + b) % 9;
            let e = if same { d } else { (d + 1 + a % 8) % 9 };
            let mut s = Start::of(&[0; 81]);
            match kind {
                0 => {
                    s.allowed[a] = 1 << d;
                    s.allowed[b] = 1 << e;
                }
                1 => {
                    s.dig[a] = d as u8 + 1;
                    s.allowed[b] = 1 << e;
                }
                _ => {
                    for &c in &houses()[row(a)] {
                        if c != a {
                            s.allowed[c] &= !(1 << d);
                        }
                    }
                    for &c in &houses()[18 + blk(b)] {
                        if c != b {
                            s.allowed[c] &= !(1 << e);
                        }
                    }
                }
            }
            (s, strat[l].clone())
        },
    )
}
/// states without completion that are not contradictory at first sight, and such that are
fn contradictory_cases() -> Cases {
    let strat: Vec<Vec<usize>> = (0..14).map(|s| vec![s]).chain([vec![0, 1], vec![1, 0, 2], BY_DIFFICULTY.to_vec(), vec![]]).collect();
    let n = strat.len();
    cases(
        "contradictory",
        format!("empty grid with: a cell without candidates; a digit without place in a house; k+1 cells of a house with k candidates (k = 1..4); k+1 digits with k places; two different digits forced; x every house x {n} strategy lists"),
        27 * 81 * n,
        move |i| {
            let (l, i) = (i % n, i / n);
            let (h, v) = (i % 27, i / 27);
            let cells = houses()[h];
            let (k, r) = (v / 9, v % 9);
            let mut s = Start::of(&[0; 81]);
            match k {
                0 => s.allowed[cells[r]] = 0,
                1 => cells.iter().for_each(|&c| s.allowed[c] &= !(1 << r)),
                2..=5 => {
                    let k = k - 1;
                    for j in 0..=k {
                        s.allowed[cells[(r + j) % 9]] = (0..k).fold(0, |m, x| m | 1 << ((r + x) % 9));
                    }
                }
                6 | 7 => {
                    let k = k - 4;
                    for j in 0..=k {
                        for q in 0..9 {
                            if (q + 9 - r) % 9 >= k {
                                s.allowed[cells[q]] &= !(1 << ((r + j) % 9));
                            }
                        }
                    }
                }
                _ => {
                    s.dig[cells[r]] = 1;
                    s.dig[cells[(r + 4) % 9]] = 1;
                    s.allowed[cells[(r + 1) % 9]] = 1;
                    s.allowed[cells[(r + 2) % 9]] = 3;
                }
            }
            (s, strat[l].clone())
        },
    )
}

/// Puzzles and nearly full grids in which candidates of one open cell are excluded from the outset: none is left, all but
/// the right one, only a wrong one, only the right one and a wrong one, only the right one.
fn exclusion_cases(t: Tier) -> Cases {
    let base: Vec<(Grid, Grid)> = [take(corpus::puzzles(), t.pick(8, 60)), near_full(t)]
        .concat()
        .into_iter()
        .map(|g| (g, solutions(&g, 1)[0]))
        .collect();
    let strat: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1, 0], vec![2, 3, 0], vec![1, 12], BY_DIFFICULTY.to_vec()];
    let (nb, nl) = (base.len(), strat.len());
    cases(
        "exclusions",
        format!("{nb} puzzles and nearly full grids x every cell x candidates of that cell if it is open (none; all but the right one; only a wrong one; the right one and a wrong one; only the right one) x {nl} strategy lists"),
        nb * 81 * 5 * nl,
        move |i| {
            let (l, i) = (i % nl, i / nl);
            let (kind, i) = (i % 5, i / 5);
            let (c, b) = (i % 81, i / 81);
            let (g, sol) = &base[b];
            let mut s = Start::of(g);
            if g[c] == 0 {
                let (right, wrong) = (1 << (sol[c] - 1), 1 << (sol[c] as usize + c) % 9);
                s.allowed[c] = [0, 511 & !right, wrong & !right, right | wrong, right][kind];
            }
            (s, strat[l].clone())
        },
    )
}

/// Digits entered by hand before solving: from every cell on, the next 1, 2, 5 or 8 empty cells with the digits of the
/// solution, a wrong but still possible digit, a digit that clashes with a clue, and a wrong digit among right ones.
pub fn insertion_cases(t: Tier) -> Cases {
    let base: Vec<(Grid, Grid)> = [take(corpus::puzzles(), t.pick(12, 99)), near_full(t)]
        .concat()
        .into_iter()
        .map(|g| (g, solutions(&g, 1)[0]))
        .collect();
    let strat: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![2, 0], vec![12], BY_DIFFICULTY.to_vec()];
    let (nb, nl) = (base.len(), strat.len());
    cases(
        "insertions",
        format!("{nb} puzzles and nearly full grids x every cell to start from x 7 kinds of hand-made insertions (the next 1, 2, 5, 8 empty cells with the right digits; a wrong possible digit; a clashing digit; a wrong digit after two right ones) x {nl} strategy lists"),
        nb * 81 * 7 * nl,
        move |i| {
            let (l, i) = (i % nl, i / nl);
            let (kind, i) = (i % 7, i / 7);
            let (c0, b) = (i % 81, i / 81);
            let (g, sol) = &base[b];
            let mut s = Start::of(g);
            let empty: Vec<usize> = (0..81).map(|k| (c0 + k) % 81).filter(|&c| g[c] == 0).collect();
            let n = [1, 2, 5, 8, 1, 1, 3][kind].min(empty.len());
            for (k, &c) in empty[..n].iter().enumerate() {
                let clash = |d: u8| peers()[c].iter().any(|&q| s.dig[q] == d);
                let d = match kind {
                    4 => (1..=9).find(|&d| d != sol[c] && !clash(d)).unwrap_or(sol[c]),
                    5 => (1..=9).find(|&d| clash(d)).unwrap_or(sol[c]),
                    6 if k == n - 1 => sol[c] % 9 + 1,
                    _ => sol[c],
                };
                s.dig[c] = d;
                s.inserted.push((c, d));
            }
            (s, strat[l].clone())
        },
    )
}
/// solved grids with 1, 2, 4 and 9 cells erased
fn near_full(t: Tier) -> Vec<Grid> {
    let mut v = vec![];
    for (i, g) in take(corpus::solved(), t.pick(2, 8)).into_iter().enumerate() {
        for n in [1, 2, 4, 9] {
            let mut o = g;
            for k in 0..n {
                o[(i * 31 + n * 13 + k * 8) % 81] = 0;
            }
            v.push(o);
        }
    }
    v
}

/// Raw effect of the first `upto` steps of a log.
pub fn raw_replay(start: &Start, ded: &Deductions, upto: usize) -> Pos {
    use sudoku::strategy::Deduction::*;
    let mut p = Pos::new(start);
    for d in ded.iter().take(upto) {
        match d {
            NakedSingles(c) | HiddenSingles(c, _) => {
                let (c, d) = cand(&c);
                p.place(c, d)
            }
            LockedCandidates { conflicts, .. } | Subsets { conflicts, .. } | BasicFish { conflicts, .. } | Fish { conflicts, .. } | Wing { conflicts, .. } | AvoidableRectangle { conflicts, .. } => {
                conflicts.iter().map(cand).for_each(|(c, d)| p.eliminate(c, d))
            }
            _ => {}
        }
    }
    p
}

pub struct Run {
    pub ok: bool,
    pub grid: Grid,
    pub ded: Deductions,
}
pub fn solve_with(s: StrategySolver, list: &[usize]) -> Run {
    let l: Vec<Strategy> = list.iter().map(|&s| api(s)).collect();
    match s.solve(&l) {
        Ok((g, ded)) => Run { ok: true, grid: g.to_bytes(), ded },
        Err((g, ded)) => Run { ok: false, grid: g.to_bytes(), ded },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Sound,
    Log,
    Complete,
    Verdict,
}

/// what is known about the completions of a start
struct Completions {
    masks: [u16; 81],
    pool: Vec<Grid>,
    unique: bool,
}
impl Completions {
    fn of(s: &Start) -> Completions {
        let mut c = Completions { masks: s.masks(), pool: vec![], unique: false };
        if s.plain() && clues(&s.dig) >= 17 {
            c.pool = solutions(&s.dig, 2);
            c.unique = c.pool.len() < 2;
        }
        c
    }
    fn any(&self) -> bool {
        !self.pool.is_empty() || (!self.unique && some_completion(&self.masks).is_some())
    }
    /// a completion with digit `d` in cell `c`
    fn with(&mut self, c: usize, d: u8) -> Option<Grid> {
        if let Some(g) = self.pool.iter().find(|g| g[c] == d) {
            return Some(*g);
        }
        if self.unique || self.masks[c] >> (d - 1) & 1 == 0 {
            return None;
        }
        let mut m = self.masks;
        m[c] = 1 << (d - 1);
        let g = some_completion(&m)?;
        self.pool.push(g);
        Some(g)
    }
    fn without(&mut self, c: usize, d: u8) -> Option<Grid> {
        if let Some(g) = self.pool.iter().find(|g| g[c] != d) {
            return Some(*g);
        }
        let mut m = self.masks;
        m[c] &= !(1 << (d - 1));
        if self.unique {
            return None;
        }
        let g = some_completion(&m)?;
        self.pool.push(g);
        Some(g)
    }
}

pub fn examine(what: What, start: &Start, list: &[usize], ctx: &mut Ctx) -> R {
    let mut b = start.bytes();
    b.extend(list.iter().map(|&x| x as u8));
    ctx.state(&b);
    let r = solve_with(start.solver(), list);
    ctx.step(1 + r.ded.len() as u64);
    ctx.max("steps_in_one_log", r.ded.len() as u64);
    ctx.count(if r.ok { "solved" } else { "not_solved" }, 1);
    ctx.count("deductions_checked", r.ded.len() as u64);
    ctx.outcome(&r.grid);
    ctx.trace();
    let how = |m: String| Violation { msg: format!("{} on {}: {m}", names(list), start.show()), key: None };
    match what {
        What::Verdict => {
            let full = is_valid_full(&r.grid);
            if r.ok != full {
                return Err(how(format!("solve() returns {} with the grid {}, which is {}", if r.ok { "Ok" } else { "Err" }, line(&r.grid), if full { "complete and valid" } else { "not complete and valid" })));
            }
            let claim = start.solver().is_solved();
            if claim != is_valid_full(&start.dig) {
                return Err(how(format!("is_solved() = {claim} for the starting grid")));
            }
            if !extends(&r.grid, &start.dig) {
                return Err(how(format!("solve() returns the grid {}, which does not keep the given digits", line(&r.grid))));
            }
        }
        What::Sound => {
            let mut co = Completions::of(start);
            let p = raw_replay(start, &r.ded, usize::MAX);
            if r.ok && is_valid_full(&r.grid) {
                let m = start.masks();
                if let Some(c) = (0..81).find(|&c| m[c] >> (r.grid[c] - 1) & 1 == 0) {
                    return Err(how(format!("solve() returns Ok with {} in cell {c}, which the start excludes there", r.grid[c])));
                }
            }
            for c in 0..81 {
                for (src, d) in [("the returned grid", r.grid[c]), ("the log", p.dig[c])] {
                    if d != 0 {
                        if let Some(g) = co.without(c, d) {
                            return Err(how(format!("{src} has {d} in cell {c}, but {} is a completion of the start", line(&g))));
                        }
                    }
                }
            }
            use sudoku::strategy::Deduction::*;
            for (i, d) in r.ded.iter().enumerate() {
                if let LockedCandidates { conflicts, .. } | Subsets { conflicts, .. } | BasicFish { conflicts, .. } | Fish { conflicts, .. } | Wing { conflicts, .. } = d {
                    for (c, d) in conflicts.iter().map(cand) {
                        if let Some(g) = co.with(c, d) {
                            return Err(how(format!("step {i} eliminates {d} from cell {c}, but {} is a completion of the start", line(&g))));
                        }
                    }
                }
            }
            if !r.ok && !p.locally_consistent() && co.any() {
                return Err(how("the derived state is contradictory although the start has a completion".into()));
            }
        }
        What::Log => check_log(start, list, &r, ctx).map_err(how)?,
        What::Complete => {
            if r.ok {
                return Ok(());
            }
            let p = raw_replay(start, &r.ded, usize::MAX);
            ctx.count("stuck_states_examined", 1);
            for &s in list {
                if let Some(m) = applies(s, &p) {
                    if some_completion(&start.masks()).is_none() {
                        ctx.count("stopped_on_starts_without_completion", 1);
                        return Ok(());
                    }
                    return Err(how(format!("stops although {} applies: {m}; derived state: {}", NAMES[s], p.render())));
                }
            }
        }
    }
    Ok(())
}

fn check_log(start: &Start, list: &[usize], r: &Run, ctx: &mut Ctx) -> Result<(), String> {
    let n = r.ded.len();
    if r.ded.is_empty() != (n == 0) || r.ded.iter().count() != n || r.ded.get(n).is_some() {
        return Err(format!("len() = {n}, is_empty() = {}, iter() yields {}, get(len()).is_some() = {}", r.ded.is_empty(), r.ded.iter().count(), r.ded.get(n).is_some()));
    }
    let mut it = r.ded.iter();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        if lo > n - k || hi.map_or(false, |hi| hi < n - k) {
            return Err(format!("iter() announces {lo} to {hi:?} further steps after {k} of {n}"));
        }
        if it.next() != r.ded.get(k) {
            return Err(format!("get({k}) and the {k}th item of iter() differ"));
        }
    }
    for k in [0, n / 2, n.saturating_sub(1), n] {
        if r.ded.iter().nth(k) != r.ded.get(k) {
            return Err(format!("get({k}) and iter().nth({k}) differ"));
        }
    }
    if r.ded.iter().last() != n.checked_sub(1).and_then(|k| r.ded.get(k)) || r.ded.get(usize::MAX).is_some() {
        return Err("get() and iter() disagree about the last step".into());
    }
    let mut p = Pos::new(start);
    // states since the start of the current run of steps of the first strategy: instances found together may be
    // justified by the state before the first of them
    let mut run: Vec<Pos> = vec![];
    for (i, d) in r.ded.iter().enumerate() {
        if !p.locally_consistent() {
            ctx.count("logs_checked_up_to_a_direct_contradiction", 1);
            return Ok(());
        }
        let label = index(&d.strategy());
        if !list.contains(&label) {
            return Err(format!("step {i} is labelled with a strategy that was not requested: {d:?}"));
        }
        let step = match justify(&d, &p) {
            Ok(s) => s,
            Err(e) => {
                let earlier = run.iter().rev().find_map(|q| justify(&d, q).ok());
                match earlier {
                    Some(s) if label == list[0] => {
                        ctx.count("steps_justified_by_the_state_before_their_batch", 1);
                        s
                    }
                    _ => return Err(format!("step {i} is not justified: {e}; step {d:?}; state {}", p.render())),
                }
            }
        };
        if step.label != label {
            return Err(format!("step {i} is labelled {} but shows {}: {d:?}", NAMES[label], NAMES[step.label]));
        }
        if label == list[0] {
            run.push(p.clone());
        } else {
            run.clear();
        }
        if let Some((c, d)) = step.place {
            p.place(c, d);
        }
        step.gone.iter().for_each(|&(c, d)| p.eliminate(c, d));
    }
    if p.dig != r.grid {
        return Err(format!("the log leads to {}, but the returned grid is {}", line(&p.dig), line(&r.grid)));
    }
    Ok(())
}

fn over_cases(s: Cases, what: What) -> Family {
    let (a, b) = (s.at.clone(), s.at);
    family(&s.name, s.about, s.n, move |i, c| { let (st, l) = a(i); examine(what, &st, &l, c) }, move |i| { let (st, l) = b(i); format!("{} with {}", st.show(), names(&l)) })
}

/// every state on the solution path of a puzzle, as a fresh start, with every single strategy
fn midstates(t: Tier, what: What) -> Family {
    let p: Vec<Grid> = take(corpus::puzzles(), t.pick(40, 1000));
    let q = p.clone();
    let span = 240;
    family(
        "midstates",
        format!("{} puzzles x every state on the solution path of the graded list (up to {span} steps), handed over as a candidate grid, x each of the 14 strategies alone and behind the singles", p.len()),
        (p.len() * span) as u64,
        move |i, ctx| {
            let (g, j) = (&p[i as usize / span], i as usize % span);
            let s0 = Start::of(g);
            let r = solve_with(s0.solver(), &BY_DIFFICULTY);
            if j > r.ded.len() {
                return Ok(());
            }
            let pos = raw_replay(&s0, &r.ded, j);
            let start = Start { inserted: vec![], dig: pos.dig, allowed: std::array::from_fn(|c| if pos.dig[c] != 0 { 511 } else { pos.cand[c] }) };
            for s in 0..14 {
                examine(what, &start, &[s], ctx)?;
                if s > 1 {
                    examine(what, &start, &[1, s, 0], ctx)?;
                }
            }
            Ok(())
        },
        move |i| format!("{} state {}", line(&q[i as usize / span]), i as usize % span),
    )
}

/// single instances of every pattern at every place, and dead ends
pub fn pattern_cases(t: Tier) -> Vec<Cases> {
    let mut v = vec![locked_cases(), single_cases(), contradictory_cases(), wing_cases(t, false), wing_cases(t, true)];
    for k in 2..=4 {
        v.push(subset_cases(t, false, k));
        v.push(subset_cases(t, true, k));
        v.push(fish_cases(t, k));
    }
    v
}
/// whole puzzles under every strategy list
pub fn list_cases() -> Cases {
    on_grids(&spaces::bases(), lists())
}

pub fn families(t: Tier, what: What) -> Vec<Family> {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let all = vec![BY_DIFFICULTY.to_vec()];
    let few = vec![BY_DIFFICULTY.to_vec(), vec![0, 1], vec![1, 2, 3], vec![8, 11, 5, 0]];
    let mut v = vec![
        on_grids(&spaces::bases(), lists()),
        on_grids(&spaces::images("images", take(p, t.pick(6, 40))), all.clone()),
        on_grids(&spaces::edits("edits", take(p, t.pick(10, 99)), false), few.clone()),
        on_grids(&spaces::units(take(s, t.pick(8, 100)), 2), few.clone()),
        on_grids(&spaces::prefixes(take(s, t.pick(10, 100))), few.clone()),
        on_grids(&spaces::few_digits(take(s, t.pick(10, 100)), 4), all.clone()),
        insertion_cases(t),
        exclusion_cases(t),
    ];
    v.extend(pattern_cases(t));
    if what == What::Verdict || what == What::Log {
        v.push(on_grids(&spaces::full2(take(s, t.pick(1, 6))), vec![vec![], vec![0], vec![1, 0]]));
        v.push(on_grids(&spaces::sparse2(), vec![vec![1]]));
    }
    if what == What::Verdict {
        // full grids that violate one kind of constraint, whole and with one cell erased
        let near = super::solving::near_solved(&take(s, t.pick(1, 8)));
        let n = near.len();
        v.push(on_grids(
            &GridSpace {
                name: "near_solved".into(),
                about: format!("{n} full grids violating single kinds of constraints (cell swaps, paired swaps, exchanged rows, columns and houses, Latin squares), whole and with each of 8 single cells erased"),
                n: n as u64 * 9,
                at: Arc::new(move |i| {
                    let mut g = near[i as usize / 9];
                    if i % 9 != 0 {
                        g[(i % 9 * 10 - 10 + i / 9) as usize % 81] = 0;
                    }
                    g
                }),
            },
            vec![vec![], vec![0], vec![12, 0]],
        ));
    }
    let mut f: Vec<Family> = v.into_iter().map(|c| over_cases(c, what)).collect();
    f.push(midstates(t, what));
    f
}

const RULE: &str = "a state is a distinct (starting state, strategy list); a transition is one solve call or one recorded deduction; a trace is one solve compared with the reference semantics";

pub fn c18(t: Tier) -> Prop {
    Prop { families: families(t, What::Sound), assumptions: vec![], rule: RULE.into() }
}
pub fn c19(t: Tier) -> Prop {
    Prop { families: families(t, What::Log), assumptions: vec![], rule: RULE.into() }
}

/// a fish of size 3 or 4 whose base mixes rows and columns
fn mutant_case(i: usize) -> (Start, usize) {
    let (size, v) = (3 + i % 2, i / 2);
    let (d, t) = (v % 9, v / 9 % 2 == 1);
    let at = |r: usize, c: usize| if t { c * 9 + r } else { r * 9 + c };
    let mut s = Start::of(&[0; 81]);
    let mut only = |line: usize, is_row: bool, keep: &[usize]| {
        for q in 0..9 {
            if !keep.contains(&q) {
                let c = if is_row { at(line, q) } else { at(q, line) };
                s.allowed[c] &= !(1 << d);
            }
        }
    };
    // base: rows 0 and 8 (covered by columns 0 and 8), column 4 (covered by the central block), row 7 (size 4)
    only(0, true, &[0, 8]);
    only(8, true, &[0, 8]);
    only(4, false, &[3, 5]);
    if size == 4 {
        only(7, true, &[1, 2]);
    }
    (s, size)
}

pub fn c20(t: Tier) -> Prop {
    let mut f = families(t, What::Complete);
    f.push(family(
        "mutant_fish",
        "empty grid with a mutant swordfish or jellyfish (base of rows and a column): 9 digits x transposition",
        36,
        |i, ctx| {
            let (s, size) = mutant_case(i as usize);
            let r = solve_with(s.solver(), &[11 + size]);
            ctx.step(1);
            ctx.state(&s.bytes());
            ctx.trace();
            if r.ded.is_empty() {
                return Err(Violation { msg: format!("{} finds nothing in {}", NAMES[11 + size], s.show()), key: Some(format!("{}:finds-nothing", NAMES[11 + size])) });
            }
            Ok(())
        },
        |i| mutant_case(i as usize).0.show(),
    ));
    Prop { families: f, assumptions: vec!["a basic fish needs at least two candidates in each base line, a wing's three cells do not share one house (the definitions the solver uses)".into()], rule: RULE.into() }
}
pub fn c21(t: Tier) -> Prop {
    let mut f = families(t, What::Verdict);
    let ls: Vec<Vec<usize>> = vec![vec![16], vec![0, 16], vec![16, 0], [&BY_DIFFICULTY[..], &[16]].concat()];
    let n = ls.len();
    let l2 = ls.clone();
    f.push(family(
        "avoidable_rectangles",
        format!("all puzzles x {n} lists that contain AvoidableRectangles, with and without known clues"),
        (corpus::puzzles().len() * n * 2) as u64,
        move |i, ctx| {
            let i = i as usize;
            let (g, l, clues) = (&corpus::puzzles()[i / n / 2], &ls[i / 2 % n], i % 2 == 1);
            ctx.step(1);
            ctx.state_fp(mix(fp(g) ^ i as u64 % 8));
            ctx.trace();
            let s = || if clues { StrategySolver::from_sudoku_and_clues(su(g), su(g)) } else { StrategySolver::from_sudoku(su(g)) };
            match guarded(|| solve_with(s(), l)) {
                Ok(r) => {
                    ensure!(r.ok == is_valid_full(&r.grid) && extends(&r.grid, g), "solve() returns {} with the grid {}", if r.ok { "Ok" } else { "Err" }, line(&r.grid));
                    Ok(())
                }
                Err((loc, msg)) => Err(Violation { msg: format!("panics at {loc}: {msg}"), key: Some(if msg.contains("not implemented") { "AvoidableRectangles:not-implemented".into() } else { format!("AvoidableRectangles:{msg}") }) }),
            }
        },
        move |i| { let i = i as usize; format!("{} with {}", line(&corpus::puzzles()[i / n / 2]), names(&l2[i / 2 % n])) },
    ));
    Prop { families: f, assumptions: vec![], rule: RULE.into() }
}

// ------------------------------------------------------------------ C22, C23

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    ToSudoku,
    Cell(usize),
    GridState,
    IsSolved,
    Display,
    CloneSolve(usize),
    Insert(usize, u8),
}
const HIST_LISTS: [&[usize]; 6] = [&[0], &[1], &[0, 1], &[2, 3], &[1, 0, 2], &BY_DIFFICULTY];

#[derive(PartialEq, Clone)]
enum Seen {
    Grid(Grid),
    Cell(sudoku::board::CellState),
    Cells(Box<[sudoku::board::CellState; 81]>),
    Bool(bool),
    Text(String),
    Solved(bool, Grid, Deductions),
    Panic(String),
}
impl Seen {
    fn show(&self) -> String {
        match self {
            Seen::Grid(g) => line(g),
            Seen::Cell(c) => format!("{c:?}"),
            Seen::Cells(c) => Pos { dig: read_state(c).0, cand: read_state(c).1 }.render(),
            Seen::Bool(b) => b.to_string(),
            Seen::Text(t) => t.clone(),
            Seen::Solved(ok, g, d) => format!("{} {} after {} deductions {:?}", if *ok { "Ok" } else { "Err" }, line(g), d.len(), d.iter().collect::<Vec<_>>()),
            Seen::Panic(m) => format!("panic {m}"),
        }
    }
}
fn cell(c: usize) -> sudoku::board::Cell {
    sudoku::board::Cell::new(c as u8)
}
fn perform(s: &mut StrategySolver, op: Op) -> Seen {
    let r = guarded(|| match op {
        Op::ToSudoku => Seen::Grid(s.to_sudoku().to_bytes()),
        Op::Cell(c) => Seen::Cell(s.cell_state(cell(c))),
        Op::GridState => Seen::Cells(Box::new(s.grid_state())),
        Op::IsSolved => Seen::Bool(s.is_solved()),
        Op::Display => Seen::Text(s.to_string()),
        Op::CloneSolve(l) => {
            let r = solve_with(s.clone(), HIST_LISTS[l]);
            Seen::Solved(r.ok, r.grid, r.ded)
        }
        Op::Insert(c, d) => Seen::Bool(s.insert_candidate(sudoku::board::Candidate { cell: cell(c), digit: sudoku::board::Digit::new(d) }).is_ok()),
    });
    r.unwrap_or_else(|e| Seen::Panic(e.1))
}

pub fn history_starts(t: Tier) -> Vec<Start> {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let mut v: Vec<Start> = take(p, t.pick(10, 60)).iter().map(Start::of).collect();
    v.push(Start::of(&[0; 81]));
    for k in 0..4 {
        // nearly complete grids
        let mut g = s[4 + k];
        for j in 0..k {
            g[(j * 40 + k * 7) % 81] = 0;
        }
        v.push(Start::of(&g));
        let mut g = s[10 + k];
        for &c in &houses()[k * 8] {
            g[c] = 0;
        }
        v.push(Start::of(&g));
    }
    for g in take(corpus::invalid(), 3) {
        v.push(Start::of(&g));
    }
    // candidates excluded from the outset: naked and hidden singles, pairs, locked candidates; clean and contradictory
    let mut a = Start::of(&[0; 81]);
    a.allowed[0] = 1;
    a.allowed[40] = 1 << 4;
    v.push(a.clone());
    a.allowed[1] = 2;
    a.allowed[2] = 3;
    v.push(a);
    v.push(subset_case(false, 3, &[1, 5], &[2, 7], false));
    v.push(subset_case(true, 20, &[0, 4], &[0, 8], false));
    let mut a = Start::of(&p[5]);
    for c in (0..81).filter(|&c| p[5][c] == 0) {
        a.allowed[c] = if c % 3 == 0 { 1 << (unique(&p[5]).unwrap()[c] - 1) | 1 << (c % 9) } else { 511 };
    }
    v.push(a);
    let mut a = Start::of(&[0; 81]);
    a.allowed[0] = 0;
    v.push(a);
    let mut a = Start::of(&p[7]);
    let e: Vec<usize> = (0..81).filter(|&c| p[7][c] == 0).collect();
    a.allowed[e[0]] = 0;
    v.push(a);
    let mut a = Start::of(&p[8]);
    let e: Vec<usize> = (0..81).filter(|&c| p[8][c] == 0).collect();
    a.allowed[e[1]] = 1 << (unique(&p[8]).unwrap()[e[1]] % 9);
    v.push(a);
    v
}
fn operations(s: &Start) -> Vec<Op> {
    let sol = some_completion(&s.masks());
    let empty: Vec<usize> = (0..81).filter(|&c| s.dig[c] == 0).collect();
    let full: Vec<usize> = (0..81).filter(|&c| s.dig[c] != 0).collect();
    let mut v = vec![Op::ToSudoku, Op::GridState, Op::IsSolved, Op::Display, Op::CloneSolve(5)];
    if let (Some(&c), Some(&e)) = (full.first(), full.last()) {
        v.extend([Op::Cell(c), Op::Insert(c, s.dig[c]), Op::Insert(e, s.dig[e] % 9 + 1)]);
    }
    if let (Some(&c), Some(&e)) = (empty.first(), empty.last()) {
        v.extend([Op::Cell(c), Op::Cell(e)]);
        let m = empty[empty.len() / 2];
        if let Some(g) = sol {
            v.extend([Op::Insert(c, g[c]), Op::Insert(m, g[m]), Op::Insert(e, g[e] % 9 + 1)]);
        }
        // clashes with a neighbour
        if let Some(&q) = peers()[c].iter().find(|&&q| s.dig[q] != 0) {
            v.push(Op::Insert(c, s.dig[q]));
        }
        v.push(Op::Insert(m, 1));
    }
    let mut w = vec![];
    for o in v {
        if !w.contains(&o) {
            w.push(o);
        }
    }
    w
}

struct Explore<'a> {
    start: &'a Start,
    ops: &'a [Op],
    probes: Vec<Op>,
    /// per insert-only history: the answers of a fresh solver to each probe
    expected: std::collections::HashMap<Vec<Op>, Vec<Seen>>,
}
impl Explore<'_> {
    fn fresh(&self, ins: &[Op]) -> StrategySolver {
        let mut s = self.start.solver();
        for &o in ins {
            perform(&mut s, o);
        }
        s
    }
    fn want(&mut self, ins: &[Op], ctx: &mut Ctx) -> Vec<Seen> {
        if let Some(v) = self.expected.get(ins) {
            return v.clone();
        }
        let v: Vec<Seen> = self.probes.iter().map(|&p| { ctx.step(1 + ins.len() as u64); perform(&mut self.fresh(ins), p) }).collect();
        self.expected.insert(ins.to_vec(), v.clone());
        v
    }
    fn go(&mut self, s: &StrategySolver, hist: &mut Vec<Op>, ins: &mut Vec<Op>, dig: &Grid, depth: usize, ctx: &mut Ctx) -> R {
        let want = self.want(ins, ctx);
        ctx.state_fp(mix(fp(&self.start.bytes()) ^ fp(format!("{hist:?}").as_bytes())));
        ctx.trace();
        for (i, &p) in self.probes.iter().enumerate() {
            // two equal queries in a row
            let mut t = s.clone();
            let a = perform(&mut t, p);
            let b = perform(&mut t, p);
            ctx.step(2);
            for got in [&a, &b] {
                ensure!(!matches!(got, Seen::Panic(_)), "after {hist:?}, {p:?} panics: {}", got.show());
                ensure!(got == &want[i], "after {hist:?}, {p:?} gives {}, but without the queries it gives {}", got.show(), want[i].show());
            }
            match &a {
                Seen::Grid(g) => ensure!(g == dig, "after {hist:?}, to_sudoku() is {}, expected {}", line(g), line(dig)),
                Seen::Bool(b) if p == Op::IsSolved => ensure!(*b == is_valid_full(dig), "after {hist:?}, is_solved() = {b} for {}", line(dig)),
                _ => {}
            }
        }
        if depth == 0 {
            return Ok(());
        }
        for &o in self.ops {
            let mut t = s.clone();
            let r = perform(&mut t, o);
            ctx.step(1);
            ctx.alive();
            hist.push(o);
            let res = if let Op::Insert(c, d) = o {
                let ok = dig[c] == 0;
                if r != Seen::Bool(ok) {
                    let m = format!("history {hist:?}: the last insertion gives {} although the cell holds {}", if r == Seen::Bool(true) { "Ok".into() } else { r.show().replace("false", "Err") }, if ok { "no digit".into() } else { format!("the digit {}", dig[c]) });
                    Err(Violation { msg: m, key: None })
                } else {
                    let mut g = *dig;
                    if ok {
                        g[c] = d;
                    }
                    // a failed insertion must not matter either
                    if ok {
                        ins.push(o);
                    }
                    let r = self.go(&t, hist, ins, &g, depth - 1, ctx);
                    if ok {
                        ins.pop();
                    }
                    r
                }
            } else {
                self.go(&t, hist, ins, dig, depth - 1, ctx)
            };
            res?;
            hist.pop();
        }
        Ok(())
    }
}

/// Whole completions entered cell by cell, with queries in between; a twin receives the insertions only.
fn long_histories(starts: Vec<Start>, t: Tier) -> Family {
    const PERIODS: [usize; 8] = [0, 1, 2, 3, 5, 7, 11, 17];
    let starts: Vec<(Start, Grid)> = starts.into_iter().filter_map(|s| some_completion(&s.masks()).map(|g| (s, g))).collect();
    let starts = Arc::new(starts);
    let orders = t.pick(5usize, 9);
    let queries = |s: &Start, c: usize| -> Vec<Op> {
        let e = (0..81).find(|&q| s.dig[q] == 0).unwrap_or(0);
        vec![Op::ToSudoku, Op::Cell(c), Op::Cell(e), Op::GridState, Op::Display, Op::IsSolved, Op::CloneSolve(5), Op::CloneSolve(0)]
    };
    let nq = 8;
    let per = (orders * nq * PERIODS.len()) as u64;
    let decode = move |i: u64| {
        let j = (i % per) as usize;
        ((i / per) as usize, j % orders, j / orders % nq, PERIODS[j / orders / nq])
    };
    let s2 = starts.clone();
    let mut f = family(
        "long_histories",
        format!("{} starts x {orders} orders of entering a whole completion (one of them with a wrong digit on the way) x {nq} queries x made after every p-th insertion (p in {:?}; 0: 300 times in the middle); every answer and, every tenth insertion, all probes compared with a twin that is never queried", starts.len(), PERIODS),
        starts.len() as u64 * per,
        move |i, ctx| {
            let (k, order, q, period) = decode(i);
            let (s, sol) = &starts[k];
            let mut cells: Vec<usize> = (0..81).filter(|&c| s.dig[c] == 0).collect();
            match order {
                0 | 3 => {}
                1 => cells.reverse(),
                2 => cells.sort_by_key(|&c| (sol[c], c)),
                4 => cells.sort_by_key(|&c| (c % 9, c)),
                n => cells.sort_by_key(|&c| mix(c as u64 * 100 + n as u64)),
            }
            let (mut x, mut twin) = (s.solver(), s.solver());
            let mut hist = vec![];
            ctx.trace();
            for (n, &c) in cells.iter().enumerate() {
                let d = if order == 3 && n == cells.len() / 3 { sol[c] % 9 + 1 } else { sol[c] };
                let o = Op::Insert(c, d);
                hist.push(o);
                let (a, b) = (perform(&mut x, o), perform(&mut twin, o));
                ctx.step(2);
                ensure!(a == Seen::Bool(true) && b == a, "after {hist:?} the insertions into an empty cell give {} with and {} without queries", a.show(), b.show());
                let op = queries(s, c)[q];
                let times = if period == 0 { if n == cells.len() / 2 { 300 } else { 0 } } else { (n % period == 0) as usize };
                if times > 0 {
                    let want = perform(&mut twin.clone(), op);
                    for _ in 0..times {
                        let got = perform(&mut x, op);
                        ensure!(!matches!(got, Seen::Panic(_)), "after {hist:?}, {op:?} panics: {}", got.show());
                        ensure!(got == want, "after {hist:?}, {op:?} gives {}, but without the queries it gives {}", got.show(), want.show());
                    }
                    ctx.step(times as u64 + 1);
                    hist.push(op);
                }
                ctx.state_fp(mix(fp(&s.bytes()) ^ fp(format!("{hist:?}").as_bytes())));
                if n % 10 == 9 || n + 1 == cells.len() {
                    for p in queries(s, 80 - c) {
                        let (a, b) = (perform(&mut x.clone(), p), perform(&mut twin.clone(), p));
                        ensure!(a == b, "after {hist:?}, {p:?} gives {}, but without the queries it gives {}", a.show(), b.show());
                        ctx.step(2);
                    }
                    ctx.alive();
                }
            }
            Ok(())
        },
        move |i| {
            let (k, order, q, period) = decode(i);
            format!("{} order {order} query {q} period {period}", s2[k].0.show())
        },
    );
    f.patience = 120;
    f
}

pub fn c22(t: Tier) -> Prop {
    let starts = Arc::new(history_starts(t));
    let s2 = starts.clone();
    let depth = t.pick(3, 4);
    let per = 20usize;
    let f = family(
        "histories",
        format!("{} starts x every history of at most {depth} operations over an alphabet of up to 17 (to_sudoku, grid_state, is_solved, display, cell_state of 3 cells, solve on a copy, insertions into empty and filled cells: right, wrong, clashing, repeated), then every query twice and solve with {} strategy lists; compared with the same history without queries", starts.len(), HIST_LISTS.len()),
        (starts.len() * per) as u64,
        move |i, ctx| {
            let s = &starts[i as usize / per];
            let ops = operations(s);
            let k = i as usize % per;
            let mut probes = vec![Op::ToSudoku, Op::GridState, Op::IsSolved, Op::Display];
            probes.extend((0..HIST_LISTS.len()).map(Op::CloneSolve));
            let e: Vec<usize> = (0..81).filter(|&c| s.dig[c] == 0).collect();
            probes.extend([0, 8, 40, 80].map(Op::Cell));
            if !e.is_empty() {
                probes.extend([e[0], e[e.len() / 2], e[e.len() - 1]].map(Op::Cell));
            }
            // the empty history belongs to k == 0
            if k > ops.len() {
                return Ok(());
            }
            let first = if k == 0 { vec![] } else { vec![ops[k - 1]] };
            let mut x = Explore { start: s, ops: &ops, probes, expected: Default::default() };
            let mut sol = s.solver();
            let (mut hist, mut ins, mut dig) = (vec![], vec![], s.dig);
            for &o in &first {
                let r = perform(&mut sol, o);
                hist.push(o);
                if let Op::Insert(c, d) = o {
                    let ok = dig[c] == 0;
                    ensure!(r == Seen::Bool(ok), "{o:?} gives {} although the cell holds {}", r.show(), if ok { "no digit".into() } else { dig[c].to_string() });
                    if ok {
                        dig[c] = d;
                        ins.push(o);
                    }
                }
            }
            let d = if k == 0 { 0 } else { depth - 1 };
            x.go(&sol, &mut hist, &mut ins, &dig, d, ctx)
        },
        move |i| {
            let s = &s2[i as usize / per];
            let o = operations(s);
            let k = i as usize % per;
            format!("{} first operation {}", s.show(), if k == 0 || k > o.len() { "none".into() } else { format!("{:?}", o[k - 1]) })
        },
    );
    let mut f = f;
    f.patience = 120;
    let g = long_histories(history_starts(t), t);
    Prop { families: vec![f, g], assumptions: vec!["Clone copies the solver exactly (the reference histories are built without clones)".into()], rule: "a state is a distinct history; a transition is one operation on a solver; a trace is one history whose every observation was compared".into() }
}

/// digits and candidates of the printed table, row by row
fn parse_table(s: &str) -> Option<(Grid, [u16; 81])> {
    let mut v: Vec<u16> = vec![];
    for l in s.lines() {
        let toks: Vec<&str> = l.split(|c: char| !(c.is_ascii_digit() || c == '_')).filter(|t| !t.is_empty()).collect();
        if toks.is_empty() {
            continue;
        }
        if toks.len() != 9 {
            return None;
        }
        for t in toks {
            let mut m = 0;
            for ch in t.bytes().filter(|&b| b != b'_') {
                if ch == b'0' || m >> (ch - b'1') & 1 == 1 {
                    return None;
                }
                m |= 1 << (ch - b'1');
            }
            v.push(m);
        }
    }
    let v: [u16; 81] = v.try_into().ok()?;
    let mut g = [0; 81];
    let mut c = [0; 81];
    for k in 0..81 {
        if v[k].count_ones() == 1 {
            g[k] = v[k].trailing_zeros() as u8 + 1;
        } else {
            c[k] = v[k];
        }
    }
    Some((g, c))
}

fn check_reports(s: &Start, ins: &[(usize, u8)], ctx: &mut Ctx) -> R {
    let mut full = s.clone();
    let mut legal = true;
    for &(c, d) in ins {
        legal &= Pos::new(&full).has(c, d);
        full.dig[c] = d;
        full.allowed[c] = 511;
    }
    if !legal {
        ctx.count("skipped_inserting_an_excluded_digit", 1);
        return Ok(());
    }
    let want = Pos::new(&full);
    if !want.locally_consistent() {
        ctx.count("skipped_directly_contradictory", 1);
        return Ok(());
    }
    let mut b = s.bytes();
    b.extend(ins.iter().flat_map(|x| [x.0 as u8, x.1]));
    ctx.state(&b);
    ctx.trace();
    let show = || format!("{} {}", s.show(), if ins.is_empty() { String::new() } else { format!("after inserting {ins:?}") });
    let mut solvers = vec![("", s.solver())];
    if s.plain() && (ins.is_empty() && clues(&s.dig) != 2) {
        solvers.push(("from_sudoku_and_clues: ", StrategySolver::from_sudoku_and_clues(su(&s.dig), su(&s.dig))));
        solvers.push(("from_grid_state: ", StrategySolver::from_grid_state(s.grid_state())));
    }
    for (how, mut sv) in solvers {
        for &(c, d) in ins {
            ensure!(sv.insert_candidate(sudoku::board::Candidate { cell: cell(c), digit: sudoku::board::Digit::new(d) }).is_ok(), "{how}inserting {d} into the empty cell {c} fails: {}", show());
        }
        let gs = sv.grid_state();
        ctx.step(4);
        let (g, m) = read_state(&gs);
        for c in 0..81 {
            ensure!(g[c] == want.dig[c] && m[c] == want.cand[c],
                "{how}grid_state() reports {} / candidates {} in cell {c}, expected {} / {}; {}", g[c], digits(m[c]), want.dig[c], digits(want.cand[c]), show());
        }
        for c in 0..81 {
            let cs = sv.cell_state(cell(c));
            ensure!(cs == gs[c], "{how}cell_state({c}) = {cs:?}, but grid_state() says {:?}; {}", gs[c], show());
        }
        ctx.step(81);
        let q = sv.to_sudoku().to_bytes();
        ensure!(q == want.dig, "{how}to_sudoku() = {}, expected {}; {}", line(&q), line(&want.dig), show());
        let again = StrategySolver::from_grid_state(gs).grid_state();
        ensure!(again == gs, "{how}a solver built from the reported grid state reports something else; {}", show());
        let mut p = want.clone();
        let mut ok = true;
        while let Some(c) = (0..81).find(|&c| p.cand[c].count_ones() == 1) {
            let d = p.cand[c].trailing_zeros() as u8 + 1;
            p.place(c, d);
            if !p.locally_consistent() {
                ok = false;
                break;
            }
        }
        if ok {
            let txt = sv.to_string();
            let t = parse_table(&txt);
            ensure!(t == Some((p.dig, p.cand)), "{how}the printed form does not show the digits and candidates (naked singles entered) {}:\n{txt}{}", p.render(), show());
            ctx.count("printed_tables_compared", 1);
        }
    }
    Ok(())
}

pub fn c23(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let mut fams = vec![];
    let mut add = |c: Cases| {
        let (a, b) = (c.at.clone(), c.at);
        fams.push(family(&c.name, c.about, c.n, move |i, x| check_reports(&a(i).0, &[], x), move |i| b(i).0.show()));
    };
    let one = || vec![vec![]];
    add(on_grids(&spaces::bases(), one()));
    add(on_grids(&spaces::edits("edits", take(p, t.pick(6, 99)), false), one()));
    add(on_grids(&spaces::units(take(s, t.pick(6, 100)), 2), one()));
    add(on_grids(&spaces::prefixes(take(s, t.pick(6, 100))), one()));
    add(on_grids(&spaces::images("images", take(p, t.pick(2, 20))), one()));
    add(on_grids(&spaces::sparse2(), one()));
    // every candidate mask in every cell, alone and within a puzzle
    let base: Vec<Grid> = [vec![[0; 81]], take(p, t.pick(3, 30))].concat();
    let nb = base.len();
    add(cases("masks", format!("empty grid and {} puzzles x every cell x all 511 non-empty candidate sets for it", nb - 1), nb * 81 * 511, move |i| {
        let mut s = Start::of(&base[i / 81 / 511]);
        let c = i / 511 % 81;
        if s.dig[c] == 0 {
            s.allowed[c] = (i % 511) as u16 + 1;
        }
        (s, vec![])
    }));
    add(single_cases());
    for k in 2..=4 {
        add(subset_cases(Tier::Quick, false, k));
        add(subset_cases(Tier::Quick, true, k));
    }
    // several excluded candidates at once: every digit excluded from every unit, and pairs of such exclusions
    let q2: Vec<Grid> = [vec![[0; 81]], take(p, t.pick(2, 20))].concat();
    let nq = q2.len();
    add(cases("exclusions", format!("empty grid and {} puzzles x every pair of (digit, house) excluded", nq - 1), nq * 243 * 243, move |i| {
        let mut s = Start::of(&q2[i / 243 / 243]);
        for k in [i % 243, i / 243 % 243] {
            for &c in &houses()[k / 9] {
                if s.dig[c] == 0 {
                    s.allowed[c] &= !(1 << (k % 9));
                }
            }
        }
        (s, vec![])
    }));
    // insertions: every single one and every ordered pair from a small set
    let st = Arc::new(history_starts(Tier::Quick));
    let st2 = st.clone();
    fams.push(family(
        "insertions",
        format!("{} starts x every single insertion into an empty cell (81 x 9) followed by each of 12 further insertions", st.len()),
        (st.len() * 729) as u64,
        move |i, ctx| {
            let s = &st[i as usize / 729];
            let (c, d) = (i as usize % 729 / 9, (i % 9) as u8 + 1);
            if s.dig[c] != 0 {
                return Ok(());
            }
            check_reports(s, &[(c, d)], ctx)?;
            for k in 0..12 {
                let (e, f) = ((c + 7 * k + 1) % 81, (d as usize + k) as u8 % 9 + 1);
                if s.dig[e] == 0 && e != c {
                    check_reports(s, &[(c, d), (e, f)], ctx)?;
                }
            }
            Ok(())
        },
        move |i| format!("{} inserting {} into cell {}", st2[i as usize / 729].show(), i % 9 + 1, i as usize % 729 / 9),
    ));
    Prop { families: fams, assumptions: vec!["states with a direct contradiction (a digit twice in a house, an empty cell without candidates) are outside the property".into()], rule: "a state is a distinct starting state (with insertions); a transition is one query; a trace is one state whose reports were compared completely".into() }
}
