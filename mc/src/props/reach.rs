//! C28: generation excludes nothing. For complete sets of admissible results, random outcomes are enumerated until every
//! member has been produced.
use super::generation::*;
use super::solving::su;
use crate::engine::*;
use crate::model::*;
use crate::{corpus, ensure};
use rand::seam::Tail;
use rand::RngCore;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use sudoku::Sudoku;

/// The caller's generator as users have one: the unmodified sampling code runs on its words.
struct Words(u64);
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|b| *b = self.next_u64() as u8);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// n-th sequence of random outcomes: scripted answers, or (words) a real generator
fn outcome(n: u64, words: bool, scripted: impl FnOnce() -> Sudoku, real: impl FnOnce(&mut Words) -> Sudoku, ctx: &mut Ctx) -> Result<Sudoku, Violation> {
    ctx.count("random_executions", 1);
    if n % 64 == 0 {
        ctx.alive();
    }
    if words {
        ctx.step(1);
        guarded(|| real(&mut Words(mix(n)))).map_err(|(l, m)| Violation { msg: format!("panics at {l}: {m} (generator {n})"), key: None })
    } else {
        let (q, log) = run(&[], Tail::Hash(n), scripted)?;
        ctx.step(log.len() as u64 + 1);
        Ok(q)
    }
}

struct Source {
    grid: Grid,
    symmetry: usize,
    /// the minimal puzzles, with the number of removal orders of the redundant classes that lead there
    minimal: BTreeMap<Grid, usize>,
}

fn without(g: &Grid, cl: &[usize]) -> Grid {
    let mut o = *g;
    cl.iter().for_each(|&c| o[c] = 0);
    o
}

/// A minimal puzzle of a solved grid with a few classes put back, and everything that is minimal in it.
fn source(k: usize, seed: u64) -> Option<(Source, BTreeSet<usize>)> {
    let s = corpus::solved();
    let sol = s[(mix(seed) % s.len() as u64) as usize];
    let cl = classes(k);
    let mut order: Vec<usize> = (0..cl.len()).collect();
    order.sort_by_key(|&i| mix(seed ^ mix(i as u64)));
    let mut g = sol;
    for &i in &order {
        let h = without(&g, &cl[i]);
        if count(&h, 2) == 1 {
            g = h;
        }
    }
    let back: Vec<usize> = order.iter().copied().filter(|&i| g[cl[i][0]] == 0).take(1 + (seed % 3) as usize).collect();
    for &i in &back {
        for &c in &cl[i] {
            g[c] = sol[c];
        }
    }
    let red: Vec<usize> = (0..cl.len()).filter(|&i| g[cl[i][0]] != 0 && count(&without(&g, &cl[i]), 2) == 1).collect();
    let n = red.len();
    if !(2..=6).contains(&n) {
        return None;
    }
    let cut = |m: usize| (0..n).filter(|i| m >> i & 1 == 1).fold(g, |h, i| without(&h, &cl[red[i]]));
    let uniq: Vec<bool> = (0..1usize << n).map(|m| count(&cut(m), 2) == 1).collect();
    // orders that lead to each set of removed classes
    let mut minimal = BTreeMap::new();
    let mut perm: Vec<usize> = (0..n).collect();
    fn permute(p: &mut Vec<usize>, k: usize, f: &mut impl FnMut(&[usize])) {
        if k == p.len() {
            return f(p);
        }
        for i in k..p.len() {
            p.swap(k, i);
            permute(p, k + 1, f);
            p.swap(k, i);
        }
    }
    let mut total = 0;
    permute(&mut perm, 0, &mut |p| {
        let m = p.iter().fold(0, |m, &i| if uniq[m | 1 << i] { m | 1 << i } else { m });
        *minimal.entry(cut(m)).or_insert(0) += 1;
        total += 1;
    });
    if minimal.len() < 2 || minimal.values().any(|&w| w * 60 < total) {
        return None;
    }
    let varies = red.iter().copied().filter(|&i| { let f = cl[i][0]; minimal.keys().any(|q| q[f] != 0) && minimal.keys().any(|q| q[f] == 0) }).collect();
    Some((Source { grid: g, symmetry: k, minimal }, varies))
}

/// Sources until every class of every symmetry is, often enough, kept in one minimal puzzle and absent from another.
fn sources(t: Tier) -> Vec<Source> {
    let jobs: Vec<usize> = (0..10).collect();
    let each = |k: usize| -> Vec<Source> {
        let need = t.pick(6, 20);
        let mut seen = vec![0; classes(k).len()];
        let mut v = vec![];
        for seed in 0..t.pick(1200u64, 4000) {
            if let Some((s, var)) = source(k, mix(k as u64 + 77) ^ mix(seed)) {
                if var.iter().any(|&i| seen[i] < need) {
                    var.iter().for_each(|&i| seen[i] += 1);
                    v.push(s);
                }
            }
        }
        v
    };
    std::thread::scope(|sc| jobs.iter().map(|&k| sc.spawn(move || each(k))).collect::<Vec<_>>().into_iter().flat_map(|h| h.join().unwrap()).collect())
}

pub fn c28(t: Tier) -> Prop {
    let mut fams = vec![];
    const LIMIT: u64 = 6000;
    let src = Arc::new(sources(t));
    let n = src.len() as u64;
    let s2 = src.clone();
    fams.push(family(
        "minimal_puzzles",
        format!("{n} sources with at most 6 redundant classes (so that the set of all minimal puzzles in them is known: 2 to 20) over the ten symmetries x (thread generator, caller's generator scripted, caller's generator with the unmodified sampling code); random outcomes are enumerated (at most {LIMIT}) until every minimal puzzle of the source has been produced; each has a probability of at least 1/60"),
        n * 3,
        move |i, ctx| {
            let (s, mode) = (&src[(i / 3) as usize], i % 3);
            let sym = SYMMETRIES[s.symmetry];
            let g = su(&s.grid);
            ctx.trace();
            let mut missing: BTreeSet<&Grid> = s.minimal.keys().collect();
            for k in 0..LIMIT {
                let q = outcome(
                    k,
                    mode == 2,
                    || if mode == 0 { if s.symmetry == 9 && k % 2 == 0 { Sudoku::generate_from(g) } else { Sudoku::generate_with_symmetry_from(g, sym) } } else { Sudoku::generate_with_symmetry_and_rng_from(g, sym, &mut CallerRng) },
                    |r| Sudoku::generate_with_symmetry_and_rng_from(g, sym, r),
                    ctx,
                )?;
                let q = q.to_bytes();
                ensure!(s.minimal.contains_key(&q), "{sym:?}: {} is not one of the {} minimal puzzles of the source {}", line(&q), s.minimal.len(), line(&s.grid));
                ctx.state(&q);
                missing.remove(&q);
                if missing.is_empty() {
                    ctx.max("outcomes_until_all_were_reached", k + 1);
                    ctx.count("minimal_puzzles_reached", s.minimal.len() as u64);
                    return Ok(());
                }
            }
            Err(Violation { msg: format!("{sym:?}: none of {LIMIT} sequences of random outcomes produces {} from the source {}, although it is minimal", line(missing.first().unwrap()), line(&s.grid)), key: None })
        },
        move |i| format!("{:?} of {}, {}", SYMMETRIES[s2[(i / 3) as usize].symmetry], line(&s2[(i / 3) as usize].grid), ["thread generator", "caller's generator, scripted", "caller's generator"][(i % 3) as usize]),
    ));

    // solved grids: all triples of cells
    let cap = t.pick(60_000u64, 200_000);
    let modes: &'static [u64] = t.pick(&[0, 2], &[0, 1, 2]);
    let mut f = family(
        "solved_triples",
        format!("every three cells x every three digits they can hold together (60 million combinations): random outcomes are enumerated (at most {cap} per first cell and entry point) until each has occurred in a generated grid; generate_solved, generate_solved_with_rng with the unmodified sampling code (thorough: also scripted)"),
        79 * modes.len() as u64,
        move |i, ctx| {
            let (a, mode) = (i as usize / modes.len(), modes[i as usize % modes.len()]);
            ctx.trace();
            let m = 80 - a;
            // pairs (b, c) of later cells x digits of a, b, c
            let mut seen = vec![[0u64; 12]; m * m];
            let mut left: u64 = 0;
            let cells: Vec<usize> = (a + 1..81).collect();
            for (x, &b) in cells.iter().enumerate() {
                for (y, &c) in cells.iter().enumerate().skip(x + 1) {
                    for d in 0..729usize {
                        let (p, q, r) = (d / 81, d / 9 % 9, d % 9);
                        if (p == q && peers()[a].contains(&b)) || (p == r && peers()[a].contains(&c)) || (q == r && peers()[b].contains(&c)) {
                            seen[x * m + y][d / 64] |= 1 << (d % 64);
                        } else {
                            left += 1;
                        }
                    }
                }
            }
            let total = left;
            for k in 0..cap {
                let g = outcome(k + a as u64 * cap, mode == 2, || if mode == 0 { Sudoku::generate_solved() } else { Sudoku::generate_solved_with_rng(&mut CallerRng) }, |r| Sudoku::generate_solved_with_rng(r), ctx)?.to_bytes();
                ensure!(is_valid_full(&g), "the generated grid {} is not a valid complete grid", line(&g));
                let da = (g[a] as usize - 1) * 81;
                for x in 0..m {
                    let db = da + (g[a + 1 + x] as usize - 1) * 9;
                    for y in x + 1..m {
                        let d = db + g[a + 1 + y] as usize - 1;
                        let w = &mut seen[x * m + y][d / 64];
                        if *w >> (d % 64) & 1 == 0 {
                            *w |= 1 << (d % 64);
                            left -= 1;
                        }
                    }
                }
                if left == 0 {
                    ctx.max("outcomes_until_all_were_reached_solved", k + 1);
                    ctx.count("combinations_reached", total);
                    return Ok(());
                }
            }
            let (x, y, d) = (0..m).flat_map(|x| (x + 1..m).map(move |y| (x, y))).find_map(|(x, y)| (0..729).find(|&d| seen[x * m + y][d / 64] >> (d % 64) & 1 == 0).map(|d| (x, y, d))).unwrap();
            Err(Violation { msg: format!("none of {cap} sequences of random outcomes gives a solved grid with {}, {}, {} in the cells {a}, {}, {} ({left} of {total} combinations are missing)", d / 81 + 1, d / 9 % 9 + 1, d % 9 + 1, a + 1 + x, a + 1 + y), key: None })
        },
        move |i| format!("first cell {}, {}", i as usize / modes.len(), ["generate_solved", "generate_solved_with_rng, scripted", "generate_solved_with_rng"][modes[i as usize % modes.len()] as usize]),
    );
    f.patience = 120;
    fams.push(f);

    // whole generation
    let mut f = family(
        "puzzles",
        "generate_with_symmetry for ten symmetries and generate(): random outcomes are enumerated (at most 8000) until every cell has been empty, and has been given every digit as a clue",
        11,
        move |i, ctx| {
            ctx.trace();
            let mut seen = [[false; 10]; 81];
            let mut left = 810;
            for k in 0..8000 {
                let (q, log) = run(&[], Tail::Hash(k), || if i < 10 { Sudoku::generate_with_symmetry(SYMMETRIES[i as usize]) } else { Sudoku::generate() })?;
                ctx.step(log.len() as u64 + 1);
                ctx.count("random_executions", 1);
                ctx.alive();
                let q = q.to_bytes();
                ctx.state(&q);
                for c in 0..81 {
                    if !std::mem::replace(&mut seen[c][q[c] as usize], true) {
                        left -= 1;
                    }
                }
                if left == 0 {
                    ctx.max("outcomes_until_all_were_reached_puzzles", k + 1);
                    return Ok(());
                }
            }
            let (c, d) = (0..81).flat_map(|c| (0..10).map(move |d| (c, d))).find(|&(c, d)| !seen[c][d]).unwrap();
            Err(Violation { msg: format!("in none of 8000 generated puzzles is cell {c} {} ({left} of 810 cases are missing)", if d == 0 { "empty".into() } else { format!("given as {d}") }), key: None })
        },
        |i| if i < 10 { format!("{:?}", SYMMETRIES[i as usize]) } else { "generate()".into() },
    );
    f.patience = 120;
    fams.push(f);
    Prop {
        families: fams,
        assumptions: vec!["an admissible result that has a probability of at least 1/60 (minimal puzzles) or about 1/1500 (three cells) is produced by one of the enumerated outcome sequences unless it is excluded".into()],
        rule: "a state is a distinct generated puzzle; a transition is one answered random draw (or one call with a real generator); a trace is one set of admissible results that was exhausted".into(),
    }
}
