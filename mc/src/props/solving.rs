//! C01 solution sets, C02 verdicts, C03 limits and buffers, C10 is_solved / n_clues.
use crate::engine::*;
use crate::model::*;
use crate::spaces::*;
use crate::{corpus, ensure, fail};
use sudoku::Sudoku;

pub fn su(g: &Grid) -> Sudoku {
    match Sudoku::from_bytes(*g) {
        Ok(s) => s,
        Err(_) => panic!("from_bytes rejects the valid byte grid {}", line(g)),
    }
}

pub fn over(s: &GridSpace, f: impl Fn(&Grid, &mut Ctx) -> R + Send + Sync + 'static) -> Family {
    let (at, at2) = (s.at.clone(), s.at.clone());
    family(&s.name, s.about.clone(), s.n, move |i, c| f(&at(i), c), move |i| line(&at2(i)))
}

fn sorted(mut v: Vec<Grid>) -> Vec<Grid> {
    v.sort();
    v
}

fn check_set(g: &Grid, cap: usize, ctx: &mut Ctx) -> R {
    ctx.state(g);
    let want = solutions(g, cap);
    let s = su(g);
    let got: Vec<Grid> = s.solutions_up_to(cap).iter().map(|s| s.to_bytes()).collect();
    ctx.step(1 + got.len() as u64);
    ctx.trace();
    ctx.max("solutions_of_one_grid", got.len() as u64);
    ctx.count(
        match want.len() {
            0 => "grids_without_solution",
            1 => "grids_with_one_solution",
            n if n == cap => "grids_with_at_least_cap_solutions",
            _ => "grids_with_several_solutions_fully_compared",
        },
        1,
    );
    ctx.outcome(&[want.len() as u8, (want.len() >> 8) as u8]);
    let n = want.len();
    ensure!(got.len() == n, "solutions_up_to({cap}) returns {} grids, expected {n}", got.len());
    for q in &got {
        ensure!(is_valid_full(q), "solutions_up_to({cap}) returns {}, which is not a valid complete grid", line(q));
        ensure!(extends(q, g), "solutions_up_to({cap}) returns {}, which changes a clue", line(q));
    }
    let got = sorted(got);
    for w in got.windows(2) {
        ensure!(w[0] != w[1], "solutions_up_to({cap}) returns {} twice", line(&w[0]));
    }
    if n < cap {
        let want = sorted(want);
        for (a, b) in want.iter().zip(&got) {
            ensure!(a == b, "solutions_up_to({cap}) misses or adds a solution: {} vs {}", line(a), line(b));
        }
    }
    for lim in [1usize, 2] {
        let got = s.solutions_up_to(lim);
        ctx.step(1);
        ensure!(got.len() == n.min(lim), "solutions_up_to({lim}) returns {} grids, expected {}", got.len(), n.min(lim));
        for q in got {
            let q = q.to_bytes();
            ensure!(is_valid_full(&q) && extends(&q, g), "solutions_up_to({lim}) returns {}, not a completion", line(&q));
        }
    }
    Ok(())
}

pub fn solver_spaces(t: Tier) -> Vec<(GridSpace, usize)> {
    let p = corpus::puzzles();
    let s = corpus::solved();
    vec![
        (bases(), 100),
        (edits("edits", p.clone(), t == Tier::Thorough), 40),
        (units(take(s, t.pick(100, 100)), 2), 60),
        (units(take(s, t.pick(4, 40)), 3), 40),
        (band_patterns(take(s, t.pick(16, 60)), 1, false), 30),
        (band_patterns(take(s, t.pick(4, 30)), 2, false), 30),
        (band_patterns(take(s, t.pick(1, 8)), 3, false), 30),
        (prefixes(s.clone()), 50),
        (few_digits(s.clone(), 4), 40),
        (few_digits(p.clone(), 3), 40),
        (sparse2(), 3),
        (full2(take(s, t.pick(2, 20))), 10),
    ]
}

const RULE: &str = "a state is a distinct byte grid handed to the solver; a transition is one solver call or one returned solution; a trace is one complete comparison with the reference solution set";

pub fn c01(t: Tier) -> Prop {
    let mut fams: Vec<Family> =
        solver_spaces(t).into_iter().map(|(s, cap)| over(&s, move |g, c| check_set(g, cap, c))).collect();
    // large solution sets compared completely
    let mut s = units(take(corpus::solved(), t.pick(12, 60)), 2);
    s.name = "large_sets".into();
    s.about = format!("{}; complete comparison up to {} solutions", s.about, t.pick(1000, 20_000));
    fams.push(over(&s, move |g, c| check_set(g, t.pick(1000, 20_000), c)));
    Prop { families: fams, assumptions: vec!["the reference backtracking solver of the harness is correct (self-tested at start)".into()], rule: RULE.into() }
}

fn check_verdicts(g: &Grid, ctx: &mut Ctx) -> R {
    ctx.state(g);
    let want = solutions(g, 2);
    let s = su(g);
    ctx.step(3);
    ctx.trace();
    ctx.count(["no_solution", "unique", "several"][want.len()], 1);
    if want.len() == 1 {
        let n = clues(g);
        ctx.max("unique_with_few_clues_81_minus", 81 - n as u64);
    }
    let u = s.is_uniquely_solvable();
    ensure!(u == (want.len() == 1), "is_uniquely_solvable() = {u}, but the number of completions is {}", ["0", "1", "at least 2"][want.len()]);
    match (s.solution(), want.len()) {
        (Some(q), 1) => ensure!(q.to_bytes() == want[0], "solution() = {}, expected {}", line(&q.to_bytes()), line(&want[0])),
        (None, 1) => fail!("solution() = None for a uniquely solvable sudoku"),
        (Some(q), n) => fail!("solution() = {} although the sudoku has {} completions", line(&q.to_bytes()), ["0", "", "several"][n]),
        (None, _) => {}
    }
    match (s.some_solution(), want.len()) {
        (Some(q), n) => {
            let q = q.to_bytes();
            ensure!(n > 0, "some_solution() = {} for an unsolvable sudoku", line(&q));
            ensure!(is_valid_full(&q) && extends(&q, g), "some_solution() = {}, which is no completion", line(&q));
        }
        (None, 0) => {}
        (None, _) => fail!("some_solution() = None although a completion exists"),
    }
    Ok(())
}

pub fn c02(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let mut fams: Vec<Family> = solver_spaces(t).into_iter().map(|(s, _)| over(&s, check_verdicts)).collect();
    let few: Vec<Grid> = p.iter().filter(|g| clues(g) <= 19).copied().collect();
    fams.push(over(&edits("sparse_puzzle_edits", few.clone(), true), check_verdicts));
    fams.push(over(&images("few_clue_images", take(&few, t.pick(8, 100))), check_verdicts));
    // eight distinct digits: remove one digit from the solution-extended puzzle as far as it stays unique
    fams.push(over(&explicit("eight_digits", "uniquely solvable puzzles without any clue of one digit, and the same with one clue removed", eight_digit_puzzles()), check_verdicts));
    Prop { families: fams, assumptions: vec!["the reference backtracking solver of the harness is correct (self-tested at start)".into()], rule: RULE.into() }
}

/// for every puzzle and digit: drop that digit's clues; re-add solution clues of other digits in reading order until
/// unique; then minimise; and all single clue removals of the result
fn eight_digit_puzzles() -> Vec<Grid> {
    let mut out = vec![];
    for g in take(corpus::puzzles(), 30) {
        let s = unique(&g).unwrap();
        for d in 1..=9u8 {
            let mut q = g;
            for c in 0..81 {
                if s[c] == d {
                    q[c] = 0;
                }
            }
            for c in 0..81 {
                if count(&q, 2) == 1 {
                    break;
                }
                if s[c] != d {
                    q[c] = s[c];
                }
            }
            for c in 0..81 {
                if q[c] != 0 {
                    let k = q[c];
                    q[c] = 0;
                    if count(&q, 2) != 1 {
                        q[c] = k;
                    }
                }
            }
            out.push(q);
            for c in 0..81 {
                if q[c] != 0 {
                    let mut r = q;
                    r[c] = 0;
                    out.push(r);
                }
            }
        }
    }
    out
}

fn check_limits(g: &Grid, maxn: usize, ctx: &mut Ctx) -> R {
    ctx.state(g);
    let s = su(g);
    let total = count(g, maxn + 1);
    let mut limits: Vec<usize> = (0..=total.min(maxn) + if total <= maxn { 2 } else { 0 }).collect();
    if total <= maxn {
        limits.extend([1000, u32::MAX as usize, usize::MAX - 1, usize::MAX]);
        ctx.count("grids_with_all_limits_up_to_and_beyond_the_solution_count", 1);
    } else {
        ctx.count("grids_with_more_solutions_than_the_largest_limit", 1);
    }
    ctx.outcome(&(total as u32).to_le_bytes());
    for &lim in &limits {
        let want = lim.min(total);
        let n = s.solutions_count_up_to(lim);
        ensure!(n == want, "solutions_count_up_to({lim}) = {n}, expected {want}");
        let v = s.solutions_up_to(lim);
        ensure!(v.len() == want, "solutions_up_to({lim}) returns {} solutions, expected {want}", v.len());
        ctx.step(2);
        let top = want.min(maxn) + 2;
        for len in 0..=top {
            let fill = |i: usize, k: usize| (mix(((i * 81 + k) as u64).wrapping_add(lim as u64)) as u8) | 0x80;
            let mut buf: Vec<[u8; 81]> = (0..len).map(|i| std::array::from_fn(|k| fill(i, k))).collect();
            let n = s.solutions_up_to_buffer(&mut buf, lim);
            ctx.step(1);
            ctx.state_fp(mix(fp(g) ^ mix((lim as u64) << 20 | len as u64)));
            ensure!(n == want, "solutions_up_to_buffer(buffer of {len}, {lim}) = {n}, expected {want}");
            let w = n.min(len);
            for i in 0..len {
                if i < w {
                    ensure!(is_valid_full(&buf[i]) && extends(&buf[i], g),
                        "solutions_up_to_buffer(buffer of {len}, {lim}): slot {i} of the first {w} does not hold a completion but {:?}", &buf[i][..]);
                    ensure!(!buf[..i].contains(&buf[i]), "solutions_up_to_buffer(buffer of {len}, {lim}): slot {i} repeats an earlier solution");
                } else {
                    ensure!((0..81).all(|k| buf[i][k] == fill(i, k)),
                        "solutions_up_to_buffer(buffer of {len}, {lim}) returned {n} but changed slot {i}");
                }
            }
            ctx.trace();
        }
    }
    Ok(())
}

/// limits around the sizes of small integer types, on grids with that many solutions and more
fn check_large_limits(g: &Grid, cap: usize, ctx: &mut Ctx) -> R {
    ctx.state(g);
    let s = su(g);
    let total = count(g, cap);
    ctx.max("solutions_of_one_grid", total as u64);
    let mut limits = vec![255usize, 256, 257, 65_535, 65_536, 65_537, 65_536 + 256];
    if total == cap {
        limits = vec![256 + clues(g) % 2, 65_536 + clues(g) % 3];
    }
    if total < cap {
        limits.extend([total.saturating_sub(1), total, total + 1, 1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, usize::MAX / 2, usize::MAX / 81, usize::MAX - 1, usize::MAX]);
        ctx.count("grids_counted_completely", 1);
    }
    for &lim in &limits {
        let want = lim.min(total);
        ctx.state_fp(mix(fp(g) ^ mix(lim as u64)));
        ctx.step(3);
        ctx.trace();
        let n = s.solutions_count_up_to(lim);
        ensure!(n == want, "solutions_count_up_to({lim}) = {n}, expected {want}");
        let v = s.solutions_up_to(lim);
        ensure!(v.len() == want, "solutions_up_to({lim}) returns {} solutions, expected {want}", v.len());
        let mut v: Vec<Grid> = v.iter().map(|s| s.to_bytes()).collect();
        let mut bad = v.iter().find(|q| !is_valid_full(*q) || !extends(*q, g));
        if let Some(q) = bad.take() {
            fail!("solutions_up_to({lim}) returns {}, which is not a completion", line(q));
        }
        v.sort_unstable();
        ensure!(v.windows(2).all(|w| w[0] != w[1]), "solutions_up_to({lim}) returns a solution twice");
        for len in [0, 1, want.min(256), want.saturating_sub(1), want + 1] {
            let mut buf = vec![[0xEEu8; 81]; len];
            let n = s.solutions_up_to_buffer(&mut buf, lim);
            ensure!(n == want, "solutions_up_to_buffer(buffer of {len}, {lim}) = {n}, expected {want}");
            let w = want.min(len);
            ensure!(buf[..w].iter().all(|q| is_valid_full(q) && extends(q, g)), "solutions_up_to_buffer(buffer of {len}, {lim}): one of the first {w} slots does not hold a completion");
            ensure!(buf[w..].iter().all(|q| *q == [0xEE; 81]), "solutions_up_to_buffer(buffer of {len}, {lim}) returned {n} but changed a later slot");
            buf.truncate(w);
            buf.sort_unstable();
            ensure!(buf.windows(2).all(|w| w[0] != w[1]), "solutions_up_to_buffer(buffer of {len}, {lim}) stores a solution twice");
        }
    }
    Ok(())
}

pub fn c03(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let spaces = vec![
        (bases(), 6),
        (edits("edits", take(p, t.pick(40, 100)), false), 6),
        (units(take(s, t.pick(60, 100)), 2), 12),
        (band_patterns(take(s, t.pick(2, 16)), 1, false), 8),
        (prefixes(take(s, t.pick(60, 100))), 12),
        (few_digits(take(s, t.pick(60, 100)), 4), 12),
        (few_digits(take(p, t.pick(60, 100)), 2), 10),
    ];
    let mut fams: Vec<Family> = spaces.into_iter().map(|(s, n)| over(&s, move |g, c| check_limits(g, n, c))).collect();
    let mut big = prefixes(take(s, t.pick(6, 30)));
    big.name = "prefixes_wide".into();
    fams.push(over(&big, move |g, c| check_limits(g, t.pick(40, 100), c)));
    let mut huge = prefixes(take(s, t.pick(1, 4)));
    huge.name = "prefixes_large_limits".into();
    huge.about = format!("{}; limits around 2^8, 2^16, 2^31, 2^32, 2^64 and around the number of solutions", huge.about);
    let mut f = over(&huge, move |g, c| check_large_limits(g, t.pick(70_000, 300_000), c));
    f.patience = 200;
    fams.push(f);
    let mut huge = units(take(s, t.pick(1, 3)), 2);
    huge.name = "units2_large_limits".into();
    huge.about = format!("{}; limits around 2^8, 2^16, 2^31, 2^32, 2^64 and around the number of solutions", huge.about);
    fams.push(over(&huge, move |g, c| check_large_limits(g, t.pick(70_000, 300_000), c)));
    Prop { families: fams, assumptions: vec![], rule: "a state is a distinct (grid, limit, buffer length); a transition is one solver call; a trace is one buffer compared slot by slot".into() }
}

fn check_solved(g: &Grid, ctx: &mut Ctx) -> R {
    ctx.state(g);
    ctx.trace();
    ctx.step(2);
    let s = su(g);
    let want = is_valid_full(g);
    ctx.count(if want { "solved" } else if clues(g) == 81 { "full_but_wrong" } else { "not_full" }, 1);
    let got = s.is_solved();
    ensure!(got == want, "is_solved() = {got}, expected {want}");
    let n = s.n_clues();
    ensure!(n as usize == clues(g), "n_clues() = {n}, expected {}", clues(g));
    Ok(())
}

/// full grids in which exactly one kind of constraint fails, and other near-solutions
pub fn near_solved(bases: &[Grid]) -> Vec<Grid> {
    let mut v = vec![];
    for g in bases {
        for a in 0..81 {
            for b in 0..a {
                let mut o = *g;
                o.swap(a, b);
                v.push(o);
            }
        }
        for (r1, r2) in (0..9).flat_map(|a| (0..a).map(move |b| (a, b))) {
            for (c1, c2) in (0..9).flat_map(|a| (0..a).map(move |b| (a, b))) {
                // exchange the two cells within both rows / within both columns
                let mut o = *g;
                o.swap(r1 * 9 + c1, r1 * 9 + c2);
                o.swap(r2 * 9 + c1, r2 * 9 + c2);
                v.push(o);
                let mut o = *g;
                o.swap(r1 * 9 + c1, r2 * 9 + c1);
                o.swap(r1 * 9 + c2, r2 * 9 + c2);
                v.push(o);
                // exchange two digits in two rows only
                for (x, y) in [(r1, r2), (c1, c2)] {
                    let mut o = *g;
                    for k in 0..9 {
                        let (p, q) = (x * 9 + k, y * 9 + k);
                        o[p] = g[q];
                        o[q] = g[p];
                    }
                    v.push(o);
                    let mut o = *g;
                    for k in 0..9 {
                        let (p, q) = (k * 9 + x, k * 9 + y);
                        o[p] = g[q];
                        o[q] = g[p];
                    }
                    v.push(o);
                }
            }
        }
        // two digits exchanged within one house only / within a set of houses; blocks exchanged
        for h in houses().iter() {
            for a in 1..=9u8 {
                for b in 1..a {
                    let mut o = *g;
                    for &c in h {
                        o[c] = if g[c] == a { b } else if g[c] == b { a } else { g[c] };
                    }
                    v.push(o);
                }
            }
            for h2 in houses().iter() {
                let mut o = *g;
                for k in 0..9 {
                    o[h[k]] = g[h2[k]];
                }
                v.push(o);
                for k in 0..9 {
                    o[h2[k]] = g[h[k]];
                }
                v.push(o);
            }
        }
    }
    // Latin squares: every (a r + b c) mod 9 pattern, with row orders shuffled by every line permutation of a band
    for a in 0..9usize {
        for b in 0..9usize {
            for k in 0..9usize {
                let mut o = [0u8; 81];
                for c in 0..81 {
                    o[c] = ((a * row(c) + b * col(c) + k * blk(c)) % 9) as u8 + 1;
                }
                v.push(o);
                for c in 0..81 {
                    o[c] = ((a * row(c) + row(c) / 3 + b * col(c) + k * (col(c) / 3)) % 9) as u8 + 1;
                }
                v.push(o);
            }
        }
    }
    v
}

pub fn c10(t: Tier) -> Prop {
    let s = corpus::solved();
    let near = near_solved(&take(s, t.pick(12, 100)));
    let mut fams = vec![
        over(&bases(), check_solved),
        over(&explicit("near_solved", "full grids violating single kinds of constraints: all cell swaps, paired swaps, house copies/exchanges, digit exchanges per house, all linear Latin patterns", near), check_solved),
        over(&full2(take(s, t.pick(10, 100))), check_solved),
        over(&units(s.clone(), 3), check_solved),
        over(&prefixes(s.clone()), check_solved),
        over(&sparse2(), check_solved),
        over(&edits("edits", corpus::puzzles().clone(), false), check_solved),
    ];
    if t == Tier::Thorough {
        fams.push(over(&full3(s[1..3].to_vec()), check_solved));
    }
    // every image of a solved grid under the whole positional group (validity must be recognised everywhere)
    let g = s[1];
    let n = N_POSITIONAL as u64;
    let img = move |i: u64| apply(&positional(i as usize), &digit_perm((i % 362_880) as usize), &g);
    fams.push(family(
        "solved_orbit",
        "one solved grid under every positional transformation (3359232) and every digit relabelling in turn",
        n,
        move |i, c| check_solved(&img(i), c),
        move |i| line(&img(i)),
    ));
    Prop { families: fams, assumptions: vec![], rule: "a state is a distinct byte grid; a transition is one call; a trace is one grid compared".into() }
}
