//! C11 solved grids, C12 puzzle generation, C13 sources of randomness, C14 shuffling.
//!
//! Every random draw of the code under test is a choice point answered by the harness (vendored `rand` with a
//! seam). Exploration is deviation-bounded: from a base answer policy, every way to deviate in at most k draws.
use super::solving::su;
use crate::engine::*;
use crate::model::*;
use crate::spaces::take;
use crate::{corpus, ensure, fail};
use rand::seam::{self, Draw, Tail};
use rand::RngCore;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};
use sudoku::{Sudoku, Symmetry};

/// The caller's generator: every raw draw is a choice point of its own.
pub struct CallerRng;
impl RngCore for CallerRng {
    fn next_u32(&mut self) -> u32 {
        seam::raw::<CallerRng>() as u32
    }
    fn next_u64(&mut self) -> u64 {
        seam::raw::<CallerRng>()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = seam::raw::<CallerRng>() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// One execution under a script; panics of the implementation are passed on as Err.
pub fn run<T>(script: &[u64], tail: Tail, f: impl FnOnce() -> T) -> Result<(T, Vec<Draw>), Violation> {
    seam::begin(script, tail);
    let r = guarded(f);
    let log = seam::end();
    match r {
        Ok(t) => Ok((t, log)),
        Err((l, m)) => Err(Violation { msg: format!("panics at {l}: {m} (random outcomes {:?}, then {tail:?})", script), key: None }),
    }
}

/// Explore all executions with at most `bound` further deviations after the given prefix.
fn deviations<T>(
    prefix: &[u64],
    tail: Tail,
    bound: usize,
    window: usize,
    exec: &dyn Fn() -> T,
    check: &mut dyn FnMut(&[u64], &T, &[Draw], &mut Ctx) -> R,
    ctx: &mut Ctx,
) -> R {
    let (t, log) = run(prefix, tail, exec)?;
    ctx.step(log.len() as u64 + 1);
    ctx.count("random_executions", 1);
    ctx.max("draws_in_one_execution", log.len() as u64);
    check(prefix, &t, &log, ctx)?;
    ctx.alive();
    if bound == 0 {
        return Ok(());
    }
    let vals: Vec<u64> = log.iter().map(|d| d.value).collect();
    for i in prefix.len()..log.len().min(prefix.len().saturating_add(window)) {
        for alt in 0..log[i].arity {
            if alt == vals[i] {
                continue;
            }
            let mut s = vals[..i].to_vec();
            s.push(alt);
            deviations(&s, tail, bound - 1, window, exec, check, ctx)?;
        }
    }
    Ok(())
}

pub fn tails(n: u64) -> Vec<Tail> {
    let mut v = vec![Tail::Zero, Tail::Last];
    v.extend((0..n).map(Tail::Hash));
    v
}

// ------------------------------------------------------------------ C11

fn check_solved_grid(script: &[u64], tail: Tail, s: &Sudoku, ctx: &mut Ctx) -> R {
    let g = s.to_bytes();
    ctx.state(&g);
    ctx.outcome(&g);
    ctx.trace();
    ensure!(is_valid_full(&g), "the generated grid {} is not a valid complete grid (random outcomes {script:?}, then {tail:?})", line(&g));
    Ok(())
}

type Gen = fn() -> Sudoku;
fn gen_caller() -> Sudoku {
    Sudoku::generate_solved_with_rng(&mut CallerRng)
}
fn gen_caller_dyn() -> Sudoku {
    let r: &mut dyn RngCore = &mut CallerRng;
    Sudoku::generate_solved_with_rng(r)
}
fn gen_thread() -> Sudoku {
    Sudoku::generate_solved()
}

pub fn c11(t: Tier) -> Prop {
    let mut fams = vec![];
    // (function, base, position of the first deviation)
    let mk = |name: &str, gens: Vec<(&'static str, Gen)>, tl: Vec<Tail>, bound: usize, about: String| {
        let n = (gens.len() * tl.len() * 110) as u64;
        let (tl, gens) = (Arc::new(tl), Arc::new(gens));
        let (tl2, gens2) = (tl.clone(), gens.clone());
        family(
            name,
            about,
            n,
            move |i, ctx| {
                let i = i as usize;
                let (p, tail, g) = (i % 110, tl[i / 110 % tl.len()], gens[i / 110 / tl.len()].1);
                let mut chk = |s: &[u64], q: &Sudoku, _: &[Draw], c: &mut Ctx| check_solved_grid(s, tail, q, c);
                let (q, log) = run(&[], tail, g)?;
                ctx.step(log.len() as u64 + 1);
                ctx.max("draws_in_base_execution", log.len() as u64);
                if p == 0 {
                    chk(&[], &q, &log, ctx)?;
                }
                if p >= log.len() {
                    return Ok(());
                }
                let vals: Vec<u64> = log.iter().map(|d| d.value).collect();
                for alt in (0..log[p].arity).filter(|&a| a != vals[p]) {
                    let mut s = vals[..p].to_vec();
                    s.push(alt);
                    deviations(&s, tail, bound - 1, usize::MAX, &g, &mut chk, ctx)?;
                }
                Ok(())
            },
            move |i| {
                let i = i as usize;
                format!("{}: base policy {:?}, first deviation at draw {}", gens2[i / 110 / tl2.len()].0, tl2[i / 110 % tl2.len()], i % 110)
            },
        )
    };
    let both: Vec<(&'static str, Gen)> = vec![("generate_solved_with_rng", gen_caller), ("generate_solved", gen_thread), ("generate_solved_with_rng(dyn)", gen_caller_dyn)];
    fams.push(mk("dev1", both.clone(), tails(t.pick(1000, 8000)), 1, "three entry points x base policies (first, last, hashed) x every single deviation".into()));
    fams.push(mk("dev2", both[..2].to_vec(), tails(t.pick(24, 300)), 2, "two entry points x base policies x every pair of deviations".into()));
    fams.push(mk("dev3", both[..1].to_vec(), tails(t.pick(0, 6)), 3, "base policies (always first, always last) x every triple of deviations".into()));
    // every permutation the initial draws can produce: product over the first 8 draws
    fams.push(family(
        "prefix_product",
        "every combination of the first 8 draws (362880 when they shuffle nine digits), then the always-first and always-last policy",
        2 * 72,
        |i, ctx| {
            let tail = if i % 2 == 0 { Tail::Zero } else { Tail::Last };
            let (a, b) = (i / 2 / 8, i / 2 % 8);
            let (_, log) = run(&[], tail, gen_caller)?;
            if log.len() < 2 || a >= log[0].arity || b >= log[1].arity {
                return Ok(());
            }
            product(&[a, b], 8, tail, &gen_caller, &mut |s, q, c| check_solved_grid(s, tail, q, c), ctx)
        },
        |i| format!("first two draws {:?}", (i / 2 / 8, i / 2 % 8)),
    ));
    let depth = t.pick(15, 17);
    fams.push(family(
        "guess_product",
        format!("first 8 draws fixed (4 ways), every combination of draws 9..={depth}"),
        4 * 100,
        move |i, ctx| {
            let tail = [Tail::Zero, Tail::Last, Tail::Hash(1), Tail::Hash(2)][(i % 4) as usize];
            let (_, log) = run(&[], tail, gen_caller)?;
            let (a, b) = (i / 4 / 10, i / 4 % 10);
            if log.len() < 10 || a >= log[8].arity || b >= 9 {
                return Ok(());
            }
            let mut s: Vec<u64> = log[..8].iter().map(|d| d.value).collect();
            s.push(a);
            let (_, log) = run(&s, tail, gen_caller)?;
            if log.len() < 10 || b >= log[9].arity {
                return Ok(());
            }
            s.push(b);
            product(&s, depth, tail, &gen_caller, &mut |s, q, c| check_solved_grid(s, tail, q, c), ctx)
        },
        |i| format!("base {} with draws 9 and 10 = {:?}", i % 4, (i / 4 / 10, i / 4 % 10)),
    ));
    Prop { families: fams, assumptions: vec!["random draws are uniform integers, coin flips or raw words made through the rand crate (vendored with a choice-point seam); after 20000 draws in one execution the policy becomes fair".into()], rule: "a state is a distinct generated grid; a transition is one answered random draw; a trace is one complete execution whose result was checked".into() }
}

fn product<T>(prefix: &[u64], upto: usize, tail: Tail, exec: &dyn Fn() -> T, check: &mut dyn FnMut(&[u64], &T, &mut Ctx) -> R, ctx: &mut Ctx) -> R {
    let (t, log) = run(prefix, tail, exec)?;
    ctx.step(log.len() as u64 + 1);
    ctx.count("random_executions", 1);
    ctx.alive();
    if prefix.len() >= upto || prefix.len() >= log.len() {
        return check(prefix, &t, ctx);
    }
    for v in 0..log[prefix.len()].arity {
        let mut s = prefix.to_vec();
        s.push(v);
        product(&s, upto, tail, exec, check, ctx)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

pub const SYMMETRIES: [Symmetry; 10] = [
    Symmetry::VerticalMirror,
    Symmetry::HorizontalMirror,
    Symmetry::VerticalAndHorizontalMirror,
    Symmetry::DiagonalMirror,
    Symmetry::AntidiagonalMirror,
    Symmetry::BidiagonalMirror,
    Symmetry::QuarterRotation,
    Symmetry::HalfRotation,
    Symmetry::Dihedral,
    Symmetry::None,
];

/// classes of cells under the group generated by the documented mirrors / rotations
pub fn classes(k: usize) -> &'static Vec<Vec<usize>> {
    static C: OnceLock<Vec<Vec<Vec<usize>>>> = OnceLock::new();
    &C.get_or_init(|| {
        type M = fn(usize, usize) -> (usize, usize);
        let v: M = |r, c| (r, 8 - c); // mirror along the vertical axis
        let h: M = |r, c| (8 - r, c);
        let d: M = |r, c| (c, r);
        let a: M = |r, c| (8 - c, 8 - r);
        let q: M = |r, c| (c, 8 - r);
        let half: M = |r, c| (8 - r, 8 - c);
        let gens: [Vec<M>; 10] = [vec![v], vec![h], vec![v, h], vec![d], vec![a], vec![d, a], vec![q], vec![half], vec![v, d], vec![]];
        gens.iter()
            .map(|g| {
                let mut seen = [false; 81];
                let mut out = vec![];
                for c in 0..81 {
                    if seen[c] {
                        continue;
                    }
                    let mut cl = vec![c];
                    seen[c] = true;
                    let mut i = 0;
                    while i < cl.len() {
                        for m in g {
                            let (r, k) = m(row(cl[i]), col(cl[i]));
                            if !seen[r * 9 + k] {
                                seen[r * 9 + k] = true;
                                cl.push(r * 9 + k);
                            }
                        }
                        i += 1;
                    }
                    out.push(cl);
                }
                out
            })
            .collect()
    })[k]
}
fn has_symmetry(g: &Grid, k: usize) -> bool {
    classes(k).iter().all(|c| c.iter().all(|&x| (g[x] == 0) == (g[c[0]] == 0)))
}

fn check_puzzle(src: &Grid, sol: Option<&Grid>, k: usize, out: &Grid, how: &str, ctx: &mut Ctx) -> R {
    ctx.state(out);
    ctx.outcome(out);
    ctx.trace();
    let Some(sol) = sol else {
        ensure!(out == src, "{how}: the source {} has no or several solutions, but is changed to {}", line(src), line(out));
        return Ok(());
    };
    ensure!(extends(src, out), "{how}: {} is not a subset of the source {}", line(out), line(src));
    let u = unique(out);
    ensure!(u.as_ref() == Some(sol), "{how}: {} does not have the source's solution as its unique solution", line(out));
    for c in classes(k) {
        if c.iter().any(|&x| out[x] != 0) {
            let mut r = *out;
            for &x in c {
                r[x] = 0;
            }
            ensure!(count(&r, 2) > 1, "{how}: {} is not minimal, the clues in cells {c:?} can be removed", line(out));
        }
    }
    if has_symmetry(src, k) {
        ensure!(has_symmetry(out, k), "{how}: {} lacks the symmetry {:?} that the source has", line(out), SYMMETRIES[k]);
    }
    Ok(())
}

/// uniquely solvable sources: solved grids, symmetric and asymmetric puzzles, near-minimal puzzles
fn sources() -> Vec<(Grid, Option<Grid>)> {
    let s = corpus::solved();
    let p = corpus::puzzles();
    let mut v = vec![];
    let mut add = |g: Grid| v.push((g, unique(&g)));
    add(s[1]);
    add(s[0]);
    add(p[0]);
    // partially reduced grids: whole classes of a symmetry removed while unique
    for k in 0..10 {
        let mut g = s[2 + k];
        let cl = classes(k);
        for c in cl.iter().skip(k).step_by(2) {
            let mut h = g;
            for &x in c {
                h[x] = 0;
            }
            if count(&h, 2) == 1 {
                g = h;
            }
        }
        add(g);
    }
    add(s[20]);
    // a puzzle with three redundant clues
    let mut g = p[20];
    let q = unique(&g).unwrap();
    let mut n = 0;
    for c in 0..81 {
        if g[c] == 0 && n < 3 {
            g[c] = q[c];
            n += 1;
        }
    }
    add(g);
    v
}
/// sources without a unique solution
fn bad_sources() -> Vec<Grid> {
    let s = corpus::solved();
    let p = corpus::puzzles();
    let mut v = vec![[0; 81]];
    v.extend(corpus::invalid().iter());
    let mut g = p[3];
    let c = (0..81).find(|&c| g[c] != 0).unwrap();
    g[c] = 0;
    v.push(g);
    // a solved grid with one wrong cell (removing that cell would make it uniquely solvable), two wrong cells,
    // puzzle plus one contradictory clue
    for c in [0, 40, 80] {
        let mut g = s[3];
        g[c] = g[c] % 9 + 1;
        v.push(g);
        g[(c + 7) % 81] = g[(c + 7) % 81] % 9 + 1;
        v.push(g);
    }
    for k in 0..4 {
        let mut g = p[k];
        let q = unique(&g).unwrap();
        let c = (0..81).rev().find(|&c| g[c] == 0).unwrap();
        g[c] = q[c] % 9 + 1;
        v.push(g);
    }
    // consistent but unsolvable or ambiguous
    let mut g = s[5];
    for c in 0..81 {
        if g[c] == 1 || g[c] == 2 {
            g[c] = 0;
        }
    }
    v.push(g);
    v
}

fn gen_from(src: &Grid, k: usize, caller: bool) -> Sudoku {
    let s = su(src);
    if caller {
        Sudoku::generate_with_symmetry_and_rng_from(s, SYMMETRIES[k], &mut CallerRng)
    } else {
        Sudoku::generate_with_symmetry_from(s, SYMMETRIES[k])
    }
}

pub fn c12(t: Tier) -> Prop {
    let mut fams = vec![];
    let src = Arc::new(sources());
    let ns = t.pick(4, src.len());
    let bases: Vec<Tail> = t.pick(vec![Tail::Zero], tails(4));
    // single deviations: (source, symmetry, base, position)
    {
        let (src1, src2, b1) = (src.clone(), src.clone(), bases.clone());
        let nb = bases.len();
        fams.push(family(
            "dev1",
            format!("{ns} sources x 10 symmetries x {nb} base policies x every single deviation of a random draw"),
            (ns * 10 * nb * 96) as u64,
            move |i, ctx| {
                let i = i as usize;
                let (p, tail, k, (g, sol)) = (i % 96, b1[i / 96 % nb], i / 96 / nb % 10, &src1[i / 96 / nb / 10]);
                let exec = || gen_from(g, k, true).to_bytes();
                let (base, log) = run(&[], tail, exec)?;
                ctx.step(log.len() as u64 + 1);
                ctx.max("draws_in_base_execution", log.len() as u64);
                if p == 0 {
                    check_puzzle(g, sol.as_ref(), k, &base, &format!("{:?}, base {tail:?}", SYMMETRIES[k]), ctx)?;
                }
                if p >= log.len() {
                    return Ok(());
                }
                let vals: Vec<u64> = log.iter().map(|d| d.value).collect();
                for alt in (0..log[p].arity).filter(|&a| a != vals[p]) {
                    let mut s = vals[..p].to_vec();
                    s.push(alt);
                    let (o, l2) = run(&s, tail, exec)?;
                    ctx.step(l2.len() as u64 + 1);
                    ctx.count("random_executions", 1);
                    check_puzzle(g, sol.as_ref(), k, &o, &format!("{:?}, draw {p} = {alt}, base {tail:?}", SYMMETRIES[k]), ctx)?;
                }
                Ok(())
            },
            move |i| {
                let i = i as usize;
                format!("source {} symmetry {:?} base {:?} deviation at draw {}", line(&src2[i / 96 / nb / 10].0), SYMMETRIES[i / 96 / nb % 10], bases[i / 96 % nb], i % 96)
            },
        ));
    }
    // base executions: all sources x symmetries x entry points x policies
    {
        let (src1, src2) = (src.clone(), src.clone());
        let tl = tails(t.pick(120, 3000));
        let nt = tl.len();
        let n = src.len() * 10 * 2 * nt;
        fams.push(family(
            "policies",
            format!("{} sources x 10 symmetries x (caller's generator, thread generator) x {nt} base policies", src.len()),
            n as u64,
            move |i, ctx| {
                let i = i as usize;
                let (tail, caller, k, (g, sol)) = (tl[i % nt], i / nt % 2 == 0, i / nt / 2 % 10, &src1[i / nt / 20]);
                let (o, log) = run(&[], tail, || gen_from(g, k, caller).to_bytes())?;
                ctx.step(log.len() as u64 + 1);
                check_puzzle(g, sol.as_ref(), k, &o, &format!("{:?}, base {tail:?}", SYMMETRIES[k]), ctx)
            },
            move |i| {
                let i = i as usize;
                format!("source {} symmetry {:?} policy #{}", line(&src2[i / nt / 20].0), SYMMETRIES[i / nt / 2 % 10], i % nt)
            },
        ));
    }
    // whole generation: no source given
    {
        let nt = t.pick(100u64, 3000);
        fams.push(family(
            "from_scratch",
            format!("generate() and generate_with_symmetry() for 10 symmetries x {nt} policies x deviation in one of 8 spread draws"),
            11 * nt * 9,
            move |i, ctx| {
                let (dv, tail, k) = (i % 9, Tail::Hash(1000 + i / 9 % nt), (i / 9 / nt) as usize);
                let exec = || if k == 10 { Sudoku::generate() } else { Sudoku::generate_with_symmetry(SYMMETRIES[k]) };
                let (mut o, log) = run(&[], tail, exec)?;
                ctx.step(log.len() as u64 + 1);
                if dv > 0 && !log.is_empty() {
                    let p = (dv as usize * log.len() / 9).min(log.len() - 1);
                    let mut s: Vec<u64> = log[..p].iter().map(|d| d.value).collect();
                    s.push((log[p].value + 1) % log[p].arity.max(1));
                    o = run(&s, tail, exec)?.0;
                    ctx.step(log.len() as u64 + 1);
                }
                let k = if k == 10 { 7 } else { k };
                let o = o.to_bytes();
                let sol = unique(&o);
                ensure!(sol.is_some(), "{:?}, {tail:?}: generated {} which is not uniquely solvable", SYMMETRIES[k], line(&o));
                // the source is not observable, but it is a solved grid: all symmetries apply
                check_puzzle(&sol.unwrap(), sol.as_ref(), k, &o, &format!("{:?}, {tail:?}", SYMMETRIES[k]), ctx)
            },
            move |i| format!("generator {} policy {} deviation {}", i / 9 / nt, i / 9 % nt, i % 9),
        ));
    }
    {
        let bad = Arc::new(bad_sources());
        let b2 = bad.clone();
        let nt = t.pick(20, 200);
        let tl = tails(nt);
        let nt = tl.len();
        fams.push(family(
            "unsuitable_sources",
            format!("{} sources without a unique solution x 10 symmetries x 2 entry points x {nt} policies", bad.len()),
            (bad.len() * 20 * nt) as u64,
            move |i, ctx| {
                let i = i as usize;
                let (tail, caller, k, g) = (tl[i % nt], i / nt % 2 == 0, i / nt / 2 % 10, &bad[i / nt / 20]);
                ensure!(unique(g).is_none(), "harness: source is uniquely solvable");
                let (o, log) = run(&[], tail, || gen_from(g, k, caller).to_bytes())?;
                ctx.step(log.len() as u64 + 1);
                check_puzzle(g, None, k, &o, &format!("{:?}, base {tail:?}", SYMMETRIES[k]), ctx)
            },
            move |i| {
                let i = i as usize;
                format!("source {} symmetry {:?} policy #{}", line(&b2[i / nt / 20]), SYMMETRIES[i / nt / 2 % 10], i % nt)
            },
        ));
    }
    Prop { families: fams, assumptions: vec!["random draws are made through the rand crate (vendored with a choice-point seam)".into()], rule: "a state is a distinct generated puzzle; a transition is one answered random draw; a trace is one execution whose result was fully checked".into() }
}

// ------------------------------------------------------------------ C13

/// a plain generator outside the seam, to run the real sampling code too
struct Split(u64, u64);
impl RngCore for Split {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        self.1 += 1;
        mix(self.0)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn ambient_guard(what: &str, before: u64, log: &[Draw]) -> R {
    let n = seam::ambient_draws() - before;
    ensure!(n == 0, "{what}: the thread-local generator was consulted {n} times");
    if let Some(d) = log.iter().find(|d| !d.source.contains("CallerRng")) {
        fail!("{what}: a random number was drawn from {} instead of the caller's generator", d.source);
    }
    Ok(())
}

pub fn c13(t: Tier) -> Prop {
    let mut fams = vec![];
    let src: Arc<Vec<Grid>> = Arc::new(sources().into_iter().map(|s| s.0).chain(bad_sources()).collect());
    let (n_src, src2) = (src.len(), src.clone());
    // operation 0: generate_solved_with_rng, 1..: generation from a source
    let n_ops = 1 + n_src * 10;
    let op = {
        let src = src.clone();
        move |o: usize, r: &mut dyn RngCore| -> Grid {
            if o == 0 {
                Sudoku::generate_solved_with_rng(r).to_bytes()
            } else {
                Sudoku::generate_with_symmetry_and_rng_from(su(&src[(o - 1) / 10]), SYMMETRIES[(o - 1) % 10], r).to_bytes()
            }
        }
    };
    let opname = |o: usize| if o == 0 { "generate_solved_with_rng".to_string() } else { format!("generate_with_symmetry_and_rng_from(source {}, {:?})", (o - 1) / 10, SYMMETRIES[(o - 1) % 10]) };
    {
        let tl = tails(t.pick(16, 200));
        let nt = tl.len();
        let op = op.clone();
        fams.push(family(
            "scripted",
            format!("{n_ops} operations x {nt} policies for the caller's generator: sources of all draws, repeated with other thread-generator answers and in a fresh thread"),
            (n_ops * nt) as u64,
            move |i, ctx| {
                let (o, tail) = (i as usize / nt, tl[i as usize % nt]);
                let what = opname(o);
                let go = || {
                    let before = seam::ambient_draws();
                    let (g, log) = run(&[], tail, || op(o, &mut CallerRng))?;
                    // generic instantiation with the concrete type as well
                    let (h, log2) = run(&[], tail, || {
                        if o == 0 {
                            Sudoku::generate_solved_with_rng(&mut CallerRng).to_bytes()
                        } else {
                            gen_from(&src[(o - 1) / 10], (o - 1) % 10, true).to_bytes()
                        }
                    })?;
                    Ok::<_, Violation>((before, g, log, h, log2))
                };
                let (before, g, log, h, log2) = go()?;
                ctx.step(2 + log.len() as u64);
                ctx.state(&g);
                ctx.outcome(&g);
                ctx.trace();
                let _ = &log;
                ambient_guard(&what, before, &log2)?;
                ensure!(g == h, "{what}: two executions with the same outcomes of the caller's generator differ: {} and {}", line(&g), line(&h));
                let other = std::thread::scope(|sc| sc.spawn(|| go().map(|r| (r.1, r.3))).join());
                match other {
                    Ok(Ok((a, b))) => ensure!(a == g && b == g, "{what}: the same outcomes of the caller's generator give {} in one thread and {} in another", line(&g), line(&a)),
                    _ => fail!("{what}: panics in another thread"),
                }
                Ok(())
            },
            move |i| format!("operation {} policy #{}", i as usize / nt, i as usize % nt),
        ));
    }
    {
        // rare paths of the search: every single deviation
        let (n1, n2) = (t.pick(1000usize, 4000), t.pick(4usize, 20));
        let tl = Arc::new([tails(n1 as u64), tails((n1 + n2) as u64)[n1 + 2..].to_vec()].concat());
        let all = tl.len();
        let n_dev = n1 + 2;
        fams.push(family(
            "deviations",
            format!("solved-grid generation: {n_dev} base policies x every single deviation in the caller's outcomes; generation from {n_src} sources x 10 symmetries: {n2} policies x every single deviation with two alternatives: every draw comes from the caller's generator and the execution is repeatable"),
            (n_dev + (all - n_dev) * n_src * 10) as u64 * 110,
            move |i, ctx| {
                let (p, j) = (i as usize % 110, i as usize / 110);
                let (tail, o) = if j < n_dev { (tl[j], 0) } else { (tl[n_dev + (j - n_dev) / (n_src * 10)], 1 + (j - n_dev) % (n_src * 10)) };
                let exec = || if o == 0 { Sudoku::generate_solved_with_rng(&mut CallerRng).to_bytes() } else { gen_from(&src2[(o - 1) / 10], (o - 1) % 10, true).to_bytes() };
                let (_, log) = run(&[], tail, exec)?;
                if p >= log.len() {
                    return Ok(());
                }
                let vals: Vec<u64> = log.iter().map(|d| d.value).collect();
                let alts: Vec<u64> = if o == 0 { (0..log[p].arity).collect() } else { vec![0, log[p].arity / 2, log[p].arity - 1] };
                for alt in alts.into_iter().filter(|&a| a != vals[p]) {
                    let mut s = vals[..p].to_vec();
                    s.push(alt);
                    let before = seam::ambient_draws();
                    let (g, l1) = run(&s, tail, exec)?;
                    ctx.step(2 + l1.len() as u64);
                    ambient_guard(&format!("operation {o} with random outcomes {s:?}, then {tail:?}"), before, &l1)?;
                    let (h, l2) = run(&s, tail, exec)?;
                    ensure!(g == h && l1.len() == l2.len(), "operation {o} with random outcomes {s:?}, then {tail:?}: {} after {} draws, repeated {} after {} draws", line(&g), l1.len(), line(&h), l2.len());
                    ctx.state(&g);
                    ctx.trace();
                }
                ctx.alive();
                Ok(())
            },
            |i| format!("policy and operation {}, deviation at draw {}", i / 110, i % 110),
        ));
    }
    {
        let seeds = t.pick(24u64, 400);
        let op = op.clone();
        fams.push(family(
            "real_sampling",
            format!("{n_ops} operations x {seeds} caller generators (seam inactive, unmodified sampling code): three executions agree, the thread generator is untouched, every draw is consumed from the caller's generator"),
            n_ops as u64 * seeds,
            move |i, ctx| {
                let (o, seed) = ((i / seeds) as usize, i % seeds);
                let what = opname(o);
                let mut res: Vec<(Grid, u64)> = vec![];
                for k in 0..3 {
                    let before = seam::ambient_draws();
                    let mut r = Split(mix(seed), 0);
                    let g = match guarded(|| op(o, &mut r)) {
                        Ok(g) => g,
                        Err((l, m)) => fail!("{what}: panics at {l}: {m}"),
                    };
                    let n = seam::ambient_draws() - before;
                    ensure!(n == 0, "{what}: the thread-local generator was consulted {n} times");
                    ctx.step(1 + r.1);
                    res.push((g, r.1));
                    if k == 0 {
                        // change the environment: use the thread generator, allocate, hash
                        let _ = rand::thread_rng().next_u64();
                        let m: std::collections::HashMap<u64, u64> = (0..seed % 7).map(|x| (x, x)).collect();
                        std::hint::black_box(m);
                    }
                }
                ctx.state(&res[0].0);
                ctx.trace();
                ensure!(res.iter().all(|r| *r == res[0]), "{what}: executions with identical caller generators (seed {seed}) differ: {:?}", res.iter().map(|r| (line(&r.0), r.1)).collect::<Vec<_>>());
                Ok(())
            },
            move |i| format!("operation {} seed {}", i / seeds, i % seeds),
        ));
    }
    {
        let nt = t.pick(20u64, 200);
        fams.push(family(
            "results_follow_the_generator",
            "the caller's generator is really used: its outcomes change the result",
            11,
            move |i, ctx| {
                let mut seen = std::collections::HashSet::new();
                let mut draws = 0;
                for s in 0..nt {
                    let (g, log) = run(&[], Tail::Hash(s), || op(if i == 0 { 0 } else { i as usize }, &mut CallerRng))?;
                    draws += log.len();
                    ctx.step(1 + log.len() as u64);
                    ctx.state(&g);
                    seen.insert(g);
                }
                ctx.trace();
                ensure!(draws > 0, "no random number is drawn from the caller's generator");
                ensure!(seen.len() > 1, "{nt} different generators all give {}", line(seen.iter().next().unwrap()));
                Ok(())
            },
            |i| format!("operation {i}"),
        ));
    }
    {
        // equivalences between entry points under the same outcomes
        let src: Arc<Vec<Grid>> = Arc::new(sources().into_iter().map(|s| s.0).chain(bad_sources()).collect());
        let tl = tails(t.pick(60, 1000));
        let nt = tl.len();
        fams.push(family(
            "equivalent_entry_points",
            format!("generate_from vs generate_with_symmetry_from(None) on {} sources, generate() vs generate_with_symmetry(HalfRotation), x {nt} policies", src.len()),
            ((src.len() + 1) * nt) as u64,
            move |i, ctx| {
                let (k, tail) = (i as usize / nt, tl[i as usize % nt]);
                let (a, b) = if k == 0 {
                    (run(&[], tail, Sudoku::generate)?, run(&[], tail, || Sudoku::generate_with_symmetry(Symmetry::HalfRotation))?)
                } else {
                    let s = su(&src[k - 1]);
                    (run(&[], tail, || Sudoku::generate_from(s))?, run(&[], tail, || Sudoku::generate_with_symmetry_from(s, Symmetry::None))?)
                };
                ctx.step(2 + a.1.len() as u64);
                ctx.state(&a.0.to_bytes());
                ctx.trace();
                ensure!(a.0 == b.0, "{}: {} differs from {} for the same random outcomes", if k == 0 { "generate()" } else { "generate_from" }, a.0, b.0);
                Ok(())
            },
            move |i| format!("entry point {} policy #{}", i as usize / nt, i as usize % nt),
        ));
    }
    Prop { families: fams, assumptions: vec!["draws through the rand crate are attributed by generator type; entropy from elsewhere (hash seeds, clock, operating system) shows up as a difference between repeated executions".into()], rule: "a state is a distinct result; a transition is one random draw or call; a trace is one set of executions compared".into() }
}

// ------------------------------------------------------------------ C14

fn shuffled(g: &Grid, script: &[u64], tail: Tail) -> Result<(Grid, Vec<Draw>), Violation> {
    let s = su(g);
    run(script, tail, move || {
        let mut s = s;
        s.shuffle();
        s.to_bytes()
    })
}
fn label_grids() -> [Grid; 2] {
    [std::array::from_fn(|c| row(c) as u8 + 1), std::array::from_fn(|c| col(c) as u8 + 1)]
}
/// digit map and cell permutation used for a script
fn decode(script: &[u64], tail: Tail, sigma: Option<&[u8; 10]>, ctx: &mut Ctx) -> Result<([u8; 10], [usize; 81]), Violation> {
    let err = |m: String| Violation { msg: format!("{m} (random outcomes {script:?}, then {tail:?})"), key: None };
    let mut s = [0u8; 10];
    for d in 1..=9u8 {
        if sigma.is_some() && d > 2 {
            s[d as usize] = sigma.unwrap()[d as usize];
            continue;
        }
        let g = shuffled(&[d; 81], script, tail)?.0;
        ctx.step(1);
        if g.iter().any(|&x| x != g[0] || !(1..=9).contains(&x)) {
            return Err(err(format!("a grid full of {d} is shuffled to {}", line(&g))));
        }
        s[d as usize] = g[0];
        if let Some(want) = sigma {
            if want[d as usize] != g[0] {
                return Err(err(format!("the relabelling of digit {d} is {} instead of {}", g[0], want[d as usize])));
            }
        }
    }
    let mut inv = [0u8; 10];
    for d in 1..=9 {
        inv[s[d] as usize] = d as u8;
    }
    if inv[1..].contains(&0) {
        return Err(err(format!("the digits 1..9 are relabelled to {:?}, which is not a permutation", &s[1..])));
    }
    let [l0, l1] = label_grids();
    let (a, b) = (shuffled(&l0, script, tail)?.0, shuffled(&l1, script, tail)?.0);
    ctx.step(2);
    let mut src = [0usize; 81];
    for c in 0..81 {
        let (r, k) = (inv[a[c] as usize % 10], inv[b[c] as usize % 10]);
        if !(1..=9).contains(&r) || !(1..=9).contains(&k) {
            return Err(err(format!("cell {c} receives no clue from a full grid")));
        }
        src[c] = (r as usize - 1) * 9 + k as usize - 1;
    }
    if !is_positional(&src) {
        return Err(err(format!("cells are moved by {src:?} (target -> source), which is not a transformation of the documented group")));
    }
    Ok((s, src))
}
/// index of a positional transformation (inverse of model::positional up to representation): rank by lookups
fn rank(src: &[usize; 81]) -> u64 {
    let t = src[1] / 9 != src[0] / 9; // moving right changes the source row
    let (rp, cp): (Vec<usize>, Vec<usize>) = if t {
        ((0..9).map(|r| col(src[r * 9])).collect(), (0..9).map(|c| row(src[c])).collect())
    } else {
        ((0..9).map(|r| row(src[r * 9])).collect(), (0..9).map(|c| col(src[c])).collect())
    };
    let lr = |p: &[usize]| -> u64 {
        let p3 = |x: [usize; 3]| PERM3.iter().position(|y| *y == x).unwrap() as u64;
        let b = p3([p[0] / 3, p[3] / 3, p[6] / 3]);
        let i: Vec<u64> = (0..3).map(|k| p3([p[3 * k] % 3, p[3 * k + 1] % 3, p[3 * k + 2] % 3])).collect();
        b + 6 * (i[0] + 6 * (i[1] + 6 * i[2]))
    };
    t as u64 + 2 * (lr(&rp) + 1296 * lr(&cp))
}

/// how the draws of one shuffle split into digit choices and position choices
#[derive(Clone, Debug)]
struct Plan {
    base: Vec<u64>,
    arity: Vec<u64>,
    digit: Vec<usize>,
    /// draws that affect positions (or nothing); a draw can be in both lists
    pos: Vec<usize>,
    shared: bool,
    separable: bool,
}
fn plan(ctx: &mut Ctx) -> Result<Plan, Violation> {
    let (_, log) = shuffled(&label_grids()[0], &[], Tail::Zero)?;
    let base: Vec<u64> = log.iter().map(|d| d.value).collect();
    let arity: Vec<u64> = log.iter().map(|d| d.arity).collect();
    let (s0, p0) = decode(&base, Tail::Zero, None, ctx)?;
    let mut pl = Plan { base: base.clone(), arity: arity.clone(), digit: vec![], pos: vec![], shared: false, separable: !log.iter().any(|d| d.raw) };
    for i in 0..base.len() {
        let (mut dg, mut ps) = (false, false);
        for k in 0..arity[i].min(40) {
            let v = k * arity[i] / arity[i].min(40);
            let mut s = base.clone();
            s[i] = v;
            let l = shuffled(&label_grids()[0], &s, Tail::Zero)?.1;
            if l.iter().map(|d| d.arity).collect::<Vec<_>>() != arity {
                pl.separable = false;
            }
            let (sg, p) = decode(&s, Tail::Zero, None, ctx)?;
            dg |= sg != s0;
            ps |= p != p0;
        }
        pl.shared |= dg && ps;
        if dg {
            pl.digit.push(i);
        }
        if ps || !dg {
            pl.pos.push(i);
        }
    }
    let prod = |v: &[usize]| v.iter().fold(1u128, |a, &i| a * arity[i] as u128);
    if prod(&pl.pos) > 30_000_000 || prod(&pl.digit) > 30_000_000 {
        pl.separable = false;
    }
    Ok(pl)
}
fn shared_plan(ctx: &mut Ctx) -> Result<&'static Plan, Violation> {
    static P: OnceLock<Result<Plan, Violation>> = OnceLock::new();
    if P.get().is_none() {
        let p = plan(ctx);
        let _ = P.set(p);
    }
    P.get().unwrap().as_ref().map_err(|v| v.clone())
}
fn nth_script(pl: &Plan, which: &[usize], mut i: u64) -> Vec<u64> {
    let mut s = pl.base.clone();
    for &k in which {
        s[k] = i % pl.arity[k];
        i /= pl.arity[k];
    }
    s
}

struct Reached {
    bits: Vec<AtomicU64>,
    n: AtomicU64,
}
impl Reached {
    fn new(size: usize) -> Reached {
        Reached { bits: (0..size.div_ceil(64)).map(|_| AtomicU64::new(0)).collect(), n: AtomicU64::new(0) }
    }
    fn set(&self, i: u64) {
        let m = 1u64 << (i % 64);
        if self.bits[(i / 64) as usize].fetch_or(m, Relaxed) & m == 0 {
            self.n.fetch_add(1, Relaxed);
        }
    }
}
const CHUNKS: u64 = 4096;

fn rank9(s: &[u8; 10]) -> u64 {
    let mut k = 0;
    for i in 1..=9 {
        let smaller = (i + 1..=9).filter(|&j| s[j] < s[i]).count() as u64;
        k = k * (10 - i as u64) + smaller;
    }
    k
}

pub fn c14(t: Tier) -> Prop {
    let mut fams = vec![];
    let pos_reached = Arc::new(Reached::new(N_POSITIONAL));
    let dig_reached = Arc::new(Reached::new(362_880));
    let done = Arc::new([AtomicU64::new(0), AtomicU64::new(0)]);
    // element j handles the j-th 4096th of the product of all position draws (digit draws at their base value)
    let pos_chunk = {
        let (reached, done) = (pos_reached.clone(), done.clone());
        Arc::new(move |j: u64, ctx: &mut Ctx| -> R {
            let pl = shared_plan(ctx)?;
            if !pl.separable {
                ctx.count("product_skipped_draws_not_separable", 1);
                return Ok(());
            }
            let n: u64 = pl.pos.iter().map(|&i| pl.arity[i]).product();
            let (sigma, _) = decode(&pl.base, Tail::Zero, None, ctx)?;
            for i in j * n / CHUNKS..(j + 1) * n / CHUNKS {
                let s = nth_script(pl, &pl.pos, i);
                let (_, src) = decode(&s, Tail::Zero, if pl.shared { None } else { Some(&sigma) }, ctx)?;
                let k = rank(&src);
                reached.set(k);
                ctx.states += 1;
                ctx.trace();
            }
            done[0].fetch_or(0, Relaxed);
            ctx.alive();
            Ok(())
        })
    };
    let dig_chunk = {
        let reached = dig_reached.clone();
        Arc::new(move |j: u64, ctx: &mut Ctx| -> R {
            let pl = shared_plan(ctx)?;
            if !pl.separable {
                ctx.count("product_skipped_draws_not_separable", 1);
                return Ok(());
            }
            let n: u64 = pl.digit.iter().map(|&i| pl.arity[i]).product();
            for i in j * n / CHUNKS..(j + 1) * n / CHUNKS {
                let s = nth_script(pl, &pl.digit, i);
                let (sg, _) = decode(&s, Tail::Zero, None, ctx)?;
                reached.set(rank9(&sg));
                ctx.states += 1;
                ctx.trace();
            }
            Ok(())
        })
    };
    {
        let (p, d) = (pos_chunk.clone(), dig_chunk.clone());
        fams.push(family("positions", "the full product of all draws that affect positions (2 x 6^8 = 3359232 with the documented draws), decoded with row and column label grids", CHUNKS, move |i, c| p(i, c), |i| format!("product slice {i} of {CHUNKS}")));
        fams.push(family("digits", "the full product of all draws that affect digits (9! = 362880)", CHUNKS, move |i, c| d(i, c), |i| format!("product slice {i} of {CHUNKS}")));
    }
    {
        let (pr, dr) = (pos_reached, dig_reached);
        fams.push(family(
            "reach",
            "over all random outcomes every positional transformation and every relabelling was reached",
            2,
            move |i, ctx| {
                let pl = shared_plan(ctx)?;
                if !pl.separable {
                    return Ok(());
                }
                let (r, f, want): (&Reached, &(dyn Fn(u64, &mut Ctx) -> R), u64) =
                    if i == 0 { (&pr, &*pos_chunk, N_POSITIONAL as u64) } else { (&dr, &*dig_chunk, 362_880) };
                if r.n.load(Relaxed) != want {
                    for j in 0..CHUNKS {
                        f(j, ctx)?;
                    }
                }
                let n = r.n.load(Relaxed);
                ctx.max(if i == 0 { "positional_transformations_reached" } else { "relabellings_reached" }, n);
                ctx.trace();
                ensure!(n == want, "only {n} of {want} {} are reached over all random outcomes", if i == 0 { "positional transformations" } else { "digit relabellings" });
                Ok(())
            },
            |i| ["positional transformations", "relabellings"][i as usize].to_string(),
        ));
    }
    {
        let g = Arc::new([corpus::puzzles()[5], corpus::solved()[5]]);
        let nd = t.pick(1200u64, 12000);
        fams.push(family(
            "joint",
            format!("{nd} combinations of the draws that affect digits (spread over all) x every way to choose at most two of the draws that affect positions away from three base policies, on label grids and two real grids"),
            3 * nd,
            move |i, ctx| {
                let pl = shared_plan(ctx)?;
                if !pl.separable {
                    ctx.count("product_skipped_draws_not_separable", 1);
                    return Ok(());
                }
                let n: u64 = pl.digit.iter().map(|&k| pl.arity[k]).product();
                let mut base = nth_script(pl, &pl.digit, (i / 3) * n / nd + (i / 3) % (n / nd).max(1));
                let free: Vec<usize> = pl.pos.iter().copied().filter(|k| !pl.digit.contains(k)).collect();
                for &k in &free {
                    base[k] = [0, pl.arity[k] - 1, mix(i << 8 | k as u64) % pl.arity[k]][(i % 3) as usize];
                }
                let mut one = |s: &[u64], ctx: &mut Ctx| -> R {
                    let (sg, src) = decode(s, Tail::Zero, None, ctx)?;
                    for q in g.iter() {
                        let o = shuffled(q, s, Tail::Zero)?.0;
                        let want = apply(&src, &sg, q);
                        ensure!(o == want, "shuffle gives {}, but label grids shuffled with the same random outcomes imply {} (grid {}, random outcomes {s:?})", line(&o), line(&want), line(q));
                    }
                    ctx.step(2);
                    ctx.states += 1;
                    ctx.trace();
                    Ok(())
                };
                one(&base, ctx)?;
                for (x, &a) in free.iter().enumerate() {
                    for va in 0..pl.arity[a] {
                        let mut s = base.clone();
                        s[a] = va;
                        one(&s, ctx)?;
                        for &b in &free[x + 1..] {
                            for vb in 0..pl.arity[b] {
                                if va != base[a] && vb != base[b] {
                                    s[b] = vb;
                                    one(&s, ctx)?;
                                }
                            }
                            s[b] = base[b];
                        }
                    }
                }
                ctx.alive();
                Ok(())
            },
            move |i| format!("digit combination {} base policy {}", i / 3, i % 3),
        ));
    }
    {
        // real grids: same script, same group element
        let mut gs: Vec<Grid> = take(corpus::puzzles(), 12);
        gs.extend(take(corpus::solved(), 6));
        gs.extend([[0; 81], corpus::invalid()[0]]);
        gs.push(std::array::from_fn(|c| (c % 10) as u8));
        gs.push(std::array::from_fn(|c| (c * 7 % 10) as u8));
        let gs = Arc::new(gs);
        let g2 = gs.clone();
        let tl = tails(t.pick(40, 400));
        let nt = tl.len();
        fams.push(family(
            "grids",
            format!("{} grids (puzzles, solved, empty, contradictory, arbitrary) x {nt} base policies x every single deviation (at most 40 alternatives per draw), shuffle and shuffled", gs.len()),
            (gs.len() * nt) as u64,
            move |i, ctx| {
                let (g, tail) = (&gs[i as usize / nt], tl[i as usize % nt]);
                let mut one = |s: &[u64], ctx: &mut Ctx| -> Result<Vec<Draw>, Violation> {
                    let (sg, src) = decode(s, tail, None, ctx)?;
                    let (o, log) = shuffled(g, s, tail)?;
                    let (o2, _) = run(s, tail, || su(g).shuffled().to_bytes())?;
                    ctx.step(2);
                    ctx.state(&o);
                    ctx.outcome(&o);
                    ctx.trace();
                    let want = apply(&src, &sg, g);
                    let bad = |m: String| Err(Violation { msg: format!("{m} (grid {}, random outcomes {s:?}, then {tail:?})", line(g)), key: None });
                    if o != want {
                        return bad(format!("shuffle gives {}, but label grids shuffled with the same random outcomes imply {}", line(&o), line(&want)));
                    }
                    if o2 != o {
                        return bad(format!("shuffled gives {}, shuffle {}", line(&o2), line(&o)));
                    }
                    Ok(log)
                };
                let log = one(&[], ctx)?;
                let vals: Vec<u64> = log.iter().map(|d| d.value).collect();
                for p in 0..log.len() {
                    let m = log[p].arity.min(40);
                    for k in 0..m {
                        let v = k * log[p].arity / m + if k == m - 1 { log[p].arity - 1 - k * log[p].arity / m } else { 0 };
                        if v == vals[p] {
                            continue;
                        }
                        let mut s = vals[..p].to_vec();
                        s.push(v);
                        one(&s, ctx)?;
                    }
                }
                Ok(())
            },
            move |i| format!("{} policy #{}", line(&g2[i as usize / nt]), i as usize % nt),
        ));
    }
    Prop { families: fams, assumptions: vec!["shuffle's action on a grid is determined by its random outcomes; it is decoded from grids labelled by row, by column and by digit and then confirmed on other grids".into()], rule: "a state is a distinct combination of random outcomes or a distinct result; a transition is one call; a trace is one decoded and verified shuffle".into() }
}
