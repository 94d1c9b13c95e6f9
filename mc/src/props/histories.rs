//! C27: no hidden state. Every operation of a finite catalogue gives the same result after every history of other
//! operations, on any thread, and while another operation is interrupted in the middle of a callback, as it gives when it
//! is the only operation of a fresh process.
use super::solving::su;
use super::strategy::solve_with;
use crate::engine::*;
use crate::model::*;
use crate::strat::*;
use crate::{corpus, ensure};
use rand::seam::{self, Tail};
use rand::RngCore;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, OnceLock};
use sudoku::board::{Candidate, Cell, CellState, Digit};
use sudoku::strategy::StrategySolver;
use sudoku::{Sudoku, Symmetry};

/// A caller's generator or text sink that runs something at its k-th use.
pub struct Hooked<'a> {
    seed: u64,
    n: usize,
    at: usize,
    hook: &'a mut dyn FnMut(),
    text: String,
}
impl<'a> Hooked<'a> {
    fn new(seed: u64, at: usize, hook: &'a mut dyn FnMut()) -> Self {
        Hooked { seed, n: 0, at, hook, text: String::new() }
    }
    fn tick(&mut self) {
        if self.n == self.at {
            (self.hook)();
        }
        self.n += 1;
    }
}
impl RngCore for Hooked<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.tick();
        mix(mix(self.seed) ^ self.n as u64)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|b| *b = self.next_u64() as u8);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl std::fmt::Write for Hooked<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.tick();
        self.text += s;
        Ok(())
    }
}

type Call = Arc<dyn Fn() -> String + Send + Sync>;
/// an operation that calls back into the caller: the callback runs at its k-th use of the caller's object
type Open = Arc<dyn Fn(usize, &mut dyn FnMut()) -> (String, usize) + Send + Sync>;
#[derive(Clone)]
pub struct Op {
    name: String,
    call: Call,
    /// part of the small catalogue used for longer histories
    small: bool,
}

fn l(s: &Sudoku) -> String {
    line(&s.to_bytes())
}
fn ls(v: &[Sudoku]) -> String {
    v.iter().map(l).collect::<Vec<_>>().join(" ")
}

/// The implementation may panic; the outcome is then that it panics. Deliberate unwinding by a callback is marked.
struct Unwound;
fn result(f: impl FnOnce() -> String) -> String {
    let r = catch_unwind(AssertUnwindSafe(f));
    seam::end();
    match r {
        Ok(s) => s,
        Err(p) if p.is::<Unwound>() => "unwound by the caller".into(),
        Err(_) => {
            let (loc, _) = last_panic();
            if harness_location(&loc) {
                harness_error(&format!("panic in the harness at {loc}"));
            }
            "panics".into()
        }
    }
}

fn relatives(g: &Grid) -> Vec<(&'static str, Grid)> {
    let sol = unique(g).unwrap();
    let full: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
    let edit = |f: &dyn Fn(&mut Grid)| {
        let mut o = *g;
        f(&mut o);
        o
    };
    let (a, z) = (full[0], *full.last().unwrap());
    let swap = |x: Grid| x.map(|d| [0, 2, 1, 3, 4, 5, 6, 7, 8, 9][d as usize]);
    vec![
        ("puzzle", *g),
        ("relabelled", swap(*g)),
        ("transposed", std::array::from_fn(|c| g[c % 9 * 9 + c / 9])),
        ("rows exchanged", std::array::from_fn(|c| g[[9, 0, 18, 27, 36, 45, 54, 63, 72][c / 9] + c % 9])),
        ("last rows exchanged", std::array::from_fn(|c| g[[0, 9, 18, 27, 36, 45, 54, 72, 63][c / 9] + c % 9])),
        ("last columns exchanged", std::array::from_fn(|c| g[c / 9 * 9 + [0, 1, 2, 3, 4, 5, 6, 8, 7][c % 9]])),
        ("solution, last rows exchanged", std::array::from_fn(|c| sol[[0, 9, 18, 27, 36, 45, 54, 72, 63][c / 9] + c % 9])),
        ("first clue removed", edit(&|o| o[a] = 0)),
        ("last clue removed", edit(&|o| o[z] = 0)),
        ("last clue changed", edit(&|o| o[z] = o[z] % 9 + 1)),
        ("solution", sol),
        ("solution relabelled", swap(sol)),
        ("solution without last band", std::array::from_fn(|c| if c < 54 { sol[c] } else { 0 })),
        ("solution without first band", std::array::from_fn(|c| if c >= 27 { sol[c] } else { 0 })),
        ("solution, two cells exchanged", {
            let mut o = sol;
            o.swap(79, 80);
            o
        }),
    ]
}

fn strategy_history(g: &Grid) -> String {
    let mut s = StrategySolver::from_sudoku(su(g));
    let mut o = String::new();
    for c in [0u8, 40, 80] {
        for d in 1..=9 {
            let t = s.clone();
            let r = s.insert_candidate(Candidate { cell: Cell::new(c), digit: Digit::new(d) });
            // the copy made before is not affected
            let mut t2 = t.clone();
            o += &format!("{r:?} {} {:?} {}", l(&t2.to_sudoku()), t2.cell_state(Cell::new(c)), t.is_solved());
        }
    }
    let r = solve_with(s, &BY_DIFFICULTY);
    format!("{o} {} {} {:?}", r.ok, line(&r.grid), r.ded)
}

pub fn catalogue(t: Tier) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, small: bool, f: Call| v.push(Op { name, call: Arc::new(move || result(|| f())), small });
    let p = corpus::puzzles();
    let mut grids: Vec<(String, Grid, bool)> = vec![("empty grid".into(), [0; 81], true)];
    for (k, b) in [3usize, 40, 12, 70].into_iter().take(t.pick(2, 4)).enumerate() {
        for (n, g) in relatives(&p[b]) {
            let small = k == 0 && matches!(n, "puzzle" | "transposed" | "last clue removed" | "last clue changed" | "solution");
            grids.push((format!("{n} {k}"), g, small));
        }
    }
    for (n, g, small) in grids {
        let start = || su(&g);
        let s = start();
        add(format!("solutions of {n}"), small, Arc::new(move || format!("{} {}", ls(&s.solutions_up_to(5)), s.solutions_count_up_to(30))));
        add(
            format!("verdicts on {n}"),
            small,
            Arc::new(move || {
                let mut b = [[7u8; 81]; 2];
                let k = s.solutions_up_to_buffer(&mut b, 3);
                format!("{:?} {:?} {} {} {} {k} {b:?}", s.solution().as_ref().map(l), s.some_solution().as_ref().map(l), s.is_uniquely_solvable(), s.is_solved(), s.n_clues())
            }),
        );
        add(format!("canonical form of {n}"), small, Arc::new(move || format!("{:?}", s.canonicalized().map(|(q, k)| (l(&q), k)))));
        for list in [&[0usize][..], &[1, 0], &BY_DIFFICULTY] {
            let small = small && list.len() == BY_DIFFICULTY.len();
            add(
                format!("strategies {} on {n}", names(list)),
                small,
                Arc::new(move || {
                    let r = solve_with(StrategySolver::from_sudoku(s), list);
                    format!("{} {} {:?}", r.ok, line(&r.grid), r.ded)
                }),
            );
        }
        add(format!("a solver with queries and insertions on {n}"), false, Arc::new(move || strategy_history(&s.to_bytes())));
        add(format!("text and bytes of {n}"), false, Arc::new(move || {
            let j = serde_json::to_string(&s).unwrap();
            let b = bincode::serialize(&s).unwrap();
            format!("{} {} {s} {s:?} {j} {b:?} {:?}", &*s.to_str_line(), s.display_block(), s.iter().collect::<Vec<_>>())
        }));
        if n.starts_with("puzzle") || n.starts_with("solution ") && !n.contains("wo cells") || n == "empty grid" {
            for (k, sym) in [Symmetry::None, Symmetry::HalfRotation, Symmetry::VerticalAndHorizontalMirror].into_iter().enumerate() {
                add(format!("generation {sym:?} from {n}"), small && k == 1, Arc::new(move || {
                    l(&Sudoku::generate_with_symmetry_and_rng_from(s, sym, &mut Hooked::new(k as u64, usize::MAX, &mut || ())))
                }));
            }
        }
        if small {
            for tail in [Tail::Zero, Tail::Hash(5)] {
                add(format!("shuffle of {n}, outcomes {tail:?}"), tail == Tail::Zero && n.starts_with("puzzle"), Arc::new(move || {
                    seam::begin(&[], tail);
                    let q = s.shuffled();
                    seam::end();
                    l(&q)
                }));
            }
        }
    }
    for k in 0..t.pick(4, 12) {
        add(format!("a solved grid from generator {k}"), k == 0, Arc::new(move || l(&Sudoku::generate_solved_with_rng(&mut Hooked::new(k as u64, usize::MAX, &mut || ())))));
        add(format!("a solved grid, outcomes Hash({k})"), false, Arc::new(move || {
            seam::begin(&[], Tail::Hash(k as u64));
            let q = Sudoku::generate_solved();
            seam::end();
            l(&q)
        }));
    }
    for (k, sym) in [Symmetry::HalfRotation, Symmetry::DiagonalMirror].into_iter().enumerate() {
        add(format!("a puzzle {sym:?}, scripted outcomes"), k == 0, Arc::new(move || {
            seam::begin(&[], Tail::Hash(9));
            let q = Sudoku::generate_with_symmetry(sym);
            seam::end();
            l(&q)
        }));
    }
    // operations that fail or unwind half-way
    for at in [0usize, 1, 30, 100] {
        let g = p[3];
        add(format!("generation whose caller's generator panics at draw {at}"), at == 30, Arc::new(move || {
            l(&Sudoku::generate_with_symmetry_and_rng_from(su(&g), Symmetry::None, &mut Hooked::new(3, at, &mut || resume_unwind(Box::new(Unwound)))))
        }));
        add(format!("solved grid whose caller's generator panics at draw {at}"), at == 1, Arc::new(move || {
            l(&Sudoku::generate_solved_with_rng(&mut Hooked::new(3, at, &mut || resume_unwind(Box::new(Unwound)))))
        }));
        add(format!("block form whose sink panics at write {at}"), false, Arc::new(move || {
            let mut h = || resume_unwind(Box::new(Unwound));
            let mut w = Hooked::new(3, at, &mut h);
            let _ = write!(w, "{}", su(&g).display_block());
            w.text
        }));
    }
    add("Cell::new(81)".into(), false, Arc::new(|| format!("{:?}", Cell::new(81))));
    add("Digit::new(0)".into(), false, Arc::new(|| format!("{:?}", Digit::new(0))));
    // parsing
    let g = p[3];
    let q = unique(&g).unwrap();
    let text = line(&g);
    let block = su(&g).display_block().to_string();
    let mut texts: Vec<String> = vec![text.clone(), line(&q), format!("{text} comment"), format!("{text}x"), text[..80].into(), format!("{}x{}", &text[..40], &text[41..]), "".into(), text.replace('.', "0"), text.replace('.', "_")];
    texts.extend([block.clone(), block.replace('\n', " c\n"), block.replace('.', "_"), block.lines().take(5).collect::<Vec<_>>().join("\n"), format!("{block}\n\nmore"), format!("{block}\n123456789"), block.replacen('-', "x", 1)]);
    for (k, x) in texts.into_iter().enumerate() {
        let (y, z, w) = (x.clone(), x.clone(), x);
        add(format!("line parsing of text {k}"), k == 2 || k == 5, Arc::new(move || format!("{:?}", Sudoku::from_str_line(&y).map(|s| l(&s)))));
        add(format!("block parsing of text {k}"), k == 9 || k == 14, Arc::new(move || format!("{:?}", Sudoku::from_str_block(&z).map(|s| l(&s)))));
        add(format!("permissive parsing of text {k}"), k == 9 || k == 12, Arc::new(move || format!("{:?}", Sudoku::from_str_block_permissive(&w).map(|s| l(&s)))));
    }
    for k in 0..6usize {
        let mut b = g.to_vec();
        match k {
            1 => b[80] = 10,
            2 => b.push(1),
            3 => b.truncate(80),
            4 => b = q.to_vec(),
            5 => b[0] = 255,
            _ => {}
        }
        add(format!("byte slice {k}"), k < 2, Arc::new(move || format!("{:?} {:?}", Sudoku::from_bytes_slice(&b).map(|s| l(&s)), bincode::deserialize::<Sudoku>(&bincode::serialize(&b).unwrap()).map(|s| l(&s)).is_ok())));
    }
    // starting states with excluded candidates
    for k in 0..t.pick(4, 12u16) {
        let sol = q;
        add(format!("strategies from grid state {k}"), k == 0, Arc::new(move || {
            let gs: [CellState; 81] = std::array::from_fn(|c| if (c * 7 + k as usize) % 5 == 0 { CellState::Digit(Digit::new(sol[c])) } else { CellState::Candidates(set(((c as u16 * 37 + k * 101) & 511) | 1 << (sol[c] - 1))) });
            let mut s = StrategySolver::from_grid_state(gs);
            let a = format!("{:?} {}", s.grid_state(), l(&s.to_sudoku()));
            let r = solve_with(s, &BY_DIFFICULTY);
            format!("{a} {} {} {:?}", r.ok, line(&r.grid), r.ded)
        }));
    }
    v
}

/// operations that can be interrupted
fn open(t: Tier) -> Vec<(String, Open)> {
    let p = corpus::puzzles();
    let mut v: Vec<(String, Open)> = vec![];
    let mut add = |n: &str, f: Open| v.push((n.to_string(), f));
    fn gen(seed: u64, at: usize, h: &mut dyn FnMut(), f: &dyn Fn(&mut Hooked) -> Sudoku) -> (String, usize) {
        let mut r = Hooked::new(seed, at, h);
        let q = f(&mut r);
        (l(&q), r.n)
    }
    for seed in 0..t.pick(1, 4u64) {
        add("solved grid from the caller's generator", Arc::new(move |at, h| gen(seed, at, h, &|r| Sudoku::generate_solved_with_rng(r))));
        for sym in [Symmetry::None, Symmetry::HalfRotation] {
            let g = su(&p[3 + seed as usize]);
            let q = su(&unique(&p[5]).unwrap());
            add("generation from a puzzle", Arc::new(move |at, h| gen(seed, at, h, &|r| Sudoku::generate_with_symmetry_and_rng_from(g, sym, r))));
            add("generation from a solved grid", Arc::new(move |at, h| gen(seed, at, h, &|r| Sudoku::generate_with_symmetry_and_rng_from(q, sym, r))));
        }
    }
    fn text(at: usize, h: &mut dyn FnMut(), f: &dyn Fn(&mut Hooked)) -> (String, usize) {
        let mut w = Hooked::new(0, at, h);
        f(&mut w);
        (w.text, w.n)
    }
    let g = su(&p[3]);
    add("printing the line form", Arc::new(move |at, h| text(at, h, &|w| write!(w, "{g} {}", g.to_str_line()).unwrap())));
    add("printing the block form", Arc::new(move |at, h| text(at, h, &|w| write!(w, "{}", g.display_block()).unwrap())));
    add("printing a strategy solver", Arc::new(move |at, h| text(at, h, &|w| write!(w, "{}", StrategySolver::from_sudoku(g)).unwrap())));
    v
}

/// child side
pub fn one(k: usize, t: Tier) -> i32 {
    install_hook();
    let c = catalogue(t);
    println!("{}", (c[k].call)().replace('\n', "\\n"));
    0
}

struct World {
    t: Tier,
    ops: Vec<Op>,
    alone: Vec<OnceLock<String>>,
}
impl World {
    /// what the operation returns as the only one of a fresh process
    fn alone(&self, k: usize) -> &str {
        self.alone[k].get_or_init(|| {
            let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
            let o = std::process::Command::new(exe).args(["one", &k.to_string(), self.t.pick("quick", "thorough")]).output();
            match o {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string(),
                Ok(o) => format!("the process dies ({})", o.status),
                Err(e) => harness_error(&e.to_string()),
            }
        })
    }
    fn call(&self, k: usize, ctx: &mut Ctx) -> String {
        ctx.step(1);
        (self.ops[k].call)().replace('\n', "\\n")
    }
    fn judge(&self, k: usize, got: &str, how: &dyn Fn() -> String) -> R {
        let want = self.alone(k);
        ensure!(got == want, "{} {}: {got}; alone in a fresh process: {want}", self.ops[k].name, how());
        Ok(())
    }
}
/// every history starts with the thread-local state of a new thread
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap_or_else(|e| harness_error(&e.to_string())).join() {
        Ok(x) => x,
        Err(p) => resume_unwind(p),
    })
}

pub fn c27(t: Tier) -> Prop {
    let ops = catalogue(t);
    let alone = ops.iter().map(|_| OnceLock::new()).collect();
    let n = ops.len() as u64;
    let small: Vec<usize> = (0..ops.len()).filter(|&k| ops[k].small).collect();
    let m = small.len() as u64;
    let w = Arc::new(World { t, ops, alone });
    let nm = {
        let w = w.clone();
        move |k: usize| w.ops[k].name.clone()
    };
    let mut fams = vec![];
    let (w1, n1) = (w.clone(), nm.clone());
    fams.push(family("singles", format!("each of {n} operations on a fresh thread of the exploring process, twice"), n, move |i, ctx| {
        let k = i as usize;
        ctx.state_fp(mix(i));
        fresh(|| {
            for _ in 0..2 {
                let r = w1.call(k, ctx);
                ctx.outcome(r.as_bytes());
                ctx.trace();
                w1.judge(k, &r, &|| "on a fresh thread".into())?;
            }
            Ok(())
        })
    }, move |i| n1(i as usize)));
    let (w1, n1) = (w.clone(), nm.clone());
    fams.push(family("pairs", format!("every ordered pair a, b of {n} operations: a, b, a on one fresh thread; and a, then b on a second thread, then a on the first"), n * n, move |i, ctx| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        ctx.state_fp(mix(1 << 32 | i));
        let _ = w1.alone(a);
        fresh(|| {
            let mut v = vec![w1.call(a, ctx), w1.call(b, ctx), w1.call(a, ctx)];
            v.push(fresh(|| w1.call(b, ctx)));
            v.push(w1.call(a, ctx));
            ctx.trace();
            for (j, r) in v.iter().enumerate() {
                let k = [a, b, a, b, a][j];
                w1.judge(k, r, &|| format!("as step {} of: {}, {}, the first again, the second on another thread, the first again", j + 1, w1.ops[a].name, w1.ops[b].name))?;
            }
            Ok(())
        })
    }, move |i| format!("{}; {}", n1((i / n) as usize), n1((i % n) as usize))));
    let (w1, n1, s1) = (w.clone(), nm.clone(), small.clone());
    let s2 = small.clone();
    let depth = t.pick(3u32, 4);
    fams.push(family("sequences", format!("every sequence of {depth} of {m} operations on one fresh thread"), m.pow(depth), move |i, ctx| {
        ctx.state_fp(mix(2 << 32 | i));
        let h: Vec<usize> = (0..depth).map(|d| s1[(i / m.pow(d) % m) as usize]).collect();
        fresh(|| {
            ctx.trace();
            for (j, &k) in h.iter().enumerate() {
                let r = w1.call(k, ctx);
                w1.judge(k, &r, &|| format!("as step {} of {:?}", j + 1, h.iter().map(|&k| &w1.ops[k].name).collect::<Vec<_>>()))?;
            }
            Ok(())
        })
    }, move |i| (0..depth).map(|d| n1(s2[(i / m.pow(d) % m) as usize])).collect::<Vec<_>>().join("; ")));
    let (w1, n1) = (w.clone(), nm.clone());
    let reps = t.pick(600, 70_000);
    fams.push(family("repetitions", format!("each of {n} operations {reps} times on one thread (fewer where a call is slow: at most 20 s)"), n, move |i, ctx| {
        let k = i as usize;
        ctx.state_fp(mix(3 << 32 | i));
        fresh(|| {
            ctx.trace();
            let t0 = std::time::Instant::now();
            for j in 0..reps {
                let r = w1.call(k, ctx);
                w1.judge(k, &r, &|| format!("repeated {j} times"))?;
                if j % 16 == 0 {
                    ctx.alive();
                    if t0.elapsed().as_secs() > 20 {
                        break;
                    }
                }
            }
            Ok(())
        })
    }, move |i| n1(i as usize)));
    // interruptions: an operation runs inside a callback of another one
    let outer = Arc::new(open(t));
    let points = t.pick(40u64, 160);
    let no = outer.len() as u64;
    // scripted random outcomes are one per thread, so operations that use a script cannot be nested here
    let inner: Vec<usize> = (0..n as usize).filter(|&k| (t == Tier::Thorough || w.ops[k].small || k % 5 == 0) && !w.ops[k].name.contains("outcomes")).collect();
    let ni = inner.len() as u64;
    let inner = Arc::new(inner);
    let (w1, n1, o1, i1) = (w.clone(), nm, outer.clone(), inner.clone());
    let other = no + ni;
    let _ = other;
    fams.push(family("interruptions", format!("{no} operations with callbacks x {points} points of interruption (spread evenly over all uses of the caller's object; all where there are fewer) x {ni} operations run there, on the same thread and on another one"), no * points * ni, move |i, ctx| {
        let (k, i) = (i1[(i % ni) as usize], i / ni);
        let (p, o) = (i % points, (i / points) as usize);
        let f = &o1[o].1;
        let (want, uses) = f(usize::MAX, &mut || ());
        ctx.step(1);
        let at = if uses as u64 <= points { p as usize } else { (p * uses as u64 / points) as usize };
        if at >= uses {
            return Ok(());
        }
        ctx.state_fp(mix(4 << 32 | (o as u64) << 40 | (at as u64) << 20 | k as u64));
        ctx.trace();
        let alone = w1.alone(k).to_string();
        for other_thread in [false, true] {
            let mut got = None;
            let (text, _) = f(at, &mut || {
                got = Some(if other_thread { fresh(|| (w1.ops[k].call)()) } else { (w1.ops[k].call)() }.replace('\n', "\\n"));
            });
            ctx.step(2);
            let got = got.unwrap_or_default();
            ensure!(got == alone, "{} in the middle of \"{}\" (use {at} of the caller's object{}): {got}; alone in a fresh process: {alone}", w1.ops[k].name, o1[o].0, if other_thread { ", on another thread" } else { "" });
            ensure!(text == want, "\"{}\" interrupted at use {at} of the caller's object by \"{}\": {text}; without the interruption: {want}", o1[o].0, w1.ops[k].name);
        }
        Ok(())
    }, move |i| format!("{} interrupted at point {} by {}", outer[(i / ni / points) as usize].0, i / ni % points, n1(inner[(i % ni) as usize]))));
    Prop {
        families: fams,
        assumptions: vec!["operations are interleaved at their callbacks and at their ends; two operations never run at the same instant".into()],
        rule: "a state is a distinct history; a transition is one operation; a trace is one history whose results are compared with those of fresh processes".into(),
    }
}
