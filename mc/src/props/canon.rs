//! C15 canonical form, C16 automorphism count, C17 canonicalizing puzzles, C26 equivariance.
use super::solving::{over, su};
use crate::engine::*;
use crate::model::*;
use crate::spaces::{self, explicit, take, GridSpace};
use crate::strat::*;
use crate::{corpus, ensure, fail};
use std::sync::Arc;
use sudoku::Sudoku;

#[derive(Clone, Copy, PartialEq)]
enum What {
    Form,
    Count,
}

/// `canonicalized()` of a solved grid, compared with the expected canonical form and number of automorphisms
fn check(what: What, g: &Grid, want: &(Grid, usize), ctx: &mut Ctx) -> R {
    ctx.state(g);
    ctx.trace();
    ctx.step(1);
    let Some((q, n)) = su(g).canonicalized() else { fail!("canonicalized() = None for a solved grid") };
    let q = q.to_bytes();
    if what == What::Form {
        ensure!(q == want.0, "the canonical form is {}, expected {}", line(&q), line(&want.0));
    } else {
        ensure!(n == want.1, "the number of automorphisms is {n}, expected {}", want.1);
        ctx.outcome(&n.to_le_bytes());
    }
    Ok(())
}
fn fixed_point(what: What, want: &(Grid, usize), ctx: &mut Ctx) -> R {
    check(what, &want.0, want, ctx)
}

/// solved grids of many classes: the completions of a space of puzzles
fn completions(s: GridSpace, limit: usize, what: What) -> Family {
    over(&s, move |g, ctx| {
        for q in solutions(g, limit) {
            let w = minlex(&q);
            check(what, &q, &w, ctx)?;
            fixed_point(what, &w, ctx)?;
        }
        ctx.alive();
        Ok(())
    })
}
/// all members given by `member(j)`, j < per, of the class of each base grid
fn class(name: &str, about: String, bases: Vec<Grid>, per: u64, what: What, member: impl Fn(&Grid, u64) -> Grid + Send + Sync + Copy + 'static) -> Family {
    let want: Vec<std::sync::OnceLock<(Grid, usize)>> = bases.iter().map(|_| Default::default()).collect();
    let b2 = bases.clone();
    family(
        name,
        about,
        bases.len() as u64 * per,
        move |i, ctx| {
            let k = (i / per) as usize;
            let w = want[k].get_or_init(|| minlex(&bases[k]));
            if i % per == 0 {
                fixed_point(what, w, ctx)?;
            }
            check(what, &member(&bases[k], i % per), w, ctx)
        },
        move |i| line(&member(&b2[(i / per) as usize], i % per)),
    )
}

fn auto_units(n: usize) -> GridSpace {
    let mut s = spaces::units(take(corpus::automorphic(), n), 2);
    s.name = "symmetric_units2".into();
    s
}
fn class_families(t: Tier, what: What) -> Vec<Family> {
    let s = corpus::solved();
    let a = corpus::automorphic();
    let mut all = take(s, t.pick(24, 100));
    all.extend(take(a, t.pick(24, 100)));
    let n = all.len();
    let mut v = vec![
        class("images", format!("{n} solved grids (half of them with automorphisms) x (2 x 1296 row permutations with/without transposition, 1296 column permutations, 72 digit transpositions)"), all, 3960, what, |g, j| spaces::image(g, j).0),
    ];
    // row-and-column products
    let per = t.pick(36 * 36 * 2, 2 * 1296 * 1296);
    let k = t.pick(6, 2);
    let mut b = take(s, k);
    b.extend(take(a, k));
    v.push(class(
        "products",
        format!("{} solved grids x {}", b.len(), if per == 2 * 1296 * 1296 { "all 2 x 1296 x 1296 positional transformations" } else { "36 row permutations x 36 column permutations (each a different coset of the band/stack order with one order inside) x transposition" }),
        b,
        per,
        what,
        move |g, j| {
            let i = if per == 2 * 1296 * 1296 {
                j as usize
            } else {
                let (r, c) = (j as usize / 2 % 36 * 36 + j as usize / 72 % 36, j as usize / 72 * 36 + j as usize / 2 % 36);
                j as usize % 2 + 2 * (r + 1296 * c)
            };
            apply(&positional(i), &digit_perm(j as usize * 1009 % 362_880), g)
        },
    ));
    let b = t.pick(vec![s[5]], [take(s, 4), vec![a[10], a[20], a[40]]].concat());
    v.push(class("relabelled", format!("{} solved grids x all 9! relabellings", b.len()), b, 362_880, what, |g, j| apply(&positional(0), &digit_perm(j as usize), g)));
    v
}

pub fn c15(t: Tier) -> Prop {
    let s = corpus::solved();
    let a = corpus::automorphic();
    let mut f = class_families(t, What::Form);
    f.push(completions(explicit("all_grids", "every embedded solved grid and every grid with automorphisms", [s.clone(), a.clone()].concat()), 1, What::Form));
    // the completions after blanking two units lie in other classes; each is compared with its own minimum
    f.push(completions(spaces::units(take(s, t.pick(12, 60)), 2), t.pick(4, 30), What::Form));
    f.push(completions(auto_units(t.pick(6, 46)), t.pick(4, 30), What::Form));
    Prop {
        families: f,
        assumptions: vec!["the reference canonicalization (enumeration of 2 x 9 x 1296 transformations, remaining rows sorted) is self-tested and checked against the automorphism count by definition in C16".into()],
        rule: "a state is a distinct solved grid; a transition is one canonicalization; a trace is one grid whose canonical form was compared with the minimum of its class found by the reference".into(),
    }
}

pub fn c16(t: Tier) -> Prop {
    let s = corpus::solved();
    let a = corpus::automorphic();
    let mut f = class_families(t, What::Count);
    let def = explicit("by_definition", "grids with automorphisms and others: count over all 3359232 positional transformations", [a.clone(), take(s, t.pick(20, 100))].concat());
    f.push(over(&def, |g, ctx| {
        let n = automorphisms_by_definition(g);
        ctx.count("transformations_tried_by_the_reference", 2 * 1296 * 1296);
        let w = minlex(g);
        assert_eq!(w.1, n, "the two reference counts differ");
        check(What::Count, g, &w, ctx)
    }));
    f.push(completions(spaces::units(take(s, t.pick(6, 60)), 2), t.pick(4, 30), What::Count));
    f.push(completions(auto_units(t.pick(12, 46)), t.pick(4, 30), What::Count));
    // puzzles: the count of the solution
    let mut p: Vec<Grid> = take(corpus::puzzles(), t.pick(20, 100));
    p.extend(symmetric_puzzles(t));
    let about = format!("{} puzzles (some with symmetric solutions) x 3960 transformations", p.len());
    let want: Vec<std::sync::OnceLock<usize>> = p.iter().map(|_| Default::default()).collect();
    let p2 = p.clone();
    f.push(family(
        "puzzles",
        about,
        p.len() as u64 * 3960,
        move |i, ctx| {
            let k = (i / 3960) as usize;
            let n = *want[k].get_or_init(|| minlex(&unique(&p[k]).unwrap()).1);
            let g = spaces::image(&p[k], i % 3960).0;
            ctx.state(&g);
            ctx.step(1);
            ctx.trace();
            match su(&g).canonicalized() {
                Some((_, m)) => ensure!(m == n, "the number of automorphisms is {m}, but its solution has {n}"),
                None => fail!("canonicalized() = None for a uniquely solvable puzzle"),
            }
            Ok(())
        },
        move |i| line(&spaces::image(&p2[(i / 3960) as usize], i % 3960).0),
    ));
    Prop {
        families: f,
        assumptions: vec![],
        rule: "a state is a distinct grid; a transition is one canonicalization; a trace is one grid whose count was compared".into(),
    }
}

/// puzzles whose solutions have automorphisms: cells dropped greedily in several orders while the solution stays unique
fn symmetric_puzzles(t: Tier) -> Vec<Grid> {
    let mut v = vec![];
    for (k, g) in take(corpus::automorphic(), t.pick(12, 46)).into_iter().enumerate() {
        let mut p = g;
        for j in 0..81 {
            let c = (j * [7, 10, 13, 16, 23, 31][k % 6] + 5 * k) % 81;
            let old = p[c];
            p[c] = 0;
            if count(&p, 2) != 1 {
                p[c] = old;
            }
            if clues(&p) <= 28 {
                break;
            }
        }
        v.push(p);
    }
    v
}

/// C17 on one grid
fn check_puzzle(g: &Grid, ctx: &mut Ctx) -> R {
    ctx.state(g);
    ctx.step(1);
    ctx.trace();
    let sol = if clues(g) < 17 { None } else { unique(g) };
    let got = su(g).canonicalized();
    let Some(sol) = sol else {
        if let Some((q, _)) = got {
            fail!("canonicalized() = {} although the sudoku is not uniquely solvable", line(&q.to_bytes()));
        }
        ctx.count("not_uniquely_solvable", 1);
        return Ok(());
    };
    let Some((q, n)) = got else { fail!("canonicalized() = None for a uniquely solvable sudoku") };
    ctx.count("uniquely_solvable", 1);
    let q = q.to_bytes();
    ensure!(clues(&q) == clues(g), "the canonical form {} has {} clues instead of {}", line(&q), clues(&q), clues(g));
    // the solution's canonical form as the crate reports it, and as the reference computes it
    let (m, ts) = minlex_all(&sol);
    ensure!(extends(&m, &q), "the canonical form {} does not belong to the canonical form {} of the solution", line(&q), line(&m));
    ensure!(ts.iter().any(|(s, d)| apply(s, d, g) == q), "the canonical form {} is not the image of the puzzle under a transformation of its solution to canonical form", line(&q));
    ensure!(unique(&q) == Some(m), "the canonical form {} has not the unique solution {}", line(&q), line(&m));
    ensure!(n == ts.len(), "the count is {n}, the solution has {} automorphisms", ts.len());
    Ok(())
}

pub fn c17(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let mut f = vec![
        over(&spaces::bases(), check_puzzle),
        over(&explicit("symmetric", "puzzles whose solutions have automorphisms", symmetric_puzzles(Tier::Thorough)), check_puzzle),
        over(&spaces::edits("edits", take(p, t.pick(20, 99)), false), check_puzzle),
        over(&spaces::edits("symmetric_edits", take(&symmetric_puzzles(Tier::Thorough), t.pick(6, 46)), false), check_puzzle),
        over(&spaces::images("images", take(p, t.pick(3, 20))), check_puzzle),
        over(&spaces::images("symmetric_images", take(&symmetric_puzzles(Tier::Thorough), t.pick(3, 46))), check_puzzle),
        over(&spaces::units(take(s, t.pick(12, 100)), 2), check_puzzle),
        over(&spaces::prefixes(take(s, t.pick(12, 100))), check_puzzle),
        over(&spaces::few_digits(take(s, t.pick(12, 100)), 4), check_puzzle),
        over(&spaces::sparse2(), check_puzzle),
    ];
    // nearly solved grids: erased and wrong entries
    let full2 = spaces::full2(take(s, t.pick(1, 6)));
    f.push(over(&full2, |g, c| {
        // right entries erased: unique; anything else contradictory or solved
        if clues(g) >= 80 && g.iter().any(|&x| x == 0) && is_consistent(g) {
            c.count("one_cell_erased", 1);
        }
        check_puzzle_cheap(g, c)
    }));
    Prop {
        families: f,
        assumptions: vec![],
        rule: "a state is a distinct grid; a transition is one canonicalization; a trace is one result compared with the reference (equivalence witnessed by an explicit transformation)".into(),
    }
}
/// only whether there is a result (for large families near solved grids)
fn check_puzzle_cheap(g: &Grid, ctx: &mut Ctx) -> R {
    if unique(g).is_some() && clues(g) < 81 {
        return check_puzzle(g, ctx);
    }
    if is_valid_full(g) {
        ctx.count("solved", 1);
        ctx.step(1);
        ensure!(su(g).canonicalized().is_some(), "canonicalized() = None for a solved grid");
        return Ok(());
    }
    check_puzzle(g, ctx)
}

// ------------------------------------------------------------------ C26

/// downward closed strategy lists: each strategy's patterns degenerate only into ones of the strategies before it
const CONFLUENT: [&[usize]; 8] = [&[0], &[0, 1], &[0, 1, 2], &[0, 1, 2, 3, 6], &[0, 1, 2, 3, 6, 4, 7], &[0, 1, 2, 3, 6, 4, 7, 5, 8], &[0, 1, 2, 3, 6, 9, 10, 11], &[0, 1, 2, 3, 6, 4, 7, 12, 13]];

struct View {
    n: usize,
    set: Vec<Grid>,
    solved: bool,
    unique: bool,
    some: bool,
    solution: Option<Grid>,
    clues: u8,
    strat: Vec<(bool, Pos)>,
}
fn view(s: &Sudoku, limit: usize, strategies: bool, ctx: &mut Ctx) -> View {
    let mut set: Vec<Grid> = s.solutions_up_to(limit).iter().map(|q| q.to_bytes()).collect();
    set.sort();
    let start = Start::of(&s.to_bytes());
    let strat = if strategies {
        CONFLUENT
            .iter()
            .map(|l| {
                let r = super::strategy::solve_with(start.solver(), l);
                (r.ok, super::strategy::raw_replay(&start, &r.ded, usize::MAX))
            })
            .collect()
    } else {
        vec![]
    };
    ctx.step(6 + strat.len() as u64);
    View { n: s.solutions_count_up_to(limit), set, solved: s.is_solved(), unique: s.is_uniquely_solvable(), some: s.some_solution().is_some(), solution: s.solution().map(|q| q.to_bytes()), clues: s.n_clues(), strat }
}
fn moved(p: &Pos, src: &[usize; 81], d: &[u8; 10]) -> Pos {
    Pos {
        dig: std::array::from_fn(|c| d[p.dig[src[c]] as usize]),
        cand: std::array::from_fn(|c| (1..=9u8).filter(|&e| p.cand[src[c]] >> (e - 1) & 1 == 1).fold(0, |m, e| m | 1 << (d[e as usize] - 1))),
    }
}
fn same_under(g: &Grid, base: &View, src: &[usize; 81], d: &[u8; 10], limit: usize, ctx: &mut Ctx) -> R {
    let h = apply(src, d, g);
    ctx.state(&h);
    ctx.trace();
    let v = view(&su(&h), limit, !base.strat.is_empty(), ctx);
    let how = || format!("{} against its image {}", line(g), line(&h));
    ensure!(v.n == base.n, "{}: {} solutions against {} (counting up to {limit})", how(), base.n, v.n);
    ensure!(v.solved == base.solved && v.unique == base.unique && v.some == base.some && v.clues == base.clues, "{}: is_solved {}/{}, is_uniquely_solvable {}/{}, some_solution().is_some() {}/{}, n_clues {}/{}", how(), base.solved, v.solved, base.unique, v.unique, base.some, v.some, base.clues, v.clues);
    ensure!(v.set.len() == base.set.len(), "{}: {} against {} solutions listed", how(), base.set.len(), v.set.len());
    if v.n < limit {
        let mut w: Vec<Grid> = base.set.iter().map(|q| apply(src, d, q)).collect();
        w.sort();
        for (a, b) in w.iter().zip(&v.set) {
            ensure!(a == b, "{}: the solution {} of the image is not the image of a solution", how(), line(b));
        }
    }
    ensure!(v.solution == base.solution.map(|q| apply(src, d, &q)), "{}: the solutions do not correspond", how());
    for (k, ((ok, p), (ok2, q))) in base.strat.iter().zip(&v.strat).enumerate() {
        let w = moved(p, src, d);
        ensure!(ok == ok2 && w.dig == q.dig && w.cand == q.cand, "{}: {} lead to {} for the image, but to the image {} for the original", how(), names(CONFLUENT[k]), q.render(), w.render());
    }
    Ok(())
}

pub fn c26(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let s = corpus::solved();
    // puzzles, puzzles with several solutions, contradictory and solved grids
    let mut b: Vec<(Grid, usize)> = take(p, t.pick(16, 99)).into_iter().map(|g| (g, 3)).collect();
    for (k, g) in take(p, t.pick(8, 50)).into_iter().enumerate() {
        let full: Vec<usize> = (0..81).filter(|&c| g[c] != 0).collect();
        let mut h = g;
        h[full[k % full.len()]] = 0;
        b.push((h, 50));
        h[full[(k * 5 + 3) % full.len()]] = 0;
        b.push((h, 50));
        let mut h = g;
        let c = full[k * 3 % full.len()];
        h[c] = h[c] % 9 + 1;
        b.push((h, 3));
    }
    for g in take(s, t.pick(6, 40)) {
        b.push((g, 2));
        b.push(((spaces::units(vec![g], 2).at)(100 + b.len() as u64 * 3), 300));
        let mut h = g;
        h.swap(0, 40);
        b.push((h, 2));
    }
    b.push(([0; 81], 5));
    for g in take(corpus::invalid(), 4) {
        b.push((g, 3));
    }
    let b = Arc::new(b);
    let chunk = 36u64;
    let mut f = vec![];
    let mut add = |name: &str, about: String, per: u64, tr: fn(u64) -> ([usize; 81], [u8; 10])| {
        let (b, b2) = (b.clone(), b.clone());
        let chunks = per / chunk;
        f.push(family(
            name,
            format!("{} grids (puzzles, with several solutions, contradictory, solved, one empty) x {about}", b.len()),
            b.len() as u64 * chunks,
            move |i, ctx| {
                let (g, limit) = b[(i / chunks) as usize];
                let strategies = some_completion(&Start::of(&g).masks()).is_some();
                let base = view(&su(&g), limit, strategies, ctx);
                ctx.max("solutions_compared_as_sets", base.set.len() as u64);
                for j in i % chunks * chunk..(i % chunks + 1) * chunk {
                    let (src, d) = tr(j);
                    same_under(&g, &base, &src, &d, limit, ctx)?;
                }
                Ok(())
            },
            move |i| format!("{} under transformations {} to {}", line(&b2[(i / chunks) as usize].0), i % chunks * chunk, (i % chunks + 1) * chunk - 1),
        ));
    };
    add("images", "(2 x 1296 row permutations with/without transposition, 1296 column permutations, 72 digit transpositions)".into(), 3960, |j| {
        let (_, s, d) = spaces::image(&[0; 81], j);
        (s, d)
    });
    if t == Tier::Thorough {
        add("products", "72 x 72 products of row and column permutations x transposition, each with a relabelling".into(), 10_368, |j| {
            let j = j as usize;
            let (r, c) = (j / 2 % 72 * 18, j / 144 * 18 + j / 2 % 18);
            (positional(j % 2 + 2 * (r + 1296 * c)), digit_perm(j * 1009 % 362_880))
        });
    }
    Prop {
        families: f,
        assumptions: vec!["strategy results are compared for grids that have a completion (a contradictory state has no final state) and for strategy lists whose patterns degenerate only into patterns of the same list".into()],
        rule: "a state is a distinct transformed grid; a transition is one call; a trace is one image whose results were compared with the transformed results of the original".into(),
    }
}
