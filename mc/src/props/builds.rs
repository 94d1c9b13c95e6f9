//! C04: the same enumeration in four builds (debug assertions on/off x checked/unchecked indexing).
//! The registered check runs in the build with assertions and checked indexing; the other three run as children that
//! evaluate the same elements and answer with a hash of everything they returned.
use super::solving::{solver_spaces, su};
use crate::engine::*;
use crate::model::*;
use crate::spaces::{self, take, GridSpace};
use crate::strat::*;
use crate::{corpus, fail};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;
use sudoku::Sudoku;

type Item = Arc<dyn Fn(u64) -> String + Send + Sync>;
struct Space {
    name: String,
    about: String,
    n: u64,
    /// the results of one element in printable form
    eval: Item,
    show: Item,
}

fn grids(s: GridSpace, what: fn(&Grid) -> String) -> Space {
    let (a, b) = (s.at.clone(), s.at);
    Space { name: s.name, about: s.about, n: s.n, eval: Arc::new(move |i| what(&a(i))), show: Arc::new(move |i| line(&b(i))) }
}
fn texts(prefix: &str, v: super::parsing::Texts, what: fn(&str) -> String) -> Vec<Space> {
    v.into_iter()
        .map(|(n, a, c, f)| {
            let f = Arc::new(f);
            let g = f.clone();
            Space { name: format!("{prefix}_{n}"), about: a.into(), n: c, eval: Arc::new(move |i| what(&f(i))), show: Arc::new(move |i| format!("{:?}", g(i))) }
        })
        .collect()
}

fn l(s: &Sudoku) -> String {
    line(&s.to_bytes())
}
fn solving(g: &Grid) -> String {
    let s = su(g);
    let mut v: Vec<String> = s.solutions_up_to(6).iter().map(l).collect();
    v.sort();
    if v.len() == 6 {
        // which solutions are found first is not specified, their validity is
        v.iter_mut().for_each(|q| *q = is_valid_full(&parse(q)).to_string());
    }
    let mut buf = [[7u8; 81]; 3];
    let n = s.solutions_up_to_buffer(&mut buf, 4);
    let filled = buf.iter().filter(|b| is_valid_full(b)).count();
    let some = s.some_solution().map(|q| is_valid_full(&q.to_bytes()));
    format!(
        "{v:?} buffer {n}/{filled} some {some:?} solution {:?} unique {} count {} solved {} clues {}",
        s.solution().as_ref().map(l),
        s.is_uniquely_solvable(),
        s.solutions_count_up_to(8),
        s.is_solved(),
        s.n_clues()
    )
}
fn checking(g: &Grid) -> String {
    let s = su(g);
    format!("solved {} clues {} line {} block {} valid {:?}", s.is_solved(), s.n_clues(), l(&s), s.display_block(), s.is_uniquely_solvable())
}
fn canonical(g: &Grid) -> String {
    match su(g).canonicalized() {
        None => "none".into(),
        // among several equivalent canonical forms the choice is not specified
        Some((q, n)) => format!("{n} automorphisms, {} clues, {}", q.n_clues(), if n == 1 { l(&q) } else { q.solution().as_ref().map(l).unwrap_or_default() }),
    }
}
fn strategies(g: &Grid) -> String {
    strategies_from(&Start::of(g))
}
fn strategies_from(start: &Start) -> String {
    let mut o = String::new();
    let consistent = some_completion(&start.masks()).is_some();
    for list in [&[][..], &[0], &[1, 0], &BY_DIFFICULTY] {
        let r = super::strategy::solve_with(start.solver(), list);
        o += &format!("{} ", r.ok);
        if consistent {
            o += &line(&r.grid);
        }
    }
    if is_consistent(&start.dig) {
        let mut s = start.solver();
        let gs = s.grid_state();
        let (d, c) = read_state(&gs);
        if (0..81).all(|k| d[k] != 0 || c[k] != 0) {
            o += &format!("{d:?} {c:?}");
        }
        o += &format!(" {}", s.is_solved());
    }
    o
}
fn strategy_case(start: &Start, list: &[usize]) -> String {
    let r = super::strategy::solve_with(start.solver(), list);
    if some_completion(&start.masks()).is_none() {
        return r.ok.to_string();
    }
    let p = super::strategy::raw_replay(start, &r.ded, r.ded.len());
    format!("{} {} {:?}", r.ok, line(&r.grid), p.cand)
}
/// counts and enumerations far beyond a handful
fn many(g: &Grid) -> String {
    let s = su(g);
    let n = s.solutions_count_up_to(3000);
    let v: Vec<Grid> = s.solutions_up_to(1500).iter().map(|q| q.to_bytes()).collect();
    let mut buf = [[0u8; 81]; 300];
    let b = s.solutions_up_to_buffer(&mut buf, 700);
    let distinct = v.iter().collect::<std::collections::HashSet<_>>().len();
    format!("count {n} listed {} distinct {distinct} valid {} buffer {b} valid {}", v.len(), v.iter().all(is_valid_full), buf.iter().filter(|b| is_valid_full(b)).count())
}
fn ok_or_kind<T: std::fmt::Debug>(r: Result<Sudoku, T>) -> String {
    match r {
        Ok(s) => l(&s),
        Err(e) => format!("{e:?}"),
    }
}

fn spaces_of(t: Tier) -> Vec<Space> {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let mut v: Vec<Space> = vec![];
    let solver: Vec<GridSpace> = match t {
        Tier::Thorough => solver_spaces(Tier::Quick).into_iter().map(|x| x.0).collect(),
        Tier::Quick => vec![
            spaces::bases(),
            spaces::edits("edits", take(p, 40), false),
            spaces::units(take(s, 16), 2),
            spaces::units(take(s, 1), 3),
            spaces::band_patterns(take(s, 2), 1, false),
            spaces::band_patterns(take(s, 1), 2, false),
            spaces::prefixes(take(s, 20)),
            spaces::few_digits(take(s, 20), 4),
            spaces::few_digits(take(p, 20), 3),
            spaces::sparse2(),
        ],
    };
    v.extend(solver.into_iter().map(|x| grids(x, solving)));
    let mut x = grids(spaces::full2(take(s, t.pick(1, 6))), checking);
    x.name = "full2_checked".into();
    v.push(x);
    for mut g in [spaces::bases(), spaces::edits("edits", take(p, t.pick(4, 40)), false), spaces::units(take(s, t.pick(2, 40)), 2), spaces::images("images", take(p, t.pick(1, 10)))] {
        let n = g.name.clone();
        g.name = format!("{n}_canonical");
        v.push(grids(g.clone(), canonical));
        g.name = format!("{n}_strategies");
        v.push(grids(g, strategies));
    }
    let c = super::strategy::insertion_cases(Tier::Quick);
    let (a, b) = (c.at.clone(), c.at);
    // one strategy list in six: the lists are chosen below
    v.push(Space { name: "inserted_strategies".into(), about: c.about, n: c.n / 6, eval: Arc::new(move |i| strategies_from(&a(i * 6).0)), show: Arc::new(move |i| b(i * 6).0.show()) });
    for c in std::iter::once(super::strategy::list_cases()).chain(super::strategy::pattern_cases(Tier::Quick)) {
        let (a, b) = (c.at.clone(), c.at);
        let step = t.pick(if c.n > 50_000 { 5 } else { 1 }, 1);
        v.push(Space {
            name: format!("{}_listed", c.name),
            about: format!("{}; every {step}. member", c.about),
            n: c.n / step,
            eval: Arc::new(move |i| { let (s, l) = a(i * step); strategy_case(&s, &l) }),
            show: Arc::new(move |i| { let (s, l) = b(i * step); format!("{} with {}", s.show(), names(&l)) }),
        });
    }
    for mut g in [spaces::prefixes(take(s, t.pick(6, 60))), spaces::few_digits(take(s, t.pick(2, 12)), 4)] {
        g.name = format!("{}_many", g.name);
        v.push(grids(g, many));
    }
    v.extend(bytes());
    v.extend(randomized(t));
    v.extend(texts("line", super::parsing::line_texts(), |s| ok_or_kind(Sudoku::from_str_line(s))));
    v.extend(texts("block", super::parsing::block_texts(Tier::Quick), |s| format!("{} {}", ok_or_kind(Sudoku::from_str_block(s)), ok_or_kind(Sudoku::from_str_block_permissive(s)))));
    v
}

/// whether the serde forms of these bytes are accepted, and as what
fn serde(v: &[u8]) -> String {
    let text: String = v.iter().map(|&b| if b <= 9 { char::from(b'0' + b) } else { char::from(b) }).collect();
    let t = serde_json::from_str::<Sudoku>(&serde_json::Value::String(text).to_string());
    let b = bincode::serialize(&super::parsing::BytesRef(v)).map(|e| bincode::deserialize::<Sudoku>(&e));
    format!("{:?} {:?}", t.map(|s| l(&s)).ok(), b.ok().and_then(|r| r.ok()).map(|s| l(&s)))
}
/// byte slices and arrays: every length up to 200 with several fillings, every value in every position
fn bytes() -> Vec<Space> {
    let p = corpus::puzzles()[3];
    let slice = move |i: u64| -> Vec<u8> {
        let (len, kind) = ((i / 12) as usize, i % 12);
        let mut v: Vec<u8> = (0..len).map(|k| if kind == 0 { 0 } else { p[k % 81] }).collect();
        if kind >= 2 && len > 0 {
            v[[0, len / 2, len - 1, 80.min(len - 1), 81.min(len - 1)][kind as usize / 2 - 1]] = [10, 255][kind as usize % 2];
        }
        v
    };
    let array = move |i: u64| -> [u8; 81] {
        let mut a = p;
        a[i as usize / 256] = i as u8;
        a
    };
    vec![
        Space {
            name: "byte_slices".into(),
            about: "byte slices of every length 0..=200 x 12 fillings (empty, a puzzle repeated, values 10 and 255 in 5 places)".into(),
            n: 201 * 12,
            eval: Arc::new(move |i| {
                let v = slice(i);
                format!("{} {} {}", ok_or_kind(Sudoku::from_bytes_slice(&v)), ok_or_kind(Sudoku::try_from(&v[..])), serde(&v))
            }),
            show: Arc::new(move |i| format!("{:?}", slice(i))),
        },
        Space {
            name: "byte_arrays".into(),
            about: "a puzzle with each of its 81 bytes replaced by each of the 256 values".into(),
            n: 81 * 256,
            eval: Arc::new(move |i| format!("{} {} {}", ok_or_kind(Sudoku::from_bytes(array(i))), ok_or_kind(Sudoku::try_from(array(i))), serde(&array(i)))),
            show: Arc::new(move |i| format!("{:?}", array(i))),
        },
    ]
}
/// generation and shuffling with scripted random outcomes
fn randomized(t: Tier) -> Vec<Space> {
    use super::generation::{run, tails, CallerRng};
    use super::generation::SYMMETRIES as SYM;
    fn of(tail: rand::seam::Tail, f: impl FnOnce() -> Sudoku) -> String {
        match run(&[], tail, f) {
            Ok((s, log)) => format!("{} after {} draws", l(&s), log.len()),
            // pass the panic on; where it happened is remembered
            Err(_) => std::panic::resume_unwind(Box::new(())),
        }
    }
    let tl = Arc::new(tails(t.pick(200, 1600)));
    let n = tl.len() as u64;
    let bases = Arc::new([take(corpus::puzzles(), t.pick(12, 99)), take(corpus::solved(), t.pick(4, 40)), take(corpus::invalid(), 4)].concat());
    let nb = bases.len() as u64;
    let (t1, t2, t3, b3) = (tl.clone(), tl.clone(), tl.clone(), bases.clone());
    let (u1, u2, u3, c3) = (tl.clone(), tl.clone(), tl, bases);
    vec![
        Space {
            name: "generate_solved".into(),
            about: format!("solved grid generation x {n} policies for the random outcomes"),
            n,
            eval: Arc::new(move |i| of(t1[i as usize], || Sudoku::generate_solved_with_rng(&mut CallerRng))),
            show: Arc::new(move |i| format!("{:?}", u1[i as usize])),
        },
        Space {
            name: "generate".into(),
            about: format!("puzzle generation x 10 symmetries x {n} policies for the random outcomes"),
            n: 10 * n,
            eval: Arc::new(move |i| of(t2[i as usize / 10], || Sudoku::generate_with_symmetry(SYM[i as usize % 10]))),
            show: Arc::new(move |i| format!("{:?} {:?}", SYM[i as usize % 10], u2[i as usize / 10])),
        },
        Space {
            name: "shuffle".into(),
            about: format!("shuffled() and generation from {nb} grids x {n} policies for the random outcomes"),
            n: nb * n,
            eval: Arc::new(move |i| {
                let (g, tail) = (&b3[(i / n) as usize], t3[(i % n) as usize]);
                let mut o = of(tail, || {
                    let mut s = su(g);
                    s.shuffle();
                    s
                });
                if clues(g) > 40 || count(g, 2) == 1 {
                    o += &of(tail, || Sudoku::generate_with_symmetry_and_rng_from(su(g), sudoku::Symmetry::HalfRotation, &mut CallerRng));
                }
                o
            }),
            show: Arc::new(move |i| format!("{} {:?}", line(&c3[(i / n) as usize]), u3[(i % n) as usize])),
        },
    ]
}

const CHUNK: u64 = 512;
fn digest(s: &Space, lo: u64, hi: u64, ctx: &mut Ctx) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for i in lo..hi {
        let r = (s.eval)(i);
        ctx.outcome(r.as_bytes());
        r.hash(&mut h);
    }
    ctx.step(hi - lo);
    h.finish()
}

/// child side: answer each request "space lo hi" (a hash) or "space i" (the printed results)
pub fn serve(t: Tier) -> i32 {
    install_hook();
    let v = spaces_of(t);
    let mut ctx = Ctx::fresh();
    let out = std::io::stdout();
    for q in std::io::stdin().lock().lines() {
        let q = q.unwrap();
        let a: Vec<u64> = q.split(' ').map(|x| x.parse().unwrap()).collect();
        let s = &v[a[0] as usize];
        let answer = match guarded(|| if a.len() == 3 { digest(s, a[1], a[2], &mut ctx).to_string() } else { (s.eval)(a[1]).replace('\n', "\\n") }) {
            Ok(r) => r,
            Err((loc, msg)) => format!("panic at {loc}: {msg}").replace('\n', " "),
        };
        let mut o = out.lock();
        writeln!(o, "{answer}").unwrap();
        o.flush().unwrap();
    }
    0
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
const OTHERS: [(&str, &str); 3] = [
    ("plain", "without assertions, checked indexing"),
    ("unchecked", "with assertions, unchecked indexing"),
    ("plain-unchecked", "without assertions, unchecked indexing"),
];
thread_local! {
    static PEERS: RefCell<[Option<Peer>; 3]> = const { RefCell::new([None, None, None]) };
}
fn binary(k: usize) -> std::path::PathBuf {
    Paths::get().root.join(".build").join(OTHERS[k].0).join("sudoku-mc")
}
fn ask(k: usize, t: Tier, q: &str) -> Result<String, String> {
    PEERS.with(|p| {
        let slot = &mut p.borrow_mut()[k];
        if slot.is_none() {
            let b = binary(k);
            let mut child = Command::new(&b)
                .args(["serve", t.pick("quick", "thorough")])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| harness_error(&format!("{}: {e}", b.display())));
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *slot = Some(Peer { child, to, from });
        }
        let x = slot.as_mut().unwrap();
        let mut a = String::new();
        let ok = writeln!(x.to, "{q}").and_then(|_| x.to.flush()).is_ok();
        if !ok || x.from.read_line(&mut a).unwrap_or(0) == 0 {
            let how = x.child.wait().map(|s| s.to_string()).unwrap_or_default();
            *slot = None;
            return Err(format!("dies ({how})"));
        }
        Ok(a.trim_end_matches('\n').to_string())
    })
}

pub fn c04(t: Tier) -> Prop {
    let fams = spaces_of(t)
        .into_iter()
        .enumerate()
        .map(|(k, s)| {
            let s = Arc::new(s);
            let s2 = s.clone();
            let n = s.n;
            family(
                &s.name.clone(),
                format!("{} (elements of {CHUNK} members), evaluated in 4 builds", s.about),
                n.div_ceil(CHUNK),
                move |i, ctx| {
                    let (lo, hi) = (i * CHUNK, ((i + 1) * CHUNK).min(n));
                    for j in lo..hi {
                        ctx.state_fp(mix((k as u64) << 40 | j));
                    }
                    let mine = digest(&s, lo, hi, ctx).to_string();
                    ctx.traces += 3 * (hi - lo);
                    ctx.step(3 * (hi - lo));
                    for o in 0..3 {
                        let theirs = ask(o, t, &format!("{k} {lo} {hi}"));
                        if theirs.as_ref() == Ok(&mine) {
                            continue;
                        }
                        // find the element
                        for j in lo..hi {
                            ctx.alive();
                            let a = (s.eval)(j).replace('\n', "\\n");
                            match ask(o, t, &format!("{k} {j}")) {
                                Ok(b) if a == b => {}
                                Ok(b) => fail!("{}: this build gives {a}; the build {} gives {b}", (s.show)(j), OTHERS[o].1),
                                Err(e) => fail!("{}: this build gives {a}; the build {} {e}", (s.show)(j), OTHERS[o].1),
                            }
                        }
                        fail!("members {lo}..{hi}: the build {} {}, but not when asked for single members", OTHERS[o].1, match theirs { Ok(_) => "gives other results".into(), Err(e) => e });
                    }
                    Ok(())
                },
                move |i| format!("members {} to {}, first {}", i * CHUNK, ((i + 1) * CHUNK).min(n) - 1, (s2.show)(i * CHUNK)),
            )
        })
        .collect();
    Prop {
        families: fams,
        assumptions: vec!["the four builds use the same compiler and optimization level".into()],
        rule: "a state is a distinct member of a space; a transition is the evaluation of one member in one build; a trace is one member whose results in two builds were compared".into(),
    }
}
