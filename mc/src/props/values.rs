//! C29: values compare, hash and describe themselves consistently.
use super::solving::su;
use crate::engine::*;
use crate::model::*;
use crate::spaces::*;
use crate::{corpus, ensure};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::fmt::{Debug, Write};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, OnceLock};
use sudoku::bitset::Set;
use sudoku::board::positions::*;
use sudoku::board::*;
use sudoku::errors::*;
use sudoku::strategy::{Deduction, StrategySolver};
use sudoku::Sudoku;

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    // fixed keys
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Numbers that occur in a text
fn numbers(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).collect()
}
fn names_number(s: &str, n: usize) -> bool {
    numbers(s).iter().any(|t| t.parse() == Ok(n))
}
fn names_char(s: &str, ch: char) -> bool {
    s.contains(ch) || s.contains(&ch.escape_debug().to_string()) || s.contains(&ch.escape_default().to_string()) || s.contains(&ch.escape_unicode().to_string())
}

/// Every error of one kind names its payload, and no two share a message.
fn messages<E: std::error::Error>(all: impl Iterator<Item = (E, Option<usize>, Option<char>)>, c: &mut Ctx) -> R {
    let mut seen = HashSet::with_capacity(all.size_hint().0);
    let mut m = String::new();
    for (e, n, ch) in all {
        m.clear();
        write!(m, "{e}").map_err(|x| Violation { msg: format!("displaying {e:?} fails: {x}"), key: None })?;
        c.step(1);
        if let Some(n) = n {
            ensure!(names_number(&m, n), "the message {m:?} of {e:?} does not name {n}");
        }
        if let Some(ch) = ch {
            ensure!(names_char(&m, ch), "the message {m:?} of {e:?} does not name the character {ch:?}");
        }
        ensure!(!m.is_empty(), "{e:?} has an empty message");
        let h = (hash(&m), m.len());
        ensure!(seen.insert(h), "{e:?} has the message {m:?}, which another value of the same kind has, too");
    }
    c.trace();
    Ok(())
}

/// Values that are pairwise different, each built in two ways where there are two.
fn laws<T: Clone + PartialEq + Hash + Debug>(what: &str, v: &[T], i: usize, w: &[T], c: &mut Ctx) -> R {
    let x = &v[i];
    #[allow(clippy::eq_op)]
    {
        ensure!(x == x && !(x != x), "{what}: {x:?} is not equal to itself");
    }
    let y = x.clone();
    ensure!(*x == y && hash(x) == hash(&y), "{what}: {x:?} differs from its copy");
    for (j, y) in w.iter().enumerate() {
        c.step(1);
        ensure!((x == y) == (i == j) && (y == x) == (i == j) && (x != y) == (i != j), "{what}: {x:?} == {y:?} is {}, != is {}, reversed {}", x == y, x != y, y == x);
        ensure!(i != j || hash(x) == hash(y), "{what}: the equal values {x:?} and {y:?} have different hashes");
    }
    Ok(())
}
/// The order is total and agrees with equality; `sorted` was sorted by it.
fn order<T: Clone + Ord + Debug>(what: &str, sorted: &[T], i: usize, c: &mut Ctx) -> R {
    let x = &sorted[i];
    for (j, y) in sorted.iter().enumerate() {
        c.step(1);
        let want = i.cmp(&j);
        ensure!(x.cmp(y) == want, "{what}: no total order: among the sorted values, {x:?} is number {i}, {y:?} number {j}, but cmp is {:?}", x.cmp(y));
        ensure!(
            x.partial_cmp(y) == Some(want) && (x < y) == (want == Ordering::Less) && (x <= y) == (want != Ordering::Greater) && (x > y) == (want == Ordering::Greater) && (x >= y) == (want != Ordering::Less),
            "{what}: the comparison operators of {x:?} and {y:?} disagree with cmp ({want:?})"
        );
        ensure!(*x.max(y) == *if i >= j { x } else { y } && *x.min(y) == *if i <= j { x } else { y }, "{what}: max or min of {x:?} and {y:?}");
    }
    Ok(())
}

/// n-th value in two different ways
type Make<T> = fn(usize, bool) -> T;
fn ordered<T: Clone + Ord + Hash + Debug + 'static>(fams: &mut Vec<Family>, what: &'static str, n: usize, make: Make<T>) {
    fams.push(family(
        what,
        format!("all ordered pairs of {n} values: equality, hash, order"),
        n as u64,
        move |i, c| {
            let i = i as usize;
            c.state_fp(mix(fp(what.as_bytes()) ^ mix(i as u64)));
            let v: Vec<T> = (0..n).map(|k| make(k, false)).collect();
            let w: Vec<T> = (0..n).map(|k| make(k, true)).collect();
            laws(what, &v, i, &w, c)?;
            let mut s = v.clone();
            s.sort();
            order(what, &s, i, c)?;
            if i == 0 {
                let h: HashSet<T> = v.iter().chain(&w).cloned().collect();
                let b: BTreeSet<T> = v.iter().chain(&w).cloned().collect();
                ensure!(h.len() == n && b.len() == n && w.iter().all(|x| h.contains(x) && b.contains(x)), "{what}: {n} different values make a hash set of {} and a tree set of {}", h.len(), b.len());
            }
            c.trace();
            Ok(())
        },
        move |i| format!("{what} {i}"),
    ));
}
fn hashed<T: Clone + Eq + Hash + Debug + 'static>(fams: &mut Vec<Family>, what: &'static str, n: usize, make: Make<T>) {
    fams.push(family(
        what,
        format!("all ordered pairs of {n} values: equality, hash"),
        n as u64,
        move |i, c| {
            let i = i as usize;
            c.state_fp(mix(fp(what.as_bytes()) ^ mix(i as u64)));
            let v: Vec<T> = (0..n).map(|k| make(k, false)).collect();
            let w: Vec<T> = (0..n).map(|k| make(k, true)).collect();
            laws(what, &v, i, &w, c)?;
            if i == 0 {
                let h: HashSet<T> = v.iter().chain(&w).cloned().collect();
                ensure!(h.len() == n && w.iter().all(|x| h.contains(x)), "{what}: {n} different values make a hash set of {}", h.len());
            }
            c.trace();
            Ok(())
        },
        move |i| format!("{what} {i}"),
    ));
}

/// Different grids: corpus grids, and those that differ from one of them in one cell.
fn grids() -> &'static Vec<Grid> {
    static G: OnceLock<Vec<Grid>> = OnceLock::new();
    G.get_or_init(|| {
        let mut v: Vec<Grid> = vec![[0; 81]];
        v.extend(take(corpus::puzzles(), 60));
        v.extend(take(corpus::solved(), 40));
        let b = v[1];
        for c in 0..81 {
            for d in [0, 1, 5, 9] {
                let mut g = b;
                g[c] = d;
                v.push(g);
            }
        }
        let mut seen = HashSet::new();
        v.retain(|g| seen.insert(*g));
        v
    })
}
fn sudoku(k: usize, other: bool) -> Sudoku {
    let g = &grids()[k];
    if other {
        Sudoku::from_str_line(&line(g)).unwrap()
    } else {
        su(g)
    }
}

type Key = (u8, Vec<(usize, u8)>, Vec<u64>);
fn key(d: &Deduction<&[Candidate]>) -> Key {
    use Deduction::*;
    let cf = |c: &[Candidate]| c.iter().map(|c| (c.cell.as_index(), c.digit.get())).collect::<Vec<_>>();
    let n = |x: u16| x as u64;
    match *d {
        NakedSingles(c) => (0, cf(&[c]), vec![]),
        HiddenSingles(c, h) => {
            let h = format!("{h:?}");
            (1, cf(&[c]), vec![fp(h.as_bytes())])
        }
        LockedCandidates { digit, miniline, is_pointing, conflicts } => (2, cf(conflicts), vec![digit.get() as u64, miniline.get() as u64, is_pointing as u64]),
        Subsets { house, positions, digits, conflicts } => (3, cf(conflicts), vec![house.get() as u64, n(positions.bits()), n(digits.bits())]),
        BasicFish { digit, lines, positions, conflicts } => (4, cf(conflicts), vec![digit.get() as u64, lines.bits() as u64, n(positions.bits())]),
        Fish { digit, base, cover, conflicts } => (5, cf(conflicts), vec![digit.get() as u64, base.bits() as u64, cover.bits() as u64]),
        Wing { hinge, hinge_digits, pincers, conflicts } => {
            let p = pincers.bits();
            (6, cf(conflicts), vec![hinge.get() as u64, n(hinge_digits.bits()), p as u64, (p >> 64) as u64])
        }
        _ => (7, vec![], vec![]),
    }
}

/// built element by element, the last one first
fn digits(bits: usize) -> Set<Digit> {
    (0..9).rev().filter(|i| bits >> i & 1 == 1).fold(Set::NONE, |s, i| s | Digit::new(i + 1))
}

/// no cell, single cells, pairs, triples, and the complements of all these
fn cell_sets() -> &'static Vec<u128> {
    static V: OnceLock<Vec<u128>> = OnceLock::new();
    V.get_or_init(|| {
        let all = (1u128 << 81) - 1;
        let mut v = vec![0];
        for a in 0..81 {
            v.push(1 << a);
            for d in [1, 2, 9, 26, 63, 64, 80] {
                if a + d < 81 {
                    v.push(1 << a | 1 << (a + d));
                    v.push(1 << a | 1 << (a + d) | 1 << 40);
                }
            }
        }
        v.extend(v.clone().iter().map(|m| m ^ all));
        v.sort();
        v.dedup();
        v
    })
}
fn fams_cells(fams: &mut Vec<Family>) {
    ordered::<Set<Cell>>(fams, "Set<Cell>", cell_sets().len(), |k, o| {
        let m = cell_sets()[k];
        if o {
            (0..81).rev().filter(|c| m >> c & 1 == 1).fold(Set::NONE, |s, c| s | Cell::new(c))
        } else {
            Set::from_bits(m)
        }
    });
}

pub fn c29(t: Tier) -> Prop {
    let mut fams = vec![];
    // ---------------------------------------------------------- error messages
    let blocks = 0x110000u64 / 256;
    let every = t.pick(0x3000, 0x110000);
    fams.push(family(
        "entry_messages",
        format!("InvalidEntry for every Unicode scalar value x cells (all 81 for characters below U+{every:X}, two for each other one): the message names cell and character, no two messages are the same; position accessors"),
        blocks,
        move |i, c| {
            c.state_fp(mix(i));
            let chars: Vec<char> = (i * 256..i * 256 + 256).filter_map(|u| char::from_u32(u as u32)).collect();
            let mut all = vec![];
            for &ch in &chars {
                if (ch as u32) < every {
                    all.extend((0..81u8).map(|cell| InvalidEntry { cell, ch }));
                } else {
                    let a = (ch as u32 % 81) as u8;
                    all.extend([a, (a + 40) % 81].map(|cell| InvalidEntry { cell, ch }));
                }
            }
            for e in &all {
                let k = e.cell as usize;
                ensure!((e.row() as usize, e.col() as usize, e.block() as usize) == (row(k), col(k), blk(k)), "InvalidEntry for cell {k} reports row {}, column {}, block {}", e.row(), e.col(), e.block());
            }
            messages(all.iter().map(|&e| (e, Some(e.cell as usize), Some(e.ch))), c)?;
            messages(all.iter().map(|&e| (LineParseError::InvalidEntry(e), Some(e.cell as usize), Some(e.ch))), c)?;
            messages(all.iter().map(|&e| (BlockParseError::InvalidEntry(e), Some(e.cell as usize), Some(e.ch))), c)
        },
        |i| format!("characters U+{:X}..U+{:X}", i * 256, i * 256 + 255),
    ));
    fams.push(family(
        "counting_messages",
        "every error kind with a number x every number: the message names the number, no two messages are the same; kinds without a number: not empty, different from each other",
        7,
        |i, c| {
            c.state_fp(mix(77 + i));
            let all = 0..=255u8;
            match i {
                0 => messages(all.map(|n| (NotEnoughRows(n), Some(n as usize), None)), c),
                1 => messages(all.map(|n| (BlockParseError::NotEnoughRows(n), Some(n as usize), None)), c),
                2 => messages(all.map(|n| (BlockParseError::InvalidLineLength(n), Some(n as usize), None)), c),
                3 => messages(all.map(|n| (BlockParseError::MissingCommentDelimiter(n), Some(n as usize), None)), c),
                4 => messages(all.map(|n| (LineParseError::NotEnoughCells(n), Some(n as usize), None)), c),
                5 => {
                    let mut v = vec![];
                    for n in (0..2000).chain([4095, 4096, 65535, 65536, 65617]).filter(|&n| n != 81) {
                        if let Err(e) = Sudoku::from_bytes_slice(&vec![0; n]) {
                            v.push((e, Some(n), None));
                        }
                    }
                    messages(v.into_iter(), c)
                }
                _ => {
                    messages([BlockParseError::IncorrectFieldDelimiter, BlockParseError::TooManyRows, BlockParseError::NotEnoughRows(8), BlockParseError::InvalidLineLength(8), BlockParseError::MissingCommentDelimiter(8)].into_iter().map(|e| (e, None, None)), c)?;
                    messages([LineParseError::TooManyCells, LineParseError::MissingCommentDelimiter, LineParseError::NotEnoughCells(80)].into_iter().map(|e| (e, None, None)), c)?;
                    let mut g = [0; 81];
                    g[80] = 10;
                    messages(Sudoku::from_bytes(g).err().into_iter().map(|e| (e, None, None)), c)?;
                    messages(Sudoku::from_bytes_slice(&g).err().into_iter().map(|e| (e, None, None)), c)
                }
            }
        },
        |i| format!("kind {i}"),
    ));
    // ---------------------------------------------------------- comparison laws
    macro_rules! positions {
        ($($ty:ident $n:expr),*) => {$(
            ordered::<$ty>(&mut fams, stringify!($ty), $n, |k, _| $ty::new(k as u8));
        )*};
    }
    positions!(Cell 81, Row 9, Col 9, Block 9, Line 18, House 27, Band 3, Stack 3, Chute 6);
    positions!(MiniRow 27, MiniCol 27, MiniLine 54);
    ordered::<Digit>(&mut fams, "Digit", 9, |k, _| Digit::new(k as u8 + 1));
    ordered::<Candidate>(&mut fams, "Candidate", 729, |k, other| {
        let (c, d) = ((k / 9) as u8, (k % 9) as u8 + 1);
        if other {
            Candidate { cell: Cell::new(c), digit: Digit::new(d) }
        } else {
            Candidate::new(c, d)
        }
    });
    ordered::<Set<Digit>>(&mut fams, "Set<Digit>", 512, |k, o| if o { digits(k) } else { Set::from_bits(k as u16) });
    ordered::<Set<House>>(&mut fams, "Set<House>", 27 * 27, |k, o| {
        let (a, b) = (k / 27, k % 27);
        // at most two houses; or, for the other half, all but those
        let m = if a <= b { 1 << a | 1 << b } else { (1 << 27) - 1 ^ (1 << a | 1 << b) };
        if o {
            (0..27).filter(|i| m >> i & 1 == 1).fold(Set::NONE, |s, i| s | House::new(i))
        } else {
            Set::from_bits(m)
        }
    });
    fams_cells(&mut fams);
    let n = grids().len();
    ordered::<Sudoku>(&mut fams, "Sudoku", n, sudoku);
    ordered(&mut fams, "line form", n, |k, o| sudoku(k, o).to_str_line());
    ordered(&mut fams, "block form", n, |k, o| sudoku(k, o).display_block());
    hashed::<CellState>(&mut fams, "CellState", 521, |k, o| match k {
        0..=511 => CellState::Candidates(if o { digits(k) } else { Set::from_bits(k as u16) }),
        _ => CellState::Digit(Digit::new((k - 511) as u8)),
    });
    hashed::<InvalidEntry>(&mut fams, "InvalidEntry", 81 * 8, |k, _| InvalidEntry { cell: (k / 8) as u8, ch: ['a', '\n', ':', '/', 'ä', '\0', '\u{10ffff}', 'A'][k % 8] });
    hashed::<NotEnoughRows>(&mut fams, "NotEnoughRows", 256, |k, _| NotEnoughRows(k as u8));
    hashed::<BlockParseError>(&mut fams, "BlockParseError", 256 * 3 + 2 + 162, |k, _| match k {
        0..=255 => BlockParseError::NotEnoughRows(k as u8),
        256..=511 => BlockParseError::InvalidLineLength((k - 256) as u8),
        512..=767 => BlockParseError::MissingCommentDelimiter((k - 512) as u8),
        768 => BlockParseError::IncorrectFieldDelimiter,
        769 => BlockParseError::TooManyRows,
        _ => BlockParseError::InvalidEntry(InvalidEntry { cell: ((k - 770) / 2) as u8, ch: ['x', 'y'][k % 2] }),
    });
    hashed::<LineParseError>(&mut fams, "LineParseError", 256 + 2 + 162, |k, _| match k {
        0..=255 => LineParseError::NotEnoughCells(k as u8),
        256 => LineParseError::TooManyCells,
        257 => LineParseError::MissingCommentDelimiter,
        _ => LineParseError::InvalidEntry(InvalidEntry { cell: ((k - 258) / 2) as u8, ch: ['x', 'y'][k % 2] }),
    });
    hashed::<Symmetry>(&mut fams, "Symmetry", 10, |k, _| super::generation::SYMMETRIES[k]);
    fams.push(family(
        "cell_state_text",
        "every digit and every one of the 512 candidate sets x every width 0..=40: the text shows the digit, or the candidates in order, and is as long as its content or as the width if that is larger",
        521,
        |i, c| {
            let (v, digits): (CellState, String) = if i < 9 {
                (CellState::Digit(Digit::new(i as u8 + 1)), (i + 1).to_string())
            } else {
                let m = (i - 9) as u16;
                (CellState::Candidates(Set::from_bits(m)), (0..9).filter(|d| m >> d & 1 == 1).map(|d| (b'1' + d as u8) as char).collect())
            };
            c.state(&i.to_le_bytes());
            for w in 0..=40usize {
                c.step(1);
                let t = format!("{v:w$}");
                let shown: String = t.chars().filter(|x| x.is_ascii_digit()).collect();
                ensure!(shown == digits, "{v:?} with width {w} is printed as {t:?}");
                let content = t.trim().chars().count();
                ensure!(t.chars().count() == content.max(w), "{v:?} with width {w} is printed as {t:?}: {} characters", t.chars().count());
                ensure!(digits.is_empty() || content == digits.len(), "{v:?} with width {w} is printed as {t:?}");
            }
            ensure!(v.to_string() == format!("{v:0$}", 0), "{v:?} is printed differently with and without a width");
            c.trace();
            Ok(())
        },
        |i| format!("value {i} (0-8: digits, then candidate sets)"),
    ));
    // ---------------------------------------------------------- logs
    let starts: Arc<Vec<Grid>> = Arc::new(take(corpus::puzzles(), t.pick(60, 250)));
    let s2 = starts.clone();
    fams.push(family(
        "deductions",
        format!("the logs of {} puzzles under five strategy lists: deductions of all of them in pairs (equal exactly if all fields are; then equal hashes), logs in pairs (equal exactly if all their deductions are; the same run again gives an equal log)", starts.len()),
        starts.len() as u64,
        move |i, c| {
            let g = &s2[i as usize];
            c.state(g);
            let lists: [&[usize]; 5] = [&[0], &[0, 1, 2, 3, 4, 5, 6, 7, 8], &[1, 2, 9, 10], &[1, 12, 13, 3, 4], &[2, 1, 0, 6, 9, 12]];
            let run = |l: &[usize]| {
                let l: Vec<_> = l.iter().map(|&s| crate::strat::api(s)).collect();
                match StrategySolver::from_sudoku(su(g)).solve(&l) {
                    Ok((_, d)) | Err((_, d)) => d,
                }
            };
            let logs: Vec<_> = lists.iter().map(|l| run(l)).collect();
            let again: Vec<_> = lists.iter().map(|l| run(l)).collect();
            let keys: Vec<Vec<Key>> = logs.iter().map(|l| l.iter().map(|d| key(&d)).collect()).collect();
            for (a, (x, k)) in logs.iter().zip(&keys).enumerate() {
                for (b, y) in again.iter().enumerate() {
                    c.step(1);
                    // the internal representation of logs may hold more than what is reported: only what follows from equality is demanded of different runs
                    if a == b {
                        ensure!(x == y && hash(x) == hash(y), "the logs of two equal runs ({}) differ or have different hashes", crate::strat::names(lists[a]));
                    } else if x == y {
                        ensure!(*k == keys[b] && hash(x) == hash(y), "two logs are equal, but their deductions or hashes are not ({} and {})", crate::strat::names(lists[a]), crate::strat::names(lists[b]));
                    }
                }
                ensure!(*x == x.clone() && hash(x) == hash(&x.clone()), "a log differs from its copy");
            }
            let all: Vec<Deduction<&[Candidate]>> = logs.iter().flat_map(|l| l.iter()).collect();
            let keys: Vec<Key> = keys.into_iter().flatten().collect();
            for (x, kx) in all.iter().zip(&keys) {
                for (y, ky) in all.iter().zip(&keys) {
                    c.step(1);
                    ensure!((x == y) == (kx == ky) && (x != y) == (kx != ky), "{x:?} == {y:?} is {}", x == y);
                    ensure!(x != y || hash(x) == hash(y), "equal deductions {x:?} have different hashes");
                }
            }
            c.max("deductions_compared", all.len() as u64);
            c.trace();
            Ok(())
        },
        move |i| line(&starts[i as usize]),
    ));
    Prop {
        families: fams,
        assumptions: vec!["no particular wording of a message and no particular order of values other than sudokus is demanded".into()],
        rule: "a state is a value (or a batch of 256 characters); a transition is one message produced or one ordered pair compared; a trace is one batch, or one value compared with all others of its type".into(),
    }
}
