//! C24 bitsets, C25 geometry.
use crate::engine::*;
use crate::ensure;
use crate::model::{blk, col, houses, row};
use sudoku::bitset::{Empty, Set};
use sudoku::board::positions::*;
use sudoku::board::{Candidate, Cell, Digit};

fn bits_of(x: u128) -> impl Iterator<Item = usize> {
    (0..128).filter(move |&i| x >> i & 1 == 1)
}

macro_rules! set_checks {
    ($m:ident, $t:ty, $st:ty, $n:expr, $el:expr, $what:expr) => {
        mod $m {
            use super::*;
            pub const N: usize = $n;
            pub const FULL: u128 = (1 << $n) - 1;
            type S = Set<$t>;
            fn e(i: usize) -> $t {
                $el(i as u8)
            }
            fn s(x: u128) -> S {
                S::from_bits(x as $st)
            }
            fn raw(x: S) -> u128 {
                x.bits() as u128
            }
            /// iteration, size and raw bits of one set, against the reference set `x`
            pub fn light(x: u128, c: &mut Ctx) -> R {
                let v = s(x);
                c.step(6);
                ensure!(raw(v) == x, "Set<{}>::from_bits({x:#b}).bits() = {:#b}", $what, raw(v));
                let mut seen = 0u128;
                for el in v {
                    let i = el.as_index();
                    ensure!(i < N && seen >> i & 1 == 0, "iterating {x:#b} as Set<{}> yields element {i} twice or out of range", $what);
                    seen |= 1 << i;
                }
                ensure!(seen == x, "iterating {x:#b} as Set<{}> yields {seen:#b}", $what);
                ensure!(v.len() as u32 == x.count_ones(), "len() of {x:#b} as Set<{}> = {}", $what, v.len());
                ensure!(v.is_empty() == (x == 0), "is_empty() of {x:#b} as Set<{}> = {}", $what, v.is_empty());
                ensure!(v.is_full() == (x == FULL), "is_full() of {x:#b} as Set<{}> = {}", $what, v.is_full());
                ensure!(raw(!v) == FULL & !x, "!{x:#b} as Set<{}> = {:#b}", $what, raw(!v));
                Ok(())
            }
            pub fn unary(x: u128, c: &mut Ctx) -> R {
                light(x, c)?;
                c.trace();
                c.step(1 + 14 * N as u64);
                let v = s(x);
                let u = v.unique();
                let want = match x.count_ones() {
                    0 => Err(Empty),
                    1 => Ok(Some(e(x.trailing_zeros() as usize))),
                    _ => Ok(None),
                };
                ensure!(u == want, "unique() of {x:#b} as Set<{}> = {u:?}, expected {want:?}", $what);
                for i in 0..N {
                    let b = 1u128 << i;
                    let el = e(i);
                    let one = el.as_set();
                    ensure!(raw(one) == b && raw(S::from(el)) == b, "element {i} as Set<{}> is {:#b} / {:#b}", $what, raw(one), raw(S::from(el)));
                    let h = x & b != 0;
                    ensure!(v.contains(el) == h && v.contains(one) == h && v.overlaps(one) == h, "membership of {i} in {x:#b} as Set<{}>: contains(element) {}, contains(set) {}, overlaps {}", $what, v.contains(el), v.contains(one), v.overlaps(one));
                    let got = [raw(v | el), raw(v & el), raw(v ^ el), raw(v.without(one))];
                    let want = [x | b, x & b, x ^ b, x & !b];
                    ensure!(got == want, "{x:#b} with element {i} as Set<{}>: | & ^ without give {got:?}, expected {want:?}", $what);
                    let (mut p, mut q, mut r, mut t) = (v, v, v, v);
                    p |= el;
                    q &= el;
                    r ^= el;
                    t.remove(one);
                    let got = [raw(p), raw(q), raw(r), raw(t)];
                    ensure!(got == want, "{x:#b} with element {i} as Set<{}>: |= &= ^= remove give {got:?}, expected {want:?}", $what);
                }
                Ok(())
            }
            /// every way of walking through one set agrees with plain iteration
            pub fn walks(x: u128, c: &mut Ctx) -> R {
                let v = s(x);
                let all: Vec<usize> = v.into_iter().take(N + 1).map(|el| el.as_index()).collect();
                let n = all.len();
                ensure!(n as u32 == x.count_ones(), "iterating {x:#b} as Set<{}> yields {n} elements", $what);
                let mut it = v.into_iter();
                for k in 0..=n {
                    c.step(1);
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= n - k && hi.map_or(true, |hi| hi >= n - k), "iterating {x:#b} as Set<{}> announces {lo} to {hi:?} further elements after {k} of {n}", $what);
                    ensure!(it.clone().count() == n - k, "iterating {x:#b} as Set<{}>: count() is not {} after {k} elements", $what, n - k);
                    let last = it.clone().last().map(|el| el.as_index());
                    ensure!(last == if k < n { all.last().copied() } else { None }, "iterating {x:#b} as Set<{}>: last() after {k} elements is {last:?}", $what);
                    let mut folded = Vec::with_capacity(n);
                    it.clone().for_each(|el| folded.push(el.as_index()));
                    ensure!(folded == all[k..], "walking through {x:#b} as Set<{}> with for_each after {k} elements yields {folded:?}", $what);
                    let got = it.next().map(|el| el.as_index());
                    ensure!(got == all.get(k).copied(), "element {k} of {x:#b} as Set<{}> is {got:?}", $what);
                    let mut skip = v.into_iter();
                    let got = skip.nth(k).map(|el| el.as_index());
                    ensure!(got == all.get(k).copied(), "nth({k}) of {x:#b} as Set<{}> is {got:?}", $what);
                    let got = skip.next().map(|el| el.as_index());
                    ensure!(got == all.get(k + 1).copied(), "nth({k}) of {x:#b} as Set<{}> is followed by {got:?}", $what);
                }
                ensure!(it.next().is_none() && it.next().is_none(), "iterating {x:#b} as Set<{}> starts over at the end", $what);
                let text = format!("{v:b}");
                ensure!(u128::from_str_radix(&text, 2) == Ok(x), "the binary form of {x:#b} as Set<{}> is {text:?}", $what);
                Ok(())
            }
            #[inline]
            pub fn binary(x: u128, y: u128, c: &mut Ctx) -> R {
                c.step(12);
                let (a, b) = (s(x), s(y));
                let got = [raw(a | b), raw(a & b), raw(a ^ b), raw(a.without(b))];
                let want = [x | y, x & y, x ^ y, x & !y];
                ensure!(got == want, "{x:#b} with {y:#b} as Set<{}>: | & ^ without give {got:?}, expected {want:?}", $what);
                let (mut p, mut q, mut r, mut t) = (a, a, a, a);
                p |= b;
                q &= b;
                r ^= b;
                t.remove(b);
                let got = [raw(p), raw(q), raw(r), raw(t)];
                ensure!(got == want, "{x:#b} with {y:#b} as Set<{}>: |= &= ^= remove give {got:?}, expected {want:?}", $what);
                ensure!(a.overlaps(b) == (x & y != 0), "{x:#b} overlaps {y:#b} as Set<{}> = {}", $what, a.overlaps(b));
                ensure!(a.contains(b) == (x & y == y), "{x:#b} contains {y:#b} as Set<{}> = {}", $what, a.contains(b));
                ensure!((a == b) == (x == y), "{x:#b} == {y:#b} as Set<{}> = {}", $what, a == b);
                Ok(())
            }
            /// raw bits that must be refused (or accepted, when inside)
            pub fn raw_bits(x: u128, c: &mut Ctx) -> R {
                let y = x as $st;
                c.step(1);
                c.trace();
                let r = guarded(|| raw(S::from_bits(y)));
                let inside = (y as u128) & !FULL == 0;
                ensure!(r.is_ok() == inside, "Set<{}>::from_bits({y:#b}) is {}", $what, if inside { "refused" } else { "accepted" });
                Ok(())
            }
            pub fn constants() -> R {
                ensure!(raw(S::ALL) == FULL && raw(S::NONE) == 0, "Set<{}>::ALL = {:#b}, NONE = {:#b}", $what, raw(S::ALL), raw(S::NONE));
                Ok(())
            }
        }
    };
}
set_checks!(digit, Digit, u16, 9, |i: u8| Digit::new(i + 1), "Digit");
set_checks!(cellset, Cell, u128, 81, Cell::new, "Cell");
set_checks!(lineset, Line, u32, 18, Line::new, "Line");
set_checks!(houseset, House, u32, 27, House::new, "House");
set_checks!(pline, Position<Line>, u16, 9, Position::<Line>::new, "Position<Line>");
set_checks!(phouse, Position<House>, u16, 9, Position::<House>::new, "Position<House>");

/// raw values around and above the universe of `n` elements
fn raw_values(n: usize) -> Vec<u128> {
    let mut v = vec![0, u128::MAX];
    for i in 0..128 {
        v.push(1 << i);
        v.push((1 << i) - 1);
        for j in 0..n {
            v.push(1 << i | 1 << j);
        }
        v.push(1 << i | ((1 << n) - 1));
    }
    v
}
/// all subsets of the universe with at most k elements
fn small(n: usize, k: usize) -> Vec<u128> {
    crate::spaces::subsets(n, k).iter().map(|s| s.iter().fold(0, |m, &i| m | 1 << i)).collect()
}
fn intervals(n: usize) -> Vec<u128> {
    let mut v = vec![];
    for a in 0..n {
        for b in a..n {
            v.push(((1u128 << (b + 1 - a)) - 1) << a);
        }
    }
    v
}
fn with_complements(n: usize, v: Vec<u128>) -> Vec<u128> {
    let full = (1u128 << n) - 1;
    v.into_iter().flat_map(|x| [x, full & !x]).collect()
}

pub fn c24(t: Tier) -> Prop {
    let mut fams = vec![];
    macro_rules! nine {
        ($m:ident, $name:expr) => {
            fams.push(family(
                $name,
                "every one of the 512 sets, every pair of them (262144), every 16-bit raw value",
                512,
                |i, c| {
                    let x = i as u128;
                    if i == 0 {
                        $m::constants()?;
                    }
                    c.state_fp(mix(fp($name.as_bytes()) ^ i));
                    $m::unary(x, c)?;
                    $m::walks(x, c)?;
                    for y in 0..512 {
                        c.trace();
                        $m::binary(x, y, c)?;
                    }
                    for y in 0..128 {
                        $m::raw_bits(x * 128 + y, c)?;
                    }
                    Ok(())
                },
                |i| format!("{} {i:#b}", $name),
            ));
        };
    }
    nine!(digit, "Digit");
    nine!(pline, "Position<Line>");
    nine!(phouse, "Position<House>");

    macro_rules! large {
        ($m:ident, $name:expr, $unary_all:expr, $kpair:expr, $kun:expr) => {{
            if let Some(chunk) = $unary_all {
                let chunk: u64 = chunk;
                let total = 1u64 << $m::N;
                let deep = $m::N <= 18 || t == Tier::Thorough;
                fams.push(family(
                    &format!("{}_all", $name),
                    format!("every one of the 2^{} sets: {}", $m::N, if deep { "every unary operation and every operation with a single element" } else { "iteration, size, emptiness, fullness, complement, raw bits" }),
                    total / chunk,
                    move |i, c| {
                        if $m::N <= 18 {
                            c.state_fp(mix(fp($name.as_bytes()) ^ i << 8));
                        }
                        for x in i * chunk..(i + 1) * chunk {
                            if deep {
                                if $m::N <= 18 {
                                    $m::walks(x as u128, c)?
                                }
                                $m::unary(x as u128, c)?
                            } else {
                                c.traces += 1;
                                $m::light(x as u128, c)?
                            }
                        }
                        Ok(())
                    },
                    move |i| format!("{} sets from {:#b} to {:#b}", $name, i * chunk, (i + 1) * chunk - 1),
                ));
            }
            let u = std::sync::Arc::new(with_complements($m::N, [small($m::N, $kun), intervals($m::N)].concat()));
            let u2 = u.clone();
            fams.push(family(
                &format!("{}_unary", $name),
                format!("every set of at most {} elements, every interval, and the complements of these: all unary operations and all operations with one element", $kun),
                u.len() as u64,
                move |i, c| {
                    let x = u[i as usize];
                    if i == 0 {
                        $m::constants()?;
                    }
                    c.state_fp(mix(fp($name.as_bytes()) ^ fp(&x.to_le_bytes())));
                    $m::walks(x, c)?;
                    $m::unary(x, c)
                },
                move |i| format!("{} {:#b}", $name, u2[i as usize]),
            ));
            let mut p = [small($m::N, $kpair), intervals($m::N)].concat();
            if $m::N == 81 {
                // the cells of every house, chute and miniline
                p.extend(houses().iter().map(|h| h.iter().fold(0u128, |m, &c| m | 1 << c)));
            }
            let p = std::sync::Arc::new(with_complements($m::N, p));
            let p2 = p.clone();
            fams.push(family(
                &format!("{}_pairs", $name),
                format!("every pair of sets among the sets of at most {} elements, the intervals{} and their complements ({} sets): every binary operation", $kpair, if $m::N == 81 { ", the houses" } else { "" }, p.len()),
                p.len() as u64,
                move |i, c| {
                    for &y in p.iter() {
                        $m::binary(p[i as usize], y, c)?;
                    }
                    c.traces += p.len() as u64;
                    Ok(())
                },
                move |i| format!("{} {:#b} with every other", $name, p2[i as usize]),
            ));
            let r = raw_values($m::N);
            let r2 = r.clone();
            fams.push(family(
                &format!("{}_raw", $name),
                "raw values with every single bit, every pair of a bit and a member, all-below-a-bit",
                r.len() as u64,
                move |i, c| $m::raw_bits(r[i as usize], c),
                move |i| format!("{} raw {:#b}", $name, r2[i as usize]),
            ));
        }};
    }
    large!(lineset, "Line", Some(256), t.pick(3, 4), 5);
    large!(houseset, "House", Some(1 << 14), t.pick(2, 3), t.pick(4, 6));
    large!(cellset, "Cell", None::<u64>, t.pick(2, 2), t.pick(3, 4));
    fams.push(family(
        "as_line_set",
        "every Set<Position<House>> converted to Set<Position<Line>>",
        512,
        |i, c| {
            c.step(1);
            c.trace();
            let s = Set::<Position<House>>::from_bits(i as u16).as_line_set();
            ensure!(s.bits() == i as u16, "as_line_set() of {i:#b} is {:#b}", s.bits());
            Ok(())
        },
        |i| format!("{i:#b}"),
    ));
    Prop { families: fams, assumptions: vec!["sets of cells (2^81) are covered up to the stated sizes".into()], rule: "a state is a distinct set (raw value and type; of the 2^27 house sets and 2^18 line sets only a block is counted as one); a transition is one set operation; a trace is one set or pair of sets compared completely".into() }
}

// ------------------------------------------------------------------ C25

fn mask(f: impl Fn(usize, usize) -> bool) -> u128 {
    (0..81).filter(|&c| f(row(c), col(c))).fold(0, |m, c| m | 1 << c)
}

/// each grouping type: (name, limit, definition of membership)
fn groupings() -> Vec<(&'static str, usize, fn(usize) -> u128)> {
    fn line(n: usize) -> u128 {
        if n < 9 {
            mask(|r, _| r == n)
        } else {
            mask(|_, c| c == n - 9)
        }
    }
    fn house(n: usize) -> u128 {
        if n < 18 {
            line(n)
        } else {
            mask(|r, c| r / 3 * 3 + c / 3 == n - 18)
        }
    }
    fn minirow(n: usize) -> u128 {
        mask(|r, c| r == n / 3 && c / 3 == n % 3)
    }
    fn minicol(n: usize) -> u128 {
        mask(|r, c| c == n / 3 && r / 3 == n % 3)
    }
    vec![
        ("Cell", 81, |n| 1 << n),
        ("Row", 9, |n| mask(|r, _| r == n)),
        ("Col", 9, |n| mask(|_, c| c == n)),
        ("Block", 9, |n| house(18 + n)),
        ("Line", 18, line),
        ("House", 27, house),
        ("MiniRow", 27, minirow),
        ("MiniCol", 27, minicol),
        ("MiniLine", 54, |n| if n < 27 { minirow(n) } else { minicol(n - 27) }),
        ("Band", 3, |n| mask(|r, _| r / 3 == n)),
        ("Stack", 3, |n| mask(|_, c| c / 3 == n)),
        ("Chute", 6, |n| if n < 3 { mask(|r, _| r / 3 == n) } else { mask(|_, c| c / 3 == n - 3) }),
    ]
}
fn def(name: &str, n: usize) -> u128 {
    groupings().iter().find(|g| g.0 == name).unwrap().2(n)
}

macro_rules! numbered {
    ($t:ident, $i:expr, $c:expr) => {{
        let (name, limit, members) = groupings().into_iter().find(|g| g.0 == stringify!($t)).unwrap();
        let n = $i as usize;
        $c.step(1);
        let x = $t::new_checked(n as u8);
        ensure!(x.is_some() == (n < limit), "{name}::new_checked({n}) = {x:?}");
        let y = guarded(|| $t::new(n as u8)).ok();
        ensure!(x == y, "{name}::new({n}) {}", y.map_or("panics".into(), |y| format!("= {y:?}")));
        if let Some(x) = x {
            $c.step(5);
            $c.trace();
            ensure!(x == $t::new(n as u8) && x.get() as usize == n && x.as_index() == n, "{name} {n}: get() = {}, as_index() = {}", x.get(), x.as_index());
            ensure!(x.cells().bits() == members(n), "{name} {n} consists of the cells {:?}, expected {:?}", bits_of(x.cells().bits()).collect::<Vec<_>>(), bits_of(members(n)).collect::<Vec<_>>());
            let it: Vec<usize> = x.cells().into_iter().map(|c| c.as_index()).collect();
            let mut sorted = it.clone();
            sorted.sort();
            ensure!(sorted == bits_of(members(n)).collect::<Vec<_>>(), "iterating the cells of {name} {n} gives {it:?}");
            for m in 0..limit {
                let y = $t::new(m as u8);
                ensure!((x == y) == (n == m) && x.cmp(&y) == n.cmp(&m), "comparison of {name} {n} and {m}");
            }
        }
        if n == 0 {
            let mut all: Vec<usize> = $t::all().map(|x| x.as_index()).collect();
            all.sort();
            ensure!(all == (0..limit).collect::<Vec<_>>(), "{name}::all() yields {all:?}");
        }
    }};
}

macro_rules! addressed {
    ($t:ident, $i:expr, $c:expr) => {{
        let name = stringify!($t);
        let limit = groupings().iter().find(|g| g.0 == name).unwrap().1;
        let (n, p) = ($i as usize / 9, $i as usize % 9);
        if n < limit {
            $c.step(1);
            $c.trace();
            let x = $t::new(n as u8);
            let pos = Position::<$t>::new(p as u8);
            ensure!(pos.get() as usize == p && pos.as_index() == p, "Position<{name}>::new({p}) holds {}", pos.get());
            let got = x.cell_at(pos).as_index();
            let h = if name == "Col" { 9 + n } else if name == "Block" { 18 + n } else { n };
            let want = houses()[h][p];
            ensure!(got == want, "{name} {n} position {p} is cell {got}, expected {want}");
        }
    }};
}

pub fn c25(_: Tier) -> Prop {
    let mut fams = vec![family(
        "numbers",
        "12 position types x every number 0..=255 (candidates: every pair of numbers): construction, refusal (checked constructors) and panic (the others) exactly outside the range, accessors, members, order, equality; all()",
        256,
        |i, c| {
            c.state_fp(mix(i));
            numbered!(Cell, i, c);
            numbered!(Row, i, c);
            numbered!(Col, i, c);
            numbered!(Block, i, c);
            numbered!(Line, i, c);
            numbered!(House, i, c);
            numbered!(MiniRow, i, c);
            numbered!(MiniCol, i, c);
            numbered!(MiniLine, i, c);
            numbered!(Band, i, c);
            numbered!(Stack, i, c);
            numbered!(Chute, i, c);
            let d = Digit::new_checked(i as u8);
            ensure!(d.is_some() == (1..=9).contains(&i), "Digit::new_checked({i}) = {d:?}");
            let y = guarded(|| Digit::new(i as u8)).ok();
            ensure!(d == y, "Digit::new({i}) {}", y.map_or("panics".into(), |y| format!("= {y:?}")));
            for d in 0..=255 {
                c.step(1);
                let y = guarded(|| Candidate::new(i as u8, d)).ok();
                ensure!(y.is_some() == (i < 81 && (1..=9).contains(&d)), "Candidate::new({i}, {d}) {}", y.map_or("panics".into(), |y| format!("= {y:?}")));
            }
            if let Some(d) = d {
                ensure!(d.get() as u64 == i && d.as_index() as u64 == i - 1 && d == Digit::new(i as u8), "Digit {i}: get() = {}, as_index() = {}", d.get(), d.as_index());
            } else if i == 0 {
                let mut all: Vec<u8> = Digit::all().map(|d| d.get()).collect();
                all.sort();
                ensure!(all == (1..=9).collect::<Vec<_>>(), "Digit::all() yields {all:?}");
            }
            Ok(())
        },
        |i| format!("number {i}"),
    )];
    fams.push(family(
        "cells",
        "every cell: its row, column, block, band, stack and positions in them; CellAt inverts them",
        81,
        |i, c| {
            let n = i as usize;
            let x = Cell::new(i as u8);
            c.state_fp(mix(1000 + i));
            c.step(16);
            c.trace();
            let (r, k, b) = (row(n), col(n), blk(n));
            ensure!(x.row().as_index() == r && Row::from(x).as_index() == r, "row of cell {n} is {}", x.row().get());
            ensure!(x.col().as_index() == k && Col::from(x).as_index() == k, "column of cell {n} is {}", x.col().get());
            ensure!(x.block().as_index() == b && Block::from(x).as_index() == b, "block of cell {n} is {}", x.block().get());
            ensure!(Band::from(x).as_index() == r / 3 && Stack::from(x).as_index() == k / 3, "band {} / stack {} of cell {n}", Band::from(x).get(), Stack::from(x).get());
            let (pr, pc, pb) = (Position::<Row>::from(x), Position::<Col>::from(x), Position::<Block>::from(x));
            ensure!(x.row().cell_at(pr) == x && x.col().cell_at(pc) == x && x.block().cell_at(pb) == x, "cell {n} is not at its own positions {} {} {}", pr.get(), pc.get(), pb.get());
            ensure!(pr.as_index() == k && pc.as_index() == r && pb.as_index() == r % 3 * 3 + k % 3, "positions of cell {n}: {} {} {}", pr.get(), pc.get(), pb.get());
            ensure!(Position::<Band>::from(x).as_index() == r % 3 * 9 + k, "position of cell {n} in its band: {}", Position::<Band>::from(x).get());
            ensure!(Line::from(x.row()).cell_at(pr.into()) == x && Line::from(x.col()).cell_at(pc.into()) == x, "cell {n} through its lines");
            ensure!(House::from(x.row()).cell_at(pr.into()) == x && House::from(x.col()).cell_at(pc.into()) == x && House::from(x.block()).cell_at(pb.into()) == x, "cell {n} through its houses");
            for d in 1..=9 {
                let cd = Candidate::new(i as u8, d);
                ensure!(cd.cell == x && cd.digit.get() == d && cd.row() == x.row() && cd.col() == x.col() && cd.block() == x.block(), "Candidate::new({n}, {d}) is {cd:?}");
            }
            Ok(())
        },
        |i| format!("cell {i}"),
    ));
    fams.push(family(
        "positions",
        "every position of every row, column, block, line and house",
        27 * 9,
        |i, c| {
            c.state_fp(mix(2000 + i));
            addressed!(Row, i, c);
            addressed!(Col, i, c);
            addressed!(Block, i, c);
            addressed!(Line, i, c);
            addressed!(House, i, c);
            Ok(())
        },
        |i| format!("number {} position {}", i / 9, i % 9),
    ));
    fams.push(family(
        "position_sets",
        "cells_at for every set of positions of every line and house",
        27 * 512,
        |i, c| {
            let (n, s) = (i as usize / 512, (i % 512) as u16);
            c.state_fp(mix(5000 + i));
            c.trace();
            c.step(2);
            let want = bits_of(s as u128).fold(0u128, |m, p| m | 1 << houses()[n][p]);
            let got = House::new(n as u8).cells_at(Set::from_bits(s)).bits();
            ensure!(got == want, "house {n}, positions {s:#b}: cells {got:#b}, expected {want:#b}");
            if n < 18 {
                let got = Line::new(n as u8).cells_at(Set::from_bits(s)).bits();
                ensure!(got == want, "line {n}, positions {s:#b}: cells {got:#b}, expected {want:#b}");
            }
            Ok(())
        },
        |i| format!("house {} positions {:#b}", i / 512, i % 512),
    ));
    fams.push(family(
        "conversions",
        "every conversion and categorization between the grouping types: the members stay the same, and back and forth is the identity",
        54,
        |i, c| {
            let n = i as u8;
            let k = i as usize;
            c.state_fp(mix(3000 + i));
            c.trace();
            c.step(12);
            if k < 9 {
                let (r, q, b) = (Row::new(n), Col::new(n), Block::new(n));
                ensure!(Line::from(r).cells().bits() == def("Row", k) && House::from(r).cells().bits() == def("Row", k), "row {k} as line {} / house {}", Line::from(r).get(), House::from(r).get());
                ensure!(Line::from(q).cells().bits() == def("Col", k) && House::from(q).cells().bits() == def("Col", k), "column {k} as line {} / house {}", Line::from(q).get(), House::from(q).get());
                ensure!(House::from(b).cells().bits() == def("Block", k), "block {k} as house {}", House::from(b).get());
                ensure!(Line::from(r).categorize() == LineType::Row(r) && House::from(r).categorize() == HouseType::Row(r), "categorize() of row {k}");
                ensure!(Line::from(q).categorize() == LineType::Col(q) && House::from(q).categorize() == HouseType::Col(q), "categorize() of column {k}");
                ensure!(House::from(b).categorize() == HouseType::Block(b), "categorize() of block {k}");
                for (a, b) in [
                    (Position::<Line>::from(Position::<Row>::new(n)).get(), n),
                    (Position::<Line>::from(Position::<Col>::new(n)).get(), n),
                    (Position::<House>::from(Position::<Row>::new(n)).get(), n),
                    (Position::<House>::from(Position::<Col>::new(n)).get(), n),
                    (Position::<House>::from(Position::<Line>::new(n)).get(), n),
                    (Position::<House>::from(Position::<Block>::new(n)).get(), n),
                ] {
                    ensure!(a == b, "position {b} becomes {a} by conversion");
                }
            }
            if k < 18 {
                let l = Line::new(n);
                ensure!(House::from(l).cells().bits() == def("Line", k), "line {k} as house {}", House::from(l).get());
                let m = match l.categorize() {
                    LineType::Row(r) => ("Row", r.as_index(), r.cells().bits()),
                    LineType::Col(q) => ("Col", q.as_index(), q.cells().bits()),
                };
                ensure!(m.2 == def("Line", k) && (m.0 == "Row") == (k < 9), "line {k} is categorized as {} {}", m.0, m.1);
            }
            if k < 27 {
                let m = match House::new(n).categorize() {
                    HouseType::Row(x) => ("Row", x.as_index(), x.cells().bits()),
                    HouseType::Col(x) => ("Col", x.as_index(), x.cells().bits()),
                    HouseType::Block(x) => ("Block", x.as_index(), x.cells().bits()),
                };
                ensure!(m.2 == def("House", k) && m.0 == ["Row", "Col", "Block"][k / 9], "house {k} is categorized as {} {}", m.0, m.1);
            }
            if k < 3 {
                let (b, s) = (Band::new(n), Stack::new(n));
                ensure!(Chute::from(b).cells().bits() == def("Band", k) && Chute::from(b).categorize() == ChuteType::Band(b), "band {k} as chute {}", Chute::from(b).get());
                ensure!(Chute::from(s).cells().bits() == def("Stack", k) && Chute::from(s).categorize() == ChuteType::Stack(s), "stack {k} as chute {}", Chute::from(s).get());
            }
            if k < 6 {
                let m = match Chute::new(n).categorize() {
                    ChuteType::Band(x) => ("Band", x.cells().bits()),
                    ChuteType::Stack(x) => ("Stack", x.cells().bits()),
                };
                ensure!(m.1 == def("Chute", k) && (m.0 == "Band") == (k < 3), "chute {k} is categorized as a {}", m.0);
            }
            let m = match MiniLine::new(n).categorize() {
                MiniLineType::MiniRow(x) => ("MiniRow", x.cells().bits()),
                MiniLineType::MiniCol(x) => ("MiniCol", x.cells().bits()),
            };
            ensure!(m.1 == def("MiniLine", k) && (m.0 == "MiniRow") == (k < 27), "miniline {k} is categorized as a {}", m.0);
            Ok(())
        },
        |i| format!("number {i}"),
    ));
    Prop { families: fams, assumptions: vec![], rule: "a state is a number (or number and position) of a type; a transition is one call; a trace is one value compared completely with the definition. The space is finite and covered completely".into() }
}
