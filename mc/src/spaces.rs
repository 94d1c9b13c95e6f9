//! Finite, index-addressed spaces of grids. Every space is enumerated completely by the checks.
use crate::corpus;
use crate::model::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct GridSpace {
    pub name: String,
    pub about: String,
    pub n: u64,
    pub at: Arc<dyn Fn(u64) -> Grid + Send + Sync>,
}

fn space(name: &str, about: String, n: u64, at: impl Fn(u64) -> Grid + Send + Sync + 'static) -> GridSpace {
    GridSpace { name: name.into(), about, n, at: Arc::new(at) }
}

/// all subsets of `0..n` with at most `k` elements, smallest first
pub fn subsets(n: usize, k: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    fn rec(start: usize, n: usize, k: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in start..n {
            cur.push(i as u8);
            rec(i + 1, n, k - 1, cur, out);
            cur.pop();
        }
    }
    for s in 0..=k {
        rec(0, n, s, &mut vec![], &mut out);
    }
    out
}

/// unit 0..27: house; 27..36: all cells of one digit
pub fn in_unit(u: usize, c: usize, g: &Grid) -> bool {
    match u {
        0..=8 => row(c) == u,
        9..=17 => col(c) == u - 9,
        18..=26 => blk(c) == u - 18,
        _ => g[c] as usize == u - 26,
    }
}

/// Solved grids with every set of at most `k` units blanked.
pub fn units(solved: Vec<Grid>, k: usize) -> GridSpace {
    let subs = subsets(36, k);
    let n = (solved.len() * subs.len()) as u64;
    let about = format!("{} solved grids x every set of at most {k} of the 36 units (9 rows, 9 columns, 9 blocks, 9 digits) blanked", solved.len());
    space(&format!("units{k}"), about, n, move |i| {
        let g = solved[i as usize / subs.len()];
        let mut o = g;
        for &u in &subs[i as usize % subs.len()] {
            for c in 0..81 {
                if in_unit(u as usize, c, &g) {
                    o[c] = 0;
                }
            }
        }
        o
    })
}

/// Every edit of at most two clues: none, remove 1, remove 2, change 1, add 1 (and optionally change 1 + remove 1).
pub fn edits(name: &str, bases: Vec<Grid>, deep: bool) -> GridSpace {
    // per base: offsets
    let mut starts = vec![0u64];
    let mut info = vec![];
    for b in &bases {
        let full: Vec<usize> = (0..81).filter(|&c| b[c] != 0).collect();
        let empty: Vec<usize> = (0..81).filter(|&c| b[c] == 0).collect();
        let (k, e) = (full.len() as u64, empty.len() as u64);
        let parts = [1, k, k * (k.max(1) - 1) / 2, 8 * k, 9 * e, if deep { 8 * k * k } else { 0 }];
        starts.push(starts.last().unwrap() + parts.iter().sum::<u64>());
        info.push((full, empty, parts));
    }
    let n = *starts.last().unwrap();
    let about = format!(
        "{} puzzles x every edit: none, one clue removed, two clues removed, one clue changed to every other digit, every digit added in every empty cell{}",
        bases.len(),
        if deep { ", one clue changed and one removed" } else { "" }
    );
    space(name, about, n, move |i| {
        let b = starts.partition_point(|&s| s <= i) - 1;
        let mut o = bases[b];
        let (full, empty, parts) = &info[b];
        let mut j = i - starts[b];
        let mut kind = 0;
        while j >= parts[kind] {
            j -= parts[kind];
            kind += 1;
        }
        let other = |old: u8, k: u64| if (k as u8 + 1) < old { k as u8 + 1 } else { k as u8 + 2 };
        match kind {
            0 => {}
            1 => o[full[j as usize]] = 0,
            2 => {
                let (mut a, mut j) = (0u64, j);
                let k = full.len() as u64;
                while j >= k - 1 - a {
                    j -= k - 1 - a;
                    a += 1;
                }
                o[full[a as usize]] = 0;
                o[full[(a + 1 + j) as usize]] = 0;
            }
            3 => {
                let c = full[j as usize / 8];
                o[c] = other(o[c], j % 8);
            }
            4 => o[empty[j as usize / 9]] = (j % 9) as u8 + 1,
            _ => {
                let k = full.len() as u64;
                let c = full[(j / 8 / k) as usize];
                o[c] = other(o[c], j % 8);
                let r = full[(j / 8 % k) as usize];
                if r != c {
                    o[r] = 0;
                }
            }
        }
        o
    })
}

/// All grids with at most two clues.
pub fn sparse2() -> GridSpace {
    let n = 1 + 729 + 3240 * 81;
    space("sparse2", "every grid with at most two clues (all cells, all digits; includes the contradictory ones)".into(), n, |i| {
        let mut g = [0; 81];
        if i == 0 {
            return g;
        }
        if i < 730 {
            g[(i as usize - 1) / 9] = ((i - 1) % 9) as u8 + 1;
            return g;
        }
        let j = i - 730;
        let (d, mut p) = (j % 81, j / 81);
        let mut a = 0;
        while p >= 80 - a {
            p -= 80 - a;
            a += 1;
        }
        g[a as usize] = (d / 9) as u8 + 1;
        g[(a + 1 + p) as usize] = (d % 9) as u8 + 1;
        g
    })
}

/// Numbers the pairs (0..3240) and triples (0..85320) of different cells.
pub fn pair81(i: u64) -> (usize, usize) {
    let mut b = 1;
    while b * (b + 1) / 2 <= i {
        b += 1;
    }
    ((i - b * (b - 1) / 2) as usize, b as usize)
}
pub fn triple81(i: u64) -> [usize; 3] {
    let mut c = 2;
    while (c + 1) * c * (c - 1) / 6 <= i {
        c += 1;
    }
    let (a, b) = pair81(i - c * (c - 1) * (c - 2) / 6);
    [a, b, c as usize]
}

/// Solved grids with every three cells replaced by every triple of values (0 = erased).
pub fn full3(solved: Vec<Grid>) -> GridSpace {
    let n = solved.len() as u64 * 85_320 * 1000;
    let about = format!("{} solved grids x every three cells x every triple of values 0-9", solved.len());
    space("full3", about, n, move |i| {
        let mut g = solved[(i / 85_320_000) as usize];
        let mut v = i % 1000;
        for p in triple81(i % 85_320_000 / 1000) {
            g[p] = (v % 10) as u8;
            v /= 10;
        }
        g
    })
}

/// Solved grids with every pair of cells replaced by every pair of values (0 = erased).
pub fn full2(solved: Vec<Grid>) -> GridSpace {
    let n = solved.len() as u64 * 3240 * 100;
    let about = format!("{} solved grids x every pair of cells x every pair of values 0-9 (erased, wrong and right entries)", solved.len());
    space("full2", about, n, move |i| {
        let mut g = solved[(i / 324_000) as usize];
        let (v, mut p) = (i % 100, i % 324_000 / 100);
        let mut a = 0;
        while p >= 80 - a {
            p -= 80 - a;
            a += 1;
        }
        g[a as usize] = (v / 10) as u8;
        g[(a + 1 + p) as usize] = (v % 10) as u8;
        g
    })
}

/// In one band (or stack) every subset of minirows blanked; outside it the cells of up to `nd` digits blanked.
pub fn band_patterns(solved: Vec<Grid>, nd: usize, stacks: bool) -> GridSpace {
    let ds: Vec<Vec<u8>> = subsets(9, nd).into_iter().filter(|s| s.len() == nd).collect();
    let o = if stacks { 6 } else { 3 };
    let per = 512 * o * ds.len() as u64;
    let n = solved.len() as u64 * per;
    let about = format!(
        "{} solved grids x every {} x every subset of its 9 {} blanked (512) x every set of {nd} digits blanked in the rest of the grid",
        solved.len(),
        if stacks { "band or stack" } else { "band" },
        if stacks { "minirows/minicolumns" } else { "minirows" }
    );
    space(&format!("bandpat{nd}"), about, n, move |i| {
        let g = solved[(i / per) as usize];
        let j = i % per;
        let s = j % 512;
        let b = (j / 512 % o) as usize;
        let d = &ds[(j / 512 / o) as usize];
        let mut out = g;
        for c in 0..81 {
            let (r, k) = if b < 3 { (row(c), col(c)) } else { (col(c), row(c)) };
            if r / 3 == b % 3 {
                if s >> (r % 3 * 3 + k / 3) & 1 == 1 {
                    out[c] = 0;
                }
            } else if d.contains(&(g[c] - 1)) {
                out[c] = 0;
            }
        }
        out
    })
}

/// Solved grids with all clues of every set of at most 4 digits removed, puzzles with all clues of every set of at
/// most 3 digits removed (few distinct digits).
pub fn few_digits(bases: Vec<Grid>, k: usize) -> GridSpace {
    let subs = subsets(9, k);
    let n = (bases.len() * subs.len()) as u64;
    let about = format!("{} grids x every set of at most {k} digits removed everywhere", bases.len());
    space(&format!("fewdigits{k}"), about, n, move |i| {
        let mut g = bases[i as usize / subs.len()];
        let s = &subs[i as usize % subs.len()];
        for c in 0..81 {
            if g[c] != 0 && s.contains(&(g[c] - 1)) {
                g[c] = 0;
            }
        }
        g
    })
}

/// Solved grids: for every house pair the cells of the two houses that do not hold one of three kept digits... and
/// every prefix of the grid in reading order, column order and block order kept.
pub fn prefixes(solved: Vec<Grid>) -> GridSpace {
    let n = solved.len() as u64 * 6 * 82;
    let about = format!("{} solved grids x 6 cell orders (rows, columns, blocks, each forwards and backwards) x every prefix length 0..=81 blanked", solved.len());
    space("prefixes", about, n, move |i| {
        let mut g = solved[(i / 492) as usize];
        let (o, len) = ((i % 492 / 82) as usize, (i % 82) as usize);
        for k in 0..len {
            let k = if o % 2 == 1 { 80 - k } else { k };
            let c = match o / 2 {
                0 => k,
                1 => k % 9 * 9 + k / 9,
                _ => houses()[18 + k / 9][k % 9],
            };
            g[c] = 0;
        }
        g
    })
}

/// Images of base grids under every row permutation x transposition (2 x 1296), every column permutation
/// (1296) and 9 x 8 digit transpositions.
pub fn images(name: &str, bases: Vec<Grid>) -> GridSpace {
    let per = 2 * 1296 + 1296 + 72;
    let n = bases.len() as u64 * per;
    let about = format!("{} grids x (2 x 1296 row permutations with/without transposition, 1296 column permutations, 72 digit transpositions)", bases.len());
    space(name, about, n, move |i| image(&bases[(i / per) as usize], i % per).0)
}
pub fn image(g: &Grid, j: u64) -> (Grid, [usize; 81], [u8; 10]) {
    let mut d = ID_DIGITS;
    let src = if j < 2592 {
        positional(j as usize)
    } else if j < 2592 + 1296 {
        positional(2 * 1296 * (j as usize - 2592))
    } else {
        let k = (j - 3888) as usize;
        d.swap(k / 8 + 1, if k % 8 < k / 8 { k % 8 + 1 } else { k % 8 + 2 });
        positional(0)
    };
    (apply(&src, &d, g), src, d)
}

pub fn take(v: &[Grid], n: usize) -> Vec<Grid> {
    // evenly spread selection, deterministic
    if n >= v.len() {
        return v.to_vec();
    }
    (0..n).map(|i| v[i * v.len() / n]).collect()
}
pub fn explicit(name: &str, about: &str, v: Vec<Grid>) -> GridSpace {
    space(name, format!("{about} ({})", v.len()), v.len() as u64, move |i| v[i as usize])
}
/// every base grid once
pub fn bases() -> GridSpace {
    let mut v = corpus::puzzles().clone();
    v.extend(corpus::solved().iter().copied());
    v.extend(corpus::invalid().iter().copied());
    explicit("bases", "all embedded puzzles, their solutions and the contradictory grids", v)
}
