//! Reference model: board geometry from arithmetic, a plain backtracking solver, the group of
//! validity-preserving transformations, and the canonical form by enumeration. Deliberately boring and
//! independent of the implementation (no code of the `sudoku` crate is used here).

use std::sync::OnceLock;

pub type Grid = [u8; 81];

pub fn row(c: usize) -> usize {
    c / 9
}
pub fn col(c: usize) -> usize {
    c % 9
}
pub fn blk(c: usize) -> usize {
    c / 27 * 3 + c % 9 / 3
}

/// houses 0..9 rows, 9..18 columns, 18..27 blocks; cells in reading order
pub fn houses() -> &'static [[usize; 9]; 27] {
    static H: OnceLock<[[usize; 9]; 27]> = OnceLock::new();
    H.get_or_init(|| {
        let mut h = [[0; 9]; 27];
        for i in 0..9 {
            for k in 0..9 {
                h[i][k] = i * 9 + k;
                h[9 + i][k] = k * 9 + i;
                h[18 + i][k] = (i / 3 * 3 + k / 3) * 9 + i % 3 * 3 + k % 3;
            }
        }
        h
    })
}
pub fn sees(a: usize, b: usize) -> bool {
    a != b && (row(a) == row(b) || col(a) == col(b) || blk(a) == blk(b))
}
pub fn peers() -> &'static [[usize; 20]; 81] {
    static P: OnceLock<[[usize; 20]; 81]> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = [[0; 20]; 81];
        for c in 0..81 {
            let mut k = 0;
            for d in 0..81 {
                if sees(c, d) {
                    p[c][k] = d;
                    k += 1;
                }
            }
            assert_eq!(k, 20);
        }
        p
    })
}

pub fn parse(s: &str) -> Grid {
    let mut g = [0u8; 81];
    let mut n = 0;
    for ch in s.chars() {
        let v = match ch {
            '1'..='9' => ch as u8 - b'0',
            '.' | '0' | '_' => 0,
            _ => continue,
        };
        g[n] = v;
        n += 1;
    }
    assert_eq!(n, 81, "bad embedded grid {s}");
    g
}
pub fn line(g: &Grid) -> String {
    g.iter().map(|&d| if d == 0 { '.' } else { (b'0' + d) as char }).collect()
}
pub fn clues(g: &Grid) -> usize {
    g.iter().filter(|&&d| d != 0).count()
}

/// complete and every house holds every digit once
pub fn is_valid_full(g: &Grid) -> bool {
    houses().iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            if !(1..=9).contains(&g[c]) {
                return false;
            }
            m |= 1 << g[c];
        }
        m == 0b11_1111_1110
    })
}
/// no two equal clues in a house
pub fn is_consistent(g: &Grid) -> bool {
    houses().iter().all(|h| {
        let mut m = 0u16;
        for &c in h {
            if g[c] != 0 {
                if m & 1 << g[c] != 0 {
                    return false;
                }
                m |= 1 << g[c];
            }
        }
        true
    })
}
pub fn extends(full: &Grid, clues: &Grid) -> bool {
    full.iter().zip(clues.iter()).all(|(&f, &c)| c == 0 || c == f)
}

// ---------------------------------------------------------------- reference solver

#[derive(Clone)]
struct St {
    cand: [u16; 81],
    grid: Grid,
    left: u8,
}

impl St {
    fn place(&mut self, c0: usize, d0: u8) -> bool {
        let mut stack = [(0usize, 0u8); 512];
        stack[0] = (c0, d0);
        let mut n = 1;
        while n > 0 {
            n -= 1;
            let (c, d) = stack[n];
            if self.grid[c] != 0 {
                if self.grid[c] != d {
                    return false;
                }
                continue;
            }
            let bit = 1u16 << (d - 1);
            if self.cand[c] & bit == 0 {
                return false;
            }
            self.grid[c] = d;
            self.cand[c] = bit;
            self.left -= 1;
            for &p in &peers()[c] {
                if self.grid[p] == 0 {
                    if self.cand[p] & bit != 0 {
                        self.cand[p] &= !bit;
                        let m = self.cand[p];
                        if m == 0 {
                            return false;
                        }
                        if m & (m - 1) == 0 {
                            stack[n] = (p, m.trailing_zeros() as u8 + 1);
                            n += 1;
                        }
                    }
                } else if self.grid[p] == d {
                    return false;
                }
            }
        }
        true
    }
    /// hidden singles until fixpoint; false on contradiction
    fn hidden(&mut self) -> bool {
        loop {
            let mut progress = false;
            for h in houses() {
                let (mut once, mut twice, mut placed) = (0u16, 0u16, 0u16);
                for &c in h {
                    if self.grid[c] != 0 {
                        placed |= self.cand[c];
                    } else {
                        twice |= once & self.cand[c];
                        once |= self.cand[c];
                    }
                }
                if once | placed != 511 {
                    return false;
                }
                let mut hid = once & !twice & !placed;
                while hid != 0 {
                    let bit = hid & hid.wrapping_neg();
                    hid ^= bit;
                    if let Some(&c) = h.iter().find(|&&c| self.grid[c] == 0 && self.cand[c] & bit != 0) {
                        if !self.place(c, bit.trailing_zeros() as u8 + 1) {
                            return false;
                        }
                        progress = true;
                    }
                }
            }
            if !progress {
                return true;
            }
        }
    }
}

fn search(mut s: St, f: &mut dyn FnMut(&Grid) -> bool) -> bool {
    if !s.hidden() {
        return true;
    }
    if s.left == 0 {
        return f(&s.grid);
    }
    let mut best = 81;
    let mut n = 10;
    for c in 0..81 {
        if s.grid[c] == 0 {
            let k = s.cand[c].count_ones();
            if k < n {
                n = k;
                best = c;
                if k == 2 {
                    break;
                }
            }
        }
    }
    let mut m = s.cand[best];
    while m != 0 {
        let d = m.trailing_zeros() as u8 + 1;
        m &= m - 1;
        let mut t = s.clone();
        if t.place(best, d) && !search(t, f) {
            return false;
        }
    }
    true
}

/// Call `f` for every completion of the grid until it returns false.
pub fn each_solution(g: &Grid, f: &mut dyn FnMut(&Grid) -> bool) {
    let mut s = St { cand: [511; 81], grid: [0; 81], left: 81 };
    for c in 0..81 {
        if g[c] != 0 && !s.place(c, g[c]) {
            return;
        }
    }
    search(s, f);
}
/// Completions of a candidate state: cell may only hold digits of its mask.
pub fn each_solution_of_masks(masks: &[u16; 81], f: &mut dyn FnMut(&Grid) -> bool) {
    if masks.iter().any(|&m| m == 0) {
        return;
    }
    let mut s = St { cand: *masks, grid: [0; 81], left: 81 };
    for c in 0..81 {
        if masks[c].count_ones() == 1 && !s.place(c, masks[c].trailing_zeros() as u8 + 1) {
            return;
        }
    }
    search(s, f);
}
pub fn count(g: &Grid, limit: usize) -> usize {
    let mut n = 0;
    if limit == 0 {
        return 0;
    }
    each_solution(g, &mut |_| {
        n += 1;
        n < limit
    });
    n
}
pub fn solutions(g: &Grid, limit: usize) -> Vec<Grid> {
    let mut v = vec![];
    if limit == 0 {
        return v;
    }
    each_solution(g, &mut |s| {
        v.push(*s);
        v.len() < limit
    });
    v
}
pub fn unique(g: &Grid) -> Option<Grid> {
    let v = solutions(g, 2);
    (v.len() == 1).then(|| v[0])
}

// ---------------------------------------------------------------- transformation group

pub const PERM3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
pub const N_LINEPERM: usize = 1296;
pub const N_POSITIONAL: usize = 2 * 1296 * 1296;

/// permutation of nine lines: band order plus order within each band
pub fn line_perm(mut i: usize) -> [usize; 9] {
    let mut digit = || {
        let r = i % 6;
        i /= 6;
        PERM3[r]
    };
    let b = digit();
    let inner = [digit(), digit(), digit()];
    let mut p = [0; 9];
    for k in 0..9 {
        p[k] = b[k / 3] * 3 + inner[k / 3][k % 3];
    }
    p
}
/// `out[c] = in[src[c]]`
pub fn positional(i: usize) -> [usize; 81] {
    let (t, i) = (i % 2 == 1, i / 2);
    let rp = line_perm(i % 1296);
    let cp = line_perm(i / 1296);
    let mut s = [0; 81];
    for r in 0..9 {
        for c in 0..9 {
            let (a, b) = (rp[r], cp[c]);
            s[r * 9 + c] = if t { b * 9 + a } else { a * 9 + b };
        }
    }
    s
}
pub fn apply(src: &[usize; 81], digits: &[u8; 10], g: &Grid) -> Grid {
    let mut o = [0; 81];
    for c in 0..81 {
        o[c] = digits[g[src[c]] as usize];
    }
    o
}
pub const ID_DIGITS: [u8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
/// k-th permutation of 1..=9 (k < 362880) in factorial base
pub fn digit_perm(mut k: usize) -> [u8; 10] {
    let mut pool: Vec<u8> = (1..=9).collect();
    let mut o = [0u8; 10];
    for i in 0..9 {
        let n = 9 - i;
        o[i + 1] = pool.remove(k % n);
        k /= n;
    }
    o
}
pub fn is_positional(src: &[usize; 81]) -> bool {
    // a permutation of cells is in the group iff it maps houses to houses and (rows to rows or rows to
    // columns) keeping bands and stacks together; equivalently it is one of the decoded ones
    let img = |a: usize| src[a];
    let try_orient = |t: bool| -> bool {
        let r0 = |c: usize| if t { col(c) } else { row(c) };
        let c0 = |c: usize| if t { row(c) } else { col(c) };
        let rp: Vec<usize> = (0..9).map(|r| r0(img(r * 9))).collect();
        let cp: Vec<usize> = (0..9).map(|c| c0(img(c))).collect();
        let ok = |p: &[usize]| {
            let mut s = p.to_vec();
            s.sort();
            s == (0..9).collect::<Vec<_>>() && (0..3).all(|b| p[3 * b] / 3 == p[3 * b + 1] / 3 && p[3 * b] / 3 == p[3 * b + 2] / 3)
        };
        ok(&rp) && ok(&cp) && (0..81).all(|c| r0(img(c)) == rp[row(c)] && c0(img(c)) == cp[col(c)])
    };
    try_orient(false) || try_orient(true)
}

/// Minimal member of the class of a solved grid (as 81 digits in reading order) and number of
/// automorphisms, by enumerating transposition x first row x column permutation (2 x 9 x 1296); rows and
/// bands below the first are then ordered optimally.
pub fn minlex(g: &Grid) -> (Grid, usize) {
    static CP: OnceLock<Vec<[usize; 9]>> = OnceLock::new();
    let cps = CP.get_or_init(|| (0..1296).map(line_perm).collect());
    let mut best = [10u8; 81];
    let mut n = 0;
    let mut tg = [0u8; 81];
    for c in 0..81 {
        tg[c] = g[col(c) * 9 + row(c)];
    }
    for src in [g, &tg] {
        for first in 0..9 {
            let fb = first / 3;
            let others: Vec<usize> = (fb * 3..fb * 3 + 3).filter(|&r| r != first).collect();
            for cp in cps.iter() {
                let mut lab = [0u8; 10];
                for k in 0..9 {
                    lab[src[first * 9 + cp[k]] as usize] = k as u8 + 1;
                }
                let rowof = |r: usize| -> [u8; 9] {
                    let mut o = [0; 9];
                    for k in 0..9 {
                        o[k] = lab[src[r * 9 + cp[k]] as usize];
                    }
                    o
                };
                let (a, b) = (rowof(others[0]), rowof(others[1]));
                let (r1, r2) = if a < b { (a, b) } else { (b, a) };
                if best[0] != 10 {
                    match r1.as_slice().cmp(&best[9..18]).then(r2.as_slice().cmp(&best[18..27])) {
                        std::cmp::Ordering::Greater => continue,
                        _ => {}
                    }
                }
                let mut out = [0u8; 81];
                for k in 0..9 {
                    out[k] = k as u8 + 1;
                }
                out[9..18].copy_from_slice(&r1);
                out[18..27].copy_from_slice(&r2);
                let mut bands: Vec<[[u8; 9]; 3]> = (0..3)
                    .filter(|&b| b != fb)
                    .map(|b| {
                        let mut v = [rowof(b * 3), rowof(b * 3 + 1), rowof(b * 3 + 2)];
                        v.sort();
                        v
                    })
                    .collect();
                bands.sort();
                for (i, b) in bands.iter().enumerate() {
                    for j in 0..3 {
                        let o = 27 + i * 27 + j * 9;
                        out[o..o + 9].copy_from_slice(&b[j]);
                    }
                }
                match out.cmp(&best) {
                    std::cmp::Ordering::Less => {
                        best = out;
                        n = 1;
                    }
                    std::cmp::Ordering::Equal => n += 1,
                    std::cmp::Ordering::Greater => {}
                }
            }
        }
    }
    (best, n)
}

/// Canonical form together with every transformation that leads to it (one per automorphism).
pub fn minlex_all(g: &Grid) -> (Grid, Vec<([usize; 81], [u8; 10])>) {
    let (m, n) = minlex(g);
    let mut v = Vec::with_capacity(n);
    let tr: [usize; 81] = std::array::from_fn(|c| col(c) * 9 + row(c));
    for t in [false, true] {
        let at = |r: usize, k: usize| if t { tr[r * 9 + k] } else { r * 9 + k };
        for first in 0..9 {
            for cpi in 0..1296 {
                let cp = line_perm(cpi);
                let mut lab = [0u8; 10];
                for k in 0..9 {
                    lab[g[at(first, cp[k])] as usize] = m[k];
                }
                // every other row of the source must appear as a row of m, in a band-preserving arrangement
                let mut to = [9usize; 9];
                to[0] = first;
                let fits = |r: usize, target: usize| (0..9).all(|k| lab[g[at(r, cp[k])] as usize] == m[target * 9 + k]);
                let mut ok = true;
                'targets: for target in 1..9 {
                    for r in 0..9 {
                        if !to.contains(&r) && fits(r, target) {
                            to[target] = r;
                            continue 'targets;
                        }
                    }
                    ok = false;
                    break;
                }
                if ok {
                    let src: [usize; 81] = std::array::from_fn(|c| at(to[row(c)], cp[col(c)]));
                    if is_positional(&src) {
                        debug_assert!(apply(&src, &lab, g) == m);
                        v.push((src, lab));
                    }
                }
            }
        }
    }
    assert_eq!(v.len(), n, "reference canonicalization is inconsistent");
    (m, v)
}

/// Number of automorphisms by definition: over all 2 x 1296 x 1296 positional transformations, those that act on the
/// grid like a relabelling.
pub fn automorphisms_by_definition(g: &Grid) -> usize {
    let ps: Vec<[usize; 9]> = (0..1296).map(line_perm).collect();
    let mut n = 0;
    for t in [false, true] {
        let at = |a: usize, b: usize| if t { g[b * 9 + a] } else { g[a * 9 + b] };
        for rp in &ps {
            for cp in &ps {
                let mut lab = [0u8; 10];
                let ok = (0..9).all(|r| {
                    (0..9).all(|c| {
                        let s = at(rp[r], cp[c]) as usize;
                        let d = g[r * 9 + c];
                        if lab[s] == 0 {
                            lab[s] = d;
                        }
                        lab[s] == d
                    })
                });
                n += ok as usize;
            }
        }
    }
    n
}

/// self-test of the model (the checks refuse to run on a broken model)
pub fn self_test() {
    let g = parse("123456789456789123789123456231564897564897231897231564312645978645978312978312645");
    assert!(is_valid_full(&g));
    let (m, n) = minlex(&g);
    assert!(is_valid_full(&m));
    assert_eq!(n, 648);
    let s = positional(1_234_567);
    assert!(is_positional(&s));
    assert_eq!(minlex(&apply(&s, &digit_perm(4711), &g)), (m, n));
    let p = parse("8..........36......7..9.2...5...7.......457.....1...3...1....68..85...1..9....4..");
    let u = unique(&p).expect("unique");
    assert!(is_valid_full(&u) && extends(&u, &p));
}

/// Some completion of a candidate state, if there is one. Branches on the scarcest cell or digit-in-house.
pub fn some_completion(masks: &[u16; 81]) -> Option<Grid> {
    if masks.iter().any(|&m| m == 0) {
        return None;
    }
    let mut s = St { cand: *masks, grid: [0; 81], left: 81 };
    for c in 0..81 {
        if masks[c].count_ones() == 1 && !s.place(c, masks[c].trailing_zeros() as u8 + 1) {
            return None;
        }
    }
    fn go(mut s: St) -> Option<Grid> {
        if !s.hidden() {
            return None;
        }
        if s.left == 0 {
            return Some(s.grid);
        }
        // scarcest cell
        let (mut best, mut bc) = (10u32, 0);
        for c in 0..81 {
            if s.grid[c] == 0 && s.cand[c].count_ones() < best {
                best = s.cand[c].count_ones();
                bc = c;
            }
        }
        let mut moves = [(0usize, 0u8); 9];
        let mut n = 0;
        for d in 1..=9u8 {
            if s.cand[bc] >> (d - 1) & 1 == 1 {
                moves[n] = (bc, d);
                n += 1;
            }
        }
        // scarcest digit in a house
        if best > 2 {
            let mut at = None;
            for (i, h) in houses().iter().enumerate() {
                let mut k = [0u8; 16];
                for &c in h {
                    if s.grid[c] == 0 {
                        let m = s.cand[c];
                        for d in 0..9 {
                            k[d] += (m >> d & 1) as u8;
                        }
                    }
                }
                for d in 0..9 {
                    if k[d] > 0 && (k[d] as u32) < best {
                        best = k[d] as u32;
                        at = Some((i, d as u8 + 1));
                    }
                }
            }
            if let Some((i, d)) = at {
                n = 0;
                for &c in &houses()[i] {
                    if s.grid[c] == 0 && s.cand[c] >> (d - 1) & 1 == 1 {
                        moves[n] = (c, d);
                        n += 1;
                    }
                }
            }
        }
        for &(c, d) in &moves[..n] {
            let mut t = s.clone();
            if t.place(c, d) {
                if let Some(g) = go(t) {
                    return Some(g);
                }
            }
        }
        None
    }
    go(s)
}
