//! Deterministic search for solved grids with automorphisms (produced mc/data/automorphic.txt; `sudoku-mc autogrids`).
use crate::model::*;

fn conjugacy_reps() -> Vec<usize> {
    let all: Vec<[usize; 9]> = (0..1296).map(line_perm).collect();
    let pos: std::collections::HashMap<[usize; 9], usize> = all.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    let mut seen = vec![false; 1296];
    let mut reps = vec![];
    for i in 0..1296 {
        if seen[i] {
            continue;
        }
        reps.push(i);
        for q in &all {
            // q^-1 p q
            let mut inv = [0; 9];
            for k in 0..9 {
                inv[q[k]] = k;
            }
            let c: [usize; 9] = std::array::from_fn(|k| inv[all[i][q[k]]]);
            seen[pos[&c]] = true;
        }
    }
    reps
}
fn partitions(n: usize, max: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (1..=max.min(n)).flat_map(|k| partitions(n - k, k).into_iter().map(move |mut v| { v.insert(0, k); v })).collect()
}
fn cycle_perm(parts: &[usize]) -> [u8; 10] {
    let mut o = ID_DIGITS;
    let mut s = 1;
    for &k in parts {
        for j in 0..k {
            o[s + j] = (s + (j + 1) % k) as u8;
        }
        s += k;
    }
    o
}

struct Search<'a> {
    inv: [usize; 81],
    sigma: &'a [u8; 10],
    nodes: usize,
    reverse: bool,
}
impl Search<'_> {
    fn put(&self, g: &mut Grid, m: &mut [u16; 81], c: usize, d: u8) -> bool {
        let (mut x, mut e) = (c, d);
        loop {
            if g[x] != 0 {
                if g[x] != e {
                    return false;
                }
            } else {
                if m[x] >> (e - 1) & 1 == 0 {
                    return false;
                }
                g[x] = e;
                m[x] = 1 << (e - 1);
                for &q in &peers()[x] {
                    m[q] &= !(1 << (e - 1));
                    if m[q] == 0 {
                        return false;
                    }
                }
            }
            x = self.inv[x];
            e = self.sigma[e as usize];
            if x == c {
                return e == d;
            }
        }
    }
    fn go(&mut self, g: &Grid, m: &[u16; 81]) -> Option<Grid> {
        self.nodes += 1;
        if self.nodes > 30_000 {
            return None;
        }
        let c = match (0..81).filter(|&c| g[c] == 0).min_by_key(|&c| m[c].count_ones()) {
            None => return Some(*g),
            Some(c) => c,
        };
        let mut ds: Vec<u8> = (1..=9).filter(|d| m[c] >> (d - 1) & 1 == 1).collect();
        if self.reverse {
            ds.reverse();
        }
        for d in ds {
            let (mut g2, mut m2) = (*g, *m);
            if self.put(&mut g2, &mut m2, c, d) {
                if let Some(r) = self.go(&g2, &m2) {
                    return Some(r);
                }
            }
        }
        None
    }
}

pub fn run() {
    let reps = conjugacy_reps();
    let sig: Vec<[u8; 10]> = partitions(9, 9).iter().map(|p| cycle_perm(p)).collect();
    eprintln!("{} classes of line permutations, {} digit classes", reps.len(), sig.len());
    let mut jobs = vec![];
    for &a in &reps {
        for &b in &reps {
            if a <= b {
                jobs.push(2 * (a + 1296 * b));
            }
        }
        jobs.push(2 * a + 1);
    }
    let id = positional(0);
    let found = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if j >= jobs.len() {
                    break;
                }
                let src = positional(jobs[j]);
                if src == id {
                    continue;
                }
                let mut inv = [0; 81];
                for c in 0..81 {
                    inv[src[c]] = c;
                }
                for s in &sig {
                    for reverse in [false, true] {
                        let mut x = Search { inv, sigma: s, nodes: 0, reverse };
                        if let Some(g) = x.go(&[0; 81], &[511; 81]) {
                            assert!(is_valid_full(&g) && apply(&src, s, &g) == g);
                            let (m, n) = minlex(&g);
                            assert!(n > 1);
                            let mut f = found.lock().unwrap();
                            let e = f.entry((std::cmp::Reverse(n), m)).or_insert(g);
                            *e = (*e).min(g);
                        }
                    }
                }
            });
        }
    });
    for ((n, _), g) in found.into_inner().unwrap() {
        println!("{} {}", line(&g), n.0);
    }
}
