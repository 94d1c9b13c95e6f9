//! Embedded base grids. Families enumerate all bounded edits / transformations of these.
use crate::model::*;
use std::sync::OnceLock;

fn file(s: &str) -> Vec<Grid> {
    s.lines()
        .map(|l| l.trim())
        .filter(|l| l.len() >= 81)
        .map(|l| parse(&l[..81]))
        .collect()
}
macro_rules! data {
    ($name:ident, $f:expr) => {
        pub fn $name() -> &'static Vec<Grid> {
            static V: OnceLock<Vec<Grid>> = OnceLock::new();
            V.get_or_init(|| file(include_str!(concat!("../data/", $f))))
        }
    };
}
data!(easy, "easy_sudokus.txt");
data!(medium, "medium_sudokus.txt");
data!(hard, "hard_sudokus.txt");
data!(invalid, "invalid_sudokus.txt");
data!(solved_easy, "solved_easy_sudokus.txt");
data!(solved_medium, "solved_medium_sudokus.txt");
data!(solved_hard, "solved_hard_sudokus.txt");
data!(extra, "extra.txt");
// solved grids with automorphisms (from `sudoku-mc autogrids`)
data!(automorphic, "automorphic.txt");

/// 648 automorphisms
pub const MOST_SYMMETRIC: &str = "123456789456789123789123456231564897564897231897231564312645978645978312978312645";

pub fn puzzles() -> &'static Vec<Grid> {
    static V: OnceLock<Vec<Grid>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Grid> = vec![];
        for g in extra().iter().chain(hard()).chain(medium()).chain(easy()) {
            if count(g, 2) == 1 && !v.contains(g) {
                v.push(*g);
            }
        }
        v
    })
}
pub fn solved() -> &'static Vec<Grid> {
    static V: OnceLock<Vec<Grid>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Grid> = vec![parse(MOST_SYMMETRIC)];
        for g in puzzles() {
            let s = unique(g).unwrap();
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v
    })
}
