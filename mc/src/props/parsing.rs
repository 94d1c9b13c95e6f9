//! C05 line format, C06 block format, C07 permissive block format, C08 round trips and order, C09 bytes and serde.
use super::solving::{over, su};
use crate::engine::*;
use crate::model::*;
use crate::spaces::*;
use crate::{corpus, ensure, fail};
use std::sync::Arc;
use sudoku::errors::*;
use sudoku::Sudoku;

fn cell_char(c: char) -> Option<u8> {
    match c {
        '.' | '_' | '0' => Some(0),
        '1'..='9' => Some(c as u8 - b'0'),
        _ => None,
    }
}

// ------------------------------------------------------------------ line format

enum Want<E> {
    Ok(Grid),
    Err(Vec<E>),
}

fn ref_line(s: &str) -> Want<LineParseError> {
    let mut g = [0u8; 81];
    let mut it = s.chars();
    for i in 0..81u8 {
        match it.next() {
            None => return Want::Err(vec![LineParseError::NotEnoughCells(i)]),
            Some(ch) => match cell_char(ch) {
                Some(d) => g[i as usize] = d,
                None => {
                    let inv = LineParseError::InvalidEntry(InvalidEntry { cell: i, ch });
                    let short = LineParseError::NotEnoughCells(i);
                    return Want::Err(match ch {
                        ' ' | '\t' => vec![short],
                        // delimiters too, but before the grid is complete the documentation leaves the kind open
                        '\n' | '\r' | ',' | ';' => vec![inv, short],
                        _ => vec![inv],
                    });
                }
            },
        }
    }
    match it.next() {
        None | Some(' ' | '\t' | '\r' | '\n' | ',' | ';') => Want::Ok(g),
        Some(c) if cell_char(c).is_some() => Want::Err(vec![LineParseError::TooManyCells]),
        Some(_) => Want::Err(vec![LineParseError::MissingCommentDelimiter]),
    }
}

fn check_entry(e: &InvalidEntry) -> R {
    let c = e.cell as usize;
    ensure!(
        (e.row() as usize, e.col() as usize, e.block() as usize) == (row(c), col(c), blk(c)),
        "InvalidEntry for cell {c} reports row {}, column {}, block {}", e.row(), e.col(), e.block()
    );
    Ok(())
}

fn check_line(s: &str, ctx: &mut Ctx) -> R {
    ctx.state(s.as_bytes());
    ctx.step(1);
    ctx.trace();
    let got = match guarded(|| Sudoku::from_str_line(s)) {
        Ok(r) => r,
        Err((l, m)) => fail!("from_str_line panics on {s:?}: {m} at {l}"),
    };
    let kind = match &got {
        Ok(_) => "accepted",
        Err(LineParseError::InvalidEntry(_)) => "InvalidEntry",
        Err(LineParseError::NotEnoughCells(_)) => "NotEnoughCells",
        Err(LineParseError::TooManyCells) => "TooManyCells",
        Err(LineParseError::MissingCommentDelimiter) => "MissingCommentDelimiter",
    };
    ctx.count(kind, 1);
    ctx.outcome(format!("{:?}", got.as_ref().err()).as_bytes());
    match (got, ref_line(s)) {
        (Ok(q), Want::Ok(g)) => {
            ensure!(q.to_bytes() == g, "from_str_line({s:?}) = {}, expected {}", line(&q.to_bytes()), line(&g))
        }
        (Ok(q), Want::Err(e)) => fail!("from_str_line({s:?}) accepts the text as {}, expected {:?}", line(&q.to_bytes()), e),
        (Err(e), Want::Ok(_)) => fail!("from_str_line({s:?}) fails with {e:?} for a well-formed text"),
        (Err(e), Want::Err(w)) => {
            ensure!(w.contains(&e), "from_str_line({s:?}) fails with {e:?}, expected {w:?}");
            if let LineParseError::InvalidEntry(x) = e {
                check_entry(&x)?;
            }
        }
    }
    Ok(())
}

fn alphabet() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|b| b as char).collect();
    v.extend("\u{80}\u{85}\u{a0}é²½\u{391}١५\u{2028}中１．\u{fe4f}\u{10ffff}🎲".chars());
    v
}
const KEY: [char; 12] = ['5', '.', '0', '_', ' ', '\t', '\n', '\r', ';', ',', 'x', 'é'];

pub fn textfam(name: &str, about: &str, n: u64, at: impl Fn(u64) -> String + Send + Sync + 'static, check: fn(&str, &mut Ctx) -> R) -> Family {
    let at = Arc::new(at);
    let a2 = at.clone();
    family(name, about, n, move |i, c| check(&at(i), c), move |i| format!("{:?}", a2(i)))
}

pub fn line_texts() -> Texts {
    let p = corpus::puzzles();
    let s = corpus::solved();
    let full = line(&s[3]);
    let half = line(&p[4]);
    let mixed: String = line(&p[7]).chars().enumerate().map(|(i, c)| if c == '.' { ['.', '0', '_'][i % 3] } else { c }).collect();
    let mut v: Vec<(String, &'static str, u64, Box<dyn Fn(u64) -> String + Send + Sync>)> = vec![];
    let bases: Vec<String> = [&full, &half, &mixed]
        .iter()
        .flat_map(|b| ["", " comment 1", ",x", ";.", "\t", "\n123", "\r\n", "5", "x", "é"].map(|t| format!("{b}{t}")))
        .collect();
    let al = alphabet();
    {
        let per = 86 * al.len() as u64 * 3;
        let n = bases.len() as u64 * per;
        v.push(("line_edit1".into(), "30 texts (3 grids x 10 endings) x every position 0..=85 x every ASCII character and 16 others x (replace, insert, cut off there and append)", n, Box::new(move |i| {
            let b: Vec<char> = bases[(i / per) as usize].chars().collect();
            let j = i % per;
            let ch = al[(j % al.len() as u64) as usize];
            let j = j / al.len() as u64;
            let pos = ((j % 86) as usize).min(b.len());
            let mut o: String = b[..pos].iter().collect();
            o.push(ch);
            match j / 86 {
                0 => o.extend(b.iter().skip(pos + 1)),
                1 => o.extend(b.iter().skip(pos)),
                _ => {}
            }
            o
        })));
    }
    for (k, base) in [full.clone(), mixed.clone()].into_iter().enumerate() {
        let b: Vec<char> = format!("{base} c").chars().collect();
        let m = b.len() as u64; // 83
        let n = m * (m - 1) / 2 * 144;
        v.push((format!("line_edit2_{k}"), "every pair of positions of a text x every pair of 12 key characters", n, Box::new(move |i| {
            let (x, mut p) = (i % 144, i / 144);
            let mut a = 0;
            while p >= m - 1 - a {
                p -= m - 1 - a;
                a += 1;
            }
            let mut o = b.clone();
            o[a as usize] = KEY[(x / 12) as usize];
            o[(a + 1 + p) as usize] = KEY[(x % 12) as usize];
            o.into_iter().collect()
        })));
    }
    fn word(al: &[char], mut i: u64, max: u32) -> String {
        let k = al.len() as u64;
        for len in 0..=max {
            let n = k.pow(len);
            if i < n {
                return (0..len).map(|p| al[(i / k.pow(p) % k) as usize]).collect();
            }
            i -= n;
        }
        unreachable!()
    }
    let words = |k: u64, max: u32| (0..=max).map(|l| k.pow(l)).sum::<u64>();
    let b = half.clone();
    v.push(("line_suffix".into(), "a complete grid followed by every string of at most 4 key characters", words(12, 4), Box::new(move |i| format!("{b}{}", word(&KEY, i, 4)))));
    v.push(("line_short".into(), "every string of at most 5 key characters", words(12, 5), Box::new(|i| word(&KEY, i, 5))));
    let b: Vec<char> = full.chars().collect();
    v.push(("line_unicode".into(), "every Unicode character in place of the first, 41st and last cell, and after the last cell", 4 * 0x110000, Box::new(move |i| {
        let c = char::from_u32((i / 4) as u32).unwrap_or('\u{fffd}');
        let mut o = b.clone();
        match i % 4 {
            3 => o.push(c),
            k => o[[0, 40, 80][k as usize]] = c,
        }
        o.into_iter().collect()
    })));
    v.push(("line_length".into(), "n equal cell characters (n = 0..=260) followed by every string of at most 1 ASCII character", 261 * 12 * 129, Box::new(|i| {
        let chars = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.', '_'];
        let mut o: String = std::iter::repeat(chars[(i % 12) as usize]).take((i / 12 % 261) as usize).collect();
        let t = i / 12 / 261;
        if t > 0 {
            o.push((t - 1) as u8 as char);
        }
        o
    })));
    let bs = [full.clone(), half.clone(), full[..40].to_string(), String::new()];
    v.push(("line_long".into(), "4 beginnings (81, 81, 40, 0 cells) x 8 connecting characters x 6 fillers repeated n times, n such that the length runs through 200..=700 and 65500..=65700", 4 * 8 * 6 * 702, Box::new(move |i| {
        let i = i as usize;
        let mut o = bs[i % 4].clone();
        o.push_str(["", " ", "\t", "\n", ",", ";", "\r", "x"][i / 4 % 8]);
        let n = i / 192;
        let n = if n < 501 { 200 + n } else { 65_500 + n - 501 } - o.chars().count();
        for k in 0..n {
            o.push(match i / 32 % 6 {
                0 => ' ',
                1 => '5',
                2 => '.',
                3 => 'x',
                4 => 'é',
                _ => ['\n', '1', ' '][k % 3],
            });
        }
        o
    })));
    v.push(("line_cells".into(), "every cell x every cell character, all other cells any one cell character, with and without comment", 81 * 12 * 12 * 2, Box::new(|i| {
        let chars = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.', '_'];
        let mut o = [chars[(i / 12 % 12) as usize]; 81];
        o[(i / 144 % 81) as usize] = chars[(i % 12) as usize];
        let mut s: String = o.iter().collect();
        if i / 144 / 81 == 1 {
            s.push_str("\tcomment");
        }
        s
    })));
    v
}

/// `set[..]` at every choice of three different positions of a text
fn edit3(text: Vec<char>, set: Vec<char>) -> (u64, Box<dyn Fn(u64) -> String + Send + Sync>) {
    let m = text.len() as u64;
    let k = set.len() as u64;
    // a < b < c is numbered by c choose 3 + b choose 2 + a
    let n3 = m * (m - 1) * (m - 2) / 6;
    let c3: Vec<u64> = (0..=m).map(|c| if c < 3 { 0 } else { c * (c - 1) * (c - 2) / 6 }).collect();
    let c2: Vec<u64> = (0..=m).map(|c| if c < 2 { 0 } else { c * (c - 1) / 2 }).collect();
    (n3 * k * k * k, Box::new(move |i| {
        let (x, p) = (i % (k * k * k), i / (k * k * k));
        let c = c3.partition_point(|&v| v <= p) - 1;
        let p = p - c3[c];
        let b = c2.partition_point(|&v| v <= p) - 1;
        let a = (p - c2[b]) as usize;
        let mut o = text.clone();
        o[a] = set[(x % k) as usize];
        o[b] = set[(x / k % k) as usize];
        o[c] = set[(x / k / k) as usize];
        o.into_iter().collect()
    }))
}

/// `max` key characters in every order
fn key_word(mut i: u64, max: u32) -> String {
    for len in 0..=max {
        let n = 12u64.pow(len);
        if i < n {
            return (0..len).map(|p| KEY[(i / 12u64.pow(p) % 12) as usize]).collect();
        }
        i -= n;
    }
    unreachable!()
}

/// Larger spaces for the properties about the parsers themselves.
fn deep_line_texts(t: Tier) -> Texts {
    let mut v: Texts = vec![];
    let half = line(&corpus::puzzles()[4]);
    let set: Vec<char> = if t == Tier::Thorough { vec!['5', '.', ' ', '\t', '\n', '\r', ';', 'x', 'é'] } else { vec!['5', ' ', '\n', 'x'] };
    let (n, f) = edit3(format!("{half};c").chars().collect(), set);
    v.push(("line_edit3".into(), "every three positions of a text x every triple of the key characters (quick 4, thorough 9)", n, f));
    let max = t.pick(5, 7) as u32;
    let words = (0..=max).map(|l| 12u64.pow(l)).sum();
    v.push(("line_words".into(), "every string of key characters of at most 5 (quick) or 7 (thorough) characters after 78 cells", words, Box::new(move |i| format!("{}{}", &half[..78], key_word(i, max)))));
    v
}

fn deep_block_texts(t: Tier) -> Texts {
    let mut v: Texts = vec![];
    let set: Vec<char> = if t == Tier::Thorough { vec!['5', '|', '-', ' ', '\n', 'x'] } else { vec!['5', '|', '\n'] };
    for (name, f) in [("bare", Fmt::Bare), ("plus", Fmt::Plus), ("minus", Fmt::Minus)] {
        if name == "minus" && t == Tier::Quick {
            continue;
        }
        let (n, f) = edit3(block_lines(&corpus::puzzles()[3], f, 0).join("\n").chars().collect(), set.clone());
        v.push((format!("block_edit3_{name}"), "every three positions of a text x every triple of the characters (quick 3, thorough 6)", n, f));
    }
    // three special lines
    let few: Vec<&'static str> = if t == Tier::Thorough { SPECIAL.to_vec() } else { vec!["", "x", "---+---+---", "-----------", "123456789", "123|456|789", "12345678"] };
    let k = few.len() as u64;
    let subs: Vec<Vec<u8>> = subsets(12, 3).into_iter().filter(|s| s.len() == 3).collect();
    let bases: Vec<Vec<String>> = [Fmt::Bare, Fmt::Plus, Fmt::Minus].iter().map(|f| block_lines(&corpus::puzzles()[3], *f, 0)).collect();
    v.push(("block_lines3".into(), "3 texts x every three lines x every triple of special lines (quick 7, thorough 26)", 3 * subs.len() as u64 * k * k * k, Box::new(move |i| {
        let mut l = bases[(i % 3) as usize].clone();
        let (x, s) = (i / 3 % (k * k * k), &subs[(i / 3 / (k * k * k)) as usize]);
        for (p, z) in [(s[0], x % k), (s[1], x / k % k), (s[2], x / k / k)] {
            let z = few[z as usize].to_string();
            if (p as usize) < l.len() {
                l[p as usize] = z;
            } else {
                l.push(z);
            }
        }
        l.join("\n")
    })));
    v
}

pub fn c05(t: Tier) -> Prop {
    let mut fams: Vec<Family> = line_texts().into_iter().chain(deep_line_texts(t)).map(|(n, a, c, f)| textfam(&n, a, c, f, check_line)).collect();
    let all: Vec<Grid> = corpus::puzzles().iter().chain(corpus::solved()).copied().collect();
    let n = all.len() as u64;
    fams.push(textfam("line_corpus", "all embedded grids", n, move |i| line(&all[i as usize]), check_line));
    Prop {
        families: fams,
        assumptions: vec!["newline, carriage return, comma or semicolon before the 81st cell: both InvalidEntry and NotEnoughCells are accepted (the documentation leaves the kind open)".into()],
        rule: "a state is a distinct input text; a transition is one parser call; a trace is one result compared with the reference grammar".into(),
    }
}

// ------------------------------------------------------------------ block format

fn ref_block(s: &str) -> (Want<BlockParseError>, bool) {
    // second value: an undocumented corner was used (text glued to a horizontal delimiter)
    use BlockParseError as E;
    let mut g = [0u8; 81];
    let mut rows = 0u8;
    let mut glued = false;
    let lines: Vec<&str> = s.lines().collect();
    let delimited = lines.first().map_or(false, |l| l.chars().nth(3) == Some('|'));
    let mut style: Option<&str> = None;
    for (n, l) in lines.iter().enumerate() {
        if rows == 9 {
            if l.trim().is_empty() {
                break;
            }
            return (Want::Err(vec![E::TooManyRows]), glued);
        }
        if delimited && (n == 3 || n == 7) {
            let plus = l.starts_with("---+---+---");
            let minus = l.starts_with("-----------");
            let this = if plus {
                "+"
            } else if minus {
                "-"
            } else {
                return (Want::Err(vec![E::IncorrectFieldDelimiter]), glued);
            };
            if *style.get_or_insert(this) != this {
                return (Want::Err(vec![E::IncorrectFieldDelimiter]), glued);
            }
            match l.chars().nth(11) {
                None | Some(' ' | '\t') => {}
                _ => glued = true,
            }
            continue;
        }
        let mut k = 0u8;
        for (pos, ch) in l.chars().enumerate() {
            if k == 9 {
                match ch {
                    ' ' | '\t' => break,
                    _ if cell_char(ch).is_some() => return (Want::Err(vec![E::InvalidLineLength(rows)]), glued),
                    _ => return (Want::Err(vec![E::MissingCommentDelimiter(rows)]), glued),
                }
            }
            if delimited && (pos == 3 || pos == 7) {
                if ch != '|' {
                    return (Want::Err(vec![E::IncorrectFieldDelimiter]), glued);
                }
                continue;
            }
            let cell = rows * 9 + k;
            match cell_char(ch) {
                Some(d) => g[cell as usize] = d,
                None => return (Want::Err(vec![E::InvalidEntry(InvalidEntry { cell, ch })]), glued),
            }
            k += 1;
        }
        if k != 9 {
            return (Want::Err(vec![E::InvalidLineLength(rows)]), glued);
        }
        rows += 1;
    }
    if rows != 9 {
        return (Want::Err(vec![E::NotEnoughRows(rows)]), glued);
    }
    (Want::Ok(g), glued)
}

fn check_block(s: &str, ctx: &mut Ctx) -> R {
    ctx.state(s.as_bytes());
    ctx.step(1);
    ctx.trace();
    let got = match guarded(|| Sudoku::from_str_block(s)) {
        Ok(r) => r,
        Err((l, m)) => fail!("from_str_block panics on {s:?}: {m} at {l}"),
    };
    let (want, glued) = ref_block(s);
    if glued {
        ctx.count("text_glued_to_a_horizontal_delimiter", 1);
        if matches!(got, Err(BlockParseError::IncorrectFieldDelimiter | BlockParseError::MissingCommentDelimiter(_))) {
            return Ok(());
        }
    }
    let kind = match &got {
        Ok(_) => "accepted",
        Err(BlockParseError::InvalidEntry(_)) => "InvalidEntry",
        Err(BlockParseError::InvalidLineLength(_)) => "InvalidLineLength",
        Err(BlockParseError::NotEnoughRows(_)) => "NotEnoughRows",
        Err(BlockParseError::IncorrectFieldDelimiter) => "IncorrectFieldDelimiter",
        Err(BlockParseError::TooManyRows) => "TooManyRows",
        Err(BlockParseError::MissingCommentDelimiter(_)) => "MissingCommentDelimiter",
    };
    ctx.count(kind, 1);
    ctx.outcome(format!("{:?}", got.as_ref().err()).as_bytes());
    match (got, want) {
        (Ok(q), Want::Ok(g)) => {
            ensure!(q.to_bytes() == g, "from_str_block({s:?}) = {}, expected {}", line(&q.to_bytes()), line(&g))
        }
        (Ok(q), Want::Err(e)) => fail!("from_str_block({s:?}) accepts the text as {}, expected {:?}", line(&q.to_bytes()), e),
        (Err(e), Want::Ok(_)) => fail!("from_str_block({s:?}) fails with {e:?} for a well-formed text"),
        (Err(e), Want::Err(w)) => {
            ensure!(w.contains(&e), "from_str_block({s:?}) fails with {e:?}, expected {w:?}");
            if let BlockParseError::InvalidEntry(x) = e {
                check_entry(&x)?;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Fmt {
    Bare,
    Plus,
    Minus,
}
fn block_lines(g: &Grid, f: Fmt, comments: usize) -> Vec<String> {
    let mut v = vec![];
    let note = |i: usize| match comments {
        0 => "",
        1 => " a comment 123",
        2 => "\t|x.é",
        3 if i % 2 == 0 => " ",
        3 if i % 3 == 0 => "\t",
        _ => "",
    };
    for r in 0..9 {
        if f != Fmt::Bare && (r == 3 || r == 6) {
            v.push(format!("{}{}", if f == Fmt::Plus { "---+---+---" } else { "-----------" }, note(v.len())));
        }
        let mut l = String::new();
        for c in 0..9 {
            if f != Fmt::Bare && (c == 3 || c == 6) {
                l.push('|');
            }
            let d = g[r * 9 + c];
            l.push(if d == 0 { ['.', '_', '0'][(r + c) % 3] } else { (b'0' + d) as char });
        }
        l.push_str(note(v.len()));
        v.push(l);
    }
    v
}

const SPECIAL: [&str; 26] = [
    "", " ", "\t \t", "x", "---+---+---", "-----------", "----------", "---+---+--", "---+---+--- c", "----------- c", "-----------c", "---+---+---c",
    "------------", "123456789", "123|456|789", "12345678", "123|456|78", "1234567891", "123|456|7891", "123456789x", "123|456|789|", "|123456789",
    "123 456 789", "123|456789", "12|456|789", "123456789 \tc",
];
const CHARS: [char; 22] = ['5', '.', '_', '0', '|', '-', '+', ' ', '\t', '\n', '\r', 'x', ',', ';', '#', ':', '/', '\0', 'é', '中', '\u{a0}', '\u{85}'];
const TAILS: [&str; 14] =
    ["", "\n", "\n\n", "\n\nmore text", "\n \t\n123456789", "\n123456789", "\nx", "\n ", "\r\n", "\r\n\r\nrest\n", "\n---+---+---", "\n\n\n", "\n.", "\n\u{3000}"];

pub type Texts = Vec<(String, &'static str, u64, Box<dyn Fn(u64) -> String + Send + Sync>)>;

fn block_bases(n: usize) -> Vec<(Vec<String>, &'static str)> {
    let gs = [corpus::puzzles()[3], corpus::solved()[5]];
    let mut v = vec![];
    for f in [Fmt::Bare, Fmt::Plus, Fmt::Minus] {
        for c in 0..4 {
            for nl in ["\n", "\r\n"] {
                for g in &gs[..n] {
                    v.push((block_lines(g, f, c), nl));
                }
            }
        }
    }
    v
}

pub fn block_texts(t: Tier) -> Texts {
    let mut v: Texts = vec![];
    {
        let b = block_bases(2);
        let n = (b.len() * TAILS.len() * 2) as u64;
        v.push(("block_bases".into(), "2 grids x 3 formats x 4 comment styles x 2 line endings x 14 tails x (with/without leading blank line)", n, Box::new(move |i| {
            let i = i as usize;
            let (l, nl) = &b[i / 2 / TAILS.len()];
            format!("{}{}{}", if i % 2 == 1 { *nl } else { "" }, l.join(nl), TAILS[i / 2 % TAILS.len()])
        })));
    }
    {
        // single character edits
        let texts: Vec<Vec<char>> = block_bases(1).iter().map(|(l, nl)| l.join(nl).chars().collect()).collect();
        let mut starts = vec![0u64];
        for x in &texts {
            starts.push(starts.last().unwrap() + (x.len() as u64 + 1) * (CHARS.len() as u64 * 2 + 2));
        }
        let n = *starts.last().unwrap();
        v.push(("block_edit1".into(), "24 texts x every character position x (replace by / insert one of 22 characters, delete, cut off)", n, Box::new(move |i| {
            let b = starts.partition_point(|&s| s <= i) - 1;
            let x = &texts[b];
            let j = i - starts[b];
            let k = CHARS.len() as u64 * 2 + 2;
            let (pos, op) = ((j / k) as usize, (j % k) as usize);
            let mut o: String = x[..pos].iter().collect();
            let rest = &x[pos..];
            match op {
                0 => o.extend(rest.iter().skip(1)),
                1 => {}
                _ => {
                    o.push(CHARS[(op - 2) / 2]);
                    o.extend(rest.iter().skip(op % 2));
                }
            }
            o
        })));
    }
    {
        // line edits: replace / insert special, delete, duplicate, swap with next, truncate to k chars, each with tails
        let bases = block_bases(1);
        let ops = SPECIAL.len() as u64 * 2 + 3 + 14;
        let per = 12 * ops * TAILS.len() as u64;
        let n = bases.len() as u64 * per;
        v.push(("block_lines1".into(), "24 texts x every line x (replace by / insert one of 26 special lines, delete, duplicate, swap with the next, truncate to 0..=13 characters) x 14 tails", n, Box::new(move |i| {
            let (l, nl) = &bases[(i / per) as usize];
            let j = i % per;
            let tail = TAILS[(j % TAILS.len() as u64) as usize];
            let j = j / TAILS.len() as u64;
            let (at, op) = (((j / ops) as usize).min(l.len()), (j % ops) as usize);
            let mut l = l.clone();
            let s = SPECIAL.len();
            if op < s {
                if at < l.len() {
                    l[at] = SPECIAL[op].into();
                } else {
                    l.push(SPECIAL[op].into());
                }
            } else if op < 2 * s {
                l.insert(at, SPECIAL[op - s].into());
            } else if at < l.len() {
                match op - 2 * s {
                    0 => {
                        l.remove(at);
                    }
                    1 => l.insert(at, l[at].clone()),
                    2 => {
                        let k = (at + 1) % l.len();
                        l.swap(at, k)
                    }
                    k => l[at] = l[at].chars().take(k - 3).collect(),
                }
            }
            l.join(nl) + tail
        })));
    }
    {
        // two special lines
        let bases: Vec<Vec<String>> = [Fmt::Bare, Fmt::Plus, Fmt::Minus].iter().map(|f| block_lines(&corpus::puzzles()[3], *f, 0)).collect();
        let s = SPECIAL.len() as u64;
        let per = 12 * 12 * s * s;
        v.push(("block_lines2".into(), "3 texts x every pair of lines x every pair of 26 special lines", 3 * per, Box::new(move |i| {
            let mut l = bases[(i / per) as usize].clone();
            let j = i % per;
            let (x, y, a, b) = (j % s, j / s % s, (j / s / s % 12) as usize, (j / s / s / 12) as usize);
            for (p, z) in [(a, x), (b, y)] {
                if p < l.len() {
                    l[p] = SPECIAL[z as usize].into();
                } else {
                    l.push(SPECIAL[z as usize].into());
                }
            }
            l.join("\n")
        })));
    }
    {
        // two character edits
        let set = ['5', '.', '|', '-', '+', ' ', '\n', 'x'];
        let texts: Vec<Vec<char>> = [Fmt::Bare, Fmt::Plus, Fmt::Minus]
            .iter()
            .map(|f| (block_lines(&corpus::puzzles()[3], *f, 0).join("\n") + "\n").chars().collect())
            .collect();
        let m = texts[1].len() as u64;
        let k = set.len() as u64;
        let per = m * m * k * k;
        let nt = t.pick(2, 3);
        v.push(("block_edit2".into(), "delimited and bare texts x every pair of positions x every pair of 8 characters", nt * per, Box::new(move |i| {
            let x = &texts[((i / per) as usize + 1) % 3];
            let j = i % per;
            let (p, q) = ((j / k / k % m) as usize % x.len(), (j / k / k / m) as usize % x.len());
            let mut o = x.clone();
            o[p] = set[(j % k) as usize];
            o[q] = set[(j / k % k) as usize];
            o.into_iter().collect()
        })));
    }
    {
        // every character of every script
        let g = corpus::puzzles()[3];
        let bare = block_lines(&g, Fmt::Bare, 0);
        let plus = block_lines(&g, Fmt::Plus, 0);
        v.push(("block_unicode".into(), "every Unicode character: in a cell of the first and fifth row (bare and delimited), before and after a row, in the place of a field delimiter, after a horizontal one, on a tenth line, alone on a line", 10 * 0x110000, Box::new(move |i| {
            let c = char::from_u32((i / 10) as u32).unwrap_or('\u{fffd}');
            let k = i % 10;
            let mut l = if matches!(k, 0 | 1 | 4 | 5 | 8 | 9) { bare.clone() } else { plus.clone() };
            let put = |s: &str, at: usize| s.chars().enumerate().map(|(j, x)| if j == at { c } else { x }).collect::<String>();
            match k {
                0 => l[0] = put(&l[0], 3),
                1 => l[4] = put(&l[4], 8),
                2 => l[0] = put(&l[0], 3),
                3 => l[5] = put(&l[5], 7),
                4 => l[2].push(c),
                5 => l[6].insert(0, c),
                6 => l[3].push(c),
                7 => l[7] = put(&l[7], 4),
                8 => l.push(c.to_string()),
                _ => l.insert(7, c.to_string()),
            }
            l.join("\n")
        })));
    }
    {
        // long comments, long rows and many lines
        let bases: Vec<Vec<String>> = [Fmt::Bare, Fmt::Plus, Fmt::Minus].iter().map(|f| block_lines(&corpus::puzzles()[3], *f, 0)).collect();
        let sizes: Vec<usize> = (230..=290).chain(500..=530).chain(65_520..=65_550).collect();
        let m = sizes.len() as u64;
        v.push(("block_long".into(), "3 texts x first/fourth/last line or end of text x 7 fillers repeated n times (n = 230..=290, 500..=530, 65520..=65550), after the line or before it", 3 * 4 * 7 * 2 * m, Box::new(move |i| {
            let n = sizes[(i % m) as usize];
            let i = (i / m) as usize;
            let mut l = bases[i % 3].clone();
            let fill = [" ", "5", "x", "é", "\n", "123456789\n", "12345678\n"][i / 3 % 7].repeat(n);
            let at = [0, 3, l.len() - 1, l.len()][i / 21 % 4];
            if at == l.len() {
                return l.join("\n") + if i / 84 == 0 { "\n" } else { " " } + &fill;
            }
            l[at] = if i / 84 == 0 { format!("{} {fill}", l[at]) } else { format!("{fill}{}", l[at]) };
            l.join("\n")
        })));
    }
    {
        // number of rows
        let g = corpus::puzzles()[3];
        v.push(("block_rowcount".into(), "0..=14 lines of each format x 14 tails x leading blank lines 0..=2", 3 * 15 * 14 * 3, Box::new(move |i| {
            let i = i as usize;
            let f = [Fmt::Bare, Fmt::Plus, Fmt::Minus][i % 3];
            let mut l = block_lines(&g, f, 0);
            let more = l.clone();
            l.extend(more);
            l.truncate(i / 3 % 15);
            let t = TAILS[i / 45 % 14];
            "\n".repeat(i / 630) + &l.join("\n") + t
        })));
    }
    v
}

pub fn c06(t: Tier) -> Prop {
    let fams: Vec<Family> = block_texts(t).into_iter().chain(deep_block_texts(t)).map(|(n, a, c, f)| textfam(&n, a, c, f, check_block)).collect();
    Prop {
        families: fams,
        assumptions: vec![
            "lines are split as str::lines does (LF or CRLF)".into(),
            "text glued to a horizontal delimiter without a space: accepting and rejecting are both allowed (undocumented)".into(),
        ],
        rule: "a state is a distinct input text; a transition is one parser call; a trace is one result compared with the reference grammar".into(),
    }
}

// ------------------------------------------------------------------ permissive

fn check_permissive(s: &str, ctx: &mut Ctx) -> R {
    ctx.state(s.as_bytes());
    ctx.step(1);
    ctx.trace();
    let got = match guarded(|| Sudoku::from_str_block_permissive(s)) {
        Ok(r) => r,
        Err((l, m)) => fail!("from_str_block_permissive panics on {s:?}: {m} at {l}"),
    };
    let mut rows: Vec<Vec<u8>> = vec![];
    for l in s.lines() {
        let v: Vec<u8> = l.chars().filter_map(cell_char).take(9).collect();
        if v.len() == 9 && rows.len() < 9 {
            rows.push(v);
        }
    }
    ctx.outcome(&[rows.len() as u8]);
    ctx.count(if rows.len() == 9 { "accepted" } else { "too_few_rows" }, 1);
    match got {
        Ok(q) => {
            ensure!(rows.len() == 9, "from_str_block_permissive({s:?}) accepts a text with only {} rows", rows.len());
            let w: Vec<u8> = rows.concat();
            ensure!(q.to_bytes()[..] == w[..], "from_str_block_permissive({s:?}) = {}, expected {w:?}", line(&q.to_bytes()));
        }
        Err(e) => {
            ensure!(rows.len() < 9, "from_str_block_permissive({s:?}) fails with {e:?} although there are nine rows");
            ensure!(e == NotEnoughRows(rows.len() as u8), "from_str_block_permissive({s:?}) reports {e:?}, but there are {} rows", rows.len());
        }
    }
    Ok(())
}

pub fn c07(t: Tier) -> Prop {
    let mut fams: Vec<Family> = block_texts(t).into_iter().chain(deep_block_texts(t)).map(|(n, a, c, f)| textfam(&n, a, c, f, check_permissive)).collect();
    fams.extend(line_texts().into_iter().map(|(n, a, c, f)| textfam(&n, a, c, f, check_permissive)));
    // sequences of line kinds: nine full rows with up to 3 other lines put anywhere, and all short sequences
    let kinds: [&str; 9] = ["123456789", "x9|8.7_6 5.4.3;2,1", "........1 2345", "12345678", "", "|||---", "1x2x3x4x5x6x7x8x9x1x2", "é1中2.3.4_5_6𝟗", "0_.0_.0_9é"];
    {
        let n: u64 = (0..=t.pick(5, 7) as u32).map(|l| 9u64.pow(l)).sum();
        fams.push(textfam("kinds_short", "every sequence of at most 5 (thorough 7) lines of 9 kinds, with and without final newline, also preceded by 5 rows", n * 4, move |i| {
            let (v, mut j) = (i % 4, i / 4);
            let mut len = 0;
            while j >= 9u64.pow(len) {
                j -= 9u64.pow(len);
                len += 1;
            }
            let mut l: Vec<&str> = (0..len).map(|p| kinds[(j / 9u64.pow(p) % 9) as usize]).collect();
            if v & 2 != 0 {
                for _ in 0..5 {
                    l.insert(0, "98765432.");
                }
            }
            l.join("\n") + if v & 1 == 0 { "" } else { "\r\n" }
        }, check_permissive));
    }
    {
        // all interleavings of 9..10 full rows and 3 arbitrary lines
        let subs: Vec<Vec<u8>> = subsets(12, 3).into_iter().filter(|s| s.len() == 3).collect();
        let n = subs.len() as u64 * 729 * 2;
        fams.push(textfam("kinds_long", "12 or 13 lines: every choice of 3 of the first 12 lines replaced by every triple of 9 kinds", n, move |i| {
            let (k, j) = (i % 729, i / 729);
            let s = &subs[(j % subs.len() as u64) as usize];
            let total = 12 + (j / subs.len() as u64) as usize;
            let mut o = String::new();
            for p in 0..total {
                let l = match s.iter().position(|&x| x as usize == p) {
                    Some(q) => kinds[(k / 9u64.pow(q as u32) % 9) as usize].to_string(),
                    None => (0..9).map(|c| ((p + c) % 10).to_string()).collect(),
                };
                o.push_str(&l);
                o.push('\n');
            }
            o
        }, check_permissive));
    }
    {
        // many rows and many lines without a row
        let sizes: Vec<usize> = (0..=530).chain(65_520..=65_560).collect();
        let m = sizes.len() as u64;
        fams.push(textfam("kinds_many", "k = 0..=9 rows, then n lines of one of 9 kinds, then 9 - k rows (or none); n = 0..=530, 65520..=65560", m * 9 * 10 * 2, move |i| {
            let (n, i) = (sizes[(i % m) as usize], (i / m) as usize);
            let k = i / 9 % 10;
            let last = if i / 90 == 0 { 9 - k } else { 0 };
            "98765432.\n".repeat(k) + &(kinds[i % 9].to_string() + "\n").repeat(n) + &"12345678_\n".repeat(last)
        }, check_permissive));
    }
    {
        // one line: every string of at most 5 key characters appended to 0..=9 cells, as tenth of nine rows
        let set = ['5', '.', '_', '0', ' ', 'x', '\n', 'é'];
        let k = set.len() as u64;
        let n: u64 = (0..=t.pick(5, 7) as u32).map(|l| k.pow(l)).sum::<u64>() * 10;
        fams.push(textfam("row_tails", "eight rows, then 0..=9 cells followed by every string of at most 5 (thorough 7) of 8 characters", n, move |i| {
            let (c, mut j) = (i % 10, i / 10);
            let mut len = 0;
            while j >= k.pow(len) {
                j -= k.pow(len);
                len += 1;
            }
            let mut o = "123456789\n".repeat(8);
            o.push_str(&"987654321"[..c as usize]);
            o.extend((0..len).map(|p| set[(j / k.pow(p) % k) as usize]));
            o
        }, check_permissive));
    }
    Prop {
        families: fams,
        assumptions: vec!["lines are split as str::lines does (LF or CRLF)".into()],
        rule: "a state is a distinct input text; a transition is one parser call; a trace is one result compared with the reference".into(),
    }
}

// ------------------------------------------------------------------ C08 round trips, order

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_roundtrip(g: &Grid, ctx: &mut Ctx) -> R {
    ctx.state(g);
    ctx.step(16);
    ctx.trace();
    let s = su(g);
    ensure!(s.to_bytes() == *g, "to_bytes() differs from the bytes given");
    ensure!(<[u8; 81]>::from(s) == *g, "conversion into [u8; 81] differs from the bytes given");
    let it: Vec<u8> = s.iter().map(|o| o.unwrap_or(0)).collect();
    ensure!(it[..] == g[..], "iter() yields {it:?}");
    ensure!(s.iter().all(|o| o != Some(0)), "iter() yields Some(0)");
    let l = s.to_str_line();
    ensure!(&*l == line(g), "to_str_line() = {:?}", &*l);
    ensure!(l.to_string() == line(g), "the displayed line form is {:?}", l.to_string());
    ensure!(s.to_string() == line(g), "the displayed sudoku is {:?}", s.to_string());
    match Sudoku::from_str_line(&l) {
        Ok(q) => ensure!(q == s && q.to_bytes() == *g && hash_of(&q) == hash_of(&s), "line form comes back as {q}"),
        Err(e) => fail!("line form is not readable: {e:?}"),
    }
    let b = s.display_block().to_string();
    match Sudoku::from_str_block_permissive(&b) {
        Ok(q) => ensure!(q.to_bytes() == *g, "block form comes back as {q}"),
        Err(e) => fail!("block form {b:?} is not readable: {e:?}"),
    }
    let rows: Vec<Vec<u8>> = b.lines().map(|l| l.chars().filter_map(cell_char).collect::<Vec<u8>>()).filter(|v| !v.is_empty()).collect();
    ensure!(rows.len() == 9 && rows.iter().all(|r| r.len() == 9) && rows.concat()[..] == g[..], "block form {b:?} does not show the grid row by row");
    ensure!(b.chars().all(|c| c.is_whitespace() || cell_char(c).is_some()), "block form {b:?} contains other characters");
    let j = serde_json::to_string(&s).map_err(|e| Violation { msg: format!("text serialization fails: {e}"), key: None })?;
    match serde_json::from_str::<Sudoku>(&j) {
        Ok(q) => ensure!(q.to_bytes() == *g, "text serialization {j} comes back as {q}"),
        Err(e) => fail!("text serialization {j} is not readable: {e}"),
    }
    match serde_json::from_reader::<_, Sudoku>(j.as_bytes()) {
        Ok(q) => ensure!(q.to_bytes() == *g, "text serialization {j} comes back as {q} from a reader"),
        Err(e) => fail!("text serialization {j} is not readable from a reader: {e}"),
    }
    match serde_json::to_value(s).map(serde_json::from_value::<Sudoku>) {
        Ok(Ok(q)) => ensure!(q.to_bytes() == *g, "JSON value comes back as {q}"),
        e => fail!("JSON value does not round-trip: {e:?}"),
    }
    let x = bincode::serialize(&s).map_err(|e| Violation { msg: format!("binary serialization fails: {e}"), key: None })?;
    match bincode::deserialize::<Sudoku>(&x) {
        Ok(q) => ensure!(q.to_bytes() == *g, "binary serialization comes back as {q}"),
        Err(e) => fail!("binary serialization {x:?} is not readable: {e}"),
    }
    match bincode::deserialize_from::<_, Sudoku>(&x[..]) {
        Ok(q) => ensure!(q.to_bytes() == *g, "binary serialization comes back as {q} from a reader"),
        Err(e) => fail!("binary serialization {x:?} is not readable from a reader: {e}"),
    }
    Ok(())
}

fn check_order(a: &Grid, b: &Grid, ctx: &mut Ctx) -> R {
    ctx.state_fp(fp(a) ^ fp(b).rotate_left(17));
    ctx.step(3);
    ctx.trace();
    let (x, y) = (su(a), su(b));
    let want = a.cmp(b);
    ctx.outcome(&[want as u8]);
    ensure!(x.cmp(&y) == want, "sudokus compare {:?}, their byte arrays {want:?}", x.cmp(&y));
    ensure!(x.partial_cmp(&y) == Some(want), "sudokus partially compare {:?}, their byte arrays {want:?}", x.partial_cmp(&y));
    let (lx, ly) = (x.to_str_line(), y.to_str_line());
    ensure!(lx.cmp(&ly) == want && lx.partial_cmp(&ly) == Some(want), "line forms compare {:?}, the byte arrays {want:?}", lx.cmp(&ly));
    ensure!((*lx).cmp(&*ly) == want, "line strings compare {:?}, the byte arrays {want:?}", (*lx).cmp(&*ly));
    ensure!((x == y) == (a == b), "sudoku equality is {}", x == y);
    ensure!((lx == ly) == (a == b), "line equality is {}", lx == ly);
    ensure!(x.to_bytes().cmp(&y.to_bytes()) == want, "byte arrays compare differently");
    if a == b {
        ensure!(hash_of(&x) == hash_of(&y) && hash_of(&lx) == hash_of(&ly), "equal values hash differently");
    }
    Ok(())
}

pub fn c08(t: Tier) -> Prop {
    let s = corpus::solved();
    let mut fams: Vec<Family> = vec![
        over(&bases(), check_roundtrip),
        over(&edits("edits", take(corpus::puzzles(), t.pick(30, 100)), false), check_roundtrip),
        over(&sparse2(), check_roundtrip),
        over(&full2(take(s, t.pick(1, 3))), check_roundtrip),
        over(&units(take(s, t.pick(40, 100)), 2), check_roundtrip),
    ];

    let all: Arc<Vec<Grid>> = Arc::new(corpus::puzzles().iter().chain(s).chain(corpus::invalid()).copied().chain([[0; 81]]).collect());
    let n = all.len() as u64;
    let (a1, a2) = (all.clone(), all);
    fams.push(family("order_corpus", "every ordered pair of embedded grids", n * n, move |i, c| check_order(&a1[(i / n) as usize], &a1[(i % n) as usize], c), move |i| format!("{} / {}", line(&a2[(i / n) as usize]), line(&a2[(i % n) as usize]))));
    // two grids that agree except in cells p < q, where they hold (a,b) and (c,d)
    let g = corpus::puzzles()[2];
    let vals = [0u8, 1, 5, 9];
    let at = move |i: u64| {
        let (v, mut p) = (i % 256, i / 256);
        let mut a = 0;
        while p >= 80 - a {
            p -= 80 - a;
            a += 1;
        }
        let (x, y) = (a as usize, (a + 1 + p) as usize);
        let (mut m, mut n) = (g, g);
        m[x] = vals[(v % 4) as usize];
        n[x] = vals[(v / 4 % 4) as usize];
        m[y] = vals[(v / 16 % 4) as usize];
        n[y] = vals[(v / 64) as usize];
        (m, n)
    };
    fams.push(family("order_two_cells", "every pair of cells in which two grids differ x every four values from {0,1,5,9}", 3240 * 256, move |i, c| { let (a, b) = at(i); check_order(&a, &b, c) }, move |i| { let (a, b) = at(i); format!("{} / {}", line(&a), line(&b)) }));
    let at1 = |i: u64| {
        let mut m = [0u8; 81];
        let mut n = [0u8; 81];
        m[(i / 100) as usize] = (i % 10) as u8;
        n[(i / 100) as usize] = (i / 10 % 10) as u8;
        (m, n)
    };
    fams.push(family("order_one_cell", "every cell x every pair of values", 8100, move |i, c| { let (a, b) = at1(i); check_order(&a, &b, c) }, move |i| { let (a, b) = at1(i); format!("{} / {}", line(&a), line(&b)) }));
    Prop { families: fams, assumptions: vec!["text format: serde_json; binary format: bincode".into()], rule: "a state is a distinct grid or pair of grids; a transition is one conversion or comparison; a trace is one grid or pair compared in all forms".into() }
}

// ------------------------------------------------------------------ C09 bytes

/// Minimal serde deserializer that hands over bytes in one of the ways a format may choose.
struct RawBytes<'a>(&'a [u8], u8, bool);
impl<'de> serde::Deserializer<'de> for RawBytes<'de> {
    type Error = serde::de::value::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.1 {
            0 => v.visit_bytes(self.0),
            1 => v.visit_borrowed_bytes(self.0),
            2 => v.visit_byte_buf(self.0.to_vec()),
            3 => v.visit_seq(serde::de::value::SeqDeserializer::new(self.0.iter().copied())),
            4 => v.visit_str(&String::from_utf8_lossy(self.0)),
            5 => v.visit_u64(self.0.len() as u64),
            6 => v.visit_unit(),
            7 => match std::str::from_utf8(self.0) {
                Ok(s) => v.visit_borrowed_str(s),
                Err(_) => v.visit_none(),
            },
            _ => v.visit_string(String::from_utf8_lossy(self.0).into_owned()),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.2
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn ok_bytes(b: &[u8]) -> bool {
    b.len() == 81 && b.iter().all(|&x| x <= 9)
}

fn check_bytes(b: &[u8], ctx: &mut Ctx) -> R {
    ctx.state(b);
    ctx.trace();
    ctx.step(6);
    let ok = ok_bytes(b);
    ctx.count(if ok { "valid" } else if b.len() == 81 { "bad_content" } else { "bad_length" }, 1);
    let judge = |r: Result<Sudoku, FromBytesSliceError>, how: &str| -> R {
        match r {
            Ok(s) => {
                ensure!(ok, "{how} accepts {b:?}");
                ensure!(s.to_bytes()[..] == *b, "{how} turns {b:?} into {}", line(&s.to_bytes()));
            }
            Err(FromBytesSliceError::WrongLength(n)) => ensure!(b.len() != 81 && n == b.len(), "{how}: WrongLength({n}) for a slice of length {}: {b:?}", b.len()),
            Err(FromBytesSliceError::FromBytesError(_)) => ensure!(b.len() == 81 && !ok, "{how}: content error for {b:?}"),
        }
        Ok(())
    };
    judge(Sudoku::from_bytes_slice(b), "from_bytes_slice")?;
    judge(Sudoku::try_from(b), "TryFrom<&[u8]>")?;
    if let Ok(a) = <[u8; 81]>::try_from(b) {
        for (how, r) in [("from_bytes", Sudoku::from_bytes(a)), ("TryFrom<[u8; 81]>", Sudoku::try_from(a))] {
            match r {
                Ok(s) => ensure!(ok && s.to_bytes() == a, "{how} turns {b:?} into {:?}", s.to_bytes()),
                Err(_) => ensure!(!ok, "{how} rejects {b:?}"),
            }
        }
    }
    // binary serde input
    let judge2 = |r: Result<Sudoku, String>, how: &str, may_accept: bool, must_accept: bool| -> R {
        match r {
            Ok(s) => ensure!(may_accept && s.to_bytes()[..] == *b, "{how} turns {b:?} into {:?}", &s.to_bytes()[..]),
            Err(e) => ensure!(!must_accept, "{how} rejects {b:?}: {e}"),
        }
        Ok(())
    };
    let enc = bincode::serialize(&BytesRef(b)).unwrap();
    judge2(bincode::deserialize::<Sudoku>(&enc).map_err(|e| e.to_string()), "binary deserialization", ok, ok)?;
    judge2(bincode::deserialize_from::<_, Sudoku>(&enc[..]).map_err(|e| e.to_string()), "binary deserialization from a reader", ok, ok)?;
    use serde::Deserialize;
    for k in 0..3u8 {
        let r = Sudoku::deserialize(RawBytes(b, k, false)).map_err(|e| e.to_string());
        judge2(r, ["visit_bytes", "visit_borrowed_bytes", "visit_byte_buf"][k as usize], ok, ok)?;
    }
    for k in [3u8, 5, 6] {
        let r = Sudoku::deserialize(RawBytes(b, k, false)).map_err(|e| e.to_string());
        judge2(r, "a binary format handing over something else than bytes", ok && k == 3, false)?;
    }
    Ok(())
}
pub struct BytesRef<'a>(pub &'a [u8]);
impl serde::Serialize for BytesRef<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

fn check_serde_text(s: &str, ctx: &mut Ctx) -> R {
    ctx.state(s.as_bytes());
    ctx.trace();
    ctx.step(5);
    let want = ref_line(s);
    let j = serde_json::to_string(s).unwrap();
    use serde::Deserialize;
    let rs: Vec<(&str, Result<Sudoku, String>)> = vec![
        ("serde_json::from_str", serde_json::from_str::<Sudoku>(&j).map_err(|e| e.to_string())),
        ("serde_json::from_slice", serde_json::from_slice::<Sudoku>(j.as_bytes()).map_err(|e| e.to_string())),
        ("serde_json::from_reader", serde_json::from_reader::<_, Sudoku>(j.as_bytes()).map_err(|e| e.to_string())),
        ("visit_str", Sudoku::deserialize(RawBytes(s.as_bytes(), 4, true)).map_err(|e| e.to_string())),
        ("visit_borrowed_str", Sudoku::deserialize(RawBytes(s.as_bytes(), 7, true)).map_err(|e| e.to_string())),
        ("visit_string", Sudoku::deserialize(RawBytes(s.as_bytes(), 8, true)).map_err(|e| e.to_string())),
    ];
    for (how, r) in rs {
        match (r, &want) {
            (Ok(q), Want::Ok(g)) => ensure!(q.to_bytes() == *g, "{how} of {s:?} gives {}", line(&q.to_bytes())),
            (Ok(q), Want::Err(_)) => fail!("{how} accepts {s:?} as {}", line(&q.to_bytes())),
            (Err(e), Want::Ok(_)) => fail!("{how} rejects {s:?}: {e}"),
            (Err(_), Want::Err(_)) => {}
        }
    }
    Ok(())
}

/// JSON documents of any shape: whatever is accepted must be a valid line or 81 valid numbers with that content.
fn check_json(j: &str, ctx: &mut Ctx) -> R {
    ctx.state(j.as_bytes());
    ctx.trace();
    ctx.step(2);
    let v: Option<serde_json::Value> = serde_json::from_str(j).ok();
    let want: Option<(Grid, bool)> = match &v {
        Some(serde_json::Value::String(s)) => match ref_line(s) {
            Want::Ok(g) => Some((g, true)),
            _ => None,
        },
        Some(serde_json::Value::Array(a)) => {
            let b: Vec<u8> = a.iter().filter_map(|x| x.as_u64()).filter(|&x| x <= 9).map(|x| x as u8).collect();
            if a.len() == 81 && b.len() == 81 {
                Some((b.try_into().unwrap(), false))
            } else {
                None
            }
        }
        _ => None,
    };
    match (serde_json::from_str::<Sudoku>(j), want) {
        (Ok(q), Some((g, _))) => ensure!(q.to_bytes() == g, "JSON {j} becomes {:?}", &q.to_bytes()[..]),
        (Ok(q), None) => fail!("JSON {j} is accepted as {:?}", &q.to_bytes()[..]),
        (Err(e), Some((_, true))) => fail!("JSON {j} is rejected: {e}"),
        _ => {}
    }
    Ok(())
}

pub fn c09(t: Tier) -> Prop {
    let p = corpus::puzzles();
    let bases_: Vec<Grid> = vec![p[0], p[5], corpus::solved()[2], [0; 81], [9; 81]];
    let mut fams = vec![];
    let bytes_family = |name: &str, about: &str, n: u64, at: Box<dyn Fn(u64) -> Vec<u8> + Send + Sync>| {
        let at: Arc<dyn Fn(u64) -> Vec<u8> + Send + Sync> = Arc::from(at);
        let a2 = at.clone();
        family(name, about, n, move |i, c| check_bytes(&at(i), c), move |i| format!("{:?}", a2(i)))
    };
    let b = bases_.clone();
    fams.push(bytes_family("one_byte", "5 grids x every position x every byte value", 5 * 81 * 256, Box::new(move |i| {
        let mut g = b[(i / 81 / 256) as usize].to_vec();
        g[(i / 256 % 81) as usize] = i as u8;
        g
    })));
    let b = bases_.clone();
    let vals = [0u8, 1, 8, 9, 10, 11, 15, 16, 25, 26, 32, 48, 57, 64, 127, 128, 137, 249, 250, 254, 255];
    fams.push(bytes_family("two_bytes", "3 grids x every ordered pair of positions x every pair of 21 boundary values (also sums and wrap-arounds that cancel)", 3 * 81 * 81 * 441, Box::new(move |i| {
        let j = i % (81 * 81 * 441);
        let mut g = b[(i / (81 * 81 * 441)) as usize * 2].to_vec();
        g[(j / 441 % 81) as usize] = vals[(j % 21) as usize];
        g[(j / 441 / 81) as usize] = vals[(j / 21 % 21) as usize];
        g
    })));
    if t == Tier::Thorough {
        let b = bases_.clone();
        fams.push(bytes_family("two_bytes_all", "one grid x every pair of positions x every pair of byte values", 3240 * 65_536, Box::new(move |i| {
            let mut g = b[0].to_vec();
            let (x, y) = pair81(i / 65_536);
            g[x] = i as u8;
            g[y] = (i >> 8) as u8;
            g
        })));
    }
    let b = bases_.clone();
    let nv = t.pick(3, 8);
    fams.push(bytes_family("three_bytes", "one grid x every three positions x every triple of 3 (thorough 8) boundary values", 85_320 * nv * nv * nv, Box::new(move |i| {
        let mut g = b[1].to_vec();
        let v = [255u8, 10, 0, 128, 26, 246, 64, 250];
        let (k, s) = (i % (nv * nv * nv), triple81(i / (nv * nv * nv)));
        for (p, z) in s.into_iter().zip([k % nv, k / nv % nv, k / nv / nv]) {
            g[p] = v[z as usize];
        }
        g
    })));
    let b = bases_.clone();
    fams.push(bytes_family("length", "every length 0..=400 (grid repeated) x 5 grids x (unchanged, last byte one of 21 values)", 401 * 5 * 22, Box::new(move |i| {
        let g = b[(i % 5) as usize];
        let mut v: Vec<u8> = (0..(i / 5 % 401) as usize).map(|k| g[k % 81]).collect();
        let t = (i / 5 / 401) as usize;
        if t > 0 {
            if let Some(l) = v.last_mut() {
                *l = vals[t - 1];
            }
        }
        v
    })));
    let b = bases_.clone();
    fams.push(bytes_family("long", "5 grids x every length 400..=1200, 65000..=65800 and 131072..=131272 (grid repeated)", 5 * (801 + 801 + 201), Box::new(move |i| {
        let g = b[(i % 5) as usize];
        let n = (i / 5) as usize;
        let n = if n < 801 { 400 + n } else if n < 1602 { 65_000 + n - 801 } else { 131_072 + n - 1602 };
        (0..n).map(|k| g[k % 81]).collect()
    })));
    fams.push(bytes_family("uniform", "81 (or 80, 82, 162) equal bytes of every value", 256 * 4, Box::new(|i| vec![i as u8; [81, 80, 82, 162][(i / 256) as usize]])));
    for (n, a, c, f) in line_texts() {
        if n != "line_edit2_1" && n != "line_length" && n != "line_long" {
            fams.push(textfam(&format!("serde_{n}"), a, c, f, check_serde_text));
        }
    }
    // JSON shapes
    let g = p[1];
    let list = |g: &[u64]| format!("[{}]", g.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let mut docs: Vec<String> = ["null", "true", "0", "81", "-1", "1.5", "\"\"", "[]", "{}", "[[]]", "[null]", "\"abc\"", "1e99", "[\"1\"]"].iter().map(|s| s.to_string()).collect();
    let gl: Vec<u64> = g.iter().map(|&x| x as u64).collect();
    for k in [0, 1, 2, 40, 79, 80] {
        for v in [0u64, 9, 10, 11, 255, 256, 257, 265, 1 << 32, u64::MAX] {
            let mut x = gl.clone();
            x[k] = v;
            docs.push(list(&x));
        }
    }
    for l in 0..=90 {
        docs.push(list(&gl.iter().cycle().take(l).copied().collect::<Vec<_>>()));
    }
    docs.push(format!("{{\"0\":{}}}", list(&gl)));
    docs.push(format!("[{}]", list(&gl)));
    docs.push(format!("[\"{}\"]", line(&g)));
    docs.push(format!("{{\"Sudoku\":\"{}\"}}", line(&g)));
    docs.push(format!("\"{}\" ", line(&g)));
    docs.push(format!(" \"{}\"", line(&g).replace('.', "\\u002e")));
    docs.push(format!("\"{}\\n\"", line(&g)));
    docs.push(format!("\"{}\\u0000\"", line(&g)));
    let n = docs.len() as u64;
    fams.push(textfam("json_shapes", "JSON documents of other shapes: numbers, arrays of every length 0..=90, arrays with out-of-range entries, nested, escaped", n, move |i| docs[i as usize].clone(), check_json));

    Prop { families: fams, assumptions: vec!["whether a list of 81 numbers is accepted by a text format is left open; if accepted, the content must be right".into()], rule: "a state is a distinct byte string or document; a transition is one conversion; a trace is one input judged through every entry point".into() }
}
