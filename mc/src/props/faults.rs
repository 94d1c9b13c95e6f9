//! C30: output and input that fail partway. Every point of failure of every printing, writing and reading operation.
use super::solving::su;
use crate::engine::*;
use crate::model::*;
use crate::spaces::*;
use crate::{corpus, ensure, fail};
use std::fmt::{self, Write};
use std::io;
use std::sync::Arc;
use sudoku::bitset::Set;
use sudoku::board::*;
use sudoku::errors::*;
use sudoku::strategy::StrategySolver;
use sudoku::Sudoku;

/// What goes wrong in a sink or source
#[derive(Clone, Copy, Debug)]
enum Fault {
    /// nothing
    No,
    /// only this many bytes fit; what does not fit is refused as a whole
    Full(usize),
    /// only this many bytes fit; the beginning of what does not fit is taken
    Torn(usize),
    /// this call fails, all others succeed
    Once(usize),
}
/// A text sink
struct Sink {
    fault: Fault,
    got: Vec<u8>,
    calls: usize,
    failed: bool,
    after: usize,
}
impl Sink {
    fn new(fault: Fault) -> Self {
        Sink { fault, got: vec![], calls: 0, failed: false, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += s.len();
        }
        let room = match self.fault {
            Fault::No => s.len(),
            Fault::Full(k) => {
                let left = k.saturating_sub(self.got.len());
                if self.failed || s.len() > left {
                    self.failed = true;
                    return Err(fmt::Error);
                }
                s.len()
            }
            Fault::Torn(k) => {
                if self.failed {
                    return Err(fmt::Error);
                }
                s.len().min(k.saturating_sub(self.got.len()))
            }
            Fault::Once(k) => {
                if n == k {
                    self.failed = true;
                    return Err(fmt::Error);
                }
                s.len()
            }
        };
        self.got.extend_from_slice(&s.as_bytes()[..room]);
        if room < s.len() {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// Every way in which one printing operation can fail
fn print_faults(what: &str, f: &dyn Fn(&mut Sink) -> fmt::Result, c: &mut Ctx) -> R {
    let mut s = Sink::new(Fault::No);
    ensure!(f(&mut s).is_ok(), "printing {what} fails though the sink does not");
    let (text, calls) = (s.got, s.calls);
    let shown = String::from_utf8_lossy(&text).into_owned();
    c.max("longest_text", text.len() as u64);
    let all = (0..text.len()).flat_map(|k| [Fault::Full(k), Fault::Torn(k)]).chain((0..calls).map(Fault::Once)).chain([Fault::Full(text.len()), Fault::Torn(text.len()), Fault::No]);
    for fault in all {
        c.step(1);
        let mut s = Sink::new(fault);
        let ok = f(&mut s).is_ok();
        let got = String::from_utf8_lossy(&s.got);
        ensure!(ok != s.failed, "printing {what} to a sink that fails ({fault:?}) {}", if ok { "reports success" } else { "reports failure though the sink did not fail" });
        ensure!(text.starts_with(&s.got), "printing {what} to a sink that fails ({fault:?}) leaves {got:?}, which is not the beginning of {shown:?}");
        ensure!(s.failed || s.got == text, "printing {what} gives {shown:?} once and {got:?} at another time");
    }
    c.trace();
    Ok(())
}

/// A byte sink or source: at most `chunk` bytes per call, every call interrupted once if `interrupted`
struct Stream<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    fault: Fault,
    chunk: usize,
    interrupted: Option<bool>,
    calls: usize,
    failed: bool,
}
impl<'a> Stream<'a> {
    fn new(data: &'a [u8], fault: Fault, chunk: usize, interrupted: bool) -> Self {
        Stream { data, out: vec![], fault, chunk, interrupted: if interrupted { Some(false) } else { None }, calls: 0, failed: false }
    }
    fn enter(&mut self) -> io::Result<()> {
        if let Some(i) = &mut self.interrupted {
            *i = !*i;
            if *i {
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        self.calls += 1;
        if let Fault::Once(k) = self.fault {
            if self.calls == k + 1 {
                self.failed = true;
                return Err(io::Error::new(io::ErrorKind::Other, "planned"));
            }
        }
        Ok(())
    }
}
impl io::Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.enter()?;
        let mut n = b.len().min(self.chunk);
        if let Fault::Torn(k) | Fault::Full(k) = self.fault {
            let left = k - self.out.len().min(k);
            if left == 0 {
                self.failed = true;
                // a full device: either an error or no progress
                return if let Fault::Full(_) = self.fault { Err(io::Error::new(io::ErrorKind::Other, "planned")) } else { Ok(0) };
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.enter()?;
        let mut n = b.len().min(self.chunk).min(self.data.len());
        if let Fault::Torn(k) | Fault::Full(k) = self.fault {
            let left = k - self.out.len().min(k);
            if left == 0 {
                self.failed = true;
                // the end of a truncated file, or an error
                return if let Fault::Full(_) = self.fault { Err(io::Error::new(io::ErrorKind::Other, "planned")) } else { Ok(0) };
            }
            n = n.min(left);
        }
        b[..n].copy_from_slice(&self.data[..n]);
        self.out.extend_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

fn stream_faults(g: &Grid, c: &mut Ctx) -> R {
    let s = su(g);
    type To = fn(&Sudoku, &mut Stream) -> bool;
    type From = fn(&mut Stream) -> Option<Sudoku>;
    let formats: [(&str, To, From); 2] = [
        ("JSON", |s, w| serde_json::to_writer(w, s).is_ok(), |r| serde_json::from_reader(r).ok()),
        ("bincode", |s, w| bincode::serialize_into(w, s).is_ok(), |r| bincode::deserialize_from(r).ok()),
    ];
    for (name, to, from) in formats {
        let mut w = Stream::new(&[], Fault::No, usize::MAX, false);
        ensure!(to(&s, &mut w), "writing as {name} fails");
        let full = w.out;
        for chunk in [1, 2, 7, usize::MAX] {
            for interrupted in [false, true] {
                let faults = [Fault::No, Fault::Torn(full.len()), Fault::Full(full.len())].into_iter().chain((0..full.len()).flat_map(|k| [Fault::Torn(k), Fault::Full(k), Fault::Once(k)]));
                for fault in faults {
                    c.step(2);
                    let how = format!("({fault:?}, {chunk} bytes per call, {})", if interrupted { "interrupted" } else { "not interrupted" });
                    let mut w = Stream::new(&[], fault, chunk, interrupted);
                    let ok = to(&s, &mut w);
                    ensure!(ok != w.failed, "writing as {name} to a sink {how} {}", if ok { "reports success though the sink failed" } else { "fails" });
                    ensure!(full.starts_with(&w.out) && (!ok || w.out == full), "writing as {name} to a sink {how} leaves {:?}", String::from_utf8_lossy(&w.out));
                    let mut r = Stream::new(&full, fault, chunk, interrupted);
                    let got = from(&mut r);
                    let complete = r.out.len() == full.len();
                    match got {
                        Some(q) => {
                            ensure!(q == s && q.to_bytes() == *g, "reading as {name} from a source {how} gives {q}");
                            ensure!(complete, "reading as {name} from a source {how} succeeds with {} of {} bytes", r.out.len(), full.len());
                        }
                        None => ensure!(r.failed, "reading as {name} from a source {how} fails"),
                    }
                }
            }
        }
        c.trace();
        // truncated in memory
        for k in 0..full.len() {
            c.step(1);
            let got = match name {
                "JSON" => serde_json::from_slice::<Sudoku>(&full[..k]).ok(),
                _ => bincode::deserialize::<Sudoku>(&full[..k]).ok(),
            };
            if let Some(q) = got {
                fail!("the first {k} of {} bytes of the {name} form are read as {q}", full.len());
            }
        }
    }
    Ok(())
}

fn errors() -> Vec<Box<dyn std::error::Error + Send + Sync>> {
    let mut v: Vec<Box<dyn std::error::Error + Send + Sync>> = vec![];
    for ch in ['a', '\n', '"', 'é', '\u{10ffff}'] {
        for cell in [0, 8, 80] {
            let e = InvalidEntry { cell, ch };
            v.push(Box::new(e));
            v.push(Box::new(LineParseError::InvalidEntry(e)));
            v.push(Box::new(BlockParseError::InvalidEntry(e)));
        }
    }
    for n in [0, 8, 80] {
        v.push(Box::new(NotEnoughRows(n)));
        v.push(Box::new(BlockParseError::NotEnoughRows(n)));
        v.push(Box::new(BlockParseError::InvalidLineLength(n)));
        v.push(Box::new(BlockParseError::MissingCommentDelimiter(n)));
        v.push(Box::new(LineParseError::NotEnoughCells(n)));
    }
    v.push(Box::new(BlockParseError::IncorrectFieldDelimiter));
    v.push(Box::new(BlockParseError::TooManyRows));
    v.push(Box::new(LineParseError::TooManyCells));
    v.push(Box::new(LineParseError::MissingCommentDelimiter));
    v
}
fn sizes() -> Vec<FromBytesSliceError> {
    let mut g = vec![0; 81];
    g[80] = 10;
    [vec![], vec![0; 80], vec![0; 82], g].iter().filter_map(|b| Sudoku::from_bytes_slice(b).err()).collect()
}

pub fn c30(t: Tier) -> Prop {
    let mut fams: Vec<Family> = vec![];
    let print = |g: &Grid, c: &mut Ctx| {
        c.state(g);
        let s = su(g);
        print_faults("a sudoku", &|w| write!(w, "{s}"), c)?;
        print_faults("a sudoku (padded)", &|w| write!(w, "{s:>85}"), c)?;
        let l = s.to_str_line();
        print_faults("a line form", &|w| write!(w, "{l}"), c)?;
        print_faults("a line form (debug)", &|w| write!(w, "{l:?}"), c)?;
        let b = s.display_block();
        print_faults("a block form", &|w| write!(w, "{b}"), c)
    };
    fams.push(super::solving::over(&bases(), print));
    fams.push(super::solving::over(&edits("edits", take(corpus::puzzles(), t.pick(2, 20)), false), print));
    let solvers: Arc<Vec<Grid>> = Arc::new(take(corpus::puzzles(), t.pick(80, 500)).into_iter().chain(take(corpus::solved(), 5)).chain(take(corpus::invalid(), 20)).chain([[0; 81]]).collect());
    let s2 = solvers.clone();
    fams.push(family(
        "solvers",
        format!("the printed form of the strategy solver for {} grids, before and after inserting a digit: every point of failure; afterwards the solver reports the same state", solvers.len()),
        solvers.len() as u64,
        move |i, c| {
            let g = &s2[i as usize];
            c.state(g);
            let mut s = StrategySolver::from_sudoku(su(g));
            for step in 0..2 {
                if step == 1 {
                    let Some(cell) = (0..81).find(|&c| g[c] == 0) else { break };
                    let _ = s.insert_candidate(Candidate::new(cell as u8, 5));
                }
                let before = s.clone().grid_state();
                print_faults("a strategy solver", &|w| write!(w, "{s}"), c)?;
                ensure!(s.clone().grid_state() == before, "printing a strategy solver to sinks that fail changes it");
            }
            Ok(())
        },
        move |i| line(&solvers[i as usize]),
    ));
    fams.push(family(
        "cell_states",
        "every digit and every one of the 512 candidate sets x widths 0, 1, 3, 9, 12",
        521,
        |i, c| {
            let v = if i < 9 { CellState::Digit(Digit::new(i as u8 + 1)) } else { CellState::Candidates(Set::from_bits((i - 9) as u16)) };
            c.state(&i.to_le_bytes());
            for w in [0, 1, 3, 9, 12] {
                print_faults(&format!("{v:?} with width {w}"), &|f| write!(f, "{v:w$}"), c)?;
            }
            print_faults(&format!("{v:?}"), &|f| write!(f, "{v}"), c)?;
            if let CellState::Candidates(s) = v {
                print_faults(&format!("{v:?} in binary"), &|f| write!(f, "{s:b}"), c)?;
            }
            Ok(())
        },
        |i| format!("value {i} (0-8: digits, then candidate sets)"),
    ));
    fams.push(family(
        "errors",
        "every kind of error with several payloads",
        1,
        |_, c| {
            for e in errors() {
                c.state(format!("{e:?}").as_bytes());
                print_faults(&format!("{e:?}"), &|f| write!(f, "{e}"), c)?;
            }
            for e in sizes() {
                c.state(format!("{e:?}").as_bytes());
                print_faults(&format!("{e:?}"), &|f| write!(f, "{e}"), c)?;
            }
            Ok(())
        },
        |_| "errors".into(),
    ));
    let few: Arc<Vec<Grid>> = Arc::new(take(corpus::puzzles(), t.pick(40, 300)).into_iter().chain(take(corpus::solved(), 5)).chain(take(corpus::invalid(), 5)).chain([[0; 81]]).collect());
    let f2 = few.clone();
    fams.push(family(
        "streams",
        format!("serialized form of {} grids (text and binary format) written to and read from streams: every length at which the stream ends or fails, every single failing call, 1, 2, 7 or any number of bytes per call, with and without interruptions", few.len()),
        few.len() as u64,
        move |i, c| {
            c.state(&f2[i as usize]);
            stream_faults(&f2[i as usize], c)
        },
        move |i| line(&few[i as usize]),
    ));
    Prop {
        families: fams,
        assumptions: vec!["one failure at a time".into(), "serde_json and bincode hand failures of their streams on".into()],
        rule: "a state is a value; a transition is one printing, writing or reading operation with one planned failure; a trace is one value with all its points of failure".into(),
    }
}
