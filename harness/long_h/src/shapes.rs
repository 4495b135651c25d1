//! Long slices, texts and tables.
use crate::lists::{hash, size, Sep, Sym, Unit, UNITS};
use oni_comb_parser_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CheckResult, Obs};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Take {
    Take,
    Skip,
    While0,
    While1,
    WhileNM,
    Till0,
    Till1,
    Seq,
    ManyCollected,
    AnyRefs,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TakeCase {
    kind: Take,
    n: u32,
    seed: u32,
    bytes: bool,
    before: u32,
    /// A foreign element at this place.
    odd: Option<u32>,
    /// Difference between the length asked for and the length there is.
    extra: i8,
}
pub fn take_case() -> BoxedStrategy<TakeCase> {
    (
        prop::sample::select(vec![
            Take::Take,
            Take::Skip,
            Take::While0,
            Take::While1,
            Take::WhileNM,
            Take::Till0,
            Take::Till1,
            Take::Seq,
            Take::ManyCollected,
            Take::AnyRefs,
        ]),
        size(1_000_000),
        any::<u32>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u32), 1 => 0u32..100_000],
        prop::option::of(any::<u32>()),
        prop_oneof![3 => Just(0i8), 2 => -3i8..4],
    )
        .prop_map(|(kind, n, seed, bytes, before, odd, extra)| TakeCase {
            kind,
            n,
            seed,
            bytes,
            before,
            odd: odd.map(|k| k % n.max(1)),
            extra,
        })
        .boxed()
}
fn slice<'a, I>(state: &ParseState<'a, I>, p: Parser<'a, I, Vec<I>>) -> Option<(Vec<I>, usize)> {
    match p.run(state) {
        ParseResult::Success { value, length } => Some((value, length)),
        ParseResult::Failure { .. } => None,
    }
}

pub fn take_check(c: &TakeCase) -> CheckResult {
    if c.bytes {
        take_check_of::<u8>(c)
    } else {
        take_check_of::<char>(c)
    }
}
fn take_check_of<I: Sym>(c: &TakeCase) -> CheckResult {
    let digits: Vec<I> = (0..c.n)
        .map(|k| {
            I::of(if c.odd == Some(k) {
                '!'
            } else {
                (48 + hash(c.seed, k) % 10) as u8 as char
            })
        })
        .collect();
    // The first run of digits: where it begins, and how long it is.
    let begin = if c.odd == Some(0) { 1 } else { 0 };
    let run = (if begin > 0 {
        c.n
    } else {
        c.odd.unwrap_or(c.n).min(c.n)
    })
    .saturating_sub(begin) as usize;
    let begin = begin as usize;
    let asked = (c.n as i64 + c.extra as i64).max(0) as usize;
    let input: Vec<I> = (0..c.before)
        .map(|_| I::of('!'))
        .chain(digits.iter().cloned())
        .collect();
    let there = digits.len();
    let good = |x: &I| *x >= I::of('0') && *x <= I::of('9');
    // None: fails.
    let want: Option<usize> = match c.kind {
        Take::Take | Take::Skip => (asked <= there).then_some(asked),
        Take::ManyCollected => Some(if begin > 0 { 0 } else { run }),
        Take::While0 => Some(if run > 0 { begin + run } else { 0 }),
        Take::While1 => (run > 0).then_some(begin + run),
        // At least half, at most what is asked for.
        Take::WhileNM => (run > 0 && run >= asked / 2 && run <= asked).then_some(begin + run),
        Take::Till0 => Some(c.odd.filter(|_| c.n > 0).map_or(there, |k| k as usize + 1)),
        Take::Till1 => c.odd.filter(|_| c.n > 0).map(|k| k as usize + 1),
        Take::Seq => Some(there),
        Take::AnyRefs => Some(there),
    };
    if c.kind == Take::Seq && there == 0 {
        return Ok(Obs::discard("empty literal"));
    }
    let got: Option<(Vec<I>, usize)> = {
        let state = ParseState::new(&input, c.before as usize);
        match c.kind {
            Take::Take => slice(&state, take::<I>(asked).map(|s: &[I]| s.to_vec())),
            Take::Skip => slice(&state, skip::<I>(asked).map(|_| vec![])),
            Take::While0 => slice(&state, take_while0(good).map(|s: &[I]| s.to_vec())),
            Take::While1 => slice(&state, take_while1(good).map(|s: &[I]| s.to_vec())),
            Take::WhileNM => slice(
                &state,
                take_while_n_m(asked / 2, asked, good).map(|s: &[I]| s.to_vec()),
            ),
            Take::Till0 => slice(
                &state,
                take_till0(move |x: &I| !good(x)).map(|s: &[I]| s.to_vec()),
            ),
            Take::Till1 => slice(
                &state,
                take_till1(move |x: &I| !good(x)).map(|s: &[I]| s.to_vec()),
            ),
            Take::Seq => slice(&state, seq(&digits)),
            Take::ManyCollected => slice(
                &state,
                elm_digit::<I>()
                    .of_many0()
                    .collect()
                    .map(|s: &[I]| s.to_vec()),
            ),
            Take::AnyRefs => slice(
                &state,
                elm_any_ref::<I>()
                    .of_many0()
                    .map(|s: Vec<&I>| s.into_iter().cloned().collect()),
            ),
        }
    };
    ensure_eq!(
        got.as_ref().map(|g| g.1),
        want,
        "length consumed by {:?}",
        c.kind
    );
    if let Some((value, length)) = got {
        if c.kind != Take::Skip {
            let from =
                if matches!(c.kind, Take::While0 | Take::While1 | Take::WhileNM) && length > 0 {
                    begin
                } else {
                    0
                };
            ensure!(
                value == digits[from..length],
                "{:?} gives other elements than it consumed",
                c.kind
            );
        }
    }
    Ok(Obs::new(c.n > 1000)
        .label(format!("{:?}", c.kind))
        .label_if(want.is_none(), "fails"))
}

/// A table: rows of elements, each ended by a line end.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rows {
    rows: u32,
    cells: u32,
    uneven: bool,
    unit: Unit,
    sep: Sep,
    seed: u32,
    form: u8,
}
pub fn rows_case() -> BoxedStrategy<Rows> {
    (
        size(200_000),
        size(200_000),
        any::<bool>(),
        prop::sample::select(UNITS.to_vec()),
        prop::sample::select(vec![Sep::Comma, Sep::Spaced, Sep::Either, Sep::Blanks]),
        any::<u32>(),
        0u8..6,
    )
        .prop_map(|(rows, cells, uneven, unit, sep, seed, form)| {
            // Few long rows, or many short ones.
            let (mut rows, mut cells) = (rows, cells);
            while rows as u64 * cells as u64 > 300_000 {
                if seed % 2 == 0 {
                    rows = rows / 2;
                } else {
                    cells = cells / 2;
                }
            }
            Rows {
                rows,
                cells,
                uneven,
                unit,
                sep,
                seed,
                form,
            }
        })
        .boxed()
}
pub fn rows_check(c: &Rows) -> CheckResult {
    let mut text = String::new();
    let mut want: Vec<Vec<u32>> = vec![];
    for r in 0..c.rows {
        let n = if c.uneven {
            hash(c.seed ^ 77, r) % (c.cells + 1)
        } else {
            c.cells
        };
        let mut row = vec![];
        if c.form == 5 {
            text.push('[');
        }
        for k in 0..n {
            if k > 0 {
                c.sep.text(hash(c.seed ^ 99, k), &mut text);
            }
            row.push(c.unit.text(hash(c.seed ^ r, k), &mut text));
        }
        text.push(if c.form == 5 { ']' } else { '\n' });
        want.push(row);
    }
    let input: Vec<char> = text.chars().collect();
    let got = {
        let row = || c.unit.parser::<char>().of_many0_sep(c.sep.parser());
        let all: Parser<char, Vec<Vec<u32>>> = match c.form {
            0 => (row() - elm('\n')).of_many0(),
            1 => (row() + elm('\n')).map(|x| x.0).of_count(c.rows as usize),
            2 => row().surround(elm('<').opt(), elm('\n')).of_many0(),
            3 => (row() - elm('\n')).attempt().of_many0(),
            // Rows joined by a chain.
            4 => (row() - elm('\n')).map(|r| vec![r]).chain_left0(
                successful_lazy(|| {
                    |mut a: Vec<Vec<u32>>, b: Vec<Vec<u32>>| {
                        a.extend(b);
                        a
                    }
                }),
                vec![],
            ),
            _ => surround(elm('['), row(), elm(']')).of_many0(),
        };
        match (all - end()).parse(&input) {
            ParseResult::Success { value, length } => Ok((value, length)),
            ParseResult::Failure { .. } => Err(()),
        }
    };
    ensure!(got.is_ok(), "a table of {} rows does not parse", c.rows);
    let (value, length) = got.unwrap();
    ensure_eq!(value.len(), want.len(), "number of rows");
    ensure!(value == want, "cells differ");
    ensure_eq!(length, input.len(), "length consumed");
    Ok(
        Obs::new(want.iter().map(|r| r.len() + 1).sum::<usize>() > 1000)
            .label(format!("form-{}", c.form))
            .label_if(c.rows > 10_000, "many-rows")
            .label_if(c.cells > 10_000, "long-rows"),
    )
}

/// Literals and patterns over long texts.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TextCase {
    kind: u8,
    n: u32,
    seed: u32,
    tail: String,
    differs: Option<u32>,
}
pub fn text_case() -> BoxedStrategy<TextCase> {
    (
        0u8..5,
        size(500_000),
        any::<u32>(),
        prop::sample::select(vec!["", "!", "1", "aé"]),
        prop::option::of(any::<u32>()),
    )
        .prop_map(|(kind, n, seed, tail, differs)| TextCase {
            kind,
            n: n.max(1),
            seed,
            tail: tail.to_string(),
            differs: differs.map(|k| k % n.max(1)),
        })
        .boxed()
}
pub fn text_check(c: &TextCase) -> CheckResult {
    let alphabet: Vec<char> = "abcdefgXYZéß日".chars().collect();
    let letters: Vec<char> = (0..c.n)
        .map(|k| alphabet[hash(c.seed, k) as usize % alphabet.len()])
        .collect();
    let literal: String = letters.iter().collect();
    let mut there = letters.clone();
    if let Some(k) = c.differs {
        there[k as usize] = '#';
    }
    let same = c.differs.unwrap_or(c.n) as usize;
    let mut input = there.clone();
    input.extend(c.tail.chars());
    let flipped: String = letters
        .iter()
        .enumerate()
        .map(|(k, x)| {
            if hash(c.seed ^ 3, k as u32) % 2 == 0 {
                x.to_ascii_uppercase()
            } else {
                x.to_ascii_lowercase()
            }
        })
        .collect();
    let tail_letters = c.tail.chars().take_while(|x| x.is_alphabetic()).count();
    let want: Option<(String, usize)> = match c.kind {
        0 | 1 => (c.differs.is_none()).then(|| (literal.clone(), c.n as usize)),
        2 => {
            let k = if c.differs.is_some() {
                same
            } else {
                same + tail_letters
            };
            (k > 0).then(|| (input[..k].iter().collect(), k))
        }
        // To the last letter of the text.
        3 => {
            let k = input.iter().rposition(|x| x.is_alphabetic()).map(|k| k + 1);
            k.map(|k| (input[..k].iter().collect(), k))
        }
        _ => (c.differs.is_none()).then(|| (literal.clone(), c.n as usize)),
    };
    let got = {
        let p: Parser<char, String> = match c.kind {
            0 => tag(&literal),
            1 => tag_no_case(&flipped),
            2 => regex(r"\p{L}+"),
            3 => regex(r"(?s).*\p{L}"),
            _ => seq(&letters).map(|v: Vec<char>| v.into_iter().collect()),
        };
        match p.parse(&input) {
            ParseResult::Success { value, length } => Some((value, length)),
            ParseResult::Failure { .. } => None,
        }
    };
    ensure_eq!(
        got.as_ref().map(|g| g.1),
        want.as_ref().map(|g| g.1),
        "length of kind {}",
        c.kind
    );
    if let (Some(g), Some(w)) = (&got, &want) {
        if c.kind == 1 {
            ensure!(
                g.0.to_lowercase() == w.0.to_lowercase(),
                "another text than the one read"
            );
        } else {
            ensure!(g.0 == w.0, "another text than the one read");
        }
    }
    Ok(Obs::new(c.n > 1000)
        .label(format!("kind-{}", c.kind))
        .label_if(want.is_none(), "fails"))
}
