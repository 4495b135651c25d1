//! Long lists under the repetitions and chains, against closed forms.
use oni_comb_parser_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::Hash;
use vcommon::{ensure, ensure_eq, CheckResult, Obs};

pub trait Sym: Element + Hash + Eq + Send + Sync {
    fn of(c: char) -> Self;
    fn digit(&self) -> u32;
    /// A literal text.
    fn lit<'a>(s: &'static str) -> Parser<'a, Self, ()>;
}
impl Sym for char {
    fn of(c: char) -> Self {
        c
    }
    fn digit(&self) -> u32 {
        *self as u32 - 48
    }
    fn lit<'a>(s: &'static str) -> Parser<'a, Self, ()> {
        tag(s).discard()
    }
}
impl Sym for u8 {
    fn of(c: char) -> Self {
        c as u8
    }
    fn digit(&self) -> u32 {
        *self as u32 - 48
    }
    fn lit<'a>(s: &'static str) -> Parser<'a, Self, ()> {
        seq(s.as_bytes()).discard()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Unit {
    Digit,
    Paren,
    Word,
    Two,
    Number,
    Counted,
    Cached,
    Guarded,
    Lazy,
    Signed,
    Converted,
}
pub const UNITS: &[Unit] = &[
    Unit::Digit,
    Unit::Paren,
    Unit::Word,
    Unit::Two,
    Unit::Number,
    Unit::Counted,
    Unit::Cached,
    Unit::Guarded,
    Unit::Lazy,
    Unit::Signed,
    Unit::Converted,
];

const WORDS: [&str; 4] = ["ab", "ac", "d", "efghij"];

impl Unit {
    /// Appends the text of an element and returns the value it has.
    pub fn text(self, h: u32, out: &mut String) -> u32 {
        let d = h % 10;
        let c = (48 + d as u8) as char;
        match self {
            Unit::Digit | Unit::Cached | Unit::Guarded | Unit::Lazy | Unit::Converted => {
                out.push(c);
                d
            }
            Unit::Paren => {
                out.push('(');
                out.push(c);
                out.push(')');
                d
            }
            Unit::Word => {
                out.push_str(WORDS[h as usize % 4]);
                h % 4
            }
            Unit::Two => {
                let e = h / 10 % 10;
                out.push(c);
                out.push((48 + e as u8) as char);
                d * 10 + e
            }
            Unit::Number => {
                let v = if h % 3 == 0 { h % 7 } else { h % 100_000 };
                out.push_str(&format!("{}.", v));
                v
            }
            Unit::Counted => {
                let d = d % 5;
                out.push((48 + d as u8) as char);
                for _ in 0..d {
                    out.push('z');
                }
                d
            }
            Unit::Signed => {
                if h % 2 == 0 {
                    out.push('~');
                }
                out.push(c);
                d + 10 * (1 - h % 2)
            }
        }
    }

    pub fn parser<'a, I: Sym + 'a>(self) -> Parser<'a, I, u32> {
        let digit = || elm_digit::<I>().map(|c| c.digit());
        match self {
            Unit::Digit => digit(),
            Unit::Paren => surround(elm(I::of('(')), digit(), elm(I::of(')'))),
            Unit::Word => {
                let mut p = I::lit(WORDS[0]).attempt().map(|_| 0);
                for (k, w) in WORDS.into_iter().enumerate().skip(1) {
                    p = p | I::lit(w).attempt().map(move |_| k as u32);
                }
                p
            }
            Unit::Two => take::<I>(2)
                .with_filter(|s: &&'a [I]| s.iter().all(|c| *c >= I::of('0') && *c <= I::of('9')))
                .map(|s: &'a [I]| s.iter().fold(0, |a, c| a * 10 + c.digit())),
            Unit::Number => (elm_digit::<I>().of_many1() - elm(I::of('.')))
                .map(|s: Vec<I>| s.iter().fold(0, |a, c| a * 10 + c.digit())),
            Unit::Counted => {
                digit().flat_map(|d| elm(I::of('z')).of_count(d as usize).map(move |_| d))
            }
            Unit::Cached => digit().cache(),
            Unit::Guarded => elm(I::of('!')).not() * digit() - elm(I::of('?')).opt().peek(),
            Unit::Lazy => lazy(|| elm_digit::<I>().map(|c| c.digit())),
            Unit::Signed => {
                (elm(I::of('~')).opt() + digit()).map(|(s, d)| d + if s.is_some() { 10 } else { 0 })
            }
            Unit::Converted => elm_digit::<I>().map_res(|c| {
                if c.digit() < 10 {
                    Ok(c.digit())
                } else {
                    Err("no")
                }
            }),
        }
    }
}

/// What stands between elements: its text, and its parser.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Sep {
    Comma,
    Spaced,
    Either,
    Blanks,
}
impl Sep {
    pub fn text(self, h: u32, out: &mut String) {
        match self {
            Sep::Comma => out.push(','),
            Sep::Spaced => out.push_str(", "),
            Sep::Either => out.push(if h % 2 == 0 { ',' } else { ';' }),
            Sep::Blanks => out.extend((0..=h % 3).map(|_| ' ')),
        }
    }
    pub fn parser<'a, I: Sym + 'a>(self) -> Parser<'a, I, ()> {
        match self {
            Sep::Comma => elm(I::of(',')).discard(),
            Sep::Spaced => (elm(I::of(',')) + elm(I::of(' '))).discard(),
            Sep::Either => (elm(I::of(',')) | elm(I::of(';'))).discard(),
            Sep::Blanks => elm_space::<I>().of_many1().discard(),
        }
    }
}

type Op = fn(u64, u64) -> u64;
const OPS: [(&str, Op); 4] = [
    ("+", |a, b| a.wrapping_mul(3).wrapping_add(b)),
    ("-", |a, b| a.wrapping_sub(b.wrapping_mul(5))),
    ("<>", |a, b| a ^ b.rotate_left(7)),
    ("mod", |a, b| a % (b | 1)),
];
fn ops<'a, I: Sym + 'a>() -> Parser<'a, I, Op> {
    let mut p = I::lit(OPS[0].0).attempt().map(|_| OPS[0].1);
    for (s, f) in OPS.into_iter().skip(1) {
        p = p | I::lit(s).attempt().map(move |_| f);
    }
    p
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Many0,
    Many1,
    From,
    Below,
    UpTo,
    Count,
    NM,
    Sep0,
    Sep1,
    SepFrom,
    SepBelow,
    SepUpTo,
    SepCount,
    SepNM,
    Left1,
    Left0,
    Right1,
    Right0,
    RestLeft,
    RestRight,
}
pub enum Group {
    Many,
    Sep,
    Chain,
    All,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Spoilt {
    No,
    /// Instead of an element.
    Element(u32),
    /// Instead of the separator or operator after an element.
    Between(u32),
    /// A separator or operator after the last element.
    After,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    unit: Unit,
    sep: Sep,
    n: u32,
    seed: u32,
    spoilt: Spoilt,
    /// The bounds of a range, as offsets from a part of n.
    low: (u8, i8),
    high: (u8, i8),
    tail: String,
    /// Elements of other input before the list.
    before: u32,
}

/// Sizes from nothing to hundreds of thousands, all orders of magnitude alike.
pub fn size(most: u32) -> BoxedStrategy<u32> {
    let top = (most as f64).ln();
    prop_oneof![
    4 => (0.0..top).prop_map(|x| x.exp() as u32),
    3 => (top * 0.75..top).prop_map(|x| x.exp() as u32),
    1 => prop::sample::select(vec![0u32, 1, 2, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537]).prop_map(move |n| n.min(most)),
    1 => vcommon::mined_int(most as u64).prop_map(|n| n as u32),
  ]
  .boxed()
}
pub fn hash(seed: u32, k: u32) -> u32 {
    let mut x = (seed as u64) << 32 | k as u64;
    x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    ((x ^ x >> 31) >> 8) as u32
}

pub fn case(group: Group) -> BoxedStrategy<Case> {
    use Kind::*;
    let mut kinds = vec![];
    if matches!(group, Group::Many | Group::All) {
        kinds.extend([Many0, Many1, From, Below, UpTo, Count, NM]);
    }
    if matches!(group, Group::Sep | Group::All) {
        kinds.extend([Sep0, Sep1, SepFrom, SepBelow, SepUpTo, SepCount, SepNM]);
    }
    if matches!(group, Group::Chain | Group::All) {
        kinds.extend([Left1, Left0, Right1, Right0, RestLeft, RestRight]);
    }
    let spoilt = prop_oneof![
      4 => Just(Spoilt::No),
      1 => Just(Spoilt::After),
      2 => any::<u32>().prop_map(Spoilt::Element),
      2 => any::<u32>().prop_map(Spoilt::Between),
    ];
    let bound = || (0u8..=4, prop_oneof![3 => Just(0i8), 2 => -2i8..3]);
    (
        (
            prop::sample::select(kinds),
            prop::sample::select(UNITS.to_vec()),
        ),
        prop::sample::select(vec![Sep::Comma, Sep::Spaced, Sep::Either, Sep::Blanks]),
        size(300_000),
        any::<u32>(),
        spoilt,
        bound(),
        bound(),
        prop::sample::select(vec!["", "!", "x", "\n", "!1,2", "\u{e9}"]),
        prop_oneof![2 => Just(0u32), 1 => 0u32..100_000],
    )
        .prop_map(
            |((kind, unit), sep, n, seed, mut spoilt, low, high, tail, before)| {
                match &mut spoilt {
                    Spoilt::Element(k) => *k %= n.max(1),
                    Spoilt::Between(k) => *k %= n.max(1),
                    _ => (),
                }
                Case {
                    kind,
                    unit,
                    sep,
                    n,
                    seed,
                    spoilt,
                    low,
                    high,
                    tail: tail.to_string(),
                    before,
                }
            },
        )
        .boxed()
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    List(Vec<u32>, usize),
    Value(u64, usize),
    Err(bool),
}

fn bound(b: (u8, i8), n: u32) -> usize {
    (n as i64 * b.0.min(4) as i64 / 2 + b.1 as i64).max(0) as usize
}

fn chain(k: Kind) -> bool {
    use Kind::*;
    matches!(k, Left1 | Left0 | Right1 | Right0 | RestLeft | RestRight)
}
fn rest(k: Kind) -> bool {
    matches!(k, Kind::RestLeft | Kind::RestRight)
}

fn list<'a, I>(state: &ParseState<'a, I>, p: Parser<'a, I, Vec<u32>>) -> Out {
    match p.run(state) {
        ParseResult::Success { value, length } => Out::List(value, length),
        ParseResult::Failure {
            committed_status, ..
        } => Out::Err(committed_status.is_committed()),
    }
}
fn value<'a, I>(state: &ParseState<'a, I>, p: Parser<'a, I, u64>) -> Out {
    match p.run(state) {
        ParseResult::Success { value, length } => Out::Value(value, length),
        ParseResult::Failure {
            committed_status, ..
        } => Out::Err(committed_status.is_committed()),
    }
}

pub fn check_char(c: &Case) -> CheckResult {
    check::<char>(c)
}
pub fn check_byte(c: &Case) -> CheckResult {
    check::<u8>(c)
}

fn check<I: Sym>(c: &Case) -> CheckResult {
    use Kind::*;
    let chain = chain(c.kind);
    let listed = !chain && !matches!(c.kind, Many0 | Many1 | From | Below | UpTo | Count | NM);
    // A minus or a digit as operator would be read as part of some elements: the operators avoid both alphabets.
    let mut text = String::new();
    let mut values = vec![];
    let mut picked: Vec<Op> = vec![];
    let mut ends = vec![];
    let mut available = c.n as usize;
    let mut dangling = false;
    let between = |k: u32, text: &mut String, picked: &mut Vec<Op>| {
        if chain {
            let o = OPS[hash(c.seed ^ 0x5555, k) as usize % OPS.len()];
            text.push_str(o.0);
            picked.push(o.1);
        } else if listed {
            c.sep.text(hash(c.seed ^ 0x5555, k), text);
        }
    };
    for k in 0..c.n {
        if k > 0 || rest(c.kind) {
            let at = if rest(c.kind) { k } else { k - 1 };
            if c.spoilt == Spoilt::Between(at) && (chain || listed) {
                available = available.min(k as usize);
                text.push('!');
            } else {
                between(k, &mut text, &mut picked);
            }
        }
        if c.spoilt == Spoilt::Element(k) {
            if available > k as usize {
                available = k as usize;
                dangling = true;
            }
            text.push('!');
        } else {
            values.push(c.unit.text(hash(c.seed, k), &mut text));
            ends.push(text.len());
        }
    }
    // Every text so far is ASCII, so its length in bytes is its length in elements.
    if c.spoilt == Spoilt::After && (c.n > 0 || rest(c.kind)) && (chain || listed) {
        between(c.n, &mut text, &mut picked);
        dangling = true;
    }
    text.push_str(&c.tail);
    let whole = available == c.n as usize;
    // A chain fails when an operator was read and no operand followed.
    let dangling = dangling && (whole || matches!(c.spoilt, Spoilt::Element(_)));

    let (low, mut high) = (bound(c.low, c.n), bound(c.high, c.n));
    if matches!(c.kind, NM | SepNM) {
        high = high.max(low);
    }
    let (least, most) = match c.kind {
        Many0 | Sep0 => (0, usize::MAX),
        Many1 | Sep1 => (1, usize::MAX),
        From | SepFrom => (low, usize::MAX),
        Below | SepBelow => (0, high.saturating_sub(1)),
        UpTo | SepUpTo => (0, high),
        Count | SepCount => (low, low),
        NM | SepNM => (low, high),
        _ => (0, usize::MAX),
    };
    let want = if chain {
        let seed = 7_777_777u64;
        let operands: Vec<u64> = values[..available].iter().map(|v| *v as u64).collect();
        let first_missing = available == 0 && !rest(c.kind);
        if first_missing {
            match c.kind {
                Left0 | Right0 => Out::Value(seed, 0),
                _ => Out::Err(false),
            }
        } else if dangling {
            Out::Err(true)
        } else {
            let all: Vec<u64> = if rest(c.kind) {
                std::iter::once(seed).chain(operands).collect()
            } else {
                operands
            };
            let used = if available == 0 {
                0
            } else {
                ends[available - 1]
            };
            let v = if matches!(c.kind, Left1 | Left0 | RestLeft) {
                let mut it = all.iter();
                let x = *it.next().unwrap();
                it.zip(&picked).fold(x, |x, (y, f)| f(x, *y))
            } else {
                let mut it = all.iter().rev();
                let x = *it.next().unwrap();
                let n = all.len() - 1;
                it.zip(picked[..n].iter().rev())
                    .fold(x, |y, (x, f)| f(*x, y))
            };
            Out::Value(v, used)
        }
    } else {
        let m = available.min(most);
        if m < least {
            Out::Err(false)
        } else {
            Out::List(values[..m].to_vec(), if m == 0 { 0 } else { ends[m - 1] })
        }
    };

    let input: Vec<I> = (0..c.before)
        .map(|_| I::of('1'))
        .chain(text.chars().map(I::of))
        .collect();
    let got = {
        let p = || c.unit.parser::<I>();
        let wide = || p().map(|v| v as u64);
        let sep = || c.sep.parser::<I>();
        let op = ops::<I>;
        let state = ParseState::new(&input, c.before as usize);
        let seed = 7_777_777u64;
        match c.kind {
            Many0 => list(&state, p().of_many0()),
            Many1 => list(&state, p().of_many1()),
            From => list(&state, p().repeat(low..)),
            Below => list(&state, p().repeat(0..high)),
            UpTo => list(&state, p().repeat(0..=high)),
            Count => list(&state, p().of_count(low)),
            NM => list(&state, p().of_many_n_m(low, high)),
            Sep0 => list(&state, p().of_many0_sep(sep())),
            Sep1 => list(&state, p().of_many1_sep(sep())),
            SepFrom => list(&state, p().of_rep_sep(low.., Some(sep()))),
            SepBelow => list(&state, p().of_rep_sep(0..high, Some(sep()))),
            SepUpTo => list(&state, p().of_rep_sep(0..=high, Some(sep()))),
            SepCount => list(&state, p().of_count_sep(low, sep())),
            SepNM => list(&state, p().of_many_n_m_sep(low, high, sep())),
            Left1 => value(&state, wide().chain_left1(op())),
            Left0 => value(&state, wide().chain_left0(op(), seed)),
            Right1 => value(&state, wide().scan_right1(op())),
            Right0 => value(&state, wide().chain_right0(op(), seed)),
            RestLeft => value(&state, wide().rest_left1(op(), seed)),
            RestRight => value(&state, wide().rest_right1(op(), seed)),
        }
    };
    match (&got, &want) {
        (Out::List(a, n), Out::List(b, m)) => {
            ensure_eq!(
                a.len(),
                b.len(),
                "elements read by {:?} of {:?}",
                c.kind,
                c.unit
            );
            ensure_eq!(n, m, "length consumed by {:?} of {:?}", c.kind, c.unit);
            let wrong = a.iter().zip(b).position(|(x, y)| x != y);
            ensure!(
                wrong.is_none(),
                "{:?} of {:?}: element {:?} differs",
                c.kind,
                c.unit,
                wrong
            );
        }
        _ => ensure_eq!(got, want, "{:?} of {:?}", c.kind, c.unit),
    }
    Ok(Obs::new(available > 1000)
        .label(format!("{:?}", c.kind))
        .label_if(available > 100_000, "over-100000")
        .label_if(matches!(want, Out::Err(true)), "err-committed")
        .label_if(matches!(want, Out::Err(false)), "err")
        .label_if(!whole, "stops-early"))
}
