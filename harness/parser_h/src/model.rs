//! A serialisable language of parser expressions with two interpretations: `build` makes the real parser out of
//! the library, `interp` is a direct, independently written reference semantics.
use oni_comb_parser_rs::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum V {
  U,
  C(u32),
  B(bool),
  N(usize),
  S(Vec<u32>),
  T(Box<V>, Box<V>),
  L(Vec<V>),
  O(Option<Box<V>>),
  M(u8, Box<V>),
  Bin(Box<V>, Box<V>, Box<V>),
}
impl V {
  pub fn h(&self) -> u64 {
    let s = format!("{:?}", self);
    s.bytes()
      .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
      >> 7
  }
  pub fn t(a: V, b: V) -> V {
    V::T(Box::new(a), Box::new(b))
  }
}

/// Bounds of a repetition, one variant for each range form the library accepts.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Rg {
  Full,
  Ex(usize, usize),
  In(usize, usize),
  From(usize),
  To(usize),
  ToIn(usize),
  Exact(usize),
}
impl Rg {
  pub fn min(&self) -> usize {
    match *self {
      Rg::Ex(a, _) | Rg::In(a, _) | Rg::From(a) | Rg::Exact(a) => a,
      _ => 0,
    }
  }
  /// greatest number of elements, None = unbounded
  pub fn max(&self) -> Option<usize> {
    match *self {
      Rg::Full | Rg::From(_) => None,
      Rg::Ex(_, b) | Rg::To(b) => Some(b.saturating_sub(1)),
      Rg::In(_, b) | Rg::ToIn(b) | Rg::Exact(b) => Some(b),
    }
  }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum E {
  // primitives
  Fail(bool),
  FailLazy(bool),
  Succ(u8),
  SuccLazy(u8),
  Pure(u8),
  Unit,
  Empty,
  Begin,
  End,
  // one element
  Any,
  AnyRef,
  Elm(char),
  ElmRef(char),
  Pred(u8),
  PredRef(u8),
  Class(u8),
  ClassRef(u8),
  In(char, char),
  InRef(char, char),
  Until(char, char),
  UntilRef(char, char),
  Of(u8),
  OfRef(u8),
  NoneOf(u8),
  NoneRefOf(u8),
  // several elements
  Seq(String),
  Tag(String),
  TagNoCase(String),
  Take(usize),
  Skip(usize),
  While0(u8),
  While1(u8),
  WhileNM(usize, usize, u8),
  Till0(u8),
  Till1(u8),
  // combinators
  Map(u8, Box<E>),
  Filter(u8, Box<E>),
  FilterNot(u8, Box<E>),
  MapRes(u8, Box<E>),
  FlatMap(Box<E>, Vec<E>),
  And(bool, Box<E>, Box<E>),
  Or(bool, Box<E>, Box<E>),
  SkipL(bool, Box<E>, Box<E>),
  SkipR(bool, Box<E>, Box<E>),
  Sur(bool, Box<E>, Box<E>, Box<E>),
  Not(bool, Box<E>),
  Opt(Box<E>),
  Attempt(Box<E>),
  Exists(Box<E>),
  Peek(Box<E>),
  Rep(Rg, Box<E>),
  RepSep(Rg, Box<E>, Box<E>),
  Many0(Box<E>),
  Many1(Box<E>),
  ManyNM(usize, usize, Box<E>),
  Count(usize, Box<E>),
  Many0Sep(Box<E>, Box<E>),
  Many1Sep(Box<E>, Box<E>),
  ManyNMSep(usize, usize, Box<E>, Box<E>),
  CountSep(usize, Box<E>, Box<E>),
  ChainL1(Box<E>, Box<E>),
  ChainL0(Box<E>, Box<E>, u8),
  ChainR1(bool, Box<E>, Box<E>),
  ChainR0(Box<E>, Box<E>, u8),
  RestL1(Box<E>, Box<E>, u8),
  RestR1(Box<E>, Box<E>, u8),
  Collect(Box<E>),
  Discard(Box<E>),
  LastOff(Box<E>),
  NextOff(Box<E>),
  // wrappers that must not change anything
  Cache(Box<E>),
  Name(Box<E>),
  Log(u8, Box<E>),
  Lazy(Box<E>),
}

pub const ALPHA: [char; 12] = ['a', 'b', 'c', 'A', 'B', '0', '1', '9', ',', '+', ' ', 'é'];
/// Symbols the class parsers draw their inputs from: members and near misses of every class.
pub const WIDE: [char; 32] = [
  'a', 'b', 'A', 'B', '0', '1', '9', ' ', '\t', '\n', '\r', '\x0b', '\x0c', '\0', '\x7f', '7', '8', 'f', 'F', 'g', 'G', 'z',
  'Z', '/', ':', '@', '[', '`', '{', '_', '\u{a0}', 'é',
];

/// Element sets used by set and take-while parsers: (symbols) by index.
pub const SETS: [&str; 8] = ["a", "ab", "abc", "01", "AB", "+, ", "é0a", ""];
pub static BSETS: [&[u8]; 8] = [b"a", b"ab", b"abc", b"01", b"AB", b"+, ", b"\xe90a", b""];
pub fn in_set(k: u8, c: u32) -> bool {
  SETS[k as usize % 8].chars().any(|x| x as u32 == c)
}
pub fn pred(k: u8, c: u32) -> bool {
  match k % 6 {
    0 => c % 2 == 0,
    1 => c >= 0x60,
    2 => c < 0x40,
    3 => true,
    4 => false,
    _ => c % 3 == 1,
  }
}
/// `pred` as a function handed to the library.
fn asked(k: u8, c: u32) -> bool {
  called("predicate", k % 6, || c as u64);
  pred(k, c)
}
/// The documented ASCII classes, in the order of `E::Class`.
pub const CLASS_NAMES: [&str; 9] = [
  "space", "multi_space", "alpha", "alpha_digit", "digit", "digit_1_9", "hex_digit", "oct_digit", "any",
];
pub fn class(k: u8, c: u32) -> bool {
  let a = if c < 128 { c as u8 } else { return k % 9 == 8 };
  match k % 9 {
    0 => a == b' ' || a == b'\t',
    1 => a == b' ' || a == b'\t' || a == b'\n' || a == b'\r',
    2 => a.is_ascii_alphabetic(),
    3 => a.is_ascii_alphanumeric(),
    4 => a.is_ascii_digit(),
    5 => a.is_ascii_digit() && a != b'0',
    6 => a.is_ascii_hexdigit(),
    7 => (b'0'..=b'7').contains(&a) || a == b'8', // the library documents 0..=8
    _ => true,
  }
}

/// Symbols the expressions can be instantiated with.
pub trait Sym: Element + std::hash::Hash + Eq {
  fn of(c: char) -> Self;
  fn code(&self) -> u32;
  fn set<'a>(k: u8) -> Parser<'a, Self, Self>;
  fn set_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self>;
  fn none<'a>(k: u8) -> Parser<'a, Self, Self>;
  fn none_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self>;
  fn tag<'a>(s: &'a str) -> Parser<'a, Self, V>;
  fn tag_nc<'a>(s: &'a str) -> Parser<'a, Self, V>;
  fn intern(s: &str) -> &'static [Self];
}
thread_local! {
  static CH: RefCell<HashMap<String, &'static [char]>> = RefCell::new(HashMap::new());
  static BY: RefCell<HashMap<String, &'static [u8]>> = RefCell::new(HashMap::new());
}
pub fn vstr(s: &str) -> V {
  V::S(s.chars().map(|c| c as u32).collect())
}
impl Sym for char {
  fn of(c: char) -> Self {
    c
  }
  fn code(&self) -> u32 {
    *self as u32
  }
  fn set<'a>(k: u8) -> Parser<'a, Self, Self> {
    elm_of(SETS[k as usize % 8])
  }
  fn set_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self> {
    elm_ref_of(SETS[k as usize % 8])
  }
  fn none<'a>(k: u8) -> Parser<'a, Self, Self> {
    none_of(SETS[k as usize % 8])
  }
  fn none_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self> {
    none_ref_of(SETS[k as usize % 8])
  }
  fn tag<'a>(s: &'a str) -> Parser<'a, Self, V> {
    tag(s).map(|s| vstr(&s))
  }
  fn tag_nc<'a>(s: &'a str) -> Parser<'a, Self, V> {
    tag_no_case(s).map(|s| vstr(&s))
  }
  fn intern(s: &str) -> &'static [Self] {
    CH.with(|m| {
      *m.borrow_mut()
        .entry(s.to_string())
        .or_insert_with(|| Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice()))
    })
  }
}
impl Sym for u8 {
  fn of(c: char) -> Self {
    c as u32 as u8
  }
  fn code(&self) -> u32 {
    *self as u32
  }
  fn set<'a>(k: u8) -> Parser<'a, Self, Self> {
    elm_of(BSETS[k as usize % 8])
  }
  fn set_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self> {
    elm_ref_of(BSETS[k as usize % 8])
  }
  fn none<'a>(k: u8) -> Parser<'a, Self, Self> {
    none_of(BSETS[k as usize % 8])
  }
  fn none_ref<'a>(k: u8) -> Parser<'a, Self, &'a Self> {
    none_ref_of(BSETS[k as usize % 8])
  }
  fn tag<'a>(s: &'a str) -> Parser<'a, Self, V> {
    // byte parsers have no tag: seq is the documented counterpart
    seq(Self::intern(s)).map(|v: Vec<u8>| V::S(v.iter().map(|b| b.code()).collect()))
  }
  fn tag_nc<'a>(s: &'a str) -> Parser<'a, Self, V> {
    Self::tag(s)
  }
  fn intern(s: &str) -> &'static [Self] {
    BY.with(|m| {
      *m.borrow_mut()
        .entry(s.to_string())
        .or_insert_with(|| Box::leak(s.chars().map(u8::of).collect::<Vec<_>>().into_boxed_slice()))
    })
  }
}

/// A call of a function handed to the library: which kind, which of its kind, what it was given.
pub type Call = (&'static str, u8, u64);
thread_local! {
  static CALLS: RefCell<Option<Vec<Call>>> = RefCell::new(None);
}
fn called(kind: &'static str, k: u8, given: impl FnOnce() -> u64) {
  CALLS.with(|l| {
    if let Some(l) = l.borrow_mut().as_mut() {
      l.push((kind, k, given()));
    }
  })
}
/// What is called while `f` runs.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Call>) {
  CALLS.with(|l| *l.borrow_mut() = Some(vec![]));
  let v = f();
  (v, CALLS.with(|l| l.borrow_mut().take().unwrap_or_default()))
}

pub type P<'a, I> = Parser<'a, I, V>;

fn vs<I: Sym>(s: &[I]) -> V {
  V::S(s.iter().map(|c| c.code()).collect())
}
fn vc<I: Sym>(c: I) -> V {
  V::C(c.code())
}
fn vr<I: Sym>(c: &I) -> V {
  V::C(c.code())
}

fn class_p<'a, I: Sym>(k: u8) -> Parser<'a, I, I> {
  match k % 9 {
    0 => elm_space(),
    1 => elm_multi_space(),
    2 => elm_alpha(),
    3 => elm_alpha_digit(),
    4 => elm_digit(),
    5 => elm_digit_1_9(),
    6 => elm_hex_digit(),
    7 => elm_oct_digit(),
    _ => elm_any(),
  }
}
fn class_ref<'a, I: Sym>(k: u8) -> Parser<'a, I, &'a I> {
  match k % 9 {
    0 => elm_space_ref(),
    1 => elm_multi_space_ref(),
    2 => elm_alpha_ref(),
    3 => elm_alpha_digit_ref(),
    4 => elm_digit_ref(),
    5 => elm_digit_1_9_ref(),
    6 => elm_hex_digit_ref(),
    7 => elm_oct_digit_ref(),
    _ => elm_any_ref(),
  }
}

fn rep<'a, I: Sym>(p: P<'a, I>, r: Rg, sep: Option<P<'a, I>>) -> Parser<'a, I, Vec<V>> {
  match (r, sep) {
    (Rg::Full, None) => p.repeat(..),
    (Rg::Ex(a, b), None) => p.repeat(a..b),
    (Rg::In(a, b), None) => p.repeat(a..=b),
    (Rg::From(a), None) => p.repeat(a..),
    (Rg::To(b), None) => p.repeat(..b),
    (Rg::ToIn(b), None) => p.repeat(..=b),
    (Rg::Exact(a), None) => p.repeat(a),
    (Rg::Full, s) => p.of_rep_sep(.., s),
    (Rg::Ex(a, b), s) => p.of_rep_sep(a..b, s),
    (Rg::In(a, b), s) => p.of_rep_sep(a..=b, s),
    (Rg::From(a), s) => p.of_rep_sep(a.., s),
    (Rg::To(b), s) => p.of_rep_sep(..b, s),
    (Rg::ToIn(b), s) => p.of_rep_sep(..=b, s),
    (Rg::Exact(a), s) => p.of_rep_sep(a, s),
  }
}

fn op<'a, I: Sym>(e: &'a E) -> Parser<'a, I, impl Fn(V, V) -> V + Clone + 'a> {
  build::<I>(e).map(|o| {
    move |a: V, b: V| {
      called("operator", 0, || o.h() ^ a.h().rotate_left(20) ^ b.h().rotate_left(40));
      V::Bin(Box::new(o.clone()), Box::new(a), Box::new(b))
    }
  })
}

pub fn custom<'a, I: Sym>() -> ParseError<'a, I> {
  ParseError::of_custom(0, None, "fail".to_string())
}
/// One of four errors that can be told apart.
pub fn given<'a, I: Sym>(k: u8) -> ParseError<'a, I> {
  match k % 4 {
    0 => ParseError::of_custom(7, None, "given 0".to_string()),
    1 => ParseError::of_custom(0, Some(Box::new(ParseError::of_in_complete())), "given 1".to_string()),
    2 => ParseError::of_expect(3, Box::new(ParseError::of_in_complete()), "given 2".to_string()),
    _ => ParseError::of_custom(2, None, String::new()),
  }
}
/// Why a parse fails.
#[derive(Debug, Clone, PartialEq)]
pub enum Cause {
  /// The error handed to a failing parser.
  Given(u8),
  /// Something else was there; stopped at this offset.
  Mismatch(usize),
  /// The input ended within something longer than one element.
  Incomplete,
  /// The input ended, at this offset, where one element was expected.
  End(usize),
  /// A conversion refused what begins at this offset.
  Conversion(usize),
  Filter,
  Named(Box<Cause>),
  /// Not specified.
  Unknown,
}

pub fn build<'a, I: Sym>(e: &'a E) -> P<'a, I> {
  let b = |e: &'a E| build::<I>(e);
  match e {
    E::Fail(c) => failed(given(u8::from(*c)), (*c).into()),
    E::FailLazy(c) => {
      let c = *c;
      failed_lazy(move || {
        called("failed_lazy", u8::from(c), || 0);
        (given(2 + u8::from(c)), c.into())
      })
    }
    E::Succ(k) => successful(V::N(*k as usize)),
    E::SuccLazy(k) => {
      let k = *k;
      successful_lazy(move || {
        called("successful_lazy", k, || 0);
        V::N(k as usize)
      })
    }
    E::Pure(k) => {
      let k = *k;
      <P<'a, I> as ParserPure<'a>>::pure(move || V::N(k as usize))
    }
    E::Unit => unit().map(|_| V::U),
    E::Empty => empty().map(|_| V::U),
    E::Begin => begin().map(|_| V::U),
    E::End => end().map(|_| V::U),
    E::Any => elm_any().map(vc::<I>),
    E::AnyRef => elm_any_ref().map(vr::<I>),
    E::Elm(c) => elm(I::of(*c)).map(vc::<I>),
    E::ElmRef(c) => elm_ref(I::of(*c)).map(vr::<I>),
    E::Pred(k) => {
      let k = *k;
      elm_pred(move |c: &I| asked(k, c.code())).map(vc::<I>)
    }
    E::PredRef(k) => {
      let k = *k;
      elm_pred_ref(move |c: &I| asked(k, c.code())).map(vr::<I>)
    }
    E::Class(k) => class_p::<I>(*k).map(vc::<I>),
    E::ClassRef(k) => class_ref::<I>(*k).map(vr::<I>),
    E::In(x, y) => elm_in(I::of(*x), I::of(*y)).map(vc::<I>),
    E::InRef(x, y) => elm_in_ref(I::of(*x), I::of(*y)).map(vr::<I>),
    E::Until(x, y) => elm_from_until(I::of(*x), I::of(*y)).map(vc::<I>),
    E::UntilRef(x, y) => elm_from_until_ref(I::of(*x), I::of(*y)).map(vr::<I>),
    E::Of(k) => I::set(*k).map(vc::<I>),
    E::OfRef(k) => I::set_ref(*k).map(vr::<I>),
    E::NoneOf(k) => I::none(*k).map(vc::<I>),
    E::NoneRefOf(k) => I::none_ref(*k).map(vr::<I>),
    E::Seq(s) => seq(I::intern(s)).map(|v: Vec<I>| vs(&v)),
    E::Tag(s) => I::tag(s),
    E::TagNoCase(s) => I::tag_nc(s),
    E::Take(n) => take::<I>(*n).map(vs::<I>),
    E::Skip(n) => skip::<I>(*n).map(|_| V::U),
    E::While0(k) => {
      let k = *k;
      take_while0(move |c: &I| in_set(k, c.code())).map(vs::<I>)
    }
    E::While1(k) => {
      let k = *k;
      take_while1(move |c: &I| in_set(k, c.code())).map(vs::<I>)
    }
    E::WhileNM(n, m, k) => {
      let k = *k;
      take_while_n_m(*n, *m, move |c: &I| in_set(k, c.code())).map(vs::<I>)
    }
    E::Till0(k) => {
      let k = *k;
      take_till0(move |c: &I| in_set(k, c.code())).map(vs::<I>)
    }
    E::Till1(k) => {
      let k = *k;
      take_till1(move |c: &I| in_set(k, c.code())).map(vs::<I>)
    }
    E::Map(k, p) => {
      let k = *k;
      b(p).map(move |v| {
        called("map", k, || v.h());
        V::M(k, Box::new(v))
      })
    }
    E::Filter(k, p) => {
      let k = *k;
      b(p).with_filter(move |v| {
        called("filter", k, || v.h());
        keep(k, v)
      })
    }
    E::FilterNot(k, p) => {
      let k = *k;
      b(p).with_filter_not(move |v| {
        called("filter_not", k, || v.h());
        keep(k, v)
      })
    }
    E::MapRes(k, p) => {
      let k = *k;
      b(p).map_res(move |v| {
        called("map_res", k, || v.h());
        if keep(k, &v) {
          Ok(V::M(k, Box::new(v)))
        } else {
          Err("no")
        }
      })
    }
    E::FlatMap(p, ks) => b(p).flat_map(move |v| {
      called("flat_map", ks.len() as u8, || v.h());
      let i = (v.h() % ks.len() as u64) as usize;
      build::<I>(&ks[i]).map(move |w| V::t(v.clone(), w))
    }),
    E::And(o, x, y) => {
      let p = if *o { b(x) + b(y) } else { b(x).and_then(b(y)) };
      p.map(|(x, y)| V::t(x, y))
    }
    E::Or(o, x, y) => {
      if *o {
        b(x) | b(y)
      } else {
        b(x).or(b(y))
      }
    }
    E::SkipL(o, x, y) => {
      if *o {
        b(x) * b(y)
      } else {
        b(x).skip_left(b(y))
      }
    }
    E::SkipR(o, x, y) => {
      if *o {
        b(x) - b(y)
      } else {
        b(x).skip_right(b(y))
      }
    }
    E::Sur(o, l, p, r) => {
      if *o {
        surround(b(l), b(p), b(r))
      } else {
        b(p).surround(b(l), b(r))
      }
    }
    E::Not(o, p) => {
      let p = b(p);
      let n = if *o { !p } else { OperatorParser::not(p) };
      n.map(|_| V::U)
    }
    E::Opt(p) => b(p).opt().map(|o| V::O(o.map(Box::new))),
    E::Attempt(p) => b(p).attempt(),
    E::Exists(p) => b(p).exists().map(V::B),
    E::Peek(p) => b(p).peek(),
    E::Rep(r, p) => rep(b(p), *r, None).map(V::L),
    E::RepSep(r, p, s) => rep(b(p), *r, Some(b(s))).map(V::L),
    E::Many0(p) => b(p).of_many0().map(V::L),
    E::Many1(p) => b(p).of_many1().map(V::L),
    E::ManyNM(n, m, p) => b(p).of_many_n_m(*n, *m).map(V::L),
    E::Count(n, p) => b(p).of_count(*n).map(V::L),
    E::Many0Sep(p, s) => b(p).of_many0_sep(b(s)).map(V::L),
    E::Many1Sep(p, s) => b(p).of_many1_sep(b(s)).map(V::L),
    E::ManyNMSep(n, m, p, s) => b(p).of_many_n_m_sep(*n, *m, b(s)).map(V::L),
    E::CountSep(n, p, s) => b(p).of_count_sep(*n, b(s)).map(V::L),
    E::ChainL1(p, o) => b(p).chain_left1(op::<I>(o)),
    E::ChainL0(p, o, x) => b(p).chain_left0(op::<I>(o), V::N(*x as usize)),
    E::ChainR1(s, p, o) => {
      if *s {
        b(p).scan_right1(op::<I>(o))
      } else {
        b(p).chain_right1(op::<I>(o))
      }
    }
    E::ChainR0(p, o, x) => b(p).chain_right0(op::<I>(o), V::N(*x as usize)),
    E::RestL1(p, o, x) => b(p).rest_left1(op::<I>(o), V::N(*x as usize)),
    E::RestR1(p, o, x) => b(p).rest_right1(op::<I>(o), V::N(*x as usize)),
    E::Collect(p) => b(p).collect().map(vs::<I>),
    E::Discard(p) => b(p).discard().map(|_| V::U),
    E::LastOff(p) => b(p).last_offset().map(V::N),
    E::NextOff(p) => b(p).next_offset().map(V::N),
    E::Cache(p) => b(p).cache(),
    E::Name(p) => b(p).name("thing"),
    E::Log(k, p) => match k % 4 {
      0 => b(p).debug("d"),
      1 => b(p).info("i"),
      2 => b(p).warn("w"),
      _ => b(p).error("e"),
    },
    E::Lazy(p) => {
      let p: &'a E = p;
      lazy(move || build::<I>(p))
    }
  }
}

pub fn keep(k: u8, v: &V) -> bool {
  match k % 4 {
    0 => v.h() % 2 == 0,
    1 => true,
    2 => v.h() % 3 != 0,
    _ => false,
  }
}

// ------------------------------------------------------------------------------------- reference semantics
#[derive(Debug, Clone, PartialEq)]
pub enum R {
  Ok(V, usize),
  Err(bool),
}
/// The expression has no result on this input (unbounded repetition of nothing) or is too big to bother.
#[derive(Debug)]
pub struct Diverges;
type Res = Result<R, Diverges>;

pub struct Interp<'x> {
  pub input: &'x [u32],
  pub fuel: u32,
  /// byte parsers have no case-insensitive tag; `build` falls back to the sensitive one
  pub bytes: bool,
  /// node kinds that mattered (for coverage labels)
  pub seen_committed: bool,
  pub seen_backtrack: bool,
  /// Of the latest failure.
  pub cause: Cause,
  /// Results of logged parsers, in the order of their ends.
  pub logged: Vec<(u8, Option<String>)>,
}

impl<'x> Interp<'x> {
  pub fn new(input: &'x [u32], bytes: bool) -> Self {
    Interp {
      input,
      fuel: 6000 + 20 * input.len() as u32,
      bytes,
      seen_committed: false,
      seen_backtrack: false,
      cause: Cause::Unknown,
      logged: vec![],
    }
  }
  fn fail(&mut self, cause: Cause) -> R {
    self.cause = cause;
    R::Err(false)
  }
  fn one(&mut self, pos: usize, f: impl Fn(u32) -> bool) -> Res {
    Ok(match self.input.get(pos) {
      Some(&c) if f(c) => R::Ok(V::C(c), 1),
      Some(_) => self.fail(Cause::Mismatch(pos)),
      None => self.fail(Cause::End(pos)),
    })
  }
  fn lit(&mut self, pos: usize, s: &str, eq: impl Fn(char, u32) -> bool, out: V) -> Res {
    let mut i = 0;
    for c in s.chars() {
      match self.input.get(pos + i) {
        None => return Ok(self.fail(Cause::Incomplete)),
        Some(&x) if !eq(c, x) => {
          self.fail(Cause::Mismatch(pos + i));
          return Ok(R::Err(i > 0));
        }
        _ => i += 1,
      }
    }
    Ok(R::Ok(out, i))
  }
  fn first_run(&self, pos: usize, k: u8) -> Option<(usize, usize)> {
    let rest = &self.input[pos..];
    let s = rest.iter().position(|&c| in_set(k, c))?;
    let e = rest[s..]
      .iter()
      .position(|&c| !in_set(k, c))
      .map(|n| s + n)
      .unwrap_or(rest.len());
    Some((s, e))
  }
  fn slice(&self, pos: usize, a: usize, b: usize) -> V {
    V::S(self.input[pos + a..pos + b].to_vec())
  }
  fn rep(&mut self, p: &E, sep: Option<&E>, min: usize, max: Option<usize>, pos: usize) -> Res {
    let mut items = vec![];
    let mut at = pos;
    while max.map_or(true, |m| items.len() < m) {
      let mut next = at;
      if !items.is_empty() {
        if let Some(s) = sep {
          match self.go(s, next)? {
            R::Ok(_, n) => next += n,
            R::Err(_) => break,
          }
        }
      }
      match self.go(p, next)? {
        R::Ok(v, n) => {
          items.push(v);
          if next + n == at && max.map_or(true, |m| m > 1000) {
            return Err(Diverges);
          }
          at = next + n;
        }
        R::Err(_) => break,
      }
    }
    Ok(if items.len() < min {
      self.fail(Cause::Mismatch(at))
    } else {
      R::Ok(V::L(items), at - pos)
    })
  }
  fn chain_l(&mut self, p: &E, o: &E, mut acc: V, pos: usize) -> Res {
    // acc has been read; reads (op p)* from pos. The failure status tells whether anything was consumed
    // by the last operator; what was consumed before it commits as well.
    let mut at = pos;
    loop {
      self.tick()?;
      match self.go(o, at)? {
        R::Err(false) => return Ok(R::Ok(acc, at - pos)),
        R::Err(true) => return Ok(R::Err(true)),
        R::Ok(f, n1) => match self.go(p, at + n1)? {
          R::Err(c) => {
            if c || n1 != 0 {
              return Ok(R::Err(true));
            }
            return Ok(R::Ok(acc, at - pos));
          }
          R::Ok(y, n2) => {
            if n1 + n2 == 0 {
              return Err(Diverges);
            }
            called("operator", 0, || f.h() ^ acc.h().rotate_left(20) ^ y.h().rotate_left(40));
            acc = V::Bin(Box::new(f), Box::new(acc), Box::new(y));
            at += n1 + n2;
          }
        },
      }
    }
  }
  fn chain_r1(&mut self, p: &E, o: &E, pos: usize) -> Res {
    match self.go(p, pos)? {
      R::Err(c) => Ok(R::Err(c)),
      R::Ok(x, n) => Ok(match self.rest_r(p, o, x, pos + n)? {
        R::Ok(v, m) => R::Ok(v, n + m),
        R::Err(c) => R::Err(c || n != 0),
      }),
    }
  }
  fn rest_r(&mut self, p: &E, o: &E, x: V, pos: usize) -> Res {
    self.tick()?;
    match self.go(o, pos)? {
      R::Err(true) => Ok(R::Err(true)),
      R::Err(false) => Ok(R::Ok(x, 0)),
      R::Ok(f, n1) => Ok(match self.chain_r1(p, o, pos + n1)? {
        R::Ok(y, n2) => {
          called("operator", 0, || f.h() ^ x.h().rotate_left(20) ^ y.h().rotate_left(40));
          R::Ok(V::Bin(Box::new(f), Box::new(x), Box::new(y)), n1 + n2)
        }
        R::Err(c) if c || n1 != 0 => R::Err(true),
        R::Err(_) => R::Ok(x, 0),
      }),
    }
  }
  fn tick(&mut self) -> Result<(), Diverges> {
    if self.fuel == 0 {
      return Err(Diverges);
    }
    self.fuel -= 1;
    Ok(())
  }
  pub fn go(&mut self, e: &E, pos: usize) -> Res {
    let r = self.go0(e, pos)?;
    if r == R::Err(true) {
      self.seen_committed = true;
    }
    Ok(r)
  }
  fn go0(&mut self, e: &E, pos: usize) -> Res {
    self.tick()?;
    let rest = self.input.len() - pos;
    let ok = |v: V| Ok(R::Ok(v, 0));
    match e {
      E::Fail(c) | E::FailLazy(c) => {
        if matches!(e, E::FailLazy(_)) {
          called("failed_lazy", u8::from(*c), || 0);
        }
        self.fail(Cause::Given(u8::from(*c) + if matches!(e, E::Fail(_)) { 0 } else { 2 }));
        Ok(R::Err(*c))
      }
      E::SuccLazy(k) => {
        called("successful_lazy", *k, || 0);
        ok(V::N(*k as usize))
      }
      E::Succ(k) | E::Pure(k) => ok(V::N(*k as usize)),
      E::Unit | E::Empty | E::Begin => ok(V::U),
      E::End => {
        if rest == 0 {
          ok(V::U)
        } else {
          Ok(self.fail(Cause::Mismatch(pos)))
        }
      }
      E::Any | E::AnyRef => self.one(pos, |_| true),
      E::Elm(c) | E::ElmRef(c) => self.one(pos, |x| x == *c as u32),
      E::Pred(k) | E::PredRef(k) => self.one(pos, |x| asked(*k, x)),
      E::Class(k) | E::ClassRef(k) => {
        let r = self.one(pos, |x| class(*k, x));
        if *k % 9 == 5 && self.input.get(pos) == Some(&48) {
          self.cause = Cause::Unknown; // a digit, but not one of those
        }
        r
      }
      E::In(a, b) | E::InRef(a, b) => self.one(pos, |x| *a as u32 <= x && x <= *b as u32),
      E::Until(a, b) | E::UntilRef(a, b) => self.one(pos, |x| *a as u32 <= x && x < *b as u32),
      E::Of(k) | E::OfRef(k) => self.one(pos, |x| in_set(*k, x)),
      E::NoneOf(k) | E::NoneRefOf(k) => self.one(pos, |x| !in_set(*k, x)),
      E::Seq(s) | E::Tag(s) => self.lit(pos, s, |a, b| a as u32 == b, vstr(s)),
      E::TagNoCase(s) if self.bytes => self.lit(pos, s, |a, b| a as u32 == b, vstr(s)),
      E::TagNoCase(s) => self.lit(
        pos,
        s,
        |a, b| {
          let l = |c: u32| if (65..=90).contains(&c) { c + 32 } else { c };
          l(a as u32) == l(b)
        },
        vstr(s),
      ),
      E::Take(n) => Ok(if rest >= *n {
        R::Ok(self.slice(pos, 0, *n), *n)
      } else {
        self.fail(Cause::Incomplete)
      }),
      E::Skip(n) => Ok(if rest >= *n { R::Ok(V::U, *n) } else { self.fail(Cause::Incomplete) }),
      E::While0(k) => Ok(match self.first_run(pos, *k) {
        Some((s, e)) => R::Ok(self.slice(pos, s, e), e),
        None => R::Ok(V::S(vec![]), 0),
      }),
      E::While1(k) => Ok(match self.first_run(pos, *k) {
        Some((s, e)) => R::Ok(self.slice(pos, s, e), e),
        None => self.fail(Cause::Unknown),
      }),
      E::WhileNM(n, m, k) => Ok(match self.first_run(pos, *k) {
        Some((s, e)) if *n <= e - s && e - s <= *m => R::Ok(self.slice(pos, s, e), e),
        _ => self.fail(Cause::Unknown),
      }),
      E::Till0(k) | E::Till1(k) => {
        let hit = self.input[pos..].iter().position(|&c| in_set(*k, c));
        Ok(match hit {
          Some(i) => R::Ok(self.slice(pos, 0, i + 1), i + 1),
          None if matches!(e, E::Till0(_)) => R::Ok(self.slice(pos, 0, rest), rest),
          None => self.fail(Cause::Unknown),
        })
      }
      E::Map(k, p) => Ok(match self.go(p, pos)? {
        R::Ok(v, n) => {
          called("map", *k, || v.h());
          R::Ok(V::M(*k, Box::new(v)), n)
        }
        r => r,
      }),
      E::Filter(k, p) | E::FilterNot(k, p) => {
        let neg = matches!(e, E::FilterNot(..));
        Ok(match self.go(p, pos)? {
          R::Ok(v, n) => {
            called(if neg { "filter_not" } else { "filter" }, *k, || v.h());
            if keep(*k, &v) != neg {
              R::Ok(v, n)
            } else {
              self.fail(Cause::Filter)
            }
          }
          r => r,
        })
      }
      E::MapRes(k, p) => Ok(match self.go(p, pos)? {
        R::Ok(v, n) => {
          called("map_res", *k, || v.h());
          if keep(*k, &v) {
            R::Ok(V::M(*k, Box::new(v)), n)
          } else {
            self.fail(Cause::Conversion(pos))
          }
        }
        r => r,
      }),
      E::FlatMap(p, ks) => match self.go(p, pos)? {
        R::Ok(v, n) => {
          called("flat_map", ks.len() as u8, || v.h());
          let i = (v.h() % ks.len() as u64) as usize;
          Ok(match self.go(&ks[i], pos + n)? {
            R::Ok(w, m) => R::Ok(V::t(v, w), n + m),
            R::Err(c) => R::Err(c || n != 0),
          })
        }
        r => Ok(r),
      },
      E::And(_, x, y) => self.both(x, y, pos, V::t),
      E::SkipL(_, x, y) => self.both(x, y, pos, |_, b| b),
      E::SkipR(_, x, y) => self.both(x, y, pos, |a, _| a),
      E::Sur(_, l, p, r) => match self.go(l, pos)? {
        R::Ok(_, n) => Ok(match self.both(p, r, pos + n, |a, _| a)? {
          R::Ok(v, m) => R::Ok(v, n + m),
          r => r,
        }),
        r => Ok(r),
      },
      E::Or(_, x, y) => match self.go(x, pos)? {
        R::Err(false) => {
          self.seen_backtrack = true;
          self.go(y, pos)
        }
        r => Ok(r),
      },
      E::Not(_, p) => match self.go(p, pos)? {
        R::Ok(..) => Ok(self.fail(Cause::Mismatch(pos))),
        R::Err(_) => ok(V::U),
      },
      E::Opt(p) => Ok(match self.go(p, pos)? {
        R::Ok(v, n) => R::Ok(V::O(Some(Box::new(v))), n),
        R::Err(_) => R::Ok(V::O(None), 0),
      }),
      E::Attempt(p) => Ok(match self.go(p, pos)? {
        R::Err(_) => R::Err(false),
        r => r,
      }),
      E::Exists(p) => {
        let r = self.go(p, pos)?;
        ok(V::B(matches!(r, R::Ok(..))))
      }
      E::Peek(p) => Ok(match self.go(p, pos)? {
        R::Ok(v, _) => R::Ok(v, 0),
        r => r,
      }),
      E::Rep(r, p) => self.rep(p, None, r.min(), r.max(), pos),
      E::RepSep(r, p, s) => self.rep(p, Some(s), r.min(), r.max(), pos),
      E::Many0(p) => self.rep(p, None, 0, None, pos),
      E::Many1(p) => self.rep(p, None, 1, None, pos),
      E::ManyNM(n, m, p) => self.rep(p, None, *n, Some(*m), pos),
      E::Count(n, p) => self.rep(p, None, *n, Some(*n), pos),
      E::Many0Sep(p, s) => self.rep(p, Some(s), 0, None, pos),
      E::Many1Sep(p, s) => self.rep(p, Some(s), 1, None, pos),
      E::ManyNMSep(n, m, p, s) => self.rep(p, Some(s), *n, Some(*m), pos),
      E::CountSep(n, p, s) => self.rep(p, Some(s), *n, Some(*n), pos),
      E::ChainL1(p, o) => self.chain_l1(p, o, pos),
      E::ChainL0(p, o, x) => Ok(match self.chain_l1(p, o, pos)? {
        R::Err(false) => R::Ok(V::N(*x as usize), 0),
        r => r,
      }),
      E::ChainR1(_, p, o) => self.chain_r1(p, o, pos),
      E::ChainR0(p, o, x) => Ok(match self.chain_r1(p, o, pos)? {
        R::Err(false) => R::Ok(V::N(*x as usize), 0),
        r => r,
      }),
      E::RestL1(p, o, x) => self.chain_l(p, o, V::N(*x as usize), pos),
      E::RestR1(p, o, x) => self.rest_r(p, o, V::N(*x as usize), pos),
      E::Collect(p) => Ok(match self.go(p, pos)? {
        R::Ok(_, n) => R::Ok(self.slice(pos, 0, n), n),
        r => r,
      }),
      E::Discard(p) => Ok(match self.go(p, pos)? {
        R::Ok(_, n) => R::Ok(V::U, n),
        r => r,
      }),
      E::LastOff(p) => Ok(match self.go(p, pos)? {
        R::Ok(_, n) => R::Ok(V::N((pos + n).saturating_sub(1)), n),
        r => r,
      }),
      E::NextOff(p) => Ok(match self.go(p, pos)? {
        R::Ok(_, n) => R::Ok(V::N(pos + n), n),
        r => r,
      }),
      E::Name(p) => {
        let r = self.go(p, pos)?;
        // custom errors keep their own message
        let kept = matches!(self.cause, Cause::Filter | Cause::Named(_) | Cause::Given(0 | 1 | 3) | Cause::Unknown);
        if matches!(r, R::Err(_)) && !kept {
          self.cause = Cause::Named(Box::new(self.cause.clone()));
        }
        Ok(r)
      }
      E::Log(k, p) => {
        let r = self.go(p, pos)?;
        self.logged.push((
          *k % 4,
          match &r {
            R::Ok(v, _) => Some(format!("{:?}", v)),
            _ => None,
          },
        ));
        Ok(r)
      }
      E::Cache(p) | E::Lazy(p) => self.go(p, pos),
    }
  }
  fn both(&mut self, x: &E, y: &E, pos: usize, f: impl Fn(V, V) -> V) -> Res {
    match self.go(x, pos)? {
      R::Ok(a, n) => Ok(match self.go(y, pos + n)? {
        R::Ok(b, m) => R::Ok(f(a, b), n + m),
        r => r,
      }),
      r => Ok(r),
    }
  }
  fn chain_l1(&mut self, p: &E, o: &E, pos: usize) -> Res {
    match self.go(p, pos)? {
      R::Ok(x, n) => Ok(match self.chain_l(p, o, x, pos + n)? {
        R::Ok(v, m) => R::Ok(v, n + m),
        R::Err(c) => R::Err(c || n != 0),
      }),
      r => Ok(r),
    }
  }
}

pub fn real<'a, I: Sym>(p: &P<'a, I>, input: &'a [I], pos: usize) -> R {
  match p.run(&ParseState::new(input, pos)) {
    ParseResult::Success { value, length } => R::Ok(value, length),
    ParseResult::Failure { committed_status, .. } => R::Err(committed_status.is_committed()),
  }
}

/// A text that the expression has a fair chance to match, steered by `bits`.
pub fn sample(e: &E, bits: &mut dyn FnMut(usize) -> usize, out: &mut Vec<char>, depth: u32) {
  if depth == 0 || out.len() > 24 {
    return;
  }
  let d = depth - 1;
  let set = |k: u8, bits: &mut dyn FnMut(usize) -> usize, out: &mut Vec<char>| {
    let s: Vec<char> = SETS[k as usize % 8].chars().collect();
    if !s.is_empty() {
      let i = bits(s.len());
      out.push(s[i]);
    }
  };
  macro_rules! s {
    ($e:expr) => {
      sample($e, bits, out, d)
    };
  }
  macro_rules! reps {
    ($lo:expr, $hi:expr, $p:expr, $sep:expr) => {{
      let lo: usize = $lo;
      let hi: usize = $hi.min(lo + 3).max(lo);
      let n = lo + bits(hi - lo + 1);
      let sep: Option<&E> = $sep;
      for i in 0..n {
        if i > 0 {
          if let Some(q) = sep {
            s!(q);
          }
        }
        s!($p);
      }
    }};
  }
  match e {
    E::Any | E::AnyRef => {
      let i = bits(ALPHA.len());
      out.push(ALPHA[i])
    }
    E::Elm(c) | E::ElmRef(c) => out.push(*c),
    E::Pred(_) | E::PredRef(_) | E::Class(_) | E::ClassRef(_) | E::NoneOf(_) | E::NoneRefOf(_) => {
      let ok = |c: &char| match e {
        E::Pred(k) | E::PredRef(k) => pred(*k, *c as u32),
        E::Class(k) | E::ClassRef(k) => class(*k, *c as u32),
        E::NoneOf(k) | E::NoneRefOf(k) => !in_set(*k, *c as u32),
        _ => true,
      };
      let c: Vec<char> = WIDE.iter().copied().filter(ok).collect();
      if !c.is_empty() {
        let i = bits(c.len());
        out.push(c[i]);
      }
    }
    E::In(a, b) | E::InRef(a, b) | E::Until(a, b) | E::UntilRef(a, b) => {
      let i = bits(2);
      out.push(if i == 0 { *a } else { *b })
    }
    E::Of(k) | E::OfRef(k) => set(*k, bits, out),
    E::Seq(x) | E::Tag(x) => out.extend(x.chars()),
    E::TagNoCase(x) => {
      for c in x.chars() {
        let up = bits(2) == 0;
        out.push(if up { c.to_ascii_uppercase() } else { c });
      }
    }
    E::Take(n) | E::Skip(n) => {
      for _ in 0..(*n).min(6) {
        let i = bits(ALPHA.len());
        out.push(ALPHA[i]);
      }
    }
    E::While0(k) | E::While1(k) | E::WhileNM(_, _, k) | E::Till0(k) | E::Till1(k) => {
      for _ in 0..bits(4) {
        let i = bits(ALPHA.len());
        if bits(3) == 0 {
          out.push(ALPHA[i]);
        }
        set(*k, bits, out);
      }
    }
    E::Map(_, p)
    | E::Filter(_, p)
    | E::FilterNot(_, p)
    | E::MapRes(_, p)
    | E::Attempt(p)
    | E::Collect(p)
    | E::Discard(p)
    | E::LastOff(p)
    | E::NextOff(p)
    | E::Cache(p)
    | E::Name(p)
    | E::Log(_, p)
    | E::Lazy(p) => s!(p),
    E::FlatMap(p, ks) => {
      s!(p);
      let i = bits(ks.len());
      s!(&ks[i]);
    }
    E::And(_, x, y) | E::SkipL(_, x, y) | E::SkipR(_, x, y) => {
      s!(x);
      s!(y);
    }
    E::Sur(_, l, p, r) => {
      s!(l);
      s!(p);
      s!(r);
    }
    E::Or(_, x, y) => {
      if bits(3) == 0 {
        s!(x)
      } else {
        s!(y)
      }
    }
    E::Opt(p) | E::Not(_, p) | E::Exists(p) | E::Peek(p) => {
      // look-ahead: sometimes provide what is looked for
      if bits(2) == 0 {
        s!(p)
      }
    }
    E::Rep(r, p) => reps!(r.min(), r.max().unwrap_or(99), p, None),
    E::RepSep(r, p, q) => reps!(r.min(), r.max().unwrap_or(99), p, Some(q)),
    E::Many0(p) => reps!(0, 3, p, None),
    E::Many1(p) => reps!(1, 4, p, None),
    E::ManyNM(n, m, p) => reps!(*n, *m, p, None),
    E::Count(n, p) => reps!(*n, *n + 1, p, None),
    E::Many0Sep(p, q) => reps!(0, 3, p, Some(q)),
    E::Many1Sep(p, q) => reps!(1, 4, p, Some(q)),
    E::ManyNMSep(n, m, p, q) => reps!(*n, *m, p, Some(q)),
    E::CountSep(n, p, q) => reps!(*n, *n + 1, p, Some(q)),
    E::ChainL1(p, o) | E::ChainR1(_, p, o) => reps!(1, 5, p, Some(o)),
    E::ChainL0(p, o, _) | E::ChainR0(p, o, _) => reps!(0, 4, p, Some(o)),
    E::RestL1(p, o, _) | E::RestR1(p, o, _) => {
      for _ in 0..bits(4) {
        s!(o);
        s!(p);
      }
    }
    _ => {}
  }
}

/// The same expression with every leaf preceded by a parser that consumes nothing and counts itself, each with a number of its own.
pub fn counted(e: &E) -> E {
  let mut n = 0u8;
  with_leaves(e, true, &mut |leaf| {
    n = n.wrapping_add(1);
    E::SkipL(false, Box::new(E::SuccLazy(n)), Box::new(leaf))
  })
}
/// The same expression with leaves logged at various levels and nothing cached.
pub fn logged(e: &E) -> E {
  let mut n = 0u8;
  with_leaves(e, false, &mut |leaf| {
    n = n.wrapping_add(1);
    match n % 7 {
      4..=6 => leaf,
      k => E::Log(k, Box::new(leaf)),
    }
  })
}
fn with_leaves(e: &E, keep_caches: bool, n: &mut dyn FnMut(E) -> E) -> E {
  let mut c = |e: &E| Box::new(with_leaves(e, keep_caches, n));
  match e {
    E::Map(k, p) => E::Map(*k, c(p)),
    E::Filter(k, p) => E::Filter(*k, c(p)),
    E::FilterNot(k, p) => E::FilterNot(*k, c(p)),
    E::MapRes(k, p) => E::MapRes(*k, c(p)),
    E::FlatMap(p, ks) => E::FlatMap(c(p), ks.iter().map(|k| *c(k)).collect()),
    E::And(o, x, y) => E::And(*o, c(x), c(y)),
    E::Or(o, x, y) => E::Or(*o, c(x), c(y)),
    E::SkipL(o, x, y) => E::SkipL(*o, c(x), c(y)),
    E::SkipR(o, x, y) => E::SkipR(*o, c(x), c(y)),
    E::Sur(o, x, y, z) => E::Sur(*o, c(x), c(y), c(z)),
    E::Not(o, p) => E::Not(*o, c(p)),
    E::Opt(p) => E::Opt(c(p)),
    E::Attempt(p) => E::Attempt(c(p)),
    E::Exists(p) => E::Exists(c(p)),
    E::Peek(p) => E::Peek(c(p)),
    E::Rep(r, p) => E::Rep(*r, c(p)),
    E::RepSep(r, p, q) => E::RepSep(*r, c(p), c(q)),
    E::Many0(p) => E::Many0(c(p)),
    E::Many1(p) => E::Many1(c(p)),
    E::ManyNM(a, b, p) => E::ManyNM(*a, *b, c(p)),
    E::Count(a, p) => E::Count(*a, c(p)),
    E::Many0Sep(p, q) => E::Many0Sep(c(p), c(q)),
    E::Many1Sep(p, q) => E::Many1Sep(c(p), c(q)),
    E::ManyNMSep(a, b, p, q) => E::ManyNMSep(*a, *b, c(p), c(q)),
    E::CountSep(a, p, q) => E::CountSep(*a, c(p), c(q)),
    E::ChainL1(p, q) => E::ChainL1(c(p), c(q)),
    E::ChainL0(p, q, x) => E::ChainL0(c(p), c(q), *x),
    E::ChainR1(o, p, q) => E::ChainR1(*o, c(p), c(q)),
    E::ChainR0(p, q, x) => E::ChainR0(c(p), c(q), *x),
    E::RestL1(p, q, x) => E::RestL1(c(p), c(q), *x),
    E::RestR1(p, q, x) => E::RestR1(c(p), c(q), *x),
    E::Collect(p) => E::Collect(c(p)),
    E::Discard(p) => E::Discard(c(p)),
    E::LastOff(p) => E::LastOff(c(p)),
    E::NextOff(p) => E::NextOff(c(p)),
    E::Cache(p) if !keep_caches => *c(p),
    E::Cache(p) => E::Cache(c(p)),
    E::Name(p) => E::Name(c(p)),
    E::Log(k, p) => E::Log(*k, c(p)),
    E::Lazy(p) => E::Lazy(c(p)),
    leaf => n(leaf.clone()),
  }
}
