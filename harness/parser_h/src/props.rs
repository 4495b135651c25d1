use crate::extra;
use crate::gen::*;
use crate::grammars;
use crate::laws;
use crate::model::*;
use oni_comb_parser_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, facet, CheckResult, Obs, Property};

pub const IDS: &[&str] = &[
  "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
  "C16", "C18", "C19",
];

fn agree<I: Sym>(c: &Case, bytes: bool) -> Result<(R, Obs), String> {
  let input: Vec<I> = c.input.chars().map(I::of).collect();
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  let mut it = Interp::new(&codes, bytes);
  let want = match it.go(&c.e, c.pos) {
    Err(_) => return Ok((R::Err(false), Obs::discard("diverges"))),
    Ok(r) => r,
  };
  let p = build::<I>(&c.e);
  let got = real(&p, &input, c.pos);
  if got != want {
    return Err(format!("parser result {:?}, reference result {:?}", got, want));
  }
  let o = Obs::new(it.fuel + 1 < Interp::new(&codes, bytes).fuel || c.input.len() > 60)
    .label_if(matches!(want, R::Ok(_, n) if n > 255), "ok-over-255")
    .label_if(c.pos > 255, "offset-over-255")
    .label_if(matches!(want, R::Ok(_, 0)), "ok-empty")
    .label_if(matches!(want, R::Ok(_, n) if n > 0), "ok-consumed")
    .label_if(matches!(want, R::Err(true)), "err-committed")
    .label_if(matches!(want, R::Err(false)), "err-uncommitted")
    .label_if(it.seen_committed, "saw-committed")
    .label_if(it.seen_backtrack, "saw-backtrack");
  Ok((want, o))
}

fn check_char(c: &Case) -> CheckResult {
  agree::<char>(c, false).map(|x| x.1)
}
fn check_byte(c: &Case) -> CheckResult {
  agree::<u8>(c, true).map(|x| x.1)
}

/// Nothing handed to the parsers is called more often than the definition of the expression calls it.
fn work<I: Sym>(c: &Case, bytes: bool) -> CheckResult {
  let input: Vec<I> = c.input.chars().map(I::of).collect();
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  let e = counted(&c.e);
  let mut it = Interp::new(&codes, bytes);
  let (want, may) = record(|| it.go(&e, c.pos));
  if want.is_err() {
    return Ok(Obs::discard("diverges"));
  }
  let p = build::<I>(&e);
  let (_, did) = record(|| real(&p, &input, c.pos));
  let total = did.len();
  let mut left: std::collections::HashMap<Call, i64> = std::collections::HashMap::new();
  for x in &may {
    *left.entry(*x).or_default() += 1;
  }
  for x in did {
    let n = left.entry(x).or_default();
    *n -= 1;
    if *n < 0 {
      let at_most = may.iter().filter(|y| **y == x).count();
      return Err(format!("{} {} called more than {} times with the same argument", x.0, x.1, at_most));
    }
  }
  let backtracks = it.seen_backtrack;
  Ok(
    Obs::new(may.len() > 1)
      .label_if(backtracks, "saw-backtrack")
      .label_if(it.seen_committed, "saw-committed")
      .label_if(may.len() > 9, "ten-calls")
      .label_if(may.len() > 99, "hundred-calls")
      .label_if(total < may.len(), "fewer-than-defined"),
  )
}
fn work_char(c: &Case) -> CheckResult {
  work::<char>(c, false)
}
fn work_byte(c: &Case) -> CheckResult {
  work::<u8>(c, true)
}

// ------------------------------------------------------------------------------------------------------- log
thread_local! {
  static LINES: std::cell::RefCell<Option<Vec<(log::Level, String)>>> = std::cell::RefCell::new(None);
}
struct Lines;
impl log::Log for Lines {
  fn enabled(&self, _: &log::Metadata) -> bool {
    LINES.with(|l| l.borrow().is_some())
  }
  fn log(&self, r: &log::Record) {
    LINES.with(|l| {
      if let Some(l) = l.borrow_mut().as_mut() {
        l.push((r.level(), r.args().to_string()));
      }
    })
  }
  fn flush(&self) {}
}
/// A logged parser writes one record for each of its runs: at its level, with its name and its result.
fn logs(c: &Case) -> CheckResult {
  if log::set_logger(&Lines).is_ok() {
    log::set_max_level(log::LevelFilter::Trace);
  }
  let e = logged(&c.e);
  let input: Vec<char> = c.input.chars().collect();
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  let mut it = Interp::new(&codes, false);
  if it.go(&e, c.pos).is_err() {
    return Ok(Obs::discard("diverges"));
  }
  let p = build::<char>(&e);
  LINES.with(|l| *l.borrow_mut() = Some(vec![]));
  real(&p, &input, c.pos);
  let lines = LINES.with(|l| l.borrow_mut().take().unwrap_or_default());
  ensure!(lines.len() == it.logged.len(), "{} records for {} runs of logged parsers: {:?}", lines.len(), it.logged.len(), lines);
  for (i, ((level, text), (k, value))) in lines.iter().zip(&it.logged).enumerate() {
    let (want, name) = [
      (log::Level::Debug, "d"),
      (log::Level::Info, "i"),
      (log::Level::Warn, "w"),
      (log::Level::Error, "e"),
    ][*k as usize];
    ensure!(*level == want, "record {} has level {} instead of {}", i, level, want);
    ensure!(text.contains(name), "record {} lacks the name {:?}: {:?}", i, name, text);
    if let Some(v) = value {
      ensure!(text.contains(v.as_str()), "record {} lacks the value {}: {:?}", i, v, text);
    }
  }
  Ok(
    Obs::new(!lines.is_empty())
      .label_if(lines.len() > 1, "several")
      .label_if(it.logged.iter().any(|l| l.1.is_none()), "failure")
      .label_if(it.logged.iter().any(|l| l.1.is_some()), "success"),
  )
}

// ---------------------------------------------------------------------------------------------------- memory
/// Whether `f` holds more memory after each of six calls than before.
fn grows(mut f: impl FnMut()) -> bool {
  for _ in 0..3 {
    f();
  }
  (0..6).all(|_| {
    let before = vcommon::held();
    f();
    vcommon::held() > before
  })
}
fn leaves_nothing<I: Sym>(c: &Case, bytes: bool) -> CheckResult {
  let input: Vec<I> = c.input.chars().map(I::of).collect();
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  let mut it = Interp::new(&codes, bytes);
  let r = match it.go(&c.e, c.pos) {
    Err(_) => return Ok(Obs::discard("diverges")),
    Ok(r) => r,
  };
  let kept = build::<I>(&c.e);
  ensure!(!grows(|| drop(real(&kept, &input, c.pos))), "memory held grows with every run of one parser on one input");
  ensure!(
    !grows(|| drop(real(&build::<I>(&c.e), &input, c.pos))),
    "memory held grows with every parser built, run and dropped"
  );
  ensure!(!grows(|| drop(kept.clone())), "memory held grows with every clone of a parser");
  Ok(
    Obs::new(codes.len() > 1)
      .label_if(matches!(r, R::Ok(..)), "success")
      .label_if(matches!(r, R::Err(_)), "failure")
      .label_if(format!("{:?}", c.e).contains("Cache"), "cached")
      .label_if(format!("{:?}", c.e).contains("Lazy"), "lazy"),
  )
}
fn leaves_nothing_char(c: &Case) -> CheckResult {
  leaves_nothing::<char>(c, false)
}
fn leaves_nothing_byte(c: &Case) -> CheckResult {
  leaves_nothing::<u8>(c, true)
}
/// New inputs of a parser without a cache leave nothing behind either.
fn leaves_nothing_grammar(texts: &Vec<String>) -> CheckResult {
  let inputs: Vec<Vec<char>> = texts.iter().map(|t| t.chars().collect()).collect();
  let mut next = 0;
  let mut run = || {
    grammars::json_run(&inputs[next % inputs.len()]);
    next += 1;
  };
  ensure!(!grows(&mut run), "memory held grows with every text read by a grammar");
  Ok(Obs::new(texts.iter().any(|t| t.len() > 4)))
}

/// Long cases without the literal that only characters have.
fn long_same() -> BoxedStrategy<Case> {
  long(Long::Repeat).prop_filter("characters only", |c| !format!("{:?}", c.e).contains("NoCase")).boxed()
}

/// Nodes of one group on top of smaller general expressions, so that the group always decides the outcome.
fn focused(w: W) -> BoxedStrategy<Case> {
  prop_oneof![3 => case(w, 2), 2 => case(w, 3), 1 => case(w, 5)].boxed()
}

const LOW: W = W {
  prim: 1,
  elem: 8,
  lit: 3,
  taken: 0,
  functor: 1,
  seq: 3,
  alt: 2,
  look: 1,
  rep: 1,
  sep: 0,
  chain: 0,
  slice: 0,
  wrap: 0,
  no_case: true,
};

fn w_choice() -> W {
  W { lit: 8, elem: 4, prim: 3, alt: 14, seq: 5, functor: 2, ..LOW }
}
fn w_rep() -> W {
  W { rep: 10, sep: 10, lit: 5, alt: 2, ..LOW }
}
fn w_look() -> W {
  W { look: 14, lit: 5, prim: 2, ..LOW }
}
fn w_taken() -> W {
  W { taken: 12, elem: 3, seq: 10, ..LOW }
}
fn w_chain() -> W {
  W { chain: 14, lit: 3, alt: 2, ..LOW }
}
fn w_slice() -> W {
  W { slice: 12, taken: 2, seq: 6, rep: 2, ..LOW }
}
fn w_wrap() -> W {
  W { wrap: 14, alt: 5, seq: 6, rep: 2, slice: 1, ..LOW }
}

// Chains whose operands and operators consume, as in every real grammar.
fn chain_case() -> BoxedStrategy<Case> {
  let operand = prop_oneof![
    3 => Just(E::Class(4)),
    2 => Just(E::Elm('a')),
    2 => Just(E::Many1(Box::new(E::Class(4)))),
    1 => lit().prop_filter("non-empty", |s| !s.is_empty()).prop_map(E::Tag),
    1 => Just(E::Or(false, Box::new(E::Class(4)), Box::new(E::Sur(false, Box::new(E::Elm(',')), Box::new(E::Any), Box::new(E::Elm(',')))))),
  ];
  let oper = prop_oneof![
    3 => Just(E::Elm('+')),
    1 => Just(E::Of(5)),
    1 => Just(E::Seq("+,".into())),
    1 => Just(E::Attempt(Box::new(E::Seq("+,".into())))),
    1 => Just(E::Sur(false, Box::new(E::Many0(Box::new(E::Elm(' ')))), Box::new(E::Elm('+')), Box::new(E::Many0(Box::new(E::Elm(' ')))))),
    1 => Just(E::Succ(1)),
  ];
  let e = (operand, oper, 0u8..8, 0u8..3).prop_map(|(p, o, k, x)| {
    let (p, o) = (Box::new(p), Box::new(o));
    match k {
      0 => E::ChainL1(p, o),
      1 => E::ChainL0(p, o, x),
      2 => E::ChainR1(false, p, o),
      3 => E::ChainR1(true, p, o),
      4 => E::ChainR0(p, o, x),
      5 => E::RestL1(p, o, x),
      6 => E::RestR1(p, o, x),
      _ => E::Or(false, Box::new(E::ChainL1(p.clone(), o.clone())), Box::new(E::ChainR1(false, p, o))),
    }
  });
  let wrapped = (e, 0u8..4).prop_map(|(e, k)| match k {
    0 => E::And(false, Box::new(e), Box::new(E::End)),
    1 => E::And(true, Box::new(e), Box::new(E::Opt(Box::new(E::Any)))),
    2 => E::Or(false, Box::new(e), Box::new(E::Succ(9))),
    _ => e,
  });
  case_of(wrapped.boxed())
}

// ------------------------------------------------------------------------------------------------- slices
fn slice_identity(c: &Case) -> CheckResult {
  // The slice returned by collect is the very piece of the caller's input that was consumed.
  let input: Vec<char> = c.input.chars().collect();
  let codes: Vec<u32> = input.iter().map(|x| *x as u32).collect();
  let want = match Interp::new(&codes, false).go(&c.e, c.pos) {
    Err(_) => return Ok(Obs::discard("diverges")),
    Ok(r) => r,
  };
  let p = build::<char>(&c.e).collect();
  match (p.run(&ParseState::new(&input, c.pos)), want) {
    (ParseResult::Success { value, length }, R::Ok(_, n)) => {
      ensure!(length == n, "collect consumed {} instead of {}", length, n);
      ensure!(value.len() == n, "collected {} elements instead of {}", value.len(), n);
      ensure!(
        n == 0 || std::ptr::eq(value.as_ptr(), input[c.pos..].as_ptr()),
        "the collected slice is not the consumed part of the input"
      );
      Ok(Obs::new(true).label_if(n > 0, "non-empty").label_if(c.pos > 0, "offset>0"))
    }
    (ParseResult::Failure { committed_status, .. }, R::Err(k)) => {
      ensure!(committed_status.is_committed() == k, "collect changed the commit status");
      Ok(Obs::new(false).label("failure"))
    }
    (a, b) => Err(format!("collect: {:?}, reference {:?}", a, b)),
  }
}

// ----------------------------------------------------------------------------------------- parser reuse
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct ReuseCase {
  e: E,
  inputs: Vec<(String, usize)>,
  order: Vec<u8>,
  cached: bool,
}
fn reuse_case() -> BoxedStrategy<ReuseCase> {
  (
    prop_oneof![expr(w_wrap(), 3), expr(EVEN, 3)],
    proptest::collection::vec((proptest::collection::vec(any::<u8>(), 0..30), mutations()), 1..4),
    proptest::collection::vec((any::<u8>(), any::<u8>()), 2..8),
    any::<bool>(),
  )
    .prop_map(|(e, chs, order, cached)| {
      let texts: Vec<Vec<char>> = chs.iter().map(|(c, m)| sampled(&e, c, m)).collect();
      let inputs = order
        .iter()
        .map(|(i, p)| {
          let t = &texts[*i as usize % texts.len()];
          (t.iter().collect::<String>(), *p as usize % (t.len() + 1))
        })
        .collect();
      ReuseCase {
        e,
        inputs,
        order: order.iter().map(|x| x.0).collect(),
        cached,
      }
    })
    .boxed()
}
fn reuse(c: &ReuseCase) -> CheckResult {
  let inputs: Vec<Vec<char>> = c.inputs.iter().map(|s| s.0.chars().collect()).collect();
  let mut wants = vec![];
  for (i, (_, pos)) in c.inputs.iter().enumerate() {
    let codes: Vec<u32> = inputs[i].iter().map(|x| *x as u32).collect();
    match Interp::new(&codes, false).go(&c.e, *pos) {
      Err(_) => return Ok(Obs::discard("diverges")),
      Ok(r) => wants.push(r),
    }
  }
  let mut p = build::<char>(&c.e);
  if c.cached {
    p = p.cache();
  }
  let q = p.clone();
  for round in 0..2 {
    for (i, (_, pos)) in c.inputs.iter().enumerate() {
      let got = real(if (i + round) % 2 == 0 { &p } else { &q }, &inputs[i], *pos);
      ensure!(
        got == wants[i],
        "run {} of one parser on {:?} at {}: {:?}, reference {:?}",
        round,
        c.inputs[i].0,
        pos,
        got,
        wants[i]
      );
    }
  }
  // interior slices of one buffer are different inputs as well
  if let Some(first) = inputs.first() {
    for k in 0..first.len() {
      for end in [first.len(), (k + 1).min(first.len())] {
        let part = &first[k..end];
        let codes: Vec<u32> = part.iter().map(|x| *x as u32).collect();
        let want = match Interp::new(&codes, false).go(&c.e, 0) {
          Err(_) => continue,
          Ok(r) => r,
        };
        let got = real(&p, part, 0);
        ensure!(
          got == want,
          "reused parser on the slice {}..{} of {:?}: {:?}, reference {:?}",
          k,
          end,
          first,
          got,
          want
        );
      }
    }
  }
  Ok(Obs::new(c.inputs.len() > 1).label_if(c.cached, "cached-top"))
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct MemoCase {
  e: E,
  input: String,
  times: u8,
}
/// A cached parser tried at very many places of several inputs, and at each of them again.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct ManyPlaces {
  inner: u8,
  inputs: Vec<(String, usize)>,
  /// How the places are visited: forwards, backwards or in steps, one input after the other or in turns.
  rounds: Vec<u8>,
}
fn many_places() -> BoxedStrategy<ManyPlaces> {
  let n = prop_oneof![
    4 => 1usize..300,
    3 => 300usize..6000,
    2 => proptest::sample::select(vec![255usize, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 10001]),
    1 => proptest::sample::select(vec![16385usize, 32769, 65536, 65537, 70000]),
  ];
  let input = ("[a19,é]{1,7}", n);
  (0u8..6, proptest::collection::vec(input, 1..4), proptest::collection::vec(0u8..6, 2..4))
    .prop_map(|(inner, inputs, rounds)| ManyPlaces { inner, inputs, rounds })
    .boxed()
}
fn memo_many(c: &ManyPlaces) -> CheckResult {
  let e = match c.inner {
    0 => E::Any,
    1 => E::Class(4),
    2 => E::Seq("a1".into()),
    3 => E::NextOff(Box::new(E::Opt(Box::new(E::Elm('a'))))),
    4 => E::Or(false, Box::new(E::Tag("a9".into())), Box::new(E::Take(3))),
    _ => E::Collect(Box::new(E::ManyNM(1, 4, Box::new(E::Class(4))))),
  };
  let inputs: Vec<Vec<char>> = c.inputs.iter().map(|(s, n)| s.chars().cycle().take(*n).collect()).collect();
  let calls = std::rc::Rc::new(std::cell::Cell::new(0usize));
  let k = calls.clone();
  let inner = build::<char>(&e);
  let plain = inner.clone();
  let cached = unit()
    .flat_map(move |_| {
      k.set(k.get() + 1);
      inner.clone()
    })
    .cache();
  let places: usize = inputs.iter().map(|i| i.len() + 1).sum();
  for how in &c.rounds {
    let mut order: Vec<(usize, usize)> = (0..inputs.len()).flat_map(|i| (0..=inputs[i].len()).map(move |at| (i, at))).collect();
    match how {
      0 | 1 => {}
      2 => order.reverse(),
      3 => order.sort_by_key(|(i, at)| (*at, *i)),
      4 => order.sort_by_key(|(i, at)| (*at % 7, *i, *at)),
      _ => order.truncate(places / 2),
    }
    for (i, at) in order {
      let got = real(&cached, &inputs[i], at);
      let want = real(&plain, &inputs[i], at);
      ensure!(got == want, "cached {:?}, plain {:?} at {} of input {}", got, want, at, i);
    }
  }
  ensure!(
    calls.get() <= places,
    "the cached parser ran its inner parser {} times at {} positions",
    calls.get(),
    places
  );
  Ok(
    Obs::new(places > 2)
      .label_if(places > 1024, "over-1024-places")
      .label_if(places > 65536, "over-65536-places")
      .label_if(inputs.len() > 1, "several-inputs"),
  )
}
fn memo(c: &MemoCase) -> CheckResult {
  // A cached parser evaluates its inner parser once per position of an input, however often it is tried there.
  let input: Vec<char> = c.input.chars().collect();
  let codes: Vec<u32> = input.iter().map(|x| *x as u32).collect();
  if Interp::new(&codes, false).go(&c.e, 0).is_err() {
    return Ok(Obs::discard("diverges"));
  }
  let calls = std::rc::Rc::new(std::cell::Cell::new(0usize));
  let k = calls.clone();
  let inner = build::<char>(&c.e);
  let counted = unit().flat_map(move |_| {
    k.set(k.get() + 1);
    inner.clone()
  });
  let cached = counted.cache();
  let plain = build::<char>(&c.e);
  let mut p = cached.clone().peek().exists();
  for _ in 0..c.times {
    p = p * cached.clone().peek().exists();
  }
  let all = p.skip_left(cached.clone());
  let got = real(&all, &input, 0);
  let want = real(&plain, &input, 0);
  ensure!(
    matches!((&got, &want), (R::Ok(a, n), R::Ok(b, m)) if a == b && n == m) || matches!((&got, &want), (R::Err(a), R::Err(b)) if a == b),
    "cached {:?}, plain {:?}",
    got,
    want
  );
  ensure!(
    calls.get() == 1,
    "the cached parser ran its inner parser {} times at one position",
    calls.get()
  );
  Ok(Obs::new(true))
}

// --------------------------------------------------------------------------------------- errors are total
fn error_total<I: Sym>(c: &Case, input: &[I], bytes: bool, text: impl Fn(&ParseError<I>) -> Option<String>) -> CheckResult {
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  if Interp::new(&codes, bytes).go(&c.e, c.pos).is_err() || Interp::new(&codes, bytes).go(&c.e, 0).is_err() {
    return Ok(Obs::discard("diverges"));
  }
  let p = build::<I>(&c.e);
  // parse() and run() at 0 agree with parse_as_result
  match (p.parse(input), p.parse_as_result(input)) {
    (ParseResult::Success { value, .. }, Ok(v)) => ensure!(v == value, "parse_as_result returned another value"),
    (ParseResult::Failure { error, .. }, Err(e)) => ensure!(e == error, "parse_as_result returned another error"),
    _ => return Err("parse and parse_as_result disagree".into()),
  }
  match p.run(&ParseState::new(input, c.pos)) {
    ParseResult::Success { .. } => Ok(Obs::new(false).label("success")),
    ParseResult::Failure { error, .. } => {
      ensure!(!format!("{}", error).is_empty(), "empty message");
      let kinds = [
        error.is_mismatch(),
        error.is_conversion(),
        error.is_in_complete(),
        error.is_expect(),
        error.is_custom(),
      ];
      ensure!(kinds.iter().filter(|k| **k).count() == 1, "error kinds {:?}", kinds);
      let s = error.input();
      if let Some(s) = s {
        let base = input.as_ptr() as usize;
        let sz = std::mem::size_of::<I>();
        let a = s.as_ptr() as usize;
        ensure!(
          s.is_empty() || (a >= base && a + s.len() * sz <= base + input.len() * sz),
          "the excerpt is not part of the input"
        );
      }
      let t = text(&error);
      ensure!(t.is_some() == s.is_some(), "input_string and input disagree");
      Ok(
        Obs::new(true)
          .label_if(kinds[0], "mismatch")
          .label_if(kinds[1], "conversion")
          .label_if(kinds[2], "incomplete")
          .label_if(kinds[4], "custom")
          .label_if(s.map_or(false, |x| !x.is_empty()), "has-excerpt"),
      )
    }
  }
}
fn error_char(c: &Case) -> CheckResult {
  let input: Vec<char> = c.input.chars().collect();
  error_total(c, &input, false, |e| e.input_string())
}
fn error_byte(c: &Case) -> CheckResult {
  let input: Vec<u8> = c.input.chars().map(u8::of).collect();
  error_total(c, &input, true, |e| e.input_string())
}

// ------------------------------------------------------------------------------------------------- cause
fn is_cause<I: Sym>(e: &ParseError<I>, c: &Cause) -> Result<(), String> {
  let near = |at: usize, offset: usize| offset + 1 >= at && offset <= at + 1;
  let ok = match (c, e) {
    (Cause::Unknown, _) => true,
    (Cause::Given(k), e) => *e == given::<I>(*k),
    (Cause::Mismatch(at), ParseError::Mismatch { offset, .. }) => near(*at, *offset),
    (Cause::Conversion(at), ParseError::Conversion { offset, .. }) => near(*at, *offset),
    (Cause::Incomplete | Cause::End(_), ParseError::Incomplete) => true,
    (Cause::End(at), ParseError::Mismatch { offset, .. }) => near(*at, *offset),
    (Cause::Filter, ParseError::Custom { inner: None, .. }) => e.to_string() != given::<I>(0).to_string() && e.to_string() != given::<I>(3).to_string(),
    (Cause::Named(c), ParseError::Custom { inner: Some(i), message, .. }) => {
      ensure!(message.contains("thing"), "the error of a named parser does not name it: {:?}", message);
      return is_cause(i, c);
    }
    _ => false,
  };
  ensure_eq!(
    [e.is_mismatch(), e.is_conversion(), e.is_in_complete(), e.is_custom(), e.is_expect()],
    [
      matches!(e, ParseError::Mismatch { .. }),
      matches!(e, ParseError::Conversion { .. }),
      matches!(e, ParseError::Incomplete),
      matches!(e, ParseError::Custom { .. }),
      matches!(e, ParseError::Expect { .. })
    ],
    "is_mismatch, is_conversion, is_in_complete, is_custom, is_expect of {:?}", e.to_string()
  );
  ensure!(ok, "cause {:?}, reported {:?}", c, e.to_string());
  Ok(())
}
fn cause<I: Sym>(c: &Case, bytes: bool) -> CheckResult {
  let input: Vec<I> = c.input.chars().map(I::of).collect();
  let codes: Vec<u32> = input.iter().map(|x| x.code()).collect();
  let mut it = Interp::new(&codes, bytes);
  match it.go(&c.e, c.pos) {
    Err(_) => return Ok(Obs::discard("diverges")),
    Ok(R::Ok(..)) => return Ok(Obs::new(false).label("succeeds")),
    Ok(R::Err(_)) => (),
  }
  let p = build::<I>(&c.e);
  let r = p.run(&ParseState::new(&input, c.pos));
  match &r {
    ParseResult::Failure { error, .. } => is_cause(error, &it.cause)?,
    ParseResult::Success { .. } => return Err(format!("succeeds, should fail because of {:?}", it.cause)),
  }
  if c.pos == 0 {
    match p.parse(&input).to_result() {
      Err(error) => is_cause(&error, &it.cause)?,
      Ok(v) => return Err(format!("parse gives {:?}, should fail because of {:?}", v, it.cause)),
    }
  }
  let kind = format!("{:?}", it.cause);
  let kind = kind.split(|x: char| !x.is_alphabetic()).next().unwrap_or("").to_lowercase();
  Ok(Obs::new(it.cause != Cause::Unknown).label(kind))
}
fn cause_char(c: &Case) -> CheckResult {
  cause::<char>(c, false)
}
fn cause_byte(c: &Case) -> CheckResult {
  cause::<u8>(c, true)
}

// ------------------------------------------------------------------------------------------------- parity
fn parity(c: &Case) -> CheckResult {
  let chars: Vec<char> = c.input.chars().collect();
  let bytes: Vec<u8> = c.input.chars().map(u8::of).collect();
  let codes: Vec<u32> = chars.iter().map(|x| *x as u32).collect();
  if Interp::new(&codes, false).go(&c.e, c.pos).is_err() {
    return Ok(Obs::discard("diverges"));
  }
  let a = real(&build::<char>(&c.e), &chars, c.pos);
  let b = real(&build::<u8>(&c.e), &bytes, c.pos);
  ensure!(a == b, "on characters {:?}, on bytes {:?}", a, b);
  Ok(
    Obs::new(true)
      .label_if(matches!(a, R::Ok(..)), "ok")
      .label_if(matches!(a, R::Err(true)), "err-committed"),
  )
}

/// Every element-level parser, every class predicate and every order-based range, for one byte and a neighbour.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct OneByte {
  b: u8,
  next: u8,
  at: usize,
}
fn one_byte() -> BoxedStrategy<OneByte> {
  (any::<u8>(), any::<u8>(), 0usize..3).prop_map(|(b, next, at)| OneByte { b, next, at }).boxed()
}
fn parity_element(c: &OneByte) -> CheckResult {
  let (x, y) = (c.b as char, c.next as char);
  let text: String = [y, x].iter().collect();
  let names = |v: Vec<(&'static str, bool, bool)>| v.into_iter().map(|(n, got, _)| (n, got)).collect::<Vec<_>>();
  ensure_eq!(names(extra::preds(c.b, None)), names(extra::preds(x, None)), "predicates on byte {}", c.b);
  ensure_eq!(Element::to_char(c.b), Element::to_char(x), "to_char of byte {}", c.b);
  let (lo, hi) = (c.b.min(c.next) as char, c.b.max(c.next) as char);
  let mut es = vec![E::Any, E::AnyRef, E::Elm(x), E::ElmRef(x), E::Elm(y), E::In(lo, hi), E::InRef(lo, hi), E::Until(lo, hi)];
  es.extend([E::UntilRef(lo, hi), E::Seq(text.clone()), E::Take(1), E::Skip(1)]);
  for k in 0..9 {
    es.extend([E::Class(k), E::ClassRef(k), E::Of(k), E::OfRef(k), E::NoneOf(k), E::NoneRefOf(k), E::Pred(k), E::PredRef(k)]);
    es.extend([E::While0(k), E::While1(k), E::Till0(k), E::Till1(k)]);
    es.push(E::Collect(Box::new(E::Many0(Box::new(E::Class(k))))));
  }
  let mut ok = 0;
  for e in es {
    let case = Case { e, input: text.clone(), pos: c.at };
    let chars: Vec<char> = text.chars().collect();
    let a = real(&build::<char>(&case.e), &chars, c.at);
    let bytes = [c.next, c.b];
    let b = real(&build::<u8>(&case.e), &bytes, c.at);
    ok += u32::from(matches!(a, R::Ok(_, n) if n > 0));
    ensure!(a == b, "{:?}: on characters {:?}, on bytes {:?}", case.e, a, b);
  }
  Ok(Obs::new(true).label_if(ok > 0, "some-parser-consumes"))
}

pub fn property(id: &str) -> Option<Property> {
  const RULE: &str = "Random parser expressions over every public combinator, built both with the library and in an \
    independent reference interpreter, run on inputs sampled from the expression and then mutated, at offset 0 or \
    later; value, consumed length and commit status are compared. Non-trivial = the reference finishes and the \
    expression has more than one node.";
  let p = |rule: &'static str, assumptions: Vec<&'static str>, facets| {
    Some(Property {
      id: IDS.iter().find(|x| **x == id).unwrap(),
      rule,
      assumptions,
      facets,
    })
  };
  let q = 180_000;
  let t = 6_000_000;
  match id {
    "C01" => p(
      RULE,
      vec!["expressions that repeat nothing for ever have no result and are discarded (counted)"],
      vec![
        facet("even-char", 2 * q, t, case(EVEN, 4), check_char),
        facet("even-byte", q, t, case(EVEN, 4), check_byte),
        facet(
          "sequence",
          2 * q,
          t,
          focused(W { seq: 12, functor: 6, alt: 3, ..LOW }),
          check_char,
        ),
        facet("deep", q / 2, t, case(EVEN, 7), check_char),
        facet("long", q / 20, t / 20, long(Long::Any), check_char),
        facet("spine", q, t, spine(), check_char),
      ],
    ),
    "C02" => p(
      RULE,
      vec![],
      vec![
        facet("choice-char", 4 * q, t, focused(w_choice()), check_char),
        facet("choice-byte", 2 * q, t, focused(w_choice()), check_byte),
        facet("spine", 3 * q, t, spine(), check_char),
        facet("long", q / 12, t / 20, long(Long::Choice), check_char),
      ],
    ),
    "C03" => p(
      RULE,
      vec![],
      vec![
        facet("repeat-char", 3 * q, t, focused(w_rep()), check_char),
        facet("repeat-byte", q, t, focused(w_rep()), check_byte),
        facet("bounds", 2 * q, t, extra::bounds_case(), check_char),
        facet("long", q / 12, t / 20, long(Long::Repeat), check_char),
        facet("long-byte", q / 24, t / 20, long(Long::Repeat), check_byte),
      ],
    ),
    "C04" => p(
      RULE,
      vec![],
      vec![
        facet("look-char", 3 * q, t, focused(w_look()), check_char),
        facet("look-byte", q, t, focused(w_look()), check_byte),
        facet("spine", q, t, spine(), check_char),
        facet("long", q / 12, t / 20, long(Long::Look), check_char),
        facet("look-consumes-nothing", q, t, focused(w_look()), extra::look_zero),
      ],
    ),
    "C05" => p(
      "Random expressions substituted into both sides of an algebraic law; both sides run on inputs steered towards \
       the left side. Non-trivial = both sides have a result and the law's variables are not all constants.",
      vec![],
      vec![facet("laws", 4 * q, t, laws::case(), laws::check)],
    ),
    "C06" => p(
      "Every element predicate and element parser over random characters (ASCII, Latin-1, BMP, astral, class \
       boundaries) and bytes against std's ASCII classes; element sets of every supported form against their \
       definition. Non-trivial = every case.",
      vec!["the documented octal class includes '8'; that element is left out"],
      vec![
        facet("classes-char", q, t, extra::chars(), extra::classes_char),
        facet("classes-byte", q / 4, t / 10, any::<u8>(), extra::classes_byte),
        facet("sets-char", q, t, extra::set_case(), extra::sets_char),
        facet("sets-byte", q, t, extra::bset_case(), extra::sets_byte),
      ],
    ),
    "C07" => p(
      "Random literals and texts sharing a prefix with them; random regular expressions (classes, alternation, \
       groups, repetition, non-ASCII) on random texts at random offsets against the regex crate anchored at the \
       offset. Non-trivial = literal of two or more symbols, or a pattern with an operator.",
      vec!["the regex crate is trusted for the meaning of a pattern"],
      vec![
        facet("literal-char", 2 * q, t, extra::lit_case(), extra::lit_check_char),
        facet("literal-byte", q, t, extra::lit_case(), extra::lit_check_byte),
        facet("regex", q / 2, t / 10, extra::regex_case(), extra::regex_check),
        facet("in-context", q, t, focused(W { lit: 12, elem: 2, alt: 5, ..LOW }), check_char),
        facet("long", q / 12, t / 20, long(Long::Literal), check_char),
      ],
    ),
    "C08" => p(
      RULE,
      vec!["the scanning parsers skip a leading non-matching prefix, as the repository's tests fix"],
      vec![
        facet("taken-char", 3 * q, t, focused(w_taken()), check_char),
        facet("taken-byte", q, t, focused(w_taken()), check_byte),
        facet("taken-long", q, t, extra::taken_case(), extra::taken_check),
        facet("long", q / 12, t / 20, long(Long::Taken), check_char),
        facet("long-byte", q / 24, t / 20, long(Long::Taken), check_byte),
      ],
    ),
    "C09" => p(
      RULE,
      vec![],
      vec![
        facet("chain-real", 3 * q, t, chain_case(), check_char),
        facet("chain-byte", q, t, chain_case(), check_byte),
        facet("chain-any", 2 * q, t, focused(w_chain()), check_char),
        facet("long", q / 24, t / 40, long(Long::Chain), check_char),
      ],
    ),
    "C10" => p(
      RULE,
      vec![],
      vec![
        facet("slices-char", 2 * q, t, focused(w_slice()), check_char),
        facet("slices-byte", q, t, focused(w_slice()), check_byte),
        facet("slice-identity", 2 * q, t, focused(w_slice()), slice_identity),
        facet("long", q / 12, t / 20, long(Long::Any), slice_identity),
      ],
    ),
    "C11" => p(
      "As C01 with wrapper-heavy expressions; one parser value is run on several inputs, offsets and sub-slices, \
       twice each; a counter inside a cached parser. Non-trivial = more than one input or a wrapper node.",
      vec![],
      vec![
        facet("wrap-char", 2 * q, t, focused(w_wrap()), check_char),
        facet("wrap-byte", q, t, focused(w_wrap()), check_byte),
        facet("spine", q, t, spine(), check_char),
        facet("long", q / 24, t / 40, long(Long::Wrap), check_char),
        facet("reuse", q, t / 2, reuse_case(), reuse),
        facet("log", q, t, focused(w_wrap()), logs),
        facet("log-spine", q / 2, t, spine(), logs),
        facet(
          "memo",
          q / 2,
          t / 4,
          (case(EVEN, 3), 0u8..5).prop_map(|(c, times)| MemoCase {
            e: c.e,
            input: c.input,
            times,
          }),
          memo,
        ),
        facet("memo-many", q / 60, t / 200, many_places(), memo_many),
        facet("recursive", q / 4, t / 20, grammars::nest_case(), grammars::nest_check),
        facet("recursive-deep", q / 40, t / 200, grammars::nest_deep(), grammars::nest_check),
      ],
    ),
    "C12" => p(
      "Random expressions run on random inputs; every failure's rendering and excerpt is taken. Random error values \
       built through the public constructors. Non-trivial = the parse fails.",
      vec![],
      vec![
        facet("failing-char", 2 * q, t, case(EVEN, 4), error_char),
        facet("failing-byte", q, t, case(EVEN, 4), error_byte),
        facet("spine", q, t, spine(), error_char),
        facet("long", q / 12, t / 20, long(Long::Any), error_char),
        facet("constructed", q, t, extra::err_case(), extra::err_check),
      ],
    ),
    "C13" => p(
      "Random expressions built once over characters and once over bytes, run on the same text (code points below \
       256). Non-trivial = every finished case.",
      vec![],
      vec![
        facet("parity", 3 * q, t, case(W { no_case: false, ..EVEN }, 4), parity),
        facet(
          "parity-lists",
          q,
          t,
          case(W { no_case: false, taken: 3, rep: 4, sep: 4, chain: 3, ..EVEN }, 3),
          parity,
        ),
        facet("long", q / 24, t / 20, long_same(), parity),
        facet("parity-elements", q / 10, t / 20, one_byte(), parity_element),
        facet(
          "parity-classes",
          q,
          t,
          case(W { no_case: false, elem: 30, slice: 6, rep: 4, lit: 1, prim: 0, ..LOW }, 3),
          parity,
        ),
      ],
    ),
    "C14" => p(
      "JSON texts (generated values rendered with random layout and escapes, then mutated) through a JSON grammar \
       composed from the library against serde_json; arithmetic expressions through a grammar built with chains \
       against a direct evaluation of the generated tree. Non-trivial = two or more nodes in the value or tree.",
      vec!["serde_json is trusted as the JSON oracle; numbers beyond f64 are not generated"],
      vec![
        facet("json-char", q / 4, t / 20, grammars::json_case(), grammars::json_char),
        facet("json-byte", q / 4, t / 20, grammars::json_case(), grammars::json_byte),
        facet("json-deep", q / 40, t / 200, grammars::json_deep(), grammars::json_char),
        facet("json-long", q / 80, t / 400, grammars::json_long(), grammars::json_char),
        facet("json-long-byte", q / 160, t / 800, grammars::json_long(), grammars::json_byte),
        facet("calc-deep", q / 40, t / 200, grammars::calc_deep(), grammars::calc_check),
        facet("calc", q / 2, t / 10, grammars::calc_case(), grammars::calc_check),
        facet("csv", q / 2, t / 10, grammars::csv_case(), grammars::csv_check),
      ],
    ),
    "C15" => p(
      "Random results, states and commit statuses through the public helper methods against their definition. \
       Non-trivial = every case.",
      vec![],
      vec![
        facet("results", q, t, extra::res_case(), extra::res_check),
        facet("states", q / 2, t, extra::state_case(), extra::state_check),
        facet("ranges", q / 2, t, extra::range_case(), extra::range_check),
      ],
    ),
    "C16" => p(
      "Random expressions that fail (errors handed in, mismatches, ends of input, refused conversions and filters, missing \
       repetitions) under random combinators; kind, identity and place of the reported error against the reference's record of \
       the failure that decided the outcome. Non-trivial = fails for a specified cause.",
      vec!["the kind of error of take_while and take_till is not specified", "offsets may be counted from 0 or 1"],
      vec![
        facet("spine-char", 2 * q, t, spine(), cause_char),
        facet("spine-byte", q, t, spine(), cause_byte),
        facet("even-char", 2 * q, t, case(EVEN, 4), cause_char),
        facet("chains", q, t, chain_case(), cause_char),
        facet("long", q / 12, t / 20, long(Long::Any), cause_char),
      ],
    ),
    "C18" => p(
      "Random expressions, each leaf preceded by a part that counts itself; the calls of every function handed to the parsers \
       (predicates, conversions, filters, operators, lazy results) recorded with their arguments and compared with those the \
       reference makes. Non-trivial = at least two calls.",
      vec!["fewer calls than defined are allowed: a result may be kept, or worked out only when asked for"],
      vec![
        facet("even-char", 2 * q, t, case(EVEN, 4), work_char),
        facet("even-byte", q, t, case(EVEN, 4), work_byte),
        facet("deep", q / 2, t, case(EVEN, 7), work_char),
        facet("choice", q, t, focused(w_choice()), work_char),
        facet("look", q, t, focused(w_look()), work_char),
        facet("repeat", q, t, focused(w_rep()), work_char),
        facet("wrap", q, t, focused(w_wrap()), work_char),
        facet("chains", q, t, chain_case(), work_char),
        facet("spine", q, t, spine(), work_char),
        facet("long", q / 24, t / 40, long(Long::Any), work_char),
      ],
    ),
    "C19" => p(
      "Random expressions run on random inputs over and over: one parser kept, parsers built and dropped, clones dropped; bytes \
       allocated and not released by the thread. A violation is growth at each of six runs after three. Non-trivial = an input of \
       two or more elements.",
      vec!["what is set aside once (interned tables, thread-local pools) is no growth"],
      vec![
        facet("even-char", q, t / 2, case(EVEN, 4), leaves_nothing_char),
        facet("even-byte", q / 2, t / 2, case(EVEN, 4), leaves_nothing_byte),
        facet("wrap", q, t / 2, focused(w_wrap()), leaves_nothing_char),
        facet("spine", q / 2, t / 2, spine(), leaves_nothing_char),
        facet("chains", q / 2, t / 2, chain_case(), leaves_nothing_char),
        facet("long", q / 48, t / 100, long(Long::Any), leaves_nothing_char),
        facet(
          "grammar",
          q / 40,
          t / 100,
          proptest::collection::vec(grammars::json_case().prop_map(|c| c.text), 1..4),
          leaves_nothing_grammar,
        ),
      ],
    ),
    _ => None,
  }
}
