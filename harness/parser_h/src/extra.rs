//! Facets with their own, narrower models.
use crate::gen::*;
use crate::model::*;
use oni_comb_parser_rs::prelude::*;
use oni_comb_parser_rs::utils::{Bound, RangeArgument, Set};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CheckResult, Obs};

// ------------------------------------------------------------------------------ repetition bounds
/// Every bound form over a one-symbol element, with an input of a chosen number of elements.
pub fn bounds_case() -> BoxedStrategy<Case> {
  let elem = prop_oneof![
    3 => Just(E::Elm('a')),
    1 => Just(E::Of(1)),
    1 => Just(E::Seq("ab".into())),
    1 => Just(E::Or(false, Box::new(E::Seq("ab".into())), Box::new(E::Elm('c')))),
  ];
  let sep = prop_oneof![
    3 => Just(E::Elm(',')),
    1 => Just(E::Seq(",+".into())),
    1 => Just(E::Opt(Box::new(E::Elm(',')))),
    1 => Just(E::Many1(Box::new(E::Elm(',')))),
  ];
  let after = prop_oneof![
    2 => Just(None),
    1 => Just(Some(E::End)),
    1 => Just(Some(E::Elm(','))),
    1 => Just(Some(E::Elm('a'))),
    1 => Just(Some(E::Opt(Box::new(E::Elm(','))))),
  ];
  let wide = prop_oneof![
    2 => range(),
    1 => (0usize..9, 0usize..12).prop_map(|(a, b)| Rg::In(a, b)),
    1 => (0usize..9, 0usize..12).prop_map(|(a, b)| Rg::Ex(a, b)),
    1 => (0u8..4, 0usize..12).prop_map(|(k, a)| match k {
      0 => Rg::From(a),
      1 => Rg::To(a),
      2 => Rg::ToIn(a),
      _ => Rg::Exact(a),
    }),
  ];
  (elem, sep, wide, any::<bool>(), 0usize..12, any::<bool>(), mutations(), after)
    .prop_map(|(p, s, r, with_sep, n, trail, ms, after)| {
      let mut txt = vec![];
      let mut zero = |_| 0;
      for i in 0..n {
        if i > 0 && with_sep {
          sample(&s, &mut zero, &mut txt, 4);
        }
        sample(&p, &mut |k| i % k.max(1), &mut txt, 4);
      }
      if trail && with_sep {
        sample(&s, &mut zero, &mut txt, 4);
      }
      mutate(&mut txt, &ms);
      let p = Box::new(p);
      let rep = if with_sep {
        match r {
          Rg::In(a, b) if a % 2 == 0 => E::ManyNMSep(a, b, p, Box::new(s)),
          Rg::Exact(a) if n % 2 == 0 => E::CountSep(a, p, Box::new(s)),
          Rg::From(0) => E::Many0Sep(p, Box::new(s)),
          Rg::From(1) => E::Many1Sep(p, Box::new(s)),
          _ => E::RepSep(r, p, Box::new(s)),
        }
      } else {
        match r {
          Rg::In(a, b) if a % 2 == 0 => E::ManyNM(a, b, p),
          Rg::Exact(a) if n % 2 == 0 => E::Count(a, p),
          _ => E::Rep(r, p),
        }
      };
      let e = match after {
        Some(a) => E::And(false, Box::new(rep), Box::new(a)),
        None => rep,
      };
      Case {
        e,
        input: txt.into_iter().collect(),
        pos: 0,
      }
    })
    .boxed()
}

// ------------------------------------------------------------------------------ look-ahead
pub fn look_zero(c: &Case) -> CheckResult {
  let input: Vec<char> = c.input.chars().collect();
  let codes: Vec<u32> = input.iter().map(|x| *x as u32).collect();
  let want = match Interp::new(&codes, false).go(&c.e, c.pos) {
    Err(_) => return Ok(Obs::discard("diverges")),
    Ok(r) => r,
  };
  let st = ParseState::new(&input[..], c.pos);
  let p = || build::<char>(&c.e);
  let okay = matches!(want, R::Ok(..));
  match p().peek().run(&st) {
    ParseResult::Success { value, length } => {
      ensure_eq!(length, 0usize, "peek consumed input");
      ensure!(matches!(&want, R::Ok(v, _) if *v == value), "peek gave {:?}, not {:?}", value, want);
    }
    ParseResult::Failure { committed_status, .. } => {
      ensure_eq!(R::Err(committed_status.is_committed()), want, "peek failed differently")
    }
  }
  match p().exists().run(&st) {
    ParseResult::Success { value, length } => ensure_eq!((value, length), (okay, 0), "exists"),
    ParseResult::Failure { .. } => return Err("exists failed".into()),
  }
  for op in [false, true] {
    let r = if op { !p() } else { OperatorParser::not(p()) };
    match r.run(&st) {
      ParseResult::Success { length, .. } => ensure_eq!((okay, length), (false, 0), "not succeeded"),
      ParseResult::Failure { committed_status, .. } => {
        ensure_eq!((okay, committed_status.is_committed()), (true, false), "not failed")
      }
    }
  }
  match p().opt().run(&st) {
    ParseResult::Success { value, length } => {
      let w = match &want {
        R::Ok(v, n) => (Some(v.clone()), *n),
        R::Err(_) => (None, 0),
      };
      ensure_eq!((value, length), w, "opt");
    }
    ParseResult::Failure { .. } => return Err("opt failed".into()),
  }
  Ok(
    Obs::new(true)
      .label_if(okay, "inner-ok")
      .label_if(matches!(want, R::Ok(_, n) if n > 0), "inner-consumes")
      .label_if(matches!(want, R::Err(true)), "inner-committed"),
  )
}

// ------------------------------------------------------------------------------ element classes
pub fn chars() -> BoxedStrategy<char> {
  prop_oneof![
    6 => (0u32..128).prop_map(|c| char::from_u32(c).unwrap()),
    2 => (128u32..0x250).prop_map(|c| char::from_u32(c).unwrap()),
    // code points whose low byte is in an ASCII class
    2 => (1u32..0x300, 0u32..128).prop_filter_map("surrogate", |(h, l)| char::from_u32(h * 256 + l)),
    1 => any::<char>(),
    1 => vcommon::mined_char('a'),
  ]
  .boxed()
}

pub fn preds<I: Element>(c: I, a: Option<u8>) -> Vec<(&'static str, bool, bool)> {
  // (name, library, definition); `a` is the ASCII byte if there is one
  let d = |f: fn(u8) -> bool| a.map_or(false, f);
  vec![
    ("space", c.is_ascii_space(), d(|b| b == b' ' || b == b'\t')),
    ("multi_space", c.is_ascii_multi_space(), d(|b| matches!(b, b' ' | b'\t' | b'\r' | b'\n'))),
    ("whitespace", c.is_ascii_whitespace(), d(|b| b.is_ascii_whitespace())),
    ("ascii", c.is_ascii(), a.is_some()),
    ("upper", c.is_ascii_alpha_uppercase(), d(|b| b.is_ascii_uppercase())),
    ("lower", c.is_ascii_alpha_lowercase(), d(|b| b.is_ascii_lowercase())),
    ("alpha", c.is_ascii_alpha(), d(|b| b.is_ascii_alphabetic())),
    ("digit", c.is_ascii_digit(), d(|b| b.is_ascii_digit())),
    ("zero", c.is_ascii_digit_zero(), d(|b| b == b'0')),
    ("non_zero", c.is_ascii_digit_non_zero(), d(|b| b.is_ascii_digit() && b != b'0')),
    ("alpha_digit", c.is_ascii_alpha_digit(), d(|b| b.is_ascii_alphanumeric())),
    ("hex", c.is_ascii_hex_digit(), d(|b| b.is_ascii_hexdigit())),
    (
      "oct",
      c.is_ascii_oct_digit() && a != Some(b'8'),
      d(|b| (b'0'..=b'7').contains(&b)),
    ),
    ("punct", c.is_ascii_punctuation(), d(|b| b.is_ascii_punctuation())),
    ("graphic", c.is_ascii_graphic(), d(|b| b.is_ascii_graphic())),
    ("control", c.is_ascii_control(), d(|b| b.is_ascii_control())),
  ]
}
fn class_parsers<I: Sym>(c: I) -> Result<u32, String> {
  let input = [c, c];
  let code = c.code();
  let mut hits = 0;
  for k in 0..9u8 {
    if k == 7 && code == '8' as u32 {
      continue;
    }
    for (e, name) in [(E::Class(k), "value"), (E::ClassRef(k), "reference")] {
      let want = if class(k, code) { R::Ok(V::C(code), 1) } else { R::Err(false) };
      hits += u32::from(class(k, code));
      let got = real(&build::<I>(&e), &input, 0);
      ensure_eq!(got, want, "{} parser of class {} on {:?}", name, CLASS_NAMES[k as usize], c);
      let got = real(&build::<I>(&e), &input, 1);
      ensure_eq!(got, want, "{} parser of class {} at the last element", name, CLASS_NAMES[k as usize]);
      let got = real(&build::<I>(&e), &input, 2);
      ensure_eq!(got, R::Err(false), "{} parser of class {} at the end", name, CLASS_NAMES[k as usize]);
    }
  }
  Ok(hits)
}
pub fn classes_char(c: &char) -> CheckResult {
  let a = if c.is_ascii() { Some(*c as u8) } else { None };
  for (n, got, want) in preds(*c, a) {
    ensure_eq!(got, want, "predicate {} on {:?}", n, c);
  }
  ensure_eq!(Element::to_char(*c), *c, "to_char");
  let hits = class_parsers(*c)?;
  Ok(Obs::new(true).label_if(a.is_none(), "non-ascii").label_if(hits > 2, "in-some-class"))
}
pub fn classes_byte(b: &u8) -> CheckResult {
  let a = if b.is_ascii() { Some(*b) } else { None };
  for (n, got, want) in preds(*b, a) {
    ensure_eq!(got, want, "predicate {} on {:?}", n, b);
  }
  ensure_eq!(Element::to_char(*b), *b as char, "to_char");
  let hits = class_parsers(*b)?;
  Ok(Obs::new(true).label_if(hits > 2, "in-some-class"))
}

// ------------------------------------------------------------------------------ sets
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SetCase<T> {
  kind: u8,
  a: T,
  b: T,
  items: Vec<T>,
  probe: T,
}
fn small_char() -> BoxedStrategy<char> {
  prop_oneof![4 => proptest::char::range('a', 'h'), 2 => chars(), 1 => proptest::sample::select(vec!['\0', char::MAX, 'é', 'z'])].boxed()
}
pub fn set_case() -> BoxedStrategy<SetCase<char>> {
  (0u8..10, small_char(), small_char(), proptest::collection::vec(small_char(), 0..6), small_char(), 0u8..6)
    .prop_map(|(kind, a, b, items, p, w)| {
      let probe = match w {
        0 => a,
        1 => b,
        2 => *items.first().unwrap_or(&p),
        3 => *items.last().unwrap_or(&p),
        _ => p,
      };
      SetCase { kind, a, b, items, probe }
    })
    .boxed()
}
pub fn bset_case() -> BoxedStrategy<SetCase<u8>> {
  let s = || prop_oneof![3 => b'a'..=b'h', 1 => any::<u8>(), 1 => proptest::sample::select(vec![0u8, 127, 128, 255])].boxed();
  (0u8..10, s(), s(), proptest::collection::vec(s(), 0..6), s(), 0u8..6)
    .prop_map(|(kind, a, b, items, p, w)| {
      let probe = match w {
        0 => a,
        1 => b,
        2 => *items.first().unwrap_or(&p),
        3 => *items.last().unwrap_or(&p),
        _ => p,
      };
      SetCase { kind, a, b, items, probe }
    })
    .boxed()
}
fn set_agrees<I: Sym, S: Set<I> + ?Sized + 'static>(set: &'static S, want: bool, probe: I) -> Result<(), String> {
  ensure_eq!(Set::contains(set, &probe), want, "membership of {:?}", probe);
  let v = R::Ok(V::C(probe.code()), 1);
  let fail = R::Err(false);
  let input = [probe];
  let yes = if want { &v } else { &fail };
  let no = if want { &fail } else { &v };
  let f = |c: I| V::C(c.code());
  let g = |c: &I| V::C(c.code());
  for at in 0..2usize {
    // at = 1: no element left, every form fails without commitment
    let (yes, no) = if at == 0 { (yes, no) } else { (&fail, &fail) };
    ensure_eq!(&real(&elm_of(set).map(f), &input, at), yes, "elm_of on {:?}", probe);
    ensure_eq!(&real(&elm_ref_of(set).map(g), &input, at), yes, "elm_ref_of on {:?}", probe);
    ensure_eq!(&real(&none_of(set).map(f), &input, at), no, "none_of on {:?}", probe);
    ensure_eq!(&real(&none_ref_of(set).map(g), &input, at), no, "none_ref_of on {:?}", probe);
  }
  Ok(())
}
fn leak<T>(t: T) -> &'static T {
  Box::leak(Box::new(t))
}
fn range_sets<I: Sym>(c: &SetCase<I>) -> Result<Option<bool>, String> {
  let (a, b, p) = (c.a, c.b, c.probe);
  let (x, y, z) = (a.code(), b.code(), p.code());
  let want = match c.kind {
    0 => x <= z && z < y,
    1 => x <= z && z <= y,
    2 => x <= z,
    3 => z < y,
    4 => z <= y,
    5 => true,
    6 => c.items.iter().any(|i| i.code() == z),
    _ => return Ok(None),
  };
  match c.kind {
    0 => {
      set_agrees(leak(a..b), want, p)?;
      let one = [p];
      let q = elm_from_until(a, b).map(|c: I| V::C(c.code()));
      let e = real(&q, &one, 0);
      ensure_eq!(e, if want { R::Ok(V::C(z), 1) } else { R::Err(false) }, "elm_from_until {:?}..{:?}", a, b);
    }
    1 => {
      set_agrees(leak(a..=b), want, p)?;
      let one = [p];
      let q = elm_in(a, b).map(|c: I| V::C(c.code()));
      let e = real(&q, &one, 0);
      ensure_eq!(e, if want { R::Ok(V::C(z), 1) } else { R::Err(false) }, "elm_in {:?}..={:?}", a, b);
    }
    2 => set_agrees(leak(a..), want, p)?,
    3 => set_agrees(leak(..b), want, p)?,
    4 => set_agrees(leak(..=b), want, p)?,
    5 => set_agrees(leak(..), want, p)?,
    _ => {
      let s: &'static [I] = Box::leak(c.items.clone().into_boxed_slice());
      set_agrees(s, want, p)?
    }
  }
  Ok(Some(want))
}
pub fn sets_char(c: &SetCase<char>) -> CheckResult {
  let want = match range_sets(c)? {
    Some(w) => w,
    None => {
      let s: &'static str = Box::leak(c.items.iter().collect::<String>().into_boxed_str());
      let w = c.items.contains(&c.probe);
      set_agrees(s, w, c.probe)?;
      w
    }
  };
  Ok(Obs::new(true).label(format!("kind{}-{}", c.kind, want)))
}
pub fn sets_byte(c: &SetCase<u8>) -> CheckResult {
  let want = match range_sets(c)? {
    Some(w) => w,
    None => {
      let w = c.items.contains(&c.probe);
      let v = &c.items;
      match v.len() {
        0 => set_agrees(leak([0u8; 0]), w, c.probe)?,
        1 => set_agrees(leak([v[0]]), w, c.probe)?,
        2 => set_agrees(leak([v[0], v[1]]), w, c.probe)?,
        3 => set_agrees(leak([v[0], v[1], v[2]]), w, c.probe)?,
        4 => set_agrees(leak([v[0], v[1], v[2], v[3]]), w, c.probe)?,
        _ => set_agrees(leak([v[0], v[1], v[2], v[3], v[4]]), w, c.probe)?,
      }
      w
    }
  };
  Ok(Obs::new(true).label(format!("kind{}-{}", c.kind, want)))
}

// ------------------------------------------------------------------------------ literals
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LitCase {
  lit: String,
  prefix: String,
  text: String,
}
fn text_char() -> BoxedStrategy<char> {
  prop_oneof![8 => proptest::sample::select(vec!['a', 'A', 'b', 'B', 'é', 'É', '日', 'z', 'Z', '[', '{', '@', '`', '0', ' ', '𝄞', 'K', 'ſ', 's', 'k', 'i', 'I', 'ı', 'İ']), 1 => chars()].boxed()
}
/// The symbols that some case mapping of the standard library ties to `c`, without being `c` in the other ASCII case.
fn relatives(c: char) -> Vec<char> {
  static TIED: std::sync::OnceLock<std::collections::BTreeMap<char, Vec<char>>> = std::sync::OnceLock::new();
  let tied = TIED.get_or_init(|| {
    let mut m: std::collections::BTreeMap<char, Vec<char>> = Default::default();
    for x in '\u{80}'..=char::MAX {
      for y in x.to_lowercase().chain(x.to_uppercase()).filter(|&y| y != x) {
        for z in [y, y.to_ascii_lowercase(), y.to_ascii_uppercase()] {
          m.entry(z).or_default().push(x);
        }
      }
    }
    m
  });
  tied.get(&c).cloned().unwrap_or_default()
}
fn wide_text(n: usize) -> BoxedStrategy<String> {
  proptest::collection::vec(text_char(), 0..n).prop_map(|v| v.into_iter().collect()).boxed()
}
pub fn lit_case() -> BoxedStrategy<LitCase> {
  (wide_text(7), wide_text(4), wide_text(6), any::<usize>(), any::<u16>(), proptest::option::of((any::<usize>(), text_char(), any::<u8>(), vcommon::mined_char('a'))))
    .prop_map(|(lit, prefix, tail, keep, flips, hit)| {
      // text = a prefix of the literal (letters' case flipped at random, one symbol maybe replaced) + tail
      let n = lit.chars().count();
      let keep = if keep % 3 == 0 { (keep / 3) % (n + 1) } else { n };
      let mut t: Vec<char> = lit.chars().take(keep).collect();
      for (i, c) in t.iter_mut().enumerate() {
        if flips >> (i % 16) & 1 == 1 && flips & 0x8000 != 0 {
          *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        }
      }
      if let Some((i, c, near, mined)) = hit {
        let n = t.len();
        if n > 0 {
          t[i % n] = match near % 4 {
            // one bit apart: the symbols agree in every narrower type
            0 => char::from_u32(t[i % n] as u32 ^ 1 << (near / 4 % 21)).unwrap_or(c),
            1 => match relatives(t[i % n]) {
              v if v.is_empty() => mined,
              v => v[near as usize / 4 % v.len()],
            },
            _ => c,
          };
        }
      }
      LitCase {
        lit,
        prefix,
        text: t.into_iter().chain(tail.chars()).collect(),
      }
    })
    .boxed()
}
fn lit_obs(c: &LitCase, r: &R) -> Obs {
  Obs::new(c.lit.chars().count() > 1)
    .label_if(matches!(r, R::Ok(..)), "match")
    .label_if(matches!(r, R::Err(true)), "mismatch-inside")
    .label_if(matches!(r, R::Err(false)), "mismatch-first-or-short")
}
pub fn lit_check_char(c: &LitCase) -> CheckResult {
  let input: Vec<char> = c.prefix.chars().chain(c.text.chars()).collect();
  let codes: Vec<u32> = input.iter().map(|x| *x as u32).collect();
  let pos = c.prefix.chars().count();
  let mut last = R::Err(false);
  for e in [E::Seq(c.lit.clone()), E::Tag(c.lit.clone()), E::TagNoCase(c.lit.clone())] {
    let want = Interp::new(&codes, false).go(&e, pos).unwrap();
    let got = match &e {
      // not interned: these literals are unbounded
      E::Seq(s) => {
        let s: Vec<char> = s.chars().collect();
        let p = seq(&s).map(|v: Vec<char>| V::S(v.iter().map(|c| *c as u32).collect()));
        real(&p, &input, pos)
      }
      _ => real(&build::<char>(&e), &input, pos),
    };
    ensure_eq!(got, want, "{:?} on {:?} at {}", e, c.text, pos);
    last = want;
  }
  Ok(lit_obs(c, &last))
}
pub fn lit_check_byte(c: &LitCase) -> CheckResult {
  // the same texts as UTF-8 bytes
  let input: Vec<u8> = c.prefix.bytes().chain(c.text.bytes()).collect();
  let pos = c.prefix.len();
  let lit = c.lit.as_bytes();
  let rest = &input[pos..];
  let common = lit.iter().zip(rest).take_while(|(a, b)| a == b).count();
  let want = if common == lit.len() {
    R::Ok(V::S(lit.iter().map(|b| *b as u32).collect()), common)
  } else if common == rest.len() {
    R::Err(false)
  } else {
    R::Err(common > 0)
  };
  let p = seq(lit).map(|v: Vec<u8>| V::S(v.iter().map(|c| *c as u32).collect()));
  let got = real(&p, &input, pos);
  ensure_eq!(got, want, "seq {:?} on {:?} at {}", lit, rest, pos);
  Ok(lit_obs(c, &want))
}

// ------------------------------------------------------------------------------ regex
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RegexCase {
  pattern: String,
  prefix: String,
  text: String,
}
fn pattern() -> BoxedStrategy<String> {
  let atom = prop_oneof![
    5 => proptest::sample::select(vec!["a", "b", "é", "日", "1", ",", " ", "𝄞"]).prop_map(String::from),
    1 => proptest::sample::select(vec!["[ab]", "[^a]", r"\d", r"\w", ".", r"\s", "[a-c1]", "[é日]"]).prop_map(String::from),
  ];
  let body = atom.prop_recursive(3, 12, 3, |i| {
    prop_oneof![
      4 => (i.clone(), i.clone()).prop_map(|(a, b)| format!("{}{}", a, b)),
      3 => (i.clone(), i.clone()).prop_map(|(a, b)| format!("(?:{}|{})", a, b)),
      1 => i.clone().prop_map(|a| format!("({})", a)),
      3 => (i.clone(), proptest::sample::select(vec!["*", "+", "?", "{2}", "{1,2}", "*?", "+?"]))
        .prop_map(|(a, q)| format!("(?:{}){}", a, q)),
    ]
  });
  (body.clone(), body, 0u8..16)
    .prop_map(|(a, b, k)| match k {
      0 => format!("^{}", a),
      1 => format!("{}|{}", a, b),
      2 => format!("^{}|{}", a, b),
      3 => format!("{}$", a),
      4 => format!("(?i){}", a),
      5 => format!("(?i){}|{}", a, b),
      6 => format!("(?s){}.*{}", a, b),
      7 => format!("(?m){}$", a),
      8 => format!("(?m)^{}|^{}", a, b),
      9 => format!(r"\A{}|{}\z", a, b),
      10 => format!(r"\b{}\b", a),
      11 => format!("(?x) {} # {}", a.replace(' ', ""), b),
      12 => format!("(?i:{})|{}", a, b),
      _ => a,
    })
    .boxed()
}
pub fn regex_case() -> BoxedStrategy<RegexCase> {
  let t = || {
    proptest::collection::vec(proptest::sample::select(vec!['a', 'b', 'c', 'é', '日', '𝄞', '1', ',', ' ', 'A', '\n']), 0..10)
      .prop_map(|v| v.into_iter().collect::<String>())
  };
  let often = || prop_oneof![60 => Just(1usize), 5 => 20usize..60, 1 => 60usize..12_000];
  (pattern(), prop_oneof![Just(String::new()), t()], t(), t(), often(), often())
    .prop_map(|(pattern, prefix, text, tail, n, m)| RegexCase { pattern, prefix: prefix.repeat(n), text: text.repeat(m) + &tail })
    .boxed()
}
pub fn regex_check(c: &RegexCase) -> CheckResult {
  let oracle = match regex::Regex::new(&c.pattern) {
    Ok(r) => r,
    Err(_) => return Ok(Obs::discard("pattern")),
  };
  let input: Vec<char> = c.prefix.chars().chain(c.text.chars()).collect();
  let pos = c.prefix.chars().count();
  // the leftmost match begins at the position exactly when any match does
  let want = match oracle.find(&c.text).filter(|m| m.start() == 0) {
    Some(m) => R::Ok(vstr(m.as_str()), m.as_str().chars().count()),
    None => R::Err(false),
  };
  let p: Parser<char, V> = regex(&c.pattern).map(|s: String| vstr(&s));
  let got = real(&p, &input, pos);
  ensure_eq!(got, want, "pattern {:?} on {:?} at {}", c.pattern, c.text, pos);
  // what follows the match is what the next parser sees
  if let R::Ok(_, n) = want {
    let rest: Parser<char, V> = regex(&c.pattern) * take_while_rest();
    let got = real(&rest, &input, pos);
    let tail: Vec<u32> = c.text.chars().skip(n).map(|c| c as u32).collect();
    ensure_eq!(got, R::Ok(V::S(tail.clone()), n + tail.len()), "text left after {:?}", c.pattern);
  }
  Ok(
    Obs::new(c.pattern.chars().any(|x| "|*+?[(".contains(x)))
      .label_if(matches!(want, R::Ok(_, 0)), "empty-match")
      .label_if(matches!(want, R::Ok(_, n) if n > 0), "match")
      .label_if(want == R::Err(false), "no-match")
      .label_if(matches!(&want, R::Ok(V::S(s), _) if s.iter().any(|c| *c > 127)), "non-ascii-match"),
  )
}
fn take_while_rest<'a>() -> Parser<'a, char, V> {
  elm_any().of_many0().map(|v: Vec<char>| V::S(v.iter().map(|c| *c as u32).collect()))
}

// ------------------------------------------------------------------------------ taken, long texts
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TakenCase {
  text: Vec<bool>,
  n: usize,
  m: usize,
  pos: usize,
}
pub fn taken_case() -> BoxedStrategy<TakenCase> {
  (
    proptest::collection::vec((any::<bool>(), 1usize..12), 0..6),
    0usize..14,
    0usize..14,
    any::<usize>(),
  )
    .prop_map(|(runs, n, m, p)| {
      let text: Vec<bool> = runs.iter().flat_map(|(b, n)| std::iter::repeat(*b).take(*n)).collect();
      let pos = p % (text.len() + 1);
      TakenCase { text, n, m, pos }
    })
    .boxed()
}
fn taken_cmp<'a>(
  input: &'a [u8],
  pos: usize,
  name: &str,
  p: Parser<'a, u8, &'a [u8]>,
  want: Option<(usize, usize)>,
) -> Result<(), String> {
  let rest = &input[pos..];
    let got = p.run(&ParseState::new(input, pos));
    match (got, want) {
      (ParseResult::Success { value, length }, Some((s, e))) => {
        ensure_eq!(value, &rest[s..e], "{} value", name);
        ensure!(
          value.is_empty() || std::ptr::eq(value.as_ptr(), rest[s..].as_ptr()),
          "{} returned a slice of something else",
          name
        );
        ensure_eq!(length, e, "{} consumed length", name);
      }
      (ParseResult::Failure { committed_status, .. }, None) => {
        ensure!(committed_status.is_uncommitted(), "{} failed with commitment", name)
      }
      (g, w) => return Err(format!("{}: {:?}, expected the range {:?}", name, g, w)),
    }
    Ok(())
  }
pub fn taken_check(c: &TakenCase) -> CheckResult {
  let input: Vec<u8> = c.text.iter().map(|b| if *b { b'x' } else { b'-' }).collect();
  let rest = &input[c.pos..];
  let is = |b: &u8| *b == b'x';
  let start = rest.iter().position(is);
  let run = start.map(|s| (s, s + rest[s..].iter().take_while(|b| is(b)).count()));
  let enough = |n: usize| if rest.len() >= n { Some((0, n)) } else { None };
  taken_cmp(&input, c.pos, "take", take(c.n), enough(c.n))?;
  taken_cmp(&input, c.pos, "skip", skip(c.n).collect(), enough(c.n))?;
  taken_cmp(&input, c.pos, "take_while0", take_while0(is), Some(run.unwrap_or((0, 0))))?;
  taken_cmp(&input, c.pos, "take_while1", take_while1(is), run)?;
  taken_cmp(
    &input,
    c.pos,
    "take_while_n_m",
    take_while_n_m(c.n, c.m, is),
    run.filter(|(s, e)| c.n <= e - s && e - s <= c.m),
  )?;
  taken_cmp(
    &input,
    c.pos,
    "take_till0",
    take_till0(is),
    Some(start.map(|s| (0, s + 1)).unwrap_or((0, rest.len()))),
  )?;
  taken_cmp(&input, c.pos, "take_till1", take_till1(is), start.map(|s| (0, s + 1)))?;
  Ok(
    Obs::new(!rest.is_empty())
      .label_if(run.map_or(false, |(s, _)| s > 0), "leading-skip")
      .label_if(run.map_or(false, |(_, e)| e < rest.len()), "run-ends-before-input"),
  )
}

// ------------------------------------------------------------------------------ errors by constructor
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ErrCase {
  input: String,
  kind: u8,
  offset: usize,
  length: usize,
  nest: Vec<(bool, usize)>,
}
pub fn err_case() -> BoxedStrategy<ErrCase> {
  let n = || prop_oneof![6 => 0usize..12, 1 => Just(usize::MAX), 1 => any::<usize>()];
  ("[aé日]{0,8}", 0u8..4, n(), n(), proptest::collection::vec((any::<bool>(), 0usize..9), 0..3))
    .prop_map(|(input, kind, offset, length, nest)| ErrCase { input, kind, offset, length, nest })
    .boxed()
}
fn err_generic<'a, I: Sym>(c: &ErrCase, input: &'a [I]) -> Result<(ParseError<'a, I>, Option<&'a [I]>, bool), String> {
  let mut e = match c.kind {
    0 => ParseError::of_mismatch(input, c.offset, c.length, "msg-m".into()),
    1 => ParseError::of_conversion(input, c.offset, c.length, "msg-c".into()),
    2 => ParseError::of_in_complete(),
    _ => ParseError::of_custom(c.offset, None, "msg-x".into()),
  };
  let inner = format!("{}", e);
  for (i, (exp, off)) in c.nest.iter().enumerate() {
    e = if *exp {
      ParseError::of_expect(*off, Box::new(e), format!("layer{}", i))
    } else {
      ParseError::of_custom(*off, Some(Box::new(e)), format!("layer{}", i))
    };
  }
  let text = format!("{}", e);
  ensure!(text.contains(&inner), "the rendering {:?} lost the inner error {:?}", text, inner);
  for i in 0..c.nest.len() {
    ensure!(text.contains(&format!("layer{}", i)), "the rendering {:?} lost layer {}", text, i);
  }
  let top = c.nest.last().map(|x| x.0);
  ensure_eq!(
    (e.is_mismatch(), e.is_conversion(), e.is_in_complete(), e.is_expect(), e.is_custom()),
    (
      top.is_none() && c.kind == 0,
      top.is_none() && c.kind == 1,
      top.is_none() && c.kind == 2,
      top == Some(true),
      top == Some(false) || top.is_none() && c.kind == 3
    ),
    "error kind predicates"
  );
  let s = e.input();
  let fits = c.offset.checked_add(c.length).map_or(false, |end| end <= input.len());
  if c.kind < 2 {
    ensure!(s.is_some(), "no excerpt");
    if fits {
      ensure_eq!(s.unwrap(), &input[c.offset..c.offset + c.length], "excerpt");
    }
  } else {
    ensure!(s.is_none(), "excerpt of an error without input");
  }
  if let Some(s) = s {
    let (a, b) = (s.as_ptr() as usize, input.as_ptr() as usize);
    let sz = std::mem::size_of::<I>();
    ensure!(
      s.is_empty() || (a >= b && a + s.len() * sz <= b + input.len() * sz),
      "excerpt outside of the input"
    );
  }
  Ok((e, s, fits))
}
pub fn err_check(c: &ErrCase) -> CheckResult {
  let chars: Vec<char> = c.input.chars().collect();
  let bytes: Vec<u8> = c.input.bytes().collect();
  let (e, s, fits) = err_generic(c, &chars)?;
  ensure_eq!(e.input_string(), s.map(|s| s.iter().collect::<String>()), "input_string of characters");
  ensure!(e == e.clone(), "an error differs from its clone");
  let (e, s, _) = err_generic(c, &bytes)?;
  ensure_eq!(
    e.input_string(),
    s.map(|s| std::str::from_utf8(s).unwrap_or("").to_string()),
    "input_string of bytes"
  );
  Ok(Obs::new(true).label_if(fits, "inside").label_if(!fits && c.kind < 2, "outside"))
}

// ------------------------------------------------------------------------------ result algebra
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ResCase {
  ok: bool,
  value: i32,
  length: usize,
  committed: bool,
  other: bool,
  n: usize,
}
pub fn res_case() -> BoxedStrategy<ResCase> {
  (any::<bool>(), any::<i32>(), 0usize..100, any::<bool>(), any::<bool>(), 0usize..100)
    .prop_map(|(ok, value, length, committed, other, n)| ResCase { ok, value, length, committed, other, n })
    .boxed()
}
pub fn res_check(c: &ResCase) -> CheckResult {
  type Pr = ParseResult<'static, char, i32>;
  let err = || ParseError::<char>::of_custom(3, None, "e".into());
  let st: CommittedStatus = c.committed.into();
  let r = || -> Pr {
    if c.ok {
      ParseResult::successful(c.value, c.length)
    } else {
      ParseResult::failed(err(), st)
    }
  };
  let view = |r: Pr| match r {
    ParseResult::Success { value, length } => (Some((value, length)), None),
    ParseResult::Failure { error, committed_status } => (None, Some((error.to_string(), committed_status.is_committed()))),
  };
  let base = if c.ok {
    (Some((c.value, c.length)), None)
  } else {
    (None, Some((err().to_string(), c.committed)))
  };
  let status = |x: bool| {
    if c.ok {
      base.clone()
    } else {
      (None, Some((err().to_string(), x)))
    }
  };
  ensure_eq!(view(r()), base, "construction");
  ensure_eq!((r().is_success(), r().is_failure()), (c.ok, !c.ok), "is_success/is_failure");
  ensure_eq!(r().success(), if c.ok { Some(c.value) } else { None }, "success");
  ensure_eq!(r().failure().is_some(), !c.ok, "failure");
  ensure_eq!(r().to_result().ok(), if c.ok { Some(c.value) } else { None }, "to_result");
  ensure_eq!(
    r().committed_status().map(|s| s.is_committed()),
    if c.ok { None } else { Some(c.committed) },
    "committed_status"
  );
  ensure_eq!(view(r().with_uncommitted()), status(false), "with_uncommitted");
  ensure_eq!(view(r().add_commit(c.other)), status(c.committed || c.other), "add_commit");
  ensure_eq!(
    view(r().advance_success(c.n)),
    if c.ok { (Some((c.value, c.length + c.n)), None) } else { base.clone() },
    "advance_success"
  );
  ensure_eq!(
    view(r().map(|v, l| (v.wrapping_mul(3), l + 1))),
    if c.ok { (Some((c.value.wrapping_mul(3), c.length + 1)), None) } else { base.clone() },
    "map"
  );
  let n = c.n;
  ensure_eq!(
    view(r().flat_map(|v, l| if n % 2 == 0 {
      ParseResult::successful(v.wrapping_add(1), l + n)
    } else {
      ParseResult::failed_with_commit(ParseError::of_in_complete())
    })),
    match (c.ok, n % 2 == 0) {
      (true, true) => (Some((c.value.wrapping_add(1), c.length + n)), None),
      (true, false) => (None, Some(("Incomplete".to_string(), true))),
      _ => base.clone(),
    },
    "flat_map"
  );
  ensure_eq!(
    view(r().map_err(|_| ParseError::of_in_complete())),
    if c.ok { base.clone() } else { (None, Some(("Incomplete".to_string(), c.committed))) },
    "map_err"
  );
  let o: CommittedStatus = c.other.into();
  ensure_eq!(st.or(o).is_committed(), c.committed || c.other, "CommittedStatus::or");
  ensure_eq!((st.is_committed(), st.is_uncommitted()), (c.committed, !c.committed), "CommittedStatus");
  ensure_eq!(
    view(ParseResult::failed_with_uncommitted(err())).1.map(|x| x.1),
    Some(false),
    "failed_with_uncommitted"
  );
  ensure_eq!(view(ParseResult::failed_with_commit(err())).1.map(|x| x.1), Some(true), "failed_with_commit");
  Ok(Obs::new(true).label_if(c.ok, "success"))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StateCase {
  len: usize,
  steps: Vec<usize>,
  n: usize,
}
pub fn state_case() -> BoxedStrategy<StateCase> {
  (0usize..20, proptest::collection::vec(0usize..6, 0..6), 0usize..20)
    .prop_map(|(len, steps, n)| StateCase { len, steps, n })
    .boxed()
}
pub fn state_check(c: &StateCase) -> CheckResult {
  let data: Vec<u8> = (0..c.len as u8).collect();
  let mut st = ParseState::new(&data[..], 0);
  let mut off = 0;
  for s in &c.steps {
    let s = (*s).min(c.len - off);
    st = st.advance_by(s);
    off += s;
    ensure_eq!(st.current_offset(), off, "current_offset");
    ensure_eq!(st.last_offset(), off.checked_sub(1), "last_offset");
    ensure_eq!(st.input(), &data[off..], "input");
    let k = c.n.min(c.len - off);
    ensure_eq!(st.slice_with_len(k), &data[off..off + k], "slice_with_len");
  }
  Ok(Obs::new(!c.steps.is_empty()))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RangeCase {
  r: Rg,
}
pub fn range_case() -> BoxedStrategy<RangeCase> {
  (0u8..7, 0usize..1000, 0usize..1000)
    .prop_map(|(k, a, b)| RangeCase {
      r: match k {
        0 => Rg::Full,
        1 => Rg::Ex(a, b),
        2 => Rg::In(a, b),
        3 => Rg::From(a),
        4 => Rg::To(b),
        5 => Rg::ToIn(b),
        _ => Rg::Exact(a),
      },
    })
    .boxed()
}
pub fn range_check(c: &RangeCase) -> CheckResult {
  fn b(x: Bound<usize>) -> (u8, usize) {
    match x {
      Bound::Unbounded => (0, 0),
      Bound::Included(n) => (1, *n),
      Bound::Excluded(n) => (2, *n),
    }
  }
  fn ends<R: RangeArgument<usize>>(r: R) -> ((u8, usize), (u8, usize)) {
    (b(RangeArgument::start(&r)), b(RangeArgument::end(&r)))
  }
  let (got, want) = match c.r {
    Rg::Full => (ends(..), ((0, 0), (0, 0))),
    Rg::Ex(x, y) => (ends(x..y), ((1, x), (2, y))),
    Rg::In(x, y) => (ends(x..=y), ((1, x), (1, y))),
    Rg::From(x) => (ends(x..), ((1, x), (0, 0))),
    Rg::To(y) => (ends(..y), ((0, 0), (2, y))),
    Rg::ToIn(y) => (ends(..=y), ((0, 0), (1, y))),
    Rg::Exact(x) => (ends(x), ((1, x), (1, x))),
  };
  ensure_eq!(got, want, "bounds of {:?}", c.r);
  Ok(Obs::new(true))
}
