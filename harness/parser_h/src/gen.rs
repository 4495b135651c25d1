//! Generators of expressions and of inputs that fit them.
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
  pub e: E,
  pub input: String,
  pub pos: usize,
}

/// Relative weights of the node groups.
#[derive(Clone, Copy)]
pub struct W {
  pub prim: u32,
  pub elem: u32,
  pub lit: u32,
  pub taken: u32,
  pub functor: u32,
  pub seq: u32,
  pub alt: u32,
  pub look: u32,
  pub rep: u32,
  pub sep: u32,
  pub chain: u32,
  pub slice: u32,
  pub wrap: u32,
  pub no_case: bool,
}
pub const EVEN: W = W {
  prim: 2,
  elem: 6,
  lit: 3,
  taken: 1,
  functor: 3,
  seq: 4,
  alt: 4,
  look: 2,
  rep: 2,
  sep: 2,
  chain: 1,
  slice: 2,
  wrap: 1,
  no_case: true,
};

pub fn sym() -> impl Strategy<Value = char> {
  prop_oneof![4 => Just('a'), 3 => Just('b'), 2 => Just('c'), 2 => Just('1'), 2 => Just(','), 2 => Just('+'),
    1 => proptest::sample::select(&ALPHA[..]), 1 => proptest::sample::select(&WIDE[..])]
}
pub fn lit() -> impl Strategy<Value = String> {
  proptest::collection::vec(sym(), 0..4).prop_map(|v| v.into_iter().collect())
}
fn leaf(w: W) -> BoxedStrategy<E> {
  let prim = prop_oneof![
    2 => any::<bool>().prop_map(E::Fail),
    1 => any::<bool>().prop_map(E::FailLazy),
    2 => (0u8..4).prop_map(E::Succ),
    1 => (0u8..4).prop_map(E::SuccLazy),
    1 => (0u8..4).prop_map(E::Pure),
    1 => proptest::sample::select(vec![E::Unit, E::Empty, E::Begin]),
    3 => Just(E::End),
  ];
  let elem = prop_oneof![
    8 => sym().prop_map(E::Elm),
    4 => sym().prop_map(E::ElmRef),
    1 => Just(E::Any),
    1 => Just(E::AnyRef),
    1 => any::<u8>().prop_map(E::Pred),
    1 => any::<u8>().prop_map(E::PredRef),
    1 => (0u8..9).prop_map(E::Class),
    1 => (0u8..9).prop_map(E::ClassRef),
    1 => (sym(), sym()).prop_map(|(a, b)| E::In(a, b)),
    1 => (sym(), sym()).prop_map(|(a, b)| E::InRef(a, b)),
    1 => (sym(), sym()).prop_map(|(a, b)| E::Until(a, b)),
    1 => (sym(), sym()).prop_map(|(a, b)| E::UntilRef(a, b)),
    1 => (0u8..8).prop_map(E::Of),
    1 => (0u8..8).prop_map(E::OfRef),
    1 => (0u8..8).prop_map(E::NoneOf),
    1 => (0u8..8).prop_map(E::NoneRefOf),
  ];
  let nc = if w.no_case { 1 } else { 0 };
  let mut lits = vec![(2, lit().prop_map(E::Seq).boxed()), (2, lit().prop_map(E::Tag).boxed())];
  if nc > 0 {
    lits.push((1, lit().prop_map(E::TagNoCase).boxed()));
  }
  let lits = Union::new_weighted(lits);
  let taken = prop_oneof![
    2 => (0usize..5).prop_map(E::Take),
    2 => (0usize..5).prop_map(E::Skip),
    1 => (0u8..8).prop_map(E::While0),
    1 => (0u8..8).prop_map(E::While1),
    1 => (0usize..3, 0usize..5, 0u8..8).prop_map(|(a, b, k)| E::WhileNM(a, b, k)),
    1 => (0u8..8).prop_map(E::Till0),
    1 => (0u8..8).prop_map(E::Till1),
  ];
  Union::new_weighted(
    vec![
      (w.prim, prim.boxed()),
      (w.elem, elem.boxed()),
      (w.lit, lits.boxed()),
      (w.taken, taken.boxed()),
    ]
    .into_iter()
    .filter(|x| x.0 > 0)
    .collect::<Vec<_>>(),
  )
  .boxed()
}
pub fn range() -> impl Strategy<Value = Rg> {
  prop_oneof![
    1 => Just(Rg::Full),
    3 => (0usize..4, 0usize..5).prop_map(|(a, b)| Rg::Ex(a, b)),
    3 => (0usize..4, 0usize..5).prop_map(|(a, b)| Rg::In(a, b)),
    2 => (0usize..4).prop_map(Rg::From),
    2 => (0usize..5).prop_map(Rg::To),
    2 => (0usize..5).prop_map(Rg::ToIn),
    1 => (0usize..4).prop_map(Rg::Exact),
  ]
}

pub fn expr(w: W, depth: u32) -> BoxedStrategy<E> {
  let l = leaf(w);
  let ll = l.clone();
  l.prop_recursive(depth, 24, 4, move |inner| {
    let b = inner.clone().prop_map(Box::new);
    // repetition and chains work better over things that consume
    let seqs = prop_oneof![
      4 => (any::<bool>(), b.clone(), b.clone()).prop_map(|(o, x, y)| E::And(o, x, y)),
      2 => (any::<bool>(), b.clone(), b.clone()).prop_map(|(o, x, y)| E::SkipL(o, x, y)),
      2 => (any::<bool>(), b.clone(), b.clone()).prop_map(|(o, x, y)| E::SkipR(o, x, y)),
      2 => (any::<bool>(), b.clone(), b.clone(), b.clone()).prop_map(|(o, x, y, z)| E::Sur(o, x, y, z)),
      3 => (b.clone(), proptest::collection::vec(inner.clone(), 1..3)).prop_map(|(x, ks)| E::FlatMap(x, ks)),
    ];
    let functor = prop_oneof![
      2 => (0u8..4, b.clone()).prop_map(|(k, x)| E::Map(k, x)),
      2 => (0u8..4, b.clone()).prop_map(|(k, x)| E::Filter(k, x)),
      1 => (0u8..4, b.clone()).prop_map(|(k, x)| E::FilterNot(k, x)),
      1 => (0u8..4, b.clone()).prop_map(|(k, x)| E::MapRes(k, x)),
    ];
    let alt = prop_oneof![
      5 => (any::<bool>(), b.clone(), b.clone()).prop_map(|(o, x, y)| E::Or(o, x, y)),
      2 => b.clone().prop_map(E::Attempt),
    ];
    let look = prop_oneof![
      (any::<bool>(), b.clone()).prop_map(|(o, x)| E::Not(o, x)),
      b.clone().prop_map(E::Opt),
      b.clone().prop_map(E::Exists),
      b.clone().prop_map(E::Peek),
    ];
    let rep = prop_oneof![
      3 => (range(), b.clone()).prop_map(|(r, x)| E::Rep(r, x)),
      1 => b.clone().prop_map(E::Many0),
      1 => b.clone().prop_map(E::Many1),
      1 => (0usize..3, 0usize..5, b.clone()).prop_map(|(n, m, x)| E::ManyNM(n, m, x)),
      1 => (0usize..4, b.clone()).prop_map(|(n, x)| E::Count(n, x)),
    ];
    let sp = prop_oneof![3 => ll.clone(), 1 => inner.clone()].prop_map(Box::new).boxed();
    let sep = prop_oneof![
      3 => (range(), b.clone(), sp.clone()).prop_map(|(r, x, s)| E::RepSep(r, x, s)),
      1 => (b.clone(), sp.clone()).prop_map(|(x, s)| E::Many0Sep(x, s)),
      1 => (b.clone(), sp.clone()).prop_map(|(x, s)| E::Many1Sep(x, s)),
      1 => (0usize..3, 0usize..5, b.clone(), sp.clone()).prop_map(|(n, m, x, s)| E::ManyNMSep(n, m, x, s)),
      1 => (0usize..4, b.clone(), sp.clone()).prop_map(|(n, x, s)| E::CountSep(n, x, s)),
    ];
    let chain = prop_oneof![
      3 => (b.clone(), sp.clone()).prop_map(|(x, s)| E::ChainL1(x, s)),
      2 => (b.clone(), sp.clone(), 0u8..3).prop_map(|(x, s, k)| E::ChainL0(x, s, k)),
      3 => (any::<bool>(), b.clone(), sp.clone()).prop_map(|(o, x, s)| E::ChainR1(o, x, s)),
      2 => (b.clone(), sp.clone(), 0u8..3).prop_map(|(x, s, k)| E::ChainR0(x, s, k)),
      1 => (b.clone(), sp.clone(), 0u8..3).prop_map(|(x, s, k)| E::RestL1(x, s, k)),
      1 => (b.clone(), sp.clone(), 0u8..3).prop_map(|(x, s, k)| E::RestR1(x, s, k)),
    ];
    let slice = prop_oneof![
      b.clone().prop_map(E::Collect),
      b.clone().prop_map(E::Discard),
      b.clone().prop_map(E::LastOff),
      b.clone().prop_map(E::NextOff),
    ];
    let wrap = prop_oneof![
      2 => b.clone().prop_map(E::Cache),
      1 => b.clone().prop_map(E::Name),
      1 => (0u8..4, b.clone()).prop_map(|(k, x)| E::Log(k, x)),
      1 => b.clone().prop_map(E::Lazy),
    ];
    Union::new_weighted(
      vec![
        (w.seq, seqs.boxed()),
        (w.functor, functor.boxed()),
        (w.alt, alt.boxed()),
        (w.look, look.boxed()),
        (w.rep, rep.boxed()),
        (w.sep, sep.boxed()),
        (w.chain, chain.boxed()),
        (w.slice, slice.boxed()),
        (w.wrap, wrap.boxed()),
      ]
      .into_iter()
      .filter(|x| x.0 > 0)
      .collect::<Vec<_>>(),
    )
  })
  .boxed()
}

#[derive(Debug, Clone)]
pub enum Mut {
  Ins(usize, char),
  Del(usize),
  Set(usize, char),
  Append(char),
}
pub fn mutations() -> impl Strategy<Value = Vec<Mut>> {
  let m = prop_oneof![
    (any::<usize>(), sym()).prop_map(|(i, c)| Mut::Ins(i, c)),
    any::<usize>().prop_map(Mut::Del),
    (any::<usize>(), sym()).prop_map(|(i, c)| Mut::Set(i, c)),
    sym().prop_map(Mut::Append),
  ];
  prop_oneof![3 => Just(vec![]), 4 => proptest::collection::vec(m, 1..4)]
}
pub fn mutate(v: &mut Vec<char>, ms: &[Mut]) {
  for m in ms {
    match m {
      Mut::Ins(i, c) => {
        let n = v.len() + 1;
        v.insert(i % n, *c)
      }
      Mut::Del(i) if !v.is_empty() => {
        let n = v.len();
        v.remove(i % n);
      }
      Mut::Set(i, c) if !v.is_empty() => {
        let n = v.len();
        v[i % n] = *c
      }
      Mut::Append(c) => v.push(*c),
      _ => {}
    }
  }
}
pub fn sampled(e: &E, choices: &[u8], ms: &[Mut]) -> Vec<char> {
  let mut i = 0;
  let mut bits = |n: usize| {
    let c = choices.get(i).copied().unwrap_or(0) as usize;
    i += 1;
    if n == 0 {
      0
    } else {
      c % n
    }
  };
  let mut out = vec![];
  sample(e, &mut bits, &mut out, 12);
  mutate(&mut out, ms);
  out.truncate(40);
  out
}

/// An expression, an input steered towards it, and a start offset (the prefix is arbitrary text).
pub fn case(w: W, depth: u32) -> BoxedStrategy<Case> {
  case_of(expr(w, depth))
}
pub fn case_of(e: BoxedStrategy<E>) -> BoxedStrategy<Case> {
  (
    e,
    proptest::collection::vec(any::<u8>(), 0..40),
    mutations(),
    prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(sym(), 1..4)],
  )
    .prop_map(|(e, ch, ms, prefix)| {
      let body = sampled(&e, &ch, &ms);
      let pos = prefix.len();
      let input: String = prefix.into_iter().chain(body).collect();
      Case { e, input, pos }
    })
    .boxed()
}

/// One place that usually fails, in one of the ways parsing can fail, under a chain of combinators that pass
/// the failure on, drop it, or change its commit status.
pub fn spine() -> BoxedStrategy<Case> {
  let small = || leaf(LEAF).prop_map(Box::new);
  let taken = || prop_oneof![sym().prop_map(E::Elm), Just(E::Any), lit().prop_map(E::Tag), Just(E::Succ(1)), (1usize..3).prop_map(E::Skip)].prop_map(Box::new);
  let origin = prop_oneof![
    2 => any::<bool>().prop_map(E::Fail),
    1 => any::<bool>().prop_map(E::FailLazy),
    2 => (0u8..4, small()).prop_map(|(k, x)| E::MapRes(k, x)),
    2 => (0u8..4, small()).prop_map(|(k, x)| E::Filter(k, x)),
    1 => (0u8..4, small()).prop_map(|(k, x)| E::FilterNot(k, x)),
    2 => lit().prop_map(E::Seq),
    1 => lit().prop_map(E::Tag),
    2 => sym().prop_map(E::Elm),
    1 => (0u8..9).prop_map(E::Class),
    1 => Just(E::End),
    1 => (1usize..5).prop_map(E::Take),
    1 => (1usize..5).prop_map(E::Skip),
    1 => (0u8..8).prop_map(E::While1),
    1 => (0u8..8).prop_map(E::Till1),
    1 => (any::<bool>(), small()).prop_map(|(o, x)| E::Not(o, x)),
    1 => (range(), taken()).prop_map(|(r, x)| E::Rep(r, x)),
    1 => (range(), taken(), sym()).prop_map(|(r, x, s)| E::RepSep(r, x, Box::new(E::Elm(s)))),
    1 => (sym(), sym()).prop_map(|(a, b)| E::ChainL1(Box::new(E::Elm(a)), Box::new(E::Elm(b)))),
    1 => (sym(), sym()).prop_map(|(a, b)| E::ChainR1(false, Box::new(E::Elm(a)), Box::new(E::Elm(b)))),
  ];
  let step = (0u8..30, taken(), small(), any::<u8>(), range());
  let e = (origin, proptest::collection::vec(step, 1..6)).prop_map(|(o, steps)| {
    let mut e = o;
    for (k, t, s, n, r) in steps {
      let x = Box::new(e);
      e = match k {
        0..=2 => E::Attempt(x),
        3..=5 => E::FlatMap(t, vec![*x]),
        6 => E::FlatMap(x, vec![*t]),
        7 => E::And(n & 1 == 0, t, x),
        8 => E::And(n & 1 == 0, x, t),
        9 => E::SkipL(n & 1 == 0, t, x),
        10 => E::SkipR(n & 1 == 0, t, x),
        11 => E::SkipR(n & 1 == 0, x, t),
        12 | 13 => E::Or(n & 1 == 0, x, s),
        14 => E::Or(n & 1 == 0, s, x),
        15 => E::Opt(x),
        16 => E::Not(n & 1 == 0, x),
        17 => E::Exists(x),
        18 => E::Peek(x),
        19 => E::Map(n % 4, x),
        20 => E::Filter(n % 4, x),
        21 => E::MapRes(n % 4, x),
        22 => E::Collect(x),
        23 => E::Discard(x),
        24 => E::Sur(n & 1 == 0, t, x, s),
        25 => E::Name(x),
        26 => E::Cache(x),
        27 => E::Lazy(x),
        28 => E::Log(n % 4, x),
        _ => E::RepSep(r, Box::new(E::And(true, t, x)), s),
      };
    }
    e
  });
  case_of(e.boxed())
}
const LEAF: W = W { elem: 4, lit: 3, taken: 1, prim: 1, ..EVEN };

/// Long inputs, high counts and high offsets: what a counter that is too small, a fixed buffer or a quadratic
/// habit of the library would show. `kinds` selects the expressions.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Long {
  Repeat,
  Chain,
  Taken,
  Literal,
  Any,
  /// Any of them within choices and commits, look-ahead, wrappers.
  Choice,
  Look,
  Wrap,
}
pub fn long(what: Long) -> BoxedStrategy<Case> {
  let unit = || {
    prop_oneof![
      4 => sym().prop_map(E::Elm),
      1 => sym().prop_map(E::ElmRef),
      1 => Just(E::Any),
      1 => (0u8..8).prop_map(E::Class),
      1 => (0u8..7).prop_map(E::Of),
      2 => proptest::collection::vec(sym(), 1..4).prop_map(|v| E::Tag(v.into_iter().collect())),
      1 => (sym(), sym()).prop_map(|(a, b)| E::And(true, Box::new(E::Elm(a)), Box::new(E::Elm(b)))),
      1 => (sym(), sym()).prop_map(|(a, b)| E::Or(false, Box::new(E::Elm(a)), Box::new(E::Elm(b)))),
      1 => (sym(), sym()).prop_map(|(a, b)| E::FlatMap(Box::new(E::Elm(a)), vec![E::Elm(b)])),
      1 => sym().prop_map(|a| E::Cache(Box::new(E::Elm(a)))),
    ]
  };
  let count = prop_oneof![8 => 5usize..120, 3 => 120usize..300, 3 => 253usize..260, 1 => 1020usize..1030, 3 => vcommon::mined_size(1_100)];
  let huge = prop_oneof![32 => Just(0usize), 2 => 65_530usize..65_540, 1 => vcommon::mined_size(70_000)];
  let prefix = prop_oneof![
    3 => Just(0usize), 2 => 1usize..5, 2 => 250usize..260, 1 => 1_000usize..1_030, 1 => 65_530usize..65_540, 1 => vcommon::mined_size(70_000)];
  (
    (count, huge, prefix, sym()),
    (unit(), unit(), leaf(LEAF)),
    proptest::collection::vec(any::<u8>(), 1..12),
    (any::<u8>(), 0usize..5, 0usize..5, any::<u8>()),
    proptest::collection::vec((any::<usize>(), sym()), 0..2),
    any::<bool>(),
  )
    .prop_map(move |((n, huge, pre, fill), (u, v, after), bits, (kind, d1, d2, wrap), edits, tail)| {
      let around = |n: usize, d: usize| (n + d).saturating_sub(2);
      let (bu, bv) = (Box::new(u.clone()), Box::new(v.clone()));
      let kind = match what {
        Long::Repeat => kind % 9,
        Long::Chain => 9 + kind % 4,
        Long::Taken => 13 + kind % 7,
        Long::Literal => 20 + kind % 3,
        Long::Any | Long::Choice | Long::Look | Long::Wrap => kind % 23,
      };
      let n = match kind {
        0..=3 | 13..=19 if huge > 0 => huge,
        9..=12 => n.min(260),
        _ => n,
      };
      let (lo, hi) = (around(n, d1), around(n, d2));
      let lit: String = bits.iter().map(|b| ALPHA[*b as usize % 12]).cycle().take(n).collect();
      let k = d1 as u8 + 1;
      let bounds = match bits[0] % 6 {
        0 => Rg::Ex(lo, hi),
        1 => Rg::In(lo, hi),
        2 => Rg::From(lo),
        3 => Rg::To(hi),
        4 => Rg::ToIn(hi),
        _ => Rg::Exact(hi),
      };
      let e = match kind {
        0 => E::Many0(bu),
        1 => E::Rep(bounds, bu),
        2 => E::Count(hi, bu),
        3 => E::ManyNM(lo, hi, bu),
        4 => E::RepSep(bounds, bu, bv),
        5 => E::RepSep(Rg::Ex(lo, hi), bu, bv),
        6 => E::Many1Sep(bu, bv),
        7 => E::CountSep(hi, bu, bv),
        8 => E::Rep(Rg::To(hi), bu),
        9 => E::ChainL1(bu, bv),
        10 => E::ChainR1(d1 & 1 == 0, bu, bv),
        11 => E::ChainL0(bu, bv, 1),
        12 => E::ChainR0(bu, bv, 1),
        13 => E::Take(hi),
        14 => E::Skip(hi),
        15 => E::While0(k),
        16 => E::While1(k),
        17 => E::WhileNM(lo, hi, k),
        18 => E::Till0(k),
        19 => E::Till1(k),
        20 => E::Seq(lit.clone()),
        21 => E::Tag(lit.clone()),
        _ => E::TagNoCase(lit.clone()),
      };
      let mut body: Vec<char> = vec![];
      let sampled = |e: &E, i: usize| {
        let mut o = vec![];
        let mut j = i;
        sample(e, &mut |m| { j += 1; if m == 0 { 0 } else { bits[j % bits.len()] as usize % m } }, &mut o, 4);
        o
      };
      match kind {
        4..=7 | 9..=12 => {
          for i in 0..n {
            if i > 0 {
              body.extend(sampled(&v, i));
            }
            body.extend(sampled(&u, i));
          }
        }
        0..=3 | 8 => (0..n).for_each(|i| body.extend(sampled(&u, i))),
        13 | 14 => body.extend((0..n).map(|i| ALPHA[bits[i % bits.len()] as usize % 12])),
        15..=17 => {
          let set: Vec<char> = SETS[k as usize % 8].chars().collect();
          if d2 == 0 {
            body.extend(std::iter::repeat('z').take(n));
          }
          if !set.is_empty() {
            body.extend((0..n).map(|i| set[bits[i % bits.len()] as usize % set.len()]));
          }
        }
        18 | 19 => {
          body.extend(std::iter::repeat('z').take(n));
          body.extend(SETS[k as usize % 8].chars().take(1));
        }
        _ => body.extend(lit.chars()),
      }
      let len = body.len().max(1);
      for (i, c) in edits {
        if i % 3 == 0 {
          // near the end, where it matters most
          let at = body.len().saturating_sub(1 + i / 3 % 4);
          if let Some(x) = body.get_mut(at) {
            *x = c;
          }
        } else if i % 3 == 1 {
          if let Some(x) = body.get_mut(i / 3 % len) {
            *x = c;
          }
        } else {
          body.truncate(body.len().saturating_sub(i / 3 % 3));
        }
      }
      if tail {
        body.extend(sampled(&after, 0));
      }
      let x = Box::new(e);
      let after_too = Box::new(after.clone());
      let next = || Box::new(E::Opt(Box::new(E::Any)));
      let e = match (what, wrap % 12) {
        (Long::Choice, 0) => E::Or(true, Box::new(E::And(false, x, after_too)), Box::new(E::Skip(1))),
        (Long::Choice, 1) => E::Or(false, Box::new(E::Attempt(Box::new(E::FlatMap(x, vec![after])))), Box::new(E::Take(1))),
        (Long::Choice, 2) => E::Or(false, Box::new(E::FlatMap(x, vec![after, E::Fail(false)])), Box::new(E::Succ(1))),
        (Long::Choice, 3) => E::Or(false, Box::new(E::Elm('~')), x),
        (Long::Choice, 4) => E::Or(true, x, Box::new(E::Take(2))),
        (Long::Look, 0) => E::And(false, Box::new(E::Peek(x)), next()),
        (Long::Look, 1) => E::And(true, Box::new(E::Exists(x)), next()),
        (Long::Look, 2) => E::And(true, Box::new(E::Opt(x)), next()),
        (Long::Look, 3) => E::Or(false, Box::new(E::SkipL(false, Box::new(E::Not(d1 & 1 == 0, x)), next())), Box::new(E::Take(1))),
        (Long::Look, 4) => E::And(true, Box::new(E::Opt(Box::new(E::FlatMap(x, vec![after])))), next()),
        (Long::Look, 5) => E::Peek(Box::new(E::And(true, x, after_too))),
        (Long::Wrap, 0) => E::Cache(x),
        (Long::Wrap, 1) => E::Name(x),
        (Long::Wrap, 2) => E::Log(k, x),
        (Long::Wrap, 3) => E::Lazy(x),
        (Long::Wrap, 4) => E::Or(false, Box::new(E::Cache(Box::new(E::And(true, x, after_too)))), next()),
        (_, 0) => E::Collect(x),
        (_, 1) => E::Discard(x),
        (_, 2) => E::NextOff(x),
        (_, 3) => E::LastOff(x),
        (_, 4) => E::And(true, x, Box::new(after)),
        (_, 5) => E::FlatMap(x, vec![after]),
        (_, 6) => E::Or(false, Box::new(E::FlatMap(x, vec![after])), Box::new(E::Take(3))),
        (_, 7) => E::Or(false, Box::new(E::Attempt(Box::new(E::SkipR(true, x, Box::new(after))))), Box::new(E::Skip(2))),
        _ => *x,
      };
      let input: String = std::iter::repeat(fill).take(pre).chain(body).collect();
      Case { e, input, pos: pre }
    })
    .boxed()
}
