//! Algebraic laws: both sides are made with the library and must behave alike.
use crate::gen::*;
use crate::model::*;
use oni_comb_parser_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{CheckResult, Obs};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Law {
  pub law: u8,
  pub x: E,
  pub y: E,
  pub z: E,
  pub ks: Vec<E>,
  pub n: usize,
  pub input: String,
  pub pos: usize,
}
const LAWS: u8 = 36;

pub fn case() -> BoxedStrategy<Law> {
  let w = W { rep: 1, sep: 0, chain: 0, lit: 4, ..EVEN };
  (
    0..LAWS,
    expr(w, 2),
    expr(w, 2),
    expr(w, 2),
    proptest::collection::vec(expr(w, 1), 1..3),
    0usize..4,
    (proptest::collection::vec(any::<u8>(), 0..40), mutations(), 0usize..3, any::<bool>()),
  )
    .prop_map(|(law, x, y, z, ks, n, (ch, ms, pos, yfirst))| {
      let mut steer = E::And(false, Box::new(x.clone()), Box::new(E::And(false, Box::new(y.clone()), Box::new(z.clone()))));
      if matches!(law, 15 | 16 | 17 | 33) {
        steer = E::Many0(Box::new(if law == 33 {
          E::And(false, Box::new(x.clone()), Box::new(y.clone()))
        } else {
          x.clone()
        }));
      } else if yfirst {
        steer = E::And(false, Box::new(y.clone()), Box::new(z.clone()));
      }
      let body = sampled(&steer, &ch, &ms);
      let input: String = std::iter::repeat('a').take(pos).chain(body).collect();
      Law { law, x, y, z, ks, n, input, pos }
    })
    .boxed()
}

type Pp<'a> = P<'a, char>;
fn m1(v: V) -> V {
  V::M(1, Box::new(v))
}
fn m2(v: V) -> V {
  V::M(2, Box::new(v))
}

/// Returns the two sides and whether the commit status of a failure belongs to the law.
fn sides<'a>(c: &'a Law) -> (Pp<'a>, Pp<'a>, bool) {
  let x = || build::<char>(&c.x);
  let y = || build::<char>(&c.y);
  let z = || build::<char>(&c.z);
  let k = move |v: V| {
    let i = (v.h() % c.ks.len() as u64) as usize;
    build::<char>(&c.ks[i]).map(move |w| V::t(v.clone(), w))
  };
  let k2 = move |v: V| {
    let i = ((v.h() / 7) % c.ks.len() as u64) as usize;
    build::<char>(&c.ks[i]).map(move |w| V::t(w, v.clone()))
  };
  let n = c.n;
  let five = || V::N(5);
  match c.law {
    0 => (x().map(|v| v), x(), true),
    1 => (x().map(m1).map(m2), x().map(|v| m2(m1(v))), true),
    2 => (successful(five()).flat_map(k), k(five()), true),
    3 => (x().flat_map(successful), x(), true),
    4 => (
      x().flat_map(k).flat_map(k2),
      x().flat_map(move |v| k(v).flat_map(k2)),
      true,
    ),
    5 => ((x() | y()) | z(), x() | (y() | z()), true),
    6 => (failed_with_uncommit(custom()) | x(), x(), true),
    7 => (failed_with_commit(custom()) | x(), failed_with_commit(custom()), true),
    8 => (x().attempt().attempt(), x().attempt(), true),
    9 => (successful(five()) | x(), successful(five()), true),
    10 => (
      (x() + y()).map(|(a, b)| V::t(a, b)),
      {
        let yy = y();
        x().flat_map(move |a| yy.clone().map(move |b| V::t(a.clone(), b)))
      },
      false,
    ),
    11 => (x() * y(), (x() + y()).map(|t| t.1), true),
    12 => (x() - y(), (x() + y()).map(|t| t.0), true),
    13 => (surround(x(), y(), z()), (x() * y()) - z(), true),
    14 => (
      x().opt().map(|o| V::O(o.map(Box::new))),
      x().attempt().map(|v| V::O(Some(Box::new(v)))) | successful(V::O(None)),
      true,
    ),
    15 => (
      x().of_many0().map(V::L),
      x().of_many1().map(V::L) | successful(V::L(vec![])),
      true,
    ),
    16 => (x().of_count(n).map(V::L), x().repeat(n..=n).map(V::L), true),
    17 => (
      x().of_many1().map(V::L),
      (x() + x().of_many0()).map(|(a, mut l)| {
        l.insert(0, a);
        V::L(l)
      }),
      false,
    ),
    18 => (
      OperatorParser::not(OperatorParser::not(x())).map(|_| V::U),
      x().peek().discard().map(|_| V::U),
      false,
    ),
    19 => (
      x().exists().map(V::B),
      x().peek().map(|_| V::B(true)).attempt() | successful(V::B(false)),
      true,
    ),
    20 => (x().peek().peek(), x().peek(), true),
    21 => (
      x().with_filter(|v| keep(0, v)).with_filter(|v| keep(2, v)),
      x().with_filter(|v| keep(0, v) && keep(2, v)),
      true,
    ),
    22 => (x().with_filter_not(|v| keep(0, v)), x().with_filter(|v| !keep(0, v)), true),
    23 => (x().map_res(|v| Ok::<V, String>(m1(v))), x().map(m1), true),
    24 => ((x() | y()).map(m1), x().map(m1) | y().map(m1), true),
    25 => (
      ((x() + y()) + z()).map(|((a, b), c)| V::t(a, V::t(b, c))),
      (x() + (y() + z())).map(|(a, (b, c))| V::t(a, V::t(b, c))),
      true,
    ),
    26 => ((successful(five()) + x()).map(|t| t.1), x(), true),
    27 => ((x() + successful(five())).map(|t| t.0), x(), true),
    28 => (
      x().collect().collect().map(|s: &[char]| V::S(s.iter().map(|c| *c as u32).collect())),
      x().collect().map(|s: &[char]| V::S(s.iter().map(|c| *c as u32).collect())),
      true,
    ),
    29 => (x().discard().map(|_| V::U), x().map(|_| V::U), true),
    30 => (
      x().next_offset().map(V::N),
      (x() * unit().next_offset()).map(V::N),
      true,
    ),
    31 => (!x().map(|v| v), OperatorParser::not(x()), true).into_v(),
    32 => (x().and_then(y()).map(|t| V::t(t.0, t.1)), (x() + y()).map(|t| V::t(t.0, t.1)), true),
    33 => (
      x().of_many0_sep(y()).map(V::L),
      (x() + (y() * x()).of_many0()).map(|(a, mut l)| {
        l.insert(0, a);
        V::L(l)
      }).attempt() | successful(V::L(vec![])),
      false,
    ),
    34 => (x().with_filter(|_| true), x(), true),
    _ => ((x() | x()), x().attempt() | x(), false),
  }
}
trait IntoV<'a> {
  fn into_v(self) -> (Pp<'a>, Pp<'a>, bool);
}
impl<'a> IntoV<'a> for (Parser<'a, char, ()>, Parser<'a, char, ()>, bool) {
  fn into_v(self) -> (Pp<'a>, Pp<'a>, bool) {
    (self.0.map(|_| V::U), self.1.map(|_| V::U), self.2)
  }
}

pub fn check(c: &Law) -> CheckResult {
  let input: Vec<char> = c.input.chars().collect();
  let codes: Vec<u32> = input.iter().map(|x| *x as u32).collect();
  if c.pos > input.len() {
    return Ok(Obs::discard("offset"));
  }
  // every part must have a result wherever it may be tried
  for e in [&c.x, &c.y, &c.z].into_iter().chain(c.ks.iter()) {
    for at in c.pos..=input.len() {
      match Interp::new(&codes, false).go(e, at) {
        Err(_) => return Ok(Obs::discard("diverges")),
        Ok(R::Ok(_, 0)) if matches!(c.law, 15 | 16 | 17 | 33) => return Ok(Obs::discard("repeats nothing")),
        _ => {}
      }
    }
  }
  let (l, r, status) = sides(c);
  let (a, b) = (real(&l, &input, c.pos), real(&r, &input, c.pos));
  let same = match (&a, &b) {
    (R::Err(_), R::Err(_)) if !status => true,
    _ => a == b,
  };
  if !same {
    return Err(format!("law {}: left {:?}, right {:?}", c.law, a, b));
  }
  Ok(
    Obs::new(true)
      .label(format!("law{:02}-{}", c.law, if matches!(a, R::Ok(..)) { "ok" } else { "err" })),
  )
}
