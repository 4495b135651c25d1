//! Whole grammars composed from the library: recursion, JSON, arithmetic, separated lists.
use crate::model::Sym;
use oni_comb_parser_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, CheckResult, Obs};

type G<'a, I, A> = Parser<'a, I, A>;

fn ch<'a, I: Sym>(c: char) -> G<'a, I, I> {
  elm(I::of(c))
}
fn within<'a, I: Sym>(set: &'static str) -> G<'a, I, I> {
  elm_pred(move |x: &I| set.chars().any(|c| c as u32 == x.code()))
}
fn span<'a, I: Sym>(lo: char, hi: char) -> G<'a, I, I> {
  elm_in(I::of(lo), I::of(hi))
}
fn blank<'a, I: Sym>() -> G<'a, I, ()> {
  within(" \t\r\n").of_many0().discard()
}
fn lexeme<'a, I: Sym, A: Clone + std::fmt::Debug + 'a>(p: G<'a, I, A>) -> G<'a, I, A> {
  p - blank()
}
fn text_of<I: Sym>(s: &[I]) -> String {
  s.iter().map(|x| char::from_u32(x.code()).unwrap()).collect()
}
fn small_edits() -> impl Strategy<Value = Vec<(u8, usize, char)>> {
  let pool: Vec<char> = " \n,:[]{}()\"\\0123456789.eE+-*/tfnu;aX'é😀\u{1f}".chars().collect();
  let one = (0u8..3, any::<usize>(), proptest::sample::select(pool));
  prop_oneof![4 => Just(vec![]), 3 => proptest::collection::vec(one, 1..3)]
}
fn edit(text: &str, es: &[(u8, usize, char)]) -> String {
  let mut v: Vec<char> = text.chars().collect();
  for (k, i, c) in es {
    match k {
      0 => {
        let n = v.len() + 1;
        v.insert(i % n, *c)
      }
      1 if !v.is_empty() => {
        let n = v.len();
        v.remove(i % n);
      }
      _ if !v.is_empty() => {
        let n = v.len();
        v[i % n] = *c
      }
      _ => {}
    }
  }
  v.into_iter().collect()
}

// ------------------------------------------------------------------------------------------------ nesting
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Nest {
  pub text: String,
  pub mode: u8,
  pub rounds: u8,
}
#[derive(Debug, Clone, PartialEq)]
enum Tree {
  Leaf,
  Node(char, Vec<Tree>),
}
fn nest_value<'a>(mode: u8) -> G<'a, char, Vec<Tree>> {
  let kid = move || {
    let p = lazy(move || nest_value(mode));
    match mode & 3 {
      0 => p,
      1 => p.cache(),
      2 => p.name("nest"),
      _ => p.cache().cache(),
    }
  };
  let pair = move |open: char, close: char| {
    let p = surround(elm(open), kid(), elm(close)).map(move |v| Tree::Node(open, v));
    if mode & 4 != 0 {
      p.attempt().cache()
    } else {
      p
    }
  };
  let item = elm('x').map(|_| Tree::Leaf) | pair('(', ')') | pair('[', ']');
  item.of_many0()
}
fn nest_oracle(t: &[char], i: &mut usize) -> Option<Vec<Tree>> {
  // Some(items) once no further item starts or completes here; a half-read item fails in committed mode.
  let mut out = vec![];
  loop {
    match t.get(*i) {
      Some('x') => {
        *i += 1;
        out.push(Tree::Leaf)
      }
      Some(&o) if o == '(' || o == '[' => {
        let close = if o == '(' { ')' } else { ']' };
        let mut j = *i + 1;
        let kids = nest_oracle(t, &mut j)?;
        if t.get(j) != Some(&close) {
          return None;
        }
        *i = j + 1;
        out.push(Tree::Node(o, kids));
      }
      _ => return Some(out),
    }
  }
}
pub fn nest_case() -> BoxedStrategy<Nest> {
  let tree = Just("x".to_string()).prop_recursive(5, 24, 4, |inner| {
    (any::<bool>(), proptest::collection::vec(inner, 0..4)).prop_map(|(r, k)| {
      let b = k.concat();
      if r {
        format!("({})", b)
      } else {
        format!("[{}]", b)
      }
    })
  });
  let flips = prop_oneof![
    3 => Just(vec![]),
    2 => proptest::collection::vec((0u8..3, any::<usize>(), proptest::sample::select(vec!['(', ')', '[', ']', 'x', 'y'])), 1..3)
  ];
  (proptest::collection::vec(tree, 0..4), flips, 0u8..8, 1u8..3)
    .prop_map(|(t, es, mode, rounds)| Nest {
      text: edit(&t.concat(), &es),
      mode,
      rounds,
    })
    .boxed()
}
pub fn nest_check(c: &Nest) -> CheckResult {
  let t: Vec<char> = c.text.chars().collect();
  let mut i = 0;
  let want = nest_oracle(&t, &mut i).filter(|_| i == t.len());
  let p = nest_value(c.mode) - end();
  for r in 0..c.rounds {
    let got = p.parse(&t).success();
    ensure!(
      got == want,
      "run {} of the recursive grammar (mode {}) on {:?}: {:?}, reference {:?}",
      r,
      c.mode,
      c.text,
      got,
      want
    );
  }
  Ok(
    Obs::new(t.len() > 2)
      .label_if(want.is_some(), "accepted")
      .label_if(want.is_none(), "rejected")
      .label_if(c.mode & 1 == 1 || c.mode & 4 != 0, "memoised"),
  )
}

// --------------------------------------------------------------------------------------------------- JSON
#[derive(Debug, Clone, PartialEq)]
enum J {
  Null,
  Bool(bool),
  Num(f64),
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(String, J)>),
}
trait Unit: Sym {
  fn encode(c: char) -> Vec<Self>;
  fn decode(v: &[Self]) -> Option<String>;
  fn word<'a>(s: &'static str) -> G<'a, Self, ()>;
}
impl Unit for char {
  fn encode(c: char) -> Vec<char> {
    vec![c]
  }
  fn decode(v: &[char]) -> Option<String> {
    Some(v.iter().collect())
  }
  fn word<'a>(s: &'static str) -> G<'a, char, ()> {
    tag(s).discard()
  }
}
impl Unit for u8 {
  fn encode(c: char) -> Vec<u8> {
    c.to_string().into_bytes()
  }
  fn decode(v: &[u8]) -> Option<String> {
    String::from_utf8(v.to_vec()).ok()
  }
  fn word<'a>(s: &'static str) -> G<'a, u8, ()> {
    seq(s.as_bytes()).discard()
  }
}
fn j_number<'a, I: Unit>() -> G<'a, I, f64> {
  let digits = || span('0', '9').of_many0();
  let digits1 = || span::<I>('0', '9').of_many1();
  let int = (span('1', '9') * digits()).discard() | ch('0').discard();
  let frac = ch('.') * digits1();
  let exp = within("eE") * within("+-").opt() * digits1();
  // `opt` gives a half-read fraction or exponent back, so that the following symbol is rejected by the caller
  (ch('-').opt() * int * frac.opt() * exp.opt())
    .collect()
    .map_res(|s: &[I]| text_of(s).parse::<f64>())
}
fn j_string<'a, I: Unit>() -> G<'a, I, String> {
  let plain = elm_pred(|x: &I| x.code() >= 0x20 && x.code() != '"' as u32 && x.code() != '\\' as u32).map(|x| vec![x]);
  let simple = (ch('"').map(|_| '"'))
    | ch('\\').map(|_| '\\')
    | ch('/').map(|_| '/')
    | ch('b').map(|_| '\u{8}')
    | ch('f').map(|_| '\u{c}')
    | ch('n').map(|_| '\n')
    | ch('r').map(|_| '\r')
    | ch('t').map(|_| '\t');
  let hex4 = || {
    ch::<I>('u')
      * elm_pred(|x: &I| (x.code() as u8 as char).is_ascii_hexdigit() && x.code() < 128)
        .of_count(4)
        .map_res(|v| u16::from_str_radix(&text_of(&v), 16))
  };
  let high = || hex4().with_filter(|u| (0xD800..0xDC00).contains(u));
  let low = || hex4().with_filter(|u| (0xDC00..0xE000).contains(u));
  let pair = (high() + (ch('\\') * low())).map(|(h, l)| {
    let c = 0x10000 + ((h as u32 - 0xD800) << 10) + (l as u32 - 0xDC00);
    char::from_u32(c).unwrap()
  });
  let single = hex4()
    .with_filter_not(|u| (0xD800..0xE000).contains(u))
    .map(|u| char::from_u32(u as u32).unwrap());
  let escaped = ch('\\') * (simple | single.attempt() | pair);
  surround(ch('"'), (plain | escaped.map(I::encode)).of_many0(), ch('"'))
    .map_res(|v| I::decode(&v.concat()).ok_or("utf-8"))
}
fn j_value<'a, I: Unit>() -> G<'a, I, J> {
  let sep = || lexeme(ch(','));
  let arr = surround(lexeme(ch('[')), lazy(j_value::<I>).of_many0_sep(sep()), ch(']')).map(J::Arr);
  let member = (lexeme(j_string()) - lexeme(ch(':'))) + lazy(j_value::<I>);
  let obj = surround(lexeme(ch('{')), member.of_many0_sep(sep()), ch('}')).map(J::Obj);
  lexeme(
    I::word("null").map(|_| J::Null).attempt()
      | I::word("true").map(|_| J::Bool(true)).attempt()
      | I::word("false").map(|_| J::Bool(false)).attempt()
      | j_number().map(J::Num).attempt()
      | j_string().map(J::Str)
      | arr
      | obj,
  )
}
fn json_p<'a, I: Unit>() -> G<'a, I, J> {
  blank() * j_value() - end()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Json {
  pub text: String,
  pub nodes: usize,
}
fn js_text(s: &str, esc: &[u8]) -> String {
  let mut o = String::from("\"");
  for (i, c) in s.chars().enumerate() {
    let k = esc.get(i).copied().unwrap_or(0);
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' if k % 2 == 0 => o.push_str("\\n"),
      '\t' if k % 2 == 0 => o.push_str("\\t"),
      '\r' if k % 2 == 0 => o.push_str("\\r"),
      '\u{8}' if k % 2 == 0 => o.push_str("\\b"),
      '\u{c}' if k % 2 == 0 => o.push_str("\\f"),
      '/' if k % 2 == 0 => o.push_str("\\/"),
      c if (c as u32) < 0x20 || k % 5 == 4 => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          o.push_str(&if k % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
        }
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
pub fn json_case() -> BoxedStrategy<Json> {
  let ws = || proptest::sample::select(vec!["", "", "", " ", "\n", "\t ", "\r\n"]);
  let string = || {
    (
      proptest::collection::vec(
        prop_oneof![
          4 => proptest::sample::select("abz09 ,:[]{}\"\\/'".chars().collect::<Vec<_>>()),
          1 => any::<char>(),
          1 => proptest::sample::select("\n\t\r\u{8}\u{c}\u{1}é漢😀".chars().collect::<Vec<_>>())
        ],
        0..6,
      ),
      proptest::collection::vec(any::<u8>(), 0..6),
    )
      .prop_map(|(c, e)| js_text(&c.into_iter().collect::<String>(), &e))
  };
  let number = (
    any::<bool>(),
    prop_oneof![2 => Just("0".to_string()), 5 => "[1-9][0-9]{0,8}"],
    prop_oneof![2 => Just(String::new()), 1 => "\\.[0-9]{1,5}"],
    prop_oneof![3 => Just(String::new()), 1 => "[eE][+-]?[0-9]{1,2}"],
  )
    .prop_map(|(n, i, f, e)| format!("{}{}{}{}", if n { "-" } else { "" }, i, f, e));
  let leaf = prop_oneof![
    Just(("null".to_string(), 1)),
    Just(("true".to_string(), 1)),
    Just(("false".to_string(), 1)),
    number.prop_map(|s| (s, 1)),
    string().prop_map(|s| (s, 1)),
  ];
  let v = leaf.prop_recursive(4, 20, 4, move |inner| {
    prop_oneof![
      (proptest::collection::vec((inner.clone(), ws(), ws()), 0..4), ws()).prop_map(|(v, w)| {
        let n = 1 + v.iter().map(|x| x.0 .1).sum::<usize>();
        let parts: Vec<String> = v.into_iter().map(|((t, _), a, b)| format!("{}{}{}", a, t, b)).collect();
        (format!("[{}{}]", w, parts.join(",")), n)
      }),
      (proptest::collection::vec((string(), inner, ws(), ws()), 0..4), ws()).prop_map(|(v, w)| {
        let n = 1 + v.iter().map(|x| x.1 .1).sum::<usize>();
        let parts: Vec<String> = v
          .into_iter()
          .map(|(k, (t, _), a, b)| format!("{}{}{}:{}{}", a, k, b, a, t))
          .collect();
        (format!("{{{}{}}}", parts.join(","), w), n)
      }),
    ]
  });
  (v, ws(), ws(), small_edits())
    .prop_map(|((t, nodes), a, b, es)| Json {
      text: edit(&format!("{}{}{}", a, t, b), &es),
      nodes,
    })
    .boxed()
}
/// A depth of nesting; mostly some hundred levels.
fn depth() -> BoxedStrategy<usize> {
  prop_oneof![
    2 => 5usize..70,
    3 => proptest::sample::select(vec![31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
    2 => 100usize..1100,
  ]
  .boxed()
}
/// A text in very many brackets.
/// Very many elements, members, characters, digits or blanks.
pub fn json_long() -> BoxedStrategy<Json> {
  let n = prop_oneof![
    4 => 20usize..300,
    2 => proptest::sample::select(vec![127usize, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]),
    1 => 1000usize..4100,
  ];
  (proptest::collection::vec(json_case(), 1..4), n, 0u8..6, small_edits())
    .prop_map(|(js, n, how, es)| {
      let part = |i: usize| js[i % js.len()].text.as_str();
      let text = match how {
        0 | 1 => format!("[{}]", (0..n).map(part).collect::<Vec<_>>().join(",")),
        2 => format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, part(i))).collect::<Vec<_>>().join(" ,")),
        3 => format!("[\"{}\",{}]", "ab\\n\\u00e9 é".chars().cycle().take(n / 13 * 13).collect::<String>(), part(0)),
        4 => format!("[0.{}, {}]", "1234567890".chars().cycle().take(n % 300 + 1).collect::<String>(), part(0)),
        _ => format!("{}[{}]{}", " \n".repeat(n), part(0), "\t\r".repeat(n)),
      };
      Json { text: edit(&text, &es), nodes: n }
    })
    .boxed()
}
pub fn json_deep() -> BoxedStrategy<Json> {
  (json_case(), depth(), proptest::collection::vec(0u8..10, 1..6), small_edits())
    .prop_map(|(j, n, kinds, es)| {
      let mut pre = String::new();
      let mut post = vec![];
      for i in 0..n {
        let (a, b) = match kinds[i % kinds.len()] {
          0..=3 => ("[", "]"),
          4..=6 => ("{\"k\":", "}"),
          7 => ("[1, ", " ]"),
          8 => ("[", ",null]"),
          _ => ("{\"a\" : [],\n\"b\":", ",\"c\":0}"),
        };
        pre.push_str(a);
        post.push(b);
      }
      post.reverse();
      Json { text: edit(&format!("{}{}{}", pre, j.text, post.concat()), &es), nodes: n }
    })
    .boxed()
}
pub fn nest_deep() -> BoxedStrategy<Nest> {
  (nest_case(), depth(), any::<u8>(), small_edits())
    .prop_map(|(mut c, n, mask, es)| {
      let round = |i: usize| mask >> (i % 8) & 1 == 1;
      let pre: String = (0..n).map(|i| if round(i) { "(" } else { "[" }).collect();
      let post: String = (0..n).rev().map(|i| if round(i) { ")" } else { "]" }).collect();
      c.text = edit(&format!("{}{}{}", pre, c.text, post), &es);
      c
    })
    .boxed()
}
pub fn calc_deep() -> BoxedStrategy<Calc> {
  (calc_case(), depth(), proptest::collection::vec((0u8..8, 0u16..1000, proptest::sample::select("+-*/^".chars().collect::<Vec<_>>())), 1..6))
    .prop_map(|(mut c, n, steps)| {
      for i in 0..n {
        let (how, k, o) = steps[i % steps.len()];
        let (t, k) = (Box::new(c.tree), Box::new(X::N(k)));
        c.tree = match how {
          0 => X::Neg(t),
          1..=3 => X::Bin(o, t, k),
          _ => X::Bin(o, k, t),
        };
      }
      c
    })
    .boxed()
}
fn same(j: &J, s: &serde_json::Value) -> bool {
  use serde_json::Value as S;
  match (j, s) {
    (J::Null, S::Null) => true,
    (J::Bool(a), S::Bool(b)) => a == b,
    (J::Num(a), S::Number(b)) => {
      let b = b.as_f64().unwrap();
      a == &b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
    }
    (J::Str(a), S::String(b)) => a == b,
    (J::Arr(a), S::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
    (J::Obj(a), S::Object(b)) => {
      let last: std::collections::BTreeMap<&String, &J> = a.iter().map(|(k, v)| (k, v)).collect();
      last.len() == b.len() && last.iter().all(|(k, v)| b.get(*k).map_or(false, |w| same(v, w)))
    }
    _ => false,
  }
}
fn json_check<I: Unit>(c: &Json, input: &[I]) -> CheckResult {
  let mut reference = serde_json::Deserializer::from_str(&c.text);
  reference.disable_recursion_limit();
  let want = serde_json::Value::deserialize(&mut reference).and_then(|v| reference.end().map(|_| v));
  if let Err(e) = &want {
    if e.to_string().contains("out of range") || e.to_string().contains("recursion") {
      return Ok(Obs::discard("beyond serde_json"));
    }
  }
  let got = json_p::<I>().parse(input).success();
  match (&got, &want) {
    (Some(j), Ok(s)) if same(j, s) => {}
    (None, Err(_)) => {}
    _ => return Err(format!("JSON text {:?}: parsed {:?}, serde_json {:?}", c.text, got, want)),
  }
  Ok(
    Obs::new(c.nodes > 1)
      .label_if(want.is_ok(), "valid")
      .label_if(want.is_err(), "invalid"),
  )
}
pub fn json_run(input: &[char]) {
  json_p::<char>().parse(input);
}
pub fn json_char(c: &Json) -> CheckResult {
  json_check::<char>(c, &c.text.chars().collect::<Vec<_>>())
}
pub fn json_byte(c: &Json) -> CheckResult {
  json_check::<u8>(c, c.text.as_bytes())
}

// --------------------------------------------------------------------------------------------- arithmetic
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum X {
  N(u16),
  Neg(Box<X>),
  Bin(char, Box<X>, Box<X>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Calc {
  pub tree: X,
  pub gaps: Vec<u8>,
}
const M: i64 = 1_000_003;
fn pw(a: i64, b: i64) -> i64 {
  // any non-associative function does; it must not overflow
  (a * 31 + b * b % M * 7 + 1).rem_euclid(M)
}
fn op(o: char, a: i64, b: i64) -> i64 {
  match o {
    '+' => (a + b).rem_euclid(M),
    '-' => (a - b).rem_euclid(M),
    '*' => (a * b).rem_euclid(M),
    '/' => (a * 2 - b * 3).rem_euclid(M),
    _ => pw(a, b),
  }
}
fn eval(x: &X) -> i64 {
  match x {
    X::N(n) => *n as i64,
    X::Neg(a) => (-eval(a)).rem_euclid(M),
    X::Bin(o, a, b) => op(*o, eval(a), eval(b)),
  }
}
fn level(x: &X) -> u8 {
  match x {
    X::Bin('+' | '-', ..) => 0,
    X::Bin('*' | '/', ..) => 1,
    X::Bin(..) => 2,
    X::Neg(_) => 3,
    X::N(_) => 4,
  }
}
fn show(x: &X, min: u8, out: &mut Vec<String>) {
  let l = level(x);
  if l < min {
    out.push("(".into());
    show(x, 0, out);
    out.push(")".into());
    return;
  }
  match x {
    X::N(n) => out.push(n.to_string()),
    X::Neg(a) => {
      out.push("~".into());
      show(a, 3, out)
    }
    X::Bin(o, a, b) => {
      let right = l == 2;
      show(a, if right { l + 1 } else { l }, out);
      out.push(o.to_string());
      show(b, if right { l } else { l + 1 }, out);
    }
  }
}
type Bin = fn(i64, i64) -> i64;
fn c_op<'a>(a: char, f: Bin) -> G<'a, char, char> {
  let _ = f;
  lexeme(elm(a))
}
fn c_expr<'a>() -> G<'a, char, i64> {
  let o = |a: char, b: char| {
    (c_op(a, |x, _| x) | c_op(b, |x, _| x)).map(move |c| move |x: i64, y: i64| op(c, x, y))
  };
  let num = lexeme(elm_digit_ref().of_many1().collect().map(|s: &[char]| s.iter().collect::<String>().parse::<i64>().unwrap()));
  let atom = || num.clone() | surround(lexeme(elm('(')), lazy(c_expr), lexeme(elm(')')));
  fn unary<'a>(atom: G<'a, char, i64>) -> G<'a, char, i64> {
    let neg = lexeme(elm('~')).of_many0() + atom;
    neg.map(|(s, v)| if s.len() % 2 == 1 { (-v).rem_euclid(M) } else { v })
  }
  let power = unary(atom()).chain_right1(lexeme(elm('^')).map(|_| pw as fn(i64, i64) -> i64));
  let term = power.chain_left1(o('*', '/'));
  term.chain_left1(o('+', '-'))
}
pub fn calc_case() -> BoxedStrategy<Calc> {
  let t = (0u16..1000).prop_map(X::N).prop_recursive(6, 40, 2, |inner| {
    let b = inner.prop_map(Box::new);
    prop_oneof![
      1 => b.clone().prop_map(X::Neg),
      6 => (proptest::sample::select("+-*/^".chars().collect::<Vec<_>>()), b.clone(), b).prop_map(|(o, x, y)| X::Bin(o, x, y)),
    ]
  });
  (t, proptest::collection::vec(0u8..4, 0..20))
    .prop_map(|(tree, gaps)| Calc { tree, gaps })
    .boxed()
}
pub fn calc_check(c: &Calc) -> CheckResult {
  let mut toks = vec![];
  show(&c.tree, 0, &mut toks);
  let mut text = String::new();
  for (i, t) in toks.iter().enumerate() {
    if !c.gaps.is_empty() && c.gaps[i % c.gaps.len()] == 3 {
      text.push(' ');
    }
    text.push_str(t);
  }
  let input: Vec<char> = text.chars().collect();
  let want = eval(&c.tree);
  let p = blank() * c_expr() - end();
  match p.parse(&input) {
    ParseResult::Success { value, length } => {
      ensure!(value == want, "{} evaluates to {}, the tree it shows to {}", text, value, want);
      ensure!(length == input.len(), "{}: consumed {} of {}", text, length, input.len());
    }
    ParseResult::Failure { error, .. } => return Err(format!("{} is rejected: {}", text, error)),
  }
  Ok(
    Obs::new(toks.len() > 3)
      .label_if(text.contains('('), "parenthesised")
      .label_if(toks.iter().filter(|t| *t == "^").count() > 1, "several-right-assoc"),
  )
}

// -------------------------------------------------------------------------------------------- separated
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Csv {
  pub rows: Vec<Vec<String>>,
  pub edits: Vec<(u8, usize, char)>,
  pub last_newline: bool,
}
pub fn csv_case() -> BoxedStrategy<Csv> {
  let cell = proptest::collection::vec(proptest::sample::select("ab1 ,\"\n;é".chars().collect::<Vec<_>>()), 0..5)
    .prop_map(|v| v.into_iter().collect::<String>());
  (
    proptest::collection::vec(proptest::collection::vec(cell, 1..4), 1..4),
    small_edits(),
    any::<bool>(),
  )
    .prop_map(|(rows, edits, last_newline)| Csv { rows, edits, last_newline })
    .boxed()
}
fn csv_p<'a>() -> G<'a, char, Vec<Vec<String>>> {
  let st = |v: Vec<char>| v.into_iter().collect::<String>();
  let quoted = surround(
    elm('"'),
    (none_of("\"") | (elm('"') * elm('"')).attempt()).of_many0(),
    elm('"'),
  )
  .map(st);
  let bare = none_of(",\"\n").of_many0().map(st);
  let cell = quoted | bare;
  let row = cell.of_many1_sep(elm(','));
  row.of_many1_sep(elm('\n')) - elm('\n').opt() - end()
}
fn csv_oracle(t: &[char]) -> Option<Vec<Vec<String>>> {
  let mut rows = vec![];
  let mut i = 0;
  loop {
    let mut row = vec![];
    loop {
      let mut cell = String::new();
      if t.get(i) == Some(&'"') {
        i += 1;
        loop {
          match t.get(i) {
            None => return None,
            Some('"') if t.get(i + 1) == Some(&'"') => {
              cell.push('"');
              i += 2
            }
            Some('"') => {
              i += 1;
              break;
            }
            Some(c) => {
              cell.push(*c);
              i += 1
            }
          }
        }
      } else {
        while let Some(c) = t.get(i).filter(|c| !",\"\n".contains(**c)) {
          cell.push(*c);
          i += 1;
        }
      }
      row.push(cell);
      if t.get(i) == Some(&',') {
        i += 1;
      } else {
        break;
      }
    }
    rows.push(row);
    if t.get(i) == Some(&'\n') {
      i += 1;
    } else {
      break;
    }
  }
  if i == t.len() {
    Some(rows)
  } else {
    None
  }
}
pub fn csv_check(c: &Csv) -> CheckResult {
  let lines: Vec<String> = c
    .rows
    .iter()
    .map(|r| {
      r.iter()
        .map(|s| {
          if s.chars().any(|c| ",\"\n".contains(c)) {
            format!("\"{}\"", s.replace('"', "\"\""))
          } else {
            s.clone()
          }
        })
        .collect::<Vec<_>>()
        .join(",")
    })
    .collect();
  let mut text = lines.join("\n");
  if c.last_newline {
    text.push('\n');
  }
  let text = edit(&text, &c.edits);
  let input: Vec<char> = text.chars().collect();
  let want = csv_oracle(&input);
  let got = csv_p().parse(&input).success();
  ensure!(got == want, "{:?}: parsed {:?}, reference {:?}", text, got, want);
  Ok(
    Obs::new(input.len() > 3)
      .label_if(want.is_some(), "valid")
      .label_if(want.is_none(), "invalid"),
  )
}
