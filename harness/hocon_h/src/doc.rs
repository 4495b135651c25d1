//! Documents: what is written, how it is laid out, and what it means.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------ what is written
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Num {
  pub neg: bool,
  pub int: u64,
  pub frac: String,
  pub exp: Option<(u8, i8)>,
}
impl Num {
  pub fn text(&self) -> String {
    let mut s = format!("{}{}", if self.neg { "-" } else { "" }, self.int);
    if !self.frac.is_empty() {
      s += &format!(".{}", self.frac);
    }
    if let Some((form, e)) = self.exp {
      s.push(if form & 1 == 1 { 'e' } else { 'E' });
      if e < 0 {
        s += &format!("{}", e)
      } else {
        s += &format!("{}{}", if form & 2 == 2 { "+" } else { "" }, e)
      }
    }
    s
  }
  /// Value as mantissa and power of ten, without trailing zeros.
  pub fn value(&self) -> (i128, i32) {
    let digits: i128 = format!("{}{}", self.int, self.frac).parse().unwrap();
    norm(if self.neg { -digits } else { digits }, self.exp.map_or(0, |e| e.1 as i32) - self.frac.len() as i32)
  }
}
pub fn norm(mut m: i128, mut e: i32) -> (i128, i32) {
  if m == 0 {
    return (0, 0);
  }
  while m % 10 == 0 {
    m /= 10;
    e += 1;
  }
  (m, e)
}
pub const UNITS: [(&[&str], i128); 7] = [
  (&["ns", "nano", "nanos", "nanosecond", "nanoseconds"], 1),
  (&["us", "micro", "micros", "microsecond", "microseconds"], 1_000),
  (&["ms", "milli", "millis", "millisecond", "milliseconds"], 1_000_000),
  (&["s", "second", "seconds"], 1_000_000_000),
  (&["m", "minute", "minutes"], 60_000_000_000),
  (&["h", "hour", "hours"], 3_600_000_000_000),
  (&["d", "day", "days"], 86_400_000_000_000),
];
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Quote {
  Bare,
  Double,
  Single,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Val {
  Null,
  Bool(bool),
  Num(Num),
  Dur(Num, u8, u8, String),
  Str(String, Quote, u8),
  Arr(Vec<Val>),
  Obj(Vec<Entry>),
  Ref(Vec<String>, bool),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Entry {
  pub path: Vec<String>,
  pub val: Val,
}
/// Quoted when it is not a bare path element.
pub fn bare(k: &str) -> bool {
  !k.is_empty() && k.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_')
}

// ------------------------------------------------------------------------------------------------ layout
pub struct Layout<'a> {
  choices: &'a [u8],
  at: usize,
  comments: bool,
  pub out: String,
  /// Byte positions of the brackets, braces and quotes of the structure.
  pub marks: Vec<usize>,
  /// Byte positions of the separators: commas, and `=` or `:`.
  pub seps: Vec<usize>,
}
impl<'a> Layout<'a> {
  pub fn new(choices: &'a [u8], comments: bool) -> Self {
    Layout {
      choices,
      at: 0,
      comments,
      out: String::new(),
      marks: vec![],
      seps: vec![],
    }
  }
  fn pick(&mut self, n: u8) -> u8 {
    if self.choices.is_empty() {
      return 0;
    }
    let c = self.choices[self.at % self.choices.len()];
    self.at += 1;
    c % n
  }
  fn sep(&mut self, c: char) {
    self.seps.push(self.out.len());
    self.out.push(c);
  }
  fn mark(&mut self, s: &str) {
    self.marks.push(self.out.len());
    self.out.push_str(s);
  }
  fn blank(&mut self) {
    let s = ["", " ", "", " ", "\t", "   "][self.pick(6) as usize];
    self.out.push_str(s);
  }
  /// White space that may hold line ends and comments.
  fn space(&mut self) {
    for _ in 0..[0, 1, 0, 1, 2, 5][self.pick(6) as usize] {
      let k = self.pick(if self.comments { 11 } else { 6 }) as usize;
      let s = [" ", "\n", "  ", "\t", "\r\n", "\r", "# c\n", " // x = [1, {\"\n", "#\n", "# c\r", "//\t# \r\n"][k];
      self.out.push_str(s);
    }
  }
  fn line_end(&mut self) {
    let k = self.pick(if self.comments { 9 } else { 4 }) as usize;
    let s = ["\n", "\n", "\r\n", "\r", " # a } \"b\n", "//\n", " // \n", " # a\r", "#\r\n"][k];
    // A comment right after a bare word needs a space before "//".
    if s == "//\n" && !self.out.ends_with(|c: char| " \n]}\"'".contains(c)) {
      self.out.push(' ');
    }
    self.out.push_str(s);
  }
  fn key(&mut self, k: &str) {
    if bare(k) && self.pick(6) != 5 {
      self.out.push_str(k);
    } else {
      self.quoted(k, '"', 0);
    }
  }
  fn quoted(&mut self, s: &str, q: char, form: u8) {
    self.mark(&q.to_string());
    for c in s.chars() {
      match c {
        '\\' => self.out.push_str("\\\\"),
        '"' if q == '"' || form & 1 == 1 => self.out.push_str("\\\""),
        '\n' => self.out.push_str("\\n"),
        '\r' => self.out.push_str("\\r"),
        '\t' if form & 1 == 1 => self.out.push_str("\\t"),
        '\u{8}' => self.out.push_str("\\b"),
        '\u{c}' => self.out.push_str("\\f"),
        '/' if form & 2 == 2 => self.out.push_str("\\/"),
        c if form & 4 == 4 && !c.is_ascii_alphanumeric() || c == q => {
          let mut b = [0u16; 2];
          for u in c.encode_utf16(&mut b) {
            let h = if form & 8 == 8 { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) };
            self.out.push_str(&h);
          }
        }
        c => self.out.push(c),
      }
    }
    self.mark(&q.to_string());
  }
  pub fn val(&mut self, v: &Val) {
    match v {
      Val::Null => self.out.push_str("null"),
      Val::Bool(b) => self.out.push_str(&b.to_string()),
      Val::Num(n) => self.out.push_str(&n.text()),
      Val::Dur(n, u, name, gap) => {
        let names = UNITS[*u as usize % 7].0;
        self.out.push_str(&n.text());
        self.out.push_str(gap);
        self.out.push_str(names[*name as usize % names.len()]);
      }
      Val::Str(s, Quote::Bare, _) => self.out.push_str(s),
      Val::Str(s, Quote::Double, f) => self.quoted(s, '"', *f),
      Val::Str(s, Quote::Single, f) => self.quoted(s, '\'', *f),
      Val::Arr(a) => {
        self.mark("[");
        self.space();
        for (i, x) in a.iter().enumerate() {
          if i > 0 {
            self.space();
            self.sep(',');
            self.space();
          }
          self.val(x);
          self.sep_bare(x);
        }
        if !a.is_empty() && self.pick(4) == 3 {
          self.sep(',');
        }
        self.space();
        self.mark("]");
      }
      Val::Obj(es) => {
        self.mark("{");
        self.space();
        self.entries(es);
        self.space();
        self.mark("}");
      }
      Val::Ref(p, opt) => {
        self.mark("${");
        if *opt {
          self.out.push('?');
        }
        self.out.push_str(&p.join("."));
        self.mark("}");
      }
    }
  }
  /// Nothing that could be read as part of a bare word follows it directly.
  fn sep_bare(&mut self, v: &Val) {
    if let Val::Str(_, Quote::Bare, _) = v {
      self.out.push(' ');
    }
  }
  pub fn entries(&mut self, es: &[Entry]) {
    for (i, e) in es.iter().enumerate() {
      if i > 0 {
        match self.pick(4) {
          0 | 1 => self.line_end(),
          2 => {
            self.blank();
            self.sep(',');
          }
          _ => {
            self.blank();
            self.sep(',');
            self.line_end();
          }
        }
        self.space();
      }
      if e.path.len() == 1 {
        self.key(&e.path[0]);
      } else {
        self.out.push_str(&e.path.join("."));
      }
      self.blank();
      let braces = matches!(e.val, Val::Obj(_) | Val::Arr(_));
      match self.pick(if braces { 6 } else { 4 }) {
        0..=2 => self.sep('='),
        3 => self.sep(':'),
        _ => (),
      }
      self.blank();
      self.val(&e.val);
      self.sep_bare(&e.val);
    }
    if !es.is_empty() && self.pick(5) == 4 {
      self.sep(',');
    }
  }
  pub fn document(&mut self, es: &[Entry]) {
    self.space();
    if self.pick(3) == 2 {
      self.val(&Val::Obj(es.to_vec()));
    } else {
      self.entries(es);
    }
    self.space();
  }
}
pub fn text(es: &[Entry], choices: &[u8], comments: bool) -> String {
  let mut l = Layout::new(choices, comments);
  l.document(es);
  l.out
}

// ------------------------------------------------------------------------------------------------ what it means
#[derive(Debug, Clone, PartialEq)]
pub enum R {
  Null,
  Bool(bool),
  Num(i128, i32),
  /// Number, unit.
  Dur((i128, i32), u8),
  Str(String),
  Arr(Vec<R>),
  Obj(BTreeMap<String, R>),
}
/// Everything assigned to a place, in order.
#[derive(Debug, Clone)]
enum Raw {
  Leaf(R),
  Arr(Vec<Raw>),
  Obj(BTreeMap<String, Vec<Raw>>),
  Ref(Vec<String>, bool),
}
fn raw_obj(es: &[Entry]) -> BTreeMap<String, Vec<Raw>> {
  let mut m: BTreeMap<String, Vec<Raw>> = BTreeMap::new();
  for e in es {
    let mut v = raw(&e.val);
    for k in e.path[1..].iter().rev() {
      v = Raw::Obj(BTreeMap::from([(k.clone(), vec![v])]));
    }
    m.entry(e.path[0].clone()).or_default().push(v);
  }
  m
}
fn raw(v: &Val) -> Raw {
  Raw::Leaf(match v {
    Val::Null => R::Null,
    Val::Bool(b) => R::Bool(*b),
    Val::Num(n) => R::Num(n.value().0, n.value().1),
    Val::Dur(n, u, _, _) => R::Dur(n.value(), *u % 7),
    Val::Str(s, _, _) => R::Str(s.clone()),
    Val::Arr(a) => return Raw::Arr(a.iter().map(raw).collect()),
    Val::Obj(es) => return Raw::Obj(raw_obj(es)),
    Val::Ref(p, o) => return Raw::Ref(p.clone(), *o),
  })
}
fn raw_merge(a: &mut BTreeMap<String, Vec<Raw>>, b: &BTreeMap<String, Vec<Raw>>) {
  for (k, l) in b {
    a.entry(k.clone()).or_default().extend(l.iter().cloned());
  }
}
fn merge(a: Option<R>, b: R) -> R {
  match (a, b) {
    (Some(R::Obj(mut x)), R::Obj(y)) => {
      for (k, v) in y {
        let old = x.remove(&k);
        x.insert(k, merge(old, v));
      }
      R::Obj(x)
    }
    (_, b) => b,
  }
}
pub struct Meaning<'a> {
  root: BTreeMap<String, Vec<Raw>>,
  env: &'a dyn Fn(&str) -> Option<String>,
}
/// A required reference leads to nothing.
#[derive(Debug, Clone, PartialEq)]
pub struct Unresolved(pub String);
impl<'a> Meaning<'a> {
  pub fn of(es: &[Entry], env: &'a dyn Fn(&str) -> Option<String>) -> Result<R, Unresolved> {
    let m = Meaning { root: raw_obj(es), env };
    m.object(&m.root, &[]).map(R::Obj)
  }
  fn object(&self, o: &BTreeMap<String, Vec<Raw>>, at: &[String]) -> Result<BTreeMap<String, R>, Unresolved> {
    let mut out = BTreeMap::new();
    for (k, list) in o {
      let mut at = at.to_vec();
      at.push(k.clone());
      if let Some(v) = self.list(list, &at)? {
        out.insert(k.clone(), v);
      }
    }
    Ok(out)
  }
  fn list(&self, l: &[Raw], at: &[String]) -> Result<Option<R>, Unresolved> {
    let from = l.iter().rposition(|r| !matches!(r, Raw::Obj(_) | Raw::Ref(..))).unwrap_or(0);
    // Objects in a row are one object: what is between the values of a key counts for all of them.
    let mut rows: Vec<Raw> = vec![];
    for r in &l[from..] {
      match (rows.last_mut(), r) {
        (Some(Raw::Obj(o)), Raw::Obj(p)) => raw_merge(o, p),
        (_, r) => rows.push(r.clone()),
      }
    }
    let mut acc = None;
    for r in &rows {
      acc = match self.one(r, at, &acc)? {
        None => acc,
        Some(v) => Some(merge(acc, v)),
      }
    }
    Ok(acc)
  }
  fn one(&self, r: &Raw, at: &[String], before: &Option<R>) -> Result<Option<R>, Unresolved> {
    Ok(Some(match r {
      Raw::Leaf(r) => r.clone(),
      Raw::Arr(a) => {
        let mut v = vec![];
        for x in a {
          v.extend(self.one(x, &["[]".to_string()], &None)?);
        }
        R::Arr(v)
      }
      Raw::Obj(o) => R::Obj(self.object(o, at)?),
      Raw::Ref(p, opt) => {
        // A reference to its own place is the value so far.
        let found = if p == at { before.clone() } else { self.lookup(p)? };
        match found.or_else(|| (self.env)(&p.join(".")).map(R::Str)) {
          Some(v) => v,
          None if *opt => return Ok(None),
          None => return Err(Unresolved(p.join("."))),
        }
      }
    }))
  }
  fn lookup(&self, p: &[String]) -> Result<Option<R>, Unresolved> {
    let list = match self.root.get(&p[0]) {
      None => return Ok(None),
      Some(l) => l,
    };
    let mut cur = self.list(list, &p[..1])?;
    for k in &p[1..] {
      cur = match cur {
        Some(R::Obj(mut m)) => m.remove(k),
        _ => None,
      }
    }
    Ok(cur)
  }
}
pub fn get<'a>(r: &'a R, p: &[String]) -> Option<&'a R> {
  let mut cur = r;
  for k in p {
    match cur {
      R::Obj(m) => cur = m.get(k)?,
      _ => return None,
    }
  }
  Some(cur)
}
/// Every path of the value, the value itself excluded.
pub fn paths(r: &R) -> Vec<Vec<String>> {
  let mut out = vec![];
  if let R::Obj(m) = r {
    for (k, v) in m {
      out.push(vec![k.clone()]);
      for mut p in paths(v) {
        p.insert(0, k.clone());
        out.push(p);
      }
    }
  }
  out
}

// ------------------------------------------------------------------------------------------------ generators
pub fn num() -> BoxedStrategy<Num> {
  let plain = (
    any::<bool>(),
    prop_oneof![3 => 0u64..20, 2 => 0u64..1_000_000_000, 1 => Just(0u64)],
    prop_oneof![3 => Just(String::new()), 2 => "[0-9]{1,6}"],
    proptest::option::weighted(0.3, (0u8..4, -9i8..=9)),
  )
    .prop_map(|(neg, int, frac, exp)| Num { neg, int, frac, exp });
  // Close to all the digits a Decimal holds.
  let long = prop_oneof![2 => (any::<bool>(), 0u64..1000, "[0-9]{7,25}"), 1 => (any::<bool>(), Just(0), "[0-9]{20,28}")].prop_map(|(neg, int, frac)| Num { neg, int, frac, exp: None });
  let big = (any::<bool>(), any::<u64>(), "[0-9]{0,4}").prop_map(|(neg, int, frac)| Num { neg, int, frac, exp: None });
  let mined = (any::<bool>(), vcommon::mined_int(u64::MAX), "[0-9]{0,2}").prop_map(|(neg, int, frac)| Num { neg, int, frac, exp: None });
  prop_oneof![20 => plain, 2 => long, 1 => big, 1 => mined].boxed()
}
pub fn string() -> BoxedStrategy<(String, Quote, u8)> {
  let c = prop_oneof![
    8 => proptest::char::range('a', 'z'),
    4 => proptest::sample::select("[]{}()'\"\\/#,=:;$%&!?@^`~|<> .-_+*0129".chars().collect::<Vec<_>>()),
    1 => proptest::sample::select("\n\r\t\u{8}\u{c}\u{1}\u{7f}é漢😀\u{ffff}\u{10ffff}".chars().collect::<Vec<_>>()),
  ];
  let q = vec(c, 0..10).prop_map(|v| v.into_iter().collect::<String>());
  let bare = "[a-zA-Z][a-zA-Z0-9_-]{0,6}(([ ./]| /)[a-z0-9_-]{1,4}){0,2}".prop_filter("keyword", |s| {
    let first: String = s.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').collect();
    !["null", "true", "false"].contains(&first.as_str())
  });
  prop_oneof![
    4 => (q.clone(), Just(Quote::Double), 0u8..16),
    1 => proptest::sample::select(vec!["", " ", "# x", "// y", "null", "true", "12", "1 s", "${a}", "a\tb", "[x]", "it's"])
      .prop_flat_map(|s| (Just(s.to_string()), Just(Quote::Double), 0u8..16)),
    1 => (vcommon::mined_word(|w| !w.contains("${"), "w"), Just(Quote::Double), 0u8..16),
    1 => (q, Just(Quote::Single), 0u8..16),
    2 => bare.prop_map(|s| (s, Quote::Bare, 0)),
    1 => proptest::sample::select(vec!["nullx", "truely", "false-ish", "s", "d1"]).prop_map(|s| (s.to_string(), Quote::Bare, 0)),
  ]
  .boxed()
}
pub fn scalar() -> BoxedStrategy<Val> {
  prop_oneof![
    1 => Just(Val::Null),
    1 => any::<bool>().prop_map(Val::Bool),
    3 => num().prop_map(Val::Num),
    2 => (num(), 0u8..7, 0u8..15, proptest::sample::select(vec!["", " ", "  ", "\t"])).prop_map(|(n, u, k, g)| Val::Dur(n, u, k, g.to_string())),
    4 => string().prop_map(|(s, q, f)| Val::Str(s, q, f)),
  ]
  .boxed()
}
pub fn key(few: bool) -> BoxedStrategy<String> {
  if few {
    proptest::sample::select(vec!["a", "b", "c"]).prop_map(String::from).boxed()
  } else {
    prop_oneof![
      5 => proptest::sample::select(vec!["a", "b", "c", "d", "h", "s", "m", "ns", "x-y", "_z", "k1", "2k", "7", "null", "true", "include", "E5"]).prop_map(String::from),
      2 => "[a-zA-Z_-][a-zA-Z0-9_-]{0,4}",
      1 => vcommon::mined_word(|w| w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'), "w"),
    ]
    .boxed()
  }
}
pub fn entries(few: bool, quoted: bool, depth: u32, max: usize, leaf: BoxedStrategy<Val>) -> BoxedStrategy<Vec<Entry>> {
  let path = prop_oneof![
    6 => vec(key(few), 1..=1),
    3 => vec(key(few), 2..=3),
  ];
  let path = if quoted {
    prop_oneof![9 => path, 1 => "[a-c .=:,#{}$é\\\\\n\t\"'/]{0,4}".prop_map(|k| vec![k])].boxed()
  } else {
    path.boxed()
  };
  let val = if depth == 0 {
    leaf.clone()
  } else {
    prop_oneof![
      4 => leaf.clone(),
      2 => entries(few, quoted, depth - 1, max, leaf.clone()).prop_map(Val::Obj),
      1 => vec(
        prop_oneof![3 => leaf.clone(), 1 => entries(few, quoted, depth - 1, 2, leaf.clone()).prop_map(Val::Obj), 1 => vec(leaf, 0..3).prop_map(Val::Arr)],
        0..4
      )
      .prop_map(Val::Arr),
    ]
    .boxed()
  };
  vec((path, val).prop_map(|(path, val)| Entry { path, val }), 0..=max).boxed()
}
pub fn layout() -> BoxedStrategy<Vec<u8>> {
  prop_oneof![1 => Just(vec![]), 5 => vec(any::<u8>(), 1..40)].boxed()
}
/// Drops entries so that no place is written twice.
pub fn without_duplicates(es: &mut Vec<Entry>) {
  fn put(seen: &mut Vec<Vec<String>>, p: Vec<String>) -> bool {
    if seen.iter().any(|q| q.starts_with(&p) || p.starts_with(q)) {
      return false;
    }
    seen.push(p);
    true
  }
  fn go(es: &mut Vec<Entry>) {
    let mut seen = vec![];
    es.retain(|e| put(&mut seen, e.path.clone()));
    for e in es {
      clean(&mut e.val);
    }
  }
  fn clean(v: &mut Val) {
    match v {
      Val::Obj(es) => go(es),
      Val::Arr(a) => a.iter_mut().for_each(clean),
      _ => (),
    }
  }
  go(es)
}

// ------------------------------------------------------------------------------------------------ other names
/// What may be part of a key.
fn part() -> BoxedStrategy<String> {
  let words = || proptest::sample::select(vec![
    "include", "file", "url", "null", "true", "false", "e5", "1e5", "s", "ms", "seconds", "d", "days", "10", "0", "00", "-", "_", "--", "-1", "PATH", "A",
  ]);
  prop_oneof![
    2 => "[a-zA-Z0-9_-]{1,3}",
    2 => "[a-zA-Z0-9_-]{2,12}",
    1 => "[a-zA-Z0-9_-]{12,90}",
    4 => words().prop_map(String::from),
    2 => vcommon::mined_word(bare, "w"),
  ]
  .boxed()
}
pub fn names() -> BoxedStrategy<Vec<(String, String, u8)>> {
  vec((part(), part(), any::<u8>()), 4..12).boxed()
}
/// Gives every key another name, a different one for each; now and then one that another begins with, or the same in
/// other letters.
pub fn rename(es: &mut [Entry], from: &[(String, String, u8)]) {
  fn name(n: &str, from: &[(String, String, u8)], map: &mut BTreeMap<String, String>) -> String {
    // Names that the environment has, or that nothing has.
    if n == "none" || n.starts_with("VP_") {
      return n.to_string();
    }
    if let Some(n) = map.get(n) {
      return n.clone();
    }
    let (a, b, how) = &from[map.len() % from.len()];
    let earlier = map.values().nth(*how as usize / 8 % map.len().max(1)).cloned();
    let mut new = match (how % 8, earlier) {
      (0..=2, _) | (4..=7, None) => a.clone(),
      (3, _) => format!("{}{}", a, b),
      (4, _) => format!("{}{}", a, how),
      (5, Some(e)) => e + b,
      (6, Some(mut e)) => {
        e.pop();
        e
      }
      (_, Some(e)) => e.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
      _ => b.clone(),
    };
    while new.is_empty() || map.values().any(|v| *v == new) || new == "none" || std::env::var_os(&new).is_some() {
      new.push(char::from(b"_x1-Z"[new.len() % 5]));
    }
    map.insert(n.to_string(), new.clone());
    new
  }
  fn val(v: &mut Val, from: &[(String, String, u8)], map: &mut BTreeMap<String, String>) {
    match v {
      Val::Arr(a) => a.iter_mut().for_each(|v| val(v, from, map)),
      Val::Obj(es) => entries(es, from, map),
      Val::Ref(p, _) => p.iter_mut().for_each(|n| *n = name(n, from, map)),
      _ => (),
    }
  }
  fn entries(es: &mut [Entry], from: &[(String, String, u8)], map: &mut BTreeMap<String, String>) {
    for e in es {
      e.path.iter_mut().for_each(|n| *n = name(n, from, map));
      val(&mut e.val, from, map);
    }
  }
  entries(es, from, &mut BTreeMap::new())
}
