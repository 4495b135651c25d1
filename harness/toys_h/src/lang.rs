//! Programs: what they are, how they are written, what they do.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Ex {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<Ex>),
  Var(String),
  /// Index into OPS.
  Bin(u8, Box<Ex>, Box<Ex>),
  Call(String, Vec<Ex>),
  Labelled(String, Vec<(String, Ex)>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum St {
  Let(String, Ex),
  Print(Ex),
  If(Ex, Box<St>, Option<Box<St>>),
  While(Ex, Box<St>),
  For(String, Ex, Ex, Box<St>),
  Block(Vec<St>),
  Ex(Ex),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Top {
  Global(String, Ex),
  Fn(String, Vec<String>, Vec<St>),
}
/// Operator and how tightly it binds.
pub const OPS: [(&str, u8); 13] = [
  ("*", 4),
  ("/", 4),
  ("%", 3),
  ("+", 2),
  ("-", 2),
  ("<", 1),
  ("<=", 1),
  (">", 1),
  (">=", 1),
  ("==", 1),
  ("!=", 1),
  ("&&", 1),
  ("||", 1),
];

// ------------------------------------------------------------------------------------------------ writing
pub struct Writer<'a> {
  choices: &'a [u8],
  at: usize,
  pub out: String,
  /// Positions of brackets and quotes.
  pub marks: Vec<usize>,
}
impl<'a> Writer<'a> {
  pub fn new(choices: &'a [u8]) -> Self {
    Writer { choices, at: 0, out: String::new(), marks: vec![] }
  }
  fn pick(&mut self, n: u8) -> u8 {
    if self.choices.is_empty() {
      return 0;
    }
    let c = self.choices[self.at % self.choices.len()];
    self.at += 1;
    c % n
  }
  fn sp(&mut self) {
    let s = ["", " ", "", " ", "\n", "\t  \r\n"][self.pick(6) as usize];
    self.out.push_str(s);
  }
  fn gap(&mut self) {
    let s = [" ", "\n", "\t", " \r\n  "][self.pick(4) as usize];
    self.out.push_str(s);
  }
  fn mark(&mut self, s: &str) {
    self.marks.push(self.out.len());
    self.out.push_str(s);
  }
  fn tok(&mut self, s: &str) {
    self.sp();
    if "()[]{}".contains(s) {
      self.mark(s)
    } else {
      self.out.push_str(s);
    }
    self.sp();
  }
  fn str(&mut self, s: &str) {
    let form = self.pick(8);
    self.mark("\"");
    for c in s.chars() {
      match c {
        '\\' => self.out.push_str("\\\\"),
        '"' => self.out.push_str("\\\""),
        '\n' if form & 1 == 1 => self.out.push_str("\\n"),
        '\r' if form & 1 == 1 => self.out.push_str("\\r"),
        '\t' if form & 1 == 1 => self.out.push_str("\\t"),
        '\u{8}' => self.out.push_str("\\b"),
        '\u{c}' => self.out.push_str("\\f"),
        '/' if form & 2 == 2 => self.out.push_str("\\/"),
        c if form & 4 == 4 && !c.is_ascii_alphanumeric() => {
          let mut b = [0u16; 2];
          for u in c.encode_utf16(&mut b) {
            self.out.push_str(&if form & 1 == 1 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
          }
        }
        c => self.out.push(c),
      }
    }
    self.mark("\"");
  }
  /// In a place that takes operators binding at least this tightly.
  fn ex(&mut self, e: &Ex, min: u8) {
    let level = if let Ex::Bin(o, _, _) = e { OPS[*o as usize % 13].1 } else { 5 };
    let parens = level < min || self.pick(8) == 7;
    if parens {
      self.tok("(");
    }
    match e {
      Ex::Int(i) => self.out.push_str(&i.to_string()),
      Ex::Bool(b) => self.out.push_str(&b.to_string()),
      Ex::Str(s) => self.str(s),
      Ex::Var(v) => self.out.push_str(v),
      Ex::Arr(a) => {
        self.mark("[");
        self.list(a);
        self.mark("]");
      }
      Ex::Bin(o, l, r) => {
        let (op, level) = OPS[*o as usize % 13];
        self.ex(l, level);
        self.tok(op);
        self.ex(r, level + 1);
      }
      Ex::Call(f, a) => {
        self.out.push_str(f);
        self.tok("(");
        self.list(a);
        self.tok(")");
      }
      Ex::Labelled(f, a) => {
        self.out.push_str(f);
        self.tok("[");
        for (i, (n, e)) in a.iter().enumerate() {
          if i > 0 {
            self.tok(",");
          }
          self.out.push_str(n);
          self.sp();
          self.out.push('=');
          self.ex(e, 0);
        }
        self.tok("]");
      }
    }
    if parens {
      self.tok(")");
    }
  }
  fn list(&mut self, a: &[Ex]) {
    self.sp();
    for (i, e) in a.iter().enumerate() {
      if i > 0 {
        self.tok(",");
      }
      self.ex(e, 0);
    }
    self.sp();
  }
  fn cond(&mut self, c: &Ex) {
    self.tok("(");
    self.ex(c, 0);
    self.tok(")");
  }
  fn st(&mut self, s: &St) {
    match s {
      St::Let(v, e) => {
        self.out.push_str(v);
        self.tok("=");
        self.ex(e, 0);
        self.tok(";");
      }
      St::Print(e) => {
        self.out.push_str("println");
        self.cond(e);
        self.tok(";");
      }
      St::If(c, a, b) => {
        self.out.push_str("if");
        self.cond(c);
        self.st(a);
        if let Some(b) = b {
          self.sp();
          self.out.push_str("else");
          self.gap();
          self.st(b);
        }
      }
      St::While(c, b) => {
        self.out.push_str("while");
        self.cond(c);
        self.st(b);
      }
      St::For(v, a, b, s) => {
        self.out.push_str("for");
        self.tok("(");
        self.out.push_str(v);
        self.gap();
        self.out.push_str("in");
        self.gap();
        self.ex(a, 0);
        self.gap();
        self.out.push_str("to");
        self.gap();
        self.ex(b, 0);
        self.tok(")");
        self.st(s);
      }
      St::Block(b) => self.block(b),
      St::Ex(e) => {
        self.ex(e, 0);
        self.tok(";");
      }
    }
  }
  fn block(&mut self, b: &[St]) {
    self.tok("{");
    for s in b {
      self.st(s);
      self.sp();
    }
    self.tok("}");
  }
  pub fn program(&mut self, p: &[Top]) {
    self.sp();
    for t in p {
      match t {
        Top::Global(v, e) => {
          self.out.push_str("global");
          self.gap();
          self.out.push_str(v);
          self.tok("=");
          self.ex(e, 0);
          self.tok(";");
        }
        Top::Fn(n, ps, b) => {
          self.out.push_str("fn");
          self.gap();
          self.out.push_str(n);
          self.tok("(");
          for (i, p) in ps.iter().enumerate() {
            if i > 0 {
              self.tok(",");
            }
            self.out.push_str(p);
          }
          self.tok(")");
          self.block(b);
        }
      }
      self.sp();
    }
  }
}
pub fn text(p: &[Top], choices: &[u8]) -> String {
  let mut w = Writer::new(choices);
  w.program(p);
  w.out
}
/// An `else` belongs to the nearest `if`.
pub fn closed(s: St) -> St {
  fn open(s: &St) -> bool {
    match s {
      St::If(_, _, None) => true,
      St::If(_, _, Some(b)) => open(b),
      St::While(_, b) | St::For(_, _, _, b) => open(b),
      _ => false,
    }
  }
  if open(&s) {
    St::Block(vec![s])
  } else {
    s
  }
}

// ------------------------------------------------------------------------------------------------ running
#[derive(Debug, Clone, PartialEq)]
pub enum V {
  Int(i64),
  Bool(bool),
  Str(String),
  Arr(Vec<V>),
}
impl V {
  fn size(&self) -> u32 {
    match self {
      V::Arr(a) => a.iter().fold(1, |n, v| n.saturating_add(v.size())),
      _ => 1,
    }
  }
  pub fn show(&self) -> String {
    match self {
      V::Int(i) => i.to_string(),
      V::Bool(b) => b.to_string(),
      V::Str(s) => s.clone(),
      V::Arr(a) => format!("[{}]", a.iter().map(V::show).collect::<Vec<_>>().join(",")),
    }
  }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
  /// An error of the program.
  Error(&'static str),
  /// Not decided by the language, or too long.
  Unspecified(&'static str),
}
#[derive(Default)]
pub struct Run<'a> {
  fns: HashMap<String, (&'a [String], &'a [St])>,
  scopes: Vec<HashMap<String, V>>,
  pub out: String,
  /// Output of the statements that are complete.
  pub complete: usize,
  fuel: u32,
  /// Steps and calls in calls it may take; 3000 and 40 unless said otherwise.
  limits: Option<(u32, u32)>,
  calls: u32,
  pub max_calls: u32,
  pub outer_writes: u32,
  pub iterations: u32,
}
type Res = Result<V, Stop>;
impl<'a> Run<'a> {
  pub fn within(fuel: u32, calls: u32) -> Self {
    Run { limits: Some((fuel, calls)), ..Run::default() }
  }
  /// What a further program finds where this one ended.
  pub fn again(mut self) -> Self {
    self.scopes.truncate(1);
    Run { fns: self.fns, scopes: self.scopes, limits: self.limits, ..Run::default() }
  }
  pub fn program(&mut self, p: &'a [Top]) -> Res {
    if self.scopes.is_empty() {
      self.scopes = vec![HashMap::new()];
    }
    self.fuel = self.limits.map_or(3000, |l| l.0);
    for t in p {
      match t {
        Top::Global(n, e) => {
          let v = self.ex(e)?;
          self.scopes[0].insert(n.clone(), v);
        }
        Top::Fn(n, ps, b) => {
          self.fns.insert(n.clone(), (ps, b));
        }
      }
    }
    let (_, b) = *self.fns.get("main").ok_or(Stop::Error("no main"))?;
    self.block(b)
  }
  fn tick(&mut self) -> Result<(), Stop> {
    self.fuel = self.fuel.checked_sub(1).ok_or(Stop::Unspecified("too long"))?;
    Ok(())
  }
  fn int(&mut self, e: &'a Ex) -> Result<i64, Stop> {
    match self.ex(e)? {
      V::Int(i) => Ok(i),
      _ => Err(Stop::Error("no integer")),
    }
  }
  fn truth(&mut self, e: &'a Ex) -> Result<bool, Stop> {
    match self.ex(e)? {
      V::Bool(b) => Ok(b),
      _ => Err(Stop::Error("no boolean")),
    }
  }
  fn call(&mut self, f: &str, frame: impl FnOnce(&mut Self, &'a [String]) -> Result<HashMap<String, V>, Stop>) -> Res {
    let (ps, b) = *self.fns.get(f).ok_or(Stop::Error("no function"))?;
    let frame = frame(self, ps)?;
    if self.calls >= self.limits.map_or(40, |l| l.1) {
      return Err(Stop::Unspecified("too deep"));
    }
    self.calls += 1;
    self.max_calls = self.max_calls.max(self.calls);
    self.scopes.push(frame);
    let r = self.block(b);
    self.scopes.pop();
    self.calls -= 1;
    r
  }
  fn ex(&mut self, e: &'a Ex) -> Res {
    let v = self.eval(e)?;
    // Values cost their size.
    self.fuel = self.fuel.checked_sub(v.size()).ok_or(Stop::Unspecified("too long"))?;
    Ok(v)
  }
  fn eval(&mut self, e: &'a Ex) -> Res {
    Ok(match e {
      Ex::Int(i) => V::Int(*i),
      Ex::Bool(b) => V::Bool(*b),
      Ex::Str(s) => V::Str(s.clone()),
      Ex::Arr(a) => V::Arr(a.iter().map(|e| self.ex(e)).collect::<Result<_, _>>()?),
      Ex::Var(v) => self.scopes.iter().rev().find_map(|s| s.get(v)).cloned().ok_or(Stop::Error("no variable"))?,
      Ex::Call(f, args) => {
        let args = args.iter().map(|e| self.ex(e)).collect::<Result<Vec<_>, _>>();
        self.call(f, |_, ps| {
          let args = args?;
          if args.len() < ps.len() {
            return Err(Stop::Unspecified("too few arguments"));
          }
          Ok(ps.iter().cloned().zip(args).collect())
        })?
      }
      Ex::Labelled(f, args) => {
        let args = args.iter().map(|(n, e)| Ok((n.clone(), self.ex(e)?))).collect::<Result<Vec<_>, Stop>>();
        self.call(f, |_, _| Ok(args?.into_iter().collect()))?
      }
      Ex::Bin(o, l, r) => {
        let op = OPS[*o as usize % 13].0;
        if op == "&&" || op == "||" {
          let a = match self.truth(l) {
            Err(Stop::Error(_)) if has_call(r) => return Err(Stop::Unspecified("whether the right side is evaluated after an error")),
            a => a?,
          };
          let decided = a == (op == "||");
          let before = self.out.len();
          let b = self.truth(r);
          if decided && (b.is_err() || self.out.len() > before || has_call(r)) {
            return Err(Stop::Unspecified("whether the right side of a decided && or || is evaluated"));
          }
          let b = b?;
          return Ok(V::Bool(if op == "&&" { a && b } else { a || b }));
        }
        let a = self.ex(l)?;
        let b = self.ex(r)?;
        let (a, b) = match (a, b) {
          (V::Int(a), V::Int(b)) => (a, b),
          _ => return Err(Stop::Error("no integer")),
        };
        let over = Stop::Unspecified("overflow");
        match op {
          "*" => V::Int(a.checked_mul(b).ok_or(over)?),
          "+" => V::Int(a.checked_add(b).ok_or(over)?),
          "-" => V::Int(a.checked_sub(b).ok_or(over)?),
          "/" | "%" if b == 0 => return Err(Stop::Error("division by zero")),
          "/" => V::Int(a.checked_div(b).ok_or(over)?),
          "%" => V::Int(a.checked_rem(b).ok_or(over)?),
          "<" => V::Bool(a < b),
          "<=" => V::Bool(a <= b),
          ">" => V::Bool(a > b),
          ">=" => V::Bool(a >= b),
          "==" => V::Bool(a == b),
          _ => V::Bool(a != b),
        }
      }
    })
  }
  fn set(&mut self, n: &str, v: V) {
    let top = self.scopes.len() - 1;
    let at = self.scopes.iter().rposition(|s| s.contains_key(n)).unwrap_or(top);
    if at < top {
      self.outer_writes += 1;
    }
    self.scopes[at].insert(n.to_string(), v);
  }
  fn block(&mut self, b: &'a [St]) -> Res {
    let mut v = V::Bool(true);
    for s in b {
      v = self.st(s)?;
      self.complete = self.out.len();
    }
    Ok(v)
  }
  fn st(&mut self, s: &'a St) -> Res {
    self.tick()?;
    match s {
      St::Let(n, e) => {
        let v = self.ex(e)?;
        self.set(n, v.clone());
        Ok(v)
      }
      St::Print(e) => {
        let v = self.ex(e)?;
        self.out += &format!("{}\n", v.show());
        Ok(v)
      }
      St::If(c, a, b) => {
        if self.truth(c)? {
          self.st(a)
        } else {
          b.as_ref().map_or(Ok(V::Bool(true)), |b| self.st(b))
        }
      }
      St::While(c, b) => {
        while self.truth(c)? {
          self.iterations += 1;
          self.st(b)?;
        }
        Ok(V::Bool(true))
      }
      St::For(n, a, b, s) => {
        let v = self.ex(a)?;
        self.set(n, v);
        loop {
          let i = match self.scopes.iter().rev().find_map(|s| s.get(n)).cloned() {
            Some(V::Int(i)) => i,
            _ => {
              self.ex(b)?;
              return Err(Stop::Error("no integer"));
            }
          };
          if i >= self.int(b)? {
            return Ok(V::Bool(true));
          }
          self.iterations += 1;
          self.st(s)?;
          let i = match self.scopes.iter().rev().find_map(|s| s.get(n)).cloned() {
            Some(V::Int(i)) => i,
            _ => return Err(Stop::Error("no integer")),
          };
          self.set(n, V::Int(i.checked_add(1).ok_or(Stop::Unspecified("overflow"))?));
        }
      }
      St::Block(b) => self.block(b),
      St::Ex(e) => self.ex(e),
    }
  }
}
fn has_call(e: &Ex) -> bool {
  match e {
    Ex::Call(..) | Ex::Labelled(..) => true,
    Ex::Arr(a) => a.iter().any(has_call),
    Ex::Bin(_, l, r) => has_call(l) || has_call(r),
    _ => false,
  }
}

// ------------------------------------------------------------------------------------------------ generators
const INTS: [&str; 8] = ["a", "f", "i", "n", "to1", "in_", "x9", "_"];
const BOOLS: [&str; 4] = ["true1", "falsey", "t", "fa"];
const STRS: [&str; 3] = ["s", "tru", "println1"];
const ARRS: [&str; 2] = ["arr", "els"];
pub const FNS: [&str; 4] = ["g", "fizz", "if_x", "elsewhere"];
fn fname() -> BoxedStrategy<String> {
  prop_oneof![40 => name(&FNS), 1 => Just("nofn".to_string())].boxed()
}
fn name(s: &'static [&'static str]) -> BoxedStrategy<String> {
  proptest::sample::select(s).prop_map(String::from).boxed()
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ty {
  Int,
  Bool,
  Str,
  Arr,
}
pub fn var(t: Ty) -> BoxedStrategy<String> {
  name(match t {
    Ty::Int => &INTS,
    Ty::Bool => &BOOLS,
    Ty::Str => &STRS,
    Ty::Arr => &ARRS,
  })
}
fn args(depth: u32) -> BoxedStrategy<Vec<Ex>> {
  vec(ex(Ty::Int, depth, false), 2..=3).boxed()
}
pub fn string() -> BoxedStrategy<String> {
  prop_oneof![
    3 => "[a-z ]{0,6}",
    1 => vcommon::mined_word(|w| w.chars().all(|c| !c.is_control()), "w"),
    1 => "[a-z\\\\\"/(){}\\[\\];,=\n\t\r\u{8}\u{c}é漢😀]{0,6}",
  ]
  .boxed()
}
/// An expression of the type, rarely of another one.
pub fn ex(t: Ty, depth: u32, calls: bool) -> BoxedStrategy<Ex> {
  let leaf = match t {
    Ty::Int => prop_oneof![50 => -9i64..100, 1 => any::<i64>(), 2 => (vcommon::mined_int(i64::MAX as u64), any::<bool>()).prop_map(|(n, neg)| if neg { -(n as i64) } else { n as i64 }), 1 => proptest::sample::select(vec![0, i64::MAX, i64::MIN])].prop_map(Ex::Int).boxed(),
    Ty::Bool => any::<bool>().prop_map(Ex::Bool).boxed(),
    Ty::Str => string().prop_map(Ex::Str).boxed(),
    Ty::Arr => Just(Ex::Arr(vec![])).boxed(),
  };
  let leaf = prop_oneof![2 => leaf, 2 => var(t).prop_map(Ex::Var)].boxed();
  if depth == 0 {
    return leaf;
  }
  let d = depth - 1;
  let sub = move |t: Ty| ex(t, d, calls);
  let bin = |ops: &'static [u8], l: BoxedStrategy<Ex>, r: BoxedStrategy<Ex>| {
    (proptest::sample::select(ops), l, r).prop_map(|(o, l, r)| Ex::Bin(o, Box::new(l), Box::new(r))).boxed()
  };
  let made = match t {
    Ty::Int => {
      let b = bin(&[0, 0, 1, 2, 3, 3, 4, 4], sub(Ty::Int), sub(Ty::Int));
      if calls {
        prop_oneof![
          3 => b,
          2 => (fname(), args(0)).prop_map(|(f, a)| Ex::Call(f, a)),
          1 => (fname(), vec((name(&["a", "n", "i", "f", "x9"]), ex(Ty::Int, 0, false)), 1..4)).prop_map(|(f, a)| Ex::Labelled(f, a)),
        ]
        .boxed()
      } else {
        b
      }
    }
    Ty::Bool => prop_oneof![
      3 => bin(&[5, 6, 7, 8, 9, 10], sub(Ty::Int), sub(Ty::Int)),
      2 => bin(&[11, 12], sub(Ty::Bool), sub(Ty::Bool)),
    ]
    .boxed(),
    Ty::Str => leaf.clone(),
    Ty::Arr => vec(prop_oneof![sub(Ty::Int), sub(Ty::Bool), sub(Ty::Str), sub(Ty::Arr)], 0..4).prop_map(Ex::Arr).boxed(),
  };
  prop_oneof![40 => leaf, 120 => made, 1 => bin(&[0, 3, 5, 9, 11], sub(Ty::Str), sub(Ty::Int))].boxed()
}
pub fn any_ex(depth: u32, calls: bool) -> BoxedStrategy<Ex> {
  prop_oneof![4 => ex(Ty::Int, depth, calls), 2 => ex(Ty::Bool, depth, calls), 1 => ex(Ty::Str, depth, calls), 1 => ex(Ty::Arr, depth, calls)].boxed()
}
fn assign(calls: bool) -> BoxedStrategy<St> {
  prop_oneof![4 => Just(Ty::Int), 1 => Just(Ty::Bool), 1 => Just(Ty::Str), 1 => Just(Ty::Arr)]
    .prop_flat_map(move |t| (var(t), ex(t, 2, calls)))
    .prop_map(|(n, e)| St::Let(n, e))
    .boxed()
}
pub fn st(depth: u32, calls: bool) -> BoxedStrategy<St> {
  let simple = prop_oneof![
    4 => assign(calls),
    3 => any_ex(2, calls).prop_map(St::Print),
    1 => any_ex(2, calls).prop_map(St::Ex),
  ]
  .boxed();
  if depth == 0 {
    return simple;
  }
  let inner = st(depth - 1, calls);
  // Loops that count a variable up end; others may not.
  let counted = (var(Ty::Int), -3i64..6, vec(st(depth - 1, calls), 0..3)).prop_map(|(n, k, mut b)| {
    b.push(St::Let(n.clone(), Ex::Bin(3, Box::new(Ex::Var(n.clone())), Box::new(Ex::Int(1)))));
    St::While(Ex::Bin(5, Box::new(Ex::Var(n)), Box::new(Ex::Int(k))), Box::new(St::Block(b)))
  });
  prop_oneof![
    3 => simple,
    3 => (ex(Ty::Bool, 2, calls), inner.clone(), proptest::option::of(inner.clone())).prop_map(|(c, a, b)| {
      let a = if b.is_some() { closed(a) } else { a };
      St::If(c, Box::new(a), b.map(Box::new))
    }),
    1 => counted,
    1 => (ex(Ty::Bool, 2, calls), inner.clone()).prop_map(|(c, b)| St::While(c, Box::new(b))),
    2 => (var(Ty::Int), prop_oneof![3 => (-3i64..4).prop_map(Ex::Int), 1 => ex(Ty::Int, 1, calls)], prop_oneof![3 => (0i64..7).prop_map(Ex::Int), 1 => ex(Ty::Int, 1, calls)], inner.clone())
      .prop_map(|(n, a, b, s)| St::For(n, a, b, Box::new(s))),
    2 => vec(inner, 0..4).prop_map(St::Block),
  ]
  .boxed()
}
/// Assignments of simple values to most of the variables.
pub fn prelude(p: f64) -> BoxedStrategy<Vec<(String, Ex)>> {
  let all: Vec<(&str, Ty)> = INTS.iter().map(|v| (*v, Ty::Int)).chain(BOOLS.iter().map(|v| (*v, Ty::Bool))).chain(STRS.iter().map(|v| (*v, Ty::Str))).chain(ARRS.iter().map(|v| (*v, Ty::Arr))).collect();
  all
    .into_iter()
    .map(|(v, t)| {
      let e = match t {
        Ty::Int => (-9i64..30).prop_map(Ex::Int).boxed(),
        Ty::Bool => any::<bool>().prop_map(Ex::Bool).boxed(),
        Ty::Str => "[a-z]{0,3}".prop_map(Ex::Str).boxed(),
        Ty::Arr => vec((0i64..9).prop_map(Ex::Int), 0..3).prop_map(Ex::Arr).boxed(),
      };
      (proptest::bool::weighted(p), e).prop_map(move |(b, e)| b.then(|| (v.to_string(), e)))
    })
    .collect::<Vec<_>>()
    .prop_map(|v| v.into_iter().flatten().collect())
    .boxed()
}
pub fn layout() -> BoxedStrategy<Vec<u8>> {
  prop_oneof![1 => Just(vec![]), 5 => vec(any::<u8>(), 1..40)].boxed()
}

// ------------------------------------------------------------------------------------------------ other names
const KEYWORDS: [&str; 11] = ["fn", "global", "if", "else", "while", "for", "in", "to", "println", "true", "false"];
/// What may be part of a name.
fn part() -> BoxedStrategy<String> {
  prop_oneof![
    2 => "[a-zA-Z_][a-zA-Z0-9_]{0,2}",
    2 => "[a-zA-Z_][a-zA-Z0-9_]{0,9}",
    1 => "[a-zA-Z_][a-zA-Z0-9_]{10,70}",
    3 => proptest::sample::select(&KEYWORDS[..]).prop_map(String::from),
    1 => proptest::sample::select(vec!["main", "TRUE", "If", "_", "__", "Fn", "e", "n", "t", "u", "x", "E1", "return", "let"]).prop_map(String::from),
    1 => vcommon::mined_word(|w| w.bytes().enumerate().all(|(i, b)| b == b'_' || b.is_ascii_alphabetic() || i > 0 && b.is_ascii_digit()), "w"),
  ]
  .boxed()
}
pub fn names() -> BoxedStrategy<Vec<(String, String, u8)>> {
  vec((part(), part(), any::<u8>()), 6..20).boxed()
}
/// Other names for variables and functions; a different one for each, now and then one that another begins with, or
/// a function's for a variable.
pub struct Renamer<'a> {
  from: &'a [(String, String, u8)],
  fns: HashMap<String, String>,
  vars: HashMap<String, String>,
}
impl<'a> Renamer<'a> {
  pub fn new(from: &'a [(String, String, u8)]) -> Self {
    Renamer { from, fns: HashMap::from([("main".into(), "main".into())]), vars: HashMap::new() }
  }
  fn name(&mut self, n: &str, function: bool) -> String {
    let (own, other) = if function { (&self.fns, &self.vars) } else { (&self.vars, &self.fns) };
    if let Some(n) = own.get(n) {
      return n.clone();
    }
    let k = own.len() + 7 * function as usize;
    let (a, b, how) = &self.from[k % self.from.len()];
    let earlier = |m: &HashMap<String, String>| {
      let mut v: Vec<String> = m.values().cloned().collect();
      v.sort();
      (!v.is_empty()).then(|| v[*how as usize / 8 % v.len()].clone())
    };
    let mut new = match how % 8 {
      0..=2 => a.clone(),
      3 => format!("{}{}", a, b),
      4 => format!("{}{}", a, how),
      5 => earlier(own).map_or(b.clone(), |e| e + b),
      6 => earlier(own).filter(|e| e.len() > 1).map_or(b.clone(), |mut e| {
        e.pop();
        e
      }),
      _ => earlier(other).unwrap_or_else(|| b.clone()),
    };
    while KEYWORDS.contains(&new.as_str()) || own.values().any(|v| *v == new) {
      new.push(char::from(b"_x1kZ"[new.len() % 5]));
    }
    if function { &mut self.fns } else { &mut self.vars }.insert(n.to_string(), new.clone());
    new
  }
  fn var(&mut self, n: &mut String) {
    *n = self.name(n, false)
  }
  fn ex(&mut self, e: &mut Ex) {
    match e {
      Ex::Int(_) | Ex::Bool(_) | Ex::Str(_) => (),
      Ex::Arr(a) => a.iter_mut().for_each(|e| self.ex(e)),
      Ex::Var(v) => self.var(v),
      Ex::Bin(_, l, r) => {
        self.ex(l);
        self.ex(r);
      }
      Ex::Call(f, a) => {
        *f = self.name(f, true);
        a.iter_mut().for_each(|e| self.ex(e))
      }
      Ex::Labelled(f, a) => {
        *f = self.name(f, true);
        for (n, e) in a {
          self.var(n);
          self.ex(e);
        }
      }
    }
  }
  fn st(&mut self, s: &mut St) {
    match s {
      St::Let(n, e) => {
        self.var(n);
        self.ex(e)
      }
      St::Print(e) | St::Ex(e) => self.ex(e),
      St::If(c, a, b) => {
        self.ex(c);
        self.st(a);
        b.iter_mut().for_each(|b| self.st(b))
      }
      St::While(c, b) => {
        self.ex(c);
        self.st(b)
      }
      St::For(v, a, b, s) => {
        self.var(v);
        self.ex(a);
        self.ex(b);
        self.st(s)
      }
      St::Block(b) => b.iter_mut().for_each(|s| self.st(s)),
    }
  }
  pub fn tops(mut self, p: &mut [Top]) {
    for t in p {
      match t {
        Top::Global(n, e) => {
          self.var(n);
          self.ex(e)
        }
        Top::Fn(n, ps, b) => {
          *n = self.name(n, true);
          ps.iter_mut().for_each(|p| self.var(p));
          b.iter_mut().for_each(|s| self.st(s))
        }
      }
    }
  }
}
