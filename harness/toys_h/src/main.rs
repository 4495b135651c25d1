//! Toys: parsing and running of generated programs against a writer and an interpreter of the same programs.
#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
mod lang;

use expr::Expr;
use interpreter::Interpreter;
use labelled_parameter::LabelledParameter;
use lang::*;
use oni_comb_parser_rs::prelude::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::os::unix::io::RawFd;
use std::rc::Rc;
use values::Value;
use vcommon::{ensure, ensure_eq, facet, no_panic, CheckResult, Obs, Property};

const IDS: &[&str] = &["C50", "C51", "C52", "C53"];

// ------------------------------------------------------------------------------------------------ running the code
/// Standard output of `f`, which is all that a program shows.
fn captured<T>(f: impl FnOnce() -> T) -> (T, String) {
  struct Back(RawFd);
  impl Drop for Back {
    fn drop(&mut self) {
      let _ = std::io::stdout().flush();
      unsafe {
        libc::dup2(self.0, 1);
        libc::close(self.0);
      }
    }
  }
  let _ = std::io::stdout().flush();
  unsafe {
    let fd = libc::memfd_create(c"out".as_ptr(), 0);
    assert!(fd >= 0, "memfd");
    let back = Back(libc::dup(1));
    libc::dup2(fd, 1);
    let r = f();
    drop(back);
    let len = libc::lseek(fd, 0, libc::SEEK_END) as usize;
    let mut buf = vec![0u8; len];
    let n = libc::pread(fd, buf.as_mut_ptr() as *mut libc::c_void, len, 0);
    libc::close(fd);
    assert_eq!(n as usize, len);
    (r, String::from_utf8_lossy(&buf).into_owned())
  }
}
fn parse(text: &str) -> Result<Result<Rc<Expr>, String>, String> {
  let input: Vec<char> = text.chars().collect();
  no_panic(|| program().parse(&input).to_result().map_err(|e| e.to_string())).map_err(|p| format!("{:?}: panicked: {}", text, p))
}
fn must(text: &str) -> Result<Rc<Expr>, String> {
  parse(text)?.map_err(|e| format!("{:?} is rejected: {:.200}", text, e))
}
fn program<'a>() -> Parser<'a, char, Rc<Expr>> {
  parsers::program()
}

// ------------------------------------------------------------------------------------------------ C50
fn e_expr(e: &Ex) -> Rc<Expr> {
  let ops: [fn(Rc<Expr>, Rc<Expr>) -> Rc<Expr>; 13] = [
    Expr::of_multiply,
    Expr::of_divide,
    Expr::of_mod,
    Expr::of_add,
    Expr::of_subtract,
    Expr::of_less_than,
    Expr::of_less_or_equal,
    Expr::of_greater_than,
    Expr::of_greater_or_equal,
    Expr::of_equal_equal,
    Expr::of_not_equal,
    Expr::of_and,
    Expr::of_or,
  ];
  match e {
    Ex::Int(i) => Expr::of_integer_literal(*i),
    Ex::Bool(b) => Expr::of_bool_literal(*b),
    Ex::Str(s) => Expr::of_string_literal(s.clone()),
    Ex::Arr(a) => Expr::of_array_literal(a.iter().map(e_expr).collect()),
    Ex::Var(v) => Expr::of_symbol(v.clone()),
    Ex::Bin(o, l, r) => ops[*o as usize % 13](e_expr(l), e_expr(r)),
    Ex::Call(f, a) => Expr::of_function_call(f.clone(), a.iter().map(e_expr).collect()),
    Ex::Labelled(f, a) => Expr::of_labelled_call(f.clone(), a.iter().map(|(n, e)| LabelledParameter::new(n.clone(), e_expr(e))).collect()),
  }
}
fn e_st(s: &St) -> Rc<Expr> {
  match s {
    St::Let(n, e) => Expr::of_assignment(n.clone(), e_expr(e)),
    St::Print(e) => Expr::of_println(e_expr(e)),
    St::If(c, a, b) => Expr::of_if(e_expr(c), e_st(a), b.as_ref().map(|b| e_st(b))),
    St::While(c, b) => Expr::of_while(e_expr(c), e_st(b)),
    St::For(v, a, b, s) => {
      let var = || Expr::of_symbol(v.clone());
      Expr::of_block(vec![
        Expr::of_assignment(v.clone(), e_expr(a)),
        Expr::of_while(
          Expr::of_less_than(var(), e_expr(b)),
          Expr::of_block(vec![e_st(s), Expr::of_assignment(v.clone(), Expr::of_add(var(), Expr::of_integer_literal(1)))]),
        ),
      ])
    }
    St::Block(b) => Expr::of_block(b.iter().map(e_st).collect()),
    St::Ex(e) => e_expr(e),
  }
}
fn e_top(t: &Top) -> Rc<Expr> {
  match t {
    Top::Global(n, e) => Expr::of_global_variable_definition(n.clone(), e_expr(e)),
    Top::Fn(n, p, b) => Expr::of_function_definition(n.clone(), p.clone(), Expr::of_block(b.iter().map(e_st).collect())),
  }
}
/// Without the parentheses, which only group.
fn plain(e: &Rc<Expr>) -> Rc<Expr> {
  let list = |v: &Vec<Rc<Expr>>| v.iter().map(plain).collect::<Vec<_>>();
  Rc::new(match &**e {
    Expr::Parenthesized(e) => return plain(e),
    Expr::ArrayLiteral(v) => Expr::ArrayLiteral(list(v)),
    Expr::Binary(o, l, r) => Expr::Binary(o.clone(), plain(l), plain(r)),
    Expr::FunctionCall(n, v) => Expr::FunctionCall(n.clone(), list(v)),
    Expr::LabelledCall(n, v) => Expr::LabelledCall(
      n.clone(),
      v.iter().map(|p| LabelledParameter::new(p.name.clone(), plain(&p.parameter))).collect(),
    ),
    Expr::Plus(e) => Expr::Plus(plain(e)),
    Expr::Minus(e) => Expr::Minus(plain(e)),
    Expr::Println(e) => Expr::Println(plain(e)),
    Expr::While(c, b) => Expr::While(plain(c), plain(b)),
    Expr::If(c, a, b) => Expr::If(plain(c), plain(a), b.as_ref().map(plain)),
    Expr::Block(v) => Expr::Block(list(v)),
    Expr::Assignment(n, e) => Expr::Assignment(n.clone(), plain(e)),
    Expr::GlobalVariableDefinition(n, e) => Expr::GlobalVariableDefinition(n.clone(), plain(e)),
    Expr::FunctionDefinition(n, p, e) => Expr::FunctionDefinition(n.clone(), p.clone(), plain(e)),
    Expr::Program(v) => Expr::Program(list(v)),
    e => e.clone(),
  })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Prog {
  tops: Vec<Top>,
  layout: Vec<u8>,
}
fn size(t: &[Top]) -> usize {
  serde_json::to_string(t).map_or(0, |s| s.len())
}
fn tree(p: &Prog) -> CheckResult {
  let text = text(&p.tops, &p.layout);
  let got = must(&text)?;
  let want = Expr::Program(p.tops.iter().map(e_top).collect());
  ensure_eq!(*plain(&got), want, "tree of {:?}", text);
  Ok(Obs::new(size(&p.tops) > 150).label_if(text.contains("\\u"), "unicode escape").label_if(text.contains("else"), "else"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Damage {
  tops: Vec<Top>,
  layout: Vec<u8>,
  at: u16,
  how: u8,
}
fn unbalanced(d: &Damage) -> CheckResult {
  let mut w = Writer::new(&d.layout);
  w.program(&d.tops);
  let (mut t, marks) = (w.out, w.marks);
  if marks.is_empty() || t.contains('\\') {
    return Ok(Obs::discard("no brackets, or escapes"));
  }
  let before = t.clone();
  let p = marks[d.at as usize % marks.len()];
  if d.how % 3 == 0 {
    if t[..p].matches('"').count() % 2 == 1 {
      return Ok(Obs::discard("inside a string"));
    }
    t.insert_str(p, ["(", ")", "{", "}", "[", "]", "\""][d.how as usize / 3 % 7]);
  } else {
    t.remove(p);
  }
  if let Ok(e) = parse(&t)? {
    return Err(format!("{:?} (from {:?}) is accepted as {:?}", t, before, e));
  }
  Ok(Obs::new(t.len() > 30).label_if(d.how % 3 == 0, "inserted"))
}
fn mutated(d: &(Prog, Vec<(u16, u8, String)>)) -> CheckResult {
  let mut t: Vec<char> = text(&d.0.tops, &d.0.layout).chars().collect();
  for (at, how, tok) in &d.1 {
    let i = *at as usize % (t.len() + 1);
    match how {
      0 if i < t.len() => {
        t.remove(i);
      }
      1 if i < t.len() => {
        t.splice(i..i + 1, tok.chars());
      }
      2 => t.truncate(i.max(1)),
      _ => {
        t.splice(i..i, tok.chars());
      }
    }
  }
  let t: String = t.into_iter().collect();
  let out = parse(&t)?;
  if let Ok(e) = &out {
    ensure!(matches!(&**e, Expr::Program(_)), "{:?} is {:?}", t, e);
  }
  Ok(Obs::new(t.len() > 30).label(if out.is_ok() { "accepted" } else { "rejected" }))
}

// ------------------------------------------------------------------------------------------------ C51, C52, C53
fn value(v: &Value) -> V {
  match v {
    Value::Int(i) => V::Int(*i),
    Value::Bool(b) => V::Bool(*b),
    Value::String(s) => V::Str(s.clone()),
    Value::Array(a) => V::Arr(a.iter().map(value).collect()),
  }
}
fn behaves<'a>(p: &'a Prog, run: &mut Run<'a>, parsed: bool) -> CheckResult {
  behaves_on(p, run, parsed, &mut Interpreter::new())
}
fn behaves_on<'a>(p: &'a Prog, run: &mut Run<'a>, parsed: bool, on: &mut Interpreter) -> CheckResult {
  let text = text(&p.tops, &p.layout);
  let want = run.program(&p.tops);
  if let Err(Stop::Unspecified(why)) = want {
    return Ok(Obs::discard(why));
  }
  let tree = if parsed { must(&text)? } else { Rc::new(Expr::Program(p.tops.iter().map(e_top).collect())) };
  let (got, out) = captured(|| no_panic(|| on.call_main(tree)));
  match (&want, &got) {
    (Ok(v), Ok(g)) => {
      ensure_eq!(out, run.out, "output of {:?}", text);
      ensure_eq!(value(g), *v, "value of {:?}", text);
    }
    (Ok(v), Err(e)) => return Err(format!("{:?} fails with {:?}, expected {:?} and output {:?}", text, e, v, run.out)),
    (Err(e), Ok(g)) => return Err(format!("{:?} gives {:?} and output {:?}, but it has an error: {:?}", text, g, out, e)),
    (Err(_), Err(_)) => ensure!(
      out.starts_with(&run.out[..run.complete]),
      "{:?} shows {:?} before its error, expected at least {:?}",
      text,
      out,
      &run.out[..run.complete]
    ),
  }
  Ok(Obs::new(true).label(match want {
    Ok(_) => "ends",
    Err(Stop::Error(e)) => e,
    _ => "",
  }))
}
fn expressions(p: &Prog) -> CheckResult {
  expressions_of(p, true)
}
/// The same on a tree that is not parsed, which takes a fraction of the time.
fn expressions_tree(p: &Prog) -> CheckResult {
  expressions_of(p, false)
}
fn expressions_of(p: &Prog, parsed: bool) -> CheckResult {
  let mut run = Run::default();
  let o = behaves(p, &mut run, parsed)?;
  Ok(Obs { nontrivial: size(&p.tops) > 900 && !run.out.is_empty(), ..o })
}
fn statements(p: &Prog) -> CheckResult {
  statements_of(p, true)
}
/// The same on a tree that is not parsed, which takes a fraction of the time.
fn statements_tree(p: &Prog) -> CheckResult {
  statements_of(p, false)
}
fn statements_of(p: &Prog, parsed: bool) -> CheckResult {
  let mut run = Run::default();
  let o = behaves(p, &mut run, parsed)?;
  Ok(Obs { nontrivial: !run.out.is_empty() && run.iterations > 0, ..o }.label_if(run.iterations > 5, "over five iterations"))
}
fn functions(p: &Prog) -> CheckResult {
  functions_of(p, true)
}
/// The same on a tree that is not parsed, which takes a fraction of the time.
fn functions_tree(p: &Prog) -> CheckResult {
  functions_of(p, false)
}
fn functions_of(p: &Prog, parsed: bool) -> CheckResult {
  let mut run = Run::default();
  let o = behaves(p, &mut run, parsed)?;
  Ok(
    Obs { nontrivial: run.max_calls > 0 && !run.out.is_empty(), ..o }
      .label_if(run.max_calls > 2, "calls over two deep")
      .label_if(run.outer_writes > 0, "assigns to a variable of a caller or a global"),
  )
}
fn lets(v: Vec<(String, Ex)>) -> Vec<St> {
  v.into_iter().map(|(n, e)| St::Let(n, e)).collect()
}
fn main_only(body: BoxedStrategy<Vec<St>>) -> BoxedStrategy<Prog> {
  (prelude(0.997), body, layout())
    .prop_map(|(pre, body, layout)| {
      let mut b = lets(pre);
      b.extend(body);
      Prog { tops: vec![Top::Fn("main".into(), vec![], b)], layout }
    })
    .boxed()
}
fn show_exprs() -> BoxedStrategy<Vec<St>> {
  vec(prop_oneof![3 => any_ex(4, false).prop_map(St::Print), 1 => (var(Ty::Int), ex(Ty::Int, 3, false)).prop_map(|(n, e)| St::Let(n, e))], 1..5).boxed()
}
fn params() -> BoxedStrategy<Vec<String>> {
  proptest::sample::subsequence(vec!["a", "n", "i", "f", "x9"], 0..=2).prop_map(|v| v.into_iter().map(String::from).collect()).boxed()
}
/// Functions of up to two parameters; main; globals, anywhere among them.
fn whole(globals: f64) -> BoxedStrategy<Prog> {
  let body = || vec(st(1, true), 0..4);
  // Recursion that counts down.
  let down = (params().prop_filter("a parameter", |p| !p.is_empty()), proptest::sample::select(FNS.to_vec()), vec(st(0, false), 0..3), 1i64..4, vec(st(0, false), 0..2)).prop_map(
    |(ps, f, body, step, after)| {
      let p = ps[0].clone();
      let mut args = vec![Ex::Bin(4, Box::new(Ex::Var(p.clone())), Box::new(Ex::Int(step)))];
      args.extend(ps[1..].iter().map(|p| Ex::Var(p.clone())));
      let mut then = body;
      then.push(St::Ex(Ex::Call(f.to_string(), args)));
      then.extend(after);
      (ps, vec![St::If(Ex::Bin(7, Box::new(Ex::Var(p)), Box::new(Ex::Int(0))), Box::new(St::Block(then)), None), St::Ex(Ex::Var(ps_last(&f)))])
    },
  );
  fn ps_last(_: &str) -> String {
    "n".to_string()
  }
  // Most return an integer.
  let with_value = (body(), proptest::option::weighted(0.9, ex(Ty::Int, 2, false))).prop_map(|(mut b, e)| {
    b.extend(e.map(St::Ex));
    b
  });
  let func = prop_oneof![3 => (params(), with_value), 1 => down];
  let funcs = proptest::sample::subsequence(FNS.to_vec(), 4..=4).prop_flat_map(move |ns| {
    let n = ns.len();
    (Just(ns), vec(func.clone(), n..=n))
  });
  (prelude(globals), prelude(0.4), funcs, vec(st(2, true), 1..6), vec(any::<u8>(), 20..=20), layout())
    .prop_map(|(globals, locals, (names, funcs), body, order, layout)| {
      let mut main = lets(locals);
      main.extend(body);
      let mut tops: Vec<Top> = names.into_iter().zip(funcs).map(|(n, (p, b))| Top::Fn(n.to_string(), p, b)).collect();
      let at = order[0] as usize % (tops.len() + 1);
      tops.insert(at, Top::Fn("main".into(), vec![], main));
      for (i, (n, e)) in globals.into_iter().enumerate() {
        let at = order[(i + 1) % 20] as usize % (tops.len() + 1);
        tops.insert(at, Top::Global(n, e));
      }
      // Defined twice: with the parameters of the later one, and the body of another.
      if order[19] % 4 == 0 {
        let fns: Vec<usize> = (0..tops.len()).filter(|i| matches!(tops[*i], Top::Fn(..))).collect();
        let (a, b) = (fns[order[18] as usize % fns.len()], fns[order[17] as usize % fns.len()]);
        if let (Top::Fn(n, ps, _), Top::Fn(_, _, body)) = (&tops[a], &tops[b]) {
          let again = Top::Fn(n.clone(), ps.clone(), body.clone());
          tops.insert(order[16] as usize % (tops.len() + 1), again);
        }
      }
      Prog { tops, layout }
    })
    .boxed()
}
/// Two definitions.
fn small() -> BoxedStrategy<Prog> {
  (any_ex(2, true), proptest::sample::select(FNS.to_vec()), params(), vec(st(1, true), 1..4), layout())
    .prop_map(|(e, f, ps, b, layout)| Prog { tops: vec![Top::Global("n".into(), e), Top::Fn(f.to_string(), ps, b)], layout })
    .boxed()
}
/// The same program with other names.
fn renamed(p: BoxedStrategy<Prog>) -> BoxedStrategy<Prog> {
  (p, names())
    .prop_map(|(mut p, names)| {
      Renamer::new(&names).tops(&mut p.tops);
      p
    })
    .boxed()
}
/// Every evaluation of an operand, argument or element that calls `mark` is visible in the order of its calls.
fn marked(depth: u32) -> BoxedStrategy<Ex> {
  let leaf = (0i64..10).prop_map(|k| Ex::Call("mark".into(), vec![Ex::Int(k)])).boxed();
  if depth == 0 {
    return prop_oneof![5 => leaf, 1 => (-5i64..20).prop_map(Ex::Int), 1 => proptest::sample::select(vec!["t", "a"]).prop_map(|v| Ex::Var(v.to_string()))].boxed();
  }
  let sub = || marked(depth - 1);
  prop_oneof![
    1 => leaf,
    4 => (proptest::sample::select(vec![0u8, 1, 2, 3, 4]), sub(), sub()).prop_map(|(o, l, r)| Ex::Bin(o, Box::new(l), Box::new(r))),
    3 => vec(sub(), 2..=4).prop_map(|a| Ex::Call("two".into(), a)),
    2 => vec(sub(), 3..=3).prop_map(|a| Ex::Call("three".into(), a)),
    2 => vec((proptest::sample::select(vec!["b", "c", "d"]).prop_map(String::from), sub()), 3..6).prop_map(|a| Ex::Labelled("three".into(), a)),
  ]
  .boxed()
}
fn order() -> BoxedStrategy<Prog> {
  let shown = || prop_oneof![
    3 => marked(2),
    1 => vec(marked(1), 1..4).prop_map(Ex::Arr),
    1 => (5u8..11, marked(1), marked(1)).prop_map(|(o, l, r)| Ex::Bin(o, Box::new(l), Box::new(r))),
  ];
  let step = prop_oneof![
    4 => shown().prop_map(St::Print),
    2 => marked(2).prop_map(|e| St::Let("a".into(), e)),
    1 => shown().prop_map(St::Ex),
    1 => (5u8..11, marked(1), marked(1), marked(1), marked(1)).prop_map(|(o, l, r, a, b)| {
      St::If(Ex::Bin(o, Box::new(l), Box::new(r)), Box::new(St::Ex(a)), Some(Box::new(St::Ex(b))))
    }),
    1 => (marked(0), marked(0), marked(1)).prop_map(|(a, b, e)| St::For("i".into(), a, b, Box::new(St::Ex(e)))),
  ];
  (vec(step, 1..5), 0usize..4, layout())
    .prop_map(|(steps, at, layout)| {
      let v = |n: &str| Box::new(Ex::Var(n.into()));
      let bin = |o: u8, l: Box<Ex>, r: Box<Ex>| Box::new(Ex::Bin(o, l, r));
      let mix = bin(2, bin(3, bin(0, v("t"), Box::new(Ex::Int(11))), v("k")), Box::new(Ex::Int(99991)));
      let three = bin(3, v("b"), bin(0, Box::new(Ex::Int(2)), bin(4, v("c"), v("d"))));
      let mut tops = vec![
        Top::Fn("mark".into(), vec!["k".into()], vec![St::Let("t".into(), *mix), St::Ex(*v("k"))]),
        Top::Fn("two".into(), vec!["b".into(), "c".into()], vec![St::Ex(*bin(4, v("b"), v("c")))]),
        Top::Fn("three".into(), vec!["b".into(), "c".into(), "d".into()], vec![St::Ex(*three)]),
      ];
      let mut main: Vec<St> = vec![];
      for s in steps {
        main.push(s);
        main.push(St::Print(*v("t")));
      }
      tops.insert(at, Top::Fn("main".into(), vec![], main));
      let mut all = vec![Top::Global("t".into(), Ex::Int(1)), Top::Global("a".into(), Ex::Int(2))];
      all.extend(tops);
      Prog { tops: all, layout }
    })
    .boxed()
}
// ------------------------------------------------------------------------------------------------ many and long
fn count() -> BoxedStrategy<usize> {
  prop_oneof![
    3 => 10usize..100,
    2 => proptest::sample::select(vec![15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
    1 => 100usize..400,
    1 => vcommon::mined_size(400).prop_map(|n| n.max(2)),
  ]
  .boxed()
}
/// Programs with one thing in them very often.
fn long(kinds: &'static [u8]) -> BoxedStrategy<Prog> {
  fn v(n: &str) -> Ex {
    Ex::Var(n.into())
  }
  fn bin(o: u8, l: Ex, r: Ex) -> Ex {
    Ex::Bin(o, Box::new(l), Box::new(r))
  }
  fn int(i: usize) -> Ex {
    Ex::Int(i as i64)
  }
  fn add(n: &str, e: Ex) -> St {
    St::Let(n.into(), bin(2, bin(3, bin(0, v(n), Ex::Int(7)), e), Ex::Int(99991)))
  }
  (
    proptest::sample::select(kinds),
    count(),
    (vec((0u8..13, -9i64..100), 1..6), any::<u8>(), string()),
    vec(st(1, false), 1..4),
    (prelude(0.997), layout()),
  )
    .prop_map(|(kind, n, (ops, mask, s), some, (pre, layout))| {
      let op = |i: usize| ops[i % ops.len()];
      let mut tops: Vec<Top> = vec![];
      let mut main = lets(pre);
      main.push(St::Let("n".into(), Ex::Int(1)));
      match kind {
        // A chain of operators, of one level or of any.
        0 => {
          let mut e = int(1);
          for i in 0..n {
            let (o, k) = op(i);
            let o = match mask & 3 {
              0 => [3, 4][o as usize % 2],
              1 => [3, 4, 2][o as usize % 3],
              _ => o % 11,
            };
            let k = Ex::Int(k);
            // Kept small; any order of binding, the writer puts the parentheses.
            e = match o {
              0 => bin(2, bin(0, e, k), Ex::Int(1009)),
              5..=10 if i + 1 < n => bin(3, e, k),
              _ => bin(o, e, k),
            };
          }
          main.push(St::Print(e));
        }
        // To the right.
        1 => {
          let mut e = int(1);
          for i in 0..n.min(24) {
            let (o, k) = op(i);
            e = bin([3, 4, 2][o as usize % 3], Ex::Int(k), e);
          }
          main.push(St::Print(e));
        }
        2 => main.push(St::Print(Ex::Arr((0..n).map(|i| Ex::Int(op(i).1)).collect()))),
        3 => {
          let s = if s.is_empty() { "x".to_string() } else { s };
          main.push(St::Let("s".into(), Ex::Str(s.repeat(n))));
          main.push(St::Print(v("s")));
        }
        // Many statements.
        4 => {
          for i in 0..n {
            main.push(if i % 3 == 0 { some[i / 3 % some.len()].clone() } else { add("n", int(i)) });
          }
          main.push(St::Print(v("n")));
        }
        // Many turns of a loop; of two loops.
        5 => main.extend([
          St::For("i".into(), int(0), int(n), Box::new(St::Block(vec![add("n", v("i")), some[0].clone()]))),
          St::Print(v("n")),
          St::Print(v("i")),
        ]),
        6 => main.extend([
          St::Let("i".into(), int(n)),
          St::While(bin(7, v("i"), int(0)), Box::new(St::Block(vec![add("n", v("i")), St::Let("i".into(), bin(4, v("i"), int(1)))]))),
          St::Print(v("n")),
          St::Print(v("i")),
        ]),
        7 => main.extend([
          St::For(
            "i".into(),
            int(0),
            int(n % 40 + 1),
            Box::new(St::Block(vec![St::For("x9".into(), v("i"), int(mask as usize % 40), Box::new(add("n", v("x9"))))])),
          ),
          St::Print(v("n")),
        ]),
        // if … else if …
        8 => {
          let mut s = St::Print(int(0));
          for i in 0..n.min(40) {
            s = St::If(bin(9, v("a"), int(i)), Box::new(St::Print(int(i + 1))), Some(Box::new(s)));
          }
          main.extend([St::Let("a".into(), int(mask as usize % 50)), s]);
        }
        // Blocks in blocks.
        9 => {
          let mut s = add("n", v("n"));
          for i in 0..n.min(40) {
            s = St::Block(if mask >> (i % 8) & 1 == 1 { vec![s, St::Print(v("n"))] } else { vec![s] });
          }
          main.push(s);
        }
        // A call in a call in a call.
        10 => {
          let mut then = vec![add("t", v("n")), St::Ex(Ex::Call("g".into(), vec![bin(4, v("n"), int(1))]))];
          if mask & 1 == 1 {
            then.push(add("t", v("n")));
          }
          tops.push(Top::Global("t".into(), int(1)));
          tops.push(Top::Fn("g".into(), vec!["n".into()], vec![St::If(bin(7, v("n"), int(0)), Box::new(St::Block(then)), None), St::Ex(v("n"))]));
          main.extend([St::Let("t".into(), int(1)), St::Print(Ex::Call("g".into(), vec![int(n)])), St::Print(v("t"))]);
        }
        // Many functions; each calls the one before.
        11 => {
          let name = |i: usize| format!("f{}", i);
          let m = n.min(100);
          for i in 0..m {
            let e = if i == 0 { v("b") } else { bin(3, Ex::Call(name(i - 1), vec![bin(3, v("b"), int(1))]), Ex::Int(op(i).1)) };
            tops.push(Top::Fn(name(i), vec!["b".into()], vec![St::Ex(e)]));
          }
          if mask & 1 == 1 {
            tops.reverse();
          }
          main.push(St::Print(Ex::Call(name(m - 1), vec![int(1)])));
        }
        // Many parameters.
        12 => {
          let name = |i: usize| format!("p{}", i);
          let m = n.min(100);
          let sum = (1..m).fold(v(&name(0)), |e, i| bin(if mask >> (i % 8) & 1 == 1 { 3 } else { 4 }, e, v(&name(i))));
          tops.push(Top::Fn("g".into(), (0..m).map(name).collect(), vec![St::Ex(sum)]));
          main.push(St::Print(Ex::Call("g".into(), (0..m).map(|i| Ex::Int(op(i).1)).collect())));
          main.push(St::Print(Ex::Labelled("g".into(), (0..m).rev().map(|i| (name(i), Ex::Int(op(i).1))).collect())));
        }
        // Many globals and variables; a long name.
        13 => {
          let name = |i: usize| format!("v{}", i);
          let m = n.min(100);
          for i in 0..m {
            tops.push(Top::Global(name(i), if i == 0 { int(1) } else { bin(3, v(&name(i - 1)), Ex::Int(op(i).1)) }));
          }
          main.extend((0..m).step_by(3).map(|i| St::Print(v(&name(i)))));
          let long = "y".repeat(n);
          main.extend([St::Let(long.clone(), v(&name(m - 1))), St::Print(v(&long))]);
        }
        // Called very often.
        _ => {
          tops.push(Top::Global("t".into(), int(1)));
          tops.push(Top::Fn("g".into(), vec!["b".into(), "c".into()], vec![St::Let("z".into(), v("c")), add("t", v("b")), St::Ex(bin(3, v("z"), v("b")))]));
          let call = if mask & 1 == 1 {
            Ex::Call("g".into(), vec![v("i"), v("n")])
          } else {
            Ex::Labelled("g".into(), vec![("c".into(), v("n")), ("b".into(), v("i"))])
          };
          main.extend([St::Let("t".into(), int(2)), St::For("i".into(), int(0), int(n), Box::new(add("n", call))), St::Print(v("n")), St::Print(v("t"))]);
        }
      }
      tops.push(Top::Fn("main".into(), vec![], main));
      Prog { tops, layout }
    })
    .boxed()
}
/// Expressions in expressions, statements in statements, many levels.
fn deep() -> BoxedStrategy<Prog> {
  (10usize..130, vec((0u8..12, ex(Ty::Int, 0, false)), 1..6), vec((0u8..9, st(0, false)), 1..6), any::<bool>(), layout())
    .prop_map(|(n, es, ss, which, layout)| {
      let top = if which {
        let mut x = Ex::Int(1);
        for i in 0..n {
          let (how, e) = es[i % es.len()].clone();
          x = match how {
            0 => Ex::Arr(vec![x]),
            1 => Ex::Arr(vec![e, x]),
            2 => Ex::Call("f".into(), vec![x]),
            3 => Ex::Call("f".into(), vec![e, x]),
            4 => Ex::Labelled("f".into(), vec![("a".into(), x)]),
            5 => Ex::Labelled("f".into(), vec![("a".into(), e), ("b".into(), x)]),
            k if k < 9 => Ex::Bin((k + i as u8) % 13, Box::new(e), Box::new(x)),
            k => Ex::Bin((k + i as u8) % 13, Box::new(x), Box::new(e)),
          };
        }
        Top::Global("x".into(), x)
      } else {
        let mut x = St::Print(Ex::Int(1));
        for i in 0..n {
          let (how, s) = ss[i % ss.len()].clone();
          let c = es[i % es.len()].1.clone();
          x = match how {
            0 => St::Block(vec![x]),
            1 => St::Block(vec![s, x]),
            2 => St::Block(vec![x, s]),
            3 => St::If(c, Box::new(St::Block(vec![x])), None),
            4 => St::If(c, Box::new(St::Block(vec![s])), Some(Box::new(x))),
            5 => St::If(c, Box::new(St::Block(vec![x])), Some(Box::new(s))),
            6 => St::While(c, Box::new(x)),
            7 => St::While(c, Box::new(St::Block(vec![x, s]))),
            _ => St::For("i".into(), c.clone(), c, Box::new(x)),
          };
        }
        Top::Fn("main".into(), vec![], vec![x])
      };
      Prog { tops: vec![top], layout }
    })
    .boxed()
}
/// A loop of very many turns.
fn turns() -> BoxedStrategy<Prog> {
  let n = prop_oneof![2 => 900usize..20_000, 1 => proptest::sample::select(vec![65_534usize, 65_535, 65_536, 65_537]), 1 => 65_538usize..150_000, 1 => vcommon::mined_size(150_000)];
  (n, 0u8..3, 1i64..4, layout())
    .prop_map(|(n, kind, step, layout)| {
      let v = |n: &str| Box::new(Ex::Var(n.into()));
      let plus = |n: &str, e| St::Let(n.into(), Ex::Bin(3, v(n), Box::new(e)));
      let n = n as i64;
      let mut main = vec![St::Let("n".into(), Ex::Int(0)), St::Let("i".into(), Ex::Int(0))];
      main.push(match kind {
        0 => St::For("i".into(), Ex::Int(0), Ex::Int(n), Box::new(plus("n", *v("i")))),
        1 => St::For("i".into(), Ex::Int(-n / 2), Ex::Int(n / 2), Box::new(St::Block(vec![plus("n", Ex::Int(step))]))),
        _ => St::While(Ex::Bin(5, v("n"), Box::new(Ex::Int(n * step))), Box::new(St::Block(vec![plus("n", Ex::Int(step)), plus("i", *v("n"))]))),
      });
      main.extend([St::Print(*v("n")), St::Print(*v("i"))]);
      Prog { tops: vec![Top::Fn("main".into(), vec![], main)], layout }
    })
    .boxed()
}
fn turn(p: &Prog) -> CheckResult {
  let mut run = Run::within(10_000_000, 10);
  let o = behaves(p, &mut run, false)?;
  Ok(Obs { nontrivial: run.iterations > 60_000, ..o })
}
const LONG: (u32, u32) = (100_000, 500);
fn long_runs(p: &Prog) -> CheckResult {
  let mut run = Run::within(LONG.0, LONG.1);
  let o = behaves(p, &mut run, false)?;
  Ok(Obs { nontrivial: !run.out.is_empty(), ..o }.label_if(run.iterations > 100, "over a hundred iterations").label_if(run.max_calls > 40, "calls over forty deep"))
}
fn long_read(p: &Prog) -> CheckResult {
  let mut run = Run::within(LONG.0, LONG.1);
  let o = behaves(p, &mut run, true)?;
  Ok(Obs { nontrivial: !run.out.is_empty(), ..o })
}
/// Assignments through the interpreter itself, and starting over.
fn interpreter(p: &(Vec<(String, i64)>, Vec<(String, i64)>)) -> CheckResult {
  let mut i = Interpreter::new();
  for (round, list) in [&p.0, &p.1].into_iter().enumerate() {
    let mut want = std::collections::HashMap::new();
    for (n, v) in list {
      let got = i.interpret(Expr::of_assignment(n.clone(), Expr::of_integer_literal(*v)));
      ensure_eq!(got, Value::Int(*v), "value of an assignment");
      want.insert(n.clone(), *v);
      for (n, v) in &want {
        ensure_eq!(i.get_value(n), &Value::Int(*v), "get_value({}) in round {} of {:?}", n, round, p);
        ensure_eq!(i.interpret(Expr::of_symbol(n.clone())), Value::Int(*v), "{} in round {} of {:?}", n, round, p);
      }
    }
    i.reset();
    for n in want.keys() {
      ensure!(no_panic(|| i.interpret(Expr::of_symbol(n.clone()))).is_err(), "{} has a value after reset", n);
    }
  }
  Ok(Obs::new(p.0.len() + p.1.len() > 3))
}
/// A program, then another one without some of its definitions, on one interpreter that is reset in between, or not.
fn again(c: &(Prog, Prog, u8, bool)) -> CheckResult {
  let (first, mut second) = (&c.0, c.1.clone());
  let mut k = 0;
  second.tops.retain(|t| {
    k += 1;
    matches!(t, Top::Fn(n, ..) if n == "main") || c.2 >> (k % 8) & 1 == 0
  });
  let mut on = Interpreter::new();
  let mut run = Run::default();
  let o = behaves_on(first, &mut run, false, &mut on)?;
  if o.discard {
    return Ok(o);
  }
  let keep = c.3 && o.labels.contains("ends");
  let what = if keep {
    run = run.again();
    "without reset"
  } else {
    on.reset();
    run = Run::default();
    "and reset"
  };
  let o = behaves_on(&second, &mut run, false, &mut on).map_err(|e| format!("after another program {}: {}\n  first {:?}", what, e, text(&first.tops, &[])))?;
  Ok(Obs { nontrivial: first.tops.len() > 1 && second.tops.len() < c.1.tops.len(), ..o }.label(what))
}

// ------------------------------------------------------------------------------------------------ properties
fn property(id: &str) -> Option<Property> {
  let p = |rule, assumptions, facets| {
    Some(Property {
      id: IDS.iter().find(|i| **i == id)?,
      rule,
      assumptions,
      facets,
    })
  };
  let q = 1_500;
  let t = 60_000;
  let skipped = vec![
    "programs that overflow, run over 3000 steps or 40 calls deep, call with too few arguments, or whose meaning depends on evaluating \
     the right side of a decided && or || are discarded",
  ];
  match id {
    "C50" => p(
      "Programs written with random white space, parentheses and escapes; the tree must be the program. Programs with one bracket or \
       quote too many or missing; programs with random edits. Non-trivial = a program of some size.",
      vec!["identifiers are no keywords (fn, global, if, else, while, for, in, to, println, true, false)"],
      vec![
        facet("programs", q, t, whole(0.5), tree),
        facet("statements", q, t, (vec(st(3, true), 1..4), layout()).prop_map(|(b, layout)| Prog { tops: vec![Top::Fn("main".into(), vec![], b)], layout }), tree),
        facet("expressions", q, t, (any_ex(6, true), layout()).prop_map(|(e, layout)| Prog { tops: vec![Top::Global("x".into(), e)], layout }), tree),
        facet("names", 2 * q, t, renamed(small()), tree),
        facet("long", q / 4, t / 20, long(&[0, 1, 2, 3, 4, 8, 9, 11, 12, 13]), tree),
        facet("deep", q / 8, t / 60, deep(), tree),
        facet("unbalanced", q, t, (vec(st(2, true), 1..3), layout(), any::<u16>(), 0u8..42).prop_map(|(b, layout, at, how)| Damage { tops: vec![Top::Fn("main".into(), vec![], b)], layout, at, how }), unbalanced),
        facet(
          "mutated",
          q,
          t,
          (
            whole(0.2),
            vec((any::<u16>(), 0u8..5, proptest::sample::select("( ) { } [ ] ; , = == && < \" \\ \\u \\u12 fn global if else while for in to println true f - -1 99999999999999999999 １ é a \n".split(' ').collect::<Vec<_>>()).prop_map(String::from)), 1..4),
          ),
          mutated,
        ),
      ],
    ),
    "C51" => p(
      "Programs that show values of generated expressions over variables, against a reference evaluation. \
       Non-trivial = an expression of some size is shown.",
      skipped,
      vec![facet("expressions", 2 * q, 2 * t, main_only(show_exprs()), expressions), facet("expressions-tree", 10 * q, 10 * t, main_only(show_exprs()), expressions_tree), facet("long", q / 8, t / 40, long(&[0, 1, 2, 3]), long_read), facet("long-tree", 2 * q, 2 * t, long(&[0, 1, 2, 3]), long_runs)],
    ),
    "C52" => p(
      "Programs of assignments, if, while, for, blocks and println, run against a reference interpreter; output and value. \
       Non-trivial = something is shown and a loop is entered.",
      skipped,
      vec![
        facet("statements", 2 * q, 2 * t, main_only(vec(st(3, false), 1..5).boxed()), statements),
        facet("statements-tree", 10 * q, 10 * t, main_only(vec(st(3, false), 1..6).boxed()), statements_tree),
        facet("long", q / 8, t / 40, long(&[4, 5, 6, 7, 8, 9]), long_read),
        facet("long-tree", 2 * q, 2 * t, long(&[4, 5, 6, 7, 8, 9]), long_runs),
        facet("names-tree", 20 * q, 10 * t, renamed(main_only(vec(st(3, false), 1..6).boxed())), statements_tree),
        facet("turns-tree", 120, 4_000, turns(), turn),
        facet("interpreter", q / 2, t / 10, (vec(("[a-c]", any::<i64>()), 0..6), vec(("[a-c]", any::<i64>()), 0..6)), interpreter),
      ],
    ),
    "C53" => p(
      "Programs of functions (plain, labelled and recursive calls), globals in any order and main, against a reference interpreter. \
       Non-trivial = a function is called and something is shown.",
      skipped,
      vec![facet("functions", 3 * q, 3 * t, whole(0.97), functions), facet("order", q, t, order(), functions), facet("names-tree", 20 * q, 10 * t, renamed(whole(0.97)), functions_tree), facet("functions-tree", 10 * q, 10 * t, whole(0.97), functions_tree), facet("order-tree", 4 * q, 4 * t, order(), functions_tree), facet("again-tree", 4 * q, 4 * t, (whole(0.97), whole(0.97), any::<u8>(), any::<bool>()), again), facet("long", q / 8, t / 40, long(&[10, 11, 12, 13, 14]), long_read), facet("long-tree", 2 * q, 2 * t, long(&[10, 11, 12, 13, 14]), long_runs)],
    ),
    _ => None,
  }
}
fn main() {
  vcommon::run_main(property, IDS)
}
