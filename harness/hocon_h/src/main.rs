//! HOCON: values, structure, duplicates, references, conversions, layouts, damage, includes and display,
//! against a reference model of the documents.
mod doc;
use doc::*;
use oni_comb_hocon_rs::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::str::FromStr;
use vcommon::{ensure, ensure_eq, facet, no_panic, CheckResult, Obs, Property};

const IDS: &[&str] = &["C40", "C41", "C42", "C43", "C44", "C45", "C46", "C47", "C48"];
const CANNOT: &str = "Cannot resolve the reference";

// ------------------------------------------------------------------------------------------------ comparing
fn env(name: &str) -> Option<String> {
  std::env::var(name).ok()
}
/// An outcome of parsing: the configuration, a reported error, or the documented failure on a required reference.
enum Out {
  Ok(Config),
  Err(String),
  Unresolved,
}
fn load(text: &str) -> Result<Out, String> {
  outcome(text, || ConfigFactory::new().parse_from_string(text))
}
fn outcome(text: &str, f: impl FnOnce() -> Result<Config, ConfigError>) -> Result<Out, String> {
  match no_panic(f) {
    Ok(Ok(c)) => Ok(Out::Ok(c)),
    Ok(Err(e)) => Ok(Out::Err(format!("{:?}", e))),
    Err(p) if p.contains(CANNOT) => Ok(Out::Unresolved),
    Err(p) => Err(format!("{:?}: panicked: {}", text, p)),
  }
}
fn must(text: &str) -> Result<Config, String> {
  match load(text)? {
    Out::Ok(c) => Ok(c),
    Out::Err(e) => Err(format!("{:?} is rejected: {}", text, e.chars().take(300).collect::<String>())),
    Out::Unresolved => Err(format!("{:?}: a reference is not resolved", text)),
  }
}
fn decimal(d: &Decimal) -> (i128, i32) {
  norm(d.mantissa(), -(d.scale() as i32))
}
/// Nanoseconds of number × unit, rounded down and up; nothing when far out of every range.
fn nanos((m, e): (i128, i32), unit: u8) -> Option<(i128, i128)> {
  let unit = UNITS[unit as usize % 7].1;
  if e >= 0 {
    let n = m.checked_mul(unit)?.checked_mul(10i128.checked_pow(e as u32)?)?;
    return Some((n, n));
  }
  // The whole part, and the fraction to 20 digits.
  let k = -e as u32;
  let p = 10i128.checked_pow(k)?;
  let (whole, part) = (m.div_euclid(p), m.rem_euclid(p));
  let whole = whole.checked_mul(unit)?;
  let (part, k, cut) = if k > 20 { (part / 10i128.pow(k - 20), 20, 1) } else { (part, k, 0) };
  let p = 10i128.pow(k);
  let hi = (part + cut) * unit;
  Some((whole + (part * unit).div_euclid(p), whole + hi.div_euclid(p) + (hi.rem_euclid(p) != 0) as i128))
}
fn chrono_nanos(d: &chrono::Duration) -> i128 {
  d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}
/// Kind by kind: the accessor of the kind gives the value, all others nothing.
fn same(cv: &ConfigValue, r: &R, at: &str) -> Result<(), String> {
  ensure_eq!(cv.is_null(), *r == R::Null, "{}: is_null", at);
  ensure_eq!(cv.as_bool(), if let R::Bool(b) = r { Some(*b) } else { None }, "{}: as_bool", at);
  ensure_eq!(cv.as_string(), if let R::Str(s) = r { Some(s.as_str()) } else { None }, "{}: as_string", at);
  let num = if let R::Num(m, e) = r { Some((*m, *e)) } else { None };
  ensure_eq!(cv.as_number().map(decimal), num, "{}: as_number", at);
  ensure_eq!(cv.as_config_number_value().map(|n| decimal(n.as_decimal())), num, "{}: as_config_number_value", at);
  match r {
    R::Dur(n, u) => {
      let Some(d) = cv.as_config_duration_value() else {
        return Err(format!("{}: {:?} is no duration", at, cv));
      };
      same_duration(d, *n, *u, at)?;
      ensure_eq!(cv.as_duration(), d.to_duration().ok(), "{}: as_duration", at);
      ensure_eq!(cv.as_std_duration(), d.to_std_duration().ok(), "{}: as_std_duration", at);
    }
    _ => {
      ensure!(cv.as_config_duration_value().is_none(), "{}: {:?} is a duration", at, cv);
      ensure!(cv.as_duration().is_none() && cv.as_std_duration().is_none(), "{}: {:?} gives a duration", at, cv);
    }
  }
  match (r, cv.as_array()) {
    (R::Arr(a), Some(b)) => {
      ensure_eq!(b.len(), a.len(), "{}: array length of {:?}", at, cv);
      ensure!(cv.as_config_array_value().map(|v| v.as_array().as_slice()) == Some(b), "{}: as_config_array_value", at);
      for (i, (x, y)) in b.iter().zip(a).enumerate() {
        same(x, y, &format!("{}[{}]", at, i))?;
      }
    }
    (R::Arr(_), None) => return Err(format!("{}: {:?} is no array", at, cv)),
    (_, x) => ensure!(x.is_none() && cv.as_config_array_value().is_none(), "{}: {:?} is an array", at, cv),
  }
  match (r, cv.as_object()) {
    (R::Obj(a), Some(b)) => {
      let mut keys: Vec<&String> = b.keys().collect();
      keys.sort();
      ensure_eq!(keys, a.keys().collect::<Vec<_>>(), "{}: keys", at);
      ensure!(cv.as_config_object_value().map(|o| o.as_map()) == Some(b), "{}: as_config_object_value", at);
      for (k, y) in a {
        ensure!(cv.contains(k), "{}: contains({:?}) is false", at, k);
        ensure!(cv.as_config_object_value().unwrap().has_path(k), "{}: object has_path({:?}) is false", at, k);
        same(&b[k], y, &format!("{}.{}", at, k))?;
      }
    }
    (R::Obj(_), None) => return Err(format!("{}: {:?} is no object", at, cv)),
    (_, x) => ensure!(x.is_none() && cv.as_config_object_value().is_none() && !cv.contains("a"), "{}: {:?} is an object", at, cv),
  }
  Ok(())
}
fn same_duration(d: &ConfigDurationValue, n: (i128, i32), unit: u8, at: &str) -> Result<(), String> {
  let exact = nanos(n, unit);
  let max = chrono_nanos(&chrono::Duration::max_value());
  let min = chrono_nanos(&chrono::Duration::min_value());
  match (d.to_duration(), exact) {
    (Ok(x), Some((lo, hi))) => {
      let x = chrono_nanos(&x);
      ensure!(lo <= x && x <= hi, "{}: {} is {} ns, expected {}..={}", at, d, x, lo, hi);
    }
    (Ok(x), None) => return Err(format!("{}: {} is {:?}, expected an error", at, d, x)),
    (Err(e), Some((lo, hi))) => ensure!(hi > max || lo < min, "{}: {} gives {} though {} ns is in range", at, d, e, lo),
    (Err(_), None) => (),
  }
  let std_max = std::time::Duration::MAX.as_nanos() as i128;
  match (d.to_std_duration(), exact) {
    (Ok(x), Some((lo, hi))) => {
      let x = x.as_nanos() as i128;
      ensure!(lo <= x && x <= hi, "{}: {} is std {} ns, expected {}..={}", at, d, x, lo, hi);
    }
    (Ok(x), None) => return Err(format!("{}: {} is std {:?}, expected an error", at, d, x)),
    (Err(e), Some((lo, hi))) => ensure!(hi > std_max || lo < 0, "{}: {} gives {} though {} ns is in range of std", at, d, e, lo),
    (Err(_), None) => (),
  }
  Ok(())
}
fn same_document(c: &Config, r: &R, text: &str) -> Result<(), String> {
  same(c.to_config_value(), r, "root").map_err(|e| format!("{}\n  in {:?}", e, text))?;
  let all = paths(r);
  // Of very many places, some; beside fewer still.
  let (step, far) = (1 + all.len() / 120, 1 + all.len() / 30);
  for (i, p) in all.into_iter().enumerate() {
    if !p.iter().all(|k| bare(k)) || i % step != 0 {
      continue;
    }
    let path = p.join(".");
    let want = get(r, &p).unwrap();
    match c.get_value(&path) {
      None => return Err(format!("get_value({:?}) finds nothing in {:?}", path, text)),
      Some(cv) => same(cv, want, &format!("get_value({:?})", path)).map_err(|e| format!("{}\n  in {:?}", e, text))?,
    }
    ensure!(c.has_path(&path), "has_path({:?}) is false in {:?}", path, text);
    ensure!(c.to_config_value().has_path(&path), "value has_path({:?}) is false in {:?}", path, text);
    // Paths beside it and beyond it.
    if i % far != 0 {
      continue;
    }
    let last = p[p.len() - 1].clone();
    let near = [
      format!("{}x", last),
      last[..last.len() - 1].to_string(),
      last.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    ];
    for k in ["a", "b", "zz", "0"].into_iter().chain(near.iter().map(|k| k.as_str()).filter(|k| !k.is_empty())) {
      let places = if near.iter().any(|n| n == k) { 1 } else { 2 };
      for mut q in [p[..p.len() - 1].to_vec(), p.clone()].into_iter().take(places) {
        q.push(k.to_string());
        let path = q.join(".");
        let want = get(r, &q);
        ensure_eq!(c.has_path(&path), want.is_some(), "has_path({:?}) in {:?}", path, text);
        ensure_eq!(c.get_value(&path).is_some(), want.is_some(), "get_value({:?}) in {:?}", path, text);
        ensure!(c.to_config_value().get_value(&path) == c.get_value(&path), "get_value({:?}) of the value differs in {:?}", path, text);
      }
    }
  }
  Ok(())
}
fn size(es: &[Entry]) -> usize {
  fn v(x: &Val) -> usize {
    match x {
      Val::Arr(a) => 1 + a.iter().map(v).sum::<usize>(),
      Val::Obj(es) => 1 + size(es),
      _ => 1,
    }
  }
  es.iter().map(|e| e.path.len() - 1 + v(&e.val)).sum()
}

// ------------------------------------------------------------------------------------------------ C40, C41, C42
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc {
  es: Vec<Entry>,
  layout: Vec<u8>,
}
fn check_doc(d: &Doc) -> CheckResult {
  let text = text(&d.es, &d.layout, true);
  let r = Meaning::of(&d.es, &env).map_err(|u| format!("harness: {:?}", u))?;
  let c = must(&text)?;
  same_document(&c, &r, &text)?;
  Ok(
    Obs::new(size(&d.es) >= 3)
      .label_if(text.contains("\\u"), "unicode escape")
      .label_if(text.contains('#') || text.contains("//"), "comment or comment-like text")
      .label_if(d.es.iter().any(|e| e.path.len() > 1), "dotted key")
      .label_if(d.es.is_empty(), "empty document"),
  )
}
/// One scalar in every place a value can stand.
fn scalar_places() -> BoxedStrategy<Doc> {
  (vec(scalar(), 1..5), layout())
    .prop_map(|(vals, layout)| {
      let key = |s: &str, i: usize| vec![format!("{}{}", s, i)];
      let mut es = vec![];
      for (i, v) in vals.iter().enumerate() {
        // Names of units, too: a key is no part of the number on the line before.
        es.push(Entry { path: vec![["p", "s", "ms", "d"][i % 4].to_string()], val: v.clone() });
        es.push(Entry {
          path: key("o", i),
          val: Val::Obj(vec![Entry { path: vec!["k".into()], val: v.clone() }, Entry { path: vec!["l".into(), "m".into()], val: v.clone() }]),
        });
      }
      es.push(Entry { path: vec!["arr".into()], val: Val::Arr(vals.clone()) });
      es.push(Entry { path: vec!["last".into()], val: vals[0].clone() });
      Doc { es, layout }
    })
    .boxed()
}
fn structured(few: bool, quoted: bool, unique: bool) -> BoxedStrategy<Doc> {
  (entries(few, quoted, 3, if few { 7 } else { 5 }, scalar()), layout())
    .prop_map(move |(mut es, layout)| {
      if unique {
        without_duplicates(&mut es);
      }
      Doc { es, layout }
    })
    .boxed()
}
/// The same document with other keys.
fn renamed(d: BoxedStrategy<Doc>) -> BoxedStrategy<Doc> {
  (d, names())
    .prop_map(|(mut d, names)| {
      rename(&mut d.es, &names);
      d
    })
    .boxed()
}
fn check_duplicates(d: &Doc) -> CheckResult {
  let mut unique = d.es.clone();
  without_duplicates(&mut unique);
  let o = check_doc(d)?;
  Ok(Obs { nontrivial: unique.len() < d.es.len(), ..o })
}

// The history of a value, as the merging operations build it.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
  first: Vec<u8>,
  second: Vec<u8>,
  arrays: (Vec<u8>, Vec<u8>),
  objects: (Vec<(u8, u8)>, Vec<(u8, u8)>),
}
fn plain(b: u8) -> ConfigValue {
  match b % 4 {
    0 => ConfigValue::Null,
    1 => ConfigValue::Bool(b & 4 == 4),
    2 => ConfigValue::String(format!("s{}", b)),
    _ => ConfigValue::Number(ConfigNumberValue::from(b)),
  }
}
fn chain(v: &[u8]) -> ConfigValue {
  let mut cv = plain(v[0]);
  for x in &v[1..] {
    cv.push(plain(*x));
  }
  cv
}
fn plains(v: &[u8]) -> Vec<ConfigValue> {
  v.iter().map(|b| plain(*b)).collect()
}
fn history(h: &History) -> CheckResult {
  let check = |cv: &ConfigValue, want: &[ConfigValue], what: &str| -> Result<(), String> {
    ensure_eq!(cv.to_vec(), want.to_vec(), "{}: history of {:?}", what, h);
    ensure_eq!(cv.latest(), want.last().unwrap(), "{}: latest of {:?}", what, h);
    if want.len() > 1 {
      ensure_eq!(cv.prev_latest(), &want[want.len() - 2], "{}: value before the latest of {:?}", what, h);
    }
    Ok(())
  };
  let (a, b) = (chain(&h.first), chain(&h.second));
  check(&a, &plains(&h.first), "push")?;
  let both: Vec<ConfigValue> = plains(&h.first).into_iter().chain(plains(&h.second)).collect();
  let mut m = a.clone();
  m.merge_with(b.clone());
  check(&m, &both, "merge_with")?;
  if h.second.len() > 1 {
    let mut c = a.clone();
    c.combine(&b);
    check(&c, &both, "combine")?;
    ensure_eq!(b.to_vec(), plains(&h.second), "combine changes its argument");
  }
  let (x, y) = (ConfigArrayValue::new(plains(&h.arrays.0)), ConfigArrayValue::new(plains(&h.arrays.1)));
  let joined: Vec<ConfigValue> = plains(&h.arrays.0).into_iter().chain(plains(&h.arrays.1)).collect();
  let mut j = x.clone();
  j.combine(&y);
  ensure_eq!(j.as_array(), &joined, "combine of arrays");
  let mut j = x.clone();
  j.merge_with(y);
  ensure_eq!(j.as_array(), &joined, "merge_with of arrays");
  let map = |l: &[(u8, u8)]| l.iter().map(|(k, v)| (format!("k{}", k % 5), plain(*v))).collect::<HashMap<_, _>>();
  let (l, r) = (map(&h.objects.0), map(&h.objects.1));
  let mut o = ConfigObjectValue::from(l.clone());
  o.merge_with(ConfigObjectValue::new(r.clone()));
  for i in 0..5 {
    let k = format!("k{}", i);
    let want: Vec<ConfigValue> = l.get(&k).into_iter().chain(r.get(&k)).cloned().collect();
    ensure_eq!(o.has_path(&k), !want.is_empty(), "key {} of merged objects", k);
    if let Some(cv) = o.as_map().get(&k) {
      check(cv, &want, "merge_with of objects")?;
    }
    let cv = ConfigValue::Object(o.clone());
    ensure_eq!(cv.get_value(&k), want.last(), "get_value({}) of merged objects", k);
    ensure_eq!(cv.contains(&k), !want.is_empty(), "contains({}) of merged objects", k);
  }
  Ok(Obs::new(both.len() > 3).label_if(l.keys().any(|k| r.contains_key(k)), "common keys"))
}

// ------------------------------------------------------------------------------------------------ C43
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RefDoc {
  doc: Doc,
}
fn has_ref(v: &Val) -> bool {
  match v {
    Val::Ref(..) => true,
    Val::Arr(a) => a.iter().any(has_ref),
    Val::Obj(es) => es.iter().any(|e| has_ref(&e.val)),
    _ => false,
  }
}
const ENVS: [(&str, &str); 4] = [("VP_ENV_A", "from env"), ("VP_ENV_B", ""), ("k0", "env k0"), ("k3", "12")];
/// Entries under k<i> refer to k<j>, j < i, or by a whole value to themselves.
fn referring() -> BoxedStrategy<Doc> {
  let inner = || proptest::sample::select(vec!["a", "b", "c"]).prop_map(String::from);
  let target = move |i: usize| {
    let name = if i == 0 {
      proptest::sample::select(vec!["VP_ENV_A", "VP_ENV_B", "VP_NONE", "none"]).prop_map(String::from).boxed()
    } else {
      prop_oneof![
        12 => (0..i).prop_map(|j| format!("k{}", j)),
        1 => proptest::sample::select(vec!["VP_ENV_A", "VP_ENV_B", "VP_NONE", "none"]).prop_map(String::from)
      ]
      .boxed()
    };
    (name, vec(inner(), 0..=3), proptest::bool::weighted(0.7))
      .prop_map(|(n, mut p, opt)| {
        p.insert(0, n);
        Val::Ref(p, opt)
      })
      .boxed()
  };
  let leaf = move |i: usize| prop_oneof![3 => scalar(), 3 => target(i)].boxed();
  let entry = move |i: usize| {
    let own = (proptest::bool::weighted(0.6)).prop_map(move |opt| Val::Ref(vec![format!("k{}", i)], opt));
    let value = prop_oneof![
      3 => leaf(i),
      1 => own,
      5 => entries(true, false, 2, 4, leaf(i)).prop_map(Val::Obj),
      2 => vec(prop_oneof![3 => leaf(i), 1 => entries(true, false, 1, 3, leaf(i)).prop_map(Val::Obj)], 0..4).prop_map(Val::Arr),
    ];
    prop_oneof![
      3 => value.prop_map(move |val| Entry { path: vec![format!("k{}", i)], val }),
      2 => (vec(inner(), 1..=3), prop_oneof![3 => leaf(i), 1 => entries(true, false, 1, 3, leaf(i)).prop_map(Val::Obj)]).prop_map(move |(mut path, val)| {
        path.insert(0, format!("k{}", i));
        Entry { path, val }
      }),
    ]
  };
  (vec((0usize..5).prop_flat_map(entry), 0..12), layout())
    .prop_map(|(es, layout)| Doc { es, layout })
    .boxed()
}
fn references(d: &Doc) -> CheckResult {
  let text = text(&d.es, &d.layout, true);
  let want = Meaning::of(&d.es, &env);
  match (load(&text)?, &want) {
    (Out::Ok(c), Ok(r)) => same_document(&c, r, &text)?,
    (Out::Ok(c), Err(Unresolved(p))) => return Err(format!("{:?}: reference to {} leads to nothing, but the result is {:?}", text, p, c)),
    (Out::Err(e), Ok(_)) => return Err(format!("{:?} is rejected: {:.300}", text, e)),
    (Out::Unresolved, Ok(r)) => return Err(format!("{:?} is not resolved, expected {:?}", text, r)),
    (_, Err(_)) => (),
  }
  let refs = d.es.iter().filter(|e| has_ref(&e.val)).count();
  Ok(
    Obs::new(refs >= 2 && want.is_ok())
      .label_if(want.is_err(), "required reference to nothing")
      .label_if(text.contains("VP_ENV_A"), "environment")
      .label_if(d.es.iter().any(|e| matches!(&e.val, Val::Ref(p, _) if *p == e.path)), "reference to itself"),
  )
}
/// Cycles: some outcome, never a crash.
fn cycles() -> BoxedStrategy<Doc> {
  let name = || proptest::sample::select(vec!["a", "b", "c"]).prop_map(String::from);
  let r = move || (vec(name(), 1..=3), any::<bool>()).prop_map(|(p, o)| Val::Ref(p, o));
  let leaf = prop_oneof![3 => r(), 1 => scalar()].boxed();
  (entries(true, false, 2, 4, leaf), layout()).prop_map(|(es, layout)| Doc { es, layout }).boxed()
}
fn ends(d: &Doc) -> CheckResult {
  let text = text(&d.es, &d.layout, true);
  let out = load(&text)?;
  Ok(
    Obs::new(d.es.iter().filter(|e| has_ref(&e.val)).count() >= 2)
      .label(match out {
        Out::Ok(_) => "resolved",
        Out::Err(_) => "rejected",
        Out::Unresolved => "unresolved",
      }),
  )
}

// ------------------------------------------------------------------------------------------------ C44
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Dec {
  neg: bool,
  hi: u32,
  mid: u32,
  lo: u32,
  scale: u32,
}
fn dec() -> BoxedStrategy<Dec> {
  let part = || prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX), 2 => any::<u32>(), 1 => 0u32..1000];
  let wide = (any::<bool>(), part(), part(), any::<u32>(), prop_oneof![2 => Just(0u32), 2 => 0u32..6, 1 => 0u32..=28])
    .prop_map(|(neg, hi, mid, lo, scale)| Dec { neg, hi, mid, lo, scale });
  // Around the ends of the integer types.
  let edge = (any::<bool>(), proptest::sample::select(vec![7u32, 8, 15, 16, 31, 32, 63, 64, 95]), -2i128..=2, 0u32..4).prop_map(|(neg, b, off, z)| {
    let m = ((1i128 << b) + off).max(0) as u128;
    // The same number with trailing zeros after the point.
    let (m, scale) = if m * 10u128.pow(z) < 1 << 96 { (m * 10u128.pow(z), z) } else { (m, 0) };
    Dec { neg, hi: (m >> 64) as u32, mid: (m >> 32) as u32, lo: m as u32, scale }
  });
  prop_oneof![wide, edge].boxed()
}
impl Dec {
  fn decimal(&self) -> Decimal {
    Decimal::from_parts(self.lo, self.mid, self.hi, self.neg, self.scale)
  }
}
macro_rules! to_int {
  ($v:expr, $d:expr, $whole:expr, $exact:expr; $($t:ident $f:ident),*) => {{
    $(
      let want = $t::try_from($whole).ok();
      let got = $v.$f();
      if $exact || want.is_none() {
        ensure_eq!(got, want, "{} of {}", stringify!($f), $d);
      } else {
        ensure!(got.is_none() || got == want, "{} of {} is {:?}", stringify!($f), $d, got);
      }
    )*
  }};
}
fn number(d: &Dec) -> CheckResult {
  let dec = d.decimal();
  let v = ConfigNumberValue::new(dec);
  ensure_eq!(v.as_decimal(), &dec, "as_decimal");
  let (m, e) = decimal(&dec);
  let exact = e >= 0;
  let whole: i128 = dec.trunc().mantissa();
  to_int!(v, dec, whole, exact; i8 to_i8, u8 to_u8, i16 to_i16, u16 to_u16, i32 to_i32, u32 to_u32, i64 to_i64, u64 to_u64, i128 to_i128, u128 to_u128);
  let f: f64 = format!("{}e{}", m, e).parse().unwrap();
  let close = |x: f64, eps: f64| (x - f).abs() <= f.abs() * eps;
  match v.to_f64() {
    Some(x) => ensure!(close(x, 1e-12), "to_f64 of {} is {}", dec, x),
    None => return Err(format!("to_f64 of {} is nothing", dec)),
  }
  match v.to_f32() {
    Some(x) => ensure!(close(x as f64, 1e-6), "to_f32 of {} is {}", dec, x),
    None => return Err(format!("to_f32 of {} is nothing", dec)),
  }
  ensure_eq!(v.to_string().parse::<Decimal>().ok(), Some(dec), "what {} is shown as", dec);
  ensure_eq!(ConfigNumberValue::from(dec), v, "From<Decimal> of {}", dec);
  ensure_eq!(decimal(ConfigNumberValue::from(dec.to_string()).as_decimal()), (m, e), "From<String> of {}", dec);
  Ok(Obs::new(m.abs() > 255).label_if(!exact, "fraction").label_if(d.hi > 0, "over 64 bits"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ints {
  a: i64,
  b: u64,
  shift: u8,
  f: f64,
}
macro_rules! from_int {
  ($x:expr; $($t:ident $f:ident),*) => {{
    $(
      let x = $x as $t;
      let v = ConfigNumberValue::from(x);
      ensure_eq!(decimal(v.as_decimal()), norm(x as i128, 0), "From<{}> of {}", stringify!($t), x);
      ensure_eq!(v.$f(), Some(x), "From<{}> of {} and back", stringify!($t), x);
    )*
  }};
}
fn integers(i: &Ints) -> CheckResult {
  from_int!(i.a >> (i.shift % 64); i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, i128 to_i128);
  from_int!(i.b >> (i.shift % 64); u8 to_u8, u16 to_u16, u32 to_u32, u64 to_u64, u128 to_u128, i128 to_i128);
  let wide = (i.a as i128) << (i.shift % 32);
  ensure_eq!(ConfigNumberValue::from(wide).to_i128(), Some(wide), "From<i128>");
  let u = i.b as usize;
  ensure_eq!(ConfigNumberValue::from(u).to_u64(), Some(u as u64), "From<usize>");
  let x = ConfigNumberValue::from(i.f).to_f64();
  ensure!(x.map_or(false, |x| (x - i.f).abs() <= i.f.abs() * 1e-12), "From<f64> of {} and back is {:?}", i.f, x);
  let g = i.f as f32;
  let x = ConfigNumberValue::from(g).to_f32();
  ensure!(x.map_or(false, |x| (x - g).abs() <= g.abs() * 1e-6), "From<f32> of {} and back is {:?}", g, x);
  Ok(Obs::new(i.a.abs() > 1000 && i.b > 1000))
}
fn unit(u: u8) -> TimeUnit {
  match u % 7 {
    0 => TimeUnit::Nanoseconds,
    1 => TimeUnit::Microseconds,
    2 => TimeUnit::Milliseconds,
    3 => TimeUnit::Seconds,
    4 => TimeUnit::Minutes,
    5 => TimeUnit::Hours,
    _ => TimeUnit::Days,
  }
}
fn duration(c: &(Dec, u8)) -> CheckResult {
  let d = ConfigDurationValue::new(ConfigNumberValue::new(c.0.decimal()), unit(c.1));
  same_duration(&d, decimal(&c.0.decimal()), c.1, "duration")?;
  let cv = ConfigValue::Duration(d.clone());
  ensure_eq!(cv.as_duration(), d.to_duration().ok(), "as_duration of {}", d);
  ensure_eq!(cv.as_std_duration(), d.to_std_duration().ok(), "as_std_duration of {}", d);
  Ok(
    Obs::new(c.0.lo > 0)
      .label_if(d.to_duration().is_err(), "out of range")
      .label_if(d.to_std_duration().is_err(), "out of range of std"),
  )
}
fn around() -> BoxedStrategy<(Dec, u8)> {
  // Near the largest values the duration types hold.
  let ends: Vec<i128> = vec![
    chrono_nanos(&chrono::Duration::max_value()),
    -chrono_nanos(&chrono::Duration::min_value()),
    u64::MAX as i128 * 1_000_000_000,
    i64::MAX as i128,
  ];
  (proptest::sample::select(ends), -3i128..=3, 0u8..7, any::<bool>(), 0u32..4)
    .prop_map(|(end, off, u, neg, scale)| {
      let m = ((end / UNITS[u as usize].1 + off).max(0) as u128) * 10u128.pow(scale);
      let (m, scale) = if m < 1 << 96 { (m, scale) } else { ((1 << 96) - 1, scale) };
      (Dec { neg, hi: (m >> 64) as u32, mid: (m >> 32) as u32, lo: m as u32, scale }, u)
    })
    .boxed()
}
fn from_duration(c: &(u64, u32, bool)) -> CheckResult {
  let std = std::time::Duration::new(c.0, c.1 % 1_000_000_000);
  let back = no_panic(|| ConfigDurationValue::from(std).to_std_duration().ok())?;
  ensure_eq!(back, Some(std), "From<std Duration> and back");
  let secs = (c.0 >> 1) as i64 / if c.2 { -1000 } else { 1000 };
  if let Some(d) = chrono::Duration::new(secs, c.1 % 1_000_000_000) {
    let back = no_panic(|| ConfigDurationValue::from(d).to_duration().ok())?;
    ensure_eq!(back, Some(d), "From<chrono Duration> and back");
    if d >= chrono::Duration::zero() {
      ensure_eq!(ConfigDurationValue::from(d).to_std_duration().ok(), d.to_std().ok(), "from chrono to std");
    }
  }
  Ok(Obs::new(c.0 > 1000 && c.1 > 1000))
}

// ------------------------------------------------------------------------------------------------ many and long
fn count() -> BoxedStrategy<usize> {
  prop_oneof![
    3 => 10usize..100,
    2 => proptest::sample::select(vec![15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
    1 => 100usize..300,
    1 => vcommon::mined_size(300).prop_map(|n| n.max(2)),
  ]
  .boxed()
}
#[derive(Clone, Copy, PartialEq)]
enum Many {
  /// Long texts, arrays of many elements.
  Values,
  /// Many keys, deep nesting, long paths.
  Places,
  /// One place written many times.
  Again,
  /// Many values that refer to others.
  Refs,
  Any,
}
/// Objects and arrays in very many objects and arrays.
fn deep() -> BoxedStrategy<Doc> {
  let n = prop_oneof![3 => 30usize..140, 2 => proptest::sample::select(vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257])];
  (n, vec((0u8..7, scalar()), 1..6), scalar(), layout())
    .prop_map(|(n, steps, mut x, layout)| {
      for i in 0..n {
        let (how, v) = steps[i % steps.len()].clone();
        x = match how {
          0 => Val::Arr(vec![x]),
          1 => Val::Arr(vec![v, x]),
          2 => Val::Arr(vec![x, v]),
          3 => Val::Obj(vec![at(&["d"], x)]),
          4 => Val::Obj(vec![at(&["e"], v), at(&["d"], x)]),
          5 => Val::Obj(vec![at(&["d"], x), at(&["e"], v)]),
          _ => Val::Obj(vec![at(&["d", "e"], x)]),
        };
      }
      Doc { es: vec![at(&["deep"], x)], layout }
    })
    .boxed()
}
/// One long path written again and again, up to some of its keys each time.
fn deep_again() -> BoxedStrategy<Doc> {
  let n = prop_oneof![6 => 3usize..24, 2 => 24usize..60, 1 => proptest::sample::select(vec![63usize, 64, 65])];
  (n, vec((any::<u16>(), 0u8..4, scalar()), 2..7), layout())
    .prop_map(|(n, writes, layout)| {
      let path: Vec<String> = (0..n).map(|i| format!("k{}", i % 5)).collect();
      let es = writes
        .into_iter()
        .enumerate()
        .map(|(i, (upto, how, v))| {
          // Mostly all the way down, so that there is something to merge.
          let m = if upto % 3 == 0 { 1 + upto as usize / 3 % n } else { n - upto as usize / 3 % n.min(3) };
          let v = if how == 3 { v } else { Val::Obj(vec![Entry { path: vec![format!("own{}", i % 3)], val: v }]) };
          let split = if how == 1 { m } else { 1 + upto as usize % m };
          let inner = path[split..m].iter().rev().fold(v, |x, k| Val::Obj(vec![Entry { path: vec![k.clone()], val: x }]));
          Entry { path: path[..split].to_vec(), val: inner }
        })
        .collect();
      Doc { es, layout }
    })
    .boxed()
}
/// Long chains of references, references to what is deep, and through objects that are themselves references.
fn deep_refs() -> BoxedStrategy<Doc> {
  let n = prop_oneof![6 => 3usize..24, 2 => 24usize..60, 1 => proptest::sample::select(vec![63usize, 64, 65, 99, 100, 101])];
  (n, 0u8..4, scalar(), (any::<u8>(), layout()))
    .prop_map(|(n, how, v, (mask, layout))| {
      let k = |i: usize| format!("k{}", i);
      let optional = mask & 1 == 1;
      let obj = |v: Val| Val::Obj(vec![at(&["in"], v)]);
      let mut es: Vec<Entry> = match how {
        // each key is the one before
        0 => (0..n).map(|i| Entry { path: vec![k(i)], val: if i == 0 { v.clone() } else { Val::Ref(vec![k(i - 1)], optional) } }).collect(),
        // each object is the one before, the value is in the first
        1 => (0..n)
          .map(|i| Entry { path: vec![k(i)], val: if i == 0 { obj(v.clone()) } else { Val::Ref(vec![k(i - 1)], optional) } })
          .chain([Entry { path: vec!["last".into()], val: Val::Ref(vec![k(n - 1), "in".into()], optional) }])
          .collect(),
        // what is deep
        2 => {
          let path: Vec<String> = (0..n).map(|i| k(i % 5)).collect();
          vec![
            Entry { path: vec!["last".into()], val: Val::Ref([vec!["d".into()], path.clone()].concat(), optional) },
            Entry { path: vec!["d".into()], val: path.iter().rev().fold(v.clone(), |x, k| Val::Obj(vec![Entry { path: vec![k.clone()], val: x }])) },
          ]
        }
        // each value before an own one
        _ => (0..n).map(|_| Entry { path: vec!["a".into()], val: Val::Obj(vec![at(&["in"], v.clone())]) })
          .chain([at(&["b"], Val::Ref(vec!["a".into(), "in".into()], optional)), at(&["a"], Val::Ref(vec!["c".into()], optional)), at(&["c"], obj(v.clone()))])
          .collect(),
      };
      if mask & 2 == 2 && how < 3 {
        es.reverse();
      }
      Doc { es, layout }
    })
    .boxed()
}
fn at(path: &[&str], val: Val) -> Entry {
  Entry { path: path.iter().map(|s| s.to_string()).collect(), val }
}
fn long(what: Many) -> BoxedStrategy<Doc> {
  let kinds: Vec<u8> = match what {
    Many::Values => vec![0, 1, 2],
    Many::Places => vec![3, 4, 5, 6],
    Many::Again => vec![7, 8],
    Many::Refs => vec![9, 10],
    Many::Any => (0..9).collect(),
  };
  let some = || prop_oneof![3 => vec(scalar(), 1..4), 1 => entries(false, false, 1, 2, scalar()).prop_map(|es| vec![Val::Obj(es)])];
  (proptest::sample::select(kinds), count(), some(), string(), entries(false, true, 1, 3, scalar()), (any::<u8>(), layout()))
    .prop_map(move |(kind, n, vals, (s, q, form), rest, (mask, layout))| {
      let v = |i: usize| vals[i % vals.len()].clone();
      let k = |i: usize| format!("k{}", i);
      let mut es = match kind {
        0 => {
          // A long string, in every quoting.
          let s = if q == Quote::Bare { s.replace(' ', "-").repeat(n) } else { s.repeat(n) };
          vec![at(&["long"], Val::Str(s.clone(), q.clone(), form)), at(&["o", "long"], Val::Arr(vec![Val::Str(s, q, form), v(0)]))]
        }
        1 => vec![at(&["arr"], Val::Arr((0..n).map(v).collect()))],
        2 => {
          // A number of many digits, blanks before a unit.
          let num = Num { neg: mask & 1 == 1, int: n as u64, frac: "0".repeat(n % 20) + "7", exp: None };
          vec![at(&["num"], Val::Num(num.clone())), at(&["dur"], Val::Dur(num, mask % 7, form, " ".repeat(n)))]
        }
        3 => (0..n).map(|i| Entry { path: vec![k(i)], val: v(i) }).collect(),
        4 => {
          // Deep: objects, arrays or both.
          let mut x = v(0);
          for i in 0..n.min(40) {
            x = match mask >> (i % 4) & 1 {
              0 => Val::Obj(vec![at(&["d"], x), at(&["e"], v(i))]),
              _ => Val::Arr(vec![x]),
            };
          }
          vec![at(&["deep"], x)]
        }
        5 => vec![Entry { path: (0..if n % 8 == 0 { n.min(100) } else { n % 25 + 4 }).map(|i| k(i % 7)).collect(), val: v(0) }],
        6 => vec![Entry { path: vec!["x".repeat(n), "y".repeat(n)], val: v(0) }, Entry { path: vec!["z".repeat(n)], val: v(1) }],
        7 => (0..n).map(|i| Entry { path: vec!["a".into()], val: v(i) }).collect(),
        8 => (0..n)
          .map(|i| match i % 3 {
            0 => Entry { path: vec!["a".into(), k(i % 16)], val: v(i) },
            1 => at(&["a"], Val::Obj(vec![Entry { path: vec![k(i % 11)], val: v(i + 1) }])),
            _ => Entry { path: vec!["a".into(), k(i % 5), "in".into()], val: v(i) },
          })
          .collect(),
        9 => {
          // A chain, each referring to the one before; told forwards or backwards.
          let mut es: Vec<Entry> = (0..n.min(60))
            .map(|i| Entry { path: vec![k(i)], val: if i == 0 { v(0) } else { Val::Ref(vec![k(i - 1)], mask & 1 == 1) } })
            .collect();
          if mask & 2 == 2 {
            es.reverse();
          }
          es
        }
        _ => {
          // Many that refer to few.
          let mut es: Vec<Entry> = (0..3).map(|i| Entry { path: vec!["base".into(), k(i)], val: v(i) }).collect();
          es.extend((0..n.min(120)).map(|i| Entry {
            path: if mask & 1 == 1 { vec![k(i)] } else { vec!["o".into(), k(i)] },
            val: if mask & 2 == 2 { Val::Arr(vec![Val::Ref(vec!["base".into(), k(i % 4)], true), v(i)]) } else { Val::Ref(vec!["base".into(), k(i % 3)], false) },
          }));
          if mask & 4 == 4 {
            es.rotate_left(3);
          }
          es
        }
      };
      if what != Many::Refs {
        let own = es.iter().map(|e| e.path[0].clone()).collect::<Vec<_>>();
        let mut rest: Vec<Entry> = rest.into_iter().filter(|e| !own.contains(&e.path[0])).collect();
        let half = rest.split_off(rest.len() / 2);
        rest.append(&mut es);
        rest.extend(half);
        es = rest;
        if what != Many::Again && kind < 7 {
          without_duplicates(&mut es);
        }
      }
      Doc { es, layout }
    })
    .boxed()
}

// ------------------------------------------------------------------------------------------------ C45
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Twice {
  es: Vec<Entry>,
  one: Vec<u8>,
  two: Vec<u8>,
  rewrite: Vec<u8>,
}
/// The same document in other words: dotted keys as objects, strings quoted otherwise.
fn reword(es: &[Entry], choices: &[u8], at: &mut usize) -> Vec<Entry> {
  let mut pick = |at: &mut usize| {
    let c = if choices.is_empty() { 0 } else { choices[*at % choices.len()] };
    *at += 1;
    c
  };
  fn val(v: &Val, choices: &[u8], at: &mut usize, c: u8) -> Val {
    match v {
      Val::Str(s, _, _) if c & 1 == 1 => Val::Str(s.clone(), if c & 2 == 2 { Quote::Single } else { Quote::Double }, c >> 2),
      Val::Arr(a) => Val::Arr(a.iter().map(|x| val(x, choices, at, c.rotate_left(1))).collect()),
      Val::Obj(es) => Val::Obj(reword(es, choices, at)),
      v => v.clone(),
    }
  }
  let mut out = vec![];
  for e in es {
    let c = pick(at);
    let mut e = Entry { path: e.path.clone(), val: val(&e.val, choices, at, c) };
    let c = pick(at);
    if e.path.len() > 1 && c & 1 == 1 {
      let rest = e.path.split_off(1 + (c as usize >> 1) % (e.path.len() - 1));
      e.val = Val::Obj(vec![Entry { path: rest, val: e.val }]);
    } else if let Val::Obj(inner) = &e.val {
      // An object of one entry as a dotted key.
      if inner.len() == 1 && c & 1 == 1 && e.path.iter().chain(&inner[0].path).all(|k| bare(k)) {
        let i = inner[0].clone();
        e.path.extend(i.path);
        e.val = i.val;
      }
    }
    out.push(e);
  }
  out
}
fn layouts(t: &Twice) -> CheckResult {
  let other = reword(&t.es, &t.rewrite, &mut 0);
  let (a, b) = (text(&t.es, &t.one, false), text(&other, &t.two, true));
  let (x, y) = (load(&a)?, load(&b)?);
  match (x, y) {
    (Out::Ok(x), Out::Ok(y)) => ensure!(
      x.to_config_value() == y.to_config_value(),
      "{:?} and {:?} are the same document, but\n  {:?}\n  {:?}",
      a,
      b,
      x.to_config_value(),
      y.to_config_value()
    ),
    (Out::Unresolved, Out::Unresolved) => (),
    (x, y) => {
      let s = |o: &Out| match o {
        Out::Ok(c) => format!("{:?}", c),
        Out::Err(e) => e.clone(),
        Out::Unresolved => "unresolved".into(),
      };
      return Err(format!("{:?} gives {:.300}\n but {:?} gives {:.300}", a, s(&x), b, s(&y)));
    }
  }
  Ok(Obs::new(size(&t.es) >= 3 && a != b).label_if(other != t.es, "reworded"))
}

// ------------------------------------------------------------------------------------------------ C46
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Damage {
  es: Vec<Entry>,
  layout: Vec<u8>,
  at: u16,
  how: u8,
}
fn tame() -> BoxedStrategy<Val> {
  prop_oneof![
    2 => ("[a-z ,=:{}\\[\\]$.0-9]{0,6}", Just(Quote::Double)).prop_map(|(s, q)| Val::Str(s, q, 0)),
    1 => scalar().prop_filter("tame", |v| !matches!(v, Val::Str(..))),
    1 => "[a-z]{2,5}".prop_filter("keyword", |s| s != "null" && s != "true").prop_map(|s| Val::Str(format!("x{}", s), Quote::Bare, 0)),
    1 => (vec(key(true), 1..=2), Just(true)).prop_map(|(p, o)| Val::Ref(p, o)),
  ]
  .boxed()
}
fn unbalanced(d: &Damage) -> CheckResult {
  let mut l = Layout::new(&d.layout, false);
  l.document(&d.es);
  let (mut t, marks) = (l.out, l.marks);
  if marks.is_empty() {
    return Ok(Obs::discard("no brackets or quotes"));
  }
  let p = marks[d.at as usize % marks.len()];
  let before = t.clone();
  if d.how % 3 == 0 {
    let m = ["[", "]", "{", "}", "\""][d.how as usize / 3 % 5];
    // A bracket in a string is no bracket.
    let quotes = t[..p].matches('"').count();
    if quotes % 2 == 1 {
      return Ok(Obs::discard("inside a string"));
    }
    t.insert_str(p, m);
  } else {
    t.replace_range(p..p + if t[p..].starts_with("${") { 2 } else { 1 }, "");
  }
  match load(&t)? {
    Out::Err(_) => (),
    Out::Ok(c) => return Err(format!("{:?} (from {:?}) is accepted as {:?}", t, before, c)),
    Out::Unresolved => return Err(format!("{:?} (from {:?}) is accepted and then not resolved", t, before)),
  }
  Ok(Obs::new(size(&d.es) >= 2).label_if(before[p..].starts_with('"'), "at a quote").label_if(d.how % 3 == 0, "inserted"))
}
/// A separator too many or missing, or where a value or a key has to be.
fn separators(d: &Damage) -> CheckResult {
  let mut l = Layout::new(&d.layout, false);
  l.document(&d.es);
  let (mut t, marks, seps) = (l.out, l.marks, l.seps);
  let before = t.clone();
  let opening: Vec<usize> = marks.into_iter().filter(|p| t[*p..].starts_with(['[', '{'])).map(|p| p + 1).collect();
  let n = seps.len() + opening.len();
  if n == 0 {
    return Ok(Obs::discard("no separators or brackets"));
  }
  let at = d.at as usize % n;
  let how = d.how as usize;
  let comma = [",", ", ", " ,", "\n,", ",\n"][how % 5];
  let what = if at >= seps.len() {
    // Before the first element or property.
    let p = opening[at - seps.len()];
    let sign = t[..p].ends_with('{') && how % 3 == 0;
    t.insert_str(p, if sign { ["=", " :"][how % 2] } else { comma });
    "first"
  } else {
    let p = seps[at];
    if t[p..].starts_with(',') {
      t.insert_str(p + 1, comma);
      "comma"
    } else if how % 2 == 0 && !t[p + 1..].trim_start_matches([' ', '\t']).starts_with(['{', '[']) {
      t.replace_range(p..p + 1, " ");
      "no sign"
    } else {
      t.insert_str(p + 1, [",", " ,"][how % 2]);
      "no value"
    }
  };
  match load(&t)? {
    Out::Err(_) => (),
    Out::Ok(c) => return Err(format!("{:?} (from {:?}) is accepted as {:?}", t, before, c)),
    Out::Unresolved => return Err(format!("{:?} (from {:?}) is accepted and then not resolved", t, before)),
  }
  Ok(Obs::new(size(&d.es) >= 2).label(what))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mutated {
  es: Vec<Entry>,
  layout: Vec<u8>,
  edits: Vec<(u16, u8, String)>,
}
fn mutated() -> BoxedStrategy<Mutated> {
  let tok = proptest::sample::select(
    "[ ] { } ( ) = : , . \" ' # // ${ ${? } \\ \\u \\u12 \\ud83d \\\" \n \r\n a b a.b null tru true 1 - 0 1e5 1e-9 9e99999999 .5 5. 00 99999999999999999999999999999999999999 1s 1 ms \t é 漢 \u{0} include include\u{20}file(\"x\") += ?"
      .split(' ')
      .collect::<Vec<_>>(),
  );
  (
    entries(true, true, 2, 4, prop_oneof![3 => scalar(), 1 => vec(key(true), 1..=2).prop_map(|p| Val::Ref(p, true))].boxed()),
    layout(),
    vec((any::<u16>(), 0u8..6, tok.prop_map(String::from)), 1..5),
  )
    .prop_map(|(es, layout, edits)| Mutated { es, layout, edits })
    .boxed()
}
fn robust(m: &Mutated) -> CheckResult {
  let mut t: Vec<char> = text(&m.es, &m.layout, true).chars().collect();
  for (at, how, tok) in &m.edits {
    let i = *at as usize % (t.len() + 1);
    match how {
      0 if i < t.len() => {
        t.remove(i);
      }
      1 if i < t.len() => {
        t.splice(i..i + 1, tok.chars());
      }
      2 => {
        let j = (i + 12).min(t.len());
        t.drain(i..j);
      }
      3 => t.truncate(i.max(1)),
      _ => {
        t.splice(i..i, tok.chars());
      }
    }
  }
  let t: String = t.into_iter().collect();
  let out = load(&t)?;
  Ok(Obs::new(t.len() > 5).label(match out {
    Out::Ok(_) => "accepted",
    Out::Err(_) => "rejected",
    Out::Unresolved => "unresolved",
  }))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bytes(Vec<u8>);
fn bytes_in_file(b: &Bytes) -> CheckResult {
  let dir = Scratch::new();
  let f = dir.file("x.conf");
  let missing = ConfigFactory::new().load_from_file(&f);
  ensure!(matches!(missing, Err(ConfigError::FileNotFoundError)), "loading a missing file gives {:?}", missing.map(|c| c.to_string()));
  std::fs::write(&f, &b.0).unwrap();
  let out = outcome(&format!("{:?}", b.0), || ConfigFactory::new().load_from_file(&f))?;
  match std::str::from_utf8(&b.0) {
    Err(_) => ensure!(matches!(out, Out::Err(_)), "a file of the bytes {:?} is accepted", b.0),
    Ok(t) => match (out, load(t)?) {
      (Out::Ok(a), Out::Ok(b)) => ensure!(a.to_config_value() == b.to_config_value(), "{:?} read from a file is {:?}, from a text {:?}", t, a, b),
      (Out::Err(_), Out::Err(_)) | (Out::Unresolved, Out::Unresolved) => (),
      _ => return Err(format!("{:?} read from a file and from a text differ", t)),
    },
  }
  Ok(Obs::new(b.0.len() > 3).label_if(std::str::from_utf8(&b.0).is_err(), "not UTF-8"))
}

// ------------------------------------------------------------------------------------------------ C47
struct Scratch(std::path::PathBuf);
impl Scratch {
  fn new() -> Self {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let d = std::env::temp_dir().join(format!("vp-hocon-{}-{}", std::process::id(), n));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
  }
  fn file(&self, name: &str) -> String {
    self.0.join(name).to_str().unwrap().to_string()
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
  Entry(Entry),
  /// Index of the file; past the end there is no such file.
  Include(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Files {
  /// A file includes only later ones.
  files: Vec<Vec<Item>>,
  layout: Vec<u8>,
  /// A file that also includes an earlier one, and which.
  cycle: Option<(u8, u8)>,
  /// A file that begins with lines that say nothing, and how many.
  #[serde(default)]
  padded: (u8, u16),
}
fn files() -> BoxedStrategy<Files> {
  let reference = (vec(proptest::sample::select(vec!["a", "b", "c"]).prop_map(String::from), 1..=2)).prop_map(|mut p| {
    p.insert(0, "base".to_string());
    Val::Ref(p, true)
  });
  let leaf = prop_oneof![4 => scalar(), 1 => reference].boxed();
  let items = vec(
    prop_oneof![
      2 => entries(true, false, 1, 3, leaf).prop_map(|es| es.into_iter().map(Item::Entry).collect::<Vec<_>>()),
      1 => (0u8..6).prop_map(|n| vec![Item::Include(n)]),
      1 => (proptest::sample::select(vec!["a", "b", "c"]), scalar()).prop_map(|(k, val)| vec![Item::Entry(Entry { path: vec!["base".into(), k.into()], val })]),
    ],
    0..4,
  )
  .prop_map(|v| v.concat());
  (vec(items, 1..5), layout(), proptest::option::weighted(0.2, any::<(u8, u8)>()))
    .prop_map(|(files, layout, cycle)| Files { files, layout, cycle, padded: (0, 0) })
    .boxed()
}
/// Long chains of files, and long files.
fn many_files() -> BoxedStrategy<Files> {
  let cycle = proptest::option::weighted(0.1, any::<(u8, u8)>());
  let how_many = prop_oneof![4 => 5usize..24, 1 => 24usize..70];
  let padded = (any::<u8>(), prop_oneof![2 => Just(0u16), 1 => 1u16..50, 1 => 1000u16..6000]);
  (how_many, vec((0u8..5, 0u8..5, scalar()), 4..20), layout(), cycle, padded)
    .prop_map(|(n, turns, layout, cycle, padded)| {
      let files = (0..n)
        .map(|i| {
          let (kind, key, val) = &turns[i % turns.len()];
          let own = Item::Entry(Entry { path: vec!["base".into(), format!("k{}", (i + *key as usize) % 9)], val: val.clone() });
          let whole = Item::Entry(Entry { path: vec![format!("f{}", i % 13)], val: val.clone() });
          match kind {
            0 => vec![own, Item::Include(0)],
            1 => vec![Item::Include(0), own],
            2 => vec![whole, Item::Include(0), own],
            3 => vec![Item::Include(0)],
            // There is no such file.
            _ => vec![own, Item::Include(0), Item::Include(250)],
          }
        })
        .collect();
      Files { files, layout, cycle, padded }
    })
    .boxed()
}
fn includes(f: &Files) -> CheckResult {
  let dir = Scratch::new();
  let n = f.files.len();
  // A name of any characters a path and the quotes allow.
  let name = |i: usize| dir.file(&if f.layout.len() % 2 == 0 { format!("f{}.conf", i) } else { format!("{} x'é_[#]{{=}}, {}.c", i, f.layout.len()) });
  let mut used = 0;
  let mut longest = 0;
  let mut cyclic = false;
  for (i, items) in f.files.iter().enumerate() {
    let mut lines: Vec<String> = vec![];
    for (k, item) in items.iter().enumerate() {
      let layout = if f.layout.is_empty() { vec![] } else { f.layout[(i + k) % f.layout.len()..].to_vec() };
      lines.push(match item {
        Item::Entry(e) => {
          let mut l = Layout::new(&layout, true);
          l.entries(std::slice::from_ref(e));
          // The separators are written here.
          l.out.trim_end_matches(',').to_string()
        }
        Item::Include(j) => {
          used += 1;
          format!("include file(\"{}\")", name(i + 1 + *j as usize))
        }
      });
    }
    if let Some((from, to)) = f.cycle {
      if from as usize % n == i {
        lines.push(format!("include file(\"{}\")", name(to as usize % (i + 1))));
      }
    }
    let sep = ["\n", "\n\n", " \n# include file(\"x\")\n", ",\n"][f.layout.first().map_or(0, |b| *b as usize % 4)];
    let mut body = lines.join(sep);
    if f.padded.1 > 0 && f.padded.0 as usize % n == i {
      // One long line, or many lines.
      let line = ["# of no account, k = v\n", "\n", "// {\"\r\n", "# x", " \t"][f.padded.0 as usize % 5];
      body = format!("{}\n{}", line.repeat(f.padded.1 as usize), body);
    }
    longest = longest.max(body.len());
    std::fs::write(name(i), body).unwrap();
  }
  // What the first file stands for, and whether the cycle is on the way.
  fn flat(f: &Files, i: usize, out: &mut Vec<Entry>, stack: &mut Vec<usize>, cyclic: &mut bool) {
    if stack.contains(&i) {
      *cyclic = true;
      return;
    }
    if i >= f.files.len() {
      return;
    }
    stack.push(i);
    for item in &f.files[i] {
      match item {
        Item::Entry(e) => out.push(e.clone()),
        Item::Include(j) => flat(f, i + 1 + *j as usize, out, stack, cyclic),
      }
    }
    if let Some((from, to)) = f.cycle {
      if from as usize % f.files.len() == i {
        flat(f, to as usize % (i + 1), out, stack, cyclic);
      }
    }
    stack.pop();
  }
  let mut es = vec![];
  flat(f, 0, &mut es, &mut vec![], &mut cyclic);
  let shown = || (0..n).map(|i| format!("{}: {:?}", i, std::fs::read_to_string(name(i)).unwrap().chars().take(200).collect::<String>())).collect::<Vec<_>>().join("; ");
  let out = outcome("", || ConfigFactory::new().load_from_file(&name(0))).map_err(|e| format!("{} with {}", e, shown()))?;
  match out {
    Out::Ok(_) if cyclic => return Err(format!("a file that includes itself is accepted: {}", shown())),
    Out::Err(_) if cyclic => (),
    Out::Ok(c) => {
      let r = Meaning::of(&es, &env).map_err(|u| format!("harness: {:?}", u))?;
      same_document(&c, &r, &shown())?;
    }
    Out::Err(e) => return Err(format!("rejected: {:.300} {}", e, shown())),
    Out::Unresolved => return Err(format!("unresolved: {}", shown())),
  }
  Ok(Obs::new(used > 0 && es.len() > 1).label_if(cyclic, "cycle").label_if(used > 1, "several includes").label_if(n > 20, "more than 20 files").label_if(longest > 65536, "more than 64 KB in a file"))
}

// ------------------------------------------------------------------------------------------------ C48
fn display(d: &Doc) -> CheckResult {
  let text = text(&d.es, &d.layout, true);
  let c = must(&text)?;
  let shown = c.to_string();
  ensure_eq!(shown, c.to_config_value().to_string(), "the configuration and its value are shown differently");
  let back = must(&shown).map_err(|e| format!("{}\n  shown for {:?}", e, text))?;
  let r = Meaning::of(&d.es, &env).map_err(|u| format!("harness: {:?}", u))?;
  same(back.to_config_value(), &r, "root").map_err(|e| format!("{}\n  {:?} is shown as {:?}", e, text, shown))?;
  ensure!(back.to_config_value() == c.to_config_value(), "{:?} is shown as {:?}, which reads as {:?}", text, shown, back);
  Ok(Obs::new(size(&d.es) >= 3).label_if(shown.contains('\\'), "escapes"))
}

// ------------------------------------------------------------------------------------------------ properties
fn property(id: &str) -> Option<Property> {
  let p = |rule, assumptions, facets| {
    Some(Property {
      id: IDS.iter().find(|i| **i == id)?,
      rule,
      assumptions,
      facets,
    })
  };
  let q = 7_000;
  let t = 250_000;
  match id {
    "C40" => p(
      "Scalars written in every place a value can stand (property, nested, dotted, array element, last) in generated layouts; \
       every accessor against the model. Non-trivial = three or more values.",
      vec!["numbers of at most 28 digits", "bare strings begin with a letter and hold letters, digits and - _ . / and inner blanks"],
      vec![facet("scalars", 2 * q, t, scalar_places(), check_doc), facet("long", q / 8, t / 40, long(Many::Values), check_doc).on_default_stack()],
    ),
    "C41" => p(
      "Documents of nested objects, arrays, dotted and quoted keys, no place written twice; every path, the ones beside and beyond. \
       Non-trivial = three or more values.",
      vec!["paths asked for are legal paths (others panic with 'Illegal path format')", "array elements are separated by commas"],
      vec![
        facet("unique", q, t, structured(false, true, true), check_doc),
        facet("few-keys", q, t / 2, structured(true, false, true), check_doc),
        facet("names", q, t / 2, renamed(structured(true, false, true)), check_doc),
        facet("long", q / 8, t / 40, long(Many::Places), check_doc).on_default_stack(),
        facet("deep", q / 150, t / 800, deep(), check_doc),
      ],
    ),
    "C42" => p(
      "Documents over few keys, so that most places are written several times, against a merging model; histories built by push, \
       merge_with and combine against a list. Non-trivial = some place is written twice / more than three values.",
      vec![],
      vec![
        facet("duplicates", 2 * q, t, structured(true, false, false), check_duplicates),
        facet("names", q, t / 2, renamed(structured(true, false, false)), check_duplicates),
        facet("long", q / 8, t / 40, long(Many::Again), check_duplicates).on_default_stack(),
        facet("deep", q / 50, t / 100, deep_again(), check_duplicates),
        facet(
          "history",
          2 * q,
          t,
          (vec(any::<u8>(), 1..6), vec(any::<u8>(), 1..6), (vec(any::<u8>(), 0..4), vec(any::<u8>(), 0..4)), (vec(any::<(u8, u8)>(), 0..5), vec(any::<(u8, u8)>(), 0..5)))
            .prop_map(|(first, second, arrays, objects)| History { first, second, arrays, objects }),
          history,
        ),
      ],
    ),
    "C43" => p(
      "Documents whose values refer to others (forward and backward, through references, to objects, to themselves, to the \
       environment, to nothing), against a model that substitutes; and documents of cycles, which must end. \
       Non-trivial = two or more references, all of which can be resolved.",
      vec![
        "a required reference to nothing panics or is an error (the test suite pins the panic)",
        "the outcome of cycles other than a value referring to itself is only required to end without another failure",
      ],
      vec![facet("references", 2 * q, t, referring(), references), facet("names", q, t / 2, renamed(referring()), references), facet("cycles", q, t / 2, cycles(), ends), facet("long", q / 8, t / 40, long(Many::Refs), references).on_default_stack(), facet("deep", q / 50, t / 100, deep_refs(), references)],
    ),
    "C44" => p(
      "Decimals of up to 96 bits and any scale, integers of every type, durations in every unit up to and past the ranges of both \
       duration types, against 128-bit integer arithmetic. Non-trivial = more than one byte / not zero.",
      vec!["fractions of a nanosecond may be rounded either way", "fractions convert to integers by truncation or not at all"],
      vec![
        facet("number", 60 * q, 100 * t, dec(), number),
        facet("integers", 30 * q, 100 * t, (any::<i64>(), any::<u64>(), any::<u8>(), prop_oneof![-1e9f64..1e9, -1e20f64..1e20, 1e-6f64..1.0]).prop_map(|(a, b, shift, f)| Ints { a, b, shift, f }), integers),
        facet("duration", 60 * q, 100 * t, (dec(), 0u8..7), duration),
        facet("range-ends", 30 * q, 100 * t, around(), duration),
        facet("from-duration", 30 * q, 100 * t, any::<(u64, u32, bool)>().prop_flat_map(|(a, b, c)| (0u32..64).prop_map(move |s| (a >> s, b, c))), from_duration),
      ],
    ),
    "C45" => p(
      "One document in two layouts (white space, line ends, comments, separators, = or : or nothing, root braces, quoting, \
       dotted or nested keys); the values must be equal. Non-trivial = the texts differ and hold three or more values.",
      vec![],
      vec![
        facet(
          "layouts",
          q,
          t,
          (entries(false, true, 3, 5, scalar()), layout(), layout(), layout()).prop_map(|(es, one, two, rewrite)| Twice { es, one, two, rewrite }),
          layouts,
        ),
        facet(
          "with-references",
          q,
          t,
          (referring(), layout(), vec(any::<u8>(), 1..20)).prop_map(|(d, two, rewrite)| Twice { es: d.es, one: d.layout, two, rewrite }),
          layouts,
        ),
        facet(
          "long",
          q / 8,
          t / 20,
          (long(Many::Any), layout(), vec(any::<u8>(), 1..20)).prop_map(|(d, two, rewrite)| Twice { es: d.es, one: d.layout, two, rewrite }),
          layouts,
        ).on_default_stack(),
      ],
    ),
    "C46" => p(
      "Documents with one bracket, brace or quote removed or added, or a separator too many, missing or misplaced; documents with random edits; files of random bytes and texts; \
       missing files. Non-trivial = two or more values / more than five characters / more than three bytes.",
      vec!["in the unbalanced documents strings hold no quotes, backslashes or comment characters"],
      vec![
        facet(
          "unbalanced",
          2 * q,
          t,
          (entries(true, false, 2, 4, tame()), layout(), any::<u16>(), 0u8..30).prop_map(|(es, layout, at, how)| Damage { es, layout, at, how }),
          unbalanced,
        ),
        facet(
          "separators",
          2 * q,
          t,
          (entries(true, false, 2, 4, tame()), layout(), any::<u16>(), 0u8..30).prop_map(|(es, layout, at, how)| Damage { es, layout, at, how }),
          separators,
        ),
        facet("mutated", 2 * q, t, mutated(), robust),
        facet(
          "files",
          q / 2,
          t / 4,
          prop_oneof![
            1 => vec(prop_oneof![3 => proptest::sample::select(b"a={}[]\"\n1 .#:,".to_vec()), 1 => any::<u8>()], 0..30),
            1 => structured(true, false, false).prop_map(|d| text(&d.es, &d.layout, true).into_bytes()),
            1 => (structured(true, false, false), any::<u16>(), any::<u8>()).prop_map(|(d, at, b)| {
              let mut v = text(&d.es, &d.layout, true).into_bytes();
              let i = at as usize % (v.len() + 1);
              v.insert(i, b);
              v
            }),
          ]
          .prop_flat_map(|v| {
            // What editors leave at the ends of files.
            let ends = || proptest::sample::select(vec!["", "", "", "", "", "\n", " ", "\r\n", "\u{feff}", "\u{1a}", "\0", "\u{a0}", "#"]);
            (ends(), Just(v), ends()).prop_map(|(a, v, b)| [a.as_bytes(), &v, b.as_bytes()].concat())
          })
          .prop_map(Bytes),
          bytes_in_file,
        ),
      ],
    ),
    "C47" => p(
      "Up to four files that include later ones, missing ones and, in a fifth of the cases, an earlier one, and chains of up to 70 \
       files, of up to 140 KB, against the model of the entries in order. Non-trivial = something is included and two or more entries count.",
      vec!["includes stand at the root, outside braces", "file names are absolute paths in a scratch directory"],
      vec![facet("includes", q, t / 2, files(), includes), facet("many", q / 8, t / 16, many_files(), includes).on_default_stack()],
    ),
    "C48" => p(
      "Documents, shown and read again; the value must be the same. Non-trivial = three or more values.",
      vec![],
      vec![
        facet("display", q, t, structured(false, true, false), display),
        facet("scalars", q, t, scalar_places(), display),
        facet("names", q / 2, t / 2, renamed(structured(true, false, false)), display),
        facet("long", q / 8, t / 40, long(Many::Any), display).on_default_stack(),
        facet("deep", q / 40, t / 200, deep(), display),
      ],
    ),
    _ => None,
  }
}
fn main() {
  for (k, v) in ENVS {
    std::env::set_var(k, v);
  }
  vcommon::run_main(property, IDS)
}
