//! Cron schedules: grammar, evaluation against a calendar written from the definition, iteration.
use chrono::{DateTime, FixedOffset, MappedLocalTime, NaiveDate, NaiveDateTime, Offset, TimeZone, Utc};
use intervals_rs::LimitValue;
use oni_comb_crond_rs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, facet, CheckResult, Obs, Property};

const IDS: &[&str] = &["C20", "C21", "C22", "C23"];

// ------------------------------------------------------------------------------------------------ the model
/// One item of a field.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum It {
  One(u8),
  Last,
  Range(u8, u8, Option<u8>),
}
/// One field.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum F {
  Star,
  Every(u8),
  Items(Vec<It>),
}
const LO: [u8; 5] = [0, 0, 1, 1, 1];
const HI: [u8; 5] = [59, 23, 31, 12, 7];
const NAMES: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];

fn holds(f: &F, now: u8, max: u8) -> bool {
  match f {
    F::Star => true,
    F::Every(n) => *n != 0 && now % n == 0,
    F::Items(v) => v.iter().any(|i| match i {
      It::One(n) => now == *n,
      It::Last => now == max,
      It::Range(a, b, s) => {
        *a <= now
          && now <= *b
          && match s {
            None => true,
            Some(0) => false,
            Some(s) => (now - a) % s == 0,
          }
      }
    }),
  }
}

/// Year, month, day, weekday (1 = Sunday), hour, minute and days of the month of a local instant.
struct Cal {
  month: u8,
  day: u8,
  dow: u8,
  hour: u8,
  minute: u8,
  last: u8,
}
fn leap(y: i64) -> bool {
  y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: u8) -> u8 {
  match m {
    2 => 28 + leap(y) as u8,
    4 | 6 | 9 | 11 => 30,
    _ => 31,
  }
}
fn days_before_year(y: i64) -> i64 {
  // days from 1970-01-01 to y-01-01
  let p = y - 1;
  p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719162
}
fn cal(local_secs: i64) -> Cal {
  let days = local_secs.div_euclid(86400);
  let sec = local_secs.rem_euclid(86400);
  let mut y = 1970 + days.div_euclid(366);
  while days_before_year(y + 1) <= days {
    y += 1;
  }
  while days_before_year(y) > days {
    y -= 1;
  }
  let mut rest = days - days_before_year(y);
  let mut m = 1;
  while rest >= month_len(y, m) as i64 {
    rest -= month_len(y, m) as i64;
    m += 1;
  }
  Cal {
    month: m,
    day: rest as u8 + 1,
    dow: ((days + 4).rem_euclid(7)) as u8 + 1, // 1970-01-01 was a Thursday
    hour: (sec / 3600) as u8,
    minute: (sec / 60 % 60) as u8,
    last: month_len(y, m),
  }
}
type Fields = [F; 5];
fn satisfied(fs: &Fields, local_secs: i64) -> bool {
  let c = cal(local_secs);
  holds(&fs[0], c.minute, 59)
    && holds(&fs[1], c.hour, 23)
    && holds(&fs[2], c.day, c.last)
    && holds(&fs[3], c.month, 12)
    && holds(&fs[4], c.dow, 7)
}

// ------------------------------------------------------------------------------------------------ to the AST
fn bx(e: CronExpr) -> Box<CronExpr> {
  Box::new(e)
}
fn item_ast(i: &It) -> CronExpr {
  match i {
    It::One(n) => CronExpr::ValueExpr(*n),
    It::Last => CronExpr::LastValueExpr,
    It::Range(a, b, s) => CronExpr::RangeExpr {
      from: bx(CronExpr::ValueExpr(*a)),
      to: bx(CronExpr::ValueExpr(*b)),
      per_option: bx(s.map_or(CronExpr::NoOp, CronExpr::ValueExpr)),
    },
  }
}
fn field_ast(f: &F) -> CronExpr {
  match f {
    F::Star => CronExpr::AnyValueExpr,
    F::Every(n) => CronExpr::PerExpr {
      digit: bx(CronExpr::AnyValueExpr),
      option: bx(CronExpr::ValueExpr(*n)),
    },
    F::Items(v) if v.len() == 1 => item_ast(&v[0]),
    F::Items(v) => CronExpr::ListExpr(v.iter().map(item_ast).collect()),
  }
}
fn ast(f: [CronExpr; 5]) -> CronExpr {
  let [mins, hours, days, months, day_of_weeks] = f.map(bx);
  CronExpr::CronExpr {
    mins,
    hours,
    days,
    months,
    day_of_weeks,
  }
}

// -------------------------------------------------------------------------------------------------- to text
fn value_text(k: usize, n: u8, style: u8) -> String {
  match (k, style % 3) {
    (4, 1) if (1..=7).contains(&n) => NAMES[n as usize - 1].to_string(),
    (4, _) => n.to_string(),
    (_, 1) => format!("{:02}", n),
    _ => n.to_string(),
  }
}
fn field_text(k: usize, f: &F, style: &mut dyn FnMut() -> u8) -> String {
  match f {
    F::Star => "*".into(),
    F::Every(n) => format!("*/{}", value_text(k, *n, style())),
    F::Items(v) => v
      .iter()
      .map(|i| match i {
        It::One(n) => value_text(k, *n, style()),
        It::Last => "L".into(),
        It::Range(a, b, s) => {
          let mut t = format!("{}-{}", value_text(k, *a, style()), value_text(k, *b, style()));
          if let Some(s) = s {
            t += &format!("/{}", value_text(k, *s, style()));
          }
          t
        }
      })
      .collect::<Vec<_>>()
      .join(","),
  }
}
fn text(fs: &Fields, styles: &[u8]) -> String {
  let mut i = 0;
  let mut next = || {
    i += 1;
    styles.get((i - 1) % styles.len().max(1)).copied().unwrap_or(0)
  };
  (0..5)
    .map(|k| field_text(k, &fs[k], &mut next))
    .collect::<Vec<_>>()
    .join(" ")
}

// ---------------------------------------------------------------------------------------------- from text
/// The reference reading of a schedule text.
fn read_value(k: usize, s: &str) -> Option<CronExpr> {
  if k == 4 {
    if s == "L" {
      return Some(CronExpr::LastValueExpr);
    }
    if let Some(i) = NAMES.iter().position(|n| *n == s) {
      return Some(CronExpr::ValueExpr(i as u8 + 1));
    }
    return (s.len() == 1 && s.as_bytes()[0].is_ascii_digit())
      .then(|| s.as_bytes()[0] - b'0')
      .filter(|n| (1..=7).contains(n))
      .map(CronExpr::ValueExpr);
  }
  let ok = (1..=2).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_digit());
  let n: u8 = if ok { s.parse().unwrap() } else { return None };
  (LO[k] <= n && n <= HI[k]).then_some(CronExpr::ValueExpr(n))
}
fn read_item(k: usize, s: &str) -> Option<CronExpr> {
  match s.split_once('-') {
    None => read_value(k, s),
    Some((a, rest)) => {
      let (b, per) = match rest.split_once('/') {
        None => (rest, CronExpr::NoOp),
        Some((b, p)) => (b, read_value(k, p)?),
      };
      Some(CronExpr::RangeExpr {
        from: bx(read_value(k, a)?),
        to: bx(read_value(k, b)?),
        per_option: bx(per),
      })
    }
  }
}
fn read_field(k: usize, s: &str) -> Option<CronExpr> {
  if s == "*" {
    return Some(CronExpr::AnyValueExpr);
  }
  if let Some(p) = s.strip_prefix("*/") {
    return Some(CronExpr::PerExpr {
      digit: bx(CronExpr::AnyValueExpr),
      option: bx(read_value(k, p)?),
    });
  }
  let mut v = s.split(',').map(|i| read_item(k, i)).collect::<Option<Vec<_>>>()?;
  Some(if v.len() == 1 { v.remove(0) } else { CronExpr::ListExpr(v) })
}
fn read(s: &str) -> Option<CronExpr> {
  let parts: Vec<&str> = s.split(' ').collect();
  if parts.len() != 5 {
    return None;
  }
  let mut f = vec![];
  for (k, p) in parts.iter().enumerate() {
    f.push(read_field(k, p)?);
  }
  Some(ast(f.try_into().unwrap()))
}

// ----------------------------------------------------------------------------------------------- generators
fn value(k: usize) -> BoxedStrategy<u8> {
  let (lo, hi) = (LO[k], HI[k]);
  prop_oneof![4 => lo..=hi, 1 => Just(lo), 1 => Just(hi), 1 => lo..=hi.min(lo + 10)].boxed()
}
fn item(k: usize) -> BoxedStrategy<It> {
  let step = prop_oneof![3 => Just(None), 3 => value(k).prop_map(Some), 1 => (1u8..6).prop_map(Some)];
  let range = (value(k), value(k), step, 0u8..8).prop_map(|(a, b, s, keep)| {
    let (a, b) = if keep == 0 { (a, b) } else { (a.min(b), a.max(b)) };
    It::Range(a, b, s)
  });
  if k == 4 {
    prop_oneof![4 => value(k).prop_map(It::One), 4 => range, 1 => Just(It::Last)].boxed()
  } else {
    prop_oneof![4 => value(k).prop_map(It::One), 4 => range].boxed()
  }
}
fn field(k: usize, star: u32) -> BoxedStrategy<F> {
  prop_oneof![
    star => Just(F::Star),
    2 => value(k).prop_map(F::Every),
    1 => (1u8..6).prop_map(F::Every),
    3 => item(k).prop_map(|i| F::Items(vec![i])),
    3 => proptest::collection::vec(item(k), 2..5).prop_map(F::Items),
  ]
  .boxed()
}
fn fields(star: u32) -> BoxedStrategy<Fields> {
  (field(0, 2), field(1, 2), field(2, star), field(3, star), field(4, star))
    .prop_map(|(a, b, c, d, e)| [a, b, c, d, e])
    .boxed()
}
fn styles() -> impl Strategy<Value = Vec<u8>> {
  proptest::collection::vec(0u8..6, 1..8)
}

// -------------------------------------------------------------------------------------------------- C20
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
  text: String,
}
fn texts() -> BoxedStrategy<Text> {
  (fields(3), styles()).prop_map(|(f, s)| Text { text: text(&f, &s) }).boxed()
}
fn near_texts() -> BoxedStrategy<Text> {
  let pool: Vec<char> = "0123456789012345*,-/ L:SUNMOTEWHFRIAx\t".chars().collect();
  let ed = (0u8..3, any::<usize>(), proptest::sample::select(pool.clone()));
  // texts of pieces, and texts with any numbers
  let loose = proptest::collection::vec(
    proptest::collection::vec(
      prop_oneof![
        3 => (0u32..100).prop_map(|n| n.to_string()),
        1 => (0u32..100).prop_map(|n| format!("{:02}", n)),
        1 => (0u32..1000).prop_map(|n| n.to_string()),
        1 => proptest::sample::select(vec!["*", "-", "/", ",", "L", "MON", "SAT", "mon", "0", "7", "8"]).prop_map(String::from),
        2 => (0u32..64, 0u32..64).prop_map(|(a, b)| format!("{}-{}", a, b)),
        1 => (0u32..64).prop_map(|a| format!("*/{}", a)),
      ],
      1..3,
    )
    .prop_map(|v| v.join(",")),
    4..7,
  )
  .prop_map(|v| v.join(" "));
  // one field out of bounds, everything else plain
  let bound = (0usize..5, 0u32..70, 0u8..4).prop_map(|(k, n, style)| {
    let v = if style % 2 == 0 { n.to_string() } else { format!("{:02}", n) };
    let f = match style {
      0 | 1 => v,
      2 => format!("{}-{}", v, v),
      _ => format!("*/{}", v),
    };
    let mut p = vec!["*".to_string(); 5];
    p[k] = f;
    p.join(" ")
  });
  let edited = (fields(4), styles(), proptest::collection::vec(ed, 1..4)).prop_map(|(f, s, es)| {
    let mut v: Vec<char> = text(&f, &s).chars().collect();
    for (k, i, c) in es {
      let n = v.len();
      match k {
        0 => v.insert(i % (n + 1), c),
        1 if n > 0 => {
          v.remove(i % n);
        }
        _ if n > 0 => v[i % n] = c,
        _ => {}
      }
    }
    v.into_iter().collect::<String>()
  });
  prop_oneof![5 => edited, 2 => loose, 2 => bound, 1 => proptest::collection::vec(proptest::sample::select(pool), 0..20).prop_map(|v| v.into_iter().collect::<String>())]
    .prop_map(|text| Text { text })
    .boxed()
}
/// One field holds a value of any one to three characters, alone or as a part.
fn probe() -> BoxedStrategy<Text> {
  let ch = || prop_oneof![
    3 => proptest::char::range('0', '9'),
    6 => proptest::char::range(' ', '~'),
    1 => proptest::sample::select("\u{0}\n\r\u{7f}\u{a0}é１٣²⅓漢".chars().collect::<Vec<_>>()),
  ];
  let value = prop_oneof![
    3 => proptest::collection::vec(ch(), 1..=3).prop_map(|v| v.into_iter().collect::<String>()),
    1 => (0usize..7, 0u8..3, ch()).prop_map(|(n, how, c)| match how {
      0 => NAMES[n].replacen(|_: char| true, &c.to_string(), 1),
      1 => format!("{}{}", NAMES[n], c),
      _ => format!("{}{}", &NAMES[n][..2], c),
    }),
  ];
  (0usize..5, value, 0u8..9)
    .prop_map(|(k, v, shape)| {
      let f = match shape {
        0 | 1 => v,
        2 => format!("{}-5", v),
        3 => format!("1-{}", v),
        4 => format!("1-5/{}", v),
        5 => format!("*/{}", v),
        6 => format!("{},2", v),
        7 => format!("2,{}", v),
        _ => format!("1,{},3-4/{}", v, v),
      };
      let mut p = vec!["*".to_string(); 5];
      p[k] = f;
      Text { text: p.join(" ") }
    })
    .boxed()
}
/// Lists of very many items.
fn long_texts() -> BoxedStrategy<Text> {
  (fields(4), styles(), 0usize..5, prop_oneof![3 => 10usize..100, 1 => 100usize..400, 1 => proptest::sample::select(vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257])], 0u8..8)
    .prop_map(|(f, s, k, n, bad)| {
      let t = text(&f, &s);
      let mut p: Vec<String> = t.split(' ').map(String::from).collect();
      let items: Vec<String> = p[k].split(',').map(|i| if i.starts_with('*') { "1".to_string() } else { i.to_string() }).collect();
      let mut v: Vec<String> = items.iter().cycle().take(n).cloned().collect();
      match bad {
        0 => v.push("60".into()),
        1 => v.insert(n / 2, String::new()),
        _ => (),
      }
      p[k] = v.join(",");
      Text { text: p.join(" ") }
    })
    .boxed()
}
fn grammar(c: &Text) -> CheckResult {
  let want = read(&c.text);
  let got = CronParser::parse(&c.text).ok();
  ensure_eq!(got, want, "schedule text {:?}", c.text);
  let s = CronSchedule::<Utc>::new(&c.text);
  ensure!(s.is_ok() == want.is_some(), "CronSchedule::new and the parser disagree on {:?}", c.text);
  Ok(
    Obs::new(c.text.split(' ').filter(|f| *f != "*").count() > 1)
      .label_if(want.is_some(), "valid")
      .label_if(want.is_none(), "invalid")
      .label_if(c.text.contains('L'), "last")
      .label_if(c.text.contains("*/"), "every")
      .label_if(c.text.contains(','), "list"),
  )
}

// --------------------------------------------------------------------------------------------- time zones
/// A zone that is `extra` minutes ahead between two instants, like daylight saving time.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
struct Zone {
  base: i32,
  extra: i32,
  from: i64,
  to: i64,
}
#[derive(Debug, Clone, Copy, PartialEq)]
struct ZOff(Zone, i32);
impl Zone {
  fn at(&self, utc: i64) -> i32 {
    self.base + if self.from <= utc && utc < self.to { self.extra } else { 0 }
  }
}
impl Offset for ZOff {
  fn fix(&self) -> FixedOffset {
    FixedOffset::east_opt(self.1).unwrap()
  }
}
impl std::fmt::Display for ZOff {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{}", self.1)
  }
}
impl TimeZone for Zone {
  type Offset = ZOff;
  fn from_offset(o: &ZOff) -> Zone {
    o.0
  }
  fn offset_from_local_date(&self, d: &NaiveDate) -> MappedLocalTime<ZOff> {
    self.offset_from_local_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_local_datetime(&self, l: &NaiveDateTime) -> MappedLocalTime<ZOff> {
    let t = l.and_utc().timestamp();
    let c: Vec<i32> = [self.base, self.base + self.extra]
      .into_iter()
      .filter(|o| self.at(t - *o as i64) == *o)
      .collect();
    match c.len() {
      0 => MappedLocalTime::None,
      _ => MappedLocalTime::Single(ZOff(*self, c[0])),
    }
  }
  fn offset_from_utc_date(&self, d: &NaiveDate) -> ZOff {
    self.offset_from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_utc_datetime(&self, u: &NaiveDateTime) -> ZOff {
    ZOff(*self, self.at(u.and_utc().timestamp()))
  }
}
fn zone(around: i64) -> BoxedStrategy<Zone> {
  let base = prop_oneof![
    3 => Just(0),
    3 => (-14i32..=14).prop_map(|h| h * 3600),
    2 => (-56i32..=56).prop_map(|q| q * 900),
    1 => -50400i32..=50400,
  ];
  (base, prop_oneof![2 => Just(0), 2 => Just(3600), 1 => Just(-1800)], -200_000i64..200_000, 1_000i64..20_000_000)
    .prop_map(move |(base, extra, d, len)| Zone {
      base,
      extra,
      from: around + d,
      to: around + d + len,
    })
    .boxed()
}

/// An instant in milliseconds: anywhere, and near the ends of days, months, Februaries and years.
fn instant() -> BoxedStrategy<i64> {
  let day = |y: i64, m: u8| (1..m).map(|k| month_len(y, k) as i64).sum::<i64>() + days_before_year(y);
  let near = (1890i64..2210, 1u8..=12, -3i64..4, 0i64..86_400).prop_map(move |(y, m, d, s)| (day(y, m) + d) * 86400 + s);
  let feb = (1890i64..2210, 0i64..3, 0i64..86_400).prop_map(move |(y, d, s)| (day(y, 2) + 27 + d) * 86400 + s);
  let edge = (1890i64..2210, 1u8..=12, 0i64..32, -200i64..200).prop_map(move |(y, m, d, s)| (day(y, m) + d) * 86400 + s);
  // around years, days and seconds written in the code
  let mined = (vcommon::mined_int(7_000_000_000), 0u8..4, -200i64..200, any::<bool>()).prop_map(|(n, k, d, neg)| {
    let n = n as i64;
    let n = match k {
      0 if (1600..2600).contains(&n) => days_before_year(n) * 86_400,
      0 => n,
      1 => n % 100_000_000 * 60,
      2 => n % 1_000_000 * 3_600,
      _ => n % 60_000 * 86_400,
    };
    d + if neg { -(n % 2_500_000_000) } else { n }
  });
  (
    prop_oneof![9 => -2_500_000_000i64..7_000_000_000, 6 => near, 3 => feb, 6 => edge, 1 => mined],
    prop_oneof![2 => Just(0i64), 1 => Just(999), 2 => 0i64..1000],
  )
    .prop_map(|(s, ms)| s * 1000 + ms)
    .boxed()
}
fn with_zone() -> BoxedStrategy<(i64, Zone)> {
  instant().prop_flat_map(|t| (Just(t), zone(t.div_euclid(1000)))).boxed()
}
/// Bends a specification so that an instant satisfies the chosen fields.
fn bend(fs: &mut Fields, local: i64, mask: u8, sel: u8) {
  let c = cal(local);
  let now = [c.minute, c.hour, c.day, c.month, c.dow];
  for k in 0..5 {
    if mask & (1 << k) == 0 || holds(&fs[k], now[k], if k == 2 { c.last } else { HI[k] }) {
      continue;
    }
    match &mut fs[k] {
      F::Items(v) => {
        let i = sel as usize % v.len();
        v[i] = match &v[i] {
          It::Range(a, b, s) if a <= b => {
            let st = s.unwrap_or(1).max(1) as i32;
            let lo = (now[k] as i32 - st * (1 + (*b as i32 - *a as i32) / st / 2)).max(LO[k] as i32);
            let lo = now[k] as i32 - (now[k] as i32 - lo) / st * st;
            It::Range(lo as u8, now[k].max(*b), *s).clone()
          }
          _ => It::One(now[k]),
        }
      }
      f => {
        *f = if now[k] > 0 && sel % 2 == 0 {
          F::Every((1..=now[k]).rev().find(|d| now[k] % d == 0 && (*d < now[k] || sel % 4 == 0)).unwrap_or(1))
        } else {
          F::Star
        }
      }
    }
  }
}

// -------------------------------------------------------------------------------------------------- C21
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Eval {
  fields: Fields,
  styles: Vec<u8>,
  ms: i64,
  zone: Zone,
}
fn evals() -> BoxedStrategy<Eval> {
  (fields(3), styles(), with_zone(), 0u8..64, any::<u8>(), 0u8..5)
    .prop_map(|(mut fields, styles, (ms, zone), mask, sel, off)| {
      let s = ms.div_euclid(1000);
      // most cases satisfy all fields but perhaps one
      let mask = if mask & 32 != 0 { 31 } else if off < 4 { 31 & !(1 << (mask % 5)) } else { mask & 31 };
      bend(&mut fields, s + zone.at(s) as i64, mask, sel);
      Eval { fields, styles, ms, zone }
    })
    .boxed()
}
fn at(z: Zone, ms: i64) -> DateTime<Zone> {
  z.timestamp_millis_opt(ms).unwrap()
}
fn all_ways(e: &CronExpr, zone: Zone, ms: i64, want: bool) -> Result<(), String> {
  let spec = CronSpecification::new(e.clone());
  let d = at(zone, ms);
  ensure_eq!(spec.is_satisfied_by(&d), want, "at {} ({})", d.naive_local(), d.naive_utc());
  ensure_eq!(CronEvaluator::new(&d).eval(e), want, "the evaluator, at {}", d.naive_local());
  let off = zone.at(ms.div_euclid(1000));
  let d = FixedOffset::east_opt(off).unwrap().timestamp_millis_opt(ms).unwrap();
  ensure_eq!(spec.is_satisfied_by(&d), want, "at {}", d);
  if off == 0 {
    let d = Utc.timestamp_millis_opt(ms).unwrap();
    ensure_eq!(spec.is_satisfied_by(&d), want, "at {}", d);
  }
  Ok(())
}
fn eval(c: &Eval) -> CheckResult {
  let t = text(&c.fields, &c.styles);
  let s = c.ms.div_euclid(1000);
  let local = s + c.zone.at(s) as i64;
  let want = satisfied(&c.fields, local);
  match CronParser::parse(&t) {
    Ok(e) => all_ways(&e, c.zone, c.ms, want).map_err(|m| format!("schedule {:?}: {}", t, m))?,
    Err(m) => return Err(format!("schedule {:?} is rejected: {}", t, m)),
  }
  let open = c.fields.iter().filter(|f| **f == F::Star).count();
  Ok(
    Obs::new(open < 5)
      .label_if(want, "satisfied")
      .label_if(!want, "not-satisfied")
      .label_if(c.fields[4] != F::Star, "weekday")
      .label_if(local < 0, "before-1970"),
  )
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct AstEval {
  fields: Fields,
  ms: i64,
  zone: Zone,
}
fn ast_evals() -> BoxedStrategy<AstEval> {
  // expressions the grammar cannot write: the last value in any field, any numbers
  let num = || prop_oneof![6 => 0u8..62, 1 => any::<u8>()];
  let it = move || {
    prop_oneof![
      2 => num().prop_map(It::One),
      3 => Just(It::Last),
      2 => (num(), num(), prop_oneof![Just(None), num().prop_map(Some)]).prop_map(|(a, b, s)| It::Range(a, b, s))
    ]
  };
  let f = move || {
    prop_oneof![
      4 => Just(F::Star),
      1 => num().prop_map(F::Every),
      3 => it().prop_map(|i| F::Items(vec![i])),
      1 => proptest::collection::vec(it(), 0..4).prop_map(F::Items),
    ]
  };
  (f(), f(), f(), f(), f(), with_zone(), 0u8..32, any::<u8>(), 0u8..3)
    .prop_map(|(a, b, c, d, e, (ms, zone), mask, sel, k)| {
      let mut fields = [a, b, c, d, e];
      for f in fields.iter_mut() {
        if *f == F::Items(vec![]) {
          *f = F::Items(vec![It::Last]);
        }
      }
      let s = ms.div_euclid(1000);
      let keep: u8 = fields
        .iter()
        .enumerate()
        .map(|(i, f)| if matches!(f, F::Items(v) if v.contains(&It::Last)) { 1 << i } else { 0 })
        .sum();
      if k > 0 {
        bend(&mut fields, s + zone.at(s) as i64, mask & !keep | 0b11000 & !keep, sel);
      }
      AstEval { fields, ms, zone }
    })
    .boxed()
}
fn ast_eval(c: &AstEval) -> CheckResult {
  let e = ast(std::array::from_fn(|k| field_ast(&c.fields[k])));
  let s = c.ms.div_euclid(1000);
  let want = satisfied(&c.fields, s + c.zone.at(s) as i64);
  all_ways(&e, c.zone, c.ms, want).map_err(|m| format!("expression {:?}: {}", e, m))?;
  Ok(
    Obs::new(c.fields.iter().any(|f| *f != F::Star))
      .label_if(want, "satisfied")
      .label_if(matches!(&c.fields[2], F::Items(v) if v.contains(&It::Last)), "last-day"),
  )
}

// ---------------------------------------------------------------------------------------------- C22, C23
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Walk {
  fields: Fields,
  styles: Vec<u8>,
  start: i64,
  zone: Zone,
  n: usize,
  /// length of the interval in milliseconds
  len: i64,
}
fn walks() -> BoxedStrategy<Walk> {
  let span = prop_oneof![
    2 => 0i64..600_000,
    2 => 0i64..20_000_000,
    1 => 0i64..400_000_000,
    1 => (0i64..3000).prop_map(|m| m * 60_000),
    1 => (0i64..3000, -1i64..2).prop_map(|(m, d)| (m * 60_000 + d).max(0)),
  ];
  let back = prop_oneof![1 => Just(0i64), 3 => 0i64..200, 2 => 0i64..5_000, 1 => 0i64..20_000];
  (fields(6), styles(), with_zone(), any::<u8>(), 1usize..12, span, back, 0u8..8)
    .prop_map(|(mut fields, styles, (ms, zone), sel, n, len, back, k)| {
      // a target the schedule matches lies shortly after the start
      let start = ms - back * 60_000;
      if k > 0 {
        let s = ms.div_euclid(1000);
        bend(&mut fields, s + zone.at(s) as i64, 31, sel);
      }
      Walk {
        fields,
        styles,
        start,
        zone,
        n,
        len,
      }
    })
    .boxed()
}
/// Frequent schedules and many of their instants.
fn many() -> BoxedStrategy<Walk> {
  (walks(), prop_oneof![8 => 200usize..4_000, 1 => vcommon::mined_size(4_000)], any::<u8>(), prop_oneof![8 => 0i64..5_000, 1 => vcommon::mined_int(5_000).prop_map(|n| n as i64)])
    .prop_map(|(mut w, n, stars, len)| {
      for k in 2..5 {
        if stars >> k & 1 == 0 {
          w.fields[k] = F::Star;
        }
      }
      if stars & 3 == 0 {
        w.fields[0] = F::Star;
      }
      if stars & 3 == 1 {
        w.fields[1] = F::Star;
      }
      Walk { n, len: len * 60_000 + w.len % 60_000, ..w }
    })
    .boxed()
}
/// Schedules that hold once in years: day and month, leap days, a date and its weekday; also those that never hold.
fn rare() -> BoxedStrategy<Walk> {
  let back = prop_oneof![2 => 0i64..50_000, 2 => 0i64..530_000, 1 => 0i64..1_100_000, 1 => 0i64..2_200_000, 1 => (vcommon::mined_int(2_200_000), 1i64..1500).prop_map(|(n, k)| (n as i64 * k).min(2_200_000))];
  (with_zone(), back, any::<[u8; 4]>(), 1usize..3, 1_900i32..2_200, styles(), 0i64..1_200_000)
    .prop_map(|((ms, zone), back, k, n, year, styles, len)| {
      let ms = if k[0] % 3 == 0 {
        // a leap day
        let y = (year - year.rem_euclid(4)) as i64;
        let y = if leap(y) { y } else { y + 4 };
        (days_before_year(y) + 59) * 86_400_000 + ms.rem_euclid(86_400_000)
      } else {
        ms
      };
      let s = ms.div_euclid(1000);
      let c = cal(s + zone.at(s) as i64);
      let one = |v: u8| F::Items(vec![It::One(v)]);
      let day = match k[1] % 4 {
        1 if c.month == 2 && k[1] > 200 => one(30), // never
        _ => one(c.day),
      };
      let dow = if k[2] % 5 == 0 { one(c.dow) } else { F::Star };
      let month = match k[3] % 4 {
        0 => F::Items(vec![It::One(c.month), It::One(1 + k[3] / 4 % 12)]),
        1 => F::Items(vec![It::Range(c.month, c.month.min(11) + 1, None)]),
        _ => one(c.month),
      };
      let fields = [one(c.minute), one(c.hour), day, month, dow];
      Walk { fields, styles, start: ms - back * 60_000, zone, n, len: len * 60_000 + ms % 60_000 }
    })
    .boxed()
}
const HORIZON: i64 = 45_000; // minutes
const FAR: i64 = 2_400_000;
fn reference(c: &Walk, n: usize, end: Option<i64>) -> (Vec<i64>, bool) {
  reference_to(c, n, end, HORIZON)
}
/// The first n matching instants from start in steps of one minute, not after end.
fn reference_to(c: &Walk, n: usize, end: Option<i64>, horizon: i64) -> (Vec<i64>, bool) {
  let mut out = vec![];
  let mut t = c.start;
  for _ in 0..horizon {
    if out.len() == n || end.map_or(false, |e| t > e) {
      return (out, true);
    }
    let s = t.div_euclid(1000);
    let local = s + c.zone.at(s) as i64;
    if holds(&c.fields[0], (local.rem_euclid(3600) / 60) as u8, 59) && satisfied(&c.fields, local) {
      out.push(t);
    }
    t += 60_000;
  }
  (out, false)
}
/// A specification of the user's own: the schedule, in some minutes only.
#[derive(Clone)]
struct Some1In(CronSpecification, i64);
impl Specification<DateTime<Zone>> for Some1In {
  fn is_satisfied_by(&self, d: &DateTime<Zone>) -> bool {
    d.timestamp().div_euclid(60) % self.1 == 0 && self.0.is_satisfied_by(d)
  }
}
/// A zone that has nothing to do with the one of the case.
fn elsewhere(c: &Walk) -> Zone {
  Zone { base: (c.n as i32 % 23 - 11) * 3600 + 900, extra: 0, from: 0, to: 0 }
}
/// The instants, and the ways of the Iterator trait to get at them; `want` is all there is if `whole`.
fn iterates<S: Specification<DateTime<Zone>>>(make: impl Fn() -> CronIntervalIterator<Zone, S>, want: &[i64], whole: bool, c: &Walk) -> Result<(), String> {
  let ms = |d: Option<DateTime<Zone>>| d.map(|d| d.timestamp_millis());
  let n = want.len();
  let k = c.n % (n + 1);
  let mut it = make();
  ensure_eq!(*it.timezone(), c.zone, "zone of the iterator");
  let (low, high) = it.size_hint();
  ensure!((low <= n || !whole) && high.map_or(true, |h| h >= n), "{} instants, or more, but a size hint of {:?}", n, (low, high));
  if k < n || whole {
    ensure_eq!(ms(it.nth(k)), want.get(k).copied(), "nth({})", k);
  }
  if k + 1 < n {
    ensure_eq!(ms(it.next()), want.get(k + 1).copied(), "the one after nth({})", k);
  }
  let step = 1 + c.n % 3;
  let stepped: Vec<i64> = make().step_by(step).take(n.div_ceil(step)).filter_map(|d| ms(Some(d))).collect();
  ensure_eq!(stepped, want.iter().copied().step_by(step).collect::<Vec<_>>(), "every {}th", step);
  let skipped: Vec<i64> = make().skip(k).take(n - k).filter_map(|d| ms(Some(d))).collect();
  ensure_eq!(skipped, want[k..].to_vec(), "without the first {}", k);
  // In turns from two iterators of one interval, and from the interval of the iterator.
  let (mut a, mut b) = (make(), make());
  let mut other = a.cron_interval().iter(c.zone);
  for (i, w) in want.iter().enumerate() {
    let d = a.next();
    if let Some(d) = &d {
      let s = w.div_euclid(1000);
      let local = DateTime::<Utc>::from_timestamp_millis(w + c.zone.at(s) as i64 * 1000).unwrap().naive_utc();
      ensure_eq!(d.naive_local(), local, "local time of the instant {}", w);
    }
    ensure_eq!(ms(d), Some(*w), "instant {} of the first of two", i);
    ensure_eq!(ms(b.next()), Some(*w), "instant {} of the second of two", i);
    ensure_eq!(ms(other.next()), Some(*w), "instant {} from cron_interval()", i);
  }
  if whole {
    ensure_eq!(make().count(), n, "count");
    ensure_eq!(ms(make().last()), want.last().copied(), "last");
    ensure_eq!((ms(a.next()), ms(b.next())), (None, None), "after the last");
  }
  Ok(())
}
fn upcoming(c: &Walk) -> CheckResult {
  upcoming_to(c, HORIZON)
}
fn upcoming_far(c: &Walk) -> CheckResult {
  upcoming_to(c, FAR)
}
fn upcoming_to(c: &Walk, horizon: i64) -> CheckResult {
  // only as many as the horizon is certain to contain
  let (mut want, _) = reference_to(c, c.n, None, horizon);
  want.truncate(c.n);
  if want.is_empty() {
    return Ok(Obs::discard("no match within the horizon"));
  }
  let t = text(&c.fields, &c.styles);
  let sched = CronSchedule::<Zone>::new(&t).map_err(|m| format!("schedule {:?} is rejected: {}", t, m))?;
  let start = at(c.zone, c.start);
  let mut it = sched.upcoming(start.clone());
  let got: Vec<i64> = it.by_ref().take(want.len()).map(|d| d.timestamp_millis()).collect();
  ensure_eq!(got, want, "schedule {:?} from {} ({})", t, start.naive_local(), start.naive_utc());
  // asking again, from a clone, and through the interval
  let again: Vec<i64> = sched
    .cron_interval(start.clone())
    .iter(c.zone)
    .take(want.len())
    .map(|d| d.timestamp_millis())
    .collect();
  ensure_eq!(again, want, "the same schedule through its interval");
  let mut a = sched.upcoming(start);
  let half = want.len() / 2;
  let head: Vec<i64> = a.by_ref().take(half).map(|d| d.timestamp_millis()).collect();
  let b = a.clone();
  let rest: Vec<i64> = b.take(want.len() - half).map(|d| d.timestamp_millis()).collect();
  ensure_eq!((head, rest), (want[..half].to_vec(), want[half..].to_vec()), "resumed from a clone");
  if want.len() < 40 && want[want.len() - 1] - c.start < 8 * 86_400_000 {
    let e = CronParser::parse(&t).unwrap();
    let from = LimitValue::Limit(at(elsewhere(c), c.start));
    let iv = CronInterval::new(from.clone(), LimitValue::Limitless, CronSpecification::new(e.clone()));
    iterates(|| sched.upcoming(at(c.zone, c.start)), &want, false, c).map_err(|m| format!("schedule {:?}: {}", t, m))?;
    iterates(|| iv.clone().iter(c.zone), &want, false, c).map_err(|m| format!("schedule {:?}, its interval in another zone: {}", t, m))?;
    let k = 2 + c.n as i64 % 3;
    let few: Vec<i64> = want.iter().copied().filter(|w| w.div_euclid(60_000) % k == 0).collect();
    let iv = CronInterval::new(from, LimitValue::Limitless, Some1In(CronSpecification::new(e), k));
    if !few.is_empty() {
      iterates(|| iv.iter(c.zone), &few, false, c).map_err(|m| format!("schedule {:?} in every {}th minute: {}", t, k, m))?;
    }
  }
  Ok(
    Obs::new(c.fields.iter().filter(|f| **f == F::Star).count() < 4)
      .label_if(want.len() > 1, "several")
      .label_if(want.len() > 255, "over 255")
      .label_if(want[0] - c.start > 366 * 86_400_000, "over a year away")
      .label_if(want.len() > 1 && want.windows(2).any(|w| w[1] - w[0] > 86_400_000), "gap>1day")
      .label_if(c.zone.extra != 0, "zone-shift")
      .label_if(want[0] == c.start, "start-matches"),
  )
}
fn bounded(c: &Walk) -> CheckResult {
  bounded_to(c, HORIZON)
}
fn bounded_far(c: &Walk) -> CheckResult {
  bounded_to(c, FAR)
}
fn bounded_to(c: &Walk, horizon: i64) -> CheckResult {
  let end = c.start + c.len;
  let (want, whole) = reference_to(c, usize::MAX, Some(end), horizon);
  if !whole {
    return Ok(Obs::discard("interval beyond the horizon"));
  }
  let t = text(&c.fields, &c.styles);
  let e = CronParser::parse(&t).map_err(|m| format!("schedule {:?} is rejected: {}", t, m))?;
  let iv = CronInterval::new(
    LimitValue::Limit(at(c.zone, c.start)),
    LimitValue::Limit(at(c.zone, end)),
    CronSpecification::new(e),
  );
  let mut it = iv.iter(c.zone);
  let mut got = vec![];
  while let Some(d) = it.next() {
    got.push(d.timestamp_millis());
    if got.len() > want.len() {
      break;
    }
  }
  ensure_eq!(
    got,
    want,
    "schedule {:?} from {} to {} ms later",
    t,
    at(c.zone, c.start).naive_local(),
    c.len
  );
  for _ in 0..3 {
    ensure!(it.next().is_none(), "schedule {:?}: an instant after the end of the iteration", t);
  }
  if want.len() < 40 && horizon == HORIZON {
    let (from, to) = (LimitValue::Limit(at(elsewhere(c), c.start)), LimitValue::Limit(at(elsewhere(c), end)));
    let e = CronParser::parse(&t).unwrap();
    let there = CronInterval::new(from.clone(), to.clone(), CronSpecification::new(e.clone()));
    iterates(|| iv.iter(c.zone), &want, true, c).map_err(|m| format!("schedule {:?}: {}", t, m))?;
    iterates(|| there.clone().iter(c.zone), &want, true, c).map_err(|m| format!("schedule {:?}, its interval in another zone: {}", t, m))?;
    let k = 2 + c.n as i64 % 3;
    let few: Vec<i64> = want.iter().copied().filter(|w| w.div_euclid(60_000) % k == 0).collect();
    let own = CronInterval::new(from, to, Some1In(CronSpecification::new(e), k));
    iterates(|| own.iter(c.zone), &few, true, c).map_err(|m| format!("schedule {:?} in every {}th minute: {}", t, k, m))?;
  }
  Ok(
    Obs::new(!want.is_empty() || c.len > 60_000)
      .label_if(want.is_empty(), "none")
      .label_if(want.last() == Some(&end), "ends-on-match")
      .label_if(want.len() > 3, "many"),
  )
}

fn property(id: &str) -> Option<Property> {
  let p = |rule, assumptions, facets| {
    Some(Property {
      id: IDS.iter().find(|x| **x == id).unwrap(),
      rule,
      assumptions,
      facets,
    })
  };
  let q = 90_000;
  let t = 2_000_000;
  match id {
    "C20" => p(
      "Schedule texts rendered from random field lists, the same with up to three edits, texts of random pieces, one-field \
       bound probes, one field of any few characters, lists of hundreds of items; parse result compared with a split-based reference reader. Non-trivial = two or more fields other than '*'.",
      vec![],
      vec![facet("valid", q, t, texts(), grammar), facet("near", 2 * q, 2 * t, near_texts(), grammar), facet("probe", 2 * q, 2 * t, probe(), grammar), facet("long", q / 45, t / 100, long_texts(), grammar).on_default_stack()],
    ),
    "C21" => p(
      "Random schedules evaluated at random local instants of 1890-2210 in fixed and shifting zones, most bent so that all fields \
       or all but one hold, against an independent calendar. Non-trivial = some field restricts.",
      vec!["'L' as a range bound or step is not evaluated", "a range whose start exceeds its end matches nothing"],
      vec![facet("text", 2 * q, 2 * t, evals(), eval), facet("ast", q, t, ast_evals(), ast_eval)],
    ),
    "C22" => p(
      "First n upcoming instants against minute-by-minute enumeration with the independent calendar, up to 45000 minutes ahead (rare: 4.5 years). \
       Non-trivial = two or more fields restrict.",
      vec!["schedules with no match within the horizon are discarded: the iterator searches without end"],
      vec![
        facet("upcoming", q / 6, t / 20, walks(), upcoming),
        facet("many", q / 30, t / 50, many(), upcoming),
        facet("rare", q / 180, t / 500, rare(), upcoming_far),
      ],
    ),
    "C23" => p(
      "Instants of a bounded interval against minute-by-minute enumeration. Non-trivial = a match, or an interval over a minute.",
      vec!["start <= end; start limited"],
      vec![
        facet("bounded", q / 6, t / 20, walks(), bounded),
        facet("many", q / 30, t / 50, many(), bounded),
        facet("rare", q / 180, t / 500, rare(), bounded_far),
      ],
    ),
    _ => None,
  }
}
fn main() {
  vcommon::run_main(property, IDS)
}
