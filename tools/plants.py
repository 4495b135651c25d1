"""Changes that break a property, compile and pass the tests. Each was written from the property and the code."""
PLANTS = []
PI = "parser/src/internal/parsers_impl"

def plant(id, property, crate, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, crate=crate, edits=edits, needs=needs, breaks=breaks, demo=demo))

PRELUDE = """
use oni_comb_parser_rs::prelude::*;
#[allow(dead_code)]
fn cs(s: &str) -> Vec<char> { s.chars().collect() }
"""

plant("flat-map-forgets-one-element", "C02", "parser",
      [("parser/src/internal/parsers_impl.rs", ".add_commit(length != 0)", ".add_commit(length > 1)")],
      "a monadic sequence whose first part consumed exactly one element and whose second part fails uncommitted, left of a choice",
      "the failure stays uncommitted, so the choice tries its right side",
      PRELUDE + """
fn main() {
  let input = cs("ac");
  let p: Parser<char, String> = elm('a').flat_map(|_| elm('b')).map(|c| c.to_string()) | tag("ac");
  assert!(p.parse(&input).is_failure(), "the right side was tried after a committed failure");
}
""")

plant("tag-no-case-folds-unicode", "C07", "parser",
      [(PI + "/elements_parsers_impl.rs", "if !c.eq_ignore_ascii_case(actual) {", "if !c.to_lowercase().eq(actual.to_lowercase()) {")],
      "a letter outside ASCII that differs from the literal only by case (or the Kelvin sign for k)",
      "tag_no_case matches texts that differ in non-ASCII case",
      PRELUDE + """
fn main() {
  let input = cs("\\u{212A}m");
  assert!(tag_no_case("km").parse(&input).is_failure(), "the Kelvin sign matched k");
  let input = cs("KM");
  assert!(tag_no_case("km").parse(&input).is_success());
}
""")

plant("repeat-excluded-bound", "C03", "parser",
      [("parser/src/utils/range.rs", """impl<T> RangeArgument<T> for RangeTo<T> {
  fn start(&self) -> Bound<T> {
    Bound::Unbounded
  }

  fn end(&self) -> Bound<T> {
    Bound::Excluded(&self.end)""", """impl<T> RangeArgument<T> for RangeTo<T> {
  fn start(&self) -> Bound<T> {
    Bound::Unbounded
  }

  fn end(&self) -> Bound<T> {
    Bound::Included(&self.end)""")],
      "a repetition with a ..n range on an input that has at least n elements",
      "n elements are read where at most n - 1 are allowed",
      PRELUDE + """
fn main() {
  let input = cs("aaaa");
  let r = elm('a').repeat(..3usize).parse(&input).to_result().unwrap();
  assert_eq!(r.len(), 2);
}
""")

plant("exists-passes-committed-failure", "C04", "parser",
      [(PI + "/operator_parsers_impl.rs", """      ParseResult::Success { .. } => ParseResult::successful(true, 0),
      ParseResult::Failure { .. } => ParseResult::successful(false, 0),""", """      ParseResult::Success { .. } => ParseResult::successful(true, 0),
      ParseResult::Failure {
        error,
        committed_status,
      } if committed_status.is_committed() => ParseResult::failed(error, committed_status),
      ParseResult::Failure { .. } => ParseResult::successful(false, 0),""")],
      "exists over a parser that fails committed (a literal whose first element matched)",
      "exists fails instead of answering false",
      PRELUDE + """
fn main() {
  let input = cs("ac");
  let r = tag("ab").exists().parse(&input).to_result();
  assert_eq!(r.ok(), Some(false));
}
""")

plant("set-open-range-includes-end", "C06", "parser",
      [("parser/src/utils/set.rs", """impl<T: PartialOrd + Copy> Set<T> for RangeTo<T> {
  fn contains(&self, elem: &T) -> bool {
    self.end > *elem""", """impl<T: PartialOrd + Copy> Set<T> for RangeTo<T> {
  fn contains(&self, elem: &T) -> bool {
    self.end >= *elem""")],
      "an element equal to the excluded end of a ..end range used as a set",
      "the end of a half-open range counts as a member",
      PRELUDE + """
fn main() {
  static SET: std::ops::RangeTo<char> = ..'f';
  let input = cs("f");
  assert!(elm_ref_of(&SET).parse(&input).is_failure());
  assert!(none_ref_of(&SET).parse(&input).is_success());
}
""")

plant("byte-multi-space-misses-cr", "C13", "parser",
      [("parser/src/core/element.rs", "self.is_ascii_space() || matches!(*self, b'\\n' | b'\\r')", "self.is_ascii_space() || matches!(*self, b'\\n')")],
      "a carriage return in a byte input read with the multi-space class",
      "bytes and characters disagree about carriage returns",
      PRELUDE + """
fn main() {
  let p: Parser<u8, u8> = elm_multi_space();
  assert!(p.parse(b"\\r").is_success());
}
""")

plant("skip-needs-rest", "C08", "parser",
      [(PI + "/skip_parser_impl.rs", "      if input.len() >= n {", "      if input.get(n.saturating_sub(1)).is_some() {")],
      "skip(0) at the end of the input",
      "skipping nothing fails there",
      PRELUDE + """
fn main() {
  let input = cs("a");
  let p: Parser<char, ()> = elm('a') * skip(0);
  assert!(p.parse(&input).is_success());
}
""")

plant("chain-first-operand-uncommitted", "C09", "parser",
      [(PI + "/operator_parsers_impl.rs", "Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x))", "Self::flat_map(Self::attempt(p.clone()), move |x| Self::rest_left1(p.clone(), op.clone(), x))")],
      "a chain left of a choice whose first operand fails committed",
      "the committed failure of the first operand is lost and the choice tries its right side",
      PRELUDE + """
fn main() {
  let input = cs("(x");
  let op = elm('-').map(|_| |a: i64, b: i64| a - b);
  let digit = elm_digit().map(|c: char| c as i64 - 48);
  let operand = elm('(').flat_map(move |_| digit.clone());
  let p: Parser<char, i64> = operand.chain_left1(op) | tag("(x").map(|_| 7);
  assert!(p.parse(&input).is_failure());
}
""")

plant("last-offset-of-nothing", "C10", "parser",
      [(PI + "/offset_parsers_impl.rs", "ParseResult::successful(ps.last_offset().unwrap_or(0), length)", "ParseResult::successful(ps.last_offset().filter(|_| length > 0).unwrap_or(parse_state.current_offset()), length)")],
      "last_offset of a parser that consumed nothing, not at the start of the input",
      "the offset given is the current one, not the one before",
      PRELUDE + """
fn main() {
  let input = cs("ab");
  let r = (tag("ab") * elm('c').of_many0().last_offset()).parse(&input).to_result();
  assert_eq!(r.ok(), Some(1));
}
""")

plant("name-of-a-name-forgets-commit", "C11", "parser",
      [(PI + "/logging_parsers_impl.rs", "ParseError::Custom { .. } => ParseResult::failed(error, is_committed),", "ParseError::Custom { .. } => ParseResult::failed_with_uncommitted(error),")],
      "a committed failure of a parser that is named twice (itself and as part of a named one)",
      "the outer name makes the failure uncommitted and the next alternative is tried",
      PRELUDE + """
fn main() {
  let input = cs("ac");
  let p: Parser<char, String> = tag("ab").name("inner").name("outer") | tag("ac");
  assert!(p.parse(&input).is_failure());
}
""")

plant("input-string-of-broken-utf8", "C12", "parser",
      [("parser/src/core/parse_error.rs", 'Err(_) => Some("".to_string()),', "Err(e) => Some(std::str::from_utf8(&bytes[e.valid_up_to()..]).unwrap().to_string()),")],
      "a failure whose excerpt is a byte that is no UTF-8",
      "asking the error for its input panics",
      PRELUDE + """
fn main() {
  let input: &[u8] = &[b'a', 0xff, b'c'];
  let e: ParseError<u8> = ParseError::of_mismatch(input, 1, 1, "x".to_string());
  assert!(std::panic::catch_unwind(|| e.input_string()).is_ok());
}
""")

plant("attempt-keeps-conversions", "C02", "parser",
      [("parser/src/core/parse_result.rs", """      ParseResult::Failure {
        error,
        committed_status: CommittedStatus::Committed,
      } => ParseResult::Failure {""", """      ParseResult::Failure {
        error,
        committed_status: CommittedStatus::Committed,
      } if !error.is_conversion() => ParseResult::Failure {""")],
      "attempt over a monadic sequence that consumed something and then fails in a conversion",
      "attempt does not make that failure uncommitted, so the choice stops",
      PRELUDE + """
fn main() {
  let input = cs("a9");
  let left: Parser<char, u32> = elm('a').flat_map(|_| elm_digit().map_res(|c: char| if c == '9' { Err("nine") } else { Ok(1u32) }));
  let p = left.attempt() | (elm('a') * elm('9')).map(|_| 2u32);
  assert_eq!(p.parse(&input).to_result().ok(), Some(2));
}
""")

plant("add-commit-overwrites", "C15", "parser",
      [("parser/src/core/parse_result.rs", "committed_status: committed_status.or(is_committed.into()),", "committed_status: is_committed.into(),")],
      "a committed failure after a monadic first part that consumed nothing",
      "the failure becomes uncommitted",
      PRELUDE + """
fn main() {
  let input = cs("ac");
  let r = tag("ab").parse(&input).add_commit(false);
  assert!(r.committed_status().unwrap().is_committed());
}
""")

plant("filter-keeps-zero-length", "C01", "parser",
      [("parser/src/internal/parsers_impl.rs", "        if f(&value) {\n", "        if length == 0 || f(&value) {\n")],
      "a filter that rejects the value of a parser that consumed nothing",
      "the rejected value is passed on",
      PRELUDE + """
fn main() {
  let input = cs("b");
  let p: Parser<char, Vec<char>> = elm('a').of_many0().with_filter(|v: &Vec<char>| !v.is_empty());
  assert!(p.parse(&input).is_failure());
}
""")

plant("surround-drops-commit", "C05", "parser",
      [(PI + "/skip_parser_impl.rs", "    left_parser.skip_left(parser.skip_right(right_parser))", "    left_parser.skip_left(parser).skip_right(crate::extension::parser::OperatorParser::attempt(right_parser))")],
      "surround whose closing parser fails committed (a two-element bracket of which only the first is there)",
      "surround fails uncommitted where skipping left and right fails committed",
      PRELUDE + """
fn main() {
  let input = cs("<a-=");
  let p = elm('a').surround(elm('<'), tag("->"));
  assert!(p.parse(&input).committed_status().unwrap().is_committed());
}
""")

# --------------------------------------------------------------------------------------------------------------- crond
CP = """
use chrono::{DateTime, FixedOffset, TimeZone, Utc};
use oni_comb_crond_rs::*;
use intervals_rs::LimitValue;
#[allow(dead_code)]
fn upcoming(s: &str, t: DateTime<Utc>, n: usize) -> Vec<DateTime<Utc>> {
  CronSchedule::new(s).unwrap().upcoming(t).take(n).collect()
}
#[allow(dead_code)]
fn unused() -> Option<(FixedOffset, LimitValue<i64>)> { None }
"""

plant("weekday-names-sharing-a-letter", "C20", "crond",
      [("crond/src/cron_parser.rs", 'tag("SUN").map(|_| ValueExpr(1)).attempt()', 'tag("SUN").map(|_| ValueExpr(1))')],
      "the weekday name SAT",
      "SAT is rejected because SUN fails committed after the common letter",
      CP + """
fn main() { assert!(CronParser::parse("* * * * SAT").is_ok()); }
""")

plant("month-by-utc", "C21", "crond",
      [("crond/src/cron_evaluator.rs", "let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);", "let fmonths = self.visit(&CronEnvironment::new(self.instant.naive_utc().month() as u8, 12), months);")],
      "an instant in a zone other than UTC, in the hours where the local month and the UTC month differ",
      "the month field is compared with the UTC month",
      CP + """
fn main() {
  let tz = FixedOffset::east_opt(9 * 3600).unwrap();
  let t = tz.with_ymd_and_hms(2021, 3, 1, 4, 0, 0).unwrap();
  let spec = CronSpecification::new(CronParser::parse("* * * 3 *").unwrap());
  assert!(spec.is_satisfied_by(&t));
}
""")

plant("last-day-of-february-2000", "C21", "crond",
      [("crond/src/lib.rs", "  .num_days()\n", "  .num_days()\n  .min(if month == 2 && year % 100 == 0 { 28 } else { 31 })\n")],
      "L as the day, on 29 February of a leap year divisible by 400",
      "28 February counts as the last day",
      CP + """
fn main() {
  let t = Utc.with_ymd_and_hms(2000, 2, 29, 0, 0, 0).unwrap();
  let expr = CronExpr::CronExpr {
    mins: Box::new(CronExpr::AnyValueExpr),
    hours: Box::new(CronExpr::AnyValueExpr),
    days: Box::new(CronExpr::LastValueExpr),
    months: Box::new(CronExpr::AnyValueExpr),
    day_of_weeks: Box::new(CronExpr::AnyValueExpr),
  };
  assert!(CronSpecification::new(expr).is_satisfied_by(&t));
}
""")

plant("interval-start-without-millis", "C22", "crond",
      [("crond/src/cron_interval.rs", "LimitValue::Limit(v) => LimitValue::Limit(v.timestamp_millis()),", "LimitValue::Limit(v) => LimitValue::Limit(v.timestamp() * 1000),")],
      "a start instant with milliseconds",
      "the instants are shifted to the whole second, the first one before the start",
      CP + """
fn main() {
  let t = Utc.timestamp_millis_opt(1_600_000_020_500).unwrap();
  assert_eq!(upcoming("* * * * *", t, 1), vec![t]);
}
""")

plant("backward-range-holds", "C21", "crond",
      [("crond/src/cron_evaluator.rs", "box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,", "box CronExpr::NoOp if *start <= env.now && (env.now <= *end || *end < *start) => true,")],
      "a range written backwards (22-2) and a value after its start",
      "the range holds from its first value to the end of the field",
      CP + """
fn main() {
  let t = Utc.with_ymd_and_hms(2021, 1, 1, 23, 20, 0).unwrap();
  assert!(!CronSpecification::new(CronParser::parse("* 22-2 * * *").unwrap()).is_satisfied_by(&t));
}
""")

plant("end-cut-to-the-minute", "C23", "crond",
      [("crond/src/cron_interval.rs", "    let end = Self::convert_to_long_limit_value(end_value);\n", "    let end = match Self::convert_to_long_limit_value(end_value) {\n      LimitValue::Limit(v) => LimitValue::Limit(v - v % 60_000),\n      limitless => limitless,\n    };\n")],
      "a start with seconds and an end in the minute of the last match, after it",
      "the last match is left out",
      CP + """
fn main() {
  let t = Utc.with_ymd_and_hms(2021, 1, 1, 1, 20, 30).unwrap();
  let e = Utc.with_ymd_and_hms(2021, 1, 1, 1, 21, 40).unwrap();
  let spec = CronSpecification::new(CronParser::parse("* * * * *").unwrap());
  let v: Vec<_> = CronInterval::new(LimitValue::Limit(t), LimitValue::Limit(e), spec).iter(Utc).take(5).collect();
  assert_eq!(v.len(), 2);
}
""")

# ----------------------------------------------------------------------------------------------------------------- uri
UP = """
#[allow(unused_imports)]
use oni_comb_uri_rs::models::{authority::Authority, hier_part::HierPart, host_name::*, path::Path, query::Query, scheme::Scheme, uri::Uri, user_info::UserInfo};
"""

plant("empty-value-shown-as-key", "C34", "uri",
      [("uri/src/models/query.rs", "if v.is_none() {", "if v.as_ref().map_or(true, |s| s.is_empty()) {")],
      "a query parameter with an empty value (k=)",
      "the parameter is shown without its =",
      UP + """
fn main() {
  assert_eq!(Uri::parse("a://b/?k=&l=1").unwrap().to_string(), "a://b/?k=&l=1");
}
""")

plant("percent-takes-any-letter", "C32", "uri",
      [("uri/src/parsers/basic_parsers.rs", "(elm_ref(b'%') + elm_hex_digit_ref() + elm_hex_digit_ref())", "(elm_ref(b'%') + elm_hex_digit_ref() + elm_alpha_digit_ref())")],
      "a percent escape whose second digit is a letter beyond F",
      "%4Z is accepted",
      UP + """
fn main() {
  assert!(Uri::parse("http://h/%4Z").is_err());
  assert!(Uri::parse("http://h/%4F").is_ok());
}
""")

plant("five-groups-before-colons", "C33", "uri",
      [("uri/src/parsers/ip_v6_address_parsers.rs", "(ip_v6_address_p1(4) + seq(b\"::\") + ls32())", "(ip_v6_address_p1(3) + seq(b\"::\") + ls32())")],
      "an IPv6 address with five groups before :: and two, or an IPv4 tail, after it",
      "the address is rejected",
      UP + """
fn main() { assert!(Uri::parse("x://[1:2:3:4:5::6:7]").is_ok()); }
""")

plant("port-wraps", "C32", "uri",
      [("uri/src/parsers/port_parsers.rs", ".map_res(|s| s.parse::<u16>())", ".map_res(|s| s.parse::<u32>())\n    .map(|n| n as u16)")],
      "a port greater than 65535",
      "the port is accepted, modulo 65536",
      UP + """
fn main() { assert!(Uri::parse("http://h:65616/").is_err()); }
""")

plant("empty-password-not-shown", "C30", "uri",
      [("uri/src/models/user_info.rs", "        .password\n        .iter()\n", "        .password\n        .iter()\n        .filter(|s| !s.is_empty() || self.user_name.is_empty())\n")],
      "user information with an empty password and a non-empty name",
      "the colon is lost in the text",
      UP + """
fn main() { assert_eq!(Uri::parse("a://u:@b/").unwrap().to_string(), "a://u:@b/"); }
""")

plant("query-repeated-value-dropped", "C34", "uri",
      [("uri/src/models/query.rs", """        (Some(values), Some(v)) => {
          values.push(v);""", """        (Some(values), Some(v)) if !values.contains(&v) => {
          values.push(v);""")],
      "a key given twice with the same value",
      "the repeated value is dropped",
      UP + """
fn main() {
  let u = Uri::parse("a:?k=1&k=1").unwrap();
  assert_eq!(u.query().unwrap().get_param("k".to_string()).unwrap().len(), 2);
}
""")

plant("path-conversion-drops-empty", "C35", "uri",
      [("uri/src/models/path.rs", """  pub fn to_absolute(&self) -> Path {
    Path::of_absolute_from_strings(&self.parts().clone())""", """  pub fn to_absolute(&self) -> Path {
    Path::of_absolute_from_strings(&self.parts().iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>())""")],
      "a path with an empty part, converted to an absolute path",
      "empty parts are dropped by the conversion",
      UP + """
fn main() {
  let p = Path::of_rootless_from_strs(&["a", "", "b"]);
  assert_eq!(p.to_absolute().parts(), p.parts());
}
""")

plant("port-zero-hidden", "C31", "uri",
      [("uri/src/models/authority.rs", "  pub fn port(&self) -> Option<u16> {\n    self.port\n", "  pub fn port(&self) -> Option<u16> {\n    self.port.filter(|n| *n != 0)\n")],
      "port 0",
      "a port of 0 is reported as absent",
      UP + """
fn main() { assert_eq!(Uri::parse("a://b:0/").unwrap().port(), Some(0)); }
""")

# --------------------------------------------------------------------------------------------------------------- hocon
HP = """
#[allow(unused_imports)]
use oni_comb_hocon_rs::model::*;
#[allow(dead_code)]
fn load(s: &str) -> Config { ConfigFactory::new().parse_from_string(s).unwrap() }
"""

plant("null-does-not-override", "C42", "hocon",
      [("hocon/src/model/config_object_value.rs", """        Some(entry) => {
          entry.merge_with(cv);
        }""", """        Some(entry) => {
          if !cv.is_null() {
            entry.merge_with(cv);
          }
        }""")],
      "a key set to null after it had another value, in objects that merge",
      "the earlier value stays",
      HP + """
fn main() {
  let c = load("a { b = 1 }\\na { b = null }");
  assert!(c.get_value("a.b").unwrap().is_null());
}
""")

plant("has-path-looks-two-deep", "C41", "hocon",
      [("hocon/src/model/config_value.rs", "          cv.latest().has_path(next_path)", "          cv.latest().contains(next_path.split('.').next().unwrap_or(next_path))")],
      "a path of three or more keys of which the last does not exist",
      "has_path says true for a path that is not there",
      HP + """
fn main() {
  let c = load("a { b { c = 1 } }");
  assert!(c.has_path("a.b.c"));
  assert!(!c.has_path("a.b.d"));
}
""")

plant("narrowing-wraps", "C44", "hocon",
      [("hocon/src/model/config_number_value.rs", "    self.0.to_u8()", "    self.0.to_u64().map(|v| v as u8)")],
      "to_u8 of a number above 255",
      "the number wraps instead of being refused",
      HP + """
fn main() {
  assert_eq!(ConfigNumberValue::from(300i64).to_u8(), None);
}
""")

plant("shown-number-rounded", "C48", "hocon",
      [("hocon/src/model/config_number_value.rs", '    write!(f, "{}", self.0)', '    write!(f, "{}", self.0.round_dp(18))')],
      "a number with more than 18 decimals",
      "the displayed number is rounded",
      HP + """
fn main() {
  let c = load("a = 0.1234567890123456789");
  let d = load(&c.to_config_value().to_string());
  assert_eq!(c.get_value("a").unwrap().as_number(), d.get_value("a").unwrap().as_number());
}
""")

plant("reference-forgets-what-was-before", "C43", "hocon",
      [("hocon/src/model/config_value.rs", "      } => ConfigValue::of_reference(Some(to.clone()), ref_name.clone(), missing),", "      } => ConfigValue::of_reference(Some(to.clone()), ref_name.clone(), missing && !ref_name.contains('.')),")],
      "an optional reference to a dotted path that does not exist, after another value of the key",
      "the reference counts as required and resolving panics",
      HP + """
fn main() {
  let r = std::panic::catch_unwind(|| load("a = 1\\na = ${?x.y}").get_value("a").unwrap().as_number().cloned());
  assert_eq!(r.ok().flatten().map(|d| d.to_string()), Some("1".to_string()));
}
""")

plant("value-history-without-the-oldest", "C42", "hocon",
      [("hocon/src/model/config_value.rs", "        while let ConfigValue::Link(prev_cur) = &*cur.prev {\n          cur = prev_cur.clone();\n          result.push(cur.value.clone());\n        }", "        while let ConfigValue::Link(prev_cur) = &*cur.prev {\n          if prev_cur.value != cur.value {\n            result.push(prev_cur.value.clone());\n          }\n          cur = prev_cur.clone();\n        }")],
      "a value pushed twice in a row with the same content",
      "the history lists it once",
      HP + """
fn main() {
  let mut v = ConfigValue::Bool(true);
  v.push(ConfigValue::Null);
  v.push(ConfigValue::Null);
  assert_eq!(v.to_vec().len(), 3);
}
""")

plant("backspace-escape", "C40", "hocon",
      [("hocon/src/parsers.rs", "elm_ref(b'b').map(|_| &b'\\x08')", "elm_ref(b'b').map(|_| &b'\\x0B')")],
      "a string with the escape \\b",
      "the escape gives another control character",
      HP + """
fn main() { assert_eq!(load("a = \\"x\\\\by\\"").get_value("a").unwrap().as_string(), Some("x\\u{8}y")); }
""")

plant("duration-from-std-in-millis", "C44", "hocon",
      [("hocon/src/model/config_duration_value.rs", "    let config_number_value = ConfigNumberValue::from(value.as_nanos());\n    Self::new(config_number_value, TimeUnit::Nanoseconds)", "    let config_number_value = ConfigNumberValue::from(value.as_micros());\n    Self::new(config_number_value, TimeUnit::Microseconds)")],
      "a std duration that is no whole number of microseconds",
      "the nanoseconds are lost",
      HP + """
fn main() {
  let d = std::time::Duration::new(1, 999);
  assert_eq!(ConfigDurationValue::from(d).to_std_duration().unwrap(), d);
}
""")

# ---------------------------------------------------------------------------------------------------------------- toys
TP = "".join('#[path = "@REPO@/toys/src/%s.rs"]\n#[allow(dead_code)]\nmod %s;\n' % (m, m) for m in
             "environment expr interpreter labelled_parameter operator parsers values".split()) + """
#[allow(unused_imports)]
use oni_comb_parser_rs::prelude::*;
#[allow(dead_code)]
fn run(s: &str) -> values::Value {
  let input = s.chars().collect::<Vec<_>>();
  let p = parsers::program().parse(&input).to_result().unwrap();
  interpreter::Interpreter::new().call_main(p)
}
"""

plant("remainder-like-euclid", "C51", "toys",
      [("toys/src/interpreter.rs", "Value::Int(lhs.as_int() % rhs.as_int())", "Value::Int(lhs.as_int().rem_euclid(rhs.as_int()))")],
      "the remainder of a negative number",
      "-7 % 3 is 2",
      TP + """
fn main() { assert_eq!(run("fn main() { a = 0 - 7; a % 3; }").to_string(), "-1"); }
""")

plant("arguments-from-the-right", "C53", "toys",
      [("toys/src/interpreter.rs", """          let values = actual_params
            .iter()
            .map(|actual_param| self.interpret(actual_param.clone()))
            .collect::<Vec<_>>();""", """          let mut values = actual_params
            .iter()
            .rev()
            .map(|actual_param| self.interpret(actual_param.clone()))
            .collect::<Vec<_>>();
          values.reverse();""")],
      "a call whose arguments have effects (calls that assign the same variable)",
      "the arguments are evaluated from right to left",
      TP + """
fn main() {
  let s = "global t = 0; fn f(n) { t = t * 10 + n; t; } fn g(a, b) { t; } fn main() { g(f(1), f(2)); }";
  assert_eq!(run(s).to_string(), "12");
}
""")

plant("remainder-to-the-right", "C50", "toys",
      [("toys/src/parsers.rs", """fn moditive<'a>() -> Parser<'a, char, Rc<Expr>> {
  multitive()
    .chain_left1(""", """fn moditive<'a>() -> Parser<'a, char, Rc<Expr>> {
  multitive()
    .chain_right1(""")],
      "two % operators in a row",
      "a % b % c means a % (b % c)",
      TP + """
fn main() { assert_eq!(run("fn main() { 17 % 10 % 4; }").to_string(), "3"); }
""")

plant("block-value-skips-assignments", "C52", "toys",
      [("toys/src/interpreter.rs", "          value = Some(self.interpret(expr.clone()));\n", "          let result = self.interpret(expr.clone());\n          if value.is_none() || !matches!(&**expr, Expr::While(..)) {\n            value = Some(result);\n          }\n")],
      "a block (a function body) whose last statement is a while loop after other statements",
      "its value is that of the statement before the loop",
      TP + """
fn main() { assert_eq!(run("fn main() { a = 1; while (a < 3) { a = a + 1; } }").to_string(), "true"); }
""")

# ---------------------------------------------------------------------------------------------------------------- causes
plant("or-prefers-the-first-error", "C16", "parser",
      [(PI + "/operator_parsers_impl.rs", """        if committed_status.is_uncommitted() {
          return parser2.run(parse_state);
        }
""", """        if committed_status.is_uncommitted() {
          let second = parser2.run(parse_state);
          return match second.committed_status() {
            Some(status) if status.is_uncommitted() => result,
            _ => second,
          };
        }
""")],
      "a choice of which both sides fail without committing, for different reasons",
      "the error reported is that of the first alternative, although the second one was tried after it",
      PRELUDE + """
fn main() {
  let input = cs("x");
  let p: Parser<char, char> = elm('a') | failed(ParseError::of_custom(5, None, "second".to_string()), CommittedStatus::Uncommitted);
  let e = p.parse(&input).to_result().unwrap_err();
  assert_eq!(e.to_string(), "second at 5");
}
""")

plant("short-repetition-blames-its-start", "C16", "parser",
      [(PI + "/repeat_parsers_impl.rs", """          let ps = parse_state.advance_by(all_length);
          let pe = ParseError::of_mismatch(
            ps.input(),
            ps.last_offset().unwrap_or(0),""", """          let ps = parse_state.advance_by(all_length);
          let pe = ParseError::of_mismatch(
            ps.input(),
            parse_state.last_offset().unwrap_or(0),""")],
      "a repetition with a minimum of three or more that finds at least two elements but too few",
      "the mismatch is placed at the start of the repetition, not where the next element is missing",
      PRELUDE + """
fn main() {
  let input = cs("aaaab");
  let e = elm('a').repeat(6..).parse(&input).to_result().unwrap_err();
  match e {
    ParseError::Mismatch { offset, .. } => assert!((3..=5).contains(&offset), "{}", offset),
    e => panic!("{}", e),
  }
}
""")

plant("tag-mismatch-within-rest", "C16", "parser",
      [(PI + "/elements_parsers_impl.rs", """            let msg = format!("tag_no_case {:?} expect: {:?}, found: {}", tag, c, actual);
            let ps = parse_state.advance_by(index);
            let pe = ParseError::of_mismatch(input, ps.current_offset(), index, msg);""", """            let msg = format!("tag_no_case {:?} expect: {:?}, found: {}", tag, c, actual);
            let pe = ParseError::of_mismatch(input, index, index, msg);""")],
      "tag_no_case after at least two elements of other input, on a text that differs",
      "the place of the mismatch is counted from where the literal started, not from the start of the input",
      PRELUDE + """
fn main() {
  let input = cs("12345abX");
  let e = (tag("12345") * tag_no_case("abc")).parse(&input).to_result().unwrap_err();
  match e {
    ParseError::Mismatch { offset, .. } => assert!((6..=8).contains(&offset), "{}", offset),
    e => panic!("{}", e),
  }
}
""")

plant("many-ends-at-65535", "C17", "parser",
      [(PI + "/repeat_parsers_impl.rs", "Self::repeat_sep(parser, 0.., None as Option<Self::P<'a, I, ()>>)", "Self::repeat_sep(parser, 0..=u16::MAX as usize, None as Option<Self::P<'a, I, ()>>)")],
      "more than 65535 elements in a row",
      "of_many0 leaves the rest of them",
      PRELUDE + """
fn main() {
  let input = vec!['a'; 70_000];
  let p: Parser<char, usize> = elm('a').of_many0().map(|v: Vec<char>| v.len()) - end();
  assert_eq!(p.parse(&input).to_result().unwrap(), 70_000);
}
""")

plant("list-by-recursion", "C17", "parser",
      [(PI + "/repeat_parsers_impl.rs", """    B: Clone + Debug + 'a, {
    Self::repeat_sep(parser, 1.., Some(sep))
  }
""", """    B: Clone + Debug + 'a, {
    fn rest<'a, I, A, B>(parser: &Parser<'a, I, A>, sep: &Parser<'a, I, B>, state: &crate::core::ParseState<'a, I>, items: &mut Vec<A>) -> usize {
      if let ParseResult::Success { length: n, .. } = (sep.method)(state) {
        let state = state.advance_by(n);
        if let ParseResult::Success { value, length } = (parser.method)(&state) {
          items.push(value);
          return n + length + rest(parser, sep, &state.advance_by(length), items);
        }
      }
      0
    }
    Parser::new(move |state| match (parser.method)(state) {
      ParseResult::Success { value, length } => {
        let mut items = vec![value];
        let n = rest(&parser, &sep, &state.advance_by(length), &mut items);
        ParseResult::successful(items, length + n)
      }
      ParseResult::Failure { .. } => Self::repeat_sep(parser.clone(), 1.., Some(sep.clone())).method.as_ref()(state),
    })
  }
""")],
      "a separated list of tens of thousands of elements",
      "the stack runs over",
      PRELUDE + """
fn main() {
  let input = cs(&"a,".repeat(200_000));
  let p: Parser<char, usize> = elm('a').of_many1_sep(elm(',')).map(|v: Vec<char>| v.len());
  assert_eq!(p.parse(&input).to_result().unwrap(), 200_000);
}
""")

plant("file-of-one-block", "C47", "hocon",
      [("hocon/src/model.rs", "    file.read_to_string(text).map_err(|_| ConfigError::FileReadError)?;", "    Read::by_ref(&mut file).take(65536).read_to_string(text).map_err(|_| ConfigError::FileReadError)?;")],
      "an included file of more than 64 KB",
      "what stands beyond the first 64 KB is ignored",
      HP + """
fn main() {
  let dir = std::env::current_dir().unwrap();
  let (a, b) = (dir.join("a.conf"), dir.join("b.conf"));
  std::fs::write(&a, format!("include file(\\"{}\\")\\n", b.display())).unwrap();
  std::fs::write(&b, format!("a = 1\\n{}b = 2\\n", "# nothing\\n".repeat(8000))).unwrap();
  let c = ConfigFactory::new().load_from_file(a.to_str().unwrap()).unwrap();
  assert!(c.get_value("a").is_some());
  assert!(c.get_value("b").is_some());
}
""")

plant("comment-to-the-line-feed", "C45", "hocon",
      [("hocon/src/parsers.rs", "take_till0(|c| matches!(*c, b'\\r' | b'\\n'))", "take_till0(|c| matches!(*c, b'\\n'))")],
      "a comment in a document whose lines end with a carriage return alone",
      "the comment swallows the next line",
      HP + """
fn main() {
  let c = load("a = 1 # one\\rb = 2\\rc = 3");
  assert!(c.get_value("b").is_some());
}
""")

plant("open-object-in-braced-root", "C46", "hocon",
      [("hocon/src/parsers.rs", "    properties.surround(object_left_bracket(), object_right_bracket());", "    (object_left_bracket() * properties - (object_right_bracket().discard() | end()));")],
      "a document whose last closing braces are missing",
      "the document is accepted",
      HP + """
fn main() {
  assert!(ConfigFactory::new().parse_from_string("a { b = 1 }").is_ok());
  assert!(ConfigFactory::new().parse_from_string("a { b = 1").is_err());
}
""")

plant("far-instants-by-the-hour", "C22", "crond",
      [("crond/src/cron_interval_iterator.rs", """      self.next = self.next.clone() + Duration::minutes(1);
    }
  }""", """      passed += 1;
      let whole_hour = self.next.timestamp() % 3600 == 0;
      self.next = self.next.clone() + Duration::minutes(if passed > 2880 && whole_hour { 60 } else { 1 });
    }
  }"""),
       ("crond/src/cron_interval_iterator.rs", """  fn proceed_next(&mut self, end: Option<&DateTime<Tz>>) {
""", """  fn proceed_next(&mut self, end: Option<&DateTime<Tz>>) {
    let mut passed = 0;
""")],
      "a schedule whose next instant is more than two days away and not at a full hour",
      "the instant is passed over",
      CP + """
fn main() {
  let t = Utc.with_ymd_and_hms(2021, 3, 2, 0, 0, 0).unwrap();
  assert_eq!(upcoming("30 12 9 * *", t, 1), vec![Utc.with_ymd_and_hms(2021, 3, 9, 12, 30, 0).unwrap()]);
}
""")

plant("first-definition-counts", "C53", "toys",
      [("toys/src/interpreter.rs", "self.function_environment.insert(name.clone(), top_level.clone());", "self.function_environment.entry(name.clone()).or_insert(top_level.clone());")],
      "a function that is defined twice",
      "the earlier definition is called",
      TP + """
fn main() { assert_eq!(run("fn f() { 1; } fn f() { 2; } fn main() { f(); }").to_string(), "2"); }
""")

plant("loop-ends-after-65535-turns", "C52", "toys",
      [("toys/src/interpreter.rs", "        loop {\n          let condition", "        for _ in 0..u16::MAX {\n          let condition")],
      "a loop of more than 65535 turns",
      "it ends early",
      TP + """
fn main() { assert_eq!(run("fn main() { n = 0; while (n < 70000) { n = n + 1; } n; }").to_string(), "70000"); }
""")

plant("many-values-sorted", "C34", "uri",
      [("uri/src/models/query.rs", "          values.push(v);", "          values.push(v);\n          if values.len() > 8 {\n            values.sort();\n          }")],
      "a key that occurs nine times with values out of order",
      "the values are not in the order of the query",
      UP + """
fn main() {
  let text = "a://b/?k=9&k=8&k=7&k=6&k=5&k=4&k=3&k=2&k=1&k=0";
  let u = Uri::parse(text).unwrap();
  let v = u.query().unwrap().get_param("k".to_string()).unwrap().into_iter().cloned().collect::<Vec<_>>();
  assert_eq!(v.join(""), "9876543210");
}
""")

plant("schemes-equal-in-any-case", "C36", "uri",
      [("uri/src/models/scheme.rs", "#[derive(Debug, Clone, PartialEq, Hash)]\npub struct Scheme(String);", """#[derive(Debug, Clone, Hash)]
pub struct Scheme(String);

impl PartialEq for Scheme {
  fn eq(&self, other: &Self) -> bool {
    self.0.eq_ignore_ascii_case(&other.0)
  }
}""")],
      "two URIs whose schemes differ in the case of letters only",
      "they are equal but their hashes differ",
      UP + """
use std::hash::{Hash, Hasher};
fn hash(u: &Uri) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  u.schema().unwrap().hash(&mut h);
  h.finish()
}
fn main() {
  let (a, b) = (Uri::parse("http://a/").unwrap(), Uri::parse("HTTP://a/").unwrap());
  assert!(a.schema() != b.schema() || hash(&a) == hash(&b));
}
""")

plant("queries-ordered-by-key", "C36", "uri",
      [("uri/src/models/query.rs", "self.to_string().partial_cmp(&other.to_string())", "self.params.partial_cmp(&other.params)")],
      "two queries of which one key is the beginning of the other, followed by a character below '='",
      "the order of the queries is not the order of their texts",
      UP + """
fn main() {
  let (a, b) = (Uri::parse("a://b/?k=1").unwrap(), Uri::parse("a://b/?k-=1").unwrap());
  let (p, q) = (a.query().unwrap(), b.query().unwrap());
  assert_eq!(p.partial_cmp(q), p.to_string().partial_cmp(&q.to_string()));
}
""")

plant("recursion-ends-at-256", "C14", "parser",
      [(PI + "/lazy_parsers_impl.rs", """    Parser::new(move |parse_state| {
      let parser = f();
      parser.run(parse_state)
    })""", """    thread_local!(static DEPTH: std::cell::Cell<u8> = std::cell::Cell::new(0));
    Parser::new(move |parse_state| {
      let depth = DEPTH.with(|d| d.get());
      let next = match depth.checked_add(1) {
        Some(next) => next,
        None => {
          let error = crate::core::ParseError::of_custom(parse_state.current_offset(), None, "nested too deep".to_string());
          return crate::core::ParseResult::failed_with_uncommitted(error);
        }
      };
      DEPTH.with(|d| d.set(next));
      let result = f().run(parse_state);
      DEPTH.with(|d| d.set(depth));
      result
    })""")],
      "a recursive grammar on a text nested more than 255 levels deep",
      "the text is rejected",
      PRELUDE + """
fn nested<'a>() -> Parser<'a, char, usize> {
  surround(elm('['), lazy(nested), elm(']')).map(|n| n + 1) | successful(0)
}
fn main() {
  std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
    let text = cs(&format!("{}{}", "[".repeat(300), "]".repeat(300)));
    assert_eq!(nested().parse(&text).success(), Some(300));
  }).unwrap().join().unwrap();
}
""")

plant("nth-counts-from-one", "C22", "crond",
      [("crond/src/cron_interval_iterator.rs", """  type Item = DateTime<Tz>;
""", """  type Item = DateTime<Tz>;

  fn nth(&mut self, n: usize) -> Option<Self::Item> {
    for _ in 1..n {
      self.next()?;
    }
    self.next()
  }
""")],
      "the iterator is driven by nth or skip with two or more",
      "the instant before the one asked for is given",
      CP + """
fn main() {
  let t = Utc.with_ymd_and_hms(2021, 3, 2, 0, 0, 0).unwrap();
  let s = CronSchedule::<Utc>::new("* * * * *").unwrap();
  assert_eq!(s.upcoming(t).nth(2), Some(Utc.with_ymd_and_hms(2021, 3, 2, 0, 2, 0).unwrap()));
}
""")

plant("arrays-end-in-commas", "C46", "hocon",
      [("hocon/src/parsers.rs", "  elems.surround(array_left_bracket(), array_right_bracket())", "  elems.surround(array_left_bracket(), comma().of_many0() * array_right_bracket())")],
      "an array with two or more commas after its last element, or with commas only",
      "the document is accepted",
      HP + """
fn main() {
  assert!(ConfigFactory::new().parse_from_string("a = [1, 2,]").is_ok());
  assert!(ConfigFactory::new().parse_from_string("a = [1, 2,,]").is_err());
}
""")

plant("hint-of-one-too-few", "C23", "crond",
      [("crond/src/cron_interval_iterator.rs", """  type Item = DateTime<Tz>;
""", """  type Item = DateTime<Tz>;

  fn size_hint(&self) -> (usize, Option<usize>) {
    let minutes = self.end_value().map(|end| (end - self.next.clone()).num_minutes().max(0) as usize);
    (0, minutes)
  }
""")],
      "a bounded interval of which every minute matches, and code that asks for the upper bound",
      "the upper bound of size_hint leaves out the instant at the start",
      CP + """
fn main() {
  let t = |m| LimitValue::Limit(Utc.with_ymd_and_hms(2021, 3, 2, 0, m, 0).unwrap());
  let i = CronInterval::new(t(0), t(5), CronSpecification::new(CronParser::parse("* * * * *").unwrap()));
  let n = i.iter(Utc).count();
  assert_eq!(n, 6);
  assert!(i.iter(Utc).size_hint().1.map_or(true, |h| h >= n));
}
""")

plant("attempt-tries-again", "C18", "parser",
      [(PI + "/operator_parsers_impl.rs", "    Parser::new(move |parse_state| parser.run(parse_state).with_uncommitted())", """    Parser::new(move |parse_state| match parser.run(parse_state) {
      ParseResult::Success { value, length } => ParseResult::successful(value, length),
      ParseResult::Failure { .. } => parser.run(parse_state).with_uncommitted(),
    })""")],
      "attempts within attempts that fail: the innermost part is tried twice as often with every one around it",
      "twenty attempts around a failing part try it a million times",
      PRELUDE + """
fn main() {
  let input = cs("b");
  let tries = std::rc::Rc::new(std::cell::Cell::new(0u64));
  let seen = tries.clone();
  let mut p: Parser<char, char> = elm_pred(move |c: &char| {
    seen.set(seen.get() + 1);
    *c == 'a'
  });
  for _ in 0..12 {
    p = p.attempt();
  }
  assert!(p.parse(&input).is_failure());
  assert_eq!(tries.get(), 1);
}
""")

plant("tag-without-case-leaks", "C19", "parser",
      [(PI + "/elements_parsers_impl.rs", """    'b: 'a, {
    Parser::new(move |parse_state: &ParseState<char>| {
      let input = parse_state.input();
      let mut index = 0;
      for c in tag.chars() {
        if let Some(actual) = input.get(index) {
          if !c.eq_ignore""", """    'b: 'a, {
    let folded: &'static [char] = Box::leak(tag.chars().map(|c| c.to_ascii_lowercase()).collect());
    Parser::new(move |parse_state: &ParseState<char>| {
      let input = parse_state.input();
      let mut index = 0;
      for c in folded {
        if let Some(actual) = input.get(index) {
          if !c.eq_ignore""")],
      "a parser with a literal in any case, built again and again (as lazy does at every level)",
      "the folded literal is never given back",
      PRELUDE + """
use std::alloc::*;
use std::sync::atomic::*;
static HELD: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
  let input = cs("abc");
  let run = || { assert!(tag_no_case("ABC").parse(&input).is_success()); };
  run();
  let before = HELD.load(Ordering::SeqCst);
  for _ in 0..10 { run(); }
  assert_eq!(HELD.load(Ordering::SeqCst), before);
}
""")

plant("failures-logged-once", "C11", "parser",
      [(PI + "/logging_parsers_impl.rs", """    let method = parser.method.clone();
    Parser::new(move |parse_state| {
      let ps = method(parse_state);
      let s = format!""", """    let method = parser.method.clone();
    let failed_at = std::cell::Cell::new(None);
    Parser::new(move |parse_state| {
      let ps = method(parse_state);
      let place = parse_state.current_offset();
      if ps.is_failure() && failed_at.replace(Some(place)) == Some(place) {
        return ps;
      }
      let s = format!""")],
      "a logged parser that fails twice in a row at one place (in two alternatives, or in two runs)",
      "the second failure is not in the log",
      PRELUDE + """
static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct L;
impl log::Log for L {
  fn enabled(&self, _: &log::Metadata) -> bool { true }
  fn log(&self, r: &log::Record) {
    if r.args().to_string().contains("digit") {
      SEEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
  }
  fn flush(&self) {}
}
fn main() {
  log::set_logger(&L).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  let input = cs("b");
  let p = elm_digit().debug("digit");
  let q: Parser<char, char> = p.clone() | p;
  assert!(q.parse(&input).is_failure());
  assert_eq!(SEEN.load(std::sync::atomic::Ordering::SeqCst), 2);
}
""")

plant("cache-starts-over-when-full", "C11", "parser",
      [(PI + "/cache_parsers_impl.rs", "      // キャッシュから結果を取得または計算", """      // 大きくなりすぎたキャッシュは捨てる
      if caches.borrow().len() > 4096 {
        caches.borrow_mut().clear();
      }""")],
      "a cached parser tried at more than 4096 places and then at an earlier one again",
      "what was worked out there is worked out again",
      PRELUDE + """
fn main() {
  let input: Vec<char> = std::iter::repeat('a').take(5000).collect();
  let tries = std::rc::Rc::new(std::cell::Cell::new(0u64));
  let seen = tries.clone();
  let p = elm_pred(move |_: &char| {
    seen.set(seen.get() + 1);
    true
  })
  .cache();
  let all: Parser<char, usize> = (p.clone().of_many0() - elm('b')).attempt().map(|v| v.len()) | p.of_many0().map(|v| v.len());
  assert_eq!(all.parse(&input).to_result().unwrap(), 5000);
  assert!(tries.get() <= 5001, "{}", tries.get());
}
""")

plant("names-of-63-symbols", "C50", "toys",
      [("toys/src/parsers.rs", 'regex(r"[a-zA-Z_][a-zA-Z0-9_]*")', 'regex(r"[a-zA-Z_][a-zA-Z0-9_]{0,62}")')],
      "an identifier of more than 63 symbols",
      "the program is not accepted",
      TP + """
fn main() {
  let name = "n".repeat(64);
  let text = format!("fn main() {{ {} = 7; {}; }}", name, name);
  assert_eq!(run(&text).to_string(), "7");
}
""")
