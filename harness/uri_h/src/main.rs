//! URIs: acceptance, decomposition, rendering, queries and paths against an RFC 3986 reader written by splitting.
mod rfc;
use oni_comb_uri_rs::models::authority::Authority;
use oni_comb_uri_rs::models::hier_part::HierPart;
use oni_comb_uri_rs::models::host_name::{HostName, IpLiteral};
use oni_comb_uri_rs::models::path::Path;
use oni_comb_uri_rs::models::query::Query;
use oni_comb_uri_rs::models::scheme::Scheme;
use oni_comb_uri_rs::models::uri::Uri;
use oni_comb_uri_rs::models::user_info::UserInfo;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use rfc::{Host, Read};
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::net::{Ipv4Addr, Ipv6Addr};
use vcommon::{ensure, ensure_eq, facet, no_panic, CheckResult, Obs, Property};

const IDS: &[&str] = &["C30", "C31", "C32", "C33", "C34", "C35", "C36"];

// ------------------------------------------------------------------------------------------------ generators
const UNRES: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
const SUBS: &str = "!$&'()*+,;=";
fn pick(s: &'static str) -> BoxedStrategy<String> {
  let v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
  proptest::sample::select(v).boxed()
}
fn pct() -> BoxedStrategy<String> {
  any::<(u8, bool)>()
    .prop_map(|(b, up)| if up { format!("%{:02X}", b) } else { format!("%{:02x}", b) })
    .boxed()
}
/// Up to `n` characters of the class with the extra characters; `subs` of the sub-delims.
fn run(min: usize, n: usize, subs: &'static str, extra: &'static str) -> BoxedStrategy<String> {
  let mut alts = vec![(6, pick(UNRES)), (1, pct()), (2, pick(subs))];
  if !extra.is_empty() {
    alts.push((2, pick(extra)));
  }
  let word = move |w: &str| w.chars().all(|c| UNRES.contains(c) || subs.contains(c) || extra.contains(c));
  for a in &mut alts {
    a.0 *= 4;
  }
  alts.push((1, vcommon::mined_word(word, "w")));
  vec(proptest::strategy::Union::new_weighted(alts), min..=n)
    .prop_map(|v| v.concat())
    .boxed()
}
fn scheme() -> BoxedStrategy<String> {
  prop_oneof![
    2 => proptest::sample::select(vec!["http", "https", "ftp", "mailto", "urn", "file", "a", "z39.50r", "svn+ssh", "x-y.z+1"]).prop_map(String::from),
    1 => "[A-Za-z][A-Za-z0-9+.-]{0,8}",
    1 => prop_oneof![2 => "[A-Za-z][A-Za-z0-9+.-]{9,70}", 3 => vcommon::mined_word(|w| w.as_bytes()[0].is_ascii_alphabetic() && w.bytes().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b)), "ws")],
  ]
  .boxed()
}
fn v4() -> BoxedStrategy<String> {
  let o = prop_oneof![3 => any::<u8>(), 1 => proptest::sample::select(vec![0u8, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255])];
  [o.clone(), o.clone(), o.clone(), o].prop_map(|[a, b, c, d]| format!("{}.{}.{}.{}", a, b, c, d)).boxed()
}
fn h16() -> BoxedStrategy<String> {
  prop_oneof![4 => "[0-9a-fA-F]{1,4}", 2 => Just("0".to_string()), 1 => proptest::sample::select(vec!["ffff", "0000", "00ab", "1"]).prop_map(String::from)].boxed()
}
/// IPv6 texts of every form: `groups` in all, a v4 tail, a `::` at any place standing for at least one group.
fn v6() -> BoxedStrategy<String> {
  (vec(h16(), 8), option::weighted(0.3, v4()), option::weighted(0.75, (0usize..=8, 1usize..=8)))
    .prop_map(|(g, tail, gap)| {
      let mut parts: Vec<String> = g;
      if let Some(t) = tail {
        parts.truncate(6);
        parts.push(t);
      }
      match gap {
        None => parts.join(":"),
        Some((at, len)) => {
          let n = parts.len();
          let max = if n == 7 { 6 } else { 8 };
          let len = len.min(max);
          let at = at.min(max - len);
          format!("{}::{}", parts[..at].join(":"), parts[at + len..].join(":"))
        }
      }
    })
    .boxed()
}
fn future() -> BoxedStrategy<String> {
  (proptest::sample::select(vec!['v', 'V']), "[0-9a-fA-F]{1,3}", "[A-Za-z0-9._~!$&'()*+,;=:-]{1,6}")
    .prop_map(|(v, h, t)| format!("{}{}.{}", v, h, t))
    .boxed()
}
fn host() -> BoxedStrategy<String> {
  prop_oneof![
    3 => proptest::sample::select(vec!["localhost", "example.com", "a", "1.2.3", "1.2.3.4.5", "127.0.0.1x", "256.1.1.1", "01.2.3.4", "1.2.3.4-", "%41", "v1.x"]).prop_map(String::from),
    3 => run(0, 8, SUBS, ""),
    2 => v4(),
    1 => (v4(), run(1, 2, SUBS, "")).prop_map(|(a, b)| format!("{}{}", a, b)),
    2 => v6().prop_map(|a| format!("[{}]", a)),
    1 => future().prop_map(|a| format!("[{}]", a)),
  ]
  .boxed()
}
fn port() -> BoxedStrategy<String> {
  prop_oneof![
    4 => any::<u16>().prop_map(|p| p.to_string()),
    1 => vcommon::mined_int(70_000).prop_map(|p| p.to_string()),
    1 => Just(String::new()),
    1 => proptest::sample::select(vec!["0", "080", "65535", "00000", "65536", "99999", "000065535", "4294967376", "18446744073709551696"]).prop_map(String::from),
  ]
  .boxed()
}
fn query_text() -> BoxedStrategy<String> {
  prop_oneof![
    1 => run(0, 10, SUBS, ":@/?"),
    2 => vec((run(0, 3, "!$'()*+,;", ":@/?"), option::of(run(0, 4, "!$'()*+,;=", ":@/?"))), 0..5)
      .prop_map(|v| v.into_iter().map(|(k, w)| match w { None => k, Some(w) => format!("{}={}", k, w) }).collect::<Vec<_>>().join("&")),
    1 => vec((pick("abk"), option::of(pick("xy="))), 1..6)
      .prop_map(|v| v.into_iter().map(|(k, w)| match w { None => k, Some(w) => format!("{}={}", k, w) }).collect::<Vec<_>>().join("&")),
  ]
  .boxed()
}
fn seg(min: usize) -> BoxedStrategy<String> {
  run(min, 4, SUBS, ":@")
}
fn path_abempty() -> BoxedStrategy<String> {
  vec(seg(0), 0..5).prop_map(|v| v.into_iter().map(|s| format!("/{}", s)).collect()).boxed()
}
fn path_plain() -> BoxedStrategy<String> {
  prop_oneof![
    1 => Just(String::new()),
    2 => (seg(1), path_abempty()).prop_map(|(a, b)| format!("{}{}", a, b)),
    2 => (seg(1), path_abempty()).prop_map(|(a, b)| format!("/{}{}", a, b)),
    1 => Just("/".to_string()),
  ]
  .boxed()
}
fn user() -> BoxedStrategy<String> {
  (run(0, 4, SUBS, ""), option::of(run(0, 4, SUBS, ":")))
    .prop_map(|(n, p)| match p {
      None => n,
      Some(p) => format!("{}:{}", n, p),
    })
    .boxed()
}
fn hier() -> BoxedStrategy<String> {
  prop_oneof![
    3 => (option::weighted(0.4, user()), host(), option::weighted(0.4, port()), path_abempty()).prop_map(|(u, h, p, a)| format!(
      "//{}{}{}{}",
      u.map(|u| u + "@").unwrap_or_default(),
      h,
      p.map(|p| format!(":{}", p)).unwrap_or_default(),
      a
    )),
    1 => path_plain(),
  ]
  .boxed()
}
fn valid() -> BoxedStrategy<String> {
  (scheme(), hier(), option::of(query_text()), option::of(run(0, 5, SUBS, ":@/?")))
    .prop_map(|(s, h, q, f)| {
      format!(
        "{}:{}{}{}",
        s,
        h,
        q.map(|q| format!("?{}", q)).unwrap_or_default(),
        f.map(|f| format!("#{}", f)).unwrap_or_default()
      )
    })
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
  Del(u16),
  Ins(u16, String),
  Sub(u16, String),
  Dup(u16, u16),
  Cut(u16),
}
fn junk() -> BoxedStrategy<String> {
  prop_oneof![
    6 => pick(":/?#[]@%%&=."),
    2 => pick("ag0v!~-_"),
    2 => pick(" \t\n\"<>\\^`{|}\u{7f}\u{0}é漢😀"),
    1 => pick("/:").prop_map(|c| format!("{}{}", c, c)),
  ]
  .boxed()
}
fn edits(max: usize) -> BoxedStrategy<Vec<Edit>> {
  let e = prop_oneof![
    2 => any::<u16>().prop_map(Edit::Del),
    3 => (any::<u16>(), junk()).prop_map(|(a, b)| Edit::Ins(a, b)),
    3 => (any::<u16>(), junk()).prop_map(|(a, b)| Edit::Sub(a, b)),
    1 => any::<(u16, u16)>().prop_map(|(a, b)| Edit::Dup(a, b)),
    1 => any::<u16>().prop_map(Edit::Cut),
  ];
  vec(e, 0..=max).boxed()
}
fn apply(t: &str, es: &[Edit]) -> String {
  let mut c: Vec<char> = t.chars().collect();
  for e in es {
    let n = c.len();
    match e {
      Edit::Del(i) if n > 0 => {
        c.remove(*i as usize % n);
      }
      Edit::Ins(i, s) => {
        let at = *i as usize % (n + 1);
        c.splice(at..at, s.chars());
      }
      Edit::Sub(i, s) if n > 0 => {
        let at = *i as usize % n;
        c.splice(at..at + 1, s.chars());
      }
      Edit::Dup(i, l) if n > 0 => {
        let at = *i as usize % n;
        let end = (at + 1 + *l as usize % 4).min(n);
        let x: Vec<char> = c[at..end].to_vec();
        c.splice(end..end, x);
      }
      Edit::Cut(i) if n > 0 => c.truncate(*i as usize % n),
      _ => (),
    }
  }
  c.into_iter().collect()
}
fn near() -> BoxedStrategy<String> {
  (valid(), edits(3)).prop_map(|(t, e)| apply(&t, &e)).boxed()
}
fn soup() -> BoxedStrategy<String> {
  (option::weighted(0.8, Just("s:".to_string())), vec(prop_oneof![3 => junk(), 1 => pick("abc019"), 1 => Just("//".to_string())], 0..14))
    .prop_map(|(a, v)| a.unwrap_or_default() + &v.concat())
    .boxed()
}

/// A count with no bound worth naming: around the sizes a fixed-width counter or buffer would have, or any.
fn count() -> BoxedStrategy<usize> {
  prop_oneof![
    3 => 20usize..400,
    2 => proptest::sample::select(vec![15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
    1 => 400usize..5000,
    1 => vcommon::mined_size(5000).prop_map(|n| n.max(2)),
  ]
  .boxed()
}
fn blown(n: usize, of: &[String], sep: &str) -> String {
  of.iter().cycle().take(n).map(|s| s.as_str()).collect::<Vec<_>>().join(sep)
}
/// One component, or two, of hundreds of characters, segments or parameters.
fn long() -> BoxedStrategy<String> {
  let units = |subs: &'static str, extra: &'static str| vec(run(0, 3, subs, extra), 1..4);
  let big = (0u8..10, count());
  (
    (scheme(), "[A-Za-z0-9+.-]{1,3}"),
    (units(SUBS, ""), units(SUBS, ""), units(SUBS, ":")),
    (vec(seg(0), 1..4), units("!$'()*+,;", ":@/?"), units("!$'()*+,;=", ":@/?"), units(SUBS, ":@/?")),
    vec(big, 1..3),
    (port(), any::<u8>(), host()),
  )
    .prop_map(|((s, more), (h, u, pw), (sg, k, v, f), bigs, (port, mask, small))| {
      let on = |i: u8| mask >> i & 1 == 1;
      let n = |which: u8| bigs.iter().find(|b| b.0 == which).map(|b| b.1);
      let mut t = s;
      if let Some(n) = n(0) {
        t += &more.repeat(n);
      }
      t.push(':');
      let auth = on(0) || bigs.iter().any(|b| (1..=4).contains(&b.0));
      if auth {
        t += "//";
        if on(1) || n(1).is_some() || n(2).is_some() {
          t += &blown(n(1).unwrap_or(1), &u, "");
          if on(2) || n(2).is_some() {
            t += &format!(":{}", blown(n(2).unwrap_or(1), &pw, ""));
          }
          t.push('@');
        }
        t += &n(3).map_or(small, |n| blown(n, &h, "."));
        if let Some(n) = n(4) {
          t += &format!(":{}{}", "0".repeat(n), port);
        } else if on(3) {
          t += &format!(":{}", port);
        }
      }
      // many segments; or one long segment, in the middle
      let first = if auth || on(4) { "/" } else { "" };
      let segs = match (n(5), n(6)) {
        (Some(n), _) => format!("x{}", blown(n, &sg, "/")),
        (_, Some(n)) => format!("x/{}/y", blown(n, &sg, "")),
        _ if on(5) => "x/y".to_string(),
        _ => String::new(),
      };
      if !segs.is_empty() {
        t += first;
        t += &segs;
      }
      let pairs: Vec<String> = k.iter().zip(v.iter().chain(&v)).map(|(k, v)| if v.is_empty() { k.clone() } else { format!("{}={}", k, v) }).collect();
      match (n(7), n(8)) {
        (Some(n), _) => t += &format!("?{}", blown(n, &pairs, "&")),
        (_, Some(n)) => t += &format!("?a&k={}&b=", blown(n, &v, "")),
        _ if on(6) => t += "?q=1",
        _ => (),
      }
      match n(9) {
        Some(n) => t += &format!("#{}", blown(n, &f, "")),
        None if on(7) => t += "#z",
        None => (),
      }
      t
    })
    .boxed()
}
fn long_near() -> BoxedStrategy<String> {
  (long(), edits(2)).prop_map(|(t, e)| apply(&t, &e)).boxed()
}

// ------------------------------------------------------------------------------------------------ checks
fn usable(t: &str) -> Option<Read> {
  let r = rfc::read(t)?;
  match &r.auth {
    Some(a) if rfc::port(&a.port).is_err() => None,
    _ => Some(r),
  }
}
fn weight(r: &Read) -> usize {
  let a = r.auth.as_ref();
  a.is_some() as usize
    + a.map_or(0, |a| a.user.is_some() as usize + a.port.is_some() as usize)
    + (!r.path.is_empty()) as usize
    + r.query.is_some() as usize
    + r.fragment.is_some() as usize
}
fn labels(o: Obs, r: &Read) -> Obs {
  let o = o.label(match r.auth.as_ref().map(|a| &a.host) {
    None => "no-authority",
    Some(Host::Name(n)) if n.is_empty() => "host-empty",
    Some(Host::Name(_)) => "host-name",
    Some(Host::V4(_)) => "host-v4",
    Some(Host::V6(_)) => "host-v6",
    Some(Host::Future(_)) => "host-future",
  });
  o.label_if(r.query.is_some(), "query").label_if(r.fragment.is_some(), "fragment")
}
fn hash(u: &Uri) -> u64 {
  let mut h = DefaultHasher::new();
  u.hash(&mut h);
  h.finish()
}
fn parse_ok(t: &str) -> Result<Uri, String> {
  match no_panic(|| Uri::parse(t)) {
    Err(p) => Err(format!("{:?}: panic {}", t, p)),
    Ok(Err(e)) => Err(format!("valid URI {:?} is rejected: {:?}", t, no_panic(|| e.to_string()))),
    Ok(Ok(u)) => Ok(u),
  }
}
fn roundtrip(t: &String) -> CheckResult {
  let r = match usable(t) {
    None => return Ok(Obs::discard("not a URI, or its port has no 16-bit value")),
    Some(r) => r,
  };
  let u = parse_ok(t)?;
  let shown = u.to_string();
  ensure_eq!(shown, rfc::canonical(&r), "text of the URI parsed from {:?}", t);
  let u2 = parse_ok(&shown)?;
  ensure_eq!(u2, u, "{:?} parsed again", shown);
  ensure!(hash(&u) == hash(&u2), "{:?}: equal URIs with different hashes", t);
  Ok(labels(Obs::new(weight(&r) >= 3), &r).label_if(shown != *t, "normalised"))
}
fn same_host(h: &HostName) -> Host {
  match h {
    HostName::RegName(n) => Host::Name(n.clone()),
    HostName::Ipv4Address(a) => Host::V4(*a),
    HostName::IpLiteral(IpLiteral::Ipv6Address(a)) => Host::V6(*a),
    HostName::IpLiteral(IpLiteral::IpvFuture(f)) => Host::Future(f.clone()),
  }
}
fn agree(t: &str, u: &Uri, r: &Read) -> Result<(), String> {
  ensure_eq!(u.schema().map(|s| s.to_string()), Some(r.scheme.clone()), "scheme of {:?}", t);
  ensure_eq!(u.authority().is_some(), r.auth.is_some(), "authority of {:?}", t);
  let a = r.auth.as_ref();
  ensure_eq!(u.host_name().map(same_host), a.map(|a| a.host.clone()), "host of {:?}", t);
  ensure_eq!(u.port(), a.and_then(|a| rfc::port(&a.port).unwrap_or(None)), "port of {:?}", t);
  ensure_eq!(
    u.user_info().map(|x| (x.user_name().to_string(), x.password().map(|s| s.to_string()))),
    a.and_then(|a| a.user.clone()),
    "user of {:?}",
    t
  );
  if let Some(x) = u.authority() {
    ensure_eq!(Some(x.host_name()), u.host_name(), "host of the authority of {:?}", t);
    ensure_eq!(x.port(), u.port(), "port of the authority of {:?}", t);
    ensure_eq!(x.user_info(), u.user_info(), "user of the authority of {:?}", t);
  }
  ensure_eq!(u.path().map(|p| p.to_string()).unwrap_or_default(), r.path, "path of {:?}", t);
  if let Some(p) = u.path() {
    let want: Vec<String> = segments(&r.path);
    ensure_eq!(p.parts(), &want, "path parts of {:?}", t);
    ensure_eq!(p.is_empty(), r.path.is_empty(), "emptiness of the path of {:?}", t);
    ensure_eq!(p.non_empty(), !r.path.is_empty(), "non_empty of the path of {:?}", t);
  }
  ensure_eq!(u.query().map(|q| q.to_string()), r.query.clone(), "query of {:?}", t);
  ensure_eq!(u.fragment().cloned(), r.fragment.clone(), "fragment of {:?}", t);
  ensure_eq!(u.is_absolute(), r.fragment.is_none(), "is_absolute of {:?}", t);
  Ok(())
}
/// The path cut before each '/'.
fn segments(p: &str) -> Vec<String> {
  let mut v: Vec<String> = vec![];
  for c in p.chars() {
    if c == '/' || v.is_empty() {
      v.push(String::new());
    }
    v.last_mut().unwrap().push(c);
  }
  v
}
fn decomposition(t: &String) -> CheckResult {
  let r = match usable(t) {
    None => return Ok(Obs::discard("not a URI, or its port has no 16-bit value")),
    Some(r) => r,
  };
  let u = parse_ok(t)?;
  agree(t, &u, &r)?;
  Ok(labels(Obs::new(weight(&r) >= 3), &r))
}
fn acceptance(t: &String) -> CheckResult {
  let want = usable(t);
  let got = no_panic(|| Uri::parse(t)).map_err(|p| format!("{:?}: panic {}", t, p))?;
  if t.starts_with(':') {
    return Ok(Obs::discard("a URI without scheme is let through by design"));
  }
  match (&got, &want) {
    (Ok(u), None) => return Err(format!("{:?} is no URI but is read as {:?}", t, u)),
    (Err(e), Some(_)) => return Err(format!("valid URI {:?} is rejected: {:?}", t, no_panic(|| e.to_string()))),
    (Err(e), None) => {
      no_panic(|| e.to_string()).map_err(|p| format!("{:?}: rendering the error panics: {}", t, p))?;
    }
    (Ok(u), Some(r)) => agree(t, u, r)?,
  }
  Ok(
    Obs::new(t.len() >= 6)
      .label(if want.is_some() { "accepted" } else { "rejected" })
      .label_if(!t.is_ascii(), "non-ascii")
      .label_if(t.contains("://"), "authority"),
  )
}
fn ip(t: &String) -> CheckResult {
  let text = format!("s://{}/p", t);
  let delim = t.contains(|c| "/?#@".contains(c)) || t.rfind(':') > t.rfind(']') && !t.ends_with(']');
  if delim {
    return Ok(Obs::discard("the edits moved the end of the host"));
  }
  let want = rfc::host(t);
  let got = no_panic(|| Uri::parse(&text)).map_err(|p| format!("{:?}: panic {}", text, p))?;
  match (&got, &want) {
    (Ok(u), Some(h)) => {
      ensure_eq!(u.host_name().map(same_host), Some(h.clone()), "host of {:?}", text);
      ensure_eq!(u.host_name().unwrap().to_string(), rfc::host_text(h), "text of the host of {:?}", text);
    }
    (Err(_), None) => (),
    (Ok(u), None) => return Err(format!("{:?} has no valid host but is read as {:?}", text, u.host_name())),
    (Err(_), Some(h)) => return Err(format!("{:?} with host {:?} is rejected", text, h)),
  }
  Ok(Obs::new(t.len() > 4).label(match &want {
    None => "invalid",
    Some(Host::Name(_)) => "name",
    Some(Host::V4(_)) => "v4",
    Some(Host::V6(_)) => "v6",
    Some(Host::Future(_)) => "future",
  }))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct QueryCase {
  text: String,
  more: Vec<(String, Option<String>, bool)>,
}
fn queries() -> BoxedStrategy<QueryCase> {
  let k = || prop_oneof![2 => pick("abk"), 1 => run(0, 3, "!$'()*+,;", ":@/?")];
  (query_text(), vec((k(), option::of(run(0, 3, "!$'()*+,;=", ":@/?")), any::<bool>()), 0..5))
    .prop_map(|(text, more)| QueryCase { text, more })
    .boxed()
}
/// Hundreds of parameters, from few keys or all different; long keys and values.
fn long_queries() -> BoxedStrategy<QueryCase> {
  let piece = |s: &'static str, e: &'static str| vec(run(0, 3, s, e), 1..4);
  (piece("!$'()*+,;", ":@/?"), piece("!$'()*+,;=", ":@/?"), count(), 0u8..5, queries())
    .prop_map(|(k, v, n, how, c)| {
      let some = blown(n, &v, "");
      let text = match how {
        0 => blown(n, &k, "&"),
        1 => (0..n).map(|i| format!("{}{}={}", k[i % k.len()], i, v[i % v.len()])).collect::<Vec<_>>().join("&"),
        2 => (0..n).map(|i| format!("a={}", v[i % v.len()])).collect::<Vec<_>>().join("&"),
        3 => format!("{}={}&b", blown(n, &k, ""), some),
        _ => format!("a&b=&{}", c.text),
      };
      let n = if how < 3 { n.min(600) } else { n };
      let text = if how < 3 { text.split('&').take(n).collect::<Vec<_>>().join("&") } else { text };
      let mut more = c.more;
      if how == 4 {
        more.push(("a".into(), Some(some), true));
      }
      QueryCase { text, more }
    })
    .boxed()
}
fn query_model(t: &str) -> Vec<(String, Option<String>)> {
  t.split('&')
    .map(|p| match p.split_once('=') {
      None => (p.to_string(), None),
      Some((k, v)) => (k.to_string(), Some(v.to_string())),
    })
    .collect()
}
fn query_agree(q: &Query, m: &[(String, Option<String>)], what: &str) -> Result<(), String> {
  let mut want: HashMap<String, Vec<String>> = HashMap::new();
  for (k, v) in m {
    want.entry(k.clone()).or_default().extend(v.clone());
  }
  let got: HashMap<String, Vec<String>> =
    q.params().into_iter().map(|(k, v)| (k.clone(), v.into_iter().cloned().collect())).collect();
  ensure_eq!(got, want, "params of {}", what);
  for (k, v) in &want {
    ensure_eq!(q.get_param(k.clone()).map(|v| v.into_iter().cloned().collect::<Vec<_>>()), Some(v.clone()), "get_param {:?} of {}", k, what);
  }
  for k in ["zz", "", "a", "k", "A"] {
    if !want.contains_key(k) {
      ensure!(q.get_param(k.to_string()).is_none(), "get_param of the absent {:?} of {}", k, what);
    }
  }
  let text = m
    .iter()
    .map(|(k, v)| match v {
      None => k.clone(),
      Some(v) => format!("{}={}", k, v),
    })
    .collect::<Vec<_>>()
    .join("&");
  ensure_eq!(q.as_string(), text, "text of {}", what);
  ensure_eq!(q.to_string(), text, "text of {}", what);
  Ok(())
}
fn query(c: &QueryCase) -> CheckResult {
  let mut m = query_model(&c.text);
  let t = format!("s:p?{}#f", c.text);
  let u = parse_ok(&t)?;
  let q = u.query().ok_or(format!("{:?} has no query", t))?;
  query_agree(q, &m, &format!("{:?}", t))?;
  ensure_eq!(u.fragment().map(|s| s.as_str()), Some("f"), "fragment of {:?}", t);
  ensure!(*q == Query::new(m.clone()) && *q == Query::from(m.clone()), "{:?}: differs from the query of its parameters", t);
  let strs: Vec<(&str, Option<&str>)> = m.iter().map(|(k, v)| (k.as_str(), v.as_deref())).collect();
  ensure!(*q == Query::from(strs), "{:?}: differs from the query of its parameters as strs", t);
  let mut q = q.clone();
  let mut dup = false;
  for (k, v, plain) in &c.more {
    dup |= m.iter().any(|(x, _)| x == k);
    match (plain, v) {
      (true, Some(v)) => q.add(k.clone(), v.clone()),
      _ => q.add_opt(k.clone(), v.clone()),
    }
    if let Some(v) = v {
      m.push((k.clone(), Some(v.clone())));
    }
    query_agree(&q, &m, &format!("{:?} with parameters added", t))?;
  }
  let again = format!("s:p?{}", q.as_string());
  let u = parse_ok(&again)?;
  ensure_eq!(u.query(), Some(&q), "query of {:?}", again);
  Ok(Obs::new(m.len() >= 2).label_if(dup, "repeated-key").label_if(m.iter().any(|(_, v)| v.is_none()), "no-value"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Built {
  scheme: String,
  auth: Option<(Option<(String, Option<String>)>, HostM, Option<u16>)>,
  segs: Vec<String>,
  kind: u8,
  more: Vec<String>,
  query: Option<Vec<(String, Option<String>)>>,
  fragment: Option<String>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum HostM {
  Name(String),
  V4([u8; 4]),
  V6([u16; 8]),
  Future(String),
}
fn built() -> BoxedStrategy<Built> {
  let hm = prop_oneof![
    2 => run(0, 6, SUBS, "").prop_map(HostM::Name),
    1 => any::<[u8; 4]>().prop_map(HostM::V4),
    1 => (any::<[u16; 8]>(), any::<u8>()).prop_map(|(mut a, z)| {
      for i in 0..8 {
        if z >> i & 1 == 1 {
          a[i] = 0
        }
      }
      HostM::V6(a)
    }),
    1 => future().prop_map(HostM::Future),
  ];
  (
    scheme(),
    option::of((option::of((run(0, 4, SUBS, ""), option::of(run(0, 4, SUBS, ":")))), hm, option::of(any::<u16>()))),
    vec(seg(0), 0..4),
    0u8..4,
    vec(seg(0), 0..3),
    option::of(vec((run(0, 3, "!$'()*+,;", ":@/?"), option::of(run(0, 3, "!$'()*+,;=", ":@/?"))), 1..4)),
    option::of(run(0, 4, SUBS, ":@/?")),
  )
    .prop_map(|(scheme, auth, segs, kind, more, query, fragment)| Built {
      scheme,
      auth,
      segs,
      kind,
      more,
      query,
      fragment,
    })
    .boxed()
}
fn long_built() -> BoxedStrategy<Built> {
  (built(), 0u8..7, count())
    .prop_map(|(mut c, which, n)| {
      let grow = |s: &str| format!("{}-", s).repeat(n);
      let list = |v: &[String]| v.iter().map(|s| s.as_str()).chain(std::iter::once("z")).cycle().take(n).map(String::from).collect::<Vec<_>>();
      match which {
        0 => c.segs = list(&c.segs),
        1 => c.more = list(&c.more),
        2 => c.fragment = Some(grow(c.fragment.as_deref().unwrap_or("f"))),
        3 => {
          let m = c.query.take().unwrap_or_default();
          c.query = Some(m.into_iter().chain(std::iter::once(("k".to_string(), Some("v".to_string())))).cycle().take(n).collect())
        }
        4 => c.scheme = grow(&c.scheme),
        _ => match c.auth.as_mut() {
          Some((Some((_, p)), _, _)) if which == 5 => *p = Some("p:".repeat(n)),
          Some((u @ None, _, _)) if which == 5 => *u = Some(("u".repeat(n), None)),
          Some((_, HostM::Name(h), _)) => *h = grow(h),
          Some((_, HostM::Future(h), _)) => *h = format!("vA.{}", ":a".repeat(n)),
          _ => c.segs = vec!["s".repeat(n)],
        },
      }
      c
    })
    .boxed()
}
fn model(c: &Built) -> CheckResult {
  let slashed = |v: &[String]| v.iter().map(|s| format!("/{}", s)).collect::<Vec<_>>();
  // With an authority the path starts with '/'; without one it does not start with "//".
  let mut parts = slashed(&c.segs);
  let mut more = slashed(&c.more);
  if c.auth.is_none() {
    let mut n = 0;
    while n < parts.len() && parts[n] == "/" {
      n += 1;
    }
    parts.drain(..n);
    if c.kind == 0 && !parts.is_empty() {
      parts[0].remove(0);
    }
    if parts.is_empty() {
      more.clear();
    }
  }
  let strs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
  let k = if c.auth.is_none() { c.kind } else { 1 + c.kind % 2 };
  let (a, b, name) = match k {
    0 => (Path::of_rootless_from_strings(&parts), Path::of_rootless_from_strs(&strs), "rootless_path"),
    1 => (Path::of_abempty_from_strings(&parts), Path::of_abempty_from_strs(&strs), "abempty_path"),
    2 => (Path::of_absolute_from_strings(&parts), Path::of_absolute_from_strs(&strs), "absolute_path"),
    _ => (Path::of_no_scheme_from_strings(&parts), Path::of_no_scheme_from_strs(&strs), "no_scheme_path"),
  };
  ensure_eq!(a, b, "path of strings and of strs");
  ensure_eq!(a.type_name(), name, "kind of path");
  let mut p = a;
  let mut want = parts.clone();
  ensure_eq!(p.parts(), &want, "parts of the path");
  let (head, tail) = more.split_at(more.len() / 2);
  for x in head {
    p.add_part(x.clone());
    want.push(x.clone());
  }
  p.add_parts(tail.to_vec());
  want.extend(tail.to_vec());
  for (q, n) in [(&p, name), (&p.to_rootless(), "rootless_path"), (&p.to_absolute(), "absolute_path")] {
    ensure_eq!(q.parts(), &want, "parts of the path after the additions");
    ensure_eq!(q.to_string(), want.concat(), "text of the path");
    ensure_eq!(q.is_empty(), want.is_empty(), "is_empty of {:?}", want);
    ensure_eq!(q.non_empty(), !want.is_empty(), "non_empty of {:?}", want);
    ensure_eq!(q.type_name(), n, "kind of path");
  }
  let auth = c.auth.as_ref().map(|(u, h, port)| {
    let h = match h {
      HostM::Name(n) => HostName::RegName(n.clone()),
      HostM::V4(a) => HostName::Ipv4Address(Ipv4Addr::from(*a)),
      HostM::V6(a) => HostName::IpLiteral(IpLiteral::Ipv6Address(Ipv6Addr::from(*a))),
      HostM::Future(f) => HostName::IpLiteral(IpLiteral::IpvFuture(f.clone())),
    };
    let u = u.as_ref().map(|(n, p)| UserInfo::new(n.clone(), p.clone()));
    Authority::new(h, *port, u)
  });
  // Display of every piece, written out from the case alone.
  let mut text = format!("{}:", c.scheme);
  let mut at = String::new();
  if let Some((u, h, port)) = &c.auth {
    if let Some((n, p)) = u {
      at.push_str(n);
      if let Some(p) = p {
        at += &format!(":{}", p);
      }
      ensure_eq!(UserInfo::from((n.as_str(), p.as_deref())).to_string(), at, "text of the user");
      at.push('@');
    }
    at += &match h {
      HostM::Name(n) => n.clone(),
      HostM::V4(a) => format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]),
      HostM::V6(a) => format!("[{}]", Ipv6Addr::from(*a)),
      HostM::Future(f) => format!("[{}]", f),
    };
    if let Some(p) = port {
      at += &format!(":{}", p);
    }
    ensure_eq!(auth.as_ref().unwrap().to_string(), at, "text of the authority");
    text += &format!("//{}", at);
  }
  text += &want.concat();
  let hp = match auth.clone() {
    None => HierPart::of_path(p.clone()),
    a => HierPart::new(a, p.clone()),
  };
  ensure_eq!(hp.to_string(), text[c.scheme.len() + 1..].to_string(), "text of the hierarchical part");
  let q = c.query.clone().map(Query::new);
  if let Some(v) = &c.query {
    let t = v.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{}={}", k, v))).collect::<Vec<_>>().join("&");
    text += &format!("?{}", t);
  }
  if let Some(f) = &c.fragment {
    text += &format!("#{}", f);
  }
  // What there is before anything is put in.
  let none = (Uri::default(), HierPart::default(), Authority::default());
  ensure_eq!(
    (none.0.schema(), none.0.authority(), none.0.path(), none.0.query(), none.0.fragment()),
    (None, None, None, None, None),
    "parts of the default URI"
  );
  ensure_eq!(none.1, HierPart::of_path(Path::of_empty()), "default hierarchical part");
  ensure_eq!(none.2, Authority::new(HostName::RegName(String::new()), None, None), "default authority");
  ensure_eq!(UserInfo::default(), UserInfo::new(String::new(), None), "default user");
  ensure_eq!(Query::default(), Query::new(vec![]), "default query");
  ensure_eq!(Scheme::default(), Scheme::new(String::new()), "default scheme");
  let s = match c.kind % 4 {
    0 => Scheme::new(c.scheme.clone()),
    1 => Scheme::from(c.scheme.as_str()),
    2 => Scheme::from(c.scheme.clone()),
    _ => Scheme::from(c.scheme.as_bytes()),
  };
  let u = Uri::new(Some(s), Some(hp), q.clone(), c.fragment.clone());
  ensure_eq!(u.to_string(), text, "text of the built URI");
  ensure_eq!(u.authority(), auth.as_ref(), "authority of the built URI {:?}", text);
  ensure_eq!(u.path(), Some(&p), "path of the built URI {:?}", text);
  ensure_eq!(u.query(), q.as_ref(), "query of the built URI {:?}", text);
  ensure_eq!(u.fragment(), c.fragment.as_ref(), "fragment of the built URI {:?}", text);
  let back = parse_ok(&text)?;
  let r = usable(&text).ok_or(format!("harness: {:?} is no URI", text))?;
  agree(&text, &back, &r)?;
  ensure_eq!(back.schema(), u.schema(), "scheme of {:?} parsed back", text);
  ensure_eq!(back.query(), u.query(), "query of {:?} parsed back", text);
  ensure_eq!(back.user_info(), u.user_info(), "user of {:?} parsed back", text);
  ensure_eq!(back.port(), u.port(), "port of {:?} parsed back", text);
  let quad = matches!(&c.auth, Some((_, HostM::Name(n), _)) if n.parse::<Ipv4Addr>().is_ok());
  ensure!(quad || back.host_name() == u.host_name(), "host of {:?} parsed back: {:?}", text, back.host_name());
  ensure_eq!(back.to_string(), text, "text parsed back and shown");
  Ok(labels(Obs::new(weight(&r) >= 3), &r).label_if(!c.more.is_empty(), "parts-added"))
}

/// Paths of any parts, which need not come from a URI: nothing is lost, added or reordered.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Parts {
  kind: u8,
  parts: Vec<String>,
  ops: Vec<(u8, Vec<String>)>,
}
fn some_parts() -> BoxedStrategy<Parts> {
  let part = || prop_oneof![
    2 => Just(String::new()), 2 => Just("/".to_string()), 4 => "/[a-z]{0,3}", 3 => "[a-z]{1,3}", 1 => pick("..//%").prop_map(|s| s.repeat(2)), 1 => "\\PC{0,4}",
  ];
  (0u8..10, vec(part(), 0..6), vec((0u8..6, vec(part(), 0..4)), 0..4)).prop_map(|(kind, parts, ops)| Parts { kind, parts, ops }).boxed()
}
fn parts(c: &Parts) -> CheckResult {
  let strs: Vec<&str> = c.parts.iter().map(|s| s.as_str()).collect();
  let (mut p, mut name) = match c.kind {
    0 => (Path::of_rootless_from_strings(&c.parts), "rootless_path"),
    1 => (Path::of_rootless_from_strs(&strs), "rootless_path"),
    2 => (Path::of_abempty_from_strings(&c.parts), "abempty_path"),
    3 => (Path::of_abempty_from_strs(&strs), "abempty_path"),
    4 => (Path::of_absolute_from_strings(&c.parts), "absolute_path"),
    5 => (Path::of_absolute_from_strs(&strs), "absolute_path"),
    6 => (Path::of_no_scheme_from_strings(&c.parts), "no_scheme_path"),
    7 => (Path::of_no_scheme_from_strs(&strs), "no_scheme_path"),
    8 => (Path::of_empty(), "empty_path"),
    _ => (Path::default(), "empty_path"),
  };
  let mut want = if c.kind < 8 { c.parts.clone() } else { vec![] };
  for (op, more) in std::iter::once(&(5, vec![])).chain(&c.ops) {
    match op {
      0 => {
        p = p.to_rootless();
        name = "rootless_path";
      }
      1 => {
        p = p.to_absolute();
        name = "absolute_path";
      }
      2 | 3 | 4 if name != "empty_path" => {
        match op {
          2 => p.add_parts(more.clone()),
          3 => p.with_parts(more.clone()),
          _ => more.iter().for_each(|x| p.add_part(x.clone())),
        }
        want.extend(more.clone());
      }
      _ => p = p.clone(),
    }
    ensure_eq!(p.parts(), &want, "parts after {:?}", (op, more));
    ensure_eq!(p.to_string(), want.concat(), "text after {:?}", (op, more));
    ensure_eq!(p.is_empty(), want.is_empty(), "is_empty of {:?}", want);
    ensure_eq!(p.non_empty(), !want.is_empty(), "non_empty of {:?}", want);
    ensure_eq!(p.type_name(), name, "kind after {:?}", (op, more));
  }
  Ok(Obs::new(want.len() > 1).label_if(want.iter().any(|x| x.is_empty()), "empty part").label_if(name == "empty_path", "empty path"))
}

// ------------------------------------------------------------------------------------------------ equality, hashes and order
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
  a: String,
  b: String,
}
fn recompose(r: &Read) -> String {
  let mut s = format!("{}:", r.scheme);
  if let Some(a) = &r.auth {
    s += "//";
    if let Some((n, p)) = &a.user {
      s += n;
      s += &p.as_ref().map_or(String::new(), |p| format!(":{}", p));
      s += "@";
    }
    s += &rfc::host_text(&a.host);
    s += &a.port.as_ref().map_or(String::new(), |p| format!(":{}", p));
  }
  s += &r.path;
  s += &r.query.as_ref().map_or(String::new(), |q| format!("?{}", q));
  s += &r.fragment.as_ref().map_or(String::new(), |f| format!("#{}", f));
  s
}
/// The text of an IPv6 address without "::", with leading zeros where a bit of `how` is set.
fn v6_full(a: &std::net::Ipv6Addr, how: u16) -> String {
  let one = |(i, g): (usize, &u16)| match how >> (i % 8) & 1 {
    0 => format!("{:x}", g),
    _ => format!("{:04X}", g),
  };
  a.segments().iter().enumerate().map(one).collect::<Vec<_>>().join(":")
}
/// The text with one component changed, or written another way.
fn varied(t: &str, other: &str, how: u16, es: &[Edit]) -> Option<String> {
  let (mut r, o) = (rfc::read(t)?, rfc::read(other)?);
  match how % 14 {
    0 => (),
    1 => r.scheme = o.scheme,
    2 => r.query = o.query,
    3 => r.fragment = o.fragment,
    4 => r.path = o.path,
    5 => r.auth = o.auth,
    6 => r.auth.as_mut()?.user = o.auth?.user,
    7 => r.auth.as_mut()?.host = o.auth?.host,
    8 => r.auth.as_mut()?.port = o.auth?.port,
    // the same port, or hardly
    9 => {
      let p = &mut r.auth.as_mut()?.port;
      *p = match (p.as_deref(), how / 14 % 3) {
        (None, 0) => Some(String::new()),
        (None, _) => Some("0".into()),
        (Some(p), 0) => Some(format!("00{}", p)),
        (Some(p), 1) => Some(format!("{}0", p)),
        (Some(_), _) => None,
      }
    }
    // the same address, fully written
    10 => match r.auth.as_ref()?.host {
      Host::V6(a) => {
        let (full, short) = (v6_full(&a, how / 14), rfc::host_text(&Host::V6(a)));
        return Some(recompose(&r).replacen(&short, &format!("[{}]", full), 1));
      }
      _ => return None,
    },
    11 => {
      let text = recompose(&r);
      let at = text.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect::<Vec<_>>();
      let at = *at.get(how as usize / 14 % at.len().max(1))?;
      let c = text[at..].chars().next()?;
      let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
      return Some(format!("{}{}{}", &text[..at], c, &text[at + 1..]));
    }
    _ => return Some(apply(t, es)),
  }
  Some(recompose(&r))
}
fn pairs() -> BoxedStrategy<Pair> {
  (valid(), valid(), any::<u16>(), edits(2))
    .prop_map(|(a, o, how, es)| {
      let b = varied(&a, &o, how, &es).unwrap_or_else(|| a.clone());
      Pair { a, b }
    })
    .boxed()
}
fn compared(c: &Pair) -> CheckResult {
  let (r, s) = match (usable(&c.a), usable(&c.b)) {
    (Some(r), Some(s)) => (r, s),
    _ => return Ok(Obs::discard("not two URIs")),
  };
  let (u, v) = (parse_ok(&c.a)?, parse_ok(&c.b)?);
  let same = rfc::canonical(&r) == rfc::canonical(&s);
  ensure_eq!(u == v, same, "equality of {:?} and {:?}", c.a, c.b);
  ensure_eq!(v == u, same, "equality of {:?} and {:?}", c.b, c.a);
  ensure_eq!(u != v, !same, "inequality of {:?} and {:?}", c.a, c.b);
  ensure!(!same || hash(&u) == hash(&v), "equal URIs {:?} and {:?} with different hashes", c.a, c.b);
  // a component is equal when its part of the texts is
  ensure_eq!(u.schema() == v.schema(), r.scheme == s.scheme, "equality of the schemes of {:?} and {:?}", c.a, c.b);
  let auth = |r: &Read| r.auth.as_ref().map(|a| (a.user.clone(), a.host.clone(), rfc::port(&a.port)));
  ensure_eq!(u.authority() == v.authority(), auth(&r) == auth(&s), "equality of the authorities of {:?} and {:?}", c.a, c.b);
  if auth(&r).is_some() && auth(&s).is_some() || !r.path.is_empty() && !s.path.is_empty() && r.auth.is_some() == s.auth.is_some() {
    let rooted = |r: &Read| r.path.starts_with('/');
    if rooted(&r) == rooted(&s) {
      ensure_eq!(u.path() == v.path(), r.path == s.path, "equality of the paths of {:?} and {:?}", c.a, c.b);
    }
  }
  ensure_eq!(u.query() == v.query(), r.query == s.query, "equality of the queries of {:?} and {:?}", c.a, c.b);
  ensure_eq!(u.fragment() == v.fragment(), r.fragment == s.fragment, "equality of the fragments of {:?} and {:?}", c.a, c.b);
  for (u, t) in [(&u, &c.a), (&v, &c.b)] {
    let w = u.clone();
    ensure!(w == *u && hash(&w) == hash(u) && w.to_string() == u.to_string(), "the clone of {:?} differs", t);
  }
  Ok(
    Obs::new(weight(&r) >= 2)
      .label(if same { "equal" } else { "different" })
      .label_if(same && c.a != c.b, "equal-written-differently"),
  )
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct QueryPair {
  a: String,
  b: String,
}
fn query_pairs() -> BoxedStrategy<QueryPair> {
  let c = || prop_oneof![2 => pick("&="), 2 => pick("abk"), 1 => pick("!~-/?:@"), 1 => pct()];
  let text = || prop_oneof![2 => query_text(), 2 => vec(c(), 0..10).prop_map(|v| v.concat())];
  (text(), text(), any::<u8>(), any::<u8>(), c())
    .prop_map(|(a, b, how, at, x)| {
      let at = a.char_indices().map(|(i, _)| i).nth(at as usize % a.len().max(1)).unwrap_or(0);
      // not inside a percent-encoding
      let at = if a[..at].ends_with('%') || at > 1 && a[..at - 1].ends_with('%') { 0 } else { at };
      let b = match how % 4 {
        0 => b,
        1 => a.clone(),
        2 => format!("{}{}{}", &a[..at], x, &a[at..]),
        _ => format!("{}{}{}", &a[..at], x, b),
      };
      QueryPair { a, b }
    })
    .boxed()
}
fn queries_compared(c: &QueryPair) -> CheckResult {
  let (u, v) = (parse_ok(&format!("s:?{}", c.a))?, parse_ok(&format!("s:?{}", c.b))?);
  let none = || "no query".to_string();
  let (q, r) = (u.query().ok_or_else(none)?, v.query().ok_or_else(none)?);
  let (built, other) = (Query::new(query_model(&c.a)), Query::from(query_model(&c.b)));
  let qhash = |q: &Query| {
    let mut h = DefaultHasher::new();
    q.hash(&mut h);
    h.finish()
  };
  for (q, r) in [(q, r), (&built, r), (q, &other)] {
    ensure_eq!(q == r, c.a == c.b, "equality of {:?} and {:?}", c.a, c.b);
    ensure!(c.a != c.b || qhash(q) == qhash(r), "equal queries {:?} with different hashes", c.a);
    ensure_eq!(q.partial_cmp(r), Some(c.a.cmp(&c.b)), "order of {:?} and {:?}", c.a, c.b);
    ensure_eq!(r.partial_cmp(q), Some(c.b.cmp(&c.a)), "order of {:?} and {:?}", c.b, c.a);
    ensure_eq!((q < r, q <= r, q > r, q >= r), (c.a < c.b, c.a <= c.b, c.a > c.b, c.a >= c.b), "order of {:?} and {:?}", c.a, c.b);
  }
  Ok(Obs::new(c.a.len() > 1 && c.b.len() > 1).label(match c.a.cmp(&c.b) {
    std::cmp::Ordering::Equal => "equal",
    std::cmp::Ordering::Less => "less",
    _ => "greater",
  }))
}

fn property(id: &str) -> Option<Property> {
  let p = |rule, assumptions, facets| {
    Some(Property {
      id: IDS.iter().find(|x| **x == id).unwrap(),
      rule,
      assumptions,
      facets,
    })
  };
  let q = 60_000;
  let t = 4_000_000;
  match id {
    "C30" => p(
      "URI texts rendered component by component, and edited ones that are still URIs. Non-trivial = three or more optional components.",
      vec!["ports above 65535 are left to C32"],
      vec![facet("valid", 2 * q, t, valid(), roundtrip), facet("edited", q, t, near(), roundtrip), facet("long", q / 6, t / 20, long(), roundtrip).on_default_stack()],
    ),
    "C31" => p(
      "URI texts rendered component by component, and edited ones that are still URIs; every accessor against the splitting reader. \
       Non-trivial = three or more optional components.",
      vec!["ports above 65535 are left to C32"],
      vec![facet("valid", 2 * q, t, valid(), decomposition), facet("edited", q, t, near(), decomposition), facet("long", q / 6, t / 20, long(), decomposition).on_default_stack()],
    ),
    "C32" => p(
      "URI texts with up to three edits and texts of random delimiters and characters; accepted exactly when the splitting reader \
       accepts. Non-trivial = six or more bytes.",
      vec!["texts beginning with ':' (no scheme) may be accepted or not"],
      vec![facet("edited", 2 * q, 2 * t, near(), acceptance), facet("soup", q, t, soup(), acceptance), facet("long", q / 6, t / 20, long_near(), acceptance).on_default_stack()],
    ),
    "C33" => p(
      "IPv4, IPv6, IPvFuture hosts and edits of them, against std::net and the RFC character classes. Non-trivial = over four characters.",
      vec!["edits that put a delimiter into the host are discarded"],
      vec![
        facet("v6", q, t, v6().prop_map(|a| format!("[{}]", a)), ip),
        facet("v6-edited", q, t, (v6(), edits_ip()).prop_map(|(a, e)| format!("[{}]", apply(&a, &e))), ip),
        facet("other", q, t, (prop_oneof![v4(), future().prop_map(|a| format!("[{}]", a)), host()], edits_ip()).prop_map(|(a, e)| apply(&a, &e)), ip),
      ],
    ),
    "C34" => p(
      "Query texts and sequences of added parameters against a list of pairs. Non-trivial = two or more parameters.",
      vec![],
      vec![facet("query", 2 * q, t, queries(), query), facet("long", q / 20, t / 60, long_queries(), query).on_default_stack()],
    ),
    "C35" => p(
      "URIs, authorities and paths built through the model types, path additions and conversions, rendered and parsed back. \
       Non-trivial = three or more optional components.",
      vec!["without an authority the path does not begin with '//'", "parts are not added to the EmptyPath variant"],
      vec![facet("built", q, t, built(), model), facet("parts", q, t, some_parts(), parts), facet("long", q / 6, t / 20, long_built(), model).on_default_stack()],
    ),
    "C36" => p(
      "Pairs of URI texts: equal, differing in one component or character, or the same components written differently (IPv6 groups, zeros \
       and an empty port); pairs of query texts. Non-trivial = two or more optional components; two queries of two characters or more.",
      vec!["the kind of a path with a root is not compared with that of one without"],
      vec![facet("uris", q, t, pairs(), compared), facet("queries", q, t, query_pairs(), queries_compared)],
    ),
    _ => None,
  }
}
fn edits_ip() -> BoxedStrategy<Vec<Edit>> {
  let c = || prop_oneof![3 => pick(":."), 3 => pick("0123456789abcdefABCDEF"), 1 => pick("gvV[]-%z"), 1 => Just("::".to_string())];
  let e = prop_oneof![
    2 => any::<u16>().prop_map(Edit::Del),
    3 => (any::<u16>(), c()).prop_map(|(a, b)| Edit::Ins(a, b)),
    3 => (any::<u16>(), c()).prop_map(|(a, b)| Edit::Sub(a, b)),
    1 => any::<(u16, u16)>().prop_map(|(a, b)| Edit::Dup(a, b)),
  ];
  vec(e, 0..=3).boxed()
}
fn main() {
  vcommon::run_main(property, IDS)
}
