//! A reader of RFC 3986 `URI` texts written from the grammar by splitting, without parser combinators.
use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Debug, Clone, PartialEq)]
pub enum Host {
  Name(String),
  V4(Ipv4Addr),
  V6(Ipv6Addr),
  Future(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Auth {
  pub user: Option<(String, Option<String>)>,
  pub host: Host,
  /// Text after ':' when there is one.
  pub port: Option<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Read {
  pub scheme: String,
  pub auth: Option<Auth>,
  pub path: String,
  pub query: Option<String>,
  pub fragment: Option<String>,
}
pub fn unreserved(c: u8) -> bool {
  c.is_ascii_alphanumeric() || b"-._~".contains(&c)
}
pub fn sub_delim(c: u8) -> bool {
  b"!$&'()*+,;=".contains(&c)
}
/// Every byte allowed, '%' only before two hexadecimal digits.
fn all(t: &str, extra: &[u8]) -> bool {
  let b = t.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' {
      if i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
        return false;
      }
      i += 3;
    } else if unreserved(b[i]) || sub_delim(b[i]) || extra.contains(&b[i]) {
      i += 1;
    } else {
      return false;
    }
  }
  true
}
fn scheme_ok(t: &str) -> bool {
  let b = t.as_bytes();
  !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c))
}
pub fn host(t: &str) -> Option<Host> {
  if let Some(r) = t.strip_prefix('[') {
    let r = r.strip_suffix(']')?;
    if let Some(f) = r.strip_prefix(|c| c == 'v' || c == 'V') {
      let (hex, tail) = f.split_once('.')?;
      let ok = !hex.is_empty()
        && hex.bytes().all(|c| c.is_ascii_hexdigit())
        && !tail.is_empty()
        && tail.bytes().all(|c| unreserved(c) || sub_delim(c) || c == b':');
      return ok.then(|| Host::Future(r.to_string()));
    }
    return r.parse().ok().map(Host::V6);
  }
  match t.parse::<Ipv4Addr>() {
    Ok(a) => Some(Host::V4(a)),
    Err(_) => all(t, b"").then(|| Host::Name(t.to_string())),
  }
}
fn auth(t: &str) -> Option<Auth> {
  let (user, rest) = match t.split_once('@') {
    None => (None, t),
    Some((u, r)) => {
      if !all(u, b":") {
        return None;
      }
      let u = match u.split_once(':') {
        None => (u.to_string(), None),
        Some((n, p)) => (n.to_string(), Some(p.to_string())),
      };
      (Some(u), r)
    }
  };
  let from = rest.find(']').unwrap_or(0);
  let (h, port) = match rest[from..].find(':') {
    None => (rest, None),
    Some(i) => (&rest[..from + i], Some(rest[from + i + 1..].to_string())),
  };
  if let Some(p) = &port {
    if !p.bytes().all(|c| c.is_ascii_digit()) {
      return None;
    }
  }
  Some(Auth {
    user,
    host: host(h)?,
    port,
  })
}
pub fn read(t: &str) -> Option<Read> {
  let (t, fragment) = match t.split_once('#') {
    None => (t, None),
    Some((a, f)) => (a, Some(f.to_string())),
  };
  let (t, query) = match t.split_once('?') {
    None => (t, None),
    Some((a, q)) => (a, Some(q.to_string())),
  };
  let (scheme, hier) = t.split_once(':')?;
  let (au, path) = match hier.strip_prefix("//") {
    None => (None, hier),
    Some(r) => {
      let i = r.find('/').unwrap_or(r.len());
      (Some(auth(&r[..i])?), &r[i..])
    }
  };
  let ok = scheme_ok(scheme)
    && all(path, b":@/")
    && query.as_deref().map_or(true, |q| all(q, b":@/?"))
    && fragment.as_deref().map_or(true, |q| all(q, b":@/?"));
  ok.then(|| Read {
    scheme: scheme.to_string(),
    auth: au,
    path: path.to_string(),
    query,
    fragment,
  })
}
/// Port value: None without digits; Err when it does not fit in 16 bits.
pub fn port(p: &Option<String>) -> Result<Option<u16>, ()> {
  match p.as_deref() {
    None | Some("") => Ok(None),
    Some(d) => {
      let d = d.trim_start_matches('0');
      if d.is_empty() {
        return Ok(Some(0));
      }
      if d.len() > 5 {
        return Err(());
      }
      let n = d.bytes().fold(0u32, |a, c| a * 10 + (c - b'0') as u32);
      u16::try_from(n).map(Some).map_err(|_| ())
    }
  }
}
pub fn host_text(h: &Host) -> String {
  match h {
    Host::Name(n) => n.clone(),
    Host::V4(a) => a.to_string(),
    Host::V6(a) => format!("[{}]", a),
    Host::Future(f) => format!("[{}]", f),
  }
}
/// The text with the IPv6 address in std's canonical form, the port without leading zeros and an empty port dropped.
pub fn canonical(r: &Read) -> String {
  let mut s = format!("{}:", r.scheme);
  if let Some(a) = &r.auth {
    s.push_str("//");
    if let Some((n, p)) = &a.user {
      s.push_str(n);
      if let Some(p) = p {
        s.push(':');
        s.push_str(p);
      }
      s.push('@');
    }
    s.push_str(&host_text(&a.host));
    if let Ok(Some(p)) = port(&a.port) {
      s.push_str(&format!(":{}", p));
    }
  }
  s.push_str(&r.path);
  for (m, x) in [('?', &r.query), ('#', &r.fragment)] {
    if let Some(x) = x {
      s.push(m);
      s.push_str(x);
    }
  }
  s
}
