//! Shared driver of the property harnesses: seeded proptest runs split over worker processes, coverage
//! accounting, shrinking, replay files, regression inputs, known findings and evidence.
pub use proptest;
pub use serde;
pub use serde_json;

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
/// JSON nested to any depth.
fn deep<'a, T: serde::Deserialize<'a>>(b: &'a [u8]) -> serde_json::Result<T> {
  let mut d = serde_json::Deserializer::from_slice(b);
  d.disable_recursion_limit();
  T::deserialize(&mut d)
}
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------------------
// Work budget. A case that needs more than this is not finishing: typical cases take well under 10 ms of CPU
// and a few MB. CPU time is used, never wall-clock time.
const CPU_BUDGET_S: u64 = 25;
const LIVE_BUDGET: i64 = 2 << 30;

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
  static MINE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn count(n: i64) {
  LIVE.fetch_add(n, Relaxed);
  let _ = MINE.try_with(|m| m.set(m.get() + n));
}
/// Bytes this thread has allocated and not released (released by any thread, on behalf of this one).
pub fn held() -> i64 {
  MINE.with(|m| m.get())
}
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-(l.size() as i64));
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(l.size() as i64);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    count(n as i64 - l.size() as i64);
    System.realloc(p, l, n)
  }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn cpu_ns() -> u64 {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
  ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

static RUNNING: AtomicBool = AtomicBool::new(false);
static CASE_CPU_START: AtomicU64 = AtomicU64::new(0);
static CASE_LIVE_START: AtomicI64 = AtomicI64::new(0);

const EXIT_BUDGET: i32 = 97;

fn start_watchdog(note: PathBuf) {
  std::thread::spawn(move || loop {
    std::thread::sleep(Duration::from_millis(10));
    if !RUNNING.load(Relaxed) {
      continue;
    }
    let cpu = cpu_ns().saturating_sub(CASE_CPU_START.load(Relaxed));
    let live = LIVE.load(Relaxed) - CASE_LIVE_START.load(Relaxed);
    let why = if cpu > CPU_BUDGET_S * 1_000_000_000 {
      format!("the case did not finish within {} s of CPU time", CPU_BUDGET_S)
    } else if live > LIVE_BUDGET {
      format!("the case holds more than {} MiB of memory", LIVE_BUDGET >> 20)
    } else {
      continue;
    };
    let _ = std::fs::write(&note, why);
    unsafe { libc::_exit(EXIT_BUDGET) };
  });
}

// ---------------------------------------------------------------------------------------------------------
/// What a check observed about one case.
#[derive(Debug, Clone, Default)]
pub struct Obs {
  pub nontrivial: bool,
  pub discard: bool,
  pub labels: BTreeSet<String>,
}
impl Obs {
  pub fn new(nontrivial: bool) -> Self {
    Obs {
      nontrivial,
      ..Default::default()
    }
  }
  pub fn discard(why: &str) -> Self {
    let mut o = Obs {
      discard: true,
      ..Default::default()
    };
    o.labels.insert(format!("discard:{}", why));
    o
  }
  pub fn label(mut self, l: impl Into<String>) -> Self {
    self.labels.insert(l.into());
    self
  }
  pub fn label_if(mut self, c: bool, l: &str) -> Self {
    if c {
      self.labels.insert(l.into());
    }
    self
  }
}
pub type CheckResult = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)+) => { if !$c { return Err(format!($($t)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($t:tt)+) => {{
    let (a, b) = (&$a, &$b);
    if a != b { return Err(format!("{}\n  actual:   {:?}\n  expected: {:?}", format!($($t)+), a, b)); }
  }};
}

pub struct Facet {
  pub name: &'static str,
  quick: u32,
  thorough: u32,
  stack: usize,
  run: Box<dyn Fn(u32, [u8; 32], &mut Sink) -> Option<Failure>>,
  replay: Box<dyn Fn(&Value, &mut Sink) -> Result<(), Failure>>,
}

/// Enough for the deepest cases of the generators (and of shrinking them).
const WIDE_STACK: usize = 512 << 20;

impl Facet {
  /// Runs the facet on the stack that Rust gives a thread by default.
  pub fn on_default_stack(mut self) -> Facet {
    self.stack = 2 << 20;
    self
  }

  fn run(&self, cases: u32, seed: [u8; 32], sink: &mut Sink) -> Option<Failure> {
    on_stack(self.stack, || (self.run)(cases, seed, sink))
  }

  fn replay(&self, case: &Value, sink: &mut Sink) -> Result<(), Failure> {
    on_stack(self.stack, || (self.replay)(case, sink))
  }
}

/// Runs `f` on a thread of its own, where that has another stack than the workers have.
fn on_stack<T>(size: usize, f: impl FnOnce() -> T) -> T {
  struct Moved<T>(T);
  // Safe: the thread that owns what is moved waits for the other one to end.
  unsafe impl<T> Send for Moved<T> {}
  impl<T, U> Moved<T>
  where
    T: FnOnce() -> U,
  {
    fn call(self) -> Moved<U> {
      Moved((self.0)())
    }
  }
  if size == WIDE_STACK {
    return f();
  }
  let f = Moved(f);
  std::thread::scope(|s| match std::thread::Builder::new().stack_size(size).spawn_scoped(s, || f.call()).expect("thread").join() {
    Ok(v) => v.0,
    Err(e) => std::panic::resume_unwind(e),
  })
}

pub struct Failure {
  pub case: Value,
  pub message: String,
}

/// One executable facet of a property: a generator and a check of one generated case.
pub fn facet<C, S, F>(name: &'static str, quick: u32, thorough: u32, strategy: S, check: F) -> Facet
where
  C: Serialize + DeserializeOwned + Debug + Clone + 'static,
  S: Strategy<Value = C> + 'static,
  F: Fn(&C) -> CheckResult + 'static, {
  facet_lazy(name, quick, thorough, move || strategy.boxed(), check)
}

fn facet_lazy<C, G, F>(name: &'static str, quick: u32, thorough: u32, strategy: G, check: F) -> Facet
where
  C: Serialize + DeserializeOwned + Debug + Clone + 'static,
  G: FnOnce() -> BoxedStrategy<C> + 'static,
  F: Fn(&C) -> CheckResult + 'static, {
  let check = std::rc::Rc::new(check);
  let strategy = strategy();
  let c1 = check.clone();
  Facet {
    name,
    quick,
    thorough,
    stack: WIDE_STACK,
    run: Box::new(move |cases, seed, sink| {
      let mut runner = TestRunner::new_with_rng(
        Config {
          cases,
          failure_persistence: None,
          max_shrink_iters: 3000,
          max_shrink_time: 60_000,
          max_global_rejects: u32::MAX,
          source_file: None,
          ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
      );
      let sink = RefCell::new(sink);
      let failing = RefCell::new(false);
      let res = runner.run(&strategy, |c: C| {
        let v = serde_json::to_string(&c).expect("case serialises");
        let r = exec(name, &v, || c1(&c));
        if !*failing.borrow() {
          sink.borrow_mut().record(name, &v, &r);
        }
        match r {
          Ok(_) => Ok(()),
          Err(m) => {
            *failing.borrow_mut() = true;
            Err(TestCaseError::fail(m))
          }
        }
      });
      match res {
        Ok(()) => None,
        Err(TestError::Fail(reason, c)) => Some(Failure {
          case: serde_json::to_value(&c).unwrap(),
          message: reason.message().to_string(),
        }),
        Err(TestError::Abort(reason)) => {
          eprintln!("harness: facet {} aborted: {}", name, reason);
          std::process::exit(2)
        }
      }
    }),
    replay: Box::new(move |v, sink| {
      let c: C = match serde_json::from_value(v.clone()) {
        Ok(c) => c,
        Err(e) => {
          eprintln!("harness: facet {}: replay case does not decode: {}", name, e);
          std::process::exit(2)
        }
      };
      let s = serde_json::to_string(&c).unwrap();
      let r = exec(name, &s, || check(&c));
      sink.record(name, &s, &r);
      match r {
        Ok(_) => Ok(()),
        Err(message) => Err(Failure {
          case: v.clone(),
          message,
        }),
      }
    }),
  }
}

pub struct Property {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: Vec<&'static str>,
  pub facets: Vec<Facet>,
}

// ---------------------------------------------------------------------------------------------------------
static CASE_FILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// Runs one case: panics become failures; the case is noted in a file first, so that a crash of the whole
/// process (stack overflow, abort) still leaves its input behind.
fn exec(facet: &str, case: &str, f: impl FnOnce() -> CheckResult) -> CheckResult {
  if let Some(file) = CASE_FILE.lock().unwrap().as_ref() {
    let rec = format!("{}\n{}\n{}\n", facet.len() + case.len() + 1, facet, case);
    let _ = file.write_all_at(rec.as_bytes(), 0);
  }
  CASE_CPU_START.store(cpu_ns(), Relaxed);
  CASE_LIVE_START.store(LIVE.load(Relaxed), Relaxed);
  RUNNING.store(true, Relaxed);
  let r = catch_unwind(AssertUnwindSafe(f));
  RUNNING.store(false, Relaxed);
  match r {
    Ok(r) => r,
    Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().unwrap())),
  }
}

/// Runs `f`, turning a panic of the code under test into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().unwrap().clone())
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    if let Ok(mut g) = LAST_PANIC.lock() {
      *g = format!("{} at {}", msg, loc);
    }
  }));
}

#[derive(Default, Serialize, Deserialize)]
struct FacetStats {
  evaluations: u64,
  nontrivial: u64,
  discarded: u64,
  labels: BTreeMap<String, u64>,
  samples: Vec<Value>,
  #[serde(default)]
  slowest_ms: u64,
}
#[derive(Default, Serialize, Deserialize)]
pub struct Sink {
  facets: BTreeMap<String, FacetStats>,
  hashes: HashSet<u64>,
}
fn fnv(s: &str) -> u64 {
  s.bytes()
    .fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl Sink {
  fn record(&mut self, facet: &str, case: &str, r: &CheckResult) {
    let st = self.facets.entry(facet.to_string()).or_default();
    st.evaluations += 1;
    st.slowest_ms = st.slowest_ms.max((cpu_ns() - CASE_CPU_START.load(Relaxed)) / 1_000_000);
    if let Ok(o) = r {
      for l in &o.labels {
        *st.labels.entry(l.clone()).or_default() += 1;
      }
      if o.discard {
        st.discarded += 1;
      }
      if o.nontrivial && !o.discard {
        st.nontrivial += 1;
        self.hashes.insert(fnv(&format!("{}|{}", facet, case)));
        if st.samples.len() < 3 && case.len() < 2500 {
          st.samples.extend(serde_json::from_str::<Value>(case));
        }
      }
    }
  }
}

// ---------------------------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize)]
struct ChildReport {
  sink: Sink,
  failures: Vec<(String, Value, String)>,
  known: Vec<String>,
}

#[derive(Clone)]
struct Known {
  property: String,
  facet: String,
  case: Value,
  what: String,
}

fn verif_root() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Lines `KNOWN-FINDING: property=<id> facet=<facet> case=<json> what=<text>`; `fixed:` lines suppress nothing.
fn known_findings(id: &str) -> Vec<Known> {
  let text = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
  text
    .lines()
    .filter_map(|l| l.strip_prefix("KNOWN-FINDING: property="))
    .filter_map(|l| {
      let (property, rest) = l.split_once(" facet=")?;
      let (facet, rest) = rest.split_once(" case=")?;
      let (case, what) = rest.split_once(" what=")?;
      Some(Known {
        property: property.into(),
        facet: facet.into(),
        case: deep(case.as_bytes()).expect("known finding case is JSON"),
        what: what.into(),
      })
    })
    .filter(|k| k.property == id)
    .collect()
}

fn regressions(id: &str) -> Vec<(String, Value)> {
  let p = verif_root().join("regress").join(format!("{}.jsonl", id));
  std::fs::read_to_string(p)
    .unwrap_or_default()
    .lines()
    .filter(|l| !l.trim().is_empty())
    .map(|l| {
      let v: Value = deep(l.as_bytes()).expect("regression line is JSON");
      (v["facet"].as_str().unwrap().to_string(), v["case"].clone())
    })
    .collect()
}

fn seed_bytes(seed: u64, facet: &str, shard: u64) -> [u8; 32] {
  let mut out = [0u8; 32];
  let mut x = fnv(&format!("{}/{}/{}", seed, facet, shard));
  for c in out.chunks_mut(8) {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
  }
  out
}

fn tier() -> String {
  match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => "thorough".into(),
    _ => "quick".into(),
  }
}
fn seed() -> u64 {
  std::env::var("VERIF_SEED")
    .ok()
    .and_then(|s| s.trim().parse::<i64>().ok())
    .unwrap_or(1) as u64
}

fn child(prop: &Property, shard: u64, nshards: u64, dir: &Path) {
  install_hook();
  let thorough = tier() == "thorough";
  let case_file = std::fs::OpenOptions::new()
    .create(true)
    .write(true)
    .truncate(false)
    .open(dir.join(format!("case.{}", shard)))
    .unwrap();
  *CASE_FILE.lock().unwrap() = Some(case_file);
  start_watchdog(dir.join(format!("budget.{}", shard)));
  let mut rep = ChildReport {
    sink: Sink::default(),
    failures: vec![],
    known: vec![],
  };
  let skip = std::env::var("VERIF_SKIP_REGRESS").is_ok();
  let known = known_findings(prop.id);
  if shard == 0 {
    for k in &known {
      let f = prop
        .facets
        .iter()
        .find(|f| f.name == k.facet)
        .unwrap_or_else(|| panic!("known finding names an unknown facet {}", k.facet));
      if f.replay(&k.case, &mut rep.sink).is_err() {
        rep.known.push(k.what.clone());
      }
    }
    if !skip {
      for (fname, case) in regressions(prop.id) {
        let f = prop
          .facets
          .iter()
          .find(|f| f.name == fname)
          .unwrap_or_else(|| panic!("regression names an unknown facet {}", fname));
        if let Err(e) = f.replay(&case, &mut rep.sink) {
          rep.failures.push((fname.clone(), e.case, e.message));
          break;
        }
      }
    }
  }
  if rep.failures.is_empty() {
    let only = std::env::var("VERIF_FACET").ok();
    for f in &prop.facets {
      if only.as_deref().map_or(false, |o| o != f.name) {
        continue;
      }
      let total = if thorough { f.thorough } else { f.quick };
      let mut n = total / nshards as u32 + u32::from((total as u64 % nshards) > shard);
      if let Some(x) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        n = x;
      }
      if n == 0 {
        continue;
      }
      if let Some(fail) = f.run(n, seed_bytes(seed(), f.name, shard), &mut rep.sink) {
        let listed = known.iter().any(|k| k.facet == f.name && k.case == fail.case);
        if listed {
          eprintln!("harness: generated a listed finding again in facet {}", f.name);
        } else {
          rep.failures.push((f.name.to_string(), fail.case, fail.message));
          break;
        }
      }
    }
  }
  let tmp = dir.join(format!("report.{}.tmp", shard));
  std::fs::write(&tmp, serde_json::to_vec(&rep).unwrap()).unwrap();
  std::fs::rename(&tmp, dir.join(format!("report.{}", shard))).unwrap();
}

fn read_case(dir: &Path, shard: u64) -> Option<(String, Value)> {
  let text = std::fs::read(dir.join(format!("case.{}", shard))).ok()?;
  let text = String::from_utf8_lossy(&text).to_string();
  let (len, rest) = text.split_once('\n')?;
  let body = rest.get(..len.parse::<usize>().ok()?)?;
  let (facet, case) = body.split_once('\n')?;
  Some((facet.to_string(), deep(case.as_bytes()).ok()?))
}

fn write_replay(id: &str, facet: &str, case: &Value, msg: &str) -> PathBuf {
  let dir = verif_root().join("evidence").join("replay");
  let _ = std::fs::create_dir_all(&dir);
  let p = dir.join(format!("{}-{}.json", id, facet));
  let v = json!({"property": id, "facet": facet, "case": case, "message": msg});
  let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
  p
}

fn parent(prop: &Property) -> i32 {
  let t0 = Instant::now();
  let tier = tier();
  let nshards: u64 = 8;
  let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop.id, std::process::id()));
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).unwrap();
  let exe = std::env::current_exe().unwrap();
  let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 700 });
  let mut kids: Vec<(u64, std::process::Child, Option<std::process::ExitStatus>)> = (0..nshards)
    .map(|s| {
      let err = std::fs::File::create(dir.join(format!("err.{}", s))).unwrap();
      let c = std::process::Command::new(&exe)
        .args(["--child", prop.id, &s.to_string(), &nshards.to_string()])
        .arg(&dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(err)
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .spawn()
        .expect("spawn worker");
      (s, c, None)
    })
    .collect();
  let mut failures: Vec<(String, Value, String)> = vec![];
  let mut errors: Vec<String> = vec![];
  loop {
    let mut open = 0;
    for (s, c, st) in kids.iter_mut() {
      if st.is_some() {
        continue;
      }
      match c.try_wait().unwrap() {
        None => open += 1,
        Some(x) => {
          *st = Some(x);
          if x.code() == Some(EXIT_BUDGET) {
            let why = std::fs::read_to_string(dir.join(format!("budget.{}", s))).unwrap_or_default();
            match read_case(&dir, *s) {
              Some((f, c)) => failures.push((f, c, why)),
              None => errors.push(format!("worker {}: {} (case unknown)", s, why)),
            }
          } else if matches!(
            x.signal(),
            Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL)
          ) {
            match read_case(&dir, *s) {
              Some((f, c)) => failures.push((
                f,
                c,
                format!("the process died with signal {} (stack overflow or abort)", x.signal().unwrap()),
              )),
              None => errors.push(format!("worker {} died: {:?}", s, x)),
            }
          } else if !x.success() {
            errors.push(format!("worker {} ended with {:?}", s, x));
          }
        }
      }
    }
    if open == 0 {
      break;
    }
    if t0.elapsed() > limit {
      for (_, c, st) in kids.iter_mut() {
        if st.is_none() {
          let _ = c.kill();
          let _ = c.wait();
        }
      }
      errors.push("time limit of the check reached: inconclusive".into());
      break;
    }
    std::thread::sleep(Duration::from_millis(20));
  }
  // merge
  let mut sink = Sink::default();
  let mut known = vec![];
  for s in 0..nshards {
    let Ok(b) = std::fs::read(dir.join(format!("report.{}", s))) else {
      continue;
    };
    let r: ChildReport = deep(&b).unwrap();
    for (n, st) in r.sink.facets {
      let d = sink.facets.entry(n).or_default();
      d.evaluations += st.evaluations;
      d.nontrivial += st.nontrivial;
      d.discarded += st.discarded;
      d.slowest_ms = d.slowest_ms.max(st.slowest_ms);
      for (l, c) in st.labels {
        *d.labels.entry(l).or_default() += c;
      }
      if d.samples.len() < 3 {
        d.samples.extend(st.samples.into_iter().take(1));
      }
    }
    sink.hashes.extend(r.sink.hashes);
    failures.extend(r.failures);
    known.extend(r.known);
  }
  for e in &errors {
    eprintln!("harness error: {}", e);
  }
  if !errors.is_empty() {
    for s in 0..nshards {
      let e = std::fs::read_to_string(dir.join(format!("err.{}", s))).unwrap_or_default();
      let tail: Vec<&str> = e.lines().rev().take(5).collect();
      for l in tail.iter().rev() {
        eprintln!("  worker {}: {}", s, l);
      }
    }
  }
  failures.sort_by_key(|(f, c, _)| (f.clone(), c.to_string().len()));
  let evaluations: u64 = sink.facets.values().map(|f| f.evaluations).sum();
  let samples: Vec<Value> = sink
    .facets
    .iter()
    .flat_map(|(n, f)| f.samples.iter().map(move |s| json!({"facet": n, "case": s})))
    .collect();
  let facets: BTreeMap<&String, Value> = sink
    .facets
    .iter()
    .map(|(n, f)| {
      (
        n,
        json!({"evaluations": f.evaluations, "nontrivial": f.nontrivial, "discarded": f.discarded, "labels": f.labels, "slowest_case_cpu_ms": f.slowest_ms}),
      )
    })
    .collect();
  let ev = json!({
    "property": prop.id,
    "tier": tier,
    "seed": seed() as i64,
    "level": "exploration",
    "coverage": {
      "evaluations": evaluations,
      "distinct_nontrivial": sink.hashes.len(),
      "rule": prop.rule,
      "samples": samples,
      "facets": facets,
      "workers": nshards,
      "known_findings_reproduced": known.len(),
    },
    "assumptions": prop.assumptions,
    "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
    "violations": failures.len(),
  });
  let evdir = verif_root().join("evidence");
  let _ = std::fs::create_dir_all(&evdir);
  std::fs::write(
    evdir.join(format!("{}.json", prop.id)),
    serde_json::to_string_pretty(&ev).unwrap() + "\n",
  )
  .expect("write evidence");
  let _ = std::fs::remove_dir_all(&dir);
  for k in &known {
    println!("KNOWN-FINDING: property={} {}", prop.id, k);
  }
  let mut seen = BTreeSet::new();
  for (f, c, m) in &failures {
    if !seen.insert(f.clone()) {
      continue;
    }
    let p = write_replay(prop.id, f, c, m);
    println!("VIOLATION property={} replay={}", prop.id, p.display());
    println!("  facet {}: {}", f, m);
    println!("  case: {}", c);
  }
  println!(
    "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
    prop.id,
    evaluations,
    sink.hashes.len(),
    t0.elapsed().as_secs_f64()
  );
  let _ = std::io::stdout().flush();
  if !failures.is_empty() {
    1
  } else if !errors.is_empty() {
    2
  } else {
    0
  }
}

// ------------------------------------------------------------------------------------------------ dictionary
/// The numbers, texts and characters written in the sources of the code under test (tests left out): seeds for the
/// generators, as the dictionary of a fuzzer. They only say where to look; what is right is decided by the oracle.
#[derive(Debug, Default)]
pub struct Mined {
  pub ints: Vec<u64>,
  pub words: Vec<String>,
  pub chars: Vec<char>,
}
pub fn mined() -> &'static Mined {
  static M: std::sync::OnceLock<Mined> = std::sync::OnceLock::new();
  M.get_or_init(|| {
    let exe = std::env::current_exe().ok().and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned())).unwrap_or_default();
    let name = match exe.trim_end_matches("_h") {
      "long" => "parser",
      x => x,
    };
    let (mut ints, mut words, mut chars) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut dirs = vec![PathBuf::from("/repo").join(name).join("src")];
    while let Some(d) = dirs.pop() {
      for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
          dirs.push(p);
        } else if p.extension().is_some_and(|x| x == "rs") {
          let text = std::fs::read_to_string(&p).unwrap_or_default();
          for line in text.split("#[cfg(test)]").next().unwrap_or("").lines() {
            mine(line, &mut ints, &mut words, &mut chars);
          }
        }
      }
    }
    Mined { ints: ints.into_iter().collect(), words: words.into_iter().collect(), chars: chars.into_iter().collect() }
  })
}
fn mine(line: &str, ints: &mut BTreeSet<u64>, words: &mut BTreeSet<String>, chars: &mut BTreeSet<char>) {
  let c: Vec<char> = line.chars().collect();
  let esc = |i: usize| -> Option<(char, usize)> {
    // the character at i of a literal, and where the next begins
    if *c.get(i)? != '\\' {
      return Some((c[i], i + 1));
    }
    Some(match c.get(i + 1)? {
      'n' => ('\n', i + 2),
      'r' => ('\r', i + 2),
      't' => ('\t', i + 2),
      '0' => ('\0', i + 2),
      'x' => (char::from_u32(u32::from_str_radix(&c.get(i + 2..i + 4)?.iter().collect::<String>(), 16).ok()?)?, i + 4),
      'u' => {
        let end = c[i..].iter().position(|x| *x == '}')? + i;
        (char::from_u32(u32::from_str_radix(&c.get(i + 3..end)?.iter().collect::<String>(), 16).ok()?)?, end + 1)
      }
      x => (*x, i + 2),
    })
  };
  let mut i = 0;
  while i < c.len() {
    match c[i] {
      '/' if c.get(i + 1) == Some(&'/') => return,
      '"' => {
        let (mut w, mut j) = (String::new(), i + 1);
        while c.get(j).is_some_and(|x| *x != '"') {
          match esc(j) {
            Some((x, n)) => {
              w.push(x);
              j = n;
            }
            None => return,
          }
        }
        if !w.is_empty() && w.chars().count() <= 40 {
          words.insert(w);
        }
        i = j + 1;
      }
      '\'' => match esc(i + 1) {
        Some((x, n)) if c.get(n) == Some(&'\'') => {
          chars.insert(x);
          i = n + 1;
        }
        _ => i += 1,
      },
      x if x.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) => {
        let mut j = i;
        while c.get(j).is_some_and(|x| x.is_ascii_alphanumeric() || *x == '_') {
          j += 1;
        }
        let t: String = c[i..j].iter().filter(|x| **x != '_').collect();
        let t = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "i128", "u128"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t);
        let n = match t.strip_prefix("0x") {
          Some(h) => u64::from_str_radix(h, 16),
          None => t.parse(),
        };
        if let Ok(n) = n {
          ints.insert(n);
        }
        i = j;
      }
      _ => i += 1,
    }
  }
}
/// A number of the dictionary, or one next to it, up to `most`.
pub fn mined_int(most: u64) -> BoxedStrategy<u64> {
  let v: BTreeSet<u64> = mined().ints.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)]).filter(|n| *n <= most).chain([0]).collect();
  proptest::sample::select(v.into_iter().collect::<Vec<_>>()).boxed()
}
pub fn mined_size(most: usize) -> BoxedStrategy<usize> {
  mined_int(most as u64).prop_map(|n| n as usize).boxed()
}
/// A text of the dictionary that is allowed here.
pub fn mined_word(ok: impl Fn(&str) -> bool, otherwise: &str) -> BoxedStrategy<String> {
  let v: Vec<String> = mined().words.iter().filter(|w| ok(w)).cloned().chain([otherwise.to_string()]).collect();
  proptest::sample::select(v).boxed()
}
pub fn mined_char(otherwise: char) -> BoxedStrategy<char> {
  let v: BTreeSet<char> = mined().chars.iter().copied().chain(mined().words.iter().flat_map(|w| w.chars())).chain([otherwise]).collect();
  proptest::sample::select(v.into_iter().collect::<Vec<_>>()).boxed()
}


/// Entry point of a harness binary.
/// `<bin> <id>` runs the check; `<bin> replay <file>` re-executes a replay file; `<bin> list` lists.
pub fn run_main(props: fn(&str) -> Option<Property>, ids: &[&str]) {
  let args: Vec<String> = std::env::args().collect();
  let get = |id: &str| {
    props(id).unwrap_or_else(|| {
      eprintln!("unknown property {}", id);
      std::process::exit(2)
    })
  };
  let big = |f: Box<dyn FnOnce() -> i32 + Send>| -> i32 {
    std::thread::Builder::new()
      .stack_size(WIDE_STACK)
      .spawn(f)
      .unwrap()
      .join()
      .unwrap_or(2)
  };
  let ids: Vec<String> = ids.iter().map(|s| s.to_string()).collect();
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("--child") => {
      let a = args.clone();
      big(Box::new(move || {
        let p = props(&a[2]).expect("property");
        child(&p, a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5]));
        0
      }))
    }
    Some("replay") => {
      let v: Value = deep(&std::fs::read(&args[2]).expect("replay file")).expect("replay JSON");
      big(Box::new(move || {
        install_hook();
        let p = props(v["property"].as_str().unwrap()).expect("property");
        let f = p
          .facets
          .iter()
          .find(|f| f.name == v["facet"].as_str().unwrap())
          .expect("facet");
        match f.replay(&v["case"], &mut Sink::default()) {
          Ok(()) => {
            eprintln!("replay: the property holds on this case");
            0
          }
          Err(e) => {
            eprintln!("replay: {}", e.message);
            1
          }
        }
      }))
    }
    Some("list") => {
      for i in ids {
        println!("{}", i);
      }
      0
    }
    Some(id) => parent(&get(id)),
    None => {
      eprintln!("usage: <bin> <property id> | replay <file> | list");
      2
    }
  };
  std::process::exit(code);
}

#[cfg(test)]
mod tests {
  #[test]
  fn literals_of_a_line() {
    let (mut i, mut w, mut c) = Default::default();
    super::mine(r#"let x1 = f(b'a', '\u{FEFF}', '\'', "a\"b", 1_000usize, 0xFFu8..=7, 'a: { } "t"); // 9 "no""#, &mut i, &mut w, &mut c);
    assert_eq!(i.into_iter().collect::<Vec<_>>(), [7, 255, 1000]);
    assert_eq!(w.into_iter().collect::<Vec<_>>(), ["a\"b", "t"]);
    assert_eq!(c.into_iter().collect::<Vec<_>>(), ['\'', 'a', '\u{feff}']);
  }
}
