//! Shared parts of the monitors: deterministic randomness, the case runner with its budgets, the
//! report writer.  Depends on nothing but std, so that it is never what breaks a build.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.u64();
    r.u64();
    r
  }

  pub fn u64(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }

  /// Uniform in `0..n` (0 if n is 0).
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      0
    } else {
      (self.u64() % n as u64) as usize
    }
  }

  /// Uniform in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }

  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }

  pub fn bool(&mut self) -> bool {
    self.u64() & 1 == 1
  }

  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }

  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }

  /// Index drawn with the given weights.
  pub fn weighted(&mut self, ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut x = self.below(total);
    for (i, w) in ws.iter().enumerate() {
      if x < *w {
        return i;
      }
      x -= w;
    }
    ws.len() - 1
  }

  pub fn fork(&mut self) -> Rng {
    Rng::new(self.u64())
  }
}

pub fn fnv(data: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in data {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100_0000_01b3);
  }
  h ^ (h >> 29)
}

pub fn case_seed(seed: u64, prop: &str, case: u64) -> u64 {
  let mut r = Rng::new(seed ^ fnv(prop.as_bytes()));
  let a = r.u64();
  let mut r = Rng::new(a ^ case.wrapping_mul(0xd6e8_feb8_6659_fd93));
  r.u64()
}

// ---------------------------------------------------------------- allocation budget

/// Counts allocated bytes; the logical work budget of one case.
pub struct CountingAlloc;

static ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);
static ALLOC_LIVE: AtomicU64 = AtomicU64::new(0);
static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static IN_CASE: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for CountingAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    note_alloc(l.size());
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    ALLOC_LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    note_alloc(l.size());
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    ALLOC_LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
    note_alloc(n);
    System.realloc(p, l, n)
  }
}

fn note_alloc(n: usize) {
  let n = n as u64;
  let total = ALLOC_BYTES.fetch_add(n, Ordering::Relaxed).wrapping_add(n);
  let live = ALLOC_LIVE.fetch_add(n, Ordering::Relaxed).wrapping_add(n);
  if IN_CASE.load(Ordering::Relaxed)
    && (total > ALLOC_LIMIT.load(Ordering::Relaxed) || (live as i64) > LIVE_LIMIT.load(Ordering::Relaxed) as i64)
  {
    fatal("work budget exceeded: the case allocated more memory than any correct run needs");
  }
}

extern "C" {
  fn _exit(code: i32) -> !;
  fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

fn cpu_ms() -> u64 {
  if cfg!(miri) {
    return 0;
  }
  let mut ts = [0i64; 2];
  // CLOCK_PROCESS_CPUTIME_ID
  unsafe { clock_gettime(2, &mut ts) };
  ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

/// Reports a violation of the running case and ends the process at once (used where unwinding is
/// not possible).
pub fn fatal(msg: &str) -> ! {
  IN_CASE.store(false, Ordering::SeqCst);
  if let Ok(mut p) = PROGRESS_FATAL.try_lock() {
    if let Some(f) = p.as_mut() {
      let _ = f.write_all(msg.as_bytes());
    }
  }
  unsafe { _exit(77) }
}

static PROGRESS_FATAL: Mutex<Option<File>> = Mutex::new(None);

// ---------------------------------------------------------------- step budget

thread_local! {
  static STEPS: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Panic payload of an exceeded step budget.
pub struct StepsExceeded;

/// Sets how many polls instrumented sources may still see in this case.
pub fn set_steps(n: u64) {
  STEPS.with(|s| s.set(n));
}

/// Called by instrumented sources on every poll.
pub fn step() {
  STEPS.with(|s| {
    let n = s.get();
    if n == 0 {
      s.set(u64::MAX);
      panic::panic_any(StepsExceeded);
    }
    s.set(n - 1);
  })
}

// ---------------------------------------------------------------- one case

/// What a monitor reports for a violated case.
pub type Verdict = Result<(), String>;

/// The context handed to the monitor for one case.
pub struct Case {
  pub rng: Rng,
  pub index: u64,
  pub thorough: bool,
  pub verbose: bool,
  counters: BTreeMap<&'static str, u64>,
  /// Set by the monitor: a fingerprint of a non-trivial case.
  fingerprints: Vec<u64>,
  evals: u64,
  sample: Option<String>,
  findings: BTreeMap<&'static str, u64>,
}

impl Case {
  /// Counts an event observed in this case.
  pub fn count(&mut self, what: &'static str, n: u64) {
    *self.counters.entry(what).or_insert(0) += n;
  }

  /// Marks one evaluation of the oracle (default: one per case).
  pub fn evals(&mut self, n: u64) {
    self.evals += n;
  }

  /// Registers a distinct non-trivial case by its content.
  pub fn distinct(&mut self, content: &str) {
    self.fingerprints.push(fnv(content.as_bytes()));
  }

  pub fn distinct_hash(&mut self, h: u64) {
    self.fingerprints.push(h);
  }

  /// The case shows a defect that may be listed as known: counted if it is, a violation if not.
  pub fn finding(&mut self, id: &'static str, msg: String) -> Verdict {
    let known = std::env::var("VMON_KNOWN").unwrap_or_default();
    if !known.split(',').any(|k| k == id) {
      return Err(msg);
    }
    *self.findings.entry(id).or_insert(0) += 1;
    Ok(())
  }

  /// Text of the case, kept as a sample for the evidence.
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.sample.is_none() && (self.index < 64 || self.verbose) {
      let mut s = f();
      if self.verbose {
        eprintln!("case {}: {s}", self.index);
      }
      if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
          n -= 1;
        }
        s.truncate(n);
        s.push('…');
      }
      self.sample = Some(s);
    }
  }
}

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- the worker

pub type MonitorFn = fn(&mut Case) -> Verdict;

pub struct Prop {
  pub id: &'static str,
  pub run: MonitorFn,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  /// Allocation budget of one case in MiB (total, not live).
  pub alloc_mib: u64,
  /// Whether cases may run concurrently with nothing else: CPU budget of one case in seconds.
  pub cpu_s: u64,
}

struct PanicInfo {
  msg: String,
  loc: String,
  in_harness: bool,
}

thread_local! {
  static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

static OTHER_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Message of a panic on any other thread since the last call.
pub fn take_thread_panic() -> Option<String> {
  OTHER_PANIC.lock().ok().and_then(|mut p| p.take())
}

fn payload_text(p: &(dyn Any + Send)) -> String {
  if p.is::<StepsExceeded>() {
    "step budget exceeded: the source was polled far more often than any correct run needs".into()
  } else if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".into()
  }
}

fn install_hook(generated: bool) {
  panic::set_hook(Box::new(move |info| {
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    let harness_dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../");
    let _ = harness_dir;
    let in_harness = !generated
      && !info.payload().is::<StepsExceeded>()
      && (loc.starts_with("src/") || loc.contains("/verif/harness/"));
    let msg = payload_text(info.payload());
    if std::thread::current().name() != Some("main") {
      if let Ok(mut o) = OTHER_PANIC.lock() {
        *o = Some(format!("{msg} at {loc}"));
      }
    }
    let _ = LAST_PANIC.try_with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        *p = Some(PanicInfo { msg, loc, in_harness });
      }
    });
  }));
}

/// Runs code under test, turning a panic into a description of it.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  match panic::catch_unwind(AssertUnwindSafe(f)) {
    Ok(r) => Ok(r),
    Err(p) => {
      let info = LAST_PANIC.with(|p| p.borrow_mut().take());
      Err(match info {
        Some(i) => format!("panic: {} at {}", i.msg, i.loc),
        None => format!("panic: {}", payload_text(&*p)),
      })
    }
  }
}

pub fn json_str(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

static CASE_START_CPU: AtomicU64 = AtomicU64::new(0);
static CASE_SERIAL: AtomicUsize = AtomicUsize::new(0);

fn all_threads_blocked() -> bool {
  // every thread but the caller sleeps in the kernel
  let me = std::fs::read_link("/proc/thread-self")
    .ok()
    .and_then(|p| p.file_name().map(|n| n.to_os_string()));
  let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return false };
  for e in dir.flatten() {
    if Some(e.file_name()) == me {
      continue;
    }
    let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
    let state = s.rsplit(')').next().and_then(|r| r.trim().chars().next());
    if state != Some('S') {
      return false;
    }
  }
  true
}

fn spawn_watchdog(cpu_s: u64) {
  if cpu_s == 0 {
    return;
  }
  CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
  let _ = std::thread::Builder::new().name("vmon-watchdog".into()).spawn(move || {
    let mut serial = usize::MAX;
    let mut last_cpu = 0;
    let mut idle = 0;
    loop {
      std::thread::sleep(std::time::Duration::from_millis(500));
      if !IN_CASE.load(Ordering::SeqCst) {
        idle = 0;
        continue;
      }
      let now = CASE_SERIAL.load(Ordering::SeqCst);
      let cpu = cpu_ms();
      if now != serial {
        serial = now;
        idle = 0;
        last_cpu = cpu;
        continue;
      }
      if cpu.saturating_sub(CASE_START_CPU.load(Ordering::SeqCst)) > cpu_s * 1000 {
        fatal("work budget exceeded: the case used far more processor time than any correct run needs");
      }
      // a deadlock: nothing runs, nothing can run
      if cpu.saturating_sub(last_cpu) < 50 && all_threads_blocked() {
        idle += 1;
        if idle >= 60 {
          fatal("deadlock: every thread of the case is blocked");
        }
      } else {
        idle = 0;
      }
      last_cpu = cpu;
    }
  });
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

/// The main function of a monitor binary.
///
/// `generated`: panics in the harness's own files count as panics of the code under test (for
/// crates whose code the macros under test have generated).
pub fn worker_main(props: &[Prop], generated: bool) {
  let args: Vec<String> = std::env::args().collect();
  let id = arg(&args, "--prop").expect("--prop");
  let prop = props.iter().find(|p| p.id == id).expect("unknown property");
  let seed: u64 = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
  let thorough = arg(&args, "--tier") == Some("thorough");
  let shard: u64 = arg(&args, "--shard").map_or(0, |s| s.parse().unwrap());
  let shards: u64 = arg(&args, "--shards").map_or(1, |s| s.parse().unwrap());
  let cases: u64 = arg(&args, "--cases").map_or(1, |s| s.parse().unwrap());
  let max_s: f64 = arg(&args, "--max-s").map_or(1e9, |s| s.parse().unwrap());
  let only: Option<u64> = arg(&args, "--case").map(|s| s.parse().unwrap());
  let out = arg(&args, "--out");
  let progress = out.map(|o| File::create(format!("{o}.progress")).unwrap());
  if let Some(o) = out {
    *PROGRESS_FATAL.lock().unwrap() = Some(File::create(format!("{o}.fatal")).unwrap());
  }
  install_hook(generated);
  if !cfg!(miri) {
    spawn_watchdog(prop.cpu_s);
  }

  let start = std::time::Instant::now();
  let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut findings: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut prints: HashSet<u64> = HashSet::new();
  let mut evals = 0u64;
  let mut samples: Vec<String> = Vec::new();
  let mut violations: Vec<(u64, String)> = Vec::new();
  let mut harness_errors: Vec<(u64, String)> = Vec::new();
  let mut n = 0;
  let mut truncated = false;
  let mut i = only.unwrap_or(shard);
  while i < cases || only.is_some() {
    if let Some(p) = &progress {
      let _ = p.write_all_at(&i.to_le_bytes(), 0);
    }
    let mut case = Case {
      rng: Rng::new(case_seed(seed, id, i)),
      index: i,
      thorough,
      verbose: only.is_some(),
      counters: BTreeMap::new(),
      fingerprints: Vec::new(),
      evals: 0,
      sample: None,
      findings: BTreeMap::new(),
    };
    set_steps(u64::MAX);
    ALLOC_LIMIT.store(
      ALLOC_BYTES.load(Ordering::Relaxed).saturating_add(prop.alloc_mib << 20),
      Ordering::SeqCst,
    );
    LIVE_LIMIT.store(3 << 30, Ordering::SeqCst);
    CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
    CASE_SERIAL.fetch_add(1, Ordering::SeqCst);
    IN_CASE.store(prop.alloc_mib > 0, Ordering::SeqCst);
    let _ = take_thread_panic();
    let r = panic::catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut case)));
    IN_CASE.store(false, Ordering::SeqCst);
    set_steps(u64::MAX);
    match r {
      Ok(Ok(())) => {}
      Ok(Err(m)) => violations.push((i, m)),
      Err(p) => match LAST_PANIC.with(|p| p.borrow_mut().take()) {
        Some(info) if info.in_harness => {
          harness_errors.push((i, format!("harness panic: {} at {}", info.msg, info.loc)))
        }
        Some(info) => violations.push((i, format!("panic: {} at {}", info.msg, info.loc))),
        None => violations.push((i, payload_text(&*p))),
      },
    }
    n += 1;
    evals += case.evals.max(1);
    for (k, v) in case.findings {
      *findings.entry(k).or_insert(0) += v;
    }
    for (k, v) in case.counters {
      *counters.entry(k).or_insert(0) += v;
    }
    if prints.len() < 2_000_000 {
      prints.extend(case.fingerprints);
    }
    if let Some(s) = case.sample {
      if samples.len() < 3 {
        samples.push(s);
      }
    }
    if only.is_some() || violations.len() + harness_errors.len() >= 3 {
      break;
    }
    if start.elapsed().as_secs_f64() > max_s {
      truncated = true;
      break;
    }
    i += shards;
  }

  let mut o = String::new();
  let _ = write!(o, "{{\"cases\":{n},\"evaluations\":{evals},\"truncated\":{truncated},\"rule\":{}", json_str(prop.rule));
  let _ = write!(o, ",\"counters\":{{");
  for (k, (c, v)) in counters.iter().enumerate() {
    let _ = write!(o, "{}{}:{v}", if k > 0 { "," } else { "" }, json_str(c));
  }
  o.push_str("},\"findings\":{");
  for (k, (c, v)) in findings.iter().enumerate() {
    let _ = write!(o, "{}{}:{v}", if k > 0 { "," } else { "" }, json_str(c));
  }
  o.push_str("},\"samples\":[");
  for (k, s) in samples.iter().enumerate() {
    let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, json_str(s));
  }
  for (name, list) in [("violations", &violations), ("harness_errors", &harness_errors)] {
    let _ = write!(o, "],\"{name}\":[");
    for (k, (c, m)) in list.iter().enumerate() {
      let mut m = m.clone();
      if m.len() > 4000 {
        let mut n = 4000;
        while !m.is_char_boundary(n) {
          n -= 1;
        }
        m.truncate(n);
      }
      let _ = write!(o, "{}{{\"case\":{c},\"msg\":{}}}", if k > 0 { "," } else { "" }, json_str(&m));
    }
  }
  o.push_str("]}\n");
  match out {
    Some(out) => {
      let mut hashes: Vec<u8> = Vec::with_capacity(prints.len() * 8);
      for h in prints {
        hashes.extend(h.to_le_bytes());
      }
      std::fs::write(format!("{out}.hashes"), hashes).unwrap();
      std::fs::write(out, o).unwrap();
    }
    None => {
      let mut so = std::io::stdout().lock();
      let _ = so.write_all(o.as_bytes());
      for (c, m) in &violations {
        let _ = writeln!(so, "case {c}: VIOLATED\n{m}");
      }
      for (c, m) in &harness_errors {
        let _ = writeln!(so, "case {c}: HARNESS ERROR\n{m}");
      }
    }
  }
  std::io::stdout().flush().ok();
  if cfg!(miri) {
    std::process::exit(0);
  }
  // leave at once: threads of the code under test may still be alive
  unsafe { _exit(0) }
}
