//! D01–D03: counters and diagnostics.

use crate::readers::{gen_char, tmp_file};
use laps::input::InputStream;
use laps::reader::Reader;
use laps::span::{Error, FileType, Location, Result, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};
use std::marker::PhantomData;
use std::path::Path;
use unicode_width::UnicodeWidthChar;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

// ---------------------------------------------------------------- what goes to stderr

extern "C" {
  fn memfd_create(name: *const u8, flags: u32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn dup(a: i32) -> i32;
  fn ftruncate(fd: i32, n: i64) -> i32;
  fn lseek(fd: i32, off: i64, whence: i32) -> i64;
  fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize;
}

/// Sends what the code under test prints to nowhere.
pub fn quiet() {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
  unsafe { assert!(dup2(f.as_raw_fd(), 2) == 2) }
}

thread_local! {
  static MEM: i32 = unsafe { memfd_create(b"stderr\0".as_ptr(), 0) };
}

/// Runs `f` and returns what it wrote to standard error.
fn capture<R>(f: impl FnOnce() -> R) -> (std::result::Result<R, String>, String) {
  MEM.with(|mem| unsafe {
    assert!(*mem >= 0 && ftruncate(*mem, 0) == 0 && lseek(*mem, 0, 0) == 0);
    let old = dup(2);
    assert!(old >= 0 && dup2(*mem, 2) == 2);
    let r = guard(f);
    assert!(dup2(old, 2) == 2);
    extern "C" {
      fn close(fd: i32) -> i32;
    }
    close(old);
    let n = lseek(*mem, 0, 1).max(0) as usize;
    let mut buf = vec![0u8; n];
    let mut at = 0;
    while at < n {
      let k = pread(*mem, buf.as_mut_ptr().add(at), n - at, at as i64);
      assert!(k > 0);
      at += k as usize;
    }
    (r, strip_colour(&String::from_utf8_lossy(&buf)))
  })
}

fn strip_colour(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    if c == '\u{1b}' && it.peek() == Some(&'[') {
      for d in it.by_ref() {
        if d.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      out.push(c);
    }
  }
  out
}

// ---------------------------------------------------------------- D01

struct Probe<T>(PhantomData<T>);
trait NotSend {
  const SEND: bool = false;
}
impl<T> NotSend for Probe<T> {}
impl<T: Send> Probe<T> {
  const SEND: bool = true;
}
trait NotSync {
  const SYNC: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
  const SYNC: bool = true;
}

/// Lets the monitor drive spans across threads even if they stopped being `Send`.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

fn returned(s: &Span) -> Result<()> {
  return_error!(s, "returned {}", 1)
}

#[derive(Default, Clone, Copy, Debug)]
struct Tally {
  errors: usize,
  warnings: usize,
}

/// Logs once through `s`; what it must have counted.
fn log_once(kind: usize, s: &Span, t: &mut Tally) -> Verdict {
  let fatal = |e: Error, want: bool| -> Verdict {
    ensure!(e.is_fatal() == want, "the returned error is {e:?}, logged as {}", if want { "fatal" } else { "normal" });
    Ok(())
  };
  match kind {
    0 => fatal(log_error!(s, "e {}", 1), false)?,
    1 => fatal(log_fatal_error!(s, "f"), true)?,
    2 => fatal(log_raw_error!(s, "re"), false)?,
    3 => fatal(log_raw_fatal_error!(s, "rf {:?}", "x"), true)?,
    4 => match returned(s) {
      Err(e) => fatal(e, false)?,
      Ok(()) => return Err("return_error! did not return an error".into()),
    },
    5 => log_warning!(s, "w"),
    _ => log_raw_warning!(s, "rw {}", 2),
  }
  if kind <= 4 {
    t.errors += 1;
  } else {
    t.warnings += 1;
  }
  Ok(())
}

/// Another copy of a span of the same input.
fn copy(r: &mut Rng, s: &Span) -> Span {
  match r.below(6) {
    0 => s.clone().into_updated(&'x'),
    1 => s.clone().into_updated(&b'\n'),
    2 => s.clone().into_end_updated(s.clone().into_updated(&'\n')),
    3 => {
      let mut t = s.clone();
      t.update(&'a');
      t
    }
    4 => {
      let mut t = s.clone();
      // positions of any size, counters do not depend on them
      let (l, c) = (1usize << r.range(1, 31), 1usize << r.range(1, 31));
      t.update_loc(Location { line: r.below(l) as u32, col: r.below(c) as u32 });
      t.update_end(s);
      t
    }
    _ => s.clone(),
  }
}

fn gen_file_type(r: &mut Rng) -> FileType {
  match r.below(3) {
    0 => FileType::Buffer,
    1 => FileType::Stdin,
    _ => FileType::File(Path::new("/nonexistent/laps").into()),
  }
}

fn d01(c: &mut Case) -> Verdict {
  ensure!(Probe::<Span>::SEND, "Span cannot be sent to another thread");
  ensure!(Probe::<Span>::SYNC, "Span cannot be shared between threads");
  let inputs = c.rng.range(1, 4);
  let threads = c.rng.range(1, 8);
  let per = if threads == 1 { c.rng.range(1, 60) } else { c.rng.range(20, 300) };
  let roots: Vec<Span> = (0..inputs)
    .map(|k| {
      if k % 2 == 0 {
        Span::new(gen_file_type(&mut c.rng))
      } else {
        // the span of a reader
        let mut rd = Reader::from("ab\ncd");
        for _ in 0..c.rng.below(6) {
          let _ = rd.next_char();
        }
        rd.span().clone()
      }
    })
    .collect();
  c.sample(|| format!("{threads} threads, {inputs} inputs, {per} operations each"));
  for s in &roots {
    ensure!(s.error_num() == 0 && s.warning_num() == 0, "a new input starts with {} errors, {} warnings", s.error_num(), s.warning_num());
  }
  let start = std::sync::Barrier::new(threads);
  let rngs: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
  // one set of spans is shared by reference, each thread also owns copies
  let shared = Force(&roots);
  let bar = &start;
  let results: Vec<std::result::Result<(Vec<Tally>, Vec<Vec<Span>>, u64), String>> = std::thread::scope(|sc| {
    let hs: Vec<_> = rngs
      .into_iter()
      .map(|mut r| {
        let own = Force(roots.iter().map(|s| copy(&mut r, s)).collect::<Vec<_>>());
        let shared = &shared;
        sc.spawn(move || {
          let own = { own };
          let shared = { shared };
          let out = guard(|| -> std::result::Result<_, String> {
            let mut copies: Vec<Vec<Span>> = own.0.iter().map(|s| vec![s.clone()]).collect();
            let mut tally = vec![Tally::default(); inputs];
            let mut last = vec![Tally::default(); inputs];
            let mut seen = 0u64;
            bar.wait();
            for _ in 0..per {
              let k = r.below(inputs);
              let s = if r.bool() { shared.0[k].clone() } else { r.clone().pick(&copies[k]).clone() };
              let s = if r.chance(1, 3) { copy(&mut r, &s) } else { s };
              if r.chance(1, 8) {
                copies[k].push(s.clone());
                if copies[k].len() > 6 {
                  copies[k].swap_remove(0);
                }
              }
              if r.chance(3, 4) {
                log_once(r.below(7), &s, &mut tally[k])?;
              }
              if r.chance(1, 20) {
                std::thread::yield_now();
              }
              // what a thread sees never goes back and includes its own
              let (e, w) = (s.error_num(), s.warning_num());
              ensure!(e >= last[k].errors && w >= last[k].warnings, "counts went back: {e} errors, {w} warnings after {:?}", last[k]);
              ensure!(e >= tally[k].errors && w >= tally[k].warnings, "a thread sees {e} errors, {w} warnings after logging {:?} itself", tally[k]);
              last[k] = Tally { errors: e, warnings: w };
              seen += 1;
            }
            Ok((tally, copies, seen))
          });
          Force(out.and_then(|x| x))
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Force(Err("a logging thread panicked".into()))).0).collect()
  });
  let mut total = vec![Tally::default(); inputs];
  let mut all: Vec<Vec<Span>> = roots.iter().map(|s| vec![s.clone()]).collect();
  for r in results {
    let (t, copies, seen) = r?;
    for k in 0..inputs {
      total[k].errors += t[k].errors;
      total[k].warnings += t[k].warnings;
      all[k].extend(copies[k].iter().cloned());
    }
    c.count("counter observations", seen);
  }
  for k in 0..inputs {
    for s in &all[k] {
      ensure!(
        s.error_num() == total[k].errors && s.warning_num() == total[k].warnings,
        "input {k} of {inputs}, {threads} threads: a copy shows {} errors and {} warnings, {} and {} were logged",
        s.error_num(),
        s.warning_num(),
        total[k].errors,
        total[k].warnings
      );
      c.count("copies compared", 1);
    }
    c.count("errors logged", total[k].errors as u64);
    c.count("warnings logged", total[k].warnings as u64);
  }
  if c.rng.chance(1, 800) {
    // more than 16 bits count
    let t = &mut total[0];
    let root = &roots[0];
    let (mut e, mut w) = (0, 0);
    match c.rng.below(3) {
      0 => e = 65_600,
      1 => w = 65_600,
      _ => (e, w) = (33_000, 66_000),
    }
    for k in 0..e.max(w) {
      let s = if k % 3 == 0 { copy(&mut c.rng, root) } else { root.clone() };
      if k < e {
        let _ = log_raw_error!(s, "r");
        t.errors += 1;
      }
      if k < w {
        log_raw_warning!(s, "r");
        t.warnings += 1;
      }
      ensure!(
        root.error_num() == t.errors && s.warning_num() == t.warnings,
        "after {} errors and {} warnings were logged, {} and {} are counted",
        t.errors,
        t.warnings,
        root.error_num(),
        s.warning_num()
      );
    }
    c.count("inputs with more than 65000 messages", 1);
  }
  if threads > 1 {
    c.count("cases with concurrent logging", 1);
  }
  c.distinct(&format!("{threads} {inputs} {per} {total:?}"));
  Ok(())
}

// ---------------------------------------------------------------- D02

fn width(c: char) -> usize {
  if c == '\t' {
    2
  } else {
    c.width().unwrap_or(0)
  }
}

fn expand(line: &str) -> String {
  line.chars().map(|c| if c == '\t' { "  ".to_string() } else { c.to_string() }).collect()
}

fn columns(line: &str, chars: u32) -> usize {
  line.chars().take(chars as usize).map(width).sum()
}

/// The source block of a diagnostic.
fn block(text: &str, start: (u32, u32), end: (u32, u32)) -> String {
  let lines: Vec<&str> = text.lines().collect();
  let line = |n: u32| lines.get(n as usize - 1).copied().unwrap_or("");
  let mut o = String::new();
  let first = line(start.0);
  if start.0 == end.0 {
    let w = start.0.to_string().len();
    let lead = columns(first, start.1 - 1);
    let len = columns(first, end.1).saturating_sub(lead).max(1);
    o += &format!("{} |\n", " ".repeat(w));
    o += &format!("{} | {}\n", start.0, expand(first));
    o += &format!("{} | {}{}\n", " ".repeat(w), " ".repeat(lead), "^".repeat(len));
  } else {
    let w = end.0.to_string().len().max(2);
    let num = |n: u32| {
      let s = n.to_string();
      " ".repeat(w - s.len()) + &s
    };
    let pad = " ".repeat(w);
    o += &format!("{pad} |\n");
    o += &format!("{} |   {}\n", num(start.0), expand(first));
    o += &format!("{pad} |  {}^\n", "_".repeat(columns(first, start.1)));
    let mids: Vec<u32> = (start.0 + 1..end.0).collect();
    for (k, n) in mids.iter().enumerate() {
      if mids.len() <= 4 || k < 2 || k + 1 == mids.len() {
        o += &format!("{} | | {}\n", num(*n), expand(line(*n)));
      } else if k == 2 {
        o += &format!("{} | |\n", ".".repeat(w));
      }
    }
    let last = line(end.0);
    o += &format!("{} | | {}\n", num(end.0), expand(last));
    let e = columns(last, end.1);
    o += &format!("{pad} | {}{}^\n", if e == 0 { " " } else { "|" }, "_".repeat(e));
  }
  o
}

fn gen_source(r: &mut Rng) -> String {
  let lines = match r.below(6) {
    0 => r.below(3),
    1..=3 => r.range(1, 14),
    4 => r.range(90, 110),
    // line numbers of five and six digits
    _ if r.chance(1, 250) => *r.pick(&[9_990, 99_990]) + r.below(20),
    _ => r.range(990, 1010),
  };
  let crlf = r.chance(1, 5);
  let mut s = String::new();
  if r.chance(1, 12) {
    s.push('\u{feff}');
  }
  for k in 0..lines {
    let n = if lines > 5000 && k + 30 < lines { 0 } else if lines > 50 { r.below(6) } else { r.below(30) };
    for _ in 0..n {
      s.push(match r.weighted(&[50, 8, 8, 8, 4]) {
        0 => (b'!' + r.below(94) as u8) as char,
        1 => ' ',
        2 => '\t',
        3 => *r.pick(&['你', '好', 'é', 'ß', '✨', '😂', '\u{301}', '\u{200b}', '\u{feff}', '\u{3000}', '가', 'ﾊ', '\u{0}', '\u{1}', '\u{7f}', '\u{ad}', '\r']),
        _ => {
          let c = gen_char(r, false);
          if c == '\n' {
            'x'
          } else {
            c
          }
        }
      });
    }
    if k + 1 < lines || r.chance(2, 3) {
      s.push_str(if crlf { "\r\n" } else { "\n" });
    }
  }
  // an escape character would be taken for a colour code by the capture
  s.replace('\u{1b}', "~")
}

fn log_kind(r: &mut Rng, s: &Span, msg: &str) -> (&'static str, std::result::Result<Option<bool>, String>, String, bool) {
  match r.below(4) {
    0 => {
      let (e, out) = capture(|| log_error!(s, "{msg}"));
      ("error", e.map(|e| Some(e.is_fatal())), out, false)
    }
    1 => {
      let (e, out) = capture(|| log_fatal_error!(s, "{msg}"));
      ("error", e.map(|e| Some(e.is_fatal())), out, true)
    }
    2 => {
      let (e, out) = capture(|| log_warning!(s, "{}", msg));
      ("warning", e.map(|_| None), out, false)
    }
    _ => {
      fn ret(s: &Span, msg: &str) -> Result<()> {
        return_error!(s, "{msg}")
      }
      let (e, out) = capture(|| ret(s, msg));
      ("error", e.map(|e| e.err().map(|e| e.is_fatal())), out, false)
    }
  }
}

const MESSAGES: &[&str] = &["unexpected token", "", "多字节 message ✨", "two\nlines", "{braces} %s", "a \"quoted\" word"];

fn d02(c: &mut Case) -> Verdict {
  let text = gen_source(&mut c.rng);
  let name = *c.rng.pick(&["d02", "d02 with space", "d02-文件"]);
  let p = tmp_file(name, c.index);
  std::fs::write(&p, &text).unwrap();
  c.sample(|| format!("{} lines: {text:?}", text.lines().count()));
  let r = (|| {
    let mut rd = Reader::from_path(&p).unwrap();
    let start = rd.span().clone();
    let mut spans = Vec::new();
    loop {
      match guard(|| rd.next_char_span())? {
        Ok((Some(_), s)) => spans.push(s),
        Ok((None, s)) => {
          spans.push(s);
          break;
        }
        Err(e) => return Err(format!("reading a valid file: {e:?}")),
      }
    }
    let (mut errors, mut warnings) = (0, 0);
    for _ in 0..if c.thorough { 24 } else { 10 } {
      let near_end = spans.len() > 9_000 && c.rng.chance(2, 3);
      let mut i = if near_end { spans.len() - 1 - c.rng.below(100) } else { c.rng.below(spans.len()) };
      let mut j = match c.rng.below(5) {
        0 => i,
        1 => (i + c.rng.below(4)).min(spans.len() - 1),
        2 => (i + c.rng.below(40)).min(spans.len() - 1),
        _ => c.rng.below(spans.len()),
      };
      if i > j {
        std::mem::swap(&mut i, &mut j);
      }
      let mut sp = spans[i].clone().into_end_updated(&spans[j]);
      if c.rng.chance(1, 20) {
        sp = start.clone();
      }
      let no_file = c.rng.chance(1, 12);
      let (sp, at) = if no_file {
        // the same place without a file
        let ft = if c.rng.bool() { FileType::Stdin } else { FileType::Buffer };
        let at = format!("{ft}");
        let mut n = Span::new(ft);
        let mut e = n.clone();
        e.update_loc(sp.end());
        n.update_loc(sp.start());
        (n.into_end_updated(e), at)
      } else {
        (sp, p.display().to_string())
      };
      let msg = c.rng.pick(MESSAGES).to_string();
      let (s, e) = ((sp.start().line, sp.start().col), (sp.end().line, sp.end().col));
      let (kind, res, out, fatal) = log_kind(&mut c.rng, &sp, &msg);
      let src = if s.1 > 0 && e.1 > 0 && !no_file { block(&text, s, e) } else { String::new() };
      let want = format!("{kind}: {msg}\n  at {at}:{}:{}\n{src}\n", s.0, s.1);
      let got = res.map_err(|e| format!("logging through span {sp}: {e}"))?;
      ensure!(got.map_or(true, |g| g == fatal), "the returned error's severity is wrong");
      ensure!(out == want, "diagnostic of span {sp}:\n{out}\nexpected:\n{want}\nsource: {text:?}");
      c.evals(1);
      c.count(
        if no_file {
          "diagnostics without a file"
        } else if src.is_empty() {
          "diagnostics without a position"
        } else if s.0 == e.0 {
          "one-line diagnostics"
        } else if e.0 - s.0 > 5 {
          "diagnostics with lines left out"
        } else {
          "multi-line diagnostics"
        },
        1,
      );
      c.distinct(&want);
      if !no_file {
        if kind == "error" {
          errors += 1;
        } else {
          warnings += 1;
        }
        ensure!(sp.error_num() == errors && sp.warning_num() == warnings, "counts are {} and {}, expected {errors} and {warnings}", sp.error_num(), sp.warning_num());
      }
    }
    // messages without a place
    for _ in 0..3 {
      let msg = *c.rng.pick(MESSAGES);
      let sp = c.rng.pick(&spans).clone();
      let (word, fatal, (got, out)) = match c.rng.below(3) {
        0 => ("error", Some(false), capture(|| Some(log_raw_error!(sp, "{msg}").is_fatal()))),
        1 => ("error", Some(true), capture(|| Some(log_raw_fatal_error!(sp, "{}", msg).is_fatal()))),
        _ => ("warning", None, capture(|| {
          log_raw_warning!(sp, "{msg}");
          None
        })),
      };
      let got = got.map_err(|e| format!("logging without a place: {e}"))?;
      ensure!(got == fatal, "the returned error's severity is wrong");
      ensure!(out == format!("{word}: {msg}\n"), "a message without a place printed {out:?}, expected severity and message {msg:?} only");
      *(if word == "error" { &mut errors } else { &mut warnings }) += 1;
      c.count("messages without a place", 1);
    }
    if c.rng.chance(1, 100) {
      // many of them
      let (e, w) = (c.rng.range(1, 1200), c.rng.range(0, 1200));
      let (r, _) = capture(|| {
        for _ in 0..e {
          let _ = log_raw_error!(start, "many");
        }
        for _ in 0..w {
          log_raw_warning!(start, "many");
        }
      });
      r.map_err(|e| format!("logging without a place: {e}"))?;
      errors += e;
      warnings += w;
      c.count("summaries of hundreds of messages", 1);
    }
    let (r, out) = capture(|| start.log_summary());
    r.map_err(|e| format!("log_summary: {e}"))?;
    let n = |k: usize, w: &str| match k {
      0 => String::new(),
      1 => format!("1 {w}"),
      k => format!("{k} {w}s"),
    };
    let want = format!(
      "{}{}{} emitted\n",
      n(errors, "error"),
      if errors > 0 && warnings > 0 { " and " } else { "" },
      n(warnings, "warning")
    );
    if errors + warnings > 0 {
      ensure!(out == want, "summary {out:?}, expected {want:?}");
      c.count("summaries compared", 1);
    }
    Ok(())
  })();
  let _ = std::fs::remove_file(&p);
  r
}

// ---------------------------------------------------------------- D03

fn gen_u32(r: &mut Rng, n: usize) -> u32 {
  match r.below(8) {
    0 => 0,
    1 => 1,
    2 => u32::MAX - r.below(3) as u32,
    3 => r.u64() as u32,
    4 => r.below(200_000) as u32,
    _ => r.below(n + 3) as u32,
  }
}

fn d03(c: &mut Case) -> Verdict {
  let p = tmp_file("d03", c.index);
  let state = c.rng.below(9);
  let mut text = gen_source(&mut c.rng).into_bytes();
  let mut is_dir = false;
  match state {
    0 => {}
    1 => text.clear(),
    2 => {
      let n = c.rng.below(text.len() + 1);
      text.truncate(n);
    }
    3 => {
      for _ in 0..c.rng.range(1, 4) {
        let at = c.rng.below(text.len() + 1);
        text.insert(at, *c.rng.pick(&[0xff, 0x80, 0xc0, 0xe4, 0xf5]));
      }
    }
    4 => {
      // a very long line
      let n = *c.rng.pick(&[65_530, 65_536, 70_000, 140_000]);
      let ch = *c.rng.pick(&["x", "你", "\t", "\u{301}"]);
      let at = text.iter().position(|b| *b == b'\n').unwrap_or(0);
      let long = ch.repeat(n).into_bytes();
      text.splice(at..at, long);
    }
    5 => text = "\u{feff}\u{200b}\u{301}\t\u{ad}\u{0}\n\u{301}\u{301}x\n".into(),
    6 => text = b"\n\n\n\n".to_vec(),
    7 => {}
    _ => is_dir = c.rng.chance(1, 4),
  }
  if is_dir {
    std::fs::create_dir(&p).unwrap();
  } else if state != 7 {
    std::fs::write(&p, &text).unwrap();
  }
  c.sample(|| format!("file state {state}: {:?}", String::from_utf8_lossy(&text[..text.len().min(200)])));
  let lines = String::from_utf8_lossy(&text).lines().count();
  let width = String::from_utf8_lossy(&text).lines().map(|l| l.chars().count()).max().unwrap_or(0);
  let r = (|| {
    let root = match c.rng.below(8) {
      0 => Span::new(FileType::Stdin),
      1 => Span::new(FileType::Buffer),
      _ => Span::new(FileType::File(p.clone().into_boxed_path())),
    };
    let at = root.file_type().to_string();
    let (mut errors, mut warnings) = (0, 0);
    for _ in 0..if state == 4 { 3 } else { 12 } {
      let small = is_dir;
      let mut loc = || Location {
        line: if small { c.rng.below(20) as u32 } else { gen_u32(&mut c.rng, lines) },
        col: gen_u32(&mut c.rng, width),
      };
      let mut s = root.clone();
      s.update_loc(loc());
      let mut e = root.clone();
      e.update_loc(loc());
      if c.rng.chance(1, 2) {
        // on one line
        e.update_loc(Location { line: s.start().line, col: e.end().col });
      }
      let sp = if c.rng.chance(1, 3) { s.clone() } else { s.into_end_updated(e) };
      let msg = c.rng.pick(MESSAGES).to_string();
      let (kind, res, out, fatal) = log_kind(&mut c.rng, &sp, &msg);
      let got = res.map_err(|e| format!("logging through span {sp}, file state {state}: {e}"))?;
      ensure!(got.map_or(true, |g| g == fatal), "the returned error's severity is wrong");
      let head = format!("{kind}: {msg}\n  at {at}:{}:{}\n", sp.start().line, sp.start().col);
      ensure!(out.starts_with(&head), "span {sp}, file state {state}: printed {out:?}, expected to start with {head:?}");
      if kind == "error" {
        errors += 1;
      } else {
        warnings += 1;
      }
      ensure!(root.error_num() == errors && root.warning_num() == warnings, "counts are {} and {}, expected {errors} and {warnings}", root.error_num(), root.warning_num());
      c.evals(1);
      c.count(if out.len() > head.len() + 1 { "diagnostics with source text" } else { "diagnostics without source text" }, 1);
      c.distinct(&format!("{state} {lines} {sp} {kind}"));
    }
    // and through a reader whose position was overridden while it reads the file
    if !is_dir && state != 7 {
      let mut rd = Reader::from_path(&p).unwrap();
      let mut last = None;
      for _ in 0..30 {
        if c.rng.chance(1, 10) {
          let l = (gen_u32(&mut c.rng, lines).min(u32::MAX - 1000), gen_u32(&mut c.rng, width).min(u32::MAX - 1000));
          rd.set_line_col(l.0, l.1);
        }
        match guard(|| rd.next_char_span())? {
          Ok((Some(_), s)) => {
            let s = match last.take() {
              Some(f) if c.rng.bool() => Span::into_end_updated(f, &s),
              _ => s,
            };
            let n = s.error_num();
            let (r, out) = capture(|| log_error!(s, "m"));
            r.map_err(|e| format!("logging through span {s}, file state {state}: {e}"))?;
            ensure!(out.starts_with(&format!("error: m\n  at {}:{}:{}\n", p.display(), s.start().line, s.start().col)), "span {s}: printed {out:?}");
            ensure!(s.error_num() == n + 1, "the error was not counted");
            c.evals(1);
            last = Some(s);
          }
          _ => break,
        }
      }
    }
    Ok(())
  })();
  if is_dir {
    let _ = std::fs::remove_dir(&p);
  } else {
    let _ = std::fs::remove_file(&p);
  }
  r
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "D01",
      run: d01,
      rule: "1–8 threads logging through shared and own copies of the spans of 1–4 inputs; distinct by threads, operations and final counts",
      alloc_mib: 512,
      cpu_s: 60,
    },
    Prop {
      id: "D02",
      run: d02,
      rule: "random source files (tabs, wide, zero-width, CRLF, up to 1010 lines) and random spans in them, output compared with an independent renderer; distinct by expected output",
      alloc_mib: 512,
      cpu_s: 60,
    },
    Prop {
      id: "D03",
      run: d03,
      rule: "arbitrary spans over files in nine states (missing, empty, truncated, invalid, very long lines, zero-width, directory …); distinct by state, span and kind",
      alloc_mib: 1024,
      cpu_s: 60,
    },
  ]
}
