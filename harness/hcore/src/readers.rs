//! R01–R04: the built-in readers against a position-counting model of their input.

use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Span};
use std::fmt::Debug;
use std::io::{self, Read};
use vmon::{ensure, guard, set_steps, step, Case, Prop, Rng, Verdict};

// ---------------------------------------------------------------- the instrumented source

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
  /// Deliver up to this many bytes.
  Chunk(usize),
  /// Fail this read.
  Fail(io::ErrorKind),
}

thread_local! {
  /// How much had been delivered at each read since the last look.
  static ASKED: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A byte source that follows a plan and is watched for excessive polling.
pub struct Source {
  pub data: Vec<u8>,
  pub pos: usize,
  pub plan: Vec<Ev>,
  pub at: usize,
  /// Used when the plan is exhausted.
  pub rest: usize,
  pub reads: usize,
}

impl Source {
  pub fn new(data: Vec<u8>, plan: Vec<Ev>, rest: usize) -> Self {
    Self { data, pos: 0, plan, at: 0, rest, reads: 0 }
  }
}

impl Read for Source {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    step();
    self.reads += 1;
    ASKED.with(|a| a.borrow_mut().push(self.pos));
    let ev = self.plan.get(self.at).cloned().unwrap_or(Ev::Chunk(self.rest));
    if self.at < self.plan.len() {
      self.at += 1;
    }
    match ev {
      Ev::Fail(k) => Err(io::Error::new(k, "injected failure")),
      Ev::Chunk(n) => {
        let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
      }
    }
  }
}

// ---------------------------------------------------------------- inputs

const EDGE: &[char] = &[
  '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}',
  '\u{10ffff}', '\u{200b}', '\u{301}', '\r', '\t',
];

pub fn gen_char(r: &mut Rng, ascii: bool) -> char {
  if ascii {
    return if r.chance(1, 8) { r.below(128) as u8 as char } else { *r.pick(&['a', 'b', 'c', ' ', '\n', '1', '_', 'Z', '\t', '\r', '"']) };
  }
  match r.weighted(&[40, 12, 10, 10, 10, 10, 4, 8]) {
    0 => (b' ' + r.below(95) as u8) as char,
    1 => '\n',
    2 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
    3 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
    4 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
    5 => *r.pick(EDGE),
    // controls, and what other tools take for line breaks, tabs or nothing
    7 => match r.below(4) {
      0 => r.below(0x20) as u8 as char,
      1 => char::from_u32(r.range(0x7f, 0xff) as u32).unwrap(),
      2 => char::from_u32(r.range(0x2000, 0x206f) as u32).unwrap(),
      _ => *r.pick(&['\u{b}', '\u{c}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{85}', '\u{a0}', '\u{ad}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{8}', '\u{1a}', '\u{4}']),
    },
    _ => char::from_u32(r.range(0xe000, 0xffff) as u32).unwrap(),
  }
}

pub fn gen_len(c: &mut Case) -> usize {
  let r = &mut c.rng;
  if r.chance(1, 4000) {
    // beyond what 16 bits count
    return r.range(60_000, 90_000);
  }
  match r.weighted(&[30, 30, 12, 12, 4]) {
    0 => r.below(6),
    1 => r.below(40),
    2 => r.range(40, 500),
    3 => 1024 * r.range(1, 2) - 12 + r.below(25),
    _ => r.range(2000, 6000),
  }
}

pub fn gen_text(c: &mut Case) -> String {
  let n = gen_len(c);
  let ascii = c.rng.chance(1, 5);
  let wide = c.rng.chance(1, 3);
  if n > 50_000 {
    c.count("texts longer than 60000 bytes", 1);
    match c.rng.below(4) {
      // one line, or nothing but lines
      0 => return c.rng.pick(&['x', 'é', '你']).to_string().repeat(n / 2),
      1 => return "\n".repeat(n),
      2 => return "a\n".repeat(n / 2),
      _ => {}
    }
  }
  let mut s = String::new();
  while s.len() < n {
    let ch = gen_char(&mut c.rng, ascii);
    if wide && ch.is_ascii() && c.rng.bool() {
      continue;
    }
    s.push(ch);
  }
  s
}

const BAD: &[&[u8]] = &[
  &[0xff], &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xe0, 0x80, 0x80], &[0xe4, 0xbd], &[0xe4], &[0xed, 0xa0, 0x80],
  &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x9f], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80],
  &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xfe], &[0xc3, 0x28], &[0xe2, 0x28, 0xa1], &[0xe2, 0x82, 0x28], &[0xf0, 0x9f, 0x98, 0x41],
];

pub fn gen_bytes(c: &mut Case) -> Vec<u8> {
  let mut b = gen_text(c).into_bytes();
  match c.rng.weighted(&[45, 25, 15, 10, 5]) {
    0 => {}
    1 => {
      let bad = c.rng.pick(BAD).to_vec();
      let at = c.rng.below(b.len() + 1);
      b.splice(at..at, bad);
    }
    2 => {
      let at = c.rng.below(b.len() + 1);
      b.truncate(at);
    }
    3 => b.extend_from_slice(c.rng.pick(BAD)),
    _ => {
      for _ in 0..c.rng.below(4) {
        if !b.is_empty() {
          let i = c.rng.below(b.len());
          b[i] = c.rng.u64() as u8;
        }
      }
    }
  }
  b
}

pub fn gen_plan(r: &mut Rng, len: usize) -> (Vec<Ev>, usize) {
  match r.weighted(&[15, 25, 15, 20, 15]) {
    0 => (vec![], usize::MAX),
    1 => (vec![], 1),
    2 => (vec![], r.range(1, 5)),
    3 => {
      let n = r.below(len.min(60) + 2);
      ((0..n).map(|_| Ev::Chunk(r.range(1, 6))).collect(), *r.pick(&[1, 2, 3, 7, 1023, 1024, usize::MAX]))
    }
    _ => {
      let n = r.below(20);
      ((0..n).map(|_| Ev::Chunk(*r.pick(&[1, 2, 3, 4, 5, 1021, 1022, 1023, 1024, 1025, 1300]))).collect(), r.range(1, 2000))
    }
  }
}

fn hex(b: &[u8]) -> String {
  let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
  if b.len() > 200 {
    s += &format!("… ({} bytes)", b.len());
  }
  s
}

/// The characters before the first invalid sequence, and whether there is one.
pub fn decode(b: &[u8]) -> (Vec<char>, bool) {
  match std::str::from_utf8(b) {
    Ok(s) => (s.chars().collect(), false),
    Err(e) => (std::str::from_utf8(&b[..e.valid_up_to()]).unwrap().chars().collect(), true),
  }
}

// ---------------------------------------------------------------- the model

pub trait Elem: Copy + Debug + PartialEq + 'static {
  fn newline(&self) -> bool;
}
impl Elem for char {
  fn newline(&self) -> bool {
    *self == '\n'
  }
}
impl Elem for u8 {
  fn newline(&self) -> bool {
    *self == b'\n'
  }
}

type L = (u32, u32);

fn lc(l: Location) -> L {
  (l.line, l.col)
}

struct Model<C> {
  data: Vec<C>,
  /// Elements before `pos` have been read.
  pos: usize,
  loc: L,
}

fn advance<C: Elem>(l: L, c: C) -> L {
  if c.newline() {
    (l.0 + 1, 0)
  } else {
    (l.0, l.1 + 1)
  }
}

impl<C: Elem> Model<C> {
  fn new(data: Vec<C>) -> Self {
    Self { data, pos: 0, loc: (1, 0) }
  }

  fn next(&mut self) -> (Option<C>, L) {
    let before = self.loc;
    let c = self.data.get(self.pos).copied();
    if let Some(c) = c {
      self.pos += 1;
      self.loc = advance(before, c);
    }
    (c, before)
  }

  fn peek(&self) -> (Option<C>, L) {
    let c = self.data.get(self.pos).copied();
    (c, c.map_or(self.loc, |c| advance(self.loc, c)))
  }
}

fn check_span(what: &str, span: &Span, start: L, end: L) -> Verdict {
  ensure!(
    lc(span.start()) == start && lc(span.end()) == end,
    "{what}: position is {span}, expected {}:{}-{}:{}",
    start.0,
    start.1,
    end.0,
    end.1
  );
  Ok(())
}

/// A user-written stream with only the required operations.
struct Mini<C> {
  data: std::vec::IntoIter<C>,
  back: Vec<C>,
  span: Span,
}

impl<C: Elem + laps::span::LocationUpdate> InputStream for Mini<C> {
  type CharType = C;

  fn next_char_loc(&mut self) -> laps::span::Result<(Option<C>, Location)> {
    step();
    let loc = self.span.start();
    let c = self.back.pop().or_else(|| self.data.next());
    if let Some(c) = &c {
      self.span.update(c);
    }
    Ok((c, loc))
  }

  fn unread(&mut self, last: (Option<C>, Location)) {
    step();
    self.span.update_loc(last.1);
    if let Some(c) = last.0 {
      self.back.push(c);
    }
  }

  fn span(&self) -> &Span {
    &self.span
  }

  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

// ---------------------------------------------------------------- R01

fn read_one<I: InputStream>(i: &mut I, how: usize) -> laps::span::Result<Option<I::CharType>> {
  match how {
    0 => i.next_char(),
    1 => i.next_char_loc().map(|x| x.0),
    _ => i.next_char_span().map(|x| x.0),
  }
}

fn drain<C: Elem, I: InputStream<CharType = C>>(rng: &mut Rng, i: &mut I, want: &[C], bad: bool) -> Result<u64, String> {
  let mut n = 0;
  let mut errors = 0;
  for (k, w) in want.iter().enumerate() {
    let how = rng.below(3);
    let got = guard(|| read_one(i, how))?;
    match got {
      Ok(Some(c)) if c == *w => n += 1,
      Ok(Some(c)) => return Err(format!("element {k} is {c:?}, expected {w:?}")),
      Ok(None) => return Err(format!("end of input reported before element {k} ({w:?}) of {}", want.len())),
      Err(e) => return Err(format!("error {e:?} reported before element {k} ({w:?}) of {}", want.len())),
    }
  }
  for k in 0..rng.range(3, 8) {
    let how = rng.below(3);
    let got = guard(|| read_one(i, how))?;
    match got {
      Ok(None) if !bad => {}
      Err(e) if bad && e.is_fatal() => errors += 1,
      got => {
        return Err(format!(
          "read {k} after the last deliverable element gives {got:?}, expected {}",
          if bad { "a fatal error" } else { "end of input" }
        ))
      }
    }
    n += 1;
  }
  ensure!(i.span().error_num() == errors, "{} errors counted, {errors} reported", i.span().error_num());
  ensure!(i.span().warning_num() == 0, "warnings counted");
  Ok(n)
}

fn r01(c: &mut Case) -> Verdict {
  let bytes = gen_bytes(c);
  let (plan, rest) = gen_plan(&mut c.rng, bytes.len());
  let (chars, bad) = decode(&bytes);
  let entry = c.rng.weighted(&[10, 6, 1, 1, 1, 1, 1]);
  c.sample(|| format!("entry {entry}, plan {:?} then {rest}, bytes {}", &plan[..plan.len().min(20)], hex(&bytes)));
  c.distinct(&format!("{bytes:?}{plan:?}{rest}{entry}"));
  let polls = 4 * bytes.len() as u64 + 64;
  set_steps(polls);
  let mut rng = c.rng.fork();
  let n = match entry {
    0 => {
      let mut rd: Reader<Source> = Reader::new(Source::new(bytes.clone(), plan, rest), FileType::Buffer);
      let n = drain(&mut rng, &mut rd, &chars, bad)?;
      if !bad {
        ensure!(rd.into_inner().pos == bytes.len(), "the inner reader was not read to its end");
      }
      n
    }
    1 => {
      let mut rd: ByteReader<Source> = ByteReader::new(Source::new(bytes.clone(), plan, rest), FileType::Buffer);
      let n = drain(&mut rng, &mut rd, &bytes, false)?;
      ensure!(rd.into_inner().pos == bytes.len(), "the inner reader was not read to its end");
      n
    }
    2 => {
      drain(&mut rng, &mut Reader::from(bytes.as_slice()), &chars, bad)? + drain(&mut rng, &mut ByteReader::from(bytes.as_slice()), &bytes, false)?
    }
    3 => {
      let s: String = chars.iter().collect();
      drain(&mut rng, &mut Reader::from(s.as_str()), &chars, false)? + drain(&mut rng, &mut ByteReader::from(s.as_str()), s.as_bytes(), false)?
    }
    4 => {
      let s: String = chars.iter().collect();
      drain(&mut rng, &mut Reader::from(s.clone()), &chars, false)? + drain(&mut rng, &mut ByteReader::from(s.clone()), s.as_bytes(), false)?
    }
    6 => {
      let a = piped(&mut rng, &bytes, |r| drain(r, &mut Reader::from_stdin(), &chars, bad));
      let b = piped(&mut rng, &bytes, |r| drain(r, &mut ByteReader::from_stdin(), &bytes, false));
      c.count("inputs piped into standard input", 1);
      a? + b?
    }
    _ => {
      let p = tmp_file("r01", c.index);
      std::fs::write(&p, &bytes).map_err(|e| e.to_string()).unwrap();
      let a = drain(&mut rng, &mut Reader::from_path(&p).unwrap(), &chars, bad);
      let b = drain(&mut rng, &mut ByteReader::from_path(&p).unwrap(), &bytes, false);
      let _ = std::fs::remove_file(&p);
      a? + b?
    }
  };
  c.count("elements and end-of-input results compared", n);
  c.count(if bad { "sources with invalid text" } else { "sources with valid text" }, 1);
  if bytes.len() > 1024 {
    c.count("sources longer than the internal buffer", 1);
  }
  Ok(())
}

extern "C" {
  fn dup2(from: i32, to: i32) -> i32;
}

/// Runs `f` while `bytes` arrive at this process's standard input through a
/// pipe, in pieces; the pipe is closed behind them.
fn piped<T>(rng: &mut Rng, bytes: &[u8], f: impl FnOnce(&mut Rng) -> T) -> T {
  use std::io::Write;
  use std::os::fd::AsRawFd;
  let (rx, mut tx) = std::io::pipe().expect("harness: a pipe");
  assert!(unsafe { dup2(rx.as_raw_fd(), 0) } == 0, "harness: dup2");
  drop(rx);
  let mut r = rng.fork();
  let out = std::thread::scope(|s| {
    s.spawn(move || {
      let mut rest = bytes;
      while !rest.is_empty() {
        let n = r.range(1, rest.len().min(*r.clone().pick(&[1, 3, 700, 5000])));
        if tx.write_all(&rest[..n]).is_err() {
          break;
        }
        rest = &rest[n..];
        if r.chance(1, 4) {
          std::thread::yield_now();
        }
      }
    });
    let out = f(rng);
    // take what was left, so that the writer ends and nothing stays buffered
    let _ = std::io::copy(&mut std::io::stdin(), &mut std::io::sink());
    out
  });
  let null = std::fs::File::open("/dev/null").expect("harness: /dev/null");
  assert!(unsafe { dup2(null.as_raw_fd(), 0) } == 0, "harness: dup2");
  out
}

/// A scratch file of this process in its working directory (made and removed by the check).
pub fn tmp_file(what: &str, k: u64) -> std::path::PathBuf {
  std::env::current_dir().unwrap().join(format!("scratch-{what}-{}-{k}", std::process::id()))
}

// ---------------------------------------------------------------- R02

fn gen_loc(r: &mut Rng) -> L {
  let pick = |r: &mut Rng| match r.below(4) {
    0 => r.below(3) as u32,
    1 => r.below(1000) as u32,
    2 => r.below(1 << 31) as u32,
    _ => u32::MAX - 100_000 - r.below(1000) as u32,
  };
  (pick(r), pick(r))
}

fn positions<C: Elem, I: InputStream<CharType = C>>(c: &mut Case, i: &mut I, data: Vec<C>) -> Verdict {
  let mut m = Model::new(data);
  check_span("before the first read", i.span(), (1, 0), (1, 0))?;
  let mut after_end = 0;
  let overrides = c.rng.chance(1, 2);
  while after_end < 4 {
    if overrides && c.rng.chance(1, 30) {
      let l = gen_loc(&mut c.rng);
      guard(|| i.set_line_col(l.0, l.1))?;
      m.loc = l;
      check_span("after set_line_col", i.span(), l, l)?;
      c.count("position overrides", 1);
    }
    let k = m.pos;
    let (w, before) = m.next();
    match c.rng.below(4) {
      0 => {
        let (g, l) = guard(|| i.next_char_loc())?.map_err(|e| format!("element {k}: {e:?}"))?;
        ensure!(g == w, "element {k} is {g:?}, expected {w:?}");
        ensure!(lc(l) == before, "location handed out with element {k} ({g:?}) is {l}, expected {}:{}", before.0, before.1);
      }
      1 => {
        let (g, s) = guard(|| i.next_char_span())?.map_err(|e| format!("element {k}: {e:?}"))?;
        ensure!(g == w, "element {k} is {g:?}, expected {w:?}");
        check_span(&format!("span handed out with element {k} ({g:?})"), &s, m.loc, m.loc)?;
        ensure!(&s == i.span(), "span handed out is not the stream's span");
      }
      2 => {
        let s = guard(|| i.next_span().cloned())?.map_err(|e| format!("element {k}: {e:?}"))?;
        check_span(&format!("span of element {k} ({w:?})"), &s, m.loc, m.loc)?;
      }
      _ => {
        let g = guard(|| i.next_char())?.map_err(|e| format!("element {k}: {e:?}"))?;
        ensure!(g == w, "element {k} is {g:?}, expected {w:?}");
      }
    }
    check_span(&format!("after element {k} ({w:?})"), i.span(), m.loc, m.loc)?;
    c.count("positions compared", 1);
    if w.is_none() {
      after_end += 1;
    } else if w.unwrap().newline() {
      c.count("newlines passed", 1);
    }
  }
  ensure!(i.span().error_num() == 0, "errors were counted");
  Ok(())
}

fn r02(c: &mut Case) -> Verdict {
  let s = gen_text(c);
  let (plan, rest) = gen_plan(&mut c.rng, s.len());
  let kind = c.rng.below(3);
  c.sample(|| format!("stream {kind}, chunks {:?} then {rest}, text {:?}", &plan[..plan.len().min(12)], s));
  c.distinct(&format!("{s}{plan:?}{kind}"));
  set_steps(8 * s.len() as u64 + 64);
  match kind {
    0 => {
      let mut rd: Reader<Source> = Reader::new(Source::new(s.clone().into_bytes(), plan, rest), FileType::Buffer);
      positions(c, &mut rd, s.chars().collect())
    }
    1 => {
      let mut b = s.into_bytes();
      for x in b.iter_mut() {
        if c.rng.chance(1, 20) {
          *x = if c.rng.bool() { c.rng.u64() as u8 } else { *c.rng.pick(&[b'\n', 0x8a, 0x0d, 0x0c, 0x0b, 0xff, 0x85, 0x00]) };
        }
      }
      let mut rd: ByteReader<Source> = ByteReader::new(Source::new(b.clone(), plan, rest), FileType::Buffer);
      positions(c, &mut rd, b)
    }
    _ => {
      let v: Vec<char> = s.chars().collect();
      let mut m = Mini { data: v.clone().into_iter(), back: vec![], span: Span::new(FileType::Buffer) };
      positions(c, &mut m, v)
    }
  }
}

// ---------------------------------------------------------------- R03

fn interleave<C: Elem, I: InputStream<CharType = C>>(c: &mut Case, i: &mut I, data: Vec<C>) -> Verdict {
  let mut m = Model::new(data.clone());
  // what may be pushed back, newest last
  let mut read: Vec<(Option<C>, Location)> = Vec::new();
  let ops = if c.thorough { c.rng.range(5, 400) } else { c.rng.range(5, 120) };
  let mut log = String::new();
  for k in 0..ops {
    let op = c.rng.weighted(&[20, 8, 4, 12, 12, 16, 6, 6, 8, 1]);
    let at = m.pos;
    // a predicate on elements: a few distinct elements of the upcoming input, or never / always
    let stop: Vec<C> = match c.rng.below(6) {
      0 => vec![],
      1 => data.get(at).copied().into_iter().collect(),
      _ => (0..2)
        .filter_map(|_| {
          let n = c.rng.below(40);
          data.get(at + n).copied()
        })
        .collect(),
    };
    let f = |x: &C| stop.contains(x);
    let upto = (at..data.len()).find(|j| f(&data[*j])).unwrap_or(data.len());
    let name = ["next_char_loc", "next_char", "next_char_span", "peek", "peek_with_span", "unread", "skip_until", "collect_until", "collect_with_span_until", "set_line_col"][op];
    log.push_str(name);
    log.push(' ');
    let ctx = || format!("operation {k} ({name}) at element {at} of {}", data.len());
    let fail = |e: laps::span::Error| format!("{}: unexpected {e:?}", ctx());
    match op {
      0 => {
        let l = guard(|| i.next_char_loc())?.map_err(fail)?;
        let (w, before) = m.next();
        ensure!(l.0 == w && lc(l.1) == before, "{}: {l:?}, expected ({w:?}, {before:?})", ctx());
        read.push(l);
      }
      1 => {
        let g = guard(|| i.next_char())?.map_err(fail)?;
        let (w, before) = m.next();
        ensure!(g == w, "{}: {g:?}, expected {w:?}", ctx());
        read.push((w, Location { line: before.0, col: before.1 }));
      }
      2 => {
        let (g, s) = guard(|| i.next_char_span())?.map_err(fail)?;
        let (w, before) = m.next();
        ensure!(g == w, "{}: {g:?}, expected {w:?}", ctx());
        check_span(&ctx(), &s, m.loc, m.loc)?;
        read.push((w, Location { line: before.0, col: before.1 }));
      }
      3 => {
        let g = guard(|| i.peek())?.map_err(fail)?;
        ensure!(g == m.peek().0, "{}: {g:?}, expected {:?}", ctx(), m.peek().0);
      }
      4 => {
        let (g, s) = guard(|| i.peek_with_span())?.map_err(fail)?;
        let (w, l) = m.peek();
        ensure!(g == w, "{}: {g:?}, expected {w:?}", ctx());
        check_span(&ctx(), &s, l, l)?;
      }
      5 => {
        // push back one or several of the elements read, newest first
        for _ in 0..c.rng.range(1, 4) {
          let Some(last) = read.pop() else { break };
          guard(|| i.unread(last))?;
          m.loc = lc(last.1);
          if last.0.is_some() {
            m.pos -= 1;
          }
          check_span(&format!("{}: after push-back of {last:?}", ctx()), i.span(), m.loc, m.loc)?;
        }
      }
      6 => {
        guard(|| i.skip_until(|x| f(&x)))?.map_err(fail)?;
        while m.pos < upto {
          let x = m.next();
          read.push((x.0, Location { line: x.1 .0, col: x.1 .1 }));
        }
      }
      7 => {
        let v = guard(|| i.collect_until(|x| f(x)))?.map_err(fail)?;
        ensure!(v == data[at..upto], "{}: collected {:?}, expected {:?}", ctx(), v, &data[at..upto]);
        while m.pos < upto {
          let x = m.next();
          read.push((x.0, Location { line: x.1 .0, col: x.1 .1 }));
        }
      }
      8 => {
        let (v, s) = guard(|| i.collect_with_span_until(|x| f(x)))?.map_err(fail)?;
        ensure!(v == data[at..upto], "{}: collected {:?}, expected {:?}", ctx(), v, &data[at..upto]);
        let first = m.peek().1;
        while m.pos < upto {
          let x = m.next();
          read.push((x.0, Location { line: x.1 .0, col: x.1 .1 }));
        }
        check_span(&format!("{}: span of {} collected", ctx(), v.len()), &s, first, if v.is_empty() { first } else { m.loc })?;
      }
      _ => {
        let l = gen_loc(&mut c.rng);
        guard(|| i.set_line_col(l.0, l.1))?;
        m.loc = l;
      }
    }
    check_span(&format!("{}: afterwards", ctx()), i.span(), m.loc, m.loc)?;
    c.count("operations compared", 1);
  }
  // everything read so far goes back, newest first, however much it is
  if c.rng.chance(1, 12) && data.len() < 60_000 {
    while m.pos < data.len() {
      let l = guard(|| i.next_char_loc())?.map_err(|e| format!("reading on: {e:?}"))?;
      let (w, before) = m.next();
      ensure!(l.0 == w && lc(l.1) == before, "reading on: {l:?}, expected ({w:?}, {before:?})");
      read.push(l);
    }
    let keep = if c.rng.bool() { 0 } else { c.rng.below(read.len() + 1) };
    c.count("elements pushed back in one run", (read.len() - keep) as u64);
    while read.len() > keep {
      let last = read.pop().unwrap();
      guard(|| i.unread(last))?;
      m.loc = lc(last.1);
      if last.0.is_some() {
        m.pos -= 1;
      }
    }
    check_span("after pushing back all that was read", i.span(), m.loc, m.loc)?;
    log.push_str("all back ");
  }
  // conservation: the rest follows
  while m.pos < data.len() {
    let at = m.pos;
    let (w, _) = m.next();
    let g = guard(|| i.next_char())?.map_err(|e| format!("draining: {e:?}"))?;
    ensure!(g == w, "after {ops} operations element {at} is {g:?}, expected {w:?}\n{log}");
  }
  ensure!(guard(|| i.next_char())? == Ok(None), "more elements than the input has");
  check_span("at the end", i.span(), m.loc, m.loc)?;
  ensure!(i.span().error_num() == 0, "errors were counted");
  c.distinct(&format!("{log}{:?}", data));
  Ok(())
}

fn r03(c: &mut Case) -> Verdict {
  let mut s = gen_text(c);
  // repetitive text, so that predicates hit at varied distances
  if c.rng.bool() {
    let n = s.chars().count();
    let alpha: Vec<char> = vec!['a', 'b', '\n', 'é', '你', ' '];
    s = (0..n.min(400)).map(|_| *c.rng.pick(&alpha)).collect();
  }
  let (plan, rest) = gen_plan(&mut c.rng, s.len());
  let kind = c.rng.below(4);
  c.sample(|| format!("stream {kind}, chunks {:?} then {rest}, text {:?}", &plan[..plan.len().min(12)], s));
  set_steps(3000 * (s.len() as u64 + 64));
  match kind {
    0 => {
      let mut rd: Reader<Source> = Reader::new(Source::new(s.clone().into_bytes(), plan, rest), FileType::Buffer);
      interleave(c, &mut rd, s.chars().collect())
    }
    1 => {
      let b = s.into_bytes();
      let mut rd: ByteReader<Source> = ByteReader::new(Source::new(b.clone(), plan, rest), FileType::Buffer);
      interleave(c, &mut rd, b)
    }
    2 => {
      let v: Vec<char> = s.chars().collect();
      let mut m = Mini { data: v.clone().into_iter(), back: vec![], span: Span::new(FileType::Buffer) };
      interleave(c, &mut m, v)
    }
    _ => {
      let v = s.into_bytes();
      let mut m = Mini { data: v.clone().into_iter(), back: vec![], span: Span::new(FileType::Buffer) };
      interleave(c, &mut m, v)
    }
  }
}

// ---------------------------------------------------------------- R04

const KINDS: &[io::ErrorKind] = &[
  io::ErrorKind::Other,
  io::ErrorKind::UnexpectedEof,
  io::ErrorKind::WouldBlock,
  io::ErrorKind::TimedOut,
  io::ErrorKind::InvalidData,
  io::ErrorKind::BrokenPipe,
  io::ErrorKind::ConnectionReset,
  io::ErrorKind::PermissionDenied,
];

/// What the caller must see: elements, failures, then end of input (or invalid text for good).
#[derive(Debug, Clone, PartialEq)]
enum Want<C> {
  El(C),
  Fail,
}

/// Follows the plan: which elements are complete at each failure.
fn expected<C: Elem>(bytes: &[u8], plan: &[Ev], rest: usize, cap: usize, decode: impl Fn(&[u8]) -> Vec<C>) -> Vec<Want<C>> {
  let _ = (rest, cap);
  let mut out = Vec::new();
  let mut got = 0;
  let mut given = 0;
  for e in plan {
    match e {
      Ev::Chunk(n) => got = (got + n).min(bytes.len()),
      Ev::Fail(_) => {
        let v = decode(&bytes[..got]);
        out.extend(v[given..].iter().map(|x| Want::El(*x)));
        given = v.len();
        out.push(Want::Fail);
      }
    }
  }
  let v = decode(bytes);
  out.extend(v[given..].iter().map(|x| Want::El(*x)));
  out
}

fn faults<C: Elem, I: InputStream<CharType = C>>(c: &mut Case, i: &mut I, want: Vec<Want<C>>, bad: bool) -> Verdict {
  let mut loc = (1, 0);
  let mut errors = 0;
  let mut unread_next: Option<(Option<C>, Location)> = None;
  let mut k = 0;
  while k < want.len() {
    let w = &want[k];
    let how = c.rng.below(5);
    if unread_next.is_some() && c.rng.chance(1, 3) {
      // push the last element back: its position is restored, then read it again
      let last = unread_next.take().unwrap();
      guard(|| i.unread(last))?;
      ensure!(lc(i.span().start()) == lc(last.1), "push-back before result {k}: position {}", i.span());
      let again = guard(|| i.next_char_loc())?.map_err(|e| format!("re-reading a pushed-back element: {e:?}"))?;
      ensure!(again.0 == last.0 && again.1 == last.1, "re-read {again:?}, expected {last:?}");
    }
    let (peeked, got) = match how {
      0 => (true, guard(|| i.peek())?),
      1 => (true, guard(|| i.peek_with_span())?.map(|x| x.0)),
      2 => (false, guard(|| i.next_char_span())?.map(|x| x.0)),
      _ => {
        let r = guard(|| i.next_char_loc())?;
        if let Ok(x) = &r {
          unread_next = Some(*x);
        }
        (false, r.map(|x| x.0))
      }
    };
    let calls = if peeked { "peeking" } else { "reading" };
    match (w, got) {
      (Want::Fail, Err(e)) if e.is_fatal() => {
        errors += 1;
        unread_next = None;
        c.count("failures surfaced", 1);
      }
      (Want::El(x), Ok(Some(y))) if *x == y => {
        if !peeked {
          loc = advance(loc, y);
          if how != 3 && how != 4 {
            unread_next = None;
          }
        }
      }
      (w, got) => return Err(format!("result {k}: {calls} gives {got:?}, expected {w:?} (errors so far {errors})")),
    }
    check_span(&format!("after result {k} ({w:?}, {calls})"), i.span(), loc, loc)?;
    ensure!(i.span().error_num() == errors, "after result {k} ({w:?}): {} errors counted, {errors} reported", i.span().error_num());
    c.count("results compared", 1);
    if !(peeked && matches!(w, Want::El(_))) {
      k += 1;
    }
  }
  for _ in 0..3 {
    let got = guard(|| i.next_char())?;
    match got {
      Ok(None) if !bad => {}
      Err(e) if bad && e.is_fatal() => errors += 1,
      got => return Err(format!("after everything: {got:?}, expected {}", if bad { "a fatal error" } else { "end of input" })),
    }
  }
  ensure!(i.span().error_num() == errors, "{} errors counted, {errors} reported", i.span().error_num());
  Ok(())
}

fn r04(c: &mut Case) -> Verdict {
  let (bytes, mut plan, rest) = if c.rng.chance(2, 3) {
    // short inputs: a failure in front of, inside and behind single characters
    let n = c.rng.range(1, 6);
    let s: String = (0..n).map(|_| gen_char(&mut c.rng, false)).collect();
    let b = s.into_bytes();
    let mut plan = Vec::new();
    let mut left = b.len();
    while left > 0 {
      let k = c.rng.range(1, left.min(4));
      left -= k;
      plan.push(Ev::Chunk(k));
    }
    (b, plan, 1)
  } else {
    let b = if c.rng.chance(1, 4) { gen_bytes(c) } else { gen_text(c).into_bytes() };
    let mut plan = Vec::new();
    let mut left = b.len();
    // every chunk fits into what the reader can take at once (1024 bytes less a partial character)
    while left > 0 && plan.len() < 200 {
      let k = c.rng.range(1, left.min(*c.rng.clone().pick(&[1, 3, 50, 1020])));
      left -= k;
      plan.push(Ev::Chunk(k));
    }
    let rest = c.rng.range(1, 1200);
    (b, plan, rest)
  };
  for _ in 0..c.rng.range(1, 4) {
    let at = c.rng.below(plan.len() + 1);
    for _ in 0..c.rng.range(1, 2) {
      let k = *c.rng.pick(KINDS);
      plan.insert(at, Ev::Fail(k));
    }
  }
  let (_, bad) = decode(&bytes);
  let as_bytes = c.rng.chance(1, 3);
  c.sample(|| format!("{} reader, plan {:?} then {rest}, bytes {}", if as_bytes { "byte" } else { "character" }, &plan[..plan.len().min(30)], hex(&bytes)));
  c.distinct(&format!("{bytes:?}{plan:?}{as_bytes}"));
  set_steps(8 * bytes.len() as u64 + plan.len() as u64 + 200);
  if as_bytes {
    let want = expected(&bytes, &plan, rest, 1024, |b| b.to_vec());
    let mut rd: ByteReader<Source> = ByteReader::new(Source::new(bytes, plan, rest), FileType::Buffer);
    faults(c, &mut rd, want, false)
  } else {
    let mut want = expected(&bytes, &plan, rest, 1024, |b| decode(b).0);
    if bad {
      // from the invalid sequence on every result is an error: keep what precedes it
      let chars = decode(&bytes).0.len();
      let mut n = 0;
      let mut cut = want.len();
      if chars == 0 {
        // failures before the first element may coincide with the invalid text
        cut = 0;
      }
      for (k, w) in want.iter().enumerate() {
        if matches!(w, Want::El(_)) {
          n += 1;
          if n == chars {
            cut = k + 1;
            break;
          }
        }
      }
      want.truncate(cut);
    }
    let mut rd: Reader<Source> = Reader::new(Source::new(bytes, plan, rest), FileType::Buffer);
    faults(c, &mut rd, want, bad)
  }
}

// ---------------------------------------------------------------- R05

/// `ends[k]`: bytes up to the end of element `k`.
fn patience<C: Elem, I: InputStream<CharType = C>>(c: &mut Case, i: &mut I, data: &[C], ends: &[usize]) -> Verdict {
  let mut pos = 0;
  let mut read: Vec<(Option<C>, Location)> = Vec::new();
  let mut polls = 0;
  ASKED.with(|a| a.borrow_mut().clear());
  let ops = if c.thorough { c.rng.range(5, 600) } else { c.rng.range(5, 200) };
  for k in 0..ops {
    let op = c.rng.weighted(&[30, 10, 10, 10, 10, 12, 3, 3, 3]);
    let stop: Vec<C> = (0..c.rng.below(3)).filter_map(|_| data.get(pos + c.rng.below(30)).copied()).collect();
    let upto = (pos..data.len()).find(|j| stop.contains(&data[*j])).unwrap_or(data.len());
    let name = ["next_char_loc", "next_char", "next_char_span", "peek", "peek_with_span", "unread", "skip_until", "collect_until", "collect_with_span_until"][op];
    let fail = |e: laps::span::Error| format!("operation {k} ({name}) at element {pos}: unexpected {e:?}");
    // elements (or the end) that must be known for the result
    let need = match op {
      5 => 0,
      6..=8 => upto + 1,
      _ => pos + 1,
    };
    match op {
      0 => {
        let l = guard(|| i.next_char_loc())?.map_err(fail)?;
        read.push(l);
      }
      1 => {
        guard(|| i.next_char())?.map_err(fail)?;
        read.clear();
      }
      2 => {
        guard(|| i.next_char_span())?.map_err(fail)?;
        read.clear();
      }
      3 => drop(guard(|| i.peek())?.map_err(fail)?),
      4 => drop(guard(|| i.peek_with_span())?.map_err(fail)?),
      5 => {
        for _ in 0..c.rng.range(1, 6) {
          if let Some(l) = read.pop() {
            pos -= l.0.is_some() as usize;
            guard(|| i.unread(l))?;
          }
        }
      }
      6 => {
        guard(|| i.skip_until(|x| stop.contains(&x)))?.map_err(fail)?;
        read.clear();
      }
      7 => {
        guard(|| i.collect_until(|x| stop.contains(&x)))?.map_err(fail)?;
        read.clear();
      }
      _ => {
        guard(|| i.collect_with_span_until(|x| stop.contains(&x)))?.map_err(fail)?;
        read.clear();
      }
    }
    let asked: Vec<usize> = ASKED.with(|a| a.borrow_mut().drain(..).collect());
    for bytes in asked {
      polls += 1;
      let known = ends.partition_point(|e| *e <= bytes);
      ensure!(
        known < need,
        "operation {k} ({name}) at element {pos} of {} asked the source for more although the {bytes} bytes delivered before decide the result ({known} elements known, {need} needed)",
        data.len()
      );
    }
    match op {
      0..=2 => pos = (pos + 1).min(data.len()),
      6..=8 => pos = upto,
      _ => {}
    }
    c.evals(1);
  }
  c.count("reads of the source", polls);
  Ok(())
}

fn r05(c: &mut Case) -> Verdict {
  let s = gen_text(c);
  let (plan, rest) = gen_plan(&mut c.rng, s.len());
  let bytes = s.clone().into_bytes();
  let as_bytes = c.rng.chance(1, 3);
  c.sample(|| format!("{} reader, chunks {:?} then {rest}, text {s:?}", if as_bytes { "byte" } else { "character" }, &plan[..plan.len().min(12)]));
  c.distinct(&format!("{s}{plan:?}{rest}{as_bytes}"));
  set_steps(8 * s.len() as u64 + 4096);
  let src = Source::new(bytes.clone(), plan, rest);
  if as_bytes {
    let mut rd: ByteReader<Source> = ByteReader::new(src, FileType::Buffer);
    let ends: Vec<usize> = (1..=bytes.len()).collect();
    patience(c, &mut rd, &bytes, &ends)
  } else {
    let mut rd: Reader<Source> = Reader::new(src, FileType::Buffer);
    let v: Vec<char> = s.chars().collect();
    let ends: Vec<usize> = s.char_indices().map(|(i, x)| i + x.len_utf8()).collect();
    patience(c, &mut rd, &v, &ends)
  }
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "R01",
      run: r01,
      rule: "random byte strings (valid, invalid, truncated; short, around the 1024-byte buffer, long) delivered by random chunk plans through every constructor; distinct by bytes, plan and constructor",
      alloc_mib: 256,
      cpu_s: 20,
    },
    Prop {
      id: "R02",
      run: r02,
      rule: "random texts read through random mixtures of the read operations with position overrides; distinct by text, chunk plan and stream type",
      alloc_mib: 256,
      cpu_s: 20,
    },
    Prop {
      id: "R03",
      run: r03,
      rule: "random interleavings of all stream operations on both readers and two minimal streams; distinct by operation sequence and text",
      alloc_mib: 512,
      cpu_s: 20,
    },
    Prop {
      id: "R04",
      run: r04,
      rule: "random chunk plans with one to eight injected read failures; distinct by bytes, plan and reader",
      alloc_mib: 256,
      cpu_s: 20,
    },
    Prop {
      id: "R05",
      run: r05,
      rule: "random mixtures of stream operations over sources that deliver in chunks, every read of the source judged against what had been delivered; distinct by text, plan and reader",
      alloc_mib: 256,
      cpu_s: 20,
    },
  ]
}
