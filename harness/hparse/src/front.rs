//! Monitor of whole front ends (P01): text in pieces, reader, derived lexer, token buffer and
//! derived or predefined parsers at once.

use crate::*;
use laps::lexer::Lexer;
use laps::reader::Reader;
use std::cell::RefCell;
use std::io::Read;

pub type Stream = TokenBuffer<Lexer<Reader<Chunks>, K>, Token<K>>;

/// Text that arrives in pieces.
pub struct Chunks {
  data: Vec<u8>,
  pos: usize,
  plan: Vec<usize>,
  turn: usize,
}

impl Read for Chunks {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.plan[self.turn % self.plan.len()].min(buf.len()).min(self.data.len() - self.pos);
    self.turn += 1;
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

/// The first and the last place of each token.
pub type Places = Vec<(Location, Location)>;

thread_local! {
  /// Where the tokens of the current text are, if they come from text.
  pub static PLACES: RefCell<Option<Places>> = const { RefCell::new(None) };
}

struct Reset;
impl Drop for Reset {
  fn drop(&mut self) {
    PLACES.with(|p| *p.borrow_mut() = None);
  }
}

pub struct Text {
  text: String,
  plan: Vec<usize>,
  /// Where text is that is no token: before this token, at this place.
  bad: Option<(usize, Location)>,
}

struct Writer {
  text: String,
  at: Location,
}

impl Writer {
  /// Gives the places of the first and of the last symbol.
  fn put(&mut self, s: &str) -> (Location, Location) {
    let mut first = None;
    for c in s.chars() {
      if c == '\n' {
        self.at = Location { line: self.at.line + 1, col: 0 };
      } else {
        self.at.col += 1;
      }
      first = first.or(Some(self.at));
    }
    self.text += s;
    (first.unwrap_or(self.at), self.at)
  }

  fn gap(&mut self, r: &mut Rng, needed: bool) {
    let n = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
    for _ in 0..n.max(needed as usize) {
      let s = *r.pick(&[" ", " ", " ", "\n", "\t", "  ", "\r\n", "\u{3000}", "/**/", "/* ü * / x 1 */", "# 漢字; if\n", "\n\n", "#\n"]);
      self.put(s);
    }
    if r.chance(1, 200) {
      // up to where the reader fills its buffer again
      let pad = "é".repeat(r.range(480, 530));
      self.put(&format!("/*{pad}*/"));
    }
  }
}

fn spelled(k: &K, r: &mut Rng) -> String {
  match k {
    K::Num(n) => format!("{}{n}", *r.pick(&["", "", "", "0", "00"])),
    K::Op(c) => c.to_string(),
    K::Id(s) => s.clone(),
    K::Semi => ";".into(),
    K::Comma => ",".into(),
    K::Eof => String::new(),
    k => format!("{k:?}"),
  }
}

/// Splits any text: tokens and places up to the first thing that is no token.
fn scan(text: &str) -> (Vec<K>, Places, Option<(usize, Location)>) {
  let cs: Vec<char> = text.chars().collect();
  let mut locs = Vec::new();
  let mut w = Writer { text: String::new(), at: Location { line: 1, col: 0 } };
  for c in &cs {
    locs.push(w.put(&c.to_string()).0);
  }
  let run = |i: usize, f: &dyn Fn(char) -> bool| (i..cs.len()).find(|j| !f(cs[*j])).unwrap_or(cs.len());
  let (mut toks, mut places) = (vec![], vec![]);
  let mut i = 0;
  while i < cs.len() {
    let c = cs[i];
    let (end, k) = match c {
      '#' => (run(i, &|c| c != '\n'), None),
      '/' => {
        let close = (i + 3..cs.len()).find(|j| cs[*j] == '/' && cs[*j - 1] == '*');
        match close {
          Some(j) if cs[i + 1] == '*' => (j + 1, None),
          _ => break,
        }
      }
      'A' => (i + 1, Some(K::A)),
      'B' => (i + 1, Some(K::B)),
      'C' => (i + 1, Some(K::C)),
      'D' => (i + 1, Some(K::D)),
      '+' | '-' | '*' => (i + 1, Some(K::Op(c))),
      ';' => (i + 1, Some(K::Semi)),
      ',' => (i + 1, Some(K::Comma)),
      '0'..='9' => {
        let j = run(i, &|c| c.is_ascii_digit());
        match cs[i..j].iter().fold(0u64, |n, c| (n * 10 + c.to_digit(10).unwrap() as u64).min(1 << 40)) {
          n @ 0..=0xffff_ffff => (j, Some(K::Num(n as u32))),
          _ => break,
        }
      }
      'a'..='z' => {
        let j = run(i, &|c| c.is_ascii_lowercase());
        (j, Some(K::Id(cs[i..j].iter().collect())))
      }
      c if c.is_whitespace() => (run(i, &char::is_whitespace), None),
      _ => break,
    };
    if let Some(k) = k {
      toks.push(k);
      places.push((locs[i], locs[end - 1]));
    }
    i = end;
  }
  let bad = (i < cs.len()).then(|| (toks.len(), locs[i]));
  toks.push(K::Eof);
  places.push((w.at, w.at));
  (toks, places, bad)
}

const SCRAPS: &[&str] = &[
  "A", "B", "C", "D", "AB", "if", "x", "ab", "1", "10", "007", "4294967295", "4294967296", "+", "-", "*", ",", ";", ", ", " ", "\n", "\r\n", "\t", "\u{85}", "\u{2028}",
  "/*", "*/", "/**/", "/***/", "/", "#", "# x\n", "É", "$", "\0", "\u{feff}", "xA", "1x", "\u{200b}", "ifif", "\u{a0}", "\u{10ffff}", "/*/", "**", "//",
];

pub fn run(c: &mut Case) -> Verdict {
  let g = grammar();
  let id = c.rng.below(g.roots.len());
  let ty = &g.roots[id];
  let mut toks = Vec::new();
  tokens(c, g, ty, 0, &mut toks);
  toks.push(K::Eof);
  let any = c.rng.chance(1, 4);
  let bad_at = c.rng.chance(1, 5).then(|| c.rng.below(toks.len()));
  let mut w = Writer { text: String::new(), at: Location { line: 1, col: 0 } };
  let mut places: Places = Vec::new();
  let mut bad = None;
  let mut last = ' ';
  for (i, k) in toks.iter().enumerate() {
    let word = |c: char| c.is_ascii_lowercase() as usize + 2 * c.is_ascii_digit() as usize;
    if bad_at == Some(i) {
      w.gap(&mut c.rng, word(last) > 0);
      let s = *c.rng.pick(&["$", "4294967296", "99999999999999999999999", "é"]);
      bad = Some((i, w.put(s).0));
      last = s.chars().last().unwrap();
    }
    let s = spelled(k, &mut c.rng);
    let glued = s.chars().next().map_or(false, |f| word(f) > 0 && word(f) == word(last));
    w.gap(&mut c.rng, glued);
    places.push(w.put(&s));
    last = s.chars().last().unwrap_or(' ');
  }
  if any {
    // whatever the text says
    if c.rng.bool() {
      w.text = (0..c.rng.below(14)).map(|_| *c.rng.pick(SCRAPS)).collect();
    } else {
      for _ in 0..c.rng.range(1, 3) {
        let cut: Vec<usize> = w.text.char_indices().map(|x| x.0).chain([w.text.len()]).collect();
        let (a, b) = (*c.rng.pick(&cut), *c.rng.pick(&cut));
        match c.rng.below(3) {
          0 => w.text.insert_str(a, *c.rng.pick(SCRAPS)),
          1 if a < b && b - a < 12 => w.text.replace_range(a..b, ""),
          _ if a < b && b - a < 12 => w.text.replace_range(a..b, *c.rng.pick(SCRAPS)),
          _ => {}
        }
      }
    }
  }
  // the text says the same to an independent reader
  let (t, p, b) = scan(&w.text);
  if any {
    (toks, places, bad) = (t, p, b);
  } else {
    let n = bad.map_or(toks.len(), |b| b.0);
    ensure!(t[..n] == toks[..n] && p[..n] == places[..n] && b == bad, "harness: {:?} reads as {t:?}", w.text);
  }
  PLACES.with(|p| *p.borrow_mut() = Some(places));
  let _reset = Reset;
  let r = Ref { g, toks: &toks, seen: Cell::new(0) };
  let want = r.parse(ty, 0);
  let seen = r.seen.get();
  let plan = match c.rng.below(4) {
    0 => vec![1],
    1 => vec![4096],
    _ => (0..c.rng.range(1, 6)).map(|_| c.rng.range(1, 40)).collect(),
  };
  let name = format!("{:?} as type {id} `{}`", w.text, full_type(g, ty));
  let ok = want.is_ok() && bad.map_or(true, |(i, _)| seen <= i);
  let key = format!("{id}:{}", w.text);
  let mut job = Job {
    prop: "P01",
    name: name.clone(),
    toks: &toks,
    skip: 0,
    ahead: 0,
    asks: if bad.is_some() { 0 } else { c.rng.below(3) },
    mini: false,
    may: r.may(ty, 0),
    seen_may: 0,
    seen,
    want,
    spans: 0,
    empties: 0,
    front: Some(Text { text: w.text, plan, bad }),
  };
  c.sample(|| name);
  let v = generated::root(id, &mut job);
  let s = job.spans;
  v?;
  c.evals(1);
  c.count("successful parses", ok as u64);
  c.count("failing parses", !ok as u64);
  c.count("texts with something that is no token", bad.is_some() as u64);
  c.count("spans observed", s);
  if toks.len() > 1 {
    c.distinct(&key);
  }
  Ok(())
}

/// Reads the tokens from one to another.
fn read(ts: &mut Stream, toks: &[K], from: usize, to: usize) -> Result<(), String> {
  for i in from..to {
    let t = guard(|| ts.next_token())?.map_err(|e| format!("reading token {i} gives {e:?}"))?;
    let j = i.min(toks.len() - 1);
    ensure!(t.kind == toks[j] && (t.span.start(), t.span.end()) == place(j), "token {i} is now {:?} at {:?}-{:?}, expected {:?} at {:?}", t.kind, t.span.start(), t.span.end(), toks[j], place(j));
  }
  Ok(())
}

fn at(e: &Error, l: Location) -> bool {
  matches!(e, Error::Normal(m) if m.starts_with(&format!("<buffer>:{}:{}: ", l.line, l.col)))
}

pub fn attempt<T: Parse<Stream>>(job: &mut Job, dump: fn(&T) -> Tree, text: Text) -> Result<(), String> {
  let name = job.name.clone();
  let source = Chunks { data: text.text.into_bytes(), pos: 0, plan: text.plan, turn: 0 };
  let mut ts: Stream = TokenBuffer::new(K::lexer(Reader::new(source, FileType::Buffer)));
  let root = laps::input::InputStream::span(ts.inner().input()).clone();
  for _ in 0..job.asks {
    let m = guard(|| T::maybe(&mut ts)).map_err(|p| format!("asking whether {name} may start caused a {p}"))?;
    ensure!(m == Ok(job.may), "asking whether {name} may start gives {m:?}, expected {}", job.may);
  }
  let r = guard(|| T::parse(&mut ts)).map_err(|p| format!("parsing {name} caused a {p}"))?;
  let errors = root.error_num();
  if let Some((i, l)) = text.bad {
    if job.seen > i {
      let Err(e) = r else { return Err(format!("parsing {name} succeeds, expected an error at {l:?}")) };
      ensure!(at(&e, l), "parsing {name} gives {e:?}, expected an error at {l:?}");
      ensure!(errors == 1, "parsing {name} counts {errors} errors instead of one");
      return Ok(());
    }
  }
  match (&job.want, r) {
    (Ok((want, end)), Ok(t)) => {
      let tree = guard(|| dump(&t)).map_err(|p| format!("looking at the tree of {name} caused a {p}"))?;
      let (a, b) = (format!("{want:?}"), format!("{tree:?}"));
      ensure!(a == b, "parsing {name} gives {b}, expected {a}");
      ensure!(errors == 0, "parsing {name} counts {errors} errors");
      let (end, all) = (*end, job.toks.len() + 2);
      spans(&tree, job)?;
      let to = text.bad.map_or(all, |(i, _)| i);
      read(&mut ts, job.toks, end, to).map_err(|e| format!("after parsing {name}, {e}"))?;
      if let Some((i, l)) = text.bad {
        let r = guard(|| ts.next_token())?;
        ensure!(matches!(&r, Err(e) if at(e, l)), "after parsing {name}, token {i} is {r:?}, expected an error at {l:?}");
      }
      Ok(())
    }
    (Err(i), Err(e)) => {
      let l = place((*i).min(job.toks.len() - 1)).0;
      ensure!(at(&e, l), "parsing {name} fails with {e:?}, expected an error at {l:?}");
      ensure!(errors == 1, "parsing {name} counts {errors} errors instead of one");
      Ok(())
    }
    (Ok((want, _)), Err(e)) => Err(format!("parsing {name} fails with {e:?}, expected {want:?}")),
    (Err(i), Ok(t)) => Err(format!("parsing {name} gives {:?}, expected a failure at token {i}", dump(&t))),
  }
}
