//! M01.

use laps::ast::*;
use laps::input::InputStream;
use laps::prelude::*;
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, Span, TrySpan};
use laps::token::{TokenBuffer, TokenStream, Tokenizer};
use laps_regex::dfa::DFA;
use laps_regex::mir::{Mir, SymbolOp};
use laps_regex::nfa::NFA;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};
use laps_regex::table::StateTransTable;
use std::hint::black_box;
use std::io::{self, Read};
use vmon::{ensure, guard, Case, Rng, Verdict};

// ---------------------------------------------------------------- values

/// The bits of a character, whatever they are.
fn bits(c: &char) -> u32 {
  unsafe { std::ptr::read_volatile(c as *const char as *const u32) }
}

fn valid(c: &char) -> bool {
  let b = black_box(bits(c));
  b < 0xd800 || (0xe000..0x11_0000).contains(&b)
}

fn valid_str(s: &str) -> bool {
  std::str::from_utf8(black_box(s.as_bytes())).is_ok()
}

macro_rules! ok_char {
  ($c:expr, $($a:tt)*) => {{
    let c = $c;
    ensure!(valid(&c), "{}: the character has the bits {:#x}", format!($($a)*), bits(&c));
    c
  }};
}

// ---------------------------------------------------------------- readers

const EDGES: &[char] = &[
  '\0', '\n', 'a', '~', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}',
  '\u{100000}', '\u{10ffff}', '\t', '\r', 'é', '語', '🦀',
];

/// Byte strings that are not UTF-8, or not yet.
const BAD: &[&[u8]] = &[
  b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xdf", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80", b"\xf4\x90\x80\x80",
  b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe", b"\xf4\x8f\xbf", b"\xe2\x82", b"\xf0",
];

fn bytes(r: &mut Rng) -> Vec<u8> {
  let mut v = Vec::new();
  // now and then the end of the reader's buffer is crossed
  if r.chance(1, 4) {
    v.resize(r.range(1015, 1024), b'-');
  }
  let n = *r.pick(&[0, 1, 2, 3, 5, 8, 13, 30]);
  let bad = *r.pick(&[0, 0, 1, 4]);
  for _ in 0..n {
    if r.chance(bad, 12) {
      v.extend_from_slice(r.pick(BAD));
    } else if r.chance(bad, 24) {
      v.push(r.below(256) as u8);
    } else {
      let mut b = [0; 4];
      v.extend_from_slice(r.pick(EDGES).encode_utf8(&mut b).as_bytes());
    }
  }
  v
}

/// A source with all the freedom the trait leaves, and some more.
struct Source {
  data: Vec<u8>,
  pos: usize,
  r: Rng,
  /// Fails, panics, or lies about what it has read.
  wild: bool,
  lied: bool,
}

impl Read for Source {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.wild && self.r.chance(1, 10) {
      match self.r.below(5) {
        0 => return Err(io::Error::new(io::ErrorKind::Other, "wild")),
        1 => panic!("wild"),
        2 => {
          // claims bytes it has not written
          self.lied = true;
          return Ok(self.r.below(buf.len() + 1));
        }
        3 => {
          self.lied = true;
          return Ok(buf.len() + self.r.range(1, 9));
        }
        _ => {
          // writes behind what it claims
          self.lied = true;
          for b in buf.iter_mut() {
            *b = self.r.below(256) as u8;
          }
          return Ok(self.r.below(3).min(buf.len()));
        }
      }
    }
    let left = self.data.len() - self.pos;
    let most = left.min(buf.len());
    let step = *self.r.pick(&[1, 2, 3, 7, 4096]);
    let n = if most == 0 { 0 } else { self.r.range(1, most.min(step)) };
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

fn chars_from(c: &mut Case) -> Verdict {
  let data = bytes(&mut c.rng);
  let wild = c.rng.chance(1, 2);
  c.sample(|| format!("reader over {data:?}, {}", if wild { "wild" } else { "tame" }));
  let src = Source { data: data.clone(), pos: 0, r: c.rng.fork(), wild, lied: false };
  let mut rd = Reader::new(src, FileType::Buffer);
  let good = match std::str::from_utf8(&data) {
    Ok(s) => s,
    Err(e) => std::str::from_utf8(&data[..e.valid_up_to()]).unwrap(),
  };
  let good: Vec<char> = good.chars().collect();
  let (mut seen, mut errors, mut at) = (Vec::new(), 0, 0);
  let mut tame = true;
  for _ in 0..60 {
    let mut r = c.rng.fork();
    let got = guard(|| -> Result<Option<Vec<char>>, Error> {
      Ok(match r.below(7) {
        0 => rd.next_char()?.map(|c| vec![c]),
        1 => {
          let _ = rd.peek()?;
          rd.next_char()?.map(|c| vec![c])
        }
        2 => {
          let (ch, loc) = rd.next_char_loc()?;
          rd.unread((ch, loc));
          rd.next_char_span()?.0.map(|c| vec![c])
        }
        3 => {
          let v = rd.collect_until(|c| *c >= '\u{800}')?;
          if v.is_empty() {
            rd.next_char()?.map(|c| vec![c])
          } else {
            Some(v)
          }
        }
        4 => {
          rd.next_span()?;
          rd.set_line_col(3, 4);
          // the element is gone; that is what the operation is for
          Some(vec!['\u{1}'])
        }
        5 => {
          let (v, _) = rd.collect_with_span_until(|c| *c == 'a')?;
          if v.is_empty() {
            rd.next_char()?.map(|c| vec![c])
          } else {
            Some(v)
          }
        }
        _ => {
          let (ch, _) = rd.peek_with_span()?;
          let got = rd.next_char()?;
          assert_eq!(ch, got, "peeked something else");
          got.map(|c| vec![c])
        }
      })
    });
    match got {
      Ok(Ok(Some(v))) => {
        for ch in v {
          let ch = ok_char!(ch, "after reading {seen:?} of {data:?}");
          if ch == '\u{1}' {
            tame = false;
            continue;
          }
          seen.push(ch);
        }
      }
      Ok(Ok(None)) => break,
      Ok(Err(e)) => {
        // what a failure took away is for others to judge
        black_box(&e);
        tame = false;
        errors += 1;
        if errors > 3 {
          break;
        }
      }
      Err(p) => {
        // a peeked element may be gone when its source fails in between
        ensure!(wild, "{p} while reading {data:?}");
        tame = false;
        at += 1;
      }
    }
  }
  let text: String = seen.iter().collect();
  ensure!(valid_str(&text), "the text collected from {data:?} is not valid UTF-8");
  if !wild && tame {
    ensure!(good.starts_with(&seen), "reading {data:?} gives {seen:?}");
  }
  c.count("characters read", seen.len() as u64);
  c.count("failed reads", errors);
  c.count("panicking sources", at);
  if !seen.is_empty() {
    c.distinct(&format!("{data:?}{wild}"));
  }
  Ok(())
}

fn bytes_from(c: &mut Case) -> Verdict {
  let data = bytes(&mut c.rng);
  let wild = c.rng.chance(1, 2);
  c.sample(|| format!("byte reader over {data:?}"));
  let src = Source { data: data.clone(), pos: 0, r: c.rng.fork(), wild, lied: false };
  let mut rd = ByteReader::new(src, FileType::Buffer);
  let mut seen = Vec::new();
  for _ in 0..80 {
    let mut r = c.rng.fork();
    let got = guard(|| {
      if r.bool() {
        let _ = rd.peek();
      }
      rd.next_char()
    });
    match got {
      Ok(Ok(Some(b))) => seen.push(black_box(b)),
      Ok(Ok(None)) => break,
      Ok(Err(_)) => {}
      Err(p) => ensure!(wild, "{p} while reading {data:?}"),
    }
  }
  if !wild {
    ensure!(seen[..] == data[..data.len().min(80)], "reading {data:?} gives {seen:?}");
  }
  c.count("bytes read", seen.len() as u64);
  if !seen.is_empty() {
    c.distinct(&format!("b{data:?}{wild}"));
  }
  Ok(())
}

// ---------------------------------------------------------------- symbols

/// The number of a character among all characters.
fn rank(c: char) -> u32 {
  let b = c as u32;
  if b >= 0xe000 {
    b - 0x800
  } else {
    b
  }
}

fn unrank(k: u32) -> Option<char> {
  char::from_u32(if k >= 0xd800 { k + 0x800 } else { k })
}

fn symbol(c: char) -> Verdict {
  let next = c.next();
  let prev = c.prev();
  if let Some(n) = next {
    ok_char!(n, "the symbol after {c:?}");
  }
  if let Some(p) = prev {
    ok_char!(p, "the symbol before {c:?}");
  }
  ensure!(next == unrank(rank(c) + 1), "the symbol after {c:?} is {next:?}");
  ensure!(prev == rank(c).checked_sub(1).and_then(unrank), "the symbol before {c:?} is {prev:?}");
  Ok(())
}

fn symbols(c: &mut Case) -> Verdict {
  for e in EDGES {
    symbol(*e)?;
  }
  for b in 0..=255u8 {
    ensure!(b.next() == b.checked_add(1) && b.prev() == b.checked_sub(1), "the neighbours of {b}: {:?}, {:?}", b.prev(), b.next());
  }
  let total = 0x11_0000 - 0x800;
  let n = if cfg!(miri) { 300 } else { 40_000 };
  let from = c.rng.below(total) as u32;
  for k in 0..n {
    let ch = unrank((from + k) % total as u32).unwrap();
    symbol(ch)?;
  }
  c.count("symbols stepped from", n as u64 + 256 + EDGES.len() as u64);
  c.distinct(&format!("s{from}"));
  Ok(())
}

// ---------------------------------------------------------------- patterns

fn esc(c: char) -> String {
  format!("\\x{{{:x}}}", c as u32)
}

fn near(r: &mut Rng) -> char {
  let e = *r.pick(EDGES);
  let k = rank(e) as i64 + r.below(5) as i64 - 2;
  u32::try_from(k).ok().and_then(unrank).unwrap_or(e)
}

fn pattern(r: &mut Rng, ascii: bool, depth: usize) -> String {
  let one = |r: &mut Rng| if ascii { (r.below(128) as u8) as char } else { near(r) };
  if depth > 0 && r.chance(2, 5) {
    let (a, b) = (pattern(r, ascii, depth - 1), pattern(r, ascii, depth - 1));
    return match r.below(5) {
      0 => format!("({a}|{b})"),
      1 => format!("({a})*({b})"),
      2 => format!("({a}){{1,2}}"),
      3 => format!("({a})?({b})"),
      _ => format!("{a}{b}"),
    };
  }
  match r.below(6) {
    0 => esc(one(r)),
    1 | 2 => {
      let (mut a, mut b) = (one(r), one(r));
      if a > b {
        std::mem::swap(&mut a, &mut b);
      }
      format!("[{}-{}]", esc(a), esc(b))
    }
    3 => format!("[{}{}]", esc(one(r)), esc(one(r))),
    4 if !ascii => format!("[^{}]", esc(one(r))),
    5 if !ascii => ".".into(),
    _ => format!("[{}-\\x7f]", esc((r.below(127) as u8) as char)),
  }
}

fn pats(r: &mut Rng, ascii: bool) -> Vec<String> {
  (0..r.range(1, 3)).map(|_| pattern(r, ascii, 2)).collect()
}

fn texts(r: &mut Rng) -> Vec<String> {
  (0..8).map(|_| (0..r.below(5)).map(|_| near(r)).collect()).collect()
}

fn patterns(c: &mut Case) -> Verdict {
  let ascii = c.rng.chance(1, 3);
  let pats = pats(&mut c.rng, ascii);
  c.sample(|| format!("the patterns {pats:?}"));
  let mut b = RegexBuilder::new().enable_par(Some(false));
  for (i, p) in pats.iter().enumerate() {
    b = b.add(p, i);
  }
  let what = format!("the patterns {pats:?}");
  let m: CharsMatcher<usize> = match b.build() {
    Ok(m) => m,
    Err(e) => {
      black_box(e);
      return Ok(());
    }
  };
  let mut hits = 0;
  for t in texts(&mut c.rng) {
    hits += m.is_str_match(&t).is_some() as u64;
    let v: Vec<char> = t.chars().collect();
    ensure!(m.is_match(&v) == m.is_str_match(&t), "{what} treat {t:?} differently as characters and as text");
  }
  let t: StateTransTable<char, usize> = m.into();
  for (r, (l, k)) in t.sym_map() {
    let (l, r) = (ok_char!(*l, "a class of {what}"), ok_char!(*r, "a class of {what}"));
    ensure!(l <= r, "{what}: the class {l:?}-{r:?} is empty");
    for s in [l, r] {
      for id in 0..t.num_states() {
        if let Some(n) = t.next_state(id, &s) {
          ensure!(n < t.num_states(), "{what}: state {n} of {}", t.num_states());
        }
      }
    }
    black_box(k);
  }
  // the automata in between
  if c.rng.chance(1, 4) {
    let hir = regex_syntax::parse(&pats[0]).map_err(|e| format!("harness: {e}"))?;
    if let Ok(mir) = Mir::<char, u8>::new(hir).map(|m| Mir::Alter(vec![(m, Some(1))])).and_then(|m| m.optimize()) {
      let (fa, _) = DFA::new(NFA::new(mir), Some(false)).into_fa_tags();
      for s in fa.states().values() {
        for (rs, _) in s.outs() {
          for (l, r) in rs {
            ok_char!(*l, "an edge of {what}");
            ok_char!(*r, "an edge of {what}");
          }
        }
      }
    }
  }
  if ascii {
    let mut b = RegexBuilder::new().enable_par(Some(false));
    for (i, p) in pats.iter().enumerate() {
      b = b.add(p, i);
    }
    if let Ok(m) = b.build_bytes() {
      let m: BytesMatcher<usize> = m;
      for _ in 0..8 {
        let v: Vec<u8> = (0..c.rng.below(4)).map(|_| c.rng.below(130) as u8).collect();
        hits += m.is_match(&v).is_some() as u64;
      }
    }
  }
  c.count("pattern sets compiled", 1);
  c.count("texts matched", hits);
  c.distinct(&what);
  Ok(())
}

// ---------------------------------------------------------------- lexing, parsing

/// A string literal.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Txt(pub String);
/// A character literal.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Chr(pub char);

impl std::fmt::Display for Txt {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}", self.0)
  }
}

impl std::fmt::Display for Chr {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "{:?}", self.0)
  }
}

fn txt(s: &str) -> Option<Txt> {
  laps::lexer::str_literal(s).map(Txt)
}

fn chr(s: &str) -> Option<Chr> {
  laps::lexer::char_literal(s).map(Chr)
}

#[token_kind]
#[derive(Debug, Tokenize)]
pub enum TK {
  #[skip(r"[ \n\t]+")]
  _Skip,
  #[regex(r"[a-z_\x{e000}-\x{10ffff}]+")]
  Id(String),
  #[regex(r"[0-9][0-9a-fx]*", laps::lexer::int_literal)]
  Num(u64),
  #[regex(r#""([^"\\]|\\.)*""#, txt)]
  Text(Txt),
  #[regex(r"'([^'\\]|\\.)+'", chr)]
  Ch(Chr),
  #[regex(r"[-+*/(),;]")]
  Op(char),
  #[eof]
  Eof,
}

pub type Tok = laps::token::Token<TK>;

token_ast! {
  #[derive(Debug, Clone)]
  macro T<TK> {
    [id] => { kind: TK::Id(_), prompt: "identifier" },
    [num] => { kind: TK::Num(_), prompt: "number" },
    [text] => { kind: TK::Text(_), prompt: "text" },
    [ch] => { kind: TK::Ch(_), prompt: "character" },
    [+] => { kind: TK::Op('+') },
    [,] => { kind: TK::Op(',') },
    [;] => { kind: TK::Op(';') },
    [lpr] => { kind: TK::Op('(') },
    [rpr] => { kind: TK::Op(')') },
    [eof] => { kind: TK::Eof },
  }
}

#[derive(Parse, Debug)]
#[token(Tok)]
pub enum Stmt {
  Call(Call),
  Exp(Exp, T![;]),
  End(T![eof]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Tok)]
#[starts_with(T![id], T![lpr])]
pub struct Call {
  id: T![id],
  l: T![lpr],
  args: SepSeq<Exp, T![,]>,
  r: T![rpr],
  #[try_span]
  semi: Option<T![;]>,
}

pub type Exp = NonEmptySepList<Val, T![+]>;

#[derive(Parse, Spanned, Debug)]
#[token(Tok)]
pub enum Val {
  Num(T![num]),
  Text(T![text]),
  Ch(T![ch]),
  Id(T![id]),
  Paren(T![lpr], Box<Exp>, T![rpr]),
}

const PIECES: &[&str] = &[
  "f(1+2,a);", "a;", "1+1;\n", "(a+(1));", "g();", "a", "foo", "(", ")", ",", ";", "+", "1", "0x1f", "0x", "99999999999999999999", "\"a\\n\"", "\"\\u{10ffff}\"", "\"\\u{d800}\"", "'x'", "'\\u{e000}'", "'\\u{110000}'", "\"\\x7f\"", "\"\\xff\"", " ", "\n", "-", "é",
  "\u{10ffff}", "\u{e000}", "\"", "'", "f(", "f(1)", "1;", "(1)", "(", "1+2", "?", "\u{d7ff}",
];

pub fn program(r: &mut Rng) -> String {
  let n = r.below(if cfg!(miri) { 10 } else { 40 });
  let sep = *r.pick(&["", " "]);
  (0..n).map(|_| *r.pick(PIECES)).collect::<Vec<_>>().join(sep)
}

fn lexing(c: &mut Case) -> Verdict {
  let text = program(&mut c.rng);
  c.sample(|| format!("the program {text:?}"));
  let rd = Reader::new(Source { data: text.clone().into_bytes(), pos: 0, r: c.rng.fork(), wild: false, lied: false }, FileType::Buffer);
  let mut lx = TokenBuffer::new(TK::lexer(rd));
  let (mut toks, mut nodes, mut errors) = (0, 0, 0);
  let parse = c.rng.bool();
  for _ in 0..60 {
    if parse && c.rng.chance(3, 4) {
      match lx.parse::<Stmt>() {
        Ok(s) => {
          nodes += 1;
          let d = format!("{s:?}");
          ensure!(valid_str(&d), "the tree of {text:?} prints as invalid text");
          match &s {
            Stmt::Call(s) => drop(black_box(s.span())),
            Stmt::Exp(e, _) => drop(black_box(e.try_span())),
            Stmt::End(_) => break,
          }
        }
        Err(_) => errors += 1,
      }
    } else {
      if c.rng.chance(1, 4) {
        let n = c.rng.below(4);
        let _ = black_box(lx.peek_n(n));
        let _ = black_box(lx.peek2());
      }
      match lx.next_token() {
        Ok(t) => {
          toks += 1;
          match &t.kind {
            TK::Id(s) | TK::Text(Txt(s)) => ensure!(valid_str(s), "a token of {text:?} has invalid text"),
            TK::Ch(Chr(ch)) | TK::Op(ch) => {
              ok_char!(*ch, "a token of {text:?}");
            }
            TK::Eof => break,
            _ => {}
          }
          if c.rng.chance(1, 5) {
            lx.unread(t);
          }
        }
        Err(_) => errors += 1,
      }
    }
    if errors > 3 {
      break;
    }
  }
  c.count("tokens", toks);
  c.count("statements", nodes);
  c.count("lexing or parsing errors", errors);
  if toks + nodes > 0 {
    c.distinct(&text);
  }
  Ok(())
}

fn literals(c: &mut Case) -> Verdict {
  for _ in 0..8 {
    let s: String = (0..c.rng.below(6)).map(|_| if c.rng.bool() { c.rng.pick(PIECES).to_string() } else { near(&mut c.rng).to_string() }).collect();
    let q = *c.rng.pick(&["", "\"", "'"]);
    let s = format!("{q}{s}{q}");
    if let Some(t) = laps::lexer::str_literal(&s) {
      ensure!(valid_str(&t), "the value of the literal {s:?} is invalid text");
      c.distinct(&s);
    }
    if let Some(ch) = laps::lexer::char_literal(&s) {
      ok_char!(ch, "the value of the literal {s:?}");
      c.distinct(&s);
    }
    black_box(laps::lexer::int_literal::<u8>(&s));
    black_box(laps::lexer::signed_int_literal::<i128>(&s));
  }
  c.count("literals", 8);
  Ok(())
}

fn diagnostics(c: &mut Case) -> Verdict {
  let f = std::path::PathBuf::from(format!("hsan-{}-{}", std::process::id(), c.index));
  let real = c.rng.bool();
  let ft = if real {
    std::fs::write(&f, bytes(&mut c.rng)).map_err(|e| format!("harness: {e}"))?;
    FileType::File(f.clone().into_boxed_path())
  } else {
    c.rng.pick(&[FileType::Buffer, FileType::Stdin, FileType::File(f.clone().into_boxed_path())]).clone()
  };
  let mut span = Span::new(ft);
  let loc = |r: &mut Rng| Location { line: r.below(4) as u32, col: *r.pick(&[0, 1, 2, 5, 70_000]) };
  for _ in 0..4 {
    match c.rng.below(4) {
      0 => span.update(&near(&mut c.rng)),
      1 => span.update_loc(loc(&mut c.rng)),
      2 => {
        let mut o = span.clone();
        o.update_loc(loc(&mut c.rng));
        span.update_end(o);
      }
      _ => {
        let o = span.clone();
        span = span.into_end_updated(o);
      }
    }
    let e: Error = laps::log_error!(span, "message {}", near(&mut c.rng));
    black_box(&e);
  }
  ensure!(span.error_num() == 4, "4 errors count as {}", span.error_num());
  if real {
    let _ = std::fs::remove_file(&f);
  }
  c.count("messages logged", 4);
  Ok(())
}

pub fn run(c: &mut Case) -> Verdict {
  let k = c.rng.weighted(&[8, 3, 1, 4, 5, 3, 2]);
  match k {
    0 => chars_from(c),
    1 => bytes_from(c),
    2 => symbols(c),
    3 => patterns(c),
    4 => lexing(c),
    5 => literals(c),
    _ => diagnostics(c),
  }
}
