//! D04: the library without its logger feature.

#[path = "../../hcore/src/readers.rs"]
#[allow(dead_code)]
mod readers;
#[path = "../../hcore/src/toks.rs"]
#[allow(dead_code)]
mod toks;

use laps::prelude::*;
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, Result, Span};
use laps::token::TokenBuffer;
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};
use std::io;
use std::path::Path;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

#[global_allocator]
static ALLOC: vmon::CountingAlloc = vmon::CountingAlloc;

extern "C" {
  fn memfd_create(name: *const u8, flags: u32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn dup(a: i32) -> i32;
  fn close(a: i32) -> i32;
  fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

/// Runs `f` with standard output and error watched: nothing may be written.
fn silent<R>(f: impl FnOnce() -> R) -> std::result::Result<R, String> {
  unsafe {
    let mem = memfd_create(b"out\0".as_ptr(), 0);
    let (o, e) = (dup(1), dup(2));
    assert!(mem >= 0 && o >= 0 && e >= 0 && dup2(mem, 1) == 1 && dup2(mem, 2) == 2);
    let r = guard(f);
    let n = lseek(mem, 0, 1);
    assert!(dup2(o, 1) == 1 && dup2(e, 2) == 2);
    close(o);
    close(e);
    close(mem);
    let r = r?;
    if n != 0 {
      return Err(format!("{n} bytes were printed without the logger feature"));
    }
    Ok(r)
  }
}

const MESSAGES: &[&str] = &["unexpected token", "", "多字节 ✨", "two\nlines", "{braces} %s", "x: y"];

fn ret(s: &Span, m: &str, n: usize) -> Result<()> {
  return_error!(s, "{m}{n}")
}

fn logging(c: &mut Case) -> Verdict {
  let ft = match c.rng.below(4) {
    0 => FileType::Buffer,
    1 => FileType::Stdin,
    2 => FileType::File(Path::new("/nonexistent/ü x.laps").into()),
    _ => FileType::File(Path::new("a.txt").into()),
  };
  let name = match &ft {
    FileType::Buffer => "<buffer>".to_string(),
    FileType::Stdin => "<stdin>".to_string(),
    FileType::File(p) => p.display().to_string(),
  };
  let root = Span::new(ft);
  let (mut errors, mut warnings) = (0usize, 0usize);
  for k in 0..30 {
    let mut s = root.clone();
    let l = Location { line: c.rng.below(2000) as u32, col: if c.rng.chance(1, 8) { u32::MAX } else { c.rng.below(200) as u32 } };
    s.update_loc(l);
    if c.rng.bool() {
      let mut e = s.clone();
      e.update(&'\n');
      s.update_end(e);
    }
    let m = c.rng.pick(MESSAGES).to_string();
    let at = format!("{name}:{}:{}: ", l.line, l.col);
    let kind = c.rng.below(8);
    let got = silent(|| match kind {
      0 => Some(log_error!(s, "{m}{k}")),
      1 => Some(log_fatal_error!(s, "{}{}", m, k)),
      2 => Some(log_raw_error!(s, "{m}{k}")),
      3 => Some(log_raw_fatal_error!(s, "{m}{k}")),
      4 => ret(&s, &m, k).err(),
      5 => {
        log_warning!(s, "{m}{k}");
        None
      }
      6 => {
        log_raw_warning!(s, "{m}{k}");
        None
      }
      _ => {
        s.log_summary();
        None
      }
    })?;
    let want = match kind {
      0 | 4 => Some(Error::Normal(format!("{at}{m}{k}"))),
      1 => Some(Error::Fatal(format!("{at}{m}{k}"))),
      2 => Some(Error::Normal(format!("{m}{k}"))),
      3 => Some(Error::Fatal(format!("{m}{k}"))),
      _ => None,
    };
    ensure!(got == want, "logging kind {kind} through {s} gives {got:?}, expected {want:?}");
    if let Some(e) = &got {
      errors += 1;
      ensure!(e.is_fatal() == matches!(kind, 1 | 3), "{e:?}.is_fatal() is {}", e.is_fatal());
    } else if kind < 7 {
      warnings += 1;
    }
    ensure!(
      s.error_num() == errors && s.warning_num() == warnings && root.error_num() == errors && root.warning_num() == warnings,
      "after logging kind {kind}: {} errors and {} warnings counted, expected {errors} and {warnings}",
      s.error_num(),
      s.warning_num()
    );
    c.evals(1);
    c.count("logging calls compared", 1);
  }
  if c.rng.chance(1, 1000) {
    for _ in 0..c.rng.range(60_000, 70_000) {
      let s = root.clone();
      let e = log_raw_error!(s, "m");
      log_raw_warning!(s, "m");
      errors += 1;
      warnings += 1;
      ensure!(
        e == Error::Normal("m".into()) && root.error_num() == errors && root.warning_num() == warnings,
        "after {errors} errors and {warnings} warnings, {} and {} are counted ({e:?})",
        root.error_num(),
        root.warning_num()
      );
    }
    c.count("inputs with more than 60000 messages", 1);
  }
  c.distinct(&format!("{name}{errors}{warnings}{}", c.index));
  Ok(())
}

fn reader_errors(c: &mut Case) -> Verdict {
  let mut bytes = vec![b'a'; c.rng.below(5)];
  let fail = c.rng.bool();
  let n = bytes.len();
  let mut plan = vec![];
  if fail {
    if n > 0 {
      plan.push(readers::Ev::Chunk(n));
    }
    plan.push(readers::Ev::Fail(io::ErrorKind::Other));
  } else {
    bytes.push(0xff);
  }
  let run = |r: &mut dyn FnMut() -> Result<bool>| -> std::result::Result<Vec<Result<bool>>, String> { silent(|| (0..n + 3).map(|_| r()).collect()) };
  let src = || readers::Source::new(bytes.clone(), plan.clone(), 9);
  let mut rd: Reader<_> = Reader::new(src(), FileType::Buffer);
  let got = run(&mut || rd.next_char().map(|c| c.is_some()))?;
  let msg = if fail { "injected failure" } else { "invalid UTF-8 character" };
  for (k, g) in got.iter().enumerate() {
    let want = if k < n {
      Ok(true)
    } else if k == n || !fail {
      Err(Error::Fatal(msg.into()))
    } else {
      Ok(false)
    };
    ensure!(*g == want, "read {k} gives {g:?}, expected {want:?}");
  }
  if fail {
    let mut rd: ByteReader<_> = ByteReader::new(src(), FileType::Buffer);
    let got = run(&mut || rd.next_char().map(|c| c.is_some()))?;
    ensure!(got[n] == Err(Error::Fatal(msg.into())), "byte read {n} gives {:?}", got[n]);
    ensure!(rd.span().error_num() == 1, "{} errors counted", rd.span().error_num());
  }
  c.count("reader failures compared", 1);
  Ok(())
}

// ---------------------------------------------------------------- a lexer and parser

#[derive(Clone, PartialEq, Debug)]
struct Operator(String);

impl std::str::FromStr for Operator {
  type Err = ();
  fn from_str(s: &str) -> std::result::Result<Self, ()> {
    Ok(Self(s.into()))
  }
}

impl std::fmt::Display for Operator {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str(&self.0)
  }
}

#[token_kind]
#[derive(Debug, Tokenize)]
enum TokenKind {
  #[skip(r"\s+")]
  _Skip,
  /// number
  #[regex(r"[0-9]+")]
  Num(u8),
  /// word
  #[regex(r"[a-z]+")]
  Word(String),
  /// operator
  #[regex(r"[+*()]|==")]
  Op(Operator),
  /// end of file
  #[eof]
  Eof,
}

type Token = laps::token::Token<TokenKind>;

token_ast! {
  #[derive(Debug, PartialEq)]
  macro Token<TokenKind> {
    [num] => { kind: TokenKind::Num(_), prompt: "number" },
    [word] => { kind: TokenKind::Word(_), prompt: "word" },
    [+] => { kind: TokenKind::Op(o) if o.0 == "+", prompt: "`+`" },
    [lpr] => { kind: TokenKind::Op(o) if o.0 == "(", prompt: "`(`" },
    [rpr] => { kind: TokenKind::Op(o) if o.0 == ")", prompt: "`)`" },
  }
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
enum Atom {
  Num(Token![num]),
  Paren(Token![lpr], Box<Sum>, Token![rpr]),
  Word(Token![word]),
}

#[derive(Parse, Spanned, Debug)]
#[token(Token)]
struct Sum {
  list: laps::ast::NonEmptySepList<Atom, Token![+]>,
}

/// What the lexer must give for the text: tokens or error messages.
fn scan(text: &[char]) -> Vec<std::result::Result<(char, String, usize), String>> {
  let mut out = Vec::new();
  let mut i = 0;
  while i < text.len() {
    let c = text[i];
    let run = |f: fn(&char) -> bool| text[i..].iter().take_while(|c| f(c)).count();
    let (n, k) = match c {
      ' ' => {
        i += run(|c| *c == ' ');
        continue;
      }
      '0'..='9' => (run(|c| c.is_ascii_digit()), 'n'),
      'a'..='z' => (run(|c| c.is_ascii_lowercase()), 'w'),
      '+' | '*' | '(' | ')' => (1, 'o'),
      '=' if text.get(i + 1) == Some(&'=') => (2, 'o'),
      '=' => (1, 'x'), // a prefix of '=='
      _ => {
        // no pattern starts like this: the lexer stays here
        out.push(Err("stuck".into()));
        return out;
      }
    };
    let s: String = text[i..i + n].iter().collect();
    out.push(match k {
      'x' => Err("bad".into()),
      'n' if s.parse::<u8>().is_err() => Err("value".into()),
      k => Ok((k, s, i + 1)),
    });
    i += n;
  }
  out
}

/// Recursive descent over the tokens; `Err(i)`: the token at `i` is not allowed.
fn sum(t: &[(char, String, usize)], mut i: usize) -> std::result::Result<usize, usize> {
  loop {
    i = match t.get(i) {
      Some((k, s, _)) if *k == 'o' && s == "(" => {
        let j = sum(t, i + 1)?;
        match t.get(j) {
          Some((k, s, _)) if *k == 'o' && s == ")" => j + 1,
          _ => return Err(j),
        }
      }
      Some((k, ..)) if *k == 'n' || *k == 'w' => i + 1,
      _ => return Err(i),
    };
    match t.get(i) {
      Some((k, s, _)) if *k == 'o' && s == "+" => i += 1,
      _ => return Ok(i),
    }
  }
}

fn lex_and_parse(c: &mut Case) -> Verdict {
  let n = c.rng.below(14);
  let clean = c.rng.bool();
  let text: Vec<char> = (0..n)
    .flat_map(|_| match c.rng.below(if clean { 6 } else { 9 }) {
      0 => vec!['(', 'a', ')'],
      1 => vec![*c.rng.pick(&['1', '7', 'a', 'z'])],
      2 => vec!['+'],
      3 => vec![' '],
      4 => vec!['x', ' ', '+', '4', '2'],
      5 => vec![*c.rng.pick(&['(', ')', '*', '+'])],
      6 => vec!['9', '9', '9'],
      7 => vec!['='],
      _ => vec!['?'],
    })
    .collect();
  let s: String = text.iter().collect();
  c.sample(|| format!("{s:?}"));
  let want = scan(&text);
  let mut lexer = TokenKind::lexer(Reader::from(s.as_str()));
  use laps::token::Tokenizer;
  let mut toks = Vec::new();
  let mut errors = 0;
  for (k, w) in want.iter().enumerate() {
    let got = silent(|| lexer.next_token())?;
    match (w, got) {
      (Ok(w), Ok(t)) => {
        let (kind, text) = match &t.kind {
          TokenKind::Num(n) => ('n', n.to_string()),
          TokenKind::Word(s) => ('w', s.clone()),
          TokenKind::Op(s) => ('o', s.0.clone()),
          TokenKind::Eof | TokenKind::_Skip => ('e', String::new()),
        };
        let value = if w.0 == 'n' { w.1.parse::<u8>().unwrap().to_string() } else { w.1.clone() };
        ensure!((kind, &text, t.span.start().col as usize) == (w.0, &value, w.2), "token {k} of {s:?} is {t:?}, expected {w:?}");
        toks.push(w.clone());
      }
      (Err(_), Err(e)) => {
        errors += 1;
        let Error::Normal(m) = &e else { return Err(format!("token {k} of {s:?}: {e:?} is fatal")) };
        ensure!(m.starts_with("<buffer>:1:"), "token {k} of {s:?}: message {m:?} does not start with its place");
        c.count("lexing errors compared", 1);
      }
      (w, g) => return Err(format!("token {k} of {s:?}: {g:?}, expected {w:?}")),
    }
  }
  let stuck = want.last() == Some(&Err("stuck".into()));
  for _ in 0..if stuck { 0 } else { 2 } {
    let got = silent(|| lexer.next_token())?;
    ensure!(matches!(&got, Ok(t) if t.kind == TokenKind::Eof), "at the end of {s:?}: {got:?}");
  }
  ensure!(lexer.input().span().error_num() == errors, "{} errors counted for {s:?}, expected {errors}", lexer.input().span().error_num());
  c.count("tokens compared", toks.len() as u64);
  if errors == 0 {
    let mut ts = TokenBuffer::new(TokenKind::lexer(Reader::from(s.as_str())));
    let got = silent(|| ts.parse::<Sum>())?;
    match (sum(&toks, 0), got) {
      (Ok(n), Ok(t)) => {
        let (a, z) = (&toks[0], &toks[n - 1]);
        let sp = t.span();
        ensure!(
          sp.start().col as usize == a.2 && sp.end().col as usize == z.2 + z.1.len() - 1,
          "the tree of {s:?} spans {sp}, expected 1:{}-1:{}",
          a.2,
          z.2 + z.1.len() - 1
        );
        let rest = silent(|| ts.next_token())?.map_err(|e| format!("{e:?}"))?;
        let at = toks.get(n).map(|t| t.2);
        ensure!(at.is_none() || at == Some(rest.span.start().col as usize), "after parsing {s:?} the next token is at {}", rest.span);
        c.count("trees compared", 1);
      }
      (Err(n), Err(e)) => {
        let Error::Normal(m) = &e else { return Err(format!("{e:?} is fatal")) };
        let col = toks.get(n).map_or(text.len(), |t| t.2);
        let at = format!("<buffer>:1:{col}: ");
        ensure!(m.starts_with(&at), "syntax error of {s:?} is {m:?}, expected at {at:?}");
        c.count("syntax errors compared", 1);
      }
      (w, g) => return Err(format!("parsing {s:?}: {:?}, expected {w:?}", g.map(|_| ()))),
    }
  }
  c.distinct(&s);
  Ok(())
}

fn d04(c: &mut Case) -> Verdict {
  let sub = |id: &str| -> fn(&mut Case) -> Verdict {
    readers::props().iter().chain(toks::props().iter()).find(|p| p.id == id).map(|p| p.run).unwrap()
  };
  let f: fn(&mut Case) -> Verdict = match c.index % 10 {
    0 => sub("R01"),
    1 => sub("R02"),
    2 => sub("R03"),
    3 => sub("R04"),
    4 => sub("T01"),
    5 => sub("T02"),
    6 => reader_errors,
    7 | 8 => logging,
    _ => {
      for _ in 0..10 {
        lex_and_parse(c)?;
        c.evals(1);
      }
      return Ok(());
    }
  };
  if c.index % 10 < 6 {
    c.count("reader and token stream cases", 1);
    // the monitors of these run unchanged; nothing may be printed meanwhile
    let mut r = Ok(());
    silent(|| r = f(c))?;
    r
  } else {
    f(c)
  }
}

fn main() {
  let _ = Rng::new(0);
  vmon::worker_main(
    &[Prop {
      id: "D04",
      run: d04,
      rule: "without the logger feature: random logging calls (value, counts, silence), failing readers, the reader and token stream monitors, and a derived lexer and parser against a hand-written one; distinct by content",
      alloc_mib: 512,
      cpu_s: 30,
    }],
    false,
  )
}
