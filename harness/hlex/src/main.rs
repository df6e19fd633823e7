//! Monitors of derived lexers (L01-L03) against a longest-viable-prefix scanner.

mod defs;
#[path = "../../hregex/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../hregex/src/re.rs"]
#[allow(dead_code)]
mod re;
#[path = "../../hcore/src/readers.rs"]
#[allow(dead_code)]
mod readers;

mod generated {
  #![allow(clippy::all)]
  use laps::prelude::*;
  include!(concat!(env!("OUT_DIR"), "/lexers.rs"));
}

use defs::*;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, Span};
use laps::token::{Token, Tokenizer};
use re::*;
use std::sync::OnceLock;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

#[global_allocator]
static ALLOC: vmon::CountingAlloc = vmon::CountingAlloc;

// ---------------------------------------------------------------- what the generated code uses

/// Variant and value of a token kind.
pub trait Obs {
  fn obs(&self) -> (usize, String);
}

/// The text as an array of exactly its length.
pub fn exactly<const N: usize, T: AsRef<[u8]> + ?Sized>(text: &T) -> Option<[u8; N]> {
  text.as_ref().try_into().ok()
}

pub fn reversed(s: &str) -> Option<String> {
  (!s.ends_with('b')).then(|| s.chars().rev().collect())
}

pub fn kept(b: &[u8]) -> Option<Vec<u8>> {
  Some(b.to_vec())
}

// ---------------------------------------------------------------- the script of one case

type L = (u32, u32);

#[derive(Clone, Debug)]
enum Step {
  Token { var: usize, val: String, start: L, end: L, after: L },
  /// `names`: the variant whose value the text does not give.
  Err { at: L, after: L, end: bool, names: Option<usize> },
  /// The stream is moved over this symbol, which no pattern starts with.
  Over(u32),
  Pos(L),
}

pub struct Job<'a> {
  prop: &'static str,
  name: String,
  syms: &'a [u32],
  steps: &'a [Step],
  /// What the variants are called in messages.
  descriptions: Vec<String>,
  source: Option<readers::Source>,
  done: u64,
  ahead: u64,
  /// After how many calls the stream changes hands, if at all.
  swap: usize,
  swaps: u64,
}

fn advance(l: L, s: u32) -> L {
  if s == 10 {
    (l.0 + 1, 0)
  } else {
    (l.0, l.1 + 1)
  }
}

/// The reference scanner.
fn script(def: &Def, model: &Model, s: &[u32], rng: &mut Rng, moves: bool) -> (Vec<Step>, Counts) {
  let mut steps = Vec::new();
  let mut n = Counts::default();
  let mut loc = (1, 0);
  let mut i = 0;
  loop {
    if moves && rng.chance(1, 6) {
      loc = (rng.below(5000) as u32, rng.below(5000) as u32);
      steps.push(Step::Pos(loc));
    }
    // over skipped text
    let (j, state) = loop {
      let (mut j, mut st) = (i, 0);
      while j < s.len() {
        match model.next(st, s[j]) {
          Some(t) => st = t,
          None => break,
        }
        j += 1;
      }
      if j > i && model.tags[st].is_some_and(|t| def.vars[t].attr == Attr::Skip) {
        loc = s[i..j].iter().fold(loc, |l, c| advance(l, *c));
        i = j;
        n.skipped += 1;
        continue;
      }
      break (j, st);
    };
    if i == s.len() {
      for _ in 0..3 {
        steps.push(match def.eof() {
          Some(var) => Step::Token { var, val: String::new(), start: loc, end: loc, after: loc },
          None => Step::Err { at: loc, after: loc, end: true, names: None },
        });
        n.ends += 1;
      }
      return (steps, n);
    }
    let start = advance(loc, s[i]);
    if j == i {
      for _ in 0..rng.range(1, 2) {
        steps.push(Step::Err { at: start, after: loc, end: false, names: None });
      }
      steps.push(Step::Over(s[i]));
      loc = start;
      i += 1;
      n.stuck += 1;
      continue;
    }
    let text = &s[i..j];
    let end = text.iter().fold(loc, |l, c| advance(l, *c));
    let tok = model.tags[state].and_then(|var| value(def.vars[var].field, def, text).map(|val| (var, val)));
    if tok.is_none() {
      if model.tags[state].is_some() {
        n.conversions += 1;
      } else {
        n.prefixes += 1;
      }
    }
    steps.push(match tok {
      Some((var, val)) => {
        n.tokens += 1;
        n.good.extend(text);
        Step::Token { var, val, start, end, after: end }
      }
      None => Step::Err { at: start, after: end, end: false, names: model.tags[state] },
    });
    loc = end;
    i = j;
  }
}

#[derive(Default)]
struct Counts {
  tokens: u64,
  skipped: u64,
  prefixes: u64,
  conversions: u64,
  stuck: u64,
  ends: u64,
  /// Text of the tokens.
  good: Vec<u32>,
}

// ---------------------------------------------------------------- driving a lexer

/// An input stream that supplies only what is required.
struct Plain<C> {
  data: Vec<C>,
  pos: usize,
  back: Vec<Option<C>>,
  span: Span,
}

impl<C: readers::Elem + laps::span::LocationUpdate> InputStream for Plain<C> {
  type CharType = C;

  fn next_char_loc(&mut self) -> laps::span::Result<(Option<C>, Location)> {
    let loc = self.span.start();
    let c = match self.back.pop() {
      Some(c) => c,
      None => {
        self.pos += 1;
        self.data.get(self.pos - 1).copied()
      }
    };
    if let Some(c) = c {
      self.span.update(&c);
    }
    Ok((c, loc))
  }

  fn unread(&mut self, (c, loc): (Option<C>, Location)) {
    self.back.push(c);
    self.span.update_loc(loc);
  }

  fn span(&self) -> &Span {
    &self.span
  }

  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

/// How far a stream was read ahead of what was taken, if it knows.
trait Ahead {
  fn ahead(&self) -> Option<usize> {
    None
  }
}
impl<C> Ahead for Plain<C> {
  fn ahead(&self) -> Option<usize> {
    Some(self.back.len())
  }
}
impl<T> Ahead for Reader<T> {}
impl<T> Ahead for ByteReader<T> {}

pub trait Alphabet {
  type C: readers::Elem + laps::span::LocationUpdate;
  fn of(s: u32) -> Self::C;
  fn with_reader<K>(src: readers::Source, job: &mut Job) -> Result<(), String>
  where
    K: Tokenize<CharType = Self::C> + Obs;
}

pub struct Chars;
pub struct Bytes;

impl Alphabet for Chars {
  type C = char;
  fn of(s: u32) -> char {
    char::from_u32(s).unwrap()
  }
  fn with_reader<K>(src: readers::Source, job: &mut Job) -> Result<(), String>
  where
    K: Tokenize<CharType = char> + Obs,
  {
    let r: Reader<_> = Reader::new(src, FileType::Buffer);
    follow(K::lexer(r), job, |s| char::from_u32(s).unwrap())
  }
}

impl Alphabet for Bytes {
  type C = u8;
  fn of(s: u32) -> u8 {
    s as u8
  }
  fn with_reader<K>(src: readers::Source, job: &mut Job) -> Result<(), String>
  where
    K: Tokenize<CharType = u8> + Obs,
  {
    let r: ByteReader<_> = ByteReader::new(src, FileType::Buffer);
    follow(K::lexer(r), job, |s| s as u8)
  }
}

pub fn drive<K, A>(job: &mut Job) -> Result<(), String>
where
  A: Alphabet,
  K: Tokenize<CharType = A::C> + Obs,
{
  match job.source.take() {
    Some(src) => A::with_reader::<K>(src, job),
    None => {
      let data = job.syms.iter().map(|s| A::of(*s)).collect();
      let p = Plain { data, pos: 0, back: vec![], span: Span::new(FileType::Buffer) };
      follow(K::lexer(p), job, A::of)
    }
  }
}

fn at(l: Location) -> L {
  (l.line, l.col)
}

fn follow<I, K>(mut lexer: Lexer<I, K>, job: &mut Job, of: impl Fn(u32) -> I::CharType) -> Result<(), String>
where
  I: InputStream<CharType = K::CharType> + Ahead,
  K: Tokenize + Obs,
  I::CharType: PartialEq + std::fmt::Debug,
{
  let mut errors = 0;
  // whether an error was due before: from then on resuming is what is watched
  let mut failed = false;
  for (k, step) in job.steps.iter().enumerate() {
    let here = || format!("call {k} of {}", job.name);
    match step {
      Step::Pos(l) => {
        lexer.input_mut().set_line_col(l.0, l.1);
        continue;
      }
      Step::Over(s) => {
        let got = guard(|| lexer.input_mut().next_char())?;
        let want = Ok(Some(of(*s)));
        if got != want {
          ensure!(job.prop != "L03", "after an error the stream has {got:?} next instead of {want:?} (step {k} of {})", job.name);
          return Ok(());
        }
        continue;
      }
      _ => {}
    }
    // the stream may be taken out of the lexer and given to another, or read without one
    let direct = job.swap > 0 && (k + 1) % job.swap == 0;
    if job.swap > 0 && (k + 2) % job.swap == 0 {
      lexer = K::lexer(lexer.into_input());
      job.swaps += 1;
    }
    let next = || if direct { K::next_token(lexer.input_mut()) } else { lexer.next_token() };
    let got: Result<Token<K>, Error> = match guard(next) {
      Ok(r) => r,
      Err(p) => return Err(format!("{} caused a {p}", here())),
    };
    job.done += 1;
    if job.prop == "L04" {
      if let Some(n) = lexer.input().ahead() {
        ensure!(n <= 1, "{} read {n} symbols past what it took", here());
        job.ahead += n as u64;
      }
    }
    let after = lexer.input().span();
    let (now, now_end) = (at(after.start()), at(after.end()));
    match (step, got) {
      (Step::Token { var, val, start, end, after }, Ok(t)) => {
        let o = t.kind.obs();
        if (o.0, &o.1) != (*var, val) {
          let watched = if failed { job.prop == "L03" } else { job.prop == "L01" };
          ensure!(!watched, "{} gives variant {} with value {:?}, expected {var} with {val:?}", here(), o.0, o.1);
          return Ok(());
        }
        if job.prop == "L02" {
          let (s, e) = (at(t.span.start()), at(t.span.end()));
          ensure!((s, e) == (*start, *end), "{} gives a token (variant {var}, value {val:?}) with span {s:?}-{e:?}, expected {start:?}-{end:?}", here());
          ensure!(now == *after && now_end == *after, "after {} the stream is at {now:?}-{now_end:?}, expected {after:?}", here());
        }
      }
      (Step::Err { at, after, end, names }, Err(e)) => {
        errors += 1;
        failed |= !end;
        if job.prop == "L03" {
          let Error::Normal(m) = &e else { return Err(format!("{} gives {e:?}, which is fatal", here())) };
          let prefix = format!("<buffer>:{}:{}: ", at.0, at.1);
          ensure!(m.starts_with(&prefix), "{} gives the error {m:?}, expected one at {prefix:?}", here());
          if let Some(v) = names {
            let d = &job.descriptions[*v];
            ensure!(m[prefix.len()..].contains(d.as_str()), "{} gives the error {m:?}, which does not mention {d:?}", here());
          }
          let n = lexer.input().span().error_num();
          ensure!(n == errors, "after {} {n} errors are counted, expected {errors}", here());
        }
        if matches!(job.prop, "L02" | "L03") {
          ensure!(now == *after && now_end == *after, "after {}, an error, the stream is at {now:?}-{now_end:?}, expected {after:?}", here());
        }
      }
      (Step::Token { var, val, .. }, Err(e)) => {
        let watched = if failed { job.prop == "L03" } else { job.prop == "L01" };
        ensure!(!watched, "{} gives {e:?}, expected variant {var} with value {val:?}", here());
        return Ok(());
      }
      (Step::Err { .. }, Ok(t)) => {
        ensure!(matches!(job.prop, "L02" | "L04"), "{} gives a token with {:?} at {}, expected an error", here(), t.kind.obs(), t.span);
        return Ok(());
      }
      _ => unreachable!(),
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- cases

fn all() -> &'static Vec<(Def, Model)> {
  static D: OnceLock<Vec<(Def, Model)>> = OnceLock::new();
  D.get_or_init(|| {
    defs(generated::SEED, generated::THOROUGH)
      .into_iter()
      .map(|d| {
        let m = Model::new(d.kind(), &d.pats(), 100_000).unwrap();
        (d, m)
      })
      .collect()
  })
}

/// One piece of input.
fn piece(rng: &mut Rng, def: &Def, set: &gen::PatSet, out: &mut Vec<u32>) {
  let kind = def.kind();
  let cap = 700;
  match rng.weighted(&[50, 14, 8, 5, 4]) {
    0 => {
      let mut s = Vec::new();
      let re = &rng.pick(&set.pats).1;
      if re.member(rng, &mut s, cap) {
        out.extend(s);
      }
    }
    1 => {
      let skips: Vec<&Var> = def.vars.iter().filter(|v| v.attr == Attr::Skip).collect();
      if !skips.is_empty() {
        let mut s = Vec::new();
        if rng.pick(&skips).re.member(rng, &mut s, 20) {
          out.extend(s);
        }
      }
    }
    2 => out.extend(gen::gen_string(rng, set, cap)),
    3 => out.push(*rng.pick(&[10, 32, 10, 9, 13])),
    _ => {
      let c = if rng.bool() { rng.below(128) as u32 } else { rng.below(kind.max() as usize + 1) as u32 };
      if kind.valid(c) {
        out.push(c);
      }
    }
  }
}

fn conv(f: Field) -> bool {
  !matches!(f, Field::Unit | Field::Paren | Field::Str | Field::BPath)
}

fn run(c: &mut Case, prop: &'static str) -> Verdict {
  let defs = all();
  let id = (c.index % defs.len() as u64) as usize;
  let (def, model) = &defs[id];
  let set = def.set();
  let moves = c.rng.chance(1, 8);
  let clean = match prop {
    "L01" => true,
    "L02" => c.rng.bool(),
    _ => false,
  };
  let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 14, 30]);
  let mut syms: Vec<u32> = Vec::new();
  for _ in 0..n {
    if c.rng.chance(1, 250) && gen::stretch(&mut c.rng, &set, model, &mut syms) {
      c.count("stretched texts", 1);
    } else if clean && c.rng.chance(3, 4) {
      // only values that convert
      let mut s = Vec::new();
      let pats: Vec<&Var> = def.vars.iter().filter(|v| matches!(v.attr, Attr::Regex | Attr::Skip)).collect();
      let v = *c.rng.pick(&pats);
      if v.re.member(&mut c.rng, &mut s, 700) && (!conv(v.field) || value(v.field, def, &s).is_some()) {
        syms.extend(s);
      }
    } else {
      piece(&mut c.rng, def, &set, &mut syms);
    }
    if syms.len() > 4000 {
      break;
    }
  }
  if prop == "L03" && syms.is_empty() {
    piece(&mut c.rng, def, &set, &mut syms);
  }
  let mut seed = c.rng.fork();
  let (mut steps, mut cnt) = script(def, model, &syms, &mut seed, moves);
  if clean {
    for _ in 0..4 {
      if cnt.prefixes + cnt.conversions + cnt.stuck == 0 {
        break;
      }
      syms = cnt.good.clone();
      (steps, cnt) = script(def, model, &syms, &mut seed, moves);
    }
  }
  let bytes: Vec<u8> = if def.bytes { syms.iter().map(|s| *s as u8).collect() } else { syms.iter().map(|s| char::from_u32(*s).unwrap()).collect::<String>().into_bytes() };
  let shown = if def.bytes { format!("{:?}", String::from_utf8_lossy(&bytes)) } else { format!("{:?}", String::from_utf8(bytes.clone()).unwrap()) };
  let source = match c.rng.below(3) {
    _ if prop == "L04" => None,
    0 => None,
    _ => {
      let (plan, rest) = readers::gen_plan(&mut c.rng, bytes.len());
      Some(readers::Source::new(bytes, plan, rest))
    }
  };
  let name = format!("lexer {id} {} on {}", show(def), clip(&shown));
  c.sample(|| name.clone());
  let swap = if c.rng.chance(1, 3) { c.rng.range(2, 6) } else { 0 };
  let mut job = Job { prop, name, syms: &syms, steps: &steps, descriptions: def.vars.iter().enumerate().map(|(i, v)| v.description(i)).collect(), source, done: 0, ahead: 0, swap, swaps: 0 };
  let r = generated::dispatch(id, &mut job);
  c.count("streams handed to another lexer", job.swaps);
  c.evals(job.done);
  c.count("calls that read one symbol ahead", job.ahead);
  r?;
  c.count("tokens", cnt.tokens);
  c.count("skipped texts", cnt.skipped);
  c.count("failing prefixes", cnt.prefixes);
  c.count("failing conversions", cnt.conversions);
  c.count("unmatched symbols", cnt.stuck);
  c.count("ends of input", cnt.ends);
  if steps.len() > 4 {
    c.distinct(&format!("{id}:{shown}"));
  }
  Ok(())
}

fn clip(s: &str) -> String {
  if s.chars().count() > 400 {
    format!("{}… ({} characters)", s.chars().take(400).collect::<String>(), s.chars().count())
  } else {
    s.to_string()
  }
}

fn show(d: &Def) -> String {
  let v: Vec<String> = d
    .vars
    .iter()
    .enumerate()
    .map(|(i, v)| match v.attr {
      Attr::Regex => format!("{i}: {:?} {:?}", v.pat, v.field),
      Attr::Skip => format!("{i}: skip {:?}", v.pat),
      Attr::Eof => format!("{i}: eof"),
      Attr::Bare => format!("{i}: -"),
    })
    .collect();
  clip(&format!("({}{}; {})", if d.bytes { "u8" } else { "char" }, d.par.map_or(String::new(), |p| format!(", enable_par({p})")), v.join(", ")))
}

fn main() {
  const RULE: &str = "inputs of a derived lexer that give at least two tokens or errors, distinct by lexer and text";
  let prop = |id, run| Prop { id, run, rule: RULE, alloc_mib: 1024, cpu_s: 60 };
  vmon::worker_main(&[prop("L01", |c| run(c, "L01")), prop("L02", |c| run(c, "L02")), prop("L03", |c| run(c, "L03")), prop("L04", |c| run(c, "L04"))], true)
}
