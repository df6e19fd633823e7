//! Monitors of token kinds and elements (T03, T04) and of syntax elements and derived parsers
//! (A01-A04), over randomly generated definitions.

mod front;
mod gram;
mod kinds;

mod generated {
  #![allow(clippy::all, dead_code, deprecated, unused)]
  use laps::ast::*;
  use laps::prelude::*;
  use crate::Dump;
  type Mark = crate::Mark<()>;
  include!(concat!(env!("OUT_DIR"), "/code.rs"));
}

use gram::*;
use laps::ast::*;
use laps::parse::Parse;
use laps::prelude::*;
use laps::span::{Error, FileType, Location, Span, TrySpan};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::fmt::Debug;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::OnceLock;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

#[global_allocator]
static ALLOC: vmon::CountingAlloc = vmon::CountingAlloc;

// ---------------------------------------------------------------- token streams

#[token_kind]
#[derive(Debug, Tokenize)]
pub enum K {
  #[skip(r"\s+|#[^\n]*|/\*([^*]|\*+[^*/])*\*+/")]
  _Skip,
  #[regex("A")]
  A,
  #[regex("B")]
  B,
  #[regex("C")]
  C,
  #[regex("D")]
  D,
  #[regex("[0-9]+")]
  Num(u32),
  #[regex(r"[-+*]")]
  Op(char),
  #[regex("[a-z]+")]
  Id(String),
  #[regex(";")]
  Semi,
  #[regex(",")]
  Comma,
  #[eof]
  Eof,
}

/// A tokenizer over a list; the last token repeats.
pub struct Src<Kd> {
  toks: Vec<Kd>,
  pos: usize,
  /// How many tokens were taken, for whoever watches.
  taken: Rc<Cell<usize>>,
  span: Span,
}

/// Token `i` has this span.
fn place(i: usize) -> (Location, Location) {
  if let Some(p) = front::PLACES.with(|p| p.borrow().as_ref().map(|p| p[i])) {
    return p;
  }
  let c = (i as u32 * 7) % 5;
  (Location { line: i as u32 + 1, col: c }, Location { line: i as u32 + 1 + c / 3, col: c + 3 })
}

/// The token whose span starts here.
fn index_of(l: Location) -> usize {
  let found = front::PLACES.with(|p| p.borrow().as_ref().map(|p| p.iter().position(|p| p.0 == l)));
  match found {
    Some(i) => i.unwrap_or(usize::MAX),
    None => l.line as usize - 1,
  }
}

fn place_span(root: &Span, i: usize) -> Span {
  let (a, b) = place(i);
  let mut s = root.clone();
  s.update_loc(a);
  let mut e = root.clone();
  e.update_loc(b);
  s.update_end(e);
  s
}

impl<Kd> Src<Kd> {
  fn new(toks: Vec<Kd>) -> Self {
    Src { toks, pos: 0, taken: Rc::default(), span: Span::new(FileType::Buffer) }
  }
}

impl<Kd: Clone> Tokenizer for Src<Kd> {
  type Token = Token<Kd>;
  fn next_token(&mut self) -> laps::span::Result<Token<Kd>> {
    let i = self.pos.min(self.toks.len() - 1);
    self.pos += 1;
    self.taken.set(self.pos);
    if self.pos > self.toks.len() + 4000 {
      panic!("the token stream is read without end");
    }
    Ok(Token::new(self.toks[i].clone(), place_span(&self.span, i)))
  }
}

pub type Buf<Kd> = TokenBuffer<Src<Kd>, Token<Kd>>;

/// A token stream that supplies only what is required.
pub struct Mini<Kd> {
  src: Src<Kd>,
  back: Vec<Token<Kd>>,
}

impl<Kd: Clone> Tokenizer for Mini<Kd> {
  type Token = Token<Kd>;
  fn next_token(&mut self) -> laps::span::Result<Token<Kd>> {
    match self.back.pop() {
      Some(t) => Ok(t),
      None => self.src.next_token(),
    }
  }
}

impl<Kd: Clone> TokenStream for Mini<Kd> {
  fn unread(&mut self, t: Token<Kd>) {
    self.back.push(t);
  }
}

// ---------------------------------------------------------------- trees

type Seen = Option<(Location, Location)>;

#[derive(Clone)]
pub enum Tree {
  /// A token: its place and its kind's text.
  Tok(Location, String, Vec<Seen>),
  Node(usize, Vec<Tree>, Vec<Seen>),
}

impl Tree {
  pub fn token<Kd: Debug>(t: &Token<Kd>) -> Tree {
    Tree::Tok(t.span.start(), format!("{:?}", t.kind), vec![])
  }
  pub fn node(label: usize, kids: Vec<Tree>) -> Tree {
    Tree::Node(label, kids, vec![])
  }
  /// Adds an observed span.
  pub fn with(mut self, s: Option<Span>) -> Tree {
    let s = s.map(|s| (s.start(), s.end()));
    match &mut self {
      Tree::Tok(_, _, v) | Tree::Node(_, _, v) => v.push(s),
    }
    self
  }
}

impl Debug for Tree {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    match self {
      Tree::Tok(l, k, _) => write!(f, "{}:{k}", index_of(*l) as isize),
      Tree::Node(l, k, _) => {
        write!(f, "{l}")?;
        f.debug_list().entries(k).finish()
      }
    }
  }
}

pub trait Dump {
  fn dump(&self) -> Tree;
}

impl<T: Dump> Dump for Box<T> {
  fn dump(&self) -> Tree {
    T::dump(self)
  }
}
impl<T: Dump> Dump for Option<T> {
  fn dump(&self) -> Tree {
    Tree::node(90, self.iter().map(|t| t.dump()).collect())
  }
}
impl<T: Dump> Dump for Vec<T> {
  fn dump(&self) -> Tree {
    Tree::node(91, self.iter().map(|t| t.dump()).collect())
  }
}
macro_rules! dump_seq {
  ($($t:ident<$($g:ident),*>),*) => { $(
    impl<$($g),*> Dump for $t<$($g),*> where T: Dump {
      fn dump(&self) -> Tree {
        let kids: Vec<Tree> = self.into_iter().map(|t| t.dump()).collect();
        // what is stored and what is iterated must agree
        let stored: Vec<String> = self.0.iter().map(|t| format!("{:?}", t.dump())).collect();
        let seen: Vec<String> = kids.iter().map(|t| format!("{t:?}")).collect();
        Tree::node(if stored == seen { 91 } else { 99 }, kids)
      }
    }
  )* };
}
dump_seq!(NonEmptySeq<T>, SepSeq<T, S>, NonEmptySepSeq<T, S>, OptSepSeq<T, S>, NonEmptyOptSepSeq<T, S>);
impl<T: Dump, S: Dump> Dump for NonEmptySepList<T, S> {
  fn dump(&self) -> Tree {
    let (mut v, mut at) = (vec![], self);
    loop {
      match at {
        Self::One(t) => {
          v.push(t.dump());
          return Tree::node(92, v);
        }
        Self::More(t, s, n) => {
          v.extend([t.dump(), s.dump()]);
          at = n;
        }
      }
    }
  }
}
impl<T: Dump, S: Dump> Dump for NonEmptyOptSepList<T, S> {
  fn dump(&self) -> Tree {
    let (mut v, mut at) = (vec![], self);
    loop {
      match at {
        Self::One(t) => {
          v.push(t.dump());
          return Tree::node(92, v);
        }
        Self::OneWithSep(t, s) => {
          v.extend([t.dump(), s.dump()]);
          return Tree::node(92, v);
        }
        Self::More(t, s, n) => {
          v.extend([t.dump(), s.dump()]);
          at = n;
        }
      }
    }
  }
}
#[allow(deprecated)]
impl<L: Dump, T: Dump, R: Dump> Dump for Quoted<L, T, R> {
  fn dump(&self) -> Tree {
    Tree::node(93, vec![self.0.dump(), self.1.dump(), self.2.dump()])
  }
}
macro_rules! dump_prefix {
  ($($t:ident),*) => { $(
    impl<P: Dump, T: Dump> Dump for $t<P, T> {
      fn dump(&self) -> Tree {
        Tree::node(93, vec![self.0.dump(), self.1.dump()])
      }
    }
  )* };
}
dump_prefix!(OptPrefix, OptTokenPrefix, TokenPrefix);
macro_rules! dump_tuple {
  () => {};
  ($t:ident $($ts:ident)*) => {
    impl<$t: Dump, $($ts: Dump),*> Dump for ($t, $($ts,)*) {
      #[allow(non_snake_case)]
      fn dump(&self) -> Tree {
        let ($t, $($ts,)*) = self;
        Tree::node(93, vec![$t.dump(), $($ts.dump()),*])
      }
    }
    dump_tuple!($($ts)*);
  };
}
dump_tuple!(A B C D E F G H I J KK L M N O P Q R S T U V W X Y Z);

/// A syntax element that takes nothing; makes types generic.
pub struct Mark<X>(PhantomData<X>);

impl<TS: TokenStream, X> Parse<TS> for Mark<X> {
  fn parse(_: &mut TS) -> laps::span::Result<Self> {
    Ok(Mark(PhantomData))
  }
  fn maybe(_: &mut TS) -> laps::span::Result<bool> {
    Ok(true)
  }
}
impl<X> TrySpan for Mark<X> {
  fn try_span(&self) -> Option<Span> {
    None
  }
}
impl<X> Dump for Mark<X> {
  fn dump(&self) -> Tree {
    Tree::node(94, vec![])
  }
}

// ---------------------------------------------------------------- the reference parser

fn term_ok(t: usize, k: &K) -> bool {
  match TERMS[t].0 {
    "a" => *k == K::A,
    "b" => *k == K::B,
    "c" => *k == K::C,
    "d" => *k == K::D,
    "num" => matches!(k, K::Num(_)),
    "small" => matches!(k, K::Num(n) if *n < 10),
    "+" => *k == K::Op('+'),
    "op" => matches!(k, K::Op(_)),
    "id" => matches!(k, K::Id(_)),
    "if" => *k == K::Id("if".into()),
    "ab" => *k == K::A || *k == K::B,
    ";" => *k == K::Semi,
    "," => *k == K::Comma,
    "x 1" => *k == K::Op('-') || *k == K::Num(1),
    _ => unreachable!(),
  }
}

fn term_kind(t: usize, r: &mut Rng) -> K {
  loop {
    let k = any_kind(r);
    if term_ok(t, &k) {
      return k;
    }
  }
}

fn any_kind(r: &mut Rng) -> K {
  match r.below(11) {
    0 => K::A,
    1 => K::B,
    2 => K::C,
    3 => K::D,
    4 | 5 => K::Num(*r.pick(&[0, 1, 3, 9, 10, 11, 42])),
    6 => K::Op(*r.pick(&['+', '-', '*'])),
    7 | 8 => K::Id(r.pick(&["if", "x", "ab"]).to_string()),
    9 => K::Semi,
    _ => K::Comma,
  }
}

struct Ref<'a> {
  g: &'a Gram,
  toks: &'a [K],
  /// Tokens before this one have been looked at.
  seen: Cell<usize>,
}

impl Ref<'_> {
  fn at(&self, i: usize) -> &K {
    self.seen.set(self.seen.get().max(i + 1));
    &self.toks[i.min(self.toks.len() - 1)]
  }

  fn may(&self, t: &Ty, i: usize) -> bool {
    use Ty::*;
    match t {
      Tok(k) => term_ok(*k, self.at(i)),
      Opt(_) | Vec(_) | SepSeq(..) | OptSepSeq(..) | SepList(..) | OptSepList(..) | Mark => true,
      Boxed(t) | NeSeq(t) | NeSepSeq(t, _) | NeOptSepSeq(t, _) | NeSepList(t, _) | NeOptSepList(t, _) | Quoted(t, _, _) => self.may(t, i),
      OptPrefix(p, t) => self.may(p, i) || self.may(t, i),
      OptTokPrefix(k, t) => self.may(t, i + term_ok(*k, self.at(i)) as usize),
      TokPrefix(k, t) => term_ok(*k, self.at(i)) && self.may(t, i + 1),
      Tuple(v) => self.may(&v[0], i),
      Named(n) => {
        let n = &self.g.named[*n];
        if !n.starts.is_empty() {
          return n.starts.iter().enumerate().all(|(d, k)| term_ok(*k, self.at(i + d)));
        }
        n.variants.iter().any(|v| self.may_fields(&v.1, i))
      }
    }
  }

  fn may_fields(&self, f: &[Ty], i: usize) -> bool {
    f.first().map_or(true, |t| self.may(t, i))
  }

  /// `Err`: index of the token that is not allowed.
  fn parse(&self, t: &Ty, i: usize) -> Result<(Tree, usize), usize> {
    use Ty::*;
    match t {
      Tok(k) => {
        if term_ok(*k, self.at(i)) {
          Ok((Tree::Tok(place(i.min(self.toks.len() - 1)).0, format!("{:?}", self.at(i)), vec![]), i + 1))
        } else {
          Err(i)
        }
      }
      Opt(t) => self.option(t, i),
      Boxed(t) => self.parse(t, i),
      Vec(t) => self.repeat(t, None, i, false, false),
      NeSeq(t) => self.repeat(t, None, i, true, false),
      SepSeq(t, s) => self.repeat(t, Some(s), i, false, false),
      NeSepSeq(t, s) => self.repeat(t, Some(s), i, true, false),
      OptSepSeq(t, s) => self.repeat(t, Some(s), i, false, true),
      NeOptSepSeq(t, s) => self.repeat(t, Some(s), i, true, true),
      NeSepList(t, s) => self.list(t, s, i, false),
      NeOptSepList(t, s) => self.list(t, s, i, true),
      SepList(a, s) | OptSepList(a, s) if self.may(a, i) => {
        let (x, i) = self.list(a, s, i, matches!(t, OptSepList(..)))?;
        Ok((Tree::node(90, vec![x]), i))
      }
      SepList(..) | OptSepList(..) => Ok((Tree::node(90, vec![]), i)),
      Quoted(a, b, c) => self.sequence(&[(**a).clone(), (**b).clone(), (**c).clone()], 93, i),
      OptPrefix(p, t) => self.sequence(&[Opt(p.clone()), (**t).clone()], 93, i),
      OptTokPrefix(p, t) => self.sequence(&[Opt(Box::new(Tok(*p))), (**t).clone()], 93, i),
      TokPrefix(p, t) => self.sequence(&[Tok(*p), (**t).clone()], 93, i),
      Tuple(v) => self.sequence(v, 93, i),
      Mark => Ok((Tree::node(94, vec![]), i)),
      Named(n) => {
        let n = &self.g.named[*n];
        let last = n.variants.len() - 1;
        let k = (0..last).find(|k| self.may_fields(&n.variants[*k].1, i)).unwrap_or(last);
        self.sequence(&n.variants[k].1, k, i)
      }
    }
  }

  fn option(&self, t: &Ty, i: usize) -> Result<(Tree, usize), usize> {
    if !self.may(t, i) {
      return Ok((Tree::node(90, vec![]), i));
    }
    let (x, i) = self.parse(t, i)?;
    Ok((Tree::node(90, vec![x]), i))
  }

  fn sequence(&self, v: &[Ty], label: usize, mut i: usize) -> Result<(Tree, usize), usize> {
    let mut o = Vec::new();
    for t in v {
      let (x, j) = self.parse(t, i)?;
      o.push(x);
      i = j;
    }
    Ok((Tree::node(label, o), i))
  }

  /// Repetition; `sep`: separated, separators are dropped; `trail`: the last may be followed by one.
  fn repeat(&self, t: &Ty, sep: Option<&Ty>, mut i: usize, one: bool, trail: bool) -> Result<(Tree, usize), usize> {
    let mut o = Vec::new();
    if one || self.may(t, i) {
      loop {
        let (x, j) = self.parse(t, i)?;
        o.push(x);
        i = j;
        if let Some(s) = sep {
          if !self.may(s, i) {
            break;
          }
          i = self.parse(s, i)?.1;
          if trail && !self.may(t, i) {
            break;
          }
        } else if !self.may(t, i) {
          break;
        }
      }
    }
    Ok((Tree::node(91, o), i))
  }

  /// Separated list that keeps its separators.
  fn list(&self, t: &Ty, s: &Ty, mut i: usize, trail: bool) -> Result<(Tree, usize), usize> {
    let mut o = Vec::new();
    loop {
      let (x, j) = self.parse(t, i)?;
      o.push(x);
      i = j;
      if !self.may(s, i) {
        break;
      }
      let (x, j) = self.parse(s, i)?;
      o.push(x);
      i = j;
      if trail && !self.may(t, i) {
        break;
      }
    }
    Ok((Tree::node(92, o), i))
  }
}

/// A token sequence of the element, as far as `fuel` goes.
fn member(g: &Gram, t: &Ty, r: &mut Rng, fuel: &mut i64, out: &mut Vec<K>) {
  use Ty::*;
  *fuel -= 1;
  if *fuel < -300 {
    return;
  }
  let many = |r: &mut Rng, fuel: &i64| if *fuel < 0 { 0 } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
  let seq = |v: &[&Ty], r: &mut Rng, fuel: &mut i64, out: &mut std::vec::Vec<K>| {
    for t in v {
      member(g, t, r, fuel, out);
    }
  };
  let form = t;
  match t {
    Mark => {}
    Tok(k) => out.push(term_kind(*k, r)),
    Opt(t) => {
      if *fuel > 0 && r.bool() {
        member(g, t, r, fuel, out);
      }
    }
    Boxed(t) => member(g, t, r, fuel, out),
    Vec(t) => {
      for _ in 0..many(r, fuel) {
        member(g, t, r, fuel, out);
      }
    }
    NeSeq(t) => {
      for _ in 0..many(r, fuel).max(1) {
        member(g, t, r, fuel, out);
      }
    }
    SepSeq(t, s) | OptSepSeq(t, s) | SepList(t, s) | OptSepList(t, s) | NeSepSeq(t, s) | NeOptSepSeq(t, s) | NeSepList(t, s) | NeOptSepList(t, s) => {
      let least = matches!(form, NeSepSeq(..) | NeOptSepSeq(..) | NeSepList(..) | NeOptSepList(..)) as usize;
      let trail = matches!(form, OptSepSeq(..) | OptSepList(..) | NeOptSepSeq(..) | NeOptSepList(..));
      let n = many(r, fuel).max(least);
      for k in 0..n {
        member(g, t, r, fuel, out);
        if k + 1 < n || r.chance(if trail { 4 } else { 1 }, 9) {
          member(g, s, r, fuel, out);
        }
      }
    }
    Quoted(a, b, c) => seq(&[a, b, c], r, fuel, out),
    OptPrefix(p, t) => {
      if r.bool() {
        member(g, p, r, fuel, out);
      }
      member(g, t, r, fuel, out);
    }
    OptTokPrefix(p, t) => {
      if r.bool() {
        out.push(term_kind(*p, r));
      }
      member(g, t, r, fuel, out);
    }
    TokPrefix(p, t) => {
      out.push(term_kind(*p, r));
      member(g, t, r, fuel, out);
    }
    Tuple(v) => seq(&v.iter().collect::<std::vec::Vec<_>>(), r, fuel, out),
    Named(i) => {
      let n = &g.named[*i];
      let v = if *fuel < 0 { n.variants.iter().min_by_key(|v| v.1.len()).unwrap() } else { r.pick(&n.variants) };
      seq(&v.1.iter().collect::<std::vec::Vec<_>>(), r, fuel, out);
    }
  }
}

// ---------------------------------------------------------------- parsing (A01-A04)

fn grammar() -> &'static Gram {
  static G: OnceLock<Gram> = OnceLock::new();
  G.get_or_init(|| gram(generated::SEED, generated::THOROUGH))
}

pub struct Job<'a> {
  prop: &'static str,
  name: String,
  toks: &'a [K],
  /// Tokens taken before the element.
  skip: usize,
  /// Tokens looked at before.
  ahead: usize,
  /// Look-ahead tests before parsing.
  asks: usize,
  mini: bool,
  may: bool,
  /// Tokens that asking whether the element may start, and parsing it, needs to know.
  seen_may: usize,
  seen: usize,
  want: Result<(Tree, usize), usize>,
  spans: u64,
  empties: u64,
  /// The text the tokens come from.
  front: Option<front::Text>,
}

fn rest<TS, Kd>(ts: &mut TS, toks: &[Kd], from: usize) -> Result<(), String>
where
  TS: TokenStream<Token = Token<Kd>>,
  Kd: Clone + PartialEq + Debug,
{
  let root = Span::new(FileType::Buffer);
  for i in from..toks.len() + 2 {
    let t = guard(|| ts.next_token())?.map_err(|e| format!("reading token {i} gives {e:?}"))?;
    let j = i.min(toks.len() - 1);
    let s = place_span(&root, j);
    if t.kind != toks[j] || (t.span.start(), t.span.end()) != (s.start(), s.end()) {
      return Err(format!("token {i} is now {:?} at {:?}, expected {:?} at {:?}", t.kind, t.span.start(), toks[j], s.start()));
    }
  }
  Ok(())
}

pub fn go<T>(job: &mut Job, dump: fn(&T) -> Tree) -> Result<(), String>
where
  T: Parse<Buf<K>> + Parse<Mini<K>> + Parse<front::Stream>,
{
  if let Some(f) = job.front.take() {
    return front::attempt::<T>(job, dump, f);
  }
  let src = || Src::new(job.toks.to_vec());
  if job.mini {
    attempt::<T, _>(job, dump, |s| Mini { src: s, back: vec![] }, src())
  } else {
    attempt::<T, _>(job, dump, |s| TokenBuffer::new(s), src())
  }
}

fn attempt<T, TS>(job: &mut Job, dump: fn(&T) -> Tree, make: impl Fn(Src<K>) -> TS, src: Src<K>) -> Result<(), String>
where
  TS: TokenStream<Token = Token<K>>,
  T: Parse<TS>,
{
  let root = src.span.clone();
  let name = job.name.clone();
  let start = |src: Src<K>| -> Result<TS, String> {
    let mut ts = make(src);
    for _ in 0..job.skip {
      ts.next_token().map_err(|e| format!("{e:?}"))?;
    }
    if job.ahead > 0 {
      ts.peek_n(job.ahead).map_err(|e| format!("{e:?}"))?;
    }
    Ok(ts)
  };
  if job.prop == "A05" {
    let taken = src.taken.clone();
    let mut ts = start(src)?;
    let before = job.skip + job.ahead;
    for _ in 0..job.asks {
      let _ = guard(|| T::maybe(&mut ts)).map_err(|p| format!("asking whether {name} may start caused a {p}"))?;
      let (n, most) = (taken.get(), job.seen_may.max(before));
      ensure!(n <= most, "asking whether {name} may start takes {n} tokens from the tokenizer, {most} decide it");
    }
    let r = guard(|| T::parse(&mut ts)).map_err(|p| format!("parsing {name} caused a {p}"))?;
    if r.is_ok() == job.want.is_ok() {
      let (n, most) = (taken.get(), job.seen.max(before));
      ensure!(n <= most, "parsing {name} takes {n} tokens from the tokenizer, {most} decide it");
    }
    return Ok(());
  }
  if job.prop == "A02" {
    let mut ts = start(Src::new(job.toks.to_vec()))?;
    for _ in 0..job.asks + 1 {
      let m = guard(|| T::maybe(&mut ts)).map_err(|p| format!("asking whether {name} may start caused a {p}"))?;
      ensure!(m == Ok(job.may), "asking whether {name} may start gives {m:?}, expected {}", job.may);
    }
    rest(&mut ts, job.toks, job.skip).map_err(|e| format!("after asking whether {name} may start, {e}"))?;
    if !job.may {
      let mut ts = start(Src::new(job.toks.to_vec()))?;
      let r = guard(|| T::parse(&mut ts)).map_err(|p| format!("parsing {name} caused a {p}"))?;
      ensure!(r.is_err(), "{name} may not start here, but parsing it succeeds");
    }
    return Ok(());
  }
  let mut ts = start(src)?;
  for _ in 0..job.asks {
    let _ = guard(|| T::maybe(&mut ts)).map_err(|p| format!("asking whether {name} may start caused a {p}"))?;
  }
  let r = guard(|| T::parse(&mut ts)).map_err(|p| format!("parsing {name} caused a {p}"))?;
  let tree = match &r {
    Ok(t) => Ok(guard(|| dump(t)).map_err(|p| format!("looking at the tree of {name} caused a {p}"))?),
    Err(e) => Err(e.clone()),
  };
  if job.prop == "A04" {
    if let Ok(t) = &tree {
      return spans(t, job).map(|_| ());
    }
    return Ok(());
  }
  match (&job.want, tree) {
    (Ok((want, end)), Ok(t)) => {
      let (want, t) = (format!("{want:?}"), format!("{t:?}"));
      ensure!(want == t, "parsing {name} gives {t}, expected {want}");
      rest(&mut ts, job.toks, *end).map_err(|e| format!("after parsing {name}, {e}"))
    }
    (Err(at), Err(e)) => {
      let at = (*at).min(job.toks.len() - 1);
      let Error::Normal(m) = &e else { return Err(format!("parsing {name} gives {e:?}, which is fatal")) };
      let l = place(at).0;
      let prefix = format!("<buffer>:{}:{}: ", l.line, l.col);
      ensure!(m.starts_with(&prefix), "parsing {name} fails with {m:?}, expected an error at token {at}: {prefix:?}");
      ensure!(root.error_num() == 1, "parsing {name} fails and counts {} errors", root.error_num());
      // the failing token may be consumed or not
      let t = guard(|| ts.next_token())?.map_err(|e| format!("reading on after {name} failed gives {e:?}"))?;
      let i = t.span.start().line as usize - 1;
      let last = job.toks.len() - 1;
      ensure!(i == at || i == (at + 1).min(last), "after {name} failed at token {at}, token {i} is next");
      rest(&mut ts, job.toks, i + 1).map_err(|e| format!("after {name} failed, {e}"))
    }
    (Ok((want, _)), Err(e)) => Err(format!("parsing {name} fails with {e:?}, expected {want:?}")),
    (Err(at), Ok(t)) => Err(format!("parsing {name} gives {t:?}, expected a failure at token {at}")),
  }
}

/// Compares observed spans with the stored tokens; returns first and last.
fn spans(t: &Tree, job: &mut Job) -> Result<Option<(usize, usize)>, String> {
  let (range, seen) = match t {
    Tree::Tok(l, _, s) => (Some((index_of(*l), index_of(*l))), s),
    Tree::Node(_, kids, s) => {
      let mut r: Option<(usize, usize)> = None;
      for k in kids {
        if let Some((a, b)) = spans(k, job)? {
          r = Some(r.map_or((a, b), |(x, _)| (x, b)));
        }
      }
      (r, s)
    }
  };
  for s in seen {
    let want = range.map(|(a, b)| (place(a).0, place(b).1));
    ensure!(*s == want, "in {} the span of {t:?} is {s:?}, expected {want:?}", job.name);
    job.spans += 1;
    job.empties += want.is_none() as u64;
  }
  Ok(range)
}

/// Tokens of the element, or nearly, or any, and others behind them.
fn tokens(c: &mut Case, g: &Gram, ty: &Ty, skip: usize, toks: &mut Vec<K>) {
  let how = c.rng.below(10);
  if how < 8 {
    let mut fuel = *c.rng.pick(&[3, 8, 20, 60]);
    member(g, ty, &mut c.rng, &mut fuel, toks);
    toks.truncate(skip + 400);
  } else {
    for _ in 0..c.rng.below(9) {
      toks.push(any_kind(&mut c.rng));
    }
  }
  if (4..8).contains(&how) {
    for _ in 0..c.rng.range(1, 2) {
      let n = toks.len();
      let i = c.rng.range(skip.min(n), n);
      let k = any_kind(&mut c.rng);
      match c.rng.below(5) {
        0 if i < n => drop(toks.remove(i)),
        1 => toks.insert(i, k),
        2 if i + 1 < n => toks.swap(i, i + 1),
        3 => toks.truncate(i),
        _ if i < n => toks[i] = k,
        _ => toks.push(k),
      }
    }
  }
  for _ in 0..*c.rng.pick(&[0, 0, 1, 2, 4]) {
    toks.push(any_kind(&mut c.rng));
  }
}

/// A syntax element written by hand: a number.
#[derive(Clone, Debug, PartialEq)]
struct Number(u32);

impl<TS: TokenStream<Token = Token<K>>> Parse<TS> for Number {
  fn parse(ts: &mut TS) -> laps::span::Result<Self> {
    let t = ts.next_token()?;
    match t.kind {
      K::Num(n) => Ok(Number(n)),
      _ => Err(laps::log_error!(t.span, "expected a number")),
    }
  }
  fn maybe(ts: &mut TS) -> laps::span::Result<bool> {
    Ok(matches!(ts.peek()?.kind, K::Num(_)))
  }
}

/// Another: a comma.
#[derive(Clone, Debug, PartialEq)]
struct Sep;

impl<TS: TokenStream<Token = Token<K>>> Parse<TS> for Sep {
  fn parse(ts: &mut TS) -> laps::span::Result<Self> {
    ts.expect(K::Comma).map(|_| Sep)
  }
  fn maybe(ts: &mut TS) -> laps::span::Result<bool> {
    Ok(ts.peek()?.kind == K::Comma)
  }
}

/// How many elements a long sequence has and how many tokens it takes, if it can be read.
fn long_form(form: usize, toks: &[K]) -> Option<(usize, usize)> {
  let num = |i: usize| matches!(toks.get(i), Some(K::Num(_)));
  let comma = |i: usize| toks.get(i) == Some(&K::Comma);
  // at least one element, separators, a trailing separator allowed
  let (some, seps, trail) = [(true, false, false), (false, true, false), (true, true, false), (false, true, true), (true, true, true), (false, true, false), (true, true, false), (false, true, true), (true, true, true), (false, false, false)][form];
  if !num(0) {
    return if some { None } else { Some((0, 0)) };
  }
  let (mut n, mut i) = (1, 1);
  loop {
    match (seps, num(i), comma(i)) {
      (false, true, _) => i += 1,
      (true, _, true) if num(i + 1) => i += 2,
      (true, _, true) if trail => return Some((n, i + 1)),
      (true, _, true) => return None,
      _ => return Some((n, i)),
    }
    n += 1;
  }
}

/// What is read comes out of every way to go through a sequence, however long it is.
fn iterate(c: &mut Case) -> Verdict {
  let form = c.rng.below(10);
  let most = if (form < 5 || form == 9) && c.rng.chance(1, 100) { 5000 } else { *c.rng.pick(&[4, 40, 40, 300]) };
  let n = c.rng.range(0, most);
  let mut toks = Vec::new();
  for i in 0..n {
    toks.push(K::Num(c.rng.u64() as u32));
    if form > 0 && form < 9 && (i + 1 < n || c.rng.chance(1, 3)) {
      toks.push(K::Comma);
    }
  }
  // a slip somewhere, most often in the second half
  if !toks.is_empty() && c.rng.chance(1, 3) {
    let k = toks.len();
    let from = if c.rng.bool() { k / 2 } else { 0 };
    let i = c.rng.range(from, k - 1);
    match c.rng.below(3) {
      0 => drop(toks.remove(i)),
      1 => toks.insert(i, toks[i].clone()),
      _ => toks[i] = c.rng.pick(&[K::Comma, K::Semi, K::Num(5)]).clone(),
    }
  }
  if c.rng.chance(1, 3) {
    toks.push(K::Semi);
  }
  toks.push(K::Eof);
  let text = show_toks(&toks);
  let want = long_form(form, &toks);
  let values: Vec<u32> = match want {
    Some((_, e)) => toks[..e].iter().filter_map(|t| if let K::Num(n) = t { Some(*n) } else { None }).collect(),
    None => Vec::new(),
  };
  c.distinct(&format!("{form}:{text}"));
  c.count("sequences gone through", 1);
  let next = want.map(|(_, e)| toks[e].clone());
  let mut ts = TokenBuffer::new(Src::new(toks));
  macro_rules! read {
    ($t:ty) => {
      match (guard(|| ts.parse::<$t>())?, want) {
        (Ok(s), Some((n, e))) => {
          let rest = ts.peek().map_err(|e| format!("{e:?}"))?;
          ensure!(values.len() == n && Some(&rest.kind) == next.as_ref() && rest.span.start() == place(e).0, "{} of {text} leaves {rest:?} next, expected token {e}", stringify!($t));
          s
        }
        (Ok(_), None) => return Err(format!("{} reads {text}, which is none", stringify!($t))),
        (Err(_), None) => {
          c.evals(1);
          return Ok(());
        }
        (Err(e), Some((n, _))) => return Err(format!("{} does not read the {n} elements of {text}: {e:?}", stringify!($t))),
      }
    };
  }
  macro_rules! go {
    ($t:ty) => {{
      let mut s = read!($t);
      let by_ref: Vec<u32> = (&s).into_iter().map(|x| x.0).collect();
      ensure!(by_ref == values, "{} of {text} gives {by_ref:?} by reference", stringify!($t));
      for x in &mut s {
        x.0 = !x.0;
      }
      let back: Vec<u32> = s.clone().into_iter().rev().map(|x| !x.0).collect();
      ensure!(back.iter().rev().eq(&values), "{} of {text} gives {back:?} backwards by value after all were inverted in place", stringify!($t));
      let fields: Vec<u32> = s.0.iter().map(|x| !x.0).collect();
      ensure!(fields == values, "{} of {text} holds {fields:?}", stringify!($t));
      let by_value: Vec<u32> = s.into_iter().map(|x| !x.0).collect();
      ensure!(by_value == values, "{} of {text} gives {by_value:?} by value", stringify!($t));
    }};
  }
  // the linked lists, walked along their links
  fn sep(mut l: &NonEmptySepList<Number, Sep>) -> Vec<u32> {
    let mut v = Vec::new();
    loop {
      match l {
        NonEmptySepList::One(t) => v.push(t.0),
        NonEmptySepList::More(t, _, rest) => {
          v.push(t.0);
          l = rest;
          continue;
        }
      }
      return v;
    }
  }
  fn opt(mut l: &NonEmptyOptSepList<Number, Sep>) -> (Vec<u32>, bool) {
    let mut v = Vec::new();
    loop {
      match l {
        NonEmptyOptSepList::One(t) => v.push(t.0),
        NonEmptyOptSepList::OneWithSep(t, _) => {
          v.push(t.0);
          return (v, true);
        }
        NonEmptyOptSepList::More(t, _, rest) => {
          v.push(t.0);
          l = rest;
          continue;
        }
      }
      return (v, false);
    }
  }
  let trailing = matches!(want, Some((n, e)) if n > 0 && e == 2 * n);
  match form {
    0 => go!(NonEmptySeq<Number>),
    1 => go!(SepSeq<Number, Sep>),
    2 => go!(NonEmptySepSeq<Number, Sep>),
    3 => go!(OptSepSeq<Number, Sep>),
    4 => go!(NonEmptyOptSepSeq<Number, Sep>),
    5 | 6 => {
      let got = if form == 5 { read!(SepList<Number, Sep>).as_ref().map_or(Vec::new(), sep) } else { sep(&read!(NonEmptySepList<Number, Sep>)) };
      ensure!(got == values, "the list of {text} holds {got:?}");
    }
    9 => {
      let got: Vec<u32> = read!(Vec<Number>).iter().map(|x| x.0).collect();
      ensure!(got == values, "the elements of {text} are {got:?}");
    }
    _ => {
      let (got, t) = if form == 7 { read!(OptSepList<Number, Sep>).as_ref().map_or((Vec::new(), false), opt) } else { opt(&read!(NonEmptyOptSepList<Number, Sep>)) };
      ensure!(got == values && t == trailing, "the list of {text} holds {got:?}, a last separator: {t}");
    }
  }
  c.evals(1);
  Ok(())
}

/// A number that keeps its token.
#[derive(Clone, Debug, PartialEq)]
struct Placed(Token<K>);

impl<TS: TokenStream<Token = Token<K>>> Parse<TS> for Placed {
  fn parse(ts: &mut TS) -> laps::span::Result<Self> {
    let t = ts.next_token()?;
    match t.kind {
      K::Num(_) => Ok(Placed(t)),
      _ => Err(laps::log_error!(t.span, "expected a number")),
    }
  }
  fn maybe(ts: &mut TS) -> laps::span::Result<bool> {
    Ok(matches!(ts.peek()?.kind, K::Num(_)))
  }
}

impl Spanned for Placed {
  fn span(&self) -> Span {
    self.0.span()
  }
}

/// A semicolon.
#[derive(Clone, Debug, PartialEq)]
struct Stop;

impl<TS: TokenStream<Token = Token<K>>> Parse<TS> for Stop {
  fn parse(ts: &mut TS) -> laps::span::Result<Self> {
    ts.expect(K::Semi).map(|_| Stop)
  }
  fn maybe(ts: &mut TS) -> laps::span::Result<bool> {
    Ok(ts.peek()?.kind == K::Semi)
  }
}

/// Sequences many of whose elements hold no token, at either end above all.
fn gaps(c: &mut Case) -> Verdict {
  let form = c.rng.below(5);
  let n = c.rng.range(1, 40);
  let (lo, hi) = (c.rng.range(0, n), c.rng.range(0, n));
  let mut toks = Vec::new();
  let mut held = Vec::new();
  for i in 0..n {
    if i > 0 {
      toks.push(K::Comma);
    }
    let filled = (lo.min(hi)..lo.max(hi)).contains(&i) && c.rng.chance(2, 3);
    for k in 0..if !filled { 0 } else if form < 2 { 1 } else { c.rng.range(1, 3) } {
      if k > 0 && form > 2 {
        toks.push(K::Semi);
      }
      held.push(toks.len());
      toks.push(K::Num(c.rng.u64() as u32));
    }
  }
  toks.push(K::Eof);
  let text = show_toks(&toks);
  c.distinct(&format!("{form}:{text}"));
  c.count("sequences with empty elements", 1);
  let want = held.first().map(|f| (place(*f).0, place(*held.last().unwrap()).1));
  let mut ts = TokenBuffer::new(Src::new(toks));
  macro_rules! go {
    ($t:ty) => {{
      let s: $t = guard(|| ts.parse())?.map_err(|e| format!("{} does not read {text}: {e:?}", stringify!($t)))?;
      let got = s.try_span().map(|s| (s.start(), s.end()));
      ensure!(got == want, "{} of {text} has the span {got:?}, its tokens run over {want:?}", stringify!($t));
      let inner = s.0.try_span().map(|s| (s.start(), s.end()));
      ensure!(inner == want, "the elements of {} of {text} have the span {inner:?}, its tokens run over {want:?}", stringify!($t));
      let some = Some(s).try_span().map(|s| (s.start(), s.end()));
      ensure!(some == want, "Some of {} of {text} has the span {some:?}, its tokens run over {want:?}", stringify!($t));
    }};
  }
  match form {
    0 => go!(SepSeq<Option<Placed>, Sep>),
    1 => go!(OptSepSeq<Option<Placed>, Sep>),
    2 => go!(OptSepSeq<Vec<Placed>, Sep>),
    3 => go!(SepSeq<SepSeq<Placed, Stop>, Sep>),
    _ => go!(SepSeq<Option<NonEmptySepSeq<Placed, Stop>>, Sep>),
  }
  c.evals(1);
  Ok(())
}

fn run(c: &mut Case, prop: &'static str) -> Verdict {
  if prop == "A04" && c.rng.chance(1, 40) {
    return gaps(c);
  }
  if prop == "A01" && c.rng.chance(1, 40) {
    return iterate(c);
  }
  let g = grammar();
  let named = g.named.len();
  let id = match prop {
    "A01" => c.rng.range(named, g.roots.len() - 1),
    "A03" => c.rng.below(named),
    _ if c.rng.bool() => c.rng.below(named),
    _ => c.rng.range(named, g.roots.len() - 1),
  };
  let ty = &g.roots[id];
  let mut toks = Vec::new();
  let skip = if c.rng.chance(1, 4) { c.rng.range(1, 3) } else { 0 };
  for _ in 0..skip {
    toks.push(any_kind(&mut c.rng));
  }
  tokens(c, g, ty, skip, &mut toks);
  toks.push(K::Eof);
  let r = Ref { g, toks: &toks, seen: Cell::new(skip) };
  let may = r.may(ty, skip);
  let seen_may = r.seen.get();
  let want = r.parse(ty, skip);
  let seen = r.seen.get();
  let text = show_toks(&toks);
  let name = format!("type {id} `{}` at token {skip} of {text}", full_type(g, ty));
  c.sample(|| name.clone());
  let ok = want.is_ok();
  let took = want.as_ref().map_or(0, |w| w.1 - skip);
  let empty = !may && g.nullable(ty);
  ensure!(!empty, "harness: {name} may be empty but may not start");
  let mut job = Job {
    prop,
    name,
    toks: &toks,
    skip,
    ahead: if c.rng.chance(1, 3) { c.rng.range(1, 4) } else { 0 },
    asks: c.rng.below(3),
    mini: c.rng.chance(1, 3),
    may,
    seen_may,
    seen,
    want,
    spans: 0,
    empties: 0,
    front: None,
  };
  let r = generated::root(id, &mut job);
  let (s, e) = (job.spans, job.empties);
  r?;
  c.evals(1);
  c.count("successful parses", ok as u64);
  c.count("failing parses", !ok as u64);
  c.count("tokens taken", took as u64);
  c.count("may start", may as u64);
  c.count("may not start", !may as u64);
  c.count("spans observed", s);
  c.count("empty elements observed", e);
  let weight = if prop == "A04" { ok && s > 0 } else { toks.len() > 1 };
  if weight {
    c.distinct(&format!("{id}:{text}"));
  }
  Ok(())
}

fn show_toks(toks: &[K]) -> String {
  let v: Vec<String> = toks
    .iter()
    .map(|k| match k {
      K::Num(n) => n.to_string(),
      K::Op(c) => c.to_string(),
      K::Id(s) => s.clone(),
      K::Semi => ";".into(),
      K::Comma => ",".into(),
      k => format!("{k:?}"),
    })
    .collect();
  v.join(" ")
}

/// The type, with the definitions it needs.
fn full_type(g: &Gram, t: &Ty) -> String {
  let mut out = g.ty(t);
  if let Ty::Named(i) = t {
    let n = &g.named[*i];
    let vs: Vec<String> = n.variants.iter().map(|v| format!("({})", v.1.iter().map(|t| g.ty(t)).collect::<Vec<_>>().join(", "))).collect();
    out += &format!(" = {}{}", vs.join(" | "), if n.starts.is_empty() { String::new() } else { format!(" starting with {:?}", n.starts.iter().map(|k| TERMS[*k].0).collect::<Vec<_>>()) });
  }
  if out.chars().count() > 600 {
    out = out.chars().take(600).collect::<String>() + "…";
  }
  out
}

// ---------------------------------------------------------------- token kinds and elements (T03, T04)

/// Variant, number of the value, its texts.
pub type Info = (usize, i64, Option<(String, String)>);

pub trait KindOps: Clone + PartialEq + Debug + std::fmt::Display + 'static {
  fn make(v: usize, r: &mut Rng) -> Self;
  fn info(&self) -> Info;
  fn convs(&self) -> Result<(), String>;
}

pub trait Val: Sized {
  fn gen(r: &mut Rng) -> Self;
  fn num(&self) -> i64;
}

macro_rules! val_int {
  ($($t:ty, $lo:expr);*) => { $(
    impl Val for $t {
      fn gen(r: &mut Rng) -> Self {
        match r.below(8) {
          0 => r.u64() as $t,
          1 => *r.pick(&[<$t>::MIN, <$t>::MAX]),
          _ => (r.below(9) as i64 + $lo) as $t,
        }
      }
      fn num(&self) -> i64 {
        (*self as i64).max(-i64::MAX)
      }
    }
  )* };
}
val_int!(u8, 0; u32, 0; i64, -3);

impl Val for String {
  fn gen(r: &mut Rng) -> Self {
    (0..r.below(5)).map(|_| *r.pick(&['a', '{', '}', '`', ' ', '漢', '\n', 'Z'])).collect()
  }
  fn num(&self) -> i64 {
    self.len() as i64
  }
}
impl Val for char {
  fn gen(r: &mut Rng) -> Self {
    if r.chance(1, 6) {
      *r.pick(&['\0', '{', '漢', '\u{10ffff}', 'Z', '`'])
    } else {
      char::from_u32(r.range(97, 103) as u32).unwrap()
    }
  }
  fn num(&self) -> i64 {
    *self as i64
  }
}
impl Val for bool {
  fn gen(r: &mut Rng) -> Self {
    r.bool()
  }
  fn num(&self) -> i64 {
    *self as i64
  }
}
impl Val for f64 {
  fn gen(r: &mut Rng) -> Self {
    *r.pick(&[0.0, -0.0, 1.5, 1e300, -2.25, f64::INFINITY, f64::MIN_POSITIVE])
  }
  fn num(&self) -> i64 {
    0
  }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Pt(i64, String);

impl std::fmt::Display for Pt {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "<{} {}>", self.0, self.1)
  }
}
impl Val for Pt {
  fn gen(r: &mut Rng) -> Self {
    Pt(Val::gen(r), Val::gen(r))
  }
  fn num(&self) -> i64 {
    0
  }
}

pub fn same(ok: bool, what: &str) -> Result<(), String> {
  if ok {
    Ok(())
  } else {
    Err(what.to_string())
  }
}

fn kind_defs() -> &'static [kinds::KindDef] {
  static D: OnceLock<Vec<kinds::KindDef>> = OnceLock::new();
  D.get_or_init(|| kinds::kinds(generated::SEED, generated::THOROUGH))
}

pub struct KindJob<'a> {
  c: &'a mut Case,
  def: &'static kinds::KindDef,
}

fn words(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// The description of a variant, its words separated by one space, in lower case.
fn description(v: &kinds::Var) -> String {
  let docs = v.docs.join("\n");
  let docs = docs.trim();
  if docs.is_empty() {
    let mut s = String::new();
    for c in v.name.chars() {
      if c.is_ascii_uppercase() {
        s.push(' ');
      }
      s.push(c);
    }
    return words(&s).to_lowercase();
  }
  words(docs.strip_suffix('.').unwrap_or(docs)).to_lowercase()
}

pub fn kind<Kd: KindOps>(job: &mut KindJob) -> Result<(), String> {
  let c = &mut *job.c;
  let v = c.rng.below(job.def.vars.len());
  let var = &job.def.vars[v];
  let k = guard(|| Kd::make(v, &mut c.rng))?;
  let (w, _, value) = k.info();
  ensure!(v == w, "harness: variant {v} is made as {w}");
  let what = || format!("{k:?} of {:?}", job.def.vars);
  guard(|| k.convs()).map_err(|p| format!("converting {} caused a {p}", what()))?.map_err(|e| format!("{e} gives a wrong result for {}", what()))?;
  let got = guard(|| k.to_string()).map_err(|p| format!("describing {} caused a {p}", what()))?;
  let desc = match &value {
    Some((shown, _)) => {
      let Some(d) = got.strip_suffix(&format!(" `{shown}`")) else {
        return Err(format!("the description {got:?} does not end with the quoted value {shown:?}: {}", what()));
      };
      d
    }
    None => &got[..],
  };
  ensure!(!desc.contains(|c: char| c.is_ascii_uppercase()), "the description {got:?} is not in lower case: {}", what());
  let want = description(var);
  ensure!(words(desc).to_lowercase() == want, "the description is {desc:?}, expected {want:?}: {}", what());
  c.evals(1);
  c.count("descriptions by documentation", !var.docs.concat().trim().is_empty() as u64);
  c.count("conversions of values", value.is_some() as u64);
  c.distinct(&format!("{:?}:{k:?}", var));
  c.sample(|| format!("{k:?} -> {got:?}"));
  Ok(())
}

pub struct ElemJob<'a> {
  c: &'a mut Case,
  def: &'static kinds::KindDef,
  j: usize,
}

fn accepts(e: &kinds::Elem, i: &Info) -> bool {
  e.pred.iter().any(|(v, lo, hi)| *v == i.0 && *lo <= i.1 && i.1 <= *hi)
}

pub fn elem<E, Kd>(
  job: &mut ElemJob,
  want: &str,
  held: fn(&E) -> Token<Kd>,
  unwrap: Option<fn(E) -> (String, String)>,
  look_buf: fn(&mut Buf<Kd>) -> laps::span::Result<bool>,
  look_mini: fn(&mut Mini<Kd>) -> laps::span::Result<bool>,
) -> Result<(), String>
where
  Kd: KindOps,
  E: Parse<Buf<Kd>> + Parse<Mini<Kd>> + laps::span::Spanned,
{
  let (def, j) = (job.def, job.j);
  let e = &def.elems[j];
  let f = &def.elems[(j + 1) % def.elems.len()];
  let n = job.c.rng.range(2, 6);
  let mut toks: Vec<Kd> = Vec::new();
  for i in 0..n {
    // mostly something that could be accepted
    let v = if i < 2 && job.c.rng.chance(2, 3) {
      let e = if i == 0 { e } else { f };
      job.c.rng.pick(&e.pred).0
    } else {
      job.c.rng.below(def.vars.len())
    };
    let mut k = Kd::make(v, &mut job.c.rng);
    for _ in 0..10 {
      if i > 1 || accepts(if i == 0 { e } else { f }, &k.info()) || job.c.rng.bool() {
        break;
      }
      k = Kd::make(v, &mut job.c.rng);
    }
    toks.push(k);
  }
  let info = toks[0].info();
  let yes = accepts(e, &info);
  let both = yes && accepts(f, &toks[1].info());
  let name = format!("element [{}] `{}` at {toks:?}", e.tok, e.pat);
  let c = &mut *job.c;
  c.sample(|| name.clone());
  if c.rng.chance(1, 3) {
    elem_on::<E, Kd, _>(|| Mini { src: Src::new(toks.clone()), back: vec![] }, |t| t.src.span.clone(), want, held, unwrap, look_mini, &toks, yes, both, &name)?;
  } else {
    let root = Src::new(toks.clone()).span;
    let make = || {
      let mut s = Src::new(toks.clone());
      s.span = root.clone();
      TokenBuffer::new(s)
    };
    elem_on::<E, Kd, _>(make, |_| root.clone(), want, held, unwrap, look_buf, &toks, yes, both, &name)?;
  }
  c.evals(3);
  c.count("accepted tokens", yes as u64);
  c.count("rejected tokens", !yes as u64);
  c.count("accepted pairs", both as u64);
  c.count("unwrapped values", (yes && unwrap.is_some()) as u64);
  c.distinct(&format!("{:?}{:?}:{j}:{toks:?}", def.vars, def.elems));
  Ok(())
}

#[allow(clippy::too_many_arguments)]
fn elem_on<E, Kd, TS>(
  make: impl Fn() -> TS,
  root: impl Fn(&TS) -> Span,
  want: &str,
  held: fn(&E) -> Token<Kd>,
  unwrap: Option<fn(E) -> (String, String)>,
  look: fn(&mut TS) -> laps::span::Result<bool>,
  toks: &[Kd],
  yes: bool,
  both: bool,
  name: &str,
) -> Result<(), String>
where
  Kd: KindOps,
  TS: TokenStream<Token = Token<Kd>>,
  E: Parse<TS> + laps::span::Spanned,
{
  let mut ts = make();
  let m = guard(|| E::maybe(&mut ts)).map_err(|p| format!("testing {name} caused a {p}"))?;
  ensure!(m == Ok(yes), "testing {name} gives {m:?}, expected {yes}");
  rest(&mut ts, toks, 0).map_err(|e| format!("after testing {name}, {e}"))?;

  let mut ts = make();
  let m = guard(|| look(&mut ts)).map_err(|p| format!("looking ahead over {name} and the next one caused a {p}"))?;
  ensure!(m == Ok(both), "looking ahead over {name} and the next one gives {m:?}, expected {both}");
  rest(&mut ts, toks, 0).map_err(|e| format!("after looking ahead over {name}, {e}"))?;

  let mut ts = make();
  let root = root(&ts);
  let r = guard(|| E::parse(&mut ts)).map_err(|p| format!("parsing {name} caused a {p}"))?;
  match (r, yes) {
    (Ok(x), true) => {
      let t = held(&x);
      let at = place(0);
      let sp = x.span();
      ensure!(t.kind == toks[0], "parsing {name} holds {:?}", t.kind);
      ensure!((t.span.start(), t.span.end()) == at, "parsing {name} holds a token with span {:?}-{:?}, expected {at:?}", t.span.start(), t.span.end());
      ensure!((sp.start(), sp.end()) == at, "the span of {name} is {:?}-{:?}, expected {at:?}", sp.start(), sp.end());
      ensure!(root.error_num() == 0, "parsing {name} counts an error");
      if let Some(f) = unwrap {
        let v = toks[0].info().2.unwrap().1;
        let (a, b) = guard(|| f(x)).map_err(|p| format!("unwrapping {name} caused a {p}"))?;
        ensure!(a == v && b == v, "unwrapping {name} gives {a} by reference and {b} by value, expected {v}");
      }
      rest(&mut ts, toks, 1).map_err(|e| format!("after parsing {name}, {e}"))
    }
    (Err(e), false) => {
      let Error::Normal(m) = &e else { return Err(format!("parsing {name} gives {e:?}, which is fatal")) };
      let l = place(0).0;
      let prefix = format!("<buffer>:{}:{}: ", l.line, l.col);
      let Some(text) = m.strip_prefix(&prefix) else { return Err(format!("parsing {name} gives the error {m:?}, expected one at {prefix:?}")) };
      let found = toks[0].to_string();
      ensure!(text.contains(want), "parsing {name} gives the error {m:?}, which does not name what was expected: {want:?}");
      ensure!(text.contains(&found), "parsing {name} gives the error {m:?}, which does not name what was found: {found:?}");
      ensure!(root.error_num() == 1, "parsing {name} fails and counts {} errors", root.error_num());
      Ok(())
    }
    (Ok(_), false) => Err(format!("parsing {name} succeeds")),
    (Err(e), true) => Err(format!("parsing {name} fails with {e:?}")),
  }
}

fn run_kind(c: &mut Case) -> Verdict {
  let defs = kind_defs();
  let i = c.rng.below(defs.len());
  generated::kind(i, &mut KindJob { def: &defs[i], c })
}

fn run_elem(c: &mut Case) -> Verdict {
  let defs = kind_defs();
  let i = c.rng.below(defs.len());
  let j = c.rng.below(defs[i].elems.len());
  generated::elem(i, j, &mut ElemJob { def: &defs[i], j, c })
}

fn main() {
  const KIND: &str = "token kind values, distinct by variant definition and value";
  const ELEM: &str = "token sequences given to token elements, distinct by element and tokens";
  const TREE: &str = "token sequences given to a parser, distinct by type and tokens";
  const SPAN: &str = "successful parses in which spans were observed, distinct by type and tokens";
  const TEXT: &str = "texts given to a front end, distinct by type and text";
  let prop = |id, run, rule| Prop { id, run, rule, alloc_mib: 1024, cpu_s: 60 };
  vmon::worker_main(
    &[
      prop("T03", run_elem, ELEM),
      prop("T04", run_kind, KIND),
      prop("A01", |c| run(c, "A01"), TREE),
      prop("A02", |c| run(c, "A02"), TREE),
      prop("A03", |c| run(c, "A03"), TREE),
      prop("A04", |c| run(c, "A04"), SPAN),
      prop("A05", |c| run(c, "A05"), TREE),
      prop("P01", front::run, TEXT),
    ],
    true,
  )
}
