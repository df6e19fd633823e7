//! T01, T02: token streams against a queue model, with and without failing tokenizers.

use laps::ast::{OptPrefix, OptTokenPrefix, TokenPrefix};
use laps::log_raw_error;
use laps::parse::Parse;
use laps::span::{FileType, Location, Result, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::collections::VecDeque;
use std::fmt;
use vmon::{ensure, guard, set_steps, step, Case, Prop, Verdict};

/// Token kinds; a token is identified by the column of its span.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct K(u8);

impl fmt::Display for K {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "kind{}", self.0)
  }
}

type T = Token<K>;
const END: u8 = 99;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
  Tok(u32, u8),
  Fail,
}

thread_local! {
  /// Tokens and failures taken from the tokenizer.
  static POLLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// A tokenizer that follows a plan and then yields end tokens.
struct Source {
  plan: Vec<Ev>,
  at: usize,
  span: Span,
  next_id: u32,
}

impl Tokenizer for Source {
  type Token = T;

  fn next_token(&mut self) -> Result<T> {
    step();
    POLLS.with(|p| p.set(p.get() + 1));
    let ev = self.plan.get(self.at).copied().unwrap_or(Ev::Tok(self.next_id, END));
    self.at += 1;
    match ev {
      Ev::Fail => Err(log_raw_error!(self.span, "injected")),
      Ev::Tok(id, k) => {
        if self.at > self.plan.len() {
          self.next_id += 1;
        }
        let mut span = self.span.clone();
        span.update_loc(Location { line: 1, col: id });
        Ok(Token { kind: K(k), span })
      }
    }
  }
}

/// A user-written stream with only the required operations.
struct Mini {
  inner: Source,
  back: Vec<T>,
}

impl Tokenizer for Mini {
  type Token = T;

  fn next_token(&mut self) -> Result<T> {
    match self.back.pop() {
      Some(t) => Ok(t),
      None => self.inner.next_token(),
    }
  }
}

impl TokenStream for Mini {
  fn unread(&mut self, token: T) {
    step();
    self.back.push(token)
  }
}

/// A syntax element of one token of kind `N`, written by hand.
struct Tk<const N: u8>(#[allow(dead_code)] T);

#[allow(non_snake_case)]
fn tk<const N: u8>(t: T) -> Tk<N> {
  Tk(t)
}

impl<const N: u8, TS: TokenStream<Token = T>> Parse<TS> for Tk<N> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.expect(K(N)).map(Tk)
  }

  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(tokens.peek()?.kind == K(N))
  }
}

/// The upcoming events, as the caller must see them.
struct Model {
  up: VecDeque<Ev>,
  next_id: u32,
  /// How many of them are known without asking the tokenizer.
  known: usize,
  /// How often the tokenizer must have been asked at most.
  polls: usize,
}

impl Model {
  fn ensure(&mut self, n: usize) {
    while self.up.len() < n {
      self.up.push_back(Ev::Tok(self.next_id, END));
      self.next_id += 1;
    }
  }

  /// Event `i` is looked at.
  fn look(&mut self, i: usize) {
    self.ensure(i + 1);
    if i >= self.known {
      self.polls += i + 1 - self.known;
      self.known = i + 1;
    }
  }

  fn gone(&mut self, i: usize) {
    self.look(i);
    self.known -= 1;
    self.up.remove(i);
  }

  fn back(&mut self, e: Ev) {
    self.up.push_front(e);
    self.known += 1;
  }

  /// The first `n` tokens, or the failure met first, which is then gone.
  fn peek(&mut self, n: usize) -> std::result::Result<Vec<(u32, u8)>, ()> {
    let mut v = Vec::new();
    for i in 0..n {
      self.look(i);
      match self.up[i] {
        Ev::Tok(id, k) => v.push((id, k)),
        Ev::Fail => {
          self.gone(i);
          return Err(());
        }
      }
    }
    Ok(v)
  }

  fn next(&mut self) -> std::result::Result<(u32, u8), ()> {
    self.ensure(1);
    let e = self.up[0];
    self.gone(0);
    match e {
      Ev::Tok(id, k) => Ok((id, k)),
      Ev::Fail => Err(()),
    }
  }
}

fn id(t: &T) -> (u32, u8) {
  (t.span.start().col, t.kind.0)
}

fn same<A: fmt::Debug, B: PartialEq + fmt::Debug>(
  what: &str,
  got: Result<A>,
  want: std::result::Result<B, ()>,
  map: impl Fn(&A) -> B,
) -> std::result::Result<Option<A>, String> {
  match (got, want) {
    (Ok(g), Ok(w)) => {
      ensure!(map(&g) == w, "{what}: got {:?}, expected {w:?}", map(&g));
      Ok(Some(g))
    }
    (Err(e), Err(())) => {
      ensure!(!e.is_fatal(), "{what}: the tokenizer's error became {e:?}");
      Ok(None)
    }
    (g, w) => Err(format!("{what}: got {g:?}, expected {w:?}")),
  }
}

fn run<S: TokenStream<Token = T>>(c: &mut Case, s: &mut S, span: &Span, plan: &[Ev], ahead: bool) -> Verdict {
  let mut m = Model { up: plan.iter().copied().collect(), next_id: 10_000, known: 0, polls: 0 };
  POLLS.with(|p| p.set(0));
  let mut read: Vec<T> = Vec::new();
  let mut errors = 0usize;
  let mut fresh = 500_000u32;
  let ops = if c.thorough { c.rng.range(4, 150) } else { c.rng.range(4, 50) };
  let mut log = String::new();
  // how deep single operations reach
  let far = plan.len() / 2 + 1;
  for k in 0..ops {
    let op = c.rng.weighted(&[16, 10, 8, 10, 12, 12, 6, 6, 8, 8, 8, 2]);
    let name = ["next", "peek", "peek2", "peek_n", "unread", "session", "skip_until", "collect_until", "expect", "maybe", "prefix maybe", "unread foreign"][op];
    let before = errors;
    let ctx = |extra: &str| format!("operation {k} ({name}{extra})");
    log.push_str(name);
    let stop: Vec<u8> = (0..c.rng.range(1, 3)).map(|_| c.rng.below(4) as u8).chain(Some(END)).collect();
    match op {
      0 => {
        let w = m.next();
        errors += w.is_err() as usize;
        if let Some(t) = same(&ctx(""), guard(|| s.next_token())?, w, id)? {
          read.push(t);
        }
      }
      1 => {
        let w = m.peek(1).map(|v| v[0]);
        errors += w.is_err() as usize;
        same(&ctx(""), guard(|| s.peek())?, w, id)?;
      }
      2 => {
        let w = m.peek(2).map(|v| (v[0], v[1]));
        errors += w.is_err() as usize;
        same(&ctx(""), guard(|| s.peek2())?, w, |(a, b)| (id(a), id(b)))?;
      }
      3 => {
        let n = if c.rng.chance(1, 20) { c.rng.range(7, 300).max(c.rng.below(far)) } else { c.rng.below(7) };
        log.push_str(&n.to_string());
        let w = m.peek(n);
        errors += w.is_err() as usize;
        same(&ctx(&format!(" {n}")), guard(|| s.peek_n(n))?, w, |v| v.iter().map(id).collect())?;
      }
      4 => {
        let n = if c.rng.chance(1, 8) { c.rng.range(4, 60).max(c.rng.below(far)) } else { c.rng.range(1, 4) };
        for _ in 0..n {
          let Some(t) = read.pop() else { break };
          m.back(Ev::Tok(t.span.start().col, t.kind.0));
          guard(|| s.unread(t))?;
        }
      }
      5 => {
        // a look-ahead session: tokens come one after another, and go back at its end
        let mut seen = Vec::new();
        let n = if c.rng.chance(1, 6) { c.rng.range(6, 90).max(c.rng.below(far)) } else { c.rng.below(6) };
        log.push_str(&n.to_string());
        let mut wants = Vec::new();
        let mut at = 0;
        for _ in 0..n {
          m.look(at);
          match m.up[at] {
            Ev::Tok(i, k) => {
              wants.push(Ok((i, k)));
              at += 1;
            }
            Ev::Fail => {
              m.gone(at);
              errors += 1;
              wants.push(Err(()));
            }
          }
        }
        guard(|| {
          let mut la = s.lookahead();
          for _ in 0..n {
            seen.push(la.peek_next());
          }
        })?;
        for (j, (g, w)) in seen.into_iter().zip(wants).enumerate() {
          same(&ctx(&format!(", look-ahead {j}")), g, w, id)?;
        }
      }
      6 => {
        let mut w = Ok(());
        loop {
          m.look(0);
          match m.up[0] {
            Ev::Tok(_, k) if stop.contains(&k) => break,
            Ev::Tok(..) => {
              m.gone(0);
            }
            Ev::Fail => {
              m.gone(0);
              errors += 1;
              w = Err(());
              break;
            }
          }
        }
        read.clear();
        same(&ctx(""), guard(|| s.skip_until(|t| stop.contains(&t.kind.0)))?, w, |_| ())?;
      }
      7 => {
        // tokens collected before a failure cannot be handed out: only without one ahead
        let mut n = 0;
        let clear = loop {
          m.ensure(n + 1);
          match m.up[n] {
            Ev::Tok(_, k) if stop.contains(&k) => break true,
            Ev::Tok(..) => n += 1,
            Ev::Fail => break false,
          }
        };
        if clear {
          m.look(n);
          let w: Vec<(u32, u8)> = (0..n).map(|_| m.next().unwrap()).collect();
          let v = same(&ctx(""), guard(|| s.collect_until(|t| stop.contains(&t.kind.0)))?, Ok(w), |v| v.iter().map(id).collect::<Vec<_>>())?;
          read.extend(v.unwrap());
        }
      }
      8 => {
        let want = c.rng.below(4) as u8;
        match m.peek(1).map(|v| v[0]) {
          Err(()) => {
            errors += 1;
            same::<_, (u32, u8)>(&ctx(""), guard(|| s.expect(K(want)))?, Err(()), id)?;
          }
          Ok((i, kind)) if kind == want => {
            let _ = m.next();
            read.push(same(&ctx(""), guard(|| s.expect(K(want)))?, Ok((i, kind)), id)?.unwrap());
          }
          Ok((_, kind)) => {
            errors += 1;
            let g = guard(|| s.expect(K(want)))?;
            ensure!(matches!(&g, Err(e) if !e.is_fatal()), "{}: got {g:?} for kind{kind}, expected an error", ctx(&format!(" kind{want}")));
          }
        }
      }
      9 => {
        // a chain of single-token checks in one look-ahead session
        let n = if c.rng.chance(1, 6) { c.rng.range(4, 20) } else { c.rng.range(1, 4) };
        // mostly what is there
        m.ensure(n);
        let miss = c.rng.below(8);
        let near: Vec<Option<u8>> = m.up.iter().filter_map(|e| if let Ev::Tok(_, k) = e { Some(*k) } else { None }).map(|k| Some(k).filter(|k| *k < 3)).collect();
        let chain: Vec<u8> = (0..n)
          .map(|j| match near.get(j).copied().flatten() {
            Some(k) if miss < 5 && (j + 1 < n || miss < 4) => k,
            _ => c.rng.below(3) as u8,
          })
          .collect();
        log.push_str(&format!("{chain:?}"));
        let mut w = Ok(true);
        for (j, k) in chain.iter().enumerate() {
          match m.peek(j + 1) {
            Ok(v) => {
              if v[j].1 != *k {
                w = Ok(false);
                break;
              }
            }
            Err(()) => {
              errors += 1;
              w = Err(());
              break;
            }
          }
        }
        let g = guard(|| -> Result<bool> {
          let mut la = s.lookahead();
          for k in &chain {
            la = match k {
              0 => la.maybe(tk::<0>)?,
              1 => la.maybe(tk::<1>)?,
              _ => la.maybe(tk::<2>)?,
            };
          }
          la.result()
        })?;
        same(&ctx(&format!(" {chain:?}")), g, w, |x| *x)?;
      }
      10 => {
        let which = c.rng.below(7);
        log.push_str(&which.to_string());
        // the kinds the element may start with, per position; None: no prefix
        let mut first = |m: &mut Model, n: usize| -> std::result::Result<u8, ()> {
          m.peek(n + 1).map(|v| v[n].1).map_err(|()| errors += 1)
        };
        let opt = |a: u8, b: u8, m: &mut Model, first: &mut dyn FnMut(&mut Model, usize) -> std::result::Result<u8, ()>, at: usize| {
          let x = first(m, at)?;
          Ok(if x == a { first(m, at + 1)? == b } else { x == b })
        };
        type A = Tk<0>;
        type B = Tk<1>;
        type C = Tk<2>;
        let (w, g): (std::result::Result<bool, ()>, _) = match which {
          0 => (opt(0, 1, &mut m, &mut first, 0), guard(|| OptTokenPrefix::<A, B>::maybe(s))?),
          1 => (
            (|| {
              let x = first(&mut m, 0)?;
              Ok(x == 1 && first(&mut m, 1)? == 2)
            })(),
            guard(|| TokenPrefix::<B, C>::maybe(s))?,
          ),
          2 => (
            (|| {
              if first(&mut m, 0)? == 2 {
                opt(0, 1, &mut m, &mut first, 1)
              } else {
                opt(0, 1, &mut m, &mut first, 0)
              }
            })(),
            guard(|| OptTokenPrefix::<C, OptTokenPrefix<A, B>>::maybe(s))?,
          ),
          3 => (
            (|| Ok(first(&mut m, 0)? == 2 && opt(0, 1, &mut m, &mut first, 1)?))(),
            guard(|| TokenPrefix::<C, OptTokenPrefix<A, B>>::maybe(s))?,
          ),
          4 => (
            (|| Ok(first(&mut m, 0)? == 0 || first(&mut m, 0)? == 1))(),
            guard(|| OptPrefix::<A, B>::maybe(s))?,
          ),
          5 => ((|| Ok(first(&mut m, 0)? == 1))(), guard(|| <Box<(B, Vec<A>)>>::maybe(s))?),
          _ => (
            (|| {
              let x = first(&mut m, 0)?;
              Ok(if x == 0 {
                let y = first(&mut m, 1)?;
                y == 1 && first(&mut m, 2)? == 2
              } else {
                x == 1 && first(&mut m, 1)? == 2
              })
            })(),
            guard(|| OptTokenPrefix::<A, TokenPrefix<B, C>>::maybe(s))?,
          ),
        };
        same(&ctx(&format!(" {which}")), g, w, |x| *x)?;
      }
      _ => {
        // pushing back a token that was never read from here
        let mut sp = span.clone();
        sp.update_loc(Location { line: 1, col: fresh });
        let k = c.rng.below(4) as u8;
        m.back(Ev::Tok(fresh, k));
        fresh += 1;
        guard(|| s.unread(Token { kind: K(k), span: sp }))?;
        read.clear();
      }
    }
    log.push(' ');
    let polls = POLLS.with(|p| p.get());
    if ahead {
      ensure!(polls <= m.polls, "operation {k} ({name}): the tokenizer was asked {polls} times so far, {} are enough (operations: {log})", m.polls);
      // the stream may have taken less; from here on that is what is known
      c.evals(1);
    }
    ensure!(
      span.error_num() == errors,
      "operation {k} ({name}): {} errors counted in total, expected {errors} (operations: {log})",
      span.error_num()
    );
    if errors > before {
      c.count(if op == 8 { "expect mismatches or failures" } else { "tokenizer failures surfaced" }, (errors - before) as u64);
    }
    c.count("operations compared", 1);
  }
  // conservation: everything still upcoming arrives, in order, once
  let left = m.up.len() + 3;
  for j in 0..left {
    let w = m.next();
    same(&format!("draining, token {j}, after {log}"), guard(|| s.next_token())?, w, id)?;
  }
  c.distinct(&format!("{log}{plan:?}"));
  Ok(())
}

fn case(c: &mut Case, faults: bool, ahead: bool) -> Verdict {
  let long = c.rng.chance(1, 250);
  let n = if long {
    c.rng.range(600, 6000)
  } else if c.rng.chance(1, 10) {
    c.rng.range(40, 600)
  } else {
    c.rng.below(40)
  };
  if long {
    c.count("streams of more than 600 tokens", 1);
  }
  // some streams lack a kind, so that runs of matching tokens get long
  let kinds = *c.rng.pick(&[4, 4, 3, 2]);
  let rate = *c.rng.pick(&[5, 5, 15, 60]);
  let mut plan = Vec::new();
  for i in 0..n {
    if faults && c.rng.chance(1, rate) {
      plan.push(Ev::Fail);
    }
    plan.push(Ev::Tok(i as u32 + 1, c.rng.below(kinds) as u8));
  }
  if faults {
    for _ in 0..c.rng.below(3) {
      plan.push(Ev::Fail);
    }
  }
  let buffer = c.rng.bool();
  c.sample(|| format!("{} over {plan:?}", if buffer { "TokenBuffer" } else { "minimal stream" }));
  set_steps(if long { 2_000_000 } else { 60_000 });
  let span = Span::new(FileType::Buffer);
  let src = Source { plan: plan.clone(), at: 0, span: span.clone(), next_id: 10_000 };
  if buffer {
    let mut b: TokenBuffer<Source, T> = if c.rng.bool() { TokenBuffer::new(src) } else { src.into() };
    run(c, &mut b, &span, &plan, ahead)?;
    // the tokenizer inside is the one handed in, as far as it was read
    let polls = POLLS.with(|p| p.get());
    ensure!(b.inner().at == polls && b.inner_mut().at == polls, "the tokenizer inside is at {} after {polls} calls", b.inner().at);
    let back = b.into_inner();
    ensure!(back.at == polls && back.plan == plan, "the tokenizer given back is at {} after {polls} calls", back.at);
    Ok(())
  } else {
    run(c, &mut Mini { inner: src, back: vec![] }, &span, &plan, ahead)
  }
}

fn t01(c: &mut Case) -> Verdict {
  case(c, false, false)
}

fn t02(c: &mut Case) -> Verdict {
  case(c, true, false)
}

fn t06(c: &mut Case) -> Verdict {
  let faults = c.rng.chance(1, 3);
  case(c, faults, true)
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "T01",
      run: t01,
      rule: "random interleavings of all token stream operations on the provided buffer and a minimal stream; distinct by operation sequence and tokens",
      alloc_mib: 128,
      cpu_s: 20,
    },
    Prop {
      id: "T02",
      run: t02,
      rule: "the same interleavings over tokenizers that fail at random places; distinct by operation sequence, tokens and failures",
      alloc_mib: 128,
      cpu_s: 20,
    },
    Prop {
      id: "T06",
      run: t06,
      rule: "the same interleavings, every call of the tokenizer counted; distinct by operation sequence, tokens and failures",
      alloc_mib: 128,
      cpu_s: 20,
    },
  ]
}
