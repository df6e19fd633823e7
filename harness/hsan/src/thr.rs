//! M02.

use crate::mem::{program, Tok, TK};
use laps::lexer::Lexer;
use laps::prelude::*;
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Location, Span};
use laps::token::{TokenBuffer, TokenStream, Tokenizer};
use laps_regex::dfa::DFA;
use laps_regex::fa::DenseFA;
use laps_regex::mir::Mir;
use laps_regex::nfa::NFA;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder};
use laps_regex::table::StateTransTable;
use std::collections::BTreeSet;
use std::hint::black_box;
use std::io::Cursor;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Barrier};
use std::thread;
use vmon::{ensure, Case, Rng, Verdict};

// ---------------------------------------------------------------- what may cross threads

fn crosses<T: Send + Sync>() {}

/// Compiles only if the types may be used from several threads.
#[allow(dead_code)]
fn types_cross_threads() {
  crosses::<Span>();
  crosses::<Location>();
  crosses::<FileType>();
  crosses::<Error>();
  crosses::<Tok>();
  crosses::<TK>();
  crosses::<crate::mem::Stmt>();
  crosses::<Reader<Cursor<Vec<u8>>>>();
  crosses::<ByteReader<Cursor<Vec<u8>>>>();
  crosses::<Lexer<Reader<Cursor<Vec<u8>>>, TK>>();
  crosses::<TokenBuffer<Lexer<Reader<Cursor<Vec<u8>>>, TK>, Tok>>();
  crosses::<CharsMatcher<usize>>();
  crosses::<BytesMatcher<usize>>();
  crosses::<StateTransTable<char, usize>>();
  crosses::<DFA<char, usize>>();
  crosses::<NFA<char, usize>>();
  crosses::<DenseFA<char>>();
  crosses::<RegexBuilder<usize>>();
}

// ---------------------------------------------------------------- threads

/// How many threads were at work at the same time, at most.
static NOW: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);

/// A delay of a random kind.
fn delay(r: &mut Rng) {
  match r.below(12) {
    0..=2 => thread::yield_now(),
    3 => {
      for _ in 0..r.below(200) {
        std::hint::spin_loop();
      }
    }
    4 if !cfg!(miri) => thread::sleep(std::time::Duration::from_micros(r.below(200) as u64)),
    _ => {}
  }
}

/// Runs every job on a thread of its own, all starting together.
fn together<'a, R: Send>(jobs: Vec<Box<dyn FnOnce() -> R + Send + 'a>>) -> Result<Vec<R>, String> {
  let start = Barrier::new(jobs.len());
  let joined: Vec<_> = thread::scope(|s| {
    let start = &start;
    let handles: Vec<_> = jobs
      .into_iter()
      .map(|j| {
        s.spawn(move || {
          start.wait();
          let now = NOW.fetch_add(1, Ordering::Relaxed) + 1;
          MOST.fetch_max(now, Ordering::Relaxed);
          let r = j();
          NOW.fetch_sub(1, Ordering::Relaxed);
          r
        })
      })
      .collect();
    handles.into_iter().map(|h| h.join()).collect()
  });
  NOW.store(0, Ordering::Relaxed);
  joined.into_iter().collect::<Result<Vec<R>, _>>().map_err(|_| format!("a thread panicked: {}", vmon::take_thread_panic().unwrap_or_default()))
}

fn threads(r: &mut Rng) -> usize {
  if cfg!(miri) {
    r.range(2, 3)
  } else {
    r.range(2, 6)
  }
}

// ---------------------------------------------------------------- logging

/// Threads that log through one span: every message counts, and none counts twice.
fn logging(c: &mut Case) -> Verdict {
  let root = Span::new(FileType::Buffer);
  let n = threads(&mut c.rng);
  let each = if cfg!(miri) { 3 } else { 40 };
  let total_e = AtomicUsize::new(0);
  let total_w = AtomicUsize::new(0);
  let share = c.rng.bool();
  let mut jobs: Vec<Box<dyn FnOnce() -> Verdict + Send>> = Vec::new();
  for _ in 0..n {
    let mut r = c.rng.fork();
    let (mine, root, te, tw) = (root.clone(), &root, &total_e, &total_w);
    jobs.push(Box::new(move || {
      let mut mine = mine;
      let (mut last_e, mut last_w) = (0, 0);
      for k in 0..each {
        delay(&mut r);
        let span = if share { root } else { &mine };
        // what is known to have been logged before
        let (least_e, least_w) = (te.load(Ordering::SeqCst), tw.load(Ordering::SeqCst));
        match r.below(7) {
          0 | 1 => {
            black_box::<Error>(laps::log_error!(span, "{k}"));
            te.fetch_add(1, Ordering::SeqCst);
          }
          2 => {
            black_box::<Error>(laps::log_raw_fatal_error!(span, "{k}"));
            te.fetch_add(1, Ordering::SeqCst);
          }
          3 => {
            laps::log_warning!(span, "{k}");
            tw.fetch_add(1, Ordering::SeqCst);
          }
          4 => {
            laps::log_raw_warning!(span, "{k}");
            tw.fetch_add(1, Ordering::SeqCst);
          }
          5 if !share => mine.update(&'x'),
          _ => {
            if r.chance(1, 8) {
              span.log_summary();
            }
            drop(span.clone());
          }
        }
        let (e, w) = (root.error_num(), root.warning_num());
        ensure!(e >= last_e && w >= last_w, "the counts went down: {last_e} to {e} errors, {last_w} to {w} warnings");
        ensure!(e >= least_e && w >= least_w, "{e} errors and {w} warnings are counted after {least_e} and {least_w} were logged");
        (last_e, last_w) = (e, w);
      }
      Ok(())
    }));
  }
  for v in together(jobs)? {
    v?;
  }
  let want = (total_e.into_inner(), total_w.into_inner());
  let got = (root.error_num(), root.warning_num());
  ensure!(got == want, "{n} threads logged {want:?} errors and warnings, counted are {got:?}");
  c.count("messages logged by threads", (want.0 + want.1) as u64);
  Ok(())
}

// ---------------------------------------------------------------- constructing matchers

const POOL: &[&str] = &[
  "a", "ab", "a*b", "(ab|ba)*", "[a-c]+", "c(a|b)?", "(a|b)(b|c)", "ca{1,2}", "b+c*", "[^a]", "a[^b]c", "(abc|acb|bac)", "c*", "(a|ab)(c|bc)", "[b-z]b", "cc", "\\x{e9}+", "[\\x{d000}-\\x{f000}]",
];

fn small(r: &mut Rng) -> Vec<&'static str> {
  (0..r.range(1, if cfg!(miri) { 2 } else { 5 })).map(|_| *r.pick(POOL)).collect()
}

const PROBES: &[&str] = &["", "a", "b", "c", "ab", "ba", "abc", "acb", "bac", "aab", "abab", "caa", "cab", "bbc", "cc", "\u{e9}\u{e9}", "\u{e000}", "\u{d7ff}", "z", "zb", "abba", "bcbc", "axc"];

fn build(pats: &[&str], par: bool) -> Result<CharsMatcher<usize>, String> {
  let mut b = RegexBuilder::new().enable_par(Some(par));
  for (i, p) in pats.iter().enumerate() {
    b = b.add(p, i);
  }
  b.build().map_err(|e| format!("the patterns {pats:?} are rejected: {e}"))
}

fn answers(m: &CharsMatcher<usize>) -> Vec<Option<usize>> {
  PROBES.iter().map(|p| m.is_str_match(p).copied()).collect()
}

/// Matchers made by threads at the same time are the matchers made alone.
fn constructing(c: &mut Case) -> Verdict {
  let n = threads(&mut c.rng);
  let par = !cfg!(miri) && c.rng.bool();
  let sets: Vec<Vec<&str>> = (0..n).map(|_| small(&mut c.rng)).collect();
  c.sample(|| format!("{n} threads construct {sets:?}"));
  let alone: Vec<_> = sets.iter().map(|s| build(s, false).map(|m| (answers(&m), m))).collect::<Result<_, _>>()?;
  let shared = &alone[0].1;
  let rounds = if cfg!(miri) { 1 } else { 6 };
  let mut jobs: Vec<Box<dyn FnOnce() -> Verdict + Send>> = Vec::new();
  for k in 0..n {
    let (set, want, first) = (&sets[k], &alone[k].0, &alone[0].0);
    let mut r = c.rng.fork();
    jobs.push(Box::new(move || {
      for _ in 0..rounds {
        delay(&mut r);
        let m = build(set, par && r.bool())?;
        let got = answers(&m);
        ensure!(got == *want, "the patterns {set:?}, compiled while other threads compile, match {got:?} on {PROBES:?}, expected {want:?}");
        delay(&mut r);
        if r.chance(1, 3) {
          ensure!(answers(shared) == *first, "a shared matcher gives other answers");
        }
      }
      Ok(())
    }));
  }
  for v in together(jobs)? {
    v?;
  }
  c.count(if par { "matchers constructed by threads, in parallel" } else { "matchers constructed by threads" }, (n * rounds) as u64);
  c.distinct(&format!("{sets:?}{par}"));
  Ok(())
}

/// No two states of automata that threads grow at the same time are the same.
fn states(c: &mut Case) -> Verdict {
  let n = threads(&mut c.rng);
  let each = if cfg!(miri) { 4 } else { 300 };
  let mut jobs: Vec<Box<dyn FnOnce() -> DenseFA<char> + Send>> = Vec::new();
  for _ in 0..n {
    let mut r = c.rng.fork();
    jobs.push(Box::new(move || {
      let mut fa = DenseFA::new();
      for _ in 0..each {
        if r.chance(1, 20) {
          delay(&mut r);
        }
        if r.bool() {
          fa.add_state();
        } else {
          fa.add_final_state();
        }
      }
      fa
    }));
  }
  let fas = together(jobs)?;
  let mut all = BTreeSet::new();
  for fa in &fas {
    ensure!(fa.states().len() == each + 1, "an automaton with {} states added has {}", each + 1, fa.states().len());
    for id in fa.states().keys() {
      ensure!(all.insert(*id), "two automata made by threads share the state {id}");
    }
  }
  // so they can be joined
  let mut it = fas.into_iter();
  let mut one = it.next().unwrap();
  for fa in it {
    one.union(fa);
  }
  ensure!(one.states().len() == n * (each + 1), "joining {n} automata of {} states gives {} states", each + 1, one.states().len());
  c.count("states added by threads", (n * each) as u64);
  Ok(())
}

/// The whole chain, from syntax to table, with stages moved between threads.
fn stages(c: &mut Case) -> Verdict {
  let set = small(&mut c.rng);
  let want = answers(&build(&set, false)?);
  let hirs: Vec<_> = set.iter().map(|p| regex_syntax::parse(p).unwrap()).collect();
  let (mut ra, mut rb) = (c.rng.fork(), c.rng.fork());
  let par = !cfg!(miri) && c.rng.bool();
  let (to_b, from_a) = mpsc::channel::<NFA<char, usize>>();
  let (to_a, from_b) = mpsc::channel::<StateTransTable<char, usize>>();
  let mut mir = Some(
    Mir::Alter(hirs.into_iter().enumerate().map(|(i, h)| Mir::<char, usize>::new(h).map(|m| (m, Some(i)))).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?)
      .optimize()
      .map_err(|e| e.to_string())?,
  );
  let jobs: Vec<Box<dyn FnOnce() -> Verdict + Send>> = vec![
    Box::new(move || {
      let nfa = NFA::new(mir.take().unwrap());
      delay(&mut ra);
      to_b.send(nfa).unwrap();
      let t = from_b.recv().unwrap();
      for (p, w) in PROBES.iter().zip(&want) {
        let mut id = Some(t.init_id());
        for ch in p.chars() {
          id = id.and_then(|i| t.next_state(i, &ch));
        }
        let got = id.and_then(|i| t.is_final(i)).copied();
        ensure!(got == *w, "{set:?} made by two threads gives {got:?} on {p:?}, expected {w:?}");
      }
      Ok(())
    }),
    Box::new(move || {
      let nfa = from_a.recv().unwrap();
      delay(&mut rb);
      to_a.send(StateTransTable::new(DFA::new(nfa, Some(par)))).unwrap();
      Ok(())
    }),
  ];
  for v in together(jobs)? {
    v?;
  }
  c.count("automata handed over", 1);
  Ok(())
}

// ---------------------------------------------------------------- lexing and parsing

/// Everything a lexer and parser deliver for a text.
fn transcript(text: &str, parse: bool) -> (Vec<String>, usize, Vec<Tok>) {
  let mut s = TokenBuffer::new(TK::lexer(Reader::from(text)));
  let (mut out, mut toks, mut errors) = (Vec::new(), Vec::new(), 0);
  for _ in 0..80 {
    if parse {
      match s.parse::<crate::mem::Stmt>() {
        Ok(crate::mem::Stmt::End(_)) => break,
        Ok(t) => out.push(format!("{t:?}")),
        Err(_) => {
          errors += 1;
          out.push("error".into());
          // go on behind the place, if that is possible
          if !matches!(s.next_token(), Ok(t) if t != TK::Eof) {
            break;
          }
        }
      }
    } else {
      match s.next_token() {
        Ok(t) => {
          let end = t == TK::Eof;
          out.push(format!("{:?} {}", t.kind, t.span));
          toks.push(t);
          if end {
            break;
          }
        }
        Err(_) => {
          out.push("error".into());
          errors += 1;
          if errors > 3 {
            break;
          }
        }
      }
    }
  }
  let n = s.inner().input().span().error_num();
  (out, n, toks)
}

/// Threads with lexers of their own share tables, but nothing else.
fn lexing(c: &mut Case) -> Verdict {
  let n = threads(&mut c.rng);
  let parse = c.rng.bool();
  let texts: Vec<String> = (0..n).map(|_| program(&mut c.rng)).collect();
  let alone: Vec<_> = texts.iter().map(|t| transcript(t, parse)).collect();
  let mut jobs: Vec<Box<dyn FnOnce() -> Verdict + Send>> = Vec::new();
  for k in 0..n {
    let (text, want) = (&texts[k], &alone[k]);
    let mut r = c.rng.fork();
    jobs.push(Box::new(move || {
      for _ in 0..if cfg!(miri) { 1 } else { 5 } {
        delay(&mut r);
        let got = transcript(text, parse);
        ensure!(got.0 == want.0, "{text:?}, read while other threads read, gives {:?}, expected {:?}", got.0, want.0);
        ensure!(got.1 == want.1, "{text:?}, read while other threads read, counts {} errors, expected {}", got.1, want.1);
      }
      Ok(())
    }));
  }
  for v in together(jobs)? {
    v?;
  }
  let all: usize = alone.iter().map(|a| a.0.len()).sum();
  c.count("tokens and trees of threads", all as u64);
  if all > n {
    c.distinct(&format!("{texts:?}"));
  }
  Ok(())
}

/// One thread reads tokens, others look at them, print them and drop them.
fn handing(c: &mut Case) -> Verdict {
  let text = program(&mut c.rng);
  let want = transcript(&text, false);
  let expect: Vec<String> = want.2.iter().map(|t| format!("{:?} {}", t.kind, t.span)).collect();
  let n = threads(&mut c.rng);
  let (mut to, mut from) = (Vec::new(), Vec::new());
  for _ in 0..n {
    let (a, b) = mpsc::channel::<(usize, Tok)>();
    to.push(a);
    from.push(b);
  }
  let mut r = c.rng.fork();
  let mut jobs: Vec<Box<dyn FnOnce() -> Verdict + Send>> = Vec::new();
  let (text_r, logged) = (&text, AtomicUsize::new(0));
  let logged = &logged;
  jobs.push(Box::new(move || {
    let mut s = TK::lexer(Reader::from(&text_r[..]));
    let (mut i, mut errors) = (0, 0);
    for _ in 0..80 {
      delay(&mut r);
      match s.next_token() {
        Ok(t) => {
          let end = t == TK::Eof;
          to[r.below(to.len())].send((i, t)).unwrap();
          i += 1;
          if end {
            break;
          }
        }
        Err(_) => {
          errors += 1;
          if errors > 3 {
            break;
          }
        }
      }
    }
    // the lexer's span outlives the tokens elsewhere
    drop(to);
    black_box(s.input().span().error_num());
    Ok(())
  }));
  let expect = &expect;
  for b in from {
    let mut r = c.rng.fork();
    jobs.push(Box::new(move || {
      let mut last: Option<Span> = None;
      for (i, t) in b {
        delay(&mut r);
        let got = format!("{:?} {}", t.kind, t.span);
        ensure!(got == expect[i], "token {i} of {text_r:?} is {got} on another thread, expected {}", expect[i]);
        if r.chance(1, 3) {
          let s = last.map_or(t.span.clone(), |l: Span| l.into_end_updated(t.span.clone()));
          black_box::<Error>(laps::log_error!(s, "{i}"));
          logged.fetch_add(1, Ordering::Relaxed);
        }
        last = Some(t.span);
      }
      Ok(())
    }));
  }
  for v in together(jobs)? {
    v?;
  }
  c.count("tokens handed to other threads", expect.len() as u64);
  Ok(())
}

/// Threads that print the same lines of one file.
fn showing(c: &mut Case) -> Verdict {
  let f = std::path::PathBuf::from(format!("hsan-{}-{}", std::process::id(), c.index));
  std::fs::write(&f, "first line\n\tsecond\nthird").map_err(|e| format!("harness: {e}"))?;
  let mut rd = Reader::from_path(&f).map_err(|e| format!("harness: {e}"))?;
  let n = threads(&mut c.rng);
  let mut spans = Vec::new();
  for _ in 0..c.rng.range(3, 20) {
    spans.push(rd.next_char_span().map_err(|_| "reading fails".to_string())?.1);
  }
  let spans = &spans;
  let before = rd.span().error_num();
  let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  for _ in 0..n {
    let mut r = c.rng.fork();
    jobs.push(Box::new(move || {
      for _ in 0..if cfg!(miri) { 1 } else { 10 } {
        let (a, b) = (r.pick(spans).clone(), r.pick(spans).clone());
        delay(&mut r);
        black_box::<Error>(laps::log_error!(a.into_end_updated(b), "shown"));
      }
    }));
  }
  together(jobs)?;
  let got = rd.span().error_num() - before;
  let _ = std::fs::remove_file(&f);
  let want = n * if cfg!(miri) { 1 } else { 10 };
  ensure!(got == want, "{want} messages about one file were logged, counted are {got}");
  c.count("messages about one file", want as u64);
  Ok(())
}

pub fn run(c: &mut Case) -> Verdict {
  MOST.store(0, Ordering::Relaxed);
  match c.rng.weighted(&[4, 4, 2, 2, 3, 3, 1]) {
    0 => logging(c),
    1 => constructing(c),
    2 => states(c),
    3 => stages(c),
    4 => lexing(c),
    5 => handing(c),
    _ => showing(c),
  }?;
  let most = MOST.load(Ordering::Relaxed);
  c.count("cases", 1);
  if most > 1 {
    c.count("cases with threads at work at the same time", 1);
    let i = c.index;
    c.distinct(&format!("case {i}"));
  }
  Ok(())
}
