//! X08: every stage between the syntax tree and the table recognises the same tagged language.

use crate::gen::{gen_long, gen_set_of, gen_string, parse, Mode};
use laps_regex::dfa::DFA;
use laps_regex::mir::{Mir, MirBuilder, SymbolOp};
use laps_regex::nfa::NFA;
use laps_regex::table::StateTransTable;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use vmon::{ensure, guard, Case, Rng, Verdict};

/// A symbol type with numbered symbols `0..COUNT`.
pub trait Symb: Clone + Hash + Eq + Ord + SymbolOp + Sync + Debug {
  const COUNT: u32;
  fn sym(i: u32) -> Self;
  fn num(&self) -> u32;
  /// Numbers around which generated ranges lie.
  fn pool(rng: &mut Rng) -> Vec<u32>;
}

/// A user-defined symbol type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Small(u8);

impl SymbolOp for Small {
  fn prev(&self) -> Option<Self> {
    self.0.checked_sub(1).map(Small)
  }
  fn next(&self) -> Option<Self> {
    (self.0 < 11).then_some(Small(self.0 + 1))
  }
}

impl Symb for Small {
  const COUNT: u32 = 12;
  fn sym(i: u32) -> Self {
    Small(i as u8)
  }
  fn num(&self) -> u32 {
    self.0 as u32
  }
  fn pool(rng: &mut Rng) -> Vec<u32> {
    let n = rng.range(2, 12);
    (0..n).map(|_| rng.below(12) as u32).collect()
  }
}

impl Symb for u8 {
  const COUNT: u32 = 256;
  fn sym(i: u32) -> Self {
    i as u8
  }
  fn num(&self) -> u32 {
    *self as u32
  }
  fn pool(rng: &mut Rng) -> Vec<u32> {
    let n = rng.range(2, 9);
    (0..n)
      .map(|_| match rng.below(3) {
        0 => *rng.pick(&[0, 1, 9, 10, 0x7f, 0x80, 0xfe, 0xff]),
        1 => rng.range(97, 102) as u32,
        _ => rng.below(256) as u32,
      })
      .collect()
  }
}

impl Symb for char {
  const COUNT: u32 = 0x11_0000 - 0x800;
  fn sym(i: u32) -> Self {
    char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap()
  }
  fn num(&self) -> u32 {
    let c = *self as u32;
    if c < 0xd800 {
      c
    } else {
      c - 0x800
    }
  }
  fn pool(rng: &mut Rng) -> Vec<u32> {
    let n = rng.range(2, 9);
    (0..n)
      .map(|_| match rng.below(3) {
        0 => *rng.pick(&[0, 1, 0x7f, 0x80, 0xd7fe, 0xd7ff, 0xd800, 0xd801, Self::COUNT - 2, Self::COUNT - 1, 0xffff, 0x10000]),
        1 => rng.range(97, 102) as u32,
        _ => rng.below(Self::COUNT as usize) as u32,
      })
      .collect()
  }
}

type Tag = usize;
type Label<S> = Vec<(S, S)>;

fn on<S: Symb>(rs: &[(S, S)], s: &S) -> bool {
  rs.iter().any(|(l, r)| l <= s && s <= r)
}

// ---------------------------------------------------------------- the reference

/// States and edges straight from an expression.
struct Ref<S> {
  eps: Vec<Vec<usize>>,
  edges: Vec<Vec<(Label<S>, usize)>>,
  tags: HashMap<usize, Tag>,
  end: usize,
}

type Set = BTreeSet<usize>;

impl<S: Symb> Ref<S> {
  fn new(m: &Mir<S, Tag>) -> Self {
    let mut r = Ref { eps: vec![], edges: vec![], tags: HashMap::new(), end: 0 };
    let init = r.state();
    r.end = r.add(m, init);
    r
  }

  fn state(&mut self) -> usize {
    self.eps.push(vec![]);
    self.edges.push(vec![]);
    self.eps.len() - 1
  }

  fn add(&mut self, m: &Mir<S, Tag>, from: usize) -> usize {
    match m {
      Mir::Empty => from,
      Mir::Ranges(rs) => {
        let to = self.state();
        self.edges[from].push((rs.clone(), to));
        to
      }
      Mir::Concat(c) => c.iter().fold(from, |at, e| self.add(e, at)),
      Mir::Alter(a) => {
        let to = self.state();
        for (e, t) in a {
          let start = self.state();
          self.eps[from].push(start);
          let end = self.add(e, start);
          let out = self.state();
          self.eps[end].push(out);
          self.eps[out].push(to);
          if let Some(t) = t {
            self.tags.insert(out, *t);
          }
        }
        to
      }
      Mir::Kleene(k) => {
        let (a, to) = (self.state(), self.state());
        self.eps[from].extend([a, to]);
        let b = self.add(k, a);
        self.eps[b].extend([a, to]);
        to
      }
    }
  }

  fn close(&self, mut s: Set) -> Set {
    let mut work: Vec<usize> = s.iter().copied().collect();
    while let Some(i) = work.pop() {
      for j in &self.eps[i] {
        if s.insert(*j) {
          work.push(*j);
        }
      }
    }
    s
  }

  fn step(&self, s: &Set, c: &S) -> Set {
    let n = s.iter().flat_map(|i| &self.edges[*i]).filter(|(rs, _)| on(rs, c)).map(|(_, to)| *to).collect();
    self.close(n)
  }

  fn tags(&self, s: &Set) -> BTreeSet<Tag> {
    s.iter().filter_map(|i| self.tags.get(i).copied()).collect()
  }
}

fn has_tags<S>(m: &Mir<S, Tag>) -> bool {
  match m {
    Mir::Empty | Mir::Ranges(_) => false,
    Mir::Concat(c) => c.iter().any(has_tags),
    Mir::Alter(a) => a.iter().any(|(e, t)| t.is_some() || has_tags(e)),
    Mir::Kleene(k) => has_tags(k),
  }
}

fn labels<'a, S>(m: &'a Mir<S, Tag>, out: &mut Vec<&'a (S, S)>) {
  match m {
    Mir::Empty => {}
    Mir::Ranges(rs) => out.extend(rs),
    Mir::Concat(c) => c.iter().for_each(|e| labels(e, out)),
    Mir::Alter(a) => a.iter().for_each(|(e, _)| labels(e, out)),
    Mir::Kleene(k) => labels(k, out),
  }
}

fn size<S>(m: &Mir<S, Tag>) -> usize {
  1 + match m {
    Mir::Empty => 0,
    Mir::Ranges(rs) => rs.len(),
    Mir::Concat(c) => c.iter().map(size).sum(),
    Mir::Alter(a) => a.iter().map(|(e, _)| size(e)).sum(),
    Mir::Kleene(k) => size(k),
  }
}

/// First and last symbol of every group of symbols the expression treats alike, and some more.
fn symbols<S: Symb>(m: &Mir<S, Tag>, rng: &mut Rng) -> Vec<S> {
  let mut v = Vec::new();
  labels(m, &mut v);
  let mut starts: BTreeSet<u32> = [0].into();
  for (l, r) in v {
    starts.insert(l.num());
    if r.num() + 1 < S::COUNT {
      starts.insert(r.num() + 1);
    }
  }
  let mut out = starts.clone();
  out.extend(starts.iter().skip(1).map(|i| i - 1));
  out.insert(S::COUNT - 1);
  for _ in 0..3 {
    out.insert(rng.below(S::COUNT as usize) as u32);
  }
  out.into_iter().map(S::sym).collect()
}

// ---------------------------------------------------------------- the stages under test

/// A nondeterministic automaton as handed out.
struct NStage<S> {
  init: usize,
  edges: HashMap<usize, Vec<(Option<Label<S>>, Vec<usize>)>>,
  tags: HashMap<usize, Tag>,
  finals: HashSet<usize>,
}

impl<S: Symb> NStage<S> {
  fn new(n: NFA<S, Tag>, what: &str) -> Result<Self, String> {
    let (fa, tags) = n.into_fa_tags();
    let edges = fa
      .states()
      .iter()
      .map(|(id, s)| (*id, s.outs().iter().map(|(l, to)| (l.clone(), to.iter().copied().collect())).collect()))
      .collect::<HashMap<usize, Vec<(Option<Label<S>>, Vec<usize>)>>>();
    ensure!(edges.contains_key(&fa.init_id()), "{what}: the initial state does not exist");
    ensure!(fa.finals().iter().all(|f| edges.contains_key(f)), "{what}: a final state does not exist");
    ensure!(tags.keys().all(|t| fa.finals().contains(t)), "{what}: a tagged state is not final");
    ensure!(
      edges.values().flatten().all(|(_, to)| to.iter().all(|t| edges.contains_key(t))),
      "{what}: an edge leads to a state that does not exist"
    );
    Ok(NStage { init: fa.init_id(), edges, tags, finals: fa.finals().clone() })
  }

  fn close(&self, mut s: Set) -> Set {
    let mut work: Vec<usize> = s.iter().copied().collect();
    while let Some(i) = work.pop() {
      for (l, to) in &self.edges[&i] {
        if l.is_none() {
          for j in to {
            if s.insert(*j) {
              work.push(*j);
            }
          }
        }
      }
    }
    s
  }

  fn step(&self, s: &Set, c: &S) -> Set {
    let n = s.iter().flat_map(|i| &self.edges[i]).filter(|(l, _)| l.as_ref().map_or(false, |l| on(l, c))).flat_map(|(_, to)| to.iter().copied()).collect();
    self.close(n)
  }

  fn tags(&self, s: &Set) -> BTreeSet<Tag> {
    s.iter().filter_map(|i| self.tags.get(i).copied()).collect()
  }
}

struct DStage<S> {
  init: usize,
  edges: HashMap<usize, Vec<(Label<S>, usize)>>,
  tags: HashMap<usize, Tag>,
}

impl<S: Symb> DStage<S> {
  fn new(d: DFA<S, Tag>) -> Result<Self, String> {
    let (fa, tags) = d.into_fa_tags();
    let edges: HashMap<usize, Vec<_>> = fa.states().iter().map(|(id, s)| (*id, s.outs().to_vec())).collect();
    ensure!(edges.contains_key(&fa.init_id()), "the deterministic automaton's initial state does not exist");
    ensure!(edges.values().flatten().all(|(_, t)| edges.contains_key(t)), "an edge of the deterministic automaton leads to a state that does not exist");
    let finals: BTreeSet<usize> = fa.finals().iter().copied().collect();
    let tagged: BTreeSet<usize> = tags.keys().copied().collect();
    ensure!(finals == tagged, "final states {finals:?} of the deterministic automaton differ from the tagged states {tagged:?}");
    Ok(DStage { init: fa.init_id(), edges, tags })
  }

  fn step(&self, s: Option<usize>, c: &S) -> Result<Option<usize>, String> {
    let Some(s) = s else { return Ok(None) };
    let mut v = self.edges[&s].iter().filter(|(l, _)| on(l, c)).map(|(_, t)| *t);
    let first = v.next();
    ensure!(v.next().is_none(), "state {s} of the deterministic automaton has several edges for {c:?}");
    Ok(first)
  }
}

// ---------------------------------------------------------------- the joint walk

#[derive(Clone, PartialEq, Eq, Hash)]
struct Joint {
  reference: Set,
  opt: Option<Set>,
  nfa: Set,
  nfa_opt: Option<Set>,
  dfa: Option<usize>,
  table: Option<usize>,
}

fn walk<S: Symb>(c: &mut Case, m: &Mir<S, Tag>, patterns: Option<(&[Vec<u32>], &dyn Fn(&[u32]) -> BTreeSet<Tag>)>) -> Verdict {
  let what = || {
    let s = format!("{m:?}");
    if s.len() > 3000 {
      format!("{}...", s.chars().take(3000).collect::<String>())
    } else {
      s
    }
  };
  let tagged = has_tags(m);
  let reference = Ref::new(m);
  let step = |n: &str, p: String| format!("{n} caused a {p} for {}", what());
  if let Some((words, tags)) = patterns {
    for w in words {
      let s = w.iter().fold(reference.close([0].into()), |s, x| reference.step(&s, &if S::COUNT == 256 { S::sym(*x) } else { ch::<S>(*x) }));
      let (got, want) = (reference.tags(&s), tags(w));
      ensure!(got == want, "the tree built from the patterns gives {w:x?} the tags {got:?}, expected {want:?}: {}", what());
      c.count("words compared with the patterns", 1);
    }
  }
  let nfa = guard(|| if c.rng.bool() { NFA::new(m.clone()) } else { NFA::from(m.clone()) }).map_err(|p| step("building the automaton", p))?;
  dump_nfa(c, &nfa)?;
  let nfa = NStage::new(nfa, "automaton")?;
  let opt = guard(|| m.clone().optimize()).map_err(|p| step("optimizing", p))?;
  let opt = opt.map_err(|e| format!("optimizing fails with \"{e}\" for {}", what()))?;
  let opt = if c.rng.chance(1, 5) {
    c.count("optimized twice", 1);
    let again = guard(|| opt.clone().optimize()).map_err(|p| step("optimizing again", p))?;
    again.map_err(|e| format!("optimizing again fails with \"{e}\" for {}", what()))?
  } else {
    opt
  };
  let opt_ref = Ref::new(&opt);
  let nfa_opt = NStage::new(guard(|| NFA::new(opt.clone())).map_err(|p| step("building the automaton of the optimized tree", p))?, "automaton of the optimized tree")?;
  let par = *c.rng.pick(&[None, Some(false), Some(true)]);
  let det = tagged
    .then(|| {
      guard(|| {
        let n = NFA::new(opt.clone());
        let d: DFA<S, Tag> = if par.is_none() && c.rng.bool() { DFA::from(n) } else { DFA::new(n, par) };
        d
      })
      .map_err(|p| step("making it deterministic", p))
    })
    .transpose()?;
  let mut dfa = None;
  let mut table = None;
  if let Some(d) = det {
    dump_dfa(c, &d)?;
    dfa = Some(DStage::new(d).map_err(|e| format!("{e}: {}", what()))?);
    // the table takes the automaton: made once more
    let t = guard(|| {
      let d: DFA<S, Tag> = DFA::new(NFA::new(opt.clone()), par);
      if c.rng.bool() {
        StateTransTable::from(d)
      } else {
        StateTransTable::new(d)
      }
    })
    .map_err(|p| step("making the table", p))?;
    table = Some(t);
  }
  let syms = symbols(m, &mut c.rng);
  let start = Joint {
    reference: reference.close([0].into()),
    opt: Some(opt_ref.close([0].into())),
    nfa: nfa.close([nfa.init].into()),
    nfa_opt: Some(nfa_opt.close([nfa_opt.init].into())),
    dfa: dfa.as_ref().map(|d| d.init),
    table: table.as_ref().map(|t| t.init_id()),
  };
  let mut ids: HashMap<Joint, usize> = HashMap::from([(start.clone(), 0)]);
  let mut path: Vec<(usize, usize)> = vec![(0, 0)];
  let mut work = vec![start];
  let max = if c.thorough { 1500 } else { 250 };
  let (mut accepted, mut refused, mut moves) = (0u64, 0u64, 0u64);
  let mut at = 0;
  while at < work.len() {
    let j = work[at].clone();
    let word = |path: &Vec<(usize, usize)>| {
      let mut w = Vec::new();
      let mut k = at;
      while k != 0 {
        w.push(&syms[path[k].1]);
        k = path[k].0;
      }
      w.reverse();
      format!("{w:?}")
    };
    let want = reference.tags(&j.reference);
    let check = |stage: &str, got: BTreeSet<Tag>, want: &BTreeSet<Tag>| -> Verdict {
      ensure!(got == *want, "{stage} gives the word {} the tags {got:?}, expected {want:?}, for {}", word(&path), what());
      Ok(())
    };
    check("the optimized tree", opt_ref.tags(j.opt.as_ref().unwrap()), &want)?;
    check("the automaton", nfa.tags(&j.nfa), &want)?;
    check("the automaton of the optimized tree", nfa_opt.tags(j.nfa_opt.as_ref().unwrap()), &want)?;
    if !tagged {
      let want = j.reference.contains(&reference.end);
      let got = [
        ("the optimized tree", j.opt.as_ref().unwrap().contains(&opt_ref.end)),
        ("the automaton", j.nfa.iter().any(|s| nfa.finals.contains(s))),
        ("the automaton of the optimized tree", j.nfa_opt.as_ref().unwrap().iter().any(|s| nfa_opt.finals.contains(s))),
      ];
      for (n, g) in got {
        ensure!(g == want, "{n} accepts the word {}: {g}, expected {want}, for {}", word(&path), what());
      }
      if want {
        accepted += 1;
      } else {
        refused += 1;
      }
    } else {
      let least: BTreeSet<Tag> = want.first().copied().into_iter().collect();
      let d = dfa.as_ref().unwrap();
      check("the deterministic automaton", j.dfa.and_then(|s| d.tags.get(&s).copied()).into_iter().collect(), &least)?;
      let t = table.as_ref().unwrap();
      check("the table", j.table.and_then(|s| t.is_final(s).copied()).into_iter().collect(), &least)?;
      if want.is_empty() {
        refused += 1;
      } else {
        accepted += 1;
      }
    }
    if work.len() >= max {
      at += 1;
      continue;
    }
    for (k, s) in syms.iter().enumerate() {
      let n = Joint {
        reference: reference.step(&j.reference, s),
        opt: j.opt.as_ref().map(|x| opt_ref.step(x, s)),
        nfa: nfa.step(&j.nfa, s),
        nfa_opt: j.nfa_opt.as_ref().map(|x| nfa_opt.step(x, s)),
        dfa: match &dfa {
          Some(d) => d.step(j.dfa, s).map_err(|e| format!("{e} after {}, for {}", word(&path), what()))?,
          None => None,
        },
        table: j.table.and_then(|x| table.as_ref().unwrap().next_state(x, s)),
      };
      moves += 1;
      if !ids.contains_key(&n) {
        ids.insert(n.clone(), work.len());
        path.push((at, k));
        work.push(n);
      }
    }
    at += 1;
  }
  c.evals(work.len() as u64);
  c.count("joint states compared", work.len() as u64);
  c.count("moves", moves);
  c.count("walks cut short", (work.len() >= max) as u64);
  c.count("tagged expressions", tagged as u64);
  if accepted > 0 && refused > 0 {
    c.distinct(&what());
  }
  c.sample(what);
  Ok(())
}

/// The symbol of a code point or byte.
fn ch<S: Symb>(x: u32) -> S {
  S::sym(if x < 0xd800 { x } else { x - 0x800 })
}

fn dump_nfa<S: Symb>(c: &mut Case, n: &NFA<S, Tag>) -> Verdict {
  if !c.rng.chance(1, 10) {
    return Ok(());
  }
  // the automaton itself is only handed out by value: what is checked here is the form
  let mut out = Vec::new();
  guard(|| n.dump(&mut out))?.map_err(|e| format!("writing an automaton fails: {e}"))?;
  let d = crate::fa::read_dump(&out)?;
  ensure!(!d.finals.is_empty(), "a written automaton has no final state");
  c.count("automata read back", 1);
  Ok(())
}

fn dump_dfa<S: Symb>(c: &mut Case, n: &DFA<S, Tag>) -> Verdict {
  if !c.rng.chance(1, 10) {
    return Ok(());
  }
  let mut out = Vec::new();
  guard(|| n.dump(&mut out))?.map_err(|e| format!("writing an automaton fails: {e}"))?;
  let d = crate::fa::read_dump(&out)?;
  let mut seen: BTreeMap<(usize, &str), usize> = BTreeMap::new();
  for (a, b, l) in &d.edges {
    if let Some(old) = seen.insert((*a, l), *b) {
      return Err(format!("the written deterministic automaton leads from {a} with {l} to {old} and {b}"));
    }
  }
  c.count("automata read back", 1);
  Ok(())
}

// ---------------------------------------------------------------- generation

struct Gen<'a, S> {
  rng: &'a mut Rng,
  pool: Vec<u32>,
  made: Vec<Mir<S, Tag>>,
}

impl<S: Symb> Gen<'_, S> {
  fn range(&mut self) -> (S, S) {
    let near = |g: &mut Self| -> u32 {
      let p = *g.rng.pick(&g.pool.clone());
      let d = g.rng.below(5) as i64 - 2;
      let d = if g.rng.bool() { 0 } else { d };
      (p as i64 + d).clamp(0, S::COUNT as i64 - 1) as u32
    };
    let a = near(self);
    let b = if self.rng.chance(2, 5) { a } else { near(self) };
    (S::sym(a.min(b)), S::sym(a.max(b)))
  }

  fn ranges(&mut self) -> Mir<S, Tag> {
    let n = *self.rng.pick(&[1, 1, 1, 2, 2, 3, 4, 6]);
    Mir::Ranges((0..n).map(|_| self.range()).collect())
  }

  fn mir(&mut self, depth: usize) -> Mir<S, Tag> {
    // repeated parts, so that alternatives share beginnings
    if !self.made.is_empty() && self.rng.chance(1, 4) {
      return self.rng.pick(&self.made).clone();
    }
    let m = if depth == 0 {
      self.leaf()
    } else {
      match self.rng.below(9) {
        0 | 1 => self.leaf(),
        2..=4 => {
          let n = self.rng.range(1, 5);
          Mir::Concat((0..n).map(|_| self.mir(depth - 1)).collect())
        }
        5 | 6 => {
          let n = self.rng.range(1, 4);
          Mir::Alter((0..n).map(|_| (self.mir(depth - 1), None)).collect())
        }
        7 => {
          // alternatives with the same beginning
          let head: Vec<_> = (0..self.rng.range(1, 3)).map(|_| self.mir(0)).collect();
          let n = self.rng.range(2, 4);
          Mir::Alter(
            (0..n)
              .map(|_| {
                let mut v = head.clone();
                for _ in 0..self.rng.below(3) {
                  v.push(self.mir(depth - 1));
                }
                (Mir::Concat(v), None)
              })
              .collect(),
          )
        }
        _ => Mir::Kleene(Box::new(self.mir(depth - 1))),
      }
    };
    if size(&m) < 12 {
      self.made.push(m.clone());
    }
    m
  }

  fn leaf(&mut self) -> Mir<S, Tag> {
    if self.rng.chance(1, 8) {
      Mir::Empty
    } else {
      self.ranges()
    }
  }

  fn top(&mut self) -> Mir<S, Tag> {
    let depth = self.rng.range(0, 4);
    if self.rng.chance(1, 6) {
      return self.mir(depth);
    }
    let n = self.rng.range(1, 5);
    let shared: Option<Vec<_>> = self.rng.chance(1, 3).then(|| (0..self.rng.range(1, 2)).map(|_| self.mir(0)).collect());
    let kinds = self.rng.range(1, 6);
    let a = Mir::Alter(
      (0..n)
        .map(|_| {
          let t = self.rng.below(kinds);
          let e = self.mir(depth);
          let e = match &shared {
            Some(h) => Mir::Concat(h.iter().cloned().chain(Some(e)).collect()),
            None => e,
          };
          (e, Some(t))
        })
        .collect(),
    );
    if self.rng.chance(1, 6) {
      // something in front of all
      return Mir::Concat(vec![self.mir(1), a]);
    }
    a
  }
}

fn built<S: Symb>(c: &mut Case) -> Verdict {
  let mut rng = c.rng.fork();
  let limit = if c.thorough { 160 } else { 80 };
  let m = loop {
    let pool = S::pool(&mut rng);
    let m: Mir<S, Tag> = Gen { rng: &mut rng, pool, made: vec![] }.top();
    if size(&m) <= limit {
      break m;
    }
  };
  if rng.chance(1, 30) {
    return empty_lists(c, m, &mut rng);
  }
  walk(c, &m, None)
}

/// Expressions with an empty list of ranges somewhere may be refused, but cause no panic.
fn empty_lists<S: Symb>(c: &mut Case, mut m: Mir<S, Tag>, rng: &mut Rng) -> Verdict {
  fn spoil<S>(m: &mut Mir<S, Tag>, rng: &mut Rng) {
    match m {
      Mir::Empty => *m = Mir::Ranges(vec![]),
      Mir::Ranges(rs) => rs.clear(),
      Mir::Concat(c) => {
        let k = rng.below(c.len());
        spoil(&mut c[k], rng)
      }
      Mir::Alter(a) => {
        let k = rng.below(a.len());
        spoil(&mut a[k].0, rng)
      }
      Mir::Kleene(k) => spoil(k, rng),
    }
  }
  spoil(&mut m, rng);
  let what = format!("{m:?}");
  let r = guard(|| m.optimize()).map_err(|p| format!("optimizing caused a {p} for {what}"))?;
  ensure!(r.is_err(), "optimizing an expression with an empty list of ranges gives {r:?}, expected an error, for {what}");
  c.count("empty lists refused", 1);
  c.distinct(&what);
  Ok(())
}

fn patterns<S: Symb>(c: &mut Case, mode: Mode) -> Verdict
where
  Mir<S, Tag>: MirBuilder,
{
  let mut rng = c.rng.fork();
  let set = loop {
    let set = if rng.chance(1, 10) { gen_long(&mut rng, mode, 3) } else { gen_set_of(&mut rng, mode, 4, 90, false) };
    if set.pats.iter().map(|p| p.1.weight()).sum::<usize>() <= 150 {
      break set;
    }
  };
  let mut alts = Vec::new();
  for (p, _, t) in &set.pats {
    let hir = parse(p, mode.utf8()).map_err(|e| format!("harness: {p:?}: {e}"))?;
    let m = guard(|| if rng.bool() { Mir::new(hir) } else { Mir::try_from(hir) })
      .map_err(|e| format!("translating {p:?} caused a {e}"))?
      .map_err(|e| format!("translating {p:?} fails: {e}"))?;
    alts.push((m, Some(*t)));
  }
  let m = Mir::Alter(alts);
  if size(&m) > 600 {
    return Ok(());
  }
  let words: Vec<Vec<u32>> = (0..10).map(|_| gen_string(&mut rng, &set, set.cap(12))).filter(|w| w.len() < 120).collect();
  c.count("expressions from patterns", 1);
  walk(c, &m, Some((&words, &|w| set.pats.iter().filter(|p| p.1.matches(w)).map(|p| p.2).collect())))
}

pub fn x08(c: &mut Case) -> Verdict {
  match c.rng.below(10) {
    0..=4 => built::<Small>(c),
    5 => built::<u8>(c),
    6 | 7 => built::<char>(c),
    8 => patterns::<u8>(c, if c.index % 2 == 0 { Mode::ByteUtf8 } else { Mode::ByteBytes }),
    _ => patterns::<char>(c, if c.index % 3 == 0 { Mode::CharBytes } else { Mode::CharUtf8 }),
  }
}
