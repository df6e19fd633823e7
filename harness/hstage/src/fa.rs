//! X09: automata as data: operations, closures, the textual form.

use laps_regex::fa::{CachedClosures, Closure, ClosureBuilder, DenseFA, DenseState, FiniteAutomaton, MultiFA, MultiState, State};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use vmon::{ensure, guard, Case, Rng, Verdict};

// ---------------------------------------------------------------- reading a dump

pub struct Dump {
  pub finals: BTreeSet<usize>,
  pub edges: Vec<(usize, usize, String)>,
}

#[derive(Debug, PartialEq, Clone)]
enum Tok {
  Id(String),
  Str(String),
  Arrow,
  P(char),
}

fn tokens(s: &str) -> Result<Vec<Tok>, String> {
  let mut out = Vec::new();
  let mut it = s.chars().peekable();
  while let Some(c) = it.next() {
    match c {
      c if c.is_whitespace() => {}
      '"' => {
        let mut t = String::new();
        loop {
          match it.next() {
            None => return Err("unterminated string".into()),
            Some('"') => break,
            Some('\\') => match it.next() {
              Some('"') => t.push('"'),
              Some('\\') => t.push('\\'),
              // line breaks in labels
              Some('n' | 'l' | 'r') => t.push('\n'),
              Some(c) => {
                t.push('\\');
                t.push(c);
              }
              None => return Err("unterminated string".into()),
            },
            Some(c) => t.push(c),
          }
        }
        out.push(Tok::Str(t));
      }
      '-' if it.peek() == Some(&'>') => {
        it.next();
        out.push(Tok::Arrow);
      }
      '{' | '}' | '[' | ']' | '=' | ';' | ',' => out.push(Tok::P(c)),
      c if c.is_alphanumeric() || c == '_' => {
        let mut t = String::from(c);
        while let Some(c) = it.peek().copied().filter(|c| c.is_alphanumeric() || *c == '_' || *c == '.') {
          t.push(c);
          it.next();
        }
        out.push(Tok::Id(t));
      }
      c => return Err(format!("stray {c:?}")),
    }
  }
  Ok(out)
}

/// Reads the subset of the Graphviz language that describes an automaton.
pub fn read_dump(bytes: &[u8]) -> Result<Dump, String> {
  let s = std::str::from_utf8(bytes).map_err(|e| format!("a dump is not text: {e}"))?;
  parse(s).map_err(|e| format!("a dump is not a Graphviz digraph ({e}): {s}"))
}

fn parse(s: &str) -> Result<Dump, String> {
  let t = tokens(s)?;
  let mut d = Dump { finals: BTreeSet::new(), edges: vec![] };
  let mut i = 0;
  let mut double = false;
  let id = |t: Option<&Tok>| match t {
    Some(Tok::Id(s) | Tok::Str(s)) => Ok(s.clone()),
    t => Err(format!("{t:?} instead of a name")),
  };
  ensure!(id(t.first())? == "digraph", "no digraph");
  i += 1;
  if t.get(i) != Some(&Tok::P('{')) {
    id(t.get(i))?;
    i += 1;
  }
  ensure!(t.get(i) == Some(&Tok::P('{')), "no opening brace");
  i += 1;
  loop {
    match t.get(i) {
      Some(Tok::P('}')) => break,
      Some(Tok::Id(_) | Tok::Str(_)) => {}
      x => return Err(format!("a statement starts with {x:?}")),
    }
    let name = id(t.get(i))?;
    i += 1;
    let mut to = None;
    let mut attrs: BTreeMap<String, String> = BTreeMap::new();
    if t.get(i) == Some(&Tok::Arrow) {
      to = Some(id(t.get(i + 1))?);
      i += 2;
    } else if t.get(i) == Some(&Tok::P('=')) {
      id(t.get(i + 1))?;
      i += 2;
      if t.get(i) == Some(&Tok::P(';')) {
        i += 1;
      }
      continue;
    }
    while t.get(i) == Some(&Tok::P('[')) {
      i += 1;
      while t.get(i) != Some(&Tok::P(']')) {
        let k = id(t.get(i))?;
        ensure!(t.get(i + 1) == Some(&Tok::P('=')), "no = after attribute {k}");
        attrs.insert(k, id(t.get(i + 2))?);
        i += 3;
        if matches!(t.get(i), Some(Tok::P(',' | ';'))) {
          i += 1;
        }
      }
      i += 1;
    }
    if t.get(i) == Some(&Tok::P(';')) {
      i += 1;
    }
    let num = |s: &str| s.parse::<usize>().map_err(|_| format!("state {s:?} is not a number"));
    match to {
      Some(to) => {
        let label = attrs.remove("label").ok_or("an edge without a label")?;
        d.edges.push((num(&name)?, num(&to)?, label));
      }
      None if name == "node" => {
        if let Some(s) = attrs.get("shape") {
          double = s == "doublecircle";
        }
      }
      None if name == "graph" || name == "edge" => {}
      None => {
        let own = attrs.get("shape").map_or(double, |s| s == "doublecircle");
        if own {
          d.finals.insert(num(&name)?);
        }
      }
    }
  }
  ensure!(i + 1 == t.len(), "text behind the closing brace");
  Ok(d)
}

// ---------------------------------------------------------------- symbols

trait Sy: Clone + Eq + Hash + Ord + Debug {
  fn gen(r: &mut Rng) -> Self;
}

impl Sy for u8 {
  fn gen(r: &mut Rng) -> Self {
    r.below(5) as u8
  }
}

impl Sy for char {
  fn gen(r: &mut Rng) -> Self {
    *r.pick(&['a', 'b', '"', '\\', '\n', '\'', '\u{0}', 'é', '漢', '\u{10ffff}', ']', ';', '\r', '\u{301}'])
  }
}

impl Sy for String {
  fn gen(r: &mut Rng) -> Self {
    r.pick(&["", "a", "\"", "\\", "a\"b", "\\\"", "x -> y", "\n", "]", "\\n"]).to_string()
  }
}

impl<T: Sy> Sy for Option<T> {
  fn gen(r: &mut Rng) -> Self {
    r.chance(2, 3).then(|| T::gen(r))
  }
}

impl<T: Sy> Sy for Vec<(T, T)> {
  fn gen(r: &mut Rng) -> Self {
    (0..r.range(1, 2)).map(|_| (T::gen(r), T::gen(r))).collect()
  }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Default, Debug)]
struct Model<S> {
  init: usize,
  /// Edges in order, as added.
  states: BTreeMap<usize, Vec<(S, usize)>>,
  finals: BTreeSet<usize>,
}

/// What differs between the two kinds of states.
trait Kind<S: Sy>: State<S> {
  fn same(&self, want: &[(S, usize)], probe: &S) -> Verdict;
  /// How often each edge is written.
  fn written(want: &[(S, usize)]) -> Vec<(S, usize)>;
}

impl<S: Sy> Kind<S> for DenseState<S> {
  fn same(&self, want: &[(S, usize)], probe: &S) -> Verdict {
    ensure!(self.outs() == want, "the edges are {:?}, expected {want:?}", self.outs());
    let first = want.iter().find(|(s, _)| s == probe).map(|e| e.1);
    ensure!(self.next_state(probe) == first, "{probe:?} leads to {:?}, expected {first:?}", self.next_state(probe));
    Ok(())
  }
  fn written(want: &[(S, usize)]) -> Vec<(S, usize)> {
    want.to_vec()
  }
}

impl<S: Sy> Kind<S> for MultiState<S> {
  fn same(&self, want: &[(S, usize)], _: &S) -> Verdict {
    let got: BTreeSet<(&S, usize)> = self.outs().iter().flat_map(|(s, v)| v.iter().map(move |t| (s, *t))).collect();
    let w: BTreeSet<(&S, usize)> = want.iter().map(|(s, t)| (s, *t)).collect();
    ensure!(got == w, "the edges are {got:?}, expected {w:?}");
    Ok(())
  }
  fn written(want: &[(S, usize)]) -> Vec<(S, usize)> {
    want.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
  }
}

fn compare<S: Sy, K: Kind<S>>(fa: &FiniteAutomaton<S, K>, m: &Model<S>, rng: &mut Rng) -> Verdict {
  ensure!(fa.init_id() == m.init, "the initial state is {}, expected {}", fa.init_id(), m.init);
  let ids: BTreeSet<usize> = fa.states().keys().copied().collect();
  let want: BTreeSet<usize> = m.states.keys().copied().collect();
  ensure!(ids == want, "the states are {ids:?}, expected {want:?}");
  let finals: BTreeSet<usize> = fa.finals().iter().copied().collect();
  ensure!(finals == m.finals, "the final states are {finals:?}, expected {:?}", m.finals);
  let one = (m.finals.len() == 1).then(|| *m.finals.first().unwrap());
  ensure!(fa.final_id() == one, "the one final state is {:?}, expected {one:?}", fa.final_id());
  for (id, e) in &m.states {
    let s = fa.state(*id).ok_or_else(|| format!("state {id} is missing"))?;
    s.same(e, &S::gen(rng)).map_err(|x| format!("state {id}: {x}"))?;
  }
  fa.init().same(&m.states[&m.init], &S::gen(rng)).map_err(|x| format!("the initial state: {x}"))?;
  let none = usize::MAX - rng.below(3);
  ensure!(fa.state(none).is_none(), "there is a state {none}");
  Ok(())
}

fn history<S: Sy, K: Kind<S>>(c: &mut Case) -> Result<(FiniteAutomaton<S, K>, Model<S>), String> {
  let mut pool: Vec<(FiniteAutomaton<S, K>, Model<S>)> = Vec::new();
  let mut known: BTreeSet<usize> = BTreeSet::new();
  let mut log = String::new();
  let ops = c.rng.range(3, if c.thorough { 120 } else { 50 });
  let fresh = |known: &mut BTreeSet<usize>, id: usize| -> Verdict {
    ensure!(known.insert(id), "the new state {id} existed before");
    Ok(())
  };
  for k in 0..ops {
    if pool.is_empty() || c.rng.chance(1, 14) {
      let fa = if c.rng.bool() { FiniteAutomaton::new() } else { FiniteAutomaton::default() };
      let id = fa.init_id();
      fresh(&mut known, id)?;
      log.push_str("new ");
      pool.push((fa, Model { init: id, states: [(id, vec![])].into(), finals: BTreeSet::new() }));
    }
    let at = c.rng.below(pool.len());
    let n = pool.len();
    let any = |r: &mut Rng, m: &Model<S>| *r.pick(&m.states.keys().copied().collect::<Vec<_>>());
    let (fa, m) = &mut pool[at];
    let op = c.rng.weighted(&[6, 4, 14, 3, 4, 3, 3]);
    let verdict: Verdict = match op {
      0 => {
        let id = fa.add_state();
        m.states.insert(id, vec![]);
        fresh(&mut known, id)
      }
      1 => {
        let id = fa.add_final_state();
        m.states.insert(id, vec![]);
        m.finals.insert(id);
        fresh(&mut known, id)
      }
      2 => {
        let (id, to, s) = (any(&mut c.rng, m), any(&mut c.rng, m), S::gen(&mut c.rng));
        m.states.get_mut(&id).unwrap().push((s.clone(), to));
        match fa.state_mut(id) {
          Some(st) => {
            st.add(s, to);
            Ok(())
          }
          None => Err(format!("state {id} cannot be changed")),
        }
      }
      3 => {
        let (to, s) = (any(&mut c.rng, m), S::gen(&mut c.rng));
        m.states.get_mut(&m.init).unwrap().push((s.clone(), to));
        fa.init_mut().add(s, to);
        Ok(())
      }
      4 | 5 => {
        let there = c.rng.chance(4, 5);
        let id = if there { any(&mut c.rng, m) } else { usize::MAX };
        let (ok, what) = if op == 4 {
          if there {
            m.finals.insert(id);
          }
          (fa.set_final_state(id), "final")
        } else {
          m.finals.remove(&id);
          (fa.set_normal_state(id), "normal")
        };
        if ok == there {
          Ok(())
        } else {
          Err(format!("making state {id} {what} gives {ok}, expected {there}"))
        }
      }
      _ => {
        if n > 1 {
          let other = pool.remove((at + 1) % n);
          let at = if (at + 1) % n < at { at - 1 } else { at };
          let (fa, m) = &mut pool[at];
          fa.union(other.0);
          m.states.extend(other.1.states);
          m.finals.extend(other.1.finals);
          c.count("unions", 1);
          // an edge into the other part
          let (id, s) = (m.init, S::gen(&mut c.rng));
          m.states.get_mut(&id).unwrap().push((s.clone(), other.1.init));
          fa.init_mut().add(s, other.1.init);
        }
        Ok(())
      }
    };
    log.push_str(["add ", "add final ", "edge ", "first edge ", "final ", "normal ", "union "][op]);
    verdict.map_err(|e| format!("operation {k}: {e} (operations: {log})"))?;
    if c.rng.chance(1, 4) {
      for (fa, m) in &pool {
        compare(fa, m, &mut c.rng).map_err(|e| format!("after operation {k}: {e} (operations: {log})"))?;
      }
    }
    c.count("operations", 1);
  }
  for (fa, m) in &pool {
    compare(fa, m, &mut c.rng).map_err(|e| format!("at the end: {e} (operations: {log})"))?;
    if m.finals.is_empty() {
      c.count("automata without final states", 1);
    }
    let mut out = Vec::new();
    fa.dump(&mut out).map_err(|e| format!("writing fails: {e}"))?;
    let d = read_dump(&out)?;
    ensure!(d.finals == m.finals, "the written final states are {:?}, expected {:?}", d.finals, m.finals);
    let mut want: Vec<(usize, usize, String)> =
      m.states.iter().flat_map(|(a, e)| K::written(e).into_iter().map(|(s, b)| (*a, b, format!("{s:?}"))).collect::<Vec<_>>()).collect();
    let mut got = d.edges;
    want.sort();
    got.sort();
    ensure!(got == want, "the written edges are {got:?}, expected {want:?}");
    c.count("written edges read back", got.len() as u64);
  }
  let k = c.rng.below(pool.len());
  c.distinct(&format!("{log}{:?}", pool[k].1));
  c.sample(|| log.clone());
  Ok(pool.swap_remove(k))
}

fn closures<S: Sy>(c: &mut Case, fa: MultiFA<Option<S>>, m: &Model<Option<S>>) -> Verdict {
  let cb = guard(|| ClosureBuilder::from(fa))?;
  let want: BTreeSet<S> = m.states.values().flatten().filter_map(|(s, _)| s.clone()).collect();
  let got: BTreeSet<S> = cb.symbol_set().into_iter().collect();
  ensure!(got == want, "the symbols are {got:?}, expected {want:?}");
  let close = |mut s: Closure| {
    let mut work: Vec<usize> = s.iter().copied().collect();
    while let Some(i) = work.pop() {
      for (l, to) in &m.states[&i] {
        if l.is_none() && s.insert(*to) {
          work.push(*to);
        }
      }
    }
    s
  };
  let ids: Vec<usize> = m.states.keys().copied().collect();
  let mut cache = CachedClosures::new();
  let mut last = Closure::new();
  for _ in 0..c.rng.range(1, 25) {
    if c.rng.bool() {
      let n = c.rng.below(4);
      let s: Closure = if c.rng.chance(1, 4) { last.clone() } else { (0..n).map(|_| *c.rng.pick(&ids)).collect() };
      let got = guard(|| cb.epsilon_closure(&mut cache, s.clone()))?;
      let want = close(s.clone());
      ensure!(got == want, "the closure of {s:?} is {got:?}, expected {want:?}, in {m:?}");
      last = got;
    } else {
      let s: Closure = if c.rng.chance(2, 3) { last.clone() } else { [*c.rng.pick(&ids)].into() };
      let sym = S::gen(&mut c.rng);
      let next: Closure = s.iter().flat_map(|i| &m.states[i]).filter(|(l, _)| l.as_ref() == Some(&sym)).map(|e| e.1).collect();
      let want = close(next);
      let got = guard(|| cb.state_closure(&mut cache, &s, &sym))?;
      ensure!(got == want, "from {s:?}, {sym:?} leads to {got:?}, expected {want:?}, in {m:?}");
      last = got;
    }
    if c.rng.chance(1, 8) {
      cache = CachedClosures::new();
    }
    c.count("closures compared", 1);
  }
  Ok(())
}

pub fn x09(c: &mut Case) -> Verdict {
  match c.rng.below(7) {
    0 => history::<u8, DenseState<u8>>(c).map(|_| ()),
    1 => history::<Vec<(char, char)>, DenseState<_>>(c).map(|_| ()),
    2 => history::<String, MultiState<String>>(c).map(|_| ()),
    3 => {
      let r: (DenseFA<char>, _) = history(c)?;
      let _ = r;
      Ok(())
    }
    4 | 5 => {
      let (fa, m) = history::<Option<u8>, MultiState<_>>(c)?;
      closures(c, fa, &m)
    }
    _ => {
      let (fa, m) = history::<Option<Vec<(char, char)>>, MultiState<_>>(c)?;
      closures(c, fa, &m)
    }
  }
}
