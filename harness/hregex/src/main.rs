//! Monitors of the regex compiler (X01-X07).

mod gen;
mod re;

use gen::*;
use laps_regex::mir::Error as MirError;
use laps_regex::re::{BytesMatcher, CharsMatcher, Error, RegexBuilder};
use laps_regex::table::StateTransTable;
use re::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use vmon::{ensure, guard, Case, CountingAlloc, Prop, Rng, Verdict};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

// ---------------------------------------------------------------- the code under test, by symbols

/// A matcher of either symbol type, driven with numeric symbols.
enum M {
  C(CharsMatcher<usize>),
  B(BytesMatcher<usize>),
}

fn ch(c: u32) -> char {
  char::from_u32(c).expect("valid symbol")
}

fn show(s: &[u32], kind: Kind) -> String {
  if s.len() > 800 {
    return format!("{}… ({} symbols)", show(&s[..100], kind), s.len());
  }
  match kind {
    Kind::Char => format!("{:?}", s.iter().map(|c| ch(*c)).collect::<String>()),
    Kind::Byte => format!("{:x?}", s),
  }
}

impl M {
  fn state(&self) -> usize {
    match self {
      M::C(m) => m.state(),
      M::B(m) => m.state(),
    }
  }
  fn accept(&mut self, s: u32) -> bool {
    match self {
      M::C(m) => m.is_accept(&ch(s)),
      M::B(m) => m.is_accept(&(s as u8)),
    }
  }
  fn is_final(&self) -> Option<usize> {
    match self {
      M::C(m) => m.is_final().copied(),
      M::B(m) => m.is_final().copied(),
    }
  }
  fn state_final(&self, id: usize) -> Option<usize> {
    match self {
      M::C(m) => m.is_state_final(id).copied(),
      M::B(m) => m.is_state_final(id).copied(),
    }
  }
  fn reset(&mut self) {
    match self {
      M::C(m) => m.reset(),
      M::B(m) => m.reset(),
    }
  }
  fn seq(&self, s: &[u32]) -> Option<usize> {
    match self {
      M::C(m) => m.is_match(&s.iter().map(|c| ch(*c)).collect::<Vec<_>>()).copied(),
      M::B(m) => m.is_match(&s.iter().map(|c| *c as u8).collect::<Vec<_>>()).copied(),
    }
  }
  /// The answer for the text form, when the symbols are text.
  fn text(&self, s: &[u32]) -> Option<Option<usize>> {
    match self {
      M::C(m) => Some(m.is_str_match(&s.iter().map(|c| ch(*c)).collect::<String>()).copied()),
      M::B(m) => {
        let b: Vec<u8> = s.iter().map(|c| *c as u8).collect();
        std::str::from_utf8(&b).ok().map(|t| m.is_str_match(t).copied())
      }
    }
  }
  fn table(self) -> Tab {
    match self {
      M::C(m) => Tab::new(m.into(), |c| c as u32),
      M::B(m) => Tab::new(m.into(), |c| c as u32),
    }
  }
}

fn builder(set: &PatSet, par: Option<Option<bool>>) -> RegexBuilder<usize> {
  let mut b = RegexBuilder::new();
  for (p, _, t) in &set.pats {
    b = b.add(p, *t);
  }
  if let Some(p) = par {
    b = b.enable_par(p);
  }
  b
}

fn build(set: &PatSet, par: Option<Option<bool>>) -> Result<M, String> {
  let b = builder(set, par);
  let r = guard(|| match set.mode {
    Mode::CharUtf8 => b.build().map(M::C),
    Mode::CharBytes => b.build_bytes().map(M::C),
    Mode::ByteUtf8 => b.build().map(M::B),
    Mode::ByteBytes => b.build_bytes().map(M::B),
  });
  match r {
    Ok(Ok(m)) => Ok(m),
    Ok(Err(e)) => Err(format!("building {} failed: {e}", set.show())),
    Err(p) => Err(format!("building {} caused a {p}", set.show())),
  }
}

/// The exported table in plain numbers.
struct Tab {
  table: Vec<usize>,
  init: usize,
  n: usize,
  syms: Vec<(u32, u32, usize)>,
  tags: BTreeMap<usize, usize>,
  next: Box<dyn Fn(usize, u32) -> Option<usize>>,
  fin: Box<dyn Fn(usize) -> Option<usize>>,
}

trait Sym: Ord + Copy + 'static {
  fn of(c: u32) -> Self;
}
impl Sym for char {
  fn of(c: u32) -> char {
    ch(c)
  }
}
impl Sym for u8 {
  fn of(c: u32) -> u8 {
    c as u8
  }
}

impl Tab {
  fn new<S: Sym>(t: StateTransTable<S, usize>, num: fn(S) -> u32) -> Tab {
    let t = std::rc::Rc::new(t);
    let (t1, t2) = (t.clone(), t.clone());
    Tab {
      table: t.table().to_vec(),
      init: t.init_id(),
      n: t.num_states(),
      syms: t.sym_map().iter().map(|(r, (l, i))| (num(*l), num(*r), *i)).collect(),
      tags: t.tags().iter().map(|(k, v)| (*k, *v)).collect(),
      next: Box::new(move |id, c| t1.next_state(id, &S::of(c))),
      fin: Box::new(move |id| t2.is_final(id).copied()),
    }
  }

  /// Lookup through the exported parts only.
  fn look(&self, id: usize, c: u32) -> Option<usize> {
    let i = self.syms.partition_point(|s| s.1 < c);
    match self.syms.get(i) {
      Some(&(l, _, e)) if l <= c => {
        let n = self.table[e * self.n + id];
        (n < self.n).then_some(n)
      }
      _ => None,
    }
  }

  /// Semantic content: for every state in breadth-first order, its tag and its maximal ranges with
  /// targets.  Equal for equal matchers, whatever the numbering.
  fn canonical(&self, kind: Kind) -> (usize, Vec<(Option<usize>, Vec<(u32, u32, usize)>)>) {
    let mut order: HashMap<usize, usize> = HashMap::from([(self.init, 0)]);
    let mut queue = VecDeque::from([self.init]);
    let mut out = Vec::new();
    while let Some(s) = queue.pop_front() {
      let mut row: Vec<(u32, u32, usize)> = Vec::new();
      for &(l, r, e) in &self.syms {
        let n = self.table[e * self.n + s];
        if n >= self.n {
          continue;
        }
        let k = order.len();
        let id = *order.entry(n).or_insert(k);
        if id == k {
          queue.push_back(n);
        }
        match row.last_mut() {
          Some(x) if x.2 == id && (x.1 + 1 == l || (kind == Kind::Char && x.1 == 0xd7ff && l == 0xe000)) => x.1 = r,
          _ => row.push((l, r, id)),
        }
      }
      out.push((self.tags.get(&s).copied(), row));
    }
    (self.n, out)
  }
}

// ---------------------------------------------------------------- workloads

const MAX_STATES: usize = 250;

fn pick_set(case: &mut Case, mode: Mode, max_pats: usize) -> (PatSet, Model) {
  loop {
    let (w, p) = if case.thorough { (400, max_pats + 3) } else { (160, max_pats) };
    let set = if case.rng.chance(1, 8) {
      gen_long(&mut case.rng, mode, p)
    } else {
      gen_set_of(&mut case.rng, mode, p, w, mode == Mode::CharUtf8)
    };
    if let Some(m) = affordable(&set) {
      return (set, m);
    }
  }
}

/// The model of a set the code under test can compile in reasonable time: overlapping classes of
/// hundreds of ranges each cost it one automaton state per range, so those come alone only.
fn affordable(set: &PatSet) -> Option<Model> {
  let mut distinct: HashSet<&Ranges> = HashSet::new();
  for (_, re, _) in &set.pats {
    let mut v = Vec::new();
    re.sets(&mut v);
    distinct.extend(v);
  }
  let ranges: usize = distinct.iter().map(|r| r.len()).sum();
  if distinct.len() > 1 && ranges > 90 {
    return None;
  }
  set.model(MAX_STATES).filter(|m| m.atoms.len() <= 150 || distinct.len() == 1)
}

fn char_mode(rng: &mut Rng) -> Mode {
  if rng.chance(1, 6) {
    Mode::CharBytes
  } else {
    Mode::CharUtf8
  }
}

fn byte_mode(rng: &mut Rng) -> Mode {
  if rng.chance(1, 4) {
    Mode::ByteUtf8
  } else {
    Mode::ByteBytes
  }
}

fn any_mode(rng: &mut Rng) -> Mode {
  if rng.chance(1, 3) {
    byte_mode(rng)
  } else {
    char_mode(rng)
  }
}

/// The strings a matcher is asked about: one through every pair of (model state, matcher state),
/// continued by ends of every symbol group, then random members and near misses.
fn strings(case: &mut Case, set: &PatSet, model: &Model, m: Option<&mut M>) -> Vec<Vec<u32>> {
  let mut out: Vec<Vec<u32>> = vec![vec![]];
  let kind = set.mode.kind();
  let rng = &mut case.rng;
  // access strings of the model
  let mut access: Vec<Vec<u32>> = vec![vec![]];
  if let Some(m) = m {
    let mut seen: HashSet<(usize, usize)> = HashSet::new();
    let mut queue: VecDeque<(Vec<u32>, usize)> = VecDeque::new();
    m.reset();
    seen.insert((0, m.state()));
    queue.push_back((vec![], 0));
    while let Some((s, st)) = queue.pop_front() {
      if access.len() > 400 {
        break;
      }
      for g in 0..model.groups.len() {
        let Some(n) = model.trans[st][g] else { continue };
        let c = model.reps(rng, g, 1)[0];
        m.reset();
        let mut ok = true;
        for x in &s {
          ok &= m.accept(*x);
        }
        ok &= m.accept(c);
        let key = (n, if ok { m.state() } else { usize::MAX });
        if seen.insert(key) {
          let mut t = s.clone();
          t.push(c);
          access.push(t.clone());
          if ok {
            queue.push_back((t, n));
          }
        }
      }
    }
    m.reset();
  }
  let ngroups = model.groups.len();
  for a in &access {
    out.push(a.clone());
    let st = model.run(a).expect("access string");
    for g in 0..ngroups {
      if ngroups > 40 && model.trans[st][g].is_none() && rng.chance(2, 3) {
        continue;
      }
      for c in model.reps(rng, g, 3) {
        let mut t = a.clone();
        t.push(c);
        out.push(t);
      }
    }
    if out.len() > 6000 {
      break;
    }
  }
  for _ in 0..60 {
    let s = gen_string(rng, set, set.cap(24));
    debug_assert!(s.iter().all(|c| kind.valid(*c)));
    out.push(s);
  }
  out
}

fn check_language(case: &mut Case, set: &PatSet, model: &Model, only_member: bool, tag_only: bool) -> Verdict {
  let kind = set.mode.kind();
  case.sample(|| set.show());
  let mut m = build(set, None)?;
  let mut all = strings(case, set, model, Some(&mut m));
  if case.rng.chance(1, 4) {
    let mut s = Vec::new();
    if stretch(&mut case.rng, set, model, &mut s) {
      case.count("strings of hundreds of symbols", 1);
      all.push(s.clone());
      s.pop();
      all.push(s);
    }
  }
  let mut matched = 0;
  for (i, s) in all.iter().enumerate() {
    let want = model.tag_of(s);
    if i % 7 == 0 && s.len() < 125 {
      assert_eq!(want, set.dp_tag(s), "the two oracles disagree on {} for {}", show(s, kind), set.show());
    }
    matched += want.is_some() as u64;
    for (how, got) in [("is_match", Some(m.seq(s))), ("is_str_match", m.text(s))] {
      let Some(got) = got else { continue };
      let ctx = || format!("{how}({}) is {got:?} for {}", show(s, kind), set.show());
      if only_member {
        ensure!(got.is_some() == want.is_some(), "{}: the languages say {:?}", ctx(), want);
        if let Some(t) = got {
          ensure!(
            s.len() >= 125 || set.pats.iter().any(|(_, r, tag)| *tag == t && r.matches(s)),
            "{}: no expression with that tag matches",
            ctx()
          );
        }
      } else if tag_only {
        if want.is_some() {
          ensure!(got == want, "{}: the smallest matching tag is {:?}", ctx(), want);
        }
      } else {
        ensure!(got == want, "{}: expected {:?}", ctx(), want);
      }
    }
  }
  case.evals(all.len() as u64);
  case.count("strings asked", all.len() as u64);
  case.count("strings matching", matched);
  case.count("model states", model.trans.len() as u64);
  if model.trans.len() > 1 && matched > 0 && matched < all.len() as u64 {
    case.distinct(&set.show());
  }
  Ok(())
}

/// Repetition counts in the hundreds; how many repetitions a text is made of
/// is known because it was made of them.
fn counts(case: &mut Case, mode: Mode) -> Verdict {
  let rng = &mut case.rng;
  // units, none of whose members begins another
  let units: [(&str, &[&str]); 5] = [("a", &["a"]), ("[a-c]", &["a", "b", "c"]), ("(?:ab)", &["ab"]), ("(?:ab|c)", &["ab", "c"]), ("[ -~]", &["x", " ", "~", "0"])];
  let (unit, members) = *rng.pick(&units);
  let edge = |rng: &mut Rng| *rng.pick(&[16usize, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300]);
  let lo = if rng.bool() { rng.below(4) } else { edge(rng) };
  let hi = match rng.below(4) {
    0 => None,
    1 => Some(lo),
    _ => Some(lo + edge(rng).min(if lo > 100 { 64 } else { 260 })),
  };
  let count = match hi {
    None => format!("{{{lo},}}"),
    Some(h) if h == lo => format!("{{{lo}}}"),
    Some(h) => format!("{{{lo},{h}}}"),
  };
  let (pre, post) = (*rng.pick(&["", "", "!"]), *rng.pick(&["", "", "\\n"]));
  let set = PatSet { mode, pats: vec![(format!("{pre}{unit}{count}{post}"), Re::Empty, 7)] };
  case.distinct(&format!("{mode:?} {}", set.pats[0].0));
  case.sample(|| set.show());
  let m = build(&set, None)?;
  let rng = &mut case.rng;
  let mut lens = vec![0, 1, lo.saturating_sub(1), lo, lo + 1, 255, 256, 257];
  if let Some(h) = hi {
    lens.extend([h.saturating_sub(1), h, h + 1, 2 * h]);
  }
  for _ in 0..8 {
    lens.push(rng.below(hi.unwrap_or(lo + 40) + 20));
  }
  let mut checks = 0;
  for k in lens {
    let mut text: Vec<u32> = pre.chars().map(|c| c as u32).collect();
    for _ in 0..k {
      text.extend(rng.pick(members).chars().map(|c| c as u32));
    }
    if !post.is_empty() {
      text.push('\n' as u32);
    }
    let inside = k >= lo && hi.map_or(true, |h| k <= h);
    let broken = !text.is_empty() && rng.chance(1, 6);
    if broken {
      let i = rng.below(text.len());
      text[i] = 1;
    }
    let want = (inside && !broken).then_some(7);
    let got = m.seq(&text);
    checks += 1;
    ensure!(got == want, "a text of {k} repetitions{} gives {got:?}, expected {want:?}, for {}", if broken { ", one spoilt," } else { "" }, set.show());
  }
  case.evals(checks);
  case.count("texts of large repetition counts", checks);
  Ok(())
}

fn x01(case: &mut Case) -> Verdict {
  let mode = char_mode(&mut case.rng);
  if case.rng.chance(1, 80) {
    return counts(case, mode);
  }
  let (set, model) = pick_set(case, mode, 4);
  check_language(case, &set, &model, true, false)
}

fn x02(case: &mut Case) -> Verdict {
  // overlaps on purpose: every set has at least two patterns, several of them related
  loop {
    let mode = any_mode(&mut case.rng);
    let (mut set, _) = pick_set(case, mode, 4);
    let rng = &mut case.rng;
    let kind = mode.kind();
    let base = set.pats.clone();
    for _ in 0..rng.range(1, 3) {
      let (p, r, _) = rng.pick(&base).clone();
      let tag = rng.below(20);
      let (q, s) = match rng.below(5) {
        0 => (p, r),
        1 => (format!("(?:{p})|zz"), Re::Alt(vec![r, Re::lit(&[122, 122])])),
        2 => (format!("q|(?:{p})"), Re::Alt(vec![Re::lit(&[113]), r])),
        3 => (format!("(?:{p})?"), Re::Rep(Box::new(r), 0, Some(1))),
        _ => (format!("(?:{p})w*"), Re::Cat(vec![r, Re::Rep(Box::new(Re::lit(&[119])), 0, None)])),
      };
      let at = rng.below(set.pats.len() + 1);
      set.pats.insert(at, (q, s, tag));
    }
    let _ = kind;
    if let Some(model) = affordable(&set) {
      return check_language(case, &set, &model, false, true);
    }
  }
}

fn x03(case: &mut Case) -> Verdict {
  let mode = byte_mode(&mut case.rng);
  if case.rng.chance(1, 80) {
    return counts(case, mode);
  }
  let (set, model) = pick_set(case, mode, 4);
  check_language(case, &set, &model, false, false)?;
  // all 256 byte values as single symbols
  let m = build(&set, None)?;
  for b in 0..=255u32 {
    let want = model.tag_of(&[b]);
    let got = m.seq(&[b]);
    ensure!(got == want, "is_match([{b:#x}]) is {got:?}, expected {want:?}, for {}", set.show());
  }
  Ok(())
}

/// An identifier above every state's: the matcher has at most one state per
/// state of the minimal automaton (X07), here taken with a wide margin.
fn set_states_bound(model: &Model) -> usize {
  model.tags.len() * 64 + 4096
}

fn x04(case: &mut Case) -> Verdict {
  let mode = any_mode(&mut case.rng);
  let (set, model) = pick_set(case, mode, 4);
  let kind = mode.kind();
  case.sample(|| set.show());
  let mut m = build(&set, None)?;
  let init = m.state();
  let mut trace: Vec<String> = Vec::new();
  let fail = |trace: &[String], msg: String| -> Verdict { Err(format!("{msg}; after {} on {}", trace.join(" "), set.show())) };
  let mut saved: HashMap<usize, Option<usize>> = HashMap::new();
  let (mut acc, mut refused, mut resets) = (0u64, 0u64, 0u64);
  let walks = 30;
  for _ in 0..walks {
    m.reset();
    resets += 1;
    trace.clear();
    if m.state() != init {
      return fail(&trace, format!("reset leads to state {} instead of the initial {init}", m.state()));
    }
    let mut st = 0usize;
    let mut word: Vec<u32> = Vec::new();
    // a plan: a member or near miss, interleaved with refused symbols
    let mut plan = gen_string(&mut case.rng, &set, set.cap(20));
    if case.rng.chance(1, 300) {
      plan.clear();
      stretch(&mut case.rng, &set, &model, &mut plan);
      plan.truncate(2000);
    }
    let long = plan.len() > 24;
    let steps = if plan.len() > 200 { plan.len() + 100 } else { 200 };
    let mut plan = plan.into_iter();
    for _ in 0..if long { steps } else { 24 } {
      let c = if long && case.rng.chance(9, 10) || case.rng.chance(2, 3) {
        match plan.next() {
          Some(c) => c,
          None => break,
        }
      } else {
        // prefer any group, viable or not
        let g = case.rng.below(model.groups.len());
        let r = model.reps(&mut case.rng, g, 1);
        *case.rng.pick(&r)
      };
      let before = m.state();
      let want = model.next(st, c);
      let got = m.accept(c);
      trace.push(format!("{}{}", show(&[c], kind), if got { "+" } else { "-" }));
      if got != want.is_some() {
        return fail(&trace, format!("symbol {} accepted: {got}, viable: {}", show(&[c], kind), want.is_some()));
      }
      match want {
        None => {
          refused += 1;
          if m.state() != before {
            return fail(&trace, "a refused symbol changed the state".into());
          }
        }
        Some(n) => {
          acc += 1;
          st = n;
          word.push(c);
        }
      }
      let whole = m.seq(&word);
      let now = m.is_final();
      if now != whole || now != model.tags[st] {
        return fail(
          &trace,
          format!("final query {now:?}, whole match {whole:?}, language {:?} for {}", model.tags[st], show(&word, kind)),
        );
      }
      let id = m.state();
      if let Some(old) = saved.insert(id, now) {
        if old != now {
          return fail(&trace, format!("state {id} answered {old:?} before and {now:?} now"));
        }
      }
      for (id, want) in &saved {
        if m.state_final(*id) != *want {
          return fail(&trace, format!("remembered state {id}: {:?} instead of {want:?}", m.state_final(*id)));
        }
      }
      if case.rng.chance(1, 25) {
        m.reset();
        resets += 1;
        trace.push("reset".into());
        st = 0;
        word.clear();
        if m.state() != init || m.is_final() != model.tags[0] {
          return fail(&trace, "reset did not return to the start".into());
        }
      }
    }
  }
  // an identifier far above every state's is no state's
  for id in [usize::MAX, 1 << 40, set_states_bound(&model)] {
    if m.state_final(id).is_some() {
      return fail(&trace, format!("{id} is the identifier of no state, but the answer for it is {:?}", m.state_final(id)));
    }
  }
  case.count("accepted symbols", acc);
  case.count("refused symbols", refused);
  case.count("resets", resets);
  case.evals(acc + refused);
  if acc > 0 && refused > 0 {
    case.distinct(&set.show());
  }
  Ok(())
}

fn x07_tab(t: &Tab, set: &PatSet, model: &Model, rng: &mut Rng) -> Verdict {
  let kind = set.mode.kind();
  let s = || set.show();
  ensure!(t.n > 0 && t.init < t.n, "initial state {} of {} states for {}", t.init, t.n, s());
  ensure!(t.table.len() % t.n == 0, "table of {} entries for {} states for {}", t.table.len(), t.n, s());
  let rows = t.table.len() / t.n;
  let mut last: Option<u32> = None;
  let mut used = HashSet::new();
  for &(l, r, e) in &t.syms {
    ensure!(l <= r, "symbol range {l:#x}-{r:#x} for {}", s());
    ensure!(last.map_or(true, |x| x < l), "symbol ranges overlap at {l:#x} for {}", s());
    ensure!(e < rows, "range {l:#x}-{r:#x} maps to row {e} of {rows} for {}", s());
    used.insert(e);
    last = Some(r);
  }
  ensure!(used.len() == rows, "{} of {rows} rows are mapped to for {}", used.len(), s());
  let mut none = HashSet::new();
  for &x in &t.table {
    if x >= t.n {
      none.insert(x);
    }
  }
  ensure!(none.len() <= 1, "several no-transition values {none:?} for {}", s());
  let mut seen_rows = HashSet::new();
  for i in 0..rows {
    ensure!(seen_rows.insert(&t.table[i * t.n..(i + 1) * t.n]), "row {i} is a duplicate for {}", s());
  }
  for k in t.tags.keys() {
    ensure!(*k < t.n, "tag of unknown state {k} for {}", s());
  }
  // exported parts, library lookup and model agree; product walk over all reachable pairs
  let mut map: HashMap<usize, usize> = HashMap::new();
  let mut back: HashMap<usize, HashSet<usize>> = HashMap::new();
  let mut queue = VecDeque::from([(t.init, 0usize)]);
  let mut seen = HashSet::from([(t.init, 0usize)]);
  while let Some((a, b)) = queue.pop_front() {
    map.insert(b, a);
    back.entry(a).or_default().insert(b);
    ensure!(
      t.tags.get(&a).copied() == model.tags[b],
      "state {a} has tag {:?}, the language says {:?} for {}",
      t.tags.get(&a),
      model.tags[b],
      s()
    );
    for &(l, r, g) in &model.atoms {
      let mid = l + (r - l) / 2;
      let mut n0 = None;
      for (k, c) in [l, r, if kind.valid(mid) { mid } else { l }].into_iter().enumerate() {
        let want = model.trans[b][g].is_some();
        let got = t.look(a, c);
        ensure!(got.is_some() == want, "state {a} on {c:#x}: transition {got:?}, language {want} for {}", s());
        ensure!(k == 0 || n0 == Some(got), "state {a}: {l:#x}-{r:#x} leads to several states for {}", s());
        n0 = Some(got);
      }
      let lib = (t.next)(a, l);
      ensure!(lib == n0.unwrap(), "next_state({a}, {l:#x}) is {lib:?}, exported parts say {n0:?} for {}", s());
      if let (Some(x), Some(y)) = (n0.unwrap(), model.trans[b][g]) {
        if seen.insert((x, y)) {
          queue.push_back((x, y));
        }
      }
    }
  }
  for id in 0..t.n {
    ensure!((t.fin)(id) == t.tags.get(&id).copied(), "is_final({id}) differs from the exported tags for {}", s());
    ensure!(back.contains_key(&id), "state {id} is unreachable for {}", s());
  }
  ensure!((t.next)(t.n, 97).is_none() && (t.next)(t.n + 1, 97).is_none(), "an invalid state has a transition for {}", s());
  ensure!((t.fin)(t.n).is_none(), "an invalid state is final for {}", s());
  // every state reaches a final one
  let mut live: HashSet<usize> = t.tags.keys().copied().collect();
  loop {
    let n = live.len();
    for id in 0..t.n {
      if (0..rows).any(|e| live.contains(&t.table[e * t.n + id])) {
        live.insert(id);
      }
    }
    if live.len() == n {
      break;
    }
  }
  ensure!(live.len() == t.n, "{} of {} states reach a final state for {}", live.len(), t.n, s());
  let min = model.minimal();
  ensure!(t.n == min, "{} states, the minimal automaton has {min} for {}", t.n, s());
  // a few random lookups
  for _ in 0..50 {
    let c = rng.below(kind.max() as usize + 1) as u32;
    if kind.valid(c) {
      let id = rng.below(t.n);
      ensure!((t.next)(id, c) == t.look(id, c), "next_state({id}, {c:#x}) differs from the exported parts for {}", s());
    }
  }
  Ok(())
}

fn x07(case: &mut Case) -> Verdict {
  let mode = any_mode(&mut case.rng);
  let (set, model) = pick_set(case, mode, 5);
  case.sample(|| set.show());
  let par = *case.rng.pick(&[None, Some(None), Some(Some(false)), Some(Some(true))]);
  let t = build(&set, par)?.table();
  let mut rng = case.rng.fork();
  x07_tab(&t, &set, &model, &mut rng)?;
  case.count("table states", t.n as u64);
  case.count("table entries", t.table.len() as u64);
  case.count("symbol ranges", t.syms.len() as u64);
  case.evals(t.table.len().max(1) as u64);
  if t.n > 1 {
    case.distinct(&set.show());
  }
  Ok(())
}

fn x05(case: &mut Case) -> Verdict {
  if case.index % 40 == 7 {
    return x05_ids(case);
  }
  let mode = any_mode(&mut case.rng);
  let (set, model) = pick_set(case, mode, 6);
  let kind = mode.kind();
  case.sample(|| set.show());
  let base = build(&set, Some(Some(false)))?.table();
  let want = base.canonical(kind);
  let mut builds = 1;
  let probes: Vec<Vec<u32>> = (0..20).map(|_| gen_string(&mut case.rng, &set, set.cap(16))).collect();
  let check = |m: M, how: &str| -> Verdict {
    for p in &probes {
      let (a, b) = (m.seq(p), model.tag_of(p));
      ensure!(a == b, "{how}: {} gives {a:?} instead of {b:?} for {}", show(p, kind), set.show());
    }
    let t = m.table();
    ensure!(t.n == want.0, "{how}: {} states instead of {} for {}", t.n, want.0, set.show());
    ensure!(t.canonical(kind) == want, "{how}: a different automaton for {}", set.show());
    Ok(())
  };
  for par in [Some(false), Some(true), None] {
    check(build(&set, Some(par))?, &format!("parallelism {par:?}"))?;
    builds += 1;
  }
  if case.index % 8 == 0 {
    let n = case.rng.range(1, 12);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("thread pool");
    let ms: Vec<_> = pool.install(|| (0..3).map(|_| build(&set, Some(Some(true)))).collect());
    for m in ms {
      check(m?, &format!("{n} worker threads"))?;
      builds += 1;
    }
  }
  if case.index % 8 == 3 {
    // while other matchers are being built
    let k = case.rng.range(2, 6);
    let others: Vec<PatSet> = (0..k).map(|_| pick_set(case, mode, 3).0).collect();
    let go = std::sync::Barrier::new(k + 2);
    let built: Vec<Result<M, String>> = std::thread::scope(|sc| {
      let hs: Vec<_> = others
        .iter()
        .map(|o| {
          let go = &go;
          sc.spawn(move || {
            go.wait();
            for par in [Some(true), Some(false)] {
              build(o, Some(par))?;
            }
            Ok(())
          })
        })
        .collect();
      let mine: Vec<_> = [Some(true), Some(false)]
        .into_iter()
        .map(|par| {
          let (go, set) = (&go, &set);
          sc.spawn(move || {
            go.wait();
            build(set, Some(par))
          })
        })
        .collect();
      let mut out: Vec<Result<M, String>> = Vec::new();
      for h in hs {
        match h.join() {
          Ok(Ok(())) => {}
          Ok(Err(e)) => out.push(Err(e)),
          Err(_) => out.push(Err("a concurrent build panicked".into())),
        }
      }
      for h in mine {
        out.push(h.join().unwrap_or_else(|_| Err("a concurrent build panicked".into())));
      }
      out
    });
    for m in built {
      check(m?, "concurrent builds")?;
      builds += 1;
    }
  }
  case.count("builds compared", builds);
  case.evals(builds);
  if want.0 > 1 {
    case.distinct(&set.show());
  }
  Ok(())
}

/// State identifiers created by concurrent threads are distinct.
fn x05_ids(case: &mut Case) -> Verdict {
  use laps_regex::fa::{DenseFA, MultiFA};
  let threads = case.rng.range(2, 12);
  let per = case.rng.range(20, 300);
  let mode = case.rng.below(3);
  let go = std::sync::Barrier::new(threads);
  let all: Vec<Vec<usize>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..threads)
      .map(|k| {
        let go = &go;
        sc.spawn(move || {
          go.wait();
          let mut ids = Vec::new();
          if (mode + k) % 2 == 0 {
            let mut fa: DenseFA<u8> = DenseFA::new();
            ids.push(fa.init_id());
            for i in 0..per {
              ids.push(if i % 3 == 0 { fa.add_final_state() } else { fa.add_state() });
            }
            ids.sort_unstable();
            let mut keys: Vec<_> = fa.states().keys().copied().collect();
            keys.sort_unstable();
            if keys != ids {
              ids.push(usize::MAX);
            }
          } else {
            for _ in 0..per {
              let fa: MultiFA<Option<u8>> = MultiFA::new();
              ids.push(fa.init_id());
            }
          }
          ids
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  let mut seen = HashSet::new();
  let mut n = 0;
  for ids in &all {
    ensure!(!ids.is_empty(), "a thread creating states panicked");
    for id in ids {
      ensure!(*id != usize::MAX, "an automaton's states are not the ones it handed out");
      ensure!(seen.insert(*id), "two states share the identifier {id} ({threads} threads)");
      n += 1;
    }
  }
  case.count("state identifiers", n);
  case.evals(n);
  case.distinct(&format!("ids {threads} {per}"));
  Ok(())
}

// ---------------------------------------------------------------- X06

const HOSTILE: &[&str] = &[
  "", "()", "a{0}", "(a*)*", "(a|)*", "((a*)+)?", "(a*)*b|", "|", "a||b", "(|a)(|b)", "a{0,0}", "a{3}{2}", "(a{0}b){2}", "^", "$",
  "^a$", r"\bfoo\b", r"\B", r"(?m)^a", r"a\z", r"\A", "a*?", "a+?", "a??", "a{2,3}?", "(?U)a*", "(?U)a*?", r"[^\s\S]",
  r"a[^\w\W]b", r"(?:[^\s\S])*", r"(?:[^\s\S]){0}", r"[a&&b]", r"a|[a&&b]", "[", "(", ")", "a{2,1}", "*", "+a", "?", "a**", "[z-a]",
  r"\", r"\x{110000}", r"\x{d800}", r"\u{d800}", r"\p{Nope}", r"\p{L", "(?P<a>x)(?P<a>y)", "(?z)", "[[:foo:]]", r"\8", r"\xg", r"(?i)",
  r"(?-u:\xff)", r"(?-u:[\x80-\xff])", r"(?-u:.)", r"(?-u)\W", r"(?s-u:.)", r"\xff", r"[\x00-\xff]", "[a-z]", r"[^a]", r"\d", r"\w+", ".",
  r"(?s:.)", "é", "[é]", "[éa]", r"(?i)k", r"(?i)a", "(?-u:(?i)k)", "(?-u:[a-z]+)", "(?-u:[^a-z])", r"[\u{10fff}]", r"[\u{10ffff}]",
  r".\u{10fff}", r"[\u{10fff}-\u{11000}]", r"[^\u{10ffff}]", r"[\x{0}-\x{10ffff}]", r"(?s).|\u{10ffff}", r"\0", r"[\u{d7ff}-\u{e000}]",
  "(((((((((((((((((((((((((((((a)))))))))))))))))))))))))))))", "a{60}", "a{0,30}", "(a|b){4}", "(a{3}){4}", "a{1000}", "(?:a{0,8}){0,4}",
  "(ab|ac|ad)+", r"(?-u:\xc3)(?-u:\xa9)", r"(?-u:\xc3)", r"(?x) a # comment", "(?x)(?#", "a{,3}", "a{", "a{x}", r"\Qa\E", r"(?=a)", r"(?!a)",
  r"(?<=a)b", r"\1", "[[a-z]&&[^aeiou]]", "[a--a]", "[a~~a]", "[^]", "[]", "[]a]", r"\b{0}", r"(?:\b)*", r"(?:^|a)b", "(?R)(?m)^", r"\<a",
];

fn gen_noise(rng: &mut Rng) -> String {
  let toks = [
    "a", "b", "é", "(", ")", "(?:", "[", "]", "^", "$", "*", "+", "?", "|", "{2}", "{0,2}", "{0}", "-", "\\", r"\w", r"\b", r"\x{10fff}",
    r"\u{10ffff}", ".", "&&", "--", "(?i)", "(?-u)", "(?s)", r"\d", r"\xff", "{", "}", ",", "😀", "\0", "[^", r"\pL", "(?-u:", "?",
  ];
  let n = rng.range(1, 10);
  (0..n).map(|_| *rng.pick(&toks)).collect()
}

fn x06(case: &mut Case) -> Verdict {
  let mode = *case.rng.pick(&[Mode::CharUtf8, Mode::CharUtf8, Mode::CharBytes, Mode::ByteUtf8, Mode::ByteBytes, Mode::ByteBytes]);
  let rng = &mut case.rng;
  let n = if rng.chance(1, 40) { 0 } else { rng.range(1, 4) };
  let mut pats: Vec<(String, usize, Class3)> = Vec::new();
  let mut ranges = 0;
  // half of the lists are free of offending patterns
  let clean = rng.bool();
  while pats.len() < n {
    let p = match rng.below(8) {
      0..=2 => rng.pick(HOSTILE).to_string(),
      3 => {
        let (a, b) = (*rng.pick(HOSTILE), *rng.pick(HOSTILE));
        match rng.below(4) {
          0 => format!("{a}{b}"),
          1 => format!("(?:{a})|(?:{b})"),
          2 => format!("(?:{a})*{b}"),
          _ => format!("(?:{a}){{0,2}}"),
        }
      }
      4 | 5 => gen_noise(rng),
      _ => {
        let s = gen_set_of(rng, mode, 1, 120, mode == Mode::CharUtf8);
        s.pats[0].0.clone()
      }
    };
    let c = classify(&p, mode);
    if clean && !matches!(c, Class3::Ok(_)) {
      continue;
    }
    if let Class3::Ok(re) = &c {
      // bounded size
      let mut sets = Vec::new();
      re.sets(&mut sets);
      let r: usize = sets.iter().map(|s| s.len()).sum();
      if re.weight() > 1500 || ranges + r > 120 {
        continue;
      }
      ranges += r;
    }
    let tag = rng.below(6) + 10 * pats.len();
    pats.push((p, tag, c));
  }
  let shown = || format!("{mode:?} {:?}", pats.iter().map(|p| (&p.0, p.1)).collect::<Vec<_>>());
  case.sample(shown);
  let rng = &mut case.rng;
  let mut b = RegexBuilder::new();
  for (p, t, _) in &pats {
    b = b.add(p, *t);
  }
  b = b.enable_par(*rng.pick(&[None, Some(true), Some(false)]));
  type R = Result<M, Error<usize>>;
  let r: R = match guard(|| match mode {
    Mode::CharUtf8 => b.build().map(M::C),
    Mode::CharBytes => b.build_bytes().map(M::C),
    Mode::ByteUtf8 => b.build().map(M::B),
    Mode::ByteBytes => b.build_bytes().map(M::B),
  }) {
    Ok(r) => r,
    Err(p) => return Err(format!("building {} caused a {p}", shown())),
  };
  let bad = pats.iter().any(|p| !matches!(p.2, Class3::Ok(_)));
  match &r {
    Ok(_) => {
      ensure!(!pats.is_empty(), "a matcher was built from no expressions");
      ensure!(!bad, "a matcher was built from {} although {:?}", shown(), pats.iter().map(|p| brief(&p.2)).collect::<Vec<_>>());
    }
    Err(e) => {
      ensure!(bad || pats.is_empty(), "building {} failed ({e}) although every expression is supported", shown());
      let fits = |want: fn(&Class3) -> bool| pats.iter().any(|p| want(&p.2));
      let ok = match e {
        Error::EmptyBuilder => pats.is_empty(),
        Error::Regex(_, t) => pats.iter().any(|p| p.1 == *t && p.2 == Class3::Syntax),
        Error::Mir(MirError::UnsupportedOp(_)) => fits(|c| *c == Class3::Unsupported) || fits(|c| matches!(c, Class3::Nothing | Class3::InvalidUtf8)),
        Error::Mir(MirError::MatchesNothing) => fits(|c| matches!(c, Class3::Nothing | Class3::Unsupported | Class3::InvalidUtf8)),
        Error::Mir(MirError::InvalidUtf8) => fits(|c| matches!(c, Class3::InvalidUtf8 | Class3::Unsupported | Class3::Nothing)),
        Error::Mir(_) => true,
      };
      ensure!(ok, "building {} reported {e:?}, which no expression explains", shown());
      let _ = format!("{e}");
    }
  }
  // a built matcher answers without panicking
  if let Ok(mut m) = r {
    case.count("built", 1);
    let kind = mode.kind();
    let set = PatSet {
      mode,
      pats: pats
        .iter()
        .filter_map(|p| match &p.2 {
          Class3::Ok(re) => Some((p.0.clone(), re.clone(), p.1)),
          _ => None,
        })
        .collect(),
    };
    for _ in 0..12 {
      let s = gen_string(&mut case.rng, &set, set.cap(16));
      if let Err(p) = guard(|| {
        m.seq(&s);
        m.text(&s);
        m.reset();
        for c in &s {
          m.accept(*c);
          m.is_final();
        }
      }) {
        return Err(format!("matching {} with {} caused a {p}", show(&s, kind), shown()));
      }
    }
  } else {
    case.count("rejected", 1);
  }
  for p in &pats {
    case.count(brief(&p.2), 1);
  }
  case.distinct(&shown());
  Ok(())
}

fn brief(c: &Class3) -> &'static str {
  match c {
    Class3::Ok(_) => "patterns supported",
    Class3::Syntax => "patterns with a syntax error",
    Class3::Unsupported => "patterns with an unsupported operation",
    Class3::Nothing => "patterns with an empty class",
    Class3::InvalidUtf8 => "patterns with invalid UTF-8",
  }
}

fn main() {
  vmon::worker_main(
    &[
      Prop { id: "X01", run: x01, rule: "random sets of 1-4 expressions (own syntax trees printed in varied syntax, and Unicode/flag syntax); every pair of model and matcher state is reached and every symbol group tried from it, plus random members and near misses; non-trivial: more than one state and both matching and non-matching strings", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X02", run: x02, rule: "expression sets with identical, nested, prefixed and alternated copies under shuffled and repeated tags; strings as in X01; non-trivial: more than one state and both matching and non-matching strings", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X03", run: x03, rule: "random sets of byte expressions in UTF-8 and bytes mode; strings as in X01 plus all 256 single bytes; non-trivial: more than one state and both matching and non-matching strings", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X04", run: x04, rule: "random walks of accepted and refused symbols with resets and remembered states; non-trivial: at least one symbol accepted and one refused", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X05", run: x05, rule: "the same expressions built serially, in parallel, automatically, in pools of 1-12 threads and beside concurrent builders, compared as canonical automata; every 40th case creates states from 2-12 threads; non-trivial: more than one state", alloc_mib: 32768, cpu_s: 120 },
      Prop { id: "X06", run: x06, rule: "lists of 0-4 patterns from a hostile corpus, its combinations, token noise and valid patterns, in all four modes; every list is non-trivial", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X07", run: x07, rule: "tables of random expression sets, walked exhaustively against the model automaton; non-trivial: more than one state", alloc_mib: 16384, cpu_s: 60 },
    ],
    false,
  );
}
