//! The reference model of regular languages: pattern syntax trees over numeric symbols, a printer
//! to pattern text, a dynamic-programming matcher, and an automaton construction that shares
//! nothing with the code under test.

use std::collections::{BTreeSet, HashMap};
use vmon::Rng;

pub type Ranges = Vec<(u32, u32)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
  Empty,
  Set(Ranges),
  Cat(Vec<Re>),
  Alt(Vec<Re>),
  Rep(Box<Re>, u32, Option<u32>),
}

/// The symbol alphabet.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Char,
  Byte,
}

impl Kind {
  pub fn max(self) -> u32 {
    match self {
      Kind::Char => 0x10ffff,
      Kind::Byte => 255,
    }
  }

  pub fn valid(self, s: u32) -> bool {
    s <= self.max() && !(self == Kind::Char && (0xd800..0xe000).contains(&s))
  }

  /// The universe as ranges.
  pub fn all(self) -> Ranges {
    match self {
      Kind::Char => vec![(0, 0xd7ff), (0xe000, 0x10ffff)],
      Kind::Byte => vec![(0, 255)],
    }
  }
}

pub fn has(rs: &[(u32, u32)], s: u32) -> bool {
  rs.iter().any(|&(l, r)| l <= s && s <= r)
}

/// Sorted, disjoint, merged, restricted to valid symbols.
pub fn normalize(kind: Kind, rs: &[(u32, u32)]) -> Ranges {
  let mut v: Ranges = Vec::new();
  for &(l, r) in rs {
    for &(al, ar) in &kind.all() {
      let (l, r) = (l.max(al), r.min(ar));
      if l <= r {
        v.push((l, r));
      }
    }
  }
  v.sort_unstable();
  let mut o: Ranges = Vec::new();
  for (l, r) in v {
    match o.last_mut() {
      Some(x) if l <= x.1 || l == x.1 + 1 => x.1 = x.1.max(r),
      _ => o.push((l, r)),
    }
  }
  o
}

pub fn complement(kind: Kind, rs: &[(u32, u32)]) -> Ranges {
  let rs = normalize(kind, rs);
  let mut o = Vec::new();
  for (al, ar) in kind.all() {
    let mut at = al;
    for &(l, r) in &rs {
      if r < al || l > ar {
        continue;
      }
      if l > at {
        o.push((at, l - 1));
      }
      at = r + 1;
    }
    if at <= ar {
      o.push((at, ar));
    }
  }
  o
}

impl Re {
  pub fn lit(s: &[u32]) -> Re {
    match s.len() {
      0 => Re::Empty,
      1 => Re::Set(vec![(s[0], s[0])]),
      _ => Re::Cat(s.iter().map(|&c| Re::Set(vec![(c, c)])).collect()),
    }
  }

  /// Number of nodes after unrolling repetitions the way a compiler would.
  pub fn weight(&self) -> usize {
    match self {
      Re::Empty => 1,
      Re::Set(_) => 1,
      Re::Cat(v) | Re::Alt(v) => 1 + v.iter().map(|r| r.weight()).sum::<usize>(),
      Re::Rep(r, lo, hi) => {
        let w = r.weight();
        let lo = *lo as usize;
        let opt = hi.map_or(1, |h| h as usize - lo);
        // the code under test unrolls {0,n} quadratically
        1 + w * (lo + opt * (opt + 1) / 2 + 1)
      }
    }
  }

  /// Length of the shortest member.
  pub fn min_len(&self) -> usize {
    match self {
      Re::Empty => 0,
      Re::Set(_) => 1,
      Re::Cat(v) => v.iter().map(|r| r.min_len()).sum(),
      Re::Alt(v) => v.iter().map(|r| r.min_len()).min().unwrap_or(0),
      Re::Rep(r, lo, _) => r.min_len() * *lo as usize,
    }
  }

  pub fn nullable(&self) -> bool {
    match self {
      Re::Empty => true,
      Re::Set(_) => false,
      Re::Cat(v) => v.iter().all(|r| r.nullable()),
      Re::Alt(v) => v.iter().any(|r| r.nullable()),
      Re::Rep(r, lo, _) => *lo == 0 || r.nullable(),
    }
  }

  pub fn sets<'a>(&'a self, out: &mut Vec<&'a Ranges>) {
    match self {
      Re::Empty => {}
      Re::Set(s) => out.push(s),
      Re::Cat(v) | Re::Alt(v) => v.iter().for_each(|r| r.sets(out)),
      Re::Rep(r, _, _) => r.sets(out),
    }
  }

  /// Positions (bit set) where a match starting at one of `starts` may end.
  pub fn ends(&self, s: &[u32], starts: u128) -> u128 {
    debug_assert!(s.len() < 127);
    match self {
      Re::Empty => starts,
      Re::Set(rs) => {
        let mut o = 0;
        for (i, c) in s.iter().enumerate() {
          if starts >> i & 1 == 1 && has(rs, *c) {
            o |= 1 << (i + 1);
          }
        }
        o
      }
      Re::Cat(v) => v.iter().fold(starts, |st, r| if st == 0 { 0 } else { r.ends(s, st) }),
      Re::Alt(v) => v.iter().fold(0, |o, r| o | r.ends(s, starts)),
      Re::Rep(r, lo, hi) => {
        let mut cur = starts;
        for _ in 0..*lo {
          if cur == 0 {
            return 0;
          }
          let n = r.ends(s, cur);
          if n == cur {
            break;
          }
          cur = n;
        }
        let mut acc = cur;
        let mut left = hi.map(|h| h - lo);
        loop {
          if left == Some(0) {
            break;
          }
          cur = r.ends(s, cur);
          if cur & !acc == 0 {
            break;
          }
          acc |= cur;
          left = left.map(|l| l - 1);
        }
        acc
      }
    }
  }

  pub fn matches(&self, s: &[u32]) -> bool {
    self.ends(s, 1) >> s.len() & 1 == 1
  }

  /// A random member of the language (`None` when a length cap is hit).
  pub fn member(&self, rng: &mut Rng, out: &mut Vec<u32>, cap: usize) -> bool {
    if out.len() > cap {
      return false;
    }
    match self {
      Re::Empty => true,
      Re::Set(rs) => {
        out.push(sym_of(rng, rs));
        true
      }
      Re::Cat(v) => v.iter().all(|r| r.member(rng, out, cap)),
      Re::Alt(v) => rng.pick(v).member(rng, out, cap),
      Re::Rep(r, lo, hi) => {
        let far = if rng.chance(1, 4) { lo + 40 } else { lo + 3 };
        let top = hi.unwrap_or(lo + 3).min(far);
        let n = rng.range(*lo as usize, top as usize);
        (0..n).all(|_| r.member(rng, out, cap))
      }
    }
  }
}

/// A symbol of the ranges, biased to their ends.
pub fn sym_of(rng: &mut Rng, rs: &[(u32, u32)]) -> u32 {
  let &(l, r) = rng.pick(rs);
  match rng.below(4) {
    0 => l,
    1 => r,
    _ => {
      let c = l + rng.below((r - l + 1) as usize) as u32;
      if (0xd800..0xe000).contains(&c) {
        l
      } else {
        c
      }
    }
  }
}

// ---------------------------------------------------------------- printing

pub struct Printer<'a> {
  pub rng: &'a mut Rng,
  pub kind: Kind,
  /// Write classes as plain lists of ranges only.
  pub plain: bool,
}

impl Printer<'_> {
  fn sym(&mut self, c: u32, in_class: bool) -> String {
    let hex = |rng: &mut Rng| match self.kind {
      Kind::Byte => format!("\\x{:02x}", c),
      Kind::Char => match rng.below(3) {
        0 => format!("\\x{{{:x}}}", c),
        1 if c <= 0xffff => format!("\\u{:04X}", c),
        1 => format!("\\U{:08x}", c),
        _ => format!("\\u{{{:x}}}", c),
      },
    };
    let ch = char::from_u32(c);
    match ch {
      Some('\n') if self.rng.chance(2, 3) => return "\\n".into(),
      Some('\r') if self.rng.chance(2, 3) => return "\\r".into(),
      Some('\t') if self.rng.chance(2, 3) => return "\\t".into(),
      _ => {}
    }
    if self.kind == Kind::Byte && c >= 0x80 {
      return hex(self.rng);
    }
    match ch {
      Some(x) if x.is_ascii_alphanumeric() || (!x.is_ascii() && !x.is_control() && !x.is_whitespace()) => {
        if self.rng.chance(1, 8) {
          hex(self.rng)
        } else {
          x.to_string()
        }
      }
      Some(x) if x.is_ascii_punctuation() => match self.rng.below(3) {
        0 => hex(self.rng),
        1 if !in_class && !r"\.+*?()|[]{}^$#&-~".contains(x) => x.to_string(),
        _ if r"\.+*?()|[]{}^$#&-~/".contains(x) => format!("\\{x}"),
        _ => hex(self.rng),
      },
      _ => hex(self.rng),
    }
  }

  pub fn ranges(&mut self, rs: &[(u32, u32)]) -> String {
    let mut s = String::new();
    // the pattern parser mishandles ranges that end right before and start right after the surrogates
    // when it complements a class, so such neighbours are always written as one range
    let mut joined: Vec<(u32, u32)> = Vec::new();
    for &(l, r) in rs {
      match joined.last_mut() {
        Some(x) if self.kind == Kind::Char && x.1 == 0xd7ff && l == 0xe000 => x.1 = r,
        _ => joined.push((l, r)),
      }
    }
    let mut rs = joined;
    self.rng.shuffle(&mut rs);
    if self.rng.chance(1, 4) && !rs.is_empty() {
      // a redundant piece
      let &(l, r) = self.rng.pick(&rs);
      let m = l + (r - l) / 2;
      if self.kind.valid(m) {
        rs.push((l, m));
      }
    }
    for (l, r) in rs {
      if l == r {
        s += &self.sym(l, true);
      } else {
        s += &self.sym(l, true);
        s.push('-');
        s += &self.sym(r, true);
      }
    }
    s
  }

  fn class(&mut self, rs: &Ranges) -> String {
    let kind = self.kind;
    let norm = normalize(kind, rs);
    if norm.len() == 1 && norm[0].0 == norm[0].1 && !self.rng.chance(1, 5) {
      return self.sym(norm[0].0, false);
    }
    if self.plain {
      return format!("[{}]", self.ranges(&norm));
    }
    let comp = complement(kind, &norm);
    if comp.is_empty() {
      return if self.rng.bool() { "(?s:.)".into() } else { r"[\x00\x01-\x{10FFFF}]".replace(r"\x{10FFFF}", if kind == Kind::Byte { r"\xff" } else { r"\x{10FFFF}" }) };
    }
    if comp == [(10, 10)] {
      return ".".into();
    }
    match self.rng.below(6) {
      0 | 1 => format!("[^{}]", self.ranges(&comp)),
      2 if !comp.is_empty() => {
        let all = self.ranges(&kind.all());
        let c = self.ranges(&comp);
        format!("[{all}--[{c}]]")
      }
      3 if norm.len() > 1 => {
        let (a, b) = norm.split_at(1);
        let (a, b) = (self.ranges(a), self.ranges(b));
        format!("[[{a}]{b}]")
      }
      _ => format!("[{}]", self.ranges(&norm)),
    }
  }

  /// Precedence: 0 alternation, 1 concatenation, 2 atom.
  pub fn print(&mut self, re: &Re, prec: u8) -> String {
    let (s, p) = match re {
      Re::Empty => match self.rng.below(3) {
        0 => (String::new(), 1),
        1 => ("()".into(), 2),
        _ => ("(?:)".into(), 2),
      },
      Re::Set(rs) => (self.class(rs), 2),
      Re::Cat(v) => {
        let mut s = String::new();
        for r in v {
          s += &self.print(r, 2);
        }
        (s, 1)
      }
      Re::Alt(v) => {
        let parts: Vec<_> = v.iter().map(|r| self.print(r, 1)).collect();
        (parts.join("|"), 0)
      }
      Re::Rep(r, lo, hi) => {
        let inner = self.print(r, 3);
        let suffix = match (*lo, *hi) {
          (0, None) if !self.rng.chance(1, 6) => "*".to_string(),
          (1, None) if !self.rng.chance(1, 6) => "+".to_string(),
          (0, Some(1)) if !self.rng.chance(1, 6) => "?".to_string(),
          (lo, None) => format!("{{{lo},}}"),
          (lo, Some(hi)) if lo == hi => format!("{{{lo}}}"),
          (lo, Some(hi)) => format!("{{{lo},{hi}}}"),
        };
        (inner + &suffix, 2)
      }
    };
    // a repetition operand must be one atom
    let atom_ok = match re {
      Re::Rep(..) => false,
      Re::Empty => s.starts_with('('),
      _ => true,
    };
    if p < prec.min(2) || (prec == 3 && !atom_ok) || self.rng.chance(1, 16) {
      match self.rng.below(3) {
        0 => format!("({s})"),
        _ => format!("(?:{s})"),
      }
    } else {
      s
    }
  }
}

// ---------------------------------------------------------------- generation

/// Symbols the pattern sets of one case are built from.
pub fn points(rng: &mut Rng, kind: Kind) -> Vec<u32> {
  let mut p: Vec<u32> = "abcd".chars().map(|c| c as u32).collect();
  match kind {
    Kind::Char => {
      let pool = [
        0, 1, 9, 10, 13, 32, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xffff, 0x10000,
        0x10ffe, 0x10fff, 0x11000, 0x10fffe, 0x10ffff, 0x4e00, 0x3b1, 0x1f600, 65, 90, 48, 57, 95,
      ];
      for _ in 0..rng.below(7) {
        p.push(*rng.pick(&pool));
      }
    }
    Kind::Byte => {
      let pool = [0, 1, 9, 10, 13, 32, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc3, 0xa9, 0xf4, 0xfe, 0xff, 65, 90, 48, 57];
      for _ in 0..rng.below(7) {
        p.push(*rng.pick(&pool));
      }
    }
  }
  p
}

pub fn gen_set(rng: &mut Rng, kind: Kind, pts: &[u32]) -> Ranges {
  let one = |rng: &mut Rng| {
    let c = *rng.pick(pts);
    (c, c)
  };
  match rng.below(10) {
    0..=4 => vec![one(rng)],
    5..=7 => {
      let n = rng.range(1, 3);
      let v: Vec<_> = (0..n)
        .map(|_| {
          let (a, b) = (*rng.pick(pts), *rng.pick(pts));
          (a.min(b), a.max(b))
        })
        .collect();
      normalize(kind, &v)
    }
    8 => {
      let n = rng.range(1, 3);
      let v: Vec<_> = (0..n).map(|_| one(rng)).collect();
      let c = complement(kind, &v);
      if c.is_empty() {
        vec![one(rng)]
      } else {
        c
      }
    }
    _ => {
      let (a, b) = (*rng.pick(pts), rng.below(kind.max() as usize + 1) as u32);
      let v = normalize(kind, &[(a.min(b), a.max(b))]);
      if v.is_empty() {
        vec![one(rng)]
      } else {
        v
      }
    }
  }
}

pub fn gen_re(rng: &mut Rng, kind: Kind, pts: &[u32], depth: usize) -> Re {
  if depth == 0 {
    return if rng.chance(1, 12) {
      Re::Empty
    } else if rng.chance(1, 3) {
      let n = rng.range(1, 4);
      Re::lit(&(0..n).map(|_| *rng.pick(&pts[..4])).collect::<Vec<_>>())
    } else {
      Re::Set(gen_set(rng, kind, pts))
    };
  }
  match rng.below(9) {
    0..=2 => {
      let n = rng.range(1, 3);
      Re::Cat((0..n).map(|_| gen_re(rng, kind, pts, depth - 1)).collect())
    }
    3..=4 => {
      let n = rng.range(2, 4);
      let mut v: Vec<_> = (0..n).map(|_| gen_re(rng, kind, pts, depth - 1)).collect();
      if rng.chance(1, 4) {
        // alternatives with a shared prefix: exercises prefix extraction
        let p = gen_re(rng, kind, pts, 0);
        v = v.into_iter().map(|r| Re::Cat(vec![p.clone(), r])).collect();
        if rng.bool() {
          v.push(p);
        }
      }
      if rng.chance(1, 6) {
        let d = rng.pick(&v).clone();
        v.push(d);
      }
      Re::Alt(v)
    }
    5..=7 => {
      let r = gen_re(rng, kind, pts, depth - 1);
      let (lo, hi) = match rng.below(8) {
        0..=2 => (0, None),
        3 => (1, None),
        4 => (0, Some(1)),
        5 => {
          let a = rng.below(4) as u32;
          (a, Some(a))
        }
        6 => (rng.below(3) as u32, None),
        _ => {
          let a = rng.below(3) as u32;
          (a, Some(a + rng.below(4) as u32))
        }
      };
      Re::Rep(Box::new(r), lo, hi)
    }
    _ => gen_re(rng, kind, pts, 0),
  }
}

// ---------------------------------------------------------------- automata

/// The deterministic automaton of tagged patterns (subset construction over symbol groups).
pub struct Model {
  pub kind: Kind,
  /// Atoms: maximal intervals in which all pattern sets agree, each with its group.
  pub atoms: Vec<(u32, u32, usize)>,
  pub groups: Vec<Vec<usize>>,
  pub trans: Vec<Vec<Option<usize>>>,
  pub tags: Vec<Option<usize>>,
}

#[derive(Default)]
struct Nfa {
  eps: Vec<Vec<usize>>,
  edge: Vec<Option<(usize, usize)>>, // (set index, target)
}

impl Nfa {
  fn add(&mut self) -> usize {
    self.eps.push(vec![]);
    self.edge.push(None);
    self.eps.len() - 1
  }

  /// Builds `re` between two states.
  fn build(&mut self, re: &Re, from: usize, to: usize, sets: &mut Vec<Ranges>, ids: &mut HashMap<Ranges, usize>) {
    match re {
      Re::Empty => self.eps[from].push(to),
      Re::Set(rs) => {
        let id = *ids.entry(rs.clone()).or_insert_with(|| {
          sets.push(rs.clone());
          sets.len() - 1
        });
        // a state has at most one symbol edge: use a fresh one
        let s = self.add();
        self.eps[from].push(s);
        self.edge[s] = Some((id, to));
      }
      Re::Cat(v) => {
        let mut at = from;
        for r in v {
          let n = self.add();
          self.build(r, at, n, sets, ids);
          at = n;
        }
        self.eps[at].push(to);
      }
      Re::Alt(v) => {
        for r in v {
          let (a, b) = (self.add(), self.add());
          self.eps[from].push(a);
          self.eps[b].push(to);
          self.build(r, a, b, sets, ids);
        }
      }
      Re::Rep(r, lo, hi) => {
        let mut at = from;
        for _ in 0..*lo {
          let n = self.add();
          self.build(r, at, n, sets, ids);
          at = n;
        }
        match hi {
          None => {
            let (h, b) = (self.add(), self.add());
            self.eps[at].push(h);
            self.eps[h].push(to);
            self.build(r, h, b, sets, ids);
            self.eps[b].push(h);
          }
          Some(hi) => {
            for _ in *lo..*hi {
              self.eps[at].push(to);
              let n = self.add();
              self.build(r, at, n, sets, ids);
              at = n;
            }
            self.eps[at].push(to);
          }
        }
      }
    }
  }

  fn close(&self, set: &mut Vec<usize>) {
    let mut seen: BTreeSet<usize> = set.iter().copied().collect();
    let mut work = set.clone();
    while let Some(s) = work.pop() {
      for &t in &self.eps[s] {
        if seen.insert(t) {
          work.push(t);
        }
      }
    }
    *set = seen.into_iter().collect();
  }
}

impl Model {
  /// `None` when the automaton gets larger than `max_states`.
  pub fn new(kind: Kind, pats: &[(Re, usize)], max_states: usize) -> Option<Model> {
    let mut nfa = Nfa::default();
    let mut sets = Vec::new();
    let mut ids = HashMap::new();
    let init = nfa.add();
    let mut finals = HashMap::new();
    for (re, tag) in pats {
      let (a, b) = (nfa.add(), nfa.add());
      nfa.eps[init].push(a);
      nfa.build(re, a, b, &mut sets, &mut ids);
      finals.insert(b, *tag);
    }
    // atoms
    let mut cuts: BTreeSet<u32> = BTreeSet::new();
    for (l, _) in kind.all() {
      cuts.insert(l);
    }
    for s in &sets {
      for &(l, r) in s {
        cuts.insert(l);
        cuts.insert(r + 1);
      }
    }
    let mut atoms = Vec::new();
    let mut groups: Vec<Vec<usize>> = Vec::new();
    let mut by_sig: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut sigs: Vec<Vec<u64>> = Vec::new();
    let cuts: Vec<u32> = cuts.into_iter().collect();
    for (i, &l) in cuts.iter().enumerate() {
      if !kind.valid(l) {
        continue;
      }
      let mut r = cuts.get(i + 1).map_or(kind.max(), |n| n - 1);
      if kind == Kind::Char && l < 0xd800 {
        r = r.min(0xd7ff);
      }
      let mut sig = vec![0u64; sets.len() / 64 + 1];
      for (k, s) in sets.iter().enumerate() {
        if has(s, l) {
          sig[k / 64] |= 1 << (k % 64);
        }
      }
      let g = *by_sig.entry(sig.clone()).or_insert_with(|| {
        groups.push(vec![]);
        sigs.push(sig);
        groups.len() - 1
      });
      groups[g].push(atoms.len());
      atoms.push((l, r, g));
    }
    // subset construction
    let mut start = vec![init];
    nfa.close(&mut start);
    let mut index: HashMap<Vec<usize>, usize> = HashMap::new();
    index.insert(start.clone(), 0);
    let mut states = vec![start];
    let mut trans: Vec<Vec<Option<usize>>> = Vec::new();
    let mut at = 0;
    while at < states.len() {
      if states.len() > max_states {
        return None;
      }
      let cur = states[at].clone();
      let mut row = Vec::new();
      for sig in &sigs {
        let mut next: Vec<usize> = cur
          .iter()
          .filter_map(|&s| nfa.edge[s].filter(|(id, _)| sig[id / 64] >> (id % 64) & 1 == 1).map(|e| e.1))
          .collect();
        if next.is_empty() {
          row.push(None);
          continue;
        }
        nfa.close(&mut next);
        let n = index.len();
        let id = *index.entry(next.clone()).or_insert(n);
        if id == n {
          states.push(next);
        }
        row.push(Some(id));
      }
      trans.push(row);
      at += 1;
    }
    let tags = states
      .iter()
      .map(|s| s.iter().filter_map(|x| finals.get(x).copied()).min())
      .collect();
    Some(Model { kind, atoms, groups, trans, tags })
  }

  pub fn group_of(&self, sym: u32) -> usize {
    let i = self.atoms.partition_point(|a| a.0 <= sym) - 1;
    debug_assert!(sym <= self.atoms[i].1);
    self.atoms[i].2
  }

  pub fn next(&self, state: usize, sym: u32) -> Option<usize> {
    self.trans[state][self.group_of(sym)]
  }

  pub fn run(&self, s: &[u32]) -> Option<usize> {
    s.iter().try_fold(0, |st, c| self.next(st, *c))
  }

  pub fn tag_of(&self, s: &[u32]) -> Option<usize> {
    self.run(s).and_then(|st| self.tags[st])
  }

  /// Number of states of the minimal automaton (without a dead state).
  pub fn minimal(&self) -> usize {
    let n = self.trans.len();
    let mut class: Vec<usize> = {
      let mut m = HashMap::new();
      self
        .tags
        .iter()
        .map(|t| {
          let k = m.len();
          *m.entry(*t).or_insert(k)
        })
        .collect()
    };
    let mut count = class.iter().collect::<BTreeSet<_>>().len();
    loop {
      let mut m: HashMap<(usize, Vec<Option<usize>>), usize> = HashMap::new();
      let new: Vec<usize> = (0..n)
        .map(|i| {
          let key = (class[i], self.trans[i].iter().map(|t| t.map(|t| class[t])).collect());
          let k = m.len();
          *m.entry(key).or_insert(k)
        })
        .collect();
      let c = m.len();
      class = new;
      if c == count {
        return c;
      }
      count = c;
    }
  }

  /// Symbols that represent group `g`: ends of some of its intervals.
  pub fn reps(&self, rng: &mut Rng, g: usize, n: usize) -> Vec<u32> {
    let atoms = &self.groups[g];
    let mut o = Vec::new();
    let mut push = |a: usize, all: bool, rng: &mut Rng| {
      let (l, r, _) = self.atoms[a];
      o.push(l);
      if all && r != l {
        o.push(r);
        o.push(l + rng.below((r - l + 1) as usize) as u32);
      }
    };
    if atoms.len() <= n {
      for &a in atoms {
        push(a, true, rng);
      }
    } else {
      push(atoms[0], true, rng);
      push(atoms[atoms.len() - 1], true, rng);
      for _ in 2..n {
        push(*rng.pick(atoms), true, rng);
      }
    }
    o
  }
}
