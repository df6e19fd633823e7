//! Pattern sets: what the cases of the regex properties are made of.

use crate::re::*;
use regex_syntax::hir::{Class, Hir, HirKind};
use vmon::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
  /// Character matcher, `build`.
  CharUtf8,
  /// Character matcher, `build_bytes`.
  CharBytes,
  /// Byte matcher, `build`.
  ByteUtf8,
  /// Byte matcher, `build_bytes`.
  ByteBytes,
}

impl Mode {
  pub fn kind(self) -> Kind {
    match self {
      Mode::CharUtf8 | Mode::CharBytes => Kind::Char,
      _ => Kind::Byte,
    }
  }

  pub fn utf8(self) -> bool {
    matches!(self, Mode::CharUtf8 | Mode::ByteUtf8)
  }
}

pub struct PatSet {
  pub mode: Mode,
  pub pats: Vec<(String, Re, usize)>,
}

impl PatSet {
  pub fn show(&self) -> String {
    let v: Vec<_> = self.pats.iter().map(|(p, _, t)| format!("{p:?} => {t}")).collect();
    format!("{:?} [{}]", self.mode, v.join(", "))
  }

  /// A length limit for test strings: `base`, more for expressions whose members are long.
  pub fn cap(&self, base: usize) -> usize {
    let n = self.pats.iter().map(|p| p.1.min_len()).max().unwrap_or(0);
    base.max((n + 10).min(250))
  }

  pub fn model(&self, max: usize) -> Option<Model> {
    let v: Vec<_> = self.pats.iter().map(|(_, r, t)| (r.clone(), *t)).collect();
    Model::new(self.mode.kind(), &v, max)
  }

  /// Smallest tag by the dynamic-programming matcher.
  pub fn dp_tag(&self, s: &[u32]) -> Option<usize> {
    self.pats.iter().filter(|(_, r, _)| r.matches(s)).map(|p| p.2).min()
  }
}

pub fn parse(pat: &str, utf8: bool) -> Result<Hir, regex_syntax::Error> {
  regex_syntax::ParserBuilder::new().utf8(utf8).build().parse(pat)
}

/// What the code under test documents about a pattern.
#[derive(Clone, PartialEq, Debug)]
pub enum Class3 {
  Ok(Re),
  Syntax,
  Unsupported,
  Nothing,
  InvalidUtf8,
}

/// Classifies a pattern and gives its language.
pub fn classify(pat: &str, mode: Mode) -> Class3 {
  match parse(pat, mode.utf8()) {
    Err(_) => Class3::Syntax,
    Ok(h) => from_hir(&h, mode.kind()),
  }
}

/// Severity order is irrelevant: any problem makes the build fail; the first kind found is kept
/// only for messages.
pub fn from_hir(h: &Hir, kind: Kind) -> Class3 {
  match h.kind() {
    HirKind::Empty => Class3::Ok(Re::Empty),
    HirKind::Literal(l) => match kind {
      Kind::Byte => Class3::Ok(Re::lit(&l.0.iter().map(|b| *b as u32).collect::<Vec<_>>())),
      Kind::Char => match std::str::from_utf8(&l.0) {
        Ok(s) => Class3::Ok(Re::lit(&s.chars().map(|c| c as u32).collect::<Vec<_>>())),
        Err(_) => Class3::InvalidUtf8,
      },
    },
    HirKind::Class(Class::Unicode(u)) => {
      if kind == Kind::Byte && u.ranges().iter().any(|r| r.end() as u32 >= 0x80) {
        return Class3::Unsupported;
      }
      let rs: Ranges = u.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
      if rs.is_empty() {
        Class3::Nothing
      } else {
        Class3::Ok(Re::Set(normalize(kind, &rs)))
      }
    }
    HirKind::Class(Class::Bytes(b)) => {
      let rs: Ranges = b.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
      if rs.is_empty() {
        Class3::Nothing
      } else {
        Class3::Ok(Re::Set(rs))
      }
    }
    HirKind::Look(_) => Class3::Unsupported,
    HirKind::Repetition(r) => {
      if !r.greedy {
        return Class3::Unsupported;
      }
      match from_hir(&r.sub, kind) {
        Class3::Ok(s) => Class3::Ok(Re::Rep(Box::new(s), r.min, r.max)),
        e => e,
      }
    }
    HirKind::Capture(c) => from_hir(&c.sub, kind),
    HirKind::Concat(v) | HirKind::Alternation(v) => {
      let mut o = Vec::new();
      for h in v {
        match from_hir(h, kind) {
          Class3::Ok(r) => o.push(r),
          e => return e,
        }
      }
      Class3::Ok(if matches!(h.kind(), HirKind::Concat(_)) { Re::Cat(o) } else { Re::Alt(o) })
    }
  }
}

/// Pieces of wide syntax; their language is taken from the parser's own representation.
const WIDE: &[&str] = &[
  r"\w", r"\d", r"\s", r"\W", r"\D", r"\S", r".", r"(?s:.)", r"\pL", r"\PL", r"\p{Greek}", r"\p{Lu}", r"\p{Nd}", r"(?i:k)",
  r"(?i:straße)", r"(?i:[a-c])", r"(?i:ſ)", r"[[:alpha:]]", r"[[:^digit:]]", r"[[:word:]]", r"(?-u:\w)", r"(?-u:\d)",
  r"(?-u:\s)", r"[\w--[a-z]]", r"[\d~~[0-5]]", r"[a-z&&[^aeiou]]", r"[^\s]", r"[^\w]", r"[\s\d]", r"\u{10ffff}", r"[\u{10fff}]",
  r"[^\u{10fff}]", r"\x00", r"[\x{d7ff}\x{e000}]", r"[\x{d000}-\x{f000}]", r"[^\x{d7ff}]", r"[^\x{e000}]", r"(?x: a b # c
)", r"(?x:[ a ])", r"\p{Emoji}", r"[\p{L}\p{M}]", r"\t|\n|\r|\x0b|\x0c", r"(?P<n>a)", r"(?<m>b)", r"[😀-🙏]", r"\p{Any}", r"\p{ASCII}",
  r"[^\p{ASCII}]", r"(?i:[^k])", r"[0-9_a-fA-F]", r"[\u{10fffe}-\u{10ffff}]", r"[\u{0}-\u{10fff}]", r"\p{Cc}", r"\.\*",
];

pub fn gen_wide(rng: &mut Rng) -> Option<(String, Re)> {
  let n = rng.range(1, 3);
  let mut s = String::new();
  for i in 0..n {
    if i > 0 && rng.chance(1, 4) {
      s.push('|');
    }
    let piece = match rng.below(4) {
      0 => {
        let k = rng.range(1, 2);
        (0..k).map(|_| *rng.pick(&["a", "b", "1", "é", "-", "λ", "Z"])).collect::<String>()
      }
      _ => rng.pick(WIDE).to_string(),
    };
    let suf = *rng.pick(&["", "", "", "*", "+", "?", "{2}", "{1,2}", "{0,2}", "{2,}"]);
    if suf.is_empty() {
      s += &piece;
    } else {
      s += &format!("(?:{piece}){suf}");
    }
  }
  match classify(&s, Mode::CharUtf8) {
    Class3::Ok(re) => Some((s, re)),
    _ => None,
  }
}

/// A pattern set of one mode; `max_weight` bounds the size after unrolling.
pub fn gen_set_of(rng: &mut Rng, mode: Mode, max_pats: usize, max_weight: usize, wide: bool) -> PatSet {
  let kind = mode.kind();
  loop {
    let n = match rng.below(4) {
      0 => 1,
      1 => rng.range(1, 2.min(max_pats)),
      _ => rng.range(1, max_pats),
    };
    let pts = points(rng, kind);
    let mut res: Vec<(String, Re)> = Vec::new();
    for _ in 0..n {
      if !res.is_empty() && rng.chance(1, 6) {
        // an identical expression
        let d = rng.pick(&res).clone();
        res.push(d);
        continue;
      }
      if wide && rng.chance(1, 3) {
        if let Some(p) = gen_wide(rng) {
          res.push(p);
          continue;
        }
      }
      let re = match mode {
        Mode::ByteUtf8 => gen_ascii_bytes(rng, &pts),
        _ => {
          let depth = rng.weighted(&[2, 4, 5, 2]);
          let mut re = gen_re(rng, kind, &pts, depth);
          if !res.is_empty() && rng.chance(1, 5) {
            // shares a piece with another pattern
            let other = rng.pick(&res).1.clone();
            re = match rng.below(3) {
              0 => Re::Cat(vec![other, re]),
              1 => Re::Alt(vec![re, other]),
              _ => Re::Alt(vec![other, re]),
            };
          }
          re
        }
      };
      let text = {
        let mut p = Printer { rng, kind, plain: mode == Mode::ByteUtf8 };
        let t = p.print(&re, 0);
        match mode {
          Mode::ByteBytes | Mode::ByteUtf8 => {
            if p.rng.bool() {
              format!("(?-u){t}")
            } else {
              format!("(?-u:{t})")
            }
          }
          _ => t,
        }
      };
      res.push((text, re));
    }
    let w: usize = res.iter().map(|r| r.1.weight()).sum();
    if w > max_weight {
      continue;
    }
    // tags: shuffled, gappy, sometimes shared
    let mut tags: Vec<usize> = (0..res.len()).map(|i| i * 3 + 1).collect();
    rng.shuffle(&mut tags);
    if rng.chance(1, 5) {
      let t = *rng.pick(&tags);
      let i = rng.below(tags.len());
      tags[i] = t;
    }
    let pats = res.into_iter().zip(tags).map(|((p, r), t)| (p, r, t)).collect();
    return PatSet { mode, pats };
  }
}

/// Sets whose automata are long chains: counted repetitions, long literals with shared prefixes
/// and suffixes, keyword lists.
pub fn gen_long(rng: &mut Rng, mode: Mode, max_pats: usize) -> PatSet {
  let kind = mode.kind();
  let letters: Vec<u32> = match mode {
    Mode::CharUtf8 if rng.bool() => "abé😀".chars().map(|c| c as u32).collect(),
    Mode::ByteBytes if rng.bool() => vec![97, 98, 0x80, 0xff],
    _ => "abcd".chars().map(|c| c as u32).collect(),
  };
  let k = rng.range(1, letters.len());
  let letters = letters[..k].to_vec();
  let word = |rng: &mut Rng, n: usize| -> Vec<u32> { (0..n).map(|_| *rng.pick(&letters)).collect() };
  let small = |rng: &mut Rng| match rng.below(3) {
    0 => Re::Set(normalize(kind, &letters.iter().map(|c| (*c, *c)).collect::<Vec<_>>())),
    _ => {
      let n = rng.range(1, 3);
      Re::lit(&word(rng, n))
    }
  };
  // counts beside the limits an implementation could have
  let count = |rng: &mut Rng, max: usize| -> u32 {
    let edge = *rng.pick(&[16, 24, 25, 26, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129]);
    (if rng.bool() && edge <= max { edge } else { rng.range(4, max) }) as u32
  };
  let mut res: Vec<Re> = Vec::new();
  let shape = rng.below(6);
  if shape == 0 {
    // keywords
    let n = rng.range(8, 30);
    let len = rng.range(2, 8);
    for _ in 0..n {
      let l = rng.range(1, len);
      res.push(Re::lit(&word(rng, l)));
    }
    if rng.bool() {
      res = vec![Re::Alt(res)];
    }
  } else {
    let n = rng.range(1, max_pats.min(3));
    let max = 160 / n;
    let l = rng.range(1, max);
    let prefix = word(rng, l);
    for _ in 0..n {
      let re = match shape {
        1 => {
          let n = count(rng, max);
          let r = small(rng);
          let n = (n as usize / r.min_len()).max(1) as u32;
          Re::Rep(Box::new(r), n, if rng.bool() { Some(n) } else { None })
        }
        2 => {
          // a long common prefix
          let l = rng.range(0, prefix.len());
          let mut v: Vec<Re> = vec![Re::lit(&prefix[..l])];
          let n = rng.range(0, 4);
          v.push(Re::lit(&word(rng, n)));
          Re::Cat(v)
        }
        3 => {
          // a long common suffix
          let l = rng.range(0, prefix.len());
          let n = rng.range(0, 4);
          Re::Cat(vec![Re::lit(&word(rng, n)), Re::lit(&prefix[l..])])
        }
        4 => {
          // optional tails
          let lo = rng.range(0, 6) as u32;
          let hi = lo + rng.range(1, 20) as u32;
          let mut v = vec![Re::Rep(Box::new(small(rng)), lo, Some(hi))];
          if rng.bool() {
            v.push(small(rng));
          }
          Re::Cat(v)
        }
        _ => {
          // a loop around or behind something long
          let n = rng.range(1, max / 2);
          let w = Re::lit(&word(rng, n));
          match rng.below(3) {
            0 => Re::Rep(Box::new(w), 0, None),
            1 => Re::Cat(vec![w, Re::Rep(Box::new(small(rng)), 0, None)]),
            _ => Re::Cat(vec![Re::Rep(Box::new(small(rng)), 0, None), w]),
          }
        }
      };
      res.push(re);
    }
  }
  let mut tags: Vec<usize> = (0..res.len()).map(|i| i * 3 + 1).collect();
  rng.shuffle(&mut tags);
  let pats = res
    .into_iter()
    .zip(tags)
    .map(|(re, t)| {
      let mut p = Printer { rng, kind, plain: mode == Mode::ByteUtf8 };
      let s = p.print(&re, 0);
      (if kind == Kind::Byte { format!("(?-u){s}") } else { s }, re, t)
    })
    .collect();
  PatSet { mode, pats }
}

/// A byte pattern that can be written in UTF-8 mode: everything it matches is valid UTF-8.
fn gen_ascii_bytes(rng: &mut Rng, pts: &[u32]) -> Re {
  let ascii: Vec<u32> = pts.iter().copied().filter(|c| *c < 0x80).collect();
  let depth = rng.range(0, 2);
  let re = gen_re(rng, Kind::Byte, &ascii, depth);
  fn clip(re: Re) -> Re {
    match re {
      Re::Set(rs) => {
        let v: Ranges = rs.into_iter().filter(|r| r.0 < 0x80).map(|(l, r)| (l, r.min(0x7f))).collect();
        Re::Set(if v.is_empty() { vec![(97, 97)] } else { v })
      }
      Re::Cat(v) => Re::Cat(v.into_iter().map(clip).collect()),
      Re::Alt(v) => Re::Alt(v.into_iter().map(clip).collect()),
      Re::Rep(r, a, b) => Re::Rep(Box::new(clip(*r)), a, b),
      e => e,
    }
  }
  clip(re)
}

/// Test strings: members, near misses and noise.
pub fn gen_string(rng: &mut Rng, set: &PatSet, cap: usize) -> Vec<u32> {
  let kind = set.mode.kind();
  let mut s = Vec::new();
  let any = |rng: &mut Rng| -> u32 {
    let mut sets = Vec::new();
    rng.pick(&set.pats).1.sets(&mut sets);
    let base = if sets.is_empty() { 97 } else { let rs: &Ranges = *rng.pick(&sets); sym_of(rng, rs) };
    let c = match rng.below(4) {
      0 => base.saturating_sub(1),
      1 => base + 1,
      2 => base,
      _ => *rng.pick(&[0, 10, 97, 98, 0xd7ff, 0xe000, 0x10fff, 0x10ffff, 0x10000, 0x7f, 0x80, 0xff, 0x3bb, 0xfe]),
    };
    if kind.valid(c) { c } else { base }
  };
  if rng.chance(4, 5) {
    for _ in 0..5 {
      s.clear();
      let re = &rng.pick(&set.pats).1.clone();
      if re.member(rng, &mut s, cap) && s.len() <= cap {
        break;
      }
      s.clear();
    }
    if rng.chance(1, 2) {
      for _ in 0..rng.range(1, 2) {
        match rng.below(4) {
          0 if !s.is_empty() => {
            let i = rng.below(s.len());
            s.remove(i);
          }
          1 if s.len() < cap => {
            let i = rng.below(s.len() + 1);
            let c = any(rng);
            s.insert(i, c);
          }
          2 if !s.is_empty() => {
            let i = rng.below(s.len());
            s[i] = any(rng);
          }
          _ if !s.is_empty() => {
            let n = rng.below(s.len());
            s.truncate(n);
          }
          _ => {}
        }
      }
    }
  } else {
    for _ in 0..rng.below(6) {
      let c = any(rng);
      s.push(c);
    }
  }
  s.truncate(cap);
  s
}

/// A text of some pattern with a part of it repeated hundreds or thousands of times.
pub fn stretch(rng: &mut Rng, set: &PatSet, model: &Model, out: &mut Vec<u32>) -> bool {
  let mut s = Vec::new();
  let re = &rng.pick(&set.pats).1;
  if !re.member(rng, &mut s, 60) {
    return false;
  }
  let mut states = vec![0];
  for c in &s {
    match model.next(states[states.len() - 1], *c) {
      Some(t) => states.push(t),
      None => return false,
    }
  }
  let from = rng.below(states.len());
  for k in 0..states.len() {
    let p = (from + k) % states.len();
    // the shortest way from this state back to itself
    let q = states[p];
    let mut seen = std::collections::HashMap::new();
    let mut todo = std::collections::VecDeque::from([q]);
    let mut back = None;
    while let Some(x) = todo.pop_front() {
      if seen.len() > 60 {
        break;
      }
      for (g, t) in model.trans[x].iter().enumerate() {
        let Some(t) = *t else { continue };
        if t == q {
          back = Some((x, g));
          break;
        }
        if !seen.contains_key(&t) {
          seen.insert(t, (x, g));
          todo.push_back(t);
        }
      }
      if back.is_some() {
        break;
      }
    }
    let Some((mut x, g)) = back else { continue };
    let mut groups = vec![g];
    while x != q {
      let (y, g) = seen[&x];
      groups.push(g);
      x = y;
    }
    groups.reverse();
    let reps: Vec<Vec<u32>> = groups.iter().map(|g| model.reps(rng, *g, 4)).collect();
    let n = match rng.below(12) {
      0 => rng.range(65_000, 70_000),
      1..=3 => rng.range(3000, 9000),
      _ => rng.range(250, 1500),
    } / groups.len();
    out.extend(&s[..p]);
    for _ in 0..n {
      for r in &reps {
        out.push(*rng.pick(r));
      }
    }
    out.extend(&s[p..]);
    return true;
  }
  false
}
