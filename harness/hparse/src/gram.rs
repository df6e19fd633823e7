//! Random grammars of syntax elements: what the build script writes as types, and what the
//! monitor's reference parser runs.

use vmon::Rng;

/// Token elements: macro argument.
pub const TERMS: &[(&str, &str, &str)] = &[
  ("a", "K::A", ""),
  ("b", "K::B", ""),
  ("c", "K::C", ""),
  ("d", "K::D", ""),
  ("num", "K::Num(_)", "number"),
  ("small", "K::Num(n) if *n < 10", "small number"),
  ("+", "K::Op('+')", ""),
  ("op", "K::Op(_)", "operator"),
  ("id", "K::Id(_)", "identifier"),
  ("if", "K::Id(s) if s == \"if\"", "keyword `if`"),
  ("ab", "K::A | K::B", "`a` or `b`"),
  (";", "K::Semi", ""),
  (",", "K::Comma", ""),
  ("x 1", "K::Op('-') | K::Num(1)", "minus or one"),
];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Tok(usize),
  Opt(Box<Ty>),
  Vec(Box<Ty>),
  Boxed(Box<Ty>),
  NeSeq(Box<Ty>),
  SepSeq(Box<Ty>, Box<Ty>),
  NeSepSeq(Box<Ty>, Box<Ty>),
  OptSepSeq(Box<Ty>, Box<Ty>),
  NeOptSepSeq(Box<Ty>, Box<Ty>),
  NeSepList(Box<Ty>, Box<Ty>),
  SepList(Box<Ty>, Box<Ty>),
  NeOptSepList(Box<Ty>, Box<Ty>),
  OptSepList(Box<Ty>, Box<Ty>),
  Quoted(Box<Ty>, Box<Ty>, Box<Ty>),
  OptPrefix(Box<Ty>, Box<Ty>),
  OptTokPrefix(usize, Box<Ty>),
  TokPrefix(usize, Box<Ty>),
  Tuple(Vec<Ty>),
  Named(usize),
  /// The extra last field of generic types.
  Mark,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
  Named,
  Unnamed,
  Unit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Generic {
  No,
  Life,
  Const,
  Type,
}

#[derive(Clone, Debug)]
pub struct NamedTy {
  /// One variant per struct.
  pub is_enum: bool,
  pub variants: Vec<(Style, Vec<Ty>)>,
  pub starts: Vec<usize>,
  pub spanned: bool,
  pub nullable: bool,
  pub generic: Generic,
  /// `#[try_span]` per variant and field.
  pub try_span: Vec<Vec<bool>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sp {
  Full,
  Try,
  No,
}

pub struct Gram {
  pub named: Vec<NamedTy>,
  pub roots: Vec<Ty>,
  /// Whether types that are not generated yet will implement `Spanned`.
  pub plan: Vec<bool>,
}

impl Gram {
  pub fn nullable(&self, t: &Ty) -> bool {
    use Ty::*;
    match t {
      Tok(_) | TokPrefix(..) => false,
      Opt(_) | Vec(_) | SepSeq(..) | OptSepSeq(..) | SepList(..) | OptSepList(..) | Mark => true,
      Boxed(t) | NeSeq(t) | NeSepSeq(t, _) | NeOptSepSeq(t, _) | NeSepList(t, _) | NeOptSepList(t, _) => self.nullable(t),
      OptPrefix(_, t) | OptTokPrefix(_, t) => self.nullable(t),
      Quoted(l, t, r) => self.nullable(l) && self.nullable(t) && self.nullable(r),
      Tuple(v) => v.iter().all(|t| self.nullable(t)),
      // later types only appear behind consumed tokens
      Named(i) => self.named.get(*i).map_or(true, |n| n.nullable),
    }
  }

  pub fn sp(&self, t: &Ty) -> Sp {
    use Ty::*;
    let full = |v: &[&Ty]| if v.iter().all(|t| self.sp(t) == Sp::Full) { Sp::Full } else { Sp::No };
    let part = |v: &Ty| if self.sp(v) == Sp::No { Sp::No } else { Sp::Try };
    match t {
      Tok(_) => Sp::Full,
      Opt(t) | Vec(t) | SepSeq(t, _) | OptSepSeq(t, _) => part(t),
      Boxed(t) | NeSeq(t) | NeSepSeq(t, _) | NeOptSepSeq(t, _) | NeSepList(t, _) | OptTokPrefix(_, t) | TokPrefix(_, t) => full(&[t]),
      NeOptSepList(t, s) => full(&[t, s]),
      SepList(t, _) => part_of(full(&[t])),
      OptSepList(t, s) => part_of(full(&[t, s])),
      Quoted(l, _, r) => full(&[l, r]),
      OptPrefix(p, t) => full(&[p, t]),
      Tuple(v) => full(&[&v[0], &v[v.len() - 1]]),
      Named(i) => {
        if self.plan[*i] {
          Sp::Full
        } else {
          Sp::No
        }
      }
      Mark => Sp::Try,
    }
  }
}

fn part_of(s: Sp) -> Sp {
  if s == Sp::Full {
    Sp::Try
  } else {
    Sp::No
  }
}

struct Gen<'a> {
  g: Gram,
  rng: &'a mut Rng,
}

impl Gen<'_> {
  fn term(&mut self) -> usize {
    self.rng.below(TERMS.len())
  }

  /// An element that takes at least one token. `me`: types below may be used anywhere.
  fn solid(&mut self, me: usize, depth: usize) -> Ty {
    use Ty::*;
    for _ in 0..30 {
      let t = if depth == 0 || self.rng.chance(1, 4) {
        if me > 0 && self.rng.chance(1, 4) {
          Named(self.rng.below(me))
        } else {
          Tok(self.term())
        }
      } else {
        let d = depth - 1;
        match self.rng.below(14) {
          0 => Boxed(self.b(me, d)),
          1 => NeSeq(self.b(me, d)),
          2 => NeSepSeq(self.e(me, d), self.sep(me)),
          3 => NeOptSepSeq(self.e(me, d), self.sep(me)),
          4 => NeSepList(self.e(me, d), self.sep(me)),
          5 => NeOptSepList(self.e(me, d), self.sep(me)),
          6 => {
            let inner = if self.rng.bool() { self.loose(me, d) } else { self.solid(me, d) };
            Quoted(self.b(me, 0), Box::new(inner), self.b(me, 0))
          }
          7 => OptPrefix(self.b(me, d), self.b(me, d)),
          8 => OptTokPrefix(self.term(), self.b(me, d)),
          9 => TokPrefix(self.term(), self.e(me, d)),
          10 | 11 => {
            let long = self.rng.chance(1, 12);
            let n = if long { self.rng.range(5, 12) } else { self.rng.range(1, 4) };
            let mut v = vec![self.solid(me, d)];
            for _ in 1..n {
              let e = if self.rng.chance(1, 3) { self.loose(me, d.min(1)) } else { self.solid(me, d.min(1)) };
              v.push(e);
            }
            Tuple(v)
          }
          _ if me > 0 => Named(self.rng.below(me)),
          _ => Tok(self.term()),
        }
      };
      if !self.g.nullable(&t) {
        return t;
      }
    }
    Tok(self.term())
  }

  fn b(&mut self, me: usize, d: usize) -> Box<Ty> {
    Box::new(self.solid(me, d))
  }

  /// An element that may also take no token, where that makes progress anyway.
  fn e(&mut self, me: usize, d: usize) -> Box<Ty> {
    if self.rng.chance(1, 5) {
      // types that may be empty, too
      let empty: Vec<usize> = (0..me).filter(|i| self.g.named[*i].nullable).collect();
      if !empty.is_empty() && self.rng.bool() {
        return Box::new(Ty::Named(*self.rng.pick(&empty)));
      }
      Box::new(self.loose(me, d.min(1)))
    } else {
      self.b(me, d)
    }
  }

  fn sep(&mut self, me: usize) -> Box<Ty> {
    match self.rng.below(10) {
      0 => self.b(me, 1),
      1 => self.b(me, 0),
      2..=4 => Box::new(Ty::Tok(12)),
      8 | 9 => self.long_sep(),
      5 => Box::new(Ty::Tok(11)),
      _ => Box::new(Ty::Tok(self.rng.below(TERMS.len()))),
    }
  }

  /// A separator of several tokens.
  fn long_sep(&mut self) -> Box<Ty> {
    use Ty::*;
    let (a, b) = (self.term(), self.term());
    Box::new(match self.rng.below(6) {
      0 | 1 => Tuple(vec![Tok(a), Tok(b)]),
      2 => TokPrefix(a, Box::new(Tok(b))),
      3 => OptTokPrefix(a, Box::new(Tok(b))),
      4 => Tuple(vec![Tok(a), Opt(Box::new(Tok(b)))]),
      _ => NeSeq(Box::new(Tok(a))),
    })
  }

  /// An element that may take no token.
  fn loose(&mut self, me: usize, depth: usize) -> Ty {
    use Ty::*;
    let d = depth.saturating_sub(1);
    match self.rng.below(8) {
      0 | 1 => Opt(self.e(me, d)),
      2 | 3 => Vec(self.b(me, d)),
      4 => SepSeq(self.e(me, d), self.sep(me)),
      5 => OptSepSeq(self.e(me, d), self.sep(me)),
      6 => SepList(self.e(me, d), self.sep(me)),
      _ => OptSepList(self.e(me, d), self.sep(me)),
    }
  }

  /// Fields of a struct or variant; the first decides.
  fn fields(&mut self, me: usize, total: usize, depth: usize, wide: bool) -> Vec<Ty> {
    let n = if wide { self.rng.range(7, 16) } else { *self.rng.pick(&[1, 1, 2, 2, 3, 3, 4, 5]) };
    if wide && self.rng.bool() {
      // a long run of tokens in front
      let lead = self.rng.range(4, 8);
      let mut v: Vec<Ty> = (0..lead).map(|_| Ty::Tok(self.term())).collect();
      v.extend((lead..n).map(|_| if self.rng.bool() { self.loose(me, 0) } else { self.solid(me, depth) }));
      return v;
    }
    if self.rng.chance(1, 9) {
      return (0..n).map(|_| self.loose(me, depth)).collect();
    }
    let mut v = vec![self.solid(me, depth)];
    for _ in 1..n {
      let empty: Vec<usize> = (0..me).filter(|i| self.g.named[*i].nullable).collect();
      let t = match self.rng.below(7) {
        6 if !empty.is_empty() => {
          // a type that may be empty, on its own and where being there matters
          let t = Box::new(Ty::Named(*self.rng.pick(&empty)));
          match self.rng.below(5) {
            0 => *t,
            1 => Ty::OptSepSeq(t, self.sep(me)),
            2 => Ty::SepSeq(t, self.sep(me)),
            _ => Ty::Opt(t),
          }
        }
        0 | 1 => self.loose(me, depth),
        2 => {
          // recursion or a later type, behind something that took a token
          let k = if self.rng.bool() { me } else { self.rng.below(total) };
          let t = Ty::Boxed(Box::new(Ty::Named(k)));
          match self.rng.below(3) {
            0 => Ty::Opt(Box::new(t)),
            _ => t,
          }
        }
        _ => self.solid(me, depth),
      };
      v.push(t);
    }
    v
  }

  fn named(&mut self, me: usize, total: usize) -> NamedTy {
    // some types have many variants or many fields
    let wide = me % 6 == 4;
    let many = if me % 12 == 4 { self.rng.range(7, 14) } else { 0 };
    for tries in 0.. {
      let many = if tries < 400 { many } else { 0 };
      let is_enum = many > 0 || self.rng.chance(1, 2);
      let n = match is_enum {
        true if many > 0 => many,
        true => self.rng.range(1, 5),
        false => 1,
      };
      // tokens the variants of a large type start with
      let mut firsts: Vec<usize> = (0..TERMS.len()).collect();
      let generic = if is_enum {
        Generic::No
      } else {
        *self.rng.pick(&[Generic::No, Generic::No, Generic::No, Generic::No, Generic::Life, Generic::Const, Generic::Type])
      };
      let mut variants = Vec::new();
      for _ in 0..n {
        let style = match self.rng.below(9) {
          0 => Style::Unit,
          1..=4 => Style::Named,
          _ => Style::Unnamed,
        };
        let depth = if wide { self.rng.below(2) } else { self.rng.below(3) };
        let f = if style == Style::Unit && generic == Generic::No {
          vec![]
        } else {
          let long = wide && (n < 6 || self.rng.chance(1, 6));
          let mut f = self.fields(me, total, depth, long);
          if many > 0 && !firsts.is_empty() && self.rng.chance(4, 5) {
            f[0] = Ty::Tok(firsts.swap_remove(self.rng.below(firsts.len())));
          }
          f
        };
        let style = if style == Style::Unit && !f.is_empty() { Style::Named } else { style };
        variants.push((style, f));
      }
      let shared = is_enum && n < 4 && generic == Generic::No && self.rng.chance(1, 5);
      if shared {
        // the same tokens in front of every variant
        let lead: Vec<Ty> = (0..self.rng.range(1, 3)).map(|_| Ty::Tok(self.term())).collect();
        for (style, f) in &mut variants {
          f.splice(0..0, lead.iter().cloned());
          if *style == Style::Unit {
            *style = Style::Unnamed;
          }
        }
      } else if is_enum && n > 1 && self.rng.chance(1, 4) {
        // an empty alternative comes last
        variants.push((*self.rng.pick(&[Style::Unit, Style::Unit, Style::Named, Style::Unnamed]), vec![]));
      }
      let solid_start = |v: &(Style, Vec<Ty>)| v.1.first().map_or(false, |t| !self.g.nullable(t));
      // alternatives behind one that is always taken would be dead
      let dead = variants.iter().take(variants.len() - 1).filter(|v| !solid_start(v)).count();
      if dead > 0 && !self.rng.chance(1, 20) {
        continue;
      }
      // declared first tokens
      let mut starts = Vec::new();
      if self.rng.chance(if shared { 3 } else { 1 }, if wide { 2 } else { 4 }) {
        let lead: Vec<Vec<usize>> =
          variants.iter().map(|v| v.1.iter().map_while(|t| if let Ty::Tok(k) = t { Some(*k) } else { None }).collect()).collect();
        let common: Vec<usize> = (0..).map_while(|i| lead[0].get(i).copied().filter(|k| lead.iter().all(|l| l.get(i) == Some(k)))).collect();
        if !common.is_empty() {
          let k = if wide { common.len() } else { self.rng.range(1, common.len()) };
          starts = common[..k].to_vec();
        }
      }
      if generic != Generic::No {
        variants[0].1.push(Ty::Mark);
      }
      let spanned = self.g.plan[me];
      let mut try_span = Vec::new();
      let mut ok = true;
      for (_, f) in &variants {
        let sps: Vec<Sp> = f.iter().map(|t| self.g.sp(t)).collect();
        let full: Vec<usize> = (0..f.len()).filter(|i| sps[*i] == Sp::Full).collect();
        let mut ts = vec![false; f.len()];
        if spanned {
          let (Some(&first), Some(&last)) = (full.first(), full.last()) else {
            ok = false;
            break;
          };
          for (i, s) in sps.iter().enumerate() {
            let edge = i < first || i > last;
            ok &= !(edge && *s == Sp::No);
            ts[i] = *s == Sp::Try && (edge || self.rng.bool());
          }
          // a field that always has a span may be marked as well, as long as one is left
          if full.len() > 1 && self.rng.chance(1, 5) && !sps.contains(&Sp::No) {
            for (i, s) in sps.iter().enumerate() {
              ts[i] |= *s == Sp::Try;
            }
            ts[*self.rng.pick(&full)] = true;
          }
        }
        try_span.push(ts);
      }
      if !ok {
        continue;
      }
      let nullable = variants.iter().any(|(_, f)| f.iter().all(|t| self.g.nullable(t)));
      return NamedTy { is_enum, variants, starts, spanned, nullable, generic, try_span };
    }
    unreachable!()
  }
}

pub fn gram(seed: u64, thorough: bool) -> Gram {
  let mut rng = Rng::new(seed.wrapping_mul(0x5851_f42d).wrapping_add(5));
  let (n, m) = if thorough { (110, 260) } else { (44, 90) };
  let plan = (0..n).map(|_| rng.chance(4, 5)).collect();
  let mut g = Gen { g: Gram { named: vec![], roots: vec![], plan }, rng: &mut rng };
  for i in 0..n {
    let t = g.named(i, n);
    g.g.named.push(t);
  }
  let mut roots: Vec<Ty> = (0..n).map(Ty::Named).collect();
  // every form once over tokens
  let t = |g: &mut Gen| Box::new(Ty::Tok(g.term()));
  for form in 0..19 {
    use Ty::*;
    let (a, b, c) = (t(&mut g), t(&mut g), t(&mut g));
    roots.push(match form {
      0 => Tok(g.term()),
      1 => Opt(a),
      2 => Vec(a),
      3 => Boxed(a),
      4 => NeSeq(a),
      5 => SepSeq(a, b),
      6 => NeSepSeq(a, b),
      7 => OptSepSeq(a, b),
      8 => NeOptSepSeq(a, b),
      9 => NeSepList(a, b),
      10 => SepList(a, b),
      11 => NeOptSepList(a, b),
      12 => OptSepList(a, b),
      13 => Quoted(a, b, c),
      14 => OptPrefix(a, b),
      15 => OptTokPrefix(g.term(), b),
      16 => TokPrefix(g.term(), b),
      17 => Tuple(vec![*a, *b, *c]),
      _ => Tuple((0..26).map(|_| Tok(g.term())).collect()),
    });
  }
  // separated by several tokens, and by what may be missing
  for form in 0..16 {
    use Ty::*;
    let a = if g.rng.chance(1, 3) { g.b(n, 1) } else { t(&mut g) };
    let s = if form < 8 {
      g.long_sep()
    } else {
      let s = t(&mut g);
      Box::new(if g.rng.bool() { Opt(s) } else { Vec(s) })
    };
    roots.push(match form % 8 {
      0 => SepSeq(a, s),
      1 => NeSepSeq(a, s),
      2 => OptSepSeq(a, s),
      3 => NeOptSepSeq(a, s),
      4 => NeSepList(a, s),
      5 => SepList(a, s),
      6 => NeOptSepList(a, s),
      _ => OptSepList(a, s),
    });
  }
  for k in [1, 2, 3, 9, 10, 12, 13, 15, 16, 18, 19, 21, 22, 24, 26, 4, 5, 6, 7, 8, 11, 14, 17, 20, 23, 25] {
    let v = (0..k).map(|_| Ty::Tok(g.term())).collect();
    roots.push(Ty::Tuple(v));
  }
  for _ in 0..m {
    let d = g.rng.range(1, 3);
    let t = if g.rng.chance(2, 5) { g.loose(n, d) } else { g.solid(n, d) };
    roots.push(t);
  }
  g.g.roots = roots;
  g.g
}

// ---------------------------------------------------------------- source text

impl Gram {
  pub fn name(&self, i: usize) -> String {
    match self.named[i].generic {
      Generic::No => format!("N{i}"),
      Generic::Life => format!("N{i}<'static>"),
      Generic::Const => format!("N{i}<7>"),
      Generic::Type => format!("N{i}<u8>"),
    }
  }

  pub fn ty(&self, t: &Ty) -> String {
    use Ty::*;
    let tok = |k: usize| format!("Token![{}]", TERMS[k].0);
    let two = |n: &str, a: &Ty, b: &Ty| format!("{n}<{}, {}>", self.ty(a), self.ty(b));
    match t {
      Tok(k) => tok(*k),
      Opt(t) => format!("Option<{}>", self.ty(t)),
      Vec(t) => format!("Vec<{}>", self.ty(t)),
      Boxed(t) => format!("Box<{}>", self.ty(t)),
      NeSeq(t) => format!("NonEmptySeq<{}>", self.ty(t)),
      SepSeq(a, b) => two("SepSeq", a, b),
      NeSepSeq(a, b) => two("NonEmptySepSeq", a, b),
      OptSepSeq(a, b) => two("OptSepSeq", a, b),
      NeOptSepSeq(a, b) => two("NonEmptyOptSepSeq", a, b),
      NeSepList(a, b) => two("NonEmptySepList", a, b),
      SepList(a, b) => two("SepList", a, b),
      NeOptSepList(a, b) => two("NonEmptyOptSepList", a, b),
      OptSepList(a, b) => two("OptSepList", a, b),
      Quoted(a, b, c) => format!("Quoted<{}, {}, {}>", self.ty(a), self.ty(b), self.ty(c)),
      OptPrefix(a, b) => two("OptPrefix", a, b),
      OptTokPrefix(k, b) => format!("OptTokenPrefix<{}, {}>", tok(*k), self.ty(b)),
      TokPrefix(k, b) => format!("TokenPrefix<{}, {}>", tok(*k), self.ty(b)),
      Tuple(v) => format!("({},)", v.iter().map(|t| self.ty(t)).collect::<std::vec::Vec<_>>().join(", ")),
      Named(i) => self.name(*i),
      Mark => "Mark".into(),
    }
  }
}

/// Name of a field.
pub fn field_name(i: usize, k: usize) -> String {
  const NAMES: &[&str] = &["r#type", "tokens", "span", "r#fn", "_f1", "value", "_under", "token"];
  if (i + k) % 4 == 0 && k < 8 {
    NAMES[(i * 3 + k) % NAMES.len()].to_string() + if k > 0 && !NAMES[(i * 3 + k) % NAMES.len()].starts_with("r#") { "_x" } else { "" }
  } else {
    format!("f{k}")
  }
}
