//! D05, T05: spans as places of one input, tokens as keys for their kinds.

use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, LocationUpdate, Span, Spanned, TrySpan};
use laps::token::Token;
use std::borrow::{Borrow, BorrowMut};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::path::Path;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

type L = (u32, u32);

fn lc(l: Location) -> L {
  (l.line, l.col)
}

/// A symbol of a user's own input format, which moves the position in its own way.
#[derive(Clone, Copy, Debug)]
enum Jump {
  Line(u32),
  Col(u32),
  Home,
}

impl LocationUpdate for Jump {
  fn update(&self, loc: &mut Location) {
    match self {
      Jump::Line(n) => loc.line += n,
      Jump::Col(n) => loc.col += n,
      Jump::Home => *loc = Location { line: 1, col: 0 },
    }
  }
}

#[derive(Clone, Copy, Debug)]
enum Sym {
  C(char),
  B(u8),
  J(Jump),
}

impl Sym {
  fn gen(r: &mut Rng) -> Self {
    match r.below(3) {
      0 => Sym::C(if r.chance(1, 3) { '\n' } else { crate::readers::gen_char(r, false) }),
      1 => Sym::B(if r.chance(1, 3) { b'\n' } else { r.u64() as u8 }),
      _ => Sym::J(match r.below(3) {
        0 => Jump::Line(r.below(5) as u32),
        1 => Jump::Col(r.below(9) as u32),
        _ => Jump::Home,
      }),
    }
  }

  fn model(&self, l: L) -> L {
    match self {
      Sym::C('\n') | Sym::B(b'\n') => (l.0 + 1, 0),
      Sym::C(_) | Sym::B(_) => (l.0, l.1 + 1),
      Sym::J(Jump::Line(n)) => (l.0 + n, l.1),
      Sym::J(Jump::Col(n)) => (l.0, l.1 + n),
      Sym::J(Jump::Home) => (1, 0),
    }
  }
}

/// What a span must be.
#[derive(Clone, Copy, Debug, PartialEq)]
struct M {
  input: usize,
  start: L,
  end: L,
}

fn file_type(r: &mut Rng) -> (FileType, String) {
  match r.below(4) {
    0 => (FileType::Stdin, "<stdin>".into()),
    1 => (FileType::Buffer, "<buffer>".into()),
    _ => {
      let p = *r.pick(&["a.txt", "dir/ä b.c", "/abs/x", "..", "{}", "%s", "日本"]);
      (FileType::File(Box::from(Path::new(p))), p.into())
    }
  }
}

/// The span a new reader starts with, and how its input is called.
fn of_reader(r: &mut Rng) -> (Span, String) {
  let path = *r.pick(&["/dev/null", "/dev/../dev/null", "/dev/./null", "/dev/zero"]);
  macro_rules! of {
    ($t:ident) => {
      match r.below(6) {
        0 => ($t::from_path(path).expect("harness: a device").span().clone(), path.into()),
        1 => ($t::from_stdin().span().clone(), "<stdin>".into()),
        2 => ($t::from(std::io::stdin()).span().clone(), "<stdin>".into()),
        3 => ($t::from("text").span().clone(), "<buffer>".into()),
        4 => ($t::from(String::from("text")).span().clone(), "<buffer>".into()),
        _ => ($t::from(&b"text"[..]).span().clone(), "<buffer>".into()),
      }
    };
  }
  if r.bool() {
    of!(Reader)
  } else {
    of!(ByteReader)
  }
}

fn check(what: &str, s: &Span, m: &M, names: &[String]) -> Verdict {
  ensure!((lc(s.start()), lc(s.end())) == (m.start, m.end), "{what}: the span is {:?}-{:?}, expected {m:?}", s.start(), s.end());
  let text = format!("{}:{}-{}:{}", m.start.0, m.start.1, m.end.0, m.end.1);
  ensure!(s.to_string() == text, "{what}: the span displays as {s}, expected {text}");
  let at = format!("{}:{}", m.start.0, m.start.1);
  ensure!(s.start().to_string() == at, "{what}: the location displays as {}, expected {at}", s.start());
  ensure!(s.file_type().to_string() == names[m.input], "{what}: the input is {}, expected {}", s.file_type(), names[m.input]);
  Ok(())
}

/// A tree of what may hold places, for `TrySpan`.
type Item = Option<Token<K>>;

fn d05(c: &mut Case) -> Verdict {
  let mut names = Vec::new();
  let mut pool: Vec<(Span, M)> = Vec::new();
  let n = if c.thorough { c.rng.range(5, 120) } else { c.rng.range(5, 40) };
  let mut log = String::new();
  let mut counts: Vec<usize> = Vec::new();
  for k in 0..n {
    let op = if pool.is_empty() { 0 } else { c.rng.weighted(&[3, 8, 14, 10, 8, 10, 10, 4, 5, 5, 6]) };
    let name = ["new", "clone", "update", "into_updated", "update_loc", "update_end", "into_end_updated", "log", "tuple", "list", "box"][op];
    let what = format!("operation {k} ({name})");
    let i = if pool.is_empty() { 0 } else { c.rng.below(pool.len()) };
    let j = if pool.is_empty() { 0 } else { c.rng.below(pool.len()) };
    let sym = Sym::gen(&mut c.rng);
    let wide = c.rng.chance(1, 6);
    let mut num = || if wide { *c.rng.pick(&[0u32, 9, 10, 99, 1000, 65535, 1 << 31, u32::MAX - 100_000]) } else { c.rng.below(6) as u32 };
    let loc = (num(), num());
    let mut at = i;
    match op {
      0 => {
        let (f, t) = file_type(&mut c.rng);
        counts.push(0);
        let (span, t) = if c.rng.chance(1, 3) { (Span::new(f), t) } else { of_reader(&mut c.rng) };
        names.push(t);
        pool.push((span, M { input: names.len() - 1, start: (1, 0), end: (1, 0) }));
        at = pool.len() - 1;
      }
      1 => {
        let p = (pool[i].0.clone(), pool[i].1);
        pool.push(p);
        at = pool.len() - 1;
      }
      2 | 3 => {
        let (s, m) = &mut pool[i];
        let l = sym.model(m.start);
        if op == 2 {
          guard(|| match &sym {
            Sym::C(x) => s.update(x),
            Sym::B(x) => s.update(x),
            Sym::J(x) => s.update(x),
          })?;
        } else {
          let t = s.clone();
          *s = guard(|| match &sym {
            Sym::C(x) => t.into_updated(x),
            Sym::B(x) => t.into_updated(x),
            Sym::J(x) => t.into_updated(x),
          })?;
        }
        (m.start, m.end) = (l, l);
      }
      4 => {
        let (s, m) = &mut pool[i];
        s.update_loc(Location { line: loc.0, col: loc.1 });
        (m.start, m.end) = (loc, loc);
      }
      5 | 6 => {
        // the other span may belong to another input; its places are what counts
        let (other, om) = (pool[j].0.clone(), pool[j].1);
        let (s, m) = &mut pool[i];
        let by_ref = c.rng.bool();
        match (op, by_ref) {
          (5, true) => s.update_end(&other),
          (5, _) => s.update_end(other),
          (_, true) => *s = s.clone().into_end_updated(&other),
          _ => *s = s.clone().into_end_updated(other),
        }
        m.end = om.end;
      }
      7 => {
        // only the input of this span counts it
        let (s, m) = &pool[i];
        let e = laps::log_raw_error!(s, "x");
        ensure!(!e.is_fatal(), "{what}: the error is fatal");
        counts[m.input] += 1;
      }
      8 => {
        let l = c.rng.below(pool.len());
        let (a, am) = (Token { kind: K(0, String::new()), span: pool[i].0.clone() }, pool[i].1);
        let (b, bm) = (Token { kind: K(1, String::new()), span: pool[j].0.clone() }, pool[j].1);
        let m = Token { kind: K(2, String::new()), span: pool[l].0.clone() };
        let (s, w) = match c.rng.below(4) {
          0 => ((a,).span(), am),
          1 => ((a, b).span(), M { end: bm.end, ..am }),
          2 => ((a, m, b).span(), M { end: bm.end, ..am }),
          _ => (((a, m.clone()), m.clone(), (), m, (b,)).span(), M { end: bm.end, ..am }),
        };
        check(&what, &s, &w, &names)?;
        pool.push((s, w));
        at = pool.len() - 1;
      }
      9 => {
        // places in lists, some elements have none
        let mut v: Vec<Vec<Item>> = Vec::new();
        let mut want: Option<M> = None;
        for _ in 0..c.rng.below(4) {
          let mut inner = Vec::new();
          for _ in 0..c.rng.below(4) {
            if c.rng.bool() {
              inner.push(None);
              continue;
            }
            let (s, m) = &pool[c.rng.below(pool.len())];
            inner.push(Some(Token { kind: K(3, String::new()), span: s.clone() }));
            want = Some(want.map_or(*m, |w| M { end: m.end, ..w }));
          }
          v.push(inner);
        }
        let got = guard(|| if c.rng.bool() { v.try_span() } else { Some(v).try_span() })?;
        match (got, want) {
          (Some(s), Some(w)) => {
            check(&what, &s, &w, &names)?;
            pool.push((s, w));
            at = pool.len() - 1;
          }
          (None, None) => {}
          (g, w) => return Err(format!("{what}: the list's span is {g:?}, expected {w:?}")),
        }
      }
      _ => {
        let t = Token { kind: K(4, String::new()), span: pool[i].0.clone() };
        check(&what, &Box::new(t.clone()).span(), &pool[i].1, &names)?;
        match Some(Box::new(t)).try_span() {
          Some(s) => check(&what, &s, &pool[i].1, &names)?,
          None => return Err(format!("{what}: no span")),
        }
      }
    }
    log.push_str(name);
    log.push_str(&format!("{i},{j} "));
    // everything in the pool is as the model says, and compares as the model does
    for (x, (s, m)) in pool.iter().enumerate() {
      check(&format!("after {what}, span {x}"), s, m, &names)?;
      ensure!(s.error_num() == counts[m.input], "after {what}, span {x} of input {} counts {} errors, expected {}", m.input, s.error_num(), counts[m.input]);
    }
    let (s, m) = &pool[at];
    for (t, tm) in &pool {
      ensure!((s == t) == (m == tm) && (t == s) == (m == tm), "after {what}: {m:?} and {tm:?} compare {} as spans", s == t);
      let same = m.end.0 == tm.start.0;
      ensure!(s.is_in_same_line_as(t) == same, "after {what}: whether {tm:?} begins on the line {m:?} ends on is {}", !same);
      c.evals(2);
    }
  }
  c.count("inputs", names.len() as u64);
  c.count("spans", pool.len() as u64);
  c.distinct(&log);
  Ok(())
}

// ---------------------------------------------------------------- T05

/// A kind whose equality looks at one part only.
#[derive(Clone, Debug)]
struct K(u32, String);

impl PartialEq for K {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl Eq for K {}
impl Hash for K {
  fn hash<H: Hasher>(&self, h: &mut H) {
    self.0.hash(h);
    0xabu8.hash(h);
  }
}
impl fmt::Display for K {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    if f.alternate() {
      write!(f, "alt {} {}", self.0, self.1)
    } else {
      f.pad(&format!("{}{}", self.1, self.0))
    }
  }
}
impl From<u32> for K {
  fn from(n: u32) -> Self {
    K(n, "n".into())
  }
}
impl From<&str> for K {
  fn from(s: &str) -> Self {
    K(s.len() as u32, s.into())
  }
}
impl From<(u32, String)> for K {
  fn from(x: (u32, String)) -> Self {
    K(x.0, x.1)
  }
}

#[derive(Default, PartialEq, Debug)]
struct Written(Vec<u8>);
impl Hasher for Written {
  fn finish(&self) -> u64 {
    0
  }
  fn write(&mut self, b: &[u8]) {
    self.0.push(b.len() as u8);
    self.0.extend_from_slice(b);
  }
}

fn written<T: Hash>(t: &T) -> Written {
  let mut w = Written::default();
  t.hash(&mut w);
  w
}

fn t05(c: &mut Case) -> Verdict {
  let roots = [Span::new(FileType::Buffer), Span::new(FileType::Stdin)];
  let n = c.rng.range(2, 24);
  let kinds = *c.rng.pick(&[2u32, 4, 12, 1000]);
  let mut toks: Vec<(Token<K>, u32, String, String)> = Vec::new();
  for _ in 0..n {
    let mut s = c.rng.pick(&roots).clone();
    s.update_loc(Location { line: c.rng.below(5) as u32, col: c.rng.below(5) as u32 });
    if c.rng.bool() {
      let mut e = s.clone();
      e.update_loc(Location { line: c.rng.below(5) as u32, col: c.rng.below(5) as u32 });
      s.update_end(e);
    }
    let at = format!("{s}");
    let k = c.rng.below(kinds as usize) as u32;
    let text = c.rng.pick(&["", "x", "ä", "{}", "long text"]).to_string();
    let (t, k, text): (Token<K>, u32, String) = match c.rng.below(3) {
      0 => (Token::new(k, s.clone()), k, "n".into()),
      1 => (Token::new(text.as_str(), s.clone()), text.len() as u32, text),
      _ => (Token::new((k, text.clone()), s.clone()), k, text),
    };
    ensure!(t.kind.0 == k && t.kind.1 == text, "a token made from ({k}, {text:?}) holds {:?}", t.kind);
    ensure!(t.span == s && t.span() == s, "a token made at {s} is at {}", t.span);
    toks.push((t, k, text, at));
  }
  c.sample(|| format!("{toks:?}"));
  for (t, k, text, at) in &toks {
    let kind = K(*k, text.clone());
    ensure!(*t == kind, "{t:?} differs from its kind");
    ensure!(written(t) == written(&kind), "{t:?} hashes to {:?}, its kind to {:?}", written(t), written(&kind));
    let (b, a): (&K, &K) = (t.borrow(), t.as_ref());
    ensure!(std::ptr::eq(b, &t.kind) && std::ptr::eq(a, &t.kind), "borrowing {t:?} gives another kind");
    let shown = [format!("{t}"), format!("{t:>9}|"), format!("{t:-^12.3}"), format!("{t:#}")];
    let want = [format!("{kind}"), format!("{kind:>9}|"), format!("{kind:-^12.3}"), format!("{kind:#}")];
    ensure!(shown == want, "{t:?} displays as {shown:?}, expected {want:?}");
    let copy = t.clone();
    ensure!(copy.kind.0 == *k && copy.kind.1 == *text && copy.span.to_string() == *at && copy.span == t.span, "a copy of {t:?} is {copy:?}");
    for (u, l, _, _) in &toks {
      ensure!((t == u) == (k == l), "{t:?} and {u:?} compare {}", t == u);
      ensure!((*t == u.kind) == (k == l), "{t:?} and the kind of {u:?} compare {}", *t == u.kind);
      ensure!((t != u) == (k != l), "{t:?} and {u:?} are different: {}", t != u);
      c.evals(3);
    }
  }
  // as keys, found by kind wherever they came from
  let mut map: HashMap<Token<K>, usize> = HashMap::new();
  let mut set: HashSet<Token<K>> = HashSet::new();
  let mut model: BTreeMap<u32, usize> = BTreeMap::new();
  for (i, (t, k, _, _)) in toks.iter().enumerate() {
    let probe = K(c.rng.below(kinds as usize + 3) as u32, "probe".into());
    ensure!(map.get(&probe).copied() == model.get(&probe.0).copied(), "looking up kind {} among tokens gives {:?}, expected {:?}", probe.0, map.get(&probe), model.get(&probe.0));
    ensure!(set.contains(&probe) == model.contains_key(&probe.0), "the set of tokens contains kind {}: {}", probe.0, set.contains(&probe));
    if c.rng.chance(1, 4) {
      let (a, b) = (map.remove(&probe), model.remove(&probe.0));
      ensure!(a == b && set.remove(&probe) == b.is_some(), "removing kind {} gives {a:?}, expected {b:?}", probe.0);
    }
    let old = model.insert(*k, i);
    ensure!(map.insert(t.clone(), i) == old && set.insert(t.clone()) == old.is_none(), "inserting {t:?} does not replace {old:?}");
    ensure!(map.len() == model.len() && set.len() == model.len(), "{} keys, expected {}", map.len(), model.len());
    c.evals(4);
  }
  let shape = format!("{toks:?}");
  // changing the kind in place leaves the position
  for (t, k, _, at) in &mut toks {
    let via = c.rng.bool();
    {
      let m: &mut K = if via { t.borrow_mut() } else { t.as_mut() };
      m.0 += 7;
    }
    ensure!(t.kind.0 == *k + 7 && t.span.to_string() == *at, "after adding 7 to the kind of token {k} at {at}, it is {t:?}");
  }
  c.count("tokens", n as u64);
  c.distinct(&shape);
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "D05",
      run: d05,
      rule: "random histories of span operations over several inputs; distinct by history",
      alloc_mib: 128,
      cpu_s: 20,
    },
    Prop {
      id: "T05",
      run: t05,
      rule: "sets of tokens of few kinds at many positions, used as keys; distinct by tokens",
      alloc_mib: 128,
      cpu_s: 20,
    },
  ]
}
