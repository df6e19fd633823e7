//! The token definitions: generated from a seed, both to write their source text (build script)
//! and to know what they mean (monitor).

use crate::gen::*;
use crate::re::*;
use vmon::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Attr {
  Regex,
  Skip,
  Eof,
  /// Declared, never produced by the lexer.
  Bare,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Field {
  Unit,
  Paren,
  Str,
  U8,
  I16,
  Char,
  Bool,
  Closure,
  Path,
  Int,
  BClosure,
  BPath,
  /// The type parameter of the enum.
  Param,
  /// An array as long as the constant parameter of the enum.
  Array,
}

/// Parameters of an enum.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Generic {
  No,
  /// A type, bounded in a where clause or where it is declared.
  Where,
  Bound,
  /// A constant: the length of the texts that some variants take.
  Len(usize),
}

#[derive(Clone, Debug)]
pub struct Var {
  pub attr: Attr,
  pub pat: String,
  pub re: Re,
  pub field: Field,
  pub docs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Def {
  pub bytes: bool,
  pub par: Option<bool>,
  pub vars: Vec<Var>,
  pub generic: Generic,
}

/// The name of a variant, and the same in words.
pub fn name(index: usize) -> (String, String) {
  match index % 4 {
    0 | 1 => (format!("V{index}"), format!("v{index}")),
    2 => (format!("LongName{index}"), format!("long name{index}")),
    _ => (format!("Ab{index}CD"), format!("ab{index} c d")),
  }
}

impl Var {
  /// Its documentation in lower case without the final period, else its name in lower case.
  pub fn description(&self, index: usize) -> String {
    let docs = self.docs.iter().map(|d| d.trim()).collect::<Vec<_>>().join(" ");
    let mut d = docs.trim().to_ascii_lowercase();
    if d.is_empty() {
      return name(index).1;
    }
    if d.ends_with('.') {
      d.pop();
    }
    d
  }
}

impl Def {
  pub fn kind(&self) -> Kind {
    if self.bytes {
      Kind::Byte
    } else {
      Kind::Char
    }
  }

  pub fn pats(&self) -> Vec<(Re, usize)> {
    let pat = |v: &Var| matches!(v.attr, Attr::Regex | Attr::Skip);
    self.vars.iter().enumerate().filter(|(_, v)| pat(v)).map(|(i, v)| (v.re.clone(), i)).collect()
  }

  pub fn set(&self) -> PatSet {
    let mode = if self.bytes { Mode::ByteUtf8 } else { Mode::CharUtf8 };
    PatSet { mode, pats: self.vars.iter().enumerate().filter(|(_, v)| matches!(v.attr, Attr::Regex | Attr::Skip)).map(|(i, v)| (v.pat.clone(), v.re.clone(), i)).collect() }
  }

  pub fn eof(&self) -> Option<usize> {
    self.vars.iter().position(|v| v.attr == Attr::Eof)
  }
}

const REAL: &[&str] = &[
  r"[0-9]+", r"[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?", r"[_A-Za-z][_A-Za-z0-9]*", r#""([^"\\]|\\.)*""#, r"/\*([^*]|\*+[^*/])*\*+/", r"//.*",
  r"if", r"else", r"while", r"int|void", r"[-+*/%]", r"==|!=|<=|>=|<|>|=", r"&&|\|\|", r"[(){}\[\],;]", r"0x[0-9a-fA-F]+", r"0b[01]+",
  r"'([^'\\]|\\.)'", r"true|false", r"-?(0|[1-9][0-9]*)", r"[a-z]+", r"a+b", r"(ab)+", r"a|ab|abc", r"(a|b)*abb", r"\.\.\.?", r"<<=?",
  r"if|in|int", r"[a-f]{3}", r"a{2,4}", r"[^\s]+", r"\r?\n", r"#[^\n]*\n", r"é+", r"λx\.", "日本|日", r"->|-", r"\t",
];
const REAL_SKIP: &[&str] = &[r"\s+", r"[ \t]+", r"[ \n]+", r"\s", r"//[^\n]*\n?", r"[ \t\r\n]+|#.*", r" +", "\n", r"--[a-z]*;"];
const DOCS: &[&str] = &[
  "Number.", "an identifier", "The `{`.", "`}` or `{}`", "{{ double }}", "50% \\ \"quoted\".", "{v} {0}", "Über 漢字", "", "trailing. ", "A B C..", "{span}", "{buf:?}",
];

/// Language of a pattern that is usable in the mode: supported, matching something, not the empty string.
fn known(pat: &str, mode: Mode) -> Option<Re> {
  match classify(pat, mode) {
    Class3::Ok(re) if !re.nullable() => Some(re),
    _ => None,
  }
}

fn pick_real(rng: &mut Rng, pool: &[&str], mode: Mode) -> (String, Re) {
  loop {
    let mut p = rng.pick(pool).to_string();
    if mode.kind() == Kind::Byte && rng.bool() {
      p = format!("(?-u:{p})");
    }
    if let Some(re) = known(&p, mode) {
      return (p, re);
    }
    // byte mode: the ASCII-only form of a pattern that uses Unicode classes
    if mode.kind() == Kind::Byte {
      let q = p.replace(r"[^\n]", r"[ -~]").replace(r"[^\s]", r"[!-~]").replace(r".*", "[ -~]*").replace(r"\\.", r"\\[ -~]").replace(r#"[^"\\]"#, r"[ !#-\[\]-~]").replace(r"[^'\\]", r"[ -&(-\[\]-~]").replace(r"[^*]", r"[\n -)+-~]").replace(r"[^*/]", r"[\n -)+-.0-~]").replace(r"\s", r"[ \t\r\n]");
      if let Some(re) = known(&q, mode) {
        return (q, re);
      }
    }
  }
}

fn field(rng: &mut Rng, bytes: bool) -> Field {
  if bytes {
    *rng.pick(&[Field::Unit, Field::Unit, Field::Paren, Field::BClosure, Field::BPath, Field::BPath])
  } else {
    *rng.pick(&[
      Field::Unit,
      Field::Unit,
      Field::Paren,
      Field::Str,
      Field::Str,
      Field::Str,
      Field::U8,
      Field::I16,
      Field::Char,
      Field::Bool,
      Field::Closure,
      Field::Path,
      Field::Int,
    ])
  }
}

fn docs(rng: &mut Rng) -> Vec<String> {
  (0..if rng.bool() { 0 } else { rng.range(1, 2) }).map(|_| rng.pick(DOCS).to_string()).collect()
}

pub fn gen_def(rng: &mut Rng, max_states: usize) -> Def {
  loop {
    let bytes = rng.chance(2, 5);
    let mode = if bytes { Mode::ByteUtf8 } else { Mode::CharUtf8 };
    let mut pats: Vec<(String, Re, bool)> = Vec::new();
    if rng.bool() {
      // programming-language-like
      for _ in 0..rng.range(1, 9) {
        let (p, r) = pick_real(rng, REAL, mode);
        pats.push((p, r, false));
      }
      for _ in 0..*rng.pick(&[0, 1, 1, 1, 2]) {
        let (p, r) = pick_real(rng, REAL_SKIP, mode);
        pats.push((p, r, true));
      }
    } else {
      let wide = !bytes && rng.chance(1, 3);
      let set = gen_set_of(rng, mode, 7, 60, wide);
      for (p, r, _) in set.pats {
        if !r.nullable() {
          let skip = rng.chance(1, 5);
          pats.push((p, r, skip));
        }
      }
      if rng.chance(1, 3) {
        let (p, r) = pick_real(rng, REAL_SKIP, mode);
        pats.push((p, r, true));
      }
    }
    if pats.is_empty() {
      continue;
    }
    rng.shuffle(&mut pats);
    let mut vars: Vec<Var> = pats
      .into_iter()
      .map(|(pat, re, skip)| {
        let attr = if skip { Attr::Skip } else { Attr::Regex };
        let field = match attr {
          Attr::Skip => *rng.pick(&[Field::Unit, Field::Paren]),
          _ => field(rng, bytes),
        };
        Var { attr, pat, re, field, docs: docs(rng) }
      })
      .collect();
    if rng.chance(7, 8) {
      let at = rng.below(vars.len() + 1);
      vars.insert(at, Var { attr: Attr::Eof, pat: String::new(), re: Re::Empty, field: *rng.pick(&[Field::Unit, Field::Paren]), docs: docs(rng) });
    }
    if rng.chance(1, 6) {
      let at = rng.below(vars.len() + 1);
      vars.insert(at, Var { attr: Attr::Bare, pat: String::new(), re: Re::Empty, field: Field::Unit, docs: docs(rng) });
    }
    let mut generic = Generic::No;
    if rng.chance(1, 4) {
      let v = rng.below(vars.len());
      if vars[v].attr == Attr::Regex {
        let (g, f) = match rng.below(3) {
          _ if bytes => (Generic::Len(rng.range(1, 3)), Field::Array),
          0 => (Generic::Where, Field::Param),
          1 => (Generic::Bound, Field::Param),
          _ => (Generic::Len(rng.range(1, 3)), Field::Array),
        };
        generic = g;
        vars[v].field = f;
      }
    }
    let def = Def { bytes, par: *rng.pick(&[None, None, Some(true), Some(false)]), vars, generic };
    match Model::new(def.kind(), &def.pats(), max_states) {
      Some(m) if m.atoms.len() <= 1500 => return def,
      _ => continue,
    }
  }
}

/// A lexer whose table has about `n` states, all of them on one long token.
fn long(n: u32, bytes: bool, extra: bool) -> Def {
  let v = |pat: String, field: Field| {
    let mode = if bytes { Mode::ByteUtf8 } else { Mode::CharUtf8 };
    let re = known(&pat, mode).unwrap();
    Var { attr: Attr::Regex, pat, re, field, docs: vec![] }
  };
  let val = if bytes { Field::BPath } else { Field::Str };
  let mut vars = vec![v(format!("a{{{n}}}"), val)];
  if extra {
    vars.push(v("b|ac?".into(), val));
  }
  vars.push(Var { attr: Attr::Eof, pat: String::new(), re: Re::Empty, field: Field::Unit, docs: vec![] });
  Def { bytes, par: None, vars, generic: Generic::No }
}

pub fn defs(seed: u64, thorough: bool) -> Vec<Def> {
  let mut v = Vec::new();
  for n in 252..=257 {
    v.push(long(n, n % 2 == 0, false));
    v.push(long(n, n % 2 == 1, true));
  }
  let mut rng = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(77));
  for i in 0..if thorough { 160 } else { 44 } {
    v.push(gen_def(&mut rng, if i % 9 == 8 { 320 } else { 60 }));
  }
  v
}

pub fn field_ty(f: Field) -> &'static str {
  match f {
    Field::Unit => "",
    Field::Paren => "()",
    Field::Str | Field::Closure | Field::Path => "(String)",
    Field::U8 => "(u8)",
    Field::I16 => "(i16)",
    Field::Char => "(char)",
    Field::Bool => "(bool)",
    Field::Int => "(u16)",
    Field::BClosure | Field::BPath => "(Vec<u8>)",
    Field::Param => "(X)",
    Field::Array => "([u8; X])",
  }
}

pub fn parser(f: Field, bytes: bool) -> &'static str {
  match f {
    Field::Closure => ", |s: &str| if s.chars().count() % 3 != 1 { Some(s.to_string()) } else { None }",
    Field::Path => ", crate::reversed",
    Field::Int => ", laps::lexer::int_literal",
    Field::BClosure => ", |b: &[u8]| if b.len() % 3 != 1 { Some(b.to_vec()) } else { None }",
    Field::BPath => ", crate::kept",
    Field::Array if bytes => ", crate::exactly::<X, [u8]>",
    Field::Array => ", crate::exactly",
    _ => "",
  }
}

/// What the value of a token with this text looks like.
pub fn value(f: Field, d: &Def, text: &[u32]) -> Option<String> {
  let s = || text.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>();
  let b = || text.iter().map(|c| *c as u8).collect::<Vec<u8>>();
  match f {
    Field::Unit | Field::Paren => Some(String::new()),
    Field::Str => Some(format!("{:?}", s())),
    Field::U8 => s().parse::<u8>().ok().map(|v| v.to_string()),
    Field::I16 => s().parse::<i16>().ok().map(|v| v.to_string()),
    Field::Char => (text.len() == 1).then(|| format!("{:?}", s().chars().next().unwrap())),
    Field::Bool => match s().as_str() {
      "true" => Some("true".into()),
      "false" => Some("false".into()),
      _ => None,
    },
    Field::Closure => (text.len() % 3 != 1).then(|| format!("{:?}", s())),
    Field::Path => (text.last() != Some(&('b' as u32))).then(|| format!("{:?}", s().chars().rev().collect::<String>())),
    Field::Int => {
      let t = s();
      let (d, r) = match t.get(..2) {
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        Some("0x") => (&t[2..], 16),
        _ => (&t[..], 10),
      };
      if d.is_empty() || !d.chars().all(|c| c.is_ascii() && c.is_digit(r)) {
        return None;
      }
      let mut v: u64 = 0;
      for c in d.chars() {
        v = (v * r as u64 + c.to_digit(r).unwrap() as u64).min(1 << 32);
      }
      (v <= 65535).then(|| v.to_string())
    }
    Field::BClosure => (text.len() % 3 != 1).then(|| format!("{:?}", b())),
    Field::BPath => Some(format!("{:?}", b())),
    Field::Param => s().parse::<i8>().ok().map(|v| v.to_string()),
    Field::Array => {
      let b = if d.bytes { b() } else { s().into_bytes() };
      (d.generic == Generic::Len(b.len())).then(|| format!("{b:?}"))
    }
  }
}
