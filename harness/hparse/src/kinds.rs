//! Random token kinds and token elements.

use vmon::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
  Unit,
  Paren,
  Pair,
  Braces,
  U8,
  U32,
  I64,
  Str,
  Char,
  Bool,
  F64,
  Custom,
}

impl F {
  pub fn ty(self) -> &'static str {
    match self {
      F::U8 => "u8",
      F::U32 => "u32",
      F::I64 => "i64",
      F::Str => "String",
      F::Char => "char",
      F::Bool => "bool",
      F::F64 => "f64",
      F::Custom => "crate::Pt",
      _ => "",
    }
  }

  pub fn single(self) -> bool {
    !self.ty().is_empty()
  }
}

#[derive(Clone, Debug)]
pub struct Var {
  pub name: &'static str,
  pub docs: Vec<String>,
  pub block: bool,
  pub f: F,
}

/// When an element accepts a kind: alternatives of variant and bounds of its number.
pub type Pred = Vec<(usize, i64, i64)>;

#[derive(Clone, Debug)]
pub struct Elem {
  pub tok: String,
  pub pat: String,
  pub prompt: Option<&'static str>,
  pub pred: Pred,
  /// The variant whose value can be unwrapped.
  pub value: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct KindDef {
  pub vars: Vec<Var>,
  pub elems: Vec<Elem>,
  pub vis: &'static str,
  pub path: &'static str,
  pub derive: &'static str,
}

const NAMES: &[&str] = &[
  "Plus", "Minus", "Ident", "IntLiteral", "StringConst", "EndOfFile", "Other", "KwWhile", "LeftParen", "Number64", "Größe", "Unknown",
  "LineComment", "Op", "Some", "Ok", "Err", "None", "Token", "Self_", "Kind", "Error", "From", "String",
  "NaïveBayesRule", "ÉtoileFilante", "A", "AVeryLongNameWithQuiteAFewWordsInIt", "X86Asm", "漢字Kind", "ÄÖÜTest", "Snake_Case", "UTF8", "lowerCamel", "_Hidden", "ΩmegaOp", "Z9", "straßeNameÜber",
];
const PARTS: &[&str] = &["Ident", "Op", "É", "ß", "é", "9", "_", "X", "Long", "Ω", "名", "Kw", "Num", "ĳ", "z"];
const WORDS: &[&str] = &[
  "token", "The", "`+`", "a.b", "e.g.", "{}", "}", "{", "É", "X", "...", "i.e.", "\\", "\"q\"", "=", "Über", "1.", "\u{a0}", "\t", "ẞ", "{{}}", "//", "*", ".",
];
const DOCS: &[&str] = &[
  "Number.", "an identifier", "The `{`", "`}` or `{}`.", "{{ double }}", "50% \\ \"quoted\".", "{v} {0}", "UPPER Case", "", "trailing..", "A B C .",
  "{", "}", "{self}", "{f}", "漢字 and ümlaut", "tab\there", "`{0:?}`.", ".", "{:>8}", "a.b.", "#[doc]", "é.", "x",
];
const PROMPTS: &[&str] = &["number", "`;`", "something long, with commas", "%s", "\\n", "\"quoted\"", "漢字", "a"];

const ALL: i64 = i64::MAX;

pub fn gen(rng: &mut Rng) -> KindDef {
  let n = rng.range(2, 9);
  let mut names: Vec<&'static str> = NAMES.to_vec();
  for _ in 0..6 {
    let name: String = (0..rng.range(1, 5)).map(|_| *rng.pick(PARTS)).collect();
    if name.starts_with(|c: char| c.is_alphabetic()) && !names.contains(&&name[..]) && name.len() > 1 {
      names.push(Box::leak(format!("Q{name}").into_boxed_str()));
    }
  }
  rng.shuffle(&mut names);
  let mut types = vec![F::U8, F::U32, F::I64, F::Str, F::Char, F::Bool, F::F64, F::Custom];
  rng.shuffle(&mut types);
  let vars: Vec<Var> = (0..n)
    .map(|i| {
      let f = match rng.below(9) {
        0 | 1 => F::Unit,
        2 => *rng.pick(&[F::Paren, F::Pair, F::Braces]),
        _ => types.pop().unwrap_or(F::Unit),
      };
      let block = rng.chance(1, 6);
      let docs = (0..*rng.pick(&[0, 0, 1, 1, 1, 2, 3])).map(|_| {
        if rng.chance(1, 3) {
          let w: Vec<&str> = (0..rng.below(7)).map(|_| *rng.pick(WORDS)).collect();
          format!("{}{}", w.join(if rng.chance(1, 5) { "" } else { " " }), if rng.chance(1, 3) { "." } else { "" })
        } else {
          rng.pick(DOCS).to_string()
        }
      }).collect();
      Var { name: names[i], docs, block, f }
    })
    .collect();
  let m = rng.range(2, 9);
  let toks = ["plus", "+", "-", "id", "=>", "if", ",", "eof", "x y", "::", "42", "lit", "fn", "->", "'a'", "..=", "_z"];
  let mut toks: Vec<&str> = toks.to_vec();
  rng.shuffle(&mut toks);
  let mut elems = Vec::new();
  for i in 0..m {
    let v = rng.below(n);
    let var = &vars[v];
    let k = format!("Ki::{}", var.name);
    let any = match var.f {
      F::Unit => k.clone(),
      F::Paren => format!("{k}()"),
      F::Pair => format!("{k}(..)"),
      F::Braces => format!("{k} {{ .. }}"),
      _ => format!("{k}(_)"),
    };
    let lit = match var.f {
      F::U8 => Some(rng.below(6) as i64),
      F::U32 => Some(rng.below(6) as i64),
      F::I64 => Some(rng.below(6) as i64 - 2),
      F::Char => Some(rng.range(97, 101) as i64),
      F::Bool => Some(rng.below(2) as i64),
      _ => None,
    };
    let show = |x: i64| match var.f {
      F::Char => format!("{:?}", char::from_u32(x as u32).unwrap()),
      F::Bool => (x == 1).to_string(),
      _ => x.to_string(),
    };
    let prompt = Some(*rng.pick(PROMPTS));
    let value = var.f.single().then_some(v);
    let (pat, prompt, pred, value) = match rng.below(7) {
      0 if matches!(var.f, F::Unit | F::Paren) => (any, None, vec![(v, -ALL, ALL)], None),
      1 | 2 if lit.is_some() => {
        let x = lit.unwrap();
        // without a prompt the pattern is also used as an expression
        let p = if rng.bool() { None } else { prompt };
        (format!("{k}({})", show(x)), p, vec![(v, x, x)], value)
      }
      3 if lit.is_some() && var.f != F::Bool => {
        let x = lit.unwrap();
        let y = x + rng.below(3) as i64;
        (format!("{k}({}..={})", show(x), show(y)), prompt, vec![(v, x, y)], value)
      }
      4 if matches!(var.f, F::U8 | F::U32 | F::I64) => {
        let x = lit.unwrap();
        (format!("{k}(x) if *x > {x}"), prompt, vec![(v, x + 1, ALL)], value)
      }
      4 if var.f == F::Str => {
        let x = rng.range(1, 3) as i64;
        (format!("{k}(s) if s.len() >= {x} && s.len() != 99"), prompt, vec![(v, x, ALL)], value)
      }
      5 if matches!(var.f, F::U8 | F::U32) => {
        let (x, y) = (lit.unwrap(), rng.below(6) as i64);
        (format!("{k}(x @ ({x} | {y})) if x != &77"), prompt, if x == y { vec![(v, x, x)] } else { vec![(v, x, x), (v, y, y)] }, value)
      }
      6 => {
        let w = rng.below(n);
        let other = format!("Ki::{} {{ .. }}", vars[w].name);
        let bar = if rng.bool() { "| " } else { "" };
        if w == v {
          (any, prompt, vec![(v, -ALL, ALL)], value)
        } else {
          (format!("{bar}{any} | {other}"), prompt, vec![(v, -ALL, ALL), (w, -ALL, ALL)], None)
        }
      }
      _ => (any, prompt, vec![(v, -ALL, ALL)], value),
    };
    elems.push(Elem { tok: toks[i].to_string(), pat, prompt, pred, value });
  }
  let (vis, path) = *rng.pick(&[("", ""), ("", ""), ("pub(crate) ", ""), ("pub(self) ", ""), ("pub ", ""), ("pub(in crate::generated) ", ""), ("pub(in super::super) ", ""), ("pub(super) ", "")]);
  let derive = *rng.pick(&["", "#[derive(Debug, PartialEq)]", "#[derive(Clone)] #[derive(Debug)]"]);
  KindDef { vars, elems, vis, path, derive }
}

pub fn kinds(seed: u64, thorough: bool) -> Vec<KindDef> {
  let mut rng = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(99));
  (0..if thorough { 140 } else { 40 }).map(|_| gen(&mut rng)).collect()
}
