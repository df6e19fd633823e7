#[path = "src/gram.rs"]
#[allow(dead_code)]
mod gram;
#[path = "src/kinds.rs"]
#[allow(dead_code)]
mod kinds;

use gram::*;
use kinds::F;
use std::fmt::Write;

macro_rules! w {
  ($s:ident, $($t:tt)*) => { writeln!($s, $($t)*).unwrap() };
}

fn main() {
  println!("cargo:rerun-if-env-changed=VERIF_SEED");
  println!("cargo:rerun-if-env-changed=VERIF_TIER");
  for f in ["build.rs", "src/gram.rs", "src/kinds.rs"] {
    println!("cargo:rerun-if-changed={f}");
  }
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
  let mut s = String::new();
  w!(s, "pub const SEED: u64 = {seed};\npub const THOROUGH: bool = {thorough};");
  grammar(&mut s, &gram(seed, thorough));
  token_kinds(&mut s, &kinds::kinds(seed, thorough));
  let out = std::env::var("OUT_DIR").unwrap();
  std::fs::write(format!("{out}/code.rs"), s).unwrap();
}

fn fields(g: &Gram, i: usize, style: Style, f: &[Ty], ts: &[bool], indent: &str) -> String {
  let one = |k: usize, t: &Ty| {
    let attr = if ts.get(k) == Some(&true) { "#[try_span] " } else { "" };
    // types refer to themselves as `Self` at times
    let text = g.ty(t);
    let text = match t {
      Ty::Mark => match g.named[i].generic {
        Generic::Life => "crate::Mark<&'x ()>".into(),
        Generic::Const => "crate::Mark<[(); X]>".into(),
        _ => "crate::Mark<X>".into(),
      },
      Ty::Boxed(b) if **b == Ty::Named(i) && (k + i) % 2 == 0 => "Box<Self>".into(),
      _ => text,
    };
    match style {
      Style::Named => format!("{indent}  {attr}{}: {text},", field_name(i, k)),
      _ => format!("{attr}{text},"),
    }
  };
  let v: Vec<String> = f.iter().enumerate().map(|(k, t)| one(k, t)).collect();
  match style {
    Style::Named => format!(" {{\n{}\n{indent}}}", v.join("\n")),
    Style::Unnamed => format!("({})", v.join(" ")),
    Style::Unit => String::new(),
  }
}

fn observed(g: &Gram, t: &Ty, e: &str) -> String {
  match g.sp(t) {
    Sp::Full => format!("{e}.dump().with(Some(laps::span::Spanned::span({e})))"),
    Sp::Try => format!("{e}.dump().with(laps::span::TrySpan::try_span({e}))"),
    Sp::No => format!("{e}.dump()"),
  }
}

fn grammar(s: &mut String, g: &Gram) {
  w!(s, "use crate::K;\ntype Token = laps::token::Token<K>;\ntoken_ast! {{\n  #[derive(Debug, Clone, PartialEq)]\n  macro Token<K> {{");
  for (n, p, prompt) in TERMS {
    if prompt.is_empty() {
      w!(s, "    [{n}] => {{ kind: {p} }},");
    } else {
      w!(s, "    [{n}] => {{ kind: {p}, prompt: {prompt:?} }},");
    }
  }
  w!(s, "  }}\n}}");
  for (n, _, _) in TERMS {
    w!(s, "impl crate::Dump for Token![{n}] {{ fn dump(&self) -> crate::Tree {{ crate::Tree::token(&self.0) }} }}");
  }
  for (i, n) in g.named.iter().enumerate() {
    w!(s, "#[derive(Parse{})]\n#[token(Token)]", if n.spanned { ", Spanned" } else { "" });
    if !n.starts.is_empty() {
      let v: Vec<String> = n.starts.iter().map(|k| format!("Token![{}]", TERMS[*k].0)).collect();
      w!(s, "#[starts_with({})]", v.join(", "));
    }
    let (params, wh) = match n.generic {
      Generic::No => ("", ""),
      Generic::Life => ("<'x>", ""),
      Generic::Const => ("<const X: usize>", ""),
      Generic::Type => {
        if i % 2 == 0 {
          ("<X: Copy>", "")
        } else {
          ("<X>", " where X: Copy + 'static")
        }
      }
    };
    if n.is_enum {
      w!(s, "pub enum N{i} {{");
      for (k, (style, f)) in n.variants.iter().enumerate() {
        w!(s, "  V{k}{},", fields(g, i, *style, f, n.try_span.get(k).map_or(&[], |v| v), "  "));
      }
      w!(s, "}}");
    } else {
      let (style, f) = &n.variants[0];
      let body = fields(g, i, *style, f, n.try_span.first().map_or(&[], |v| v), "");
      match style {
        Style::Named => w!(s, "pub struct N{i}{params}{wh}{body}"),
        _ => w!(s, "pub struct N{i}{params}{body}{wh};"),
      }
    }
    w!(s, "impl crate::Dump for {} {{\n  fn dump(&self) -> crate::Tree {{\n    let t = match self {{", g.name(i));
    for (k, (style, f)) in n.variants.iter().enumerate() {
      let pat: Vec<String> = (0..f.len())
        .map(|k| match style {
          Style::Named => format!("{}: x{k}", field_name(i, k)),
          _ => format!("{k}: x{k}"),
        })
        .collect();
      let head = if n.is_enum { format!("Self::V{k}") } else { "Self".into() };
      let kids: Vec<String> = f.iter().enumerate().map(|(k, t)| observed(g, t, &format!("x{k}"))).collect();
      w!(s, "      {head} {{ {} }} => crate::Tree::node({k}, vec![{}]),", pat.join(", "), kids.join(", "));
    }
    w!(s, "    }};\n    {}\n  }}\n}}", if n.spanned { "t.with(Some(laps::span::Spanned::span(self)))" } else { "t" });
  }
  let mut arms = String::new();
  for (i, t) in g.roots.iter().enumerate() {
    w!(s, "type R{i} = {};", g.ty(t));
    w!(arms, "    {i} => crate::go::<R{i}>(job, |t| {}),", observed(g, t, "t"));
  }
  w!(s, "pub fn root(i: usize, job: &mut crate::Job) -> Result<(), String> {{\n  match i {{\n{arms}    _ => unreachable!(),\n  }}\n}}");
}

fn token_kinds(s: &mut String, defs: &[kinds::KindDef]) {
  let (mut kind_arms, mut elem_arms) = (String::new(), String::new());
  for (i, d) in defs.iter().enumerate() {
    w!(s, "pub mod k{i} {{\nuse laps::prelude::*;\nuse laps::token::TokenStream;\ntype Tok = laps::token::Token<Ki>;");
    w!(s, "#[token_kind]\n#[derive(Debug)]\npub enum Ki {{");
    let (mut make, mut info, mut convs) = (String::new(), String::new(), String::new());
    for (k, v) in d.vars.iter().enumerate() {
      if v.block && !v.docs.is_empty() {
        w!(s, "  #[doc = {:?}]", v.docs.join("\n "));
      } else {
        for t in &v.docs {
          w!(s, "  #[doc = {t:?}]");
        }
      }
      let n = v.name;
      let ty = v.f.ty();
      // attributes that mean nothing to the macro
      let other = ["", "", "", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]"][(i * 7 + k * 5) % 6];
      if !other.is_empty() {
        w!(s, "  {other}");
      }
      match v.f {
        F::Unit => {
          w!(s, "  {n},");
          w!(make, "      {k} => Ki::{n},");
        }
        F::Paren => {
          w!(s, "  {n}(),");
          w!(make, "      {k} => Ki::{n}(),");
        }
        F::Pair => {
          w!(s, "  {n}(u8, u8),");
          w!(make, "      {k} => Ki::{n}(1, 2),");
        }
        F::Braces => {
          w!(s, "  {n} {{ value: u8 }},");
          w!(make, "      {k} => Ki::{n} {{ value: 1 }},");
        }
        f => {
          w!(s, "  {n}({ty}),");
          w!(make, "      {k} => Ki::{n}(crate::Val::gen(r)),");
          w!(info, "      Ki::{n}(v) => ({k}, crate::Val::num(v), Some((v.to_string(), format!(\"{{v:?}}\")))),");
          let _ = f;
          w!(
            convs,
            "    match self {{\n      Ki::{n}(v) => {{\n        crate::same(Ki::from(v.clone()) == *self, \"From\")?;\n        crate::same(<{ty}>::try_from(self.clone()).as_ref() == Ok(v), \"TryFrom of the kind\")?;\n        crate::same(<&{ty}>::try_from(self) == Ok(v), \"TryFrom of a reference\")?;\n      }}\n      _ => {{\n        crate::same(<{ty}>::try_from(self.clone()).is_err(), \"TryFrom of another variant\")?;\n        crate::same(<&{ty}>::try_from(self).is_err(), \"TryFrom of a reference to another variant\")?;\n      }}\n    }}"
          );
          continue;
        }
      }
      w!(info, "      Ki::{n} {{ .. }} => ({k}, 0, None),");
    }
    w!(s, "}}\nimpl crate::KindOps for Ki {{\n  fn make(v: usize, r: &mut vmon::Rng) -> Self {{\n    let _ = &r;\n    match v {{\n{make}      _ => unreachable!(),\n    }}\n  }}");
    w!(s, "  fn info(&self) -> crate::Info {{\n    match self {{\n{info}    }}\n  }}\n  fn convs(&self) -> Result<(), String> {{\n{convs}    Ok(())\n  }}\n}}");
    let path = if d.vis == "pub(crate) " { format!("crate::generated::k{i}::") } else { d.path.to_string() };
    w!(s, "token_ast! {{\n  /// Token elements.\n  {}\n  {}macro {path}Tk{i}<Ki> {{", d.derive, d.vis);
    for e in &d.elems {
      match e.prompt {
        Some(p) => w!(s, "    [{}] => {{ kind: {}, prompt: {p:?} }},", e.tok, e.pat),
        None => w!(s, "    [{}] => {{ kind: {} }},", e.tok, e.pat),
      }
    }
    w!(s, "  }}\n}}");
    // used from outside the declaring module where its visibility allows that
    let outside = !matches!(d.vis.trim(), "" | "pub(self)" | "pub") && i % 4 != 3;
    if outside {
      w!(s, "}}\npub mod e{i} {{\nuse super::*;\nuse super::k{i}::*;\ntype Tok = laps::token::Token<Ki>;");
    }
    w!(s, "pub fn elem(j: usize, job: &mut crate::ElemJob) -> Result<(), String> {{\n  match j {{");
    for (j, e) in d.elems.iter().enumerate() {
      let t = format!("Tk{i}![{}]", e.tok);
      let want = match e.prompt {
        Some(p) => format!("{p:?}.to_string()"),
        None => format!("({}).to_string()", e.pat),
      };
      let unwrap = match e.value {
        Some(v) => {
          let ty = d.vars[v].f.ty();
          format!("Some(|e: {t}| {{ let r = format!(\"{{:?}}\", e.unwrap_ref::<&{ty}, _>()); (r, format!(\"{{:?}}\", e.unwrap::<{ty}, _>())) }})")
        }
        None => "None".into(),
      };
      let next = &d.elems[(j + 1) % d.elems.len()].tok;
      w!(
        s,
        "    {j} => {{\n      fn look<TS: TokenStream<Token = Tok>>(t: &mut TS) -> laps::span::Result<bool> {{ t.lookahead().maybe({t})?.maybe(Tk{i}![{next}])?.result() }}\n      crate::elem::<{t}, Ki>(job, &{want}, |e| e.0.clone(), {unwrap}, look::<crate::Buf<Ki>>, look::<crate::Mini<Ki>>)\n    }}"
      );
    }
    w!(s, "    _ => unreachable!(),\n  }}\n}}\n}}");
    w!(kind_arms, "    {i} => crate::kind::<k{i}::Ki>(job),");
    w!(elem_arms, "    {i} => {}{i}::elem(j, job),", if outside { "e" } else { "k" });
  }
  w!(s, "pub fn kind(i: usize, job: &mut crate::KindJob) -> Result<(), String> {{\n  match i {{\n{kind_arms}    _ => unreachable!(),\n  }}\n}}");
  w!(s, "pub fn elem(i: usize, j: usize, job: &mut crate::ElemJob) -> Result<(), String> {{\n  match i {{\n{elem_arms}    _ => unreachable!(),\n  }}\n}}");
}
