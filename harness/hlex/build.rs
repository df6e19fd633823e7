#[path = "src/defs.rs"]
#[allow(dead_code)]
mod defs;
#[path = "../hregex/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../hregex/src/re.rs"]
#[allow(dead_code)]
mod re;

use std::fmt::Write;

fn main() {
  println!("cargo:rerun-if-env-changed=VERIF_SEED");
  println!("cargo:rerun-if-env-changed=VERIF_TIER");
  for f in ["build.rs", "src/defs.rs", "../hregex/src/gen.rs", "../hregex/src/re.rs"] {
    println!("cargo:rerun-if-changed={f}");
  }
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
  let mut s = String::new();
  let mut arms = String::new();
  writeln!(s, "pub const SEED: u64 = {seed};\npub const THOROUGH: bool = {thorough};").unwrap();
  for (i, d) in defs::defs(seed, thorough).iter().enumerate() {
    writeln!(s, "#[derive(Debug, Tokenize)]").unwrap();
    if d.bytes {
      writeln!(s, "#[char_type(u8)]").unwrap();
    } else if i % 5 == 0 {
      writeln!(s, "#[char_type(char)]").unwrap();
    }
    if let Some(p) = d.par {
      writeln!(s, "#[enable_par({p})]").unwrap();
    }
    let (params, wh, names, args) = match d.generic {
      defs::Generic::No => ("", "", "", String::new()),
      defs::Generic::Where => ("<X>", " where X: std::str::FromStr + std::fmt::Debug", "<X>", "<i8>".into()),
      defs::Generic::Bound => ("<X: std::str::FromStr + std::fmt::Debug>", "", "<X>", "<i8>".into()),
      defs::Generic::Len(n) => ("<const X: usize>", "", "<X>", format!("<{n}>")),
    };
    // attributes that mean nothing to the lexer
    let other = |k: usize| ["", "", "#[allow(dead_code)] ", "#[doc(hidden)] ", "#[cfg(all())] ", "#[rustfmt::skip] "][(i * 7 + k * 5) % 6];
    writeln!(s, "#[allow(dead_code)]\npub enum L{i}{params}{wh} {{").unwrap();
    let mut obs = String::new();
    for (k, v) in d.vars.iter().enumerate() {
      for t in &v.docs {
        writeln!(s, "  #[doc = {t:?}]").unwrap();
      }
      let before = other(k);
      if !before.is_empty() {
        writeln!(s, "  {before}").unwrap();
      }
      match v.attr {
        defs::Attr::Regex => writeln!(s, "  #[regex({:?}{})]", v.pat, defs::parser(v.field, d.bytes)).unwrap(),
        defs::Attr::Skip => writeln!(s, "  #[skip({:?})]", v.pat).unwrap(),
        defs::Attr::Eof => writeln!(s, "  #[eof]").unwrap(),
        defs::Attr::Bare => {}
      }
      let ty = defs::field_ty(v.field);
      let name = defs::name(k).0;
      writeln!(s, "  {}{name}{ty},", other(k + 3)).unwrap();
      match ty {
        "" => writeln!(obs, "L{i}::{name} => ({k}, String::new()),").unwrap(),
        "()" => writeln!(obs, "L{i}::{name}() => ({k}, String::new()),").unwrap(),
        _ => writeln!(obs, "L{i}::{name}(v) => ({k}, format!(\"{{v:?}}\")),").unwrap(),
      }
    }
    writeln!(s, "}}\nimpl{params} crate::Obs for L{i}{names}{wh} {{\n  fn obs(&self) -> (usize, String) {{ match self {{\n{obs}  }} }}\n}}").unwrap();
    writeln!(arms, "    {i} => crate::drive::<L{i}{args}, {}>(job),", if d.bytes { "crate::Bytes" } else { "crate::Chars" }).unwrap();
  }
  writeln!(s, "pub fn dispatch(i: usize, job: &mut crate::Job) -> Result<(), String> {{\n  match i {{\n{arms}    _ => unreachable!(),\n  }}\n}}").unwrap();
  let out = std::env::var("OUT_DIR").unwrap();
  std::fs::write(format!("{out}/lexers.rs"), s).unwrap();
}
