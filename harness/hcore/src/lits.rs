//! L05, L06: the literal helpers against decoders written from their documentation.

use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal, IntLiteral};
use std::fmt::Debug;
use vmon::{ensure, guard, Case, Prop, Rng, Verdict};

// ---------------------------------------------------------------- L05

/// Magnitude of the literal, capped (None: not a literal).
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mag {
  Val(u128),
  TooBig,
}

fn magnitude(s: &str) -> Option<Mag> {
  let b = s.as_bytes();
  let (radix, digits) = if b.len() >= 2 && b[0] == b'0' && matches!(b[1], b'b' | b'o' | b'x') {
    (match b[1] { b'b' => 2, b'o' => 8, _ => 16 }, &b[2..])
  } else {
    (10u128, b)
  };
  if digits.is_empty() {
    return None;
  }
  let mut m = Mag::Val(0);
  for d in digits {
    let v = match d {
      b'0'..=b'9' => (d - b'0') as u128,
      b'a'..=b'f' => (d - b'a') as u128 + 10,
      b'A'..=b'F' => (d - b'A') as u128 + 10,
      _ => return None,
    };
    if v >= radix {
      return None;
    }
    if let Mag::Val(x) = m {
      m = x.checked_mul(radix).and_then(|x| x.checked_add(v)).map_or(Mag::TooBig, Mag::Val);
    }
  }
  Some(m)
}

trait Int: IntLiteral + Debug + PartialEq + Copy {
  const NAME: &'static str;
  const MAX: u128;
  const SIGNED: bool;
  fn of(neg: bool, mag: u128) -> Self;
  fn max_mag() -> u128 {
    Self::MAX
  }
}

macro_rules! int {
  ($($t:ident $signed:literal),*) => { $(impl Int for $t {
    const NAME: &'static str = stringify!($t);
    const MAX: u128 = <$t>::MAX as u128;
    const SIGNED: bool = $signed;
    fn of(neg: bool, mag: u128) -> Self {
      // reduction modulo 2^n of the mathematical value
      let v = if neg { (!mag).wrapping_add(1) } else { mag };
      v as $t
    }
  })* };
}
int!(i8 true, i16 true, i32 true, i64 true, i128 true, isize true, u8 false, u16 false, u32 false, u64 false, u128 false, usize false);

fn want_unsigned<T: Int>(s: &str) -> Option<T> {
  match magnitude(s)? {
    Mag::Val(v) if v <= T::MAX => Some(T::of(false, v)),
    _ => None,
  }
}

fn want_signed<T: Int>(s: &str) -> Option<T> {
  if let Some(rest) = s.strip_prefix('-') {
    match magnitude(rest)? {
      // the least value of a signed type has the magnitude MAX + 1
      Mag::Val(v) if T::SIGNED && v == T::MAX + 1 => Some(T::of(true, v)),
      Mag::Val(v) if v <= T::MAX => Some(T::of(true, v)),
      _ => None,
    }
  } else {
    want_unsigned(s.strip_prefix('+').unwrap_or(s))
  }
}

fn check_int<T: Int>(s: &str) -> Verdict {
  let g = guard(|| int_literal::<T>(s)).map_err(|e| format!("int_literal::<{}>({s:?}): {e}", T::NAME))?;
  let w = want_unsigned::<T>(s);
  ensure!(g == w, "int_literal::<{}>({s:?}) is {g:?}, expected {w:?}", T::NAME);
  let g = guard(|| signed_int_literal::<T>(s)).map_err(|e| format!("signed_int_literal::<{}>({s:?}): {e}", T::NAME))?;
  let w = want_signed::<T>(s);
  ensure!(g == w, "signed_int_literal::<{}>({s:?}) is {g:?}, expected {w:?}", T::NAME);
  Ok(())
}

fn radix_str(mut v: u128, radix: u128, upper: bool) -> String {
  let digits: &[u8] = if upper { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
  let mut out = Vec::new();
  loop {
    out.push(digits[(v % radix) as usize]);
    v /= radix;
    if v == 0 {
      break;
    }
  }
  out.reverse();
  String::from_utf8(out).unwrap()
}

fn gen_int(r: &mut Rng) -> String {
  // values around the limits of all types
  let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
  let base = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
  let v = match r.below(6) {
    0 => r.below(20) as u128,
    1 | 2 => {
      let d = r.below(4) as u128;
      if r.bool() { base.wrapping_add(d) } else { base - d }
    }
    3 => ((r.u64() as u128) << 64 | r.u64() as u128) >> r.below(128),
    4 => base / *r.pick(&[2, 8, 10, 16]),
    _ => (base / 10 * 10).saturating_add(r.below(10) as u128),
  };
  let (p, radix) = *r.pick(&[("", 10u128), ("", 10), ("0x", 16), ("0b", 2), ("0o", 8)]);
  let mut d = radix_str(v, radix, r.bool());
  if r.chance(1, 6) {
    d = "0".repeat(r.range(1, 140)) + &d;
  }
  if r.chance(1, 10) {
    // one digit more: just too big for 128 bits
    d.push(char::from_digit(r.below(radix as usize) as u32, radix as u32).unwrap());
  }
  let mut s = format!("{}{p}{d}", *r.pick(&["", "", "-", "-", "+"]));
  // near misses
  while r.chance(1, 5) {
    let noise: &[char] = &['+', '-', '_', ' ', '0', 'x', 'b', 'o', 'X', 'B', 'O', 'g', 'f', '8', '2', '9', '.', 'é', '٣', '\u{ff10}', '\n', '你'];
    let cs: Vec<char> = s.chars().collect();
    let at = r.below(cs.len() + 1);
    let mut t: Vec<char> = cs;
    match r.below(4) {
      0 if at < t.len() => {
        t.remove(at);
      }
      1 => t.truncate(at),
      2 if at < t.len() => t[at] = *r.pick(noise),
      _ => t.insert(at.min(r.below(5)), *r.pick(noise)),
    }
    s = t.into_iter().collect();
  }
  s
}

fn enumerated(mut k: u64, alpha: &[&str]) -> String {
  // all strings over the alphabet, shortest first
  let n = alpha.len() as u64;
  let mut len = 0;
  let mut block = 1;
  while k >= block {
    k -= block;
    block *= n;
    len += 1;
  }
  let mut s = String::new();
  for _ in 0..len {
    s.push_str(alpha[(k % n) as usize]);
    k /= n;
  }
  s
}

fn l05(c: &mut Case) -> Verdict {
  let mut texts = Vec::new();
  for j in 0..50u64 {
    let s = if j < 15 {
      enumerated(c.index * 15 + j, &["0", "1", "x", "b", "o", "-", "+", "7", "8", "f", "G", "9"])
    } else {
      gen_int(&mut c.rng)
    };
    texts.push(s);
  }
  c.sample(|| format!("{texts:?}"));
  for s in &texts {
    check_int::<i8>(s)?;
    check_int::<i16>(s)?;
    check_int::<i32>(s)?;
    check_int::<i64>(s)?;
    check_int::<i128>(s)?;
    check_int::<isize>(s)?;
    check_int::<u8>(s)?;
    check_int::<u16>(s)?;
    check_int::<u32>(s)?;
    check_int::<u64>(s)?;
    check_int::<u128>(s)?;
    check_int::<usize>(s)?;
    c.evals(24);
    let t = s.trim_start_matches(['+', '-']);
    c.count(if magnitude(t).is_some() { "texts that are literals" } else { "texts that are not" }, 1);
    c.distinct(s);
  }
  Ok(())
}

// ---------------------------------------------------------------- L06

/// One documented character or escape at the start of `s`.
fn unit(s: &[char], quote: char) -> Option<(char, usize)> {
  match *s.first()? {
    '\n' | '\r' | '\t' => None,
    c if c == quote => None,
    '\\' => match *s.get(1)? {
      'r' => Some(('\r', 2)),
      'n' => Some(('\n', 2)),
      't' => Some(('\t', 2)),
      '0' => Some(('\0', 2)),
      c @ ('\\' | '\'' | '"') => Some((c, 2)),
      'x' => {
        let h = s.get(2)?.to_digit(16).filter(|_| s[2].is_ascii())?;
        let l = s.get(3)?.to_digit(16).filter(|_| s[3].is_ascii())?;
        Some((char::from_u32(h * 16 + l)?, 4))
      }
      'u' => {
        if *s.get(2)? != '{' {
          return None;
        }
        let end = s.iter().position(|c| *c == '}')?;
        let hex = &s[3..end];
        if hex.is_empty() {
          return None;
        }
        let mut v: u128 = 0;
        for h in hex {
          if !h.is_ascii_hexdigit() {
            return None;
          }
          v = (v * 16 + h.to_digit(16)? as u128).min(1 << 40);
        }
        Some((char::from_u32(u32::try_from(v).ok()?)?, end + 1))
      }
      _ => None,
    },
    c => Some((c, 1)),
  }
}

fn units(s: &str, quote: char) -> Option<Vec<char>> {
  let cs: Vec<char> = s.chars().collect();
  if cs.len() < 2 || cs[0] != quote || cs[cs.len() - 1] != quote {
    return None;
  }
  let body = &cs[1..cs.len() - 1];
  let mut out = Vec::new();
  let mut i = 0;
  while i < body.len() {
    let (c, n) = unit(&body[i..], quote)?;
    out.push(c);
    i += n;
  }
  Some(out)
}

fn gen_lit(r: &mut Rng) -> String {
  let q = if r.bool() { '"' } else { '\'' };
  let mut s = String::from(q);
  let n = match r.below(4) {
    _ if r.chance(1, 1500) => r.range(100, 6000),
    0 => 1,
    1 => r.below(3),
    _ => r.below(12),
  };
  if n >= 100 && r.chance(3, 4) {
    // a long one without mistakes
    for _ in 0..n {
      let v = if r.bool() { r.below(0xd800) } else { r.range(0xe000, 0x10ffff) };
      match r.below(8) {
        0 => s.push_str(r.pick(&["\\r", "\\n", "\\t", "\\0", "\\\\", "\\'", "\\\""])),
        1 => s.push_str(&format!("\\x{:02x}", v % 256)),
        2 => s.push_str(&format!("\\u{{{v:x}}}")),
        _ => s.push(*r.pick(&['a', 'é', '你', ' ', '~', '{', 'x'])),
      }
    }
    s.push(q);
    return s;
  }
  for _ in 0..n {
    match r.below(10) {
      0..=2 => s.push(crate::readers::gen_char(r, false)),
      3 => s.push(*r.pick(&['"', '\'', '\\', '\n', '\r', '\t', ' ', '{', '}', 'a', '0'])),
      4 => s.push_str(r.pick(&["\\r", "\\n", "\\t", "\\0", "\\\\", "\\'", "\\\""])),
      5 | 6 => {
        let v = r.below(256);
        s.push_str(&if r.bool() { format!("\\x{v:02x}") } else { format!("\\x{v:02X}") });
      }
      7 | 8 => {
        let v = match r.below(5) {
          0 => r.below(0x80) as u64,
          1 => *r.pick(&[0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0xffff, 0x10000, 0x7fffffff, 0xffffffff, 0x100000000]),
          2 => r.below(0x11_0100) as u64,
          3 => 0xd700 + r.below(0xa00) as u64,
          _ => r.u64() >> r.below(64),
        };
        let zeros = if r.chance(1, 6) { "0".repeat(r.below(12)) } else { String::new() };
        s.push_str(&if r.bool() { format!("\\u{{{zeros}{v:x}}}") } else { format!("\\u{{{zeros}{v:X}}}") });
      }
      _ => s.push_str(r.pick(&["\\", "\\x", "\\x4", "\\u", "\\u{", "\\u{}", "\\u{12", "\\u{g}", "\\uu", "\\x g", "\\xg1", "\\R", "\\a", "\\{", "\\u{1_2}", "\\u{+1}", "\\x+1", "\\u1234"])),
    }
  }
  s.push(q);
  if r.chance(1, 4) {
    let mut t: Vec<char> = s.chars().collect();
    let at = r.below(t.len());
    match r.below(4) {
      0 => {
        t.remove(at);
      }
      1 => t.truncate(at),
      2 => t.push(*r.pick(&['"', '\'', 'a', ' ', '\n'])),
      _ => t.insert(at, *r.pick(&['"', '\'', '\\', '}', '\t', '\n'])),
    }
    s = t.into_iter().collect();
  }
  s
}

fn check_lit(c: &mut Case, s: &str) -> Verdict {
  let w: Option<String> = units(s, '"').map(|v| v.into_iter().collect());
  let g = guard(|| str_literal(s)).map_err(|e| format!("str_literal({s:?}): {e}"))?;
  ensure!(g == w, "str_literal({s:?}) is {g:?}, expected {w:?}");
  c.count(if w.is_some() { "texts that are string literals" } else { "texts that are not string literals" }, 1);
  let w: Option<char> = units(s, '\'').filter(|v| v.len() == 1).map(|v| v[0]);
  let g = guard(|| char_literal(s)).map_err(|e| format!("char_literal({s:?}): {e}"))?;
  ensure!(g == w, "char_literal({s:?}) is {g:?}, expected {w:?}");
  c.count(if w.is_some() { "texts that are character literals" } else { "texts that are not character literals" }, 1);
  c.evals(2);
  c.distinct(s);
  Ok(())
}

fn l06(c: &mut Case) -> Verdict {
  let mut texts = Vec::new();
  for j in 0..20u64 {
    let k = c.index * 20 + j;
    let alpha = &["\"", "'", "\\", "x", "u", "{", "}", "0", "a", "n", "\n", "你"];
    let t = enumerated(k / 2, alpha);
    texts.push(if k % 2 == 0 {
      t
    } else {
      let q = if c.rng.bool() { '"' } else { '\'' };
      format!("{q}{t}{q}")
    });
    texts.push(gen_lit(&mut c.rng));
    texts.push(gen_lit(&mut c.rng));
  }
  // every byte escape and the code points around every limit, once per run
  if c.index < 256 {
    texts.push(format!("'\\x{:02x}'", c.index));
    texts.push(format!("\"\\u{{{:x}}}\"", 0x10fff0 + c.index % 0x20));
    texts.push(format!("'\\u{{{:x}}}'", 0xd7f0 + c.index % 0x20));
    texts.push(format!("'\\u{{{:X}}}'", 0xdff0 + c.index % 0x20));
  }
  c.sample(|| format!("{texts:?}"));
  for s in &texts {
    check_lit(c, s)?;
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "L05",
      run: l05,
      rule: "all short strings over a literal alphabet plus boundary values of every type in every radix and near misses, each through the twelve integer types; distinct by text",
      alloc_mib: 64,
      cpu_s: 20,
    },
    Prop {
      id: "L06",
      run: l06,
      rule: "all short strings over a literal alphabet plus generated literals with documented and malformed escapes; distinct by text",
      alloc_mib: 64,
      cpu_s: 20,
    },
  ]
}
