//! Monitors of the example programs against independent references (E01, E02).

mod clike;
mod debug;
mod exec;

use debug::D;
use vmon::{ensure, Case, Prop, Rng, Verdict};

#[global_allocator]
static ALLOC: vmon::CountingAlloc = vmon::CountingAlloc;

const SPACES: &[char] = &[' ', ' ', ' ', '\n', '\t', '\r', '\u{b}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{85}'];

fn spaces(r: &mut Rng, of: &[char], out: &mut String) {
  if r.chance(1, 3) {
    for _ in 0..r.range(1, 3) {
      out.push(*r.pick(of));
    }
  }
}

/// Small edits of a text.
fn mutate(r: &mut Rng, s: &str, with: &[&str]) -> String {
  let mut c: Vec<char> = s.chars().collect();
  for _ in 0..r.range(1, 2) {
    let n = c.len();
    let i = r.below(n + 1);
    match r.below(5) {
      0 if i < n => drop(c.remove(i)),
      1 if i < n => {
        let x = c[i];
        c.insert(i, x);
      }
      2 => c.truncate(i),
      3 if i + 1 < n => c.swap(i, i + 1),
      _ => {
        let t: Vec<char> = r.pick(with).chars().collect();
        c.splice(i..i, t);
      }
    }
  }
  c.into_iter().collect()
}

fn clip(s: &str) -> String {
  if s.chars().count() > 500 {
    s.chars().take(500).collect::<String>() + "…"
  } else {
    s.to_string()
  }
}

/// How the program must have ended.
fn ended(o: &exec::Out, ok: bool, what: &str) -> Result<(), String> {
  if ok {
    ensure!(o.code == 0, "{what} is rejected: exit status {}, {}", o.code, exec::tail(&o.stderr));
  } else {
    ensure!(o.code != 0, "{what} is accepted and gives {}", clip(&o.stdout));
    ensure!(!o.stderr.trim().is_empty(), "{what} is rejected without any message");
  }
  Ok(())
}

// ---------------------------------------------------------------- calculator

fn number(r: &mut Rng) -> String {
  let digits = |r: &mut Rng, n: usize| (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
  match r.below(9) {
    0..=2 => r.below(20).to_string(),
    3 => format!("{}.{}", r.below(9), r.below(100)),
    4 => format!(".{}", r.below(100)),
    5 => format!("{}{}{}{}", r.below(9), r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), r.below(30)),
    6 => {
      let n = r.range(1, 25);
      digits(r, n)
    }
    7 => format!("{}.{}e{}", r.below(9), r.below(100), r.pick(&["3", "-3", "+12", "400", "-400", "308"])),
    _ => r.pick(&["0", "1", "0.1", "1e308", "007", "2", "10"]).to_string(),
  }
}

fn gen_calc(r: &mut Rng, level: usize, depth: usize, out: &mut String) {
  if level < 2 {
    let n = *r.pick(&[1, 1, 1, 2, 3, 4]);
    for k in 0..n {
      if k > 0 {
        spaces(r, SPACES, out);
        out.push(*r.pick(if level == 0 { &['+', '-'] } else { &['*', '/', '%'] }));
      }
      gen_calc(r, level + 1, depth, out);
    }
    return;
  }
  spaces(r, SPACES, out);
  match r.below(8) {
    0 => {
      out.push('-');
      gen_calc(r, 2, depth, out);
    }
    1 | 2 if depth > 0 => {
      out.push('(');
      gen_calc(r, 0, depth - 1, out);
      spaces(r, SPACES, out);
      out.push(')');
    }
    _ => out.push_str(&number(r)),
  }
}

struct Calc {
  toks: Vec<(char, f64)>,
  pos: usize,
  /// Operators of equal precedence from right to left: a known defect of the example.
  right: bool,
}

impl Calc {
  /// `None`: malformed.
  fn value(text: &str, right: bool) -> Option<f64> {
    let c: Vec<char> = text.chars().collect();
    let mut toks = Vec::new();
    let mut i = 0;
    let digits = |mut i: usize| {
      while c.get(i).map_or(false, |c| c.is_ascii_digit()) {
        i += 1;
      }
      i
    };
    while i < c.len() {
      if c[i].is_whitespace() {
        i += 1;
      } else if c[i].is_ascii_digit() || c[i] == '.' {
        let mut j = digits(i);
        if c.get(j) == Some(&'.') {
          let k = digits(j + 1);
          if k == j + 1 {
            return None;
          }
          j = k;
        }
        if matches!(c.get(j), Some('e' | 'E')) {
          let s = j + 1 + matches!(c.get(j + 1), Some('+' | '-')) as usize;
          let k = digits(s);
          if k == s {
            return None;
          }
          j = k;
        }
        toks.push(('0', c[i..j].iter().collect::<String>().parse().ok()?));
        i = j;
      } else {
        toks.push((c[i], 0.0));
        i += 1;
      }
    }
    let mut p = Calc { toks, pos: 0, right };
    let v = p.sum(0)?;
    (p.pos == p.toks.len()).then_some(v)
  }

  fn next(&self) -> char {
    self.toks.get(self.pos).map_or('\0', |t| t.0)
  }

  fn sum(&mut self, level: usize) -> Option<f64> {
    let ops: &[char] = if level == 0 { &['+', '-'] } else { &['*', '/', '%'] };
    let operand = |p: &mut Calc| if level == 0 { p.sum(1) } else { p.atom() };
    let mut vals = vec![operand(self)?];
    let mut found = Vec::new();
    while ops.contains(&self.next()) {
      found.push(self.next());
      self.pos += 1;
      vals.push(operand(self)?);
    }
    let apply = |v: f64, op: char, w: f64| match op {
      '+' => v + w,
      '-' => v - w,
      '*' => v * w,
      '/' => v / w,
      _ => v % w,
    };
    if self.right {
      let mut v = vals.pop()?;
      while let (Some(op), Some(w)) = (found.pop(), vals.pop()) {
        v = apply(w, op, v);
      }
      return Some(v);
    }
    let mut v = vals[0];
    for (op, w) in found.into_iter().zip(&vals[1..]) {
      v = apply(v, op, *w);
    }
    Some(v)
  }

  fn atom(&mut self) -> Option<f64> {
    let t = *self.toks.get(self.pos)?;
    self.pos += 1;
    match t.0 {
      '0' => Some(t.1),
      '-' => self.atom().map(|v| -v),
      '(' => {
        let v = self.sum(0)?;
        self.pos += 1;
        (self.toks.get(self.pos - 1)?.0 == ')').then_some(v)
      }
      _ => None,
    }
  }
}

fn run_calc(c: &mut Case) -> Verdict {
  let mut text = String::new();
  let d = c.rng.below(5);
  gen_calc(&mut c.rng, 0, d, &mut text);
  spaces(&mut c.rng, SPACES, &mut text);
  if c.rng.chance(2, 5) {
    text = mutate(&mut c.rng, &text, &["+", "-", "*", "/", "%", "(", ")", " ", ".", "e", "1", "1.5", "()", "x", "²", "\0", "++"]);
  }
  if c.index == 0 {
    text = "1-2-3".into();
  }
  let want = Calc::value(&text, false);
  let what = format!("the expression {:?}", clip(&text));
  c.sample(|| what.clone());
  let o = exec::run("ex_calc", &[], text.as_bytes()).map_err(|e| format!("{what}: {e}"))?;
  ended(&o, want.is_some(), &what)?;
  match want {
    Some(v) => {
      let got = o.stdout.trim();
      if got != v.to_string() {
        let msg = format!("{what} gives {got}, expected {v}");
        match Calc::value(&text, true) {
          Some(v) if got == v.to_string() => c.finding("calc-right-to-left", msg)?,
          _ => return Err(msg),
        }
      }
      c.count("values of expressions", 1);
    }
    None => {
      ensure!(o.stdout.is_empty(), "{what} is rejected but gives {}", clip(&o.stdout));
      c.count("malformed expressions", 1);
    }
  }
  c.distinct(&text);
  Ok(())
}

// ---------------------------------------------------------------- JSON

#[derive(Debug, PartialEq)]
enum J {
  Null,
  Bool(bool),
  /// As `{:?}` prints it.
  Num(String),
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(String, J)>),
}

const JSPACES: &[char] = &[' ', ' ', '\n', '\r', '\t'];

fn gen_str(r: &mut Rng, out: &mut String) {
  out.push('"');
  for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 6]) {
    match r.below(9) {
      0 => {
        out.push('\\');
        out.push(*r.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
      }
      1 | 2 => {
        let u = match r.below(5) {
          0 => r.range(0, 0x7f),
          1 => r.range(0, 0xffff),
          2 => *r.pick(&[0xd7ff, 0xe000, 0xffff, 0, 0x22, 0x5c, 0xabcd, 0xfeff]),
          3 => r.range(0xd800, 0xdfff),
          _ => r.range(0x80, 0x2fff),
        };
        let hex = |r: &mut Rng, u: usize| if r.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
        out.push_str(&hex(r, u));
        if (0xd800..0xdc00).contains(&u) && !r.chance(1, 8) {
          let low = r.range(0xdc00, 0xdfff);
          out.push_str(&hex(r, low));
        }
      }
      3 => out.push(*r.pick(&['漢', 'é', '\u{7f}', '\u{10ffff}', '\u{10fff}', '😀', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{80}', '\''])),
      4 => out.push(*r.pick(&['{', '}', '[', ']', ',', ':', '/', ' '])),
      _ => out.push(*r.pick(&['a', 'b', 'k', '1'])),
    }
  }
  out.push('"');
}

fn gen_json(r: &mut Rng, depth: usize, out: &mut String) {
  spaces(r, JSPACES, out);
  match if depth == 0 { r.below(6) } else { r.below(10) } {
    0 => out.push_str(r.pick(&["true", "false", "null"])),
    1 | 2 => gen_str(r, out),
    3..=5 => {
      let int = *r.pick(&["0", "1", "9", "10", "123456789", "99999999999999999999"]);
      let frac = *r.pick(&["", "", ".0", ".5", ".125", ".000000000000000001"]);
      let exp = *r.pick(&["", "", "e0", "E5", "e-7", "E+12", "e400"]);
      out.push_str(r.pick(&["", "", "-"]));
      out.push_str(int);
      out.push_str(frac);
      out.push_str(exp);
    }
    6 | 7 => {
      out.push('[');
      for k in 0..*r.pick(&[0, 1, 2, 3, 5]) {
        if k > 0 {
          out.push(',');
        }
        gen_json(r, depth - 1, out);
      }
      spaces(r, JSPACES, out);
      out.push(']');
    }
    _ => {
      out.push('{');
      for k in 0..*r.pick(&[0, 1, 2, 3, 5]) {
        if k > 0 {
          out.push(',');
        }
        spaces(r, JSPACES, out);
        gen_str(r, out);
        spaces(r, JSPACES, out);
        out.push(':');
        gen_json(r, depth - 1, out);
      }
      spaces(r, JSPACES, out);
      out.push('}');
    }
  }
  spaces(r, JSPACES, out);
}

struct Json<'a> {
  c: &'a [char],
  i: usize,
  /// Some object has a key twice: what it means is open.
  twice: bool,
  /// Decodes escapes as the example is known to.
  digits_only: bool,
}

impl Json<'_> {
  fn peek(&self) -> Option<char> {
    self.c.get(self.i).copied()
  }

  fn eat(&mut self, c: char) -> Option<()> {
    (self.peek() == Some(c)).then(|| self.i += 1)
  }

  fn ws(&mut self) {
    while matches!(self.peek(), Some(' ' | '\n' | '\r' | '\t')) {
      self.i += 1;
    }
  }

  fn word(&mut self, w: &str) -> Option<()> {
    w.chars().try_for_each(|c| self.eat(c))
  }

  fn string(&mut self) -> Option<String> {
    let from = self.i + 1;
    let s = self.string_of_units()?;
    if self.digits_only {
      return digits_only(&self.c[from..self.i - 1]);
    }
    String::from_utf16(&s).ok()
  }

  fn string_of_units(&mut self) -> Option<Vec<u16>> {
    self.eat('"')?;
    let mut u: Vec<u16> = Vec::new();
    loop {
      let c = self.peek()?;
      self.i += 1;
      match c {
        '"' => return Some(u),
        '\0'..='\x1f' => return None,
        '\\' => {
          let e = self.peek()?;
          self.i += 1;
          u.push(match e {
            'b' => 8,
            'f' => 12,
            'n' => 10,
            'r' => 13,
            't' => 9,
            '"' | '\\' | '/' => e as u16,
            'u' => {
              let mut x = 0u16;
              for _ in 0..4 {
                x = x << 4 | self.peek()?.to_digit(16)? as u16;
                self.i += 1;
              }
              x
            }
            _ => return None,
          });
        }
        c => u.extend_from_slice(c.encode_utf16(&mut [0; 2])),
      }
    }
  }

  fn digits(&mut self) -> Option<()> {
    let from = self.i;
    while self.peek().map_or(false, |c| c.is_ascii_digit()) {
      self.i += 1;
    }
    (self.i > from).then_some(())
  }

  fn value(&mut self) -> Option<J> {
    self.ws();
    let v = match self.peek()? {
      't' => self.word("true").map(|_| J::Bool(true))?,
      'f' => self.word("false").map(|_| J::Bool(false))?,
      'n' => self.word("null").map(|_| J::Null)?,
      '"' => J::Str(self.string()?),
      '[' => {
        self.i += 1;
        self.ws();
        let mut v = Vec::new();
        if self.eat(']').is_none() {
          loop {
            v.push(self.value()?);
            if self.eat(',').is_none() {
              break self.eat(']')?;
            }
          }
        }
        J::Arr(v)
      }
      '{' => {
        self.i += 1;
        self.ws();
        let mut v: Vec<(String, J)> = Vec::new();
        if self.eat('}').is_none() {
          loop {
            self.ws();
            let k = self.string()?;
            self.ws();
            self.eat(':')?;
            self.twice |= v.iter().any(|x| x.0 == k);
            v.push((k, self.value()?));
            if self.eat(',').is_none() {
              break self.eat('}')?;
            }
          }
        }
        J::Obj(v)
      }
      _ => {
        let from = self.i;
        let _ = self.eat('-');
        if self.eat('0').is_none() {
          self.digits()?;
        }
        if self.eat('.').is_some() {
          self.digits()?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
          self.i += 1;
          if matches!(self.peek(), Some('+' | '-')) {
            self.i += 1;
          }
          self.digits()?;
        }
        let f: f64 = self.c[from..self.i].iter().collect::<String>().parse().ok()?;
        J::Num(format!("{f:?}"))
      }
    };
    self.ws();
    Some(v)
  }
}

/// The example's known defect: Unicode escapes take decimal digits only, a letter among them counts
/// as an escape by itself, and halves of surrogate pairs are no characters.
fn digits_only(s: &[char]) -> Option<String> {
  let (mut out, mut escape, mut left, mut u) = (String::new(), false, 0, 0);
  for c in s {
    if !escape {
      match c {
        '\\' => escape = true,
        c => out.push(*c),
      }
    } else if left > 0 && c.is_ascii_digit() {
      u = u * 16 + c.to_digit(16)?;
      left -= 1;
      if left == 0 {
        out.push(char::from_u32(u)?);
        u = 0;
        escape = false;
      }
    } else if *c == 'u' {
      left = 4;
    } else {
      out.push(match c {
        '"' | '\\' | '/' => *c,
        'b' => '\x08',
        'f' => '\x0c',
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        _ => return None,
      });
      escape = false;
    }
  }
  Some(out)
}

/// Reads the printed structure; keys and strings stay as they are printed.
fn shown(d: &D) -> Option<J> {
  Some(match d {
    D::Atom(a) if a == "Null" => J::Null,
    D::Group(n, '(', v) if v.len() == 1 => match (&n[..], &v[0]) {
      ("Bool", D::Atom(b)) => J::Bool(b.parse().ok()?),
      ("Number", D::Atom(x)) => J::Num(x.clone()),
      ("String", D::Str(s)) => J::Str(s.clone()),
      ("Array", D::Group(n, '[', v)) if n.is_empty() => J::Arr(v.iter().map(shown).collect::<Option<_>>()?),
      ("Object", D::Group(n, '{', v)) if n.is_empty() && v.len() % 2 == 0 => {
        let mut o = Vec::new();
        for kv in v.chunks(2) {
          let D::Str(k) = &kv[0] else { return None };
          o.push((k.clone(), shown(&kv[1])?));
        }
        J::Obj(o)
      }
      _ => return None,
    },
    _ => return None,
  })
}

fn same(want: &J, got: &J) -> bool {
  match (want, got) {
    (J::Str(a), J::Str(b)) => format!("{a:?}") == *b,
    (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
    (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().filter(|(l, w)| *l == format!("{k:?}") && same(v, w)).count() == 1),
    (a, b) => a == b,
  }
}

fn run_json(c: &mut Case) -> Verdict {
  let mut text = String::new();
  let d = *c.rng.pick(&[0, 1, 2, 3, 4, 8]);
  gen_json(&mut c.rng, d, &mut text);
  if c.rng.chance(2, 5) {
    text = mutate(&mut c.rng, &text, &["{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "0", "1", "-", ".", "e", "true", "null", " ", "\u{c}", "\u{a0}", "\u{feff}", "/**/", "\0", "+", "x", "'"]);
  }
  if c.index == 1 {
    text = "\"\\u00e9\"".into();
  }
  let chars: Vec<char> = text.chars().collect();
  let means = |digits_only: bool| {
    let mut p = Json { c: &chars, i: 0, twice: false, digits_only };
    let v = p.value();
    (if p.i < chars.len() { None } else { v }, p.twice)
  };
  let mut wants = [means(false), means(true)];
  let mut bytes = text.clone().into_bytes();
  if c.rng.chance(1, 25) {
    let i = c.rng.below(bytes.len() + 1);
    let bad: &[u8] = *c.rng.pick(&[&[0xff][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe6, 0xbc]]);
    bytes.splice(i..i, bad.iter().copied());
    if std::str::from_utf8(&bytes).is_err() {
      wants = [(None, false), (None, false)];
    } else {
      bytes = text.clone().into_bytes();
    }
  }
  let what = format!("the document {:?}", clip(&String::from_utf8_lossy(&bytes)));
  c.sample(|| what.clone());
  let o = if c.rng.chance(1, 4) {
    let f = format!("case-{}.json", std::process::id());
    std::fs::write(&f, &bytes).map_err(|e| format!("harness: {e}"))?;
    let o = exec::run("ex_json", &[&f], b"");
    let _ = std::fs::remove_file(&f);
    o
  } else {
    exec::run("ex_json", &[], &bytes)
  }
  .map_err(|e| format!("{what}: {e}"))?;
  let judge = |(want, twice): &(Option<J>, bool)| {
    ended(&o, want.is_some(), &what)?;
    match want {
      Some(w) => {
        let d = debug::read(&o.stdout).map_err(|e| format!("{what} prints {}: {e}", clip(&o.stdout)))?;
        let got = if d.len() == 1 { shown(&d[0]) } else { None };
        let Some(got) = got else { return Err(format!("{what} prints {}", clip(&o.stdout))) };
        ensure!(*twice || same(w, &got), "{what} prints {got:?}, expected {w:?}");
      }
      None => ensure!(o.stdout.is_empty(), "{what} is rejected but gives {}", clip(&o.stdout)),
    }
    Ok(())
  };
  if let Err(msg) = judge(&wants[0]) {
    if wants[0].0 != wants[1].0 && judge(&wants[1]).is_ok() {
      c.finding("json-unicode-escapes", msg)?;
    } else {
      return Err(msg);
    }
  }
  c.count(if wants[0].0.is_some() { "well-formed documents" } else { "malformed documents" }, 1);
  c.distinct(&text);
  Ok(())
}

// ---------------------------------------------------------------- S-expressions

#[derive(Debug, PartialEq)]
enum S {
  Atom(String),
  List(Vec<S>),
}

fn gen_sexp(r: &mut Rng, depth: usize, out: &mut String) {
  spaces(r, SPACES, out);
  if depth > 0 && r.bool() {
    out.push('(');
    for _ in 0..*r.pick(&[0, 1, 2, 3, 5]) {
      gen_sexp(r, depth - 1, out);
    }
    spaces(r, SPACES, out);
    out.push(')');
  } else {
    if !out.is_empty() && !out.ends_with(['(', ')', ' ']) {
      out.push(' ');
    }
    for _ in 0..r.range(1, 4) {
      out.push(*r.pick(&['a', 'b', '1', '"', '\'', '+', '漢', '\\', ',', '{', ']', '\u{10ffff}', '\u{200b}', '\0', '\u{feff}']));
    }
    if r.bool() {
      out.push(' ');
    }
  }
}

fn run_sexp(c: &mut Case) -> Verdict {
  let mut text = String::new();
  for _ in 0..*c.rng.pick(&[0, 1, 1, 2, 3, 6]) {
    let d = c.rng.below(5);
    gen_sexp(&mut c.rng, d, &mut text);
  }
  spaces(&mut c.rng, SPACES, &mut text);
  if c.rng.chance(1, 3) {
    text = mutate(&mut c.rng, &text, &["(", ")", " ", "x", "()", "\n", "'"]);
  }
  // the reference: a stack of open lists
  let (mut top, mut open, mut ok): (Vec<S>, Vec<Vec<S>>, bool) = (vec![], vec![], true);
  let mut atom = String::new();
  for ch in text.chars().chain([' ']) {
    let edge = ch.is_whitespace() || ch == '(' || ch == ')';
    if !edge {
      atom.push(ch);
      continue;
    }
    let mut done = Vec::new();
    if !atom.is_empty() {
      done.push(S::Atom(std::mem::take(&mut atom)));
    }
    open.last_mut().unwrap_or(&mut top).append(&mut done);
    match ch {
      '(' => open.push(vec![]),
      ')' => match open.pop() {
        Some(l) => open.last_mut().unwrap_or(&mut top).push(S::List(l)),
        None => {
          ok = false;
          break;
        }
      },
      _ => {}
    }
  }
  ok &= open.is_empty();
  let what = format!("the input {:?}", clip(&text));
  c.sample(|| what.clone());
  let o = exec::run("ex_sexp", &[], text.as_bytes()).map_err(|e| format!("{what}: {e}"))?;
  ended(&o, ok, &what)?;
  let d = debug::read(&o.stdout).map_err(|e| format!("{what} prints {}: {e}", clip(&o.stdout)))?;
  let got: Option<Vec<S>> = d
    .iter()
    .map(|d| match d {
      D::Group(n, '(', v) if n == "Elem" && v.len() == 1 => tree(&v[0]),
      _ => None,
    })
    .collect();
  let Some(got) = got else { return Err(format!("{what} prints {}", clip(&o.stdout))) };
  let shown = |v: &[S]| v.iter().map(|s| format!("{s:?}").replace("Atom(", "").replace("List(", "")).collect::<Vec<_>>();
  let want: Vec<S> = top;
  let expect: Vec<String> = want.iter().map(quoted).map(|s| format!("{s:?}")).collect();
  let seen: Vec<String> = got.iter().map(|s| format!("{s:?}")).collect();
  ensure!(expect == seen, "{what} prints the trees {:?}, expected {:?}", shown(&got), shown(&want));
  c.count("trees printed", got.len() as u64);
  c.count(if ok { "balanced inputs" } else { "unbalanced inputs" }, 1);
  if !text.trim().is_empty() {
    c.distinct(&text);
  }
  Ok(())
}

/// With the texts as they are printed.
fn quoted(s: &S) -> S {
  match s {
    S::Atom(a) => S::Atom(format!("{a:?}")),
    S::List(v) => S::List(v.iter().map(quoted).collect()),
  }
}

/// The kind of a printed token.
fn kind(d: &D) -> Option<&D> {
  let D::Group(_, '(', v) = d else { return None };
  let D::Group(n, '{', v) = v.first()? else { return None };
  let i = v.iter().position(|x| *x == D::Atom("kind:".into()))?;
  (n == "Token").then(|| v.get(i + 1))?
}

fn tree(d: &D) -> Option<S> {
  let D::Group(n, '(', v) = d else { return None };
  match (&n[..], &v[..]) {
    ("Atom", [t]) => match kind(t)? {
      D::Group(n, '(', v) if n == "Atom" => match &v[..] {
        [D::Str(s)] => Some(S::Atom(s.clone())),
        _ => None,
      },
      _ => None,
    },
    ("SExp", [D::Group(n, '(', v)]) if n == "SExp" => match &v[..] {
      [l, D::Group(e, '[', items), r] if e.is_empty() => {
        let paren = |d: &D, p: &str| matches!(kind(d), Some(D::Group(n, '(', v)) if n == "Paren" && v[..] == [D::Str(format!("'{p}'"))]);
        if !paren(l, "(") || !paren(r, ")") {
          return None;
        }
        Some(S::List(items.iter().map(tree).collect::<Option<_>>()?))
      }
      _ => None,
    },
    _ => None,
  }
}

fn run_e01(c: &mut Case) -> Verdict {
  let k = c.rng.below(3);
  // the first inputs show the known findings, as long as they are there
  match if c.index < 2 { c.index as usize } else { k } {
    0 => run_calc(c),
    1 => run_json(c),
    _ => run_sexp(c),
  }
}

fn main() {
  let prop = |id, run, rule| Prop { id, run, rule, alloc_mib: 1024, cpu_s: 120 };
  vmon::worker_main(
    &[
      prop("E01", run_e01, "inputs of the calculator, the JSON parser or the S-expression parser, distinct by text"),
      prop("E02", clike::run, "programs run by the interpreter that call, loop or branch, distinct by text"),
    ],
    false,
  )
}
