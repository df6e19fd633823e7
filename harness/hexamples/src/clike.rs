//! E02: random programs of the C-like language, interpreted as C would.

use crate::exec;
use std::collections::HashMap;
use vmon::{ensure, Case, Rng, Verdict};

#[derive(Clone, Debug)]
enum Ex {
  Lit(i64, bool),
  Var(String),
  Idx(String, Box<Ex>),
  Call(String, Vec<Ex>),
  Un(char, Box<Ex>),
  Bin(&'static str, Box<Ex>, Box<Ex>),
  /// More parentheses than needed.
  Paren(Box<Ex>),
}

#[derive(Clone, Debug)]
enum Init {
  No,
  Int(Ex),
  Arr(Vec<Ex>),
}

#[derive(Clone, Debug)]
struct Def(String, Option<usize>, Init);

#[derive(Clone, Debug)]
enum St {
  Decl(Vec<Def>),
  Assign(Ex, Ex),
  Do(Ex),
  Empty,
  Block(Vec<St>),
  If(Ex, Box<St>, Option<Box<St>>),
  While(Ex, Box<St>),
  Break,
  Continue,
  Return(Ex),
}

#[derive(Clone, Debug)]
struct Func {
  name: String,
  params: Vec<String>,
  body: Vec<St>,
}

#[derive(Clone, Debug)]
enum Item {
  Global(Vec<Def>),
  Func(Func),
}

const OPS: &[&[&str]] = &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["+", "-"], &["*", "/", "%"]];

fn level(op: &str) -> usize {
  OPS.iter().position(|l| l.contains(&op)).unwrap()
}

// ---------------------------------------------------------------- text

struct Text {
  toks: Vec<String>,
}

impl Text {
  fn t(&mut self, s: &str) {
    self.toks.push(s.to_string());
  }

  /// `min`: operators that bind weaker need parentheses.
  fn ex(&mut self, e: &Ex, min: usize) {
    let paren = matches!(e, Ex::Bin(op, ..) if level(op) < min) || matches!(e, Ex::Paren(_));
    if paren {
      self.t("(");
    }
    match e {
      Ex::Lit(v, hex) => {
        let s = if *hex { format!("0x{v:x}") } else { v.to_string() };
        self.t(&s);
      }
      Ex::Var(v) => self.t(v),
      Ex::Idx(v, i) => {
        self.t(v);
        self.t("[");
        self.ex(i, 0);
        self.t("]");
      }
      Ex::Call(f, a) => {
        self.t(f);
        self.t("(");
        self.list(a);
        self.t(")");
      }
      Ex::Un(op, e) => {
        self.t(&op.to_string());
        self.ex(e, OPS.len());
      }
      Ex::Paren(e) => self.ex(e, 0),
      Ex::Bin(op, l, r) => {
        let k = level(op);
        self.ex(l, k);
        self.t(op);
        self.ex(r, k + 1);
      }
    }
    if paren {
      self.t(")");
    }
  }

  fn list(&mut self, v: &[Ex]) {
    for (i, e) in v.iter().enumerate() {
      if i > 0 {
        self.t(",");
      }
      self.ex(e, 0);
    }
  }

  fn defs(&mut self, v: &[Def]) {
    self.t("int");
    for (i, Def(n, dim, init)) in v.iter().enumerate() {
      if i > 0 {
        self.t(",");
      }
      self.t(n);
      if let Some(d) = dim {
        self.t("[");
        self.t(&d.to_string());
        self.t("]");
      }
      match init {
        Init::No => {}
        Init::Int(e) => {
          self.t("=");
          self.ex(e, 0);
        }
        Init::Arr(v) => {
          self.t("=");
          self.t("{");
          self.list(v);
          self.t("}");
        }
      }
    }
    self.t(";");
  }

  fn block(&mut self, v: &[St]) {
    self.t("{");
    for s in v {
      self.st(s);
    }
    self.t("}");
  }

  fn st(&mut self, s: &St) {
    match s {
      St::Decl(v) => self.defs(v),
      St::Assign(l, e) => {
        self.ex(l, OPS.len());
        self.t("=");
        self.ex(e, 0);
        self.t(";");
      }
      St::Do(e) => {
        self.ex(e, 0);
        self.t(";");
      }
      St::Empty => self.t(";"),
      St::Block(v) => self.block(v),
      St::If(c, a, b) => {
        self.t("if");
        self.t("(");
        self.ex(c, 0);
        self.t(")");
        self.st(a);
        if let Some(b) = b {
          self.t("else");
          self.st(b);
        }
      }
      St::While(c, a) => {
        self.t("while");
        self.t("(");
        self.ex(c, 0);
        self.t(")");
        self.st(a);
      }
      St::Break => {
        self.t("break");
        self.t(";");
      }
      St::Continue => {
        self.t("continue");
        self.t(";");
      }
      St::Return(e) => {
        self.t("return");
        self.ex(e, 0);
        self.t(";");
      }
    }
  }

  fn item(&mut self, i: &Item) {
    match i {
      Item::Global(v) => self.defs(v),
      Item::Func(f) => {
        self.t("int");
        self.t(&f.name);
        self.t("(");
        for (i, p) in f.params.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          self.t("int");
          self.t(p);
        }
        self.t(")");
        self.block(&f.body);
      }
    }
  }
}

fn join(r: &mut Rng, toks: &[String]) -> String {
  let mut s = String::new();
  let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
  for t in toks {
    let next = t.chars().next().unwrap();
    let last = s.chars().last().unwrap_or(' ');
    let glue = (word(last) && word(next)) || ("<>=!".contains(last) && next == '=');
    if glue || r.chance(1, 2) {
      s.push_str(*r.pick(&[" ", " ", " ", "\n", "\n  ", "\t", "\r\n", "\u{3000}"]));
    }
    s.push_str(t);
  }
  if r.bool() {
    s.push('\n');
  }
  s
}

// ---------------------------------------------------------------- meaning

enum Stop {
  /// The interpreter has to report an error.
  Error,
  /// C gives no meaning, or it takes too long.
  Open,
  Break,
  Continue,
  Return(i32),
}

enum Val {
  Int(i32),
  Arr(Vec<i32>),
}

/// What the example is known to do differently.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Defects {
  /// Operators of equal precedence from right to left.
  right: bool,
  /// Blocks that are left early keep their names visible.
  scope: bool,
}

struct Run<'a> {
  defects: Defects,
  funcs: HashMap<&'a str, &'a Func>,
  global: HashMap<String, Val>,
  local: Vec<HashMap<String, Val>>,
  out: String,
  input: std::collections::VecDeque<String>,
  steps: usize,
  depth: usize,
  calls: u64,
  loops: u64,
}

impl<'a> Run<'a> {
  fn step(&mut self) -> Result<(), Stop> {
    self.steps += 1;
    if self.steps > 6000 {
      return Err(Stop::Open);
    }
    Ok(())
  }

  fn find(&mut self, n: &str) -> Result<&mut Val, Stop> {
    if let Some(i) = self.local.iter().rposition(|s| s.contains_key(n)) {
      return Ok(self.local[i].get_mut(n).unwrap());
    }
    self.global.get_mut(n).ok_or(Stop::Error)
  }

  fn place(&mut self, n: &str, at: Option<i32>) -> Result<&mut i32, Stop> {
    match (self.find(n)?, at) {
      (Val::Int(v), None) => Ok(v),
      (Val::Arr(a), Some(i)) => usize::try_from(i).ok().and_then(|i| a.get_mut(i)).ok_or(Stop::Error),
      _ => Err(Stop::Error),
    }
  }

  fn ex(&mut self, e: &'a Ex) -> Result<i32, Stop> {
    self.step()?;
    match e {
      Ex::Lit(v, _) => Ok(*v as i32),
      Ex::Var(n) => self.place(n, None).map(|v| *v),
      Ex::Idx(n, i) => {
        let i = self.ex(i)?;
        self.place(n, Some(i)).map(|v| *v)
      }
      Ex::Un(op, e) => {
        let v = self.ex(e)?;
        match op {
          '-' => v.checked_neg().ok_or(Stop::Open),
          '!' => Ok((v == 0) as i32),
          _ => Ok(v),
        }
      }
      Ex::Bin("&&", l, r) => Ok((self.ex(l)? != 0 && self.ex(r)? != 0) as i32),
      Ex::Bin("||", l, r) => Ok((self.ex(l)? != 0 || self.ex(r)? != 0) as i32),
      Ex::Paren(e) => self.ex(e),
      Ex::Bin(op, l, r) if self.defects.right => {
        let k = level(op);
        let mut parts = vec![(*op, &**r)];
        let mut first = &**l;
        while let Ex::Bin(op, l, r) = first {
          if level(op) != k {
            break;
          }
          parts.push((op, r));
          first = l;
        }
        let mut vals = vec![self.ex(first)?];
        for (_, e) in parts.iter().rev() {
          vals.push(self.ex(e)?);
        }
        let mut v = vals.pop().unwrap();
        for (op, _) in &parts {
          v = Self::apply(op, vals.pop().unwrap(), v)?;
        }
        Ok(v)
      }
      Ex::Bin(op, l, r) => {
        let (l, r) = (self.ex(l)?, self.ex(r)?);
        Self::apply(op, l, r)
      }
      Ex::Call(n, args) => {
        let mut v = Vec::new();
        for a in args {
          v.push(self.ex(a)?);
        }
        let Some(f) = self.funcs.get(&n[..]).copied() else {
          return match (&n[..], &v[..]) {
            ("putint", [x]) => {
              self.out += &format!("{x}\n");
              Ok(0)
            }
            ("getint", []) => self.input.pop_front().and_then(|l| l.trim().parse().ok()).ok_or(Stop::Error),
            _ => Err(Stop::Error),
          };
        };
        if v.len() != f.params.len() {
          return Err(Stop::Error);
        }
        self.calls += 1;
        self.depth += 1;
        if self.depth > 25 {
          return Err(Stop::Open);
        }
        let scope = f.params.iter().cloned().zip(v.into_iter().map(Val::Int)).collect();
        let outer = std::mem::replace(&mut self.local, vec![scope]);
        let r = self.body(f);
        self.local = outer;
        self.depth -= 1;
        r
      }
    }
  }

  fn apply(op: &str, l: i32, r: i32) -> Result<i32, Stop> {
    match op {
      "+" => l.checked_add(r),
      "-" => l.checked_sub(r),
      "*" => l.checked_mul(r),
      "/" => l.checked_div(r),
      "%" => l.checked_rem(r),
      "<" => Some((l < r) as i32),
      ">" => Some((l > r) as i32),
      "<=" => Some((l <= r) as i32),
      ">=" => Some((l >= r) as i32),
      "==" => Some((l == r) as i32),
      _ => Some((l != r) as i32),
    }
    .ok_or(Stop::Open)
  }

  fn body(&mut self, f: &'a Func) -> Result<i32, Stop> {
    match self.block(&f.body) {
      Err(Stop::Return(v)) => Ok(v),
      Ok(()) => Err(Stop::Error),
      Err(e) => Err(e),
    }
  }

  fn defs(&mut self, v: &'a [Def]) -> Result<(), Stop> {
    for Def(n, dim, init) in v {
      let init = match init {
        Init::No => None,
        Init::Int(e) => Some(Val::Int(self.ex(e)?)),
        Init::Arr(v) => {
          let mut a = Vec::new();
          for e in v {
            a.push(self.ex(e)?);
          }
          Some(Val::Arr(a))
        }
      };
      let v = match (dim, init) {
        (None, None) => Val::Int(0),
        (Some(d), None) => Val::Arr(vec![0; *d]),
        (None, Some(Val::Int(v))) => Val::Int(v),
        (Some(d), Some(Val::Arr(a))) if a.len() == *d => Val::Arr(a),
        _ => return Err(Stop::Error),
      };
      let scope = self.local.last_mut().unwrap_or(&mut self.global);
      if scope.insert(n.clone(), v).is_some() {
        return Err(Stop::Error);
      }
    }
    Ok(())
  }

  fn block(&mut self, v: &'a [St]) -> Result<(), Stop> {
    self.local.push(HashMap::new());
    let mut r = Ok(());
    for s in v {
      r = self.st(s);
      if r.is_err() {
        break;
      }
    }
    if r.is_ok() || !self.defects.scope {
      self.local.pop();
    }
    r
  }

  fn st(&mut self, s: &'a St) -> Result<(), Stop> {
    self.step()?;
    match s {
      St::Decl(v) => self.defs(v),
      St::Empty => Ok(()),
      St::Assign(l, e) => {
        let v = self.ex(e)?;
        *match l {
          Ex::Var(n) => self.place(n, None)?,
          Ex::Idx(n, i) => {
            let i = self.ex(i)?;
            self.place(n, Some(i))?
          }
          _ => return Err(Stop::Error),
        } = v;
        Ok(())
      }
      St::Do(e) => self.ex(e).map(|_| ()),
      St::Block(v) => self.block(v),
      St::If(c, a, b) => {
        if self.ex(c)? != 0 {
          self.st(a)
        } else {
          b.as_ref().map_or(Ok(()), |b| self.st(b))
        }
      }
      St::While(c, a) => {
        while self.ex(c)? != 0 {
          self.loops += 1;
          match self.st(a) {
            Err(Stop::Break) => break,
            Ok(()) | Err(Stop::Continue) => {}
            e => return e,
          }
        }
        Ok(())
      }
      St::Break => Err(Stop::Break),
      St::Continue => Err(Stop::Continue),
      St::Return(e) => Err(Stop::Return(self.ex(e)?)),
    }
  }
}

// ---------------------------------------------------------------- programs

const NAMES: &[&str] = &["x", "y", "n", "i", "_a1", "intx", "whiled", "If", "ret", "el_se", "a", "b2"];

struct Gen<'a> {
  r: &'a mut Rng,
  /// Visible names per scope, and whether they are arrays.
  scopes: Vec<Vec<(String, Option<usize>)>>,
  funcs: Vec<(String, usize)>,
  in_loop: bool,
  io: bool,
  /// At most one mistake.
  bad: bool,
  fuel: i32,
}

impl Gen<'_> {
  fn pick(&mut self, arr: bool) -> Option<(String, Option<usize>)> {
    // a shadowed name is not visible
    let mut seen: Vec<(String, Option<usize>)> = Vec::new();
    for s in self.scopes.iter().rev() {
      for (n, a) in s.iter().rev() {
        if !seen.iter().any(|x| x.0 == *n) {
          seen.push((n.clone(), *a));
        }
      }
    }
    seen.retain(|x| x.1.is_some() == arr);
    (!seen.is_empty()).then(|| self.r.pick(&seen).clone())
  }

  fn mistake(&mut self) -> bool {
    let b = self.bad && self.r.chance(1, 25);
    if b {
      self.bad = false;
    }
    b
  }

  fn ex(&mut self, depth: usize) -> Ex {
    let e = self.bare(depth);
    if self.r.chance(1, 14) {
      return Ex::Paren(Box::new(e));
    }
    e
  }

  fn bare(&mut self, depth: usize) -> Ex {
    self.fuel -= 1;
    if depth > 0 && self.fuel > 0 && self.r.chance(3, 5) {
      let k = self.r.weighted(&[0, 0, 1, 2, 6, 4, 2, 3]);
      return match k {
        6 => {
          let op = *self.r.pick(&['-', '-', '+', '!']);
          Ex::Un(op, Box::new(if op == '!' { self.cond(depth - 1) } else { self.ex(depth - 1) }))
        }
        7 => self.call(depth - 1),
        k => {
          let op = *self.r.pick(OPS[k]);
          // chains of one level are common
          let mut e = self.ex(depth - 1);
          for _ in 0..*self.r.pick(&[1, 1, 2, 3]) {
            let op = if self.r.bool() { op } else { *self.r.pick(OPS[k]) };
            e = Ex::Bin(op, Box::new(e), Box::new(self.ex(depth - 1)));
          }
          e
        }
      };
    }
    if self.mistake() {
      return match self.r.below(4) {
        0 => Ex::Var("nowhere".into()),
        1 => self.pick(true).map_or(Ex::Call("nofun".into(), vec![]), |a| Ex::Var(a.0)),
        2 => self.pick(false).map_or(Ex::Call("nofun".into(), vec![]), |a| Ex::Idx(a.0, Box::new(Ex::Lit(0, false)))),
        _ => self.pick(true).map_or(Ex::Var("x_y".into()), |a| Ex::Idx(a.0, Box::new(if self.r.bool() { Ex::Lit(a.1.unwrap() as i64, false) } else { Ex::Un('-', Box::new(Ex::Lit(1, false))) }))),
      };
    }
    match self.r.below(5) {
      0 | 1 => {
        let v = *self.r.pick(&[0, 1, 2, 3, 7, 10, 99, 100, 255, 4096, 2147483647]);
        Ex::Lit(v, self.r.chance(1, 6))
      }
      2 => match self.pick(true) {
        Some((n, Some(d))) => Ex::Idx(n, Box::new(Ex::Lit(self.r.below(d) as i64, false))),
        _ => Ex::Lit(5, false),
      },
      _ => self.pick(false).map_or(Ex::Lit(4, false), |v| Ex::Var(v.0)),
    }
  }

  fn call(&mut self, depth: usize) -> Ex {
    if self.io && self.r.chance(1, 5) {
      return Ex::Call("getint".into(), vec![]);
    }
    if self.funcs.is_empty() || self.r.chance(1, 3) {
      return Ex::Call("putint".into(), vec![self.ex(depth)]);
    }
    let (n, k) = self.r.pick(&self.funcs).clone();
    let k = if self.mistake() { k + 1 } else { k };
    Ex::Call(n, (0..k).map(|_| self.ex(depth.min(1))).collect())
  }

  /// Where only the truth of the value matters.
  fn cond(&mut self, depth: usize) -> Ex {
    if depth == 0 || self.r.chance(2, 5) {
      return self.ex(depth);
    }
    match self.r.below(4) {
      0 => Ex::Un('!', Box::new(self.cond(depth - 1))),
      1 => Ex::Bin(*self.r.pick(OPS[3]), Box::new(self.ex(depth - 1)), Box::new(self.ex(depth - 1))),
      k => {
        let mut e = self.cond(depth - 1);
        for _ in 0..self.r.range(1, 2) {
          e = Ex::Bin(OPS[k - 2][0], Box::new(e), Box::new(self.cond(depth - 1)));
        }
        e
      }
    }
  }

  fn defs(&mut self, calls: bool) -> Vec<Def> {
    let mut v = Vec::new();
    for _ in 0..*self.r.pick(&[1, 1, 2]) {
      let mut n = self.r.pick(NAMES).to_string();
      let taken = |n: &str, s: &Self| s.scopes.last().unwrap().iter().any(|x| x.0 == n);
      if taken(&n, self) && !self.mistake() {
        let mut k = 0;
        while taken(&n, self) {
          k += 1;
          n = format!("v{k}");
        }
      }
      // the initial value does not use the name
      let hide = n.clone();
      let saved = self.scopes.clone();
      for s in &mut self.scopes {
        s.retain(|x| x.0 != hide);
      }
      let d = if calls { 2 } else { 0 };
      let dim = self.r.chance(1, 3).then(|| self.r.range(1, 5));
      let init = match (dim, self.r.below(3)) {
        (_, 0) => Init::No,
        (None, _) if self.mistake() => Init::Arr(vec![Ex::Lit(1, false)]),
        (None, _) => Init::Int(self.ex(d)),
        (Some(_), _) if self.mistake() => Init::Int(Ex::Lit(1, false)),
        (Some(k), _) => {
          let k = if self.mistake() { k + 1 } else { k };
          Init::Arr((0..k).map(|_| self.ex(d.min(1))).collect())
        }
      };
      self.scopes = saved;
      self.scopes.last_mut().unwrap().push((n.clone(), dim));
      v.push(Def(n, dim, init));
    }
    v
  }

  fn block(&mut self, depth: usize, n: usize) -> Vec<St> {
    self.scopes.push(vec![]);
    let mut v = Vec::new();
    for _ in 0..n {
      if self.r.chance(1, 4) {
        v.push(St::Decl(self.defs(true)));
      } else {
        v.push(self.st(depth));
      }
    }
    self.scopes.pop();
    v
  }

  fn st(&mut self, depth: usize) -> St {
    self.fuel -= 1;
    let deep = depth > 0 && self.fuel > 0;
    match self.r.below(14) {
      0 | 1 if deep => {
        let n = self.r.range(0, 4);
        St::Block(self.block(depth - 1, n))
      }
      2 | 3 if deep => {
        let c = self.cond(3);
        let a = self.st(depth - 1);
        let b = self.r.bool().then(|| Box::new(self.st(depth - 1)));
        // `else` belongs to the closest `if`
        let a = if b.is_some() && open_if(&a) { St::Block(vec![a]) } else { a };
        St::If(c, Box::new(a), b)
      }
      4 | 5 if deep => {
        let i = format!("i{}", self.scopes.len());
        self.scopes.push(vec![(i.clone(), None)]);
        let step = St::Assign(Ex::Var(i.clone()), Ex::Bin("+", Box::new(Ex::Var(i.clone())), Box::new(Ex::Lit(1, false))));
        let was = std::mem::replace(&mut self.in_loop, true);
        let n = self.r.range(1, 4);
        let mut body = vec![step];
        body.extend(self.block(depth - 1, n));
        self.in_loop = was;
        self.scopes.pop();
        let lim = self.r.range(1, 6) as i64;
        let mut c = Ex::Bin("<", Box::new(Ex::Var(i.clone())), Box::new(Ex::Lit(lim, false)));
        if self.r.chance(1, 3) {
          c = Ex::Bin("&&", Box::new(c), Box::new(self.cond(1)));
        }
        St::Block(vec![St::Decl(vec![Def(i, None, Init::Int(Ex::Lit(0, false)))]), St::While(c, Box::new(St::Block(body)))])
      }
      6 | 7 if self.in_loop => {
        let s = if self.r.bool() { St::Break } else { St::Continue };
        let s = match self.r.below(3) {
          0 => s,
          1 => St::Block(vec![St::Decl(vec![Def(self.r.pick(NAMES).to_string(), None, Init::Int(Ex::Lit(77, false)))]), s]),
          _ => St::Block(vec![s]),
        };
        St::If(self.cond(2), Box::new(s), None)
      }
      8 if deep => St::If(self.cond(2), Box::new(St::Return(self.ex(2))), None),
      9 => St::Empty,
      10 | 11 => St::Do(Ex::Call("putint".into(), vec![self.ex(3)])),
      12 => St::Do(self.ex(2)),
      _ => {
        if self.mistake() {
          return St::Assign(Ex::Bin("+", Box::new(Ex::Lit(1, false)), Box::new(Ex::Lit(1, false))), Ex::Lit(2, false));
        }
        let e = self.ex(3);
        match (self.r.bool(), self.pick(true), self.pick(false)) {
          (true, Some((n, Some(d))), _) => St::Assign(Ex::Idx(n, Box::new(Ex::Lit(self.r.below(d) as i64, false))), e),
          // counters of loops stay what they are
          (_, _, Some((n, _))) if !n.starts_with('i') || n == "i" || n == "intx" => St::Assign(Ex::Var(n), e),
          _ => St::Do(e),
        }
      }
    }
  }

  fn program(&mut self) -> Vec<Item> {
    let mut items = Vec::new();
    self.scopes = vec![vec![]];
    for _ in 0..self.r.below(3) {
      let d = self.defs(false);
      items.push(Item::Global(d));
    }
    let nf = self.r.below(4);
    for k in 0..=nf {
      let main = k == nf;
      let name = if main { "main".to_string() } else { format!("f{k}") };
      let params: Vec<String> = if main { vec![] } else { (0..self.r.below(4)).map(|i| format!("p{i}")).collect() };
      self.scopes.push(params.iter().map(|p| (p.clone(), None)).collect());
      self.fuel = 60;
      let (depth, n) = (self.r.range(1, 4), self.r.range(1, 6));
      let mut body = self.block(depth, n);
      if !params.is_empty() && self.r.chance(1, 3) {
        // recursion that ends
        let mut args: Vec<Ex> = params.iter().map(|p| Ex::Var(p.clone())).collect();
        args[0] = Ex::Bin("-", Box::new(args[0].clone()), Box::new(Ex::Lit(1, false)));
        body.insert(0, St::If(Ex::Bin("<=", Box::new(Ex::Var("p0".into())), Box::new(Ex::Lit(0, false))), Box::new(St::Return(Ex::Lit(1, false))), None));
        body.push(St::Return(Ex::Bin("+", Box::new(Ex::Var("p0".into())), Box::new(Ex::Call(name.clone(), args)))));
      } else if !self.mistake() {
        body.push(St::Return(self.ex(2)));
      }
      self.scopes.pop();
      if !main {
        self.funcs.push((name.clone(), params.len()));
      }
      items.push(Item::Func(Func { name, params, body }));
    }
    // functions may come in any order
    if self.r.bool() {
      self.r.shuffle(&mut items);
      let globals: Vec<usize> = (0..items.len()).filter(|i| matches!(items[*i], Item::Global(_))).collect();
      // the order of variables matters
      if globals.len() > 1 {
        items.sort_by_key(|i| matches!(i, Item::Func(_)));
        items.sort_by_key(|i| matches!(i, Item::Func(_)));
      }
    }
    items
  }
}

fn open_if(s: &St) -> bool {
  match s {
    St::If(_, _, None) => true,
    St::If(_, _, Some(b)) => open_if(b),
    St::While(_, b) => open_if(b),
    _ => false,
  }
}

struct Outcome {
  out: String,
  end: Result<i32, Stop>,
  calls: u64,
  loops: u64,
}

fn meaning(items: &[Item], input: &[String], defects: Defects) -> Outcome {
  let mut m = Run {
    defects,
    funcs: HashMap::new(),
    global: HashMap::new(),
    local: vec![],
    out: String::new(),
    input: input.iter().cloned().collect(),
    steps: 0,
    depth: 0,
    calls: 0,
    loops: 0,
  };
  let mut end = Ok(0);
  for i in items {
    match i {
      Item::Func(f) => drop(m.funcs.insert(&f.name, f)),
      Item::Global(d) => {
        if let Err(e) = m.defs(d) {
          end = Err(e);
          break;
        }
      }
    }
  }
  if end.is_ok() {
    let main = m.funcs["main"];
    end = m.body(main);
  }
  Outcome { out: m.out, end, calls: m.calls, loops: m.loops }
}

fn lit(v: i64) -> Ex {
  Ex::Lit(v, false)
}

fn bin(op: &'static str, l: Ex, r: Ex) -> Ex {
  Ex::Bin(op, Box::new(l), Box::new(r))
}

fn put(e: Ex) -> St {
  St::Do(Ex::Call("putint".into(), vec![e]))
}

fn shows(mut body: Vec<St>) -> Vec<Item> {
  body.push(St::Return(lit(0)));
  vec![Item::Func(Func { name: "main".into(), params: vec![], body })]
}

pub fn run(c: &mut Case) -> Verdict {
  for _ in 0..30 {
    let io = c.rng.chance(1, 3);
    let bad = c.rng.chance(1, 3);
    let items = Gen { r: &mut c.rng, scopes: vec![], funcs: vec![], in_loop: false, io, bad, fuel: 60 }.program();
    let input: Vec<String> = (0..if io { 40 } else { 0 }).map(|_| format!("{}{}{}", c.rng.pick(&["", " ", "\t"]), c.rng.below(60) as i32 - 20, c.rng.pick(&["", " ", "\r"]))).collect();
    let items = match c.index {
      // these show the known findings, as long as they are there
      0 => shows(vec![put(bin("-", bin("-", lit(5), lit(2)), lit(1)))]),
      1 => shows(vec![
        St::Decl(vec![Def("x".into(), None, Init::Int(lit(1)))]),
        St::While(lit(1), Box::new(St::Block(vec![St::Decl(vec![Def("x".into(), None, Init::Int(lit(2)))]), St::Break]))),
        put(Ex::Var("x".into())),
      ]),
      _ => items,
    };
    // what C gives, and what the known defects give
    let d = |right, scope| Defects { right, scope };
    let runs: Vec<Outcome> = [d(false, false), d(true, false), d(false, true), d(true, true)].map(|d| meaning(&items, &input, d)).into();
    if runs.iter().any(|r| matches!(r.end, Err(Stop::Open))) {
      continue;
    }
    let mut t = Text { toks: vec![] };
    for i in &items {
      t.item(i);
    }
    let mut toks = t.toks;
    let (calls, loops) = (runs[0].calls, runs[0].loops);
    // a missing bracket is always an error, found before anything runs
    let brackets: Vec<usize> = (0..toks.len()).filter(|i| "()[]{}".contains(&toks[*i][..])).collect();
    let broken = c.rng.chance(1, 8);
    if broken {
      let i = *c.rng.pick(&brackets);
      // one brace fewer around statements would move them out of their function
      let fewer = match &toks[i][..] {
        "{" => false,
        "}" => true,
        _ => c.rng.bool(),
      };
      if fewer {
        toks.remove(i);
      } else {
        let t = toks[i].clone();
        toks.insert(i, t);
      }
    }
    let text = join(&mut c.rng, &toks);
    let what = format!("the program {:?}{}", clip(&text), if io { format!(" on {input:?}") } else { String::new() });
    c.sample(|| what.clone());
    let o = if io || c.rng.bool() {
      let f = format!("case-{}.c", std::process::id());
      std::fs::write(&f, &text).map_err(|e| format!("harness: {e}"))?;
      let o = exec::run("ex_clike", &[&f], (input.join("\n") + "\n").as_bytes());
      let _ = std::fs::remove_file(&f);
      o
    } else {
      exec::run("ex_clike", &[], text.as_bytes())
    }
    .map_err(|e| format!("{what}: {e}"))?;
    if broken {
      ensure!(o.code != 0 && !o.stderr.trim().is_empty(), "{what} has an unbalanced bracket, but ends with {}: {}", o.code, exec::tail(&o.stderr));
      ensure!(o.stdout.is_empty(), "{what} has an unbalanced bracket, but prints {:?}", o.stdout);
      c.count("unbalanced programs", 1);
      return Ok(());
    }
    let judge = |w: &Outcome| {
      ensure!(o.stdout == w.out, "{what} prints {:?}, expected {:?} ({})", o.stdout, w.out, exec::tail(&o.stderr));
      match w.end {
        Ok(v) => {
          ensure!(o.code == v & 0xff, "{what} exits with {}, expected {v}: {}", o.code, exec::tail(&o.stderr));
          ensure!(o.stderr.is_empty(), "{what} prints messages: {}", exec::tail(&o.stderr));
        }
        Err(_) => ensure!(o.code == 1 && !o.stderr.trim().is_empty(), "{what} has an error, but ends with {}: {}", o.code, exec::tail(&o.stderr)),
      }
      Ok(())
    };
    if let Err(msg) = judge(&runs[0]) {
      match (judge(&runs[1]).is_ok(), judge(&runs[2]).is_ok(), judge(&runs[3]).is_ok()) {
        (true, _, _) => c.finding("clike-right-to-left", msg)?,
        (_, true, _) => c.finding("clike-scope-of-left-blocks", msg)?,
        (_, _, true) => {
          c.finding("clike-right-to-left", msg.clone())?;
          c.finding("clike-scope-of-left-blocks", msg)?;
        }
        _ => return Err(msg),
      }
    }
    c.count(if runs[0].end.is_ok() { "programs that end" } else { "programs with an error" }, 1);
    c.count("numbers printed", runs[0].out.lines().count() as u64);
    c.count("calls", calls);
    c.count("rounds of loops", loops);
    if calls + loops > 0 {
      c.distinct(&text);
    }
    return Ok(());
  }
  c.count("no program with a meaning found", 1);
  Ok(())
}

fn clip(s: &str) -> String {
  if s.chars().count() > 1500 {
    s.chars().take(1500).collect::<String>() + "…"
  } else {
    s.to_string()
  }
}
