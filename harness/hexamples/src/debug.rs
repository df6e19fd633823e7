//! Reads what `{:#?}` prints.

#[derive(Debug, PartialEq)]
pub enum D {
  /// A quoted text, with its quotes and escapes.
  Str(String),
  /// Any other run of characters.
  Atom(String),
  /// A name (maybe empty) with what its brackets hold.
  Group(String, char, Vec<D>),
}

pub fn read(s: &str) -> Result<Vec<D>, String> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let v = items(&c, &mut i)?;
  if i < c.len() {
    return Err(format!("unexpected {:?} at character {i}", c[i]));
  }
  Ok(v)
}

fn items(c: &[char], i: &mut usize) -> Result<Vec<D>, String> {
  let mut v = Vec::new();
  loop {
    while *i < c.len() && (c[*i].is_whitespace() || c[*i] == ',') {
      *i += 1;
    }
    if *i >= c.len() || matches!(c[*i], ')' | ']' | '}') {
      return Ok(v);
    }
    if matches!(c[*i], '"' | '\'') {
      let (q, from) = (c[*i], *i);
      *i += 1;
      while *i < c.len() && c[*i] != q {
        *i += 1 + (c[*i] == '\\') as usize;
      }
      *i += 1;
      if *i > c.len() {
        return Err("open quotes".into());
      }
      v.push(D::Str(c[from..*i].iter().collect()));
      continue;
    }
    let from = *i;
    while *i < c.len() && !c[*i].is_whitespace() && !",()[]{}\"'".contains(c[*i]) {
      *i += 1;
    }
    let name: String = c[from..*i].iter().collect();
    let mut j = *i;
    while j < c.len() && c[j] == ' ' {
      j += 1;
    }
    if j < c.len() && matches!(c[j], '(' | '[' | '{') && !name.ends_with(':') {
      let open = c[j];
      *i = j + 1;
      let inner = items(c, i)?;
      let close = [')', ']', '}'][['(', '[', '{'].iter().position(|x| *x == open).unwrap()];
      if c.get(*i) != Some(&close) {
        return Err(format!("{open} is not closed"));
      }
      *i += 1;
      v.push(D::Group(name, open, inner));
    } else if name != ":" {
      v.push(D::Atom(name));
    }
  }
}
