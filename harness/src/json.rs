//! Minimal JSON values: writer for events, reader for scripts.

use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
  I(i64),
  B(bool),
  S(String),
  A(Vec<J>),
  O(Vec<(String, J)>),
}

impl fmt::Display for J {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      J::I(i) => write!(f, "{}", i),
      J::B(b) => write!(f, "{}", b),
      J::S(s) => {
        write!(f, "\"")?;
        for c in s.chars() {
          match c {
            '"' => write!(f, "\\\"")?,
            '\\' => write!(f, "\\\\")?,
            '\n' => write!(f, "\\n")?,
            c if (c as u32) < 32 || (c as u32) > 126 => write!(f, "\\u{:04x}", (c as u32) & 0xffff)?,
            c => write!(f, "{}", c)?,
          }
        }
        write!(f, "\"")
      }
      J::A(a) => {
        write!(f, "[")?;
        for (i, e) in a.iter().enumerate() {
          if i > 0 { write!(f, ",")?; }
          write!(f, "{}", e)?;
        }
        write!(f, "]")
      }
      J::O(o) => {
        write!(f, "{{")?;
        for (i, (k, e)) in o.iter().enumerate() {
          if i > 0 { write!(f, ",")?; }
          write!(f, "\"{}\":{}", k, e)?;
        }
        write!(f, "}}")
      }
    }
  }
}

pub fn s(x: &str) -> J { J::S(x.to_string()) }
pub fn i<N: TryInto<i64>>(x: N) -> J { J::I(x.try_into().unwrap_or(crate::num::SENTINEL)) }
pub fn arr<I: IntoIterator<Item = J>>(it: I) -> J { J::A(it.into_iter().collect()) }
pub fn ints<'a, I: IntoIterator<Item = &'a usize>>(it: I) -> J { J::A(it.into_iter().map(|x| i(*x)).collect()) }

#[macro_export]
macro_rules! obj {
  ($($k:ident : $v:expr),* $(,)?) => { $crate::json::J::O(vec![$((stringify!($k).to_string(), $v)),*]) };
}

impl J {
  pub fn get(&self, k: &str) -> &J {
    match self {
      J::O(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1).unwrap_or_else(|| panic!("script: missing key {} in {}", k, self)),
      _ => panic!("script: not an object: {}", self),
    }
  }
  pub fn has(&self, k: &str) -> bool {
    match self { J::O(o) => o.iter().any(|e| e.0 == k), _ => false }
  }
  pub fn int(&self) -> i64 { match self { J::I(x) => *x, _ => panic!("script: not an integer: {}", self) } }
  pub fn us(&self) -> usize { self.int() as usize }
  pub fn str(&self) -> &str { match self { J::S(x) => x, _ => panic!("script: not a string: {}", self) } }
  pub fn arr(&self) -> &[J] { match self { J::A(x) => x, _ => panic!("script: not an array: {}", self) } }
  pub fn put(&mut self, k: &str, v: J) { if let J::O(o) = self { o.push((k.to_string(), v)); } }
}

pub fn parse(text: &str) -> J {
  let b: Vec<char> = text.chars().collect();
  let mut p = 0;
  let v = val(&b, &mut p);
  v
}

fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1; } }

fn val(b: &[char], p: &mut usize) -> J {
  ws(b, p);
  match b[*p] {
    '{' => {
      *p += 1;
      let mut o = Vec::new();
      loop {
        ws(b, p);
        if b[*p] == '}' { *p += 1; break; }
        if b[*p] == ',' { *p += 1; continue; }
        let k = match val(b, p) { J::S(x) => x, _ => panic!("script: key") };
        ws(b, p);
        assert!(b[*p] == ':');
        *p += 1;
        let v = val(b, p);
        o.push((k, v));
      }
      J::O(o)
    }
    '[' => {
      *p += 1;
      let mut a = Vec::new();
      loop {
        ws(b, p);
        if b[*p] == ']' { *p += 1; break; }
        if b[*p] == ',' { *p += 1; continue; }
        a.push(val(b, p));
      }
      J::A(a)
    }
    '"' => {
      *p += 1;
      let mut o = String::new();
      while b[*p] != '"' {
        if b[*p] == '\\' { *p += 1; }
        o.push(b[*p]);
        *p += 1;
      }
      *p += 1;
      J::S(o)
    }
    't' => { *p += 4; J::B(true) }
    'f' => { *p += 5; J::B(false) }
    _ => {
      let st = *p;
      while *p < b.len() && (b[*p] == '-' || b[*p].is_ascii_digit()) { *p += 1; }
      if st == *p { panic!("script: unexpected character {:?}", b[*p]); }
      J::I(b[st..*p].iter().collect::<String>().parse().unwrap())
    }
  }
}
