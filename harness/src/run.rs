//! Recording and fault isolation.

use crate::json::J;
use crate::num::Cx;
use std::cell::Cell;
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static DEPTH: Cell<usize> = const { Cell::new(0) }; }

pub fn guarded() -> bool { DEPTH.with(|d| d.get() > 0) }

/// Runs code under test; a panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
  DEPTH.with(|d| d.set(d.get() + 1));
  let r = catch_unwind(AssertUnwindSafe(f)).ok();
  DEPTH.with(|d| d.set(d.get() - 1));
  r
}

/// result of a call that cannot fail except by panic
pub fn val<R>(r: Option<R>, enc: impl FnOnce(R) -> J) -> J {
  match r {
    Some(v) => obj! { t: J::S("ok".into()), v: enc(v) },
    None => obj! { t: J::S("panic".into()) },
  }
}
/// result of a fallible call
pub fn res<R, E: Debug>(r: Option<Result<R, E>>, enc: impl FnOnce(R) -> J) -> J {
  match r {
    Some(Ok(v)) => obj! { t: J::S("ok".into()), v: enc(v) },
    Some(Err(e)) => obj! { t: J::S("err".into()), e: J::S(format!("{:?}", e)) },
    None => obj! { t: J::S("panic".into()) },
  }
}

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// lo..=hi
  pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
  pub fn us(&mut self, lo: usize, hi: usize) -> usize { self.int(lo as i64, hi as i64) as usize }
  pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { &v[(self.next() % v.len() as u64) as usize] }
  /// an exponent for scaling: up to m for single and ten times that for double precision, often none
  pub fn expo<T: Cx>(&mut self, m: i64) -> i64 {
    let m = if T::NAME == "f32" { m } else { (10 * m).min(300) };
    if self.int(0, 2) == 0 { 0 } else { self.int(-m, m) }
  }
  pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
}

pub struct Out {
  w: std::io::BufWriter<std::fs::File>,
  pub n: usize,
}
impl Out {
  pub fn new(path: &str) -> Out {
    Out { w: std::io::BufWriter::new(std::fs::File::create(path).expect("cannot create the event file")), n: 0 }
  }
  pub fn put(&mut self, j: J) {
    writeln!(self.w, "{}", j).expect("cannot write an event");
    self.n += 1;
  }
}

pub struct Ctx {
  pub seed: u64,
  pub thorough: bool,
  pub out: Out,
  pub rng: Rng,
  pub script: Vec<J>,
  pub scratch: String,
}
impl Ctx {
  pub fn reps(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}
