//! Conversions between recorded integers and the number types under test.

use crate::json::{arr, J};
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{BasicOperations, Complex};

/// recorded for anything that is not an integer in range
pub const SENTINEL: i64 = 2_000_000_001;
pub const LIMIT: f64 = 1.0e9;
/// one in fixed point
pub const FB: f64 = 16777216.0;

pub trait Pr: Copy {
  fn w(self) -> f64;
  fn n(v: f64) -> Self;
}
impl Pr for f32 {
  fn w(self) -> f64 { self as f64 }
  fn n(v: f64) -> Self { v as f32 }
}
impl Pr for f64 {
  fn w(self) -> f64 { self }
  fn n(v: f64) -> Self { v }
}

/// the two complex types under test
pub trait Cx: Complex + BasicOperations<Self> + PartialEq + Copy {
  const NAME: &'static str;
  fn c(x: f64, y: f64) -> Self;
  fn xy(&self) -> (f64, f64);
  fn pr(v: f64) -> Self::Precision;
  fn wide(v: Self::Precision) -> f64;
}
impl Cx for Cf32 {
  const NAME: &'static str = "f32";
  fn c(x: f64, y: f64) -> Self { Cf32 { x: x as f32, y: y as f32 } }
  fn xy(&self) -> (f64, f64) { (self.x as f64, self.y as f64) }
  fn pr(v: f64) -> f32 { v as f32 }
  fn wide(v: f32) -> f64 { v as f64 }
}
impl Cx for Cf64 {
  const NAME: &'static str = "f64";
  fn c(x: f64, y: f64) -> Self { Cf64 { x, y } }
  fn xy(&self) -> (f64, f64) { (self.x, self.y) }
  fn pr(v: f64) -> f64 { v }
  fn wide(v: f64) -> f64 { v }
}

/// exact integer, or the sentinel
pub fn ex(v: f64) -> J {
  if v.is_finite() && v == v.trunc() && v.abs() <= LIMIT { J::I(v as i64) } else { J::I(SENTINEL) }
}
/// fixed point with 24 fractional bits, or the sentinel
pub fn fx(v: f64) -> J {
  let u = v * FB;
  if u.is_finite() && u.abs() <= LIMIT { J::I(u.round() as i64) } else { J::I(SENTINEL) }
}
/// fixed point with 48 fractional bits in two halves, for values below 32
pub fn wx(v: f64) -> J {
  if !(v.abs() < 32.0) { return J::A(vec![J::I(SENTINEL), J::I(0)]); }
  let u = v * FB;
  let (mut h, mut l) = (u.floor() as i64, ((u - u.floor()) * FB).round() as i64);
  if l == FB as i64 { h += 1; l = 0; }
  J::A(vec![J::I(h), J::I(l)])
}
/// a whole number below 2^48 in two halves, or the sentinel
pub fn hx(v: f64) -> J {
  if v != v.trunc() || !(v >= 0.0 && v < FB * FB) { return J::A(vec![J::I(SENTINEL), J::I(0)]); }
  J::A(vec![J::I((v / FB).floor() as i64), J::I((v % FB) as i64)])
}
pub fn exc<T: Cx>(z: &T) -> J { let (x, y) = z.xy(); J::A(vec![ex(x), ex(y)]) }
pub fn fxc<T: Cx>(z: &T) -> J { let (x, y) = z.xy(); J::A(vec![fx(x), fx(y)]) }
pub fn wxc<T: Cx>(z: &T) -> J { let (x, y) = z.xy(); J::A(vec![wx(x), wx(y)]) }
pub fn exv<T: Cx>(v: &[T]) -> J { arr(v.iter().map(exc)) }
pub fn fxv<T: Cx>(v: &[T]) -> J { arr(v.iter().map(fxc)) }

/// multiplication by a power of two (large exponents in two steps)
pub fn sc(v: f64, e: i64) -> f64 {
  let h = e / 2;
  v * (2f64).powi(h as i32) * (2f64).powi((e - h) as i32)
}

/// the same numbers times 2^e
pub fn scz<T: Cx>(z: &T, e: i64) -> T { let (x, y) = z.xy(); T::c(sc(x, e), sc(y, e)) }
pub fn scv<T: Cx>(v: &[T], e: i64) -> Vec<T> { v.iter().map(|z| scz(z, e)).collect() }
pub fn scm<T: Cx>(m: &Matrix<T>, e: i64) -> Matrix<T> {
  let mut m = m.clone();
  m.get_body_as_mut().iter_mut().for_each(|z| *z = scz(z, e));
  m
}
pub fn scio<T: Cx>(x: &IOType<T>, e: i64) -> IOType<T> {
  match x {
    IOType::Scalar(v) => IOType::Scalar(scv(v, e)),
    IOType::Matrix(m) => IOType::Matrix(m.iter().map(|a| scm(a, e)).collect()),
  }
}

/// a number encoder: exact or fixed point
pub type Enc<T> = fn(&T) -> J;
pub fn encv<T: Cx>(e: Enc<T>, v: &[T]) -> J { arr(v.iter().map(e)) }
/// rows of a matrix; the shape is recorded separately
pub fn encm<T: Cx>(e: Enc<T>, m: &Matrix<T>) -> J {
  let c = m.get_shape()[1];
  if c == 0 { return J::A(vec![]); }
  arr(m.get_body().chunks(c).map(|r| encv(e, r)))
}
pub fn encio<T: Cx>(e: Enc<T>, x: &IOType<T>) -> J {
  match x {
    IOType::Scalar(v) => obj! { io: J::S("s".into()), v: encv(e, v) },
    IOType::Matrix(m) => obj! { io: J::S("m".into()), v: arr(m.iter().map(|a| encm(e, a))) },
  }
}
pub fn decc<T: Cx>(j: &J) -> T { let a = j.arr(); T::c(a[0].int() as f64, a[1].int() as f64) }
pub fn decv<T: Cx>(j: &J) -> Vec<T> { j.arr().iter().map(decc).collect() }
pub fn decm<T: Cx>(j: &J) -> Matrix<T> {
  let rows = j.arr();
  let c = if rows.is_empty() { 0 } else { rows[0].arr().len() };
  Matrix::from_body(rows.iter().flat_map(|r| decv::<T>(r)).collect(), [rows.len(), c])
}
