//! Generator, random weights, layer creation (C19 - C21).

use crate::json::*;
use crate::num::*;
use crate::run::*;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::Real;

pub fn limbs(seed: u128) -> J { arr((0..8).rev().map(|k| i(((seed >> (16 * k)) & 0xffff) as i64))) }
pub fn unlimbs(j: &J) -> u128 { j.arr().iter().fold(0u128, |a, x| (a << 16) | x.int() as u128) }
/// a generator state, or -1 if it is no state
pub fn state(seed: u128) -> J { if seed < (1 << 31) { i(seed as i64) } else { i(-1) } }
/// an integer that must not be confused with a state
fn whole(v: f64) -> J {
  if v.is_finite() && v == v.trunc() && v >= 0.0 && v < 2147483648.0 { i(v as i64) } else { i(-1) }
}
fn near(v: f64) -> J { if v.is_finite() && v.abs() < 2147483000.0 { i(v.round() as i64) } else { i(-2000000000) } }

pub fn some_seed(g: &mut Rng) -> u128 {
  match g.int(0, 5) {
    0 => g.int(0, 100000) as u128,
    1 => g.next() as u128,
    2 => ((g.next() as u128) << 64) | g.next() as u128,
    3 => u128::MAX - g.int(0, 1000) as u128,
    4 => (2147483647u128 * g.int(0, 1000000) as u128) + g.int(0, 2) as u128,
    _ => g.int(0, 2147483647) as u128,
  }
}

fn draw(op: &str, n: usize, seed: &mut u128) -> J {
  let r = match op {
    "f32" => val(guard(|| lcgf32(seed)), |v| near(v as f64 * 1073741824.0)),
    "f64" => val(guard(|| lcgf64(seed)), |v| whole(v * 2147483648.0)),
    "idx" => val(guard(|| lcgi(seed, n as u128)), |v| whole(v as f64)),
    _ => {
      let r = guard(|| if op == "real32" { f32::gen(seed, n) as f64 } else { f64::gen(seed, n) });
      let inside = r.map_or(true, |v| v.abs() <= n as f64);
      let d = if n == 0 { 1.0 } else { n as f64 };
      return obj! { op: s(op), n: i(n), r: val(r, |v| near(v / d * if op == "real32" { FB } else { 1073741824.0 })), inside: J::B(inside), st: state(*seed) };
    }
  };
  obj! { op: s(op), n: i(n), r: r, st: state(*seed) }
}
const KINDS: [&str; 5] = ["f32", "f64", "idx", "real32", "real64"];
fn some_n(g: &mut Rng, op: &str) -> usize {
  match op {
    "idx" => match g.int(0, 3) { 0 => g.us(1, 20), 1 => g.us(1, 3000), 2 => g.us(1, 2147483647), _ => 1usize << g.us(0, 30) },
    "real32" | "real64" => match g.int(0, 3) { 0 => g.us(0, 3), 1 => g.us(1, 100), _ => g.us(1, 1 << 24) },
    _ => 0,
  }
}

pub fn rng(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    for op in KINDS {
      let mut seed = unlimbs(t.get("seed"));
      let first = seed;
      let n = if op == "idx" { t.get("limit").us() } else { some_n(&mut ctx.rng, op) };
      let mut ops = vec![draw(op, n, &mut seed)];
      let op2 = *ctx.rng.pick(&KINDS);
      ops.push(draw(op2, some_n(&mut ctx.rng, op2), &mut seed));
      ctx.out.put(obj! { ev: s("draws"), seed: limbs(first), ops: J::A(ops) });
    }
  }
  for _ in 0..ctx.reps(300, 5000) {
    let mut seed = some_seed(&mut ctx.rng);
    let first = seed;
    let mut ops = vec![];
    for _ in 0..ctx.rng.us(1, 25) {
      let op = *ctx.rng.pick(&KINDS);
      let n = some_n(&mut ctx.rng, op);
      let e = draw(op, n, &mut seed);
      let dead = e.get("r").get("t").str() == "panic";
      ops.push(e);
      if dead { break; }
    }
    ctx.out.put(obj! { ev: s("draws"), seed: limbs(first), ops: J::A(ops) });
  }
}

// ------------------------------------------------------------------ weights

const METHODS: [&str; 5] = ["Uniform", "Xavier", "XavierGlorotU", "HeInit", "XavierGlorotN"];
pub fn method(name: &str, units: usize) -> InitMethod {
  match name {
    "Uniform" => InitMethod::Uniform(units),
    "Xavier" => InitMethod::Xavier(units),
    "XavierGlorotU" => InitMethod::XavierGlorotU(units),
    "HeInit" => InitMethod::HeInit(units),
    _ => InitMethod::XavierGlorotN(units),
  }
}
fn direct<T: Cx>(name: &str, units: usize, seed: &mut u128) -> T {
  match name {
    "Uniform" => T::gen(seed, units),
    "Xavier" => T::gen_xa(seed, units),
    "XavierGlorotU" => T::gen_xagu(seed, units),
    "HeInit" => T::gen_he(seed, units),
    _ => T::gen_xagn(seed, units),
  }
}

/// units, the number the formula sees, and the factor of the recorded number
fn scale(g: &mut Rng, m: &str) -> (usize, usize, f64) {
  if m == "Uniform" {
    let n = match g.int(0, 3) { 0 => 0, 1 => 1, 2 => g.us(2, 50), _ => g.us(1, 1 << 24) };
    return (n, 1, if n == 0 { 1.0 } else { 1.0 / n as f64 });
  }
  let n = g.us(1, 63);
  let k = *g.pick(&[0, 0, 0, 1, 2, 3, 5, 8]);
  (n << (2 * k), n, (1u64 << k) as f64)
}
/// 24 fractional bits in single, 48 in double precision
fn number<T: Cx>(z: &T, f: f64) -> J {
  let (x, y) = z.xy();
  if T::NAME == "f64" { J::A(vec![wx(x * f), wx(y * f)]) } else { J::A(vec![fx(x * f), fx(y * f)]) }
}

fn gen_op<T: Cx>(g: &mut Rng, m: &str, seed: &mut u128) -> J {
  let (mut units, n, mut f) = scale(g, m);
  if m == "Uniform" && units == 0 { units = 1; f = 1.0; }
  let byname = g.flip();
  let r: Option<T> = guard(|| if byname { method(m, units).gen(seed) } else { direct(m, units, seed) });
  let finite = r.as_ref().map_or(true, |z| z.xy().0.is_finite() && z.xy().1.is_finite());
  obj! { op: s("gen"), m: s(m), p: s(T::NAME), n: i(n), units: i(units), r: val(r, |z| number(&z, f)),
         finite: J::B(finite), st: state(*seed) }
}

pub fn weights(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  let mut seen = std::collections::HashSet::new();
  for t in &script {
    let first = unlimbs(t.get("seed"));
    if !seen.insert(first) { continue; }
    for m in METHODS {
      let mut a = first;
      let mut ops = vec![gen_op::<Cf32>(&mut ctx.rng, m, &mut a)];
      ctx.out.put(obj! { ev: s("weights"), seed: limbs(first), ops: J::A(ops) });
      let mut b = first;
      ops = vec![gen_op::<Cf64>(&mut ctx.rng, m, &mut b)];
      ctx.out.put(obj! { ev: s("weights"), seed: limbs(first), ops: J::A(ops) });
    }
  }
  for _ in 0..ctx.reps(400, 8000) {
    let mut seed = some_seed(&mut ctx.rng);
    let first = seed;
    let mut ops = vec![];
    for _ in 0..ctx.rng.us(1, 12) {
      let m = *ctx.rng.pick(&METHODS);
      let e = if ctx.rng.flip() { gen_op::<Cf32>(&mut ctx.rng, m, &mut seed) } else { gen_op::<Cf64>(&mut ctx.rng, m, &mut seed) };
      let dead = e.get("r").get("t").str() == "panic";
      ops.push(e);
      if dead { break; }
    }
    ctx.out.put(obj! { ev: s("weights"), seed: limbs(first), ops: J::A(ops) });
  }
}

// ----------------------------------------------------------------- creation

pub fn shape(x: &IOShape) -> J {
  match x {
    IOShape::Scalar(n) => J::A(vec![s("s"), i(*n)]),
    IOShape::Matrix(n) => J::A(vec![s("m"), i(*n)]),
  }
}

/// weights and biases of a dense layer with the identity as activation
pub fn probe_dense<T: Cx>(l: &CLayer<T>, units: usize, inputs: usize) -> (Vec<T>, Vec<T>) {
  let at = |k: usize| -> Vec<T> {
    let mut v = vec![T::default(); inputs];
    if k < inputs { v[k] = T::unit(); }
    l.foward(&IOType::Scalar(v)).unwrap().release_vec().unwrap()
  };
  let b = at(inputs);
  let cols: Vec<Vec<T>> = (0..inputs).map(at).collect();
  let mut w = vec![];
  for u in 0..units { for c in &cols { w.push(c[u] - b[u]); } }
  (w, b)
}
/// kernels (filter, channel, row, column) and biases of a convolutional layer
pub fn probe_conv<T: Cx>(l: &CLayer<T>, filters: usize, channels: usize, k: [usize; 2]) -> (Vec<T>, Vec<T>) {
  let n = k[0] * k[1];
  let at = |p: usize| -> Vec<T> {
    let maps = (0..channels).map(|c| {
      let mut body = vec![T::default(); n];
      if p / n == c { body[p % n] = T::unit(); }
      Matrix::from_body(body, k)
    }).collect();
    l.foward(&IOType::Matrix(maps)).unwrap().release_maps().unwrap().iter().map(|m| m.get_body()[0]).collect()
  };
  let b = at(n * channels);
  let all: Vec<Vec<T>> = (0..n * channels).map(at).collect();
  let mut w = vec![];
  for f in 0..filters { for p in &all { w.push(p[f] - b[f]); } }
  (w, b)
}

fn create<T: Cx>(g: &mut Rng, seed: &mut u128, large: usize) -> J {
  let m = *g.pick(&METHODS);
  let (units, n, f) = loop {
    let (u, n, f) = scale(g, m);
    if u > 0 { break (u, n, f); }
  };
  let dense = if large > 0 { large % 2 == 1 } else { g.flip() };
  let wrong = large == 0 && g.int(0, 7) == 0;
  let small = |g: &mut Rng, hi: usize| if g.int(0, 14) == 0 { 0 } else { g.us(1, hi) };
  let (big, d) = (g.int(0, 5) == 0, g.flip());
  let (inp, out) = match (dense, big) {
    (true, true) if d => (g.us(9, 70), small(g, 5)),
    (true, true) => (small(g, 5), g.us(9, 70)),
    (true, false) => (small(g, 6), small(g, 6)),
    (false, true) if d => (g.us(4, 18), small(g, 2)),
    (false, true) => (small(g, 2), g.us(5, 34)),
    (false, false) => (small(g, 3), small(g, 4)),
  };
  let k = if g.int(0, 9) == 0 { [g.us(1, 7), g.us(1, 7)] } else { [g.us(1, 3), g.us(1, 3)] };
  let (inp, out, k) = match large {
    0 => (inp, out, k),
    1 => (g.us(23, 30), g.us(23, 30), k),
    2 => (g.us(6, 7), g.us(5, 6), [g.us(4, 5), g.us(5, 6)]),
    3 => (g.us(1, 2), g.us(1025, 1050), k),
    4 => (1, g.us(1, 2), [g.us(23, 25), g.us(24, 25)]),
    _ => (g.us(1025, 1050), g.us(1, 2), k),
  };
  let shp = if dense != wrong { IOShape::Scalar(inp) } else { IOShape::Matrix(inp) };
  let kind = if matches!(shp, IOShape::Scalar(_)) { "s" } else { "m" };
  let before = *seed;
  let r = guard(|| -> Result<_, renplex::err::LayerInitError> {
    let l: CLayer<T> = if dense {
      DenseCLayer::init(shp, out, ComplexActFunc::None, method(m, units), seed)?.wrap()
    } else {
      ConvCLayer::init(shp, out, k, ComplexActFunc::None, method(m, units), seed)?.wrap()
    };
    let probed = inp > 0 && out > 0;
    let (w, b) = if !probed { (vec![], vec![]) }
      else if dense { probe_dense(&l, out, inp) } else { probe_conv(&l, out, inp, k) };
    let p = l.params_len();
    Ok(obj! { ins: shape(&l.get_input_shape()), outs: shape(&l.get_output_shape()),
              params: J::A(vec![i(p.0), i(p.1)]), probed: J::B(probed),
              w: arr(w.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![fx(x * f), fx(y * f)]) })), b: arr(b.iter().map(exc)) })
  });
  obj! { op: s("layer"), kind: s(if dense { "dense" } else { "conv" }), shape: s(kind), m: s(m), p: s(T::NAME), n: i(n),
         units: i(units), kr: i(k[0]), kc: i(k[1]), r: res(r, |x| x), st: state(*seed), same: J::B(before == *seed),
         input: i(inp), out: i(out) }
}

pub fn creation(ctx: &mut Ctx) {
  for k in 0..ctx.reps(180, 3000) {
    let mut seed = some_seed(&mut ctx.rng);
    let first = seed;
    let mut ops = vec![];
    for _ in 0..ctx.rng.us(1, if k < 12 { 2 } else { 5 }) {
      // the first creation of some histories is a large one
      let large = if ops.is_empty() && k < 12 { k % 6 } else { 0 };
      let e = if ctx.rng.flip() { create::<Cf32>(&mut ctx.rng, &mut seed, large) } else { create::<Cf64>(&mut ctx.rng, &mut seed, large) };
      let dead = e.get("r").get("t").str() == "panic";
      ops.push(e);
      if dead { break; }
    }
    ctx.out.put(obj! { ev: s("creation"), seed: limbs(first), ops: J::A(ops) });
  }
}
