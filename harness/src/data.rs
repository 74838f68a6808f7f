//! Data sets, image files, signals, wrappers and one-hot targets (C22 - C25).

use crate::init::{limbs, some_seed, state, unlimbs};
use crate::json::*;
use crate::num::*;
use crate::run::*;
use renplex::dataset::Dataset;
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{BasicOperations, Complex, Real};
use std::fmt::{Debug, Display};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};

/// Numbers recorded by their bits, as 16-bit limbs.
trait Bits: Copy + Display + Debug {
  const NAME: &'static str;
  fn bits(&self) -> J;
  fn some(g: &mut Rng) -> Self;
  /// reads a field of an exported line
  fn read(f: &str) -> Option<Self>;
}
fn lim(v: u64, n: usize) -> Vec<J> { (0..n).map(|k| i(((v >> (16 * k)) & 0xffff) as i64)).collect() }
fn some64(g: &mut Rng) -> f64 {
  match g.int(0, 7) {
    0 => 0.0,
    1 => -0.0,
    2 => g.int(-1000, 1000) as f64,
    3 => f64::MIN_POSITIVE / g.int(1, 1000) as f64,
    4 => f64::MAX,
    5 => g.int(-1000000, 1000000) as f64 / 3.0,
    _ => loop { let v = f64::from_bits(g.next()); if v.is_finite() { break v; } },
  }
}
fn some32(g: &mut Rng) -> f32 {
  match g.int(0, 7) {
    0 => 0.0,
    1 => -0.0,
    2 => g.int(-1000, 1000) as f32,
    3 => f32::MIN_POSITIVE / g.int(1, 1000) as f32,
    4 => f32::MAX,
    5 => g.int(-1000000, 1000000) as f32 / 3.0,
    _ => loop { let v = f32::from_bits(g.next() as u32); if v.is_finite() { break v; } },
  }
}
impl Bits for f32 {
  const NAME: &'static str = "f32";
  fn bits(&self) -> J { J::A(lim(self.to_bits() as u64, 2)) }
  fn some(g: &mut Rng) -> Self { some32(g) }
  fn read(f: &str) -> Option<Self> { f.trim().parse().ok() }
}
impl Bits for f64 {
  const NAME: &'static str = "f64";
  fn bits(&self) -> J { J::A(lim(self.to_bits(), 4)) }
  fn some(g: &mut Rng) -> Self { some64(g) }
  fn read(f: &str) -> Option<Self> { f.trim().parse().ok() }
}
/// the two numbers of a complex field, whatever surrounds them
fn parts(f: &str) -> Option<(&str, &str)> {
  let mut it = f.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).filter(|x| x.chars().any(|c| c.is_ascii_digit()));
  let r = (it.next()?, it.next()?);
  if it.next().is_some() { None } else { Some(r) }
}
impl Bits for Cf32 {
  const NAME: &'static str = "c32";
  fn bits(&self) -> J { let mut v = lim(self.x.to_bits() as u64, 2); v.extend(lim(self.y.to_bits() as u64, 2)); J::A(v) }
  fn some(g: &mut Rng) -> Self { Cf32 { x: some32(g), y: some32(g) } }
  fn read(f: &str) -> Option<Self> { let (x, y) = parts(f)?; Some(Cf32 { x: x.parse().ok()?, y: y.parse().ok()? }) }
}
impl Bits for Cf64 {
  const NAME: &'static str = "c64";
  fn bits(&self) -> J { let mut v = lim(self.x.to_bits(), 4); v.extend(lim(self.y.to_bits(), 4)); J::A(v) }
  fn some(g: &mut Rng) -> Self { Cf64 { x: some64(g), y: some64(g) } }
  fn read(f: &str) -> Option<Self> { let (x, y) = parts(f)?; Some(Cf64 { x: x.parse().ok()?, y: y.parse().ok()? }) }
}
impl Bits for i64 {
  const NAME: &'static str = "i64";
  fn bits(&self) -> J { J::A(lim(*self as u64, 4)) }
  fn some(g: &mut Rng) -> Self { g.next() as i64 }
  fn read(f: &str) -> Option<Self> { f.trim().parse().ok() }
}
fn bio<T: Bits>(x: &IOType<T>) -> J {
  match x {
    IOType::Scalar(v) => obj! { io: s("s"), v: arr(v.iter().map(|z| z.bits())) },
    IOType::Matrix(m) => obj! { io: s("m"), v: arr(m.iter().map(|a| obj! { sh: ints(a.get_shape()), v: arr(a.get_body().iter().map(|z| z.bits())) })) },
  }
}

/*------------------------------- data sets -------------------------------*/
fn some_io<T: Bits>(g: &mut Rng, maps: bool, min: usize) -> IOType<T> {
  if maps {
    let (r, c) = (g.us(1, 3), g.us(1, 3));
    IOType::Matrix((0..g.us(1, 2)).map(|_| Matrix::from_body((0..r * c).map(|_| T::some(g)).collect(), [r, c])).collect())
  } else {
    let n = match g.int(0, 255) { 0..=31 => g.us(min, 40), 32 => g.us(250, 300), _ => g.us(min, 5) };
    IOType::Scalar((0..n).map(|_| T::some(g)).collect())
  }
}
fn csv<T: Bits>(ctx: &Ctx, d: &Dataset<T, T>) -> J {
  let file = format!("{}/set.csv", ctx.scratch);
  // every other export replaces the file of an earlier, longer one
  if d.get_n_points() % 2 == 1 { let _ = std::fs::write(&file, "7,7,7,7,7,7\n".repeat(2000)); }
  let r = guard(|| d.to_csv(file.clone()));
  let e = res(r, |_| {
    let text = std::fs::read_to_string(&file).unwrap_or(String::from("unreadable"));
    let lines: Vec<J> = text.lines().map(|l| arr(l.split(',').map(|f| T::read(f).map_or(J::A(vec![i(-1)]), |v| v.bits())))).collect();
    obj! { lines: J::A(lines), ended: J::B(text.is_empty() || text.ends_with('\n')) }
  });
  let _ = std::fs::remove_file(&file);
  e
}
fn set<T: Bits>(ctx: &mut Ctx, ops: &[String]) {
  let mut d: Dataset<T, T> = Dataset::new();
  let mut out = vec![];
  let mut scalars = true;
  for op in ops {
    let n = d.get_n_points();
    out.push(match op.as_str() {
      "add" | "add_maps" => {
        let maps = op == "add_maps";
        let x = some_io(&mut ctx.rng, maps, 1);
        let t_maps = maps && ctx.rng.flip();
        let t = some_io(&mut ctx.rng, t_maps, 0);
        scalars = scalars && !maps;
        let e = obj! { op: s("add"), x: bio(&x), t: bio(&t) };
        d.add_point((x, t));
        e
      }
      "count" => obj! { op: s("count"), r: val(guard(|| d.get_n_points()), |n| i(n)) },
      "get" if n > 0 => {
        let k = ctx.rng.us(0, n - 1);
        obj! { op: s("get"), i: i(k + 1), r: val(guard(|| d.get_point(k)), |(x, t)| obj! { x: bio(x), t: bio(t) }) }
      }
      "iter" => obj! { op: s("all"), r: val(guard(|| { let (a, b) = d.points_as_iter(); (arr(a.map(bio)), arr(b.map(bio))) }), |(a, b)| obj! { xs: a, ts: b }) },
      "into" => {
        let c = d.clone();
        obj! { op: s("all"), r: val(guard(|| { let (a, b) = c.points_into_iter(); (arr(a.map(|x| bio(&x))), arr(b.map(|x| bio(&x)))) }), |(a, b)| obj! { xs: a, ts: b }) }
      }
      // a copy that goes on by itself
      "copy" => {
        let mut c = d.clone();
        let x = some_io(&mut ctx.rng, false, 1);
        let t = some_io(&mut ctx.rng, false, 1);
        c.add_point((x, t));
        obj! { op: s("copy"), n: i(c.get_n_points()) }
      }
      "csv" if scalars => obj! { op: s("csv"), r: csv(ctx, &d) },
      _ => continue,
    });
  }
  ctx.out.put(obj! { ev: s("set"), p: s(T::NAME), ops: J::A(out) });
}
fn set_of(ctx: &mut Ctx, k: usize, ops: &[String]) {
  match k % 5 {
    0 => set::<f32>(ctx, ops),
    1 => set::<f64>(ctx, ops),
    2 => set::<Cf32>(ctx, ops),
    3 => set::<Cf64>(ctx, ops),
    _ => set::<i64>(ctx, ops),
  }
}
const SET_OPS: [&str; 8] = ["add", "add", "add_maps", "count", "get", "iter", "into", "csv"];

pub fn sets(ctx: &mut Ctx) {
  for (k, t) in std::mem::take(&mut ctx.script).iter().enumerate() {
    let ops: Vec<String> = t.get("ops").arr().iter().map(|o| o.str().to_string()).collect();
    let k = k + ctx.rng.us(0, 4);
    set_of(ctx, k, &ops);
  }
  for k in 0..ctx.reps(150, 3000) {
    let scalars = ctx.rng.flip();
    let ops: Vec<String> = (0..ctx.rng.us(3, 30)).map(|_| *ctx.rng.pick(&SET_OPS)).filter(|o| !(scalars && *o == "add_maps"))
      .chain(["copy", "csv", "iter", "into", "count"]).map(|o| o.to_string()).collect();
    set_of(ctx, k, &ops);
  }
  // many points
  for k in 0..ctx.reps(3, 8) {
    let n = if k == 2 { ctx.rng.us(1030, 1100) } else { ctx.rng.us(102, 140) };
    let mut ops: Vec<String> = vec![String::from("add"); n];
    for _ in 0..12 { let at = ctx.rng.us(0, n); ops.insert(at, ctx.rng.pick(&["get", "count"]).to_string()); }
    ops.extend(["get", "get", "get", "csv", "iter", "into", "count"].map(String::from));
    let k = k * 2 + ctx.rng.us(0, 1);
    set_of(ctx, k, &ops);
  }
}

/*------------------------------ image files ------------------------------*/
/// byte k of record n is (a n + b k + c) mod 256, its label (d n + e) mod 10
struct Idx { a: usize, b: usize, c: usize, d: usize, e: usize }
impl Idx {
  fn some(g: &mut Rng) -> Idx { Idx { a: g.us(0, 255), b: g.us(1, 255), c: g.us(0, 255), d: g.us(1, 9), e: g.us(0, 9) } }
  fn pixel(&self, n: usize, k: usize) -> u8 { ((self.a * n + self.b * k + self.c) % 256) as u8 }
  fn label(&self, n: usize) -> u8 { ((self.d * n + self.e) % 10) as u8 }
  fn j(&self) -> J { obj! { a: i(self.a), b: i(self.b), c: i(self.c), d: i(self.d), e: i(self.e) } }
  /// headers, then the records; the headers look like records; the records
  /// before the first one read are left out of the (sparse) files
  fn write(&self, dir: &str, images: usize, labels: usize, part: usize, start: usize, g: &mut Rng) -> (File, File) {
    let (px, py) = (format!("{}/images.idx", dir), format!("{}/labels.idx", dir));
    let mut w = File::create(&px).expect("scratch");
    w.write_all(&(0..16).map(|_| g.next() as u8).collect::<Vec<u8>>()).expect("scratch");
    w.seek(SeekFrom::Start(16 + 784 * start as u64)).expect("scratch");
    for n in start..images { w.write_all(&(0..784).map(|k| self.pixel(n, k)).collect::<Vec<u8>>()).expect("scratch"); }
    w.write_all(&vec![77u8; part]).expect("scratch");
    let mut y: Vec<u8> = (0..8).map(|_| (g.next() % 10) as u8).collect();
    y.extend((0..labels).map(|n| self.label(n)));
    std::fs::write(&py, y).expect("scratch");
    let r = (File::open(&px).expect("scratch"), File::open(&py).expect("scratch"));
    let _ = std::fs::remove_file(&px);
    let _ = std::fs::remove_file(&py);
    r
  }
}
trait Pix: Copy + BasicOperations<Self> { const NAME: &'static str; fn batch(x: &mut File, y: &mut File, n: usize, at: &mut usize) -> Dataset<Self, Self>; fn xy(&self) -> (f64, f64); }
impl Pix for f32 { const NAME: &'static str = "f32"; fn batch(x: &mut File, y: &mut File, n: usize, at: &mut usize) -> Dataset<f32, f32> { Dataset::<f32, f32>::minist_as_batch(x, y, n, at) } fn xy(&self) -> (f64, f64) { (*self as f64, 0.0) } }
impl Pix for f64 { const NAME: &'static str = "f64"; fn batch(x: &mut File, y: &mut File, n: usize, at: &mut usize) -> Dataset<f64, f64> { Dataset::<f64, f64>::minist_as_batch(x, y, n, at) } fn xy(&self) -> (f64, f64) { (*self, 0.0) } }
impl Pix for Cf32 { const NAME: &'static str = "c32"; fn batch(x: &mut File, y: &mut File, n: usize, at: &mut usize) -> Dataset<Cf32, Cf32> { Dataset::<Cf32, Cf32>::minist_as_complex_batch(x, y, n, at) } fn xy(&self) -> (f64, f64) { (self.x as f64, self.y as f64) } }
impl Pix for Cf64 { const NAME: &'static str = "c64"; fn batch(x: &mut File, y: &mut File, n: usize, at: &mut usize) -> Dataset<Cf64, Cf64> { Dataset::<Cf64, Cf64>::minist_as_complex_batch(x, y, n, at) } fn xy(&self) -> (f64, f64) { (self.x, self.y) } }

/// pixels times 255 * 64 (rounded), labels as they are; -1 for an imaginary part
fn image<T: Pix>(x: &IOType<T>, t: &IOType<T>, pos: &[usize]) -> J {
  let real = |z: &T, by: f64| { let (x, y) = z.xy(); if y == 0.0 { fxr(x * by) } else { i(-1) } };
  let (n, sh, v) = match x {
    IOType::Matrix(m) if m.len() > 0 => (m.len(), ints(m[0].get_shape()), arr(pos.iter().filter_map(|k| m[0].get_body().get(*k)).map(|z| real(z, 255.0 * 64.0)))),
    _ => (0, J::A(vec![]), J::A(vec![])),
  };
  let label = match t { IOType::Scalar(v) => arr(v.iter().map(|z| real(z, 64.0))), _ => J::A(vec![]) };
  let len = match x { IOType::Matrix(m) if m.len() > 0 => m[0].get_body().len(), _ => 0 };
  obj! { maps: i(n), sh: sh, len: i(len), pix: v, label: label }
}
fn fxr(v: f64) -> J { if v.is_finite() && v.abs() < 1.0e9 { i(v.round() as i64) } else { i(-2) } }

/// start: first record read (the files and the counter are already there)
fn images<T: Pix>(ctx: &mut Ctx, images: usize, labels: usize, part: usize, start: usize, sizes: &[usize]) {
  let f = Idx::some(&mut ctx.rng);
  let (mut x, mut y) = f.write(&ctx.scratch.clone(), images, labels, part, start, &mut ctx.rng);
  // all pixels, or some of each image of a large file
  let pos: Vec<usize> = if images - start > 300 { (0..6).map(|k| 131 * k + ctx.rng.us(0, 130)).chain([0, 783]).collect() } else { (0..784).collect() };
  let mut at = 0;
  if start > 0 {
    at = 8 + start;
    x.seek(SeekFrom::Start(16 + 784 * start as u64)).unwrap();
    y.seek(SeekFrom::Start(at as u64)).unwrap();
  }
  let mut out = vec![];
  for n in sizes {
    let r = guard(|| T::batch(&mut x, &mut y, *n, &mut at));
    let dead = r.is_none();
    let points = val(r, |d| { let (a, b) = d.points_as_iter(); arr(a.zip(b).map(|(x, t)| image(x, t, &pos))) });
    out.push(obj! { n: i(*n), r: points, at: i(at) });
    if dead { break; }
  }
  ctx.out.put(obj! { ev: s("idx"), p: s(T::NAME), f: f.j(), images: i(images), labels: i(labels), start: i(start), pos: ints(&pos), ops: J::A(out) });
}
fn images_of(ctx: &mut Ctx, k: usize, n: usize, labels: usize, part: usize, start: usize, sizes: &[usize]) {
  match k % 4 {
    0 => images::<f32>(ctx, n, labels, part, start, sizes),
    1 => images::<Cf32>(ctx, n, labels, part, start, sizes),
    2 => images::<f64>(ctx, n, labels, part, start, sizes),
    _ => images::<Cf64>(ctx, n, labels, part, start, sizes),
  }
}
pub fn idx(ctx: &mut Ctx) {
  for (k, t) in std::mem::take(&mut ctx.script).iter().enumerate() {
    let sizes: Vec<usize> = t.get("sizes").arr().iter().map(|x| x.us()).collect();
    let k = k + ctx.rng.us(0, 3);
    images_of(ctx, k, t.get("images").us(), t.get("labels").us(), 0, 0, &sizes);
  }
  for k in 0..ctx.reps(8, 60) {
    let n = ctx.rng.us(0, 12);
    let mut sizes: Vec<usize> = (0..ctx.rng.us(1, 6)).map(|_| ctx.rng.us(0, 6)).collect();
    sizes.push(ctx.rng.us(1, 20));
    let part = if ctx.rng.flip() { ctx.rng.us(1, 783) } else { 0 };
    images_of(ctx, k, n, n, part, 0, &sizes);
  }
  // more records than a byte counts
  images_of(ctx, ctx.seed as usize, 270, 270, 0, 0, &[260, 3, 20, 1]);
  // a large file in large batches
  let n = ctx.rng.us(2100, 2400);
  images_of(ctx, ctx.seed as usize + 1, n, n, 0, 0, &[1, 1030, 7, 1000, 500]);
  // the end of the largest set: its last records, the counter almost there
  for k in 0..ctx.reps(4, 16) {
    let n = if k % 2 == 0 { ctx.rng.us(1, 6) } else { ctx.rng.us(10, 22) };
    let sizes: Vec<usize> = (0..ctx.rng.us(2, 5)).map(|_| ctx.rng.us(1, 5)).chain([if k % 2 == 0 { 3 } else { 25 }, 1]).collect();
    images_of(ctx, k, 60000, 60000, 0, 60000 - n, &sizes);
  }
}

/*-------------------------------- signals --------------------------------*/
fn signal(ctx: &mut Ctx, samples: usize, batch: usize, thr: i64, s1: u128, s2: u128) {
  let (mut a, mut b) = (s1, s2);
  let t = thr as f32 / 64.0;
  let r = guard(|| Dataset::<Cf32, Cf32>::signal_reconstruction(samples, batch, t, &mut a, &mut b));
  let vecs = |x: &IOType<Cf32>| match x { IOType::Scalar(v) => fxv(v), _ => s("maps") };
  let one = |d: &Dataset<Cf32, Cf32>| {
    let (x, t) = d.points_as_iter();
    arr(x.zip(t).map(|(x, t)| {
      let same = match (x, t) { (IOType::Scalar(a), IOType::Scalar(b)) => a == b, _ => false };
      obj! { x: vecs(x), t: vecs(t), same: J::B(same) }
    }))
  };
  let r = val(r, |(tr, te)| obj! { train: one(&tr), test: one(&te), counts: arr([i(tr.get_n_points()), i(te.get_n_points())]) });
  ctx.out.put(obj! { ev: s("signal"), samples: i(samples), batch: i(batch), thr: i(thr), s1: limbs(s1), s2: limbs(s2), r: r, st: arr([state(a), state(b)]) });
}
pub fn signals(ctx: &mut Ctx) {
  // many samples, many points
  for k in 0..ctx.reps(2, 8) {
    let (n, b) = if k % 2 == 0 { (ctx.rng.us(257, 300), 1) } else { (ctx.rng.us(1, 2), ctx.rng.us(33, 40)) };
    let (s1, s2) = (some_seed(&mut ctx.rng), some_seed(&mut ctx.rng));
    signal(ctx, n, b, 10, s1, s2);
  }
  for t in &std::mem::take(&mut ctx.script) {
    let thr = *ctx.rng.pick(&[0, 1, 7, 32, 64, 100]);
    let other = some_seed(&mut ctx.rng);
    let (a, b) = if ctx.rng.flip() { (unlimbs(t.get("seed")), other) } else { (other, unlimbs(t.get("seed"))) };
    signal(ctx, t.get("samples").us(), 1, thr, a, b);
  }
  for k in 0..ctx.reps(16, 200) {
    let thr = if k % 4 == 0 { 0 } else { ctx.rng.int(0, 128) };
    let (n, b) = (ctx.rng.us(1, 12), ctx.rng.us(0, 3));
    let (s1, s2) = (some_seed(&mut ctx.rng), some_seed(&mut ctx.rng));
    signal(ctx, n, b, thr, s1, s2);
  }
  for _ in 0..ctx.reps(1, 6) {
    let n = ctx.rng.us(30, 60);
    let (s1, s2) = (some_seed(&mut ctx.rng), some_seed(&mut ctx.rng));
    signal(ctx, n, 1, 20, s1, s2);
  }
  // the same seed for both sets; the same training seed with another test seed
  for _ in 0..ctx.reps(2, 20) {
    let (s1, s2) = (some_seed(&mut ctx.rng), some_seed(&mut ctx.rng));
    signal(ctx, 5, 2, 16, s1, s1);
    signal(ctx, 5, 2, 16, s1, s2);
  }
}

/*------------------------------- wrappers --------------------------------*/
fn wrap<T: Bits>(ctx: &mut Ctx, n: usize, maps: bool) {
  let g = &mut ctx.rng;
  let x: IOType<T> = if maps {
    IOType::Matrix((0..n).map(|_| { let (r, c) = (g.us(1, 3), g.us(1, 3)); Matrix::from_body((0..r * c).map(|_| T::some(g)).collect(), [r, c]) }).collect())
  } else { IOType::Scalar((0..n).map(|_| T::some(g)).collect()) };
  let first = bio(&x);
  let vec = |v: &[T]| arr(v.iter().map(|z| z.bits()));
  let mut ops = vec![];
  let mut cur = x;
  for _ in 0..g.us(3, 8) {
    ops.push(match *g.pick(&["slice", "vec", "set", "rvec", "rmaps", "fork"]) {
      "slice" => obj! { op: s("read"), r: val(guard(|| vec(cur.as_slice())), |v| v) },
      "vec" => obj! { op: s("read"), r: val(guard(|| vec(&cur.to_vec())), |v| v) },
      "set" => {
        let k = if n > 0 { g.us(0, n - 1) } else { 0 };
        let v = T::some(g);
        let c = &mut cur;
        let r = val(guard(move || { let m = c.as_mut(); let len = m.len(); if k < len { m[k] = v; } len }), |l| i(l));
        obj! { op: s("set"), k: i(k + 1), to: v.bits(), r: r }
      }
      "rvec" => { let c = cur.clone(); obj! { op: s("rvec"), r: res(guard(|| c.release_vec()), |v| vec(&v)) } }
      "rmaps" => { let c = cur.clone(); obj! { op: s("rmaps"), r: res(guard(|| c.release_maps()), |m| bio(&IOType::Matrix(m)).get("v").clone()) } }
      // a changed copy leaves the original
      _ => {
        let mut c = cur.clone();
        let v = T::some(g);
        let _ = guard(|| if let IOType::Scalar(_) = c { if n > 0 { c.as_mut()[0] = v; } });
        obj! { op: s("look"), r: bio(&cur) }
      }
    });
  }
  ctx.out.put(obj! { ev: s("wrap"), p: s(T::NAME), x: first, ops: J::A(ops), last: val(guard(|| bio(&cur)), |v| v) });
  // consumed for good
  let last = bio(&cur);
  let e = if maps { res(guard(|| cur.release_maps()), |m| bio(&IOType::Matrix(m))) } else { res(guard(|| cur.release_vec()), |v| bio(&IOType::Scalar(v))) };
  ctx.out.put(obj! { ev: s("freed"), p: s(T::NAME), x: last, r: e });
}
fn hot<T: Copy>(ctx: &mut Ctx, p: &str, n: usize, k: usize, f: impl Fn(usize, usize) -> Result<Vec<T>, renplex::err::PredicionError>, enc: impl Fn(&T) -> J) {
  let r = res(guard(|| f(n, k).map_err(|_| "refused")), |v| arr(v.iter().map(|z| enc(z))));
  ctx.out.put(obj! { ev: s("hot"), p: s(p), n: i(n), k: i(k), r: r });
}
fn hots(ctx: &mut Ctx, n: usize, k: usize) {
  let m = PredictModel::Sparse;
  hot(ctx, "f32", n, k, |n, k| <f32 as Real>::gen_pred(n, k, &m), |v| J::A(vec![ex(*v as f64), i(0)]));
  hot(ctx, "f64", n, k, |n, k| <f64 as Real>::gen_pred(n, k, &m), |v| J::A(vec![ex(*v), i(0)]));
  hot(ctx, "c32", n, k, |n, k| <Cf32 as Complex>::gen_pred(n, k, &m), exc);
  hot(ctx, "c64", n, k, |n, k| <Cf64 as Complex>::gen_pred(n, k, &m), exc);
}
pub fn wrappers(ctx: &mut Ctx) {
  for t in &std::mem::take(&mut ctx.script) {
    if t.has("k") { hots(ctx, t.get("n").us(), t.get("k").us()) } else {
      let (n, maps) = (t.get("n").us(), t.get("io").str() == "m");
      wrap::<f32>(ctx, n, maps);
      wrap::<f64>(ctx, n, maps);
      wrap::<Cf32>(ctx, n, maps);
      wrap::<Cf64>(ctx, n, maps);
      wrap::<i64>(ctx, n, maps);
    }
  }
  for n in [256, 257, 300, 513, 1030] {
    wrap::<Cf32>(ctx, n, false);
    wrap::<f64>(ctx, n, false);
  }
  wrap::<Cf64>(ctx, 40, true);
  let (n, k) = (ctx.rng.us(1090, 1100), ctx.rng.us(1030, 1089));
  hots(ctx, n, k);
  for _ in 0..ctx.reps(60, 1000) {
    let m = if ctx.rng.int(0, 19) == 0 { 1100 } else { 60 };
    let (n, k) = (ctx.rng.us(0, m), ctx.rng.us(0, m + 20));
    hots(ctx, n, k);
    let k = match ctx.rng.int(0, 3) { 0 => n, 1 => n + 1, 2 => usize::MAX, _ => n.saturating_sub(1) };
    hots(ctx, n, k);
    let (n, maps) = (ctx.rng.us(0, 40), ctx.rng.flip());
    let n = if maps { n % 5 } else if n == 40 { ctx.rng.us(255, 600) } else { n };
    if ctx.rng.flip() { wrap::<Cf32>(ctx, n, maps) } else { wrap::<f64>(ctx, n, maps) }
  }
}
