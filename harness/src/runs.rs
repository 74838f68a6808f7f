//! Read-only histories, schedules of threads and whole runs (C04, C26).

use crate::act::{actfn, ACTS};
use crate::init::method;
use crate::json::*;
use crate::layers::EXACT_ACTS;
use crate::net::*;
use crate::num::*;
use crate::run::*;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/*-------------------------------- digests --------------------------------*/
/// FNV-1a over the bits of all numbers and the shape
#[derive(Clone)]
pub struct Dig(u64);
impl Dig {
  pub fn new() -> Dig { Dig(0xcbf29ce484222325) }
  pub fn u(&mut self, v: u64) { for k in 0..8 { self.0 = (self.0 ^ ((v >> (8 * k)) & 0xff)).wrapping_mul(0x100000001b3); } }
  pub fn f(&mut self, v: f64) { self.u(v.to_bits()) }
  pub fn c<T: Cx>(&mut self, z: &T) { let (x, y) = z.xy(); self.f(x); self.f(y); }
  pub fn io<T: Cx>(&mut self, x: &IOType<T>) {
    match x {
      IOType::Scalar(v) => { self.u(1); self.u(v.len() as u64); v.iter().for_each(|z| self.c(z)) }
      IOType::Matrix(m) => {
        self.u(2);
        for a in m { let s = a.get_shape(); self.u(s[0] as u64); self.u(s[1] as u64); a.get_body().iter().for_each(|z| self.c(z)); }
      }
    }
  }
  pub fn j(&self) -> J { J::A(vec![i((self.0 >> 34) as i64), i(((self.0 >> 4) & 0x3fffffff) as i64)]) }
}

/*-------------------------- calls on one network -------------------------*/
/// A read-only call, by number: every number always means the same call.
struct Reader<T: Cx> { net: CNetwork<T>, depth: usize, xs: Vec<IOType<T>>, data: Vec<Dataset<T, T>>, maps: bool }

fn copy<T: Cx>(x: &IOType<T>) -> IOType<T> {
  match x {
    IOType::Scalar(v) => IOType::Scalar(v.clone()),
    IOType::Matrix(m) => IOType::Matrix(m.iter().map(|a| Matrix::from_body(a.get_body().to_vec(), [a.get_shape()[0], a.get_shape()[1]])).collect()),
  }
}
impl<T: Cx> Reader<T> {
  fn train(&mut self, n: usize) {
    let d = &self.data[n % self.data.len()];
    let mut batch = Dataset::new();
    for k in 0..d.get_n_points() { let (x, t) = d.get_point(k); batch.add_point((copy(x), copy(t))); }
    // refused for a single layer
    let _ = self.net.gradient_opt(batch, &ComplexLossFunc::MeanSquare, T::c(0.125, 0.0));
  }
  /// name and digest of the result
  fn call(&self, kind: &str, n: usize, k: usize) -> (String, Option<Dig>) {
    let x = &self.xs[n % self.xs.len()];
    let d = &self.data[n % self.data.len()];
    let loss = |f: ComplexLossFunc| { let mut g = Dig::new(); g.f(T::wide(self.net.loss(d, &f).unwrap())); g };
    let k = k % (self.depth + 1);
    let name = format!("{} {} {}", kind, n, k);
    let r = guard(|| match kind {
      "forward" => { let mut g = Dig::new(); g.io(&self.net.forward(x).unwrap()); g }
      "acts" => { let mut g = Dig::new(); self.net.collect_acts(copy(x)).unwrap().iter().for_each(|a| g.io(a)); g }
      "tap" => {
        let mut g = Dig::new();
        match self.net.intercept(copy(x), k) {
          Ok((a, l)) => { g.io(&a); g.io(&l.foward(&a).unwrap()); let p = l.params_len(); g.u(p.0 as u64); g.u(p.1 as u64); }
          Err(e) => format!("{:?}", e).bytes().for_each(|b| g.u(b as u64)),
        }
        g
      }
      "ms" => loss(ComplexLossFunc::MeanSquare),
      "ce" => loss(ComplexLossFunc::NormCrossEntropy),
      "acc" if !self.maps => { let mut g = Dig::new(); g.f(T::wide(self.net.max_pred_test(d))); g }
      _ => {
        let mut g = Dig::new();
        g.u(self.net.params_len() as u64);
        g.u(matches!(self.net.get_input_shape().unwrap(), IOShape::Matrix(_)) as u64);
        g.u(matches!(self.net.get_output_shape().unwrap(), IOShape::Matrix(_)) as u64);
        g
      }
    });
    (name, r)
  }
}
const KINDS: [&str; 7] = ["forward", "acts", "tap", "ms", "ce", "acc", "shape"];

fn elements(x: &X) -> Vec<P> {
  match x { X::S(v) => v.clone(), X::M(m) => m.iter().flatten().flatten().cloned().collect() }
}
/// an input that has much in common with another one
fn twin(g: &mut Rng, x: &X, sh: Sh, other: X) -> X {
  let mut v = elements(x);
  let n = v.len();
  match g.int(0, 3) {
    0 => v.reverse(),
    1 => { let k = g.us(0, n - 1); v[k] = (-v[k].0, v[k].1); }
    2 => v[n - 1] = elements(&other)[n - 1],
    _ => for z in v.iter_mut() { *z = (z.1, z.0); },
  }
  shaped(v, sh)
}

fn reader<T: Cx>(g: &mut Rng, exact: bool, inputs: usize) -> Reader<T> {
  let u = if exact { 1.0 } else { FU };
  let mut g = Gen { g, style: if exact { Style::Any } else { Style::Fixed }, acts: if exact { &EXACT_ACTS } else { &ACTS }, max: 4 };
  let (net, sh) = loop {
    let n = g.g.us(1, 5);
    let (net, sh) = g.net(n);
    let m = if exact { 9 } else { FB as i64 };
    if bound(&net, &shaped(vec![(m, m); sh.len()], sh), u) < if exact { 1.0e6 } else { 30.0 * FB } { break (net, sh); }
  };
  let o = *shapes(&net, sh).last().unwrap();
  let mut xs: Vec<X> = (0..inputs).map(|_| g.input(sh)).collect();
  // inputs that are easily confused: the order, one sign or one element differs
  for k in (1..inputs.min(12)).step_by(2) { if g.g.flip() { xs[k] = twin(g.g, &xs[k - 1], sh, xs[k].clone()); } }
  let data = (0..2).map(|_| {
    let n = g.g.us(1, 4);
    let xs: Vec<X> = (0..n).map(|_| g.input(sh)).collect();
    let ts: Vec<X> = (0..n).map(|_| g.input(o)).collect();
    dataset(&xs, &ts, u)
  }).collect();
  Reader { depth: net.len(), net: network(&net, u), xs: xs.iter().map(|x| x.io(u)).collect(), data, maps: matches!(o, Sh::M(..)) }
}

fn dj(d: Option<Dig>) -> J { val(d, |d| d.j()) }
fn op(ver: usize, c: &str, d: Option<Dig>) -> J { obj! { ver: i(ver as i64), c: s(c), r: dj(d) } }

/// One history on a network, and every one of its calls alone on a network
/// that was only trained. A call "train" is a training step.
fn past<T: Cx>(ctx: &mut Ctx, calls: &[(String, usize, usize)], exact: bool) {
  let start = ctx.rng.0;
  let inputs = calls.iter().map(|c| c.1 + 1).max().unwrap_or(1).max(3);
  let fresh = || guard(|| reader::<T>(&mut Rng(start), exact, inputs));
  let mut r = match fresh() { Some(r) => r, None => return ctx.out.put(obj! { ev: s("broken") }) };
  for _ in 0..9 { ctx.rng.next(); }
  let mut ops = vec![];
  let mut trained: Vec<usize> = vec![];
  let mut seen: Vec<(usize, String)> = vec![];
  for (kind, n, k) in calls {
    if kind == "train" {
      if exact || trained.len() == inputs.min(12) { continue; }
      let d = guard(|| { r.train(*n); Dig::new() });
      trained.push(*n);
      ops.push(op(trained.len(), "train", d));
      continue;
    }
    let (c, d) = r.call(kind, *n, *k);
    ops.push(op(trained.len(), &c, d));
    if seen.contains(&(trained.len(), c.clone())) { continue; }
    seen.push((trained.len(), c));
    let (c, d) = match fresh() {
      Some(mut f) => match guard(|| { trained.iter().for_each(|n| f.train(*n)); f }) { Some(f) => f.call(kind, *n, *k), None => (String::from("train"), None) },
      None => return ctx.out.put(obj! { ev: s("broken") }),
    };
    ops.push(op(trained.len(), &c, d));
  }
  ctx.out.put(obj! { ev: s("past"), p: s(T::NAME), ops: J::A(ops) });
}

/// a network that is large enough for any split of the work
fn big<T: Cx>(g: &mut Rng) -> Reader<T> {
  let mut g = Gen { g, style: Style::Fixed, acts: &ACTS, max: 4 };
  let maps = g.g.flip();
  let (net, sh) = if maps {
    let c = g.conv(3, 4, 3, 3);
    (vec![c, g.reduce(4, 2, 2), L::Flatten { shape: [9, 9], n: 4 }, g.dense(324, 6)], Sh::M(3, 20, 20))
  } else {
    (vec![g.dense(80, 70), g.dense(70, 66), g.dense(66, 6)], Sh::S(80))
  };
  let xs: Vec<X> = (0..3).map(|_| g.input(sh)).collect();
  let data = (0..2).map(|_| {
    let xs: Vec<X> = (0..9).map(|_| g.input(sh)).collect();
    let ts: Vec<X> = (0..9).map(|_| g.input(Sh::S(6))).collect();
    dataset(&xs, &ts, FU)
  }).collect();
  Reader { depth: net.len(), net: network(&net, FU), xs: xs.iter().map(|x| x.io(FU)).collect(), data, maps: false }
}

/// free running threads on one network; every result belongs to a call
fn crowd<T: Cx + Sync + Send>(ctx: &mut Ctx, threads: usize, calls: usize, large: bool) {
  let r = match guard(|| if large { big::<T>(&mut ctx.rng) } else { reader::<T>(&mut ctx.rng, false, 3) }) { Some(r) => r, None => return ctx.out.put(obj! { ev: s("broken") }) };
  let plans: Vec<Vec<(&str, usize, usize)>> = (0..threads).map(|_| (0..calls).map(|_| (*ctx.rng.pick(&KINDS), ctx.rng.us(0, 2), ctx.rng.us(0, 5))).collect()).collect();
  let mut ops = vec![];
  // alone first
  for kind in KINDS { for n in 0..3 { for k in 0..=r.depth { let (c, d) = r.call(kind, n, k); ops.push(op(0, &c, d)); } } }
  let rr = &r;
  let got: Vec<Vec<(String, Option<Dig>)>> = std::thread::scope(|sc| {
    let hs: Vec<_> = plans.iter().map(|p| sc.spawn(move || p.iter().map(|(kind, n, k)| rr.call(kind, *n, *k)).collect::<Vec<_>>())).collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  for v in got { for (c, d) in v { ops.push(op(0, &c, d)); } }
  ctx.out.put(obj! { ev: s("past"), p: s(T::NAME), ops: J::A(ops) });
}

/*------------------------------- schedules -------------------------------*/
/// The block functions of pooling layers wait for their turn in a schedule,
/// so that two calls can be interleaved at chosen places.
struct Turns { order: Vec<usize>, at: usize, free: bool }
static TURNS: Mutex<Turns> = Mutex::new(Turns { order: vec![], at: 0, free: true });
static MOVED: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

fn turn() {
  let me = ME.with(|m| m.get());
  if me == 0 { return; }
  let mut t = TURNS.lock().unwrap();
  while !t.free && t.at < t.order.len() && t.order[t.at] != me {
    let (t2, late) = MOVED.wait_timeout(t, Duration::from_millis(300)).unwrap();
    t = t2;
    // somebody passes fewer places than planned: the rest runs freely
    if late.timed_out() { t.free = true; }
  }
  t.at += 1;
  drop(t);
  MOVED.notify_all();
}
/// a thread that is done gives away its remaining turns
fn finished() {
  let me = ME.with(|m| m.get());
  let mut t = TURNS.lock().unwrap();
  let at = t.at.min(t.order.len());
  let rest: Vec<usize> = t.order[at..].iter().cloned().filter(|w| *w != me).collect();
  t.order.truncate(at);
  t.order.extend(rest);
  drop(t);
  MOVED.notify_all();
}

/// pooling, convolution, pooling, flattening, dense; three places to wait
fn gated<T: Cx>(g: &mut Rng) -> Reader<T> {
  let pool = |n: usize| Reduce::init(n, [1, 2], Box::new(|b: &[T]| { turn(); b[0] + b[1] }), Matrix::from_body(vec![T::unit()], [1, 1])).wrap();
  let mut gen = Gen { g, style: Style::Parity, acts: &["RITTanh"], max: 3 };
  let conv = gen.conv(2, 1, 1, 1);
  let dense = gen.dense(1, 2);
  let mut n = CNetwork::new();
  n.add_input(pool(2)).unwrap();
  n.add(conv.build(0.25)).unwrap();
  n.add(Reduce::init(1, [1, 2], Box::new(|b: &[T]| { turn(); b[0] - b[1] }), Matrix::from_body(vec![T::unit()], [1, 1])).wrap()).unwrap();
  n.add(Flatten::init([1, 1], 1).wrap()).unwrap();
  n.add(dense.build(0.25)).unwrap();
  let xs: Vec<X> = (0..2).map(|_| gen.input(Sh::M(2, 1, 4))).collect();
  let data = (0..2).map(|_| dataset(&[gen.input(Sh::M(2, 1, 4))], &[gen.input(Sh::S(2))], 0.5)).collect();
  Reader { depth: 5, net: n, xs: xs.iter().map(|x| x.io(0.5)).collect(), data, maps: false }
}

fn schedule<T: Cx + Sync + Send>(ctx: &mut Ctx, order: &[usize], a: &str, b: &str) {
  let r = match guard(|| gated::<T>(&mut ctx.rng)) { Some(r) => r, None => return ctx.out.put(obj! { ev: s("broken") }) };
  let k = ctx.rng.us(0, 5);
  let mut ops = vec![];
  for (n, kind) in [(0, a), (1, b)] { let (c, d) = r.call(kind, n, k); ops.push(op(0, &c, d)); }
  *TURNS.lock().unwrap() = Turns { order: order.to_vec(), at: 0, free: false };
  let rr = &r;
  let got: Vec<(String, Option<Dig>)> = std::thread::scope(|sc| {
    let hs: Vec<_> = [(1usize, a), (2, b)].into_iter().map(|(me, kind)| sc.spawn(move || {
      ME.with(|m| m.set(me));
      let r = rr.call(kind, me - 1, k);
      finished();
      r
    })).collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  for (c, d) in got { ops.push(op(0, &c, d)); }
  for (n, kind) in [(0, a), (1, b)] { let (c, d) = r.call(kind, n, k); ops.push(op(0, &c, d)); }
  ctx.out.put(obj! { ev: s("past"), p: s(T::NAME), ops: J::A(ops) });
}

pub fn schedules(ctx: &mut Ctx) {
  for t in std::mem::take(&mut ctx.script) {
    let order: Vec<usize> = t.get("order").arr().iter().map(|x| x.us()).collect();
    let (a, b) = (t.get("a").str(), t.get("b").str());
    if ctx.rng.flip() { schedule::<Cf32>(ctx, &order, a, b) } else { schedule::<Cf64>(ctx, &order, a, b) }
  }
  for k in 0..ctx.reps(12, 100) {
    if k % 2 == 0 { crowd::<Cf32>(ctx, 8, 60, k % 4 == 0) } else { crowd::<Cf64>(ctx, 8, 60, k % 4 == 1) }
  }
}

pub fn reads(ctx: &mut Ctx) {
  for t in std::mem::take(&mut ctx.script) {
    let calls: Vec<(String, usize, usize)> = t.get("calls").arr().iter().map(|c| (c.get("kind").str().to_string(), c.get("n").us(), c.get("n").us())).collect();
    let exact = ctx.rng.flip() && calls.iter().all(|c| c.0 != "train");
    if ctx.rng.flip() { past::<Cf32>(ctx, &calls, exact) } else { past::<Cf64>(ctx, &calls, exact) }
  }
  for k in 0..ctx.reps(40, 800) {
    let n = ctx.rng.us(10, 60);
    let calls: Vec<(String, usize, usize)> = (0..n).map(|_| {
      let kind = if ctx.rng.int(0, 19) == 0 { "train" } else { *ctx.rng.pick(&KINDS) };
      (kind.to_string(), ctx.rng.us(0, 2), ctx.rng.us(0, 5))
    }).collect();
    if k % 2 == 0 { past::<Cf32>(ctx, &calls, k % 4 < 2) } else { past::<Cf64>(ctx, &calls, k % 4 < 2) }
  }
  // long histories
  for k in 0..ctx.reps(2, 10) {
    let calls: Vec<(String, usize, usize)> = (0..1100).map(|_| {
      let kind = if ctx.rng.int(0, 99) == 0 { "train" } else { *ctx.rng.pick(&KINDS) };
      (kind.to_string(), ctx.rng.us(0, if k % 2 == 0 { 11 } else { 399 }), ctx.rng.us(0, 5))
    }).collect();
    if k as u64 % 2 == ctx.seed as u64 % 2 { past::<Cf32>(ctx, &calls, k % 2 == 0) } else { past::<Cf64>(ctx, &calls, k % 2 == 0) }
  }
}

/*------------------------------- whole runs ------------------------------*/
/// The digests of a whole run along a pipeline of layers, training steps,
/// reads and evaluations: everything follows from the seed.
fn whole<T: Cx>(seed: u64, pipe: &[String], reads: bool) -> Vec<Dig> {
  let mut g = Rng(seed);
  let mut out = vec![];
  let mut wseed = ((g.next() as u128) << 64) | g.next() as u128;
  // some runs are large enough for any split of the work
  let size = g.int(0, 6);
  let (large, wide, many) = (size == 0, size == 1, size == 2);
  let names = ["Xavier", "XavierGlorotU", "HeInit", "XavierGlorotN", "Uniform"];
  // the normalising function is not defined at zero, which a dead layer sends on
  let a = |g: &mut Rng, first: bool| actfn(*g.pick(&["RITSigmoid", "RITTanh", "RITReLU", "Cardioid", "None", if first { "ModZ" } else { "ZReLU" }]));
  let mut net = CNetwork::<T>::new();
  let side = if large { 14 } else if wide { 24 } else { 6 };
  let n_in = if large { 70 } else if wide { *g.pick(&[300, 600, 1100]) } else { g.us(2, 5) };
  let n_out = g.us(2, 4);
  let maps = pipe[0] == "conv";
  let f = if large { 5 } else { g.us(1, 3) };
  let mut width = n_in;
  for (k, op) in pipe.iter().enumerate() {
    let m = method(*g.pick(&names), if large { 70 } else { 4 });
    let l = match op.as_str() {
      "conv" => ConvCLayer::init(IOShape::Matrix(2), f, [3, 3], a(&mut g, true), m, &mut wseed).unwrap().wrap(),
      "reduce" => Reduce::init(f, [2, 2], Box::new(|b: &[T]| b.iter().fold(T::default(), |a, x| a + *x) / T::usize_to_complex(b.len())),
        Matrix::from_body(vec![T::c(0.25, 0.0); 9], [3, 3])).wrap(),
      "flatten" => { width = f * (side - 2) / 2 * ((side - 2) / 2); Flatten::init([(side - 2) / 2, (side - 2) / 2], f).wrap() }
      "dense" => {
        let last = pipe.get(k + 1).map(|o| o != "dense").unwrap_or(true);
        let n = if last { n_out } else if large { 64 } else { g.us(2, 6) };
        let act = if last { ComplexActFunc::RITSigmoid } else { a(&mut g, k == 0) };
        let l = DenseCLayer::init(IOShape::Scalar(width), n, act, m, &mut wseed).unwrap().wrap();
        width = n;
        l
      }
      _ => break,
    };
    if k == 0 { net.add_input(l).unwrap() } else { net.add(l).unwrap() };
  }
  let point = |g: &mut Rng| -> (IOType<T>, IOType<T>) {
    let mut c = |n: usize| -> Vec<T> { (0..n).map(|_| T::c(g.int(-1000, 1000) as f64 / 1000.0, g.int(-1000, 1000) as f64 / 1000.0)).collect() };
    let x = if maps { IOType::Matrix((0..2).map(|_| Matrix::from_body(c(side * side), [side, side])).collect()) } else { IOType::Scalar(c(n_in)) };
    let k = g.us(0, n_out - 1);
    (x, IOType::Scalar((0..n_out).map(|j| if j == k { T::unit() } else { T::default() }).collect()))
  };
  let data = |g: &mut Rng, n: usize| { let mut d = Dataset::new(); for _ in 0..n { d.add_point(point(g)); } d };
  let mut d0 = Dig::new();
  d0.u(wseed as u64);
  d0.u((wseed >> 64) as u64);
  d0.u(net.params_len() as u64);
  // one weight from every method: the next run starts where this one did
  for name in names {
    let mut one = wseed;
    let l = DenseCLayer::<T>::init(IOShape::Scalar(1), 1, ComplexActFunc::None, method(name, 1), &mut one).unwrap();
    d0.io(&l.forward(&IOType::Scalar(vec![T::unit()])).unwrap());
    d0.u(one as u64);
  }
  out.push(d0);
  let n = if large { 40 } else if many { 270 } else { 7 };
  let test = data(&mut g, n);
  for op in pipe {
    match op.as_str() {
      "train" => {
        let b = if large { g.us(20, 70) } else if many { g.us(257, 300) } else { g.us(1, 6) };
        let batch = data(&mut g, b);
        let loss = if g.flip() { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy };
        let lr = g.int(1, 100) as f64 / 100.0;
        net.gradient_opt(batch, &loss, T::c(lr, 0.0)).unwrap();
      }
      "read" if reads => {
        let x = test.get_point(0).0;
        let _ = net.loss(&test, &ComplexLossFunc::NormCrossEntropy);
        let _ = net.max_pred_test(&test);
        let _ = net.forward(x);
        let _ = net.collect_acts(copy(x));
        let _ = net.intercept(copy(x), 1);
      }
      "eval" => {
        let mut d = Dig::new();
        for k in 0..test.get_n_points() { net.collect_acts(copy(test.get_point(k).0)).unwrap().iter().for_each(|a| d.io(a)); }
        d.f(T::wide(net.loss(&test, &ComplexLossFunc::MeanSquare).unwrap()));
        d.f(T::wide(net.loss(&test, &ComplexLossFunc::NormCrossEntropy).unwrap()));
        d.f(T::wide(net.max_pred_test(&test)));
        out.push(d);
      }
      _ => {}
    }
  }
  // the generated data sets belong to the run as well
  let (mut s1, mut s2) = (g.next() as u128, g.next() as u128);
  let (tr, te) = Dataset::<Cf32, Cf32>::signal_reconstruction(g.us(3, 20), 3, 0.25, &mut s1, &mut s2);
  let mut d = Dig::new();
  for set in [&tr, &te] { for k in 0..set.get_n_points() { let p = set.get_point(k); d.io(p.0); d.io(p.1); } }
  d.u(s1 as u64);
  d.u(s2 as u64);
  out.push(d);
  out
}
#[derive(Clone)]
struct Job { p: String, seed: u64, pipe: Vec<String> }
impl Job {
  fn run(&self, reads: bool) -> J {
    val(guard(|| if self.p == "f32" { whole::<Cf32>(self.seed, &self.pipe, reads) } else { whole::<Cf64>(self.seed, &self.pipe, reads) }),
      |v| arr(v.iter().map(|d| d.j())))
  }
  fn j(&self) -> J { obj! { p: s(&self.p), seed: s(&self.seed.to_string()), pipe: arr(self.pipe.iter().map(|o| s(o))) } }
  fn parse(j: &J) -> Job { Job { p: j.get("p").str().to_string(), seed: j.get("seed").str().parse().unwrap(), pipe: pipe(j) } }
}
fn pipe(j: &J) -> Vec<String> { j.get("pipe").arr().iter().map(|o| o.str().to_string()).collect() }

/// prints the digests of runs
pub fn rerun(ctx: &mut Ctx) {
  for t in std::mem::take(&mut ctx.script) { ctx.out.put(Job::parse(&t).run(false)); }
}

pub fn repro(ctx: &mut Ctx) {
  let mut jobs: Vec<Job> = vec![];
  for (k, t) in std::mem::take(&mut ctx.script).iter().enumerate() {
    jobs.push(Job { p: (if k % 2 == 0 { "f32" } else { "f64" }).into(), seed: ctx.rng.next(), pipe: pipe(t) });
  }
  for k in 0..ctx.reps(40, 400) {
    let mut pipe: Vec<&str> = ctx.rng.pick(&[vec!["dense", "dense"], vec!["dense"; 4], vec!["conv", "reduce", "flatten", "dense", "dense"]]).clone();
    for _ in 0..ctx.rng.us(2, 8) { pipe.push(*ctx.rng.pick(&["train", "train", "read", "eval"])); }
    pipe.push("eval");
    jobs.push(Job { p: (if k % 2 == 0 { "f32" } else { "f64" }).into(), seed: ctx.rng.next(), pipe: pipe.iter().map(|o| o.to_string()).collect() });
  }
  let first: Vec<J> = jobs.iter().map(|j| j.run(false)).collect();
  // another process
  let file = format!("{}/jobs.jsonl", ctx.scratch);
  let back = format!("{}/back.jsonl", ctx.scratch);
  std::fs::write(&file, jobs.iter().map(|j| format!("{}\n", j.j())).collect::<String>()).expect("scratch");
  let st = std::process::Command::new(std::env::current_exe().expect("exe"))
    .args(["rerun", "--script", &file, "--out", &back]).env("VH_PADDING", "x".repeat(1000)).status().expect("second process");
  if !st.success() { eprintln!("harness: the second process failed"); std::process::exit(3); }
  let other: Vec<J> = std::fs::read_to_string(&back).expect("second process").lines().map(parse).collect();
  // several threads at once, each doing all runs in its own order
  let all = &jobs;
  let threads: Vec<Vec<J>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..4).map(|t| sc.spawn(move || {
      let n = all.len();
      let mut order: Vec<usize> = (0..n).collect();
      order.rotate_left(t * n / 4);
      if t % 2 == 1 { order.reverse(); }
      let mut out = vec![i(0); n];
      for k in order { out[k] = all[k].run(t == 3); }
      out
    })).collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
  });
  // many threads in the same run at the same time
  let convs: Vec<usize> = (0..jobs.len()).filter(|k| jobs[*k].pipe[0] == "conv").collect();
  let mut bursts: Vec<(usize, J)> = vec![];
  for _ in 0..ctx.reps(10, 60) {
    let k = if ctx.rng.int(0, 3) == 0 { ctx.rng.us(0, jobs.len() - 1) } else { *ctx.rng.pick(&convs) };
    let gate = std::sync::Barrier::new(12);
    let gate = &gate;
    let got: Vec<J> = std::thread::scope(|sc| {
      let hs: Vec<_> = (0..12).map(|_| sc.spawn(move || { gate.wait(); all[k].run(false) })).collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    bursts.extend(got.into_iter().map(|r| (k, r)));
  }
  for (k, j) in jobs.iter().enumerate() {
    let mut runs = vec![obj! { how: s("first"), r: first[k].clone() }, obj! { how: s("again"), r: j.run(false) },
      obj! { how: s("with reads"), r: j.run(true) }, obj! { how: s("another process"), r: other[k].clone() }];
    for (t, v) in threads.iter().enumerate() { runs.push(obj! { how: s(&format!("thread {}", t + 1)), r: v[k].clone() }); }
    for (_, r) in bursts.iter().filter(|b| b.0 == k) { runs.push(obj! { how: s("twelve threads"), r: r.clone() }); }
    ctx.out.put(obj! { ev: s("repro"), job: j.j(), runs: J::A(runs) });
  }
}
