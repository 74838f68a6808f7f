//! Networks: inference, training, batch measures, assembly (C03, C01, C11, C05).

use crate::act::ACTS;
use crate::init::{method, shape};
use crate::json::*;
use crate::layers::{probe, EXACT_ACTS};
use crate::net::*;
use crate::num::*;
use crate::run::*;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::opt::ComplexLossFunc;

const EXACT_MAX: f64 = 4.0e6;
const FIX_MAX: f64 = 30.0 * FB;

/// a network of n layers with an input, all numbers within range
fn some_net(g: &mut Gen, lo: usize, hi: usize) -> (Vec<L>, Sh) {
  loop {
    let n = g.g.us(lo, hi);
    let (net, sh) = g.net(n);
    let x = big_input(g, sh);
    let (u, max) = match g.style { Style::Fixed | Style::Gentle => (FU, FIX_MAX), _ => (1.0, EXACT_MAX) };
    if bound(&net, &x, u) < max { return (net, sh); }
  }
}
/// an input with the largest possible entries
fn big_input(g: &Gen, sh: Sh) -> X {
  let m = match g.style { Style::Fixed | Style::Gentle => FB as i64, Style::Parity => 3, Style::Units => 2, Style::Any => 9 };
  shaped(vec![(m, m); sh.len()], sh)
}

/// a long network with b inputs; all numbers of a step with targets up to t within range
fn deep(g: &mut Rng, b: usize, t: f64, least: usize) -> (Vec<L>, Vec<X>) {
  let mut g = Gen { g, style: Style::Units, acts: &["None"], max: 3 };
  loop {
    let n = g.g.us(least, if least > 14 { least + 10 } else { 14 });
    // long pooling and convolution parts need large maps
    let first = if least > 14 { if g.g.flip() { Sh::S(g.g.us(1, 2)) } else { Sh::M(1, g.g.us(1, 4), g.g.us(1, 4)) } }
      else if g.g.flip() { g.shape() } else { Sh::M(g.g.us(1, 2), g.g.us(5, 8), g.g.us(5, 8)) };
    let net = g.net_from(n, first);
    let x = big_input(&g, first);
    let size: usize = shapes(&net, first).iter().map(|s| s.len()).sum();
    if size > 400 || bound(&net, &x, 1.0) > EXACT_MAX { continue; }
    if t > 0.0 && (!net.iter().any(|l| l.has_params()) || bound_back(&net, &x, t, 1.0) * b as f64 > EXACT_MAX) { continue; }
    let xs = (0..b).map(|_| g.input(first)).collect();
    return (net, xs);
  }
}

/*------------------------------- inference -------------------------------*/
fn infer<T: Cx>(ctx: &mut Ctx, net: &[L], x: &X, u: f64) {
  let e = enc_for::<T>(u);
  // the exact networks scale with their inputs and biases: any magnitude, brought back before recording
  let ex = if u == 1.0 { ctx.rng.expo::<T>(60) } else { 0 };
  let n = guard(|| network_at::<T>(net, u, sc(u, ex))).unwrap_or(CNetwork::new());
  let io = || x.io::<T>(sc(u, ex));
  let encio = |e: Enc<T>, v: &IOType<T>| encio(e, &scio(v, -ex));
  let mut order: Vec<usize> = (0..net.len()).collect();
  if ctx.rng.flip() { order.reverse(); }
  let taps = arr(order.iter().map(|k| obj! { k: i(*k + 1),
    r: res(guard(|| n.intercept(io(), *k).map(|(a, l)| { let y = l.foward(&a).unwrap(); (a, y) })),
      |(a, y)| obj! { x: encio(e, &a), y: encio(e, &y) }) }));
  let far = [net.len(), net.len() + 1, net.len() + ctx.rng.us(2, 1000), usize::MAX];
  let beyond = arr(far.iter().map(|k| res(guard(|| n.intercept(io(), *k).map(|_| ())), |_| i(0))));
  ctx.out.put(obj! { ev: s("infer"), mode: mode(u), p: s(T::NAME), net: netj(net), x: x.json(),
    pred: res(guard(|| n.forward(&io())), |v| encio(e, &v)),
    acts: res(guard(|| n.collect_acts(io())), |v| arr(v.iter().map(|a| encio(e, a)))),
    taps: taps, beyond: beyond });
}
fn empty<T: Cx>(ctx: &mut Ctx) {
  let n = CNetwork::<T>::new();
  let x = if ctx.rng.flip() { X::S(vec![(1, 2)]) } else { X::M(vec![vec![vec![(1, 2)]]]) };
  let io = || x.io::<T>(1.0);
  ctx.out.put(obj! { ev: s("empty"), mode: s("e"), p: s(T::NAME),
    rs: arr([res(guard(|| n.forward(&io())), |_| i(0)), res(guard(|| n.collect_acts(io())), |_| i(0)),
      res(guard(|| n.intercept(io(), 0).map(|_| ())), |_| i(0)), res(guard(|| n.intercept(io(), 3).map(|_| ())), |_| i(0))]) });
}

pub fn inference(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let x = X::parse(t.get("x"));
    let net = parse_net(t.get("net"), &x);
    if ctx.rng.flip() { infer::<Cf32>(ctx, &net, &x, 1.0) } else { infer::<Cf64>(ctx, &net, &x, 1.0) }
  }
  for k in 0..ctx.reps(120, 2500) {
    let fixed = k % 3 == 2;
    let (net, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: if fixed { Style::Fixed } else { Style::Any },
        acts: if fixed { &ACTS } else { &EXACT_ACTS }, max: 4 };
      let (net, sh) = some_net(&mut g, 1, if fixed { 4 } else { 7 });
      let x = g.input(sh);
      (net, x)
    };
    let u = if fixed { FU } else { 1.0 };
    if ctx.rng.flip() { infer::<Cf32>(ctx, &net, &x, u) } else { infer::<Cf64>(ctx, &net, &x, u) }
  }
  // wide layers of odd sizes
  for k in 0..ctx.reps(4, 40) {
    let (net, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Any, acts: &EXACT_ACTS, max: 3 };
      let n = 4 * g.g.us(16, 70) + 1 + k % 3;
      (vec![g.dense(n, 3), g.dense(3, 2)], g.input(Sh::S(n)))
    };
    if ctx.rng.flip() { infer::<Cf32>(ctx, &net, &x, 1.0) } else { infer::<Cf64>(ctx, &net, &x, 1.0) }
  }
  for k in 0..ctx.reps(27, 400) {
    let (net, x) = deep(&mut ctx.rng, 1, 0.0, match k % 27 { 8 => 33, 17 | 26 => 20, _ => 7 });
    if ctx.rng.flip() { infer::<Cf32>(ctx, &net, &x[0], 1.0) } else { infer::<Cf64>(ctx, &net, &x[0], 1.0) }
  }
  for _ in 0..3 {
    empty::<Cf32>(ctx);
    empty::<Cf64>(ctx);
  }
}

/*-------------------------------- training -------------------------------*/
fn lossf(name: &str) -> ComplexLossFunc {
  if name == "ms" { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy }
}
fn describe<T: Cx>(n: &CNetwork<T>) -> J {
  val(guard(|| (n.params_len(), n.get_input_shape().ok(), n.get_output_shape().ok())),
    |(p, a, b)| obj! { params: i(p), ins: a.map_or(J::A(vec![]), |x| shape(&x)), outs: b.map_or(J::A(vec![]), |x| shape(&x)) })
}
/// every layer of the network, taken out and probed
fn layers_after<T: Cx>(n: &CNetwork<T>, net: &[L], x: &X, e: i64, tiny: i64) -> J {
  let sh = shapes(net, x.shape());
  arr((0..net.len()).map(|k| {
    let out = guard(|| n.intercept(x.io(1.0), k).map(|(_, l)| probe(l, &net[k], sh[k], e, e, tiny)).unwrap());
    val(out, |p| p)
  }))
}

/// one exact step: learning rate = rate times the number of points
fn train<T: Cx>(ctx: &mut Ctx, net: &[L], xs: &[X], ts: &[X], rate: P) {
  // a linear network without biases learns the same from points of any magnitude s, at a rate over s squared;
  // its biases then appear over s, and so do the inputs of the probes
  let e = if linear(net) { ctx.rng.expo::<T>(20) } else { 0 };
  let mut n = guard(|| network::<T>(net, 1.0)).unwrap_or(CNetwork::new());
  let before = describe(&n);
  let b = xs.len() as i64;
  // or steps far smaller than the parameters they change
  let tiny = if linear(net) && T::NAME == "f64" && ctx.rng.flip() { 20 } else { 0 };
  let lr = T::c(sc((rate.0 * b) as f64, -2 * e - tiny), sc((rate.1 * b) as f64, -2 * e - tiny));
  let d = dataset::<T>(xs, ts, sc(1.0, e));
  let r = res(guard(|| n.gradient_opt(d, &ComplexLossFunc::MeanSquare, lr)), |_| i(0));
  ctx.out.put(obj! { ev: s("train"), mode: s("e"), p: s(T::NAME), net: netj(net), xs: xsj(xs), ts: xsj(ts), rate: arr([i(rate.0), i(rate.1)]), r: r,
    before: before, after: describe(&n), layers: layers_after(&n, net, &xs[0], -e, tiny) });
}
fn linear(net: &[L]) -> bool {
  net.iter().all(|l| match l { L::Dense { b, act, .. } | L::Conv { b, act, .. } => act == "None" && b.iter().all(|z| *z == (0, 0)), _ => true })
}
fn unbias(net: &mut [L]) {
  for l in net { if let L::Dense { b, .. } | L::Conv { b, .. } = l { b.iter_mut().for_each(|z| *z = (0, 0)); } }
}

/// the prediction of a network over the integers, unless a part exceeds the given size
fn predicted(net: &[L], x: &X, most: f64) -> Option<X> {
  let part = |v: f64| if v.fract() == 0.0 && v.abs() <= most { Some(v as i64) } else { None };
  let num = |z: &Cf64| { let (x, y) = z.xy(); Some((part(x)?, part(y)?)) };
  match guard(|| network::<Cf64>(net, 1.0).forward(&x.io(1.0)))?.ok()? {
    IOType::Scalar(v) => Some(X::S(v.iter().map(num).collect::<Option<Vec<P>>>()?)),
    IOType::Matrix(m) => Some(X::M(m.iter().map(|a| a.rows_as_iter().map(|r| r.iter().map(num).collect::<Option<Vec<P>>>()).collect::<Option<M>>()).collect::<Option<Vec<M>>>()?)),
  }
}
/// adds k times the elements of e
fn plus(x: &X, e: &X, k: i64) -> X {
  let add = |a: &P, b: &P| (a.0 + k * b.0, a.1 + k * b.1);
  match (x, e) {
    (X::S(a), X::S(b)) => X::S(a.iter().zip(b).map(|(a, b)| add(a, b)).collect()),
    (X::M(a), X::M(b)) => X::M(a.iter().zip(b).map(|(a, b)| a.iter().zip(b).map(|(a, b)| a.iter().zip(b).map(|(a, b)| add(a, b)).collect()).collect()).collect()),
    _ => x.clone(),
  }
}

struct Batch { xs: Vec<X>, ts: Vec<X>, lr: P, loss: &'static str }
/// a history of steps with any activations, in fixed point
fn history<T: Cx>(ctx: &mut Ctx, net: &[L], batches: &[Batch], probes: &[X]) {
  let mut n = guard(|| network::<T>(net, FU)).unwrap_or(CNetwork::new());
  let before = describe(&n);
  let steps: Vec<J> = batches.iter().enumerate().map(|(k, b)| {
    let d = dataset::<T>(&b.xs, &b.ts, FU);
    let r = res(guard(|| n.gradient_opt(d, &lossf(b.loss), T::c(b.lr.0 as f64 * FU, b.lr.1 as f64 * FU))), |_| i(0));
    // long histories are looked at now and then
    let look = batches.len() < 10 || k % 8 == 7 || k + 1 == batches.len();
    let outs = arr(probes.iter().filter(|_| look).map(|x| res(guard(|| n.collect_acts(x.io(FU))), |v| arr(v.iter().map(|a| encio(fxc, a))))));
    obj! { xs: xsj(&b.xs), ts: xsj(&b.ts), lr: arr([i(b.lr.0), i(b.lr.1)]), loss: s(b.loss), r: r, outs: outs }
  }).collect();
  ctx.out.put(obj! { ev: s("history"), mode: s("f"), p: s(T::NAME), net: netj(net), probes: xsj(probes), steps: J::A(steps),
    before: before, after: describe(&n) });
}

fn small<T: Cx>(ctx: &mut Ctx) {
  let (net, sh, xs, ts) = {
    let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: &EXACT_ACTS, max: 3 };
    let (net, sh) = some_net(&mut g, 1, 1);
    let xs: Vec<X> = (0..2).map(|_| g.input(sh)).collect();
    let o = net[0].out(sh);
    let ts: Vec<X> = (0..2).map(|_| g.input(o)).collect();
    (net, sh, xs, ts)
  };
  let _ = sh;
  let mut n = guard(|| network::<T>(&net, 1.0)).unwrap_or(CNetwork::new());
  let before = describe(&n);
  let d = dataset::<T>(&xs, &ts, 1.0);
  let r = res(guard(|| n.gradient_opt(d, &ComplexLossFunc::MeanSquare, T::c(2.0, 0.0))), |_| i(0));
  let mut none = CNetwork::<T>::new();
  let d = dataset::<T>(&xs, &ts, 1.0);
  let r0 = res(guard(|| none.gradient_opt(d, &ComplexLossFunc::MeanSquare, T::c(2.0, 0.0))), |_| i(0));
  ctx.out.put(obj! { ev: s("small"), mode: s("e"), p: s(T::NAME), net: netj(&net), r: r, r0: r0, before: before, after: describe(&n),
    left: i(none.params_len()), layers: layers_after(&n, &net, &xs[0], 0, 0) });
}

fn one_hot(n: usize, k: usize, one: i64) -> Vec<P> { (0..n).map(|j| (if j == k { one } else { 0 }, 0)).collect() }

pub fn training(ctx: &mut Ctx) {
  // the histories come first: they take longest to check
  for k in 0..ctx.reps(90, 900) {
    let steep = k % 4 > 1;
    let (net, batches, probes) = {
      let mut g = Gen { g: &mut ctx.rng, style: if steep { Style::Gentle } else { Style::Fixed },
        acts: if steep { &["ModZ", "Cardioid", "ModZ", "Cardioid", "None", "RITTanh"] } else { &ACTS }, max: 3 };
      loop {
        let (net, sh) = some_net(&mut g, 2, 4);
        let params: usize = net.iter().map(|l| l.params()).sum();
        let o = *shapes(&net, sh).last().unwrap();
        let work: usize = shapes(&net, sh).iter().map(|s| s.len()).sum();
        if params == 0 || params > 40 || work > 60 { continue; }
        let ce = k % 2 == 0;
        let m = bound(&net, &big_input(&g, sh), FU) * FU;
        // softmax works with squared moduli
        if ce && (m > 5.8 || o.len() < 2) { continue; }
        let most = bound_back(&net, &big_input(&g, sh), 2.0 * FB, FU);
        if most > if steep { 2.0 * FIX_MAX } else { FIX_MAX } { continue; }
        // steps that keep the parameters in range
        let rates: Vec<i64> = (16..=22).map(|e| 1i64 << e).filter(|r| *r as f64 * most / FB <= FB).collect();
        let rate = &rates[rates.len() - 2..];
        let probes: Vec<X> = (0..2).map(|_| g.input(sh)).collect();
        let steps = g.g.us(1, 3);
        let batches: Vec<Batch> = (0..steps).map(|_| {
          let b = g.g.us(1, 3);
          Batch {
            xs: (0..b).map(|_| g.input(sh)).collect(),
            ts: (0..b).map(|_| if ce { let k = g.g.us(0, o.len() - 1); shaped(one_hot(o.len(), k, FB as i64), o) } else { g.input(o) }).collect(),
            lr: (*g.g.pick(rate), *g.g.pick(&[0, 0, 1, -1]) * rate[0]),
            loss: if ce { "ce" } else { "ms" },
          }
        }).collect();
        break (net, batches, probes);
      }
    };
    if ctx.rng.flip() { history::<Cf32>(ctx, &net, &batches, &probes) } else { history::<Cf64>(ctx, &net, &batches, &probes) }
  }
  // many small steps
  for k in 0..ctx.reps(4, 20) {
    let (net, batches, probes) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Fixed, acts: &["None", "RITTanh", "RITSigmoid"], max: 2 };
      loop {
        let (net, sh) = some_net(&mut g, 2, 3);
        let params: usize = net.iter().map(|l| l.params()).sum();
        let o = *shapes(&net, sh).last().unwrap();
        if params == 0 || params > 14 || shapes(&net, sh).iter().map(|s| s.len()).sum::<usize>() > 16 { continue; }
        let most = bound_back(&net, &big_input(&g, sh), 2.0 * FB, FU);
        if most > FIX_MAX / 4.0 { continue; }
        let probes = vec![g.input(sh)];
        let data: Vec<(X, X)> = (0..3).map(|_| (g.input(sh), g.input(o))).collect();
        let batches: Vec<Batch> = (0..[20, 40][k % 2]).map(|_| {
          let at = g.g.us(0, 2);
          Batch { xs: vec![data[at].0.clone()], ts: vec![data[at].1.clone()], lr: (1 << 20, 0), loss: "ms" }
        }).collect();
        break (net, batches, probes);
      }
    };
    if ctx.rng.flip() { history::<Cf32>(ctx, &net, &batches, &probes) } else { history::<Cf64>(ctx, &net, &batches, &probes) }
  }
  // the model's networks: one point, one step
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let x = X::parse(t.get("x"));
    let net = parse_net(t.get("net"), &x);
    let o = *shapes(&net, x.shape()).last().unwrap();
    let t: Vec<P> = t.get("t").arr().iter().map(|z| (z.arr()[0].int(), z.arr()[1].int())).collect();
    let t = shaped(t, o);
    if ctx.rng.int(0, 3) > 0 { continue; }
    if ctx.rng.flip() { train::<Cf32>(ctx, &net, &[x], &[t], (1, 0)) } else { train::<Cf64>(ctx, &net, &[x], &[t], (1, 0)) }
  }
  for _ in 0..ctx.reps(90, 1500) {
    let (net, xs, ts, rate) = {
      let flat = ctx.rng.int(0, 4) == 0;
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: if flat { &["None"] } else { &EXACT_ACTS }, max: 4 };
      loop {
        let (mut net, sh) = some_net(&mut g, 2, 6);
        if !net.iter().any(|l| l.has_params()) { continue; }
        if flat { unbias(&mut net); }
        let o = *shapes(&net, sh).last().unwrap();
        let b = *g.g.pick(&[1, 1, 2, 3, 4, 5, 7]);
        let mut xs: Vec<X> = (0..b).map(|_| g.input(sh)).collect();
        let mut ts: Vec<X> = (0..b).map(|_| g.input(o)).collect();
        // repeated points and a point far from the others
        if b > 2 && g.g.flip() { xs[1] = xs[0].clone(); ts[1] = ts[0].clone(); }
        let rate = (2 * g.g.int(-1, 2), if g.g.int(0, 2) == 0 { 2 * g.g.int(-1, 1) } else { 0 });
        if bound_back(&net, &big_input(&g, sh), 6.0, 1.0) * (b as f64) * ((rate.0.abs() + rate.1.abs()).max(1) as f64) > EXACT_MAX { continue; }
        // points that are met exactly, and errors that cancel each other
        if g.g.int(0, 3) == 0 {
          let ps: Option<Vec<X>> = xs.iter().map(|x| predicted(&net, x, 1000.0)).collect();
          if let Some(ps) = ps {
            match g.g.int(0, 3) {
              0 => ts = ps,
              1 => ts[0] = ps[0].clone(),
              _ if b > 1 => {
                let e = g.input(o);
                ts = ps.iter().enumerate().map(|(k, p)| match k { 0 => plus(p, &e, 1), 1 => plus(p, &e, -1), _ => p.clone() }).collect();
              }
              _ => ts[b - 1] = ps[b - 1].clone(),
            }
          }
        }
        break (net, xs, ts, rate);
      }
    };
    if ctx.rng.flip() { train::<Cf32>(ctx, &net, &xs, &ts, rate) } else { train::<Cf64>(ctx, &net, &xs, &ts, rate) }
  }
  // errors that cancel: the biases stay, the weights do not
  for _ in 0..ctx.reps(4, 40) {
    let (net, xs, ts) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: &["None"], max: 3 };
      loop {
        let (n, m) = (g.g.us(1, 3), g.g.us(1, 3));
        let net = vec![g.dense(n, m), g.dense(m, 2)];
        let xs: Vec<X> = (0..2).map(|_| g.input(Sh::S(n))).collect();
        let e = g.input(Sh::S(2));
        if bound_back(&net, &big_input(&g, Sh::S(n)), 6.0, 1.0) * 4.0 > EXACT_MAX { continue; }
        let ps: Option<Vec<X>> = xs.iter().map(|x| predicted(&net, x, 1000.0)).collect();
        if let Some(ps) = ps { break (net, xs, vec![plus(&ps[0], &e, 1), plus(&ps[1], &e, -1)]); }
      }
    };
    train::<Cf32>(ctx, &net, &xs, &ts, (2, 0));
    train::<Cf64>(ctx, &net, &xs, &ts, (2, 0));
  }
  for k in 0..ctx.reps(14, 200) {
    let b = if k % 7 == 6 { 1 + k / 7 % 2 } else { ctx.rng.us(1, 2) };
    let (mut net, xs) = deep(&mut ctx.rng, b, 4.0, match k % 14 { 6 => 33, 13 => 20, _ => 7 });
    if ctx.rng.flip() { unbias(&mut net); }
    let o = *shapes(&net, xs[0].shape()).last().unwrap();
    let mut g = Gen { g: &mut ctx.rng, style: Style::Units, acts: &["None"], max: 3 };
    let ts: Vec<X> = (0..b).map(|_| g.input(o)).collect();
    if ctx.rng.flip() { train::<Cf32>(ctx, &net, &xs, &ts, (1, 0)) } else { train::<Cf64>(ctx, &net, &xs, &ts, (1, 0)) }
  }
  // large batches
  for k in 0..ctx.reps(8, 100) {
    let (net, xs, ts) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: &EXACT_ACTS, max: 2 };
      loop {
        let n = g.g.us(2, 3);
        let first = if g.g.int(0, 2) > 0 { Sh::S(g.g.us(1, 2)) } else { Sh::M(1, 1, 2) };
        let net = g.net_from(n, first);
        if !net.iter().any(|l| l.has_params()) || net.iter().map(|l| l.params()).sum::<usize>() > 12 { continue; }
        let b = if k == 0 { 1050 } else { *g.g.pick(&[33, 64, 65, 100, 128, 129, 200, 255, 257, 300, 400, 520]) };
        if bound_back(&net, &big_input(&g, first), 6.0, 1.0) * (b as f64) * 2.0 > EXACT_MAX { continue; }
        let o = *shapes(&net, first).last().unwrap();
        let xs: Vec<X> = (0..b).map(|_| g.input(first)).collect();
        let ts: Vec<X> = (0..b).map(|_| g.input(o)).collect();
        break (net, xs, ts);
      }
    };
    if ctx.rng.flip() { train::<Cf32>(ctx, &net, &xs, &ts, (2, 0)) } else { train::<Cf64>(ctx, &net, &xs, &ts, (2, 0)) }
  }
  // wide layers
  for k in 0..ctx.reps(2, 20) {
    let (net, xs, ts) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Units, acts: &["None"], max: 3 };
      let n = g.g.us(257, 300);
      let net = if k % 2 == 0 { vec![g.dense(2, n), g.dense(n, 2)] } else { vec![g.dense(2, 2), g.dense(2, n)] };
      let o = *shapes(&net, Sh::S(2)).last().unwrap();
      (net, vec![g.input(Sh::S(2))], vec![g.input(o)])
    };
    if ctx.rng.flip() { train::<Cf32>(ctx, &net, &xs, &ts, (1, 0)) } else { train::<Cf64>(ctx, &net, &xs, &ts, (1, 0)) }
  }
  for _ in 0..ctx.reps(6, 60) {
    small::<Cf32>(ctx);
    small::<Cf64>(ctx);
  }
}

/*------------------------------ batch measures ---------------------------*/
fn measure<T: Cx>(ctx: &mut Ctx, net: &[L], xs: &[X], ts: &[X], maps: bool) {
  let n = guard(|| network::<T>(net, 1.0)).unwrap_or(CNetwork::new());
  let d = dataset::<T>(xs, ts, 1.0);
  let b = xs.len() as f64;
  let len = match &ts[0] { X::S(v) => v.len(), x => x.shape().len() } as f64;
  let near = |v: f64| if v.is_finite() && v.abs() < LIMIT { i(v.round() as i64) } else { i(SENTINEL) };
  // the squared error and the accuracy also with everything larger or smaller
  let e = ctx.rng.expo::<T>(25);
  let (ne, de) = (guard(|| network_at::<T>(net, 1.0, sc(1.0, e))).unwrap_or(CNetwork::new()), dataset::<T>(xs, ts, sc(1.0, e)));
  let ms = res(guard(|| ne.loss(&de, &ComplexLossFunc::MeanSquare)), |v| near(sc(T::wide(v), -2 * e) * len * b * 64.0));
  let ce = res(guard(|| n.loss(&d, &ComplexLossFunc::NormCrossEntropy)), |v| near(T::wide(v) * b * 1024.0));
  let acc = if maps { obj! { t: s("none") } } else { val(guard(|| ne.max_pred_test(&de)), |v| near(T::wide(v) * b * 4096.0)) };
  ctx.out.put(obj! { ev: s("measure"), mode: s("e"), p: s(T::NAME), net: netj(net), xs: xsj(xs), ts: xsj(ts), ms: ms, ce: ce, acc: acc });
}

pub fn measures(ctx: &mut Ctx) {
  // pairs of target and prediction of the model, in batches, through a layer that doubles
  let script = std::mem::take(&mut ctx.script);
  let mut by: Vec<Vec<(Vec<P>, Vec<P>)>> = vec![vec![]; 4];
  for t in &script {
    let tv: Vec<P> = t.get("t").arr().iter().map(|v| (v.int(), 0)).collect();
    let pv: Vec<P> = t.get("p").arr().iter().map(|v| (v.arr()[0].int(), v.arr()[1].int())).collect();
    by[tv.len()].push((tv, pv));
  }
  for n in 1..by.len() {
    let all = std::mem::take(&mut by[n]);
    let w: M = (0..n).map(|a| (0..n).map(|b| if a == b { (2, 0) } else { (0, 0) }).collect()).collect();
    let net = vec![L::Dense { w, b: vec![(0, 0); n], act: "None".into() }];
    let mut at = 0;
    while at < all.len() {
      let b = ctx.rng.us(1, 9).min(all.len() - at);
      let xs: Vec<X> = all[at..at + b].iter().map(|e| X::S(e.1.clone())).collect();
      let ts: Vec<X> = all[at..at + b].iter().map(|e| X::S(e.0.clone())).collect();
      if ctx.rng.flip() { measure::<Cf32>(ctx, &net, &xs, &ts, false) } else { measure::<Cf64>(ctx, &net, &xs, &ts, false) }
      at += b;
    }
  }
  for k in 0..ctx.reps(120, 2500) {
    let big = k % 20 == 0;
    let huge = k % 40 == 1;
    let (net, xs, ts, maps) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: &EXACT_ACTS, max: if huge { 2 } else { 4 } };
      loop {
        let (net, sh) = some_net(&mut g, 1, if huge { 2 } else { 3 });
        if bound(&net, &big_input(&g, sh), 1.0) > if k == 1 { 8.0 } else if huge { 18.0 } else { 60.0 } { continue; }
        let o = *shapes(&net, sh).last().unwrap();
        if huge && (sh.len() > 4 || o.len() > 4) { continue; }
        // the accuracy is defined for scalars
        if k == 1 && matches!(o, Sh::M(..)) { continue; }
        let b = if k == 1 { 1050 } else if huge { *g.g.pick(&[100, 129, 200, 255, 257, 300, 400, 520]) } else if big { g.g.us(20, 60) } else { g.g.us(1, 9) };
        let xs: Vec<X> = (0..b).map(|_| g.input(sh)).collect();
        let ts: Vec<X> = (0..b).map(|_| if g.g.flip() {
          let k = g.g.us(0, o.len() - 1);
          shaped(one_hot(o.len(), k, 1), o)
        } else {
          // ties between moduli
          let v = (0..o.len()).map(|_| *g.g.pick(&[(0, 0), (1, 0), (0, 1), (-1, 0), (2, 1), (-1, 2), (1, -2)])).collect();
          shaped(v, o)
        }).collect();
        // some points are met exactly
        let ts: Vec<X> = if b > 60 || g.g.flip() { ts } else {
          xs.iter().zip(ts).map(|(x, t)| match predicted(&net, x, 3.0) { Some(p) if g.g.int(0, 2) == 0 => p, _ => t }).collect()
        };
        break (net, xs, ts, matches!(o, Sh::M(..)));
      }
    };
    if ctx.rng.flip() { measure::<Cf32>(ctx, &net, &xs, &ts, maps) } else { measure::<Cf64>(ctx, &net, &xs, &ts, maps) }
    // the same points in another order
    let mut order: Vec<usize> = (0..xs.len()).collect();
    for a in (1..order.len()).rev() { let b = ctx.rng.us(0, a); order.swap(a, b); }
    let (xs, ts): (Vec<X>, Vec<X>) = order.iter().map(|o| (xs[*o].clone(), ts[*o].clone())).unzip();
    if ctx.rng.flip() { measure::<Cf32>(ctx, &net, &xs, &ts, maps) } else { measure::<Cf64>(ctx, &net, &xs, &ts, maps) }
  }
}

/*-------------------------------- assembly -------------------------------*/
/// a layer that may have no units or filters
#[derive(Clone)]
enum Cand { Full(L), NoUnits(usize), NoFilters(usize) }
impl Cand {
  fn json(&self) -> J {
    match self {
      Cand::Full(l) => l.json(),
      Cand::NoUnits(n) => obj! { kind: s("nothing"), ins: J::A(vec![s("s"), i(*n)]) },
      Cand::NoFilters(n) => obj! { kind: s("nothing"), ins: J::A(vec![s("m"), i(*n)]) },
    }
  }
  fn build<T: Cx>(&self) -> CLayer<T> {
    match self {
      Cand::Full(l) => l.build(1.0),
      Cand::NoUnits(n) => DenseCLayer::init(IOShape::Scalar(*n), 0, ComplexActFunc::None, method("Uniform", 1), &mut 7).unwrap().wrap(),
      Cand::NoFilters(n) => ConvCLayer::init(IOShape::Matrix(*n), 0, [1, 1], ComplexActFunc::None, method("Uniform", 1), &mut 7).unwrap().wrap(),
    }
  }
}

fn assemble<T: Cx>(ctx: &mut Ctx, ops: &[(bool, Cand)], with: Option<X>) {
  let mut n = CNetwork::<T>::new();
  // what the specification would have accepted, to choose an input at the end
  let look = |n: &CNetwork<T>| obj! { params: val(guard(|| n.params_len()), |v| i(v)),
    ins: res(guard(|| n.get_input_shape()), |x| shape(&x)), outs: res(guard(|| n.get_output_shape()), |x| shape(&x)) };
  let mut steps = vec![obj! { op: s("new"), l: obj! { kind: s("nothing"), ins: J::A(vec![s("s"), i(0)]) }, r: obj! { t: s("ok"), v: i(0) }, see: look(&n) }];
  for (first, c) in ops {
    let r = res(guard(|| { let l = c.build::<T>(); if *first { n.add_input(l) } else { n.add(l) } }), |_| i(0));
    steps.push(obj! { op: s(if *first { "add_input" } else { "add" }), l: c.json(), r: r, see: look(&n) });
  }
  // predictions on scalars and maps show which layers are inside (one of the two fits)
  let xs = [X::S(vec![(1, -2), (3, 1), (-1, 1)]), X::S(vec![(1, -2), (3, 1)]), X::S(vec![(2, 3)]),
    X::M(vec![vec![vec![(1, 2)]]]), X::M(vec![vec![vec![(1, 2)]], vec![vec![(-3, 1)]]])];
  let xs = match with { Some(x) => vec![x], None => xs.to_vec() };
  let preds = arr(xs.iter().map(|x| obj! { x: x.json(), r: res(guard(|| n.forward(&x.io(1.0))), |v| encio(exc, &v)) }));
  ctx.out.put(obj! { ev: s("assembly"), p: s(T::NAME), ops: J::A(steps), preds: preds });
}

/// layers by name; maps are 1 x 1 throughout
fn cand(g: &mut Rng, name: &str, a: usize, b: usize) -> Cand {
  // units as weights: long chains keep small numbers
  let mut u = |n: usize| -> Vec<P> { (0..n).map(|_| *g.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1)])).collect() };
  let act = || "None".to_string();
  match name {
    "dense" if b == 0 => Cand::NoUnits(a),
    "conv" if b == 0 => Cand::NoFilters(a),
    "dense" => Cand::Full(L::Dense { w: (0..b).map(|_| u(a)).collect(), b: u(b), act: act() }),
    "conv" => Cand::Full(L::Conv { k: (0..b).map(|_| (0..a).map(|_| vec![u(1)]).collect()).collect(), b: u(b), act: act() }),
    "reduce" => Cand::Full(L::Reduce { bs: [1, 1], f: "first".into(), kern: vec![u(1)], n: a }),
    _ => Cand::Full(L::Flatten { shape: [1, 1], n: a }),
  }
}

pub fn assembly(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let ops: Vec<(bool, Cand)> = t.get("ops").arr().iter().map(|o| (o.get("op").str() == "add_input",
      cand(&mut ctx.rng, o.get("kind").str(), o.get("a").us(), o.get("b").us()))).collect();
    if ctx.rng.flip() { assemble::<Cf32>(ctx, &ops, None) } else { assemble::<Cf64>(ctx, &ops, None) }
  }
  for _ in 0..ctx.reps(200, 4000) {
    let n = ctx.rng.us(1, 12);
    let ops: Vec<(bool, Cand)> = (0..n).map(|k| {
      let g = &mut ctx.rng;
      let kind = *g.pick(&["dense", "dense", "conv", "conv", "reduce", "flatten"]);
      let (a, b) = (g.us(1, 3), if g.int(0, 9) == 0 { 0 } else { g.us(1, 3) });
      let first = if k == 0 { g.int(0, 4) > 0 } else { g.int(0, 6) == 0 };
      (first, cand(g, kind, a, b))
    }).collect();
    if ctx.rng.flip() { assemble::<Cf32>(ctx, &ops, None) } else { assemble::<Cf64>(ctx, &ops, None) }
  }
  // layers of all extents: fitting ones with unsuitable ones in between
  for k in 0..ctx.reps(120, 2000) {
    let (ops, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Units, acts: &["None"], max: 4 };
      loop {
        let n = g.g.us(1, 7);
        let first = if g.g.int(0, 3) == 0 { Sh::S(g.g.us(1, if k % 16 == 0 { 300 } else { 20 })) } else if k % 8 == 3 { Sh::M(g.g.us(8, 40), g.g.us(1, 2), g.g.us(1, 2)) } else { Sh::M(g.g.us(1, 4), g.g.us(1, 7), g.g.us(1, 7)) };
        let net = g.net_from(n, first);
        let shs = shapes(&net, first);
        if bound(&net, &big_input(&g, first), 1.0) > EXACT_MAX || shs.iter().map(|s| s.len()).sum::<usize>() > 500 { continue; }
        let mut ops: Vec<(bool, Cand)> = vec![];
        for (k, l) in net.iter().enumerate() {
          // a count off by one or the other kind
          if k > 0 && g.g.flip() {
            let wrong = match (shs[k], g.g.int(0, 2)) {
              (Sh::S(n), 0) => Sh::S(n + 1),
              (Sh::S(n), 1) if n > 1 => Sh::S(n - 1),
              (Sh::S(n), _) => Sh::M(n, 1, 1),
              (Sh::M(n, r, c), 0) => Sh::M(n + 1, r, c),
              (Sh::M(n, r, c), 1) if n > 1 => Sh::M(n - 1, r, c),
              (sh @ Sh::M(n, ..), _) => if g.g.flip() { Sh::S(n) } else { Sh::S(sh.len()) },
            };
            ops.push((false, Cand::Full(g.layer(wrong))));
          }
          if k > 0 && g.g.int(0, 5) == 0 { let l = g.layer(shs[k]); ops.push((true, Cand::Full(l))); }
          ops.push((k == 0, Cand::Full(l.clone())));
        }
        break (ops, g.input(first));
      }
    };
    if ctx.rng.flip() { assemble::<Cf32>(ctx, &ops, Some(x)) } else { assemble::<Cf64>(ctx, &ops, Some(x)) }
  }
}
