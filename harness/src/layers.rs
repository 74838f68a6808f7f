//! Layer outputs and derivatives (C06, C02).

use crate::act::ACTS;
use crate::init::shape;
use crate::json::*;
use crate::net::*;
use crate::num::*;
use crate::run::*;
use renplex::cvnn::layer::CLayer;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

pub const EXACT_ACTS: [&str; 3] = ["None", "RITReLU", "ZReLU"];

/// the layer called by itself instead of through the common interface
fn direct<T: Cx>(l: &CLayer<T>, x: &IOType<T>) -> Result<IOType<T>, String> {
  match l {
    CLayer::Dense(l) => l.forward(x).map_err(|e| format!("{:?}", e)),
    CLayer::Convolutional(l) => l.forward(x).map_err(|e| format!("{:?}", e)),
    CLayer::Reduce(l) => l.foward(x).map_err(|e| format!("{:?}", e)),
    CLayer::Flatten(l) => l.foward(x).map_err(|e| format!("{:?}", e)),
  }
}

fn output<T: Cx>(ctx: &mut Ctx, l: &L, x: &X, u: f64) {
  let e = enc_for::<T>(u);
  // the exact layers scale with their parameters and inputs: any magnitude, brought back before recording
  let (ew, ex) = if u == 1.0 { (ctx.rng.expo::<T>(30), ctx.rng.expo::<T>(30)) } else { (0, 0) };
  let out = if l.has_params() { ew + ex } else { ex };
  let c = guard(|| l.build_at::<T>(sc(u, ew), sc(u, ew + ex)));
  let io = x.io::<T>(sc(u, ex));
  let call = |k: usize| guard(|| {
    let c = c.as_ref().unwrap();
    if k == 0 { c.foward(&io).map_err(|e| format!("{:?}", e)) } else { direct(c, &io) }
  });
  let rep = val(guard(|| { let c = c.as_ref().unwrap(); (shape(&c.get_input_shape()), shape(&c.get_output_shape()), c.params_len()) }),
    |(a, b, n)| obj! { ins: a, outs: b, pw: i(n.0), pb: i(n.1) });
  ctx.out.put(obj! { ev: s("out"), mode: mode(u), p: s(T::NAME), l: l.json(), x: x.json(), rep: rep,
    r: res(call(0), |v| encio(e, &scio(&v, -out))), r2: res(call(1), |v| encio(e, &scio(&v, -out))) });
}
fn refused<T: Cx>(ctx: &mut Ctx, l: &L, x: &X) {
  let c = guard(|| l.build::<T>(1.0));
  let io = x.io::<T>(1.0);
  ctx.out.put(obj! { ev: s("refused"), mode: s("e"), p: s(T::NAME), l: l.json(), x: x.json(),
    r: res(guard(|| c.as_ref().unwrap().foward(&io)), |v| encio(exc, &v)),
    r2: res(guard(|| direct(c.as_ref().unwrap(), &io)), |v| encio(exc, &v)) });
}

fn both_out(ctx: &mut Ctx, l: &L, x: &X, u: f64) {
  if ctx.rng.flip() { output::<Cf32>(ctx, l, x, u) } else { output::<Cf64>(ctx, l, x, u) }
}

pub fn outputs(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let x = X::parse(t.get("x"));
    let l = L::parse(t.get("l"), x.shape());
    output::<Cf32>(ctx, &l, &x, 1.0);
    output::<Cf64>(ctx, &l, &x, 1.0);
  }
  for k in 0..ctx.reps(250, 4000) {
    let u = if k % 2 == 0 { 1.0 } else { FU };
    let (l, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: if k % 2 == 0 { Style::Any } else { Style::Fixed },
        acts: if k % 2 == 0 { &EXACT_ACTS } else { &ACTS }, max: 5 };
      let sh = g.shape();
      let l = g.layer(sh);
      (l, g.input(sh))
    };
    both_out(ctx, &l, &x, u);
  }
  // weights that are all the same
  for k in 0..ctx.reps(8, 80) {
    let (l, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Any, acts: &EXACT_ACTS, max: 5 };
      let (c, r, q) = (g.g.us(1, 3), g.g.us(1, 3), g.g.us(2, 3));
      let z = (g.g.int(1, 4), g.g.int(-4, 4));
      if k % 4 == 3 {
        let mut l = g.dense(q, c);
        if let L::Dense { w, .. } = &mut l { w.iter_mut().flatten().for_each(|e| *e = z); }
        (l, g.input(Sh::S(q)))
      } else {
        let mut l = g.conv(c, 2, r, q);
        if let L::Conv { k, .. } = &mut l { k.iter_mut().flatten().flatten().flatten().for_each(|e| *e = z); }
        (l, g.input(Sh::M(c, r + 1, q + 2)))
      }
    };
    both_out(ctx, &l, &x, 1.0);
  }
  // sizes beyond anything the unit tests use
  for k in 0..ctx.reps(21, 84) {
    let (l, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Any, acts: &EXACT_ACTS, max: 5 };
      match k % 7 {
        0 => { let (a, b) = (g.g.us(16, 70), g.g.us(16, 40)); (g.dense(a, b), g.input(Sh::S(a))) }
        1 => { let (c, f, r, q) = (g.g.us(1, 6), g.g.us(1, 6), g.g.us(5, 12), g.g.us(5, 12)); (g.conv(c, f, 5, 3), g.input(Sh::M(c, r, q))) }
        2 => { let (c, f) = (g.g.us(4, 9), g.g.us(4, 9)); (g.conv(c, f, 2, 2), g.input(Sh::M(c, 4, 5))) }
        // more elements than fit into one byte
        5 => { let n = if k < 14 { g.g.us(1025, 1100) } else { g.g.us(257, 300) }; if k / 7 % 2 == 0 { (g.dense(n, 2), g.input(Sh::S(n))) } else { (g.dense(2, n), g.input(Sh::S(2))) } }
        6 => match k / 7 % 3 {
          0 => { let n = 34; (g.conv(1, 1, 2, 2), g.input(Sh::M(1, n, n))) }
          1 => { let n = g.g.us(10, 40); (g.reduce(n, 2, 1), g.input(Sh::M(n, 4, 3))) }
          _ => (L::Flatten { shape: [17, 19], n: 2 }, g.input(Sh::M(2, 17, 19))),
        },
        3 => { let (n, a, b) = (g.g.us(1, 5), g.g.us(2, 5), g.g.us(2, 5)); (g.reduce(n, a, b), g.input(Sh::M(n, 3 * a, 4 * b))) }
        _ => { let (n, a, b) = (g.g.us(2, 6), g.g.us(3, 9), g.g.us(3, 9)); (L::Flatten { shape: [a, b], n }, g.input(Sh::M(n, a, b))) }
      }
    };
    both_out(ctx, &l, &x, 1.0);
  }
  for _ in 0..ctx.reps(40, 400) {
    let (l, x) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Any, acts: &EXACT_ACTS, max: 4 };
      let sh = g.shape();
      let l = g.layer(sh);
      let wrong = match (&l, sh) {
        (L::Dense { .. }, Sh::S(n)) => if g.g.flip() { Sh::M(n, 1, 1) } else { Sh::M(1, 1, n) },
        (L::Conv { .. }, Sh::M(n, r, c)) => match g.g.int(0, 3) {
          0 => Sh::S(n), 1 => Sh::S(n * r * c), 2 => Sh::M(n + g.g.us(1, 2), r, c), _ => Sh::M(n - 1, r, c),
        },
        (_, sh) => Sh::S(sh.len()),
      };
      (l, g.input(wrong))
    };
    if ctx.rng.flip() { refused::<Cf32>(ctx, &l, &x) } else { refused::<Cf64>(ctx, &l, &x) }
  }
}

fn derive<T: Cx>(ctx: &mut Ctx, l: &L, x: &X, g: &[P], u: f64) {
  let e = enc_for::<T>(u);
  let (ew, ex, ed) = if u == 1.0 { (ctx.rng.expo::<T>(30), ctx.rng.expo::<T>(30), ctx.rng.expo::<T>(30)) } else { (0, 0, 0) };
  let io = x.io::<T>(sc(u, ex));
  let d: Vec<T> = nums(g, sc(u, ed));
  let dc: Vec<T> = d.iter().map(|z| z.conj()).collect();
  let enc = |v: (Vec<T>, Vec<T>, Vec<T>, Vec<T>)| obj! { dw: encv(e, &scv(&v.0, -ex - ed)), db: encv(e, &scv(&v.1, -ed)),
    dx: encv(e, &scv(&v.2, -ew - ed)), dc: encv(e, &scv(&v.3, -ew - ed)) };
  let c = guard(|| l.build_at::<T>(sc(u, ew), sc(u, ew + ex)));
  let r = guard(|| c.as_ref().unwrap().compute_derivatives(&io, d.clone(), dc.clone()));
  let r2 = guard(|| match c.as_ref().unwrap() {
    CLayer::Dense(l) => l.compute_derivatives(&io, d, dc),
    CLayer::Convolutional(l) => l.compute_derivatives(&io, d, dc),
    CLayer::Reduce(l) => l.compute_derivatives(&io, d, dc),
    CLayer::Flatten(_) => panic!(),
  });
  ctx.out.put(obj! { ev: s("back"), mode: mode(u), p: s(T::NAME), l: l.json(), x: x.json(), g: vj(g), r: res(r, enc), r2: res(r2, enc) });
}

/// outputs of a layer on the inputs that show its parameters
pub fn probe<T: Cx>(c: &CLayer<T>, l: &L, sh: Sh, ex: i64, ey: i64, tiny: i64) -> J {
  // steps that were made smaller: the difference to the layer before is brought back (linear layers only)
  let first = if tiny > 0 { guard(|| l.build_at::<T>(sc(1.0, ey - ex), sc(1.0, ey))) } else { None };
  arr(l.probes(8, sh).iter().map(|x| {
    let x0 = x.io::<T>(sc(1.0, ex));
    let r = guard(|| c.foward(&x0).map(|y| match &first { Some(f) => apart(&f.foward(&x0).unwrap(), &y, tiny), None => y }));
    obj! { x: x.json(), r: res(r, |v| encio(quart::<T>, &scio(&v, -ey))) }
  }))
}
/// a + (b - a) 2^e
fn apart<T: Cx>(a: &IOType<T>, b: &IOType<T>, e: i64) -> IOType<T> {
  let f = |a: &T, b: &T| { let ((x, y), (u, v)) = (a.xy(), b.xy()); T::c(x + sc(u - x, e), y + sc(v - y, e)) };
  let fv = |a: &[T], b: &[T]| a.iter().zip(b).map(|(a, b)| f(a, b)).collect::<Vec<T>>();
  match (a, b) {
    (IOType::Scalar(a), IOType::Scalar(b)) => IOType::Scalar(fv(a, b)),
    (IOType::Matrix(a), IOType::Matrix(b)) => IOType::Matrix(a.iter().zip(b).map(|(a, b)| Matrix::from_body(fv(a.get_body(), b.get_body()), [b.get_shape()[0], b.get_shape()[1]])).collect()),
    _ => panic!(),
  }
}
/// quarters, rounded: for results whose last bits may differ
pub fn quart<T: Cx>(z: &T) -> J {
  let (x, y) = z.xy();
  let q = |v: f64| if v.is_finite() && v.abs() <= LIMIT / 4.0 { i((v * 4.0).round() as i64) } else { i(SENTINEL) };
  J::A(vec![q(x), q(y)])
}

fn adjust<T: Cx>(ctx: &mut Ctx, l: &L, sh: Sh, seq: &[(Vec<P>, Vec<P>)]) {
  // steps far smaller than the parameters they change
  let tiny = match l { L::Dense { act, .. } | L::Conv { act, .. } if act == "None" && ctx.rng.flip() => if T::NAME == "f32" { 11 } else { 30 }, _ => 0 };
  let e = if !l.has_params() { 0 } else if tiny > 0 { ctx.rng.int(-20, 4) } else { ctx.rng.expo::<T>(60) };
  let u = sc(1.0, e);
  let ud = sc(u, -tiny);
  let mut c = match guard(|| l.build::<T>(u)) { Some(c) => c, None => return ctx.out.put(obj! { ev: s("broken"), mode: s("e") }) };
  let mut steps = vec![];
  for (k, (dw, db)) in seq.iter().enumerate() {
    let (w, b) = (nums(dw, ud), nums(db, ud));
    let r = res(guard(|| if k % 2 == 0 { c.neg_conj_adjustment(w, b) } else {
      match &mut c {
        CLayer::Dense(l) => l.neg_conj_adjustment(w, b),
        CLayer::Convolutional(l) => l.neg_conj_adjustment(w, b),
        CLayer::Reduce(l) => l.neg_conj_adjustment(w, b),
        CLayer::Flatten(_) => panic!(),
      }
    }), |_| i(0));
    steps.push(obj! { dw: vj(dw), db: vj(db), r: r, probes: probe(&c, l, sh, 0, e, tiny) });
  }
  ctx.out.put(obj! { ev: s("adjust"), mode: s("e"), p: s(T::NAME), l: l.json(), steps: J::A(steps) });
}

pub fn backward(ctx: &mut Ctx) {
  // every layer of the model's networks, with the derivatives the model hands to it
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let x = X::parse(t.get("x"));
    let net = parse_net(t.get("net"), &x);
    let sh = shapes(&net, x.shape());
    let n = ctx.rng.us(0, net.len() - 1);
    if matches!(net[n], L::Flatten { .. }) { continue; }
    let acts = X::parse(&t.get("acts").arr()[n]);
    let g: Vec<P> = (0..sh[n + 1].len()).map(|_| (ctx.rng.int(-9, 9), ctx.rng.int(-9, 9))).collect();
    if ctx.rng.flip() { derive::<Cf32>(ctx, &net[n], &acts, &g, 1.0) } else { derive::<Cf64>(ctx, &net[n], &acts, &g, 1.0) }
  }
  for k in 0..ctx.reps(240, 4000) {
    let fixed = k % 2 == 1;
    let u = if fixed { FU } else { 1.0 };
    let big = k % 60 == 0;
    let (l, x, d) = {
      let mut g = Gen { g: &mut ctx.rng, style: if fixed { Style::Fixed } else { Style::Parity },
        acts: if fixed { &ACTS } else { &EXACT_ACTS }, max: if big { 9 } else { 4 } };
      let (l, sh) = loop {
        let sh = if big && g.g.flip() { Sh::M(g.g.us(2, 5), g.g.us(4, 8), g.g.us(4, 8)) } else { g.shape() };
        let l = g.layer(sh);
        if !matches!(l, L::Flatten { .. }) { break (l, sh); }
      };
      let x = g.input(sh);
      let o = l.out(sh);
      let d = g.vec(o.len());
      (l, x, d)
    };
    if ctx.rng.flip() { derive::<Cf32>(ctx, &l, &x, &d, u) } else { derive::<Cf64>(ctx, &l, &x, &d, u) }
  }
  // more elements than fit into one byte
  for k in 0..ctx.reps(12, 60) {
    let (l, x, d) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: &EXACT_ACTS, max: 4 };
      let (l, sh) = match k % 6 {
        5 => { let n = g.g.us(257, 300); (g.dense(n, 2), Sh::S(n)) }
        4 => { let (n, r, c) = (g.g.us(1, 2), g.g.us(16, 18), g.g.us(17, 19)); (g.reduce(n, 2, 1), Sh::M(n, 2 * r, c)) }
        0 => { let (n, r, c) = (g.g.us(3, 12), g.g.us(5, 9), g.g.us(6, 9)); (g.reduce(n, 1, 2), Sh::M(n, r, 2 * c)) }
        1 => { let n = if k < 6 { g.g.us(1025, 1100) } else { g.g.us(257, 300) }; (g.dense(2, n), Sh::S(2)) }
        2 => { let n = g.g.us(20, 50); (g.reduce(n, 2, 1), Sh::M(n, 4, 3)) }
        _ => if k < 6 { (g.conv(1, 1, 2, 2), Sh::M(1, 34, 34)) } else { let (c, f) = (g.g.us(1, 2), g.g.us(1, 2)); (g.conv(c, f, 2, 3), Sh::M(c, 17, 18)) },
      };
      let x = g.input(sh);
      let d = g.vec(l.out(sh).len());
      (l, x, d)
    };
    if ctx.rng.flip() { derive::<Cf32>(ctx, &l, &x, &d, 1.0) } else { derive::<Cf64>(ctx, &l, &x, &d, 1.0) }
  }
  for n in 0..ctx.reps(80, 800) {
    let (l, sh, seq) = {
      let mut g = Gen { g: &mut ctx.rng, style: Style::Parity, acts: if n % 2 == 0 { &EXACT_ACTS } else { &["None"] }, max: 3 };
      let (l, sh) = loop {
        let sh = g.shape();
        let l = g.layer(sh);
        if !matches!(l, L::Flatten { .. }) { break (l, sh); }
      };
      let nb = match &l { L::Dense { b, .. } | L::Conv { b, .. } => b.len(), _ => 0 };
      let nw = l.params() - nb;
      let seq = (0..g.g.us(1, 3)).map(|_| {
        let off = |g: &mut Rng, n: usize| match g.int(0, 3) { 0 => 0, 1 => n + 1, 2 => n + g.us(1, 4), _ => n.saturating_sub(1) };
        let (w, b) = if !l.has_params() { (0, 0) } else {
          match g.g.int(0, 5) { 0 => (off(g.g, nw), nb), 1 => (nw, off(g.g, nb)), 2 => (nb, nw), _ => (nw, nb) }
        };
        // even steps keep the parities
        let v = |g: &mut Gen, n: usize| -> Vec<P> { g.vec(n).iter().map(|z| (2 * z.0, 2 * z.1)).collect() };
        (v(&mut g, w), v(&mut g, b))
      }).collect::<Vec<_>>();
      (l, sh, seq)
    };
    if ctx.rng.flip() { adjust::<Cf32>(ctx, &l, sh, &seq) } else { adjust::<Cf64>(ctx, &l, sh, &seq) }
  }
}
