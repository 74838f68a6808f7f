//! Losses and their derivatives (C09, C10).

use crate::json::*;
use crate::num::*;
use crate::run::*;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc;

type P = (i64, i64);
fn pj(v: &[P]) -> J { arr(v.iter().map(|z| J::A(vec![i(z.0), i(z.1)]))) }

/// a vector as scalars or as maps of equal shape
pub fn wrap<T: Cx>(v: Vec<T>, lay: &Option<[usize; 3]>) -> IOType<T> {
  match lay {
    None => IOType::Scalar(v),
    Some([_, r, c]) => IOType::Matrix(v.chunks(r * c).map(|b| Matrix::from_body(b.to_vec(), [*r, *c])).collect()),
  }
}
fn near(v: f64) -> J { if v.is_finite() && v.abs() < LIMIT { i(v.round() as i64) } else { i(SENTINEL) } }

struct Case { t: Vec<P>, p: Vec<P>, lay: Option<[usize; 3]> }

/// targets and predictions times a power of two, which the results are divided by again
fn square<T: Cx>(ctx: &mut Ctx, c: &Case, e: i64, deriv: bool) {
  let up = |v: &[P]| v.iter().map(|z| T::c(sc(z.0 as f64, e), sc(z.1 as f64, e))).collect();
  let t = wrap(up(&c.t), &c.lay);
  let p = wrap(up(&c.p), &c.lay);
  let f = ComplexLossFunc::MeanSquare;
  let n = c.p.len() as f64;
  let r = if deriv { res(guard(|| T::d_loss(&t, &p, &f)), |v| arr(v.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![ex(sc(x, -e)), ex(sc(y, -e))]) }))) }
    else { res(guard(|| T::loss(&t, &p, &f)), |v| {
      // the sum of the squares and what it lacks to a whole number
      let w = sc(T::wide(v), -2 * e) * n;
      obj! { a: near(w * 256.0), f: fx(w - w.round()) }
    }) };
  ctx.out.put(obj! { ev: s(if deriv { "dmse" } else { "mse" }), p: s(T::NAME), e: i(e), maps: J::B(c.lay.is_some()), t: pj(&c.t), pr: pj(&c.p), r: r });
}

/// predictions in quarters, targets with an imaginary part that does not matter
fn entropy<T: Cx>(ctx: &mut Ctx, c: &Case, deriv: bool) {
  let t = wrap(c.t.iter().map(|z| T::c(z.0 as f64, z.1 as f64)).collect(), &c.lay);
  let p = wrap(c.p.iter().map(|z| T::c(z.0 as f64 / 4.0, z.1 as f64 / 4.0)).collect(), &c.lay);
  let f = ComplexLossFunc::NormCrossEntropy;
  let r = if deriv { res(guard(|| T::d_loss(&t, &p, &f)), |v| encv(fxc, &v)) }
    else { res(guard(|| T::loss(&t, &p, &f)), |v| fx(T::wide(v))) };
  ctx.out.put(obj! { ev: s(if deriv { "dce" } else { "ce" }), p: s(T::NAME), maps: J::B(c.lay.is_some()),
    t: arr(c.t.iter().map(|z| i(z.0))), pr: pj(&c.p), r: r });
}

/// the cross entropy at double precision
fn precise<T: Cx>(ctx: &mut Ctx, c: &Case, deriv: bool) {
  let t = wrap(c.t.iter().map(|z| T::c(z.0 as f64, z.1 as f64)).collect(), &c.lay);
  let p = wrap(c.p.iter().map(|z| T::c(z.0 as f64 / 4.0, z.1 as f64 / 4.0)).collect(), &c.lay);
  let f = ComplexLossFunc::NormCrossEntropy;
  let r = if deriv { res(guard(|| T::d_loss(&t, &p, &f)), |v| encv(wxc, &v)) }
    else { res(guard(|| T::loss(&t, &p, &f)), |v| wx(T::wide(v))) };
  ctx.out.put(obj! { ev: s(if deriv { "dwce" } else { "wce" }), p: s(T::NAME), maps: J::B(c.lay.is_some()),
    t: arr(c.t.iter().map(|z| i(z.0))), pr: pj(&c.p), r: r });
}

/// predictions times a large power of two
fn huge<T: Cx>(ctx: &mut Ctx, c: &Case, e: i64, deriv: bool) {
  let t = wrap(c.t.iter().map(|z| T::c(z.0 as f64, z.1 as f64)).collect(), &c.lay);
  let p = wrap(c.p.iter().map(|z| T::c(sc(z.0 as f64, e), sc(z.1 as f64, e))).collect(), &c.lay);
  let f = ComplexLossFunc::NormCrossEntropy;
  let r = if deriv {
    res(guard(|| T::d_loss(&t, &p, &f)), |v| arr(v.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![near(sc(x, 8 - e)), near(sc(y, 8 - e))]) })))
  } else {
    res(guard(|| T::loss(&t, &p, &f)), |v| near(sc(T::wide(v), 8 - 2 * e)))
  };
  ctx.out.put(obj! { ev: s(if deriv { "dhce" } else { "hce" }), p: s(T::NAME), e: i(e), maps: J::B(c.lay.is_some()),
    t: arr(c.t.iter().map(|z| i(z.0))), pr: pj(&c.p), r: r });
}

fn mixed<T: Cx>(ctx: &mut Ctx, deriv: bool) {
  for maps_first in [true, false] {
    for f in [ComplexLossFunc::MeanSquare, ComplexLossFunc::NormCrossEntropy] {
      let n = ctx.rng.us(1, 4);
      let a: IOType<T> = wrap(vec![T::unit(); n], &Some([1, 1, n]));
      let b: IOType<T> = wrap(vec![T::iunit(); n], &None);
      let (t, p) = if maps_first { (&a, &b) } else { (&b, &a) };
      let r = if deriv { res(guard(|| T::d_loss(t, p, &f)), |_| i(0)) } else { res(guard(|| T::loss(t, p, &f)), |_| i(0)) };
      ctx.out.put(obj! { ev: s("mixed"), p: s(T::NAME), what: s(&format!("{:?}", f)), r: r });
    }
  }
}

fn layout(g: &mut Rng, big: bool) -> (usize, Option<[usize; 3]>) {
  if g.flip() {
    let n = if big { *g.pick(&[100, 128, 200, 255, 256, 257, 300, 400, 513, 1025]) } else { g.us(1, 12) };
    (n, None)
  } else {
    let l = match (big, g.int(0, 2)) {
      (false, _) => [g.us(1, 4), g.us(1, 4), g.us(1, 4)],
      (true, 0) => [g.us(2, 20), g.us(1, 5), g.us(1, 5)],
      (true, 1) => [g.us(1, 3), g.us(9, 19), g.us(9, 18)],
      _ => [g.us(1, 5), g.us(1, 9), g.us(1, 9)],
    };
    (l[0] * l[1] * l[2], Some(l))
  }
}
fn targets(g: &mut Rng, n: usize, imag: bool) -> Vec<P> {
  let im = |g: &mut Rng| if imag { g.int(-5, 5) } else { 0 };
  if g.int(0, 2) > 0 {
    let hot = g.us(0, n - 1);
    (0..n).map(|k| ((k == hot) as i64, im(g))).collect()
  } else {
    let mut left = 3;
    (0..n).map(|_| { let v = if left > 0 { g.int(-1, 2).min(left) } else { 0 }; left -= v.abs(); (v, im(g)) }).collect()
  }
}

/// raises one element until the sum of the exponentials relative to the largest is small
fn calm(g: &mut Rng, mut p: Vec<P>) -> Vec<P> {
  let sq = |z: &P| z.0 * z.0 + z.1 * z.1;
  let at = g.us(0, p.len() - 1);
  loop {
    let m = p.iter().map(sq).max().unwrap();
    if p.iter().map(|z| ((sq(z) - m) as f64 / 16.0).exp()).sum::<f64>() < 60.0 { return p; }
    p[at].0 += if p[at].0 < 0 { -1 } else { 1 };
  }
}

fn run(ctx: &mut Ctx, deriv: bool) {
  let script = std::mem::take(&mut ctx.script);
  for x in &script {
    let t: Vec<P> = x.get("t").arr().iter().map(|v| (v.int(), 0)).collect();
    let p: Vec<P> = x.get("p").arr().iter().map(|v| (v.arr()[0].int(), v.arr()[1].int())).collect();
    let lay = if ctx.rng.flip() { None } else { Some([1, 1, p.len()]) };
    let c = Case { t: t.clone(), p: p.clone(), lay };
    let h = Case { t, p: p.iter().map(|z| (2 * z.0, 2 * z.1)).collect(), lay };
    if ctx.rng.flip() { square::<Cf32>(ctx, &c, 0, deriv); entropy::<Cf64>(ctx, &h, deriv) } else { square::<Cf64>(ctx, &c, 0, deriv); entropy::<Cf32>(ctx, &h, deriv) }
  }
  const LONG: [usize; 7] = [256, 257, 300, 400, 513, 1025, 4200];
  const MAPS: [[usize; 3]; 7] = [[1, 16, 16], [1, 17, 17], [3, 19, 18], [20, 5, 4], [300, 1, 1], [2, 1, 257], [2, 33, 34]];
  for k in 0..ctx.reps(150, 3000) {
    let (n, lay) = match k {
      0..=6 => (LONG[k], None),
      7..=13 => (MAPS[k - 7].iter().product(), Some(MAPS[k - 7])),
      _ => layout(&mut ctx.rng, k % 15 == 0),
    };
    let g = &mut ctx.rng;
    let v = |g: &mut Rng, m: i64| -> Vec<P> { (0..n).map(|_| (g.int(-m, m), g.int(-m, m))).collect() };
    let m = if n > 2000 { 5 } else if n > 400 { 12 } else { 30 };
    let c = Case { t: v(g, m), p: v(g, m), lay };
    // large numbers with the same small differences
    let b = g.int(-400_000_000, 400_000_000);
    let off = |v: &[P]| v.iter().map(|z| (z.0 + b, z.1 - b)).collect::<Vec<_>>();
    let far = Case { t: off(&c.t), p: off(&c.p), lay };
    let ce = Case { t: targets(g, n, true), p: { let p = v(g, 11); calm(g, p) }, lay };
    let hp = Case { t: targets(g, n, true), p: v(g, 9), lay };
    let (e32, e64) = (g.int(5, 55), g.int(5, 500));
    let (q32, q64) = if g.flip() { (0, 0) } else { (g.int(-45, 45), *g.pick(&[-450, -60, -20, 9, 14, 25, 60, 450]) + g.int(-5, 5)) };
    square::<Cf32>(ctx, &c, q32, deriv);
    square::<Cf64>(ctx, if k % 2 == 0 { &c } else { &far }, q64, deriv);
    entropy::<Cf32>(ctx, &ce, deriv);
    entropy::<Cf64>(ctx, &ce, deriv);
    huge::<Cf32>(ctx, &hp, e32, deriv);
    huge::<Cf64>(ctx, &hp, e64, deriv);
    let g = &mut ctx.rng;
    let n = g.us(1, 6);
    let mut t: Vec<P> = (0..n).map(|_| (0, g.int(-5, 5))).collect();
    t[g.us(0, n - 1)].0 += 1;
    if g.int(0, 2) == 0 { t[0].0 += 1; t[n - 1].0 -= 1; }
    let p = (0..n).map(|_| (g.int(-5, 5), g.int(-5, 5))).collect();
    let lay = if g.flip() { None } else { Some([1, n, 1]) };
    precise::<Cf64>(ctx, &Case { t, p, lay }, deriv);
  }
  for _ in 0..4 {
    mixed::<Cf32>(ctx, deriv);
    mixed::<Cf64>(ctx, deriv);
  }
}
pub fn losses(ctx: &mut Ctx) { run(ctx, false) }
pub fn dlosses(ctx: &mut Ctx) { run(ctx, true) }
