//! Activation values and derivatives (C07, C08).

use crate::init::method;
use crate::json::*;
use crate::num::*;
use crate::run::*;
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;

pub const ACTS: [&str; 7] = ["None", "ModZ", "RITSigmoid", "RITTanh", "RITReLU", "ZReLU", "Cardioid"];
pub fn actfn(name: &str) -> ComplexActFunc {
  match name {
    "None" => ComplexActFunc::None,
    "ModZ" => ComplexActFunc::ModZ,
    "RITSigmoid" => ComplexActFunc::RITSigmoid,
    "RITTanh" => ComplexActFunc::RITTanh,
    "RITReLU" => ComplexActFunc::RITReLU,
    "ZReLU" => ComplexActFunc::ZReLU,
    _ => ComplexActFunc::Cardioid,
  }
}

type Zs = [(i64, i64)];
fn arg<T: Cx>(z: &(i64, i64), e: i64) -> T { T::c(sc(z.0 as f64 / FB, e), sc(z.1 as f64 / FB, e)) }
fn pts(zs: &Zs) -> J { arr(zs.iter().map(|z| J::A(vec![i(z.0), i(z.1)]))) }

/// dense layer with the unit matrix as weights
fn dense<T: Cx>(f: &str, n: usize) -> CLayer<T> {
  let mut l = DenseCLayer::init(IOShape::Scalar(n), n, actfn(f), method("Uniform", 0), &mut 1).unwrap();
  let mut w = vec![T::default(); n * n];
  for k in 0..n { w[k * n + k] = T::c(-1.0, 0.0); }
  l.neg_conj_adjustment(w, vec![T::default(); n]).unwrap();
  l.wrap()
}
/// convolutional layer with a single unit kernel
fn conv<T: Cx>(f: &str) -> CLayer<T> {
  let mut l = ConvCLayer::init(IOShape::Matrix(1), 1, [1, 1], actfn(f), method("Uniform", 0), &mut 1).unwrap();
  l.neg_conj_adjustment(vec![T::c(-1.0, 0.0)], vec![T::default()]).unwrap();
  l.wrap()
}

fn value<T: Cx>(ctx: &mut Ctx, f: &str, zs: &Zs, e: i64) {
  let a = actfn(f);
  let homog = matches!(f, "None" | "RITReLU" | "ZReLU");
  let back = |v: Vec<T>| -> J { arr(v.iter().map(|z| { let (x, y) = z.xy(); let k = if homog { -e } else { 0 }; J::A(vec![fx(sc(x, k)), fx(sc(y, k))]) })) };
  let args: Vec<T> = zs.iter().map(|z| arg(z, e)).collect();
  let one = guard(|| args.iter().map(|z| z.activate(&a)).collect::<Vec<T>>());
  let inplace = guard(|| { let mut v = args.clone(); T::activate_mut(&mut v, &a); v });
  let den = guard(|| dense::<T>(f, args.len()).foward(&IOType::Scalar(args.clone())).unwrap().release_vec().unwrap());
  let con = guard(|| conv::<T>(f).foward(&IOType::Matrix(vec![Matrix::from_body(args.clone(), [1, args.len()])])).unwrap()
    .release_maps().unwrap()[0].get_body().to_vec());
  let forms = [("single", one), ("in place", inplace), ("dense layer", den), ("convolutional layer", con)];
  let inside = forms.iter().flat_map(|x| x.1.iter().flatten()).all(|z| {
    let (x, y) = z.xy();
    x > 0.0 && x < 1.0 && y > 0.0 && y < 1.0
  });
  ctx.out.put(obj! { ev: s("value"), f: s(f), p: s(T::NAME), e: i(e), zs: pts(zs), inside: J::B(inside),
    forms: arr(forms.into_iter().map(|(n, r)| obj! { name: s(n), r: val(r, back) })) });
}

fn deriv<T: Cx>(ctx: &mut Ctx, f: &str, zs: &Zs, e: i64) {
  let a = actfn(f);
  let k = if matches!(f, "ModZ" | "Cardioid") { e } else { 0 };
  let back = |v: Vec<T>| -> J { arr(v.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![fx(sc(x, k)), fx(sc(y, k))]) })) };
  let args: Vec<T> = zs.iter().map(|z| arg(z, e)).collect();
  for conj in [false, true] {
    let one = guard(|| args.iter().map(|z| if conj { z.d_conj_activate(&a) } else { z.d_activate(&a) }).collect::<Vec<T>>());
    let inplace = guard(|| {
      let mut v = args.clone();
      if conj { T::d_conj_activate_mut(&mut v, &a) } else { T::d_activate_mut(&mut v, &a) };
      v
    });
    // a layer answers g to d g + conj(d') conj(g): g = 1 and g = i separate the two
    let with = |g: T| -> Vec<T> {
      dense::<T>(f, args.len()).compute_derivatives(&IOType::Scalar(args.clone()), vec![g; args.len()], vec![g.conj(); args.len()]).unwrap().1
    };
    let lay = guard(|| {
      let (p, q) = (with(T::unit()), with(T::iunit()));
      p.iter().zip(q).map(|(p, q)| {
        let q = q * T::c(0.0, -1.0);
        if conj { ((*p - q) * T::c(0.5, 0.0)).conj() } else { (*p + q) * T::c(0.5, 0.0) }
      }).collect::<Vec<T>>()
    });
    let forms = [("single", one), ("in place", inplace), ("dense layer", lay)];
    ctx.out.put(obj! { ev: s(if conj { "cderiv" } else { "deriv" }), f: s(f), p: s(T::NAME), e: i(e), zs: pts(zs),
      forms: arr(forms.into_iter().map(|(n, r)| obj! { name: s(n), r: val(r, back) })) });
  }
}

/// values and derivatives to all the digits of double precision
fn precise<T: Cx>(ctx: &mut Ctx, f: &str, zs: &Zs, e: i64) {
  let a = actfn(f);
  let polar = matches!(f, "ModZ" | "Cardioid");
  let args: Vec<T> = zs.iter().map(|z| arg(z, e)).collect();
  let back = |v: Vec<T>, k: i64| arr(v.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![wx(sc(x, k)), wx(sc(y, k))]) }));
  let one = guard(|| args.iter().map(|z| z.activate(&a)).collect::<Vec<T>>());
  let all = guard(|| { let mut v = args.clone(); T::activate_mut(&mut v, &a); v });
  let forms = [("single", one), ("in place", all)];
  let k = if polar || matches!(f, "RITSigmoid" | "RITTanh") { 0 } else { -e };
  ctx.out.put(obj! { ev: s("wvalue"), f: s(f), e: i(e), zs: pts(zs),
    forms: arr(forms.into_iter().map(|(n, r)| obj! { name: s(n), r: val(r, |v| back(v, k)) })) });
}
fn dprecise<T: Cx>(ctx: &mut Ctx, f: &str, zs: &Zs, e: i64) {
  let a = actfn(f);
  let k = if matches!(f, "ModZ" | "Cardioid") { e } else { 0 };
  let args: Vec<T> = zs.iter().map(|z| arg(z, e)).collect();
  let back = |v: Vec<T>| arr(v.iter().map(|z| { let (x, y) = z.xy(); J::A(vec![wx(sc(x, k)), wx(sc(y, k))]) }));
  for conj in [false, true] {
    let one = guard(|| args.iter().map(|z| if conj { z.d_conj_activate(&a) } else { z.d_activate(&a) }).collect::<Vec<T>>());
    let all = guard(|| {
      let mut v = args.clone();
      if conj { T::d_conj_activate_mut(&mut v, &a) } else { T::d_activate_mut(&mut v, &a) };
      v
    });
    let forms = [("single", one), ("in place", all)];
    ctx.out.put(obj! { ev: s(if conj { "wcderiv" } else { "wderiv" }), f: s(f), e: i(e), zs: pts(zs),
      forms: arr(forms.into_iter().map(|(n, r)| obj! { name: s(n), r: val(r, back) })) });
  }
}
/// arguments that use all 24 fractional bits
fn fine(g: &mut Rng, f: &str) -> (Vec<(i64, i64)>, i64) {
  let n = g.us(1, 6);
  let m = if matches!(f, "RITSigmoid" | "RITTanh") { *g.pick(&[2, 6, 14, 28]) } else { *g.pick(&[1, 4, 30]) };
  let zs = (0..n).map(|_| loop {
    let z = (g.int(-m << 24, m << 24), g.int(-m << 24, m << 24));
    if z.0.abs().min(z.1.abs()) > (if m == 14 { 9 << 24 } else { FB as i64 / 8 }) { return z; }
  }).collect();
  let e = if matches!(f, "RITSigmoid" | "RITTanh") { 0 } else { exponent::<Cf64>(g, f) };
  (zs, e)
}

/// one argument between any two integers where the saturating functions are still short of their limits
fn tails(g: &mut Rng) -> Vec<(i64, i64)> {
  let mut c = |k: i64| { let v = (k << 24) + g.int(0, (1 << 24) - 1); if g.flip() { v } else { -v } };
  (9..28).map(|k| (c(k), c(36 - k))).collect()
}

/// slopes of the value in double precision
fn slope(ctx: &mut Ctx, f: &str, zs: &Zs) {
  let a = actfn(f);
  use renplex::math::Complex;
  let h = 1.0 / 16384.0;
  let args: Vec<Cf64> = zs.iter().map(|z| arg(z, 0)).collect();
  let dirs = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (-1.0, 2.0)];
  let fd = guard(|| args.iter().map(|z| dirs.iter().map(|d| {
    let hi = Cf64::c(z.x + d.0 * h, z.y + d.1 * h).activate(&a);
    let lo = Cf64::c(z.x - d.0 * h, z.y - d.1 * h).activate(&a);
    Cf64::c((hi.x - lo.x) / (2.0 * h), (hi.y - lo.y) / (2.0 * h))
  }).collect::<Vec<_>>()).collect::<Vec<_>>());
  ctx.out.put(obj! { ev: s("diff"), f: s(f), zs: pts(zs),
    d: val(guard(|| args.iter().map(|z| z.d_activate(&a)).collect::<Vec<_>>()), |v| encv(fxc, &v)),
    dc: val(guard(|| args.iter().map(|z| z.d_conj_activate(&a)).collect::<Vec<_>>()), |v| encv(fxc, &v)),
    fd: val(fd, |v| arr(v.iter().map(|w| encv(fxc, w)))) });
}

/// arguments with at most 16 significant bits, so exact in both precisions
fn point(g: &mut Rng, f: &str, smooth: bool) -> (i64, i64) {
  loop {
    let m = if g.flip() { 8 } else { 30 };
    let q = 1i64 << *g.pick(&[10, 12, 14]);
    let mut c = || g.int(-m * q, m * q) * ((FB as i64) / q);
    let (mut x, mut y) = (c(), c());
    if g.int(0, 9) == 0 { x = 0; }
    if g.int(0, 9) == 0 { y = 0; }
    if matches!(f, "ModZ" | "Cardioid") {
      // not too close to zero
      if x.abs() + y.abs() < FB as i64 / 4 { continue; }
    }
    if smooth && matches!(f, "RITReLU" | "ZReLU") && (x.abs() < 20000 || y.abs() < 20000) { continue; }
    return (x, y);
  }
}
fn points(g: &mut Rng, f: &str, smooth: bool) -> Vec<(i64, i64)> {
  let n = *g.pick(&[1, 2, 3, 5, 8, 17, 33]);
  (0..n).map(|_| point(g, f, smooth)).collect()
}
fn exponent<T: Cx>(g: &mut Rng, f: &str) -> i64 {
  let wide = T::NAME == "f64";
  match f {
    "ModZ" | "Cardioid" => if wide { g.int(-480, 480) } else { g.int(-50, 50) },
    "RITSigmoid" | "RITTanh" => if g.flip() { 0 } else if wide { g.int(-40, 1000) } else { g.int(-40, 110) },
    _ => if wide { g.int(-900, 900) } else { g.int(-90, 90) },
  }
}

fn grid(ctx: &mut Ctx) -> Vec<(String, Vec<(i64, i64)>)> {
  let script = std::mem::take(&mut ctx.script);
  let mut by: Vec<(String, Vec<(i64, i64)>)> = vec![];
  for t in &script {
    let f = t.get("f").str().to_string();
    let z = t.get("z").arr();
    let z = (z[0].int(), z[1].int());
    match by.iter_mut().rev().find(|b| b.0 == f && b.1.len() < 16) {
      Some(b) => b.1.push(z),
      None => by.push((f, vec![z])),
    }
  }
  by
}

pub fn values(ctx: &mut Ctx) {
  for (f, zs) in grid(ctx) {
    value::<Cf32>(ctx, &f, &zs, 0);
    value::<Cf64>(ctx, &f, &zs, 0);
  }
  for _ in 0..ctx.reps(12, 300) {
    for f in ACTS {
      let zs = points(&mut ctx.rng, f, false);
      let e = exponent::<Cf32>(&mut ctx.rng, f);
      value::<Cf32>(ctx, f, &zs, e);
      let zs = points(&mut ctx.rng, f, false);
      let e = exponent::<Cf64>(&mut ctx.rng, f);
      value::<Cf64>(ctx, f, &zs, e);
    }
  }
  for _ in 0..ctx.reps(8, 200) {
    for f in ACTS {
      let (zs, e) = fine(&mut ctx.rng, f);
      precise::<Cf64>(ctx, f, &zs, e);
    }
  }
  for f in ["RITSigmoid", "RITTanh"] {
    let zs = tails(&mut ctx.rng);
    precise::<Cf64>(ctx, f, &zs, 0);
  }
  // the ends of the range for the sigmoid
  for m in [14i64, 15, 16, 29, 30, 31] {
    for sgn in [-1, 1] {
      let zs: Vec<(i64, i64)> = [0, 1, -1, 4096, -4096].iter().map(|d| (sgn * (m << 24) + d * 4096, -sgn * (m << 24) + d * 4096)).collect();
      for f in ["RITSigmoid", "RITTanh"] {
        value::<Cf32>(ctx, f, &zs, 0);
        value::<Cf64>(ctx, f, &zs, 0);
      }
    }
  }
  // long vectors: every element by itself
  for f in ACTS {
    let n = [ctx.rng.us(200, 300), ctx.rng.us(1025, 1100)];
    let first = ctx.rng.us(0, 1);
    let zs: Vec<(i64, i64)> = (0..n[first]).map(|_| point(&mut ctx.rng, f, false)).collect();
    value::<Cf32>(ctx, f, &zs, 0);
    let zs: Vec<(i64, i64)> = (0..n[1 - first]).map(|_| point(&mut ctx.rng, f, false)).collect();
    value::<Cf64>(ctx, f, &zs, 0);
  }
}

pub fn derivs(ctx: &mut Ctx) {
  let kink = |f: &str, z: &(i64, i64)| match f {
    "RITReLU" | "ZReLU" => z.0 == 0 || z.1 == 0,
    "ModZ" | "Cardioid" => *z == (0, 0),
    _ => false,
  };
  for (f, zs) in grid(ctx) {
    let zs: Vec<_> = zs.into_iter().filter(|z| !kink(&f, z)).collect();
    deriv::<Cf32>(ctx, &f, &zs, 0);
    deriv::<Cf64>(ctx, &f, &zs, 0);
    slope(ctx, &f, &zs);
  }
  for _ in 0..ctx.reps(10, 250) {
    for f in ACTS {
      let zs = points(&mut ctx.rng, f, true);
      let e = exponent::<Cf32>(&mut ctx.rng, f);
      deriv::<Cf32>(ctx, f, &zs, e);
      let zs = points(&mut ctx.rng, f, true);
      let e = exponent::<Cf64>(&mut ctx.rng, f);
      deriv::<Cf64>(ctx, f, &zs, e);
      let zs = points(&mut ctx.rng, f, true);
      slope(ctx, f, &zs);
    }
  }
  for _ in 0..ctx.reps(8, 200) {
    for f in ACTS {
      let (zs, e) = fine(&mut ctx.rng, f);
      dprecise::<Cf64>(ctx, f, &zs, e);
    }
  }
  for f in ["RITSigmoid", "RITTanh"] {
    let zs = tails(&mut ctx.rng);
    dprecise::<Cf64>(ctx, f, &zs, 0);
  }
  // long vectors: every element by itself
  for f in ACTS {
    let n = [ctx.rng.us(200, 300), ctx.rng.us(1025, 1100)];
    let first = ctx.rng.us(0, 1);
    let zs: Vec<(i64, i64)> = (0..n[first]).map(|_| point(&mut ctx.rng, f, true)).collect();
    deriv::<Cf32>(ctx, f, &zs, 0);
    let zs: Vec<(i64, i64)> = (0..n[1 - first]).map(|_| point(&mut ctx.rng, f, true)).collect();
    deriv::<Cf64>(ctx, f, &zs, 0);
  }
}
