//! Complex arithmetic, polar form and ordering (C12, C13).

use crate::json::*;
use crate::num::*;
use crate::run::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Real;
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Sub};

type Z = (i64, i64);

fn mk<T: Cx>(z: Z, e: i64, nz: bool) -> T {
  let f = |v: i64| if v == 0 && nz { -0.0 } else { sc(v as f64, e) };
  T::c(f(z.0), f(z.1))
}
fn back<T: Cx>(z: &T, e: i64, enc: fn(f64) -> J) -> J {
  let (x, y) = z.xy();
  J::A(vec![enc(sc(x, -e)), enc(sc(y, -e))])
}
fn zj(z: Z) -> J { J::A(vec![J::I(z.0), J::I(z.1)]) }

fn pair<T: Cx>(ctx: &mut Ctx, a: Z, b: Z, ea: i64, eb: i64, nz: bool)
where for<'x> &'x T: Add<&'x T, Output = T> + Sub<&'x T, Output = T> + Mul<&'x T, Output = T> + Div<&'x T, Output = T> {
  let x: T = mk(a, ea, nz);
  let y: T = mk(b, eb, nz);
  // sums need a common exponent
  let ys: T = mk(b, ea, nz);
  let v = |r: Option<T>, e: i64, enc: fn(f64) -> J| val(r, |z| back(&z, e, enc));
  let forms = |p: Option<T>, q: Option<T>, r: Option<T>, e: i64, enc: fn(f64) -> J| J::A(vec![v(p, e, enc), v(q, e, enc), v(r, e, enc)]);
  let add = forms(guard(|| x + ys), guard(|| &x + &ys), guard(|| { let mut t = x; t += ys; t }), ea, ex);
  let sub = forms(guard(|| x - ys), guard(|| &x - &ys), guard(|| { let mut t = x; t -= ys; t }), ea, ex);
  let mul = forms(guard(|| x * y), guard(|| &x * &y), guard(|| { let mut t = x; t *= y; t }), ea + eb, ex);
  let div = forms(guard(|| x / y), guard(|| &x / &y), guard(|| { let mut t = x; t /= y; t }), ea - eb, fx);
  // the quotient of a multiple: (a b) / b = a, recorded divided by 2^sh so that it is below one
  let sh = below(a);
  let xy: T = { let z = (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0); mk(z, ea, nz) };
  let quo = forms(guard(|| xy / y), guard(|| &xy / &y), guard(|| { let mut t = xy; t /= y; t }), ea - eb + sh, wx);
  ctx.out.put(obj! { ev: s("pair"), p: s(T::NAME), a: zj(a), b: zj(b), ea: J::I(ea), eb: J::I(eb), s: J::I(sh),
    add: add, sub: sub, mul: mul, div: div, quo: quo });
}

/// the least power of two above the modulus
fn below(a: Z) -> i64 { (0..20).find(|k| a.0 * a.0 + a.1 * a.1 < 1 << (2 * k)).unwrap() }

fn whole<T: Cx>(ctx: &mut Ctx, n: u64) {
  let g = |r: Option<T>| val(r, |z| { let (x, y) = z.xy(); J::A(vec![hx(x), ex(y)]) });
  ctx.out.put(obj! { ev: s("whole"), p: s(T::NAME), n: hx(n as f64),
    num: g(guard(|| T::usize_to_complex(n as usize))),
    rnum: val(guard(|| T::Precision::usize_to_real(n as usize)), |v| hx(T::wide(v))) });
}

fn consts<T: Cx>(ctx: &mut Ctx, n: usize, z: Z) {
  let g = |r: Option<T>| val(r, |z| exc(&z));
  let w = T::new(T::pr(z.0 as f64), T::pr(z.1 as f64));
  ctx.out.put(obj! { ev: s("consts"), p: s(T::NAME), n: i(n), z: zj(z),
    zero: g(guard(|| T::default())), one: g(guard(|| T::unit())), im: g(guard(|| T::iunit())),
    num: g(guard(|| T::usize_to_complex(n))), new: g(Some(w)),
    re: val(guard(|| w.re()), |v| ex(T::wide(v))), imp: val(guard(|| w.im()), |v| ex(T::wide(v))),
    runit: val(guard(|| T::Precision::unit()), |v| ex(T::wide(v))),
    rnum: val(guard(|| T::Precision::usize_to_real(n)), |v| ex(T::wide(v))) });
}

/// exponents within their ranges whose sum and difference stay representable
fn exps(r: &mut Rng, a: (i64, i64), b: (i64, i64), sum: (i64, i64), diff: i64) -> (i64, i64) {
  loop {
    let (x, y) = (r.int(a.0, a.1), r.int(b.0, b.1));
    if x + y >= sum.0 && x + y <= sum.1 && (x - y).abs() <= diff { return (x, y); }
  }
}

fn both<F: FnMut(bool)>(mut f: F) { f(false); f(true); }

pub fn arith(ctx: &mut Ctx) {
  let k = 2;
  let mut small = vec![];
  for x in -k..=k { for y in -k..=k { small.push((x, y)); } }
  for &a in &small {
    for &b in &small {
      pair::<Cf32>(ctx, a, b, 0, 0, false);
      pair::<Cf64>(ctx, a, b, 0, 0, false);
    }
  }
  for &a in &small {
    both(|p| {
      let b = (0, 0);
      if p { pair::<Cf32>(ctx, a, b, 0, 0, true) } else { pair::<Cf64>(ctx, a, b, 0, 0, true) }
    });
  }
  for _ in 0..ctx.reps(3000, 40000) {
    let r = &mut ctx.rng;
    let m = *r.pick(&[3, 9, 30, 100, 700]);
    // double precision holds larger products exactly
    let w = *r.pick(&[3, 30, 700, 4096, 20000]);
    let z = |r: &mut Rng, m: i64| {
      let mut f = |r: &mut Rng| if r.int(0, 7) == 0 { 0 } else { r.int(-m, m) };
      (f(r), f(r))
    };
    let nz = r.int(0, 9) == 0;
    let far = r.int(0, 2) == 0;
    let f = r.int(0, 2);
    if f != 1 {
      let (a, b) = (z(r, m), z(r, m));
      let (ea, eb) = if far { exps(r, (-60, 60), (-60, 50), (-110, 90), 95) } else { (0, 0) };
      pair::<Cf32>(ctx, a, b, ea, eb, nz);
    }
    if f != 0 {
      let r = &mut ctx.rng;
      let (a, b) = (z(r, w), z(r, w));
      let (ea, eb) = if far { exps(r, (-500, 500), (-500, 490), (-990, 940), 950) } else { (0, 0) };
      pair::<Cf64>(ctx, a, b, ea, eb, nz);
    }
  }
  let mut ns: Vec<usize> = (0..40).collect();
  ns.extend([100, 255, 256, 257, 1000, 4095, 65535, 65536, 1 << 20, 16777215]);
  for n in ns {
    let z = (ctx.rng.int(-1000, 1000), ctx.rng.int(-1000, 1000));
    consts::<Cf32>(ctx, n, z);
    consts::<Cf64>(ctx, n, z);
  }
  for k in 0..48 {
    // 24 significant bits fit into single precision
    let n = ctx.rng.next() >> 40;
    whole::<Cf32>(ctx, if k < 24 { n >> (23 - k) } else { n << (k - 24) });
    let n = ctx.rng.next() >> (63 - k);
    whole::<Cf64>(ctx, n);
    whole::<Cf64>(ctx, (1 << k) + 1);
  }
}

fn ord(o: Option<Ordering>) -> J {
  J::I(match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 9 })
}

fn one<T: Cx>(ctx: &mut Ctx, a: Z, e: i64, nz: bool) {
  let z: T = mk(a, e, nz);
  let nsq = val(guard(|| z.norm_sq()), |v| ex(sc(T::wide(v), -2 * e)));
  let sh = below(a);
  let norm = val(guard(|| z.norm()), |v| wx(sc(T::wide(v), -e - sh)));
  let conj = val(guard(|| z.conj()), |v| back(&v, e, ex));
  let ph = val(guard(|| z.phase()), |v| wx(T::wide(v)));
  let round = val(guard(|| T::newe(z.norm(), z.phase())), |v| back(&v, e + sh, wx));
  ctx.out.put(obj! { ev: s("one"), p: s(T::NAME), a: zj(a), e: J::I(e), s: J::I(sh),
    nsq: nsq, norm: norm, conj: conj, ph: ph, round: round });
}

fn cmp<T: Cx>(ctx: &mut Ctx, a: Z, b: Z, e: i64) {
  let (x, y): (T, T) = (mk(a, e, false), mk(b, e, false));
  let b4 = |r: Option<bool>| val(r, J::B);
  ctx.out.put(obj! { ev: s("cmp"), p: s(T::NAME), a: zj(a), b: zj(b),
    lt: b4(guard(|| x < y)), le: b4(guard(|| x <= y)), gt: b4(guard(|| x > y)), ge: b4(guard(|| x >= y)),
    eq: b4(guard(|| x == y)), pc: val(guard(|| x.partial_cmp(&y)), ord) });
}

fn pol<T: Cx>(ctx: &mut Ctx, a: i64, p64: i64, e: i64) {
  // modulus a * 2^e, angle p64 / 64
  let r = guard(|| T::newe(T::pr(sc(a as f64, e)), T::pr(p64 as f64 / 64.0)));
  ctx.out.put(obj! { ev: s("pol"), p: s(T::NAME), a: J::I(a), p64: J::I(p64), r: val(r, |z| back(&z, e + 4, wx)) });
}

pub fn polar(ctx: &mut Ctx) {
  let k = 4;
  let mut small = vec![];
  for x in -k..=k { for y in -k..=k { small.push((x, y)); } }
  for &a in &small {
    both(|nz| { one::<Cf32>(ctx, a, 0, nz); one::<Cf64>(ctx, a, 0, nz); });
    for &b in &small {
      if ctx.rng.int(0, 1) == 0 { cmp::<Cf32>(ctx, a, b, 0) } else { cmp::<Cf64>(ctx, a, b, 0) }
    }
  }
  for _ in 0..ctx.reps(900, 12000) {
    let r = &mut ctx.rng;
    let m = *r.pick(&[5, 12, 25, 40]);
    let a = (r.int(-m, m), r.int(-m, m));
    let triples = [(3, 4), (5, 12), (8, 15), (7, 24), (20, 21), (0, 5), (5, 0), (-3, 4), (4, -3)];
    let b = if r.flip() { *r.pick(&triples) } else { (r.int(-m, m), r.int(-m, m)) };
    let nz = r.flip();
    let (e32, e64) = (r.int(-52, 50), r.int(-480, 480));
    let (a2, p64) = (r.int(-9, 9), r.int(-512, 512));
    let (m32, m64) = (*r.pick(&[40, 700, 2000]), *r.pick(&[40, 2000, 20000]));
    let big = |r: &mut Rng, m: i64| {
      // every now and then one part much smaller than the other
      let mut f = |r: &mut Rng| if r.int(0, 3) == 0 { r.int(-9, 9) } else { r.int(-m, m) };
      (f(r), f(r))
    };
    let (b32, b64) = (big(r, m32), big(r, m64));
    let c64 = match r.int(0, 2) { 0 => (b64.1, -b64.0), 1 => (b64.0, b64.1 + r.int(-1, 1)), _ => big(r, m64) };
    one::<Cf32>(ctx, a, e32, nz);
    one::<Cf64>(ctx, a, e64, nz);
    one::<Cf32>(ctx, b, 0, nz);
    one::<Cf32>(ctx, b32, 0, nz);
    one::<Cf64>(ctx, b64, if nz { 0 } else { e64 }, nz);
    cmp::<Cf32>(ctx, a, b, e32);
    cmp::<Cf64>(ctx, a, b, e64);
    cmp::<Cf64>(ctx, b, (a.1, a.0), 0);
    cmp::<Cf64>(ctx, b64, c64, 0);
    pol::<Cf32>(ctx, a2, p64, e32);
    pol::<Cf64>(ctx, a2, p64, e64);
  }
  let _ = <f32 as Real>::unit();
}
