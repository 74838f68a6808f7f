//! Matrices: update histories, views, linear operations, convolution, blocks (C14 - C18).

use crate::json::*;
use crate::num::*;
use crate::run::*;
use rayon::prelude::*;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use std::cell::RefCell;

fn iv(v: &[i32]) -> J { arr(v.iter().map(|x| J::I(*x as i64))) }
fn pairj(v: &[usize]) -> J { ints(v.iter()) }

// ---------------------------------------------------------------- histories

fn look(m: &Matrix<i32>) -> Vec<(String, J)> {
  vec![
    ("shape".into(), pairj(m.get_shape())),
    ("cap".into(), pairj(m.get_capacity())),
    ("body".into(), iv(m.get_body())),
  ]
}

/// how, rows, columns; operations with a length or index
fn history(ctx: &mut Ctx, how: &str, r: usize, c: usize, ops: &[(String, usize)]) {
  let mut next = 0;
  let mut fresh = |n: usize| -> Vec<i32> { (0..n).map(|_| { next += 1; next }).collect() };
  let rows: Vec<Vec<i32>> = if how == "body" { (0..r).map(|_| fresh(c)).collect() } else { vec![] };
  let mut m: Matrix<i32> = match how {
    "new" => Matrix::new(),
    "cap" => Matrix::with_capacity([r, c]),
    _ => Matrix::from_body(rows.concat(), [r, c]),
  };
  let init = obj! { how: s(how), r: i(r), c: i(c), rows: arr(rows.iter().map(|x| iv(x))) };
  let first = J::O(look(&m));
  let mut rec = vec![];
  for (op, n) in ops {
    let mut arg = if op == "del_row" || op == "dealloc" { vec![] } else { fresh(*n) };
    let before = arg.clone();
    let none = |_| J::A(vec![]);
    let r = match op.as_str() {
      "add_row" => { let a = std::mem::take(&mut arg); res(guard(|| m.add_row(a)), none) }
      "add_mut_row" => res(guard(|| m.add_mut_row(&mut arg)), none),
      "add_col" => res(guard(|| m.add_col(&mut arg)), none),
      "del_row" => res(guard(|| m.del_row(*n)), |v| iv(&v)),
      _ => val(guard(|| m.dealloc()), none),
    };
    let dead = r.get("t").str() == "panic";
    let mut e = vec![("op".to_string(), s(op)), ("n".into(), i(*n)), ("arg".into(), iv(&before)),
      ("res".into(), r), ("rest".into(), iv(&arg))];
    e.extend(look(&m));
    rec.push(J::O(e));
    if dead { break; }
  }
  ctx.out.put(obj! { ev: s("history"), init: init, first: first, ops: J::A(rec) });
}

pub fn container(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let ini = t.get("init");
    let ops: Vec<_> = t.get("ops").arr().iter().map(|o| (o.get("op").str().to_string(), o.get("n").us())).collect();
    history(ctx, ini.get("how").str(), ini.get("r").us(), ini.get("c").us(), &ops);
  }
  for n in 0..ctx.reps(400, 6000) {
    let g = &mut ctx.rng;
    let long = n % 200 == 7;
    let (r, c) = if long { (g.us(257, 300), g.us(2, 5)) } else if n % 20 == 0 { (g.us(0, 40), g.us(0, 40)) } else { (g.us(0, 9), g.us(0, 7)) };
    let how = if long { if n % 400 == 7 { "body" } else { "cap" } } else if r == 0 || c == 0 { *g.pick(&["new", "cap"]) } else { *g.pick(&["cap", "cap", "body"]) };
    // a plain list of rows alongside, only to aim most operations at acceptance
    let (mut w, mut h) = if how == "body" { (c, r) } else { (0, 0) };
    let (mut cr, mut cc) = if how == "new" { (0, 0) } else { (r, c) };
    let mut ops = vec![];
    if long && how == "cap" {
      w = c - 1;
      for _ in 0..g.us(257, r) { ops.push((String::from("add_row"), w)); h += 1; }
    }
    for _ in 0..if long { 150 } else { g.us(1, 30) } {
      let aim = g.int(0, 9) < 8;
      let op = *g.pick(&["add_row", "add_mut_row", "add_row", "add_mut_row", "add_col", "add_col", "del_row", "dealloc"]);
      if op == "dealloc" && g.int(0, 2) > 0 { continue; }
      let n = match op {
        "add_row" | "add_mut_row" => if aim { if h == 0 && w == 0 { g.us(0, c) } else { w } } else { g.us(0, 8) },
        "add_col" => if aim { h } else { g.us(0, 8) },
        "del_row" => if aim && h > 0 { if long && g.flip() { h - 1 - g.us(0, 5).min(h - 1) } else { g.us(0, h - 1) } } else { g.us(0, 10) },
        _ => 0,
      };
      if op == "add_col" && h == 0 && n == 0 { continue; }
      match op {
        "add_row" | "add_mut_row" => if (n == w || (h == 0 && w == 0)) && h < cr && n <= cc { h += 1; w = n; },
        "add_col" => if n == h && w < cc { w += 1; },
        "del_row" => if n < h { h -= 1; if h == 0 { w = 0; } cr = h; cc = w; },
        _ => { cr = h; cc = w; }
      }
      ops.push((op.to_string(), n));
    }
    if ops.is_empty() { ops.push(("dealloc".into(), 0)); }
    history(ctx, how, r, c, &ops);
  }
}

// -------------------------------------------------------------------- views

/// the numbers in a line of text
fn numbers(line: &str) -> J {
  let mut out = vec![];
  let mut cur = String::new();
  for ch in line.chars().chain(" ".chars()) {
    if ch.is_ascii_digit() || ch == '-' || ch == '.' || (ch == 'e' && !cur.is_empty()) { cur.push(ch); continue; }
    if !cur.is_empty() { out.push(cur.parse::<f64>().map(ex).unwrap_or(J::I(SENTINEL))); cur.clear(); }
  }
  J::A(out)
}

fn matj(m: &Matrix<i32>) -> J { obj! { shape: pairj(m.get_shape()), body: iv(m.get_body()) } }

fn view(ctx: &mut Ctx, how: &str, r: usize, c: usize, pr: usize, pc: usize) {
  let g = &mut ctx.rng;
  let body: Vec<i32> = (0..r * c).map(|k| (if g.flip() { 1 } else { -1 }) * ((k as i32 + 1) * 10 + g.int(0, 9) as i32)).collect();
  let mk = || -> Matrix<i32> {
    match how {
      "new" => Matrix::new(),
      "cap" => Matrix::with_capacity([3, 2]),
      // built row by row, with spare capacity
      "rows" => {
        let mut m = Matrix::with_capacity([r + 2, c + 1]);
        for k in 0..r { m.add_row(body[k * c..(k + 1) * c].to_vec()).unwrap(); }
        m
      }
      _ => Matrix::from_body(body.clone(), [r, c]),
    }
  };
  let m = match guard(mk) { Some(m) => m, None => { ctx.out.put(obj! { ev: s("broken"), op: s("building a matrix") }); return; } };
  let (hr, hc) = (r + 2, c + 2);
  let elm = arr((0..hr).flat_map(|a| (0..hc).map(move |b| (a, b))).map(|(a, b)| res(guard(|| m.elm(a, b).copied()), |v| J::I(v as i64))));
  let wr = |f: &dyn Fn(&mut Matrix<i32>) -> Option<()>| -> J {
    let mut t = match guard(mk) { Some(t) => t, None => return obj! { t: s("panic") } };
    match guard(|| f(&mut t)) {
      Some(Some(())) => obj! { t: s("ok"), v: matj(&t) },
      Some(None) => obj! { t: s("err"), e: s("refused"), v: matj(&t) },
      None => obj! { t: s("panic") },
    }
  };
  let elm_mut = arr((0..hr).flat_map(|a| (0..hc).map(move |b| (a, b)))
    .map(|(a, b)| wr(&|t| t.elm_mut(a, b).ok().map(|x| *x = 7777))));
  let row = arr((0..hr).map(|a| res(guard(|| m.row(a).map(|x| x.to_vec())), |v| iv(&v))));
  let row_mut = arr((0..hr).map(|a| wr(&|t| t.row_as_mut(a).ok().map(|x| x.iter_mut().enumerate().for_each(|(k, y)| *y = 8000 + k as i32)))));
  let into = |n: usize, f: &dyn Fn(&mut [i32]) -> Result<(), String>| -> J {
    let mut buf = vec![-5; n];
    match guard(|| f(&mut buf)) {
      Some(Ok(())) => obj! { t: s("ok"), v: iv(&buf) },
      Some(Err(e)) => obj! { t: s("err"), e: s(&e), v: iv(&buf) },
      None => obj! { t: s("panic") },
    }
  };
  let f = |e: &dyn std::fmt::Debug| format!("{:?}", e);
  let row_sl = arr((0..hr).map(|a| into(c, &|b| m.row_into_slice(a, b).map_err(|e| f(&e)))));
  let row_bad = arr((0..hr).map(|a| into(c + 1, &|b| m.row_into_slice(a, b).map_err(|e| f(&e)))));
  let col_sl = arr((0..hc).map(|a| into(r, &|b| m.col_into_slice(a, b).map_err(|e| f(&e)))));
  let col_bad = arr((0..hc).map(|a| into(r + 1, &|b| m.col_into_slice(a, b).map_err(|e| f(&e)))));
  let col = arr((0..hc).map(|a| res(guard(|| m.copy_col_into_vec(a)), |v| iv(&v))));
  let rows = |v: Vec<Vec<i32>>| arr(v.iter().map(|x| iv(x)));
  let iter = val(guard(|| m.rows_as_iter().map(|x| x.to_vec()).collect::<Vec<_>>()), rows);
  let par = val(guard(|| m.rows_as_par_chunks().map(|x| x.to_vec()).collect::<Vec<_>>()), rows);
  let iter_mut = wr(&|t| { t.rows_as_iter_mut().enumerate().for_each(|(a, x)| x.iter_mut().for_each(|y| *y = 9000 + a as i32)); Some(()) });
  let body_mut = wr(&|t| { t.get_body_as_mut().iter_mut().enumerate().for_each(|(a, x)| *x = 6000 + a as i32); Some(()) });
  let mut sl = vec![];
  if c > 0 {
    // also windows that begin or end beyond the last row
    for a in 0..hr {
      for n in 1..=(hr - a) {
        sl.push(obj! { i: i(a), n: i(n), r: val(guard(|| m.get_slider(a, n).map(|x| x.to_vec()).collect::<Vec<_>>()), rows) });
      }
    }
  }
  let export = val(guard(|| m.clone().export_body()), |v| iv(&v));
  let into_iter = val(guard(|| m.clone().body_into_iter().collect::<Vec<_>>()), |v| iv(&v));
  let flip = res(guard(|| m.flip()), |v| matj(&v));
  let pad = val(guard(|| m.clone().pad((pr, pc))), |v| matj(&v));
  let disp = val(guard(|| format!("{}", m)), |t| arr(t.lines().map(numbers)));
  let path = format!("{}/view.csv", ctx.scratch);
  let csv = val(guard(|| m.to_csv(path.clone()).map(|_| std::fs::read_to_string(&path).unwrap_or_default()).unwrap_or_default()),
    |t| arr(t.lines().map(numbers)));
  let (g1, g2) = (ctx.rng.us(0, 5), ctx.rng.us(0, 5));
  let tomat = arr([(r, c), (c, r), (1, r * c), (r * c, 1), (r + 1, c), (r, c + 1), (g1, g2), (0, 0)].iter()
    .map(|&(a, b)| obj! { r: i(a), c: i(b), m: res(guard(|| body.to_matrix([a, b])), |v| matj(&v)) }));
  ctx.out.put(obj! { ev: s("view"), how: s(how), r: i(r), c: i(c), want: iv(&body), shape: pairj(m.get_shape()), body: iv(m.get_body()),
    elm: elm, elmmut: elm_mut, row: row, rowmut: row_mut, rowsl: row_sl, rowbad: row_bad, colsl: col_sl, colbad: col_bad, col: col,
    iter: iter, par: par, itermut: iter_mut, bodymut: body_mut, sl: J::A(sl), export: export, intoiter: into_iter,
    flip: flip, pr: i(pr), pc: i(pc), pad: pad, disp: disp, csv: csv, tomat: tomat });
}

/// views of a large matrix holding 1, 2, 3, ... row by row
fn large(ctx: &mut Ctx, r: usize, c: usize) {
  let body: Vec<i32> = (1..=(r * c) as i32).collect();
  let mk = || Matrix::from_body(body.clone(), [r, c]);
  let m = match guard(mk) { Some(m) => m, None => { ctx.out.put(obj! { ev: s("broken"), op: s("building a matrix") }); return; } };
  let rows = |v: Vec<Vec<i32>>| arr(v.iter().map(|x| iv(x)));
  let some = |g: &mut Rng, n: usize| -> Vec<usize> { [0, n - 1, n, n + 1].into_iter().chain((0..4).map(|_| g.us(0, n - 1))).collect() };
  let (ri, ci) = (some(&mut ctx.rng, r), some(&mut ctx.rng, c));
  let elm = arr(ri.iter().flat_map(|a| ci.iter().map(move |b| (*a, *b))).map(|(a, b)| obj! { a: i(a), b: i(b), r: res(guard(|| m.elm(a, b).copied()), |v| J::I(v as i64)) }));
  let row = arr(ri.iter().map(|a| obj! { a: i(*a), r: res(guard(|| m.row(*a).map(|x| x.to_vec())), |v| iv(&v)) }));
  let col = arr(ci.iter().map(|b| obj! { b: i(*b), r: res(guard(|| m.copy_col_into_vec(*b)), |v| iv(&v)) }));
  let colsl = arr(ci.iter().map(|b| { let mut t = vec![0; r]; obj! { b: i(*b), r: res(guard(|| m.col_into_slice(*b, &mut t).map(|_| t)), |v| iv(&v)) } }));
  let iter = val(guard(|| m.rows_as_iter().map(|x| x.to_vec()).collect::<Vec<_>>()), rows);
  let par = val(guard(|| m.rows_as_par_chunks().map(|x| x.to_vec()).collect::<Vec<_>>()), rows);
  let flip = res(guard(|| m.flip()), |v| matj(&v));
  let (pr, pc) = (ctx.rng.us(0, 2), ctx.rng.us(0, 2));
  let pad = val(guard(|| m.clone().pad((pr, pc))), |v| matj(&v));
  let disp = val(guard(|| format!("{}", m)), |t| arr(t.lines().map(numbers)));
  let path = format!("{}/view.csv", ctx.scratch);
  let csv = val(guard(|| m.to_csv(path.clone()).map(|_| std::fs::read_to_string(&path).unwrap_or_default()).unwrap_or_default()),
    |t| arr(t.lines().map(numbers)));
  let tomat = res(guard(|| body.to_matrix([c, r])), |v| matj(&v));
  ctx.out.put(obj! { ev: s("large"), r: i(r), c: i(c), body: iv(m.get_body()), shape: pairj(m.get_shape()), elm: elm, row: row, col: col, colsl: colsl,
    iter: iter, par: par, flip: flip, pr: i(pr), pc: i(pc), pad: pad, disp: disp, csv: csv, tomat: tomat });
}

/// printing and export of numbers that are not whole
fn text(ctx: &mut Ctx, r: usize, c: usize) {
  let g = &mut ctx.rng;
  let body: Vec<f64> = (0..r * c).map(|_| loop {
    let v = match g.int(0, 2) {
      0 => f64::from_bits(g.next()),
      1 => (g.next() >> 11) as f64 / (1u64 << 53) as f64,
      _ => g.int(-9999, 9999) as f64 / 1000.0,
    };
    if v.is_finite() { break v; }
  }).collect();
  let bits = |v: &f64| s(&format!("{:016x}", v.to_bits()));
  let m = Matrix::from_body(body.clone(), [r, c]);
  let lines = |t: &str| arr(t.lines().take(r).map(|l| arr(
    l.split(|ch: char| ch.is_whitespace() || ",[]".contains(ch)).filter(|x| !x.is_empty())
      .map(|x| x.parse::<f64>().map(|v| bits(&v)).unwrap_or(s(x))))));
  let path = format!("{}/text.csv", ctx.scratch);
  let csv = val(guard(|| m.to_csv(path.clone()).map(|_| std::fs::read_to_string(&path).unwrap_or_default()).unwrap_or_default()), |t| lines(&t));
  let disp = val(guard(|| format!("{}", m)), |t| lines(&t));
  ctx.out.put(obj! { ev: s("text"), r: i(r), c: i(c), want: arr(body.iter().map(bits)), disp: disp, csv: csv });
}

pub fn views(ctx: &mut Ctx) {
  view(ctx, "new", 0, 0, 1, 2);
  view(ctx, "cap", 0, 0, 1, 1);
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let (r, c) = (t.get("r").us(), t.get("c").us());
    if r > 0 && c == 0 { continue; }
    let how = if r > 0 && ctx.rng.flip() { "rows" } else { "body" };
    view(ctx, how, r, c, t.get("pr").us(), t.get("pc").us());
  }
  for _ in 0..ctx.reps(10, 200) {
    let (r, c) = (ctx.rng.us(1, 9), ctx.rng.us(1, 9));
    let (pr, pc) = (ctx.rng.us(0, 4), ctx.rng.us(0, 4));
    view(ctx, if ctx.seed % 2 == 0 { "rows" } else { "body" }, r, c, pr, pc);
    text(ctx, r, c);
  }
  for _ in 0..ctx.reps(3, 30) {
    let (r, c) = (ctx.rng.us(10, 40), ctx.rng.us(1, 3));
    let (r, c) = if ctx.rng.flip() { (r, c) } else { (c, r) };
    view(ctx, "body", r, c, 0, 13);
    text(ctx, c, r * 8);
  }
  let (r, c) = (ctx.rng.us(65, 80), ctx.rng.us(65, 80));
  large(ctx, r, c);
  let (r, c) = (ctx.rng.us(1030, 1500), ctx.rng.us(2, 4));
  large(ctx, r, c);
  large(ctx, c, r);
}

// -------------------------------------------------------- linear operations

fn rc<T: Cx>(g: &mut Rng, m: i64) -> T { T::c(g.int(-m, m) as f64, g.int(-m, m) as f64) }
fn rv<T: Cx>(g: &mut Rng, n: usize, m: i64) -> Vec<T> { (0..n).map(|_| rc(g, m)).collect() }
fn rm<T: Cx>(g: &mut Rng, r: usize, c: usize, m: i64) -> Matrix<T> { Matrix::from_body(rv(g, r * c, m), [r, c]) }

/// shape, capacity and row-major contents
fn ob<T: Cx>(e: Enc<T>, m: &Matrix<T>) -> J {
  obj! { shape: pairj(m.get_shape()), cap: pairj(m.get_capacity()), body: encv(e, m.get_body()) }
}
fn none<X>(_: X) -> J { J::A(vec![]) }

fn mat<T: Cx>(ctx: &mut Ctx, r: usize, c: usize, r2: usize, c2: usize) {
  let g = &mut ctx.rng;
  let how = |g: &mut Rng, r: usize, c: usize| -> Matrix<T> { if r == 0 && c == 0 && g.flip() { Matrix::new() } else { rm(g, r, c, 30) } };
  // operands of any magnitude; the results are brought back before they are recorded
  let (ea, ex, ek) = (g.expo::<T>(30), g.expo::<T>(30), g.expo::<T>(30));
  let (a, b) = (how(g, r, c), how(g, r2, c2));
  let (a, b) = (scm(&a, ea), scm(&b, ea));
  let k: T = { let mut k: T = rc(g, 5); if k.xy() == (0.0, 0.0) { k = T::c(2.0, -1.0); } k };
  let mut sum = a.clone();
  let add = res(guard(|| sum.add_mut(&b)), none);
  let x: Vec<T> = rv(g, c2, 9);
  let xs = scv(&x, ex);
  let mulv = res(guard(|| a.mul_vec(xs.clone())), |v| encv(exc, &scv(&v, -ea - ex)));
  let muls = res(guard(|| a.mul_slice(&xs)), |v| encv(exc, &scv(&v, -ea - ex)));
  let op = |f: &dyn Fn(&mut Matrix<T>) -> Result<(), String>, e: Enc<T>, by: i64| -> J {
    let mut t = a.clone();
    match guard(|| f(&mut t)) {
      Some(Ok(())) => obj! { t: s("ok"), v: ob(e, &scm(&t, -by)) },
      Some(Err(x)) => obj! { t: s("err"), e: s(&x) },
      None => obj! { t: s("panic") },
    }
  };
  let f = |e: &dyn std::fmt::Debug| format!("{:?}", e);
  let adds = op(&|t| t.add_mut_scalar(scz(&k, ea)).map_err(|e| f(&e)), exc, ea);
  let mulsc = op(&|t| t.mul_mut_scalar(scz(&k, ek)).map_err(|e| f(&e)), exc, ea + ek);
  let divsc = op(&|t| t.div_mut_scalar(scz(&k, ek)).map_err(|e| f(&e)), fxc, ea - ek);
  ctx.out.put(obj! { ev: s("mat"), p: s(T::NAME), a: ob(exc, &scm(&a, -ea)), b: ob(exc, &scm(&b, -ea)), add: add, sum: ob(exc, &scm(&sum, -ea)),
    x: encv(exc, &x), mulv: mulv, muls: muls, k: exc(&k), adds: adds, mulsc: mulsc, divsc: divsc });
}

fn vect<T: Cx>(ctx: &mut Ctx, n: usize, n2: usize) {
  let g = &mut ctx.rng;
  let m = if n > 6000 { 5 } else { 30 };
  let (ex, ey, ek) = (g.expo::<T>(30), g.expo::<T>(30), g.expo::<T>(30));
  let (x0, y0): (Vec<T>, Vec<T>) = (rv(g, n, m), rv(g, n2, m));
  let k: T = { let mut k: T = rc(g, 5); if k.xy() == (0.0, 0.0) { k = T::c(2.0, -1.0); } k };
  let (x, y, z, ks) = (scv(&x0, ex), scv(&y0, ex), scv(&y0, ey), scz(&k, ek));
  let mut a = x.clone();
  let addm = res(guard(|| a.add_slice_mut(&y)), none);
  let mut m = x.clone();
  let mulm = res(guard(|| m.mul_slice_mut(&z)), none);
  // a refused product leaves the vector as it was
  let em = if n == n2 { ex + ey } else { ex };
  let add = res(guard(|| x.add_slice(&y)), |v| encv(exc, &scv(&v, -ex)));
  let mul = res(guard(|| x.as_slice().mul_slice(&z)), |v| encv(exc, &scv(&v, -ex - ey)));
  let mut kv = x.clone();
  let kres = res(guard(|| kv.as_mut_slice().mul_mut_scalar(ks)), none);
  let mut ds = x.clone();
  let dres = res(guard(|| ds.as_mut_slice().div_mut_scalar(ks)), none);
  let dot = val(guard(|| x.scalar_prod(&z)), |z| exc(&scz(&z, -ex - ey)));
  ctx.out.put(obj! { ev: s("vec"), p: s(T::NAME), x: encv(exc, &x0), y: encv(exc, &y0), k: exc(&k),
    addm: addm, addv: encv(exc, &scv(&a, -ex)), mulm: mulm, mulv: encv(exc, &scv(&m, -em)), add: add, mul: mul,
    kres: kres, ks: encv(exc, &scv(&kv, -ex - ek)), dres: dres, ds: encv(fxc, &scv(&ds, ek - ex)), dot: dot });
}

pub fn linear(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    if t.get("op").str() == "vec" {
      let (n, n2) = (t.get("n").us(), t.get("n2").us());
      vect::<Cf32>(ctx, n, n2);
      vect::<Cf64>(ctx, n, n2);
    } else {
      let (r, c, r2, c2) = (t.get("r").us(), t.get("c").us(), t.get("r2").us(), t.get("c2").us());
      // shapes without elements exist only as 0 x 0
      if (r == 0) != (c == 0) || (r2 == 0) != (c2 == 0) { continue; }
      mat::<Cf32>(ctx, r, c, r2, c2);
      mat::<Cf64>(ctx, r, c, r2, c2);
    }
  }
  for _ in 0..ctx.reps(150, 4000) {
    let (r, c) = (ctx.rng.us(1, 12), ctx.rng.us(1, 12));
    let (r2, c2) = if ctx.rng.int(0, 3) > 0 { (r, c) } else { (c, r) };
    if ctx.rng.flip() { mat::<Cf32>(ctx, r, c, r2, c2); } else { mat::<Cf64>(ctx, r, c, r2, c2); }
    let n = ctx.rng.us(1, 40);
    let n2 = if ctx.rng.int(0, 3) > 0 { n } else { ctx.rng.us(1, 40) };
    if ctx.rng.flip() { vect::<Cf32>(ctx, n, n2); } else { vect::<Cf64>(ctx, n, n2); }
  }
  // a few large ones
  for _ in 0..ctx.reps(6, 60) {
    let (r, n) = (big(&mut ctx.rng), big(&mut ctx.rng));
    let c = if r > 200 { ctx.rng.us(1, 3) } else { ctx.rng.us(1, 20) };
    let (r, c) = if ctx.rng.flip() { (r, c) } else { (c, r) };
    if ctx.rng.flip() { mat::<Cf32>(ctx, r, c, r, c); vect::<Cf64>(ctx, n, n); } else { mat::<Cf64>(ctx, r, c, r, c); vect::<Cf32>(ctx, n, n); }
  }
  // two very large ones of each kind
  for k in 0..2 {
    let (r, c) = (ctx.rng.us(64, 80), ctx.rng.us(65, 80));
    let n = if k == 0 { ctx.rng.us(4100, 5000) } else { ctx.rng.us(10001, 12000) };
    if ctx.seed % 2 == k { mat::<Cf32>(ctx, r, c, r, c); vect::<Cf64>(ctx, n, n); } else { mat::<Cf64>(ctx, r, c, r, c); vect::<Cf32>(ctx, n, n); }
  }
}

/// around and beyond the powers of two
fn big(g: &mut Rng) -> usize { *g.pick(&[31, 33, 50, 63, 65, 100, 127, 129, 257, 300, 513, 1025]) }

// ------------------------------------------------------ convolution, blocks

fn conv<T: Cx>(ctx: &mut Ctx, r: usize, c: usize, kr: usize, kc: usize) {
  let a: Matrix<T> = rm(&mut ctx.rng, r, c, 20);
  let k: Matrix<T> = rm(&mut ctx.rng, kr, kc, 20);
  let (ea, ek) = (ctx.rng.expo::<T>(40), ctx.rng.expo::<T>(40));
  let (sa, sk) = (scm(&a, ea), scm(&k, ek));
  let plain = res(guard(|| sa.convolution(&sk)), |m| ob(exc, &scm(&m, -ea - ek)));
  let conj = res(guard(|| sa.cconvolution(&sk)), |m| ob(exc, &scm(&m, -ea - ek)));
  ctx.out.put(obj! { ev: s("conv"), p: s(T::NAME), a: encm(exc, &a), k: encm(exc, &k), plain: plain, conj: conj });
}

pub fn convolution(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let (r, c, kr, kc) = (t.get("r").us(), t.get("c").us(), t.get("kr").us(), t.get("kc").us());
    conv::<Cf32>(ctx, r, c, kr, kc);
    conv::<Cf64>(ctx, r, c, kr, kc);
  }
  for _ in 0..ctx.reps(120, 3000) {
    let g = &mut ctx.rng;
    let (r, c, kr, kc) = (g.us(1, 12), g.us(1, 12), g.us(1, 6), g.us(1, 6));
    if g.flip() { conv::<Cf32>(ctx, r, c, kr, kc); } else { conv::<Cf64>(ctx, r, c, kr, kc); }
  }
  for _ in 0..ctx.reps(4, 40) {
    let g = &mut ctx.rng;
    let b = big(g);
    let (r, c) = if g.flip() { (b, g.us(3, 8)) } else { (g.us(3, 8), b) };
    let (kr, kc) = (g.us(1, 3), g.us(1, 3));
    conv::<Cf32>(ctx, r, c, kr, kc);
    conv::<Cf64>(ctx, c, r, kr, kc);
    // long kernels
    let g = &mut ctx.rng;
    let (kr, kc, m, n) = (g.us(1, 3), big(g).min(300), g.us(0, 2), g.us(0, 3));
    conv::<Cf64>(ctx, kr + m, kc + n, kr, kc);
    conv::<Cf32>(ctx, kc + n, kr + m, kc, kr);
    let g = &mut ctx.rng;
    let (kr, kc, m, n) = (g.us(7, 36), g.us(7, 36), g.us(0, 2), g.us(0, 2));
    if g.flip() { conv::<Cf32>(ctx, kr + m, kc + n, kr, kc); } else { conv::<Cf64>(ctx, kr + m, kc + n, kr, kc); }
  }
  // large in both directions
  let (r, c) = (ctx.rng.us(65, 76), ctx.rng.us(65, 76));
  if ctx.seed % 2 == 0 { conv::<Cf32>(ctx, r, c, 3, 2); } else { conv::<Cf64>(ctx, r, c, 2, 3); }
}

/// block functions on numbers that tell the order of the elements
pub fn blockf<T: Cx>(f: &str) -> fn(&[T]) -> T {
  match f {
    "sum" => |b| b.iter().fold(T::default(), |a, x| a + *x),
    "wsum" => |b| b.iter().enumerate().fold(T::default(), |a, (k, x)| a + *x * T::usize_to_complex(k + 1)),
    "first" => |b| b[0],
    "mean" => |b| b.iter().fold(T::default(), |a, x| a + *x) / T::usize_to_complex(b.len()),
    _ => |b| b[b.len() - 1],
  }
}

fn block<T: Cx>(ctx: &mut Ctx, r: usize, c: usize, br: usize, bc: usize) {
  let mut a: Matrix<T> = rm(&mut ctx.rng, r, c, 20);
  // distinct real parts, so that every element is recognised
  a.get_body_as_mut().iter_mut().enumerate().for_each(|(k, z)| *z = T::c(k as f64 + 1.0, z.xy().1));
  let name = if br * bc > 60 { *ctx.rng.pick(&["sum", "first", "last"]) } else { *ctx.rng.pick(&["sum", "wsum", "first", "last"]) };
  let f = blockf::<T>(name);
  let seen: RefCell<Vec<Vec<T>>> = RefCell::new(vec![]);
  let ea = ctx.rng.expo::<T>(100);
  let sa = scm(&a, ea);
  let red = res(guard(|| sa.block_reduce(&[br, bc], |b: &[T]| { seen.borrow_mut().push(scv(b, -ea)); f(b) })), |m| ob(exc, &scm(&m, -ea)));
  let calls = arr(seen.borrow().iter().map(|b| encv(exc, b)));
  ctx.out.put(obj! { ev: s("block"), p: s(T::NAME), a: encm(exc, &a), br: i(br), bc: i(bc), f: s(name), red: red, calls: calls });
}

fn ups<T: Cx>(ctx: &mut Ctx, r: usize, c: usize, br: usize, bc: usize, kr: usize, kc: usize) {
  let a: Matrix<T> = rm(&mut ctx.rng, r, c, 20);
  let k: Matrix<T> = rm(&mut ctx.rng, kr, kc, 20);
  let (ea, ek) = (ctx.rng.expo::<T>(40), ctx.rng.expo::<T>(40));
  let (sa, sk) = (scm(&a, ea), scm(&k, ek));
  let up = res(guard(|| sa.fractional_upsampling(&[br, bc], &sk)), |m| ob(exc, &scm(&m, -ea - ek)));
  ctx.out.put(obj! { ev: s("ups"), p: s(T::NAME), a: encm(exc, &a), br: i(br), bc: i(bc), k: encm(exc, &k), up: up });
}

pub fn blocks(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let (r, c, br, bc) = (t.get("r").us(), t.get("c").us(), t.get("br").us(), t.get("bc").us());
    block::<Cf32>(ctx, r, c, br, bc);
    block::<Cf64>(ctx, r, c, br, bc);
  }
  for _ in 0..ctx.reps(100, 2500) {
    let g = &mut ctx.rng;
    let (br, bc) = (g.us(1, 5), g.us(1, 5));
    let (r, c) = if g.int(0, 4) > 0 { (br * g.us(1, 4), bc * g.us(1, 4)) } else { (g.us(1, 15), g.us(1, 15)) };
    if g.flip() { block::<Cf32>(ctx, r, c, br, bc); } else { block::<Cf64>(ctx, r, c, br, bc); }
  }
  for _ in 0..ctx.reps(4, 40) {
    let g = &mut ctx.rng;
    let (br, bc) = (g.us(1, 7), g.us(1, 7));
    let (r, c) = (br * g.us(1, 14), bc * g.us(1, 14));
    block::<Cf32>(ctx, r, c, br, bc);
    block::<Cf64>(ctx, c, r, bc, br);
    // large blocks, single rows and columns
    let g = &mut ctx.rng;
    let (br, bc) = match g.int(0, 2) { 0 => (g.us(8, 24), g.us(8, 24)), 1 => (1, g.us(8, 300)), _ => (g.us(8, 300), 1) };
    let (m, n) = (g.us(1, 2), g.us(1, 3));
    block::<Cf32>(ctx, br * m, bc * n, br, bc);
  }
  let (m, n) = (ctx.rng.us(33, 36), ctx.rng.us(33, 36));
  if ctx.seed % 2 == 0 { block::<Cf32>(ctx, m * 2, n * 2, 2, 2); } else { block::<Cf64>(ctx, m, n * 2, 1, 2); }
}

pub fn upsampling(ctx: &mut Ctx) {
  let script = std::mem::take(&mut ctx.script);
  for t in &script {
    let u = |n: &str| t.get(n).us();
    if ctx.rng.flip() { ups::<Cf32>(ctx, u("r"), u("c"), u("br"), u("bc"), u("kr"), u("kc")); }
    else { ups::<Cf64>(ctx, u("r"), u("c"), u("br"), u("bc"), u("kr"), u("kc")); }
  }
  for _ in 0..ctx.reps(60, 1500) {
    let g = &mut ctx.rng;
    let (r, c, br, bc) = (g.us(1, 5), g.us(1, 5), g.us(1, 5), g.us(1, 5));
    let (kr, kc) = (2 * g.us(0, 3) + 1, 2 * g.us(0, 3) + 1);
    if g.flip() { ups::<Cf32>(ctx, r, c, br, bc, kr, kc); } else { ups::<Cf64>(ctx, r, c, br, bc, kr, kc); }
  }
  for _ in 0..ctx.reps(8, 80) {
    let g = &mut ctx.rng;
    let (r, c, br, bc) = (g.us(1, 3), g.us(1, 3), g.us(1, 13), g.us(1, 13));
    let (kr, kc) = (2 * g.us(0, 4) + 1, 2 * g.us(0, 4) + 1);
    if g.flip() { ups::<Cf32>(ctx, r, c, br, bc, kr, kc); } else { ups::<Cf64>(ctx, r, c, br, bc, kr, kc); }
    let g = &mut ctx.rng;
    let (r, c) = if g.flip() { (g.us(20, 70), 1) } else { (2, g.us(20, 40)) };
    let (br, bc) = (g.us(1, 2), g.us(1, 2));
    if g.flip() { ups::<Cf32>(ctx, r, c, br, bc, 3, 1); } else { ups::<Cf64>(ctx, r, c, br, bc, 1, 3); }
  }
  let (m, n) = (ctx.rng.us(33, 36), ctx.rng.us(33, 36));
  if ctx.seed % 2 == 0 { ups::<Cf32>(ctx, m, n, 2, 2, 3, 1); } else { ups::<Cf64>(ctx, m, n, 2, 1, 1, 3); }
}
