//! Layers and networks described by data, their construction and generation.

use crate::act::actfn;
use crate::init::method;
use crate::json::*;
use crate::matrix::blockf;
use crate::num::*;
use crate::run::*;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::{IOShape, IOType};
use renplex::math::matrix::Matrix;

pub type P = (i64, i64);
pub type M = Vec<Vec<P>>;

/// A layer with its parameters as integers (times the unit in use).
#[derive(Clone, Debug)]
pub enum L {
  Dense { w: M, b: Vec<P>, act: String },
  Conv { k: Vec<Vec<M>>, b: Vec<P>, act: String },
  Reduce { bs: [usize; 2], f: String, kern: M, n: usize },
  Flatten { shape: [usize; 2], n: usize },
}

/// A value between layers.
#[derive(Clone, Debug)]
pub enum X {
  S(Vec<P>),
  M(Vec<M>),
}

pub fn pj(z: &P) -> J { J::A(vec![i(z.0), i(z.1)]) }
pub fn vj(v: &[P]) -> J { arr(v.iter().map(pj)) }
pub fn mj(m: &M) -> J { arr(m.iter().map(|r| vj(r))) }
fn jp(j: &J) -> P { (j.arr()[0].int(), j.arr()[1].int()) }
fn jv(j: &J) -> Vec<P> { j.arr().iter().map(jp).collect() }
fn jm(j: &J) -> M { j.arr().iter().map(jv).collect() }

/// the number of a pair of integers
pub fn num<T: Cx>(z: &P, u: f64) -> T { T::c(z.0 as f64 * u, z.1 as f64 * u) }
pub fn nums<T: Cx>(v: &[P], u: f64) -> Vec<T> { v.iter().map(|z| num(z, u)).collect() }
pub fn mat<T: Cx>(m: &M, u: f64) -> Matrix<T> {
  Matrix::from_body(m.iter().flat_map(|r| nums::<T>(r, u)).collect(), [m.len(), m[0].len()])
}

impl X {
  pub fn json(&self) -> J {
    match self {
      X::S(v) => obj! { io: s("s"), v: vj(v) },
      X::M(m) => obj! { io: s("m"), v: arr(m.iter().map(mj)) },
    }
  }
  pub fn parse(j: &J) -> X {
    match j.get("io").str() {
      "s" => X::S(jv(j.get("v"))),
      _ => X::M(j.get("v").arr().iter().map(jm).collect()),
    }
  }
  pub fn io<T: Cx>(&self, u: f64) -> IOType<T> {
    match self {
      X::S(v) => IOType::Scalar(nums(v, u)),
      X::M(m) => IOType::Matrix(m.iter().map(|a| mat(a, u)).collect()),
    }
  }
  pub fn shape(&self) -> Sh {
    match self {
      X::S(v) => Sh::S(v.len()),
      X::M(m) => Sh::M(m.len(), m[0].len(), m[0][0].len()),
    }
  }
}

/// What flows between two layers: n scalars, or n maps of r x c.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sh {
  S(usize),
  M(usize, usize, usize),
}
impl Sh {
  pub fn len(&self) -> usize { match self { Sh::S(n) => *n, Sh::M(n, r, c) => n * r * c } }
}

impl L {
  pub fn json(&self) -> J {
    match self {
      L::Dense { w, b, act } => obj! { kind: s("dense"), w: mj(w), b: vj(b), act: s(act) },
      L::Conv { k, b, act } => obj! { kind: s("conv"), k: arr(k.iter().map(|f| arr(f.iter().map(mj)))), b: vj(b), act: s(act) },
      L::Reduce { bs, f, kern, n } => obj! { kind: s("reduce"), bs: ints(bs), f: s(f), kern: mj(kern), n: i(*n) },
      L::Flatten { shape, n } => obj! { kind: s("flatten"), shape: ints(shape), n: i(*n) },
    }
  }
  /// from a record of the specification and the shape it will see
  pub fn parse(j: &J, sh: Sh) -> L {
    match j.get("kind").str() {
      "dense" => L::Dense { w: jm(j.get("w")), b: jv(j.get("b")), act: j.get("act").str().into() },
      "conv" => L::Conv {
        k: j.get("k").arr().iter().map(|f| f.arr().iter().map(jm).collect()).collect(),
        b: jv(j.get("b")), act: j.get("act").str().into(),
      },
      "reduce" => {
        let bs = j.get("bs").arr();
        let n = match sh { Sh::M(n, _, _) => n, Sh::S(n) => n };
        L::Reduce { bs: [bs[0].us(), bs[1].us()], f: j.get("f").str().into(), kern: jm(j.get("kern")), n }
      }
      _ => match sh { Sh::M(n, r, c) => L::Flatten { shape: [r, c], n }, Sh::S(n) => L::Flatten { shape: [1, 1], n } },
    }
  }
  pub fn out(&self, sh: Sh) -> Sh {
    match (self, sh) {
      (L::Dense { b, .. }, _) => Sh::S(b.len()),
      (L::Conv { k, .. }, Sh::M(_, r, c)) => Sh::M(k.len(), r + 1 - k[0][0].len(), c + 1 - k[0][0][0].len()),
      (L::Reduce { bs, .. }, Sh::M(n, r, c)) => Sh::M(n, r / bs[0], c / bs[1]),
      (L::Flatten { .. }, sh) => Sh::S(sh.len()),
      (_, sh) => sh,
    }
  }
  pub fn params(&self) -> usize {
    match self {
      L::Dense { w, b, .. } => w.len() * w[0].len() + b.len(),
      L::Conv { k, b, .. } => k.len() * k[0].len() * k[0][0].len() * k[0][0][0].len() + b.len(),
      _ => 0,
    }
  }
  pub fn has_params(&self) -> bool { matches!(self, L::Dense { .. } | L::Conv { .. }) }
  /// the layer itself: created without weights, then adjusted to the given ones
  pub fn build<T: Cx>(&self, u: f64) -> CLayer<T> { self.build_at(u, u) }
  /// with different units for the weights and the biases
  pub fn build_at<T: Cx>(&self, u: f64, ub: f64) -> CLayer<T> {
    let neg = |z: &P| -> T { num(&(-z.0, z.1), u) };
    let negb = |z: &P| -> T { num(&(-z.0, z.1), ub) };
    match self {
      L::Dense { w, b, act } => {
        let mut l = DenseCLayer::init(IOShape::Scalar(w[0].len()), w.len(), actfn(act), method("Uniform", 0), &mut 1).unwrap();
        l.neg_conj_adjustment(w.iter().flatten().map(neg).collect(), b.iter().map(negb).collect()).unwrap();
        l.wrap()
      }
      L::Conv { k, b, act } => {
        let size = [k[0][0].len(), k[0][0][0].len()];
        let mut l = ConvCLayer::init(IOShape::Matrix(k[0].len()), k.len(), size, actfn(act), method("Uniform", 0), &mut 1).unwrap();
        l.neg_conj_adjustment(k.iter().flatten().flatten().flatten().map(neg).collect(), b.iter().map(negb).collect()).unwrap();
        l.wrap()
      }
      L::Reduce { bs, f, kern, n } => Reduce::init(*n, *bs, Box::new(blockf::<T>(f)), mat(kern, u)).wrap(),
      L::Flatten { shape, n } => Flatten::init(*shape, *n).wrap(),
    }
  }
  /// inputs that show every parameter through any of the activations
  pub fn probes(&self, size: i64, sh: Sh) -> Vec<X> {
    let rot = |k: usize| [(size, 0), (0, size), (-size, 0), (0, -size)][k % 4];
    let sh = match self {
      L::Conv { k, .. } => Sh::M(k[0].len(), k[0][0].len(), k[0][0][0].len()),
      _ => sh,
    };
    let mut all = vec![];
    for e in 0..sh.len() {
      for q in 0..4 {
        let mut v = vec![(0, 0); sh.len()];
        v[e] = rot(q);
        all.push(shaped(v, sh));
      }
      if !self.has_params() && e > 3 { break; }
    }
    all.push(shaped(vec![(0, 0); sh.len()], sh));
    all
  }
}

pub fn shaped(v: Vec<P>, sh: Sh) -> X {
  match sh {
    Sh::S(_) => X::S(v),
    Sh::M(_, r, c) => X::M(v.chunks(r * c).map(|m| m.chunks(c).map(|x| x.to_vec()).collect()).collect()),
  }
}

pub fn network<T: Cx>(net: &[L], u: f64) -> CNetwork<T> { network_at(net, u, u) }
pub fn network_at<T: Cx>(net: &[L], u: f64, ub: f64) -> CNetwork<T> {
  let mut n = CNetwork::new();
  for (k, l) in net.iter().enumerate() {
    if k == 0 { n.add_input(l.build_at(u, ub)).unwrap() } else { n.add(l.build_at(u, ub)).unwrap() }
  }
  n
}
pub fn dataset<T: Cx>(xs: &[X], ts: &[X], u: f64) -> Dataset<T, T> {
  let mut d = Dataset::new();
  for (x, t) in xs.iter().zip(ts) { d.add_point((x.io(u), t.io(u))); }
  d
}
pub fn netj(net: &[L]) -> J { arr(net.iter().map(|l| l.json())) }
pub fn xsj(xs: &[X]) -> J { arr(xs.iter().map(|x| x.json())) }
pub fn parse_net(j: &J, x: &X) -> Vec<L> {
  let mut sh = x.shape();
  j.arr().iter().map(|l| { let l = L::parse(l, sh); sh = l.out(sh); l }).collect()
}
pub fn shapes(net: &[L], sh: Sh) -> Vec<Sh> {
  let mut all = vec![sh];
  for l in net { all.push(l.out(*all.last().unwrap())); }
  all
}

/*-------------------------------- bounds ---------------------------------*/
/// Largest sums of moduli (|re| + |im|) that can occur on the way.
fn act_bound(act: &str, v: f64) -> f64 {
  match act {
    "Cardioid" => 5.7 * FB,
    "ModZ" => 1.5 * FB,
    "RITSigmoid" => 2.0 * FB,
    "RITTanh" => v.min(2.0 * FB),
    _ => v,
  }
}
fn one(z: &P) -> f64 { (z.0.abs() + z.1.abs()) as f64 }
type A3 = Vec<f64>;
fn abs_out(l: &L, x: &A3, sh: Sh, u: f64) -> A3 {
  match (l, sh) {
    (L::Dense { w, b, act }, _) => w.iter().zip(b)
      .map(|(r, b)| act_bound(act, r.iter().zip(x).map(|(w, x)| one(w) * x * u).sum::<f64>() + one(b))).collect(),
    (L::Conv { k, b, act }, Sh::M(n, r, c)) => {
      let (kr, kc) = (k[0][0].len(), k[0][0][0].len());
      let mut o = vec![];
      for (f, b) in k.iter().zip(b) {
        for y in 0..(r + 1 - kr) { for z in 0..(c + 1 - kc) {
          let mut t = one(b);
          for ch in 0..n { for p in 0..kr { for q in 0..kc { t += one(&f[ch][p][q]) * x[ch * r * c + (y + p) * c + z + q] * u; } } }
          o.push(act_bound(act, t));
        } }
      }
      o
    }
    (L::Reduce { bs, .. }, Sh::M(n, r, c)) => {
      let (or, oc) = (r / bs[0], c / bs[1]);
      let m = x.iter().cloned().fold(0.0, f64::max) * (bs[0] * bs[1]).pow(2) as f64;
      vec![m; n * or * oc]
    }
    _ => x.clone(),
  }
}
fn steep(act: &str) -> f64 { if matches!(act, "ModZ" | "Cardioid") { 6.0 } else { 1.0 } }
fn abs_back(l: &L, x: &A3, g: &A3, sh: Sh, u: f64) -> (A3, f64) {
  let g: &A3 = &match l { L::Dense { act, .. } | L::Conv { act, .. } => g.iter().map(|v| v * steep(act)).collect(), _ => g.clone() };
  match (l, sh) {
    (L::Dense { w, .. }, _) => {
      let gm = g.iter().cloned().fold(0.0, f64::max);
      let xm = x.iter().cloned().fold(1.0 / u, f64::max) * u;
      ((0..x.len()).map(|j| w.iter().zip(g).map(|(r, g)| one(&r[j]) * g * u).sum()).collect(), gm * xm)
    }
    (L::Conv { k, .. }, Sh::M(n, r, c)) => {
      let (kr, kc) = (k[0][0].len(), k[0][0][0].len());
      let (or, oc) = (r + 1 - kr, c + 1 - kc);
      let xm = x.iter().cloned().fold(1.0 / u, f64::max) * u;
      let dm = g.chunks(or * oc).map(|m| m.iter().sum::<f64>()).fold(0.0, f64::max) * xm;
      let mut o = vec![0.0; x.len()];
      for (f, kf) in k.iter().enumerate() {
        for y in 0..or { for z in 0..oc {
          for ch in 0..n { for p in 0..kr { for q in 0..kc { o[ch * r * c + (y + p) * c + z + q] += one(&kf[ch][p][q]) * g[(f * or + y) * oc + z] * u; } } }
        } }
      }
      (o, dm)
    }
    (L::Reduce { kern, .. }, _) => {
      let m = g.iter().cloned().fold(0.0, f64::max) * kern.iter().flatten().map(one).sum::<f64>() * u;
      (vec![m; x.len()], 0.0)
    }
    _ => (g.clone(), 0.0),
  }
}
fn flat(x: &X) -> A3 {
  match x {
    X::S(v) => v.iter().map(one).collect(),
    X::M(m) => m.iter().flatten().flatten().map(one).collect(),
  }
}
/// largest activation
pub fn bound(net: &[L], x: &X, u: f64) -> f64 {
  let mut v = flat(x);
  let mut sh = x.shape();
  let mut m = v.iter().cloned().fold(0.0, f64::max);
  for l in net {
    v = abs_out(l, &v, sh, u);
    sh = l.out(sh);
    m = v.iter().cloned().fold(m, f64::max);
  }
  m
}
/// largest derivative of the squared error of a point
pub fn bound_back(net: &[L], x: &X, t: f64, u: f64) -> f64 {
  let shs = shapes(net, x.shape());
  let mut acts = vec![flat(x)];
  for (l, sh) in net.iter().zip(&shs) { acts.push(abs_out(l, acts.last().unwrap(), *sh, u)); }
  let mut g: A3 = acts.last().unwrap().iter().map(|v| v + t).collect();
  let mut m: f64 = g.iter().cloned().fold(0.0, f64::max);
  for n in (0..net.len()).rev() {
    let (ng, dm) = abs_back(&net[n], &acts[n], &g, shs[n], u);
    g = ng;
    m = g.iter().cloned().fold(m.max(dm), f64::max);
  }
  m
}

/*------------------------------- generation ------------------------------*/
/// How parameters and data are drawn.
#[derive(Clone, Copy)]
pub enum Style {
  /// weights even, biases odd: no pre-activation part is ever zero
  Parity,
  /// any small integers
  Any,
  /// multiples of 1/64 in fixed point, at most one
  Fixed,
  /// small weights and large biases in fixed point, for steep activations
  Gentle,
  /// zeros and units, so that many layers keep small numbers
  Units,
}
pub struct Gen<'a> { pub g: &'a mut Rng, pub style: Style, pub acts: &'a [&'a str], pub max: usize }
impl Gen<'_> {
  pub fn weight(&mut self) -> P {
    match self.style {
      Style::Parity => if self.g.int(0, 3) == 0 { (0, 0) } else { (2 * self.g.int(-1, 1), 2 * self.g.int(-1, 1)) },
      Style::Any => (self.g.int(-4, 4), self.g.int(-4, 4)),
      Style::Units => *self.g.pick(&[(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)]),
      Style::Fixed => (self.g.int(-56, 56) << 18, self.g.int(-56, 56) << 18),
      Style::Gentle => (self.g.int(-56, 56) << 16, self.g.int(-56, 56) << 16),
    }
  }
  pub fn bias(&mut self) -> P {
    match self.style {
      Style::Parity => (2 * self.g.int(-2, 1) + 1, 2 * self.g.int(-2, 1) + 1),
      Style::Any => (self.g.int(-9, 9), self.g.int(-9, 9)),
      Style::Units => (self.g.int(-2, 2), self.g.int(-2, 2)),
      Style::Fixed => (self.g.int(-64, 64) << 18, self.g.int(-64, 64) << 18),
      Style::Gentle => {
        let mut f = || { let v = self.g.int(30, 64) << 18; if self.g.flip() { v } else { -v } };
        (f(), f())
      }
    }
  }
  pub fn value(&mut self) -> P {
    match self.style {
      Style::Parity => (self.g.int(-3, 3), self.g.int(-3, 3)),
      Style::Any => (self.g.int(-9, 9), self.g.int(-9, 9)),
      Style::Units => (self.g.int(-2, 2), self.g.int(-2, 2)),
      Style::Fixed | Style::Gentle => (self.g.int(-64, 64) << 18, self.g.int(-64, 64) << 18),
    }
  }
  pub fn act(&mut self) -> String { self.g.pick(self.acts).to_string() }
  pub fn vec(&mut self, n: usize) -> Vec<P> { (0..n).map(|_| self.value()).collect() }
  pub fn input(&mut self, sh: Sh) -> X { let v = self.vec(sh.len()); shaped(v, sh) }
  fn wm(&mut self, r: usize, c: usize) -> M { (0..r).map(|_| (0..c).map(|_| self.weight()).collect()).collect() }
  pub fn dense(&mut self, ni: usize, no: usize) -> L {
    L::Dense { w: self.wm(no, ni), b: (0..no).map(|_| self.bias()).collect(), act: self.act() }
  }
  pub fn conv(&mut self, nc: usize, nf: usize, kr: usize, kc: usize) -> L {
    L::Conv {
      k: (0..nf).map(|_| (0..nc).map(|_| self.wm(kr, kc)).collect()).collect(),
      b: (0..nf).map(|_| self.bias()).collect(), act: self.act(),
    }
  }
  pub fn reduce(&mut self, n: usize, br: usize, bc: usize) -> L {
    let f = match self.style {
      Style::Fixed | Style::Gentle => *self.g.pick(&["mean", "mean", "first", "last"]),
      Style::Units => *self.g.pick(&["sum", "first", "last"]),
      _ => *self.g.pick(&["sum", "wsum", "first", "last"]),
    };
    let (kr, kc) = (*self.g.pick(&[1, 3, 3, 5]), *self.g.pick(&[1, 3, 3]));
    // real kernels with a centre only
    let kern = (0..kr).map(|_| (0..kc).map(|_| match self.style {
      Style::Fixed | Style::Gentle => (self.g.int(-32, 32) << 18, 0),
      Style::Units => (self.g.int(-1, 1), 0),
      _ => (self.g.int(-2, 2), 0),
    }).collect()).collect();
    L::Reduce { bs: [br, bc], f: f.to_string(), kern, n }
  }
  /// one layer that accepts sh, of a random kind
  pub fn layer(&mut self, sh: Sh) -> L {
    match sh {
      Sh::S(n) => { let no = self.g.us(1, self.max); self.dense(n, no) }
      Sh::M(n, r, c) => match self.g.int(0, 5) {
        0 | 1 | 2 => {
          let (nf, kr, kc) = (self.g.us(1, self.max.min(3)), self.g.us(1, r.min(3)), self.g.us(1, c.min(3)));
          self.conv(n, nf, kr, kc)
        }
        3 | 4 => {
          let pick = |g: &mut Rng, d: usize| { let v: Vec<usize> = (1..=d.min(3)).filter(|b| d % b == 0).collect(); *g.pick(&v) };
          let (br, bc) = (pick(self.g, r), pick(self.g, c));
          self.reduce(n, br, bc)
        }
        _ => L::Flatten { shape: [r, c], n },
      },
    }
  }
  pub fn shape(&mut self) -> Sh {
    if self.g.int(0, 2) == 0 { Sh::S(self.g.us(1, self.max)) } else { Sh::M(self.g.us(1, self.max.min(3)), self.g.us(1, 5), self.g.us(1, 5)) }
  }
  /// a network of n layers and the shape it takes
  pub fn net(&mut self, n: usize) -> (Vec<L>, Sh) {
    let first = self.shape();
    (self.net_from(n, first), first)
  }
  pub fn net_from(&mut self, n: usize, first: Sh) -> Vec<L> {
    let mut sh = first;
    let mut net: Vec<L> = vec![];
    while net.len() < n {
      let l = self.layer(sh);
      // dense layers after flattening stay small
      if matches!(l, L::Flatten { .. }) && sh.len() > 16 { continue; }
      sh = l.out(sh);
      net.push(l);
    }
    net
  }
}

/// encoder of results in units of u
pub fn enc_for<T: Cx>(u: f64) -> Enc<T> { if u == 1.0 { exc } else { fxc } }
pub fn mode(u: f64) -> J { s(if u == 1.0 { "e" } else { "f" }) }
pub const FU: f64 = 1.0 / FB;
