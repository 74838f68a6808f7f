//! Executes scripts and seeded random cases on the public interface of the
//! library and records one JSON event per case.

#![allow(dead_code)]

#[macro_use]
mod json;
mod num;
mod run;
mod arith;
mod matrix;
mod init;
mod act;
mod loss;
mod net;
mod layers;
mod nets;
mod runs;
mod data;

use run::{Ctx, Out, Rng};

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let mut m = std::collections::HashMap::new();
  let mut k = 2;
  while k + 1 < args.len() {
    m.insert(args[k].clone(), args[k + 1].clone());
    k += 2;
  }
  let get = |n: &str, d: &str| m.get(n).cloned().unwrap_or(d.to_string());
  let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
  let script = match m.get("--script") {
    Some(p) => std::fs::read_to_string(p).expect("script").lines().filter(|l| !l.is_empty()).map(json::parse).collect(),
    None => vec![],
  };
  let mut ctx = Ctx {
    seed,
    thorough: get("--tier", "quick") == "thorough",
    out: Out::new(&get("--out", "/dev/stdout")),
    rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5851F42D4C957F2D),
    script,
    scratch: get("--scratch", "/nonexistent"),
  };
  std::panic::set_hook(Box::new(|info| {
    if std::env::var("VH_PANICS").is_ok() { eprintln!("{}", info); }
    // panics of guarded calls are data; any other panic is a harness error
    if !run::guarded() {
      eprintln!("harness: {}", info);
      std::process::exit(3);
    }
  }));
  match args[1].as_str() {
    "arith" => arith::arith(&mut ctx),
    "polar" => arith::polar(&mut ctx),
    "container" => matrix::container(&mut ctx),
    "views" => matrix::views(&mut ctx),
    "linear" => matrix::linear(&mut ctx),
    "convolution" => matrix::convolution(&mut ctx),
    "blocks" => matrix::blocks(&mut ctx),
    "upsampling" => matrix::upsampling(&mut ctx),
    "rng" => init::rng(&mut ctx),
    "weights" => init::weights(&mut ctx),
    "creation" => init::creation(&mut ctx),
    "values" => act::values(&mut ctx),
    "derivs" => act::derivs(&mut ctx),
    "losses" => loss::losses(&mut ctx),
    "outputs" => layers::outputs(&mut ctx),
    "backward" => layers::backward(&mut ctx),
    "inference" => nets::inference(&mut ctx),
    "training" => nets::training(&mut ctx),
    "measures" => nets::measures(&mut ctx),
    "assembly" => nets::assembly(&mut ctx),
    "reads" => runs::reads(&mut ctx),
    "schedules" => runs::schedules(&mut ctx),
    "repro" => runs::repro(&mut ctx),
    "rerun" => runs::rerun(&mut ctx),
    "sets" => data::sets(&mut ctx),
    "idx" => data::idx(&mut ctx),
    "signals" => data::signals(&mut ctx),
    "wrappers" => data::wrappers(&mut ctx),
    "dlosses" => loss::dlosses(&mut ctx),
    x => { eprintln!("unknown command {}", x); std::process::exit(3); }
  }
}
