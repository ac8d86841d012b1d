//! Asks the engine whether two iterates agree.
//!
//! agree <cases> <results> <scratch>
//!
//!   DECK <path> and the deck's FILE give the engine its circuit
//!   CASE <id> RELTOL VNTOL ABSTOL x ; y    numbers separated by spaces
mod common;
use common::*;
use std::fs;
use std::path::Path;
use tiny_spice::analysis::Kind;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

fn parse(t: &str) -> f64 {
    match t { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "NaN" => f64::NAN,
              _ => t.parse().expect("number") }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = fs::read_to_string(&args[1]).expect("cases");
    let mut results = Results::open(&args[2]);
    let scratch = Path::new(&args[3]).canonicalize().expect("scratch");
    std::env::set_current_dir(&scratch).expect("scratch");
    let cap = scratch.join("stdout.txt").to_str().unwrap().to_string();
    quiet_panics();

    let mut eng: Option<Engine> = None;
    let mut cfg = None;
    let mut lines = input.split('\n');
    while let Some(line) = lines.next() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "FILE" => {
                let n: usize = w[2].parse().expect("number of lines");
                let mut body = String::new();
                for _ in 0..n { body += lines.next().expect("line"); body.push('\n'); }
                fs::write(w[1], body).expect("scratch");
            }
            "DECK" => {
                let (r, _) = captured(&cap, || {
                    let mut rdr = Reader::new();
                    rdr.read(Path::new(w[1]));
                    let ckt = rdr.get_expanded_circuit();
                    let mut cfg = rdr.configuration().clone();
                    cfg.kind = Some(Kind::DcOperatingPoint);
                    let mut eng = Engine::new();
                    eng.go(&ckt, &cfg);
                    (eng, cfg)
                });
                let (e, c) = r.expect("deck");
                eng = Some(e);
                cfg = Some(c);
            }
            "CASE" => {
                let mut c = cfg.clone().expect("deck");
                c.RELTOL = parse(w[2]); c.VNTOL = parse(w[3]); c.ABSTOL = parse(w[4]);
                let semi = w.iter().position(|t| *t == ";").expect("vectors");
                let x: Vec<f64> = w[5..semi].iter().map(|t| parse(t)).collect();
                let y: Vec<f64> = w[semi+1..].iter().map(|t| parse(t)).collect();
                let e = eng.as_ref().expect("deck");
                let (r, _) = captured(&cap, || match e.convergence_check(&x, &y, &c) {
                    Ok(true) => "agree", Ok(false) => "differ", Err(_) => "error",
                });
                results.put(&format!("{{\"id\":{},\"res\":\"{}\"}}", text(w[1]), r.unwrap_or("stopped")));
            }
            _ => {}
        }
    }
}
