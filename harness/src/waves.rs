//! Evaluates sources, as they are read from cards.
//!
//! waves <cases> <results> <scratch>
//!
//!   CASE <id> <number of times> <times> <card>
mod common;
use common::*;
use std::fs;
use std::path::Path;
use tiny_spice::circuit::Element;
use tiny_spice::spice::Reader;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = fs::read_to_string(&args[1]).expect("cases");
    let mut results = Results::open(&args[2]);
    let scratch = Path::new(&args[3]).canonicalize().expect("scratch");
    std::env::set_current_dir(&scratch).expect("scratch");
    let cap = scratch.join("stdout.txt").to_str().unwrap().to_string();
    quiet_panics();
    let mut lines: Vec<String> = vec![];
    for line in input.split('\n') {
        let w: Vec<&str> = line.split(' ').collect();
        if w[0] != "CASE" { continue; }
        let n: usize = w[2].parse().expect("number of times");
        let ts: Vec<f64> = w[3..3+n].iter().map(|t| t.parse().expect("number")).collect();
        fs::write("source.cir", format!("source\n{}\n", w[3+n..].join(" "))).expect("scratch");
        let (r, _) = captured(&cap, || -> (bool, Vec<f64>) {
            let mut rdr = Reader::new();
            let bad = rdr.read(Path::new("source.cir"));
            let ckt = rdr.get_expanded_circuit();
            let ys = ts.iter().map(|t| match ckt.elements.first() {
                Some(Element::Vsin(s)) => s.evaluate(*t),
                Some(Element::Isin(s)) => s.evaluate(*t),
                Some(Element::Vpwl(s)) => s.evaluate(*t),
                _ => panic!("no source"),
            }).collect();
            (bad, ys)
        });
        lines.push(match r {
            Some((false, ys)) => format!("{{\"id\":{},\"status\":\"ok\",\"ys\":{}}}", text(w[1]), nums(&ys)),
            Some((true, _)) => format!("{{\"id\":{},\"status\":\"refused\",\"ys\":[]}}", text(w[1])),
            None => format!("{{\"id\":{},\"status\":\"stopped\",\"ys\":[]}}", text(w[1])),
        });
    }
    results.put(&lines.join("\n"));
}
