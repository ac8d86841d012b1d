//! Reads value texts: one per line of the case file, each as <id> <text>.
mod common;
use common::*;
use std::fs;
use std::path::Path;
use tiny_spice::bracket_expression::extract_value;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = fs::read_to_string(&args[1]).expect("cases");
    let mut results = Results::open(&args[2]);
    let scratch = Path::new(&args[3]).canonicalize().expect("scratch");
    let cap = scratch.join("stdout.txt").to_str().unwrap().to_string();
    quiet_panics();
    let mut out: Vec<String> = vec![];
    for line in input.split('\n') {
        let Some((id, value)) = line.split_once(' ') else { continue };
        let (r, _) = captured(&cap, || extract_value(value));
        out.push(match r {
            Some(Some(x)) => format!("{{\"id\":\"{}\",\"res\":\"value\",\"val\":{}}}", id, num(x)),
            Some(None) => format!("{{\"id\":\"{}\",\"res\":\"none\",\"val\":\"0\"}}", id),
            None => format!("{{\"id\":\"{}\",\"res\":\"stopped\",\"val\":\"0\"}}", id),
        });
    }
    results.put(&out.join("\n"));
}
