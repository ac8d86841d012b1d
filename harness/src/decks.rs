//! Reads, expands and simulates decks, and writes down what happened.
//!
//! decks <cases> <results> <scratch>
//!
//!   CASE <id>
//!   FILE <path> <number of lines> [unended], then the lines
//!   DECK <path>                       (a case may have several)
//!   SET <setting> <value>             settings to run with instead of the deck's
//!   DO net | op | tran                what to show of the deck(s)
//!   SESSION <deck>:<op|tran> ...      analyses to run on one engine
//!   CALL <f>|<name>|<of>|<way>|<kind>|<nodes>|<values>   (no deck: a circuit is built with
//!                                     the library's calls, as in Builder.tla)
//!   END
mod common;
use common::*;
use std::fs;
use std::path::Path;

use tiny_spice::analysis::{Configuration, Kind};
use std::collections::HashMap;
use tiny_spice::circuit::{Capacitor, Circuit, CurrentSource, CurrentSourceSine, Diode, Element};
use tiny_spice::circuit::{NodeId, Resistor, Vccs, Vcvs, VoltageSource, VoltageSourcePwl, VoltageSourceSine};
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

#[derive(Default)]
struct Case {
    id: String,
    files: Vec<(String, String)>,
    decks: Vec<String>,
    sets: Vec<(String, String)>,
    todo: Vec<String>,
    session: Vec<(usize, String)>,
    calls: Vec<String>,
    alike: bool,
    repeat: usize,
}

fn element(el: &Element) -> String {
    let (kind, nodes, v, idx): (&str, Vec<usize>, Vec<f64>, Option<usize>) = match el {
        Element::R(e) => ("R", vec![e.a, e.b], vec![e.value], None),
        Element::C(e) => ("C", vec![e.a, e.b], vec![e.value], None),
        Element::I(e) => ("I", vec![e.p, e.n], vec![e.value], None),
        Element::V(e) => ("V", vec![e.p, e.n], vec![e.value], Some(e.idx)),
        Element::D(e) => ("D", vec![e.p, e.n], vec![e.i_sat, e.tdegc], None),
        Element::Isin(e) => ("ISIN", vec![e.p, e.n], vec![e.vo, e.va, e.freq], None),
        Element::Vsin(e) => ("VSIN", vec![e.p, e.n], vec![e.vo, e.va, e.freq], Some(e.idx)),
        Element::Vpwl(e) => {
            let mut w = vec![e.t_delay, e.repeat];
            for (t, y) in &e.pat { w.push(*t); w.push(*y); }
            ("VPWL", vec![e.p, e.n], w, Some(e.idx))
        }
        Element::Vcvs(e) => ("E", vec![e.p, e.n, e.cp, e.cn], vec![e.k], Some(e.idx)),
        Element::Vccs(e) => ("G", vec![e.p, e.n, e.cp, e.cn], vec![e.k], None),
    };
    let ns: Vec<String> = nodes.iter().map(|n| n.to_string()).collect();
    format!("[\"{}\",[{}],{},{}]", kind, ns.join(","), nums(&v),
        idx.map(|i| i as i64).unwrap_or(-1))
}

fn netlist(ckt: &Circuit) -> String {
    let mut nodes: Vec<(&String, &usize)> = ckt.nodes.iter().collect();
    nodes.sort();
    let nodes: Vec<String> = nodes.iter().map(|(n, i)| format!("{}:{}", text(n), i)).collect();
    let mut lut: Vec<(&usize, &String)> = ckt.node_id_lut.iter().collect();
    lut.sort();
    let lut: Vec<String> = lut.iter().map(|(i, n)| format!("[{},{}]", i, text(n))).collect();
    let els: Vec<String> = ckt.elements.iter().map(element).collect();
    format!("\"nodes\":{{{}}},\"lut\":[{}],\"els\":[{}]", nodes.join(","), lut.join(","), els.join(","))
}

fn config(c: &Configuration) -> String {
    let kind = match c.kind {
        None => "none",
        Some(Kind::DcOperatingPoint) => "op",
        Some(Kind::Transient) => "tran",
        Some(_) => "other",
    };
    format!("{{\"kind\":\"{}\",\"TSTEP\":{},\"TSTOP\":{},\"TSTART\":{},\"ABSTOL\":{},\"RELTOL\":{},\"RMAX\":{},\"VNTOL\":{},\"FS\":{},\"FT\":{},\"RMIN\":{},\"GMIN\":{},\"TDEGC\":{},\"ITL1\":{},\"ITL3\":{},\"ITL4\":{}}}",
        kind, num(c.TSTEP), num(c.TSTOP), num(c.TSTART), num(c.ABSTOL), num(c.RELTOL), num(c.RMAX),
        num(c.VNTOL), num(c.FS), num(c.FT), num(c.RMIN), num(c.GMIN), num(c.TDEGC), c.ITL1, c.ITL3, c.ITL4)
}

fn set(c: &mut Configuration, key: &str, val: &str) {
    let f = || val.parse::<f64>().expect("setting");
    let n = || val.parse::<usize>().expect("setting");
    match key {
        "TSTEP" => c.TSTEP = f(), "TSTOP" => c.TSTOP = f(), "TSTART" => c.TSTART = f(),
        "ABSTOL" => c.ABSTOL = f(), "RELTOL" => c.RELTOL = f(), "RMAX" => c.RMAX = f(),
        "VNTOL" => c.VNTOL = f(), "FS" => c.FS = f(), "FT" => c.FT = f(), "RMIN" => c.RMIN = f(),
        "ITL1" => c.ITL1 = n(), "ITL3" => c.ITL3 = n(), "ITL4" => c.ITL4 = n(),
        _ => panic!("unknown setting {}", key),
    }
}

fn kind_of(what: &str) -> Kind {
    if what == "op" { Kind::DcOperatingPoint } else { Kind::Transient }
}

/// run an analysis on an engine; its outcome but for the solution vector
fn run(eng: &mut Engine, ckt: &Circuit, cfg: &Configuration, what: &str, cap: &str) -> String {
    let mut cfg = cfg.clone();
    cfg.kind = Some(kind_of(what));
    let wavefile = "tsv_out/wave.dat";
    cfg.set_wavefile(wavefile);
    let _ = fs::remove_file(wavefile);
    let (stats, out) = captured(cap, || eng.go(ckt, &cfg));
    let (status, end, iters) = match stats {
        Some(Some(s)) => ("ok", s.end, s.iterations as i64),
        Some(None) => ("none", 0.0, -1),
        None => ("stopped", 0.0, -1),
    };
    let mut s = format!("\"status\":\"{}\",\"errors\":{},\"end\":{},\"iters\":{}",
        status, errors(&out), num(end), iters);
    s += &format!(",\"log\":\"{:016x}\"", hash(&out));
    if what == "tran" {
        match fs::read(wavefile) {
            Ok(b) => s += &format!(",\"wave\":{}", text(&String::from_utf8_lossy(&b))),
            Err(_) => s += ",\"wave\":null",
        }
    }
    s
}

/// FNV-1a, to compare what runs say
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn fresh(cap: &str) -> Engine {
    captured(cap, Engine::new).0.expect("engine")
}

fn solution(eng: Engine) -> String {
    match eng.dc() {
        Some(x) => nums(&x),
        None => "[]".to_string(),
    }
}

/// a circuit that is built with calls, and its settings
struct Built {
    ckt: Circuit,
    cfg: Configuration,
    eng: Option<Engine>,
    refs: HashMap<String, NodeId>,
    branches: usize,
}

impl Built {
    fn node(&self, name: &str) -> NodeId {
        match name.strip_prefix('#') {
            Some(k) => k.parse().expect("node"),
            None => self.refs[name],
        }
    }

    /// branch number of a source that is put on the list
    fn branch(&mut self) -> usize {
        self.branches += 1;
        self.branches - 1
    }

    fn element(&mut self, name: &str, add: bool, kind: &str, n: &[NodeId], v: &[f64]) {
        let ident = name.to_string();
        if add && kind.starts_with('V') {
            // goes on from those that were put on the list
            self.ckt.v_idx_next = self.branches;
            self.branches += 1;
        }
        match (kind, add) {
            ("R", true) => self.ckt.add_r(ident, n[0], n[1], v[0]),
            ("R", false) => self.ckt.elements.push(Element::R(Resistor { ident, a: n[0], b: n[1], value: v[0] })),
            ("C", true) => self.ckt.add_c(ident, n[0], n[1], v[0]),
            ("C", false) => self.ckt.elements.push(Element::C(Capacitor { ident, a: n[0], b: n[1], value: v[0] })),
            ("I", true) => self.ckt.add_i(n[0], n[1], v[0]),
            ("I", false) => self.ckt.elements.push(Element::I(CurrentSource { p: n[0], n: n[1], value: v[0] })),
            ("V", true) => self.ckt.add_v(n[0], n[1], v[0]),
            ("V", false) => {
                let idx = self.branch();
                self.ckt.elements.push(Element::V(VoltageSource { p: n[0], n: n[1], value: v[0], idx }))
            }
            ("D", _) => {
                let d = Diode::new(name, n[0], n[1], v[0], v[1]);
                if add { self.ckt.add_d(d) } else { self.ckt.elements.push(Element::D(d)) }
            }
            ("ISIN", _) => {
                let src = CurrentSourceSine { p: n[0], n: n[1], vo: v[0], va: v[1], freq: v[2] };
                if add { self.ckt.add_i_sin(src) } else { self.ckt.elements.push(Element::Isin(src)) }
            }
            ("VSIN", _) => {
                let idx = if add { 7 } else { self.branch() };
                let src = VoltageSourceSine { p: n[0], n: n[1], vo: v[0], va: v[1], freq: v[2], idx };
                if add { self.ckt.add_v_sin(src) } else { self.ckt.elements.push(Element::Vsin(src)) }
            }
            ("VPWL", _) => {
                let idx = if add { 7 } else { self.branch() };
                let pat = v[2..].chunks(2).map(|p| (p[0], p[1])).collect();
                let src = VoltageSourcePwl { p: n[0], n: n[1], pat, repeat: v[1], t_delay: v[0], idx };
                if add { self.ckt.add_v_pwl(src) } else { self.ckt.elements.push(Element::Vpwl(src)) }
            }
            ("E", _) => {
                let idx = self.branch();
                self.ckt.elements.push(Element::Vcvs(Vcvs { ident, p: n[0], n: n[1], cp: n[2], cn: n[3], k: v[0], idx }))
            }
            ("G", _) => self.ckt.elements.push(Element::Vccs(Vccs::new(name, n[0], n[1], n[2], n[3], v[0]))),
            _ => panic!("no such element"),
        }
    }

    /// make a call; what it returns
    fn call(&mut self, line: &str) -> String {
        let w: Vec<&str> = line.split('|').collect();
        let (f, name, of, way, kind) = (w[0], w[1], w[2], w[3], w[4]);
        let split = |s: &str| -> Vec<String> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
        let v: Vec<f64> = split(w[6]).iter().map(|x| x.parse().expect("number")).collect();
        match f {
            "node" => {
                let id = self.ckt.add_node(name);
                self.refs.insert(name.to_string(), id);
                id.to_string()
            }
            "find" => match self.ckt.get_node_id(name) {
                None => "none".to_string(),
                Some(id) => {
                    self.refs.insert(name.to_string(), id);
                    id.to_string()
                }
            },
            "alias" => {
                let id = self.node(of);
                self.ckt.add_node_alias(name, id);
                self.refs.insert(name.to_string(), id);
                "done".to_string()
            }
            "el" => {
                let n: Vec<NodeId> = split(w[5]).iter().map(|x| self.node(x)).collect();
                self.element(name, way == "add", kind, &n, &v);
                "done".to_string()
            }
            "nodes" => self.ckt.count_nodes().to_string(),
            "sources" => self.ckt.count_voltage_sources().to_string(),
            "lut" => { self.ckt.build_node_id_lut(); "done".to_string() }
            "op" => { self.cfg.set_dc_operating_point(); "done".to_string() }
            "tran" => { self.cfg.set_transient(v[0], v[1], v[2]); "done".to_string() }
            "run" => {
                self.cfg.set_wavefile("tsv_out/between.dat");
                let eng = self.eng.get_or_insert_with(Engine::new);
                match eng.go(&self.ckt, &self.cfg) { Some(_) => "ran", None => "none" }.to_string()
            }
            _ => panic!("no such call"),
        }
    }
}

fn do_calls(case: &Case, cap: &str) -> String {
    let each: Vec<String> = (0..case.repeat.max(1)).map(|_| do_calls_once(case, cap)).collect();
    format!("{{\"id\":{},\"decks\":[{}]}}", text(&case.id), each.join(","))
}

fn do_calls_once(case: &Case, cap: &str) -> String {
    let mut b = Built { ckt: Circuit::new(), cfg: Configuration::new(), eng: None, refs: HashMap::new(), branches: 0 };
    let mut rets: Vec<String> = vec![];
    for line in &case.calls {
        let (ret, _) = captured(cap, || b.call(line));
        rets.push(text(&ret.unwrap_or("stopped".to_string())));
    }
    let mut s = format!("\"read\":\"ok\",\"rets\":[{}],\"cfg\":{},\"net\":{{\"status\":\"ok\",{}}}",
        rets.join(","), config(&b.cfg), netlist(&b.ckt));
    for (k, v) in &case.sets { set(&mut b.cfg, k, v); }
    for what in &case.todo {
        if what == "op" || what == "tran" {
            let mut eng = match b.eng.take() { Some(e) => e, None => fresh(cap) };
            s += &format!(",\"{}\":{{{}", what, run(&mut eng, &b.ckt, &b.cfg, what, cap));
            if what == "op" { s += &format!(",\"x\":{}", solution(eng)); }
            s += "}";
        }
    }
    format!("{{{}}}", s)
}

fn do_case(case: &Case, cap: &str) -> String {
    if !case.calls.is_empty() { return do_calls(case, cap); }
    let mut decks: Vec<(Circuit, Configuration)> = vec![];
    let mut parts: Vec<String> = vec![];
    for deck in &case.decks {
        let (res, out) = captured(cap, || {
            let mut rdr = Reader::new();
            let bad = rdr.read(Path::new(deck));
            (bad, rdr)
        });
        let (status, rdr) = match res {
            None => ("stopped", None),
            Some((true, r)) => ("errors", Some(r)),
            Some((false, r)) => ("ok", Some(r)),
        };
        let mut s = format!("\"read\":\"{}\",\"readerrors\":{}", status, errors(&out));
        if let (Some(r), "ok") = (rdr, status) {
            s += &format!(",\"cfg\":{}", config(r.configuration()));
            let mut cfg = r.configuration().clone();
            for (k, v) in &case.sets { set(&mut cfg, k, v); }
            let (ckt, _) = captured(cap, || r.get_expanded_circuit());
            match ckt {
                None => s += ",\"net\":{\"status\":\"stopped\"}",
                Some(ckt) => {
                    s += &format!(",\"net\":{{\"status\":\"ok\",{}}}", netlist(&ckt));
                    for what in &case.todo {
                        if what == "op" || what == "tran" {
                            let mut eng = fresh(cap);
                            s += &format!(",\"{}\":{{{}", what, run(&mut eng, &ckt, &cfg, what, cap));
                            if what == "op" { s += &format!(",\"x\":{}", solution(eng)); }
                            s += "}";
                        }
                    }
                    decks.push((ckt, cfg));
                }
            }
        }
        parts.push(format!("{{{}}}", s));
    }
    let mut line = format!("{{\"id\":{},\"decks\":[{}]", text(&case.id), parts.join(","));
    if !case.session.is_empty() && decks.len() == case.decks.len() {
        let show = |decks: &Vec<(Circuit, Configuration)>| -> String {
            let v: Vec<String> = decks.iter()
                .map(|(ckt, cfg)| format!("{{\"cfg\":{},\"net\":{{{}}}}}", config(cfg), netlist(ckt))).collect();
            v.join(",")
        };
        if case.alike {          // circuits that can't be told apart by name
            for (ckt, cfg) in &mut decks {
                ckt.name = "one".to_string();
                cfg.ckt_name = "one".to_string();
            }
        }
        let before = show(&decks);
        // the engine only gives its solution away at the end of its life: show
        // each of the beginnings of the session
        let mut runs: Vec<String> = vec![];
        for n in 1..=case.session.len() {
            let mut eng = fresh(cap);
            let mut last = String::new();
            for (d, what) in &case.session[..n] {
                last = run(&mut eng, &decks[*d].0, &decks[*d].1, what, cap);
            }
            runs.push(format!("{{{},\"x\":{}}}", last, solution(eng)));
        }
        // and each analysis on its own
        let mut alone: Vec<String> = vec![];
        for (d, what) in &case.session {
            let mut eng = fresh(cap);
            let r = run(&mut eng, &decks[*d].0, &decks[*d].1, what, cap);
            alone.push(format!("{{{},\"x\":{}}}", r, solution(eng)));
        }
        // the circuits and settings afterwards
        line += &format!(",\"session\":[{}],\"alone\":[{}],\"before\":[{}],\"after\":[{}]",
            runs.join(","), alone.join(","), before, show(&decks));
    }
    line + "}"
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = fs::read_to_string(&args[1]).expect("cases");
    let mut results = Results::open(&args[2]);
    let scratch = Path::new(&args[3]).canonicalize().expect("scratch");
    let cap = scratch.join("stdout.txt").to_str().unwrap().to_string();
    quiet_panics();

    let mut case = Case::default();
    let mut lines = input.split('\n');
    while let Some(line) = lines.next() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "CASE" => case = Case { id: w[1].to_string(), ..Default::default() },
            "FILE" => {
                let n: usize = w[2].parse().expect("number of lines");
                let mut body = String::new();
                for _ in 0..n { body += lines.next().expect("line"); body.push('\n'); }
                if w.get(3) == Some(&"unended") { body.pop(); }
                case.files.push((w[1].to_string(), body));
            }
            "DECK" => case.decks.push(w[1].to_string()),
            "SET" => case.sets.push((w[1].to_string(), w[2].to_string())),
            "CALL" => case.calls.push(line[5..].to_string()),
            "DO" => case.todo.push(w[1].to_string()),
            "REPEAT" => case.repeat = w[1].parse().expect("number of times"),
            "ALIKE" => case.alike = true,
            "SESSION" => for p in &w[1..] {
                let (d, k) = p.split_once(':').expect("session");
                case.session.push((d.parse().expect("deck"), k.to_string()));
            },
            "END" => {
                let dir = scratch.join(format!("case{}", case.id));
                fs::create_dir_all(&dir).expect("scratch");
                for (name, body) in &case.files {
                    let path = dir.join(name);
                    fs::create_dir_all(path.parent().unwrap()).expect("scratch");
                    fs::write(path, body).expect("scratch");
                }
                std::env::set_current_dir(&dir).expect("scratch");
                results.put(&format!("{{\"begin\":{}}}", text(&case.id)));
                let line = do_case(&case, &cap);
                results.put(&line);
                std::env::set_current_dir(&scratch).expect("scratch");
                let _ = fs::remove_dir_all(&dir);
            }
            _ => {}
        }
    }
}
