//! What the drivers have in common: case files, JSON, capture of stdout.
#![allow(dead_code)]
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Run `f` with stdout going into a file; what it gave (None if it panicked)
/// and what it wrote.
pub fn captured<T>(path: &str, f: impl FnOnce() -> T) -> (Option<T>, String) {
    let _ = std::io::stdout().flush();
    let file = File::create(path).expect("capture file");
    let fd = file.into_raw_fd();
    let saved = unsafe { dup(1) };
    unsafe { dup2(fd, 1); close(fd); }
    let res = catch_unwind(AssertUnwindSafe(f)).ok();
    let _ = std::io::stdout().flush();
    unsafe { dup2(saved, 1); close(saved); }
    let mut bytes = vec![];
    File::open(path).expect("capture file").read_to_end(&mut bytes).expect("capture");
    let _ = std::fs::remove_file(path);
    (res, String::from_utf8_lossy(&bytes).into_owned())
}

pub fn errors(text: &str) -> usize {
    text.matches("*ERROR*").count()
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn num(x: f64) -> String {
    if x.is_nan() { "\"NaN\"".to_string() }
    else if x.is_infinite() { format!("\"{}\"", if x > 0.0 { "inf" } else { "-inf" }) }
    else { format!("\"{:e}\"", x) }
}

pub fn nums(xs: &[f64]) -> String {
    let v: Vec<String> = xs.iter().map(|x| num(*x)).collect();
    format!("[{}]", v.join(","))
}

pub fn text(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// Append a line to the results, at once: the process may be about to die.
pub struct Results(File);
impl Results {
    pub fn open(path: &str) -> Results {
        Results(std::fs::OpenOptions::new().create(true).append(true).open(path).expect("results"))
    }
    pub fn put(&mut self, line: &str) {
        self.0.write_all(format!("{}\n", line).as_bytes()).expect("results");
    }
}

#[allow(unused)]
fn _fds(f: File) -> File {
    let fd = f.as_raw_fd();
    let _ = fd;
    unsafe { File::from_raw_fd(f.into_raw_fd()) }
}
