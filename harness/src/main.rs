//! replay HARNESS CASE HEX [-v]: run one harness natively on a recorded model
//! replay --batch FILE: each line "HARNESS CASE HEX"; prints one result line per input line
use h::sym::ffi::{Assumed, REC};
use std::io::Write;
static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn run(name: &str, case: u64, hex: &str, verbose: bool) -> String {
    let model: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.model = model;
        r.pos = 0;
        r.obs.clear();
        r.viol.clear();
        r.find.clear();
        r.file = None;
        r.failed = false;
        r.stuck = false;
        r.outs = Default::default();
        r.active = true;
        r.verbose = verbose;
    });
    let f = h::find(name).expect("no such harness");
    // a harness that ends in `exit`: report here
    *h::sym::ffi::DONE.lock().unwrap() = Some(|| {
        let r = report("ok".into());
        h::sym::ffi::print(&format!("{}\n", r));
        let v = REC.with(|r| r.borrow().verbose);
        h::sym::ffi::leave(if !v || r.split('\t').nth(2).unwrap().is_empty() { 0 } else { 1 });
    });
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Assumed>() {
            return;
        }
        if let Some(l) = i.location() {
            *LOC.lock().unwrap() = format!("{}:{}", l.file(), l.line());
        }
    }));
    let r = std::panic::catch_unwind(|| f(case));
    let mut status = "ok".to_string();
    if let Err(e) = r {
        status = if e.is::<Assumed>() { "assumed".into() } else { "panic".into() };
    }
    if status == "panic" && REC.with(|r| r.borrow().stuck) {
        status = "ok".into();
    }
    let l = report(status);
    if REC.with(|r| r.borrow().stuck) {
        h::sym::ffi::print(&format!("{}\n", l));
        h::sym::ffi::leave(if !verbose || l.split('\t').nth(2).unwrap().is_empty() { 0 } else { 1 });
    }
    l
}
fn report(status: String) -> String {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.active = false;
        let mut viol = r.viol.clone();
        if status == "panic" {
            viol.push(format!("panic: {}", LOC.lock().unwrap()));
        }
        if r.verbose {
            h::sym::ffi::print(&format!("status {}\nviolations {:?}\nfindings {:?}\nobserved {:?}\n", status, viol, r.find, String::from_utf8_lossy(&r.obs)));
        }
        let hexs: String = r.obs.iter().map(|b| format!("{:02x}", b)).collect();
        format!("{}\t{}\t{}\t{}", status, hexs, viol.join("\u{1}"), r.find.join("\u{1}"))
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--batch" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let out = std::io::stdout();
        for l in t.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let r = run(p[0], p[1].parse().unwrap(), p.get(2).unwrap_or(&""), false);
            writeln!(out.lock(), "{}", r).unwrap();
        }
    } else {
        let case = a[2].parse().unwrap();
        let r = run(&a[1], case, a.get(3).map(|s| s.as_str()).unwrap_or(""), true);
        let mut p = r.split('\t');
        let _ = (p.next(), p.next());
        std::process::exit(if p.next().unwrap().is_empty() { 0 } else { 1 });
    }
}
