//! a sample fetched from a URL (C22); the server is the stand-in's, its answers are chosen here
use crate::c_gen::*;
use crate::c_infer::{canon, expected};
use crate::gen::*;
use crate::json;
use crate::model::L;
use crate::sym::*;
use json_typegen_shared::*;
use std::cell::RefCell;
#[derive(Default)]
pub struct Server {
    pub body: Vec<u8>,
    pos: usize,
    pub asked: Vec<String>,
    pub failed: bool,
    faults: u32,
    pub status: Option<u16>,
}
thread_local! { pub static S: RefCell<Server> = RefCell::new(Server::default()); }
fn serve(url: &str) -> Option<u16> {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.asked.push(url.to_string());
        s.pos = 0;
        // no answer, an error page, the sample
        s.status = [None, Some(200), Some(404), Some(500), Some(400)][choice(5)];
        if s.status != Some(200) {
            s.failed = true;
        }
        s.status
    })
}
/// what arrives: all, a byte, half of it, an interruption, a broken connection
fn body(b: &mut [u8]) -> std::io::Result<usize> {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let max = (s.body.len() - s.pos).min(b.len());
        let k = if s.faults < 2 { choice(5) } else { 0 };
        if k > 0 {
            s.faults += 1;
        }
        let n = match k {
            1 => max.min(1),
            2 => max / 2 + max % 2,
            3 => return Err(std::io::ErrorKind::Interrupted.into()),
            4 => {
                s.failed = true;
                return Err(std::io::ErrorKind::ConnectionReset.into());
            }
            _ => max,
        };
        b[..n].copy_from_slice(&s.body[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    })
}
pub fn server(doc: &[u8]) {
    S.with(|s| *s.borrow_mut() = Server { body: doc.to_vec(), ..Server::default() });
    ureq::SERVER.with(|s| *s.borrow_mut() = Some((serve, body)));
}
const RD: &[&str] = &["[#r#r]", "{\"a\":1}", "#r", "[1,@A]", " [12, \"a\\u00e9\"]  ", "{\"ab\":-1.5e3} #r", "\"#s\"", "[tru#r]"];
pub fn h_remote(case: u64) {
    let mut url: Vec<u8> = vec![];
    let mut remote = true;
    let mut doc = b"[1]".to_vec();
    if case < 8 {
        url.extend(b"http://a/s");
        doc = fill(RD[case as usize], &[&["null", "true", "\"x\"", "2.5", "1"]]);
    } else if case == 9 {
        url.extend(b"https://a.b/s?x=1");
        doc = crate::c_file::long();
    } else {
        // what counts as a URL
        let t = ["http://##", "https://##", "htt#://a", "http#//a", " https://a.b/?c=#&d", "HTTP://a", "http:/a", "ttp://a", "file:///etc", "ahttp://b", "#http://a", "http#://a", "http##//a", "https#//a", "Http://#", "ftp://a/http://b", "http2://a", "http.json://"][choice(18)];
        for c in t.bytes() {
            if c == b'#' {
                let x = byte();
                assume(x > b' ' && x < 0x7f);
                url.push(x);
            } else {
                url.push(c);
            }
        }
        let s = text(&url).trim();
        assume(!s.starts_with('{') && !s.starts_with('['));
        remote = s.starts_with("http://") || s.starts_with("https://");
    }
    let mut o = Options::default();
    o.output_mode = [OutputMode::Shape, OutputMode::Rust, mode_of(L::Ts, false)][if case < 2 { choice(3) } else { 0 }].clone();
    server(&doc);
    observe(&url);
    observe(b"\n");
    observe(&doc);
    let r = codegen("Root", text(&url), o.clone());
    let (asked, failed) = S.with(|s| (s.borrow().asked.clone(), s.borrow().failed));
    if !remote {
        check(asked.is_empty(), "something is fetched for a sample that is no URL");
        check(r.is_err(), "code without a sample");
        return reach("no url");
    }
    check(asked.len() == 1, "not fetched exactly once");
    if let Some(u) = asked.first() {
        check_eq(u.as_bytes(), text(&url).trim().as_bytes(), "another URL is fetched");
    }
    let j = json::parse(&doc);
    match r {
        Ok(out) => {
            observe(out.as_bytes());
            check(!failed, "code is generated although the sample could not be fetched");
            match &j {
                Some(json::J::Arr(_)) | Some(json::J::Obj(_)) => match codegen("Root", text(&doc), o) {
                    Ok(w) => check_eq(out.as_bytes(), w.as_bytes(), "a fetched sample gives another result than the same text"),
                    Err(_) => fail("text rejected"),
                },
                Some(j) if case != 0 && case != 1 => check_eq(&canon(&out), &expected(j), "type of a scalar"),
                Some(_) => {}
                None => fail("a fetched text that is not JSON is accepted"),
            }
            reach("fetched");
        }
        Err(e) => {
            observe(internal_util::display_error_with_causes(&e).as_bytes());
            check(failed || j.is_none(), "a fetched sample is rejected");
            reach("error");
        }
    }
}
