//! accept/reject: a sample is accepted exactly when it is a JSON text
use crate::json;
use crate::sym::*;
use json_typegen_shared::*;
fn opts() -> Options {
    let mut o = Options::default();
    o.output_mode = OutputMode::Shape;
    o
}
fn decide(v: &[u8]) {
    let s = match std::str::from_utf8(v) {
        Ok(s) => s,
        Err(_) => return,
    };
    // surrounding whitespace is not part of the sample
    let t = s.trim();
    // anything else names a file (and there is none): see c_file for samples in files
    let inline = t.starts_with('{') || t.starts_with('[');
    let valid = inline && json::parse(t.as_bytes()).is_some();
    let r = codegen("Root", s, opts());
    observe(v);
    match &r {
        Ok(o) => {
            reach("accepted");
            observe(o.as_bytes());
            check(valid, "text that is not JSON was accepted as a sample");
        }
        Err(_) => {
            reach("rejected");
            observe(b"rejected");
            check(!valid, "a JSON text was rejected");
        }
    }
}
/// `case` raw bytes
pub fn h_json_raw(case: u64) {
    let v: Vec<u8> = (0..case).map(|_| byte()).collect();
    decide(&v);
}
const NUM: &[u8] = b"0123456789-+.eE ,";
/// templates with symbolic bytes inside
pub fn h_json_tpl(case: u64) {
    let (pre, n, set, post): (&[u8], usize, Option<&[u8]>, &[u8]) = match case {
        0 => (b"[", 6, Some(NUM), b"]"),
        1 => (b"{\"a\":", 5, Some(NUM), b"}"),
        2 => (b"[\"", 4, None, b"\"]"),
        3 => (b"[\"\\u", 4, None, b"\"]"),
        4 => (b"[\"\\ud83d\\u", 4, None, b"\"]"),
        5 => (b"[\"\\u", 4, None, b"\\udc00\"]"),
        6 => (b"{\"a\"", 3, None, b"}"),
        7 => (b"[1", 4, None, b""),
        8 => (b"{\"a\":1", 4, None, b""),
        9 => (b"{\"", 4, None, b"\":1}"),
        10 => (b"[1,", 3, None, b"2]"),
        11 => (b"{} ", 3, None, b""),
        12 => (b"[[{\"k\":[", 3, None, b"]}]]"),
        13 => (b"[\"\\", 2, None, b"\"]"),
        14 => (b"[t", 3, None, b"]"),
        15 => (b"[fals", 2, None, b"]"),
        16 => (b"[nul", 2, None, b"]"),
        17 => (b"{\"a\":{\"b\":", 3, None, b"}}"),
        18 => (b"[1,2,3,4,5,6,7,8,9,10,11,12,13", 3, None, b""),
        19 => (b"[", 9, Some(b"[]{},:\"1 "), b""),
        20 => (b"{", 8, Some(b"[]{},:\"1 "), b""),
        21 => (b"[0", 5, Some(NUM), b"]"),
        22 => (b"[1", 6, Some(NUM), b"]"),
        23 => (b"[", 7, Some(NUM), b" ]"),
        24 => (b"[\"\\ud8", 2, None, b"\\ude00\"]"),
        25 => (b"[\"\\udb", 2, None, b"\\udfff\"]"),
        // what stands before the sample
        26 => (b"", 3, None, b"[1]"),
        27 => (b"", 3, None, b"{\"a\":[]}"),
        28 => (b" ", 2, None, b" []"),
        29 => (b"\xef\xbb", 2, None, b"{}"),
        30 => (b"[]\n", 3, None, b"\n"),
        _ => return,
    };
    let mut v = pre.to_vec();
    for _ in 0..n {
        v.push(match set {
            Some(s) => any_of(s),
            None => byte(),
        });
    }
    v.extend(post);
    decide(&v);
}
/// parts that a hint or the unwrap pointer takes out of the type still have to be JSON
pub fn h_json_opts(case: u64) {
    let docs: [(&[u8], &[u8]); 4] = [(b"{\"b\":1,\"a\":", b"}"), (b"{\"a\":", b",\"b\":[1]}"), (b"[", b",[1,2]]"), (b"[{\"a\":1,\"b\":2},", b"]")];
    let (pre, post) = docs[(case % 4) as usize];
    let tpl: &[&str] = &["<<", "[^^", "{^^", "\"^\"", "[1^^2]", "{\"k\"^1}", "{\"k\":1^\"l\":2}", "[[^]^", "[{^}]", "[1,2^]^", "{\"k\":[^]}", "tr^e", "1^^", "\"\\^\"", "[\"k\":1]"];
    let mut v = pre.to_vec();
    let t = tpl[choice(tpl.len() as u32)];
    for b in t.bytes() {
        match b {
            b'^' => v.push(any_of(b",:[]{}\"1 u-")),
            b'<' => v.push(byte()),
            b => v.push(b),
        }
    }
    v.extend(post);
    let s = match std::str::from_utf8(&v) {
        Ok(s) => s,
        Err(_) => return,
    };
    observe(&v);
    let valid = json::parse(&v).is_some();
    let blocks: &[&str] = &["", "\"/a\": { use_type: \"T\" }", "\"/-\": { use_type: \"T\" }", "\"\": { use_type: \"T\" }", "infer_map_threshold: \"0\"", "\"/a\": { use_type: \"map\" }", "\"/-\": { use_type: \"map\" }"];
    let units: &[&str] = &["", "/b", "/1/0", "/-/b", "/0", "/z"];
    let k = choice((blocks.len() + units.len() - 1) as u32);
    observe(&[k as u8]);
    let (block, unwrap) = if k < blocks.len() { (blocks[k], "") } else { ("", units[k - blocks.len() + 1]) };
    let mut o = match parse::options(&format!("{{ {} }}", block)) {
        Ok(o) => o,
        Err(_) => return fail("options rejected"),
    };
    o.unwrap = unwrap.into();
    o.output_mode = OutputMode::Shape;
    match codegen("Root", s, o) {
        Ok(_) => {
            reach("accepted");
            check(valid, "text that is not JSON was accepted as a sample");
        }
        Err(_) => {
            reach("rejected");
            if unwrap.is_empty() && !block.contains("map\"") {
                check(!valid, "a JSON text was rejected");
            }
        }
    }
}
