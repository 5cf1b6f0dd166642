//! a sample read from a file (C23)
use crate::c_gen::*;
use crate::gen::*;
use crate::json;
use crate::model::*;
use crate::sym::*;
use json_typegen_shared::*;
const FD: &[&str] = &["[#r#r]", "{\"a\":1}", "#r", "[1,@A]", " [12, \"a\\u00e9\"]  ", "{\"ab\":-1.5e3} #r", "12#r", "\"#s\\#r\"", "[tru#r]"];
pub fn h_file(case: u64) {
    // 20..: files that are not of the size they are said to be
    let (case, odd) = (case % 20, case >= 20);
    let doc = if case == 9 { long() } else if case == 10 { huge() } else { fill(FD[case as usize], &[&["null", "true", "\"x\"", "2.5", "1"]]) };
    let mut o = Options::default();
    o.output_mode = [OutputMode::Shape, OutputMode::Rust, mode_of(L::Ts, false)][if case < 2 { choice(3) } else { 0 }].clone();
    file(&doc);
    if odd {
        let n = choice(4);
        observe(&[n as u8]);
        size([0, doc.len() / 2, doc.len() - 1, doc.len() + 9][n]);
    }
    let r = codegen("Root", FILE, o.clone());
    let t: &[u8] = trim(&doc);
    // a scalar is not recognised as text when given directly
    let inline = !t.is_empty() && (t[0] == b'[' || t[0] == b'{');
    let j = json::parse(&doc);
    observe(&doc);
    match r {
        Ok(out) => {
            observe(out.as_bytes());
            reach("read");
            check(!failed(), "code is generated from a file that could not be read to its end");
            match &j {
                Some(_) if inline => match codegen("Root", text(&doc), o) {
                    Ok(w) => check_eq(out.as_bytes(), w.as_bytes(), "a file gives another result than the same text"),
                    Err(_) => fail("text rejected"),
                },
                Some(j) => check_eq(&crate::c_infer::canon(&out), &crate::c_infer::expected(j), "type of a scalar"),
                None => fail("a file that is not JSON is accepted"),
            }
        }
        Err(_) => {
            reach("error");
            check(failed() || j.is_none(), "a readable file is rejected");
        }
    }
}
/// as the command line program reads it (the library built with a progress bar)
pub fn h_file_progress(case: u64) {
    h_file(case)
}
/// larger than any buffer; the interesting part is at its end
pub fn long() -> Vec<u8> {
    let n = [300, 4000, 4096, 8190, 8192, 8193, 16384, 20000][choice(8)];
    let mut d = b"[\"".to_vec();
    d.extend(vec![b'x'; n - 20]);
    d.extend(fill(["\",1,2,3,4,5,null]#r", "\",{\"a\":#d}, 12]", "\",2.5", "é\",\"\\u00e9\",[]]"][choice(4)], &[]));
    d
}
/// longer than the reader's buffer, the end of which falls on each place of what matters
fn huge() -> Vec<u8> {
    let t = "\",12,{\"a\":\"\\u00e9\"},null]";
    let n = match choice(4) {
        0 => 65536,
        1 => 300000,
        2 => 131072 + 8192 - choice(t.len() as u32),
        _ => 131072 - choice(t.len() as u32),
    };
    let mut d = vec![b'x'; n];
    d[0] = b'[';
    d[1] = b'"';
    d.extend(t.as_bytes());
    d.extend([&b"x"[..], b"  \n", b"]"][choice(3)]);
    d
}
fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: u8| c == b' ' || c == b'\t' || c == b'\r' || c == b'\n';
    let mut i = 0;
    while i < b.len() && ws(b[i]) {
        i += 1;
    }
    &b[i..]
}
