//! inference exactness
use crate::gen::*;
use crate::json::{self, J};
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
pub fn shape_of(doc: &[u8], unwrap: &str) -> Option<String> {
    let mut o = Options::default();
    o.output_mode = OutputMode::Shape;
    o.unwrap = unwrap.into();
    codegen("Root", text(doc), o).ok()
}
pub fn canon(out: &str) -> Vec<u8> {
    let mut r = vec![];
    match json::parse(out.as_bytes()) {
        Some(j) => show_output(&j, &mut r),
        None => {
            fail("shape output is not JSON");
        }
    }
    r
}
pub fn expected(j: &J) -> Vec<u8> {
    let mut r = vec![];
    show(&infer(j), &mut r);
    r
}
/// scalars and small containers
pub const U: &[&str] = &[
    "null", "true", "#d", "1.5", "\"#s\"", "[]", "{}", "[#d]", "[null]", "[1,2]", "[1,\"x\"]", "[null,1]", "[1,2,3]", "[[],[1]]",
    "{\"p\":1}", "{\"p\":null}", "{\"q\":true}", "{\"p\":1.5,\"q\":\"x\"}", "{\"p\":\"s\"}", "{\"p\":{\"r\":1}}", "{\"p\":[]}", "{\"p\":[1]}",
];
pub const V: &[&str] = &["null", "true", "#d", "1.5", "\"#s\"", "[]", "[1]", "[1,\"x\"]", "[true,null]", "{}", "{\"p\":1}", "{\"p\":null,\"q\":2}"];
/// members of an object, or none
pub const M: &[&str] = &["", "\"a\":@B", "\"b\":@B", "\"a\":@B,\"b\":#d", "\"b\":null,\"a\":@B"];
pub const M2: &[&str] = &["", "\"a\":@B", "\"b\":1,\"a\":@B"];
const TPL: &[(&str, &[&[&str]])] = &[
    ("[@A,@A]", &[U]),
    ("[@A,@A,@A]", &[V]),
    ("{\"a\":@A}", &[U]),
    ("[{@A},{@A}]", &[M, V]),
    ("[{@A},{@A},{@A}]", &[M2, &["null", "1", "2.5", "\"#s\"", "[]", "{}"]]),
    ("{\"k\":[[@A,@A],[@A,@A]]}", &[&["null", "true", "#d", "1.5", "\"x\"", "[]"]]),
    ("[[@A],[@A,@A],[@A]]", &[&["null", "true", "#d", "1.5", "\"x\"", "{}"]]),
    ("{\"k\":@A,\"k\":@A}", &[V]),
    ("[{\"o\":{@A}},{\"o\":{@A}},{\"o\":null}]", &[M2, &["null", "1", "2.5", "\"s\""]]),
    ("@A", &[&["[1,2,3,4,5,6,7,8,9,10,11,@B]", "[1,2,3,4,5,6,7,8,9,10,11,12,@B]", "[1,2,@B,4,5,6,7,8,9,10,11,12,13]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,@B,15]",
        "[[1,2,3,4,5,6,7,8,9,10,11,12],[1,2,3,4,5,6,@B,8,9,10,11,12]]", "[[1,2,3,4,5,6,7,8,9,10,11,12,13],[1,@B]]"], V]),
    ("[@A,@A,@A,@A]", &[&["null", "1", "2.5", "\"x\"", "{\"p\":1}", "[1]"]]),
    ("[{\"a\":@A},{\"a\":@A},{\"a\":@A}]", &[V]),
    ("[@A,@A,@A]", &[U]),
    ("[{\"a\":@A,\"b\":@A},{\"a\":@A},{\"b\":@A}]", &[&["null", "1", "2.5", "\"x\"", "[]", "[1]", "{}"]]),
    ("[[@A,@A],[@A,@A],[@A,@A]]", &[&["null", "1", "2.5", "\"x\""]]),
    // 15: free text
    ("[#r#r#r#r]", &[]),
    ("[{\"a\":#r#r},{\"#k\":#r#r}]", &[]),
    ("{\"#n\":#r#r,\"#n\":#r}", &[]),
    ("[#r#r,@A]", &[&["[#r]", "[#r,#r]", "null", "{\"#k\":#r}", "#r#r"]]),
    ("[[#r,#r],[#r,#r]]", &[]),
];
/// whole documents
pub fn h_infer(case: u64) {
    let doc = if case >= 100 {
        crate::big::doc(case - 100, 300).into_bytes()
    } else {
        let (t, sets) = TPL[case as usize];
        fill(t, sets)
    };
    let j = match json::parse(&doc) {
        Some(j) => j,
        None if (15..100).contains(&case) => return,
        None => return fail("generator"),
    };
    observe(&doc);
    match shape_of(&doc, "") {
        Some(out) => {
            let got = canon(&out);
            observe(&got);
            check_eq(&got, &expected(&j), "inferred type differs from the sample's type");
            if any_missing(&[&j]) {
                reach("any-missing");
            }
            reach("inferred");
        }
        None => fail("sample rejected"),
    }
}
/// the common type of all elements of an array: `unwrap` with a wildcard merges them
pub fn h_merge(case: u64) {
    let doc = if case >= 100 {
        crate::big::doc(case - 100, 300).into_bytes()
    } else {
        let (t, sets) = TPL[case as usize];
        fill(t, sets)
    };
    let j = match json::parse(&doc) {
        Some(j) => j,
        None if (15..100).contains(&case) => return,
        None => return fail("generator"),
    };
    observe(&doc);
    let items: Vec<&J> = match &j {
        J::Arr(a) => a.iter().collect(),
        J::Obj(o) => {
            // which of several members with the same name a wildcard selects is not specified
            assume(members(o).len() == o.len());
            o.iter().map(|m| &m.1).collect()
        }
        _ => return,
    };
    let mut want = vec![];
    show(&union(&items, PLAIN), &mut want);
    match shape_of(&doc, "/-") {
        Some(out) => {
            let got = canon(&out);
            observe(&got);
            check_eq(&got, &want, "merged type differs from the type of all merged values");
            reach("merged");
        }
        None => check(items.is_empty(), "sample rejected"),
    }
}
/// numbers: the digits are symbolic
pub fn h_num(case: u64) {
    let (pre, n, post): (&str, usize, &str) = match case {
        0 => ("", 5, ""),
        1 => ("9223372036854775", 3, ""),
        2 => ("-9223372036854775", 3, ""),
        3 => ("92233720368547758", 3, ""),
        4 => ("1.", 2, "e5"),
        5 => ("12345678901234567", 2, ""),
        _ => ("-", 4, ""),
    };
    let mut v = b"[".to_vec();
    v.extend(pre.as_bytes());
    for _ in 0..n {
        v.push(any_of(b"0123456789-+.eE"));
    }
    v.extend(post.as_bytes());
    v.push(b']');
    observe(&v);
    let j = match json::parse(&v) {
        Some(j) => j,
        None => return,
    };
    match shape_of(&v, "") {
        Some(out) => {
            let got = canon(&out);
            observe(&got);
            check_eq(&got, &expected(&j), "number class");
            reach("number");
        }
        None => fail("number rejected"),
    }
}
