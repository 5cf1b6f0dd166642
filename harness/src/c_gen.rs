//! one generated program per backend: does it say what the sample says?
use crate::c_infer::{M, M2, U, V};
use crate::gen::*;
use crate::json::{self, J};
use crate::langs;
use crate::model::*;
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
pub fn mode_of(l: L, kx: bool) -> OutputMode {
    match l {
        L::Rust => OutputMode::Rust,
        L::Ts => OutputMode::Typescript,
        L::TsAlias => OutputMode::TypescriptTypeAlias,
        L::Schema => OutputMode::JsonSchema,
        L::Zod => OutputMode::ZodSchema,
        L::Kotlin => {
            if kx {
                OutputMode::KotlinKotlinx
            } else {
                OutputMode::KotlinJackson
            }
        }
        L::Python => OutputMode::PythonPydantic,
    }
}
pub fn read(l: L, out: &str, name: &str) -> Result<(Env, P), &'static str> {
    match l {
        L::Rust => langs::rust(out, name),
        L::Ts | L::TsAlias => langs::ts(out, name),
        L::Schema => langs::schema(out),
        L::Zod => langs::zod(out).map(|x| (x.1, x.2)),
        L::Kotlin => langs::kotlin(out, name),
        L::Python => langs::python(out, name),
    }
}
/// the generated program means the type `s` and admits every value of `vals`
pub fn judge(l: L, out: &str, name: &str, s: &S, vals: &[&J], missing: bool) -> Option<(Env, P)> {
    match read(l, out, name) {
        Err(e) => {
            fail(e);
            None
        }
        Ok((env, p)) => {
            if let Err(e) = env.conform(&p, s, l) {
                fail(e);
            }
            for v in vals {
                if !env.accepts(&p, v, l) {
                    if missing {
                        finding("any-missing");
                    } else {
                        fail("the sample is not an instance of the generated type");
                    }
                }
            }
            Some((env, p))
        }
    }
}
/// object members for reuse and nesting
const R: &[&str] = &["{}", "{\"x\":1}", "{\"x\":null}", "{\"x\":1,\"y\":\"s\"}", "{\"x\":2.5}", "{\"x\":[]}", "{\"x\":[1]}", "{\"x\":{\"x\":1}}", "[{\"x\":1},{\"y\":2}]", "[{\"x\":1}]", "[]", "null"];
const W: &[&str] = &[
    "{\"a\":1,\"b\":1,\"c\":1}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":1}", "{\"d\":1,\"c\":1,\"b\":1,\"a\":1}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":null}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":2.5}",
    "{\"a\":1,\"b\":1,\"c\":1,\"e\":1}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":1,\"e\":1,\"f\":1}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":1,\"e\":1,\"f\":\"s\"}", "{\"a\":[1],\"b\":1,\"c\":1,\"d\":1,\"e\":1,\"f\":1}", "{\"a\":[],\"b\":1,\"c\":1,\"d\":1,\"e\":1,\"f\":1}",
    "{\"a\":{\"a\":1,\"b\":1,\"c\":1,\"d\":1},\"b\":1,\"c\":1,\"d\":1}", "[{\"a\":1,\"b\":1,\"c\":1,\"d\":1},{\"a\":1,\"b\":1,\"c\":1}]", "[{\"a\":1,\"b\":1,\"c\":1,\"d\":1},{\"a\":1,\"b\":1,\"c\":1,\"d\":null}]", "{\"a\":[1,\"s\"],\"b\":1,\"c\":1,\"d\":1}", "{\"a\":[\"s\",1],\"b\":1,\"c\":1,\"d\":1}", "{\"a\":[[],\"s\"],\"b\":1,\"c\":1,\"d\":1}", "{\"a\":[1,\"s\",1],\"b\":1,\"c\":1,\"d\":1}",
];
const W2: &[&str] = &["{\"a\":1,\"b\":1,\"c\":1,\"d\":1}", "{\"a\":1,\"b\":1,\"c\":1,\"d\":null}", "{\"a\":1,\"b\":1,\"c\":1}", "{\"a\":{\"a\":1,\"b\":1,\"c\":1,\"d\":1},\"b\":1,\"c\":1,\"d\":1}", "{\"a\":[1,\"s\"],\"b\":1,\"c\":1,\"d\":1}", "null", "[]", "1"];
/// lists and objects of which one type may do for the other
const T: &[&str] = &["[1,\"s\"]", "[\"s\",1]", "[null,\"s\"]", "[1,null]", "[[],\"s\"]", "[[1],\"s\"]", "[1,2]", "[1,\"s\",2]", "[{\"x\":1},\"s\"]", "[{\"x\":1},1]", "[{\"x\":1},{\"x\":null}]", "[[],[]]", "[]", "[[1,\"s\"],[2,\"t\"]]", "[[1,\"s\"],[\"t\"]]"];
/// members that may repeat the object around them
const S2: &[&str] = &["null", "[]", "{}", "{\"a\":null}", "{\"a\":[]}", "{\"a\":{}}", "[{\"a\":[]}]", "[{\"a\":null}]", "{\"a\":{\"a\":null}}", "[[]]", "[{\"b\":1}]", "{\"a\":1}"];
const K: &[&str] = &["a", "A", "a b", "a_b", "aB", "AB", "1", "a1", "1a", "type", "class", "self", "", "-", "$a", "a-b", "Option", "String", "list", "Any"];
pub const TPL: &[(&str, &[&[&str]])] = &[
    // 0..: as for inference
    ("[@A,@A]", &[U]),
    ("[@A,@A,@A]", &[V]),
    ("{\"a\":@A}", &[U]),
    ("[{@A},{@A}]", &[M, V]),
    ("[{@A},{@A},{@A}]", &[M2, &["null", "1", "2.5", "\"#s\"", "[]", "{}"]]),
    ("{\"k\":[[@A,@A],[@A,@A]]}", &[&["null", "true", "#d", "1.5", "\"x\"", "[]"]]),
    ("[{\"o\":{@A}},{\"o\":{@A}},{\"o\":null}]", &[M2, &["null", "1", "2.5", "\"s\""]]),
    ("[{\"a\":@A},{\"a\":@A},{\"a\":@A}]", &[V]),
    // 8: several objects, types may be shared
    ("{\"a\":@A,\"b\":@A}", &[R]),
    ("{\"a\":@A,\"b\":@A,\"c\":@A}", &[R]),
    ("{\"a\":{\"b\":@A,\"c\":@A},\"b\":@A}", &[R]),
    ("[{\"a\":@A},{\"a\":@A,\"b\":@A}]", &[R]),
    // 12: names
    ("{\"@A\":@B}", &[K, &["1", "{\"x\":1}", "[{\"x\":1}]"]]),
    ("{\"@A\":1,\"@A\":\"s\"}", &[K]),
    ("{\"@A\":{\"x\":1},\"@A\":{\"y\":1}}", &[K]),
    ("[{\"@A\":1},{\"@A\":1}]", &[K]),
    // 16: tuples and lists
    ("{\"t\":[@A,@A]}", &[&["null", "1", "\"s\"", "{\"x\":1}", "{\"x\":\"s\"}", "[1]", "[\"s\",1]", "[]"]]),
    ("{\"t\":[@A,@A,@A]}", &[&["null", "1", "\"s\"", "{\"x\":1}", "[1]"]]),
    ("{\"t\":[@A,@A,@A,1]}", &[&["null", "1", "\"s\"", "{\"x\":1}"]]),
    ("[[[@A,@A]],[[@A,@A]]]", &[&["null", "1", "\"s\"", "{\"x\":1}"]]),
    // 20: one member of each kind, symbolic content
    ("{\"p\":#d,\"q\":#d.#d,\"r\":\"#s#s\",\"s\":[#d,#d],\"t\":@A}", &[V]),
    ("[{\"a\":@A},{\"b\":@A},{\"a\":@A,\"b\":@A}]", &[&["null", "1", "2.5", "\"s\"", "[]", "[1]", "{}"]]),
    ("{\"a\":{\"a\":@A},\"b\":{\"a\":@A}}", &[R]),
    ("{\"a\":[@A,@A],\"b\":[@A]}", &[R]),
    // 24: types that repeat themselves
    ("{\"a\":@A}", &[S2]),
    ("[{\"a\":@A},{\"a\":@A}]", &[S2]),
    ("{\"b\":{\"a\":@A},\"a\":@A}", &[S2]),
    ("[@A,@A]", &[S2]),
    // 28: names of properties that may be missing
    ("[{\"@A\":@B},{}]", &[K, &["[1]", "[1,\"s\"]", "{\"x\":1}", "null", "[null]", "1", "\"s\"", "[{\"@A\":1}]"]]),
    ("[{\"@A\":@B},{\"@A\":null}]", &[K, &["[1]", "[1,\"s\"]", "{\"x\":1}", "null", "[null]", "1", "\"s\""]]),
    ("[{\"@A\":@B,\"a\":1},{\"@A\":@B},{\"a\":2}]", &[&["type", "a b", "A", "", "x"], &["[1]", "[\"s\"]", "{\"x\":1}", "null", "1", "[]"]]),
    ("{\"x\":[{\"@A\":[@B]},{\"y\":@B}],\"y\":@B}", &[&["type", "aB", "x"], &["1", "null", "\"s\"", "{\"y\":1}"]]),
    // 32: free text
    ("{\"a\":#r#r#r}", &[]),
    ("[#r#r,#r#r]", &[]),
    ("[{\"a\":#r#r},{\"#k\":#r}]", &[]),
    ("[[#r,#r],@A]", &[&["[#r]", "[#r,#r]", "null", "{\"#k\":#r}"]]),
    // 36: objects with several properties that nearly agree
    ("{\"p\":[{\"a\":@A,\"b\":1,\"c\":\"x\",\"d\":true,\"e\":[1]},{\"e\":[],\"d\":false,\"c\":\"y\",\"b\":2,\"a\":@A}],\"q\":[{\"a\":@A,\"b\":1,\"c\":\"x\",\"d\":true,\"e\":[1]},{\"a\":@A,\"b\":1,\"c\":\"x\",\"d\":true,\"e\":[1]}]}", &[&["null", "1", "2.5", "[]", "[1]"]]),
    ("{\"p\":@A,\"q\":@A}", &[W]),
    ("{\"p\":[@A,@A],\"q\":{\"z\":@A}}", &[W2]),
    ("{\"p\":{\"a\":@A},\"q\":{\"a\":@A}}", &[T]),
];
/// hints on properties with awkward names; beside them the same names without a hint
const HT: &[(&str, &str, &[&[&str]])] = &[
    ("/-", "{\"@A\":@B}", &[K, &["1", "{\"x\":1}", "[1,\"s\"]", "null"]]),
    ("/-/-", "[{\"@A\":@B,\"a\":@B},{\"@A\":null},{}]", &[&["a b", "aB", "type", "1", "x"], &["{\"x\":1}", "{}"]]),
    ("/k/-", "{\"k\":{\"@A\":@B,\"y z\":@B},\"@A\":@B}", &[&["a b", "aB", "type", "1", "x"], &["{\"x\":1}", "{\"p q\":{\"x\":null}}"]]),
    ("/a", "{\"a\":@B,\"b\":@B}", &[&[], &["1", "{\"x\":1,\"y\":\"s\"}", "[{\"x\":1},{}]", "{\"x\":{\"x\":1}}", "[1,\"s\"]", "{}"]]),
    ("/a/-", "{\"a\":[@B,@B,1],\"b\":[@B,@B]}", &[&[], &["1", "{\"x\":1,\"y\":\"s\"}", "[{\"x\":1},{}]", "{}"]]),
];
fn run_hinted(l: L, case: u64) {
    let (p, t, sets) = HT[case as usize];
    let doc = fill(t, sets);
    let map = flag();
    observe(&doc);
    observe(&[map as u8]);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    let mut o = match parse::options(&format!("{{ \"{}\": {{ use_type: \"{}\" }} }}", p, if map { "map" } else { "HintA" })) {
        Ok(o) => o,
        Err(_) => return fail("options block rejected"),
    };
    let toks = p[1..].split('/').map(|t| t.as_bytes().to_vec()).collect();
    let h = crate::c_opts::hinted(&j, &mut vec![], &[(toks, if map { None } else { Some(b"HintA".to_vec()) })]);
    o.output_mode = mode_of(l, l == L::Kotlin && flag());
    match (codegen("Root", text(&doc), o), h) {
        (Ok(out), Some(h)) => {
            observe(out.as_bytes());
            reach("generated");
            let s = infer(&h);
            if !unsettled() {
                judge(l, &out, "Root", &s, &[&h], any_missing(&[&h]));
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => fail("a map hint on a value that is no object is ignored"),
        (Err(_), Some(_)) => fail("sample rejected"),
    }
}
/// maps for their number of properties, in lists, next to null and in one another
const MP: &[&str] = &["{\"x\":1,\"y\":2}", "{\"x\":1,\"y\":null}", "{\"x\":1,\"y\":\"s\"}", "{\"x\":{\"x\":1,\"y\":2},\"y\":null}", "{\"x\":[1],\"y\":[null]}", "{\"x\":{\"z\":1},\"y\":{\"z\":null}}", "null", "{\"x\":1}", "{}", "[]", "1"];
const MP2: &[&str] = &["{\"x\":1,\"y\":2}", "{\"x\":null,\"y\":[]}", "{\"x\":{\"z\":1},\"y\":{}}", "null", "{\"x\":1}", "\"s\""];
const MT: &[(&str, &[&[&str]])] = &[
    ("[@A,@A]", &[MP]),
    ("[@A,@A,@A,@A]", &[MP2]),
    ("{\"k\":[@A,@A]}", &[MP]),
    ("[{\"a\":@A},{\"a\":@A},{}]", &[MP]),
    ("[[@A,@A],[@A]]", &[MP2]),
    ("{\"p\":{\"a\":@A,\"b\":@A},\"q\":{\"c\":@A}}", &[MP2]),
];
fn run_mapped(l: L, case: u64) {
    let (t, sets) = MT[case as usize];
    let doc = fill(t, sets);
    observe(&doc);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    let mut o = Options::default();
    o.output_mode = mode_of(l, l == L::Kotlin && flag());
    o.infer_map_threshold = Some(1);
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            let c = Cfg { map_above: Some(1), late: matches!(l, L::TsAlias | L::Zod) };
            judge(l, &out, "Root", &union(&[&j], c), &[&j], any_missing_with(&[&j], c));
            reach("generated");
        }
        Err(_) => fail("sample rejected"),
    }
}
pub fn run(l: L, case: u64) {
    if (50..60).contains(&case) {
        return run_mapped(l, case - 50);
    }
    if (40..50).contains(&case) {
        return run_hinted(l, case - 40);
    }
    let doc = if case >= 100 {
        crate::big::doc(case % 100, if case >= 200 { 300 } else { 33 }).into_bytes()
    } else {
        let (t, sets) = TPL[case as usize];
        fill(t, sets)
    };
    let j = match json::parse(&doc) {
        Some(j) => j,
        None if (32..100).contains(&case) => return,
        None => return fail("generator"),
    };
    observe(&doc);
    let kx = l == L::Kotlin && flag();
    let mut o = Options::default();
    o.output_mode = mode_of(l, kx);
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            let s = infer(&j);
            judge(l, &out, "Root", &s, &[&j], any_missing(&[&j]));
            reach("generated");
        }
        Err(_) => fail("sample rejected"),
    }
}
pub fn h_rust(case: u64) {
    run(L::Rust, case)
}
pub fn h_ts(case: u64) {
    run(L::Ts, case)
}
pub fn h_alias(case: u64) {
    run(L::TsAlias, case)
}
pub fn h_schema(case: u64) {
    run(L::Schema, case)
}
pub fn h_zod(case: u64) {
    run(L::Zod, case)
}
pub fn h_kotlin(case: u64) {
    run(L::Kotlin, case)
}
pub fn h_python(case: u64) {
    run(L::Python, case)
}
