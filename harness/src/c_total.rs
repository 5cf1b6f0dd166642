//! every input gives an answer: no panic, no endless loop, whatever the bytes (C01)
use crate::c_keys::format_of;
use crate::gen::text;
use crate::sym::*;
use json_typegen_shared::*;
fn mode(k: u64) -> OutputMode {
    use OutputMode::*;
    match k {
        0 => Rust,
        1 => Typescript,
        2 => TypescriptTypeAlias,
        3 => JsonSchema,
        4 => ZodSchema,
        5 => KotlinJackson,
        6 => KotlinKotlinx,
        7 => PythonPydantic,
        _ => Shape,
    }
}
/// `1`: any ASCII byte; `2`: any character of two bytes; `3`: some of three; `4`: some of four; `w`: white space, quotes, structure
fn raw(t: &str) -> Vec<u8> {
    let mut o = vec![];
    let mut esc = false;
    for c in t.bytes() {
        if c == b'\\' && !esc {
            esc = true;
            continue;
        }
        match c {
            _ if esc => o.push(c),
            b'1' => {
                let x = byte();
                assume(x < 0x80);
                o.push(x);
            }
            b'2' => {
                let (a, b) = (byte(), byte());
                assume((0xc2..0xe0).contains(&a));
                assume((0x80..0xc0).contains(&b));
                o.push(a);
                o.push(b);
            }
            // Latin, Greek, Cyrillic only
            b'5' => {
                o.push(any_of(b"\xc3\xc4\xc7\xce\xd0"));
                o.push(any_of(b"\x80\x89\x9f\xa9\xb0\xbf"));
            }
            b'3' => {
                o.push(any_of(b"\xe1\xe2\xef"));
                o.push(any_of(b"\x80\xac\xbb\xbf"));
                o.push(any_of(b"\x80\xa8\xbf"));
            }
            b'4' => {
                o.extend(b"\xf0\x9d");
                o.push(any_of(b"\x90\x92\x9f"));
                o.push(any_of(b"\x80\x98\xbf"));
            }
            b'w' => o.push(any_of(b" \t\n\"'\\{}[]:,/~-")),
            _ => o.push(c),
        }
        esc = false;
    }
    o
}
fn go(name: &[u8], doc: &[u8], o: Options) {
    observe(name);
    observe(b"\n");
    observe(doc);
    match codegen(text(name), text(doc), o) {
        Ok(x) => {
            observe(x.as_bytes());
            check(x.ends_with('\n'), "the output does not end with a newline");
            reach("generated");
        }
        Err(e) => {
            // the message can be shown
            let m = internal_util::display_error_with_causes(&e);
            check(!m.is_empty(), "no error message");
            observe(m.as_bytes());
            reach("error");
        }
    }
}
fn with(m: u64) -> Options {
    let mut o = Options::default();
    o.output_mode = mode(m);
    o
}
const NAMEDOC: &[&str] = &["{\"11\":\\1}", "{\"2\":{\"11\":\\1}}", "{\"51\":[{},null]}", "{\"15\":null}", "{\"3\":[]}", "{\"4a\":\\1}"];
/// property names
pub fn h_total_names(case: u64) {
    let doc = raw(NAMEDOC[(case % 6) as usize]);
    let mut o = with(case / 6);
    if case % 6 == 3 || case % 6 == 5 {
        let f = choice(9);
        if f < 8 {
            o.property_name_format = Some(format_of(f));
        }
    }
    go(b"Root", &doc, o);
}
/// the requested name
pub fn h_total_root(case: u64) {
    let name = raw(["", "11", "2", "15", "pub(11 1", "1"][(case % 6) as usize]);
    let doc: &[u8] = [&b"{\"a\":{\"b\":1}}"[..], b"[[{}]]", b"[]"][if case % 6 == 5 { choice(3) } else { 0 }];
    go(&name, doc, with(case / 6));
}
/// documents
pub fn h_total_docs(case: u64) {
    let doc = raw(["[1111", "{1111", "[{\"a\":1w}w", "{\"a\"w[1w", "[ww1ww", "w[1w1", "[{\"b\":[ww]}w]"][(case % 7) as usize]);
    let mut o = with(case / 7);
    if case % 7 == 2 {
        o.unwrap = text(&raw("/1")).into();
    }
    go(b"Root", &doc, o);
}
/// every arrangement of kinds of values: tuples of 0 to 13 elements, several of different lengths, tables, nesting
pub fn h_total_shapes(case: u64) {
    const E: [&str; 12] = ["1", "\"x\"", "true", "null", "1.5", "{}", "{\"a\":1}", "[]", "[1]", "[1,\"x\"]", "{\"b\":[null]}", "12345678901234567890"];
    // elements i, i + step, i + 2 step, ... of E
    fn list(n: usize, from: usize, step: usize) -> String {
        let mut o = String::new();
        for k in 0..n {
            o.push_str(if k > 0 { "," } else { "" });
            o.push_str(E[(from + k * step) % 12]);
        }
        o
    }
    let mut o = with(case % 9);
    let wide = case >= 27;
    let (from, step) = if wide || case < 9 { (choice(12), [1, 5, 0][choice(3)]) } else { (choice(4) * 3, [1, 5][choice(2)]) };
    let d = match case / 9 % 3 {
        0 => {
            let l = list(choice(14), from, step);
            match choice(4) {
                0 => format!("[{}]", l),
                1 => format!("{{\"k\":[{}]}}", l),
                2 => format!("[[{}]]", l),
                _ => format!("{{\"k\":{{\"m\":[[{}],null]}},\"km\":1}}", l),
            }
        }
        1 => {
            let (n, m) = if wide { (choice(6), choice(6)) } else { ([0, 1, 2, 4][choice(4)], [0, 2, 3][choice(3)]) };
            let (a, b) = (list(n, from, step), list(m, from + choice(3), step));
            [format!("[[{}],[{}]]", a, b), format!("[{{\"k\":[{}]}},{{\"k\":[{}]}}]", a, b), format!("{{\"k\":[[{}],[{}],[[{}]]]}}", a, b, a)][choice(3)].clone()
        }
        _ => {
            let n = if wide { choice(7) } else { [1, 3, 7][choice(3)] };
            let mut t = String::from("{");
            for k in 0..n {
                t += &format!("{}\"{}\":{}", if k > 0 { "," } else { "" }, ["a", "b", "A", "", "1", "type", "a b"][k], E[(from + k * step) % 12]);
            }
            t += "}";
            o.infer_map_threshold = [None, Some(0), Some(3)][choice(3)];
            o.collect_additional = flag();
            o.use_default_for_missing_fields = flag();
            [t.clone(), format!("[{},{{}}]", t), format!("[{},[{}]]", t, t), format!("{{\"k\":{},\"l\":{},\"m\":[{}]}}", t, t, t)][choice(4)].clone()
        }
    };
    go(b"Root", d.as_bytes(), o);
}
/// texts of options, given directly or in a block
pub fn h_total_opts(case: u64) {
    let mut o = with(case / 6);
    match case % 6 {
        0 => o.derives = text(&raw("11,1")).into(),
        1 => o.field_visibility = Some(text(&raw("11")).into()),
        2 => o.type_visibility = text(&raw("11")).into(),
        3 => o.unwrap = text(&raw(["111", "2", "/w/w"][choice(3)])).into(),
        4 => {
            let mut b = b"{ \"".to_vec();
            b.extend(raw(["/11", "1", "2", "/5/w"][choice(4)]));
            b.extend(b"\": { use_type: \"");
            b.extend(raw(["map", "1", "5"][choice(3)]));
            b.extend(b"\" } }");
            observe(&b);
            match parse::options(text(&b)) {
                Ok(x) => {
                    o = x;
                    o.output_mode = mode(case / 6);
                }
                Err(m) => {
                    observe(m.as_bytes());
                    return reach("error");
                }
            }
        }
        _ => {
            o.infer_map_threshold = [Some(0), Some(1), Some(usize::MAX), None][choice(4)];
            o.collect_additional = flag();
            o.use_default_for_missing_fields = flag();
            o.deny_unknown_fields = flag();
            o.import_style = [ImportStyle::AddImports, ImportStyle::AssumeExisting, ImportStyle::QualifiedPaths][choice(3)].clone();
        }
    }
    let docs = ["{\"a\":[{\"a\":1},{\"b\":null}]}", "[]", "[1,\"s\",{}]", "[[],[[null]]]"];
    let d = docs[if case % 6 >= 3 { choice(4) } else { 0 }];
    go(b"Root", d.as_bytes(), o);
}
/// option blocks, macros, SQL, names of files
pub fn h_total_text(case: u64) {
    match case {
        0..=5 => {
            let t = raw(["11111", "{2:11", "{\"1\\n\":\"51\"}", "{unwrap:\"\\\\1{11", "{/*1*/11", "{ \"/a\":{11}"][case as usize]);
            observe(&t);
            match parse::options(text(&t)) {
                Ok(_) => reach("generated"),
                Err(m) => {
                    observe(m.as_bytes());
                    reach("error");
                }
            }
        }
        6..=10 => {
            let t = raw(["\"11\",\"1", "\"A\",\"[1\"1{", "\"5\",\"{}\",1", "json_typegen!(1", "json_typegen!(1);1"][case as usize - 6]);
            observe(&t);
            match if case < 9 { codegen_from_macro_input(text(&t)) } else { codegen_from_macro(text(&t)) } {
                Ok(x) => {
                    observe(x.as_bytes());
                    reach("generated");
                }
                Err(e) => {
                    observe(internal_util::display_error_with_causes(&e).as_bytes());
                    reach("error");
                }
            }
        }
        11..=18 => {
            let t = raw(["111", "create 1able 2(", "create table t(1 1", "create table t(a int1\\1)1", "create table t(1\"a5 text)", "create table t(a i1t)1\\;", "create table \"2\"(a varchar(11))", "select 1 1"][case as usize - 11]);
            let mut o = parse::options("{ input_mode: \"sql\" }").ok().unwrap();
            o.output_mode = mode(case % 9);
            go(b"Root", &t, o);
        }
        // not a document: taken as the name of a file, and there is none
        _ => {
            let t = raw(["111", "2", "a/1", "1{}", "http1"][case as usize - 19]);
            go(b"Root", &t, with(case % 9));
        }
    }
}
