//! options that change what is inferred: unwrap (C15), hints (C14), map inference (C19); order of values (C05)
use crate::c_gen::*;
use crate::c_infer::{canon, shape_of, V};
use crate::c_keys::*;
use crate::gen::*;
use crate::json::{self, J};
use crate::model::*;
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
fn token(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'~' && i + 1 < t.len() && (t[i + 1] == b'0' || t[i + 1] == b'1') {
            o.push(if t[i + 1] == b'0' { b'~' } else { b'/' });
            i += 1;
        } else {
            o.push(t[i]);
        }
        i += 1;
    }
    o
}
fn is_index(t: &[u8], i: usize) -> bool {
    // decimal, no leading zeros
    t == i.to_string().as_bytes()
}
pub fn tokens_of(p: &[u8]) -> Vec<Vec<u8>> {
    p.split(|b| *b == b'/').map(|t| t.to_vec()).collect()
}
fn select<'a>(j: &'a J, toks: &[Vec<u8>], o: &mut Vec<&'a J>) {
    let (t, rest) = match toks.split_first() {
        None => return o.push(j),
        Some(x) => x,
    };
    for (k, v) in j.obj() {
        if t == b"-" || token(t) == *k {
            select(v, rest, o);
        }
    }
    for (i, v) in j.arr().iter().enumerate() {
        if t == b"-" || is_index(t, i) {
            select(v, rest, o);
        }
    }
}
const UD: &[&str] = &[
    "{\"a\":@A,\"b\":{\"a\":@A,\"0\":\"s\"}}",
    "[@A,{\"a\":@A},[1,@A]]",
    "{\"a/b\":@A,\"~\":1,\"-\":\"s\",\"\":true,\"~1\":[]}",
    "[[@A,@A],[@A]]",
    "[0,1,2,3,4,5,6,7,8,9,\"x\",true,null,{\"a\":@A}]",
    "{\"a\":{\"b\":[{\"a\":@A},{\"a\":@A,\"b\":1},{}]}}",
];
const UV: &[&str] = &["null", "1", "2.5", "\"s\"", "[]", "[1]", "{}", "{\"a\":1}", "{\"b\":null}"];
const UP: &[&str] = &["/", "/a/b", "/a/b/-/a", "/a/b/0", "/a/b/-", "/-/-", "/-/a", "/a~1b", "/~0", "/~01", "/13/a", "/10", "/1", "/01", "/-/1", "/a/b/1/a", "a/b", "a", "0", "/b/0", "//", "/a/", "-", "-/-", "/-/-/-/-", "/a/b/-/b", "/1/a", "/2/1", "/~", "/+1", "/ a", "/12", "/3"];
pub fn h_unwrap(case: u64) {
    let mut p: Vec<u8> = vec![];
    if case < 6 {
        p.extend(UP[choice(UP.len() as u32)].as_bytes());
    } else if case < 12 {
        p.push(b'/');
        for _ in 0..3 {
            p.push(any_of(b"/ab01-~"));
        }
    } else {
        for _ in 0..2 {
            p.push(any_of(b"/ab01-~"));
        }
    }
    if case >= 18 {
        let (doc, p) = big_pointer(case == 18);
        return unwrap_case(&doc, &p);
    }
    let sets: &[&[&str]] = if case < 6 { &[UV] } else { &[&["1", "[\"s\",2]", "{\"a\":null}"]] };
    unwrap_case(&fill(UD[(case % 6) as usize], sets), &p)
}
/// long arrays and high indices, or deep documents and long pointers
fn big_pointer(wide: bool) -> (Vec<u8>, Vec<u8>) {
    if wide {
        let n = [9, 10, 11, 12, 33, 100, 101, 130, 260, 513][choice(10)];
        let k = [0, n / 2, n - 1, n * 9 / 10][choice(4)];
        let key = flag();
        let items: Vec<String> = (0..n).map(|i| format!("{}{}", if key { format!("\"k/{}~\":", i) } else { String::new() }, if i == k { "{\"a\":[null]}" } else { "1" })).collect();
        let d = if key { format!("{{{}}}", items.join(",")) } else { format!("[{}]", items.join(",")) };
        let esc = |i: usize| if key { format!("k~1{}~0", i) } else { i.to_string() };
        let p = match choice(6) {
            0 => format!("/{}", esc(k)),
            1 => format!("/{}/a", esc(k)),
            2 => format!("/{}", esc(n)),
            3 => format!("/0{}", esc(k)),
            4 => "/-/a/-".to_string(),
            _ => format!("/{}", esc(n - 1 - k)),
        };
        return (d.into_bytes(), p.into_bytes());
    }
    let n = [4, 5, 6, 8, 10, 12][choice(6)];
    let (open, close, tok) = [("{\"ab\":", "}", "ab"), ("[", "]", "0"), ("[1,", "]", "1"), ("{\"a/b\":", ",\"c\":1}", "a~1b")][choice(4)];
    let d = format!("{}{{\"z\":null}}{}", open.repeat(n), close.repeat(n));
    let m = [n - 1, n, n + 1][choice(3)];
    let star = choice(3);
    let mut p = String::new();
    for i in 0..m {
        p.push('/');
        p += if star == 1 || (star == 2 && i % 2 == 1) { "-" } else { tok };
    }
    if flag() {
        p += "/z";
    }
    (d.into_bytes(), p.into_bytes())
}
fn unwrap_case(doc: &[u8], p: &[u8]) {
    let j = match json::parse(doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    observe(p);
    observe(b" ");
    observe(doc);
    let toks: Vec<Vec<u8>> = if p.is_empty() || p == b"/" {
        vec![]
    } else if p[0] == b'/' {
        tokens_of(&p[1..])
    } else {
        tokens_of(p)
    };
    let mut sel = vec![];
    select(&j, &toks, &mut sel);
    match shape_of(doc, text(p)) {
        Some(out) => {
            let got = canon(&out);
            observe(&got);
            if sel.is_empty() {
                return fail("nothing matches the pointer, but a type is generated");
            }
            let mut want = vec![];
            show(&union(&sel, PLAIN), &mut want);
            check_eq(&got, &want, "type differs from the type of the values selected by the pointer");
            reach("selected");
        }
        None => {
            check(sel.is_empty(), "sample rejected");
            reach("no match");
        }
    }
}

// ---------------------------------------------------------------- hints
fn matches(toks: &[Vec<u8>], path: &[(Vec<u8>, bool)]) -> bool {
    toks.len() == path.len() && toks.iter().zip(path).all(|(t, (k, idx))| t == b"-" || if *idx { t == k } else { token(t) == *k })
}
/// the value with the hints applied; None: a map hint on something that is not an object
pub fn hinted(j: &J, path: &mut Vec<(Vec<u8>, bool)>, hints: &[(Vec<Vec<u8>>, Option<Vec<u8>>)]) -> Option<J> {
    let mut map = false;
    for (t, h) in hints {
        if matches(t, path) {
            match h {
                None => {
                    map = true;
                    break;
                }
                Some(n) => return Some(J::Opaque(n.clone())),
            }
        }
    }
    if map && !matches!(j, J::Obj(_)) {
        return None;
    }
    Some(match j {
        J::Obj(o) => {
            let mut r = vec![];
            for (k, v) in o {
                path.push((k.clone(), false));
                r.push((k.clone(), hinted(v, path, hints)?));
                path.pop();
            }
            if map {
                J::Map(r)
            } else {
                J::Obj(r)
            }
        }
        J::Arr(a) => {
            let mut r = vec![];
            for (i, v) in a.iter().enumerate() {
                path.push((i.to_string().into_bytes(), true));
                r.push(hinted(v, path, hints)?);
                path.pop();
            }
            J::Arr(r)
        }
        x => x.clone(),
    })
}
const HD: &[(&str, &[&str])] = &[
    ("{\"a\":@A,\"b\":@A}", &["", "/a", "/b", "/-", "/a/b", "/a/-", "/-/b", "/c", "/a/0", "/a/-/b", "/"]),
    ("[@A,@A]", &["", "/0", "/1", "/-", "/-/a", "/0/a", "/-/b", "/-/-", "/2", "/01", "/a"]),
    ("{\"a\":{\"x\":@A,\"y\":{\"b\":@A}}}", &["/a", "/a/x", "/a/-", "/a/y/b", "/a/-/b", "/a/y", "/-/x", "/a/x/a", "/-/-/-"]),
    ("[0,1,2,3,4,5,6,7,8,9,10,11,@A,@A]", &["/12", "/13", "/-", "/0", "/1", "/12/a", "/-/a", "/-/b", "", "/14"]),
    ("{\"a/b\":@A,\"~\":@A,\"-\":1,\"0\":\"s\"}", &["/a~1b", "/~0", "/-", "/0", "/a", "/~1", "/a~1b/a", "/-/a"]),
    ("[{\"m\":@A},{\"m\":@A},{}]", &["/-/m", "/0/m", "/1/m", "/-", "/-/m/a", "/-/m/-", "/2", "/1"]),
];
const HV: &[&str] = &["null", "1", "\"s\"", "[1]", "[]", "{}", "{\"a\":1,\"b\":\"s\"}", "{\"b\":[null,2]}", "{\"a\":{\"b\":1}}"];
const HV2: &[&str] = &["null", "1", "{\"a\":1,\"b\":\"s\"}", "[1]"];
pub fn h_hint(case: u64) {
    if case >= 20 {
        // one hint far out
        let (doc, p) = big_pointer(case == 20);
        return hint_case(&doc, &[text(&p)], false, 1);
    }
    let (t, ptrs) = HD[(case % 6) as usize];
    let doc = fill(t, &[if (6..12).contains(&case) { HV2 } else { HV }]);
    let two = case >= 6;
    hint_case(&doc, ptrs, two, if two { 1 } else { 8 });
}
/// the bytes of pointer and property names are free
pub fn h_hint_sym(case: u64) {
    let (t, p): (&str, &[&str]) = [
        ("{\"#s\":@A,\"#s\":1}", &["/#s"] as &[&str]),
        ("{\"#s#s\":@A,\"a\":\"s\"}", &["/#s#s", "/#s#s#s"]),
        ("{\"a\":{\"#s\":@A},\"#s\":{\"b\":@A}}", &["/#s/#s"]),
        ("[[1,@A],{\"#s\":@A}]", &["/#s/#s"]),
        ("[0,1,2,3,4,5,6,7,8,9,10,11,@A,@A]", &["/#s#s", "/#s"]),
        ("{\"a\":[@A,{\"#s\":1}]}", &["/a/#s/#s", "/#s/0"]),
    ][case as usize];
    let doc = fill(t, &[&["1", "null", "[1,\"s\"]", "{\"a\":1}"]]);
    hint_case(&doc, p, false, 1);
}
fn hint_case(doc: &[u8], ptrs: &[&str], two: bool, langs: u32) {
    let mut block = String::from("{ ");
    let mut hints: Vec<(Vec<Vec<u8>>, Option<Vec<u8>>)> = vec![];
    for _ in 0..(if two { 2 } else { 1 }) {
        let p = fill(ptrs[choice(ptrs.len() as u32)], &[]);
        let map = flag();
        block += "\"";
        block += text(&p);
        block += "\": { use_type: \"";
        block += if map { "map" } else { "HintA" };
        block += "\" }, ";
        let toks = if p.is_empty() { vec![] } else { tokens_of(&p[1..]) };
        hints.push((toks, if map { None } else { Some(b"HintA".to_vec()) }));
    }
    block += "}";
    observe(block.as_bytes());
    observe(doc);
    let j = match json::parse(doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    let mut o = match parse::options(&block) {
        Ok(o) => o,
        Err(_) => return fail("options block rejected"),
    };
    let h = hinted(&j, &mut vec![], &hints);
    let l = [None, Some(L::Rust), Some(L::Ts), Some(L::Zod), Some(L::Kotlin), Some(L::Python), Some(L::TsAlias), Some(L::Schema)][if langs == 1 { 0 } else { choice(langs) }];
    o.output_mode = match l {
        None => OutputMode::Shape,
        Some(l) => mode_of(l, false),
    };
    match (codegen("Root", text(doc), o), h) {
        (Ok(out), Some(h)) => {
            reach("hinted");
            observe(out.as_bytes());
            let s = infer(&h);
            if unsettled() {
                return;
            }
            match l {
                None => {
                    let got = canon(&out);
                    let mut want = vec![];
                    show(&s, &mut want);
                    check_eq(&got, &want, "type differs from what the hints ask for");
                }
                Some(l) => {
                    judge(l, &out, "Root", &s, &[&h], any_missing(&[&h]));
                }
            }
        }
        (Err(_), None) => reach("hint not applicable"),
        (Ok(_), None) => fail("a map hint on a value that is no object is ignored"),
        (Err(_), Some(_)) => fail("sample rejected"),
    }
}

// ---------------------------------------------------------------- map inference
const MD: &[&str] = &["[{@A},{@A}]", "{\"x\":{@A},\"y\":{@A}}", "{@A}", "[{\"o\":{@A}},{\"o\":{@A},\"p\":1}]", "[[{@A},{@A}],[{@A}]]"];
const MM: &[&str] = &["", "\"a\":@B", "\"#k\":@B,\"#k\":1", "\"c\":null,\"a\":1,\"b\":@B", "\"a\":1,\"b\":2,\"c\":3,\"d\":@B", "\"d\":{\"x\":1,\"y\":@B}", "\"a\":{\"x\":1,\"y\":2,\"z\":3},\"b\":{\"x\":1}"];
const ML: &[&str] = &["", "\"#k\":@B", "\"a\":@B,\"#k\":1", "\"c\":null,\"a\":1,\"b\":@B", "\"d\":{\"x\":1,\"y\":@B}"];
pub fn h_map(case: u64) {
    let l = [None, Some(L::Rust), Some(L::Ts), Some(L::TsAlias), Some(L::Schema), Some(L::Zod), Some(L::Kotlin), Some(L::Python)][(case / 5 % 8) as usize];
    let big = case >= 40;
    let l = if big { [None, Some(L::Rust), Some(L::TsAlias)][case as usize - 40] } else { l };
    let doc = if big {
        // around the threshold, for one object and for two with the same properties
        let n = [0, 1, 2, 9, 10, 11, 20, 33, 64, 100][choice(if case == 40 { 10 } else { 8 })];
        let o: Vec<String> = (0..n).map(|i| format!("\"k{}\":1", i)).collect();
        let (o, m) = (o.join(","), o[..n / 2].join(","));
        match choice(3) {
            0 => format!("{{{}}}", o),
            1 => format!("[{{{}}},{{{}}}]", o, m),
            _ => format!("{{\"x\":{{{}}},\"y\":{{{}}}}}", m, o),
        }
        .into_bytes()
    } else { fill(MD[(case % 5) as usize], match (&l, case % 5) {
        (_, 4) => &[ML, &["1", "null"]],
        (None, _) => &[MM, &["1", "null", "\"s\"", "{}"]],
        _ => &[ML, &["1", "null", "\"s\"", "{}"]],
    }) };
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    // any threshold
    let lim = if big && flag() { [256, 1000, usize::MAX][choice(3)] } else { byte() as usize };
    observe(&doc);
    let mut o = Options::default();
    o.infer_map_threshold = Some(lim);
    o.output_mode = match l {
        None => OutputMode::Shape,
        Some(l) => mode_of(l, false),
    };
    let c = Cfg { map_above: Some(lim), late: matches!(l, Some(L::TsAlias) | Some(L::Zod)) };
    let s = union(&[&j], c);
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            match l {
                None => {
                    let got = canon(&out);
                    let mut want = vec![];
                    show(&s, &mut want);
                    check_eq(&got, &want, "type differs from what the number of properties calls for");
                }
                Some(l) => {
                    judge(l, &out, "Root", &s, &[&j], any_missing(&[&j]));
                }
            }
        }
        Err(_) => fail("sample rejected"),
    }
}

// ---------------------------------------------------------------- unwrap, hints and map inference together
const XV: &[&str] = &["null", "1", "{\"a\":1}", "{\"a\":\"s\",\"b\":1,\"c\":null}", "[1,{\"a\":2}]", "{\"a\":{\"x\":1,\"y\":\"s\"},\"b\":{}}"];
const XV2: &[&str] = &["1", "{\"a\":\"s\",\"b\":1}", "[1,{\"a\":2}]"];
const XD: &[(&str, &[&str], &[&str], &[&str])] = &[
    ("{\"d\":[@A,@A]}", &["", "/d", "/d/-", "/-/1", "/d/-/a"], &["", "/a", "/d", "/0", "/1", "/-/a", "/-", "/a/x", "/d/-"], XV),
    ("[{\"a\":@A,\"b\":@A},{\"a\":@A}]", &["", "/-", "/0", "/-/a", "/-/-"], &["", "/-", "/0/a", "/a", "/b/a", "/-/-", "/1"], XV2),
    ("{\"a\":{\"a\":{\"a\":@A,\"z\":[@A]},\"b\":2},\"c\":{\"a\":@A}}", &["", "/a", "/a/a", "/-/a", "/-/a/-"], &["", "/a", "/a/a", "/a/a/a", "/-", "/-/-", "/z/0", "/c/a"], XV2),
];
pub fn h_mix(case: u64) {
    let (t, uws, hps, set) = XD[(case / 5 % 3) as usize];
    let doc = fill(t, &[set]);
    let uw = uws[(case % 5) as usize];
    let mut block = format!("{{ unwrap: \"{}\", ", uw);
    let mut hints: Vec<(Vec<Vec<u8>>, Option<Vec<u8>>)> = vec![];
    let two = case >= 15;
    for _ in 0..(if two { 2 } else { 1 }) {
        let p = hps[choice(hps.len() as u32)];
        let map = flag();
        block += &format!("\"{}\": {{ use_type: \"{}\" }}, ", p, if map { "map" } else { "HintA" });
        let toks = if p.is_empty() { vec![] } else { tokens_of(&p.as_bytes()[1..]) };
        hints.push((toks, if map { None } else { Some(b"HintA".to_vec()) }));
    }
    block += "}";
    observe(block.as_bytes());
    observe(&doc);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    let mut o = match parse::options(&block) {
        Ok(o) => o,
        Err(_) => return fail("options block rejected"),
    };
    let lim = if two { 1 } else { byte() as usize };
    o.infer_map_threshold = Some(lim);
    let late = !two && flag();
    o.output_mode = if late { OutputMode::TypescriptTypeAlias } else { OutputMode::Shape };
    let toks = if uw.is_empty() { vec![] } else { tokens_of(&uw.as_bytes()[1..]) };
    let mut sel = vec![];
    select(&j, &toks, &mut sel);
    let mut h = vec![];
    for v in &sel {
        match hinted(v, &mut vec![], &hints) {
            Some(v) => h.push(v),
            None => {
                check(codegen("Root", text(&doc), o).is_err(), "a map hint on a value that is no object is ignored");
                return reach("hint not applicable");
            }
        }
    }
    let out = codegen("Root", text(&doc), o);
    if h.is_empty() {
        check(out.is_err(), "nothing matches the pointer, but a type is generated");
        return reach("no match");
    }
    let out = match out {
        Ok(x) => x,
        Err(_) => return fail("sample rejected"),
    };
    observe(out.as_bytes());
    reach("generated");
    let h: Vec<&J> = h.iter().collect();
    let s = union(&h, Cfg { map_above: Some(lim), late });
    if unsettled() {
        return;
    }
    if late {
        judge(L::TsAlias, &out, "Root", &s, &h, any_missing(&h));
    } else {
        let got = canon(&out);
        let mut want = vec![];
        show(&s, &mut want);
        check_eq(&got, &want, "type differs from what pointer, hints and threshold ask for together");
    }
}

// ---------------------------------------------------------------- order
const OV: &[&str] = &["null", "1", "2.5", "\"s\"", "true", "[]", "[1]", "[1,\"x\"]", "[null,1,2]", "{}", "{\"p\":1}", "{\"p\":null,\"q\":[]}", "{\"p\":\"s\"}", "{\"q\":[1]}", "[{\"p\":1}]", "{\"p\":{\"r\":1}}", "[null,\"x\"]", "[true,\"x\"]"];
const OTUP: &[&str] = &["[1,\"x\"]", "[null,\"x\"]", "[true,1]", "[null,null]", "[1,null]", "[2.5,\"x\"]", "[\"s\",{}]", "[1,1]", "[null,1,2]", "[]", "null", "[[],{\"p\":1}]"];
const ORAW: &[&str] = &["#r#r", "[#r,#r]", "{\"#k\":#r}", "null"];
fn merged(parts: &[&[u8]], lim: Option<usize>, hint: bool) -> Option<Vec<u8>> {
    let mut d = b"[".to_vec();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            d.push(b',');
        }
        d.extend(*p);
    }
    d.push(b']');
    let mut o = if hint {
        match parse::options("{ \"/p\": { use_type: \"HintA\" } }") {
            Ok(o) => o,
            Err(_) => return None,
        }
    } else {
        Options::default()
    };
    o.output_mode = OutputMode::Shape;
    o.unwrap = "/-".into();
    o.infer_map_threshold = lim;
    codegen("Root", text(&d), o).ok().map(|x| canon(&x))
}
/// the order of array elements, and repeating one, do not matter
pub fn h_order(case: u64) {
    let v: &[&str] = match case {
        0 | 1 => OV,
        2 | 3 => V,
        4 => ORAW,
        _ => OTUP,
    };
    let a = fill("@A", &[v]);
    let b = fill("@A", &[v]);
    let c = fill("@A", &[v]);
    let (lim, hint) = match case {
        1 => (Some(1), false),
        2 => (None, true),
        _ => (None, false),
    };
    observe(&a);
    observe(b" ");
    observe(&b);
    observe(b" ");
    observe(&c);
    if case == 4 && [&a, &b, &c].iter().any(|x| json::parse(x).is_none()) {
        return;
    }
    let base = match merged(&[&a, &b, &c], lim, hint) {
        Some(x) => x,
        None => return fail("sample rejected"),
    };
    observe(&base);
    reach("merged");
    let alt: [&[&[u8]]; 5] = [&[&b, &a, &c], &[&c, &b, &a], &[&a, &c, &b], &[&a, &b, &a, &c], &[&c, &a, &b, &b]];
    for p in alt {
        match merged(p, lim, hint) {
            Some(x) => check_eq(&x, &base, "the type depends on the order or number of equal values"),
            None => fail("sample rejected"),
        }
    }
}
/// the order of properties does not matter
pub fn h_order_keys(case: u64) {
    let (x, y) = if case == 0 {
        (fill("@A", &[OV]), fill("@A", &[OV]))
    } else {
        (fill("@A", &[V]), fill("@A", &[V]))
    };
    let doc = |f: bool, g: bool| {
        let mut d = b"[".to_vec();
        for (i, o) in [f, g].iter().enumerate() {
            if i > 0 {
                d.push(b',');
            }
            d.extend(if *o { b"{\"a\":" } else { b"{\"b\":" });
            d.extend(if *o { &x } else { &y });
            d.extend(if *o { b",\"b\":" } else { b",\"a\":" });
            d.extend(if *o { &y } else { &x });
            d.push(b'}');
        }
        d.extend(b",{\"a\":");
        d.extend(&y);
        d.extend(b"}]");
        d
    };
    let d = doc(true, true);
    observe(&d);
    let base = match shape_of(&d, "") {
        Some(x) => canon(&x),
        None => return fail("sample rejected"),
    };
    reach("merged");
    for (f, g) in [(true, false), (false, true), (false, false)] {
        match shape_of(&doc(f, g), "") {
            Some(x) => check_eq(&canon(&x), &base, "the type depends on the order of properties"),
            None => fail("sample rejected"),
        }
    }
}
/// the same in long arrays and in objects with many properties
pub fn h_order_long(case: u64) {
    let (a, b) = [
        ("1", "null"), ("1", "1.5"), ("1", "\"s\""), ("null", "[1]"), ("{\"p\":1}", "{\"p\":null}"), ("{\"p\":1}", "{}"), ("{}", "{\"p\":[]}"), ("[1]", "[null]"), ("[]", "[1,2]"), ("[1,\"s\"]", "[null,1]"), ("[1,\"s\"]", "[1]"), ("\"s\"", "{}"),
    ][choice(12)];
    let n: usize = if case == 1 { [3, 12, 13, 14, 27, 66][choice(6)] } else { [13, 14, 16, 22, 34, 66, 101][choice(if case == 3 { 5 } else { 7 })] };
    let p = [0, 1, 11, 12, 13, n / 2, n - 2, n - 1][choice(8)].min(n - 1);
    let q = (p + [0, 1, n / 3, n - 1][choice(if case == 3 { 2 } else { 4 })]) % n;
    observe(&[n as u8, p as u8, q as u8]);
    observe(a.as_bytes());
    observe(b.as_bytes());
    // two odd ones (or one) among n
    let gen = |n: usize, p: usize, q: usize, rev: bool| {
        let mut d = String::from(if case < 2 { "[" } else if case == 2 { "{" } else { "[{" });
        let mut i = 0;
        while i < n {
            let k = if rev { n - 1 - i } else { i };
            if i > 0 {
                d.push(',');
            }
            if case >= 2 {
                d += &format!("\"m{}\":", k);
            }
            d += if k == p || k == q { b } else { a };
            i += 1;
        }
        d += match case {
            0 | 1 => "]",
            2 => "}",
            _ => "},{\"m1\":1,\"m0\":null}]",
        };
        d
    };
    let run = |d: &str| {
        let mut o = if case == 2 && n % 2 == 0 {
            match parse::options("{ \"\": { use_type: \"map\" } }") {
                Ok(o) => o,
                Err(_) => return None,
            }
        } else {
            Options::default()
        };
        o.output_mode = OutputMode::Shape;
        if case == 1 {
            o.unwrap = "/-".into();
        }
        if case == 2 && n % 2 == 1 {
            o.infer_map_threshold = Some(n - 1);
        }
        codegen("Root", d, o).ok().map(|x| canon(&x))
    };
    let base = match run(&gen(n, p, q, false)) {
        Some(x) => x,
        None => return fail("sample rejected"),
    };
    observe(&base);
    reach("merged");
    let mut alt = vec![gen(n, p, q, true)];
    if case < 3 {
        // elsewhere, and once more
        let r = (q + n - p) % n;
        alt.push(gen(n, 0, r, false));
        alt.push(gen(n, n - 1, (n - 1 + r) % n, false));
        if case < 2 {
            alt.push(gen(n + 1, p, q, false));
        }
    }
    for d in &alt {
        match run(d) {
            Some(x) => check_eq(&x, &base, "the type depends on the order or number of equal values"),
            None => fail("sample rejected"),
        }
    }
}
