//! how the output is written: the same every time (C24), visibility (C17), imports (C18), serde options (C25)
use crate::c_gen::*;
use crate::c_keys::*;
use crate::gen::*;
use crate::json;
use crate::model::*;
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
const RUNS: usize = if cfg!(feature = "native") { 60 } else { 2 };
fn style(k: usize) -> ImportStyle {
    match k {
        0 => ImportStyle::AddImports,
        1 => ImportStyle::AssumeExisting,
        _ => ImportStyle::QualifiedPaths,
    }
}
const DD: &[&str] = &[
    "{\"a\":@A,\"b\":@A}",
    "[{\"a b\":@A},{\"#k\":@A}]",
    "{\"a\":{\"#k\":@A},\"b\":{\"c\":null,\"d\":@A}}",
    "{\"@B\":@A,\"x\":{\"@B\":1}}",
    "@A",
];
const DV: &[&str] = &["null", "1", "\"#s\"", "{\"x\":null}", "[[]]", "[{\"p\":1},{}]", "[1,\"s\"]", "{\"x-y\":[null]}"];
/// two runs give the same text; it ends with exactly one newline
pub fn h_det(case: u64) {
    let doc = fill(DD[(case % 5) as usize], &[if case % 5 == 4 { &["{}", "[]", "[#r#r]", "{\"#s#s\":#r}", "[[],{}]"] } else { DV }, &["a", "aB", "Any", "type", ""]]);
    let l = LANGS[(case / 5 % 7) as usize];
    let mut o = mode_options(l);
    if case / 5 == 7 {
        o.output_mode = OutputMode::Shape;
    }
    o.import_style = style(choice(3));
    if l == L::Rust || l == L::Kotlin {
        o.collect_additional = flag();
    }
    if case % 5 != 4 {
        o.infer_map_threshold = if flag() { Some(1) } else { None };
    } else if json::parse(&doc).is_none() {
        return;
    }
    observe(&doc);
    let first = apart(|| match codegen("Root", text(&doc), o.clone()) {
        Ok(x) => x.into_bytes(),
        Err(_) => vec![],
    });
    if first.is_empty() {
        return fail("sample rejected");
    }
    observe(&first);
    reach("generated");
    for k in 1..RUNS + 1 {
        // what was generated in between does not matter
        let mut p = o.clone();
        match k % 3 {
            1 => {
                p.output_mode = mode_options(LANGS[(case as usize / 5 + k / 3 + 1) % 7]).output_mode;
                p.infer_map_threshold = None;
                let _ = codegen("Root", "{\"A\":[1],\"AB\":{\"X\":\"s\"},\"b\":[{\"y\":null},{\"x\":1}],\"ab\":[{\"X\":1}],\"any\":[{\"Y\":1}],\"A B\":[{\"Z\":1}]}", p);
            }
            2 => {
                let _ = codegen("pub Other", "[{\"A\":{\"y\":1}},{\"a\":[{\"y\":1}],\"c\":", p.clone());
                p.property_name_format = Some(StringTransform::PascalCase);
                let _ = codegen("pub Other", "[{\"A\":{\"y\":1}},{\"a\":[{\"y\":1}],\"\":2}]", p);
            }
            _ => {}
        }
        match codegen("Root", text(&doc), o.clone()) {
            Ok(x) => check_eq(x.as_bytes(), &first, "another run gives another text"),
            Err(_) => fail("rejected in another run"),
        }
    }
    let b = &first;
    let n = b.len();
    let ws = |c: u8| c == b' ' || c == b'\t' || c == b'\r' || c == b'\n';
    check(n >= 2 && b[n - 1] == b'\n' && !ws(b[n - 2]), "the output does not end with exactly one newline");
}

// ---------------------------------------------------------------- imports
fn last(n: &[u8]) -> &[u8] {
    let a = n.rsplit(|b| *b == b':').next().unwrap_or(n);
    a.rsplit(|b| *b == b'.').next().unwrap_or(a)
}
/// names of the language itself, and of the user
fn library(l: L, n: &[u8]) -> Option<&'static str> {
    let t: &[&str] = match l {
        L::Rust => &["serde_json::Value", "std::collections::HashMap", "serde_derive::Serialize", "serde_derive::Deserialize", "my::own::Derive"],
        L::Kotlin => &[
            "com.fasterxml.jackson.annotation.JsonProperty", "com.fasterxml.jackson.annotation.JsonAnySetter", "com.fasterxml.jackson.annotation.JsonAnyGetter",
            "com.fasterxml.jackson.databind.annotation.JsonNaming", "com.fasterxml.jackson.databind.PropertyNamingStrategies", "kotlinx.serialization.Serializable", "kotlinx.serialization.SerialName",
        ],
        _ => &["typing.Any", "typing.Optional", "pydantic.BaseModel", "pydantic.Field"],
    };
    t.iter().copied().find(|x| last(x.as_bytes()) == last(n))
}
pub fn styles(l: L, e: &Env, k: usize) {
    // what has to be imported for the names as they are written
    let mut need: Vec<Vec<u8>> = vec![];
    for u in &e.used {
        if let Some(q) = library(l, u) {
            let q = q.as_bytes();
            if k == 2 {
                check(u == q, "a library name without its path");
                if l == L::Python {
                    need.push(q.split(|b| *b == b'.').next().unwrap_or(q).to_vec());
                }
            } else {
                check(u == last(q), "a library name with its path");
                if k == 0 {
                    need.push(q.to_vec());
                }
            }
        }
    }
    need.sort();
    need.dedup();
    let mut have = e.imports.clone();
    have.sort();
    check(have == need, "the imports are not those of the names used");
}
pub fn h_style(case: u64) {
    let l = [L::Rust, L::Kotlin, L::Python][(case / 6) as usize];
    let mut o = mode_options(l);
    let mut k = choice(3);
    o.import_style = style(k);
    if l == L::Kotlin && k == 2 {
        // written with a path only in outputs that have one
        k = 2;
    }
    let t = ["{\"a\":@A,\"b\":@A}", "{\"a b\":@A}", "[{\"a\":@A},{\"#s#s\":@A}]", "[@A]", "{\"m\":{\"#k\":1,\"c\":@A}}", "{\"type\":@A,\"T\":{\"#s\":@A}}"][(case % 6) as usize];
    let doc = fill(t, &[&["null", "1", "[]", "[{\"x\":1},{}]", "{\"x\":null}", "[1,\"s\"]", "[{\"y z\":1}]", "[null]"]]);
    if case % 6 == 4 {
        o.infer_map_threshold = Some(1);
    }
    if l != L::Python && case % 6 == 5 {
        o.collect_additional = flag();
    }
    if l == L::Kotlin && case % 6 == 1 {
        o.property_name_format = Some(format_of(2 + choice(5)));
    }
    if l == L::Rust {
        match choice(3) {
            0 => {}
            1 => o.derives = "Debug, my::own::Derive".into(),
            _ => o.derives = "serde_derive::Deserialize,Clone,  my::own::Derive".into(),
        }
    }
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    observe(&doc);
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            match read(l, &out, "Root") {
                Err(e) => fail(e),
                Ok((e, p)) => {
                    let c = if case % 6 == 4 { Cfg { map_above: Some(1), late: false } } else { PLAIN };
                    if let Err(e) = e.conform(&p, &union(&[&j], c), l) {
                        fail(e);
                    }
                    styles(l, &e, k);
                }
            }
        }
        Err(_) => fail("sample rejected"),
    }
}
/// every struct derives exactly what was asked for
pub fn h_derive(case: u64) {
    let mut o = Options::default();
    let k = choice(3);
    o.import_style = style(k);
    // free text, free spacing
    let mut d: Vec<u8> = vec![];
    let n = 1 + case as usize;
    let mut names: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        if i > 0 {
            d.extend(*[b",".as_slice(), b", ", b" ,  "].get(choice(3)).unwrap_or(&b",".as_slice()));
        }
        let mut name = match choice(3) {
            0 => vec![],
            1 => b"a::".to_vec(),
            _ => b"my::own::".to_vec(),
        };
        name.push(any_of(b"ABCXYZ"));
        name.push(any_of(b"abcxyz019_"));
        d.extend(&name);
        names.push(name);
    }
    for i in 0..n {
        for k in 0..i {
            assume(last(&names[i]) != last(&names[k]));
        }
    }
    o.derives = text(&d).into();
    let doc = fill("{\"x\":@A,\"y\":@A}", &[&["{\"#k\":1}", "[{}]", "null"]]);
    observe(&d);
    observe(&doc);
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            match read(L::Rust, &out, "Root") {
                Err(e) => fail(e),
                Ok((e, _)) => {
                    for (s, _) in &e.defs {
                        for x in &names {
                            let y: &[u8] = if k == 2 { x } else { last(x) };
                            check(e.flag(&[b"derive ", s, b" ", y]), "a derive is missing");
                        }
                        let count = e.flags.iter().filter(|f| f.starts_with(&[b"derive ", &s[..], b" "].concat())).count();
                        check(count == names.len(), "other derives than asked for");
                    }
                    for x in &names {
                        let want = k == 0 && x.len() > 2;
                        check(e.imports.iter().any(|i| i == x) == want, "derive macros are imported exactly if imports are added");
                    }
                }
            }
        }
        Err(_) => fail("sample rejected"),
    }
}

// ---------------------------------------------------------------- visibility
const VIS: &[&str] = &["pub", "", "pub(crate)", "pub(super)", "pub(in crate::x)", "pub(in super::super)"];
fn squeeze(v: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for b in v {
        o.push(*b);
    }
    o
}
pub fn h_vis(case: u64) {
    let mut o = Options::default();
    // the visibility in the name, if any, wins
    let set = VIS[choice(VIS.len() as u32)];
    o.type_visibility = set.into();
    let field = match choice(4) {
        0 => None,
        1 => Some("pub"),
        2 => Some(""),
        _ => Some("pub(crate)"),
    };
    o.field_visibility = field.map(|x| x.to_string());
    let mut name = vec![];
    let prefix: &[u8] = match case % 4 {
        0 => b"",
        1 => b"pub",
        2 => VIS[2 + choice(4)].as_bytes(),
        // any path
        _ => {
            let mut p = b"pub(".to_vec();
            p.push(any_of(b"abcxyz"));
            p.push(any_of(b"abcxyz_019"));
            p.push(b')');
            name.extend(&p);
            b""
        }
    };
    name.extend(prefix);
    let vis: Vec<u8> = if name.is_empty() { set.as_bytes().to_vec() } else { name.clone() };
    if !name.is_empty() {
        name.push(b' ');
    }
    let mut n = vec![any_of(b"RTX")];
    n.push(any_of(b"abopqz019"));
    if flag() {
        n.push(any_of(b"bprx1"));
    }
    name.extend(&n);
    if case >= 12 {
        // what follows is no visibility any more
        name.extend([" (old) Bar", ") Qux", " pub(x) Yy", " ) ) z", " pub", "(a) (b) C"][choice(6)].as_bytes());
    }
    let t = ["{\"a\":@A,\"b\":@A}", "[@A,@A]", "{\"a\":{\"b\":@A}}", "{\"a\":@A}"][(case / 4) as usize];
    let doc = fill(t, &[&["1", "{\"x\":1}", "[{\"x\":null}]", "{}"]]);
    observe(&name);
    observe(&doc);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    match codegen(text(&name), text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            if case >= 12 {
                // no Rust name: only the declarations' first words
                let head = |w: &[u8]| if vis.is_empty() { w.to_vec() } else { [&vis[..], b" ", w].concat() };
                let mut k = 0;
                for l in out.lines() {
                    if l.starts_with(' ') || l.starts_with("use ") || l.starts_with('#') || l.is_empty() || l.starts_with('}') {
                        continue;
                    }
                    let l = l.as_bytes();
                    check(l.starts_with(&head(b"struct ")) || l.starts_with(&head(b"type ")), "visibility of a declaration");
                    k += 1;
                }
                return check(k > 0, "no declaration");
            }
            if let Some((e, _)) = judge(L::Rust, &out, text(&n), &infer(&j), &[&j], any_missing(&[&j])) {
                let fv: &[u8] = match field {
                    None => &vis,
                    Some(f) => f.as_bytes(),
                };
                for (s, d) in &e.defs {
                    match d {
                        Def::Alias(_) => check(e.flag(&[b"type ", s, b" ", &squeeze(&vis)]), "visibility of a type alias"),
                        Def::Struct(f) => {
                            check(e.flag(&[b"struct ", s, b" ", &vis]), "visibility of a struct");
                            for x in f {
                                check(e.flag(&[b"field ", s, b".", &x.ident, b" ", fv]), "visibility of a field");
                            }
                        }
                    }
                }
            }
        }
        Err(_) => fail("sample rejected"),
    }
}

// ---------------------------------------------------------------- serde options
/// allow_option_vec can be set through the text form only
pub fn h_rust_flags(case: u64) {
    let (vec, def, deny, col) = (flag(), flag(), flag(), flag());
    let mut block = "{ ".to_string();
    for (n, v) in [("allow_option_vec", vec), ("use_default_for_missing_fields", def), ("deny_unknown_fields", deny), ("collect_additional", col)] {
        if v {
            block += n;
            block += ", ";
        }
    }
    block += "}";
    let o = match parse::options(&block) {
        Ok(o) => o,
        Err(_) => return fail("options block rejected"),
    };
    let t = ["[{\"a\":@A},{\"a\":@A},{}]", "[{\"a\":@A,\"#k\":1},{\"#k\":2}]", "{\"a\":@A,\"additional@B\":@A}", "[{\"a\":{\"b\":@A}},{\"a\":{\"#k\":@A}},{\"a\":null}]", "{\"x\":@A,\"y\":@A}"][case as usize];
    let doc = fill(t, &[&["1", "null", "[1]", "[]", "[null]", "{\"x\":1}", "[1,\"s\"]", "{}", "[{\"p\":[]},{}]"], &["_fields", "Fields", " fields", ""]]);
    observe(block.as_bytes());
    observe(&doc);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    match codegen("Root", text(&doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            let (e, p) = match read(L::Rust, &out, "Root") {
                Err(e) => return fail(e),
                Ok(x) => x,
            };
            if !e.accepts(&p, &j, L::Rust) {
                if any_missing(&[&j]) && !def {
                    finding("any-missing");
                } else {
                    fail("the sample is not an instance of the generated type");
                }
            }
            if let Err(e) = e.conform_flags(&p, &infer(&j), vec, def) {
                fail(e);
            }
            for (n, d) in &e.defs {
                if let Def::Struct(f) = d {
                    check(e.flag(&[b"deny ", n]) == deny, "deny_unknown_fields");
                    check(e.flag(&[b"default ", n]) == def, "default for missing fields");
                    check(e.flag(&[b"flatten ", n, b" additional_fields"]) == col, "collection of additional fields");
                    for x in f {
                        let fd = e.flag(&[b"field default ", n, b".", &x.ident]);
                        check(!fd || !vec && !def && matches!(x.ty, P::List(_)), "default of a field");
                    }
                }
            }
        }
        Err(_) => fail("sample rejected"),
    }
}

// ---------------------------------------------------------------- options for another language
/// options that concern Rust only leave the other outputs alone
pub fn h_other(case: u64) {
    let m = (case % 8) as usize;
    let l = [Some(L::Ts), Some(L::TsAlias), Some(L::Zod), Some(L::Schema), Some(L::Kotlin), Some(L::Kotlin), Some(L::Python), None][m];
    let mode = match l {
        Some(l) => mode_of(l, m == 5),
        None => OutputMode::Shape,
    };
    let t = ["{\"a\":@A,\"b\":[@A,1]}", "[{\"a\":@A,\"#k\":1},{\"#k\":@A}]", "[{\"a\":{\"b\":@A}},{\"a\":null},{\"additional@B\":@A}]"][(case / 8) as usize];
    let doc = fill(t, &[&["null", "1", "[1]", "[null]", "{\"x\":1}", "[1,\"s\"]", "{}", "[{\"p\":[]},{}]"], &["Fields", "_fields"]]);
    let mut block = "{ ".to_string();
    let mut col = false;
    let set: usize = [1, 2, 4, 8, 9, 16, 32, 63, 64, 118][choice(10)];
    for (i, n) in ["use_default_for_missing_fields", "allow_option_vec", "deny_unknown_fields", "collect_additional", "derives: \"Debug, serde::Serialize\"", "field_visibility: \"pub(crate)\""].iter().enumerate() {
        if set & (1 << i) != 0 {
            block += n;
            block += ", ";
            col |= i == 3;
        }
    }
    block += "}";
    let name = if set & 64 != 0 { "pub(crate) Root" } else { "Root" };
    observe(block.as_bytes());
    observe(name.as_bytes());
    observe(&doc);
    let j = match json::parse(&doc) {
        Some(j) => j,
        None => return fail("generator"),
    };
    let mut o = match parse::options(&block) {
        Ok(o) => o,
        Err(_) => return fail("options block rejected"),
    };
    // a threshold that the outputs may look at late
    o.infer_map_threshold = if flag() { Some(2) } else { None };
    let lim = o.infer_map_threshold;
    o.output_mode = mode.clone();
    let mut p = Options::default();
    p.infer_map_threshold = lim;
    p.output_mode = mode;
    match (codegen(name, text(&doc), o), codegen("Root", text(&doc), p)) {
        (Ok(a), Ok(b)) => {
            observe(a.as_bytes());
            reach("generated");
            if !(col && m == 4) {
                return check_eq(a.as_bytes(), b.as_bytes(), "an option for Rust changes another output");
            }
            // Jackson: one more member in every class
            let s = union(&[&j], Cfg { map_above: lim, late: false });
            if let Some((e, _)) = judge(L::Kotlin, &a, "Root", &s, &[&j], any_missing(&[&j])) {
                for (n, d) in &e.defs {
                    if let Def::Struct(_) = d {
                        check(e.flag(&[b"flatten ", n, b" additionalFields"]), "collection of additional fields");
                    }
                }
            }
        }
        _ => fail("sample rejected"),
    }
}
