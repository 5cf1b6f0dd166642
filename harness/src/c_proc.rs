//! the procedural macro (C21): its real function, over token streams that are their text
use crate::c_parse::literal;
use crate::gen::*;
use crate::sym::*;
use json_typegen_shared::*;
const PT: &[&str] = &[
    "\"A\", \"[#r]\"",
    "\"A\", \"[{\\\"a\\\":#d}]\", { #r }",
    "\"A\", \"{}\", { \"#s#s#s\": 1 }",
    "\"A\", \"{}\", { \"/a\": { \"#s#s\": \"b\" } }",
    "#r",
    "\"A\", \"#s#s\"",
    "\"A\", \"{}\", #r",
    "\"A\", \"create table t (#s#s)\", { input_mode: \"sql\" }",
    // thorough only
    "\"A\", \"[{\\\"a\\\":#d}]\", { #r#r }",
    "#r#r#r",
    "\"A\", \"{}\", #r#r",
    "\"A\"#r \"{}\"#r{}",
];
const PW: &[&str] = &["\\\"#", "\\\"##", "\\\"", "#", "\\\\", "\\n", "\\u{e9}", "r#\\\"", "\\\"#); fn f() {} //", "{}", "{0}", "'", "*/", "sample.json"];
pub fn h_proc(case: u64) {
    run(&fill(PT[case as usize], &[]))
}
pub fn h_proc_word(case: u64) {
    let w = PW[choice(PW.len() as u32)];
    let t = ["\"A\", \"{}\", { \"/a\": { \"@\": \"b\" } }", "\"A\", \"{}\", { \"@\": \"b\" }", "\"A\", \"{}\", \"{ @ }\"", "\"A\", \"@\"", "\"A\", \"@\", { input_mode: \"sql\" }", "\"@\", \"{\\\"x\\\":1}\"", "\"A\", \"{}\", @", "@"][case as usize];
    run(t.replace('@', w).as_bytes())
}
fn run(m: &[u8]) {
    observe(m);
    observe(b"\n");
    let got = prog_mac::json_typegen(proc_macro::TokenStream(text(m).to_string())).0;
    observe(got.as_bytes());
    match codegen_from_macro_input(text(m)) {
        Ok(c) => {
            check_eq(got.as_bytes(), c.as_bytes(), "the macro expands to something else than the generated code");
            reach("code");
        }
        Err(e) => {
            let want = internal_util::display_error_with_causes(&e);
            let g = got.as_bytes();
            let rest = match g.strip_prefix(b"compile_error!(") {
                Some(r) => r,
                None => return fail("an error does not become a compile_error"),
            };
            match literal(rest) {
                Some((v, n)) => {
                    check_eq(&v, want.as_bytes(), "the compile_error does not show the error");
                    let end = text(&rest[n..]).trim();
                    check(end == ");" || end == ")", "the compile_error is malformed");
                }
                None => fail("the compile_error is malformed"),
            }
            reach("error");
        }
    }
}
