//! property names: they reach the output exactly (C03), names in the output are usable (C12), under every naming rule (C13)
use crate::c_gen::*;
use crate::gen::*;
use crate::json;
use crate::model::*;
use crate::refinf::*;
use crate::sym::*;
use json_typegen_shared::*;
pub const LANGS: [L; 7] = [L::Rust, L::Ts, L::TsAlias, L::Schema, L::Zod, L::Kotlin, L::Python];
/// generate, read, compare
pub fn whole(l: L, doc: &[u8], name: &str, o: Options) -> Option<(Env, P)> {
    let j = match json::parse(doc) {
        Some(j) => j,
        None => return None,
    };
    observe(doc);
    match codegen(name, text(doc), o) {
        Ok(out) => {
            observe(out.as_bytes());
            reach("generated");
            let s = infer(&j);
            judge(l, &out, name, &s, &[&j], any_missing(&[&j]))
        }
        Err(_) => {
            fail("sample rejected");
            None
        }
    }
}
pub fn mode_options(l: L) -> Options {
    let kx = l == L::Kotlin && flag();
    let mut o = Options::default();
    o.output_mode = mode_of(l, kx);
    o
}
const SPECIAL: &[&str] = &[
    "é", "\u{2028}", "e\u{301}", "\u{301}", "\u{feff}a", "😀", "\u{85}", "\u{a0}", "\\u0000", "\\u001b[0m", "`", "$a", "${a}", "$", "a$b", "\\\\u0041", "\\\\", "*/", "//", "\\\"\\\"\\\"", "{a}", "'", "#{a}",
    "a?", "?", "\\\\\\\"", "a\\nb", "a\\\\nb", "%s", "{}", "{{", "\\ud83d\\ude00", "日本", "ª", "𝒳", "\u{200d}", "\\u007f", "<!--", "${", "$$", "$_", "$1", "$\\u00e9", "\\\\$a", "a.b", "a/b", "@a", "-", "_", "__", "a_", "_a", "1_", " a ", "  ", "a  b", "\\t",
];
const KT: &[&str] = &["{\"%\":1}", "{\"%%\":1}", "{\"\\u00xx\":1}", "{\"\\e\":1}", "{\"@A\":1}", "{\"a&b\":[1,\"s\"]}", "[{\"&c\":1},{}]", "{\"x\":{\"&&\":{\"@A\":1}}}", "{\"&&&\":1}", "[{\"@A\":null},{\"@A\":[1]},{}]"];
fn keydoc(t: &str) -> Vec<u8> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let x = byte();
                assume(x >= 0x20 && x != b'"' && x != b'\\');
                o.push(x);
            }
            b'&' => {
                let x = byte();
                assume(x >= 0x20 && x < 0x80 && x != b'"' && x != b'\\');
                o.push(x);
            }
            b'x' if i > 0 && (b[i - 1] == b'0' || b[i - 1] == b'x') => o.push(any_of(b"0123456789abcdefABCDEF")),
            b'e' if b[i - 1] == b'\\' => o.push(any_of(b"\"\\/bfnrt")),
            b'@' => {
                o.extend(SPECIAL[choice(SPECIAL.len() as u32)].as_bytes());
                i += 1;
            }
            c => o.push(c),
        }
        i += 1;
    }
    o
}
pub fn h_key(case: u64) {
    let l = LANGS[(case / 10) as usize];
    let doc = keydoc(KT[(case % 10) as usize]);
    let o = mode_options(l);
    whole(l, &doc, "Root", o);
}
/// reserved words and names the generated code uses, in any of the languages
const WORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut",
    "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
    "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "class", "fun", "interface",
    "is", "null", "object", "package", "this", "throw", "typealias", "val", "var", "when", "False", "None", "True", "and", "assert", "def", "del", "elif",
    "except", "finally", "from", "global", "import", "lambda", "nonlocal", "not", "or", "pass", "raise", "with", "case", "catch", "debugger", "default",
    "delete", "export", "extends", "function", "instanceof", "new", "switch", "void", "implements", "private", "protected", "public", "any", "string", "number",
    "boolean", "never", "unknown", "undefined", "symbol", "object", "bigint", "Option", "Vec", "String", "HashMap", "Value", "Any", "Long", "Double", "Boolean",
    "List", "Map", "Pair", "Triple", "Serializable", "SerialName", "JsonProperty", "JsonNaming", "Optional", "BaseModel", "Field", "list", "dict", "tuple", "str", "int",
    "float", "bool", "i64", "f64", "z", "root", "Root", "additional_fields", "additionalFields", "GeneratedType", "field", "Default", "Debug", "Clone", "Serialize", "union", "static", "raw", "safe",
    "Str", "Int", "Float", "Bool", "Dict", "Tuple", "Typing", "Pydantic", "copy", "json", "schema", "modelConfig", "model_fields", "Validate",
    "0", "00", "0x", "9", "5a", "0_", "_0", "-0", "10", "2nd", "07 b", "0A", "3", "4D", "6", "8s",
];
const VALS: &[&str] = &["1", "{\"x\":1}", "[{\"x\":null},{}]", "[]", "null", "[1,\"s\"]"];
const NAMES: &[&str] = &["Root", "A", "A2", "Thing", "FooBar", "X1", "Data", "GeneratedType"];
const CH: &[u8] = b"aAb1_- ";
fn sym_text(o: &mut Vec<u8>, t: &str, sets: &[&[&str]]) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'^' => o.push(any_of(CH)),
            b'|' => o.push(any_of(b"_-B 1")),
            b'~' => o.push(any_of(b"abzABZ019_-$.\xc3")),
            b'@' => {
                let s = sets[(b[i + 1] - b'A') as usize];
                o.extend(s[choice(s.len() as u32)].as_bytes());
                i += 1;
            }
            c => o.push(c),
        }
        i += 1;
    }
}
const NT: &[&str] = &[
    "{\"@A\":@B}", "{\"@As\":@B}", "{\"x\":1,\"@A\":{\"@C\":@B}}",
    "{\"^^\":1,\"^^\":2}", "{\"^^\":{\"x\":1},\"^^\":{\"y\":1}}", "{\"^^^\":1,\"^\":2,\"a\":3}", "{\"^\":{\"^\":{\"^\":{\"z\":1}}}}", "{\"^\":1,\"^\":2,\"^\":3,\"a2\":4}",
    "{\"^s\":[{\"x\":1}],\"^\":{\"y\":1},\"^^\":[]}", "[{\"^^\":[1]},{\"^\":null}]", "{\"@A\":{\"x\":1},\"^\":{\"@C\":1}}", "{\"^^a^\":1}", "{\"^^\":[{\"^\":1},{\"^^\":\"s\"}]}",
];
pub fn h_names(case: u64) {
    let l = LANGS[(case / 20) as usize];
    let mut doc = vec![];
    if case % 20 == 19 {
        doc = crate::big::doc(7, 40).into_bytes();
    } else {
        sym_text(&mut doc, NT[(case % 20) as usize], &[WORDS, VALS, &["a", "type"]]);
    }
    let o = mode_options(l);
    whole(l, &doc, "Root", o);
}
/// the requested name against generated ones
pub fn h_root(case: u64) {
    let l = LANGS[(case / 4) as usize];
    let mut doc = vec![];
    let t = ["{\"@A\":{\"x\":1},\"@A\":{\"y\":1}}", "[{\"@A\":{\"x\":1}},{\"@A\":{\"y\":1}}]", "{\"@As\":[{\"@A\":{}}]}", "[[{\"@A\":1}],[]]"][(case % 4) as usize];
    sym_text(&mut doc, t, &[&["a", "A", "a2", "A2", "foo bar", "fooBar", "root", "Root2", "root2", "x1", "field", "", "1", "generatedType", "generated type2", "a_2", "thing"]]);
    let o = mode_options(l);
    let name = NAMES[choice(NAMES.len() as u32)];
    whole(l, &doc, name, o);
}
pub fn format_of(k: usize) -> StringTransform {
    match k {
        0 => StringTransform::LowerCase,
        1 => StringTransform::UpperCase,
        2 => StringTransform::PascalCase,
        3 => StringTransform::CamelCase,
        4 => StringTransform::SnakeCase,
        5 => StringTransform::ScreamingSnakeCase,
        6 => StringTransform::KebabCase,
        _ => StringTransform::ScreamingKebabCase,
    }
}
const FT: &[&str] = &["{\"~~\":1,\"b\":1}", "{\"a~~\":1}", "{\"~~~\":{\"a~\":[]}}", "[{\"foo~a~\":1},{}]", "{\"@A\":1,\"@A\":[{\"c\":null}]}", "{\"@B\":{\"x\":1},\"b\":1}", "{\"~~-~_~-~\":[]}", "{\"a|bc|d|e1\":1}"];
const FW: &[&str] = &["fooBar", "foo_bar", "FOO_BAR", "FooBar", "foo-bar", "FOO-BAR", "foobar", "FOOBAR", "foo bar", "foo1Bar", "fooB", "aURL", "URLa", "foo_1", "foo1", "type", "Type", "TYPE", "", "é"];
/// more words
const FL: &[&str] = &[
    "A-B-C_D", "A-B-C-D", "a_b_c_d", "a-b-c-d", "aBcDeF", "ABcD", "foo_bar_baz_qux", "foo-bar-baz-qux", "fooBarBazQux", "FooBarBazQux", "FOO_BAR_BAZ_QUX", "FOO-BAR-BAZ-QUX", "foo_bar-baz",
    "foo-barBaz_qux", "FOO-BAR_baz-QUX", "foo bar baz qux", "_foo_bar_baz_", "-foo-bar-", "foo__bar__baz", "foo--bar--baz", "foo_1_2_3", "foo1bar2baz", "HTTPServerURLPath", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaBbbbbbb",
    "foo.bar.baz", "fooBar.bazQux", "FOO-BAR-BAZ_QUX", "FOO-BAR-BAZ-QUX_", "1-2-3-4", "a-1_B", "x-y_z-w",
];
pub fn h_format(case: u64) {
    let l = LANGS[(case / 8) as usize];
    let mut doc = vec![];
    sym_text(&mut doc, FT[(case % 8) as usize], &[FW, FL]);
    let mut o = mode_options(l);
    o.property_name_format = Some(format_of(choice(8)));
    whole(l, &doc, "Root", o);
}
