//! option blocks and macro invocations (C16)
use crate::gen::*;
use crate::json;
use crate::sym::*;
use json_typegen_shared::*;
/// a reader of the documented option syntax, kept apart from the one under test
struct R<'a> {
    b: &'a [u8],
    i: usize,
}
type E<T> = Result<T, ()>;
pub fn ws(c: u8) -> bool {
    c == b' ' || (9..=13).contains(&c)
}
fn word(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric()
}
fn hexval(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'f' => Some((c - b'a') as u32 + 10),
        b'A'..=b'F' => Some((c - b'A') as u32 + 10),
        _ => None,
    }
}
impl<'a> R<'a> {
    fn skip(&mut self) {
        while self.i < self.b.len() && ws(self.b[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.skip();
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            return true;
        }
        false
    }
    fn need(&mut self, c: u8) -> E<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn end(&mut self) -> bool {
        self.skip();
        self.i == self.b.len()
    }
    fn next(&mut self) -> E<u8> {
        if self.i == self.b.len() {
            return Err(());
        }
        self.i += 1;
        Ok(self.b[self.i - 1])
    }
    fn word(&mut self) -> &'a [u8] {
        self.skip();
        let s = self.i;
        while self.i < self.b.len() && word(self.b[self.i]) && (self.i > s || !self.b[s].is_ascii_digit()) {
            self.i += 1;
        }
        &self.b[s..self.i]
    }
    /// a Rust string literal
    fn string(&mut self) -> E<Vec<u8>> {
        let mut o = vec![];
        if self.peek() == b'r' {
            self.i += 1;
            let s = self.i;
            while self.i < self.b.len() && self.b[self.i] == b'#' {
                self.i += 1;
            }
            let n = self.i - s;
            if self.next()? != b'"' {
                return Err(());
            }
            loop {
                let c = self.next()?;
                if c == b'"' && self.i + n <= self.b.len() && self.b[self.i..self.i + n].iter().all(|x| *x == b'#') {
                    self.i += n;
                    return Ok(o);
                }
                o.push(c);
            }
        }
        self.need(b'"')?;
        loop {
            match self.next()? {
                b'"' => return Ok(o),
                b'\\' => match self.next()? {
                    b'n' => o.push(b'\n'),
                    b'r' => o.push(b'\r'),
                    b't' => o.push(b'\t'),
                    b'0' => o.push(0),
                    b'\\' => o.push(b'\\'),
                    b'\'' => o.push(b'\''),
                    b'"' => o.push(b'"'),
                    b'x' => {
                        let (a, b) = (self.next()?, self.next()?);
                        match (hexval(a), hexval(b)) {
                            (Some(a), Some(b)) if a < 8 => o.push((a * 16 + b) as u8),
                            _ => return Err(()),
                        }
                    }
                    b'u' => {
                        if self.next()? != b'{' {
                            return Err(());
                        }
                        let (mut v, mut n) = (0, 0);
                        loop {
                            let c = self.next()?;
                            match hexval(c) {
                                Some(h) if n < 6 => {
                                    v = v * 16 + h;
                                    n += 1;
                                }
                                None if c == b'}' && n > 0 => break,
                                _ => return Err(()),
                            }
                        }
                        match char::from_u32(v) {
                            Some(c) => o.extend(c.to_string().bytes()),
                            None => return Err(()),
                        }
                    }
                    b'\n' => {
                        while self.i < self.b.len() && ws(self.b[self.i]) {
                            self.i += 1;
                        }
                    }
                    _ => return Err(()),
                },
                c => o.push(c),
            }
        }
    }
    fn key(&mut self) -> E<Vec<u8>> {
        if self.peek() == b'"' {
            return self.string();
        }
        let w = self.word();
        if w.is_empty() {
            return Err(());
        }
        Ok(w.to_vec())
    }
    fn string_value(&mut self) -> E<String> {
        self.need(b':')?;
        Ok(text(&self.string()?).to_string())
    }
    fn bool_value(&mut self) -> E<bool> {
        let c = self.peek();
        if c == b',' || c == b'}' {
            return Ok(true);
        }
        self.need(b':')?;
        match self.word() {
            b"true" => Ok(true),
            b"false" => Ok(false),
            _ => Err(()),
        }
    }
    fn block(&mut self, f: &mut dyn FnMut(&mut R<'a>, &[u8]) -> E<()>) -> E<()> {
        self.need(b'{')?;
        loop {
            if self.eat(b'}') {
                return Ok(());
            }
            let k = self.key()?;
            f(self, &k)?;
            if self.eat(b'}') {
                return Ok(());
            }
            self.need(b',')?;
        }
    }
}
/// a string literal at the start of a text: its value and its length
pub fn literal(t: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut r = R { b: t, i: 0 };
    let v = r.string().ok()?;
    Some((v, r.i))
}
struct Want {
    o: Options,
    /// those parts that can only be set through an option block
    hidden: Vec<u8>,
}
fn quote(o: &mut Vec<u8>, s: &[u8]) {
    o.push(b'"');
    for c in s {
        if *c == b'"' || *c == b'\\' {
            o.push(b'\\');
        }
        if *c == b'\r' {
            o.extend(b"\\r");
        } else {
            o.push(*c);
        }
    }
    o.push(b'"');
}
fn transform(v: &str) -> Option<StringTransform> {
    use StringTransform::*;
    // serde's names, and the ones of the web interface
    Some(match v {
        "lowercase" => LowerCase,
        "UPPERCASE" | "uppercase" => UpperCase,
        "PascalCase" | "pascalcase" | "uppercamelcase" => PascalCase,
        "camelCase" | "camelcase" => CamelCase,
        "snake_case" | "snakecase" => SnakeCase,
        "SCREAMING_SNAKE_CASE" | "screamingsnakecase" => ScreamingSnakeCase,
        "kebab-case" | "kebabcase" => KebabCase,
        "SCREAMING-KEBAB-CASE" | "screamingkebabcase" => ScreamingKebabCase,
        _ => return None,
    })
}
const MODES: &[&str] = &["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"];
fn mode(v: &str) -> Option<OutputMode> {
    use OutputMode::*;
    Some(match v {
        "rust" => Rust,
        "typescript" => Typescript,
        "typescript/typealias" => TypescriptTypeAlias,
        "kotlin" | "kotlin/jackson" => KotlinJackson,
        "kotlin/kotlinx" => KotlinKotlinx,
        "python" => PythonPydantic,
        "json_schema" => JsonSchema,
        "zod" => ZodSchema,
        "shape" => Shape,
        _ => return None,
    })
}
fn import(v: &str) -> Option<ImportStyle> {
    Some(match v {
        "add_imports" => ImportStyle::AddImports,
        "assume_existing" => ImportStyle::AssumeExisting,
        "qualified_paths" => ImportStyle::QualifiedPaths,
        _ => return None,
    })
}
/// what a block means; None inside: the meaning of a value is not documented (paths with it are dropped)
fn want(r: &mut R, base: Options) -> E<Want> {
    let mut w = Want { o: base, hidden: b"{".to_vec() };
    let mut undocumented = false;
    r.block(&mut |r, k| {
        match k {
            b"output_mode" => match mode(&r.string_value()?) {
                Some(m) => w.o.output_mode = m,
                None => undocumented = true,
            },
            b"input_mode" => {
                let v = r.string_value()?;
                match v.as_str() {
                    "json" | "sql" => {
                        w.hidden.extend(b"input_mode:");
                        quote(&mut w.hidden, v.as_bytes());
                        w.hidden.push(b',');
                    }
                    _ => undocumented = true,
                }
            }
            b"derives" => w.o.derives = r.string_value()?,
            b"property_name_format" => match transform(&r.string_value()?) {
                Some(m) => w.o.property_name_format = Some(m),
                None => undocumented = true,
            },
            b"import_style" => match import(&r.string_value()?) {
                Some(m) => w.o.import_style = m,
                None => undocumented = true,
            },
            b"field_visibility" => w.o.field_visibility = Some(r.string_value()?),
            b"unwrap" => w.o.unwrap = r.string_value()?,
            b"infer_map_threshold" => {
                let v = r.string_value()?;
                let (mut n, mut ok) = (0usize, !v.is_empty() && v.len() < 10);
                for c in v.bytes() {
                    if !c.is_ascii_digit() {
                        ok = false;
                        break;
                    }
                    n = n * 10 + (c - b'0') as usize;
                }
                if ok {
                    w.o.infer_map_threshold = Some(n)
                } else {
                    undocumented = true
                }
            }
            b"deny_unknown_fields" => w.o.deny_unknown_fields = r.bool_value()?,
            b"use_default_for_missing_fields" => w.o.use_default_for_missing_fields = r.bool_value()?,
            b"collect_additional" => w.o.collect_additional = r.bool_value()?,
            b"allow_option_vec" => {
                w.hidden.extend(if r.bool_value()? { &b"allow_option_vec:true,"[..] } else { &b"allow_option_vec:false,"[..] });
            }
            p if p.is_empty() || p[0] == b'/' => {
                r.need(b':')?;
                quote(&mut w.hidden, p);
                w.hidden.extend(b":{");
                let h = &mut w.hidden;
                r.block(&mut |r, k| {
                    let n: &[u8] = match k {
                        b"use_type" => b"use_type",
                        b"type_name" => b"type_name",
                        _ => return Err(()),
                    };
                    let v = r.string_value()?;
                    h.extend(n);
                    h.push(b':');
                    quote(h, v.as_bytes());
                    h.push(b',');
                    Ok(())
                })?;
                w.hidden.extend(b"},");
            }
            _ => return Err(()),
        }
        Ok(())
    })?;
    w.hidden.push(b'}');
    assume(!undocumented);
    Ok(w)
}
fn wanted(t: &[u8]) -> E<Want> {
    let mut r = R { b: t, i: 0 };
    let w = want(&mut r, Options::default())?;
    if r.end() {
        Ok(w)
    } else {
        Err(())
    }
}
/// templates; `$` is where bytes vary
const TT: &[&str] = &[
    "{ unwrap: \"$$$$\" }",
    "{ \"derives\" : \"A$$\\$$\" }",
    "{ field_visibility: r\"$$$$\"}",
    "{ unwrap: r#\"$$$\"#}",
    "{ derives: \"\\x$$\\u{$$}\" }",
    "{unwrap:\"a\\\n $$\"}",
    "{ infer_map_threshold: \"$$$$$\" }",
    "{ \"/$$$\": { use_type: \"$$\" } }",
    "{ \"\": { type_name: \"$$\", use_type: \"map\" }}",
    "$$$$$",
    "{$$$$}",
    "{ \"\": {}$$$",
    "{ collect_additional$$$$ }",
    "{ deny_unknown_fields: true$$$}",
    "{ unwrap: \"a\"$$derives: \"b\"$$}",
    "{ $nwrap$ \"a\" }",
    "{ \"a$\": \"b\" }",
    "{ \"$a\": { } }",
    "{ \"/a\": { $ } }",
    "{ \"/a\": { use_typ$: \"b\" } }",
    "{ input_mode: \"s$l\", output_mode: \"zo$\" }",
    "{ import_style: \"add$imports\", property_name_format: \"$amelcase\" }",
    "{ \"/a\": { use_type: \"$a$\" } }",
    "{ \"\": { type_name: \"M$p\", use_type: \"Map$\" } }",
    "{ unwrap: \"$/a/$/b\", derives: \"$ A, B $\", field_visibility: \" $\" }",
];
/// blocks in which one byte is replaced, added or left out
const BT: &[&str] = &[
    "{}",
    " { unwrap : \"/a/-\" , } ",
    "{ \"output_mode\": \"python\", collect_additional }",
    "{ deny_unknown_fields, use_default_for_missing_fields: false, allow_option_vec: true }",
    "{ \"/a/-\": { use_type: \"map\", }, \"\": { \"type_name\": \"b\" } }",
    "{ property_name_format: \"kebab-case\", import_style: \"qualified_paths\", }",
    "{\"infer_map_threshold\":\"12\",\"field_visibility\":\"pub(crate)\"}",
    "{ derives: \"A\", derives: \"B\", input_mode: \"sql\", unwrap: r#\"\"#, }",
];
const SET: &[u8] = b"{}:,\"\\/ \n#axr_1tA";
const NAMES: &[&str] = &[
    "output_mode", "input_mode", "derives", "property_name_format", "import_style", "field_visibility", "unwrap", "infer_map_threshold",
    "deny_unknown_fields", "use_default_for_missing_fields", "collect_additional", "allow_option_vec", "type_visibility", "hints", "foo", "/a", "",
];
const VALS: &[&str] = &[
    ": \"rust\"", ": \"typescript\"", ": \"typescript/typealias\"", ": \"kotlin\"", ": \"kotlin/jackson\"", ": \"kotlin/kotlinx\"", ": \"python\"",
    ": \"json_schema\"", ": \"zod\"", ": \"shape\"", ": \"json\"", ": \"sql\"", ": \"lowercase\"", ": \"uppercase\"", ": \"UPPERCASE\"",
    ": \"pascalcase\"", ": \"uppercamelcase\"", ": \"PascalCase\"", ": \"camelcase\"", ": \"camelCase\"", ": \"snakecase\"", ": \"snake_case\"",
    ": \"screamingsnakecase\"", ": \"SCREAMING_SNAKE_CASE\"", ": \"kebabcase\"", ": \"kebab-case\"", ": \"screamingkebabcase\"",
    ": \"SCREAMING-KEBAB-CASE\"", ": \"add_imports\"", ": \"assume_existing\"", ": \"qualified_paths\"", ": \"0\"", ": \"100\"", ": true", ": false", "",
    ": 1", ": {}", ": { use_type: \"map\" }", ": { type_name: \"X\", use_type: \"Y\" }", ": truex", ": \"\"", ": true false", " true", " \"rust\"", ": 'a'", ": null",
];
pub fn one_edit(t: &[u8], at: usize, how: usize) -> Vec<u8> {
    let mut o = t[..at].to_vec();
    if how < 2 {
        o.push(any_of(SET));
    }
    if at < t.len() {
        o.extend(&t[if how == 1 { at } else { at + 1 }..]);
    }
    o
}
fn judge(t: &[u8]) {
    observe(t);
    let got = parse::options(text(t));
    match wanted(t) {
        Err(()) => {
            check(got.is_err(), "a malformed option block is accepted");
            observe(b"!");
            reach("rejected");
        }
        Ok(w) => {
            let got = match got {
                Ok(x) => x,
                Err(_) => return fail("an option block is rejected"),
            };
            same(&got, &w);
            reach("accepted");
        }
    }
}
fn same(got: &Options, w: &Want) {
    check(got.output_mode == w.o.output_mode, "output_mode");
    check(got.use_default_for_missing_fields == w.o.use_default_for_missing_fields, "use_default_for_missing_fields");
    check(got.deny_unknown_fields == w.o.deny_unknown_fields, "deny_unknown_fields");
    check_eq(got.type_visibility.as_bytes(), w.o.type_visibility.as_bytes(), "type_visibility");
    check(got.field_visibility.is_some() == w.o.field_visibility.is_some(), "field_visibility");
    if let (Some(a), Some(b)) = (&got.field_visibility, &w.o.field_visibility) {
        check_eq(a.as_bytes(), b.as_bytes(), "field_visibility");
    }
    check_eq(got.derives.as_bytes(), w.o.derives.as_bytes(), "derives");
    check(got.property_name_format == w.o.property_name_format, "property_name_format");
    check_eq(got.unwrap.as_bytes(), w.o.unwrap.as_bytes(), "unwrap");
    check(got.import_style == w.o.import_style, "import_style");
    check(got.collect_additional == w.o.collect_additional, "collect_additional");
    check(got.infer_map_threshold == w.o.infer_map_threshold, "infer_map_threshold");
    // hints, input mode and allow_option_vec are not public: the canonical block for them alone gives the same
    let mut c = match parse::options(text(&w.hidden)) {
        Ok(c) => c,
        Err(_) => return fail("the canonical block is rejected"),
    };
    c.output_mode = got.output_mode.clone();
    c.use_default_for_missing_fields = got.use_default_for_missing_fields;
    c.deny_unknown_fields = got.deny_unknown_fields;
    c.type_visibility = got.type_visibility.clone();
    c.field_visibility = got.field_visibility.clone();
    c.derives = got.derives.clone();
    c.property_name_format = got.property_name_format.clone();
    c.unwrap = got.unwrap.clone();
    c.import_style = got.import_style.clone();
    c.collect_additional = got.collect_additional;
    c.infer_map_threshold = got.infer_map_threshold;
    check(c == *got, "hints, input_mode or allow_option_vec");
}
const NT: u64 = 25;
pub fn h_opt(case: u64) {
    let mut t = vec![];
    if case < NT {
        for b in TT[case as usize].as_bytes() {
            if *b == b'$' {
                let c = byte();
                assume(c < 0x80 && c != b'\r');
                // comments are not part of the documented syntax
                if case >= 9 {
                    assume(c != b'/');
                }
                t.push(c);
            } else {
                t.push(*b);
            }
        }
    } else if case < NT + 8 {
        let b = BT[(case - NT) as usize].as_bytes();
        t = one_edit(b, choice(b.len() as u32 + 1), choice(3));
        assume(!t.windows(2).any(|w| w == b"//"));
    } else {
        // every option with every kind of value, bare and quoted, alone or not
        let v = VALS[choice(VALS.len() as u32)].as_bytes();
        t.extend(b"{ ");
        let q = case == NT + 9 || case == NT + 10;
        if case >= NT + 10 {
            t.extend(if flag() { &b"collect_additional, "[..] } else { b"\"/x\": { use_type: \"Z\" }, " });
        }
        let n = NAMES[choice(NAMES.len() as u32)].as_bytes();
        if q {
            t.push(b'"');
        }
        t.extend(n);
        if q {
            t.push(b'"');
        }
        t.extend(v);
        if case > NT + 9 {
            t.extend(if flag() { &b", unwrap: \"/q\""[..] } else { b"," });
        }
        t.extend(b"}");
    }
    judge(&t);
}

// ---------------------------------------------------------------- macro invocations
/// the arguments: a name, a sample, options
fn arguments(t: &[u8]) -> E<(Vec<u8>, Vec<u8>, Want)> {
    let mut r = R { b: t, i: 0 };
    let name = r.string()?;
    r.need(b',')?;
    let sample = r.string()?;
    let mut base = Options::default();
    base.import_style = ImportStyle::QualifiedPaths;
    if r.end() {
        return Ok((name, sample, Want { o: base, hidden: b"{}".to_vec() }));
    }
    r.need(b',')?;
    let p = r.peek();
    let w = if p == b'"' || p == b'r' {
        let s = r.string()?;
        let mut q = R { b: &s, i: 0 };
        let w = want(&mut q, base)?;
        if !q.end() {
            return Err(());
        }
        w
    } else {
        want(&mut r, base)?
    };
    if !r.end() {
        return Err(());
    }
    Ok((name, sample, w))
}
const MT: &[&str] = &[
    "\"A$\", \"{}\"",
    "\"A\", r#\"{\"$\":null}\"#, { collect_additional$ }",
    "\"A\", \"[{\\\"a$\\\": 1}]\" $ {}",
    "\"A\", \"{}\", \"{}\"$",
    "\"A\", \"{}\", \"{ $ }\"",
    "\"A\", \"{}\", {}$",
    "\"A\", \"{}\"$$",
    "$\"A\"$\"{}\"$",
    "\"pub$A\", \"{\\\"a\\\":[{}]}\", { derives: \"X$\" }",
    "\"A\", \"[$]\", r\"{ import_style: \\\"add_imports\\\" }\"",
];
const MB: &[&str] = &[
    "\"A\", \"{}\"",
    "\"A\", r#\"{\"a\":1}\"#, { import_style: \"add_imports\" }",
    "\"A\" , \"[{}]\" , \"{ derives: \\\"B\\\" }\" ",
];
pub fn h_macro(case: u64) {
    let mut t = vec![];
    let full = case >= 13;
    let case = case % 13;
    if case < 10 {
        for b in MT[case as usize].as_bytes() {
            if *b == b'$' {
                let c = byte();
                assume(c < 0x80 && c != b'\r' && c != b'/');
                t.push(c);
            } else {
                t.push(*b);
            }
        }
    } else {
        let b = MB[case as usize - 10].as_bytes();
        t = one_edit(b, choice(b.len() as u32 + 1), choice(3));
        assume(!t.windows(2).any(|w| w == b"//"));
    }
    let mut m = t.clone();
    if full {
        m = [&b"json_typegen!("[..], &t[..], &b");"[..]].concat();
    }
    observe(&m);
    let got = if full { codegen_from_macro(text(&m)) } else { codegen_from_macro_input(text(&m)) };
    match arguments(&t) {
        Err(()) => {
            check(got.is_err(), "a malformed macro invocation is accepted");
            reach("rejected");
        }
        Ok((name, sample, w)) => {
            let want = codegen(text(&name), text(&sample), w.o);
            match (got, want) {
                (Ok(a), Ok(b)) => {
                    check_eq(a.as_bytes(), b.as_bytes(), "the macro gives other code than its parts");
                    reach("accepted");
                }
                (Err(_), Err(_)) => reach("sample rejected"),
                (Ok(_), _) => fail("the macro accepts what is rejected otherwise"),
                (Err(_), _) => fail("a macro invocation is rejected"),
            }
        }
    }
}
/// text around a full macro invocation
pub fn h_macro_full(case: u64) {
    let b: &[u8] = if case == 0 { b" json_typegen!(\"A\", \"{}\");\n" } else { b"json_typegen!( \"A\", \"[]\", {} );" };
    let t = one_edit(b, choice(b.len() as u32 + 1), choice(3));
    assume(!t.windows(2).any(|w| w == b"//"));
    observe(&t);
    let s = {
        let (mut i, mut j) = (0, t.len());
        while i < j && ws(t[i]) {
            i += 1;
        }
        while i < j && ws(t[j - 1]) {
            j -= 1;
        }
        &t[i..j]
    };
    let inner = if s.starts_with(b"json_typegen!(") && s.ends_with(b");") { Some(&s[14..s.len() - 2]) } else { None };
    let got = codegen_from_macro(text(&t));
    let want = match inner.map(arguments) {
        Some(Ok((name, sample, w))) => codegen(text(&name), text(&sample), w.o).ok(),
        _ => None,
    };
    match (got.ok(), want) {
        (Some(a), Some(b)) => {
            check_eq(a.as_bytes(), b.as_bytes(), "the macro gives other code than its parts");
            reach("accepted");
        }
        (None, None) => reach("rejected"),
        (Some(_), _) => fail("a malformed macro invocation is accepted"),
        (None, _) => fail("a macro invocation is rejected"),
    }
}

/// what the value of `use_type` does: `map`, spelled exactly so, asks for a map; anything else is the name of a type
pub fn h_opt_hint(case: u64) {
    let w = fill(["@A", "m#sp", "#sap", "ma#s"][choice(4)], &[&["map", "Map", "MAP", "mAp", "maps", "ma", "HashMap", "map ", " map", "Foo<Map>"]]);
    let b = ["{ \"/a\": { use_type: \"$\" } }", "{ \"/a\": { type_name: \"N\", use_type: \"$\", } }", "{\"/a\":{use_type:\"$\",type_name:\"map\"}}", "{ \"/a\": {}, \"/a\": { \"use_type\" : \"$\" }, unwrap: \"\" }"][case as usize];
    let block = b.replace('$', text(&w));
    observe(block.as_bytes());
    let mut o = match parse::options(&block) {
        Ok(o) => o,
        Err(_) => return fail("an option block is rejected"),
    };
    o.output_mode = OutputMode::Shape;
    let out = match codegen("Root", "[{\"a\":{\"x\":1}},{\"b\":{\"x\":1}}]", o) {
        Ok(x) => x,
        Err(_) => return fail("sample rejected"),
    };
    observe(out.as_bytes());
    reach("accepted");
    // the pointer names nothing
    let mut o = parse::options(&b.replace("/a", "/-/a").replace('$', text(&w))).unwrap();
    o.output_mode = OutputMode::Shape;
    let plain = shape_json("[{\"a\":{\"x\":1}},{\"b\":{\"x\":1}}]", Options::default());
    check_eq(out.as_bytes(), plain.as_bytes(), "a hint that names nothing changes the type");
    let out = match codegen("Root", "[{\"a\":{\"x\":1}},{\"b\":{\"x\":1}}]", o) {
        Ok(x) => x,
        Err(_) => return fail("sample rejected"),
    };
    observe(out.as_bytes());
    let j = json::parse(out.as_bytes());
    let a = j.as_ref().and_then(|j| j.arr().first()).and_then(|j| j.get(b"a?").or_else(|| j.get(b"a")));
    match a {
        Some(json::J::Str(n)) => check_eq(n, &w, "another type"),
        Some(json::J::Obj(m)) => {
            check(w == b"map", "a map although none is asked for");
            check(m.len() == 2 && m[0].1 == json::J::Str(b"map".to_vec()) && m[1].1 == json::J::Str(b"integer".to_vec()), "a map hint is not followed");
        }
        _ => fail("another type"),
    }
}
fn shape_json(doc: &str, mut o: Options) -> String {
    o.output_mode = OutputMode::Shape;
    codegen("Root", doc, o).unwrap_or_default()
}
