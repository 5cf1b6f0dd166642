//! Readers for the generated code. None / Err: the text is not valid in the language.
use crate::json::{self, J};
use crate::model::*;
use crate::tok::*;
type R = Result<(Env, P), &'static str>;

// ---------------------------------------------------------------- TypeScript
const TS_RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for",
    "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
];
const TS_TYPES: &[&str] = &["any", "unknown", "never", "void", "string", "number", "boolean", "object", "symbol", "bigint", "undefined"];
/// names the user gave to a type, not ones that are generated
fn opaque_name(n: &[u8]) -> bool {
    n.starts_with(b"Hint") || n == b"Date" && crate::model::DATE.load(std::sync::atomic::Ordering::Relaxed)
}
fn one_of(l: &[&str], x: &[u8]) -> bool {
    l.iter().any(|k| k.as_bytes() == x)
}
fn ts_union(c: &mut Cur) -> Option<P> {
    let mut t = ts_postfix(c)?;
    let (mut nul, mut und) = (false, false);
    while c.eat(b'|') {
        if c.eat_id(b"null") {
            nul = true;
        } else if c.eat_id(b"undefined") {
            und = true;
        } else {
            // no other unions are generated
            return None;
        }
    }
    if nul && t != P::Unknown {
        t = P::Nullable(Box::new(t));
    }
    if und {
        t = P::Undef(Box::new(t));
    }
    Some(t)
}
fn ts_postfix(c: &mut Cur) -> Option<P> {
    let mut t = ts_primary(c)?;
    while c.is(b'[') {
        c.i += 1;
        c.need(b']')?;
        t = P::List(Box::new(t));
    }
    Some(t)
}
fn ts_members(c: &mut Cur) -> Option<Vec<Fd>> {
    let mut f = vec![];
    while !c.eat(b'}') {
        let key = match c.string() {
            Some(k) => k,
            None => {
                let k = c.ident()?;
                if is_digit(k[0]) {
                    return None;
                }
                k
            }
        };
        let optional = c.eat(b'?');
        c.need(b':')?;
        let ty = ts_union(c)?;
        c.need(b';')?;
        f.push(Fd { ident: key.clone(), key, optional, ty });
    }
    Some(f)
}
fn ts_primary(c: &mut Cur) -> Option<P> {
    if c.eat(b'(') {
        let t = ts_union(c)?;
        c.need(b')')?;
        return Some(t);
    }
    if c.eat(b'[') {
        let mut v = vec![];
        while !c.eat(b']') {
            v.push(ts_union(c)?);
            if !c.eat(b',') && !c.is(b']') {
                return None;
            }
        }
        return Some(P::Tuple(v));
    }
    if c.eat(b'{') {
        if c.eat(b'[') {
            c.ident()?;
            c.need(b':')?;
            c.need_id(b"string")?;
            c.need(b']')?;
            c.need(b':')?;
            let t = ts_union(c)?;
            c.eat(b';');
            c.need(b'}')?;
            return Some(P::Map(Box::new(t)));
        }
        return Some(P::Obj(ts_members(c)?));
    }
    let n = c.ident()?;
    Some(match &n[..] {
        b"any" | b"unknown" => P::Unknown,
        b"boolean" => P::Bool,
        b"string" => P::Str,
        b"number" => P::Num,
        b"Array" if c.eat(b'<') => {
            let t = ts_union(c)?;
            c.need(b'>')?;
            P::List(Box::new(t))
        }
        b"Record" if c.eat(b'<') => {
            c.need_id(b"string")?;
            c.need(b',')?;
            let t = ts_union(c)?;
            c.need(b'>')?;
            P::Map(Box::new(t))
        }
        _ => {
            if is_digit(n[0]) {
                return None;
            }
            if opaque_name(&n) {
                P::Opaque(n)
            } else {
                P::Ref(n)
            }
        }
    })
}
pub fn ts(out: &str, name: &str) -> R {
    let mut c = Cur::new(out.as_bytes(), Quote::Js).ok_or("malformed string literal or stray character")?;
    let mut e = Env::default();
    while !c.end() {
        ts_item(&mut c, &mut e).ok_or("malformed TypeScript")?;
    }
    for (n, _) in &e.defs {
        if !is_ident(n, true) || one_of(TS_RESERVED, n) || one_of(TS_TYPES, n) {
            return Err("type name that is not a valid identifier");
        }
    }
    if !e.has(name.as_bytes()) {
        return Err("the requested name is not defined");
    }
    e.check()?;
    Ok((e, P::Ref(name.as_bytes().to_vec())))
}
fn ts_item(c: &mut Cur, e: &mut Env) -> Option<()> {
    c.need_id(b"export")?;
    if c.eat_id(b"interface") {
        let n = c.ident()?;
        c.need(b'{')?;
        let f = ts_members(c)?;
        e.defs.push((n, Def::Struct(f)));
    } else {
        c.need_id(b"type")?;
        let n = c.ident()?;
        c.need(b'=')?;
        let t = ts_union(c)?;
        c.need(b';')?;
        e.defs.push((n, Def::Alias(t)));
    }
    Some(())
}

// ---------------------------------------------------------------- zod
fn zod_call(c: &mut Cur) -> Option<()> {
    c.need(b'(')?;
    c.need(b')')
}
fn zod_expr(c: &mut Cur) -> Option<P> {
    let opaque = !c.is_id(b"z");
    let n = if opaque {
        vec![]
    } else {
        c.i += 1;
        c.need(b'.')?;
        c.ident()?
    };
    let mut t = match &n[..] {
        // an opaque expression
        b"" => P::Opaque(c.ident()?),
        b"unknown" | b"any" => {
            zod_call(c)?;
            P::Unknown
        }
        b"boolean" => {
            zod_call(c)?;
            P::Bool
        }
        b"string" => {
            zod_call(c)?;
            P::Str
        }
        b"number" => {
            zod_call(c)?;
            P::Num
        }
        b"object" => {
            c.need(b'(')?;
            c.need(b'{')?;
            let mut f: Vec<Fd> = vec![];
            while !c.eat(b'}') {
                let key = match c.string() {
                    Some(k) => k,
                    None => {
                        let k = c.ident()?;
                        if is_digit(k[0]) {
                            return None;
                        }
                        k
                    }
                };
                c.need(b':')?;
                let t = zod_expr(c)?;
                if !c.eat(b',') && !c.is(b'}') {
                    return None;
                }
                // a computed-looking key `__proto__` would set the prototype instead
                let (optional, ty) = match t {
                    P::Undef(i) => (true, *i),
                    t => (false, t),
                };
                f.push(Fd { ident: key.clone(), key, optional, ty });
            }
            c.need(b')')?;
            P::Obj(f)
        }
        b"record" => {
            c.need(b'(')?;
            if zod_expr(c)? != P::Str {
                return None;
            }
            c.need(b',')?;
            let t = zod_expr(c)?;
            c.need(b')')?;
            P::Map(Box::new(t))
        }
        b"array" => {
            c.need(b'(')?;
            let t = zod_expr(c)?;
            c.need(b')')?;
            P::List(Box::new(t))
        }
        b"tuple" => {
            c.need(b'(')?;
            c.need(b'[')?;
            let mut v = vec![];
            while !c.eat(b']') {
                v.push(zod_expr(c)?);
                if !c.eat(b',') && !c.is(b']') {
                    return None;
                }
            }
            c.need(b')')?;
            P::Tuple(v)
        }
        _ => return None,
    };
    while c.eat(b'.') {
        let n = c.ident()?;
        zod_call(c)?;
        t = match &n[..] {
            b"array" => P::List(Box::new(t)),
            b"optional" => P::Undef(Box::new(t)),
            b"nullable" => P::Nullable(Box::new(t)),
            _ => return None,
        };
    }
    Some(t)
}
pub fn zod(out: &str) -> Result<(Vec<u8>, Env, P), &'static str> {
    let mut c = Cur::new(out.as_bytes(), Quote::Js).ok_or("malformed string literal or stray character")?;
    fn go(c: &mut Cur) -> Option<(Vec<u8>, P)> {
        c.need_id(b"export")?;
        c.need_id(b"const")?;
        let n = c.ident()?;
        c.need(b'=')?;
        let t = zod_expr(c)?;
        c.need(b';')?;
        if c.end() && is_ident(&n, true) {
            Some((n, t))
        } else {
            None
        }
    }
    let (n, t) = go(&mut c).ok_or("malformed zod schema")?;
    let e = Env::default();
    let mut e2 = Env::default();
    e2.defs.push((n.clone(), Def::Alias(t.clone())));
    e2.check()?;
    Ok((n, e, t))
}

// ---------------------------------------------------------------- JSON Schema (draft-07)
pub fn schema_ty(j: &J) -> Option<P> {
    let o = j.obj();
    if !matches!(j, J::Obj(_)) {
        return None;
    }
    // each keyword once, and none that is not read here: an annotation is a string
    let known = |ks: &[&[u8]]| {
        o.iter().all(|(k, v)| ks.contains(&&k[..]) || (matches!(&k[..], b"$schema" | b"title" | b"description" | b"$comment") && matches!(v, J::Str(_))))
            && o.iter().enumerate().all(|(i, m)| o[..i].iter().all(|x| x.0 != m.0))
    };
    if let Some(a) = j.get(b"anyOf") {
        if !known(&[b"anyOf"]) {
            return None;
        }
        let a = a.arr();
        if a.len() != 2 {
            return None;
        }
        let is_null = |x: &J| x.get(b"type").map_or(false, |t| t.s() == b"null");
        return if is_null(&a[1]) {
            Some(P::Nullable(Box::new(schema_ty(&a[0])?)))
        } else if is_null(&a[0]) {
            Some(P::Nullable(Box::new(schema_ty(&a[1])?)))
        } else {
            None
        };
    }
    let t = match j.get(b"type") {
        None => return if known(&[]) { Some(P::Unknown) } else { None },
        Some(t @ J::Str(_)) => t,
        _ => return None,
    };
    let keys: &[&[u8]] = match t.s() {
        b"array" => &[b"type", b"items", b"additionalItems", b"minItems", b"maxItems"],
        b"object" => &[b"type", b"properties", b"required", b"additionalProperties"],
        _ => &[b"type"],
    };
    if !known(keys) {
        return None;
    }
    Some(match t.s() {
        b"boolean" => P::Bool,
        b"string" => P::Str,
        b"number" => P::Num,
        b"array" => {
            // lengths may only say what is known of a tuple
            for k in [&b"minItems"[..], b"maxItems"] {
                match (j.get(k), j.get(b"items")) {
                    (None, _) => {}
                    (Some(J::Num(n)), Some(J::Arr(a))) if n[..] == *a.len().to_string().as_bytes() => {}
                    _ => return None,
                }
            }
            let items = j.get(b"items")?;
            match items {
                J::Arr(a) => {
                    let mut v = vec![];
                    for x in a {
                        v.push(schema_ty(x)?);
                    }
                    if v.is_empty() || j.get(b"additionalItems") != Some(&J::Bool(false)) {
                        return None;
                    }
                    P::Tuple(v)
                }
                _ if j.get(b"additionalItems").is_some() => return None,
                _ => P::List(Box::new(schema_ty(items)?)),
            }
        }
        b"object" => {
            if let Some(a) = j.get(b"additionalProperties") {
                if j.get(b"properties").is_some() || j.get(b"required").is_some() {
                    return None;
                }
                P::Map(Box::new(schema_ty(a)?))
            } else {
                let props = j.get(b"properties")?;
                let req = match j.get(b"required")? {
                    J::Arr(a) => a,
                    _ => return None,
                };
                // names, each once
                if !matches!(props, J::Obj(_)) || !req.iter().all(|r| matches!(r, J::Str(_))) || !req.iter().enumerate().all(|(i, r)| req[..i].iter().all(|x| x.s() != r.s())) {
                    return None;
                }
                let mut f = vec![];
                for (k, x) in props.obj() {
                    let optional = !req.iter().any(|r| r.s() == &k[..]);
                    f.push(Fd { key: k.clone(), ident: k.clone(), optional, ty: schema_ty(x)? });
                }
                // everything required is described
                if !req.iter().all(|r| f.iter().any(|x| x.key == r.s())) {
                    return None;
                }
                P::Obj(f)
            }
        }
        x => P::Opaque(x.to_vec()),
    })
}
pub fn schema(out: &str) -> R {
    let j = json::parse(out.as_bytes()).ok_or("schema is not JSON")?;
    if j.get(b"$schema").map(|s| s.s().to_vec()) != Some(b"http://json-schema.org/draft-07/schema#".to_vec()) {
        return Err("no $schema");
    }
    let t = schema_ty(&j).ok_or("malformed JSON Schema")?;
    let mut e = Env::default();
    e.defs.push((b"x".to_vec(), Def::Alias(t.clone())));
    e.check()?;
    Ok((Env::default(), t))
}

// ---------------------------------------------------------------- Rust with serde
const RUST_RESERVED: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut",
    "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
    "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "_",
];
pub fn rust_ident(n: &[u8]) -> bool {
    is_ident(n, false) && !one_of(RUST_RESERVED, n)
}
fn upper(b: u8) -> u8 {
    if b >= b'a' && b <= b'z' {
        b - 32
    } else {
        b
    }
}
fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' {
        b + 32
    } else {
        b
    }
}
/// serde's rename_all, applied to a field
pub fn serde_rename(rule: &[u8], f: &[u8]) -> Option<Vec<u8>> {
    let pascal = |mut cap: bool| {
        let mut o = vec![];
        for b in f {
            if *b == b'_' {
                cap = true;
            } else if cap {
                o.push(upper(*b));
                cap = false;
            } else {
                o.push(*b);
            }
        }
        o
    };
    Some(match rule {
        b"lowercase" | b"snake_case" => f.to_vec(),
        b"UPPERCASE" | b"SCREAMING_SNAKE_CASE" => f.iter().map(|b| upper(*b)).collect(),
        b"PascalCase" => pascal(true),
        b"camelCase" => {
            let mut o = pascal(true);
            if !o.is_empty() {
                o[0] = lower(o[0]);
            }
            o
        }
        b"kebab-case" => f.iter().map(|b| if *b == b'_' { b'-' } else { *b }).collect(),
        b"SCREAMING-KEBAB-CASE" => f.iter().map(|b| if *b == b'_' { b'-' } else { upper(*b) }).collect(),
        _ => return None,
    })
}
fn rust_path(c: &mut Cur) -> Option<Vec<u8>> {
    let mut n = c.ident()?;
    while c.is(b':') {
        c.i += 1;
        c.need(b':')?;
        n.extend(b"::");
        n.extend(c.ident()?);
    }
    Some(n)
}
fn rust_ty(c: &mut Cur, e: &mut Env, names: &[Vec<u8>]) -> Option<P> {
    if c.eat(b'(') {
        let mut v = vec![];
        while !c.eat(b')') {
            v.push(rust_ty(c, e, names)?);
            if !c.eat(b',') && !(c.is(b')') && v.len() > 1) {
                return None;
            }
        }
        return Some(P::Tuple(v));
    }
    let n = rust_path(c)?;
    if names.contains(&n) {
        return Some(P::Ref(n));
    }
    Some(match &n[..] {
        b"bool" => P::Bool,
        b"String" => P::Str,
        b"i64" => P::Int,
        b"f64" => P::Float,
        b"Value" | b"serde_json::Value" => {
            e.use_name(&n);
            P::Unknown
        }
        b"Option" => {
            c.need(b'<')?;
            let t = rust_ty(c, e, names)?;
            c.need(b'>')?;
            P::Nullable(Box::new(t))
        }
        b"Vec" => {
            c.need(b'<')?;
            let t = rust_ty(c, e, names)?;
            c.need(b'>')?;
            P::List(Box::new(t))
        }
        b"HashMap" | b"std::collections::HashMap" => {
            e.use_name(&n);
            c.need(b'<')?;
            c.need_id(b"String")?;
            c.need(b',')?;
            let t = rust_ty(c, e, names)?;
            c.need(b'>')?;
            P::Map(Box::new(t))
        }
        // hints name types of the user
        _ if n[0] >= b'A' && n[0] <= b'Z' && !n.contains(&b':') && !opaque_name(&n) => P::Ref(n),
        _ => P::Opaque(n),
    })
}
/// `#[...]` at the cursor: the path (or `serde` and its argument)
fn rust_attr(c: &mut Cur) -> Option<Vec<T>> {
    c.need(b'#')?;
    c.need(b'[')?;
    let mut v = vec![];
    let mut depth = 0;
    loop {
        let t = c.peek()?.clone();
        c.i += 1;
        match t {
            T::C(b'[') => depth += 1,
            T::C(b']') if depth == 0 => return Some(v),
            T::C(b']') => depth -= 1,
            _ => {}
        }
        v.push(t);
    }
}
#[derive(Default)]
struct Serde {
    rename: Option<Vec<u8>>,
    rename_all: Option<Vec<u8>>,
    default: bool,
    flatten: bool,
    deny: bool,
}
fn serde_attr(a: &[T], s: &mut Serde) -> Option<()> {
    let id = |x: &[u8]| T::Id(x.to_vec());
    if a.len() < 4 || a[0] != id(b"serde") || a[1] != T::C(b'(') || a[a.len() - 1] != T::C(b')') {
        return None;
    }
    for p in a[2..a.len() - 1].split(|t| *t == T::C(b',')) {
        match p {
            [T::Id(n)] if n == b"default" => s.default = true,
            [T::Id(n)] if n == b"flatten" => s.flatten = true,
            [T::Id(n)] if n == b"deny_unknown_fields" => s.deny = true,
            [T::Id(n), T::C(b'='), T::Str(v)] if n == b"rename" => {
                if s.rename.is_some() {
                    return None;
                }
                s.rename = Some(v.clone());
            }
            [T::Id(n), T::C(b'='), T::Str(v)] if n == b"rename_all" => s.rename_all = Some(v.clone()),
            _ => return None,
        }
    }
    Some(())
}
/// a visibility: everything up to the given keyword (or the name before a colon)
fn rust_vis(c: &mut Cur) -> Option<Vec<u8>> {
    let mut v = vec![];
    if c.eat_id(b"pub") {
        v.extend(b"pub");
        if c.is(b'(') {
            while !c.is(b')') {
                match c.peek()? {
                    T::C(b) => v.push(*b),
                    T::Id(n) => {
                        if v.last().map_or(false, |b| *b != b'(' && *b != b':') {
                            v.push(b' ');
                        }
                        v.extend(n);
                    }
                    T::Str(_) => return None,
                }
                c.i += 1;
            }
            c.i += 1;
            v.push(b')');
        }
    }
    Some(v)
}
fn rust_items(c: &mut Cur, e: &mut Env, names: &[Vec<u8>]) -> Option<()> {
    while !c.end() {
        if c.eat_id(b"use") {
            let p = rust_path(c)?;
            c.need(b';')?;
            e.imports.push(p);
            continue;
        }
        let mut s = Serde::default();
        let mut derives = vec![];
        while c.is(b'#') {
            let a = rust_attr(c)?;
            if a.first() == Some(&T::Id(b"derive".to_vec())) {
                let mut k = 2;
                let mut cur = vec![];
                while k < a.len() {
                    match &a[k] {
                        T::Id(n) => cur.extend(n),
                        T::C(b':') => cur.push(b':'),
                        T::C(b',') | T::C(b')') => derives.push(std::mem::take(&mut cur)),
                        _ => return None,
                    }
                    k += 1;
                }
            } else {
                serde_attr(&a, &mut s)?;
            }
        }
        let vis = rust_vis(c)?;
        if c.eat_id(b"type") {
            let n = c.ident()?;
            c.need(b'=')?;
            let t = rust_ty(c, e, names)?;
            c.need(b';')?;
            e.flags.push([b"type ", &n[..], b" ", &vis].concat());
            e.defs.push((n, Def::Alias(t)));
            continue;
        }
        c.need_id(b"struct")?;
        let n = c.ident()?;
        e.flags.push([b"struct ", &n[..], b" ", &vis].concat());
        for d in &derives {
            e.flags.push([b"derive ", &n[..], b" ", d].concat());
            e.use_name(d);
        }
        if s.deny {
            e.flags.push([b"deny ", &n[..]].concat());
        }
        if s.default {
            e.flags.push([b"default ", &n[..]].concat());
        }
        if s.flatten || s.rename.is_some() {
            return None;
        }
        c.need(b'{')?;
        let mut fs: Vec<Fd> = vec![];
        while !c.eat(b'}') {
            let mut fa = Serde::default();
            while c.is(b'#') {
                let a = rust_attr(c)?;
                serde_attr(&a, &mut fa)?;
            }
            let vis = rust_vis(c)?;
            let f = c.ident()?;
            c.need(b':')?;
            let ty = rust_ty(c, e, names)?;
            if !c.eat(b',') && !c.is(b'}') {
                return None;
            }
            if !rust_ident(&f) || fa.deny || fa.rename_all.is_some() {
                return None;
            }
            if fa.flatten {
                if !matches!(ty, P::Map(_)) || fa.rename.is_some() || fs.iter().any(|x| x.ident == f) {
                    return None;
                }
                e.flags.push([b"flatten ", &n[..], b" ", &f].concat());
                continue;
            }
            if e.flag(&[b"flatten ", &n, b" ", &f]) {
                return None;
            }
            e.flags.push([b"field ", &n[..], b".", &f, b" ", &vis].concat());
            if fa.default {
                e.flags.push([b"field default ", &n[..], b".", &f].concat());
            }
            let key = match (fa.rename, &s.rename_all) {
                (Some(r), _) => r,
                (None, Some(r)) => serde_rename(r, &f)?,
                (None, None) => f.clone(),
            };
            fs.push(Fd { key, ident: f, optional: fa.default || s.default, ty });
        }
        e.defs.push((n, Def::Struct(fs)));
    }
    Some(())
}
fn names_after(c: &Cur, kw: &[&[u8]]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for w in c.t.windows(2) {
        if let (T::Id(a), T::Id(b)) = (&w[0], &w[1]) {
            if kw.iter().any(|k| *k == &a[..]) {
                v.push(b.clone());
            }
        }
    }
    v
}
pub fn rust(out: &str, name: &str) -> R {
    let mut c = Cur::new(out.as_bytes(), Quote::Rust).ok_or("malformed string literal or stray character")?;
    let names = names_after(&c, &[b"struct", b"type"]);
    let mut e = Env::default();
    rust_items(&mut c, &mut e, &names).ok_or("malformed Rust")?;
    for (n, _) in &e.defs {
        if !rust_ident(n) {
            return Err("type name that is not a valid identifier");
        }
        // (derive macros live in a namespace of their own)
        if e.imports.iter().any(|i| !i.starts_with(b"serde_derive::") && i.rsplit(|b| *b == b':').next() == Some(&n[..])) {
            return Err("a type has the name of an import");
        }
    }
    for (i, n) in e.imports.iter().enumerate() {
        if e.imports[..i].contains(n) {
            return Err("imported twice");
        }
    }
    if !e.has(name.as_bytes()) {
        return Err("the requested name is not defined");
    }
    e.check()?;
    e.finite()?;
    Ok((e, P::Ref(name.as_bytes().to_vec())))
}

// ---------------------------------------------------------------- Kotlin
const KOTLIN_RESERVED: &[&str] = &[
    "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null", "object", "package", "return", "super", "this",
    "throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while",
];
pub fn kotlin_ident(n: &[u8]) -> bool {
    is_ident(n, false) && !one_of(KOTLIN_RESERVED, n) && n.iter().any(|b| *b != b'_')
}
fn dotted(c: &mut Cur) -> Option<Vec<u8>> {
    let mut n = c.ident()?;
    while c.eat(b'.') {
        n.push(b'.');
        n.extend(c.ident()?);
    }
    Some(n)
}
fn kotlin_ty(c: &mut Cur, names: &[Vec<u8>]) -> Option<P> {
    let n = c.ident()?;
    let mut args = vec![];
    let generic = c.eat(b'<');
    if generic {
        while !c.eat(b'>') {
            args.push(kotlin_ty(c, names)?);
            if !c.eat(b',') && !c.is(b'>') {
                return None;
            }
        }
    }
    let mut q = false;
    while c.eat(b'?') {
        q = true;
    }
    let t = if names.contains(&n) {
        if generic {
            return None;
        }
        P::Ref(n)
    } else {
        match (&n[..], args.len()) {
            (b"Any", 0) => P::Unknown,
            (b"Boolean", 0) => P::Bool,
            (b"String", 0) => P::Str,
            (b"Long", 0) => P::Int,
            (b"Double", 0) => P::Float,
            (b"List", 1) => P::List(Box::new(args.pop()?)),
            (b"Map", 2) if args[0] == P::Str => P::Map(Box::new(args.pop()?)),
            (b"Pair", 2) | (b"Triple", 3) => P::Tuple(args),
            (_, 0) if opaque_name(&n) => P::Opaque(n),
            (_, 0) => P::Ref(n),
            _ => return None,
        }
    };
    if !q && t == P::Unknown {
        // Any holds no null
        return Some(P::Opaque(b"Any".to_vec()));
    }
    if q && t != P::Unknown {
        return Some(P::Nullable(Box::new(t)));
    }
    Some(t)
}
/// Jackson's naming strategies
fn jackson(strategy: &[u8], f: &[u8]) -> Option<Vec<u8>> {
    let is_up = |b: u8| b >= b'A' && b <= b'Z';
    let mut o: Vec<u8> = vec![];
    match strategy {
        b"LowerCaseStrategy" => o.extend(f.iter().map(|b| lower(*b))),
        b"UpperCamelCaseStrategy" => {
            o.extend(f);
            if !o.is_empty() {
                o[0] = upper(o[0]);
            }
        }
        b"SnakeCaseStrategy" => {
            let mut prev = false;
            for (i, b) in f.iter().enumerate() {
                if i == 0 && *b == b'_' {
                    continue;
                }
                if is_up(*b) {
                    if !prev && !o.is_empty() && o[o.len() - 1] != b'_' {
                        o.push(b'_');
                    }
                    prev = true;
                } else {
                    prev = false;
                }
                o.push(lower(*b));
            }
        }
        b"KebabCaseStrategy" => {
            let mut n = 0;
            for (i, b) in f.iter().enumerate() {
                if !is_up(*b) {
                    if n > 1 {
                        let l = o.len() - 1;
                        o.insert(l, b'-');
                    }
                    n = 0;
                } else {
                    if n == 0 && i > 0 {
                        o.push(b'-');
                    }
                    n += 1;
                }
                o.push(lower(*b));
            }
        }
        _ => return None,
    }
    Some(o)
}
fn last_part(n: &[u8]) -> &[u8] {
    n.rsplit(|b| *b == b'.').next().unwrap_or(n)
}
fn kotlin_items(c: &mut Cur, e: &mut Env, names: &[Vec<u8>]) -> Option<()> {
    while !c.end() {
        if c.eat_id(b"import") {
            let p = dotted(c)?;
            e.imports.push(p);
            continue;
        }
        if c.eat_id(b"typealias") {
            let n = c.ident()?;
            c.need(b'=')?;
            let t = kotlin_ty(c, names)?;
            c.eat(b';');
            e.defs.push((n, Def::Alias(t)));
            continue;
        }
        let mut strategy = None;
        let mut serializable = false;
        while c.eat(b'@') {
            let a = dotted(c)?;
            e.use_name(&a);
            match last_part(&a) {
                b"Serializable" => serializable = true,
                b"JsonNaming" => {
                    c.need(b'(')?;
                    let s = dotted(c)?;
                    let k = s.iter().rposition(|b| *b == b'.')?;
                    if last_part(&s[..k]) != b"PropertyNamingStrategies" {
                        return None;
                    }
                    e.use_name(&s[..k]);
                    c.need(b':')?;
                    c.need(b':')?;
                    c.need_id(b"class")?;
                    c.need(b')')?;
                    strategy = Some(s[k + 1..].to_vec());
                }
                _ => return None,
            }
        }
        c.need_id(b"data")?;
        c.need_id(b"class")?;
        let n = c.ident()?;
        if serializable {
            e.flags.push([b"serializable ", &n[..]].concat());
        }
        c.need(b'(')?;
        let mut fs: Vec<Fd> = vec![];
        while !c.eat(b')') {
            let mut rename = None;
            let mut setter = false;
            while c.eat(b'@') {
                if c.eat_id(b"get") {
                    c.need(b':')?;
                }
                let a = dotted(c)?;
                e.use_name(&a);
                match last_part(&a) {
                    b"JsonProperty" | b"SerialName" => {
                        c.need(b'(')?;
                        if rename.is_some() {
                            return None;
                        }
                        rename = Some(c.string()?);
                        c.need(b')')?;
                    }
                    b"JsonAnySetter" | b"JsonAnyGetter" => setter = true,
                    _ => return None,
                }
            }
            c.need_id(b"val")?;
            let f = c.ident()?;
            c.need(b':')?;
            let ty = kotlin_ty(c, names)?;
            if !kotlin_ident(&f) {
                return None;
            }
            if setter {
                c.need(b'=')?;
                c.ident()?;
                c.need(b'(')?;
                c.need(b')')?;
            }
            if !c.eat(b',') && !c.is(b')') {
                return None;
            }
            if setter {
                if fs.iter().any(|x| x.ident == f) {
                    return None;
                }
                e.flags.push([b"flatten ", &n[..], b" ", &f].concat());
                continue;
            }
            let key = match (rename, &strategy) {
                (Some(r), _) => r,
                (None, Some(s)) => jackson(s, &f)?,
                (None, None) => f.clone(),
            };
            fs.push(Fd { key, ident: f, optional: false, ty });
        }
        if fs.is_empty() {
            return None;
        }
        e.defs.push((n, Def::Struct(fs)));
    }
    Some(())
}
pub fn kotlin(out: &str, name: &str) -> R {
    let mut c = Cur::new(out.as_bytes(), Quote::Kotlin).ok_or("malformed string literal or stray character")?;
    let names = names_after(&c, &[b"class", b"typealias"]);
    let mut e = Env::default();
    kotlin_items(&mut c, &mut e, &names).ok_or("malformed Kotlin")?;
    for (n, _) in &e.defs {
        if !kotlin_ident(n) {
            return Err("type name that is not a valid identifier");
        }
        if e.imports.iter().any(|i| last_part(i) == &n[..]) {
            return Err("a type has the name of an import");
        }
    }
    for (i, n) in e.imports.iter().enumerate() {
        if e.imports[..i].contains(n) {
            return Err("imported twice");
        }
    }
    if !e.has(name.as_bytes()) {
        return Err("the requested name is not defined");
    }
    e.check()?;
    Ok((e, P::Ref(name.as_bytes().to_vec())))
}

// ---------------------------------------------------------------- Python with pydantic
const PYTHON_RESERVED: &[&str] = &[
    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from",
    "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield",
];
/// a field of such a name is an error in pydantic 1 or 2
const BASE_MODEL: &[&str] = &[
    "construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw", "schema", "schema_json", "update_forward_refs", "validate", "model_computed_fields", "model_config",
    "model_construct", "model_copy", "model_dump", "model_dump_json", "model_extra", "model_fields", "model_fields_set", "model_json_schema", "model_parametrized_name", "model_post_init",
    "model_rebuild", "model_validate", "model_validate_json", "model_validate_strings",
];
pub fn python_ident(n: &[u8]) -> bool {
    is_ident(n, false) && !one_of(PYTHON_RESERVED, n)
}
fn python_ty(c: &mut Cur, e: &mut Env) -> Option<P> {
    let n = dotted(c)?;
    let mut args = vec![];
    let generic = c.eat(b'[');
    if generic {
        while !c.eat(b']') {
            args.push(python_ty(c, e)?);
            if !c.eat(b',') && !c.is(b']') {
                return None;
            }
        }
    }
    if e.has(&n) {
        return if generic { None } else { Some(P::Ref(n)) };
    }
    Some(match (&n[..], args.len()) {
        (b"Any", 0) | (b"typing.Any", 0) => {
            e.use_name(&n);
            P::Unknown
        }
        (b"bool", 0) => P::Bool,
        (b"str", 0) => P::Str,
        (b"int", 0) => P::Int,
        (b"float", 0) => P::Float,
        (b"list", 1) => P::List(Box::new(args.pop()?)),
        (b"dict", 2) if args[0] == P::Str => P::Map(Box::new(args.pop()?)),
        (b"tuple", k) if k > 0 => P::Tuple(args),
        (b"Optional", 1) | (b"typing.Optional", 1) => {
            e.use_name(&n);
            let t = args.pop()?;
            P::Nullable(Box::new(t))
        }
        (_, 0) if opaque_name(&n) => P::Opaque(n),
        // a name must be defined before it is used
        _ => return None,
    })
}
pub fn python(out: &str, name: &str) -> R {
    let mut e = Env::default();
    let mut cur: Option<(Vec<u8>, Vec<Fd>, bool, Vec<Vec<u8>>)> = None;
    let bad = "malformed Python, or a name used before it is defined";
    for line in out.as_bytes().split(|b| *b == b'\n') {
        if line.is_empty() {
            continue;
        }
        let body = line[0] == b' ';
        if body {
            if line.len() < 5 || &line[..4] != b"    " || line[4] == b' ' {
                return Err("bad indentation");
            }
        } else if let Some((n, f, some, _)) = cur.take() {
            if !some {
                return Err("class without a body");
            }
            e.defs.push((n, Def::Struct(f)));
        }
        let mut c = Cur::new(line, Quote::Js).ok_or("malformed string literal or stray character")?;
        python_line(&mut c, &mut e, &mut cur, body).ok_or(bad)?;
        if !c.end() {
            return Err(bad);
        }
    }
    if let Some((n, f, some, _)) = cur.take() {
        if !some {
            return Err("class without a body");
        }
        e.defs.push((n, Def::Struct(f)));
    }
    for (n, _) in &e.defs {
        if !python_ident(n) {
            return Err("type name that is not a valid identifier");
        }
        if e.imports.iter().any(|i| last_part(i) == &n[..]) {
            return Err("a type has the name of an import");
        }
    }
    for (i, n) in e.imports.iter().enumerate() {
        if e.imports[..i].contains(n) {
            return Err("imported twice");
        }
    }
    if !e.has(name.as_bytes()) {
        return Err("the requested name is not defined");
    }
    e.check()?;
    Ok((e, P::Ref(name.as_bytes().to_vec())))
}
fn python_line(c: &mut Cur, e: &mut Env, cur: &mut Option<(Vec<u8>, Vec<Fd>, bool, Vec<Vec<u8>>)>, body: bool) -> Option<()> {
    if body {
        let (_, fs, some, hidden) = cur.as_mut()?;
        *some = true;
        if c.eat_id(b"pass") {
            return Some(());
        }
        let f = c.ident()?;
        c.need(b':')?;
        let from = c.i;
        let ty = python_ty(c, e)?;
        let to = c.i;
        let mut key = f.clone();
        if c.eat(b'=') {
            let n = dotted(c)?;
            if n != b"Field" && n != b"pydantic.Field" {
                return None;
            }
            e.use_name(&n);
            c.need(b'(')?;
            c.need_id(b"alias")?;
            c.need(b'=')?;
            // the value may be a name bound in the class, too
            if n.starts_with(b"pydantic.") && hidden.iter().any(|x| x == b"pydantic") {
                return None;
            }
            key = c.string()?;
            c.need(b')')?;
            hidden.push(f.clone());
        }
        // assigned to in the class, so that the annotation and those after it mean the field instead
        let mut i = from;
        while i < to {
            let after_dot = i > from && matches!(&c.t[i - 1], T::C(b'.'));
            if let T::Id(n) = &c.t[i] {
                if !after_dot && hidden.contains(n) {
                    return None;
                }
            }
            i += 1;
        }
        // pydantic takes names with a leading underscore as private
        if !python_ident(&f) || f[0] == b'_' || one_of(BASE_MODEL, &f) {
            return None;
        }
        fs.push(Fd { key, ident: f, optional: false, ty });
        return Some(());
    }
    if c.eat_id(b"from") {
        let m = c.ident()?;
        c.need_id(b"import")?;
        let n = c.ident()?;
        e.imports.push([&m[..], b".", &n].concat());
        return Some(());
    }
    if c.eat_id(b"import") {
        let m = c.ident()?;
        e.imports.push(m);
        return Some(());
    }
    if c.eat_id(b"class") {
        let n = c.ident()?;
        c.need(b'(')?;
        let b = dotted(c)?;
        if b != b"BaseModel" && b != b"pydantic.BaseModel" || e.has(&b) {
            return None;
        }
        e.use_name(&b);
        c.need(b')')?;
        c.need(b':')?;
        *cur = Some((n, vec![], false, vec![]));
        return Some(());
    }
    let n = c.ident()?;
    c.need(b'=')?;
    let t = python_ty(c, e)?;
    e.defs.push((n, Def::Alias(t)));
    Some(())
}
