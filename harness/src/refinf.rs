//! What the inferred type of a set of values is, stated over the whole set at once
//! (the implementation folds pairs one by one).
use crate::json::{is_i64, J};
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    /// no value at all
    Bottom,
    Null,
    Any,
    Bool,
    Str,
    Int,
    Float,
    Vec(Box<S>),
    /// columns, and the type of all elements taken together
    Tup(Vec<S>, Box<S>),
    Map(Box<S>),
    Obj(Vec<F>),
    Nullable(Box<S>),
    Opaque(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct F {
    pub key: Vec<u8>,
    pub optional: bool,
    pub s: S,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    /// objects with more properties than this are maps
    pub map_above: Option<usize>,
    /// so are merged objects (the outputs that make the decision late)
    pub late: bool,
}
pub const PLAIN: Cfg = Cfg { map_above: None, late: false };
pub static UNSETTLED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Did a set of values mix a hinted type, null, and values that have no common type? Whether null
/// is then part of the type depends on their order; nothing is claimed about it.
pub fn unsettled() -> bool {
    UNSETTLED.load(std::sync::atomic::Ordering::Relaxed)
}
/// An object's members: for a repeated key the last value counts.
pub fn members(o: &[(Vec<u8>, J)]) -> Vec<(&[u8], &J)> {
    let mut r: Vec<(&[u8], &J)> = vec![];
    for (k, v) in o {
        match r.iter_mut().find(|x| x.0 == &k[..]) {
            Some(x) => x.1 = v,
            None => r.push((k, v)),
        }
    }
    r
}
pub fn infer(j: &J) -> S {
    union(&[j], PLAIN)
}
pub fn union(vs: &[&J], c: Cfg) -> S {
    if vs.is_empty() {
        return S::Bottom;
    }
    let nn: Vec<&J> = vs.iter().copied().filter(|v| **v != J::Null).collect();
    if nn.is_empty() {
        return S::Null;
    }
    let s = non_null(&nn, c);
    if nn.len() < vs.len() && matches!(s, S::Opaque(_)) {
        let rest: Vec<&J> = nn.iter().copied().filter(|v| !matches!(v, J::Opaque(_))).collect();
        if !rest.is_empty() && non_null(&rest, c) == S::Any {
            UNSETTLED.store(true, std::sync::atomic::Ordering::Relaxed);
        }
    }
    if nn.len() < vs.len() && s != S::Any {
        S::Nullable(Box::new(s))
    } else {
        s
    }
}
fn non_null(vs: &[&J], c: Cfg) -> S {
    for v in vs {
        if let J::Opaque(t) = v {
            return S::Opaque(t.clone());
        }
    }
    let all = |f: fn(&J) -> bool| vs.iter().all(|v| f(v));
    if all(|v| matches!(v, J::Bool(_))) {
        return S::Bool;
    }
    if all(|v| matches!(v, J::Str(_))) {
        return S::Str;
    }
    if all(|v| matches!(v, J::Num(_))) {
        return if all(|v| matches!(v, J::Num(n) if is_i64(n))) { S::Int } else { S::Float };
    }
    if all(|v| matches!(v, J::Arr(_))) {
        let arrs: Vec<&[J]> = vs.iter().map(|v| v.arr()).collect();
        let n = arrs[0].len();
        let elems: Vec<&J> = arrs.iter().flat_map(|a| a.iter()).collect();
        let e = union(&elems, c);
        if n >= 2 && n <= 12 && arrs.iter().all(|a| a.len() == n) {
            let cols = (0..n).map(|i| union(&arrs.iter().map(|a| &a[i]).collect::<Vec<_>>(), c)).collect();
            return S::Tup(cols, Box::new(e));
        }
        return S::Vec(Box::new(e));
    }
    if all(|v| matches!(v, J::Obj(_) | J::Map(_))) {
        let objs: Vec<Vec<(&[u8], &J)>> = vs.iter().map(|v| members(v.obj())).collect();
        let maps = vs.iter().zip(&objs).filter(|(v, o)| matches!(v, J::Map(_)) || c.map_above.map_or(false, |lim| o.len() > lim)).count();
        if maps == objs.len() {
            let vals: Vec<&J> = objs.iter().flat_map(|o| o.iter().map(|m| m.1)).collect();
            return S::Map(Box::new(union(&vals, c)));
        }
        if maps > 0 {
            return S::Any;
        }
        let mut keys: Vec<&[u8]> = vec![];
        for o in &objs {
            for (k, _) in o {
                if !keys.contains(k) {
                    keys.push(k);
                }
            }
        }
        if c.late && c.map_above.map_or(false, |lim| keys.len() > lim) {
            let vals: Vec<&J> = objs.iter().flat_map(|o| o.iter().map(|m| m.1)).collect();
            return S::Map(Box::new(union(&vals, c)));
        }
        let mut fs = vec![];
        for k in keys {
            let vals: Vec<&J> = objs.iter().filter_map(|o| o.iter().find(|m| m.0 == k).map(|m| m.1)).collect();
            let s = union(&vals, c);
            // a property of no single type is not marked optional (known finding any-missing)
            let optional = vals.len() < objs.len() && s != S::Any;
            fs.push(F { key: k.to_vec(), optional, s });
        }
        return S::Obj(fs);
    }
    S::Any
}
/// does this inferred type say anything about a property of no single type that some objects lack?
pub fn any_missing(vs: &[&J]) -> bool {
    any_missing_with(vs, PLAIN)
}
pub fn any_missing_with(vs: &[&J], c: Cfg) -> bool {
    let objs: Vec<&J> = vs.iter().copied().filter(|v| matches!(v, J::Obj(_) | J::Map(_))).collect();
    let mut keys: Vec<&[u8]> = vec![];
    for o in &objs {
        for (k, _) in o.obj() {
            if !keys.contains(&&k[..]) {
                keys.push(k);
            }
        }
    }
    for k in keys {
        let vals: Vec<&J> = objs.iter().filter_map(|o| o.get(k)).collect();
        if vals.len() < objs.len() && union(&vals, c) == S::Any {
            return true;
        }
        if any_missing_with(&vals, c) {
            return true;
        }
    }
    let elems: Vec<&J> = vs.iter().flat_map(|v| v.arr().iter()).collect();
    !elems.is_empty() && any_missing_with(&elems, c)
}
/// canonical text of a type as shape output shows it (properties sorted by name)
pub fn show(s: &S, o: &mut Vec<u8>) {
    match s {
        S::Bottom => o.extend(b"bottom"),
        S::Null => o.extend(b"null"),
        S::Any => o.extend(b"any"),
        S::Bool => o.extend(b"bool"),
        S::Str => o.extend(b"string"),
        S::Int => o.extend(b"integer"),
        S::Float => o.extend(b"floating"),
        S::Opaque(t) => {
            o.push(b'<');
            o.extend(t);
            o.push(b'>');
        }
        S::Vec(e) => {
            o.push(b'[');
            show(e, o);
            o.push(b']');
        }
        S::Tup(c, all) => {
            // a tuple whose elements have a common type is shown as a list of it
            if **all == S::Any && c.iter().any(|x| *x != S::Any) {
                o.push(b'(');
                for x in c {
                    show(x, o);
                    o.push(b',');
                }
                o.push(b')');
            } else {
                o.push(b'[');
                show(all, o);
                o.push(b']');
            }
        }
        S::Map(v) => {
            o.extend(b"map ");
            show(v, o);
        }
        S::Nullable(v) => {
            o.extend(b"nullable ");
            show(v, o);
        }
        S::Obj(f) => {
            let mut f: Vec<&F> = f.iter().collect();
            f.sort_by(|a, b| a.key.cmp(&b.key));
            o.push(b'{');
            for x in f {
                o.push(b'"');
                o.extend(&x.key);
                o.push(b'"');
                if x.optional {
                    o.push(b'?');
                }
                o.push(b':');
                show(&x.s, o);
                o.push(b',');
            }
            o.push(b'}');
        }
    }
}
/// the same text from shape output
pub fn show_output(j: &J, o: &mut Vec<u8>) {
    match j {
        J::Null => o.extend(b"null"),
        J::Str(s) => match &s[..] {
            b"any" | b"bottom" | b"bool" | b"string" | b"integer" | b"floating" => o.extend(s),
            _ => {
                o.push(b'<');
                o.extend(s);
                o.push(b'>');
            }
        },
        J::Arr(a) if a.len() == 1 => {
            o.push(b'[');
            show_output(&a[0], o);
            o.push(b']');
        }
        J::Obj(f) => {
            if let Some(t) = j.get(b"__type__") {
                match t.s() {
                    b"nullable" => {
                        o.extend(b"nullable ");
                        show_output(j.get(b"item").unwrap_or(&J::Null), o);
                    }
                    b"map" => {
                        o.extend(b"map ");
                        show_output(j.get(b"values").unwrap_or(&J::Null), o);
                    }
                    b"tuple" => {
                        o.push(b'(');
                        for x in j.get(b"items").unwrap_or(&J::Null).arr() {
                            show_output(x, o);
                            o.push(b',');
                        }
                        o.push(b')');
                    }
                    b"optional" => {
                        o.extend(b"optional ");
                        show_output(j.get(b"item").unwrap_or(&J::Null), o);
                    }
                    _ => o.extend(b"?type?"),
                }
                return;
            }
            let mut v: Vec<(&[u8], bool, &J)> = f
                .iter()
                .map(|(k, x)| if k.last() == Some(&b'?') { (&k[..k.len() - 1], true, x) } else { (&k[..], false, x) })
                .collect();
            v.sort_by(|a, b| a.0.cmp(b.0));
            o.push(b'{');
            for (k, q, x) in v {
                o.push(b'"');
                o.extend(k);
                o.push(b'"');
                if q {
                    o.push(b'?');
                }
                o.push(b':');
                show_output(x, o);
                o.push(b',');
            }
            o.push(b'}');
        }
        _ => o.extend(b"?"),
    }
}
