//! Documents that are large in one respect: limits, buffers and samplings show here, not in small documents.
use crate::sym::*;
const SIZES: &[usize] = &[5, 6, 7, 8, 9, 10, 11, 16, 17, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 257];
fn join(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut o = String::new();
    for i in 0..n {
        if i > 0 {
            o.push(',');
        }
        o += &f(i);
    }
    o
}
fn size(max: usize) -> usize {
    let n = SIZES.iter().filter(|s| **s <= max).count();
    SIZES[choice(n as u32)]
}
fn place(n: usize) -> usize {
    [0, 1, n / 2, n - 2, n - 1][choice(5)]
}
pub const KINDS: u64 = 8;
/// `lim`: how large at most
pub fn doc(kind: u64, lim: usize) -> String {
    match kind {
        // one odd element
        0 => {
            let n = size(lim);
            let p = place(n);
            let (a, b) = [("1", "1.5"), ("1", "null"), ("1", "\"s\""), ("{\"p\":1}", "{\"p\":null}"), ("{\"p\":1}", "{}"), ("[1]", "[null]")][choice(6)];
            format!("[{}]", join(n, |i| if i == p { b } else { a }.to_string()))
        }
        // many properties, twice; one differs or is missing
        1 => {
            let n = size(lim.min(129));
            let p = [0, n / 2, n - 1][choice(3)];
            let (a, b) = [("1", ""), ("1", "null"), ("\"s\"", "1")][choice(3)];
            let first = join(n, |i| format!("\"p{}\":{}", i, a));
            let mut second = String::new();
            for i in 0..n {
                if i == p && b.is_empty() {
                    continue;
                }
                if !second.is_empty() {
                    second.push(',');
                }
                second += &format!("\"p{}\":{}", i, if i == p { b } else { a });
            }
            format!("{{\"x\":[{{{}}},{{{}}}]}}", first, second)
        }
        // deep
        2 => {
            let n = [3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20][choice(if lim < 40 { 8 } else { 11 })];
            let (open, close) = [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("{\"a\":[", ",1]}"), ("{\"b\":1,\"a\":", "}")][choice(5)];
            let core = ["1", "null", "[]", "{}", "[1,\"s\"]"][choice(5)];
            let n = if open.len() == 1 { n } else { n.min(10) };
            let d = format!("{}{}{}", open.repeat(n), core, close.repeat(n));
            if d.starts_with('[') || d.starts_with('{') { d } else { format!("[{}]", d) }
        }
        // long texts
        3 => {
            let n = [15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257][choice(if lim < 40 { 11 } else { 18 })];
            match choice(4) {
                0 => format!("[{{\"{}\":1}},{{}}]", "n".repeat(n)),
                1 => format!("[\"{}\",null]", "s".repeat(n)),
                2 => format!("[1{},1]", "0".repeat(n.min(300))),
                _ => format!("[0.{}1]", "0".repeat(n)),
            }
        }
        // many objects in a list, one with another shape
        4 => {
            let n = size(lim.min(65));
            let p = place(n);
            let b = ["{}", "{\"a\":null,\"b\":\"s\"}", "{\"a\":1,\"b\":\"s\",\"c\":[]}", "{\"a\":1.5,\"b\":\"s\"}", "null"][choice(5)];
            format!("{{\"l\":[{}]}}", join(n, |i| if i == p { b.to_string() } else { format!("{{\"a\":{},\"b\":\"s\"}}", i) }))
        }
        // many different object types, some of them the same
        5 => {
            let n = [3, 4, 5, 8, 12, 20][choice(if lim < 40 { 5 } else { 6 })];
            let m = [2, 3, 5, 50][choice(4)];
            format!("{{{}}}", join(n, |i| format!("\"t{}\":{{\"k{}\":{}}}", i, i % m, if i % 2 == 0 { "1" } else { "\"s\"" })))
        }
        // tuples of any length
        6 => {
            let n = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20][choice(15)];
            let p = place(n);
            let b = ["\"s\"", "null", "{}", "[]"][choice(4)];
            let q = choice(2);
            let one = format!("[{}]", join(n, |i| if i == p { b.to_string() } else { "1".into() }));
            let two = format!("[{}]", join(n, |i| if i == 0 { "null".into() } else { "true".to_string() }));
            if q == 0 { format!("{{\"t\":{}}}", one) } else { format!("{{\"t\":[{},{}]}}", one, two) }
        }
        // the same name again and again, at one level or inside one another
        _ => {
            let n = [2, 3, 4, 6, 9, 11, 13][choice(if lim < 40 { 6 } else { 7 })];
            match choice(3) {
                // different types of the same name
                0 => format!("{{{}}}", join(n, |i| format!("\"k{}\":{{\"v\":{{\"w{}\":1}}}}", i, i))),
                1 => {
                    let mut d = "1".to_string();
                    for i in 0..n {
                        d = format!("{{\"v\":{},\"e{}\":1}}", d, i);
                    }
                    d
                }
                // names that become the same
                _ => format!("{{{}}}", join(n, |i| format!("\"{}\":{{\"u{}\":1}}", ["a b", "a-b", "a_b", "aB", "a.b", "A b", "A_B", "a  b", "AB", "a+b", "a:b", "a/b", "ab"][i % 13], i))),
            }
        }
    }
}
