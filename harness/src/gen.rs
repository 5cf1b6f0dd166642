//! Documents from templates. `@A` is replaced by one member of set A (a symbolic choice);
//! `#d` by a symbolic digit, `#r` by any ASCII byte, `#w` by white space, `#k` by a symbolic name out of three, `#s` by a symbolic printable byte of a string (no quote, no backslash).
use crate::sym::*;
pub fn fill(t: &str, sets: &[&[&str]]) -> Vec<u8> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' {
            let s = sets[(b[i + 1] - b'A') as usize];
            let c = choice(s.len() as u32);
            // members may hold placeholders themselves
            let x = fill(s[c], sets);
            o.extend(x);
            i += 2;
        } else if b[i] == b'#' {
            match b[i + 1] {
                b'd' => o.push(any_of(b"123456789")),
                // one of a few property names
                b'k' => o.push(any_of(b"abx")),
                b'w' => o.push(any_of(b" \n\t\r")),
                b'n' => {
                    let x = byte();
                    assume(x < 0x80 && x != b'?');
                    o.push(x)
                }
                // any byte of ASCII; the document may turn out not to be JSON
                b'r' => {
                    let x = byte();
                    assume(x < 0x80);
                    o.push(x)
                }
                _ => o.push(any_of(b" !#$%&'()*+,-./0123456789:;<=>@ABCXYZ[]^_`abcxyz{|}~")),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub fn text(b: &[u8]) -> &str {
    // the documents generated here are ASCII
    unsafe { std::str::from_utf8_unchecked(b) }
}
