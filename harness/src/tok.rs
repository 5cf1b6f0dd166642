//! A tokenizer for the generated languages.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(Vec<u8>),
    Str(Vec<u8>),
    C(u8),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Quote {
    Rust,
    /// JavaScript, Python and JSON agree on the escapes that matter here
    Js,
    Kotlin,
}
fn id_start(b: u8) -> bool {
    b >= b'a' && b <= b'z' || b >= b'A' && b <= b'Z' || b == b'_' || b == b'$'
}
pub fn is_digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
fn id_part(b: u8) -> bool {
    id_start(b) || is_digit(b)
}
/// an ASCII identifier
pub fn is_ident(s: &[u8], dollar: bool) -> bool {
    !s.is_empty() && id_start(s[0]) && s.iter().all(|b| id_part(*b)) && (dollar || s.iter().all(|b| *b != b'$'))
}
fn hexval(b: u8) -> Option<u32> {
    if is_digit(b) {
        Some((b - b'0') as u32)
    } else if b >= b'a' && b <= b'f' {
        Some((b - b'a') as u32 + 10)
    } else if b >= b'A' && b <= b'F' {
        Some((b - b'A') as u32 + 10)
    } else {
        None
    }
}
/// string literal at s[0] == '"': (decoded contents, length). None: not a literal of the language.
pub fn literal(s: &[u8], q: Quote) -> Option<(Vec<u8>, usize)> {
    let mut o = vec![];
    let mut i = 1;
    loop {
        let b = *s.get(i)?;
        i += 1;
        if b == b'"' {
            return Some((o, i));
        }
        if b == b'\r' || b == b'\n' && q != Quote::Rust {
            return None;
        }
        if b == b'$' && q == Quote::Kotlin {
            // a string template, if followed by a name or a brace
            let n = *s.get(i)?;
            if n == b'{' || id_start(n) || n >= 0x80 || n == b'`' {
                return None;
            }
        }
        if b != b'\\' {
            o.push(b);
            continue;
        }
        let e = *s.get(i)?;
        i += 1;
        match e {
            b'n' => o.push(10),
            b'r' => o.push(13),
            b't' => o.push(9),
            b'\\' | b'"' | b'\'' => o.push(e),
            b'b' if q != Quote::Rust => o.push(8),
            b'f' if q == Quote::Js => o.push(12),
            b'/' if q == Quote::Js => o.push(b'/'),
            b'0' if q == Quote::Rust => o.push(0),
            b'$' if q == Quote::Kotlin => o.push(b'$'),
            b'u' => {
                let mut v = 0u32;
                if q == Quote::Rust {
                    if *s.get(i)? != b'{' {
                        return None;
                    }
                    i += 1;
                    loop {
                        let h = *s.get(i)?;
                        i += 1;
                        if h == b'}' {
                            break;
                        }
                        v = v * 16 + hexval(h)?;
                    }
                } else {
                    for _ in 0..4 {
                        v = v * 16 + hexval(*s.get(i)?)?;
                        i += 1;
                    }
                }
                crate::json::utf8(v, &mut o);
            }
            _ => return None,
        }
    }
}
pub fn tokens(s: &[u8], q: Quote) -> Option<Vec<T>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        if b == b' ' || b == b'\n' {
            i += 1;
        } else if b == b'"' {
            let (x, n) = literal(&s[i..], q)?;
            v.push(T::Str(x));
            i += n;
        } else if id_part(b) {
            let st = i;
            while i < s.len() && id_part(s[i]) {
                i += 1;
            }
            v.push(T::Id(s[st..i].to_vec()));
        } else {
            if b < 0x20 || b >= 0x7f {
                return None;
            }
            v.push(T::C(b));
            i += 1;
        }
    }
    Some(v)
}
pub struct Cur {
    pub t: Vec<T>,
    pub i: usize,
}
impl Cur {
    pub fn new(s: &[u8], q: Quote) -> Option<Cur> {
        Some(Cur { t: tokens(s, q)?, i: 0 })
    }
    pub fn end(&self) -> bool {
        self.i == self.t.len()
    }
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    pub fn is(&self, c: u8) -> bool {
        matches!(self.peek(), Some(T::C(x)) if *x == c)
    }
    pub fn is_id(&self, n: &[u8]) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == n)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let r = self.is(c);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn eat_id(&mut self, n: &[u8]) -> bool {
        let r = self.is_id(n);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn need(&mut self, c: u8) -> Option<()> {
        if self.eat(c) {
            Some(())
        } else {
            None
        }
    }
    pub fn need_id(&mut self, n: &[u8]) -> Option<()> {
        if self.eat_id(n) {
            Some(())
        } else {
            None
        }
    }
    pub fn ident(&mut self) -> Option<Vec<u8>> {
        match self.peek() {
            Some(T::Id(x)) => {
                let x = x.clone();
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    pub fn string(&mut self) -> Option<Vec<u8>> {
        match self.peek() {
            Some(T::Str(x)) => {
                let x = x.clone();
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
}
