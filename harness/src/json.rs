//! RFC 8259, written from the RFC: the oracle for what a sample is.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
    /// values under a hint: of a type named by the user, an object to be taken as a map
    Opaque(Vec<u8>),
    Map(Vec<(Vec<u8>, J)>),
}
pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}
fn ws(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n' || b == b'\r'
}
/// None: not a JSON text. Unpaired surrogate escapes are grammatical but denote no string; they count as not JSON here.
pub fn parse(s: &[u8]) -> Option<J> {
    let mut p = P { s, i: 0, depth: 0 };
    p.skip();
    let v = p.value()?;
    p.skip();
    if p.i == s.len() {
        Some(v)
    } else {
        None
    }
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn skip(&mut self) {
        while self.i < self.s.len() && ws(self.s[self.i]) {
            self.i += 1;
        }
    }
    fn lit(&mut self, l: &[u8]) -> Option<()> {
        for b in l {
            if self.peek()? != *b {
                return None;
            }
            self.i += 1;
        }
        Some(())
    }
    fn value(&mut self) -> Option<J> {
        self.depth += 1;
        assert!(self.depth < 100);
        let r = match self.peek()? {
            b'n' => {
                self.lit(b"null")?;
                J::Null
            }
            b't' => {
                self.lit(b"true")?;
                J::Bool(true)
            }
            b'f' => {
                self.lit(b"false")?;
                J::Bool(false)
            }
            b'"' => J::Str(self.string()?),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.skip();
                if self.peek()? == b']' {
                    self.i += 1;
                } else {
                    loop {
                        self.skip();
                        v.push(self.value()?);
                        self.skip();
                        let c = self.peek()?;
                        self.i += 1;
                        if c == b']' {
                            break;
                        }
                        if c != b',' {
                            return None;
                        }
                    }
                }
                J::Arr(v)
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.skip();
                if self.peek()? == b'}' {
                    self.i += 1;
                } else {
                    loop {
                        self.skip();
                        if self.peek()? != b'"' {
                            return None;
                        }
                        let k = self.string()?;
                        self.skip();
                        if self.peek()? != b':' {
                            return None;
                        }
                        self.i += 1;
                        self.skip();
                        let x = self.value()?;
                        v.push((k, x));
                        self.skip();
                        let c = self.peek()?;
                        self.i += 1;
                        if c == b'}' {
                            break;
                        }
                        if c != b',' {
                            return None;
                        }
                    }
                }
                J::Obj(v)
            }
            _ => self.number()?,
        };
        self.depth -= 1;
        Some(r)
    }
    fn digits(&mut self) -> Option<()> {
        let i = self.i;
        while let Some(b) = self.peek() {
            if b < b'0' || b > b'9' {
                break;
            }
            self.i += 1;
        }
        if self.i > i {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<J> {
        let st = self.i;
        if self.peek()? == b'-' {
            self.i += 1;
        }
        if self.peek()? == b'0' {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if let Some(c) = self.peek() {
            if c == b'e' || c == b'E' {
                self.i += 1;
                let c = self.peek()?;
                if c == b'+' || c == b'-' {
                    self.i += 1;
                }
                self.digits()?;
            }
        }
        Some(J::Num(self.s[st..self.i].to_vec()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0u32;
        for _ in 0..4 {
            let b = self.peek()?;
            let d = if b >= b'0' && b <= b'9' {
                b - b'0'
            } else if b >= b'a' && b <= b'f' {
                b - b'a' + 10
            } else if b >= b'A' && b <= b'F' {
                b - b'A' + 10
            } else {
                return None;
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        Some(v)
    }
    /// decoded to UTF-8
    fn string(&mut self) -> Option<Vec<u8>> {
        self.i += 1;
        let mut o = vec![];
        loop {
            let b = self.peek()?;
            self.i += 1;
            if b == b'"' {
                break;
            }
            if b < 0x20 {
                return None;
            }
            if b != b'\\' {
                o.push(b);
                continue;
            }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'"' | b'\\' | b'/' => o.push(e),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let mut c = self.hex4()?;
                    if c >= 0xdc00 && c <= 0xdfff {
                        return None;
                    }
                    if c >= 0xd800 && c <= 0xdbff {
                        self.lit(b"\\u")?;
                        let d = self.hex4()?;
                        if d < 0xdc00 || d > 0xdfff {
                            return None;
                        }
                        c = 0x10000 + (c - 0xd800) * 0x400 + (d - 0xdc00);
                    }
                    utf8(c, &mut o);
                }
                _ => return None,
            }
        }
        if std::str::from_utf8(&o).is_err() {
            return None;
        }
        Some(o)
    }
}
pub fn utf8(c: u32, o: &mut Vec<u8>) {
    if c < 0x80 {
        o.push(c as u8);
    } else if c < 0x800 {
        o.push((0xc0 | c >> 6) as u8);
        o.push((0x80 | c & 0x3f) as u8);
    } else if c < 0x10000 {
        o.push((0xe0 | c >> 12) as u8);
        o.push((0x80 | c >> 6 & 0x3f) as u8);
        o.push((0x80 | c & 0x3f) as u8);
    } else {
        o.push((0xf0 | c >> 18) as u8);
        o.push((0x80 | c >> 12 & 0x3f) as u8);
        o.push((0x80 | c >> 6 & 0x3f) as u8);
        o.push((0x80 | c & 0x3f) as u8);
    }
}
/// the value of a whole number that fits 64 bits, written without fraction or exponent
pub fn is_i64(s: &[u8]) -> bool {
    let (neg, d) = if s[0] == b'-' { (true, &s[1..]) } else { (false, s) };
    if d.iter().any(|b| !(*b >= b'0' && *b <= b'9')) {
        return false;
    }
    let max: &[u8] = if neg { b"9223372036854775808" } else { b"9223372036854775807" };
    d.len() < 19 || d.len() == 19 && d <= max
}
impl J {
    pub fn get(&self, k: &[u8]) -> Option<&J> {
        match self {
            J::Obj(v) | J::Map(v) => v.iter().rev().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn s(&self) -> &[u8] {
        match self {
            J::Str(s) => s,
            _ => b"",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(s) => s,
            _ => &[],
        }
    }
    pub fn obj(&self) -> &[(Vec<u8>, J)] {
        match self {
            J::Obj(s) | J::Map(s) => s,
            _ => &[],
        }
    }
}
