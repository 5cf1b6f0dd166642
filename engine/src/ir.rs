//! LLVM textual IR: tokenizer, types, module index, lazy lowering of function bodies.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Loc(&'a str),  // %x
    Glob(&'a str), // @x
    Num(&'a str),
    Word(&'a str),
    Str(&'a str), // "..."
    CStr(&'a str),
    P(char),
    Bang(&'a str), // !x
    Hash,
    Dots,
}

pub fn tokenize(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = &s[st + 1..j];
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1
                    }
                    name = &s[st..j];
                    i = j;
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && isid(b[j]) {
                    j += 1
                }
                out.push(Tok::Bang(&s[st..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1
                }
                out.push(Tok::Hash);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::CStr(&s[i + 2..j]));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (isid(b[j]) || (b[j] == b'+' && b[j - 1] == b'e' && s[i..j].contains('.'))) {
                    j += 1
                }
                out.push(Tok::Num(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1
                }
                out.push(Tok::Word(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(_, e) => e.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        // alloc size
        match self {
            Ty::Int(w) => {
                let by = ((*w as u64) + 7) / 8;
                rup(by, self.align())
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(n, e) => n * e.size(),
            Ty::Vec(n, e) => match **e {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * e.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        o = rup(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    rup(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = rup(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => e.size() * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
            _ => panic!("elem on {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
}
pub fn rup(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// A constant, still symbolic in global addresses
#[derive(Clone, Debug)]
pub enum CV {
    Int(u128),
    Glob(String, i64), // address of global + offset
    Agg(Vec<CV>),
    Zero,
    Undef,
    Bytes(Vec<u8>),
}

pub struct Cur<'a, 'b> {
    pub t: &'b [Tok<'a>],
    pub i: usize,
    pub named: &'b HashMap<String, Ty>,
}

impl<'a, 'b> Cur<'a, 'b> {
    pub fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> Tok<'a> {
        let r = self.t[self.i].clone();
        self.i += 1;
        r
    }
    pub fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.i, self.t);
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if *x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::Word(w) => w,
            t => panic!("expected word, got {:?} in {:?}", t, self.t),
        }
    }
    pub fn skip_parens(&mut self) {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    pub fn try_ty(&mut self) -> Option<Ty> {
        let r = match self.peek()? {
            Tok::Word(w) => match *w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                w if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => return None,
            },
            Tok::P('[') => {
                self.i += 1;
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.exp_p(']');
                return Some(Ty::Arr(n, Rc::new(e)));
            }
            Tok::P('<') => {
                self.i += 1;
                if self.is_p('{') {
                    let t = self.struct_body(true);
                    self.exp_p('>');
                    return Some(t);
                }
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.exp_p('>');
                return Some(Ty::Vec(n, Rc::new(e)));
            }
            Tok::P('{') => return Some(self.struct_body(false)),
            Tok::Loc(n) => match self.named.get(*n) {
                Some(t) => t.clone(),
                None => return None,
            },
            _ => return None,
        };
        self.i += 1;
        if r == Ty::Ptr && self.is_w("addrspace") {
            self.i += 1;
            self.skip_parens();
        }
        Some(r)
    }
    fn struct_body(&mut self, packed: bool) -> Ty {
        self.exp_p('{');
        let mut f = Vec::new();
        while !self.eat_p('}') {
            f.push(self.ty());
            self.eat_p(',');
        }
        Ty::Struct(Rc::new(f), packed)
    }
    pub fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => panic!("expected type at {} in {:?}", self.i, self.t),
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(n) => n.parse().unwrap_or_else(|_| panic!("bad num {}", n)),
            t => panic!("expected num, got {:?} in {:?}", t, self.t),
        }
    }
    /// constant of a type; None when it's a local
    pub fn cv(&mut self, ty: &Ty) -> CV {
        match self.next() {
            Tok::Num(n) => {
                if let Ty::Float(w) = ty {
                    return CV::Int(parse_float(n, *w));
                }
                let v: i128 = n.parse().unwrap_or_else(|_| n.parse::<u128>().unwrap() as i128);
                let w = if let Ty::Int(w) = ty { *w } else { panic!("num of type {:?}", ty) };
                CV::Int(mask128(v as u128, w))
            }
            Tok::Glob(g) => CV::Glob(g.to_string(), 0),
            Tok::CStr(s) => CV::Bytes(unescape(s)),
            Tok::Word(w) if w.starts_with("f0x") => CV::Int(u128::from_str_radix(&w[3..], 16).unwrap()),
            Tok::P('+') if self.is_w("inf") || self.is_w("qnan") => {
                let v = if self.word() == "inf" { f64::INFINITY } else { f64::NAN };
                CV::Int(if *ty == Ty::Float(32) { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
            }
            Tok::Num("-inf") => CV::Int(if *ty == Ty::Float(32) { f32::NEG_INFINITY.to_bits() as u128 } else { f64::NEG_INFINITY.to_bits() as u128 }),
            Tok::Word(w) => match w {
                "true" => CV::Int(1),
                "false" => CV::Int(0),
                "null" => CV::Int(0),
                "none" => CV::Undef,
                "zeroinitializer" => CV::Zero,
                "undef" | "poison" => CV::Undef,
                "splat" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.cv(&t);
                    self.exp_p(')');
                    CV::Agg(vec![c; ty.count()])
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Word(w)) if ["inbounds","nuw","nusw","inrange"].contains(w)) {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                            self.skip_parens();
                        }
                    }
                    self.exp_p('(');
                    let ety = self.ty();
                    self.exp_p(',');
                    let pt = self.ty();
                    let base = self.cv(&pt);
                    let mut off: i64 = 0;
                    let mut cur = ety;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty();
                        let w = if let Ty::Int(w) = it { w } else { panic!() };
                        let ix = match self.cv(&it) {
                            CV::Int(v) => sext128(v, w) as i64,
                            CV::Zero => 0,
                            _ => panic!("gep const idx"),
                        };
                        if first {
                            off += ix * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(ix as usize) as i64;
                            cur = cur.elem(ix as usize);
                        }
                    }
                    self.exp_p(')');
                    match base {
                        CV::Glob(g, o) => CV::Glob(g, o + off),
                        CV::Int(v) => CV::Int((v as i64 + off) as u64 as u128),
                        _ => panic!("gep base"),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.cv(&t);
                    assert!(self.eat_w("to"));
                    let _ = self.ty();
                    self.exp_p(')');
                    c
                }
                _ => panic!("const word {} in {:?}", w, self.t),
            },
            Tok::P('[') => {
                let mut v = Vec::new();
                while !self.eat_p(']') {
                    let t = self.ty();
                    v.push(self.cv(&t));
                    self.eat_p(',');
                }
                CV::Agg(v)
            }
            Tok::P('{') => {
                let mut v = Vec::new();
                while !self.eat_p('}') {
                    let t = self.ty();
                    v.push(self.cv(&t));
                    self.eat_p(',');
                }
                CV::Agg(v)
            }
            Tok::P('<') => {
                let mut v = Vec::new();
                if self.eat_p('{') {
                    while !self.eat_p('}') {
                        let t = self.ty();
                        v.push(self.cv(&t));
                        self.eat_p(',');
                    }
                    self.exp_p('>');
                } else {
                    while !self.eat_p('>') {
                        let t = self.ty();
                        v.push(self.cv(&t));
                        self.eat_p(',');
                    }
                }
                CV::Agg(v)
            }
            t => panic!("const {:?} in {:?}", t, self.t),
        }
    }
}

fn parse_float(n: &str, w: u32) -> u128 {
    if let Some(h) = n.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap_or(0);
        if w == 32 {
            return (f64::from_bits(bits) as f32).to_bits() as u128;
        }
        return bits as u128;
    }
    let f: f64 = n.parse().unwrap_or(0.0);
    if w == 32 {
        (f as f32).to_bits() as u128
    } else {
        f.to_bits() as u128
    }
}

pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<CV>,
    pub constant: bool,
}

pub struct FuncDef {
    pub name: String,
    pub header: &'static str,
    pub body: Option<&'static str>,
}

pub struct Module {
    pub globals: Vec<GlobalDef>,
    pub funcs: Vec<FuncDef>,
    pub named: HashMap<String, Ty>,
}

pub fn parse_module(text: &'static str) -> Module {
    let mut globals = Vec::new();
    let mut funcs: Vec<FuncDef> = Vec::new();
    let mut named: HashMap<String, Ty> = HashMap::new();
    // named types first
    for line in text.lines() {
        if line.starts_with('%') && line.contains(" = type ") {
            let t = tokenize(line);
            let name = match &t[0] {
                Tok::Loc(n) => n.to_string(),
                _ => continue,
            };
            if matches!(t[3], Tok::Word("opaque")) {
                continue;
            }
            let ty = {
                let mut c = Cur { t: &t, i: 3, named: &named };
                c.try_ty()
            };
            if let Some(ty) = ty {
                named.insert(name, ty);
            }
        }
    }
    let mut pos = 0;
    let bytes = text.as_bytes();
    while pos < text.len() {
        let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(text.len());
        let line = &text[pos..eol];
        match bytes.get(pos) {
            Some(b'@') => {
                let t = tokenize(line);
                let name = match &t[0] {
                    Tok::Glob(n) => n.to_string(),
                    _ => panic!(),
                };
                let mut c = Cur { t: &t, i: 2, named: &named };
                let mut constant = false;
                let mut external = false;
                let mut ok = true;
                loop {
                    match c.peek() {
                        Some(Tok::Word("constant")) => {
                            constant = true;
                            c.i += 1;
                            break;
                        }
                        Some(Tok::Word("global")) => {
                            c.i += 1;
                            break;
                        }
                        Some(Tok::Word("alias")) => {
                            panic!("alias not supported: {}", line);
                        }
                        Some(Tok::Word(w)) => {
                            if *w == "external" || *w == "extern_weak" {
                                external = true;
                            }
                            c.i += 1;
                            if c.is_p('(') {
                                c.skip_parens();
                            }
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let ty = c.ty();
                    let init = if external { None } else { Some(c.cv(&ty)) };
                    globals.push(GlobalDef { name, ty, init, constant });
                }
            }
            Some(b'd') if line.starts_with("declare ") => {
                funcs.push(FuncDef { name: fn_name(line), header: line, body: None });
            }
            Some(b'd') if line.starts_with("define ") => {
                let end = text[eol..].find("\n}\n").map(|x| eol + x + 1).unwrap_or(text.len());
                let body = &text[(eol + 1).min(end)..end];
                funcs.push(FuncDef { name: fn_name(line), header: line, body: Some(body) });
                pos = end + 2;
                continue;
            }
            _ => {}
        }
        pos = eol + 1;
    }
    Module { globals, funcs, named }
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}
