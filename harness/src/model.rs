//! Types as they can be read back from generated code, and what they mean for JSON values.
use crate::json::J;
use crate::refinf::{F as SF, S};
/// is `Date` a type of the environment of the generated code (SQL input)?
pub static DATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Unknown,
    Bool,
    Str,
    Int,
    Float,
    /// any number (languages and schemas with one number type)
    Num,
    List(Box<P>),
    Tuple(Vec<P>),
    Map(Box<P>),
    Ref(Vec<u8>),
    Nullable(Box<P>),
    /// `| undefined`, `.optional()`
    Undef(Box<P>),
    Obj(Vec<Fd>),
    Opaque(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fd {
    /// the name in JSON
    pub key: Vec<u8>,
    /// the name in the generated code
    pub ident: Vec<u8>,
    /// may be absent
    pub optional: bool,
    pub ty: P,
}
#[derive(Clone, Debug)]
pub enum Def {
    Struct(Vec<Fd>),
    Alias(P),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L {
    Rust,
    Ts,
    TsAlias,
    Schema,
    Zod,
    Kotlin,
    Python,
}
#[derive(Default)]
pub struct Env {
    /// in order of definition
    pub defs: Vec<(Vec<u8>, Def)>,
    pub imports: Vec<Vec<u8>>,
    /// facts that are no types: `pub struct X`, `X.a pub`, `derive A`, ...
    pub flags: Vec<Vec<u8>>,
    /// library names as written: `Value`, `serde_json::Value`
    pub used: Vec<Vec<u8>>,
}
impl Env {
    pub fn get(&self, n: &[u8]) -> Option<&Def> {
        self.defs.iter().find(|d| d.0 == n).map(|d| &d.1)
    }
    pub fn flag(&self, parts: &[&[u8]]) -> bool {
        let f = parts.concat();
        self.flags.iter().any(|x| *x == f)
    }
    pub fn use_name(&mut self, n: &[u8]) {
        if !self.used.iter().any(|x| x == n) {
            self.used.push(n.to_vec());
        }
    }
    pub fn has(&self, n: &[u8]) -> bool {
        self.defs.iter().any(|d| d.0 == n)
    }
    fn fields<'a>(&'a self, p: &'a P, n: usize) -> Option<&'a [Fd]> {
        if n > 20 {
            return None;
        }
        match p {
            P::Obj(f) => Some(f),
            P::Ref(r) => match self.get(r)? {
                Def::Struct(f) => Some(f),
                Def::Alias(p) => self.fields(p, n + 1),
            },
            _ => None,
        }
    }
    fn resolve<'a>(&'a self, p: &'a P) -> &'a P {
        let mut p = p;
        for _ in 0..20 {
            match p {
                P::Ref(r) => match self.get(r) {
                    Some(Def::Alias(q)) => p = q,
                    _ => return p,
                },
                _ => return p,
            }
        }
        p
    }
    /// every name is defined once and every used name is defined
    pub fn check(&self) -> Result<(), &'static str> {
        for (i, d) in self.defs.iter().enumerate() {
            if self.defs[..i].iter().any(|e| e.0 == d.0) {
                return Err("two types with the same name");
            }
            match &d.1 {
                Def::Struct(f) => self.check_fields(f)?,
                Def::Alias(p) => self.check_ty(p)?,
            }
        }
        Ok(())
    }
    fn check_fields(&self, f: &[Fd]) -> Result<(), &'static str> {
        for (i, x) in f.iter().enumerate() {
            if f[..i].iter().any(|y| y.ident == x.ident) {
                return Err("two fields with the same name");
            }
            if f[..i].iter().any(|y| y.key == x.key) {
                return Err("two fields for the same JSON property");
            }
            self.check_ty(&x.ty)?;
        }
        Ok(())
    }
    fn check_ty(&self, p: &P) -> Result<(), &'static str> {
        match p {
            P::List(e) | P::Map(e) | P::Nullable(e) | P::Undef(e) => self.check_ty(e),
            P::Tuple(v) => {
                for x in v {
                    self.check_ty(x)?;
                }
                Ok(())
            }
            P::Ref(r) => {
                if self.has(r) {
                    Ok(())
                } else {
                    Err("reference to a type that is not defined")
                }
            }
            P::Obj(f) => self.check_fields(f),
            _ => Ok(()),
        }
    }
    /// no struct contains itself without indirection
    pub fn finite(&self) -> Result<(), &'static str> {
        for d in &self.defs {
            let mut seen: Vec<&[u8]> = vec![];
            let cyclic = match &d.1 {
                Def::Struct(f) => f.iter().any(|x| self.reaches(&x.ty, &d.0, &mut seen)),
                Def::Alias(q) => self.reaches(q, &d.0, &mut seen),
            };
            if cyclic {
                return Err("a type of infinite size");
            }
        }
        Ok(())
    }
    fn reaches<'a>(&'a self, p: &'a P, n: &[u8], seen: &mut Vec<&'a [u8]>) -> bool {
        match p {
            P::Nullable(e) | P::Undef(e) => self.reaches(e, n, seen),
            P::Tuple(v) => v.iter().any(|x| self.reaches(x, n, seen)),
            P::Ref(r) => {
                if &r[..] == n {
                    return true;
                }
                if seen.contains(&&r[..]) {
                    return false;
                }
                seen.push(r);
                match self.get(r) {
                    Some(Def::Struct(f)) => f.iter().any(|x| self.reaches(&x.ty, n, seen)),
                    Some(Def::Alias(q)) => self.reaches(q, n, seen),
                    None => false,
                }
            }
            _ => false,
        }
    }
    /// is the JSON value an instance of the type?
    pub fn accepts(&self, p: &P, j: &J, l: L) -> bool {
        if let J::Opaque(t) = j {
            // a value of a type named by the user
            return match self.resolve(p) {
                P::Opaque(q) => q == t,
                P::Nullable(e) | P::Undef(e) => self.accepts(e, j, l),
                P::Unknown => true,
                _ => false,
            };
        }
        match p {
            P::Unknown => true,
            P::Bool => matches!(j, J::Bool(_)),
            P::Str => matches!(j, J::Str(_)),
            P::Int => matches!(j, J::Num(n) if crate::json::is_i64(n)),
            P::Float | P::Num => matches!(j, J::Num(_)),
            P::List(e) => matches!(j, J::Arr(a) if a.iter().all(|x| self.accepts(e, x, l))),
            P::Tuple(v) => matches!(j, J::Arr(a) if a.len() == v.len() && a.iter().zip(v).all(|(x, e)| self.accepts(e, x, l))),
            P::Map(e) => matches!(j, J::Obj(o) | J::Map(o) if crate::refinf::members(o).iter().all(|(_, x)| self.accepts(e, x, l))),
            P::Nullable(e) => *j == J::Null || self.accepts(e, j, l),
            P::Undef(e) => self.accepts(e, j, l),
            P::Ref(_) | P::Obj(_) => match self.fields(p, 0) {
                Some(f) => match j {
                    J::Obj(o) => {
                        o.iter().all(|(k, _)| f.iter().any(|x| x.key == *k))
                            && f.iter().all(|x| match j.get(&x.key) {
                                Some(v) => self.accepts(&x.ty, v, l),
                                None => x.optional || self.absent(&x.ty, l),
                            })
                    }
                    _ => false,
                },
                None => match self.resolve(p) {
                    P::Ref(_) => false,
                    q => self.accepts(q, j, l),
                },
            },
            P::Opaque(_) => true,
        }
    }
    /// may a property of this type be absent without further ado?
    fn absent(&self, p: &P, l: L) -> bool {
        match l {
            L::Rust => matches!(self.resolve(p), P::Nullable(_)),
            L::Kotlin | L::Python => matches!(self.resolve(p), P::Nullable(_) | P::Unknown),
            L::Zod => matches!(p, P::Unknown | P::Undef(_)),
            _ => false,
        }
    }
    /// how often the type is referred to
    fn refs(&self, n: &[u8]) -> usize {
        fn count(p: &P, n: &[u8]) -> usize {
            match p {
                P::List(e) | P::Map(e) | P::Nullable(e) | P::Undef(e) => count(e, n),
                P::Tuple(v) => v.iter().map(|x| count(x, n)).sum(),
                P::Ref(r) => (&r[..] == n) as usize,
                P::Obj(f) => f.iter().map(|x| count(&x.ty, n)).sum(),
                _ => 0,
            }
        }
        // the first definition is the requested type itself
        let root = matches!(self.defs.first(), Some(d) if &d.0[..] == n) as usize;
        root + self.defs
            .iter()
            .map(|d| match &d.1 {
                Def::Struct(f) => f.iter().map(|x| count(&x.ty, n)).sum(),
                Def::Alias(p) => count(p, n),
            })
            .sum::<usize>()
    }
    /// Rust with serde options: which properties may be absent, and how that is written
    pub fn conform_flags(&self, p: &P, s: &S, vec: bool, default: bool) -> Result<(), &'static str> {
        let r = match p {
            P::Ref(r) => self.refs(r) > 1,
            _ => false,
        };
        let q = self.resolve(p);
        match (s, q) {
            (S::Obj(fs), _) => {
                let f = match self.fields(q, 0) {
                    Some(f) => f,
                    None => return Err("object"),
                };
                if f.len() != fs.len() {
                    return Err("number of properties");
                }
                for x in fs {
                    let y = match f.iter().find(|y| y.key == x.key) {
                        Some(y) => y,
                        None => return Err("property missing"),
                    };
                    let mut i = &y.ty;
                    let mut nullable = false;
                    while let P::Nullable(k) = i {
                        i = k;
                        nullable = true;
                    }
                    let list = matches!(&x.s, S::Vec(_)) || matches!(&x.s, S::Tup(..)) && matches!(i, P::List(_));
                    let inner = match &x.s {
                        S::Nullable(k) => {
                            ok(nullable, "nullable property")?;
                            k
                        }
                        S::Null | S::Any | S::Bottom => {
                            ok(r || nullable == (x.optional && !default), "property without type")?;
                            &x.s
                        }
                        k => {
                            // the type that is collapsed is a list, not a tuple or a list written as one
                            let collapsed = x.optional && !vec && !default && matches!(k, S::Vec(_));
                            if x.optional && list && !matches!(k, S::Vec(_)) {
                                ok(nullable != default, "optional list of fixed length")?;
                            } else {
                                ok(nullable == (x.optional && !default && !collapsed), "optional property")?;
                            }
                            k
                        }
                    };
                    self.conform_flags(i, inner, vec, default)?;
                }
                Ok(())
            }
            (S::Nullable(i), P::Nullable(k)) => self.conform_flags(k, i, vec, default),
            (S::Vec(i), P::List(k)) => self.conform_flags(k, i, vec, default),
            (S::Tup(_, i), P::List(k)) => self.conform_flags(k, i, vec, default),
            (S::Tup(c, _), P::Tuple(v)) if c.len() == v.len() => {
                for (x, y) in c.iter().zip(v) {
                    self.conform_flags(y, x, vec, default)?;
                }
                Ok(())
            }
            (S::Any, P::Unknown) | (S::Null, P::Unknown) | (S::Bottom, P::Unknown) => Ok(()),
            (S::Bottom, _) | (S::Null, _) if r => Ok(()),
            (S::Int, P::Int) | (S::Str, P::Str) | (S::Float, P::Float) | (S::Bool, P::Bool) => Ok(()),
            (S::Null, _) | (S::Bottom, _) => Ok(()),
            _ => Err("type"),
        }
    }
    /// Err: how the generated type differs from what the inferred type calls for
    pub fn conform(&self, p: &P, s: &S, l: L) -> Result<(), &'static str> {
        self.conf(p, s, l, false)
    }
    /// shared: the type is used for several objects, so it may be more specific where this one has no information
    fn conf(&self, p: &P, s: &S, l: L, shared: bool) -> Result<(), &'static str> {
        let shared = shared
            || match p {
                P::Ref(r) => self.refs(r) > 1,
                _ => false,
            };
        let p = self.resolve(p);
        let one_number = matches!(l, L::Ts | L::TsAlias | L::Schema | L::Zod);
        match s {
            S::Bottom => ok(*p == P::Unknown || shared, "no value: expected an unconstrained type"),
            S::Any => ok(*p == P::Unknown, "no common type: expected an unconstrained type"),
            // only null seen: unconstrained, or a nullable type shared with another object
            S::Null => ok(*p == P::Unknown || shared && matches!(p, P::Nullable(_)), "only null: expected an unconstrained type"),
            S::Bool => ok(*p == P::Bool, "boolean"),
            S::Str => ok(*p == P::Str, "string"),
            S::Int => ok(*p == if one_number { P::Num } else { P::Int }, "integer"),
            S::Float => ok(*p == if one_number { P::Num } else { P::Float }, "floating point"),
            S::Opaque(t) => ok(matches!(p, P::Opaque(q) if q == t), "opaque type"),
            S::Vec(e) => match p {
                P::List(x) => self.conf(x, e, l, shared),
                _ => Err("list"),
            },
            S::Tup(cols, all) => {
                let tuple = **all == S::Any && cols.iter().any(|c| *c != S::Any) && !(l == L::Kotlin && cols.len() > 3);
                match p {
                    P::Tuple(v) if tuple => {
                        if v.len() != cols.len() {
                            return Err("tuple length");
                        }
                        for (x, c) in v.iter().zip(cols) {
                            self.conf(x, c, l, shared)?;
                        }
                        Ok(())
                    }
                    P::List(x) if !tuple => self.conf(x, all, l, shared),
                    _ => Err("tuple or list"),
                }
            }
            S::Map(e) => match p {
                P::Map(x) => self.conf(x, e, l, shared),
                _ => Err("map"),
            },
            S::Nullable(e) => match p {
                P::Nullable(x) => self.conf(x, e, l, shared),
                _ => Err("nullable"),
            },
            S::Obj(fs) => {
                if l == L::Kotlin && fs.is_empty() {
                    return ok(matches!(p, P::Map(_)), "object without properties");
                }
                let f = match self.fields(p, 0) {
                    Some(f) => f,
                    None => return Err("object"),
                };
                if f.len() != fs.len() {
                    return Err("number of properties");
                }
                for x in fs {
                    match f.iter().find(|y| y.key == x.key) {
                        Some(y) => self.conform_field(y, x, l, shared)?,
                        None => return Err("property missing"),
                    }
                }
                Ok(())
            }
        }
    }
    fn conform_field(&self, y: &Fd, x: &SF, l: L, shared: bool) -> Result<(), &'static str> {
        match l {
            L::Ts | L::TsAlias | L::Schema | L::Zod => {
                // absence is expressed separately from null
                if l == L::Zod && x.s == S::Null && y.ty == P::Unknown {
                    return Ok(());
                }
                ok(y.optional == x.optional || shared && y.optional && x.s == S::Null, "optional property")?;
                self.conf(&y.ty, &x.s, l, shared)
            }
            L::Rust | L::Kotlin | L::Python => {
                // absence and null are both expressed by a nullable type
                let opt = x.optional || matches!(x.s, S::Nullable(_));
                let (mut q, mut nullable) = (&y.ty, false);
                while let P::Nullable(i) = self.resolve(q) {
                    q = i;
                    nullable = true;
                }
                if let S::Null | S::Bottom = x.s {
                    // unconstrained, or a nullable type shared with another object
                    ok(!x.optional || nullable || y.optional || l == L::Kotlin, "optional property")?;
                    ok(x.optional || !nullable || shared, "required property")?;
                    return ok(*q == P::Unknown || shared && (nullable || x.s == S::Bottom), "only null: expected an unconstrained type");
                }
                if opt {
                    let default_list = l == L::Rust && y.optional && !nullable && !matches!(x.s, S::Nullable(_)) && matches!(self.resolve(q), P::List(_));
                    ok(nullable || default_list, "optional or nullable property")?;
                } else {
                    ok(!nullable && !(l == L::Rust && y.optional), "required property")?;
                }
                let inner = match &x.s {
                    S::Nullable(i) => i,
                    s => s,
                };
                self.conf(q, inner, l, shared)
            }
        }
    }
}
fn ok(b: bool, e: &'static str) -> Result<(), &'static str> {
    if b {
        Ok(())
    } else {
        Err(e)
    }
}
