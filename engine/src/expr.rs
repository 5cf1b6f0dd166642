//! Hash-consed bit-vector expressions over symbolic bytes.
use crate::ir::{mask128, sext128};
use std::collections::HashMap;
use std::rc::Rc;

pub type X = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u16),
    Bin(B, X, X),
    Cmp(P, X, X),
    Ite(X, X, X),
    Zext(X),
    Sext(X),
    Ext(X, u32),
    Cat(X, X),
    /// explicit function of one symbolic byte (a read from constant memory)
    Tab(u16, Rc<Vec<u64>>),
}

pub struct Nd {
    pub n: N,
    pub w: u32,
    pub sup: u32,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_not(a: &Dom) -> Dom {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn dom_empty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dom_has(a: &Dom, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_count(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(a: &Dom) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    panic!("empty domain")
}
/// representative value: prefers a lower-case letter, then printable ascii
pub fn dom_pick(a: &Dom) -> u8 {
    for v in b'a'..=b'z' {
        if dom_has(a, v) {
            return v;
        }
    }
    for v in 0x20..0x7f {
        if dom_has(a, v) {
            return v;
        }
    }
    dom_first(a)
}

pub struct Arena {
    pub nd: Vec<Nd>,
    map: HashMap<(N, u32), X>,
    pub sups: Vec<Rc<[u16]>>,
    supmap: HashMap<Rc<[u16]>, u32>,
    unionmemo: HashMap<(u32, u32), u32>,
    tabs: HashMap<X, Rc<Vec<u64>>>,
    bsets: HashMap<X, Dom>,
    stamp: Vec<(u32, u128)>,
    cur_stamp: u32,
}

impl Arena {
    pub fn new() -> Self {
        let e: Rc<[u16]> = Rc::from(vec![]);
        let mut supmap = HashMap::new();
        supmap.insert(e.clone(), 0);
        let mut a = Arena {
            nd: vec![],
            map: HashMap::new(),
            sups: vec![e],
            supmap,
            unionmemo: HashMap::new(),
            tabs: HashMap::new(),
            bsets: HashMap::new(),
            stamp: vec![],
            cur_stamp: 0,
        };
        a.cst(0, 1); // id 0 is reserved (means: concrete byte in memory overlays)
        a
    }
    fn intern_sup(&mut self, s: Vec<u16>) -> u32 {
        let s: Rc<[u16]> = Rc::from(s);
        if let Some(&i) = self.supmap.get(&s) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(s.clone());
        self.supmap.insert(s, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.unionmemo.get(&k) {
            return r;
        }
        let mut v: Vec<u16> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.intern_sup(v);
        self.unionmemo.insert(k, r);
        r
    }
    fn mk(&mut self, n: N, w: u32) -> X {
        debug_assert!(w <= 128);
        let key = (n, w);
        if let Some(&x) = self.map.get(&key) {
            return x;
        }
        let sup = match &key.0 {
            N::Const(_) => 0,
            N::Var(v) | N::Tab(v, _) => {
                let v = *v;
                self.intern_sup(vec![v])
            }
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => {
                let (a, b) = (self.nd[*a as usize].sup, self.nd[*b as usize].sup);
                self.union(a, b)
            }
            N::Ite(a, b, c) => {
                let (a, b, c) = (self.nd[*a as usize].sup, self.nd[*b as usize].sup, self.nd[*c as usize].sup);
                let u = self.union(a, b);
                self.union(u, c)
            }
            N::Zext(a) | N::Sext(a) | N::Ext(a, _) => self.nd[*a as usize].sup,
        };
        let x = self.nd.len() as X;
        self.nd.push(Nd { n: key.0.clone(), w, sup });
        self.map.insert(key, x);
        x
    }
    pub fn w(&self, x: X) -> u32 {
        self.nd[x as usize].w
    }
    pub fn n(&self, x: X) -> &N {
        &self.nd[x as usize].n
    }
    pub fn sup(&self, x: X) -> &Rc<[u16]> {
        &self.sups[self.nd[x as usize].sup as usize]
    }
    pub fn single(&self, x: X) -> Option<u16> {
        let s = self.sup(x);
        if s.len() == 1 {
            Some(s[0])
        } else {
            None
        }
    }
    pub fn as_const(&self, x: X) -> Option<u128> {
        match self.nd[x as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn cst(&mut self, c: u128, w: u32) -> X {
        self.mk(N::Const(mask128(c, w)), w)
    }
    pub fn var(&mut self, i: u16) -> X {
        self.mk(N::Var(i), 8)
    }
    pub fn tab(&mut self, v: u16, t: Vec<u64>, w: u32) -> X {
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0] as u128, w);
        }
        self.mk(N::Tab(v, Rc::new(t)), w)
    }
    pub fn not(&mut self, x: X) -> X {
        let w = self.w(x);
        let ones = self.cst(!0, w);
        self.bin(B::Xor, x, ones)
    }
    pub fn eval_bin(op: B, a: u128, b: u128, w: u32) -> u128 {
        let r = match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => {
                if b == 0 {
                    mask128(!0, w)
                } else {
                    a / b
                }
            }
            B::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            B::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        !0
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            B::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            B::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            B::AShr => {
                let s = sext128(a, w);
                let sh = if b >= w as u128 { w - 1 } else { b as u32 };
                (s >> sh) as u128
            }
        };
        mask128(r, w)
    }
    pub fn eval_cmp(p: P, a: u128, b: u128, w: u32) -> bool {
        match p {
            P::Eq => a == b,
            P::Ult => a < b,
            P::Ule => a <= b,
            P::Slt => sext128(a, w) < sext128(b, w),
            P::Sle => sext128(a, w) <= sext128(b, w),
        }
    }
    pub fn bin(&mut self, op: B, a: X, b: X) -> X {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(Self::eval_bin(op, x, y, w), w);
        }
        let ones = mask128(!0, w);
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin2(op, b, a, w, ones);
        }
        self.bin2(op, a, b, w, ones)
    }
    fn bin2(&mut self, op: B, a: X, b: X, w: u32, ones: u128) -> X {
        let cb = self.as_const(b);
        match op {
            B::Add | B::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if op == B::Sub {
                    if a == b {
                        return self.cst(0, w);
                    }
                    if let Some(c) = cb {
                        let nb = self.cst(mask128(0u128.wrapping_sub(c), w), w);
                        return self.bin(B::Add, a, nb);
                    }
                }
                if let (B::Add, Some(c)) = (op, cb) {
                    if let N::Bin(B::Add, x, k) = *self.n(a) {
                        if let Some(kc) = self.as_const(k) {
                            let nk = self.cst(kc.wrapping_add(c), w);
                            return self.bin(B::Add, x, nk);
                        }
                    }
                    if let N::Ite(cnd, x, y) = *self.n(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x2 = self.bin(op, x, b);
                            let y2 = self.bin(op, y, b);
                            return self.ite(cnd, x2, y2);
                        }
                    }
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            B::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(ones) || a == b {
                    return a;
                }
            }
            B::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(ones) {
                    return b;
                }
            }
            B::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    if let N::Bin(B::Xor, x, k) = *self.n(a) {
                        if let Some(kc) = self.as_const(k) {
                            let nk = self.cst(kc ^ c, w);
                            return self.bin(B::Xor, x, nk);
                        }
                    }
                    if w == 1 {
                        // negated comparisons
                        if let N::Cmp(p, x, y) = *self.n(a) {
                            match p {
                                P::Ult => return self.cmp(P::Ule, y, x),
                                P::Ule => return self.cmp(P::Ult, y, x),
                                P::Slt => return self.cmp(P::Sle, y, x),
                                P::Sle => return self.cmp(P::Slt, y, x),
                                P::Eq => {}
                            }
                        }
                    }
                }
            }
            B::Shl | B::LShr | B::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if c >= w as u128 && op != B::AShr {
                        return self.cst(0, w);
                    }
                    if op == B::LShr {
                        if let N::Cat(h, l) = *self.n(a) {
                            let lw = self.w(l);
                            if c >= lw as u128 {
                                let hw = self.w(h);
                                let k = self.cst(c - lw as u128, hw);
                                let s = self.bin(B::LShr, h, k);
                                return self.zext(s, w);
                            }
                        }
                        if let N::Zext(z) = *self.n(a) {
                            let zw = self.w(z);
                            if c >= zw as u128 {
                                return self.cst(0, w);
                            }
                            let k = self.cst(c, zw);
                            let s = self.bin(B::LShr, z, k);
                            return self.zext(s, w);
                        }
                    }
                }
            }
            B::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            _ => {}
        }
        if matches!(op, B::And | B::Or | B::Xor) {
            // distribute over concatenations so that word-at-a-time byte tests decompose
            if let N::Cat(h, l) = *self.n(a) {
                let lw = self.w(l);
                let parts = match *self.n(b) {
                    N::Const(c) => {
                        let hc = self.cst(c >> lw, w - lw);
                        let lc = self.cst(c, lw);
                        Some((hc, lc))
                    }
                    N::Cat(h2, l2) if self.w(l2) == lw => Some((h2, l2)),
                    _ => None,
                };
                if let Some((h2, l2)) = parts {
                    let nh = self.bin(op, h, h2);
                    let nl = self.bin(op, l, l2);
                    return self.cat(nh, nl);
                }
            }
            if let (N::Zext(z), Some(c)) = (self.n(a).clone(), cb) {
                let zw = self.w(z);
                if op == B::And || c >> zw == 0 {
                    let k = self.cst(c, zw);
                    let s = self.bin(op, z, k);
                    return self.zext(s, w);
                }
            }
            if let (N::Zext(z), N::Zext(y)) = (self.n(a).clone(), self.n(b).clone()) {
                if self.w(z) == self.w(y) {
                    let s = self.bin(op, z, y);
                    return self.zext(s, w);
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    pub fn and1(&mut self, a: X, b: X) -> X {
        self.bin(B::And, a, b)
    }
    pub fn cmp(&mut self, p: P, a: X, b: X) -> X {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = Self::eval_cmp(p, x, y, w);
            return self.cst(r as u128, 1);
        }
        if a == b {
            return self.cst(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1);
        }
        let ones = mask128(!0, w);
        match p {
            P::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.cmp(P::Eq, b, a);
                }
                if w == 1 {
                    if let Some(c) = cb {
                        return if c == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(c) = cb {
                    match *self.n(a) {
                        N::Zext(z) => {
                            let zw = self.w(z);
                            if c >> zw != 0 {
                                return self.cst(0, 1);
                            }
                            let k = self.cst(c, zw);
                            return self.cmp(P::Eq, z, k);
                        }
                        N::Sext(z) => {
                            let zw = self.w(z);
                            let lo = mask128(c, zw);
                            if mask128(sext128(lo, zw) as u128, w) != c {
                                return self.cst(0, 1);
                            }
                            let k = self.cst(lo, zw);
                            return self.cmp(P::Eq, z, k);
                        }
                        N::Cat(h, l) => {
                            let lw = self.w(l);
                            let hc = self.cst(c >> lw, w - lw);
                            let lc = self.cst(c, lw);
                            let e1 = self.cmp(P::Eq, h, hc);
                            let e2 = self.cmp(P::Eq, l, lc);
                            return self.and1(e1, e2);
                        }
                        N::Ite(cnd, x, y) => {
                            let ex = self.as_const(x).map(|v| v == c);
                            let ey = self.as_const(y).map(|v| v == c);
                            match (ex, ey) {
                                (Some(true), Some(true)) => return self.cst(1, 1),
                                (Some(false), Some(false)) => return self.cst(0, 1),
                                (Some(true), Some(false)) => return cnd,
                                (Some(false), Some(true)) => return self.not(cnd),
                                (Some(false), None) => {
                                    let e = self.cmp(P::Eq, y, b);
                                    let nc = self.not(cnd);
                                    return self.and1(nc, e);
                                }
                                (None, Some(false)) => {
                                    let e = self.cmp(P::Eq, x, b);
                                    return self.and1(cnd, e);
                                }
                                _ => {}
                            }
                        }
                        N::Bin(B::Add, x, k) => {
                            if let Some(kc) = self.as_const(k) {
                                let nk = self.cst(c.wrapping_sub(kc), w);
                                return self.cmp(P::Eq, x, nk);
                            }
                        }
                        N::Bin(B::Xor, x, k) => {
                            if let Some(kc) = self.as_const(k) {
                                let nk = self.cst(c ^ kc, w);
                                return self.cmp(P::Eq, x, nk);
                            }
                            if c == 0 {
                                return self.cmp(P::Eq, x, k);
                            }
                        }
                        N::Bin(B::Sub, x, y) if c == 0 => return self.cmp(P::Eq, x, y),
                        _ => {}
                    }
                } else if let (N::Cat(h, l), N::Cat(h2, l2)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(l) == self.w(l2) {
                        let e1 = self.cmp(P::Eq, h, h2);
                        let e2 = self.cmp(P::Eq, l, l2);
                        return self.and1(e1, e2);
                    }
                } else if let (N::Zext(x), N::Zext(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(P::Eq, x, y);
                    }
                }
            }
            P::Ult | P::Ule => {
                if p == P::Ult && cb == Some(0) {
                    return self.cst(0, 1);
                }
                if p == P::Ult && cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.cmp(P::Eq, a, z);
                }
                if p == P::Ule && ca == Some(0) || p == P::Ule && cb == Some(ones) {
                    return self.cst(1, 1);
                }
                if p == P::Ult && ca == Some(ones) {
                    return self.cst(0, 1);
                }
                if let (N::Zext(z), Some(c)) = (self.n(a).clone(), cb) {
                    let zw = self.w(z);
                    if c >> zw != 0 {
                        return self.cst(1, 1);
                    }
                    let k = self.cst(c, zw);
                    return self.cmp(p, z, k);
                }
                if let (Some(c), N::Zext(z)) = (ca, self.n(b).clone()) {
                    let zw = self.w(z);
                    if c >> zw != 0 {
                        return self.cst(0, 1);
                    }
                    let k = self.cst(c, zw);
                    return self.cmp(p, k, z);
                }
            }
            _ => {}
        }
        self.mk(N::Cmp(p, a, b), 1)
    }
    pub fn ite(&mut self, c: X, a: X, b: X) -> X {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: X, w: u32) -> X {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match *self.n(a) {
            N::Const(c) => self.cst(c, w),
            N::Zext(z) => self.zext(z, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x2 = self.zext(x, w);
                let y2 = self.zext(y, w);
                self.ite(c, x2, y2)
            }
            _ => self.mk(N::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: X, w: u32) -> X {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match *self.n(a) {
            N::Const(c) => self.cst(sext128(c, aw) as u128, w),
            N::Zext(z) => self.zext(z, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x2 = self.sext(x, w);
                let y2 = self.sext(y, w);
                self.ite(c, x2, y2)
            }
            _ => self.mk(N::Sext(a), w),
        }
    }
    pub fn ext(&mut self, a: X, lo: u32, w: u32) -> X {
        let aw = self.w(a);
        if lo == 0 && aw == w {
            return a;
        }
        debug_assert!(lo + w <= aw);
        match *self.n(a) {
            N::Const(c) => self.cst(c >> lo, w),
            N::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.ext(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.ext(l, lo, w)
                } else {
                    let p1 = self.ext(l, lo, lw - lo);
                    let p2 = self.ext(h, 0, w - (lw - lo));
                    self.cat(p2, p1)
                }
            }
            N::Zext(z) => {
                let zw = self.w(z);
                if lo >= zw {
                    self.cst(0, w)
                } else if lo + w <= zw {
                    self.ext(z, lo, w)
                } else {
                    let p = self.ext(z, lo, zw - lo);
                    self.zext(p, w)
                }
            }
            N::Ext(x, lo2) => self.ext(x, lo + lo2, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                self.ite(c, x2, y2)
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                self.bin(op, x2, y2)
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let x2 = self.ext(x, lo, w);
                let y2 = self.ext(y, lo, w);
                self.bin(op, x2, y2)
            }
            N::Sext(z) if lo + w <= self.w(z) => self.ext(z, lo, w),
            _ => self.mk(N::Ext(a, lo), w),
        }
    }
    pub fn cat(&mut self, h: X, l: X) -> X {
        let (hw, lw) = (self.w(h), self.w(l));
        match (self.n(h).clone(), self.n(l).clone()) {
            (N::Const(a), N::Const(b)) => return self.cst(a << lw | b, hw + lw),
            (N::Const(0), _) => return self.zext(l, hw + lw),
            (N::Ext(x, lo1), N::Ext(y, lo2)) if x == y && lo1 == lo2 + lw => return self.ext(x, lo2, hw + lw),
            _ => {}
        }
        // keep right-leaning: cat(h, cat(..)) with byte-size head
        self.mk(N::Cat(h, l), hw + lw)
    }

    /// values of a one-byte-variable expression for each value of the byte
    pub fn table(&mut self, x: X) -> Rc<Vec<u64>> {
        if let Some(t) = self.tabs.get(&x) {
            return t.clone();
        }
        if self.tabs.len() > 60_000 {
            self.tabs.clear();
        }
        let w = self.w(x);
        assert!(w <= 64);
        let n = self.n(x).clone();
        let mut r = vec![0u64; 256];
        match n {
            N::Const(c) => r.iter_mut().for_each(|v| *v = c as u64),
            N::Var(_) => (0..256).for_each(|i| r[i] = i as u64),
            N::Tab(_, t) => r.copy_from_slice(&t),
            N::Bin(op, a, b) => {
                let (ta, tb) = (self.table(a), self.table(b));
                for i in 0..256 {
                    r[i] = Self::eval_bin(op, ta[i] as u128, tb[i] as u128, w) as u64;
                }
            }
            N::Cmp(p, a, b) => {
                let aw = self.w(a);
                if aw > 64 {
                    for i in 0..256 {
                        r[i] = self.eval1(x, i as u8) as u64;
                    }
                } else {
                    let (ta, tb) = (self.table(a), self.table(b));
                    for i in 0..256 {
                        r[i] = Self::eval_cmp(p, ta[i] as u128, tb[i] as u128, aw) as u64;
                    }
                }
            }
            N::Ite(c, a, b) => {
                let (tc, ta, tb) = (self.table(c), self.table(a), self.table(b));
                for i in 0..256 {
                    r[i] = if tc[i] == 1 { ta[i] } else { tb[i] };
                }
            }
            N::Zext(a) => {
                let ta = self.table(a);
                r.copy_from_slice(&ta);
            }
            N::Sext(a) => {
                let ta = self.table(a);
                let aw = self.w(a);
                for i in 0..256 {
                    r[i] = mask128(sext128(ta[i] as u128, aw) as u128, w) as u64;
                }
            }
            N::Ext(a, lo) => {
                if self.w(a) > 64 {
                    for i in 0..256 {
                        r[i] = self.eval1(x, i as u8) as u64;
                    }
                } else {
                    let ta = self.table(a);
                    for i in 0..256 {
                        r[i] = mask128((ta[i] >> lo) as u128, w) as u64;
                    }
                }
            }
            N::Cat(h, l) => {
                let (th, tl) = (self.table(h), self.table(l));
                let lw = self.w(l);
                for i in 0..256 {
                    r[i] = th[i] << lw | tl[i];
                }
            }
        }
        let r = Rc::new(r);
        self.tabs.insert(x, r.clone());
        r
    }
    fn eval1(&mut self, x: X, v: u8) -> u128 {
        let var = self.single(x).unwrap();
        let mut asg = vec![0u8; var as usize + 1];
        asg[var as usize] = v;
        self.eval(x, &asg)
    }
    /// truth set of a boolean expression over one byte
    pub fn bset(&mut self, x: X) -> Dom {
        if let Some(d) = self.bsets.get(&x) {
            return *d;
        }
        let t = self.table(x);
        let mut d = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 == 1 {
                d[i >> 6] |= 1 << (i & 63);
            }
        }
        self.bsets.insert(x, d);
        d
    }
    pub fn eval(&mut self, x: X, asg: &[u8]) -> u128 {
        self.cur_stamp += 1;
        if self.stamp.len() < self.nd.len() {
            self.stamp.resize(self.nd.len() + 1024, (0, 0));
        }
        self.eval_r(x, asg)
    }
    fn eval_r(&mut self, x: X, asg: &[u8]) -> u128 {
        let st = self.stamp[x as usize];
        if st.0 == self.cur_stamp {
            return st.1;
        }
        let w = self.w(x);
        let n = self.n(x).clone();
        let r = match n {
            N::Const(c) => return c,
            N::Var(v) => return asg.get(v as usize).copied().unwrap_or(0) as u128,
            N::Tab(v, t) => t[asg.get(v as usize).copied().unwrap_or(0) as usize] as u128,
            N::Bin(op, a, b) => {
                let (p, q) = (self.eval_r(a, asg), self.eval_r(b, asg));
                Self::eval_bin(op, p, q, w)
            }
            N::Cmp(p, a, b) => {
                let (u, v) = (self.eval_r(a, asg), self.eval_r(b, asg));
                Self::eval_cmp(p, u, v, self.w(a)) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval_r(c, asg) == 1 {
                    self.eval_r(a, asg)
                } else {
                    self.eval_r(b, asg)
                }
            }
            N::Zext(a) => self.eval_r(a, asg),
            N::Sext(a) => {
                let v = self.eval_r(a, asg);
                mask128(sext128(v, self.w(a)) as u128, w)
            }
            N::Ext(a, lo) => mask128(self.eval_r(a, asg) >> lo, w),
            N::Cat(h, l) => {
                let (p, q) = (self.eval_r(h, asg), self.eval_r(l, asg));
                p << self.w(l) | q
            }
        };
        self.stamp[x as usize] = (self.cur_stamp, r);
        r
    }
    /// top-level conjuncts
    pub fn conjuncts(&self, x: X, out: &mut Vec<X>) {
        if self.w(x) == 1 {
            if let N::Bin(B::And, a, b) = *self.n(x) {
                self.conjuncts(a, out);
                self.conjuncts(b, out);
                return;
            }
            // not(or(a,b)) = not a and not b is left to the solver
        }
        if !out.contains(&x) {
            out.push(x);
        }
    }
}
