//! Object memory: every object lives in its own 4 GiB region (address = id << 32 | offset).
use std::rc::Rc;

pub const PAGE: usize = 4096;

#[derive(Clone)]
pub struct Bytes {
    pub b: Box<[u8]>,
    pub s: Option<Box<[u32]>>, // symbolic byte overlay: expression id, 0 = concrete
}
impl Bytes {
    pub fn new(n: usize) -> Self {
        Bytes { b: vec![0; n].into_boxed_slice(), s: None }
    }
    fn sym(&mut self) -> &mut Box<[u32]> {
        let n = self.b.len();
        self.s.get_or_insert_with(|| vec![0; n].into_boxed_slice())
    }
}

#[derive(Clone)]
pub enum Obj {
    Small(Bytes),
    Big(usize, Vec<Option<Rc<Bytes>>>),
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        if n <= PAGE {
            Obj::Small(Bytes::new(n))
        } else {
            Obj::Big(n, vec![None; (n + PAGE - 1) / PAGE])
        }
    }
    pub fn from(b: &[u8]) -> Obj {
        let mut o = Obj::new(b.len());
        match &mut o {
            Obj::Small(x) => x.b.copy_from_slice(b),
            Obj::Big(..) => {
                for (i, v) in b.iter().enumerate() {
                    o.set(i, *v, 0);
                }
            }
        }
        o
    }
    pub fn len(&self) -> usize {
        match self {
            Obj::Small(b) => b.b.len(),
            Obj::Big(n, _) => *n,
        }
    }
    #[inline]
    pub fn get(&self, i: usize) -> (u8, u32) {
        match self {
            Obj::Small(b) => (b.b[i], b.s.as_ref().map(|s| s[i]).unwrap_or(0)),
            Obj::Big(_, p) => match &p[i / PAGE] {
                None => (0, 0),
                Some(b) => (b.b[i % PAGE], b.s.as_ref().map(|s| s[i % PAGE]).unwrap_or(0)),
            },
        }
    }
    #[inline]
    pub fn set(&mut self, i: usize, v: u8, e: u32) {
        let (b, i) = match self {
            Obj::Small(b) => (b, i),
            Obj::Big(n, p) => {
                let n = *n;
                let k = i / PAGE;
                let pg = p[k].get_or_insert_with(|| Rc::new(Bytes::new(PAGE.min(n - k * PAGE))));
                (Rc::make_mut(pg), i % PAGE)
            }
        };
        b.b[i] = v;
        if e != 0 {
            b.sym()[i] = e;
        } else if let Some(s) = &mut b.s {
            s[i] = 0;
        }
    }
    /// concrete little-endian read, None when some byte is symbolic
    #[inline]
    pub fn rd(&self, off: usize, n: usize) -> Option<u64> {
        if let Obj::Small(b) = self {
            if b.s.is_none() {
                let mut t = [0u8; 8];
                t[..n].copy_from_slice(&b.b[off..off + n]);
                return Some(u64::from_le_bytes(t));
            }
        }
        let mut r = 0u64;
        for k in 0..n {
            let (v, e) = self.get(off + k);
            if e != 0 {
                return None;
            }
            r |= (v as u64) << (8 * k);
        }
        Some(r)
    }
    #[inline]
    pub fn wr(&mut self, off: usize, n: usize, v: u64) {
        if let Obj::Small(b) = self {
            b.b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut b.s {
                s[off..off + n].iter_mut().for_each(|x| *x = 0);
            }
            return;
        }
        for k in 0..n {
            self.set(off + k, (v >> (8 * k)) as u8, 0);
        }
    }
}
