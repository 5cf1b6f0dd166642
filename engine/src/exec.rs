//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::lower::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: i32,
    pub rw: u32,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<X>,
    pub dom: Vec<Dom>,
    pub ent: Vec<bool>, // variable occurs in a multi-variable constraint
    pub wit: Vec<u8>,
    pub concr: Vec<(X, u128)>,
    pub log: Vec<u64>,
    pub replay: Rc<Vec<u64>>,
    pub rpos: usize,
    pub mark: usize,
    pub mark_step: u64,
    pub steps: u64,
    pub obs: Vec<u32>, // < 256 concrete byte, else 256 + expression id
    pub seen: Vec<String>,
    pub forks: u64,
    pub files: Vec<VFile>,
    pub outs: [VOut; 2],
}

/// what was written to standard output (0) and to the output file (1)
#[derive(Clone, Default)]
pub struct VOut {
    pub touched: bool,
    pub data: Rc<Vec<u32>>,
    pub faults: u8,
    pub failed: bool,
}

#[derive(Clone)]
pub struct VFile {
    pub data: Rc<Vec<u32>>, // like obs
    pub failed: bool,
    pub faults: u8,
    pub pos: usize,
    pub size: u64,
}

pub enum Stop {
    Done,
    Infeasible,
    Panic(String),
    Engine(String),
    Limit(String),
}
type R<T> = Result<T, Stop>;

pub fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Engine(s.into()))
}

pub struct Violation {
    pub code: String,
    pub model: Vec<u8>,
    pub trace: Vec<String>,
}

pub struct Engine {
    pub m: &'static Module,
    pub syms: &'static Syms,
    pub funcs: Vec<Option<&'static Func>>,
    pub ext: Vec<Ext>,
    pub cobj: Vec<Option<Rc<Obj>>>, // constant globals by id
    pub nfun_base: u32,
    pub heap_base: u32,
    pub init_heap: Vec<Option<Rc<Obj>>>,
    pub a: Arena,
    pub smt: Smt,
    pub qcache: HashMap<Vec<u64>, Option<Rc<Vec<(u16, u8)>>>>,
    pub validated: HashMap<X, ()>,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub findings: Vec<(String, Vec<u8>)>,
    pub notes: HashMap<String, u64>,
    pub executed: Vec<bool>,
    pub max_steps: u64,
    pub st_instrs: u64,
    pub st_forks: u64,
    pub st_asserts: u64,
    pub st_asserts_smt: u64,
    pub st_qhits: u64,
    pub st_bset: u64,
    pub fork_sites: HashMap<(usize, usize), u64>,
    pub trace_calls: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NoShim,
    Memcmp,
    Bcmp,
    Strlen,
    Panic,
    SipWrite,
    SymU8,
    SymChoice,
    SymIn,
    SymAssume,
    SymAssert,
    SymObserve,
    SymFinding,
    SymNote,
    SymReach,
    SymEqAssert,
    Getenv,
    Syscall,
    Errno,
    Getrandom,
    Write,
    Ret0,
    RetM1,
    Abort,
    SymFile,
    SymFailed,
    Open,
    Read,
    Close,
    Fstat,
    Stat,
    Lseek,
    Readv,
    Writev,
    SymSize,
    SymConcrete,
    SymDone,
    SymRestart,
    SymOut,
    Strerror,
    KeyCreate,
    Malloc,
    Calloc,
    CRealloc,
    Memalign,
    Free,
}

pub fn ext_of(n: &str) -> Ext {
    if n.starts_with("_RN") {
        // the allocator shims, whatever the crate hash
        for (s, e) in [
            ("___rust_alloc_zeroed", Ext::AllocZ),
            ("___rust_dealloc", Ext::Dealloc),
            ("___rust_realloc", Ext::Realloc),
            ("___rust_alloc", Ext::Alloc),
            ("___rust_no_alloc_shim_is_unstable_v2", Ext::NoShim),
            ("___rust_no_alloc_shim_is_unstable", Ext::NoShim),
        ] {
            if n.ends_with(s) {
                return e;
            }
        }
        if n.contains("4core4hash3sip") && n.contains("5write") {
            return Ext::SipWrite;
        }
        if n.contains("9panicking") || n.contains("12handle_error") || n.contains("18handle_alloc_error") || n.contains("17rust_begin_unwind") || n.contains("unwind_failed") || n.contains("resume_unwind") {
            return Ext::Panic;
        }
        return Ext::None;
    }
    match n {
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "rust_begin_unwind" => Ext::Panic,
        "sym_u8" => Ext::SymU8,
        "sym_choice" => Ext::SymChoice,
        "sym_in" => Ext::SymIn,
        "sym_assume" => Ext::SymAssume,
        "sym_assert" => Ext::SymAssert,
        "sym_observe" => Ext::SymObserve,
        "sym_finding" => Ext::SymFinding,
        "sym_note" => Ext::SymNote,
        "sym_reach" => Ext::SymReach,
        "sym_assert_eq" => Ext::SymEqAssert,
        "sym_concrete" => Ext::SymConcrete,
        "sym_file" => Ext::SymFile,
        "sym_failed" => Ext::SymFailed,
        "sym_done" => Ext::SymDone,
        "sym_restart" => Ext::SymRestart,
        "sym_out" => Ext::SymOut,
        "__xpg_strerror_r" => Ext::Strerror,
        "getenv" => Ext::Getenv,
        "syscall" => Ext::Syscall,
        "__errno_location" => Ext::Errno,
        "getrandom" => Ext::Getrandom,
        "write" => Ext::Write,
        "abort" => Ext::Abort,
        "open64" => Ext::Open,
        "read" => Ext::Read,
        "close" => Ext::Close,
        "fstat64" => Ext::Fstat,
        "stat64" | "lstat64" => Ext::Stat,
        "lseek64" => Ext::Lseek,
        "readv" => Ext::Readv,
        "writev" => Ext::Writev,
        "sym_size" => Ext::SymSize,
        "pthread_key_create" => Ext::KeyCreate,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::CRealloc,
        "posix_memalign" => Ext::Memalign,
        "free" => Ext::Free,
        "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" => Ext::Ret0,
        "statx" => Ext::RetM1,
        _ => Ext::None,
    }
}

/// reads of a longer file are cut short in a few ways only
const LONG: usize = 200;
const HUGE: usize = 40000;
fn reads(max: usize, long: bool) -> usize {
    match max {
        0 => 3,
        _ if long => 7,
        _ => max + 2,
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn float(op: &str, from: u32, to: u32, x: u64, y: u64) -> Option<u64> {
    let f = |v: u64| if from == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    // correctly rounded for f32 as well: a double holds enough bits for one operation
    let out = |v: f64, w: u32| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let (a, b) = (f(x), f(y));
    Some(match op {
        "fadd" => out(a + b, from),
        "fsub" => out(a - b, from),
        "fmul" => out(a * b, from),
        "fdiv" => out(a / b, from),
        "frem" => out(a % b, from),
        "fneg" => x ^ (1 << (from - 1)),
        "sitofp" if to == 32 => (sx(x, from) as f32).to_bits() as u64,
        "sitofp" => (sx(x, from) as f64).to_bits(),
        "uitofp" if to == 32 => (x as f32).to_bits() as u64,
        "uitofp" => (x as f64).to_bits(),
        // out of range: undefined, and guarded by the compiled code
        "fptosi" => a as i64 as u64,
        "fptoui" => a as u64,
        "fpext" | "fptrunc" => out(a, to),
        "fabs" => x & !(1 << (from - 1)),
        "floor" => out(a.floor(), from),
        "ceil" => out(a.ceil(), from),
        "trunc" => out(a.trunc(), from),
        "rint" | "nearbyint" | "roundeven" => out(a.round_ties_even(), from),
        "round" => out(a.round(), from),
        "sqrt" => out(a.sqrt(), from),
        "copysign" => x & !(1 << (from - 1)) | y & (1 << (from - 1)),
        "minnum" | "minimumnum" => out(a.min(b), from),
        "maxnum" | "maximumnum" => out(a.max(b), from),
        "fptosi.sat" => {
            let (lo, hi) = ((-1i128) << (to - 1), (1i128 << (to - 1)) - 1);
            if a.is_nan() { 0 } else { (a as i128).clamp(lo, hi) as u64 }
        }
        "fptoui.sat" => (a as u128).min((1u128 << to) - 1) as u64,
        _ => {
            let p = op.strip_prefix("fcmp ")?;
            let nan = a.is_nan() || b.is_nan();
            let r = match &p[1..] {
                "eq" => a == b,
                "ne" => a != b && !nan,
                "lt" => a < b,
                "le" => a <= b,
                "gt" => a > b,
                "ge" => a >= b,
                _ => match p {
                    "ord" => return Some(!nan as u64),
                    "uno" => return Some(nan as u64),
                    "true" => return Some(1),
                    "false" => return Some(0),
                    _ => return None,
                },
            };
            (r || (p.starts_with('u') && nan)) as u64
        }
    })
}
const ERRNO_ID_OFF: u32 = 0;

impl Engine {
    pub fn new(text: &'static str) -> Engine {
        let m: &'static Module = Box::leak(Box::new(parse_module(text)));
        let mut syms = Syms { addr: HashMap::new(), fid: HashMap::new() };
        let mut id = 1u32;
        let mut cglob = vec![];
        let mut mglob = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            if g.constant && g.init.is_some() {
                syms.addr.insert(g.name.clone(), (id as u64) << 32);
                cglob.push((id, i));
                id += 1;
            } else {
                mglob.push(i);
            }
        }
        let nfun_base = id;
        let mut ext = vec![];
        for (i, f) in m.funcs.iter().enumerate() {
            syms.fid.insert(f.name.clone(), i);
            let e = if f.body.is_none() { ext_of(&f.name) } else { Ext::None };
            // weak symbols that are absent resolve to null
            let weak_absent = f.body.is_none() && f.header.contains("extern_weak") && f.name != "getrandom";
            syms.addr.insert(f.name.clone(), if weak_absent { 0 } else { (id as u64) << 32 });
            ext.push(e);
            id += 1;
        }
        let heap_base = id + 1;
        let mut init_heap: Vec<Option<Rc<Obj>>> = vec![Some(Rc::new(Obj::new(8)))]; // errno
        for &i in &mglob {
            syms.addr.insert(m.globals[i].name.clone(), ((heap_base as u64) + init_heap.len() as u64) << 32);
            init_heap.push(None);
        }
        let syms: &'static Syms = Box::leak(Box::new(syms));
        let mut cobj: Vec<Option<Rc<Obj>>> = vec![None; heap_base as usize];
        let build = |i: usize| -> Rc<Obj> {
            let g = &m.globals[i];
            let n = g.ty.size() as usize;
            let mut b = vec![0u8; n];
            if let Some(cv) = &g.init {
                fill(&mut b, cv, &g.ty, 0, syms);
            }
            Rc::new(Obj::from(&b))
        };
        for (id, i) in cglob {
            cobj[id as usize] = Some(build(i));
        }
        for (k, &i) in mglob.iter().enumerate() {
            init_heap[k + 1] = Some(build(i));
        }
        let nf = m.funcs.len();
        Engine {
            m,
            syms,
            funcs: vec![None; nf],
            ext,
            cobj,
            nfun_base,
            heap_base,
            init_heap,
            a: Arena::new(),
            smt: Smt::new(),
            qcache: HashMap::new(),
            validated: HashMap::new(),
            work: vec![],
            violations: vec![],
            findings: vec![],
            notes: HashMap::new(),
            executed: vec![false; nf],
            max_steps: 30_000_000,
            st_instrs: 0,
            st_forks: 0,
            st_asserts: 0,
            st_asserts_smt: 0,
            st_qhits: 0,
            st_bset: 0,
            fork_sites: HashMap::new(),
            trace_calls: false,
        }
    }
    /// drop all expressions (only between work units, when no state is alive)
    pub fn reset_arena(&mut self) {
        self.a = Arena::new();
        self.smt.fresh();
        self.qcache.clear();
        self.validated.clear();
    }
    pub fn func(&mut self, id: usize) -> &'static Func {
        if let Some(f) = self.funcs[id] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(lower(self.m, self.syms, id)));
        self.funcs[id] = Some(f);
        self.executed[id] = true;
        f
    }
    pub fn start(&mut self, name: &str, args: &[u64], prefix: Vec<u64>) -> State {
        let id = *self.syms.fid.get(name).unwrap_or_else(|| panic!("no harness {}", name));
        let f = self.func(id);
        let mut regs = vec![Val::C(0); f.nregs];
        for (i, a) in args.iter().enumerate() {
            regs[i] = Val::C(*a);
        }
        State {
            top: Frame { f, ip: 0, regs, allocas: vec![], dst: -1, rw: 0 },
            stack: vec![],
            heap: self.init_heap.clone(),
            free: vec![],
            pc: vec![],
            dom: vec![],
            ent: vec![],
            wit: vec![],
            concr: vec![],
            log: vec![],
            replay: Rc::new(prefix),
            rpos: 0,
            mark: 0,
            mark_step: 0,
            steps: 0,
            obs: vec![],
            seen: vec![],
            forks: 0,
            files: vec![], outs: Default::default(),
        }
    }

    // ---------------------------------------------------------------- values
    fn to_x(&mut self, v: &Val, w: u32) -> R<X> {
        match v {
            Val::C(c) => Ok(self.a.cst(*c as u128, w)),
            Val::E(e) => Ok(*e),
            Val::W(c) => Ok(self.a.cst(**c, w)),
            Val::A(_) => eng("aggregate used as integer"),
        }
    }
    fn of_x(&self, x: X) -> Val {
        match self.a.as_const(x) {
            Some(c) => {
                if self.a.w(x) > 64 {
                    Val::W(Rc::new(c))
                } else {
                    Val::C(c as u64)
                }
            }
            None => Val::E(x),
        }
    }
    /// substitute variables whose domain is a single value
    fn norm(&mut self, st: &State, x: X) -> X {
        let sup = self.a.sup(x).clone();
        if sup.is_empty() {
            return x;
        }
        let mut any = false;
        for v in sup.iter() {
            if dom_count(&st.dom[*v as usize]) == 1 {
                any = true;
                break;
            }
        }
        if !any {
            return x;
        }
        let mut memo = HashMap::new();
        self.subst(st, x, &mut memo)
    }
    fn subst(&mut self, st: &State, x: X, memo: &mut HashMap<X, X>) -> X {
        if let Some(r) = memo.get(&x) {
            return *r;
        }
        let w = self.a.w(x);
        let n = self.a.n(x).clone();
        let r = match n {
            N::Const(_) => x,
            N::Var(v) => {
                if dom_count(&st.dom[v as usize]) == 1 {
                    self.a.cst(dom_first(&st.dom[v as usize]) as u128, 8)
                } else {
                    x
                }
            }
            N::Tab(v, t) => {
                if dom_count(&st.dom[v as usize]) == 1 {
                    self.a.cst(t[dom_first(&st.dom[v as usize]) as usize] as u128, w)
                } else {
                    x
                }
            }
            N::Bin(op, p, q) => {
                let (p, q) = (self.subst(st, p, memo), self.subst(st, q, memo));
                self.a.bin(op, p, q)
            }
            N::Cmp(op, p, q) => {
                let (p, q) = (self.subst(st, p, memo), self.subst(st, q, memo));
                self.a.cmp(op, p, q)
            }
            N::Ite(c, p, q) => {
                let c = self.subst(st, c, memo);
                let p = self.subst(st, p, memo);
                let q = self.subst(st, q, memo);
                self.a.ite(c, p, q)
            }
            N::Zext(p) => {
                let p = self.subst(st, p, memo);
                self.a.zext(p, w)
            }
            N::Sext(p) => {
                let p = self.subst(st, p, memo);
                self.a.sext(p, w)
            }
            N::Ext(p, lo) => {
                let p = self.subst(st, p, memo);
                self.a.ext(p, lo, w)
            }
            N::Cat(h, l) => {
                let (h, l) = (self.subst(st, h, memo), self.subst(st, l, memo));
                self.a.cat(h, l)
            }
        };
        memo.insert(x, r);
        r
    }

    // ---------------------------------------------------------------- constraints
    fn bset(&mut self, v: u16, x: X) -> R<Dom> {
        let d = self.a.bset(x);
        if self.validated.insert(x, ()).is_none() {
            self.st_bset += 1;
            if !self.smt.validate_bset(&self.a, v, x, &d) {
                return eng("solver rejects a truth table");
            }
        }
        Ok(d)
    }
    /// component of the path condition connected to the given variables
    fn component(&self, st: &State, seed: &[u16]) -> (Vec<u16>, Vec<X>) {
        let mut vars: Vec<u16> = seed.to_vec();
        let mut inv = vec![false; st.dom.len()];
        for v in seed {
            inv[*v as usize] = true;
        }
        let mut used = vec![false; st.pc.len()];
        let mut cons = vec![];
        let mut changed = true;
        while changed {
            changed = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.a.sup(*c);
                if s.iter().any(|v| inv[*v as usize] && dom_count(&st.dom[*v as usize]) > 1) {
                    used[i] = true;
                    cons.push(*c);
                    changed = true;
                    for v in s.iter() {
                        if !inv[*v as usize] {
                            inv[*v as usize] = true;
                            vars.push(*v);
                        }
                    }
                }
            }
        }
        vars.sort();
        vars.dedup();
        cons.sort();
        cons.dedup();
        (vars, cons)
    }
    /// satisfiability of pc /\ dom /\ extra (extra may narrow the domain of one variable)
    fn query(&mut self, st: &State, extra: &[X], narrow: Option<(u16, Dom)>) -> R<Option<Vec<(u16, u8)>>> {
        let mut seed: Vec<u16> = vec![];
        for x in extra {
            seed.extend(self.a.sup(*x).iter());
        }
        if let Some((v, _)) = narrow {
            seed.push(v);
        }
        seed.sort();
        seed.dedup();
        let (vars, mut cons) = self.component(st, &seed);
        cons.extend_from_slice(extra);
        cons.sort();
        cons.dedup();
        let doms: Vec<(u16, Dom)> = vars
            .iter()
            .map(|v| {
                let mut d = st.dom[*v as usize];
                if let Some((nv, nd)) = &narrow {
                    if nv == v {
                        d = dom_and(&d, nd);
                    }
                }
                (*v, d)
            })
            .collect();
        if doms.iter().any(|(_, d)| dom_empty(d)) {
            return Ok(None);
        }
        let mut key: Vec<u64> = Vec::with_capacity(cons.len() + doms.len() * 5);
        for c in &cons {
            key.push(*c as u64);
        }
        for (v, d) in &doms {
            key.push(1 << 40 | *v as u64);
            key.extend_from_slice(d);
        }
        if let Some(r) = self.qcache.get(&key) {
            self.st_qhits += 1;
            return Ok(r.as_ref().map(|m| m.to_vec()));
        }
        let r = match self.smt.check(&self.a, &doms, &cons, true) {
            Ans::Sat(m) => Some(m),
            Ans::Unsat => None,
            Ans::Unknown => return Err(Stop::Limit("solver gave no answer within its time limit".into())),
        };
        if self.qcache.len() > 400_000 {
            self.qcache.clear();
        }
        self.qcache.insert(key, r.as_ref().map(|m| Rc::new(m.clone())));
        Ok(r)
    }
    fn set_wit(&self, st: &mut State, m: &[(u16, u8)]) {
        for (v, b) in m {
            st.wit[*v as usize] = *b;
        }
    }
    /// add a constraint known to be satisfiable, given a witness that already satisfies it
    fn add(&mut self, st: &mut State, x: X) -> R<()> {
        let mut cs = vec![];
        self.a.conjuncts(x, &mut cs);
        for c in cs {
            if self.a.as_const(c).is_some() {
                continue;
            }
            if let Some(v) = self.a.single(c) {
                let d = self.bset(v, c)?;
                st.dom[v as usize] = dom_and(&st.dom[v as usize], &d);
            } else {
                for v in self.a.sup(c).clone().iter() {
                    st.ent[*v as usize] = true;
                }
                if !st.pc.contains(&c) {
                    st.pc.push(c);
                }
            }
        }
        Ok(())
    }
    /// feasibility of x (1 bit, not constant) in st; on success a witness update
    fn feasible(&mut self, st: &State, x: X) -> R<Option<Vec<(u16, u8)>>> {
        if let Some(v) = self.a.single(x) {
            let d = self.bset(v, x)?;
            let nd = dom_and(&st.dom[v as usize], &d);
            if dom_empty(&nd) {
                return Ok(None);
            }
            if dom_has(&nd, st.wit[v as usize]) {
                return Ok(Some(vec![]));
            }
            if !st.ent[v as usize] {
                return Ok(Some(vec![(v, dom_pick(&nd))]));
            }
            return self.query(st, &[], Some((v, d)));
        }
        let wit = st.wit.clone();
        if self.a.eval(x, &wit) == 1 {
            return Ok(Some(vec![]));
        }
        let mut cs = vec![];
        self.a.conjuncts(x, &mut cs);
        // cheap refutation / confirmation on single-byte conjuncts
        let mut all_single = true;
        let mut nd: Vec<(u16, Dom)> = vec![];
        for c in &cs {
            if let Some(v) = self.a.single(*c) {
                let d = self.bset(v, *c)?;
                match nd.iter_mut().find(|(w, _)| *w == v) {
                    Some((_, e)) => *e = dom_and(e, &d),
                    None => nd.push((v, dom_and(&st.dom[v as usize], &d))),
                }
            } else {
                all_single = false;
            }
        }
        if nd.iter().any(|(_, d)| dom_empty(d)) {
            return Ok(None);
        }
        if all_single && nd.iter().all(|(v, _)| !st.ent[*v as usize]) {
            return Ok(Some(nd.iter().map(|(v, d)| (*v, if dom_has(d, st.wit[*v as usize]) { st.wit[*v as usize] } else { dom_pick(d) })).collect()));
        }
        self.query(st, &[x], None)
    }
    fn next_replay(&mut self, st: &mut State) -> Option<u64> {
        if st.rpos < st.replay.len() {
            let v = st.replay[st.rpos];
            st.rpos += 1;
            Some(v)
        } else {
            None
        }
    }
    fn touch_mark(&self, st: &mut State) {
        if st.mark_step != st.steps + 1 {
            st.mark_step = st.steps + 1;
            st.mark = st.log.len();
        }
    }
    /// clone st so that it re-executes the current instruction with the given decision
    fn fork(&mut self, st: &mut State, alt: u64) -> State {
        self.st_forks += 1;
        st.forks += 1;
        let mut s2 = st.clone();
        let mut rp: Vec<u64> = s2.log[s2.mark..].to_vec();
        rp.push(alt);
        s2.log.truncate(s2.mark);
        s2.replay = Rc::new(rp);
        s2.rpos = 0;
        s2.top.ip -= 1;
        s2.mark_step = 0;
        *self.fork_sites.entry((st.top.f.id, st.top.ip)).or_insert(0) += 1;
        s2
    }
    pub fn decide(&mut self, st: &mut State, x: X) -> R<bool> {
        let x = self.norm(st, x);
        if let Some(c) = self.a.as_const(x) {
            return Ok(c == 1);
        }
        if let Some((_, v)) = st.concr.iter().find(|(e, _)| *e == x) {
            return Ok(*v == 1);
        }
        self.touch_mark(st);
        let nx = self.a.not(x);
        if let Some(v) = self.next_replay(st) {
            st.log.push(v);
            let c = if v == 1 { x } else { nx };
            // the witness may be stale on a cold replay
            let w = st.wit.clone();
            if self.a.eval(c, &w) != 1 {
                match self.feasible(st, c)? {
                    Some(m) => self.set_wit(st, &m),
                    None => return Err(Stop::Infeasible),
                }
            }
            self.remember(st, x, v as u128);
            self.add(st, c)?;
            return Ok(v == 1);
        }
        let w = st.wit.clone();
        let first = self.a.eval(x, &w) == 1;
        let other = if first { nx } else { x };
        let o = self.feasible(st, other)?;
        if let Some(m) = o {
            let mut s2 = self.fork(st, (!first) as u64);
            self.set_wit(&mut s2, &m);
            self.work.push(s2);
        }
        st.log.push(first as u64);
        self.remember(st, x, first as u128);
        let c = if first { x } else { nx };
        self.add(st, c)?;
        Ok(first)
    }
    fn remember(&mut self, st: &mut State, x: X, v: u128) {
        if self.a.single(x).is_none() {
            st.concr.push((x, v));
        }
    }
    /// concretise an integer expression by forking over its feasible values
    pub fn concretise(&mut self, st: &mut State, x: X) -> R<u128> {
        let x = self.norm(st, x);
        if let Some(c) = self.a.as_const(x) {
            return Ok(c);
        }
        if self.a.w(x) == 1 {
            return Ok(self.decide(st, x)? as u128);
        }
        if let Some((_, v)) = st.concr.iter().find(|(e, _)| *e == x) {
            return Ok(*v);
        }
        let w = self.a.w(x);
        if w > 64 {
            return eng("a symbolic integer of more than 64 bits has to be one number");
        }
        self.touch_mark(st);
        let eqx = |s: &mut Self, v: u64| {
            let k = s.a.cst(v as u128, w);
            s.a.cmp(P::Eq, x, k)
        };
        let replayed = self.next_replay(st);
        let val = if let Some(v) = replayed {
            let c = eqx(self, v);
            let wv = st.wit.clone();
            if self.a.eval(c, &wv) != 1 {
                match self.feasible(st, c)? {
                    Some(m) => self.set_wit(st, &m),
                    None => return Err(Stop::Infeasible),
                }
            }
            v
        } else {
            let wv = st.wit.clone();
            let cur = self.a.eval(x, &wv) as u64;
            // enumerate the other feasible values
            let mut others: Vec<(u64, Vec<(u16, u8)>)> = vec![];
            if let Some(v) = self.a.single(x) {
                let t = self.a.table(x);
                let mut vals: Vec<u64> = vec![];
                for b in 0..256usize {
                    if dom_has(&st.dom[v as usize], b as u8) && t[b] != cur && !vals.contains(&t[b]) {
                        vals.push(t[b]);
                    }
                }
                for val in vals {
                    let c = eqx(self, val);
                    if let Some(m) = self.feasible(st, c)? {
                        others.push((val, m));
                    }
                }
            } else {
                let mut excl: Vec<X> = vec![];
                let c = eqx(self, cur);
                let nc = self.a.not(c);
                excl.push(nc);
                loop {
                    match self.query(st, &excl, None)? {
                        None => break,
                        Some(m) => {
                            let mut asg = st.wit.clone();
                            for (v, b) in &m {
                                asg[*v as usize] = *b;
                            }
                            let val = self.a.eval(x, &asg) as u64;
                            others.push((val, m));
                            let c = eqx(self, val);
                            let nc = self.a.not(c);
                            excl.push(nc);
                            if others.len() > 300 {
                                return eng("too many values to concretise");
                            }
                        }
                    }
                }
            }
            for (val, m) in others.into_iter().rev() {
                let mut s2 = self.fork(st, val);
                self.set_wit(&mut s2, &m);
                self.work.push(s2);
            }
            cur
        };
        st.log.push(val);
        st.concr.push((x, val as u128));
        let c = eqx(self, val);
        self.add(st, c)?;
        Ok(val as u128)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(x) => Ok(self.concretise(st, *x)? as u64),
            Val::W(c) => Ok(**c as u64),
            Val::A(_) => eng("aggregate as scalar"),
        }
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::E(x) => self.decide(st, *x),
            _ => eng("bad condition"),
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u64 {
        let o = Some(Rc::new(Obj::new(n)));
        let i = match st.free.pop() {
            Some(i) => {
                st.heap[i as usize] = o;
                i
            }
            None => {
                st.heap.push(o);
                st.heap.len() as u32 - 1
            }
        };
        ((self.heap_base + i) as u64) << 32
    }
    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = (p >> 32) as u32;
        if id < self.heap_base || p & 0xffff_ffff != 0 {
            return eng(format!("bad free {:x}", p));
        }
        let i = id - self.heap_base;
        if st.heap[i as usize].take().is_none() {
            return eng("double free");
        }
        st.free.push(i);
        Ok(())
    }
    #[inline]
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: usize) -> R<(&'a Rc<Obj>, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if id >= self.heap_base {
            st.heap.get((id - self.heap_base) as usize).and_then(|x| x.as_ref())
        } else {
            self.cobj.get(id as usize).and_then(|x| x.as_ref())
        };
        match o {
            Some(o) if off + n <= o.len() => Ok((o, off)),
            _ => eng(format!("memory fault: {} bytes at {:x} (object size {:?})", n, addr, o.map(|o| o.len()))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        if id >= self.heap_base {
            if let Some(Some(o)) = st.heap.get_mut((id - self.heap_base) as usize) {
                if off + n <= o.len() {
                    return Ok((Rc::make_mut(o), off));
                }
            }
        }
        eng(format!("memory fault: store of {} bytes at {:x}", n, addr))
    }
    /// one byte as obs-encoding
    fn byte(&self, st: &State, addr: u64) -> R<u32> {
        let (o, off) = self.obj(st, addr, 1)?;
        let (v, e) = o.get(off);
        Ok(if e != 0 { 256 + e } else { v as u32 })
    }
    fn byte_x(&mut self, st: &State, addr: u64) -> R<X> {
        let b = self.byte(st, addr)?;
        Ok(if b >= 256 { b - 256 } else { self.a.cst(b as u128, 8) })
    }
    fn load(&mut self, st: &mut State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(st, addr, n)?;
        if n <= 8 {
            if let Some(v) = o.rd(off, n) {
                return Ok(Val::C(v & m64(w)));
            }
        }
        let bytes: Vec<(u8, u32)> = (0..n).map(|k| o.get(off + k)).collect();
        if n > 8 && bytes.iter().all(|b| b.1 == 0) {
            if n > 16 {
                return eng(format!("integer of {} bits", w));
            }
            let mut r = 0u128;
            for (k, b) in bytes.iter().enumerate() {
                r |= (b.0 as u128) << (8 * k);
            }
            return Ok(Val::W(Rc::new(r)));
        }
        if n > 16 {
            return eng("symbolic integer wider than 128 bits");
        }
        let mut x: Option<X> = None;
        for (v, e) in bytes.iter() {
            let b = if *e != 0 { self.norm(st, *e) } else { self.a.cst(*v as u128, 8) };
            x = Some(match x {
                None => b,
                Some(l) => self.a.cat(b, l),
            });
        }
        let mut x = x.unwrap();
        if (n as u32) * 8 > w {
            x = self.a.ext(x, 0, w);
        }
        Ok(self.of_x(x))
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) if n <= 8 => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                o.wr(off, n, *c);
            }
            Val::C(c) => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                o.wr(off, 8, *c);
                for k in 8..n {
                    o.set(off + k, 0, 0);
                }
            }
            Val::W(c) => {
                let (o, off) = self.obj_mut(st, addr, n)?;
                for k in 0..n {
                    o.set(off + k, (**c >> (8 * k)) as u8, 0);
                }
            }
            Val::E(x) => {
                let mut x = *x;
                let xw = self.a.w(x);
                if xw < n as u32 * 8 {
                    x = self.a.zext(x, n as u32 * 8);
                }
                let parts: Vec<X> = (0..n).map(|k| self.a.ext(x, 8 * k as u32, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.a.as_const(*p)).collect();
                let (o, off) = self.obj_mut(st, addr, n)?;
                for k in 0..n {
                    match cs[k] {
                        Some(c) => o.set(off + k, c as u8, 0),
                        None => o.set(off + k, 0, parts[k]),
                    }
                }
            }
            Val::A(_) => return eng("aggregate stored as scalar"),
        }
        Ok(())
    }
    fn bitcast(&mut self, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        // to a single integer, then split
        let x = match (from, v) {
            (Ty::Vec(_, e), Val::A(l)) => {
                let ew = match **e {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                let mut acc: Option<X> = None;
                let l = l.clone();
                for q in l.iter() {
                    let qx = self.to_x(q, ew)?;
                    acc = Some(match acc {
                        None => qx,
                        Some(lo) => self.a.cat(qx, lo),
                    });
                }
                acc.unwrap()
            }
            (t, v) => {
                let w = if let Ty::Int(w) = t { *w } else { 64 };
                self.to_x(v, w)?
            }
        };
        Ok(match to {
            Ty::Vec(n, e) => {
                let ew = match **e {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                let mut l = vec![];
                for i in 0..*n {
                    let p = self.a.ext(x, i as u32 * ew, ew);
                    l.push(self.of_x(p));
                }
                Val::A(Rc::new(l))
            }
            _ => self.of_x(x),
        })
    }
    fn packed(ty: &Ty) -> Option<Ty> {
        match ty {
            Ty::Vec(n, e) => match **e {
                Ty::Int(w) if w % 8 != 0 => Some(Ty::Int(*n as u32 * w)),
                _ => None,
            },
            _ => None,
        }
    }
    fn load_t(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => self.load(st, addr, *w),
            Ty::Float(w) => self.load(st, addr, *w),
            Ty::Ptr => self.load(st, addr, 64),
            Ty::Vec(..) if Self::packed(ty).is_some() => {
                let it = Self::packed(ty).unwrap();
                let v = self.load_t(st, addr, &it)?;
                self.bitcast(&v, &it, ty)
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..ty.count() {
                    v.push(self.load_t(st, addr + ty.field_off(i), &ty.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => eng("load type"),
        }
    }
    fn store_t(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        match (ty, v) {
            (Ty::Int(w), _) | (Ty::Float(w), _) => self.store(st, addr, v, *w),
            (Ty::Ptr, _) => self.store(st, addr, v, 64),
            (_, Val::A(_)) if Self::packed(ty).is_some() => {
                let it = Self::packed(ty).unwrap();
                let x = self.bitcast(v, ty, &it)?;
                self.store_t(st, addr, &x, &it)
            }
            (_, Val::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    self.store_t(st, addr + ty.field_off(i), x, &ty.elem(i))?;
                }
                Ok(())
            }
            _ => eng("store type"),
        }
    }
    /// a read through an address that depends on one symbolic byte, from memory that is concrete
    fn tab_load(&mut self, st: &mut State, x: X, w: u32) -> R<Option<Val>> {
        if w > 64 {
            return Ok(None);
        }
        let v = match self.a.single(x) {
            Some(v) => v,
            None => return Ok(None),
        };
        let t = self.a.table(x);
        let n = ((w + 7) / 8) as usize;
        let d = st.dom[v as usize];
        let mut out = vec![0u64; 256];
        let mut filler = None;
        let mut bad = false;
        for b in 0..256usize {
            if !dom_has(&d, b as u8) {
                continue;
            }
            match self.obj(st, t[b], n) {
                Ok((o, off)) => match o.rd(off, n) {
                    Some(k) => {
                        out[b] = k & m64(w);
                        filler = Some(out[b]);
                    }
                    None => bad = true,
                },
                Err(_) => bad = true,
            }
            if bad {
                return Ok(None);
            }
        }
        let f = filler.unwrap_or(0);
        for b in 0..256usize {
            if !dom_has(&d, b as u8) {
                out[b] = f;
            }
        }
        let r = self.a.tab(v, out, w);
        Ok(Some(self.of_x(r)))
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n)?;
        let so = so.clone();
        let (o, off) = self.obj_mut(st, d, n)?;
        if let (Obj::Small(a), Obj::Small(b)) = (&mut *o, &*so) {
            a.b[off..off + n].copy_from_slice(&b.b[soff..soff + n]);
            match (&mut a.s, &b.s) {
                (Some(x), Some(y)) => x[off..off + n].copy_from_slice(&y[soff..soff + n]),
                (Some(x), None) => x[off..off + n].iter_mut().for_each(|v| *v = 0),
                (None, Some(y)) => {
                    if y[soff..soff + n].iter().any(|v| *v != 0) {
                        let mut z = vec![0u32; a.b.len()].into_boxed_slice();
                        z[off..off + n].copy_from_slice(&y[soff..soff + n]);
                        a.s = Some(z);
                    }
                }
                (None, None) => {}
            }
            return Ok(());
        }
        for k in 0..n {
            let (v, e) = so.get(soff + k);
            o.set(off + k, v, e);
        }
        Ok(())
    }
    pub fn rd_bytes(&mut self, st: &State, p: u64, n: usize) -> R<Vec<u8>> {
        let mut v = vec![];
        for k in 0..n {
            let b = self.byte(st, p + k as u64)?;
            if b >= 256 {
                v.push(b'?');
            } else {
                v.push(b as u8);
            }
        }
        Ok(v)
    }
    pub fn obs_bytes(&mut self, st: &State, asg: &[u8]) -> Vec<u8> {
        let obs = st.obs.clone();
        obs.iter().map(|b| if *b < 256 { *b as u8 } else { self.a.eval(*b - 256, asg) as u8 }).collect()
    }

    // ---------------------------------------------------------------- execution
    #[inline]
    fn op(&self, st: &State, o: Opd) -> Val {
        if o >= 0 {
            st.top.regs[o as usize].clone()
        } else {
            st.top.f.consts[(!o) as usize].clone()
        }
    }
    #[inline]
    fn jump(&self, st: &mut State, e: usize) {
        let f = st.top.f;
        let ed = &f.edges[e];
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                st.top.regs[d as usize] = self.op(st, o);
            }
            _ => {
                let vals: Vec<Val> = ed.moves.iter().map(|(_, o)| self.op(st, *o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.ip = ed.to;
    }
    fn binop(&mut self, st: &State, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    B::Add => x.wrapping_add(y),
                    B::Sub => x.wrapping_sub(y),
                    B::Mul => x.wrapping_mul(y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    B::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                    B::UDiv | B::URem | B::SDiv | B::SRem => {
                        if y == 0 {
                            return eng("division by zero");
                        }
                        match op {
                            B::UDiv => x / y,
                            B::URem => x % y,
                            B::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                            _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                        }
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let (x, y) = (self.to_x(a, w)?, self.to_x(b, w)?);
        let (x, y) = (self.norm(st, x), self.norm(st, y));
        let r = self.a.bin(op, x, y);
        Ok(self.of_x(r))
    }
    fn icmp(&mut self, st: &State, p: Pr, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y), true) = (a, b, w <= 64) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pr::Eq => x == y,
                Pr::Ne => x != y,
                Pr::Ugt => x > y,
                Pr::Uge => x >= y,
                Pr::Ult => x < y,
                Pr::Ule => x <= y,
                Pr::Sgt => sx(x, w) > sx(y, w),
                Pr::Sge => sx(x, w) >= sx(y, w),
                Pr::Slt => sx(x, w) < sx(y, w),
                Pr::Sle => sx(x, w) <= sx(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        let (x, y) = (self.to_x(a, w)?, self.to_x(b, w)?);
        let (x, y) = (self.norm(st, x), self.norm(st, y));
        let r = match p {
            Pr::Eq => self.a.cmp(P::Eq, x, y),
            Pr::Ne => {
                let e = self.a.cmp(P::Eq, x, y);
                self.a.not(e)
            }
            Pr::Ugt => self.a.cmp(P::Ult, y, x),
            Pr::Uge => self.a.cmp(P::Ule, y, x),
            Pr::Ult => self.a.cmp(P::Ult, x, y),
            Pr::Ule => self.a.cmp(P::Ule, x, y),
            Pr::Sgt => self.a.cmp(P::Slt, y, x),
            Pr::Sge => self.a.cmp(P::Sle, y, x),
            Pr::Slt => self.a.cmp(P::Slt, x, y),
            Pr::Sle => self.a.cmp(P::Sle, x, y),
        };
        Ok(self.of_x(r))
    }
    fn cast(&mut self, st: &State, k: Ck, from: u32, to: u32, v: &Val) -> R<Val> {
        if let Val::C(c) = v {
            if to <= 64 {
                return Ok(Val::C(match k {
                    Ck::Zext => *c,
                    Ck::Trunc => c & m64(to),
                    Ck::Sext => sx(*c, from) as u64 & m64(to),
                }));
            }
        }
        let x = self.to_x(v, from)?;
        let x = self.norm(st, x);
        let r = match k {
            Ck::Zext => self.a.zext(x, to),
            Ck::Sext => self.a.sext(x, to),
            Ck::Trunc => self.a.ext(x, 0, to),
        };
        Ok(self.of_x(r))
    }
    fn lanes(v: &Val) -> R<&Rc<Vec<Val>>> {
        match v {
            Val::A(l) => Ok(l),
            _ => eng("vector expected"),
        }
    }
    fn do_ret(&mut self, st: &mut State, v: Val) -> R<()> {
        for i in std::mem::take(&mut st.top.allocas) {
            st.heap[i as usize] = None;
            st.free.push(i);
        }
        match st.stack.pop() {
            None => Err(Stop::Done),
            Some(fr) => {
                let dst = st.top.dst;
                st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                if dst >= 0 {
                    st.top.regs[dst as usize] = v;
                }
                Ok(())
            }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![demangle(&st.top.f.name)];
        for f in st.stack.iter().rev().take(12) {
            v.push(demangle(&f.f.name));
        }
        v
    }

    /// run st until it stops
    pub fn run(&mut self, st: &mut State) -> Stop {
        let limit = self.max_steps;
        let s0 = st.steps;
        let r = loop {
            if st.steps > limit {
                break Stop::Limit("step limit".into());
            }
            if let Err(s) = self.step(st) {
                break s;
            }
        };
        self.st_instrs += st.steps.saturating_sub(s0);
        match r {
            Stop::Engine(m) => Stop::Engine(format!("{} [in {} at {}]", m, self.backtrace(st).join(" < "), st.top.ip)),
            Stop::Panic(m) => Stop::Panic(format!("{} [in {}]", m, self.backtrace(st).into_iter().take(6).collect::<Vec<_>>().join(" < "))),
            r => r,
        }
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f;
        let ins = &f.code[st.top.ip];
        st.top.ip += 1;
        match ins {
            I::Nop => return Ok(()),
            I::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) {
                    // division by a symbolic divisor: concretise it
                    if let Val::E(e) = y {
                        if *w > 64 {
                            return eng("division by a symbolic integer of more than 64 bits");
                        }
                        let c = self.concretise(st, e)? as u64;
                        let v = self.binop(st, *op, *w, &x, &Val::C(c))?;
                        st.top.regs[*dst as usize] = v;
                        st.steps += 1;
                        return Ok(());
                    }
                }
                let v = self.binop(st, *op, *w, &x, &y)?;
                st.top.regs[*dst as usize] = v;
            }
            I::Icmp { p, w, dst, a, b } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let v = self.icmp(st, *p, *w, &x, &y)?;
                st.top.regs[*dst as usize] = v;
            }
            I::Br(e) => self.jump(st, *e),
            I::CondBr { c, t, f: fl } => {
                let cv = self.op(st, *c);
                let b = self.cond(st, &cv)?;
                self.jump(st, if b { *t } else { *fl });
            }
            I::Load { dst, p, w } => {
                let pv = self.op(st, *p);
                let v = match pv {
                    Val::C(a) => self.load(st, a, *w)?,
                    Val::E(x) => {
                        let x = self.norm(st, x);
                        match self.tab_load(st, x, *w)? {
                            Some(v) => v,
                            None => {
                                let a = self.concretise(st, x)? as u64;
                                self.load(st, a, *w)?
                            }
                        }
                    }
                    _ => return eng("load address"),
                };
                st.top.regs[*dst as usize] = v;
            }
            I::Store { p, v, w } => {
                let pv = self.op(st, *p);
                let a = self.conc(st, &pv)?;
                let val = self.op(st, *v);
                self.store(st, a, &val, *w)?;
            }
            I::Gep { dst, base, off, idx } => {
                let mut v = self.op(st, *base);
                if let Val::C(b) = v {
                    let mut r = b.wrapping_add(*off as u64);
                    let mut conc = true;
                    for (o, w, s) in idx.iter() {
                        match self.op(st, *o) {
                            Val::C(i) => r = r.wrapping_add((sx(i, *w).wrapping_mul(*s)) as u64),
                            _ => {
                                conc = false;
                                break;
                            }
                        }
                    }
                    if conc {
                        st.top.regs[*dst as usize] = Val::C(r);
                        st.steps += 1;
                        return Ok(());
                    }
                }
                v = self.binop(st, B::Add, 64, &v, &Val::C(*off as u64))?;
                for (o, w, s) in idx.iter() {
                    let i = self.op(st, *o);
                    let i = self.cast(st, Ck::Sext, *w, 64, &i)?;
                    let i = self.binop(st, B::Mul, 64, &i, &Val::C(*s as u64))?;
                    v = self.binop(st, B::Add, 64, &v, &i)?;
                }
                st.top.regs[*dst as usize] = v;
            }
            I::Copy { dst, a } => {
                let v = self.op(st, *a);
                st.top.regs[*dst as usize] = v;
            }
            I::Cast { k, from, to, dst, a } => {
                let v = self.op(st, *a);
                let v = self.cast(st, *k, *from, *to, &v)?;
                st.top.regs[*dst as usize] = v;
            }
            I::Select { dst, c, a, b, w } => {
                let cv = self.op(st, *c);
                let v = match cv {
                    Val::C(k) => self.op(st, if k & 1 == 1 { *a } else { *b }),
                    Val::E(x) => {
                        let x = self.norm(st, x);
                        if let Some(k) = self.a.as_const(x) {
                            self.op(st, if k == 1 { *a } else { *b })
                        } else if *w == 0 {
                            let k = self.decide(st, x)?;
                            self.op(st, if k { *a } else { *b })
                        } else {
                            let (p, q) = (self.op(st, *a), self.op(st, *b));
                            let (p, q) = (self.to_x(&p, *w)?, self.to_x(&q, *w)?);
                            let r = self.a.ite(x, p, q);
                            self.of_x(r)
                        }
                    }
                    _ => return eng("select condition"),
                };
                st.top.regs[*dst as usize] = v;
            }
            I::Alloca { dst, size } => {
                let p = self.alloc(st, *size as usize);
                st.top.allocas.push((p >> 32) as u32 - self.heap_base);
                st.top.regs[*dst as usize] = Val::C(p);
            }
            I::Ret(o) => {
                let v = match o {
                    Some(o) => self.op(st, *o),
                    None => Val::C(0),
                };
                st.steps += 1;
                return self.do_ret(st, v);
            }
            I::Switch { v, w, cases, order, def } => {
                let val = self.op(st, *v);
                match val {
                    Val::C(c) => {
                        let e = *cases.get(&c).unwrap_or(def);
                        self.jump(st, e);
                    }
                    Val::E(x) => {
                        let mut x = self.norm(st, x);
                        if let Some(c) = self.a.as_const(x) {
                            let e = *cases.get(&(c as u64)).unwrap_or(def);
                            self.jump(st, e);
                        } else if let Some(sv) = self.a.single(x) {
                            // fork once per distinct target
                            let t = self.a.table(x);
                            let mut out = vec![0u64; 256];
                            for b in 0..256usize {
                                out[b] = *cases.get(&t[b]).unwrap_or(def) as u64;
                            }
                            // several case values may share a block: group by (block, phi inputs)
                            let mut canon: HashMap<(usize, Vec<(u32, Opd)>), u64> = HashMap::new();
                            let d = st.dom[sv as usize];
                            let mut fill = 0;
                            for b in 0..256usize {
                                let ed = &f.edges[out[b] as usize];
                                out[b] = *canon.entry((ed.to, ed.moves.clone())).or_insert(out[b]);
                                if dom_has(&d, b as u8) {
                                    fill = out[b];
                                }
                            }
                            for b in 0..256usize {
                                if !dom_has(&d, b as u8) {
                                    out[b] = fill;
                                }
                            }
                            x = self.a.tab(sv, out, 32);
                            let e = self.concretise(st, x)? as usize;
                            self.jump(st, e);
                        } else {
                            // one decision per distinct target
                            let same = |a: u32, b: u32| {
                                let (p, q) = (&f.edges[a as usize], &f.edges[b as usize]);
                                a == b || (p.to == q.to && p.moves == q.moves)
                            };
                            let mut groups: Vec<(u32, Vec<u64>)> = vec![];
                            for (k, e) in order {
                                let e = *e as u32;
                                if same(e, *def as u32) {
                                    continue;
                                }
                                match groups.iter_mut().find(|g| same(g.0, e)) {
                                    Some(g) => g.1.push(*k as u64),
                                    None => groups.push((e, vec![*k as u64])),
                                }
                            }
                            let mut tgt = None;
                            for (e, ks) in groups {
                                let mut none = self.a.cst(1, 1);
                                for k in ks {
                                    let kc = self.a.cst(k as u128, *w);
                                    let eq = self.a.cmp(P::Eq, x, kc);
                                    let ne = self.a.not(eq);
                                    none = self.a.and1(none, ne);
                                }
                                let any = self.a.not(none);
                                if self.decide(st, any)? {
                                    tgt = Some(e as usize);
                                    break;
                                }
                            }
                            self.jump(st, tgt.unwrap_or(*def as usize));
                        }
                    }
                    _ => return eng("switch value"),
                }
            }
            I::Call { dst, f: callee, args, aw, rw, next } => {
                return self.call(st, *dst, callee, args, aw, *rw, *next);
            }
            I::Unreachable => return eng("unreachable executed"),
            I::ExtractV { dst, a, path } => {
                let mut v = self.op(st, *a);
                for i in path {
                    v = match v {
                        Val::A(l) => l[*i].clone(),
                        _ => return eng("extractvalue"),
                    }
                }
                st.top.regs[*dst as usize] = v;
            }
            I::InsertV { dst, a, v, path } => {
                let av = self.op(st, *a);
                let nv = self.op(st, *v);
                let r = insert(&av, &nv, path);
                st.top.regs[*dst as usize] = r;
            }
            I::LoadT { dst, p, ty } => {
                let pv = self.op(st, *p);
                let a = self.conc(st, &pv)?;
                let v = self.load_t(st, a, ty)?;
                st.top.regs[*dst as usize] = v;
            }
            I::StoreT { p, v, ty } => {
                let pv = self.op(st, *p);
                let a = self.conc(st, &pv)?;
                let val = self.op(st, *v);
                self.store_t(st, a, &val, ty)?;
            }
            I::VBin { op, w, dst, a, b } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let (x, y) = (Self::lanes(&x)?.clone(), Self::lanes(&y)?.clone());
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(self.binop(st, *op, *w, &x[i], &y[i])?);
                }
                st.top.regs[*dst as usize] = Val::A(Rc::new(r));
            }
            I::VIcmp { p, w, dst, a, b } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let (x, y) = (Self::lanes(&x)?.clone(), Self::lanes(&y)?.clone());
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(self.icmp(st, *p, *w, &x[i], &y[i])?);
                }
                st.top.regs[*dst as usize] = Val::A(Rc::new(r));
            }
            I::VCast { k, from, to, dst, a } => {
                let x = self.op(st, *a);
                let x = Self::lanes(&x)?.clone();
                let mut r = vec![];
                for v in x.iter() {
                    r.push(self.cast(st, *k, *from, *to, v)?);
                }
                st.top.regs[*dst as usize] = Val::A(Rc::new(r));
            }
            I::Shuffle { dst, a, b, mask } => {
                let (x, y) = (self.op(st, *a), self.op(st, *b));
                let (x, y) = (Self::lanes(&x)?.clone(), Self::lanes(&y)?.clone());
                let r: Vec<Val> = mask.iter().map(|i| if *i < x.len() { x[*i].clone() } else { y[*i - x.len()].clone() }).collect();
                st.top.regs[*dst as usize] = Val::A(Rc::new(r));
            }
            I::InsertE { dst, a, v, i } => {
                let x = self.op(st, *a);
                let nv = self.op(st, *v);
                let ix = self.op(st, *i);
                let ix = self.conc(st, &ix)? as usize;
                let mut l = (**Self::lanes(&x)?).clone();
                l[ix] = nv;
                st.top.regs[*dst as usize] = Val::A(Rc::new(l));
            }
            I::ExtractE { dst, a, i } => {
                let x = self.op(st, *a);
                let ix = self.op(st, *i);
                let ix = self.conc(st, &ix)? as usize;
                let v = Self::lanes(&x)?[ix].clone();
                st.top.regs[*dst as usize] = v;
            }
            I::BitcastV { dst, a, from, to } => {
                let v = self.op(st, *a);
                let r = self.bitcast(&v, from, to)?;
                st.top.regs[*dst as usize] = r;
            }
            I::Rmw { dst, op, p, v, w } => {
                let pv = self.op(st, *p);
                let a = self.conc(st, &pv)?;
                let old = self.load(st, a, *w)?;
                let val = self.op(st, *v);
                let nv = match op {
                    Rmw::Xchg => val,
                    Rmw::Add => self.binop(st, B::Add, *w, &old, &val)?,
                    Rmw::Sub => self.binop(st, B::Sub, *w, &old, &val)?,
                    Rmw::And => self.binop(st, B::And, *w, &old, &val)?,
                    Rmw::Or => self.binop(st, B::Or, *w, &old, &val)?,
                    Rmw::Xor => self.binop(st, B::Xor, *w, &old, &val)?,
                };
                self.store(st, a, &nv, *w)?;
                st.top.regs[*dst as usize] = old;
            }
            I::CmpXchg { dst, p, c, n, w } => {
                let pv = self.op(st, *p);
                let a = self.conc(st, &pv)?;
                let old = self.load(st, a, *w)?;
                let cv = self.op(st, *c);
                let eq = self.icmp(st, Pr::Eq, *w, &old, &cv)?;
                let k = self.cond(st, &eq)?;
                if k {
                    let nv = self.op(st, *n);
                    self.store(st, a, &nv, *w)?;
                }
                st.top.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C(k as u64)]));
            }
            I::Fp { op, from, to, dst, a, b } => {
                let (x, y) = (self.op(st, *a), b.map(|b| self.op(st, b)));
                let x = self.conc(st, &x)?;
                let y = match y {
                    Some(y) => self.conc(st, &y)?,
                    None => 0,
                };
                match float(op, *from, *to, x, y) {
                    Some(v) => st.top.regs[*dst as usize] = Val::C(v & m64(*to)),
                    None => return eng(format!("floating point: {}", op)),
                }
            }
            I::Unsupported(s) => return eng(format!("unsupported instruction: {}", s.trim())),
        }
        st.steps += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, dst: i32, callee: &'static Callee, args: &'static [Opd], aw: &[u32], rw: u32, next: Option<usize>) -> R<()> {
        let fid = match callee {
            Callee::Fn(f) => *f,
            Callee::Ptr(o) => {
                let v = self.op(st, *o);
                let a = self.conc(st, &v)?;
                let id = (a >> 32) as u32;
                if id < self.nfun_base || id >= self.nfun_base + self.m.funcs.len() as u32 || a & 0xffff_ffff != 0 {
                    return eng(format!("call through bad pointer {:x}", a));
                }
                (id - self.nfun_base) as usize
            }
            Callee::Intr(n) => {
                let r = self.intrinsic(st, n, args, aw, rw)?;
                if dst >= 0 {
                    st.top.regs[dst as usize] = r;
                }
                st.steps += 1;
                if let Some(e) = next {
                    self.jump(st, e);
                }
                return Ok(());
            }
            Callee::Asm => return eng("inline asm"),
        };
        if self.m.funcs[fid].body.is_none() {
            let r = self.external(st, fid, args, aw, rw)?;
            if dst >= 0 {
                st.top.regs[dst as usize] = r;
            }
            st.steps += 1;
            if let Some(e) = next {
                self.jump(st, e);
            }
            return Ok(());
        }
        let f = self.func(fid);
        let mut regs = Vec::with_capacity(f.nregs);
        for a in args.iter().take(f.nargs) {
            regs.push(self.op(st, *a));
        }
        regs.resize(f.nregs, Val::C(0));
        st.steps += 1;
        if let Some(e) = next {
            self.jump(st, e);
        }
        if st.stack.len() > 2000 {
            return Err(Stop::Limit("call depth".into()));
        }
        if self.trace_calls {
            eprintln!("{}{}", " ".repeat(st.stack.len()), demangle(&f.name));
        }
        let fr = Frame { f, ip: 0, regs, allocas: vec![], dst, rw };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[Opd], aw: &[u32], rw: u32) -> R<Val> {
        let a: Vec<Val> = args.iter().map(|o| self.op(st, *o)).collect();
        let base = n.strip_prefix("llvm.").unwrap();
        let is = |p: &str| base.starts_with(p) && (base.len() == p.len() || base.as_bytes()[p.len()] == b'.');
        if is("memcpy") || is("memmove") {
            let n = self.conc(st, &a[2])? as usize;
            if n == 0 {
                return Ok(Val::C(0));
            }
            let d = self.conc(st, &a[0])?;
            let s = self.conc(st, &a[1])?;
            self.copy(st, d, s, n)?;
            return Ok(Val::C(0));
        }
        if is("memset") {
            let n = self.conc(st, &a[2])? as usize;
            let d = self.conc(st, &a[0])?;
            for k in 0..n {
                self.store(st, d + k as u64, &a[1], 8)?;
            }
            return Ok(Val::C(0));
        }
        let w = aw.first().copied().unwrap_or(0);
        for f in ["fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round", "sqrt", "copysign", "minnum", "maxnum", "minimumnum", "maximumnum", "fptosi.sat", "fptoui.sat"] {
            if is(f) && (w == 32 || w == 64) && rw <= 64 {
                let x = self.conc(st, &a[0])?;
                let y = if a.len() > 1 { self.conc(st, &a[1])? } else { 0 };
                if let Some(v) = float(f, w, rw, x, y) {
                    return Ok(Val::C(v & m64(rw)));
                }
            }
        }
        if is("umax") || is("umin") || is("smax") || is("smin") {
            let p = match base.as_bytes()[0..4] {
                [b'u', b'm', b'a', b'x'] => Pr::Ugt,
                [b'u', b'm', b'i', b'n'] => Pr::Ult,
                [b's', b'm', b'a', b'x'] => Pr::Sgt,
                _ => Pr::Slt,
            };
            let c = self.icmp(st, p, w, &a[0], &a[1])?;
            return self.ite_val(c, &a[0], &a[1], w);
        }
        if is("abs") {
            let c = self.icmp(st, Pr::Slt, w, &a[0], &Val::C(0))?;
            let n = self.binop(st, B::Sub, w, &Val::C(0), &a[0])?;
            return self.ite_val(c, &n, &a[0], w);
        }
        if is("usub.sat") {
            let c = self.icmp(st, Pr::Ult, w, &a[0], &a[1])?;
            let s = self.binop(st, B::Sub, w, &a[0], &a[1])?;
            return self.ite_val(c, &Val::C(0), &s, w);
        }
        if is("uadd.sat") {
            let s = self.binop(st, B::Add, w, &a[0], &a[1])?;
            let c = self.icmp(st, Pr::Ult, w, &s, &a[0])?;
            let top = if w > 64 { Val::W(Rc::new(crate::ir::mask128(!0, w))) } else { Val::C(m64(w)) };
            return self.ite_val(c, &top, &s, w);
        }
        if is("ucmp") || is("scmp") {
            let (lt, gt) = if is("ucmp") { (Pr::Ult, Pr::Ugt) } else { (Pr::Slt, Pr::Sgt) };
            let l = self.icmp(st, lt, w, &a[0], &a[1])?;
            let g = self.icmp(st, gt, w, &a[0], &a[1])?;
            let inner = self.ite_val(g, &Val::C(1), &Val::C(0), rw)?;
            return self.ite_val(l, &Val::C(m64(rw)), &inner, rw);
        }
        if base.contains(".with.overflow") {
            let (op, signed) = match &base[..4] {
                "uadd" => (B::Add, false),
                "sadd" => (B::Add, true),
                "usub" => (B::Sub, false),
                "ssub" => (B::Sub, true),
                "umul" => (B::Mul, false),
                "smul" => (B::Mul, true),
                _ => return eng(format!("intrinsic {}", n)),
            };
            if w > 64 {
                return self.wide_overflow(st, op, signed, w, &a[0], &a[1]);
            }
            let k = if signed { Ck::Sext } else { Ck::Zext };
            let w2 = if op == B::Mul { (2 * w).min(128) } else { w + 1 };
            let x = self.cast(st, k, w, w2, &a[0])?;
            let y = self.cast(st, k, w, w2, &a[1])?;
            let full = if w2 > 64 {
                let (x, y) = (self.to_x(&x, w2)?, self.to_x(&y, w2)?);
                let r = self.a.bin(op, x, y);
                self.of_x(r)
            } else {
                self.binop(st, op, w2, &x, &y)?
            };
            let r = self.cast(st, Ck::Trunc, w2, w, &full)?;
            let back = self.cast(st, k, w, w2, &r)?;
            let (fx, bx) = (self.to_x(&full, w2)?, self.to_x(&back, w2)?);
            let eq = self.a.cmp(P::Eq, fx, bx);
            let ne = self.a.not(eq);
            let o = self.of_x(ne);
            return Ok(Val::A(Rc::new(vec![r, o])));
        }
        if is("threadlocal.address") || is("ptrmask") && false {
            return Ok(a[0].clone());
        }
        if is("expect") || is("launder.invariant.group") || is("strip.invariant.group") {
            return Ok(a[0].clone());
        }
        if is("trap") {
            return Err(Stop::Panic("trap".into()));
        }
        if is("is.constant") {
            return Ok(Val::C(0));
        }
        if is("fshl") || is("fshr") {
            let left = is("fshl");
            let s = self.conc(st, &a[2])? % w as u64;
            let s = if left { s } else { (w as u64 - s) % w as u64 };
            if s == 0 {
                return Ok(if left { a[0].clone() } else { a[1].clone() });
            }
            let hi = self.binop(st, B::Shl, w, &a[0], &Val::C(s))?;
            let lo = self.binop(st, B::LShr, w, &a[1], &Val::C(w as u64 - s))?;
            return self.binop(st, B::Or, w, &hi, &lo);
        }
        // unary bit tricks: table over one byte, else concretise
        if is("ctlz") || is("cttz") || is("ctpop") || is("bswap") || is("bitreverse") {
            if w > 64 {
                let v = match &a[0] {
                    Val::C(c) => *c as u128,
                    Val::W(c) => **c,
                    _ => return eng(format!("{} of a symbolic integer of more than 64 bits", n)),
                };
                let r = if is("ctlz") {
                    (v.leading_zeros() - (128 - w)) as u128
                } else if is("cttz") {
                    v.trailing_zeros().min(w) as u128
                } else if is("ctpop") {
                    v.count_ones() as u128
                } else if is("bswap") {
                    v.swap_bytes() >> (128 - w)
                } else {
                    v.reverse_bits() >> (128 - w)
                };
                return Ok(Val::W(Rc::new(r)));
            }
            let f = |v: u64| -> u64 {
                if is("ctlz") {
                    if v == 0 {
                        w as u64
                    } else {
                        v.leading_zeros() as u64 - (64 - w as u64)
                    }
                } else if is("cttz") {
                    if v == 0 {
                        w as u64
                    } else {
                        v.trailing_zeros() as u64
                    }
                } else if is("ctpop") {
                    v.count_ones() as u64
                } else if is("bswap") {
                    v.swap_bytes() >> (64 - w)
                } else {
                    v.reverse_bits() >> (64 - w)
                }
            };
            if let Val::E(x) = a[0] {
                let x = self.norm(st, x);
                if let Some(v) = self.a.single(x) {
                    let t = self.a.table(x);
                    let out: Vec<u64> = t.iter().map(|v| f(*v)).collect();
                    let r = self.a.tab(v, out, rw);
                    return Ok(self.of_x(r));
                }
            }
            let v = self.conc(st, &a[0])?;
            return Ok(Val::C(f(v)));
        }
        eng(format!("intrinsic {}", n))
    }
    /// as above, where the exact result may not fit into 128 bits
    fn wide_overflow(&mut self, st: &mut State, op: B, signed: bool, w: u32, a: &Val, b: &Val) -> R<Val> {
        let r = self.binop(st, op, w, a, b)?;
        let o = match (op, signed) {
            (B::Add, false) => self.icmp(st, Pr::Ult, w, &r, a)?,
            (B::Sub, false) => self.icmp(st, Pr::Ult, w, a, b)?,
            (B::Add, true) | (B::Sub, true) => {
                let x = self.binop(st, B::Xor, w, a, if op == B::Add { &r } else { b })?;
                let y = self.binop(st, B::Xor, w, if op == B::Add { b } else { a }, &r)?;
                let z = self.binop(st, B::And, w, &x, &y)?;
                self.icmp(st, Pr::Slt, w, &z, &Val::C(0))?
            }
            _ => {
                // one factor is a constant
                let (x, c) = if matches!(b, Val::E(_)) { (b, a) } else { (a, b) };
                let c = match c {
                    Val::C(c) => *c as u128,
                    Val::W(c) => **c,
                    _ => return eng("product of symbolic integers of more than 64 bits"),
                };
                let lim = |v: u128| Val::W(Rc::new(crate::ir::mask128(v, w)));
                if c == 0 {
                    Val::C(0)
                } else if !signed {
                    self.icmp(st, Pr::Ugt, w, x, &lim(crate::ir::mask128(!0, w) / c))?
                } else {
                    let c = crate::ir::sext128(c, w);
                    let (min, max) = (i128::MIN >> (128 - w), i128::MAX >> (128 - w));
                    if c == -1 {
                        self.icmp(st, Pr::Eq, w, x, &lim(min as u128))?
                    } else {
                        let (lo, hi) = if c > 0 { (min / c, max / c) } else { (max / c, min / c) };
                        let l = self.icmp(st, Pr::Slt, w, x, &lim(lo as u128))?;
                        let h = self.icmp(st, Pr::Sgt, w, x, &lim(hi as u128))?;
                        self.binop(st, B::Or, 1, &l, &h)?
                    }
                }
            }
        };
        Ok(Val::A(Rc::new(vec![r, o])))
    }
    fn ite_val(&mut self, c: Val, a: &Val, b: &Val, w: u32) -> R<Val> {
        match c {
            Val::C(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::E(x) => {
                let (p, q) = (self.to_x(a, w)?, self.to_x(b, w)?);
                let r = self.a.ite(x, p, q);
                Ok(self.of_x(r))
            }
            _ => eng("ite"),
        }
    }
    fn new_var(&mut self, st: &mut State, d: Dom) -> X {
        let i = st.dom.len();
        st.dom.push(d);
        st.ent.push(false);
        st.wit.push(dom_pick(&d));
        self.a.var(i as u16)
    }
    fn loc(&mut self, st: &State, a: &[Val]) -> String {
        // last pointer argument that looks like &'static Location
        if let Some(Val::C(p)) = a.last() {
            if let (Ok(fp), Ok(fl), Ok(line)) = (self.peek(st, *p, 8), self.peek(st, *p + 8, 8), self.peek(st, *p + 16, 4)) {
                if fl < 400 {
                    if let Ok(b) = self.rd_bytes(st, fp, fl as usize) {
                        return format!("{}:{}", String::from_utf8_lossy(&b), line);
                    }
                }
            }
        }
        "?".into()
    }
    fn peek(&self, st: &State, a: u64, n: usize) -> R<u64> {
        let (o, off) = self.obj(st, a, n)?;
        match o.rd(off, n) {
            Some(v) => Ok(v),
            None => eng("peek"),
        }
    }
    fn violate(&mut self, st: &State, code: String, asg: Vec<u8>) {
        let trace = self.backtrace(st);
        self.violations.push(Violation { code, model: asg, trace });
    }

    fn external(&mut self, st: &mut State, fid: usize, args: &[Opd], aw: &[u32], _rw: u32) -> R<Val> {
        let a: Vec<Val> = args.iter().map(|o| self.op(st, *o)).collect();
        let e = self.ext[fid];
        match e {
            Ext::Alloc | Ext::AllocZ => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 30 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                Ok(Val::C(self.alloc(st, n as usize)))
            }
            Ext::Malloc | Ext::Calloc => {
                let mut n = self.conc(st, &a[0])?;
                if let Ext::Calloc = e {
                    n = n.saturating_mul(self.conc(st, &a[1])?);
                }
                if n > 1 << 30 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                Ok(Val::C(self.alloc(st, n as usize)))
            }
            Ext::Memalign => {
                let (pp, n) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                if n > 1 << 30 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                let q = self.alloc(st, n as usize);
                self.store(st, pp, &Val::C(q), 64)?;
                Ok(Val::C(0))
            }
            Ext::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    self.dealloc(st, p)?;
                }
                Ok(Val::C(0))
            }
            Ext::CRealloc => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                if n > 1 << 30 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                let q = self.alloc(st, n as usize);
                if p != 0 {
                    let old = self.obj(st, p, 0)?.0.len();
                    self.copy(st, q, p, old.min(n as usize))?;
                    self.dealloc(st, p)?;
                }
                Ok(Val::C(q))
            }
            Ext::Dealloc => {
                let p = self.conc(st, &a[0])?;
                self.dealloc(st, p)?;
                Ok(Val::C(0))
            }
            Ext::Realloc => {
                let n = self.conc(st, &a[3])?;
                let p = self.conc(st, &a[0])?;
                let old = self.conc(st, &a[1])?;
                if n > 1 << 30 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                let q = self.alloc(st, n as usize);
                self.copy(st, q, p, old.min(n) as usize)?;
                self.dealloc(st, p)?;
                Ok(Val::C(q))
            }
            // the hash depends on the map's key (every map has its own), the number of bytes written and small numbers written
            Ext::SipWrite => {
                let h = self.conc(st, &a[0])?;
                let mut n = self.conc(st, &a[2])?;
                if n == 8 {
                    // a discriminant or small number (no name: seven bytes are zero)
                    let q = self.conc(st, &a[1])?;
                    if let Val::C(c) = self.load(st, q, 64)? {
                        if c < 256 {
                            n += c << 8;
                        }
                    }
                }
                for k in [0u64, 32, 48] {
                    if let Val::C(c) = self.load(st, h + k, 64)? {
                        let c = (c ^ (n + 1)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
                        self.store(st, h + k, &Val::C(c), 64)?;
                    }
                }
                Ok(Val::C(0))
            }
            Ext::NoShim | Ext::Ret0 => Ok(Val::C(0)),
            Ext::RetM1 => {
                self.set_errno(st, 38)?;
                Ok(Val::C(0xffff_ffff))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, &a[2])? as usize;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                // concrete prefix first
                let mut any = false;
                for k in 0..n as u64 {
                    let (x, y) = (self.byte(st, p + k)?, self.byte(st, q + k)?);
                    if x < 256 && y < 256 {
                        if x != y && (!any || e == Ext::Bcmp) {
                            return Ok(Val::C(if x < y { 0xffff_ffff } else { 1 }));
                        }
                    } else {
                        any = true;
                    }
                }
                if !any {
                    return Ok(Val::C(0));
                }
                if e == Ext::Bcmp {
                    let mut acc = self.a.cst(1, 1);
                    for k in 0..n as u64 {
                        let (x, y) = (self.byte_x(st, p + k)?, self.byte_x(st, q + k)?);
                        let (x, y) = (self.norm(st, x), self.norm(st, y));
                        let c = self.a.cmp(P::Eq, x, y);
                        acc = self.a.and1(acc, c);
                    }
                    let z = self.a.cst(0, 32);
                    let o = self.a.cst(1, 32);
                    let r = self.a.ite(acc, z, o);
                    return Ok(self.of_x(r));
                }
                let mut r = self.a.cst(0, 32);
                for k in (0..n as u64).rev() {
                    let (x, y) = (self.byte_x(st, p + k)?, self.byte_x(st, q + k)?);
                    let (x, y) = (self.norm(st, x), self.norm(st, y));
                    let eq = self.a.cmp(P::Eq, x, y);
                    let lt = self.a.cmp(P::Ult, x, y);
                    let m = self.a.cst(0xffff_ffff, 32);
                    let o = self.a.cst(1, 32);
                    let s = self.a.ite(lt, m, o);
                    r = self.a.ite(eq, r, s);
                }
                Ok(self.of_x(r))
            }
            Ext::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut k = 0;
                loop {
                    let b = self.byte(st, p + k)?;
                    if b == 0 {
                        return Ok(Val::C(k));
                    }
                    if b >= 256 {
                        return eng("strlen of symbolic data");
                    }
                    k += 1;
                }
            }
            Ext::Panic => {
                let l = self.loc(st, &a);
                Err(Stop::Panic(format!("{} at {}", demangle(&self.m.funcs[fid].name), l)))
            }
            Ext::Abort => Err(Stop::Panic("abort".into())),
            Ext::SymU8 => {
                let x = self.new_var(st, FULL);
                Ok(Val::E(x))
            }
            Ext::SymChoice => {
                let n = self.conc(st, &a[0])?;
                if n == 0 || n > 256 {
                    return eng("sym_choice range");
                }
                // the variable is created once even though the instruction is re-executed after a fork
                let key = st.steps;
                let x = match st.pending_choice(key) {
                    Some(x) => x,
                    None => {
                        let mut d = [0u64; 4];
                        for i in 0..n as usize {
                            d[i >> 6] |= 1 << (i & 63);
                        }
                        let x = self.new_var(st, d);
                        let v = st.wit.len() - 1;
                        st.wit[v] = 0;
                        let tag = self.a.zext(x, 64);
                        st.concr.push((tag, (1u128 << 64) + key as u128));
                        x
                    }
                };
                let z = self.a.zext(x, 32);
                let v = self.concretise(st, z)?;
                Ok(Val::C(v as u64))
            }
            Ext::SymIn => {
                // fresh byte restricted to a concrete set of bytes
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])? as usize;
                let b = self.rd_bytes(st, p, n)?;
                let mut d = [0u64; 4];
                for v in &b {
                    d[(*v >> 6) as usize] |= 1 << (*v & 63);
                }
                if dom_empty(&d) {
                    return eng("sym_in: empty set");
                }
                let x = self.new_var(st, d);
                let v = st.wit.len() - 1;
                st.wit[v] = b[0];
                if dom_count(&d) == 1 {
                    return Ok(Val::C(b[0] as u64));
                }
                Ok(Val::E(x))
            }
            Ext::SymAssume => {
                match a[0] {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    Val::E(x) => {
                        let x = self.norm(st, x);
                        match self.a.as_const(x) {
                            Some(1) => {}
                            Some(_) => return Err(Stop::Infeasible),
                            None => match self.feasible(st, x)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    self.set_wit(st, &m);
                                    self.add(st, x)?;
                                }
                            },
                        }
                    }
                    _ => return eng("assume"),
                }
                Ok(Val::C(0))
            }
            Ext::SymAssert => {
                // sym_assert(cond, code_ptr, code_len)
                self.st_asserts += 1;
                let x = match a[0] {
                    Val::C(c) => {
                        if c & 1 == 1 {
                            return Ok(Val::C(0));
                        }
                        None
                    }
                    Val::E(x) => {
                        let x = self.norm(st, x);
                        match self.a.as_const(x) {
                            Some(1) => return Ok(Val::C(0)),
                            Some(_) => None,
                            None => Some(x),
                        }
                    }
                    _ => return eng("assert"),
                };
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as usize;
                let code = String::from_utf8_lossy(&self.rd_bytes(st, p, n)?).to_string();
                match x {
                    None => {
                        let w = st.wit.clone();
                        self.violate(st, code, w);
                        Err(Stop::Infeasible)
                    }
                    Some(x) => {
                        self.st_asserts_smt += 1;
                        let nx = self.a.not(x);
                        if let Some(m) = self.query(st, &[nx], None)? {
                            let mut w = st.wit.clone();
                            for (v, b) in &m {
                                w[*v as usize] = *b;
                            }
                            self.violate(st, code, w);
                            // continue where it holds
                            match self.query(st, &[x], None)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => self.set_wit(st, &m),
                            }
                        }
                        self.add(st, x)?;
                        Ok(Val::C(0))
                    }
                }
            }
            Ext::SymEqAssert => {
                // sym_assert_eq(p, plen, q, qlen, code, codelen): byte strings equal, decided by one query
                self.st_asserts += 1;
                let (p, pn) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let (q, qn) = (self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let cp = self.conc(st, &a[4])?;
                let cn = self.conc(st, &a[5])? as usize;
                let code = String::from_utf8_lossy(&self.rd_bytes(st, cp, cn)?).to_string();
                let mut acc = self.a.cst(1, 1);
                if pn != qn {
                    acc = self.a.cst(0, 1);
                } else {
                    for k in 0..pn {
                        let (x, y) = (self.byte_x(st, p + k)?, self.byte_x(st, q + k)?);
                        if x == y {
                            continue;
                        }
                        let (x, y) = (self.norm(st, x), self.norm(st, y));
                        let c = self.a.cmp(P::Eq, x, y);
                        acc = self.a.and1(acc, c);
                    }
                }
                if self.a.as_const(acc) == Some(1) {
                    return Ok(Val::C(0));
                }
                self.st_asserts_smt += 1;
                let nx = self.a.not(acc);
                let m = if self.a.as_const(nx) == Some(1) { Some(vec![]) } else { self.query(st, &[nx], None)? };
                if let Some(m) = m {
                    let mut w = st.wit.clone();
                    for (v, b) in &m {
                        w[*v as usize] = *b;
                    }
                    self.violate(st, code, w);
                    if self.a.as_const(acc).is_some() {
                        return Err(Stop::Infeasible);
                    }
                    match self.query(st, &[acc], None)? {
                        None => return Err(Stop::Infeasible),
                        Some(m) => self.set_wit(st, &m),
                    }
                }
                self.add(st, acc)?;
                Ok(Val::C(0))
            }
            Ext::SymObserve => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for k in 0..n {
                    let b = self.byte(st, p + k)?;
                    st.obs.push(b);
                }
                Ok(Val::C(0))
            }
            Ext::SymFinding => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])? as usize;
                let s = String::from_utf8_lossy(&self.rd_bytes(st, p, n)?).to_string();
                let w = st.wit.clone();
                if !self.findings.iter().any(|(k, _)| *k == s) {
                    self.findings.push((s.clone(), w));
                }
                *self.notes.entry(format!("finding:{}", s)).or_insert(0) += 1;
                Ok(Val::C(0))
            }
            Ext::SymNote | Ext::SymReach => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])? as usize;
                let s = String::from_utf8_lossy(&self.rd_bytes(st, p, n)?).to_string();
                *self.notes.entry(s).or_insert(0) += 1;
                Ok(Val::C(0))
            }
            Ext::SymConcrete => {
                // fork until the byte range is concrete
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for k in 0..n {
                    let b = self.byte(st, p + k)?;
                    if b >= 256 {
                        let v = self.concretise(st, b - 256)?;
                        self.store(st, p + k, &Val::C(v as u64), 8)?;
                    }
                }
                Ok(Val::C(0))
            }
            Ext::Getenv => Ok(Val::C(0)),
            Ext::Errno => Ok(Val::C(((self.heap_base + ERRNO_ID_OFF) as u64) << 32)),
            Ext::Syscall => {
                let n = self.conc(st, &a[0])?;
                match n {
                    318 => {
                        // getrandom(buf, len, flags)
                        let p = self.conc(st, &a[1])?;
                        let l = self.conc(st, &a[2])?;
                        for k in 0..l {
                            self.store(st, p + k, &Val::C(7), 8)?;
                        }
                        Ok(Val::C(l))
                    }
                    // statx: not available, fstat is used
                    332 => {
                        self.set_errno(st, 38)?;
                        Ok(Val::C(!0))
                    }
                    _ => eng(format!("syscall {}", n)),
                }
            }
            Ext::Getrandom => {
                let p = self.conc(st, &a[0])?;
                let l = self.conc(st, &a[1])?;
                for k in 0..l {
                    self.store(st, p + k, &Val::C(7), 8)?;
                }
                Ok(Val::C(l))
            }
            Ext::SymFile => {
                // registers the contents of the only readable file; reads may be short at any point
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let mut d = vec![];
                for k in 0..n {
                    d.push(self.byte(st, p + k)?);
                }
                st.files = vec![VFile { data: Rc::new(d), pos: 0, failed: false, faults: 0, size: n }];
                Ok(Val::C(0))
            }
            Ext::SymSize => {
                // what the system says about the size of the file
                let n = self.conc(st, &a[0])?;
                if let Some(f) = st.files.first_mut() {
                    f.size = n;
                }
                Ok(Val::C(0))
            }
            Ext::Lseek => {
                let fd = self.conc(st, &a[0])?;
                let off = self.conc(st, &a[1])?;
                let whence = self.conc(st, &a[2])? as u32;
                match st.files.first_mut() {
                    Some(f) if fd as u32 == 77 => {
                        let to = off.wrapping_add([0, f.pos as u64, f.size][(whence as usize).min(2)]);
                        f.pos = (to as usize).min(f.data.len());
                        Ok(Val::C(to))
                    }
                    _ => {
                        self.set_errno(st, 29)?;
                        Ok(Val::C(!0))
                    }
                }
            }
            Ext::Readv | Ext::Writev => {
                // a system may always do no more than the first part
                let v = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as u32 as u64;
                for k in 0..n {
                    let l = self.load(st, v + 16 * k + 8, 64)?;
                    if self.conc(st, &l)? != 0 || k == n - 1 {
                        let p = self.load(st, v + 16 * k, 64)?;
                        let e = if e == Ext::Readv { Ext::Read } else { Ext::Write };
                        return self.file_op(st, e, &[a[0].clone(), p, l]);
                    }
                }
                Ok(Val::C(0))
            }
            Ext::Stat => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let mut name = vec![];
                loop {
                    let b = self.byte(st, p + name.len() as u64)?;
                    if b == 0 {
                        break;
                    }
                    name.push(b);
                }
                if st.files.is_empty() || name != b"sample.json".iter().map(|b| *b as u32).collect::<Vec<_>>() {
                    self.set_errno(st, 2)?;
                    return Ok(Val::C(0xffff_ffff));
                }
                let n = st.files[0].size;
                for k in 0..18 {
                    self.store(st, q + 8 * k, &Val::C(0), 64)?;
                }
                self.store(st, q + 24, &Val::C(0o100644), 32)?;
                self.store(st, q + 48, &Val::C(n), 64)?;
                Ok(Val::C(0))
            }
            Ext::SymFailed => Ok(Val::C((st.outs.iter().any(|o| o.failed) || st.files.first().map_or(false, |f| f.failed)) as u64)),
            Ext::SymDone => Err(Stop::Done),
            Ext::SymRestart => {
                // every static (and thread local) as at the start of the process
                for k in 0..self.init_heap.len() {
                    st.heap[k] = self.init_heap[k].clone();
                }
                Ok(Val::C(0))
            }
            Ext::KeyCreate => {
                let p = self.conc(st, &a[0])?;
                self.store(st, p, &Val::C(3), 32)?;
                Ok(Val::C(0))
            }
            Ext::SymOut => {
                // sym_out(which, buffer, capacity) -> length, or all ones if nothing was opened or written
                let w = self.conc(st, &a[0])? as usize;
                let p = self.conc(st, &a[1])?;
                let cap = self.conc(st, &a[2])? as usize;
                let o = st.outs[w].clone();
                if !o.touched {
                    return Ok(Val::C(!0));
                }
                for (k, b) in o.data.iter().take(cap).enumerate() {
                    let v = if *b >= 256 { Val::E(*b - 256) } else { Val::C(*b as u64) };
                    self.store(st, p + k as u64, &v, 8)?;
                }
                Ok(Val::C(o.data.len() as u64))
            }
            Ext::Strerror => {
                let n = self.conc(st, &a[0])?;
                let p = self.conc(st, &a[1])?;
                let t: &[u8] = match n as u32 {
                    2 => b"No such file or directory",
                    4 => b"Interrupted system call",
                    5 => b"Input/output error",
                    9 => b"Bad file descriptor",
                    13 => b"Permission denied",
                    29 => b"Illegal seek",
                    38 => b"Function not implemented",
                    28 => b"No space left on device",
                    _ => return eng(format!("strerror {}", n)),
                };
                for (k, c) in t.iter().chain(b"\0").enumerate() {
                    self.store(st, p + k as u64, &Val::C(*c as u64), 8)?;
                }
                Ok(Val::C(0))
            }
            Ext::Open | Ext::Read | Ext::Close | Ext::Fstat | Ext::Write => self.file_op(st, e, &a),
            Ext::None => {
                let _ = aw;
                eng(format!("call of external {}", demangle(&self.m.funcs[fid].name)))
            }
        }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        let p = ((self.heap_base + ERRNO_ID_OFF) as u64) << 32;
        self.store(st, p, &Val::C(e), 32)
    }
    /// one of the given outcomes
    fn fault(&mut self, st: &mut State, of: &[u8]) -> R<u8> {
        let key = st.steps;
        let x = match st.pending_choice(key) {
            Some(x) => x,
            None => {
                let mut d = [0u64; 4];
                for i in of {
                    d[0] |= 1 << i;
                }
                let x = self.new_var(st, d);
                let v = st.wit.len() - 1;
                st.wit[v] = of[0];
                let tag = self.a.zext(x, 64);
                st.concr.push((tag, (1u128 << 64) + key as u128));
                x
            }
        };
        let z = self.a.zext(x, 32);
        Ok(self.concretise(st, z)? as u8)
    }
    fn file_op(&mut self, st: &mut State, e: Ext, a: &[Val]) -> R<Val> {
        match e {
            Ext::Open => {
                let p = self.conc(st, &a[0])?;
                let flags = self.conc(st, &a[1])?;
                let mut name = vec![];
                loop {
                    let b = self.byte(st, p + name.len() as u64)?;
                    if b == 0 || name.len() > 40 {
                        break;
                    }
                    name.push(if b < 256 { b as u8 } else { 0xff });
                }
                if name == b"out.txt" && flags & 3 != 0 {
                    // opening it may fail
                    if self.fault(st, &[0, 1])? == 1 {
                        self.set_errno(st, 13)?;
                        st.outs[1].failed = true;
                        return Ok(Val::C(0xffff_ffff));
                    }
                    let o = &mut st.outs[1];
                    if !o.touched {
                        // what it held before
                        o.data = Rc::new(b"OLD".iter().map(|b| *b as u32).collect());
                    }
                    if flags & 0o1000 != 0 {
                        o.data = Rc::new(vec![]);
                    }
                    o.touched = true;
                    return Ok(Val::C(78));
                }
                if st.files.is_empty() || name != b"sample.json" {
                    self.set_errno(st, 2)?;
                    return Ok(Val::C(0xffff_ffff));
                }
                Ok(Val::C(77))
            }
            Ext::Write => {
                let fd = self.conc(st, &a[0])?;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let w = match fd as u32 {
                    1 => 0,
                    78 => 1,
                    _ => return Ok(Val::C(n)),
                };
                let mut take = n;
                if n > 0 {
                    // everything, one byte, half of it, all but one; interrupted; no space
                    let mut c = vec![0];
                    if st.outs[w].faults < if w == 1 { 2 } else { 1 } {
                        if n > 1 {
                            c.extend(if w == 1 { vec![1, 2, 3] } else { vec![2] });
                        }
                        c.push(4);
                    }
                    c.push(5);
                    let v = self.fault(st, &c)?;
                    if v != 0 {
                        st.outs[w].faults += 1;
                    }
                    match v {
                        4 | 5 => {
                            self.set_errno(st, if v == 4 { 4 } else { 28 })?;
                            if v == 5 {
                                st.obs.push(0xEF);
                                st.outs[w].failed = true;
                            }
                            return Ok(Val::C(!0));
                        }
                        1 => take = 1,
                        2 => take = n / 2,
                        3 => take = n - 1,
                        _ => {}
                    }
                }
                let mut d = vec![];
                for k in 0..take {
                    d.push(self.byte(st, p + k)?);
                }
                let o = &mut st.outs[w];
                o.touched = true;
                Rc::make_mut(&mut o.data).extend(d);
                Ok(Val::C(take))
            }
            Ext::Close => Ok(Val::C(0)),
            Ext::Fstat => {
                // a regular file and its size
                let fd = self.conc(st, &a[0])?;
                let p = self.conc(st, &a[1])?;
                match st.files.first() {
                    Some(f) if fd == 77 => {
                        let n = f.size;
                        for k in 0..18 {
                            self.store(st, p + 8 * k, &Val::C(0), 64)?;
                        }
                        self.store(st, p + 24, &Val::C(0o100644), 32)?;
                        self.store(st, p + 48, &Val::C(n), 64)?;
                        Ok(Val::C(0))
                    }
                    _ => {
                        self.set_errno(st, 9)?;
                        Ok(Val::C(0xffff_ffff))
                    }
                }
            }
            Ext::Read => {
                let buf = self.conc(st, &a[1])?;
                let cap = self.conc(st, &a[2])? as usize;
                let f = match st.files.first() {
                    Some(f) => f.clone(),
                    None => return eng("read of unknown file"),
                };
                let left = f.data.len() - f.pos;
                let max = left.min(cap);
                // fault schedule: any short count, or EINTR / EIO
                let key = st.steps;
                let x = match st.pending_choice(key) {
                    Some(x) => x,
                    None => {
                        let mut d = [0u64; 4];
                        let n = reads(max, f.data.len() > LONG);
                        for i in 0..n {
                            // at most three short or interrupted reads (one, of a long file), then the rest, or an error
                            if f.faults < (if f.data.len() > HUGE { 0 } else if f.data.len() > LONG { 1 } else { 3 }) || i == 0 || i == n - 1 {
                                d[i >> 6] |= 1 << (i & 63);
                            }
                        }
                        let x = self.new_var(st, d);
                        let v = st.wit.len() - 1;
                        st.wit[v] = 0;
                        let tag = self.a.zext(x, 64);
                        st.concr.push((tag, (1u128 << 64) + key as u128));
                        x
                    }
                };
                let z = self.a.zext(x, 32);
                let v = self.concretise(st, z)? as usize;
                let n = reads(max, f.data.len() > LONG);
                // 0 = everything available, 1..max-1 = short, last two = EINTR, EIO
                if v != 0 {
                    st.files[0].faults += 1;
                }
                if v == n - 1 {
                    self.set_errno(st, 5)?;
                    *self.notes.entry("io-error".into()).or_insert(0) += 1;
                    st.obs.push(0xEE);
                    st.files[0].failed = true;
                    return Ok(Val::C(!0));
                }
                if v == n - 2 && max > 0 {
                    self.set_errno(st, 4)?;
                    return Ok(Val::C(!0));
                }
                let take = if max == 0 { 0 } else if v == 0 { max } else if f.data.len() > LONG { [1, max / 2, max - 1, 4096][v - 1].clamp(1, max) } else { v };
                for k in 0..take {
                    let b = f.data[f.pos + k];
                    let val = if b >= 256 { Val::E(b - 256) } else { Val::C(b as u64) };
                    self.store(st, buf + k as u64, &val, 8)?;
                }
                st.files[0].pos += take;
                Ok(Val::C(take as u64))
            }
            _ => unreachable!(),
        }
    }
}

impl State {
    fn pending_choice(&self, key: u64) -> Option<X> {
        self.concr.iter().rev().find(|(_, v)| *v == (1u128 << 64) + key as u128).map(|(x, _)| *x)
    }
}

fn insert(a: &Val, v: &Val, path: &[usize]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    match a {
        Val::A(l) => {
            let mut l = (**l).clone();
            l[path[0]] = insert(&l[path[0]], v, &path[1..]);
            Val::A(Rc::new(l))
        }
        _ => panic!("insertvalue"),
    }
}

fn fill(b: &mut [u8], cv: &CV, ty: &Ty, off: usize, syms: &Syms) {
    match cv {
        CV::Int(v) => {
            let n = ty.store_size() as usize;
            b[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        CV::Glob(g, o) => {
            let a = (syms.addr[g] as i64 + o) as u64;
            b[off..off + 8].copy_from_slice(&a.to_le_bytes());
        }
        CV::Bytes(s) => b[off..off + s.len()].copy_from_slice(s),
        CV::Agg(v) => {
            for (i, c) in v.iter().enumerate() {
                fill(b, c, &ty.elem(i), off + ty.field_off(i) as usize, syms);
            }
        }
        CV::Zero | CV::Undef => {}
    }
}

/// readable form of a v0-mangled Rust symbol (identifiers only)
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && s.is_char_boundary(j) && s.is_char_boundary(j + n) {
                let id = &s[j..j + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !(id.len() < 3 && id.bytes().all(|c| c.is_ascii_uppercase())) {
                    out.push(id);
                }
                i = j + n;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / back-reference: base-62 number ended by '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}
