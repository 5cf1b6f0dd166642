//! Lowering of LLVM function bodies to register code.
use crate::expr::B;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Opd = i32; // >= 0 register, < 0 constant !x

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(u32),
    A(Rc<Vec<Val>>),
    W(Rc<u128>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pr {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ck {
    Zext,
    Sext,
    Trunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
}

#[derive(Debug)]
pub enum Callee {
    Fn(usize),
    Ptr(Opd),
    Intr(String),
    Asm,
}

#[derive(Debug)]
pub struct Edge {
    pub to: usize,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum I {
    Nop,
    Bin { op: B, w: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pr, w: u32, dst: u32, a: Opd, b: Opd },
    VBin { op: B, w: u32, dst: u32, a: Opd, b: Opd },
    VIcmp { p: Pr, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: Ck, from: u32, to: u32, dst: u32, a: Opd },
    VCast { k: Ck, from: u32, to: u32, dst: u32, a: Opd },
    Copy { dst: u32, a: Opd },
    /// w == 0: pointer or aggregate, forks on a symbolic condition
    Select { dst: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    Load { dst: u32, p: Opd, w: u32 },
    LoadT { dst: u32, p: Opd, ty: Ty },
    Store { p: Opd, v: Opd, w: u32 },
    StoreT { p: Opd, v: Opd, ty: Ty },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { dst: u32, size: u64 },
    Call { dst: i32, f: Callee, args: Vec<Opd>, aw: Vec<u32>, rw: u32, next: Option<usize> },
    Ret(Option<Opd>),
    Br(usize),
    CondBr { c: Opd, t: usize, f: usize },
    Switch { v: Opd, w: u32, cases: HashMap<u64, usize>, order: Vec<(u64, usize)>, def: usize },
    Unreachable,
    ExtractV { dst: u32, a: Opd, path: Vec<usize> },
    InsertV { dst: u32, a: Opd, v: Opd, path: Vec<usize> },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<usize> },
    InsertE { dst: u32, a: Opd, v: Opd, i: Opd },
    ExtractE { dst: u32, a: Opd, i: Opd },
    BitcastV { dst: u32, a: Opd, from: Ty, to: Ty },
    Rmw { dst: u32, op: Rmw, p: Opd, v: Opd, w: u32 },
    CmpXchg { dst: u32, p: Opd, c: Opd, n: Opd, w: u32 },
    /// floating point: on concrete operands only
    Fp { op: String, from: u32, to: u32, dst: u32, a: Opd, b: Option<Opd> },
    Unsupported(String),
}

pub struct Func {
    pub id: usize,
    pub name: String,
    pub nargs: usize,
    pub nregs: usize,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub consts: Vec<Val>,
}

pub struct Syms {
    pub addr: HashMap<String, u64>,
    pub fid: HashMap<String, usize>,
}

pub fn zero_val(ty: &Ty) -> Val {
    match ty {
        Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
        Ty::Int(_) | Ty::Ptr => Val::C(0),
        Ty::Float(w) if *w > 64 => Val::W(Rc::new(0)),
        Ty::Float(_) => Val::C(0),
        Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        _ => Val::C(0),
    }
}

pub fn cv_val(cv: &CV, ty: &Ty, syms: &Syms) -> Val {
    match cv {
        CV::Int(v) => match ty {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(*v)),
            Ty::Float(w) if *w > 64 => Val::W(Rc::new(*v)),
            _ => Val::C(*v as u64),
        },
        CV::Glob(g, o) => Val::C((*syms.addr.get(g).unwrap_or_else(|| panic!("unknown global {}", g)) as i64 + o) as u64),
        CV::Agg(v) => Val::A(Rc::new(v.iter().enumerate().map(|(i, c)| cv_val(c, &ty.elem(i), syms)).collect())),
        CV::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
        CV::Zero | CV::Undef => zero_val(ty),
    }
}

struct Lw<'m> {
    m: &'m Module,
    syms: &'m Syms,
    regs: HashMap<String, u32>,
    consts: Vec<Val>,
    nregs: u32,
}

fn width(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        Ty::Float(w) => *w,
        _ => 0,
    }
}

impl<'m> Lw<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn konst(&mut self, v: Val) -> Opd {
        if let Val::C(c) = v {
            for (i, k) in self.consts.iter().enumerate() {
                if let Val::C(d) = k {
                    if *d == c {
                        return !(i as i32);
                    }
                }
            }
        }
        self.consts.push(v);
        !((self.consts.len() - 1) as i32)
    }
    fn opd(&mut self, c: &mut Cur, ty: &Ty) -> Opd {
        if let Some(Tok::Loc(n)) = c.peek() {
            let n = *n;
            c.i += 1;
            return self.reg(n) as i32;
        }
        let cv = c.cv(ty);
        let v = cv_val(&cv, ty, self.syms);
        self.konst(v)
    }
    fn ty_opd(&mut self, c: &mut Cur) -> (Ty, Opd) {
        let t = c.ty();
        skip_attrs(c);
        let o = self.opd(c, &t);
        (t, o)
    }
}

/// skip parameter/return attributes up to the value or callee
fn skip_attrs(c: &mut Cur) {
    loop {
        match c.peek() {
            Some(Tok::Word(w)) => {
                let w = *w;
                if w.starts_with("f0x") {
                    return;
                }
                if matches!(
                    w,
                    "true" | "false" | "null" | "none" | "zeroinitializer" | "undef" | "poison" | "splat"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "asm"
                ) {
                    return;
                }
                c.i += 1;
                if w == "align" && matches!(c.peek(), Some(Tok::Num(_))) {
                    c.i += 1;
                } else if c.is_p('(') {
                    c.skip_parens();
                }
            }
            Some(Tok::Str(_)) => {
                c.i += 1;
                if c.is_p('=') {
                    c.i += 2;
                }
            }
            Some(Tok::Hash) => c.i += 1,
            _ => return,
        }
    }
}

pub fn lower(m: &Module, syms: &Syms, id: usize) -> Func {
    let fd = &m.funcs[id];
    let mut lw = Lw { m, syms, regs: HashMap::new(), consts: vec![], nregs: 0 };
    // arguments
    let ht = tokenize(fd.header);
    let mut c = Cur { t: &ht, i: 0, named: &m.named };
    while !matches!(c.peek(), Some(Tok::Glob(_))) {
        c.i += 1;
    }
    c.i += 1;
    c.exp_p('(');
    let mut nargs = 0;
    let mut unnamed = 0;
    while !c.is_p(')') {
        if matches!(c.peek(), Some(Tok::Dots)) {
            c.i += 1;
            continue;
        }
        let _t = c.ty();
        skip_attrs(&mut c);
        if let Some(Tok::Loc(n)) = c.peek() {
            let n = *n;
            c.i += 1;
            if n.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            let r = lw.reg(n);
            assert_eq!(r as usize, nargs);
        } else {
            let r = lw.reg(&format!("{}", unnamed));
            assert_eq!(r as usize, nargs);
            unnamed += 1;
        }
        nargs += 1;
        c.eat_p(',');
    }
    let body = fd.body.unwrap();
    // split in blocks
    let mut lines: Vec<String> = Vec::new();
    {
        let mut it = body.lines().peekable();
        while let Some(l) = it.next() {
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') {
                continue;
            }
            let mut s = l.to_string();
            if tl.starts_with("switch ") && !tl.contains(']') {
                for n in it.by_ref() {
                    s.push(' ');
                    s.push_str(n);
                    if n.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                s.push(' ');
                s.push_str(it.next().unwrap());
            } else if tl.contains("= landingpad ") {
                while let Some(n) = it.peek() {
                    let t = n.trim_start();
                    if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            lines.push(s);
        }
    }
    let mut code: Vec<I> = Vec::new();
    let mut blocks: HashMap<String, usize> = HashMap::new();
    // phis per block: (dst, [(pred, opd)])
    let mut phis: HashMap<String, Vec<(u32, Vec<(String, Opd)>)>> = HashMap::new();
    // edges to patch: (from, to)
    let mut edges: Vec<(String, String)> = Vec::new();
    // the entry block's implicit label is the next unnamed value number
    let mut cur: String = format!("{}", unnamed);
    let mut first = true;
    for l in &lines {
        if !l.starts_with(' ') {
            // label
            let t = l.trim_end();
            let name = if let Some(q) = t.strip_prefix('"') {
                q[..q.find('"').unwrap()].to_string()
            } else {
                t[..t.find(':').unwrap()].to_string()
            };
            cur = name;
            blocks.insert(cur.clone(), code.len());
            first = false;
            continue;
        }
        if first {
            blocks.insert(cur.clone(), code.len());
            first = false;
        }
        let toks = tokenize(l);
        let mut c = Cur { t: &toks, i: 0, named: &m.named };
        let ins = lower_ins(&mut lw, &mut c, &cur, &mut phis, &mut edges, l);
        code.push(ins);
    }
    let mut es = Vec::new();
    for (from, to) in &edges {
        let ip = *blocks.get(to).unwrap_or_else(|| panic!("no block {} in {}", to, fd.name));
        let mut moves = Vec::new();
        if let Some(ps) = phis.get(to) {
            for (d, ins) in ps {
                let o = ins.iter().find(|(p, _)| p == from).unwrap_or_else(|| panic!("phi {} {}", from, to)).1;
                if o != *d as i32 {
                    moves.push((*d, o));
                }
            }
        }
        es.push(Edge { to: ip, moves });
    }
    Func { id, name: fd.name.clone(), nargs, nregs: lw.nregs as usize, code, edges: es, consts: lw.consts }
}

fn bin_op(w: &str) -> Option<B> {
    Some(match w {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        _ => return None,
    })
}

fn lower_ins(
    lw: &mut Lw,
    c: &mut Cur,
    cur: &str,
    phis: &mut HashMap<String, Vec<(u32, Vec<(String, Opd)>)>>,
    edges: &mut Vec<(String, String)>,
    line: &str,
) -> I {
    let mut dst: i32 = -1;
    if let Some(Tok::Loc(n)) = c.peek() {
        let n = *n;
        c.i += 2;
        dst = lw.reg(n) as i32;
    }
    let d = dst as u32;
    let mut label = |c: &mut Cur| -> usize {
        assert!(c.eat_w("label"));
        match c.next() {
            Tok::Loc(n) => {
                edges.push((cur.to_string(), n.to_string()));
                edges.len() - 1
            }
            t => panic!("label {:?}", t),
        }
    };
    let w = c.word();
    if let Some(op) = bin_op(w) {
        while matches!(c.peek(), Some(Tok::Word(x)) if ["nuw","nsw","exact","disjoint"].contains(x)) {
            c.i += 1;
        }
        let (t, a) = lw.ty_opd(c);
        c.exp_p(',');
        let b = lw.opd(c, &t);
        return match &t {
            Ty::Int(w) => I::Bin { op, w: *w, dst: d, a, b },
            Ty::Vec(_, e) => I::VBin { op, w: width(e), dst: d, a, b },
            _ => I::Unsupported(line.to_string()),
        };
    }
    if matches!(w, "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc") {
        while matches!(c.peek(), Some(Tok::Word(x)) if ["fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","nneg"].contains(x)) {
            c.i += 1;
        }
        let op = if w == "fcmp" { format!("fcmp {}", c.word()) } else { w.to_string() };
        let (t, a) = lw.ty_opd(c);
        let mut to = if w == "fcmp" { 1 } else { width(&t) };
        let b = if c.is_p(',') && w != "fneg" {
            c.exp_p(',');
            Some(lw.opd(c, &t))
        } else {
            None
        };
        if c.eat_w("to") {
            to = width(&c.ty());
        }
        if width(&t) == 0 || width(&t) > 64 || to == 0 || to > 64 || width(&t) == 16 && matches!(t, Ty::Float(_)) {
            return I::Unsupported(line.to_string());
        }
        return I::Fp { op, from: width(&t), to, dst: d, a, b };
    }
    match w {
        "icmp" => {
            c.eat_w("samesign");
            let p = match c.word() {
                "eq" => Pr::Eq,
                "ne" => Pr::Ne,
                "ugt" => Pr::Ugt,
                "uge" => Pr::Uge,
                "ult" => Pr::Ult,
                "ule" => Pr::Ule,
                "sgt" => Pr::Sgt,
                "sge" => Pr::Sge,
                "slt" => Pr::Slt,
                "sle" => Pr::Sle,
                x => panic!("icmp {}", x),
            };
            let (t, a) = lw.ty_opd(c);
            c.exp_p(',');
            let b = lw.opd(c, &t);
            match &t {
                Ty::Vec(_, e) => I::VIcmp { p, w: width(e), dst: d, a, b },
                _ => I::Icmp { p, w: width(&t), dst: d, a, b },
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" => {
            while matches!(c.peek(), Some(Tok::Word(x)) if ["nuw","nsw","nneg"].contains(x)) {
                c.i += 1;
            }
            let (t, a) = lw.ty_opd(c);
            if w == "freeze" {
                return I::Copy { dst: d, a };
            }
            assert!(c.eat_w("to"));
            let to = c.ty();
            match w {
                "bitcast" => match (&t, &to) {
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => I::BitcastV { dst: d, a, from: t, to },
                    _ => I::Copy { dst: d, a },
                },
                "ptrtoint" | "inttoptr" => {
                    let (fw, tw) = (width(&t), width(&to));
                    if fw == tw {
                        I::Copy { dst: d, a }
                    } else if fw > tw {
                        I::Cast { k: Ck::Trunc, from: fw, to: tw, dst: d, a }
                    } else {
                        I::Cast { k: Ck::Zext, from: fw, to: tw, dst: d, a }
                    }
                }
                _ => {
                    let k = match w {
                        "zext" => Ck::Zext,
                        "sext" => Ck::Sext,
                        _ => Ck::Trunc,
                    };
                    match (&t, &to) {
                        (Ty::Vec(_, e), Ty::Vec(_, f)) => I::VCast { k, from: width(e), to: width(f), dst: d, a },
                        _ => I::Cast { k, from: width(&t), to: width(&to), dst: d, a },
                    }
                }
            }
        }
        "select" => {
            let (ct, cc) = lw.ty_opd(c);
            c.exp_p(',');
            let (t, a) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, b) = lw.ty_opd(c);
            if let Ty::Vec(..) = ct {
                return I::Unsupported(line.to_string());
            }
            let w = if let Ty::Int(w) = t { w } else { 0 };
            I::Select { dst: d, c: cc, a, b, w }
        }
        "load" => {
            c.eat_w("atomic");
            c.eat_w("volatile");
            let t = c.ty();
            c.exp_p(',');
            let (_, p) = lw.ty_opd(c);
            match t {
                Ty::Int(_) | Ty::Ptr | Ty::Float(_) => I::Load { dst: d, p, w: width(&t) },
                _ => I::LoadT { dst: d, p, ty: t },
            }
        }
        "store" => {
            c.eat_w("atomic");
            c.eat_w("volatile");
            let (t, v) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, p) = lw.ty_opd(c);
            match t {
                Ty::Int(_) | Ty::Ptr | Ty::Float(_) => I::Store { p, v, w: width(&t) },
                _ => I::StoreT { p, v, ty: t },
            }
        }
        "getelementptr" => {
            while matches!(c.peek(), Some(Tok::Word(x)) if ["inbounds","nuw","nusw"].contains(x)) {
                c.i += 1;
            }
            let ety = c.ty();
            c.exp_p(',');
            let (_, base) = lw.ty_opd(c);
            let mut off = 0i64;
            let mut idx = Vec::new();
            let mut curt = ety;
            let mut first = true;
            while c.is_p(',') && !matches!(c.t.get(c.i + 1), Some(Tok::Bang(_))) {
                c.i += 1;
                let (it, o) = lw.ty_opd(c);
                let iw = width(&it);
                let konst = if o < 0 {
                    match &lw.consts[(!o) as usize] {
                        Val::C(v) => Some(sext128(*v as u128, iw) as i64),
                        _ => panic!("gep idx"),
                    }
                } else {
                    None
                };
                if first {
                    first = false;
                    let s = curt.size() as i64;
                    match konst {
                        Some(k) => off += k * s,
                        None => idx.push((o, iw, s)),
                    }
                } else {
                    match konst {
                        Some(k) => {
                            off += match &curt {
                                Ty::Struct(..) => curt.field_off(k as usize) as i64,
                                Ty::Arr(_, e) | Ty::Vec(_, e) => k * e.size() as i64,
                                _ => panic!(),
                            };
                            curt = match &curt {
                                Ty::Struct(f, _) => f[k as usize].clone(),
                                Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                _ => panic!(),
                            };
                        }
                        None => {
                            let e = curt.elem(0);
                            idx.push((o, iw, e.size() as i64));
                            curt = e;
                        }
                    }
                }
            }
            I::Gep { dst: d, base, off, idx }
        }
        "alloca" => {
            c.eat_w("inalloca");
            let t = c.ty();
            let mut size = t.size();
            if c.is_p(',') {
                if let Some(Tok::Word("align")) = c.t.get(c.i + 1) {
                } else if let Some(Tok::Word(x)) = c.t.get(c.i + 1) {
                    if x.starts_with('i') {
                        c.i += 1;
                        let _ = c.ty();
                        if let Tok::Num(n) = c.next() {
                            size *= n.parse::<u64>().unwrap();
                        } else {
                            return I::Unsupported(line.to_string());
                        }
                    }
                }
            }
            I::Alloca { dst: d, size }
        }
        "phi" => {
            let t = loop {
                if let Some(t) = c.try_ty() {
                    break t;
                }
                c.i += 1;
            };
            let mut ins = Vec::new();
            loop {
                c.exp_p('[');
                let o = lw.opd(c, &t);
                c.exp_p(',');
                let b = match c.next() {
                    Tok::Loc(n) => n.to_string(),
                    t => panic!("{:?}", t),
                };
                c.exp_p(']');
                ins.push((b, o));
                if c.is_p(',') && matches!(c.t.get(c.i + 1), Some(Tok::P('['))) {
                    c.i += 1;
                } else {
                    break;
                }
            }
            phis.entry(cur.to_string()).or_default().push((d, ins));
            I::Nop
        }
        "br" => {
            if c.is_w("label") {
                let e = label(c);
                return I::Br(e);
            }
            let (_, cc) = lw.ty_opd(c);
            c.exp_p(',');
            let t = label(c);
            c.exp_p(',');
            let f = label(c);
            I::CondBr { c: cc, t, f }
        }
        "switch" => {
            let (t, v) = lw.ty_opd(c);
            c.exp_p(',');
            let def = label(c);
            c.exp_p('[');
            let mut cases = HashMap::new();
            let mut order = Vec::new();
            while !c.eat_p(']') {
                let ct = c.ty();
                let k = match c.cv(&ct) {
                    CV::Int(v) => v as u64,
                    CV::Zero => 0,
                    x => panic!("{:?}", x),
                };
                c.exp_p(',');
                let e = label(c);
                cases.insert(k, e);
                order.push((k, e));
            }
            I::Switch { v, w: width(&t), cases, order, def }
        }
        "ret" => {
            let t = c.ty();
            if t == Ty::Void {
                I::Ret(None)
            } else {
                I::Ret(Some(lw.opd(c, &t)))
            }
        }
        "unreachable" => I::Unreachable,
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if w == "tail" || w == "musttail" || w == "notail" {
                assert!(c.eat_w("call"));
            }
            // return type may be preceded by cconv and attributes
            let rt = loop {
                if let Some(t) = c.try_ty() {
                    break t;
                }
                match c.next() {
                    Tok::Word(_) => c.skip_parens(),
                    Tok::Str(_) | Tok::Num(_) => {}
                    t => panic!("call {:?} in {}", t, line),
                }
            };
            if c.is_p('(') {
                // function type of a vararg callee
                c.skip_parens();
            }
            let callee = match c.peek() {
                Some(Tok::Glob(g)) => {
                    let g = *g;
                    c.i += 1;
                    if g.starts_with("llvm.") {
                        Callee::Intr(g.to_string())
                    } else {
                        Callee::Fn(*lw.syms.fid.get(g).unwrap_or_else(|| panic!("callee {}", g)))
                    }
                }
                Some(Tok::Loc(n)) => {
                    let n = *n;
                    c.i += 1;
                    Callee::Ptr(lw.reg(n) as i32)
                }
                Some(Tok::Word("asm")) => return I::Unsupported(line.to_string()),
                _ => {
                    let o = lw.opd(c, &Ty::Ptr);
                    Callee::Ptr(o)
                }
            };
            c.exp_p('(');
            let mut args = Vec::new();
            let mut aw = Vec::new();
            while !c.eat_p(')') {
                if c.is_w("metadata") {
                    // noalias scope etc.
                    let mut depth = 0;
                    loop {
                        match c.peek() {
                            Some(Tok::P('(')) => depth += 1,
                            Some(Tok::P(')')) => {
                                if depth == 0 {
                                    break;
                                }
                                depth -= 1
                            }
                            Some(Tok::P(',')) if depth == 0 => break,
                            _ => {}
                        }
                        c.i += 1;
                    }
                    c.eat_p(',');
                    continue;
                }
                let (t, o) = lw.ty_opd(c);
                args.push(o);
                aw.push(width(&t));
                c.eat_p(',');
            }
            let mut next = None;
            if w == "invoke" {
                while !c.is_w("to") {
                    if c.is_p('[') {
                        // operand bundle
                        while !c.eat_p(']') {
                            c.i += 1;
                        }
                        continue;
                    }
                    c.i += 1;
                }
                c.i += 1;
                next = Some(label(c));
            }
            if let Callee::Intr(n) = &callee {
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") {
                    return match next {
                        Some(e) => I::Br(e),
                        None => I::Nop,
                    };
                }
            }
            I::Call { dst: if rt == Ty::Void { -1 } else { dst }, f: callee, args, aw, rw: width(&rt), next }
        }
        "extractvalue" => {
            let (_, a) = lw.ty_opd(c);
            let mut path = vec![];
            while c.is_p(',') && matches!(c.t.get(c.i + 1), Some(Tok::Num(_))) {
                c.i += 1;
                path.push(c.num() as usize);
            }
            I::ExtractV { dst: d, a, path }
        }
        "insertvalue" => {
            let (_, a) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, v) = lw.ty_opd(c);
            let mut path = vec![];
            while c.is_p(',') && matches!(c.t.get(c.i + 1), Some(Tok::Num(_))) {
                c.i += 1;
                path.push(c.num() as usize);
            }
            I::InsertV { dst: d, a, v, path }
        }
        "insertelement" => {
            let (_, a) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, v) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, i) = lw.ty_opd(c);
            I::InsertE { dst: d, a, v, i }
        }
        "extractelement" => {
            let (_, a) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, i) = lw.ty_opd(c);
            I::ExtractE { dst: d, a, i }
        }
        "shufflevector" => {
            let (_, a) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, b) = lw.ty_opd(c);
            c.exp_p(',');
            let (t, m) = lw.ty_opd(c);
            let n = t.count();
            let mask = match &lw.consts[(!m) as usize] {
                Val::A(v) => v.iter().map(|x| if let Val::C(k) = x { *k as u32 as usize } else { 0 }).collect(),
                _ => vec![0; n],
            };
            I::Shuffle { dst: d, a, b, mask }
        }
        "landingpad" | "resume" => I::Unsupported(line.to_string()),
        "fence" => I::Nop,
        "atomicrmw" => {
            c.eat_w("volatile");
            let op = match c.word() {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                _ => return I::Unsupported(line.to_string()),
            };
            let (_, p) = lw.ty_opd(c);
            c.exp_p(',');
            let (t, v) = lw.ty_opd(c);
            I::Rmw { dst: d, op, p, v, w: width(&t) }
        }
        "cmpxchg" => {
            c.eat_w("weak");
            c.eat_w("volatile");
            let (_, p) = lw.ty_opd(c);
            c.exp_p(',');
            let (t, cc) = lw.ty_opd(c);
            c.exp_p(',');
            let (_, n) = lw.ty_opd(c);
            I::CmpXchg { dst: d, p, c: cc, n, w: width(&t) }
        }
        _ => I::Unsupported(line.to_string()),
    }
}

#[allow(dead_code)]
fn unused(l: &Lw) -> usize {
    l.m.funcs.len()
}
