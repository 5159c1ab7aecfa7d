//! Parser for textual LLVM IR (LLVM 21 as printed by rustc --emit=llvm-ir) into a
//! compact pre-decoded form. Only the constructs rustc emits for the harness program
//! are understood; anything else becomes `I::Unsupported`, which is an engine error
//! if (and only if) it is executed.

use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Named(u32),
    Label,
    Metadata,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, K)>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Zext, Sext, Trunc, Bit }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop, Memcpy, Memmove, Memset, Fshl, Fshr, Umin, Umax, Smin, Smax, Tls, Cttz, Ctlz, Ctpop, Bswap, Bitrev,
    Abs, Ucmp, Scmp, UsubSat, UaddSat, UmulOv, UaddOv, UsubOv, SaddOv, SsubOv, SmulOv, IsConst, Trap, Expect,
    Pmovmskb, ReadCycle,
}

#[derive(Debug)]
pub enum I {
    Bin { op: Bin, ty: TyId, a: Opd, b: Opd, dst: u32, w: u32 },
    Icmp { p: Pred, ty: TyId, a: Opd, b: Opd, dst: u32, w: u32 },
    Load { dst: u32, ty: TyId, ptr: Opd, w: u32 },
    Store { ty: TyId, v: Opd, ptr: Opd, w: u32 },
    Gep { dst: u32, base: Opd, off: i64, idx: Box<[(Opd, u32, i64)]> },
    Alloca { dst: u32, size: u64, align: u64 },
    Cast { op: Cast, from: TyId, to: TyId, a: Opd, dst: u32 },
    Select { c: Opd, a: Opd, b: Opd, dst: u32, ty: TyId, cty: TyId },
    ExtractValue { dst: u32, a: Opd, path: Box<[u32]>, aty: TyId },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Box<[u32]>, aty: TyId },
    InsertElement { dst: u32, a: Opd, v: Opd, i: Opd, aty: TyId },
    ExtractElement { dst: u32, a: Opd, i: Opd, aty: TyId },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Box<[i32]>, aty: TyId },
    Freeze { dst: u32, a: Opd },
    AtomicRmw { dst: u32, op: Rmw, ptr: Opd, v: Opd, w: u32 },
    CmpXchg { dst: u32, ptr: Opd, cmp: Opd, new: Opd, w: u32 },
    Call { dst: u32, f: Opd, args: Box<[Opd]> },
    CallDirect { dst: u32, f: u32, args: Box<[Opd]> },
    Intrinsic { dst: u32, op: Intr, args: Box<[Opd]>, w: u32 },
    Br { e: Edge },
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, cases: Box<[(u128, u32)]>, edges: Box<[Edge]>, default: u32 },
    Ret { v: Option<Opd> },
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Umax, Umin, Max, Min }

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opd)]>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<I>,
    pub defined: bool,
}

pub struct Module {
    pub tys: Vec<Ty>,
    pub named: Vec<TyId>,
    sizes: Vec<(u64, u64)>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub consts: Vec<(TyId, K)>,
    /// memory image of all globals, from GBASE; [wr_start, wr_end) is the writable part
    pub image: Vec<u8>,
    pub wr: (u64, u64),
    pub gend: u64,
    pub gaddr: HashMap<String, u64>,
    pub ext_globals: Vec<String>,
}

pub const FBASE: u64 = 0x1000;
pub const GBASE: u64 = 0x10_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    S(&'a str),
    CS(&'a str),
    P(u8),
    End,
}

fn lex<'a>(s: &'a str, out: &mut Vec<T<'a>>) {
    out.clear();
    let b = s.as_bytes();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (st, en);
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { T::L(&s[st..en]) } else { T::G(&s[st..en]) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::S(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::CS(&s[st..j]));
                i = j + 1;
            }
            b'!' | b'#' => {
                // metadata / attribute group reference
                let st = i;
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::W(&s[st..j]));
                i = j;
            }
            _ if idc(c) => {
                let mut j = i;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    out.push(T::End);
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

type R<X> = Result<X, String>;

struct P<'a, 'm> {
    t: &'a [T<'a>],
    i: usize,
    m: &'m mut Module,
    names: &'m HashMap<String, u32>,
    tyix: &'m mut HashMap<Ty, TyId>,
}

impl Module {
    fn intern(&mut self, ix: &mut HashMap<Ty, TyId>, t: Ty) -> TyId {
        if let Some(&i) = ix.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.sizes.push((u64::MAX, 0));
        ix.insert(t, i);
        i
    }
    /// (size, align) in bytes
    pub fn layout(&mut self, t: TyId) -> (u64, u64) {
        let c = self.sizes[t as usize];
        if c.0 != u64::MAX {
            return c;
        }
        let r = match self.tys[t as usize].clone() {
            Ty::Int(w) => {
                let by = (w as u64 + 7) / 8;
                let al = by.next_power_of_two().min(16);
                (if by <= 16 { (by + al - 1) / al * al } else { by }, al)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => ((w / 8) as u64, ((w / 8) as u64).next_power_of_two().min(16)),
            Ty::Arr(n, e) => {
                let (s, a) = self.layout(e);
                (n * s, a)
            }
            Ty::Vec(n, e) => {
                let w = match &self.tys[e as usize] {
                    Ty::Int(w) => *w as u64,
                    Ty::Ptr => 64,
                    Ty::Float(w) => *w as u64,
                    _ => 64,
                };
                let s = (n as u64 * w + 7) / 8;
                (s.next_power_of_two(), s.next_power_of_two().min(64))
            }
            Ty::Struct(es, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for e in es {
                    let (s, a) = self.layout(e);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            Ty::Named(n) => {
                let d = self.named[n as usize];
                if d == u32::MAX { (0, 1) } else { self.layout(d) }
            }
            _ => (0, 1),
        };
        self.sizes[t as usize] = r;
        r
    }
    pub fn size(&self, t: TyId) -> u64 { self.sizes[t as usize].0 }
    pub fn resolve(&self, t: TyId) -> TyId {
        match self.tys[t as usize] {
            Ty::Named(n) => self.resolve(self.named[n as usize]),
            _ => t,
        }
    }
    pub fn ty(&self, t: TyId) -> &Ty { &self.tys[self.resolve(t) as usize] }
    /// width in bits of an int or pointer type, 0 otherwise
    pub fn width(&self, t: TyId) -> u32 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn elems(&self, t: TyId) -> Vec<(TyId, u64)> {
        match self.ty(t).clone() {
            Ty::Struct(es, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for e in es {
                    let (s, a) = self.sizes[e as usize];
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    v.push((e, o));
                    o += s;
                }
                v
            }
            Ty::Arr(n, e) => {
                let s = self.size(e);
                (0..n).map(|i| (e, i * s)).collect()
            }
            Ty::Vec(n, e) => {
                let s = match self.ty(e) {
                    Ty::Int(w) => (*w as u64) / 8,
                    _ => 8,
                };
                (0..n as u64).map(|i| (e, i * s)).collect()
            }
            _ => vec![],
        }
    }
}

const PARAM_ATTRS: &[&str] = &[
    "zeroext", "signext", "inreg", "noalias", "nocapture", "nofree", "nest", "returned", "nonnull", "noundef", "swiftself",
    "immarg", "readnone", "readonly", "writeonly", "writable", "dead_on_unwind", "allocptr", "allocalign", "align", "dereferenceable",
    "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "inbounds", "dead_on_return", "nofpclass", "noext",
];

impl<'a, 'm> P<'a, 'm> {
    fn pk(&self) -> T<'a> { self.t[self.i] }
    fn nx(&mut self) -> T<'a> {
        let x = self.t[self.i];
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        x
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == T::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.pk() == T::W(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {} got {:?}", c as char, self.pk())) }
    }
    fn int(&mut self, t: Ty) -> TyId { self.m.intern(self.tyix, t) }

    fn ty(&mut self) -> R<TyId> {
        let t = match self.nx() {
            T::W("void") => Ty::Void,
            T::W("ptr") => Ty::Ptr,
            T::W("label") => Ty::Label,
            T::W("metadata") => Ty::Metadata,
            T::W("float") => Ty::Float(32),
            T::W("double") => Ty::Float(64),
            T::W("half") => Ty::Float(16),
            T::W("fp128") => Ty::Float(128),
            T::W("x86_fp80") => Ty::Float(128),
            T::W("opaque") => Ty::Opaque,
            T::W(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                Ty::Int(w[1..].parse().unwrap())
            }
            T::L(n) => {
                let id = *self.names.get(n).ok_or(format!("type {n}"))?;
                Ty::Named(id)
            }
            T::P(b'[') => {
                let T::W(n) = self.nx() else { return Err("arr".into()) };
                let n: u64 = n.parse().map_err(|_| "arr n")?;
                self.nx(); // x
                let e = self.ty()?;
                self.exp(b']')?;
                Ty::Arr(n, e)
            }
            T::P(b'{') => {
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty()?);
                        if self.eat(b'}') {
                            break;
                        }
                        self.exp(b',')?;
                    }
                }
                Ty::Struct(v, false)
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let mut v = vec![];
                    if !self.eat(b'}') {
                        loop {
                            v.push(self.ty()?);
                            if self.eat(b'}') {
                                break;
                            }
                            self.exp(b',')?;
                        }
                    }
                    self.exp(b'>')?;
                    Ty::Struct(v, true)
                } else {
                    let T::W(n) = self.nx() else { return Err("vec".into()) };
                    let n: u32 = n.parse().map_err(|_| "vec n")?;
                    self.nx();
                    let e = self.ty()?;
                    self.exp(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            o => return Err(format!("type: {o:?}")),
        };
        let id = self.int(t);
        self.m.layout(id);
        // function types "void (ptr)" only occur in calls to varargs; skip the parens
        Ok(id)
    }

    fn skip_paren(&mut self) {
        if self.eat(b'(') {
            let mut d = 1;
            while d > 0 {
                match self.nx() {
                    T::P(b'(') => d += 1,
                    T::P(b')') => d -= 1,
                    T::End => break,
                    _ => {}
                }
            }
        }
    }
    fn attrs(&mut self) {
        loop {
            match self.pk() {
                T::W(w) if PARAM_ATTRS.contains(&w) => {
                    self.i += 1;
                    if w == "align" {
                        if self.pk() == T::P(b'(') { self.skip_paren() } else { self.i += 1 }
                    } else {
                        self.skip_paren();
                    }
                }
                T::S(_) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }

    fn gaddr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.m.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.m.fidx.get(n) {
            return Ok(FBASE + *f as u64 * 16);
        }
        Err(format!("unknown global {n}"))
    }

    fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

    fn konst(&mut self, ty: TyId) -> R<K> {
        let w = self.m.width(ty);
        Ok(match self.nx() {
            T::W("true") => K::Int(1),
            T::W("false") => K::Int(0),
            T::W("null") => K::Int(0),
            T::W("zeroinitializer") => K::Zero,
            T::W("undef") | T::W("poison") => K::Undef,
            T::W("none") => K::Undef,
            T::W("splat") => {
                self.exp(b'(')?;
                let t = self.ty()?;
                let k = self.konst(t)?;
                self.exp(b')')?;
                let Ty::Vec(n, _) = *self.m.ty(ty) else { return Err("splat".into()) };
                K::Agg((0..n).map(|_| (t, k.clone())).collect())
            }
            T::W("getelementptr") => {
                while let T::W(_) = self.pk() {
                    self.i += 1;
                    if self.pk() == T::P(b'(') {
                        let T::W(pw) = self.t[self.i - 1] else { unreachable!() };
                        if pw == "inrange" { self.skip_paren() } else { break }
                    }
                }
                self.exp(b'(')?;
                let ety = self.ty()?;
                self.exp(b',')?;
                let pt = self.ty()?;
                let K::Int(mut base) = self.konst(pt)? else { return Err("gep base".into()) };
                let mut cur = ety;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty()?;
                    let iw = self.m.width(it);
                    let ix = match self.konst(it)? {
                        K::Int(v) => sx(v, iw),
                        K::Zero => 0,
                        _ => return Err("gep idx".into()),
                    };
                    let (o, n) = self.gep_step(cur, first, ix)?;
                    base = base.wrapping_add(o as i128 as u128);
                    cur = n;
                    first = false;
                }
                self.exp(b')')?;
                K::Int(base & Self::mask(64))
            }
            T::W(op @ ("inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "addrspacecast")) => {
                let _ = op;
                self.exp(b'(')?;
                let t = self.ty()?;
                let k = self.konst(t)?;
                self.eatw("to");
                let t2 = self.ty()?;
                self.exp(b')')?;
                match k {
                    K::Int(v) => K::Int(v & Self::mask(self.m.width(t2))),
                    o => o,
                }
            }
            T::W(op @ ("add" | "sub" | "xor" | "mul")) => {
                while let T::W(_) = self.pk() {
                    self.i += 1;
                }
                self.exp(b'(')?;
                let t = self.ty()?;
                let K::Int(a) = self.konst(t)? else { return Err("cexpr".into()) };
                self.exp(b',')?;
                let t = self.ty()?;
                let K::Int(b) = self.konst(t)? else { return Err("cexpr".into()) };
                self.exp(b')')?;
                K::Int(
                    match op {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    } & Self::mask(w),
                )
            }
            T::W(n) if n.as_bytes()[0].is_ascii_digit() || n.as_bytes()[0] == b'-' => {
                if n.contains('.') || n.contains('e') || n.starts_with("0x") {
                    return Err(format!("float const {n}"));
                }
                let v = if let Some(r) = n.strip_prefix('-') {
                    (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                } else {
                    n.parse::<u128>().map_err(|e| e.to_string())?
                };
                K::Int(v & Self::mask(w))
            }
            T::G(n) => K::Int(self.gaddr(n)? as u128),
            T::CS(s) => K::Bytes(unescape(s)),
            T::P(b'[') | T::P(b'{') => {
                let mut v = vec![];
                loop {
                    if self.eat(b']') || self.eat(b'}') {
                        break;
                    }
                    let t = self.ty()?;
                    let k = self.konst(t)?;
                    v.push((t, k));
                    self.eat(b',');
                }
                K::Agg(v)
            }
            T::P(b'<') => {
                let st = self.eat(b'{');
                let mut v = vec![];
                loop {
                    if st && self.eat(b'}') {
                        self.exp(b'>')?;
                        break;
                    }
                    if !st && self.eat(b'>') {
                        break;
                    }
                    let t = self.ty()?;
                    let k = self.konst(t)?;
                    v.push((t, k));
                    self.eat(b',');
                }
                K::Agg(v)
            }
            o => return Err(format!("const {o:?}")),
        })
    }

    fn gep_step(&mut self, cur: TyId, first: bool, ix: i64) -> R<(i64, TyId)> {
        if first {
            let (s, _) = self.m.layout(cur);
            return Ok((ix * s as i64, cur));
        }
        match self.m.ty(cur).clone() {
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let (s, _) = self.m.layout(e);
                Ok((ix * s as i64, e))
            }
            Ty::Struct(..) => {
                let es = self.m.elems(cur);
                let (t, o) = es[ix as usize];
                Ok((o as i64, t))
            }
            _ => Err("gep into scalar".into()),
        }
    }
}

fn sx(v: u128, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v as i64) << (64 - w)) >> (64 - w) }
}

fn write_k(m: &mut Module, img: &mut [u8], off: usize, ty: TyId, k: &K) -> R<()> {
    match k {
        K::Zero | K::Undef => {}
        K::Int(v) => {
            let n = (m.width(ty) as usize + 7) / 8;
            img[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        K::Bytes(b) => img[off..off + b.len()].copy_from_slice(b),
        K::Agg(v) => {
            let es = m.elems(ty);
            for ((t, k), (_, o)) in v.iter().zip(es) {
                write_k(m, img, off + o as usize, *t, k)?;
            }
        }
    }
    Ok(())
}

struct FnB {
    regs: HashMap<String, u32>,
    n: u32,
}
impl FnB {
    fn reg(&mut self, s: &str) -> u32 {
        if let Some(&r) = self.regs.get(s) {
            return r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(s.to_string(), r);
        r
    }
}

pub fn demangle(s: &str) -> String {
    // legacy mangling: _ZN <len><seg>... E
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let mut r = r;
    let mut segs = vec![];
    loop {
        let d = r.bytes().take_while(|c| c.is_ascii_digit()).count();
        if d == 0 {
            break;
        }
        let n: usize = r[..d].parse().unwrap();
        if r.len() < d + n {
            return s.to_string();
        }
        segs.push(&r[d..d + n]);
        r = &r[d + n..];
    }
    if segs.last().map_or(false, |x| x.len() == 17 && x.starts_with('h')) {
        segs.pop();
    }
    let j = segs.join("::");
    j.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",")
        .replace("$u7b$", "{").replace("$u7d$", "}").replace("..", "::").replace("$LP$", "(").replace("$RP$", ")")
        .replace("$BP$", "*").replace("$u5b$", "[").replace("$u5d$", "]").replace("$u27$", "'").replace("$u3b$", ";")
        .trim_start_matches('_').to_string()
}

pub fn parse(src: &str) -> R<Module> {
    let mut m = Module {
        tys: vec![], named: vec![], sizes: vec![], funcs: vec![], fidx: HashMap::new(), consts: vec![],
        image: vec![], wr: (0, 0), gend: 0, gaddr: HashMap::new(), ext_globals: vec![],
    };
    let mut tyix: HashMap<Ty, TyId> = HashMap::new();
    let mut names: HashMap<String, u32> = HashMap::new();
    let lines: Vec<&str> = src.lines().collect();
    let mut tv: Vec<T> = vec![];

    // pass 1: names
    let mut type_lines = vec![];
    let mut global_lines = vec![];
    let mut fn_lines = vec![]; // (line, defined)
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let c = l.as_bytes().first().copied().unwrap_or(0);
        match c {
            b'%' => type_lines.push(i),
            b'@' => global_lines.push(i),
            b'd' if l.starts_with("define ") => {
                fn_lines.push((i, true));
                while lines[i] != "}" {
                    i += 1;
                }
            }
            b'd' if l.starts_with("declare ") => fn_lines.push((i, false)),
            _ => {}
        }
        i += 1;
    }
    for &li in &type_lines {
        lex(lines[li], &mut tv);
        let T::L(n) = tv[0] else { continue };
        names.insert(n.to_string(), m.named.len() as u32);
        m.named.push(u32::MAX);
    }
    // type bodies may refer to each other: parse without layout first. We parse in
    // order, layouts are recomputed lazily, so parse twice and clear sizes.
    for pass in 0..2 {
        for &li in &type_lines {
            lex(lines[li], &mut tv);
            let T::L(n) = tv[0] else { continue };
            let id = names[n];
            let mut p = P { t: &tv, i: 3, m: &mut m, names: &names, tyix: &mut tyix };
            let t = p.ty()?;
            m.named[id as usize] = t;
        }
        if pass == 0 {
            for s in m.sizes.iter_mut() {
                *s = (u64::MAX, 0);
            }
        }
    }
    for t in 0..m.tys.len() as u32 {
        m.layout(t);
    }

    // functions
    for &(li, defined) in &fn_lines {
        lex(lines[li], &mut tv);
        let Some(T::G(n)) = tv.iter().find(|t| matches!(t, T::G(_))) else { continue };
        let id = m.funcs.len() as u32;
        m.fidx.insert(n.to_string(), id);
        m.funcs.push(Func { name: n.to_string(), pretty: demangle(n), nparams: 0, nregs: 0, code: vec![], defined });
    }

    // globals: sizes and addresses. Constants first, then writable ones.
    struct GL {
        li: usize,
        name: String,
        ty: TyId,
        wr: bool,
        ext: bool,
        align: u64,
    }
    let mut gls = vec![];
    let mut aliases = vec![];
    for &li in &global_lines {
        lex(lines[li], &mut tv);
        let T::G(n) = tv[0] else { continue };
        let mut j = 2;
        let mut ext = false;
        let mut kind = "";
        while j < tv.len() {
            match tv[j] {
                T::W(w @ ("global" | "constant" | "alias" | "ifunc")) => {
                    kind = w;
                    j += 1;
                    break;
                }
                T::W("external") | T::W("extern_weak") => ext = true,
                _ => {}
            }
            j += 1;
        }
        if kind == "alias" {
            aliases.push(li);
            continue;
        }
        let mut align = 0;
        for k in 0..tv.len() - 1 {
            if tv[k] == T::W("align") {
                if let T::W(a) = tv[k + 1] {
                    align = a.parse().unwrap_or(0);
                }
            }
        }
        let mut p = P { t: &tv, i: j, m: &mut m, names: &names, tyix: &mut tyix };
        let ty = p.ty()?;
        let (_, al) = m.layout(ty);
        if ext {
            m.ext_globals.push(n.to_string());
        }
        gls.push(GL { li, name: n.to_string(), ty, wr: kind == "global", ext, align: align.max(al) });
    }
    gls.sort_by_key(|g| g.wr);
    let mut a = GBASE;
    let mut wr_start = None;
    for g in &gls {
        let (s, _) = m.layout(g.ty);
        if g.wr && wr_start.is_none() {
            a = (a + 4095) / 4096 * 4096;
            wr_start = Some(a);
        }
        let al = g.align.max(1);
        a = (a + al - 1) / al * al;
        // weak externals that are not provided have address 0
        if g.ext {
            m.gaddr.insert(g.name.clone(), 0);
            continue;
        }
        m.gaddr.insert(g.name.clone(), a);
        a += s.max(1);
    }
    a = (a + 4095) / 4096 * 4096;
    m.wr = (wr_start.unwrap_or(a), a);
    m.gend = a;
    for li in aliases {
        lex(lines[li], &mut tv);
        let T::G(n) = tv[0] else { continue };
        let Some(T::G(tgt)) = tv[2..].iter().find(|t| matches!(t, T::G(_))) else { continue };
        if let Some(&f) = m.fidx.get(*tgt) {
            m.fidx.insert(n.to_string(), f);
        } else if let Some(&x) = m.gaddr.get(*tgt) {
            m.gaddr.insert(n.to_string(), x);
        }
    }
    let mut img = vec![0u8; (a - GBASE) as usize];
    for g in &gls {
        if g.ext {
            continue;
        }
        lex(lines[g.li], &mut tv);
        let mut j = 2;
        while !matches!(tv[j], T::W("global" | "constant")) {
            j += 1;
        }
        let off = (m.gaddr[&g.name] - GBASE) as usize;
        let mut p = P { t: &tv, i: j + 1, m: &mut m, names: &names, tyix: &mut tyix };
        let ty = p.ty()?;
        let k = p.konst(ty).map_err(|e| format!("global {}: {e}", g.name))?;
        write_k(&mut m, &mut img, off, ty, &k)?;
    }
    m.image = img;

    // bodies
    let mut fi = 0;
    for &(li, defined) in &fn_lines {
        lex(lines[li], &mut tv);
        if !tv.iter().any(|t| matches!(t, T::G(_))) {
            continue;
        }
        let f = fi;
        fi += 1;
        if !defined {
            continue;
        }
        let (code, nparams, nregs) =
            parse_fn(&lines, li, &mut m, &names, &mut tyix).map_err(|e| format!("in {}: {e}", m.funcs[f].name))?;
        m.funcs[f].code = code;
        m.funcs[f].nparams = nparams;
        m.funcs[f].nregs = nregs;
    }
    for t in 0..m.tys.len() as u32 {
        m.layout(t);
    }
    Ok(m)
}

struct Blk {
    label: String,
    phis: Vec<(u32, Vec<(Opd, String)>)>,
    pc: u32,
}

fn parse_fn(
    lines: &[&str], li: usize, m: &mut Module, names: &HashMap<String, u32>, tyix: &mut HashMap<Ty, TyId>,
) -> R<(Vec<I>, u32, u32)> {
    let mut fb = FnB { regs: HashMap::new(), n: 0 };
    let mut tv: Vec<T> = vec![];
    lex(lines[li], &mut tv);
    let gi = tv.iter().position(|t| matches!(t, T::G(_))).unwrap();
    let mut nparams = 0;
    {
        let mut p = P { t: &tv, i: gi + 1, m, names, tyix };
        p.exp(b'(')?;
        if !p.eat(b')') {
            loop {
                if p.eat(b'.') || p.eatw("...") {
                    break;
                }
                p.ty()?;
                p.attrs();
                if let T::L(n) = p.pk() {
                    fb.reg(n);
                    p.i += 1;
                } else {
                    fb.reg(&format!("{nparams}"));
                }
                nparams += 1;
                if p.eat(b')') {
                    break;
                }
                p.exp(b',')?;
            }
        }
    }
    let mut code: Vec<I> = vec![];
    let mut blks: Vec<Blk> = vec![Blk { label: format!("{nparams}"), phis: vec![], pc: 0 }];
    // (pc, labels) to patch
    let mut fix: Vec<(usize, Vec<String>, String)> = vec![];
    let mut i = li + 1;
    let mut first = true;
    let mut buf = String::new();
    while lines[i] != "}" {
        let l = lines[i];
        if l.is_empty() || l.starts_with(';') {
            i += 1;
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if let Some(r) = l.strip_prefix('"') { r.split('"').next().unwrap() } else { l.split(':').next().unwrap() };
            if first && code.is_empty() {
                blks[0].label = lab.to_string();
            } else {
                blks.push(Blk { label: lab.to_string(), phis: vec![], pc: code.len() as u32 });
            }
            first = false;
            i += 1;
            continue;
        }
        first = false;
        let tr = l.trim_start();
        let mut text: &str = tr;
        let head = tr.split(" = ").nth(1).unwrap_or(tr);
        if tr.starts_with("switch ") {
            buf.clear();
            buf.push_str(tr);
            while !lines[i].trim_start().starts_with(']') && !lines[i].contains(']') {
                i += 1;
                buf.push(' ');
                buf.push_str(lines[i].trim_start());
            }
            text = &buf;
        } else if tr.starts_with("invoke ") || head.starts_with("invoke ") {
            buf.clear();
            buf.push_str(tr);
            while !buf.contains(" unwind label ") {
                i += 1;
                buf.push(' ');
                buf.push_str(lines[i].trim_start());
            }
            text = &buf;
        } else if head.starts_with("landingpad ") {
            while lines[i + 1].starts_with("          ") {
                i += 1;
            }
        } else if tr.starts_with("#dbg") {
            i += 1;
            continue;
        }
        i += 1;
        let text: String = text.to_string();
        let mut tv = Vec::new();
        lex(&text, &mut tv);
        let cur = blks.last().unwrap().label.clone();
        let mut p = P { t: &tv, i: 0, m, names, tyix };
        match parse_inst(&mut p, &mut fb, &mut code, &mut blks, &mut fix, &cur) {
            Ok(()) => {}
            Err(e) => {
                // keep the destination register defined
                if let T::L(n) = tv[0] {
                    fb.reg(n);
                }
                code.push(I::Unsupported(format!("{e}: {text}")));
            }
        }
    }
    // patch edges
    let bidx: HashMap<String, usize> = blks.iter().enumerate().map(|(i, b)| (b.label.clone(), i)).collect();
    let mkedge = |lab: &str, from: &str| -> R<Edge> {
        let b = &blks[*bidx.get(lab).ok_or(format!("label {lab}"))?];
        let mut mv = vec![];
        for (d, ins) in &b.phis {
            let o = ins.iter().find(|x| x.1 == from).ok_or(format!("phi edge {from}->{lab}"))?;
            mv.push((*d, o.0));
        }
        Ok(Edge { pc: b.pc, moves: mv.into_boxed_slice() })
    };
    for (pc, labs, from) in fix {
        match &mut code[pc] {
            I::Br { e } => *e = mkedge(&labs[0], &from)?,
            I::CondBr { t, f, .. } => {
                *t = mkedge(&labs[0], &from)?;
                *f = mkedge(&labs[1], &from)?;
            }
            I::Switch { edges, .. } => {
                let v: R<Vec<Edge>> = labs.iter().map(|l| mkedge(l, &from)).collect();
                *edges = v?.into_boxed_slice();
            }
            _ => unreachable!(),
        }
    }
    Ok((code, nparams, fb.n))
}

impl<'a, 'm> P<'a, 'm> {
    fn opd(&mut self, ty: TyId, fb: &mut FnB) -> R<Opd> {
        if let T::L(n) = self.pk() {
            self.i += 1;
            return Ok(Opd::R(fb.reg(n)));
        }
        if self.pk() == T::W("asm") {
            return Err("asm".into());
        }
        let k = self.konst(ty)?;
        let w = self.m.width(ty);
        match k {
            K::Int(v) if w <= 64 && w > 0 => Ok(Opd::C(v as u64)),
            K::Zero | K::Undef if w > 0 && w <= 64 => Ok(Opd::C(0)),
            k => {
                let i = self.m.consts.len() as u32;
                self.m.consts.push((ty, k));
                Ok(Opd::K(i))
            }
        }
    }
    fn label(&mut self) -> R<String> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        match self.nx() {
            T::L(n) => Ok(n.to_string()),
            o => Err(format!("label {o:?}")),
        }
    }
}

fn parse_inst(
    p: &mut P, fb: &mut FnB, code: &mut Vec<I>, blks: &mut Vec<Blk>, fix: &mut Vec<(usize, Vec<String>, String)>, cur: &str,
) -> R<()> {
    let mut dst = u32::MAX;
    if let T::L(n) = p.pk() {
        dst = fb.reg(n);
        p.i += 1;
        p.exp(b'=')?;
    }
    let mut op = match p.nx() {
        T::W(w) => w,
        o => return Err(format!("op {o:?}")),
    };
    while matches!(op, "tail" | "musttail" | "notail") {
        op = match p.nx() {
            T::W(w) => w,
            o => return Err(format!("op {o:?}")),
        };
    }
    let bin = match op {
        "add" => Some(Bin::Add),
        "sub" => Some(Bin::Sub),
        "mul" => Some(Bin::Mul),
        "udiv" => Some(Bin::UDiv),
        "urem" => Some(Bin::URem),
        "sdiv" => Some(Bin::SDiv),
        "srem" => Some(Bin::SRem),
        "and" => Some(Bin::And),
        "or" => Some(Bin::Or),
        "xor" => Some(Bin::Xor),
        "shl" => Some(Bin::Shl),
        "lshr" => Some(Bin::LShr),
        "ashr" => Some(Bin::AShr),
        _ => None,
    };
    if let Some(b) = bin {
        while p.eatw("nuw") || p.eatw("nsw") || p.eatw("exact") || p.eatw("disjoint") {}
        let ty = p.ty()?;
        let a = p.opd(ty, fb)?;
        p.exp(b',')?;
        let c = p.opd(ty, fb)?;
        let w = p.m.width(ty);
        code.push(I::Bin { op: b, ty, a, b: c, dst, w });
        return Ok(());
    }
    match op {
        "icmp" => {
            p.eatw("samesign");
            let pr = match p.nx() {
                T::W("eq") => Pred::Eq,
                T::W("ne") => Pred::Ne,
                T::W("ult") => Pred::Ult,
                T::W("ule") => Pred::Ule,
                T::W("ugt") => Pred::Ugt,
                T::W("uge") => Pred::Uge,
                T::W("slt") => Pred::Slt,
                T::W("sle") => Pred::Sle,
                T::W("sgt") => Pred::Sgt,
                T::W("sge") => Pred::Sge,
                o => return Err(format!("pred {o:?}")),
            };
            let ty = p.ty()?;
            let a = p.opd(ty, fb)?;
            p.exp(b',')?;
            let b = p.opd(ty, fb)?;
            let w = p.m.width(ty);
            code.push(I::Icmp { p: pr, ty, a, b, dst, w });
        }
        "load" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let ty = p.ty()?;
            p.exp(b',')?;
            let pt = p.ty()?;
            let ptr = p.opd(pt, fb)?;
            let w = p.m.width(ty);
            code.push(I::Load { dst, ty, ptr, w });
        }
        "store" => {
            p.eatw("atomic");
            p.eatw("volatile");
            let ty = p.ty()?;
            let v = p.opd(ty, fb)?;
            p.exp(b',')?;
            let pt = p.ty()?;
            let ptr = p.opd(pt, fb)?;
            let w = p.m.width(ty);
            code.push(I::Store { ty, v, ptr, w });
        }
        "getelementptr" => {
            while p.eatw("inbounds") || p.eatw("nuw") || p.eatw("nusw") {}
            let ety = p.ty()?;
            p.exp(b',')?;
            let pt = p.ty()?;
            let base = p.opd(pt, fb)?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut curt = ety;
            let mut first = true;
            while p.eat(b',') {
                if matches!(p.pk(), T::W(w) if w.starts_with('!')) {
                    break;
                }
                let it = p.ty()?;
                let iw = p.m.width(it);
                let o = p.opd(it, fb)?;
                match o {
                    Opd::C(v) => {
                        let (d, n) = p.gep_step(curt, first, sx(v as u128, iw))?;
                        off = off.wrapping_add(d);
                        curt = n;
                    }
                    Opd::R(_) => {
                        let (s, n) = p.gep_step(curt, first, 1)?;
                        idx.push((o, iw, s));
                        curt = n;
                    }
                    Opd::K(_) => return Err("gep const".into()),
                }
                first = false;
            }
            code.push(I::Gep { dst, base, off, idx: idx.into_boxed_slice() });
        }
        "alloca" => {
            p.eatw("inalloca");
            let ty = p.ty()?;
            let (mut size, mut align) = p.m.layout(ty);
            while p.eat(b',') {
                if p.eatw("align") {
                    if let T::W(a) = p.nx() {
                        align = a.parse().unwrap_or(16);
                    }
                } else if matches!(p.pk(), T::W(w) if w.starts_with('i')) {
                    let t = p.ty()?;
                    match p.opd(t, fb)? {
                        Opd::C(n) => size *= n,
                        _ => return Err("dynamic alloca".into()),
                    }
                } else {
                    break;
                }
            }
            code.push(I::Alloca { dst, size, align });
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
            while p.eatw("nneg") || p.eatw("nuw") || p.eatw("nsw") {}
            let from = p.ty()?;
            let a = p.opd(from, fb)?;
            if !p.eatw("to") {
                return Err("cast".into());
            }
            let to = p.ty()?;
            let (fw, tw) = (p.m.width(from), p.m.width(to));
            let c = match op {
                "sext" => Cast::Sext,
                "zext" => Cast::Zext,
                "trunc" => Cast::Trunc,
                "bitcast" => Cast::Bit,
                _ => {
                    if fw == tw { Cast::Bit } else if fw < tw { Cast::Zext } else { Cast::Trunc }
                }
            };
            code.push(I::Cast { op: c, from, to, a, dst });
        }
        "select" => {
            let cty = p.ty()?;
            let c = p.opd(cty, fb)?;
            p.exp(b',')?;
            let ty = p.ty()?;
            let a = p.opd(ty, fb)?;
            p.exp(b',')?;
            let ty = p.ty()?;
            let b = p.opd(ty, fb)?;
            code.push(I::Select { c, a, b, dst, ty, cty });
        }
        "phi" => {
            let ty = p.ty()?;
            let mut ins = vec![];
            loop {
                if !p.eat(b'[') {
                    break;
                }
                let o = p.opd(ty, fb)?;
                p.exp(b',')?;
                let T::L(n) = p.nx() else { return Err("phi".into()) };
                p.exp(b']')?;
                ins.push((o, n.to_string()));
                if !p.eat(b',') {
                    break;
                }
            }
            blks.last_mut().unwrap().phis.push((dst, ins));
        }
        "extractvalue" => {
            let aty = p.ty()?;
            let a = p.opd(aty, fb)?;
            let mut path = vec![];
            while p.eat(b',') {
                match p.nx() {
                    T::W(w) if w.as_bytes()[0].is_ascii_digit() => path.push(w.parse().unwrap()),
                    _ => break,
                }
            }
            code.push(I::ExtractValue { dst, a, path: path.into_boxed_slice(), aty });
        }
        "insertvalue" => {
            let aty = p.ty()?;
            let a = p.opd(aty, fb)?;
            p.exp(b',')?;
            let vt = p.ty()?;
            let v = p.opd(vt, fb)?;
            let mut path = vec![];
            while p.eat(b',') {
                match p.nx() {
                    T::W(w) if w.as_bytes()[0].is_ascii_digit() => path.push(w.parse().unwrap()),
                    _ => break,
                }
            }
            code.push(I::InsertValue { dst, a, v, path: path.into_boxed_slice(), aty });
        }
        "insertelement" => {
            let aty = p.ty()?;
            let a = p.opd(aty, fb)?;
            p.exp(b',')?;
            let vt = p.ty()?;
            let v = p.opd(vt, fb)?;
            p.exp(b',')?;
            let it = p.ty()?;
            let i = p.opd(it, fb)?;
            code.push(I::InsertElement { dst, a, v, i, aty });
        }
        "extractelement" => {
            let aty = p.ty()?;
            let a = p.opd(aty, fb)?;
            p.exp(b',')?;
            let it = p.ty()?;
            let i = p.opd(it, fb)?;
            code.push(I::ExtractElement { dst, a, i, aty });
        }
        "shufflevector" => {
            let aty = p.ty()?;
            let a = p.opd(aty, fb)?;
            p.exp(b',')?;
            let bt = p.ty()?;
            let b = p.opd(bt, fb)?;
            p.exp(b',')?;
            let mt = p.ty()?;
            let k = p.konst(mt)?;
            let Ty::Vec(n, _) = *p.m.ty(mt) else { return Err("shuf".into()) };
            let mask: Vec<i32> = match k {
                K::Zero => vec![0; n as usize],
                K::Agg(v) => v.iter().map(|(_, k)| if let K::Int(x) = k { *x as i32 } else { -1 }).collect(),
                _ => return Err("shuf mask".into()),
            };
            code.push(I::Shuffle { dst, a, b, mask: mask.into_boxed_slice(), aty });
        }
        "freeze" => {
            let ty = p.ty()?;
            let a = p.opd(ty, fb)?;
            code.push(I::Freeze { dst, a });
        }
        "fence" => {}
        "atomicrmw" => {
            p.eatw("volatile");
            let op = match p.nx() {
                T::W("xchg") => Rmw::Xchg,
                T::W("add") => Rmw::Add,
                T::W("sub") => Rmw::Sub,
                T::W("and") => Rmw::And,
                T::W("or") => Rmw::Or,
                T::W("xor") => Rmw::Xor,
                T::W("umax") => Rmw::Umax,
                T::W("umin") => Rmw::Umin,
                o => return Err(format!("rmw {o:?}")),
            };
            let pt = p.ty()?;
            let ptr = p.opd(pt, fb)?;
            p.exp(b',')?;
            let ty = p.ty()?;
            let v = p.opd(ty, fb)?;
            let w = p.m.width(ty);
            code.push(I::AtomicRmw { dst, op, ptr, v, w });
        }
        "cmpxchg" => {
            p.eatw("weak");
            p.eatw("volatile");
            let pt = p.ty()?;
            let ptr = p.opd(pt, fb)?;
            p.exp(b',')?;
            let ty = p.ty()?;
            let cmp = p.opd(ty, fb)?;
            p.exp(b',')?;
            let ty = p.ty()?;
            let new = p.opd(ty, fb)?;
            let w = p.m.width(ty);
            code.push(I::CmpXchg { dst, ptr, cmp, new, w });
        }
        "call" | "invoke" => {
            // [cc] [ret attrs] retty callee(args)
            loop {
                match p.pk() {
                    T::W("fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") => {
                        p.i += 1
                    }
                    _ => {
                        let b = p.i;
                        p.attrs();
                        if p.i == b {
                            break;
                        }
                    }
                }
            }
            let rty = p.ty()?;
            let rw = p.m.width(rty);
            if p.pk() == T::P(b'(') {
                p.skip_paren(); // vararg function type
            }
            let callee_name = if let T::G(n) = p.pk() { Some(n) } else { None };
            let mut fop = Opd::C(0);
            let mut intr: Option<Intr> = None;
            if let Some(n) = callee_name {
                p.i += 1;
                if n.starts_with("llvm.") {
                    intr = Some(intrinsic(n)?);
                } else {
                    fop = Opd::C(p.gaddr(n)?);
                }
            } else {
                let pt = p.int(Ty::Ptr);
                fop = p.opd(pt, fb)?;
            }
            p.exp(b'(')?;
            let mut args = vec![];
            let mut aw = 0;
            if !p.eat(b')') {
                loop {
                    let t = p.ty()?;
                    if matches!(p.m.ty(t), Ty::Metadata) {
                        // skip to , or )
                        let mut d = 0;
                        loop {
                            match p.pk() {
                                T::P(b'(') | T::P(b'{') => d += 1,
                                T::P(b')') | T::P(b'}') if d > 0 => d -= 1,
                                T::P(b')') | T::P(b',') if d == 0 => break,
                                T::End => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                    } else {
                        p.attrs();
                        let o = p.opd(t, fb)?;
                        if args.is_empty() {
                            aw = p.m.width(t);
                        }
                        args.push(o);
                    }
                    if p.eat(b')') {
                        break;
                    }
                    p.exp(b',')?;
                }
            }
            let args = args.into_boxed_slice();
            match intr {
                Some(Intr::Nop) => {}
                Some(op) => {
                    let w = if matches!(op, Intr::Ucmp | Intr::Scmp) { aw | (rw << 16) } else { aw };
                    code.push(I::Intrinsic { dst, op, args, w })
                }
                None => match fop {
                    Opd::C(a) if a >= FBASE && a < GBASE => {
                        code.push(I::CallDirect { dst, f: ((a - FBASE) / 16) as u32, args })
                    }
                    f => code.push(I::Call { dst, f, args }),
                },
            }
            if op == "invoke" {
                while p.pk() != T::W("to") && p.pk() != T::End {
                    p.i += 1;
                }
                p.eatw("to");
                let l = p.label()?;
                fix.push((code.len(), vec![l], cur.to_string()));
                code.push(I::Br { e: Edge::default() });
            }
        }
        "br" => {
            if p.pk() == T::W("label") {
                let l = p.label()?;
                fix.push((code.len(), vec![l], cur.to_string()));
                code.push(I::Br { e: Edge::default() });
            } else {
                let t = p.ty()?;
                let c = p.opd(t, fb)?;
                p.exp(b',')?;
                let a = p.label()?;
                p.exp(b',')?;
                let b = p.label()?;
                fix.push((code.len(), vec![a, b], cur.to_string()));
                code.push(I::CondBr { c, t: Edge::default(), f: Edge::default() });
            }
        }
        "switch" => {
            let ty = p.ty()?;
            let w = p.m.width(ty);
            let v = p.opd(ty, fb)?;
            p.exp(b',')?;
            let mut labs = vec![p.label()?];
            p.exp(b'[')?;
            let mut cases = vec![];
            while !p.eat(b']') {
                let t = p.ty()?;
                let K::Int(k) = p.konst(t)? else { return Err("case".into()) };
                p.exp(b',')?;
                let l = p.label()?;
                let ix = match labs.iter().position(|x| *x == l) {
                    Some(x) => x,
                    None => {
                        labs.push(l);
                        labs.len() - 1
                    }
                };
                cases.push((k, ix as u32));
            }
            fix.push((code.len(), labs, cur.to_string()));
            code.push(I::Switch { v, w, cases: cases.into_boxed_slice(), edges: Box::new([]), default: 0 });
        }
        "ret" => {
            let t = p.ty()?;
            if matches!(p.m.ty(t), Ty::Void) {
                code.push(I::Ret { v: None });
            } else {
                let v = p.opd(t, fb)?;
                code.push(I::Ret { v: Some(v) });
            }
        }
        "unreachable" => code.push(I::Unreachable),
        "landingpad" | "resume" => code.push(I::Unsupported(op.to_string())),
        _ => return Err(format!("instruction {op}")),
    }
    Ok(())
}

fn intrinsic(n: &str) -> R<Intr> {
    let r = &n[5..];
    let base: &[(&str, Intr)] = &[
        ("memcpy", Intr::Memcpy),
        ("memmove", Intr::Memmove),
        ("memset", Intr::Memset),
        ("lifetime", Intr::Nop),
        ("assume", Intr::Nop),
        ("experimental.noalias", Intr::Nop),
        ("dbg", Intr::Nop),
        ("sideeffect", Intr::Nop),
        ("prefetch", Intr::Nop),
        ("x86.sse2.pause", Intr::Nop),
        ("x86.sse2.pmovmskb.128", Intr::Pmovmskb),
        ("invariant", Intr::Nop),
        ("fshl", Intr::Fshl),
        ("fshr", Intr::Fshr),
        ("umin", Intr::Umin),
        ("umax", Intr::Umax),
        ("smin", Intr::Smin),
        ("smax", Intr::Smax),
        ("threadlocal.address", Intr::Tls),
        ("cttz", Intr::Cttz),
        ("ctlz", Intr::Ctlz),
        ("ctpop", Intr::Ctpop),
        ("bswap", Intr::Bswap),
        ("bitreverse", Intr::Bitrev),
        ("abs", Intr::Abs),
        ("ucmp", Intr::Ucmp),
        ("scmp", Intr::Scmp),
        ("usub.sat", Intr::UsubSat),
        ("uadd.sat", Intr::UaddSat),
        ("umul.with.overflow", Intr::UmulOv),
        ("uadd.with.overflow", Intr::UaddOv),
        ("usub.with.overflow", Intr::UsubOv),
        ("sadd.with.overflow", Intr::SaddOv),
        ("ssub.with.overflow", Intr::SsubOv),
        ("smul.with.overflow", Intr::SmulOv),
        ("is.constant", Intr::IsConst),
        ("trap", Intr::Trap),
        ("expect", Intr::Expect),
    ];
    for (k, v) in base {
        if r.starts_with(k) {
            return Ok(*v);
        }
    }
    Err(format!("intrinsic {n}"))
}
