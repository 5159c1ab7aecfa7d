//! The symbolic (concolic) interpreter: executes LLVM IR with a concrete memory layout
//! and symbolic bytes, following the current model and recording the path condition.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
    W(Rc<u128>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    /// an assumption is unsatisfiable on this path
    Dead,
    Check(u32),
    Panic(String),
    Hang,
    Crash(String),
    Error(String),
}

#[derive(Clone)]
pub struct Item {
    pub model: Vec<u64>,
    pub skip: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    None, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Memchr, Memrchr, Strlen, Random, Syscall, Errno, Zero, Write, Writev, Abort, Exit,
    Panic, Nop, SymByte, SymChoice, SymAssume, SymCheck, SymNote, SymCover, SymExit, SymShow, SymSeed, SymEntropy, SymHeapBase, SymIsSym,
    SymSteps, Memcpy, KeyCreate, Getenv, Clock, Pid, Getcwd,
}

pub struct Prog {
    pub m: Module,
    pub ext: Vec<Ext>,
    pub elems: Vec<Box<[(TyId, u64)]>>,
    pub w: Vec<u32>,
    pub is_core: Vec<bool>,
}

fn width_of(m: &Module, t: TyId) -> u32 { m.width(t) }

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut ext = vec![];
        let mut is_core = vec![];
        for f in &m.funcs {
            is_core.push(f.defined && f.pretty.contains("leptos_mview_core"));
            let p = f.pretty.as_str();
            let sig = f.nparams == 3;
            let e = match f.name.as_str() {
                "malloc" => Ext::Malloc,
                "calloc" => Ext::Calloc,
                "realloc" => Ext::Realloc,
                "free" => Ext::Free,
                "posix_memalign" => Ext::Memalign,
                "memcmp" | "bcmp" => Ext::Memcmp,
                "memcpy" | "memmove" => Ext::Memcpy,
                "strlen" => Ext::Strlen,
                "getrandom" => Ext::Random,
                "syscall" => Ext::Syscall,
                "__errno_location" => Ext::Errno,
                "write" => Ext::Write,
                "writev" => Ext::Writev,
                "abort" => Ext::Abort,
                "exit" | "_exit" => Ext::Exit,
                "pthread_key_create" => Ext::KeyCreate,
                "getenv" => Ext::Getenv,
                "clock_gettime" => Ext::Clock,
                "getpid" | "getppid" | "gettid" => Ext::Pid,
                "getcwd" => Ext::Getcwd,
                "rt_showing" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_self" => Ext::Zero,
                "sym_byte" => Ext::SymByte,
                "sym_choice" => Ext::SymChoice,
                "sym_assume" => Ext::SymAssume,
                "sym_check" => Ext::SymCheck,
                "sym_note" => Ext::SymNote,
                "sym_show" => Ext::SymShow,
                "sym_cover" => Ext::SymCover,
                "sym_exit" => Ext::SymExit,
                "sym_seed" => Ext::SymSeed,
                "sym_entropy" => Ext::SymEntropy,
                "sym_heap_base" => Ext::SymHeapBase,
                "sym_is_symbolic" => Ext::SymIsSym,
                "sym_steps" => Ext::SymSteps,
                n => {
                    if n.contains("rust_begin_unwind")
                        || p.starts_with("core::panicking::")
                        || p.starts_with("std::panicking::rust_panic")
                        || p.starts_with("std::panicking::begin_panic")
                        || p.starts_with("std::process::abort")
                        || p.contains("handle_alloc_error")
                    {
                        Ext::Panic
                    } else if p.starts_with("core::slice::memchr::memchr_aligned") && sig {
                        Ext::Memchr
                    } else if p.starts_with("core::slice::memchr::memrchr") && sig {
                        Ext::Memrchr
                    } else if p.contains("_print_to_stderr") || p == "std::io::stdio::_eprint" || p == "std::io::stdio::_print" {
                        Ext::Nop
                    } else {
                        Ext::None
                    }
                }
            };
            ext.push(e);
        }
        let elems: Vec<Box<[(TyId, u64)]>> = (0..m.tys.len() as u32).map(|t| {
            match m.ty(t) { Ty::Arr(n, _) if *n > 64 => Box::new([]) as Box<[_]>, _ => m.elems(t).into_boxed_slice() }
        }).collect();
        let w = (0..m.tys.len() as u32).map(|t| width_of(&m, t)).collect();
        Prog { m, ext, elems, w, is_core }
    }
    fn zero(&self, t: TyId) -> Val {
        let w = self.w[t as usize];
        if w > 64 {
            Val::W(Rc::new(0))
        } else if w > 0 {
            Val::C(0)
        } else {
            let es = &self.elems[t as usize];
            Val::A(Rc::new(es.iter().map(|(t, _)| self.zero(*t)).collect()))
        }
    }
    fn kval(&self, t: TyId, k: &K) -> Val {
        match k {
            K::Int(v) => if self.w[t as usize] > 64 { Val::W(Rc::new(*v)) } else { Val::C(*v as u64) },
            K::Zero | K::Undef => self.zero(t),
            K::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            K::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, k)| self.kval(*t, k)).collect())),
        }
    }
}

struct Frame {
    func: u32,
    pc: u32,
    base: usize,
    dst: u32,
    sp: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub instrs: u64,
    pub decisions: u64,
    pub forks: u64,
    pub dom_decided: u64,
    pub smt_decided: u64,
    pub guessed: u64,
    pub concretised: u64,
    pub unknown: u64,
}

const STACK: u64 = 16 << 20;
const ARENA: u64 = 320 << 20;

pub struct Exec<'p> {
    p: &'p Prog,
    consts: Vec<Val>,
    mem: Vec<u8>,
    flag: Vec<u8>,
    sym: FxMap<u32, E>,
    touched: Vec<u32>,
    pub ex: Exprs,
    pub solver: Solver,
    pub pc: Vec<E>,
    known: FxMap<E, bool>,
    multi: Vec<E>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    heap: u64,
    heap0: u64,
    free: [Vec<u64>; 40],
    sp: u64,
    stack0: u64,
    rand: u64,
    env: u64,
    ticks: u64,
    pub entropy: u32,
    pub steps: u64,
    pub max_steps: u64,
    // path state
    model_in: Vec<u64>,
    skip: u32,
    idx: u32,
    pub children: Vec<Item>,
    pub notes: Vec<Val>,
    pub show: Vec<u8>,
    pub covers: Vec<u32>,
    pub checks: Vec<(u32, Option<E>)>,
    pub stats: Stats,
    pub fn_seen: Vec<bool>,
    pub bad_model: Option<Vec<u64>>,
    errno: u64,
    keys: u64,
    trace_conc: bool,
}

fn pick(s: &Set, r: u64) -> Option<u64> {
    let n = set_len(s) as u64;
    if n == 0 {
        return None;
    }
    let mut k = (r * 7) % n;
    for i in 0..256 {
        if set_has(s, i) {
            if k == 0 {
                return Some(i);
            }
            k -= 1;
        }
    }
    None
}

type X<T> = Result<T, Outcome>;

fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn sx64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, solver: Solver, max_steps: u64) -> Self {
        let gend = p.m.gend;
        let stack0 = gend + 4096;
        let heap0 = stack0 + STACK + 4096;
        let mut mem = vec![0u8; ARENA as usize];
        mem[GBASE as usize..gend as usize].copy_from_slice(&p.m.image);
        Exec {
            p, consts: p.m.consts.iter().map(|(t, k)| p.kval(*t, k)).collect(), mem, flag: vec![0u8; ARENA as usize], sym: FxMap::default(), touched: vec![], ex: Exprs::new(), solver, pc: vec![], known: FxMap::default(), multi: vec![],
            regs: vec![], frames: vec![], heap: heap0, heap0, free: std::array::from_fn(|_| vec![]), sp: stack0, stack0, rand: 0, env: 0, ticks: 0,
            entropy: 0, steps: 0, max_steps, model_in: vec![], skip: 0, idx: 0, children: vec![], notes: vec![], show: vec![],
            covers: vec![], checks: vec![], stats: Stats::default(), fn_seen: vec![false; p.m.funcs.len()], bad_model: None, errno: 0, keys: 0,
            trace_conc: std::env::var_os("MVSYM_CONC").is_some(),
        }
    }

    fn reset(&mut self) {
        let (a, b) = (self.p.m.wr.0 as usize, self.p.m.wr.1 as usize);
        let off = a - GBASE as usize;
        self.mem[a..b].copy_from_slice(&self.p.m.image[off..off + (b - a)]);
        for t in std::mem::take(&mut self.touched) {
            self.flag[t as usize] = 0;
        }
        self.sym.clear();
        self.ex.reset();
        self.solver.end_path();
        self.pc.clear();
        self.known.clear();
        self.multi.clear();
        self.regs.clear();
        self.frames.clear();
        self.heap = self.heap0;
        for f in &mut self.free {
            f.clear();
        }
        self.sp = self.stack0;
        self.rand = 0;
        self.env = 0;
        self.ticks = 0;
        self.entropy = 0;
        self.keys = 0;
        self.steps = 0;
        self.idx = 0;
        self.children.clear();
        self.notes.clear();
        self.show.clear();
        self.covers.clear();
        self.checks.clear();
        self.bad_model = None;
    }

    // ---------- values ----------
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.ex.c(*c as u128, w as u16),
            Val::S(e) => *e,
            Val::W(x) => self.ex.c(**x, w as u16),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.ex.n[e as usize] {
            N::Const(c) => {
                if self.ex.w[e as usize] > 64 { Val::W(Rc::new(c)) } else { Val::C(c as u64) }
            }
            _ => Val::S(e),
        }
    }
    #[inline(always)]
    fn opd(&self, base: usize, o: Opd) -> Val {
        match o {
            Opd::R(r) => self.regs[base + r as usize].clone(),
            Opd::C(c) => Val::C(c),
            Opd::K(k) => self.consts[k as usize].clone(),
        }
    }

    // ---------- path condition ----------
    fn conj(&self, c: E, pos: bool, out: &mut Vec<(E, bool)>) {
        // conjuncts of c (pos) or of !c
        match self.ex.n[c as usize] {
            N::And(a, b) if pos && self.ex.w[c as usize] == 1 => {
                self.conj(a, true, out);
                self.conj(b, true, out);
            }
            N::Or(a, b) if !pos && self.ex.w[c as usize] == 1 => {
                self.conj(a, false, out);
                self.conj(b, false, out);
            }
            N::Xor(a, k) if self.ex.is_const(k) == Some(1) => self.conj(a, !pos, out),
            _ => out.push((c, pos)),
        }
    }
    fn assert(&mut self, c: E, pos: bool) {
        let mut cs = vec![];
        self.conj(c, pos, &mut cs);
        for (x, p) in cs {
            if self.ex.is_const(x).is_some() {
                continue;
            }
            let d = self.ex.dep[x as usize];
            if d != MANY && d != NODEP {
                let t = self.ex.truth(x);
                let t = if p { t } else { set_not(&t) };
                let dm = &mut self.ex.dom[d as usize];
                *dm = set_and(dm, &t);
            } else {
                let mut vs = vec![];
                self.ex.vars(x, &mut vs);
                // variables with a single remaining value do not entangle
                for v in vs {
                    if set_len(&self.ex.dom[v as usize]) > 1 {
                        self.ex.tangled[v as usize] = true;
                    }
                }
            }
            let y = if p { x } else { self.ex.not(x) };
            self.known.insert(x, p);
            if d == MANY {
                self.multi.push(y);
            }
            self.pc.push(y);
        }
    }
    /// Is `c == pos` satisfiable together with the path condition? Returns a model.
    fn feasible(&mut self, c: E, pos: bool) -> X<Option<Vec<u64>>> {
        let mut cs = vec![];
        self.conj(c, pos, &mut cs);
        // conjunction of single-variable conditions
        let mut exact = true;
        let mut doms: Vec<(u32, Set)> = vec![];
        for &(x, p) in &cs {
            if let Some(k) = self.ex.is_const(x) {
                if (k == 1) != p {
                    return Ok(None);
                }
                continue;
            }
            let d = self.ex.dep[x as usize];
            if d == MANY || d == NODEP {
                exact = false;
                continue;
            }
            if self.ex.tangled[d as usize] {
                exact = false;
            }
            let t = self.ex.truth(x);
            let t = if p { t } else { set_not(&t) };
            match doms.iter_mut().find(|y| y.0 == d) {
                Some(y) => y.1 = set_and(&y.1, &t),
                None => doms.push((d, set_and(&self.ex.dom[d as usize], &t))),
            }
        }
        for (_, s) in &doms {
            if set_empty(s) {
                self.stats.dom_decided += 1;
                return Ok(None);
            }
        }
        if exact {
            self.stats.dom_decided += 1;
            let mut m = self.ex.model.clone();
            for (v, s) in &doms {
                if !set_has(s, m[*v as usize]) {
                    m[*v as usize] = set_first(s).unwrap();
                }
            }
            return Ok(Some(m));
        }
        // disjunction of single-variable conditions over untangled variables
        if cs.len() == 1 {
            let mut ds = vec![];
            self.conj(cs[0].0, !cs[0].1, &mut ds);
            if ds.len() > 1 {
                for &(x, p) in &ds {
                    // want: not (x == p)
                    let d = self.ex.dep[x as usize];
                    if d == MANY || d == NODEP || self.ex.tangled[d as usize] {
                        continue;
                    }
                    let t = self.ex.truth(x);
                    let t = if p { set_not(&t) } else { t };
                    let s = set_and(&self.ex.dom[d as usize], &t);
                    if let Some(k) = set_first(&s) {
                        self.stats.dom_decided += 1;
                        let mut m = self.ex.model.clone();
                        m[d as usize] = k;
                        return Ok(Some(m));
                    }
                }
            }
        }
        let x = if pos { c } else { self.ex.not(c) };
        if let Some(m) = self.guess(x, &cs) {
            self.stats.guessed += 1;
            return Ok(Some(m));
        }
        self.stats.smt_decided += 1;
        let t0 = self.solver.time;
        let (r, m) = self.solver.check(&self.ex, &self.pc, &[x], true);
        if self.trace_conc && self.solver.time - t0 > 0.05 {
            eprintln!("slow {:.2}s {r:?} in {}", self.solver.time - t0, self.trace());
        }
        match r {
            Sat::Sat => Ok(m),
            Sat::Unsat => Ok(None),
            Sat::Unknown => {
                self.stats.unknown += 1;
                Err(Outcome::Error("solver gave no answer".into()))
            }
        }
    }
    /// A satisfying assignment found by evaluation (a model needs no solver; only the
    /// absence of one does). Single-variable conditions hold by choice from the domains,
    /// the others are evaluated.
    fn guess(&mut self, x: E, cs: &[(E, bool)]) -> Option<Vec<u64>> {
        let mut fixed: Vec<(u32, Set)> = vec![];
        let mut lits: Vec<(u32, Set)> = vec![];
        for &(y, p) in cs {
            let d = self.ex.dep[y as usize];
            if d != MANY && d != NODEP {
                let t = self.ex.truth(y);
                let t = if p { t } else { set_not(&t) };
                fixed.push((d, set_and(&self.ex.dom[d as usize], &t)));
            }
        }
        if cs.len() == 1 && fixed.is_empty() {
            // a negated conjunction: any one of its parts may fail
            let mut ds = vec![];
            self.conj(cs[0].0, !cs[0].1, &mut ds);
            for &(y, p) in &ds {
                let d = self.ex.dep[y as usize];
                if d != MANY && d != NODEP {
                    let t = self.ex.truth(y);
                    let t = if p { set_not(&t) } else { t };
                    let t = set_and(&self.ex.dom[d as usize], &t);
                    if !set_empty(&t) {
                        lits.push((d, t));
                    }
                }
            }
        }
        let mut cand: Vec<Vec<u64>> = vec![];
        let base = self.ex.model.clone();
        let mut merged: Vec<(u32, Set)> = vec![];
        for (d, s) in &fixed {
            match merged.iter_mut().find(|y| y.0 == *d) {
                Some(y) => y.1 = set_and(&y.1, s),
                None => merged.push((*d, *s)),
            }
        }
        if !merged.is_empty() {
            for r in 0..6u64 {
                let mut m = base.clone();
                for (d, s) in &merged {
                    if r > 0 || !set_has(s, m[*d as usize]) {
                        m[*d as usize] = pick(s, r)?;
                    }
                }
                cand.push(m);
            }
        }
        for (d, s) in &lits {
            for r in 0..3u64 {
                let mut m = base.clone();
                m[*d as usize] = pick(s, r)?;
                cand.push(m);
            }
        }
        'c: for m in cand {
            let mut memo = FxMap::default();
            if self.ex.eval(x, &m, &mut memo) != 1 {
                continue;
            }
            for (v, d) in m.iter().zip(&self.ex.dom) {
                if !set_has(d, *v) {
                    continue 'c;
                }
            }
            for &y in self.multi.iter().rev() {
                if self.ex.eval(y, &m, &mut memo) != 1 {
                    continue 'c;
                }
            }
            return Some(m);
        }
        None
    }
    /// decides a 1-bit condition: follows the model, queues the other side if feasible
    fn decide(&mut self, c: E) -> X<bool> {
        if let Some(k) = self.implied(c) {
            return Ok(k);
        }
        let val = self.ex.val[c as usize] == 1;
        self.idx += 1;
        self.stats.decisions += 1;
        if self.idx > self.skip {
            if let Some(m) = self.feasible(c, !val)? {
                self.stats.forks += 1;
                self.children.push(Item { model: m, skip: self.idx });
            }
        }
        self.assert(c, val);
        Ok(val)
    }
    fn concretise(&mut self, e: E) -> X<u64> {
        if let Some(k) = self.ex.is_const(e) {
            return Ok(k as u64);
        }
        let v = self.ex.val[e as usize];
        let w = self.ex.w[e as usize];
        let k = self.ex.c(v, w);
        let c = self.ex.eq(e, k);
        self.stats.concretised += 1;
        if self.trace_conc {
            eprintln!("concretise {} in {}", self.ex.dep[e as usize], self.trace());
        }
        let r = self.decide(c)?;
        debug_assert!(r);
        Ok(v as u64)
    }
    fn cv(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretise(*e),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err(Outcome::Error("aggregate as scalar".into())),
        }
    }

    // ---------- memory ----------
    #[inline(always)]
    fn chk(&self, a: u64, n: u64) -> X<()> {
        if a < GBASE || a.wrapping_add(n) > ARENA {
            return Err(Outcome::Crash(format!("memory access at {a:#x}+{n}")));
        }
        Ok(())
    }
    #[inline(always)]
    fn any_sym(&self, a: u64, n: u64) -> bool {
        let a = a as usize;
        if n <= 8 {
            self.flag[a..a + n as usize].iter().any(|x| *x != 0)
        } else {
            !self.sym.is_empty() && self.flag[a..a + n as usize].iter().any(|x| *x != 0)
        }
    }
    #[inline(always)]
    fn rd(&self, a: u64, n: u64) -> u64 {
        let a = a as usize;
        match n {
            8 => u64::from_le_bytes(self.mem[a..a + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(self.mem[a..a + 4].try_into().unwrap()) as u64,
            1 => self.mem[a] as u64,
            2 => u16::from_le_bytes(self.mem[a..a + 2].try_into().unwrap()) as u64,
            _ => {
                let mut v = 0;
                for i in 0..n as usize {
                    v |= (self.mem[a + i] as u64) << (8 * i);
                }
                v
            }
        }
    }
    fn byte(&mut self, a: u64) -> E {
        if self.flag[a as usize] != 0 {
            let e = self.sym[&(a as u32)];
            let d = self.ex.dep[e as usize];
            if d != MANY && d != NODEP && set_len(&self.ex.dom[d as usize]) == 1 {
                let v = self.ex.val[e as usize];
                let w = self.ex.w[e as usize];
                return self.ex.c(v, w);
            }
            e
        } else {
            let v = self.mem[a as usize] as u128;
            self.ex.c(v, 8)
        }
    }
    fn load_w(&mut self, a: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as u64;
        self.chk(a, n)?;
        if !self.any_sym(a, n) {
            if w <= 64 {
                return Ok(Val::C(self.rd(a, n) & m64(w)));
            }
            let lo = self.rd(a, 8) as u128;
            let hi = self.rd(a + 8, n - 8) as u128;
            return Ok(Val::W(Rc::new(hi << 64 | lo)));
        }
        let mut r = self.byte(a);
        for i in 1..n {
            let b = self.byte(a + i);
            r = self.ex.concat(b, r);
        }
        let r = self.ex.extract(r, 0, w as u16);
        Ok(self.v(r))
    }
    fn load(&mut self, a: u64, ty: TyId) -> X<Val> {
        let w = self.p.w[ty as usize];
        if w > 0 {
            return self.load_w(a, w);
        }
        let p = self.p;
        let mut v = vec![];
        for (t, o) in p.elems[ty as usize].iter() {
            v.push(self.load(a + o, *t)?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    #[inline(always)]
    fn clear_sym(&mut self, a: u64, n: u64) {
        for i in a as usize..(a + n) as usize {
            if self.flag[i] != 0 {
                self.flag[i] = 0;
                self.sym.remove(&(i as u32));
            }
        }
    }
    fn set_sym(&mut self, a: u64, e: E) {
        if let Some(c) = self.ex.is_const(e) {
            self.mem[a as usize] = c as u8;
            self.clear_sym(a, 1);
            return;
        }
        if self.flag[a as usize] == 0 {
            self.flag[a as usize] = 1;
            self.touched.push(a as u32);
        }
        self.sym.insert(a as u32, e);
        self.mem[a as usize] = self.ex.val[e as usize] as u8;
    }
    fn store_w(&mut self, a: u64, v: &Val, w: u32) -> X<()> {
        let n = ((w + 7) / 8) as u64;
        self.chk(a, n)?;
        match v {
            Val::C(c) => {
                if self.any_sym(a, n) {
                    self.clear_sym(a, n);
                }
                let b = c.to_le_bytes();
                let a = a as usize;
                match n {
                    8 => self.mem[a..a + 8].copy_from_slice(&b),
                    1 => self.mem[a] = b[0],
                    n if n <= 8 => self.mem[a..a + n as usize].copy_from_slice(&b[..n as usize]),
                    n => {
                        self.mem[a..a + 8].copy_from_slice(&b);
                        self.mem[a + 8..a + n as usize].fill(0);
                    }
                }
            }
            Val::W(x) => {
                self.clear_sym(a, n);
                let b = x.to_le_bytes();
                self.mem[a as usize..(a + n) as usize].copy_from_slice(&b[..n as usize]);
            }
            Val::S(e) => {
                let e = self.ex.zext(*e, (n * 8) as u16);
                for i in 0..n {
                    let b = self.ex.extract(e, (i * 8) as u16, 8);
                    self.set_sym(a + i, b);
                }
            }
            Val::A(_) => return Err(Outcome::Error("store agg as scalar".into())),
        }
        Ok(())
    }
    fn store(&mut self, a: u64, ty: TyId, v: &Val) -> X<()> {
        let w = self.p.w[ty as usize];
        if w > 0 {
            return self.store_w(a, v, w);
        }
        let Val::A(vs) = v else { return Err(Outcome::Error("store scalar as agg".into())) };
        let p = self.p;
        for ((t, o), x) in p.elems[ty as usize].iter().zip(vs.iter()) {
            self.store(a + o, *t, x)?;
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        let any = !self.sym.is_empty() && (self.any_sym(s, n) || self.any_sym(d, n));
        if !any {
            self.mem.copy_within(s as usize..(s + n) as usize, d as usize);
            return Ok(());
        }
        let tmp: Vec<Option<E>> =
            (s..s + n).map(|a| if self.flag[a as usize] != 0 { Some(self.sym[&(a as u32)]) } else { None }).collect();
        self.clear_sym(d, n);
        self.mem.copy_within(s as usize..(s + n) as usize, d as usize);
        for (i, t) in tmp.into_iter().enumerate() {
            if let Some(e) = t {
                self.set_sym(d + i as u64, e);
            }
        }
        Ok(())
    }
    /// load from a symbolic address
    fn load_sym(&mut self, ae: E, ty: TyId) -> X<Val> {
        let w = self.p.w[ty as usize];
        let d = self.ex.dep[ae as usize];
        if d != MANY && d != NODEP && w > 0 && w <= 64 {
            let t = self.ex.table(ae);
            let dom = self.ex.dom[d as usize];
            let n = ((w + 7) / 8) as u64;
            let mut runs: Vec<(u64, u64)> = vec![]; // (last var value of run, loaded)
            let mut ok = true;
            for k in 0..256u64 {
                if !set_has(&dom, k) {
                    continue;
                }
                let a = t[k as usize];
                if self.chk(a, n).is_err() || self.any_sym(a, n) {
                    ok = false;
                    break;
                }
                let v = self.rd(a, n) & m64(w);
                match runs.last_mut() {
                    Some(r) if r.1 == v => r.0 = k,
                    _ => runs.push((k, v)),
                }
            }
            if ok && !runs.is_empty() {
                let r = self.runs_expr(d, &runs, w);
                return Ok(self.v(r));
            }
        }
        let a = self.concretise(ae)?;
        self.load(a, ty)
    }
    fn runs_expr(&mut self, var: u32, runs: &[(u64, u64)], w: u32) -> E {
        let ve = self.ex.var_e[var as usize];
        let mut r = self.ex.c(runs.last().unwrap().1 as u128, w as u16);
        for (k, v) in runs[..runs.len() - 1].iter().rev() {
            let kk = self.ex.c(*k as u128, 8);
            let c = self.ex.cmp(Pred::Ule, ve, kk);
            let x = self.ex.c(*v as u128, w as u16);
            r = self.ex.ite(c, x, r);
        }
        r
    }
    /// arbitrary function of a single-variable expression
    fn map1(&mut self, e: E, w: u32, f: impl Fn(u64) -> u64) -> X<Val> {
        let d = self.ex.dep[e as usize];
        if d != MANY && d != NODEP {
            let t = self.ex.table(e);
            let dom = self.ex.dom[d as usize];
            let mut runs: Vec<(u64, u64)> = vec![];
            for k in 0..256u64 {
                if set_has(&dom, k) {
                    let v = f(t[k as usize]) & m64(w);
                    match runs.last_mut() {
                        Some(r) if r.1 == v => r.0 = k,
                        _ => runs.push((k, v)),
                    }
                }
            }
            let r = self.runs_expr(d, &runs, w);
            return Ok(self.v(r));
        }
        let v = self.concretise(e)?;
        Ok(Val::C(f(v) & m64(w)))
    }

    fn class(n: u64) -> (usize, u64) {
        let n = (n + 16).max(32);
        let c = 64 - (n - 1).leading_zeros() as usize;
        (c, 1 << c)
    }
    fn malloc(&mut self, n: u64) -> X<u64> {
        let (c, sz) = Self::class(n);
        let a = if c < 40 && !self.free[c].is_empty() {
            self.free[c].pop().unwrap()
        } else {
            let a = self.heap;
            if a + sz + 64 > ARENA {
                return Err(Outcome::Crash("out of heap".into()));
            }
            self.heap += sz;
            a
        };
        self.mem[a as usize..a as usize + 8].copy_from_slice(&n.to_le_bytes());
        Ok(a + 16)
    }
    fn freep(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let n = self.rd(a - 16, 8);
        let (c, _) = Self::class(n);
        if !self.sym.is_empty() {
            self.clear_sym(a, n);
        }
        self.free[c].push(a - 16);
    }

    // ---------- operations ----------
    fn binop(&mut self, op: Bin, a: &Val, b: &Val, w: u32) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx64(x, w) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv => x.checked_div(y).ok_or(Outcome::Crash("div by zero".into()))?,
                Bin::URem => x.checked_rem(y).ok_or(Outcome::Crash("div by zero".into()))?,
                Bin::SDiv => sx64(x, w).checked_div(sx64(y, w)).ok_or(Outcome::Crash("div".into()))? as u64,
                Bin::SRem => sx64(x, w).checked_rem(sx64(y, w)).ok_or(Outcome::Crash("div".into()))? as u64,
            };
            return Ok(Val::C(r & m));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(self.binop(op, p, q, w)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && self.ex.is_const(y).is_none() {
            let z = self.ex.c(0, w as u16);
            let c = self.ex.eq(y, z);
            if self.decide(c)? {
                return Err(Outcome::Crash("div by zero".into()));
            }
        }
        let r = self.ex.bin(op, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, a: &Val, b: &Val, w: u32) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx64(x, w) < sx64(y, w),
                Pred::Sle => sx64(x, w) <= sx64(y, w),
                Pred::Sgt => sx64(x, w) > sx64(y, w),
                Pred::Sge => sx64(x, w) >= sx64(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut r = vec![];
            for (u, v) in x.iter().zip(y.iter()) {
                r.push(self.icmp(p, u, v, w)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ex.cmp(p, x, y);
        if let Some(k) = self.implied(r) {
            return Ok(Val::C(k as u64));
        }
        Ok(self.v(r))
    }
    /// settled by the path condition without a query?
    fn implied(&mut self, c: E) -> Option<bool> {
        if let Some(k) = self.ex.is_const(c) {
            return Some(k == 1);
        }
        let (mut x, mut pos) = (c, true);
        if let N::Xor(a, k) = self.ex.n[c as usize] {
            if self.ex.is_const(k) == Some(1) {
                x = a;
                pos = false;
            }
        }
        if let Some(&k) = self.known.get(&x) {
            return Some(k == pos);
        }
        let d = self.ex.dep[c as usize];
        if d != MANY && d != NODEP {
            let val = self.ex.val[c as usize] == 1;
            let t = self.ex.truth(c);
            let t = if val { set_not(&t) } else { t };
            if set_empty(&set_and(&t, &self.ex.dom[d as usize])) {
                self.stats.dom_decided += 1;
                return Some(val);
            }
        }
        None
    }
    fn elem_w(&self, ty: TyId) -> u32 {
        match self.p.m.ty(ty) {
            Ty::Vec(_, e) => self.p.w[*e as usize],
            _ => self.p.w[ty as usize],
        }
    }
    fn cast(&mut self, op: Cast, a: &Val, fw: u32, tw: u32) -> X<Val> {
        match a {
            Val::C(x) => {
                let x = *x;
                Ok(match op {
                    Cast::Zext if tw > 64 => Val::W(Rc::new(x as u128)),
                    Cast::Zext | Cast::Bit => Val::C(x),
                    Cast::Sext if tw > 64 => Val::W(Rc::new((sx64(x, fw) as i128) as u128 & mask(tw as u16))),
                    Cast::Sext => Val::C(sx64(x, fw) as u64 & m64(tw)),
                    Cast::Trunc => Val::C(x & m64(tw)),
                })
            }
            _ => {
                let e = self.e(a, fw);
                let r = match op {
                    Cast::Zext => self.ex.zext(e, tw as u16),
                    Cast::Sext => self.ex.sext(e, tw as u16),
                    Cast::Trunc => self.ex.extract(e, 0, tw as u16),
                    Cast::Bit => e,
                };
                Ok(self.v(r))
            }
        }
    }

    fn jump(&mut self, base: usize, e: &Edge) -> u32 {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.opd(base, e.moves[0].1);
                self.regs[base + e.moves[0].0 as usize] = v;
            }
            2 => {
                let v = self.opd(base, e.moves[0].1);
                let u = self.opd(base, e.moves[1].1);
                self.regs[base + e.moves[0].0 as usize] = v;
                self.regs[base + e.moves[1].0 as usize] = u;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|m| self.opd(base, m.1)).collect();
                for (m, v) in e.moves.iter().zip(vs) {
                    self.regs[base + m.0 as usize] = v;
                }
            }
        }
        e.pc
    }

    pub fn trace(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(14) {
            s.push_str(&self.p.m.funcs[f.func as usize].pretty);
            s.push_str(" < ");
        }
        s
    }

    fn get_path(v: &Val, path: &[u32]) -> Val {
        let mut c = v.clone();
        for i in path {
            let Val::A(x) = &c else { return Val::C(0) };
            let n = x[*i as usize].clone();
            c = n;
        }
        c
    }
    fn set_path(v: &Val, path: &[u32], n: Val) -> Val {
        if path.is_empty() {
            return n;
        }
        let Val::A(x) = v else { return n };
        let mut y = (**x).clone();
        y[path[0] as usize] = Self::set_path(&y[path[0] as usize], &path[1..], n);
        Val::A(Rc::new(y))
    }

    fn push_frame(&mut self, f: u32, args: &[Val], dst: u32) -> X<()> {
        let fun = &self.p.m.funcs[f as usize];
        if !fun.defined {
            return Err(Outcome::Error(format!("call of external {}", fun.name)));
        }
        self.fn_seen[f as usize] = true;
        let base = self.regs.len();
        self.regs.resize(base + fun.nregs as usize, Val::C(0));
        for (i, a) in args.iter().enumerate() {
            self.regs[base + i] = a.clone();
        }
        self.frames.push(Frame { func: f, pc: 0, base, dst, sp: self.sp });
        if self.frames.len() > 100_000 {
            return Err(Outcome::Crash("stack overflow".into()));
        }
        Ok(())
    }

    /// runs one path of `entry` from the model in `it`
    pub fn run(&mut self, entry: u32, it: &Item) -> Outcome {
        self.reset();
        self.model_in = it.model.clone();
        self.skip = it.skip;
        let r = (|| {
            self.push_frame(entry, &[], u32::MAX)?;
            self.exec()
        })();
        self.stats.instrs += self.steps;
        match r {
            Ok(()) => Outcome::Done,
            Err(o) => o,
        }
    }

    fn exec(&mut self) -> X<()> {
        let prog = self.p;
        'outer: loop {
            let (func, mut pc, base) = {
                let f = self.frames.last().unwrap();
                (f.func, f.pc, f.base)
            };
            let code: &'p [I] = &prog.m.funcs[func as usize].code;
            loop {
                self.steps += 1;
                let ins = &code[pc as usize];
                pc += 1;
                match ins {
                    I::Bin { op, ty, a, b, dst, w } => {
                        let (a, b) = (self.opd(base, *a), self.opd(base, *b));
                        let w = if *w == 0 { self.elem_w(*ty) } else { *w };
                        let r = self.binop(*op, &a, &b, w)?;
                        self.regs[base + *dst as usize] = r;
                    }
                    I::Icmp { p, ty, a, b, dst, w } => {
                        let (a, b) = (self.opd(base, *a), self.opd(base, *b));
                        let w = if *w == 0 { self.elem_w(*ty) } else { *w };
                        let r = self.icmp(*p, &a, &b, w)?;
                        self.regs[base + *dst as usize] = r;
                    }
                    I::Load { dst, ty, ptr, w } => {
                        let a = self.opd(base, *ptr);
                        let r = match a {
                            Val::C(a) => if *w > 0 { self.load_w(a, *w)? } else { self.load(a, *ty)? },
                            Val::S(e) => self.load_sym(e, *ty)?,
                            _ => return Err(Outcome::Error("ptr".into())),
                        };
                        self.regs[base + *dst as usize] = r;
                    }
                    I::Store { ty, v, ptr, w } => {
                        let a = self.opd(base, *ptr);
                        let a = self.cv(&a)?;
                        let v = self.opd(base, *v);
                        if *w > 0 { self.store_w(a, &v, *w)? } else { self.store(a, *ty, &v)? }
                    }
                    I::Gep { dst, base: b, off, idx } => {
                        let mut v = self.opd(base, *b);
                        if *off != 0 {
                            v = self.binop(Bin::Add, &v, &Val::C(*off as u64), 64)?;
                        }
                        for (o, w, s) in idx.iter() {
                            let x = self.opd(base, *o);
                            let x = if *w < 64 { self.cast(Cast::Sext, &x, *w, 64)? } else { x };
                            let x = if *s == 1 { x } else { self.binop(Bin::Mul, &x, &Val::C(*s as u64), 64)? };
                            v = self.binop(Bin::Add, &v, &x, 64)?;
                        }
                        self.regs[base + *dst as usize] = v;
                    }
                    I::Alloca { dst, size, align } => {
                        let al = (*align).max(1);
                        let a = (self.sp + al - 1) / al * al;
                        self.sp = a + size;
                        if self.sp > self.stack0 + STACK {
                            return Err(Outcome::Crash("stack overflow".into()));
                        }
                        if !self.sym.is_empty() {
                            self.clear_sym(a, *size);
                        }
                        self.regs[base + *dst as usize] = Val::C(a);
                    }
                    I::Cast { op, from, to, a, dst } => {
                        let a = self.opd(base, *a);
                        let (fw, tw) = (prog.w[*from as usize], prog.w[*to as usize]);
                        let r = if fw > 0 && tw > 0 {
                            self.cast(*op, &a, fw, tw)?
                        } else if fw == 0 && tw == 0 {
                            let (fw, tw) = (self.elem_w(*from), self.elem_w(*to));
                            let Val::A(x) = &a else { return Err(Outcome::Error("vec cast".into())) };
                            if *op == Cast::Bit && fw != tw {
                                return Err(Outcome::Error("vec bitcast".into()));
                            }
                            let mut r = vec![];
                            for y in x.iter() {
                                r.push(self.cast(*op, y, fw, tw)?);
                            }
                            Val::A(Rc::new(r))
                        } else if fw == 0 {
                            // vector to integer
                            let ew = self.elem_w(*from);
                            let Val::A(x) = &a else { return Err(Outcome::Error("vec cast".into())) };
                            let mut r = self.e(&x[0], ew);
                            for y in &x[1..] {
                                let h = self.e(y, ew);
                                r = self.ex.concat(h, r);
                            }
                            self.v(r)
                        } else {
                            let ew = self.elem_w(*to);
                            let x = self.e(&a, fw);
                            let mut r = vec![];
                            for i in 0..fw / ew {
                                let y = self.ex.extract(x, (i * ew) as u16, ew as u16);
                                r.push(self.v(y));
                            }
                            Val::A(Rc::new(r))
                        };
                        self.regs[base + *dst as usize] = r;
                    }
                    I::Select { c, a, b, dst, ty, cty } => {
                        let c = self.opd(base, *c);
                        let r = match c {
                            Val::C(k) => if k & 1 == 1 { self.opd(base, *a) } else { self.opd(base, *b) },
                            Val::S(e) => {
                                let w = prog.w[*ty as usize];
                                let is_ptr = matches!(prog.m.ty(*ty), Ty::Ptr);
                                let (x, y) = (self.opd(base, *a), self.opd(base, *b));
                                if let Some(k) = self.implied(e) {
                                    if k { x } else { y }
                                } else if w > 0 && !is_ptr {
                                    let x = self.e(&x, w);
                                    let y = self.e(&y, w);
                                    let r = self.ex.ite(e, x, y);
                                    self.v(r)
                                } else if self.decide(e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                            Val::A(cs) => {
                                let (x, y) = (self.opd(base, *a), self.opd(base, *b));
                                let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Outcome::Error("vsel".into())) };
                                let mut r = vec![];
                                let w = self.elem_w(*ty);
                                for i in 0..cs.len() {
                                    let k = self.e(&cs[i], 1);
                                    let p = self.e(&x[i], w);
                                    let q = self.e(&y[i], w);
                                    let z = self.ex.ite(k, p, q);
                                    r.push(self.v(z));
                                }
                                Val::A(Rc::new(r))
                            }
                            _ => return Err(Outcome::Error("select".into())),
                        };
                        let _ = cty;
                        self.regs[base + *dst as usize] = r;
                    }
                    I::ExtractValue { dst, a, path, .. } => {
                        let v = self.opd(base, *a);
                        self.regs[base + *dst as usize] = Self::get_path(&v, path);
                    }
                    I::InsertValue { dst, a, v, path, .. } => {
                        let x = self.opd(base, *a);
                        let y = self.opd(base, *v);
                        self.regs[base + *dst as usize] = Self::set_path(&x, path, y);
                    }
                    I::InsertElement { dst, a, v, i, .. } => {
                        let x = self.opd(base, *a);
                        let y = self.opd(base, *v);
                        let i = self.opd(base, *i);
                        let i = self.cv(&i)? as u32;
                        self.regs[base + *dst as usize] = Self::set_path(&x, &[i], y);
                    }
                    I::ExtractElement { dst, a, i, .. } => {
                        let x = self.opd(base, *a);
                        let i = self.opd(base, *i);
                        let i = self.cv(&i)? as u32;
                        self.regs[base + *dst as usize] = Self::get_path(&x, &[i]);
                    }
                    I::Shuffle { dst, a, b, mask, .. } => {
                        let (Val::A(x), Val::A(y)) = (self.opd(base, *a), self.opd(base, *b)) else {
                            return Err(Outcome::Error("shuffle".into()));
                        };
                        let n = x.len() as i32;
                        let r = mask.iter().map(|k| if *k < 0 { Val::C(0) } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect();
                        self.regs[base + *dst as usize] = Val::A(Rc::new(r));
                    }
                    I::Freeze { dst, a } => {
                        let v = self.opd(base, *a);
                        self.regs[base + *dst as usize] = v;
                    }
                    I::AtomicRmw { dst, op, ptr, v, w } => {
                        let a = self.opd(base, *ptr);
                        let a = self.cv(&a)?;
                        let v = self.opd(base, *v);
                        let old = self.load_w(a, *w)?;
                        let new = match op {
                            Rmw::Xchg => v,
                            Rmw::Add => self.binop(Bin::Add, &old, &v, *w)?,
                            Rmw::Sub => self.binop(Bin::Sub, &old, &v, *w)?,
                            Rmw::And => self.binop(Bin::And, &old, &v, *w)?,
                            Rmw::Or => self.binop(Bin::Or, &old, &v, *w)?,
                            Rmw::Xor => self.binop(Bin::Xor, &old, &v, *w)?,
                            _ => return Err(Outcome::Error("rmw".into())),
                        };
                        self.store_w(a, &new, *w)?;
                        self.regs[base + *dst as usize] = old;
                    }
                    I::CmpXchg { dst, ptr, cmp, new, w } => {
                        let a = self.opd(base, *ptr);
                        let a = self.cv(&a)?;
                        let old = self.load_w(a, *w)?;
                        let (c, n) = (self.opd(base, *cmp), self.opd(base, *new));
                        let eq = self.icmp(Pred::Eq, &old, &c, *w)?;
                        let eq = match eq {
                            Val::C(k) => k,
                            Val::S(e) => self.decide(e)? as u64,
                            _ => 0,
                        };
                        if eq == 1 {
                            self.store_w(a, &n, *w)?;
                        }
                        self.regs[base + *dst as usize] = Val::A(Rc::new(vec![old, Val::C(eq)]));
                    }
                    I::Intrinsic { dst, op, args, w } => {
                        let r = self.intrinsic(base, *op, args, *w)?;
                        if *dst != u32::MAX {
                            self.regs[base + *dst as usize] = r;
                        }
                    }
                    I::CallDirect { .. } | I::Call { .. } => {
                        let (dst, f, args) = match ins {
                            I::CallDirect { dst, f, args } => (*dst, *f, args),
                            I::Call { dst, f, args } => {
                                let v = self.opd(base, *f);
                                let a = self.cv(&v)?;
                                let id = a.wrapping_sub(FBASE) / 16;
                                if a < FBASE || id as usize >= prog.m.funcs.len() {
                                    return Err(Outcome::Crash(format!("call of {a:#x}")));
                                }
                                (*dst, id as u32, args)
                            }
                            _ => unreachable!(),
                        };
                        if self.steps > self.max_steps {
                            return Err(Outcome::Hang);
                        }
                        let x = prog.ext[f as usize];
                        if x != Ext::None {
                            let av: Vec<Val> = args.iter().map(|o| self.opd(base, *o)).collect();
                            self.frames.last_mut().unwrap().pc = pc;
                            let r = self.external(x, f, &av)?;
                            if dst != u32::MAX {
                                self.regs[base + dst as usize] = r;
                            }
                            continue;
                        }
                        let fun = &prog.m.funcs[f as usize];
                        if !fun.defined {
                            return Err(Outcome::Error(format!("call of external {}", fun.name)));
                        }
                        self.fn_seen[f as usize] = true;
                        self.frames.last_mut().unwrap().pc = pc;
                        let nb = self.regs.len();
                        self.regs.resize(nb + fun.nregs as usize, Val::C(0));
                        for (i, o) in args.iter().enumerate() {
                            let v = self.opd(base, *o);
                            self.regs[nb + i] = v;
                        }
                        self.frames.push(Frame { func: f, pc: 0, base: nb, dst, sp: self.sp });
                        if self.frames.len() > 60_000 {
                            return Err(Outcome::Crash("stack overflow".into()));
                        }
                        continue 'outer;
                    }
                    I::Br { e } => {
                        pc = self.jump(base, e);
                    }
                    I::CondBr { c, t, f } => {
                        if self.steps > self.max_steps {
                            return Err(Outcome::Hang);
                        }
                        let k = match self.opd(base, *c) {
                            Val::C(k) => k & 1 == 1,
                            Val::S(e) => self.decide(e)?,
                            _ => return Err(Outcome::Error("br".into())),
                        };
                        pc = self.jump(base, if k { t } else { f });
                    }
                    I::Switch { v, w, cases, edges, default } => {
                        if self.steps > self.max_steps {
                            return Err(Outcome::Hang);
                        }
                        let mut target = *default;
                        match self.opd(base, *v) {
                            Val::C(x) => {
                                for (k, t) in cases.iter() {
                                    if *k as u64 == x {
                                        target = *t;
                                        break;
                                    }
                                }
                            }
                            Val::S(e) => {
                                // group the cases by target
                                let nt = edges.len() as u32;
                                for t in 0..nt {
                                    if t == *default {
                                        continue;
                                    }
                                    let mut c = self.ex.c(0, 1);
                                    for (k, ct) in cases.iter() {
                                        if *ct == t {
                                            let kk = self.ex.c(*k, *w as u16);
                                            let q = self.ex.eq(e, kk);
                                            c = self.ex.bin(Bin::Or, c, q);
                                        }
                                    }
                                    if self.decide(c)? {
                                        target = t;
                                        break;
                                    }
                                }
                            }
                            Val::W(x) => {
                                for (k, t) in cases.iter() {
                                    if *k == *x {
                                        target = *t;
                                        break;
                                    }
                                }
                            }
                            _ => return Err(Outcome::Error("switch".into())),
                        }
                        pc = self.jump(base, &edges[target as usize]);
                    }
                    I::Ret { v } => {
                        let r = v.map(|v| self.opd(base, v));
                        let f = self.frames.pop().unwrap();
                        self.regs.truncate(f.base);
                        self.sp = f.sp;
                        if self.frames.is_empty() {
                            return Ok(());
                        }
                        let nb = self.frames.last().unwrap().base;
                        if f.dst != u32::MAX {
                            if let Some(r) = r {
                                self.regs[nb + f.dst as usize] = r;
                            }
                        }
                        continue 'outer;
                    }
                    I::Unreachable => {
                        self.frames.last_mut().unwrap().pc = pc;
                        return Err(Outcome::Crash("unreachable executed".into()));
                    }
                    I::Unsupported(s) => return Err(Outcome::Error(format!("unsupported: {s} in {}", self.trace()))),
                }
            }
        }
    }

    fn intrinsic(&mut self, base: usize, op: Intr, args: &[Opd], w: u32) -> X<Val> {
        let a = |s: &Self, i: usize| s.opd(base, args[i]);
        Ok(match op {
            Intr::Nop | Intr::ReadCycle => Val::C(0),
            Intr::Memcpy | Intr::Memmove => {
                let (d, s, n) = (a(self, 0), a(self, 1), a(self, 2));
                let (d, s, n) = (self.cv(&d)?, self.cv(&s)?, self.cv(&n)?);
                self.copy(d, s, n)?;
                Val::C(0)
            }
            Intr::Memset => {
                let (d, v, n) = (a(self, 0), a(self, 1), a(self, 2));
                let (d, n) = (self.cv(&d)?, self.cv(&n)?);
                if n > 0 {
                    self.chk(d, n)?;
                    match v {
                        Val::C(v) => {
                            self.clear_sym(d, n);
                            self.mem[d as usize..(d + n) as usize].fill(v as u8);
                        }
                        v => {
                            for i in 0..n {
                                self.store_w(d + i, &v, 8)?;
                            }
                        }
                    }
                }
                Val::C(0)
            }
            Intr::Tls | Intr::Expect => a(self, 0),
            Intr::IsConst => Val::C(0),
            Intr::Trap => return Err(Outcome::Crash("trap".into())),
            Intr::Fshl | Intr::Fshr => {
                let (x, y, s) = (a(self, 0), a(self, 1), a(self, 2));
                let s = self.cv(&s)? % w as u64;
                if s == 0 {
                    return Ok(if op == Intr::Fshl { x } else { y });
                }
                let s = if op == Intr::Fshl { s } else { w as u64 - s };
                let h = self.binop(Bin::Shl, &x, &Val::C(s), w)?;
                let l = self.binop(Bin::LShr, &y, &Val::C(w as u64 - s), w)?;
                self.binop(Bin::Or, &h, &l, w)?
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let (x, y) = (a(self, 0), a(self, 1));
                let p = match op {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.icmp(p, &x, &y, w)? {
                    Val::C(1) => x,
                    Val::C(_) => y,
                    c => {
                        let (c, x, y) = (self.e(&c, 1), self.e(&x, w), self.e(&y, w));
                        let r = self.ex.ite(c, x, y);
                        self.v(r)
                    }
                }
            }
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop | Intr::Bswap | Intr::Bitrev => {
                let x = a(self, 0);
                let f = move |v: u64| -> u64 {
                    match op {
                        Intr::Cttz => if v == 0 { w as u64 } else { v.trailing_zeros() as u64 },
                        Intr::Ctlz => v.leading_zeros() as u64 - (64 - w as u64),
                        Intr::Ctpop => v.count_ones() as u64,
                        Intr::Bswap => v.swap_bytes() >> (64 - w),
                        _ => v.reverse_bits() >> (64 - w),
                    }
                };
                match x {
                    Val::C(v) => Val::C(f(v)),
                    Val::S(e) if op == Intr::Bswap => {
                        let mut r = self.ex.extract(e, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.ex.extract(e, (i * 8) as u16, 8);
                            r = self.ex.concat(r, b);
                        }
                        self.v(r)
                    }
                    Val::S(e) => self.map1(e, w, f)?,
                    _ => return Err(Outcome::Error("bit intrinsic".into())),
                }
            }
            Intr::Abs => {
                let x = a(self, 0);
                let n = self.binop(Bin::Sub, &Val::C(0), &x, w)?;
                let c = self.icmp(Pred::Slt, &x, &Val::C(0), w)?;
                let (c, x, n) = (self.e(&c, 1), self.e(&x, w), self.e(&n, w));
                let r = self.ex.ite(c, n, x);
                self.v(r)
            }
            Intr::Ucmp | Intr::Scmp => {
                let (aw, rw) = (w & 0xffff, w >> 16);
                let (x, y) = (a(self, 0), a(self, 1));
                let lt = self.icmp(if op == Intr::Ucmp { Pred::Ult } else { Pred::Slt }, &x, &y, aw)?;
                let eq = self.icmp(Pred::Eq, &x, &y, aw)?;
                let (lt, eq) = (self.e(&lt, 1), self.e(&eq, 1));
                let (m1, z, o) = (self.ex.c(u128::MAX, rw as u16), self.ex.c(0, rw as u16), self.ex.c(1, rw as u16));
                let r = self.ex.ite(eq, z, o);
                let r = self.ex.ite(lt, m1, r);
                self.v(r)
            }
            Intr::UsubSat | Intr::UaddSat => {
                let (x, y) = (a(self, 0), a(self, 1));
                let (r, c, k) = if op == Intr::UsubSat {
                    (self.binop(Bin::Sub, &x, &y, w)?, self.icmp(Pred::Ult, &x, &y, w)?, 0)
                } else {
                    let r = self.binop(Bin::Add, &x, &y, w)?;
                    let c = self.icmp(Pred::Ult, &r, &x, w)?;
                    (r, c, m64(w))
                };
                let (c, r) = (self.e(&c, 1), self.e(&r, w));
                let k = self.ex.c(k as u128, w as u16);
                let r = self.ex.ite(c, k, r);
                self.v(r)
            }
            Intr::UmulOv | Intr::UaddOv | Intr::UsubOv | Intr::SaddOv | Intr::SsubOv | Intr::SmulOv => {
                let (x, y) = (a(self, 0), a(self, 1));
                let (x, y) = match op {
                    Intr::UaddOv | Intr::UsubOv => (x, y),
                    _ => (Val::C(self.cv(&x)?), Val::C(self.cv(&y)?)),
                };
                let (r, c) = match op {
                    Intr::UaddOv => {
                        let r = self.binop(Bin::Add, &x, &y, w)?;
                        let c = self.icmp(Pred::Ult, &r, &x, w)?;
                        (r, c)
                    }
                    Intr::UsubOv => (self.binop(Bin::Sub, &x, &y, w)?, self.icmp(Pred::Ult, &x, &y, w)?),
                    _ => {
                        let (Val::C(p), Val::C(q)) = (&x, &y) else { unreachable!() };
                        if op == Intr::UmulOv {
                            let r = *p as u128 * *q as u128;
                            (Val::C(r as u64 & m64(w)), Val::C((r > m64(w) as u128) as u64))
                        } else {
                            let (p, q) = (sx64(*p, w) as i128, sx64(*q, w) as i128);
                            let r = match op {
                                Intr::SaddOv => p + q,
                                Intr::SsubOv => p - q,
                                _ => p * q,
                            };
                            let t = r as u64 & m64(w);
                            (Val::C(t), Val::C((sx64(t, w) as i128 != r) as u64))
                        }
                    }
                };
                Val::A(Rc::new(vec![r, c]))
            }
            Intr::Pmovmskb => {
                let Val::A(x) = a(self, 0) else { return Err(Outcome::Error("pmovmskb".into())) };
                let mut r = self.ex.c(0, 1);
                let mut first = true;
                for v in x.iter() {
                    let e = self.e(v, 8);
                    let b = self.ex.extract(e, 7, 1);
                    r = if first { b } else { self.ex.concat(b, r) };
                    first = false;
                }
                let r = self.ex.zext(r, 32);
                self.v(r)
            }
        })
    }

    fn next_rand(&mut self) -> u64 {
        self.rand = self.rand.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rand;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn external(&mut self, x: Ext, f: u32, a: &[Val]) -> X<Val> {
        Ok(match x {
            Ext::None => unreachable!(),
            Ext::Malloc => {
                let n = self.cv(&a[0])?;
                Val::C(self.malloc(n)?)
            }
            Ext::Calloc => {
                let n = self.cv(&a[0])? * self.cv(&a[1])?;
                let p = self.malloc(n)?;
                self.mem[p as usize..(p + n) as usize].fill(0);
                Val::C(p)
            }
            Ext::Realloc => {
                let p = self.cv(&a[0])?;
                let n = self.cv(&a[1])?;
                if p == 0 {
                    return Ok(Val::C(self.malloc(n)?));
                }
                let old = self.rd(p - 16, 8);
                if Self::class(old).0 == Self::class(n).0 {
                    self.mem[p as usize - 16..p as usize - 8].copy_from_slice(&n.to_le_bytes());
                    return Ok(Val::C(p));
                }
                let q = self.malloc(n)?;
                self.copy(q, p, old.min(n))?;
                self.freep(p);
                Val::C(q)
            }
            Ext::Free => {
                let p = self.cv(&a[0])?;
                self.freep(p);
                Val::C(0)
            }
            Ext::Memalign => {
                let out = self.cv(&a[0])?;
                let al = self.cv(&a[1])?;
                let n = self.cv(&a[2])?;
                if al > 16 {
                    return Err(Outcome::Error("memalign".into()));
                }
                let p = self.malloc(n)?;
                self.store_w(out, &Val::C(p), 64)?;
                Val::C(0)
            }
            Ext::Memcpy => {
                let (d, s, n) = (self.cv(&a[0])?, self.cv(&a[1])?, self.cv(&a[2])?);
                self.copy(d, s, n)?;
                Val::C(d)
            }
            Ext::Memcmp => {
                let (p, q, n) = (self.cv(&a[0])?, self.cv(&a[1])?, self.cv(&a[2])?);
                if n == 0 {
                    return Ok(Val::C(0));
                }
                self.chk(p, n)?;
                self.chk(q, n)?;
                if !self.any_sym(p, n) && !self.any_sym(q, n) {
                    let r = self.mem[p as usize..(p + n) as usize].cmp(&self.mem[q as usize..(q + n) as usize]);
                    return Ok(Val::C(r as i8 as i32 as u32 as u64));
                }
                let is_bcmp = self.p.m.funcs[f as usize].name == "bcmp";
                let mut r = self.ex.c(0, 32);
                if is_bcmp {
                    let mut c = self.ex.c(1, 1);
                    for i in (0..n).rev() {
                        let (u, v) = (self.byte(p + i), self.byte(q + i));
                        let e = self.ex.eq(u, v);
                        c = self.ex.bin(Bin::And, e, c);
                    }
                    let o = self.ex.c(1, 32);
                    r = self.ex.ite(c, r, o);
                } else {
                    // one decision per byte: each depends on few symbolic bytes, so that
                    // most are settled by their domains
                    for i in 0..n {
                        let (u, v) = (self.byte(p + i), self.byte(q + i));
                        let e = self.ex.eq(u, v);
                        if !self.decide(e)? {
                            let l = self.ex.cmp(Pred::Ult, u, v);
                            return Ok(Val::C(if self.decide(l)? { u32::MAX as u64 } else { 1 }));
                        }
                    }
                }
                self.v(r)
            }
            Ext::Memchr | Ext::Memrchr => {
                // core's word-at-a-time search, as a search byte by byte
                let (p, n) = (self.cv(&a[1])?, self.cv(&a[2])?);
                if n > 0 {
                    self.chk(p, n)?;
                }
                let nd = self.e(&a[0], 8);
                for k in 0..n {
                    let i = if matches!(x, Ext::Memrchr) { n - 1 - k } else { k };
                    let u = self.byte(p + i);
                    let e = self.ex.eq(u, nd);
                    if self.decide(e)? {
                        return Ok(Val::A(Rc::new(vec![Val::C(1), Val::C(i)])));
                    }
                }
                Val::A(Rc::new(vec![Val::C(0), Val::C(0)]))
            }
            Ext::Strlen => {
                let p = self.cv(&a[0])?;
                let mut n = 0;
                while self.mem[(p + n) as usize] != 0 {
                    n += 1;
                }
                Val::C(n)
            }
            Ext::Random => {
                self.entropy += 1;
                let (p, n) = (self.cv(&a[0])?, self.cv(&a[1])?);
                for i in 0..n {
                    let r = self.next_rand();
                    self.store_w(p + i, &Val::C(r & 0xff), 8)?;
                }
                Val::C(n)
            }
            // the process environment depends on the `sym_seed` of the moment, as in rt.c
            Ext::Getenv => {
                if self.env < 2 {
                    return Ok(Val::C(0));
                }
                let p = self.malloc(8)?;
                self.store_w(p, &Val::C(0x30 + self.env), 64)?;
                Val::C(p)
            }
            Ext::Clock => {
                let p = self.cv(&a[1])?;
                self.ticks += 1;
                self.store_w(p, &Val::C(1_700_000_000 + self.env * 7919), 64)?;
                self.store_w(p + 8, &Val::C((self.env * 1_234_567 + self.ticks * 1001) % 1_000_000_000), 64)?;
                Val::C(0)
            }
            Ext::Pid => Val::C(1000 + self.env),
            Ext::Getcwd => {
                let p = self.cv(&a[0])?;
                self.store_w(p, &Val::C(0x2f + ((0x30 + self.env) << 8)), 64)?;
                Val::C(p)
            }
            Ext::Syscall => {
                let nr = self.cv(&a[0])?;
                if nr == 186 {
                    return Ok(Val::C(1000 + self.env));
                }
                if nr == 318 {
                    let b = a[1..].to_vec();
                    return self.external(Ext::Random, f, &b);
                }
                return Err(Outcome::Error(format!("syscall {nr}")));
            }
            Ext::Errno => {
                if self.errno == 0 {
                    self.errno = GBASE;
                }
                Val::C(self.stack0 - 64)
            }
            Ext::KeyCreate => {
                // keys only arm destructors at thread exit, which no path reaches
                self.keys += 1;
                let (k, p) = (self.keys, self.cv(&a[0])?);
                self.store_w(p, &Val::C(k), 32)?;
                Val::C(0)
            }
            Ext::Zero => Val::C(0),
            Ext::Nop => Val::C(0),
            Ext::Write => {
                let n = self.cv(&a[2])?;
                Val::C(n)
            }
            Ext::Writev => {
                let (p, n) = (self.cv(&a[1])?, self.cv(&a[2])?);
                let mut t = 0;
                for i in 0..n {
                    t += self.rd(p + i * 16 + 8, 8);
                }
                Val::C(t)
            }
            Ext::Abort => return Err(Outcome::Panic(format!("abort < {}", self.trace()))),
            Ext::Exit => return Err(Outcome::Done),
            Ext::Panic => {
                let n = self.p.m.funcs[f as usize].pretty.clone();
                return Err(Outcome::Panic(format!("{n} < {}", self.trace())));
            }
            Ext::SymByte => {
                let p = self.cv(&a[0])?;
                let mut s: Set = [0; 4];
                for (i, x) in s.iter_mut().enumerate() {
                    *x = self.rd(p + 8 * i as u64, 8);
                }
                let i = self.ex.model.len();
                let v = match self.model_in.get(i) {
                    Some(v) => *v,
                    None => set_first(&s).ok_or(Outcome::Dead)?,
                };
                let e = self.ex.new_var(s, v);
                if set_len(&s) == 1 {
                    return Ok(Val::C(v));
                }
                Val::S(e)
            }
            Ext::SymChoice => {
                let n = self.cv(&a[0])?;
                if n == 0 || n > 256 {
                    return Err(Outcome::Error("sym_choice".into()));
                }
                let mut s: Set = [0; 4];
                for i in 0..n {
                    s[(i >> 6) as usize] |= 1 << (i & 63);
                }
                let i = self.ex.model.len();
                let v = self.model_in.get(i).copied().unwrap_or(0);
                let e = self.ex.new_var(s, v);
                if n > 1 {
                    self.idx += 1;
                    self.stats.decisions += 1;
                    if self.idx > self.skip {
                        for k in (0..n).rev() {
                            if k != v {
                                let mut m = self.ex.model.clone();
                                m[i] = k;
                                self.stats.forks += 1;
                                self.children.push(Item { model: m, skip: self.idx });
                            }
                        }
                    }
                    let k = self.ex.c(v as u128, 8);
                    let c = self.ex.eq(e, k);
                    self.assert(c, true);
                }
                Val::C(v)
            }
            Ext::SymAssume => match &a[0] {
                Val::C(0) => return Err(Outcome::Dead),
                Val::C(_) => Val::C(0),
                Val::S(e) => {
                    let e = *e;
                    // the other side is outside the claim: not queued
                    if self.ex.val[e as usize] == 1 {
                        self.idx += 1;
                        self.assert(e, true);
                    } else {
                        match self.feasible(e, true)? {
                            None => return Err(Outcome::Dead),
                            Some(m) => {
                                self.ex.model = m;
                                self.ex.recompute();
                                self.refresh_mem();
                                self.idx += 1;
                                self.assert(e, true);
                            }
                        }
                    }
                    Val::C(0)
                }
                _ => return Err(Outcome::Error("assume".into())),
            },
            Ext::SymCheck => {
                let id = self.cv(&a[1])? as u32;
                match &a[0] {
                    Val::C(k) => {
                        self.checks.push((id, None));
                        if k & 1 == 0 {
                            self.bad_model = Some(self.ex.model.clone());
                            return Err(Outcome::Check(id));
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        self.checks.push((id, Some(e)));
                        if let Some(m) = self.feasible(e, false)? {
                            self.bad_model = Some(m);
                            return Err(Outcome::Check(id));
                        }
                    }
                    _ => return Err(Outcome::Error("check".into())),
                }
                Val::C(0)
            }
            Ext::SymNote => {
                let (p, n) = (self.cv(&a[0])?, self.cv(&a[1])?);
                for i in 0..n {
                    let v = if self.flag[(p + i) as usize] != 0 {
                        Val::S(self.sym[&((p + i) as u32)])
                    } else {
                        Val::C(self.mem[(p + i) as usize] as u64)
                    };
                    self.notes.push(v);
                }
                Val::C(0)
            }
            Ext::SymShow => {
                let (p, n) = (self.cv(&a[0])?, self.cv(&a[1])?);
                for i in 0..n {
                    let v = if self.flag[(p + i) as usize] != 0 {
                        self.ex.val[self.sym[&((p + i) as u32)] as usize] as u8
                    } else {
                        self.mem[(p + i) as usize]
                    };
                    self.show.push(v);
                }
                self.show.push(b'\n');
                Val::C(0)
            }
            Ext::SymCover => {
                let id = self.cv(&a[0])? as u32;
                if !self.covers.contains(&id) {
                    self.covers.push(id);
                }
                Val::C(0)
            }
            Ext::SymExit => return Err(Outcome::Done),
            Ext::SymSeed => {
                self.env = self.cv(&a[0])?;
                self.rand = self.env.wrapping_mul(0x1234_5678_9abc_def1);
                Val::C(0)
            }
            Ext::SymEntropy => Val::C(self.entropy as u64),
            Ext::SymHeapBase => {
                // shifts all later allocations (models a different address space layout)
                let k = self.cv(&a[0])?;
                self.heap += k * 16;
                Val::C(0)
            }
            Ext::SymIsSym => Val::C(matches!(a[0], Val::S(_)) as u64),
            Ext::SymSteps => Val::C(self.steps),
        })
    }

    /// the concrete bytes behind symbolic ones mirror the model (used by `show` and reads
    /// of memory images only)
    fn refresh_mem(&mut self) {
        let ks: Vec<(u32, E)> = self.sym.iter().map(|(a, e)| (*a, *e)).collect();
        for (a, e) in ks {
            self.mem[a as usize] = self.ex.val[e as usize] as u8;
        }
    }

    pub fn note_bytes(&self) -> Vec<u8> {
        self.notes
            .iter()
            .map(|v| match v {
                Val::C(c) => *c as u8,
                Val::S(e) => self.ex.val[*e as usize] as u8,
                _ => 0,
            })
            .collect()
    }

    /// The final obligation of a completed path: the path condition together with the
    /// negation of the conjunction of all checks on it is unsatisfiable.
    pub fn discharge(&mut self) -> Sat {
        let mut c = self.ex.c(1, 1);
        for i in 0..self.checks.len() {
            if let Some(e) = self.checks[i].1 {
                c = self.ex.bin(Bin::And, c, e);
            }
        }
        let n = self.ex.not(c);
        self.solver.check(&self.ex, &self.pc, &[n], false).0
    }
}
