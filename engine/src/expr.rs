//! Hash-consed bit-vector expressions. Every node also carries its value under the
//! current model (concolic execution), so following a path needs no solver.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95) }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Add(E, E), Sub(E, E), Mul(E, E), UDiv(E, E), URem(E, E), SDiv(E, E), SRem(E, E),
    And(E, E), Or(E, E), Xor(E, E), Shl(E, E), LShr(E, E), AShr(E, E),
    Eq(E, E), Ult(E, E), Ule(E, E), Slt(E, E), Sle(E, E),
    Ite(E, E, E),
    Zext(E), Sext(E),
    Extract(E, u32),
    Concat(E, E),
}

pub const NODEP: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;

pub type Set = [u64; 4];
pub fn set_has(s: &Set, v: u64) -> bool { s[(v >> 6) as usize & 3] >> (v & 63) & 1 == 1 }
pub fn set_first(s: &Set) -> Option<u64> {
    for i in 0..4 {
        if s[i] != 0 {
            return Some(i as u64 * 64 + s[i].trailing_zeros() as u64);
        }
    }
    None
}
pub fn set_len(s: &Set) -> u32 { s.iter().map(|x| x.count_ones()).sum() }
pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a.iter().all(|x| *x == 0) }

pub struct Exprs {
    pub n: Vec<N>,
    pub w: Vec<u16>,
    pub dep: Vec<u32>,
    pub val: Vec<u128>,
    ix: FxMap<(N, u16), E>,
    lut: FxMap<E, Rc<[u64; 256]>>,
    /// model value, initial domain, current domain and entanglement of each variable
    pub model: Vec<u64>,
    pub dom0: Vec<Set>,
    pub dom: Vec<Set>,
    pub tangled: Vec<bool>,
    pub var_e: Vec<E>,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn sext(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) } }

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            n: vec![], w: vec![], dep: vec![], val: vec![], ix: FxMap::default(), lut: FxMap::default(), model: vec![],
            dom0: vec![], dom: vec![], tangled: vec![], var_e: vec![],
        }
    }
    pub fn reset(&mut self) {
        self.n.clear();
        self.w.clear();
        self.dep.clear();
        self.val.clear();
        self.ix.clear();
        self.lut.clear();
        self.model.clear();
        self.dom0.clear();
        self.dom.clear();
        self.tangled.clear();
        self.var_e.clear();
    }
    pub fn new_var(&mut self, dom: Set, v: u64) -> E {
        let id = self.model.len() as u32;
        self.model.push(v);
        self.dom0.push(dom);
        self.dom.push(dom);
        self.tangled.push(false);
        let e = self.mk(N::Var(id), 8);
        self.var_e.push(e);
        e
    }
    fn mk(&mut self, n: N, w: u16) -> E {
        if let Some(&e) = self.ix.get(&(n, w)) {
            return e;
        }
        let e = self.n.len() as E;
        let d = self.calc_dep(n);
        let v = self.calc(n, w);
        self.n.push(n);
        self.w.push(w);
        self.dep.push(d);
        self.val.push(v);
        self.ix.insert((n, w), e);
        e
    }
    fn kids(n: N) -> [Option<E>; 3] {
        match n {
            N::Const(_) | N::Var(_) => [None; 3],
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b)
            | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b)
            | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Concat(a, b) => [Some(a), Some(b), None],
            N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            N::Zext(a) | N::Sext(a) | N::Extract(a, _) => [Some(a), None, None],
        }
    }
    pub fn children(&self, e: E) -> impl Iterator<Item = E> { Self::kids(self.n[e as usize]).into_iter().flatten() }
    fn calc_dep(&self, n: N) -> u32 {
        if let N::Var(v) = n {
            return v;
        }
        let mut d = NODEP;
        for k in Self::kids(n).into_iter().flatten() {
            let x = self.dep[k as usize];
            if x == NODEP {
                continue;
            }
            if d == NODEP {
                d = x;
            } else if d != x {
                return MANY;
            }
        }
        d
    }
    /// evaluates a node from the values of its children
    fn op(n: N, w: u16, kw: impl Fn(E) -> u16, kv: impl Fn(E) -> u128, var: impl Fn(u32) -> u128) -> u128 {
        let m = mask(w);
        match n {
            N::Const(c) => c,
            N::Var(v) => var(v),
            N::Add(a, b) => kv(a).wrapping_add(kv(b)) & m,
            N::Sub(a, b) => kv(a).wrapping_sub(kv(b)) & m,
            N::Mul(a, b) => kv(a).wrapping_mul(kv(b)) & m,
            N::UDiv(a, b) => kv(a).checked_div(kv(b)).unwrap_or(m),
            N::URem(a, b) => kv(a).checked_rem(kv(b)).unwrap_or(kv(a)),
            N::SDiv(a, b) => {
                let (x, y) = (sext(kv(a), w), sext(kv(b), w));
                (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128 & m
            }
            N::SRem(a, b) => {
                let (x, y) = (sext(kv(a), w), sext(kv(b), w));
                (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m
            }
            N::And(a, b) => kv(a) & kv(b),
            N::Or(a, b) => kv(a) | kv(b),
            N::Xor(a, b) => kv(a) ^ kv(b),
            N::Shl(a, b) => if kv(b) >= w as u128 { 0 } else { kv(a) << kv(b) & m },
            N::LShr(a, b) => if kv(b) >= w as u128 { 0 } else { kv(a) >> kv(b) },
            N::AShr(a, b) => (sext(kv(a), w) >> kv(b).min(w as u128 - 1)) as u128 & m,
            N::Eq(a, b) => (kv(a) == kv(b)) as u128,
            N::Ult(a, b) => (kv(a) < kv(b)) as u128,
            N::Ule(a, b) => (kv(a) <= kv(b)) as u128,
            N::Slt(a, b) => (sext(kv(a), kw(a)) < sext(kv(b), kw(b))) as u128,
            N::Sle(a, b) => (sext(kv(a), kw(a)) <= sext(kv(b), kw(b))) as u128,
            N::Ite(c, a, b) => if kv(c) == 1 { kv(a) } else { kv(b) },
            N::Zext(a) => kv(a),
            N::Sext(a) => sext(kv(a), kw(a)) as u128 & m,
            N::Extract(a, lo) => kv(a) >> lo & m,
            N::Concat(a, b) => kv(a) << kw(b) | kv(b),
        }
    }
    fn calc(&self, n: N, w: u16) -> u128 {
        Self::op(n, w, |e| self.w[e as usize], |e| self.val[e as usize], |v| self.model[v as usize] as u128)
    }
    pub fn recompute(&mut self) {
        for i in 0..self.n.len() {
            self.val[i] = self.calc(self.n[i], self.w[i]);
        }
    }
    /// value of a node under another assignment of the variables
    pub fn eval(&self, e: E, m: &[u64], memo: &mut FxMap<E, u128>) -> u128 {
        match self.n[e as usize] {
            N::Const(c) => return c,
            N::Var(v) => return m[v as usize] as u128,
            _ => {}
        }
        if self.dep[e as usize] == NODEP {
            return self.val[e as usize];
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = self.n[e as usize];
        let ks = Self::kids(n);
        let mut vs = [0u128; 3];
        for i in 0..3 {
            if let Some(k) = ks[i] {
                vs[i] = self.eval(k, m, memo);
            }
        }
        let r = Self::op(
            n,
            self.w[e as usize],
            |x| self.w[x as usize],
            |x| vs[ks.iter().position(|k| *k == Some(x)).unwrap()],
            |v| m[v as usize] as u128,
        );
        memo.insert(e, r);
        r
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        if let N::Const(c) = self.n[e as usize] { Some(c) } else { None }
    }
    pub fn width(&self, e: E) -> u16 { self.w[e as usize] }
    pub fn c(&mut self, v: u128, w: u16) -> E { self.mk(N::Const(v & mask(w)), w) }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w[a as usize], 1);
        match self.n[a as usize] {
            N::Const(c) => self.c(c ^ 1, 1),
            N::Xor(x, k) if self.is_const(k) == Some(1) => x,
            _ => {
                let o = self.c(1, 1);
                self.mk(N::Xor(a, o), 1)
            }
        }
    }

    /// 256-entry table of a node that depends on at most one (8-bit) variable
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.lut.get(&e) {
            return t.clone();
        }
        let n = self.n[e as usize];
        let w = self.w[e as usize];
        let mut out = [0u64; 256];
        match n {
            N::Const(c) => out = [c as u64; 256],
            N::Var(_) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = i as u64;
                }
            }
            _ => {
                let ks: Vec<(E, Option<Rc<[u64; 256]>>)> = Self::kids(n)
                    .into_iter()
                    .flatten()
                    .map(|k| (k, if self.w[k as usize] <= 64 { Some(self.table(k)) } else { None }))
                    .collect();
                for (i, o) in out.iter_mut().enumerate() {
                    let v = Self::op(
                        n,
                        w,
                        |x| self.w[x as usize],
                        |x| {
                            let t = &ks.iter().find(|k| k.0 == x).unwrap().1;
                            match t {
                                Some(t) => t[i] as u128,
                                None => self.wide(x, i as u64),
                            }
                        },
                        |_| 0,
                    );
                    *o = v as u64;
                }
            }
        }
        let r = Rc::new(out);
        self.lut.insert(e, r.clone());
        r
    }
    fn wide(&self, e: E, v: u64) -> u128 {
        let n = self.n[e as usize];
        Self::op(n, self.w[e as usize], |x| self.w[x as usize], |x| self.wide(x, v), |_| v as u128)
    }
    /// set of values of the variable for which the (single-variable) condition is true
    pub fn truth(&mut self, e: E) -> Set {
        let t = self.table(e);
        let mut s = [0u64; 4];
        for i in 0..256 {
            if t[i] & 1 == 1 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        s
    }

    // ---- constructors with simplification ----
    pub fn bin(&mut self, op: crate::ir::Bin, a: E, b: E) -> E {
        use crate::ir::Bin as B;
        let w = self.w[a as usize];
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let mkn = |o: B, a, b| match o {
            B::Add => N::Add(a, b),
            B::Sub => N::Sub(a, b),
            B::Mul => N::Mul(a, b),
            B::UDiv => N::UDiv(a, b),
            B::URem => N::URem(a, b),
            B::SDiv => N::SDiv(a, b),
            B::SRem => N::SRem(a, b),
            B::And => N::And(a, b),
            B::Or => N::Or(a, b),
            B::Xor => N::Xor(a, b),
            B::Shl => N::Shl(a, b),
            B::LShr => N::LShr(a, b),
            B::AShr => N::AShr(a, b),
        };
        if ca.is_some() && cb.is_some() {
            let v = self.calc(mkn(op, a, b), w);
            return self.c(v, w);
        }
        // constants to the right
        let (a, b, ca, cb) = if ca.is_some() && matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        match op {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if cb == Some(0) => return a,
            B::And | B::Mul if cb == Some(0) => return b,
            B::And if cb == Some(mask(w)) => return a,
            B::Or if cb == Some(mask(w)) => return b,
            B::And | B::Or if a == b => return a,
            B::Xor | B::Sub if a == b => return self.c(0, w),
            B::Mul | B::UDiv if cb == Some(1) => return a,
            B::Xor if w == 1 && cb == Some(1) => return self.not(a),
            B::Shl if cb.is_some() => {
                let k = cb.unwrap();
                if k >= w as u128 {
                    return self.c(0, w);
                }
                let lo = self.extract(a, 0, w - k as u16);
                let z = self.c(0, k as u16);
                return self.concat(lo, z);
            }
            B::LShr if cb.is_some() => {
                let k = cb.unwrap();
                if k >= w as u128 {
                    return self.c(0, w);
                }
                let hi = self.extract(a, k as u16, w - k as u16);
                return self.zext(hi, w);
            }
            B::And | B::Or | B::Xor if w > 8 && w % 8 == 0 => {
                if op == B::And {
                    if let Some(k) = cb {
                        if (k + 1).is_power_of_two() {
                            let n = (k + 1).trailing_zeros() as u16;
                            let x = self.extract(a, 0, n);
                            return self.zext(x, w);
                        }
                    }
                }
                if self.structured(a, 0) && self.structured(b, 0) {
                    let mut parts = vec![];
                    for i in 0..w / 8 {
                        let x = self.extract(a, i * 8, 8);
                        let y = self.extract(b, i * 8, 8);
                        parts.push(self.bin(op, x, y));
                    }
                    let mut r = parts[0];
                    for p in &parts[1..] {
                        r = self.concat(*p, r);
                    }
                    return r;
                }
            }
            _ => {}
        }
        // absorption for booleans
        if w == 1 && matches!(op, B::And | B::Or) {
            let na = self.not(a);
            if na == b {
                return self.c((op == B::Or) as u128, 1);
            }
        }
        let (a, b) = if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && cb.is_none() && a > b { (b, a) } else { (a, b) };
        let _ = (ca, cb);
        self.mk(mkn(op, a, b), w)
    }
    fn structured(&self, e: E, d: u32) -> bool {
        if d > 10 {
            return false;
        }
        match self.n[e as usize] {
            N::Const(_) => true,
            N::Concat(a, b) => self.w[b as usize] % 8 == 0 && self.structured(a, d + 1) && self.structured(b, d + 1),
            N::Zext(a) => self.w[a as usize] <= 8 || (self.w[a as usize] % 8 == 0 && self.structured(a, d + 1)),
            _ => self.w[e as usize] <= 8,
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w[a as usize];
        if lo == 0 && w == aw {
            return a;
        }
        match self.n[a as usize] {
            N::Const(c) => self.c(c >> lo, w),
            N::Zext(x) => {
                let xw = self.w[x as usize];
                if lo >= xw {
                    self.c(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            N::Sext(x) if lo + w <= self.w[x as usize] => self.extract(x, lo, w),
            N::Concat(h, l) => {
                let lw = self.w[l as usize];
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let x = self.extract(l, lo, lw - lo);
                    let y = self.extract(h, 0, lo + w - lw);
                    self.concat(y, x)
                }
            }
            N::Extract(x, l2) => self.extract(x, lo + l2 as u16, w),
            N::Ite(c, x, y) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            N::And(x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(crate::ir::Bin::And, p, q)
            }
            N::Or(x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(crate::ir::Bin::Or, p, q)
            }
            N::Xor(x, y) if aw > 1 => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(crate::ir::Bin::Xor, p, q)
            }
            N::Add(x, y) if lo == 0 => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(crate::ir::Bin::Add, p, q)
            }
            _ => self.mk(N::Extract(a, lo as u32), w),
        }
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w[a as usize];
        if aw == w {
            return a;
        }
        match self.n[a as usize] {
            N::Const(c) => self.c(c, w),
            N::Zext(x) => self.zext(x, w),
            _ => self.mk(N::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w[a as usize];
        if aw == w {
            return a;
        }
        match self.n[a as usize] {
            N::Const(c) => self.c(sext(c, aw) as u128, w),
            N::Zext(x) => self.zext(x, w),
            _ => self.mk(N::Sext(a), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w[h as usize], self.w[l as usize]);
        let w = hw + lw;
        match (self.n[h as usize], self.n[l as usize]) {
            (N::Const(x), N::Const(y)) => self.c(x << lw | y, w),
            (N::Const(0), _) => self.zext(l, w),
            (N::Extract(x, a), N::Extract(y, b)) if x == y && a == b + lw as u32 => self.extract(x, b as u16, w),
            (N::Extract(x, a), N::Concat(m, r)) => {
                if let N::Extract(y, b) = self.n[m as usize] {
                    let mw = self.w[m as usize];
                    if x == y && a == b + mw as u32 {
                        let nm = self.extract(x, b as u16, hw + mw);
                        return self.concat(nm, r);
                    }
                }
                self.mk(N::Concat(h, l), w)
            }
            (N::Zext(x), _) => {
                let c = self.concat(x, l);
                self.zext(c, w)
            }
            _ => self.mk(N::Concat(h, l), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w[a as usize];
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(crate::ir::Bin::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(crate::ir::Bin::And, n, b);
                }
                (None, Some(0)) => return self.bin(crate::ir::Bin::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(crate::ir::Bin::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w[a as usize];
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (self.is_const(a), cb) {
            return self.c((x == y) as u128, 1);
        }
        if w == 1 {
            if let Some(k) = cb {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        match (self.n[a as usize], cb) {
            (N::Concat(h, l), Some(k)) => {
                let lw = self.w[l as usize];
                let hw = self.w[h as usize];
                let kh = self.c(k >> lw, hw);
                let kl = self.c(k, lw);
                let x = self.eq(h, kh);
                let y = self.eq(l, kl);
                return self.bin(crate::ir::Bin::And, x, y);
            }
            (N::Zext(x), Some(k)) => {
                let xw = self.w[x as usize];
                if k > mask(xw) {
                    return self.c(0, 1);
                }
                let kk = self.c(k, xw);
                return self.eq(x, kk);
            }
            (N::Ite(c, x, y), Some(_)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.eq(x, b);
                let q = self.eq(y, b);
                return self.ite(c, p, q);
            }
            (N::Xor(x, k2), Some(k)) if self.is_const(k2).is_some() => {
                let kk = self.c(k ^ self.is_const(k2).unwrap(), w);
                return self.eq(x, kk);
            }
            (N::Concat(h, l), None) => {
                if let N::Concat(h2, l2) = self.n[b as usize] {
                    if self.w[l as usize] == self.w[l2 as usize] {
                        let x = self.eq(h, h2);
                        let y = self.eq(l, l2);
                        return self.bin(crate::ir::Bin::And, x, y);
                    }
                }
            }
            (N::Zext(x), None) => {
                if let N::Zext(y) = self.n[b as usize] {
                    if self.w[x as usize] == self.w[y as usize] {
                        return self.eq(x, y);
                    }
                }
            }
            _ => {}
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }
    pub fn cmp(&mut self, p: crate::ir::Pred, a: E, b: E) -> E {
        use crate::ir::Pred as P;
        match p {
            P::Eq => self.eq(a, b),
            P::Ne => {
                let e = self.eq(a, b);
                self.not(e)
            }
            P::Ult => self.lt(0, a, b),
            P::Ule => self.lt(1, a, b),
            P::Ugt => self.lt(0, b, a),
            P::Uge => self.lt(1, b, a),
            P::Slt => self.lt(2, a, b),
            P::Sle => self.lt(3, a, b),
            P::Sgt => self.lt(2, b, a),
            P::Sge => self.lt(3, b, a),
        }
    }
    fn lt(&mut self, k: u8, a: E, b: E) -> E {
        if a == b {
            return self.c((k & 1) as u128, 1);
        }
        let n = match k {
            0 => N::Ult(a, b),
            1 => N::Ule(a, b),
            2 => N::Slt(a, b),
            _ => N::Sle(a, b),
        };
        if self.is_const(a).is_some() && self.is_const(b).is_some() {
            let v = self.calc(n, 1);
            return self.c(v, 1);
        }
        // push comparisons with constants into ite with constant leaves
        for (x, y, flip) in [(a, b, false), (b, a, true)] {
            if self.is_const(y).is_some() {
                if let N::Ite(c, p, q) = self.n[x as usize] {
                    if self.is_const(p).is_some() || self.is_const(q).is_some() {
                        let (r, s) = if flip { (self.lt(k, y, p), self.lt(k, y, q)) } else { (self.lt(k, p, y), self.lt(k, q, y)) };
                        return self.ite(c, r, s);
                    }
                }
                // unsigned comparison of a zero-extended value
                if k < 2 {
                    if let N::Zext(z) = self.n[x as usize] {
                        let zw = self.w[z as usize];
                        let ky = self.is_const(y).unwrap();
                        if ky <= mask(zw) {
                            let kk = self.c(ky, zw);
                            return if flip { self.lt(k, kk, z) } else { self.lt(k, z, kk) };
                        }
                        return self.c(!flip as u128, 1);
                    }
                }
            }
        }
        if k < 2 {
            if let (N::Zext(x), N::Zext(y)) = (self.n[a as usize], self.n[b as usize]) {
                if self.w[x as usize] == self.w[y as usize] {
                    return self.lt(k, x, y);
                }
            }
        }
        self.mk(n, 1)
    }

    /// variables of an expression
    pub fn vars(&self, e: E, out: &mut Vec<u32>) {
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            let d = self.dep[x as usize];
            if d == NODEP {
                continue;
            }
            if d != MANY {
                if !out.contains(&d) {
                    out.push(d);
                }
                continue;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            for k in self.children(x) {
                st.push(k);
            }
        }
    }
}
