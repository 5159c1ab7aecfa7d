//! SMT-LIB 2 pipe to z3 (or cvc5): one process per worker, one scope per path.

use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    open: bool,
    emitted: FxMap<E, ()>,
    nvars: usize,
    asserted: usize,
    pub queries: u64,
    pub time: f64,
    pub errors: u64,
    buf: String,
}

impl Solver {
    pub fn new(kind: &str) -> Solver {
        let mut cmd = match kind {
            "cvc5" => {
                let mut c = Command::new("cvc5");
                c.args(["--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"]);
                c
            }
            k => {
                let mut c = Command::new(k);
                c.args(["-in", "-smt2", "-t:20000"]);
                c
            }
        };
        let mut child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        writeln!(inp, "(set-option :produce-models true)\n(set-logic QF_BV)").unwrap();
        Solver {
            child, inp, out, open: false, emitted: FxMap::default(), nvars: 0, asserted: 0, queries: 0, time: 0.0, errors: 0,
            buf: String::new(),
        }
    }
    pub fn end_path(&mut self) {
        if self.open {
            self.buf.push_str("(pop 1)\n");
            self.open = false;
        }
        self.emitted.clear();
        self.nvars = 0;
        self.asserted = 0;
    }
    fn name(ex: &Exprs, e: E, s: &mut String) {
        use std::fmt::Write;
        let w = ex.w[e as usize];
        match ex.n[e as usize] {
            N::Const(c) => {
                if w % 4 == 0 {
                    let _ = write!(s, "#x{:0width$x}", c, width = (w / 4) as usize);
                } else {
                    let _ = write!(s, "#b{:0width$b}", c, width = w as usize);
                }
            }
            N::Var(v) => {
                let _ = write!(s, "v{v}");
            }
            _ => {
                let _ = write!(s, "e{e}");
            }
        }
    }
    fn emit(&mut self, ex: &Exprs, root: E) {
        use std::fmt::Write;
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if matches!(ex.n[e as usize], N::Const(_) | N::Var(_)) || self.emitted.contains_key(&e) {
                continue;
            }
            if !done {
                st.push((e, true));
                for k in ex.children(e) {
                    st.push((k, false));
                }
                continue;
            }
            self.emitted.insert(e, ());
            let w = ex.w[e as usize];
            let s = &mut self.buf;
            let _ = write!(s, "(define-fun e{e} () (_ BitVec {w}) ");
            let b2 = |s: &mut String, op: &str, a: E, b: E| {
                let _ = write!(s, "({op} ");
                Self::name(ex, a, s);
                s.push(' ');
                Self::name(ex, b, s);
                s.push(')');
            };
            let cmp = |s: &mut String, op: &str, a: E, b: E| {
                s.push_str("(ite ");
                b2(s, op, a, b);
                s.push_str(" #b1 #b0)");
            };
            match ex.n[e as usize] {
                N::Const(_) | N::Var(_) => unreachable!(),
                N::Add(a, b) => b2(s, "bvadd", a, b),
                N::Sub(a, b) => b2(s, "bvsub", a, b),
                N::Mul(a, b) => b2(s, "bvmul", a, b),
                N::UDiv(a, b) => b2(s, "bvudiv", a, b),
                N::URem(a, b) => b2(s, "bvurem", a, b),
                N::SDiv(a, b) => b2(s, "bvsdiv", a, b),
                N::SRem(a, b) => b2(s, "bvsrem", a, b),
                N::And(a, b) => b2(s, "bvand", a, b),
                N::Or(a, b) => b2(s, "bvor", a, b),
                N::Xor(a, b) => b2(s, "bvxor", a, b),
                N::Shl(a, b) => b2(s, "bvshl", a, b),
                N::LShr(a, b) => b2(s, "bvlshr", a, b),
                N::AShr(a, b) => b2(s, "bvashr", a, b),
                N::Eq(a, b) => cmp(s, "=", a, b),
                N::Ult(a, b) => cmp(s, "bvult", a, b),
                N::Ule(a, b) => cmp(s, "bvule", a, b),
                N::Slt(a, b) => cmp(s, "bvslt", a, b),
                N::Sle(a, b) => cmp(s, "bvsle", a, b),
                N::Concat(a, b) => b2(s, "concat", a, b),
                N::Ite(c, a, b) => {
                    s.push_str("(ite (= ");
                    Self::name(ex, c, s);
                    s.push_str(" #b1) ");
                    Self::name(ex, a, s);
                    s.push(' ');
                    Self::name(ex, b, s);
                    s.push(')');
                }
                N::Zext(a) => {
                    let _ = write!(s, "((_ zero_extend {}) ", w - ex.w[a as usize]);
                    Self::name(ex, a, s);
                    s.push(')');
                }
                N::Sext(a) => {
                    let _ = write!(s, "((_ sign_extend {}) ", w - ex.w[a as usize]);
                    Self::name(ex, a, s);
                    s.push(')');
                }
                N::Extract(a, lo) => {
                    let _ = write!(s, "((_ extract {} {lo}) ", lo + w as u32 - 1);
                    Self::name(ex, a, s);
                    s.push(')');
                }
            }
            s.push_str(")\n");
        }
    }
    fn sync(&mut self, ex: &Exprs, pc: &[E]) {
        use std::fmt::Write;
        if !self.open {
            self.buf.push_str("(push 1)\n");
            self.open = true;
        }
        while self.nvars < ex.model.len() {
            let v = self.nvars;
            let _ = writeln!(self.buf, "(declare-const v{v} (_ BitVec 8))");
            let d = &ex.dom0[v];
            if set_len(d) < 256 {
                let mut s = String::from("(assert (or false");
                let mut i = 0u64;
                while i < 256 {
                    if set_has(d, i) {
                        let st = i;
                        while i < 256 && set_has(d, i) {
                            i += 1;
                        }
                        if st == i - 1 {
                            let _ = write!(s, " (= v{v} #x{st:02x})");
                        } else {
                            let _ = write!(s, " (and (bvule #x{st:02x} v{v}) (bvule v{v} #x{:02x}))", i - 1);
                        }
                    } else {
                        i += 1;
                    }
                }
                s.push_str("))\n");
                self.buf.push_str(&s);
            }
            self.nvars += 1;
        }
        while self.asserted < pc.len() {
            let e = pc[self.asserted];
            self.emit(ex, e);
            self.buf.push_str("(assert (= ");
            let mut t = String::new();
            Self::name(ex, e, &mut t);
            self.buf.push_str(&t);
            self.buf.push_str(" #b1))\n");
            self.asserted += 1;
        }
    }
    fn flush(&mut self) {
        self.inp.write_all(self.buf.as_bytes()).expect("solver pipe");
        self.inp.flush().unwrap();
        self.buf.clear();
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        if self.out.read_line(&mut s).unwrap_or(0) == 0 {
            self.errors += 1;
            return "eof".into();
        }
        s.trim().to_string()
    }
    /// Satisfiability of pc and all `extra`; a model of all variables if satisfiable.
    pub fn check(&mut self, ex: &Exprs, pc: &[E], extra: &[E], want_model: bool) -> (Sat, Option<Vec<u64>>) {
        let t0 = Instant::now();
        self.sync(ex, pc);
        for &e in extra {
            self.emit(ex, e);
        }
        self.buf.push_str("(push 1)\n");
        for &e in extra {
            let mut t = String::new();
            Self::name(ex, e, &mut t);
            self.buf.push_str("(assert (= ");
            self.buf.push_str(&t);
            self.buf.push_str(" #b1))\n");
        }
        self.buf.push_str("(check-sat)\n");
        self.flush();
        self.queries += 1;
        let r = loop {
            let l = self.line();
            match l.as_str() {
                "sat" => break Sat::Sat,
                "unsat" => break Sat::Unsat,
                "unknown" | "timeout" => break Sat::Unknown,
                "eof" => break Sat::Unknown,
                _ => {
                    self.errors += 1;
                    eprintln!("solver: {l}");
                }
            }
        };
        let mut model = None;
        if r == Sat::Sat && want_model {
            let mut m = ex.model.clone();
            if !m.is_empty() {
                self.buf.push_str("(get-value (");
                for v in 0..m.len() {
                    use std::fmt::Write;
                    let _ = write!(self.buf, "v{v} ");
                }
                self.buf.push_str("))\n");
                self.flush();
                let mut txt = String::new();
                let mut depth = 0i32;
                loop {
                    let l = self.line();
                    if l == "eof" {
                        break;
                    }
                    depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                    txt.push_str(&l);
                    txt.push(' ');
                    if depth <= 0 {
                        break;
                    }
                }
                for part in txt.split("(v").skip(1) {
                    let mut it = part.split(|c: char| c == ' ' || c == ')');
                    let ix: usize = it.next().unwrap().parse().unwrap();
                    let val = it.next().unwrap();
                    m[ix] = if let Some(h) = val.strip_prefix("#x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        u64::from_str_radix(val.trim_start_matches("#b"), 2).unwrap()
                    };
                }
            }
            model = Some(m);
        }
        self.buf.push_str("(pop 1)\n");
        self.time += t0.elapsed().as_secs_f64();
        (r, model)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
