//! mvsym: bounded symbolic execution of harness entry points in an LLVM module.
//!
//! usage: mvsym MODULE.ll --native BIN --out OUT.json [--threads N] [--solver z3] [--seed N]
//!              [--cross cvc5] [--max-steps N] [--validate N] [--stop-after N] [--total SECONDS]
//!              ENTRY[:SECONDS]...
//!
//! Exit status 0: exploration ran (see OUT.json for what it found); other: engine error.

mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Rec {
    model: Vec<u64>,
    outcome: Outcome,
    hash: u64,
    show: String,
}

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
}
struct Queue {
    items: Vec<Item>,
    active: usize,
    stop: bool,
    rng: u64,
}
impl Queue {
    /// some unexplored branch, at random: when time runs out what was explored is spread out
    fn pop(&mut self) -> Option<Item> {
        if self.items.is_empty() {
            return None;
        }
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let k = (self.rng % self.items.len() as u64) as usize;
        Some(self.items.swap_remove(k))
    }
}

#[derive(Default)]
struct Agg {
    recs: Vec<Rec>,
    stats: Stats,
    queries: u64,
    solver_time: f64,
    solver_errors: u64,
    covers: BTreeMap<u32, u64>,
    checks: u64,
    sym_checks: u64,
    discharged: u64,
    undischarged: u64,
    paths: u64,
    done: u64,
    dead: u64,
    max_steps: u64,
    fns: BTreeSet<u32>,
    entropy_paths: u64,
    nvars_max: usize,
    cross: u64,
    cross_bad: u64,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(m: &[u64]) -> String { m.iter().map(|v| format!("{v:02x}")).collect() }

fn oname(o: &Outcome) -> String {
    match o {
        Outcome::Done => "done".into(),
        Outcome::Dead => "dead".into(),
        Outcome::Check(i) => format!("check:{i}"),
        Outcome::Panic(_) => "panic".into(),
        Outcome::Hang => "hang".into(),
        Outcome::Crash(_) => "crash".into(),
        Outcome::Error(_) => "error".into(),
    }
}

struct Opts {
    native: String,
    out: String,
    threads: usize,
    solver: String,
    cross: Option<String>,
    max_steps: u64,
    validate: usize,
    stop_after: usize,
    seed: u64,
    total: f64,
}

fn worker(p: &Prog, entry: u32, sh: &Shared, agg: &Mutex<Agg>, o: &Opts, deadline: Instant) {
    let mut x = Exec::new(p, Solver::new(&o.solver), o.max_steps);
    let mut cross = o.cross.as_ref().map(|c| Solver::new(c));
    let mut loc = Agg::default();
    loop {
        let it = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if q.stop {
                    break None;
                }
                if Instant::now() > deadline {
                    q.stop = true;
                    sh.cv.notify_all();
                    break None;
                }
                if let Some(it) = q.pop() {
                    q.active += 1;
                    break Some(it);
                }
                if q.active == 0 {
                    q.stop = true;
                    sh.cv.notify_all();
                    break None;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        let Some(it) = it else { break };
        let out = x.run(entry, &it);
        let kids = std::mem::take(&mut x.children);
        {
            let mut q = sh.q.lock().unwrap();
            q.items.extend(kids);
            q.active -= 1;
            sh.cv.notify_all();
        }
        loc.paths += 1;
        loc.max_steps = loc.max_steps.max(x.steps);
        loc.nvars_max = loc.nvars_max.max(x.ex.model.len());
        for c in &x.covers {
            *loc.covers.entry(*c).or_default() += 1;
        }
        if x.entropy > 0 {
            loc.entropy_paths += 1;
        }
        loc.checks += x.checks.len() as u64;
        loc.sym_checks += x.checks.iter().filter(|c| c.1.is_some()).count() as u64;
        match &out {
            Outcome::Done => {
                loc.done += 1;
                match x.discharge() {
                    Sat::Unsat => loc.discharged += 1,
                    _ => loc.undischarged += 1,
                }
                if let Some(c) = &mut cross {
                    // second solver: same obligation, and the path condition itself is satisfiable
                    c.end_path();
                    let pc = x.pc.clone();
                    let mut k = x.ex.c(1, 1);
                    for i in 0..x.checks.len() {
                        if let Some(e) = x.checks[i].1 {
                            k = x.ex.bin(ir::Bin::And, k, e);
                        }
                    }
                    let n = x.ex.not(k);
                    loc.cross += 2;
                    if c.check(&x.ex, &pc, &[n], false).0 != Sat::Unsat {
                        loc.cross_bad += 1;
                    }
                    if c.check(&x.ex, &pc, &[], false).0 != Sat::Sat {
                        loc.cross_bad += 1;
                    }
                }
            }
            Outcome::Dead => loc.dead += 1,
            _ => {}
        }
        let model = match (&out, &x.bad_model) {
            (Outcome::Check(_), Some(m)) => m.clone(),
            _ => x.ex.model.clone(),
        };
        let bad = !matches!(out, Outcome::Done | Outcome::Dead);
        if out != Outcome::Dead {
            let hash = fnv(&x.note_bytes());
            let show = String::from_utf8_lossy(&x.show).into_owned();
            loc.recs.push(Rec { model, outcome: out, hash, show });
        }
        if bad {
            let mut a = agg.lock().unwrap();
            a.recs.append(&mut loc.recs);
            let n = a.recs.iter().filter(|r| !matches!(r.outcome, Outcome::Done)).count();
            if n >= o.stop_after {
                sh.q.lock().unwrap().stop = true;
                sh.cv.notify_all();
            }
        }
    }
    for (i, b) in x.fn_seen.iter().enumerate() {
        if *b && p.is_core[i] {
            loc.fns.insert(i as u32);
        }
    }
    let mut a = agg.lock().unwrap();
    a.recs.append(&mut loc.recs);
    let s = &x.stats;
    a.stats.instrs += s.instrs;
    a.stats.decisions += s.decisions;
    a.stats.forks += s.forks;
    a.stats.dom_decided += s.dom_decided;
    a.stats.smt_decided += s.smt_decided;
    a.stats.guessed += s.guessed;
    a.stats.concretised += s.concretised;
    a.stats.unknown += s.unknown;
    a.queries += x.solver.queries;
    a.solver_time += x.solver.time;
    a.solver_errors += x.solver.errors;
    for (k, v) in loc.covers {
        *a.covers.entry(k).or_default() += v;
    }
    a.checks += loc.checks;
    a.sym_checks += loc.sym_checks;
    a.discharged += loc.discharged;
    a.undischarged += loc.undischarged;
    a.paths += loc.paths;
    a.done += loc.done;
    a.dead += loc.dead;
    a.max_steps = a.max_steps.max(loc.max_steps);
    a.nvars_max = a.nvars_max.max(loc.nvars_max);
    a.fns.extend(loc.fns);
    a.entropy_paths += loc.entropy_paths;
    a.cross += loc.cross;
    a.cross_bad += loc.cross_bad;
}

/// runs the native binary on cases; returns (outcome, hash, text) per case
fn native(o: &Opts, entry: &str, cases: &[(usize, &Rec)], tag: &str) -> Vec<(String, u64)> {
    let f = format!("{}.{entry}.{tag}.cases", o.out);
    let mut s = String::new();
    for (_, r) in cases {
        let _ = writeln!(s, "{entry} {}", hex(&r.model));
    }
    std::fs::write(&f, s).unwrap();
    let n = o.threads.max(1);
    // shards
    let lines: Vec<String> = std::fs::read_to_string(&f).unwrap().lines().map(|s| s.to_string()).collect();
    let _ = std::fs::remove_file(&f);
    let chunk = (lines.len() + n - 1) / n.max(1);
    let mut hs = vec![];
    for (k, c) in lines.chunks(chunk.max(1)).enumerate() {
        let ff = format!("{f}.{k}");
        std::fs::write(&ff, c.join("\n") + "\n").unwrap();
        let bin = o.native.clone();
        hs.push(std::thread::spawn(move || {
            let out = std::process::Command::new(&bin).args(["replay", &ff]).stderr(std::process::Stdio::null()).output().expect("native");
            let _ = std::fs::remove_file(&ff);
            String::from_utf8_lossy(&out.stdout).into_owned()
        }));
    }
    let mut res = vec![];
    for h in hs {
        for l in h.join().unwrap().lines() {
            let mut it = l.split(' ');
            let oc = it.next().unwrap_or("").to_string();
            let hs = u64::from_str_radix(it.next().unwrap_or("0"), 16).unwrap_or(0);
            res.push((oc, hs));
        }
    }
    res
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut o = Opts {
        native: String::new(), out: String::new(), threads: 8, solver: "z3-new".into(), cross: None, max_steps: 80_000_000,
        validate: 20000, stop_after: 12, seed: 1, total: f64::INFINITY,
    };
    let mut file = None;
    let mut entries: Vec<(String, f64)> = vec![];
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--native" => o.native = v(),
            "--out" => o.out = v(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--solver" => o.solver = v(),
            "--cross" => o.cross = Some(v()),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--validate" => o.validate = v().parse().unwrap(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--total" => o.total = v().parse().unwrap(),
            "--stop-after" => o.stop_after = v().parse().unwrap(),
            _ if file.is_none() => file = Some(a),
            _ => {
                let mut it = a.split(':');
                let n = it.next().unwrap().to_string();
                let t = it.next().map_or(60.0, |x| x.parse().unwrap());
                entries.push((n, t));
            }
        }
    }
    let t0 = Instant::now();
    let file = file.expect("module");
    let src = std::fs::read_to_string(&file).expect("read module");
    let m = match ir::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("mvsym: cannot parse {file}: {e}");
            std::process::exit(3);
        }
    };
    drop(src);
    let p = Prog::new(m);
    let parse_s = t0.elapsed().as_secs_f64();
    let mut out = String::new();
    let _ = write!(out, "{{\"parse_s\":{parse_s:.2},\"functions_in_module\":{},\"entries\":[", p.m.funcs.iter().filter(|f| f.defined).count());
    let mut status = 0;
    for (ei, (name, secs)) in entries.iter().enumerate() {
        let Some(&entry) = p.m.fidx.get(name) else {
            eprintln!("mvsym: no entry {name}");
            std::process::exit(3);
        };
        let t1 = Instant::now();
        // an entry may take three times its share of what is left of the total
        let rest = o.total - t0.elapsed().as_secs_f64();
        let secs = &secs.min(rest / (entries.len() - ei) as f64 * 3.0).max(3.0);
        let sh = Shared { q: Mutex::new(Queue { items: vec![Item { model: vec![], skip: 0 }], active: 0, stop: false, rng: o.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1 }), cv: Condvar::new() };
        let agg = Mutex::new(Agg::default());
        let deadline = t1 + Duration::from_secs_f64(*secs);
        std::thread::scope(|s| {
            for _ in 0..o.threads {
                s.spawn(|| worker(&p, entry, &sh, &agg, &o, deadline));
            }
        });
        let a = agg.into_inner().unwrap();
        let left = sh.q.lock().unwrap().items.len();
        let wall = t1.elapsed().as_secs_f64();
        let complete = left == 0;
        // native validation of every path (a sample above the cap), and of every violation
        let t2 = Instant::now();
        let bad: Vec<(usize, &Rec)> = a.recs.iter().enumerate().filter(|(_, r)| !matches!(r.outcome, Outcome::Done | Outcome::Error(_))).collect();
        let errs: Vec<&Rec> = a.recs.iter().filter(|r| matches!(r.outcome, Outcome::Error(_))).collect();
        let ok: Vec<(usize, &Rec)> = a.recs.iter().enumerate().filter(|(_, r)| matches!(r.outcome, Outcome::Done)).collect();
        let step = (ok.len() / o.validate.max(1)).max(1);
        let sample: Vec<(usize, &Rec)> = ok.iter().step_by(step).copied().collect();
        let mut mismatches = vec![];
        let mut viol = vec![];
        let mut validated = 0;
        if !o.native.is_empty() {
            let rs = native(&o, name, &sample, "ok");
            if rs.len() != sample.len() {
                mismatches.push(format!("native run returned {} results for {} cases", rs.len(), sample.len()));
            }
            for ((_, r), (oc, h)) in sample.iter().zip(rs.iter()) {
                if oc == "done" && *h == r.hash {
                    validated += 1;
                } else {
                    mismatches.push(format!("engine done/{:016x} native {oc}/{h:016x} model {} input {}", r.hash, hex(&r.model), r.show));
                }
            }
            let rs = native(&o, name, &bad, "bad");
            for ((_, r), (oc, h)) in bad.iter().zip(rs.iter()) {
                let on = oname(&r.outcome);
                // what does not end natively either hits the clock or the memory limit
                let conf = *oc == on || (matches!(r.outcome, Outcome::Crash(_) | Outcome::Panic(_)) && (oc == "panic" || oc == "crash")) || (matches!(r.outcome, Outcome::Hang) && oc == "crash");
                let _ = h;
                viol.push((r, conf, oc.clone()));
            }
        } else {
            for (_, r) in &bad {
                viol.push((r, false, "not replayed".into()));
            }
        }
        if ei > 0 {
            out.push(',');
        }
        let _ = write!(
            out,
            "{{\"entry\":{},\"complete\":{complete},\"left\":{left},\"paths\":{},\"done\":{},\"dead\":{},\"wall_s\":{wall:.2},\"validate_s\":{:.2},\"instructions\":{},\"max_path_instructions\":{},\"decisions\":{},\"forks\":{},\"domain_decided\":{},\"smt_decided\":{},\"evaluated\":{},\"concretised\":{},\"solver_queries\":{},\"solver_s\":{:.2},\"solver_errors\":{},\"unknown\":{},\"checks\":{},\"symbolic_checks\":{},\"obligations_discharged\":{},\"obligations_failed\":{},\"entropy_paths\":{},\"max_symbolic_inputs\":{},\"cross_queries\":{},\"cross_disagreements\":{},\"native_validated\":{validated}",
            js(name), a.paths, a.done, a.dead, t2.elapsed().as_secs_f64(), a.stats.instrs, a.max_steps, a.stats.decisions, a.stats.forks,
            a.stats.dom_decided, a.stats.smt_decided, a.stats.guessed, a.stats.concretised, a.queries, a.solver_time, a.solver_errors, a.stats.unknown, a.checks,
            a.sym_checks, a.discharged, a.undischarged, a.entropy_paths, a.nvars_max, a.cross, a.cross_bad
        );
        let _ = write!(out, ",\"covers\":{{{}}}", a.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
        let mut fns: Vec<&str> = a.fns.iter().map(|f| p.m.funcs[*f as usize].pretty.as_str()).collect();
        fns.sort();
        fns.dedup();
        let _ = write!(out, ",\"core_functions\":[{}]", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        let _ = write!(out, ",\"mismatches\":[{}]", mismatches.iter().take(10).map(|f| js(f)).collect::<Vec<_>>().join(","));
        let _ = write!(out, ",\"mismatch_count\":{}", mismatches.len());
        let _ = write!(out, ",\"errors\":[{}]", errs.iter().take(10).map(|r| js(&format!("{:?} model {} input {}", r.outcome, hex(&r.model), r.show))).collect::<Vec<_>>().join(","));
        let vs: Vec<String> = viol
            .iter()
            .map(|(r, c, oc)| {
                let det = match &r.outcome {
                    Outcome::Panic(s) | Outcome::Crash(s) => s.clone(),
                    _ => String::new(),
                };
                format!(
                    "{{\"outcome\":{},\"detail\":{},\"model\":\"{}\",\"show\":{},\"confirmed\":{c},\"native\":{}}}",
                    js(&oname(&r.outcome)), js(&det), hex(&r.model), js(&r.show), js(oc)
                )
            })
            .collect();
        let _ = write!(out, ",\"violations\":[{}]", vs.join(","));
        let n = ok.len();
        let samples: Vec<String> = (0..n.min(8)).map(|i| js(&hex(&ok[i * n / n.min(8)].1.model))).collect();
        let _ = write!(out, ",\"samples\":[{}]}}", samples.join(","));
        if !errs.is_empty() {
            status = 2;
        }
        eprintln!(
            "mvsym: {name}: {} paths ({} done, {} dead) complete={complete} left={left} in {wall:.1}s, {} violations, {} errors, {} queries {:.1}s, validated {validated}, mismatches {}, {:.0}k instr/path",
            a.paths, a.done, a.dead, viol.len(), errs.len(), a.queries, a.solver_time, mismatches.len(),
            a.stats.instrs as f64 / a.paths.max(1) as f64 / 1000.0
        );
    }
    out.push_str("]}\n");
    std::fs::write(&o.out, out).expect("write out");
    std::process::exit(status);
}
