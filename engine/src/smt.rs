//! Z3 over a pipe: integer (bit-vector) and real-arithmetic encodings of the engine's terms.
use crate::ctx::*;
use crate::ir::{Bin, FPred, IPred};
use crate::util::{FxMap, FxSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// Assignment to variables (integer variables, float-comparison atoms)
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub v: FxMap<E, u64>,
    pub reals: FxMap<T, String>,
}

pub struct Smt {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub slowest: f64,
    pub log: Option<std::fs::File>,
    pub slowt: f64,
    bin: String,
}

pub fn solver_cmd(bin: &str) -> Command {
    let mut c = Command::new(bin);
    if bin.contains("cvc5") {
        c.args(["--incremental", "--lang=smt2", "--produce-models", "--nl-ext-tplanes"]);
    } else {
        c.args(["-in", "-smt2"]);
    }
    c
}

impl Smt {
    pub fn new(bin: &str) -> Smt {
        let mut child = solver_cmd(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start the SMT solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Smt { child, inp, out, queries: 0, unsat: 0, sat: 0, unknown: 0, time: 0.0, slowest: 0.0, log: None, slowt: std::env::var("MMSYM_SLOWT").ok().and_then(|x| x.parse().ok()).unwrap_or(2.0), bin: bin.into() };
        if bin.contains("cvc5") {
            s.send("(set-logic ALL)\n");
        } else {
            s.send("(set-option :timeout 30000)\n");
        }
        s
    }
    fn send(&mut self, t: &str) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(t.as_bytes());
        }
        let _ = self.inp.write_all(t.as_bytes());
        let _ = self.inp.flush();
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        if self.out.read_line(&mut s).unwrap_or(0) == 0 {
            return "(error \"solver died\")".into();
        }
        s.trim().to_string()
    }
    fn sexp(&mut self) -> String {
        let mut acc = String::new();
        loop {
            let l = self.line();
            acc.push_str(&l);
            acc.push(' ');
            let d: i32 = acc.bytes().map(|b| match b { b'(' => 1, b')' => -1, _ => 0 }).sum();
            if d <= 0 || l.starts_with("(error") {
                return acc;
            }
        }
    }
    /// body: declarations and assertions; vars: symbols whose values are wanted
    pub fn check(&mut self, body: &str, want: &[String]) -> (Sat, Vec<(String, String)>) {
        self.check_with(body, want, "(check-sat)")
    }
    pub fn check_with(&mut self, body: &str, want: &[String], cmd: &str) -> (Sat, Vec<(String, String)>) {
        let cmd = if self.bin.contains("cvc5") { "(check-sat)" } else { cmd };
        let t0 = Instant::now();
        self.queries += 1;
        let q = format!("(push 1)\n{}{}\n", body, cmd);
        self.send(&q);
        let mut r = self.line();
        while r.starts_with("(error") {
            // an error line makes the query inconclusive
            eprintln!("solver: {} {}", self.bin, r);
            if r.contains("solver died") {
                self.unknown += 1;
                return (Sat::Unknown, vec![]);
            }
            let r2 = self.line();
            if r2 == "sat" || r2 == "unsat" || r2 == "unknown" {
                r = "unknown".into();
                break;
            }
            r = r2;
        }
        let mut vals = vec![];
        let st = match r.as_str() {
            "sat" => {
                self.sat += 1;
                if !want.is_empty() {
                    self.send(&format!("(get-value ({}))\n", want.join(" ")));
                    let s = self.sexp();
                    vals = parse_values(&s);
                }
                Sat::Sat
            }
            "unsat" => {
                self.unsat += 1;
                Sat::Unsat
            }
            _ => {
                self.unknown += 1;
                Sat::Unknown
            }
        };
        self.send("(pop 1)\n");
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowt { if let Ok(d) = std::env::var("MMSYM_SLOW") { let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.queries), format!("{}{}\n", body, cmd)); } }
        if dt > self.slowest {
            self.slowest = dt;
        }
        (st, vals)
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(s: &str) -> Vec<(String, String)> {
    // ((name value) (name value) ...)
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = s.find('(').map_or(0, |x| x + 1);
    while i < b.len() {
        if b[i] == b'(' {
            let mut d = 0;
            let st = i;
            while i < b.len() {
                if b[i] == b'(' { d += 1; }
                if b[i] == b')' { d -= 1; if d == 0 { break; } }
                i += 1;
            }
            let inner = s[st + 1..i].trim();
            if let Some(p) = inner.find(|c: char| c.is_whitespace()) {
                out.push((inner[..p].to_string(), inner[p..].trim().to_string()));
            }
        }
        i += 1;
    }
    out
}

pub fn parse_bv(s: &str) -> Option<u64> {
    if let Some(h) = s.strip_prefix("#x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = s.strip_prefix("#b") {
        u64::from_str_radix(b, 2).ok()
    } else if s == "true" {
        Some(1)
    } else if s == "false" {
        Some(0)
    } else {
        None
    }
}

/// Emits definitions for a DAG of expressions.
pub struct Enc {
    pub body: String,
    pub want: Vec<(String, E)>,
    pub twant: Vec<(String, T)>,
    de: FxSet<E>,
    dt: FxSet<T>,
    pub inexact: bool,
    /// leave the NaN flags out
    pub nonan: bool,
    pub has_ite: bool,
}

fn bvk(w: u32, c: u64) -> String {
    if w % 4 == 0 { format!("#x{:0width$x}", c, width = (w / 4) as usize) } else { format!("(_ bv{} {})", c, w) }
}

/// 2^n in decimal
fn pow2(n: u32) -> String {
    let mut d: Vec<u8> = vec![1];
    for _ in 0..n {
        let mut c = 0;
        for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; }
        if c > 0 { d.push(c); }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

impl Enc {
    pub fn new() -> Enc {
        Enc { body: String::new(), want: vec![], twant: vec![], de: Default::default(), dt: Default::default(), inexact: false, nonan: false, has_ite: false }
    }
    pub fn assert(&mut self, cx: &Ctx, e: E) {
        self.e(cx, e);
        self.body.push_str(&format!("(assert e{})\n", e));
    }
    pub fn assert_not(&mut self, cx: &Ctx, e: E) {
        self.e(cx, e);
        self.body.push_str(&format!("(assert (not e{}))\n", e));
    }
    /// 64-bit value of width w as term of sort (_ BitVec w); width-1 expressions are Bool
    fn bv(&self, cx: &Ctx, e: E) -> String {
        if cx.w(e) == 1 { format!("(ite e{} #b1 #b0)", e) } else { format!("e{}", e) }
    }
    pub fn e(&mut self, cx: &Ctx, e: E) {
        if self.de.contains(&e) {
            return;
        }
        // depth-first without recursion limits being an issue for our sizes
        let x = cx.ex[e as usize].clone();
        match &x {
            Ex::Lin { ts, .. } => for (_, t) in ts.iter() { self.e(cx, *t) },
            Ex::Bin { a, b, .. } | Ex::Cmp { a, b, .. } | Ex::And(a, b) | Ex::Or(a, b) | Ex::Ovf { a, b, .. } => { self.e(cx, *a); self.e(cx, *b) }
            Ex::ZExt { a, .. } | Ex::SExt { a, .. } | Ex::Trunc { a, .. } | Ex::IsZero(a) | Ex::Not(a) => self.e(cx, *a),
            Ex::Ite { c, a, b, .. } => { self.e(cx, *c); self.e(cx, *a); self.e(cx, *b) }
            Ex::FCmp { a, b, .. } => { self.t(cx, *a); self.t(cx, *b) }
            _ => {}
        }
        let w = cx.w(e);
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let s = match &x {
            Ex::Var { tz, .. } => {
                self.body.push_str(&format!("(declare-const e{} {})\n", e, sort));
                if *tz > 0 {
                    self.body.push_str(&format!("(assert (= ((_ extract {} 0) e{}) {}))\n", tz - 1, e, format!("(_ bv0 {})", tz)));
                }
                if let Some((lo, hi)) = cx.bounds.get(&e) {
                    self.body.push_str(&format!("(assert (and (bvule {} e{}) (bvule e{} {})))\n", bvk(w, *lo), e, e, bvk(w, *hi)));
                }
                if let Some((lo, hi)) = cx.sbounds.get(&e) {
                    self.body.push_str(&format!("(assert (and (bvsle {} e{}) (bvsle e{} {})))\n", bvk(w, *lo as u64), e, e, bvk(w, *hi as u64)));
                }
                self.want.push((format!("e{}", e), e));
                self.de.insert(e);
                return;
            }
            Ex::Opaque { .. } | Ex::FBits { .. } | Ex::FToI { .. } => {
                self.body.push_str(&format!("(declare-const e{} {})\n", e, sort));
                if let Ex::FBits { t, w } = &x {
                    self.t(cx, *t);
                    // zero and one have known bit patterns
                    let one = if *w == 64 { 1.0f64.to_bits() } else { 1.0f32.to_bits() as u64 };
                    self.body.push_str(&format!("(assert (= (= ((_ extract {} 0) e{}) (_ bv0 {})) (and (= t{} 0.0) (not n{}))))\n(assert (= (= e{} {}) (and (= t{} 1.0) (not n{}))))\n", w - 2, e, w - 1, t, t, e, bvk(*w, one), t, t));
                }
                self.want.push((format!("e{}", e), e));
                self.de.insert(e);
                self.inexact |= true;
                return;
            }
            Ex::Lin { c, ts, .. } => {
                if w == 1 {
                    (if *c == 1 { "true" } else { "false" }).to_string()
                } else {
                    let mut v: Vec<String> = ts.iter().map(|(k, t)| {
                        let b = self.bv(cx, *t);
                        if *k == 1 { b } else { format!("(bvmul {} {})", bvk(w, *k), b) }
                    }).collect();
                    if *c != 0 || v.is_empty() { v.push(bvk(w, *c)); }
                    let mut acc = v[0].clone();
                    for q in &v[1..] { acc = format!("(bvadd {} {})", acc, q); }
                    acc
                }
            }
            Ex::Bin { op, a, b, .. } => {
                let (a, b) = (self.bv(cx, *a), self.bv(cx, *b));
                let f = |n: &str| format!("({} {} {})", n, a, b);
                let sel = |c: &str| format!("(ite ({} {} {}) {} {})", c, a, b, a, b);
                match op {
                    Bin::Add => f("bvadd"), Bin::Sub => f("bvsub"), Bin::Mul => f("bvmul"), Bin::UDiv => f("bvudiv"), Bin::SDiv => f("bvsdiv"),
                    Bin::URem => f("bvurem"), Bin::SRem => f("bvsrem"), Bin::Shl => f("bvshl"), Bin::LShr => f("bvlshr"), Bin::AShr => f("bvashr"),
                    Bin::And => f("bvand"), Bin::Or => f("bvor"), Bin::Xor => f("bvxor"),
                    Bin::UMin => sel("bvult"), Bin::UMax => sel("bvugt"), Bin::SMin => sel("bvslt"), Bin::SMax => sel("bvsgt"),
                    Bin::USubSat => format!("(ite (bvult {} {}) {} (bvsub {} {}))", a, b, bvk(w, 0), a, b),
                    Bin::UAddSat => format!("(ite (bvult (bvadd {} {}) {}) (bvnot {}) (bvadd {} {}))", a, b, a, bvk(w, 0), a, b),
                    Bin::SSubSat | Bin::SAddSat => {
                        let o = if *op == Bin::SAddSat { "bvadd" } else { "bvsub" };
                        let wide = format!("({} ((_ sign_extend 1) {}) ((_ sign_extend 1) {}))", o, a, b);
                        let mx = bvk(w, (1u64 << (w - 1)) - 1);
                        let mn = bvk(w, 1u64 << (w - 1));
                        format!("(let ((q {})) (ite (bvsgt q ((_ sign_extend 1) {})) {} (ite (bvslt q ((_ sign_extend 1) {})) {} ((_ extract {} 0) q))))", wide, mx, mx, mn, mn, w - 1)
                    }
                }
            }
            Ex::ZExt { a, .. } => {
                let aw = cx.w(*a);
                format!("((_ zero_extend {}) {})", w - aw, self.bv(cx, *a))
            }
            Ex::SExt { a, .. } => {
                let aw = cx.w(*a);
                format!("((_ sign_extend {}) {})", w - aw, self.bv(cx, *a))
            }
            Ex::Trunc { a, .. } => {
                if w == 1 { format!("(= ((_ extract 0 0) {}) #b1)", self.bv(cx, *a)) } else { format!("((_ extract {} 0) {})", w - 1, self.bv(cx, *a)) }
            }
            Ex::IsZero(a) => {
                let aw = cx.w(*a);
                format!("(= {} {})", self.bv(cx, *a), if aw == 1 { "#b0".into() } else { bvk(aw, 0) })
            }
            Ex::Cmp { p, a, b } => {
                let (a, b) = (self.bv(cx, *a), self.bv(cx, *b));
                let n = match p { IPred::Eq => "=", IPred::Ne => "distinct", IPred::Ugt => "bvugt", IPred::Uge => "bvuge", IPred::Ult => "bvult", IPred::Ule => "bvule", IPred::Sgt => "bvsgt", IPred::Sge => "bvsge", IPred::Slt => "bvslt", IPred::Sle => "bvsle" };
                format!("({} {} {})", n, a, b)
            }
            Ex::Not(a) => format!("(not e{})", a),
            Ex::And(a, b) => format!("(and e{} e{})", a, b),
            Ex::Or(a, b) => format!("(or e{} e{})", a, b),
            Ex::Ite { c, a, b, .. } => format!("(ite e{} {} {})", c, self.bv(cx, *a), self.bv(cx, *b)),
            Ex::Ovf { op, signed, a, b } => {
                let aw = cx.w(*a);
                let (a, b) = (self.bv(cx, *a), self.bv(cx, *b));
                let ext = if *op == Bin::Mul { aw } else { 1 };
                let e = if *signed { "sign_extend" } else { "zero_extend" };
                let o = match op { Bin::Add => "bvadd", Bin::Sub => "bvsub", _ => "bvmul" };
                format!("(let ((q ({} ((_ {} {}) {}) ((_ {} {}) {})))) (not (= q ((_ {} {}) ((_ extract {} 0) q)))))", o, e, ext, a, e, ext, b, e, ext, aw - 1)
            }
            Ex::FCmp { p, a, b } => {
                // reals plus a NaN flag per variable
                let na = format!("(or n{} n{})", a, b);
                match p {
                    FPred::Oeq => format!("(and (not {}) (= t{} t{}))", na, a, b),
                    FPred::One => format!("(and (not {}) (distinct t{} t{}))", na, a, b),
                    FPred::Olt => format!("(and (not {}) (< t{} t{}))", na, a, b),
                    FPred::Ole => format!("(and (not {}) (<= t{} t{}))", na, a, b),
                    _ => format!("(not {})", na),
                }
            }
        };
        self.body.push_str(&format!("(define-fun e{} () {} {})\n", e, sort, s));
        if let Ex::FCmp { .. } = x {
            self.want.push((format!("e{}", e), e));
        }
        self.de.insert(e);
    }
    pub fn rat(bits: u64, dbl: bool) -> Option<String> {
        let v = if dbl { f64::from_bits(bits) } else { f32::from_bits(bits as u32) as f64 };
        if !v.is_finite() { return None; }
        let (neg, m) = (v < 0.0, v.abs());
        // m = mant * 2^exp
        let b = m.to_bits();
        let (mut mant, mut exp) = if b >> 52 == 0 { (b, -1074i32) } else { ((b & ((1 << 52) - 1)) | (1 << 52), (b >> 52) as i32 - 1075) };
        if mant == 0 { return Some("0.0".into()); }
        while mant & 1 == 0 { mant >>= 1; exp += 1; }
        let s = if exp >= 0 {
            if exp > 70 { format!("(* {}.0 {}.0)", mant, pow2(exp as u32)) } else { format!("{}.0", (mant as u128) << exp) }
        } else {
            format!("(/ {}.0 {}.0)", mant, pow2(-exp as u32))
        };
        Some(if neg { format!("(- {})", s) } else { s })
    }
    /// real value t<i> and NaN flag n<i>
    pub fn t(&mut self, cx: &Ctx, t: T) {
        if self.dt.contains(&t) {
            return;
        }
        let x = cx.tm[t as usize];
        match x {
            Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => { self.t(cx, a); self.t(cx, b) }
            Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => self.t(cx, a),
            Tm::Fma(a, b, c) | Tm::Un(_, a, b, c) => { self.t(cx, a); self.t(cx, b); self.t(cx, c) }
            Tm::Ite(c, a, b) => { self.has_ite = true; if !self.nonan { self.e(cx, c) } else { self.body.push_str(&format!("(declare-const e{} Bool)\n", c)); } self.t(cx, a); self.t(cx, b) }
            _ => {}
        }
        self.dt.insert(t);
        let (v, n) = match x {
            Tm::Const { dbl, bits } => match Enc::rat(bits, dbl) {
                Some(s) => (Some(s), "false".to_string()),
                None => { self.inexact = true; (None, if (if dbl { f64::from_bits(bits) } else { f32::from_bits(bits as u32) as f64 }).is_nan() { "true".into() } else { "false".into() }) }
            },
            Tm::Leaf { .. } => {
                if self.nonan { self.body.push_str(&format!("(declare-const t{} Real)\n", t)); } else { self.body.push_str(&format!("(declare-const t{} Real)\n(declare-const n{} Bool)\n", t, t)); }
                self.twant.push((format!("t{}", t), t));
                return;
            }
            Tm::Add(a, b) => (Some(format!("(+ t{} t{})", a, b)), format!("(or n{} n{})", a, b)),
            Tm::Mul(a, b) => (Some(format!("(* t{} t{})", a, b)), format!("(or n{} n{})", a, b)),
            Tm::Div(a, b) => (Some(format!("(/ t{} t{})", a, b)), format!("(or n{} n{})", a, b)),
            Tm::Neg(a) => (Some(format!("(- t{})", a)), format!("n{}", a)),
            Tm::Ext(a) | Tm::Tru(a) => (Some(format!("t{}", a)), format!("n{}", a)),
            Tm::Fma(a, b, c) => (Some(format!("(+ (* t{} t{}) t{})", a, b, c)), format!("(or n{} n{} n{})", a, b, c)),
            Tm::Ite(c, a, b) => (Some(format!("(ite e{} t{} t{})", c, a, b)), format!("(ite e{} n{} n{})", c, a, b)),
            Tm::Un(f, a, _, _) if cx.unames[f as usize] == "fabs" => (Some(format!("(ite (< t{} 0.0) (- t{}) t{})", a, a, a)), format!("n{}", a)),
            Tm::Un(..) | Tm::FromInt { .. } | Tm::FromBits { .. } => { self.inexact = true; (None, String::new()) }
        };
        match v {
            Some(s) if self.nonan => self.body.push_str(&format!("(define-fun t{} () Real {})\n", t, s)),
            None if self.nonan => self.body.push_str(&format!("(declare-const t{} Real)\n", t)),
            Some(s) => self.body.push_str(&format!("(define-fun t{} () Real {})\n(define-fun n{} () Bool {})\n", t, s, t, n)),
            None => {
                self.body.push_str(&format!("(declare-const t{} Real)\n", t));
                if n.is_empty() { self.body.push_str(&format!("(declare-const n{} Bool)\n", t)) } else { self.body.push_str(&format!("(define-fun n{} () Bool {})\n", t, n)) }
            }
        }
    }
    pub fn wants(&self) -> Vec<String> {
        self.want.iter().map(|x| x.0.clone()).chain(self.twant.iter().map(|x| x.0.clone())).collect()
    }
    pub fn model(&self, vals: &[(String, String)]) -> Model {
        let mut m = Model::default();
        let map: FxMap<&str, &str> = vals.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        for (n, e) in &self.want {
            if let Some(v) = map.get(n.as_str()).and_then(|s| parse_bv(s)) {
                m.v.insert(*e, v);
            }
        }
        for (n, t) in &self.twant {
            if let Some(v) = map.get(n.as_str()) {
                m.reals.insert(*t, v.to_string());
            }
        }
        m
    }
}

/// Evaluate an integer expression under a model; unknown variables take the value given by `def`.
pub fn eval(cx: &Ctx, m: &Model, memo: &mut FxMap<E, u64>, e: E) -> Option<u64> {
    if let Some(&v) = memo.get(&e) {
        return Some(v);
    }
    let w = cx.w(e);
    let mk = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut g = |x: E, memo: &mut FxMap<E, u64>| eval(cx, m, memo, x);
    let v = match &cx.ex[e as usize] {
        Ex::Var { .. } | Ex::Opaque { .. } | Ex::FBits { .. } | Ex::FToI { .. } => *m.v.get(&e)?,
        Ex::FCmp { .. } => *m.v.get(&e)?,
        Ex::Lin { c, ts, .. } => {
            let mut acc = *c;
            for (k, t) in ts.iter() {
                acc = acc.wrapping_add(k.wrapping_mul(g(*t, memo)?));
            }
            acc & mk
        }
        Ex::Bin { op, a, b, .. } => {
            let (a, b) = (g(*a, memo)?, g(*b, memo)?);
            Ctx::fold(*op, w, a, b)?
        }
        Ex::ZExt { a, .. } => g(*a, memo)?,
        Ex::SExt { a, .. } => crate::ir::sext(g(*a, memo)?, cx.w(*a)) as u64 & mk,
        Ex::Trunc { a, .. } => g(*a, memo)? & mk,
        Ex::IsZero(a) => (g(*a, memo)? == 0) as u64,
        Ex::Cmp { p, a, b } => {
            let (x, y) = (g(*a, memo)?, g(*b, memo)?);
            Ctx::fold_cmp(*p, cx.w(*a), x, y) as u64
        }
        Ex::Not(a) => 1 - g(*a, memo)?,
        Ex::And(a, b) => g(*a, memo)? & g(*b, memo)?,
        Ex::Or(a, b) => g(*a, memo)? | g(*b, memo)?,
        Ex::Ite { c, a, b, .. } => if g(*c, memo)? == 1 { g(*a, memo)? } else { g(*b, memo)? },
        Ex::Ovf { op, signed, a, b } => {
            let aw = cx.w(*a);
            let (x, y) = (g(*a, memo)?, g(*b, memo)?);
            if *signed {
                let (x, y) = (crate::ir::sext(x, aw) as i128, crate::ir::sext(y, aw) as i128);
                let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y };
                (r < -(1i128 << (aw - 1)) || r >= (1i128 << (aw - 1))) as u64
            } else {
                let (x, y) = (x as u128, y as u128);
                let mx = if aw >= 64 { u64::MAX as u128 } else { (1u128 << aw) - 1 };
                (match op { Bin::Add => x + y > mx, Bin::Sub => x < y, _ => x.checked_mul(y).map_or(true, |r| r > mx) }) as u64
            }
        }
    };
    memo.insert(e, v);
    Some(v)
}
