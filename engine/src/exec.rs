//! Symbolic interpreter for the linked program.
use crate::ctx::*;
use crate::ir::*;
use crate::smt::*;
use crate::util::{FxMap, FxSet};
use std::rc::Rc;


#[derive(Clone, Debug)]
pub enum V {
    Undef,
    /// concrete integer; `sh` is its expression over the call's dimensions (0: none)
    I { v: u64, sh: E },
    S(E),
    F(T),
    P(u32, i64),
    PS(u32, E),
    Fn(u32),
    Agg(Rc<Vec<V>>),
    /// bit pieces, low to high
    Cat(Rc<Vec<(u32, V)>>),
}
pub fn vi(v: u64) -> V {
    V::I { v, sh: 0 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Tls,
    Ext,
}

#[derive(Clone, Debug)]
pub enum G {
    U,
    B([u8; 4], u8),
    V4(V),
    V8a(V),
    V8b,
    X(Rc<[V; 4]>),
}
const PG: usize = 64;
type Page = Rc<Vec<G>>;

/// One operand matrix of one call
pub struct Mat {
    pub cls: Cls,
    pub call: u16,
    pub rows: u64,
    pub cols: u64,
    pub rs: E,
    pub cs: E,
    pub dbl: bool,
    pub parts: u8,
    pub name: String,
}
impl Mat {
    pub fn psz(&self) -> u64 {
        if self.dbl { 8 } else { 4 }
    }
    pub fn esz(&self) -> u64 {
        self.psz() * self.parts as u64
    }
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub name: Rc<str>,
    pub size: u64,
    pub align: u64,
    pub base: E,
    pub zero: bool,
    pub pages: Vec<Option<Page>>,
    pub freed: bool,
    pub constant: bool,
    pub mat: Option<Rc<Mat>>,
    pub data: Option<Rc<Vec<T>>>, // matrix element values, u32::MAX = original
    pub wr: Option<Rc<Vec<bool>>>,
    pub exempt: bool,
    pub lazy: Option<u32>, // global whose initialiser was not materialised yet
    pub thread: u32,
    /// granules written (scratch reads-before-write bookkeeping across calls)
    pub epoch: u16,
    pub wpages: Vec<Option<Rc<Vec<u16>>>>, // call number that wrote the granule (TLS/global only)
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub ret: RetK,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RetK {
    Normal,
    /// continue at block (invoke)
    Inv(u32),
    Top,
}

#[derive(Clone, Default)]
pub struct AccSet {
    pub r: FxMap<u64, u32>, // location -> function where
    pub w: FxMap<u64, u32>,
    pub a: FxSet<u64>,
}
#[derive(Clone)]
pub struct Par {
    pub sets: [AccSet; 2],
    pub phase: usize,
    pub th: u32,
    pub depth: u32,
    pub outer: u32,
    pub mc: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Rc<Obj>>,
    pub tls: Rc<FxMap<(u32, u32), u32>>,
    pub facts: Rc<Vec<E>>,
    pub sig: u32,
    pub th: u32,
    pub thmap: Rc<Vec<(u32, u32)>>,
    pub call: u16,
    pub par: Vec<Par>,
    pub maxconc: u32,
    pub live: u32,
    pub steps: u64,
    pub pool_levels: Vec<u64>,
    pub events: Rc<Vec<Event>>,
    pub dead: bool,
    pub wit: Option<Rc<Model>>,
    pub allocs: u32,
    pub initdepth: u32,
    pub genv: Rc<Vec<(E, u64)>>,
    pub trace: Rc<Vec<u64>>,
    pub ret: Option<V>,
    pub env_other: bool,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub what: String,
    pub loc: String,
    /// extra condition (beyond the path condition) under which it happens
    pub cond: Vec<E>,
    pub call: u16,
}

pub enum Ctl {
    Go,
    Done,
    Dead,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub steps: u64,
    pub paths: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub feas_cached: u64,
    pub feas_solver: u64,
    pub feas_witness: u64,
    pub unsupported: u64,
    pub calls: u64,
}

pub struct Opts {
    pub alloc_fail: bool,
    pub max_steps: u64,
    pub max_paths: u64,
    pub log_access: bool,
    pub check_features: bool,
    /// thread-local storage assumed 32-byte aligned (fewer cases)
    pub tls32: bool,
}

pub struct Eng {
    pub cx: Ctx,
    pub prog: &'static Program,
    pub smt: Smt,
    pub work: Vec<State>,
    pub pre: Vec<E>,
    pub pool: Vec<Rc<Model>>,
    pub feas: FxMap<Vec<E>, (bool, Option<Rc<Model>>)>,
    pub masks: Vec<u64>,
    pub stats: Stats,
    pub opts: Opts,
    pub matmap: FxMap<(u32, usize), Rc<FxMap<E, u32>>>,
    pub matkeep: Vec<Rc<Mat>>,
    pub feat: FxMap<String, E>,
    pub cov: FxMap<u64, u8>,
    pub cand: FxMap<(u64, u8), Vec<(E, [u64; 3], u8)>>,
    pub cur: ([u64; 3], u8),
    pub fcov: FxMap<u32, u64>,
    pub exts: Vec<Ext>,
    pub inconclusive: Vec<String>,
    pub cachevars: Vec<E>,
    pub env_len: Option<E>,
    pub env_bytes: Vec<E>,
    pub ncpu: Option<E>,
    pub ncpu_log: Option<E>,
    pub cpool: Vec<V>,
    pub obl_cache: FxMap<(T, T, u64), bool>,
    pub deadline: Option<std::time::Instant>,
    pub constv: Vec<Option<V>>,
    pub fresh: u32,
    pub bases: Vec<E>,
    pub basemap: FxMap<E, u32>,
    pub conc: FxMap<Vec<E>, Option<u64>>,
    pub beta_zero: Option<E>,
    pub bz_cache: FxMap<(u64, E), bool>,
    pub feat_ok: FxSet<u64>,
    pub alloc_error_paths: u64,
    pub race_checks: u64,
    pub ty8: TyId,
    pub align_ok: FxSet<Vec<E>>,
}

/// Functions given a model instead of a body
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    None,
    Nop,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    AllocError,
    Panic,
    NumCpus,
    LogCpus,
    EnvVar,
    EnvVarOs,
    ParseUsize,
    MmvPool,
    MmvFork,
    MmvSwitch,
    MmvJoin,
    EnvLen,
    EnvByte,
    Intrinsic,
    OnceInit,
    DetectInit,
    Memcmp,
    True,
}

fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    if n.starts_with("llvm.") {
        return Ext::Intrinsic;
    }
    let has = |s: &str| n.contains(s);
    if has("___rust_no_alloc_shim_is_unstable") { return Ext::Nop; }
    if has("___rust_alloc_zeroed") { return Ext::AllocZeroed; }
    if n.ends_with("___rust_alloc") { return Ext::Alloc; }
    if n.ends_with("___rust_dealloc") { return Ext::Dealloc; }
    if n.ends_with("___rust_realloc") { return Ext::Realloc; }
    if has("handle_alloc_error") { return Ext::AllocError; }
    if n == "mmv_pool" { return Ext::MmvPool; }
    if n == "mmv_fork" { return Ext::MmvFork; }
    if n == "mmv_switch" { return Ext::MmvSwitch; }
    if n == "mmv_join" { return Ext::MmvJoin; }
    if n == "mmv_env_len" { return Ext::EnvLen; }
    if n == "mmv_env_byte" { return Ext::EnvByte; }
    if n == "bcmp" || n == "memcmp" { return Ext::Memcmp; }
    if has("num_cpus") && has("get_num_physical_cpus") { return Ext::NumCpus; }
    if n == "mmv_phys" { return Ext::NumCpus; }
    if has("num_cpus") && has("get_num_cpus") { return Ext::LogCpus; }
    if has("3std3env3var5inner") || (has("3std3env") && n.ends_with("_var")) { return Ext::EnvVar; }
    if has("3std3env7__var_os") || has("3std3env6var_os") { return Ext::EnvVarOs; }
    if has("detect_and_initialize") { return Ext::DetectInit; }
    if has("5stdio7__eprint") || has("5stdio6__print") { return Ext::Nop; }
    if !f.defined {
        if has("9panicking") || has("panic_") || has("unwrap_failed") || has("expect_failed") || has("slice_index_fail")
            || has("slice_start_index") || has("slice_end_index") || has("slice_index_order") || has("capacity_overflow") || has("handle_error") || n == "abort" || has("5abort") || has("process8abort") {
            return Ext::Panic;
        }
        if has("3vec") && has("3Vech") && has("4Drop4drop") { return Ext::Nop; }
        if has("FromStr") && has("from_str") { return Ext::ParseUsize; }
    } else {
        if has("9panicking") && (has("panic_nounwind") || n.ends_with("panic") || has("panic_fmt")) { return Ext::Panic; }
    }
    Ext::None
}

impl Eng {
    pub fn new(prog: &'static Program, bin: &str, ty8: TyId) -> Eng {
        let mut cx = Ctx::new();
        cx.k(1, 0); // id 0: "no shadow"
        let exts = prog.funcs.iter().map(classify).collect();
        let nc = prog.consts.len();
        Eng {
            cx, prog, smt: Smt::new(bin), work: vec![], pre: vec![], pool: vec![], feas: Default::default(), masks: vec![], stats: Default::default(),
            opts: Opts { alloc_fail: false, max_steps: 400_000_000, max_paths: 20000, log_access: false, check_features: true, tls32: false },
            matmap: Default::default(), matkeep: vec![], feat: Default::default(), cov: Default::default(), cand: Default::default(), cur: ([0; 3], 0), fcov: Default::default(),
            exts, inconclusive: vec![], cachevars: vec![], env_len: None, env_bytes: vec![], ncpu: None, ncpu_log: None, cpool: vec![], obl_cache: Default::default(), deadline: None,
            constv: vec![None; nc], fresh: 0, bases: vec![], basemap: Default::default(), conc: Default::default(), beta_zero: None,
            bz_cache: Default::default(), feat_ok: Default::default(), alloc_error_paths: 0, race_checks: 0, ty8, align_ok: Default::default(),
        }
    }

    // ------------------------------------------------------------------ facts and feasibility
    pub fn emask(&mut self, e: E) -> u64 {
        if self.masks.len() < self.cx.ex.len() {
            self.masks.resize(self.cx.ex.len(), u64::MAX);
        }
        if self.masks[e as usize] != u64::MAX {
            return self.masks[e as usize];
        }
        let b = |x: u32| 1u64 << (x % 61);
        let m = match self.cx.ex[e as usize].clone() {
            Ex::Var { name, .. } => b(name),
            Ex::Opaque { n, .. } => b(n.wrapping_mul(7) + 13),
            Ex::FCmp { a, b, .. } => self.tmaskv(a) | self.tmaskv(b),
            Ex::FBits { t, .. } | Ex::FToI { t, .. } => self.tmaskv(t),
            Ex::Lin { ts, .. } => ts.iter().fold(0, |m, x| m | self.emask(x.1)),
            Ex::Bin { a, b, .. } | Ex::Cmp { a, b, .. } | Ex::And(a, b) | Ex::Or(a, b) | Ex::Ovf { a, b, .. } => self.emask(a) | self.emask(b),
            Ex::ZExt { a, .. } | Ex::SExt { a, .. } | Ex::Trunc { a, .. } | Ex::IsZero(a) | Ex::Not(a) => self.emask(a),
            Ex::Ite { c, a, b, .. } => self.emask(c) | self.emask(a) | self.emask(b),
        };
        if self.masks.len() < self.cx.ex.len() {
            self.masks.resize(self.cx.ex.len(), u64::MAX);
        }
        self.masks[e as usize] = m;
        m
    }
    fn tmaskv(&mut self, t: T) -> u64 {
        // classes as variables: coarse but sound
        let mut m = 0u64;
        let k = self.cx.tmask[t as usize];
        for c in 0..7 {
            if k >> c & 1 == 1 {
                m |= 1 << (54 + c);
            }
        }
        m
    }

    /// facts relevant to `c` (transitively sharing variables), including preconditions
    pub fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut all: Vec<(E, u64)> = Vec::with_capacity(st.facts.len() + self.pre.len());
        for i in 0..st.facts.len() {
            let e = st.facts[i];
            let m = self.emask(e);
            all.push((e, m));
        }
        for i in 0..self.pre.len() {
            let e0 = self.pre[i];
            let e = self.cx.subst(st.sig, e0);
            if self.cx.as_const(e) == Some(1) {
                continue;
            }
            let m = self.emask(e);
            all.push((e, m));
        }
        let mut m = self.emask(c);
        let mut used = vec![false; all.len()];
        loop {
            let mut ch = false;
            for (i, (_, em)) in all.iter().enumerate() {
                if !used[i] && em & m != 0 {
                    used[i] = true;
                    m |= em;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<E> = all.iter().zip(&used).filter(|x| *x.1).map(|x| x.0 .0).collect();
        v.sort();
        v.dedup();
        v
    }

    fn holds(&self, m: &Model, memo: &mut FxMap<E, u64>, es: &[E]) -> bool {
        es.iter().all(|e| eval(&self.cx, m, memo, *e) == Some(1))
    }

    /// is facts ∧ c satisfiable?  (c already under the state's substitution)
    pub fn feasible(&mut self, st: &State, c: E) -> (bool, Option<Rc<Model>>) {
        if let Some(k) = self.cx.as_const(c) {
            return (k == 1, None);
        }
        let mut key = self.slice(st, c);
        key.push(c);
        if let Some(r) = self.feas.get(&key) {
            self.stats.feas_cached += 1;
            return r.clone();
        }
        for i in 0..self.pool.len() {
            let m = self.pool[i].clone();
            let mut memo = FxMap::default();
            if self.holds(&m, &mut memo, &key) {
                self.stats.feas_witness += 1;
                let r = (true, Some(m));
                self.feas.insert(key, r.clone());
                return r;
            }
        }
        self.stats.feas_solver += 1;
        let (s, m) = self.query(&key);
        let r = match s {
            Sat::Sat => {
                let m = Rc::new(m);
                self.pool_add(&m);
                (true, Some(m))
            }
            Sat::Unsat => (false, None),
            Sat::Unknown => {
                self.inconclusive.push("solver answered unknown on a feasibility query".into());
                (true, None)
            }
        };
        self.feas.insert(key, r.clone());
        r
    }
    /// as `query`, with further variables the model should give values to
    pub fn query_vars(&mut self, es: &[E], vars: &[E], sig: u32) -> (Sat, Model) {
        let mut enc = Enc::new();
        for e in es {
            enc.assert(&self.cx, *e);
        }
        for v in vars {
            let v = self.cx.subst(sig, *v);
            enc.e(&self.cx, v);
        }
        let w = enc.wants();
        let (s, vals) = self.smt.check(&enc.body, &w);
        let m = enc.model(&vals);
        (s, m)
    }
    pub fn query(&mut self, es: &[E]) -> (Sat, Model) {
        let mut enc = Enc::new();
        for e in es {
            enc.assert(&self.cx, *e);
        }
        let w = enc.wants();
        let (s, vals) = self.smt.check(&enc.body, &w);
        let m = enc.model(&vals);
        (s, m)
    }

    fn pool_add(&mut self, m: &Rc<Model>) {
        if self.pool.len() >= 12 {
            self.pool.remove(0);
        }
        self.pool.push(m.clone());
    }
    /// a model of the conjunction
    pub fn model_of(&mut self, key: &[E]) -> Option<Rc<Model>> {
        for i in 0..self.pool.len() {
            let m = self.pool[i].clone();
            let mut memo = FxMap::default();
            if self.holds(&m, &mut memo, key) {
                return Some(m);
            }
        }
        let (s, m) = self.query(key);
        match s {
            Sat::Sat => {
                let m = Rc::new(m);
                self.pool_add(&m);
                Some(m)
            }
            Sat::Unsat => None,
            Sat::Unknown => {
                self.inconclusive.push("solver answered unknown on a feasibility query".into());
                None
            }
        }
    }
    pub fn leaves(&self, e: E, out: &mut Vec<E>) {
        let mut seen = FxSet::default();
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            match &self.cx.ex[e as usize] {
                Ex::Lin { ts, .. } if ts.is_empty() => continue,
                _ => {}
            }
            if !seen.insert(e) { continue; }
            match &self.cx.ex[e as usize] {
                Ex::Var { .. } | Ex::Opaque { .. } | Ex::FCmp { .. } | Ex::FBits { .. } | Ex::FToI { .. } => out.push(e),
                Ex::Lin { ts, .. } => for (_, t) in ts.iter().rev() { todo.push(*t) },
                Ex::Bin { a, b, .. } | Ex::Cmp { a, b, .. } | Ex::And(a, b) | Ex::Or(a, b) | Ex::Ovf { a, b, .. } => { todo.push(*b); todo.push(*a) }
                Ex::ZExt { a, .. } | Ex::SExt { a, .. } | Ex::Trunc { a, .. } | Ex::IsZero(a) | Ex::Not(a) => todo.push(*a),
                Ex::Ite { c, a, b, .. } => { todo.push(*b); todo.push(*a); todo.push(*c) }
            }
        }
    }
    /// value under a model; variables the model leaves open get an arbitrary value
    pub fn eval_def(&mut self, m: &Model, e: E) -> Option<u64> {
        let mut ls = vec![];
        self.leaves(e, &mut ls);
        let mut m2 = m.clone();
        for l in ls {
            if !m2.v.contains_key(&l) {
                let tz = self.cx.tz[l as usize] as u32;
                let w = self.cx.w(l);
                let mk = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                let v = if tz >= 64 { 0 } else { (1000 + 37 * l as u64) << tz };
                let v = match self.cx.bounds.get(&l) { Some((lo, _)) => *lo, None => v };
                m2.v.insert(l, v & mk);
            }
        }
        let mut memo = FxMap::default();
        eval(&self.cx, &m2, &mut memo, e)
    }
    pub fn some_value(&mut self, st: &State, e: E) -> Option<u64> {
        let key = self.slice(st, e);
        let m = if key.is_empty() { Rc::new(Model::default()) } else { self.model_of(&key)? };
        self.eval_def(&m, e)
    }

    pub fn add_fact(&mut self, st: &mut State, c: E) {
        let c = self.cx.subst(st.sig, c);
        match self.cx.as_const(c) {
            Some(1) => return,
            Some(_) => {
                st.dead = true;
                return;
            }
            None => {}
        }
        if let Ex::And(a, b) = self.cx.ex[c as usize] {
            self.add_fact(st, a);
            self.add_fact(st, b);
            return;
        }
        if let Ex::Not(x) = self.cx.ex[c as usize] {
            if let Ex::Or(a, b) = self.cx.ex[x as usize] {
                let (na, nb) = (self.cx.not(a), self.cx.not(b));
                self.add_fact(st, na);
                self.add_fact(st, nb);
                return;
            }
        }
        if let Ex::IsZero(x) = self.cx.ex[c as usize] {
            if self.cx.w(x) == 64 {
                if let Some((v, by)) = self.cx.solve_zero(x) {
                    st.sig = self.cx.subst_add(st.sig, v, by);
                    let old = st.facts.clone();
                    // keep the equation itself so that models stay complete
                    let mut nf = vec![];
                    for f in old.iter() {
                        let g = self.cx.subst(st.sig, *f);
                        match self.cx.as_const(g) {
                            Some(1) => {}
                            Some(_) => st.dead = true,
                            None => nf.push(g),
                        }
                    }
                    nf.sort();
                    nf.dedup();
                    st.facts = Rc::new(nf);
                    return;
                }
            }
        }
        if !st.facts.contains(&c) {
            Rc::make_mut(&mut st.facts).push(c);
        }
    }

    /// Decide a symbolic condition, forking when both sides are possible.
    pub fn decide(&mut self, st: &mut State, c: E) -> bool {
        let c0 = c;
        let c = self.cx.subst(st.sig, c);
        if let Some(k) = self.cx.as_const(c) {
            if c0 != c {
                self.settle(st, c0, c0, 0, k == 1);
            }
            return k == 1;
        }
        let nc = self.cx.not(c);
        for f in st.facts.iter() {
            if *f == c || *f == nc {
                let v = *f == c;
                self.settle(st, c0, c, nc, v);
                return v;
            }
        }
        let (t, _) = self.feasible(st, c);
        if !t {
            self.stats.infeasible += 1;
            self.settle(st, c0, c, nc, false);
            return false;
        }
        let (f, _) = self.feasible(st, nc);
        if !f {
            self.stats.infeasible += 1;
            self.settle(st, c0, c, nc, true);
            return true;
        }
        // the more specific side first keeps witnesses small
        let mut other = st.clone();
        self.stats.forks += 1;
        self.add_fact(&mut other, nc);
        if !other.dead {
            self.settle(&mut other, c0, c, nc, false);
            self.work.push(other);
        }
        self.add_fact(st, c);
        self.settle(st, c0, c, nc, true);
        true
    }

    /// the registers at hand under a condition that has been decided
    fn settle(&mut self, st: &mut State, c0: E, c: E, nc: E, val: bool) {
        let hb = |s: &Eng, e: E| e != 0 && s.cx.hb[e as usize];
        let mut todo: Vec<(usize, V)> = vec![];
        match st.frames.last() {
            Some(f) => for (i, v) in f.regs.iter().enumerate() {
                match v {
                    V::S(e) | V::PS(_, e) if hb(self, *e) => todo.push((i, v.clone())),
                    _ => {}
                }
            },
            None => return,
        }
        if todo.is_empty() { return; }
        let mut memo = FxMap::default();
        let mut memo0 = FxMap::default();
        let nc0 = self.cx.not(c0);
        let nc = if nc == 0 { nc0 } else { nc };
        for (i, v) in todo {
            let n = match v {
                V::S(e) => { let r = if c0 != c { self.cx.assume(e, c0, nc0, val, &mut memo0) } else { e }; let r = self.cx.subst(st.sig, r); let r = self.cx.assume(r, c, nc, val, &mut memo); if r == e { continue; } self.norm(r) }
                V::PS(o, e) => { let r = if c0 != c { self.cx.assume(e, c0, nc0, val, &mut memo0) } else { e }; let r = self.cx.subst(st.sig, r); let r = self.cx.assume(r, c, nc, val, &mut memo); if r == e { continue; } match self.cx.as_const(r) { Some(k) => V::P(o, k as i64), None => V::PS(o, r) } }
                _ => continue,
            };
            st.frames.last_mut().unwrap().regs[i] = n;
        }
    }

    pub fn event(&mut self, st: &mut State, kind: &'static str, what: String, cond: Vec<E>) {
        let loc = st.frames.last().map_or(String::new(), |f| self.prog.funcs[f.f as usize].name.clone());
        let call = st.call;
        let ev = Event { kind, what, loc, cond, call };
        let v = Rc::make_mut(&mut st.events);
        if v.iter().filter(|e| e.kind == kind && e.loc == ev.loc).count() < 3 {
            v.push(ev);
        }
    }

    // ------------------------------------------------------------------ objects
    pub fn new_obj(&mut self, st: &mut State, kind: Kind, name: &str, size: u64, align: u64, zero: bool) -> u32 {
        let id = st.objs.len() as u32;
        let tz = align.max(1).trailing_zeros();
        let base = self.cx.var(&format!("{}{}_{}", if kind == Kind::Ext { if size == 0 { "x" } else { "e" } } else { "o" }, id, tz), 64, tz);
        // every object of the library lies in its own 1 TiB slot of the address space, below the
        // caller's matrices; the low 20 bits of its address are free
        if kind == Kind::Ext {
            if size == 0 {
                self.cx.bounds.insert(base, (1 << 62, (1 << 62) + (1 << 61)));
            }
        } else {
            let lo = (id as u64 + 1) << 40;
            self.cx.bounds.insert(base, (lo, lo + ((1 << 20) - 1)));
        }
        let np = (size as usize + 4 * PG - 1) / (4 * PG);
        while self.bases.len() <= id as usize {
            self.bases.push(0);
        }
        self.bases[id as usize] = base;
        self.basemap.insert(base, id);
        st.objs.push(Rc::new(Obj {
            kind, name: name.into(), size, align, base, zero, pages: vec![None; np], freed: false, constant: false, mat: None, data: None, wr: None,
            exempt: st.initdepth > 0, lazy: None, thread: st.th, epoch: st.call, wpages: vec![],
        }));
        id
    }
    pub fn initial_state(&mut self) -> State {
        let mut st = State {
            frames: vec![], objs: vec![], tls: Default::default(), facts: Default::default(), sig: 0, th: 0, thmap: Default::default(), call: 0, par: vec![],
            maxconc: 1, live: 1, steps: 0, pool_levels: vec![], events: Default::default(), dead: false, wit: None, allocs: 0, initdepth: 0, genv: Default::default(), trace: Default::default(), ret: None, env_other: false,
        };
        let prog = self.prog;
        for (gi, g) in prog.globals.iter().enumerate() {
            let size = g.size;
            let id = self.new_obj(&mut st, Kind::Global, &g.name, size, g.align, false);
            let o = Rc::get_mut(&mut st.objs[id as usize]).unwrap();
            o.constant = g.constant;
            o.lazy = Some(gi as u32);
        }
        st
    }
    fn materialise(&mut self, st: &mut State, o: u32) {
        let g = match st.objs[o as usize].lazy {
            Some(g) => g,
            None => return,
        };
        Rc::make_mut(&mut st.objs[o as usize]).lazy = None;
        let prog = self.prog;
        let gl = &prog.globals[g as usize];
        if gl.name.contains("std_detect") && gl.name.contains("CACHE") {
            for i in 0..3u64 {
                let v = self.cx.var(&format!("cpu{}", i), 64, 0);
                if i == 0 {
                    let o2 = Rc::make_mut(&mut st.objs[o as usize]);
                    o2.size = 24;
                    o2.pages = vec![None; 1];
                }
                self.put8(st, o, i as i64 * 8, V::S(v));
                if !self.cachevars.contains(&v) { self.cachevars.push(v); }
            }
            return;
        }
        if let Some(c) = &gl.init {
            self.put_const(st, o, 0, gl.ty, c);
        } else if gl.name.contains("__rust_no_alloc_shim") {
            Rc::make_mut(&mut st.objs[o as usize]).zero = true;
        } else {
            self.inconclusive.push(format!("global without initialiser: {}", gl.name));
        }
    }
    fn put_const(&mut self, st: &mut State, o: u32, off: i64, ty: TyId, c: &Const) {
        let prog = self.prog;
        match c {
            Const::Undef => {}
            Const::Zero(_) => {
                let n = prog.types.size(ty);
                self.fill(st, o, off, n, 0);
            }
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    self.put_byte(st, o, off + i as i64, vi(*x as u64));
                }
            }
            Const::Agg(t, cs) => {
                let t = if matches!(prog.types.get(*t), Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) { *t } else { ty };
                for (i, x) in cs.iter().enumerate() {
                    let (fo, ft) = prog.types.field_off(t, i);
                    self.put_const(st, o, off + fo as i64, ft, x);
                }
            }
            _ => {
                let v = self.const_val(c, ty);
                self.put_val(st, o, off, ty, v);
            }
        }
    }
    pub fn const_val(&mut self, c: &Const, ty: TyId) -> V {
        let prog = self.prog;
        match c {
            Const::Int(_, v) => vi(*v),
            Const::BigInt(w, v) => V::Cat(Rc::new(vec![(64, vi(*v as u64)), (w - 64, vi((*v >> 64) as u64))])),
            Const::Float(d, b) => V::F(self.cx.tk(*d, *b)),
            Const::Null => vi(0),
            Const::Undef => match prog.types.get(ty) {
                Ty::Vec(n, _) => V::Agg(Rc::new(vec![V::Undef; *n as usize])),
                Ty::Arr(n, _) => V::Agg(Rc::new(vec![V::Undef; *n as usize])),
                Ty::Struct(_, f) => V::Agg(Rc::new(f.iter().map(|t| self.const_val(&Const::Undef, *t)).collect())),
                _ => V::Undef,
            },
            Const::Zero(t) => self.zero(*t),
            Const::Global(g, off) => V::P(*g, *off),
            Const::Func(f) => V::Fn(*f),
            Const::Agg(t, cs) => {
                let v = cs.iter().enumerate().map(|(i, x)| { let ft = match prog.types.get(*t) { Ty::Struct(_, fs) => fs[i], Ty::Arr(_, e) | Ty::Vec(_, e) => *e, _ => *t }; self.const_val(x, ft) }).collect();
                V::Agg(Rc::new(v))
            }
            Const::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| vi(*x as u64)).collect())),
        }
    }
    pub fn zero(&mut self, t: TyId) -> V {
        let prog = self.prog;
        match prog.types.get(t) {
            Ty::Int(w) if *w > 64 => V::Cat(Rc::new(vec![(64, vi(0)), (*w - 64, vi(0))])),
            Ty::Int(_) | Ty::Ptr => vi(0),
            Ty::F32 => V::F(self.cx.tk(false, 0)),
            Ty::F64 => V::F(self.cx.tk(true, 0)),
            Ty::Vec(n, e) => { let z = self.zero(*e); V::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Arr(n, e) => { let z = self.zero(*e); V::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(_, fs) => V::Agg(Rc::new(fs.clone().into_iter().map(|f| self.zero(f)).collect())),
            _ => V::Undef,
        }
    }

    // raw granule access on concrete objects (bounds already checked)
    pub fn gr(&mut self, st: &mut State, o: u32, off: i64) -> G {
        self.materialise(st, o);
        let ob = &st.objs[o as usize];
        let g = (off >> 2) as usize;
        match ob.pages.get(g / PG) {
            Some(Some(p)) => p[g % PG].clone(),
            _ => if ob.zero { G::B([0; 4], 15) } else { G::U },
        }
    }
    pub fn gw(&mut self, st: &mut State, o: u32, off: i64, v: G) {
        self.materialise(st, o);
        let call = st.call;
        let ob = Rc::make_mut(&mut st.objs[o as usize]);
        let g = (off >> 2) as usize;
        if g / PG >= ob.pages.len() {
            ob.pages.resize(g / PG + 1, None);
        }
        let z = ob.zero;
        let p = ob.pages[g / PG].get_or_insert_with(|| Rc::new(vec![if z { G::B([0; 4], 15) } else { G::U }; PG]));
        Rc::make_mut(p)[g % PG] = v;
        if ob.kind == Kind::Tls || (ob.kind == Kind::Global && !ob.constant) {
            if g / PG >= ob.wpages.len() {
                ob.wpages.resize(g / PG + 1, None);
            }
            let p = ob.wpages[g / PG].get_or_insert_with(|| Rc::new(vec![u16::MAX; PG]));
            Rc::make_mut(p)[g % PG] = call;
        }
    }
    pub fn byte_of(&mut self, v: &V, i: u32) -> V {
        match v {
            V::I { v, .. } => vi((v >> (8 * i)) & 255),
            V::Undef => V::Undef,
            v => {
                let w = match v { V::F(t) => if self.cx.tdbl[*t as usize] { 64 } else { 32 }, V::S(e) => self.cx.w(*e), _ => 64 };
                let e = self.to_e(v, w);
                let k = self.cx.k(w, 8 * i as u64);
                let s = self.cx.bin(Bin::LShr, e, k);
                let t = self.cx.trunc(s, 8);
                self.norm(t)
            }
        }
    }
    fn bytes_of_granule(&mut self, st: &mut State, o: u32, goff: i64) -> [V; 4] {
        match self.gr(st, o, goff) {
            G::U => [V::Undef, V::Undef, V::Undef, V::Undef],
            G::B(b, m) => {
                let f = |i: usize| if m >> i & 1 == 1 { vi(b[i] as u64) } else { V::Undef };
                [f(0), f(1), f(2), f(3)]
            }
            G::V4(v) => { let r: Vec<V> = (0..4).map(|i| self.byte_of(&v, i)).collect(); [r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone()] }
            G::V8a(v) => { let r: Vec<V> = (0..4).map(|i| self.byte_of(&v, i)).collect(); [r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone()] }
            G::V8b => {
                if let G::V8a(v) = self.gr(st, o, goff - 4) {
                    let r: Vec<V> = (4..8).map(|i| self.byte_of(&v, i)).collect();
                    [r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone()]
                } else {
                    [V::Undef, V::Undef, V::Undef, V::Undef]
                }
            }
            G::X(x) => (*x).clone(),
        }
    }
    fn set_bytes(&mut self, st: &mut State, o: u32, goff: i64, b: [V; 4]) {
        let mut bb = [0u8; 4];
        let mut m = 0;
        let mut conc = true;
        for i in 0..4 {
            match &b[i] {
                V::I { v, .. } => { bb[i] = *v as u8; m |= 1 << i }
                V::Undef => {}
                _ => conc = false,
            }
        }
        let g = if conc { if m == 0 { G::U } else { G::B(bb, m) } } else { G::X(Rc::new(b)) };
        self.gw(st, o, goff, g);
    }
    /// split an 8-byte value overlapping the granules about to be modified
    pub fn unsplit(&mut self, st: &mut State, o: u32, goff: i64) {
        match self.gr(st, o, goff) {
            G::V8a(_) => {
                let lo = self.half(st, o, goff);
                let hi = self.half(st, o, goff + 4);
                self.gw(st, o, goff, lo);
                self.gw(st, o, goff + 4, hi);
            }
            G::V8b => self.unsplit(st, o, goff - 4),
            _ => {}
        }
    }
    pub fn half(&mut self, st: &mut State, o: u32, goff: i64) -> G {
        let (v, hi) = match self.gr(st, o, goff) {
            G::V8a(v) => (v, false),
            G::V8b => match self.gr(st, o, goff - 4) { G::V8a(v) => (v, true), _ => return G::U },
            g => return g,
        };
        G::V4(self.half_of(&v, hi))
    }
    fn half_of(&mut self, v: &V, hi: bool) -> V {
        match v {
            V::I { v, sh } => {
                let s = if *sh != 0 && !hi { let t = self.cx.trunc(*sh, 32); if self.cx.as_const(t).is_some() { 0 } else { t } } else { 0 };
                V::I { v: if hi { v >> 32 } else { v & 0xffff_ffff }, sh: s }
            }
            V::Undef => V::Undef,
            V::Cat(ps) if ps.len() == 2 && ps[0].0 == 32 => ps[hi as usize].1.clone(),
            v => {
                let e = self.to_e(v, 64);
                let x = if hi { let k = self.cx.k(64, 32); self.cx.bin(Bin::LShr, e, k) } else { e };
                let t = self.cx.trunc(x, 32);
                self.norm(t)
            }
        }
    }
    pub fn put_byte(&mut self, st: &mut State, o: u32, off: i64, v: V) {
        let goff = off & !3;
        self.unsplit(st, o, goff);
        let mut b = self.bytes_of_granule(st, o, goff);
        b[(off & 3) as usize] = v;
        self.set_bytes(st, o, goff, b);
    }
    pub fn put4(&mut self, st: &mut State, o: u32, off: i64, v: V) {
        if off & 3 != 0 {
            for i in 0..4 {
                let b = self.byte_of(&v, i);
                self.put_byte(st, o, off + i as i64, b);
            }
            return;
        }
        self.unsplit(st, o, off);
        self.gw(st, o, off, if let V::Undef = v { G::U } else { G::V4(v) });
    }
    pub fn put8(&mut self, st: &mut State, o: u32, off: i64, v: V) {
        if off & 3 != 0 {
            for i in 0..8 {
                let b = self.byte_of(&v, i);
                self.put_byte(st, o, off + i as i64, b);
            }
            return;
        }
        if let V::Cat(ps) = &v {
            if ps.len() == 2 && ps[0].0 == 32 && ps[1].0 == 32 {
                let (a, b) = (ps[0].1.clone(), ps[1].1.clone());
                self.put4(st, o, off, a);
                self.put4(st, o, off + 4, b);
                return;
            }
        }
        self.unsplit(st, o, off);
        self.unsplit(st, o, off + 4);
        if let V::Undef = v {
            self.gw(st, o, off, G::U);
            self.gw(st, o, off + 4, G::U);
        } else {
            self.gw(st, o, off, G::V8a(v));
            self.gw(st, o, off + 4, G::V8b);
        }
    }
    pub fn get4(&mut self, st: &mut State, o: u32, off: i64) -> V {
        if off & 3 == 0 {
            match self.gr(st, o, off) {
                G::V4(v) => return v,
                G::U => return V::Undef,
                G::B(b, 15) => return vi(u32::from_le_bytes(b) as u64),
                G::V8a(_) | G::V8b => { if let G::V4(v) = self.half(st, o, off) { return v; } }
                _ => {}
            }
        }
        self.get_bytes(st, o, off, 4)
    }
    pub fn get8(&mut self, st: &mut State, o: u32, off: i64) -> V {
        if off & 3 == 0 {
            if let G::V8a(v) = self.gr(st, o, off) {
                return v;
            }
            let a = self.get4(st, o, off);
            let b = self.get4(st, o, off + 4);
            return self.join2(a, b);
        }
        self.get_bytes(st, o, off, 8)
    }
    fn join2(&mut self, a: V, b: V) -> V {
        match (&a, &b) {
            (V::Undef, V::Undef) => V::Undef,
            (V::I { v: x, sh: 0 }, V::I { v: y, sh: 0 }) => vi(x | y << 32),
            _ => V::Cat(Rc::new(vec![(32, a), (32, b)])),
        }
    }
    pub fn get_bytes(&mut self, st: &mut State, o: u32, off: i64, n: u32) -> V {
        let mut ps = vec![];
        for i in 0..n as i64 {
            let bs = self.bytes_of_granule(st, o, (off + i) & !3);
            ps.push((8, bs[((off + i) & 3) as usize].clone()));
        }
        self.regroup(&ps, 8 * n)
    }
    pub fn fill(&mut self, st: &mut State, o: u32, off: i64, n: u64, byte: u8) {
        let mut i = off;
        let end = off + n as i64;
        while i < end {
            if i & 3 == 0 && i + 4 <= end {
                self.unsplit(st, o, i);
                self.gw(st, o, i, G::B([byte; 4], 15));
                i += 4;
            } else {
                self.put_byte(st, o, i, vi(byte as u64));
                i += 1;
            }
        }
    }

    // ------------------------------------------------------------------ values
    pub fn norm(&self, e: E) -> V {
        match self.cx.as_const(e) {
            Some(c) => vi(c),
            None => V::S(e),
        }
    }
    pub fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I { v, .. } => self.cx.k(w, *v),
            V::S(e) => *e,
            V::F(t) => self.cx.fbits(*t),
            V::P(o, off) => { let b = self.obj_base(*o); self.cx.addk(b, *off as u64) }
            V::PS(o, e) => { let b = self.obj_base(*o); self.cx.addmul(b, *e, 1) }
            V::Fn(f) => { let b = self.cx.var(&format!("fn{}", f), 64, 4); b }
            V::Cat(ps) => {
                let mut acc = self.cx.k(w, 0);
                let mut sh = 0;
                for (bw, p) in ps.iter() {
                    if sh >= w { break; }
                    let e = self.to_e(p, *bw);
                    let z = self.cx.zext(e, w);
                    let s = self.cx.mulk(z, 1u64 << sh);
                    acc = self.cx.addmul(acc, s, 1);
                    sh += bw;
                }
                acc
            }
            _ => self.cx.opaque(w),
        }
    }
    pub fn obj_base(&mut self, o: u32) -> E {
        self.bases[o as usize]
    }
    /// the state becomes the active one: object bases are looked up through the engine
    pub fn activate(&mut self, st: &State) {
        self.bases.clear();
        self.basemap.clear();
        for (i, o) in st.objs.iter().enumerate() {
            self.bases.push(o.base);
            self.basemap.insert(o.base, i as u32);
        }
    }
}
