//! Scenarios: which entry points are called with which symbolic arguments, what must hold on
//! every path, and how a violation is confirmed and turned into a concrete input.
use crate::ctx::*;
use crate::exec::*;
use crate::exec3::Next;
use crate::ir::*;
use crate::smt::*;
use crate::util::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Call {
    pub f: String, // sgemm dgemm cgemm zgemm
    pub d: [u64; 3], // m k n; SYM: symbolic (the matrices it belongs to are treated as empty)
    /// strides: "sym" or a concrete layout name; "@s" / "@t" at the end: B is A's memory, as it is / transposed
    pub lay: String,
}
pub const SYM: u64 = u64::MAX;
impl Call {
    /// dimensions with symbolic ones read as zero
    /// 1: B is A (same pointer and strides), 2: B is A transposed
    pub fn balias(&self) -> u8 {
        let [m, k, n] = self.dd();
        if self.lay.ends_with("@s") && m == k && k == n && m > 0 { 1 } else if self.lay.ends_with("@t") && m == n && m * k > 0 { 2 } else { 0 }
    }
    pub fn letters(&self) -> &str { self.lay.split('@').next().unwrap_or("sym") }
    pub fn dd(&self) -> [u64; 3] { self.d.map(|x| if x == SYM { 0 } else { x }) }
    pub fn dbl(&self) -> bool { self.f == "dgemm" || self.f == "zgemm" }
    pub fn cplx(&self) -> bool { self.f == "cgemm" || self.f == "zgemm" }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Scen {
    pub calls: Vec<Call>,
    pub alloc_fail: bool,
    /// environment: "none" (variable unset), "any:<maxlen>" symbolic, or "=<value>"
    pub env: String,
    /// restrictions: "+feature", "-feature", "b0" (beta of the first call zero), "b1" (not zero)
    pub only: Vec<String>,
    pub gen: u32,
}
impl Scen {
    pub fn label(&self) -> String {
        let mut s = self.calls.iter().map(|c| if c.f.starts_with(['=', '~', '!']) { c.f.clone() } else { let d = c.d.map(|x| if x == SYM { "*".to_string() } else { x.to_string() }); format!("{} {}x{}x{} {}", c.f, d[0], d[1], d[2], c.lay) }).collect::<Vec<_>>().join(" ; ");
        if self.alloc_fail { s.push_str(" allocfail"); }
        for o in &self.only { s.push(' '); s.push_str(o); }
        if !self.env.is_empty() { s.push_str(&format!(" env={}", self.env)); }
        s
    }
    pub fn cost(&self) -> u64 {
        self.calls.iter().map(|c| { let d = c.dd(); let [m, k, n] = d; (m * k * n + 4 * (m * k + k * n + m * n) + 50) * if c.cplx() { 4 } else { 1 } }).sum()
    }
}

#[derive(Clone, Default)]
pub struct Want {
    pub func: bool,
    pub iso: bool,
    pub prop: bool,
    pub depth: bool,
    pub layout: bool,
    pub written: bool,
    pub leak: bool,
    pub threads: bool,
    pub prev: bool,
    pub constdims: bool,
    pub cap: bool,
}

/// everything reported so far, for when the time is up in the middle of a scenario
pub static EARLY: std::sync::Mutex<Vec<Viol>> = std::sync::Mutex::new(vec![]);

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub what: String,
    pub loc: String,
    pub scen: String,
    pub model: Vec<(String, String)>,
    pub calls: Vec<Call>,
    pub extra: Vec<(String, String)>,
}

#[derive(Default, Clone)]
pub struct Tot {
    pub scens: u64,
    pub paths: u64,
    pub cells: u64,
    pub func_q: u64,
    pub func_distinct: u64,
    pub iso_checks: u64,
    pub prop_q: u64,
    pub depth_q: u64,
    pub written_checks: u64,
    pub layout_pairs: u64,
    pub beta0_paths: u64,
    pub leak_checks: u64,
    pub events_dismissed: u64,
    pub confirm_q: u64,
    pub alloc_error_paths: u64,
    pub race_checks: u64,
    pub probe_q: u64,
    pub probe_returns: u64,
    pub thread_paths: u64,
    pub max_conc: u64,
    pub panics_excluded: u64,
    pub cap_checks: u64,
    pub seq_checks: u64,
}

impl Tot {
    pub fn add(&mut self, o: &Tot) {
        self.scens += o.scens;
        self.paths += o.paths;
        self.cells += o.cells;
        self.func_q += o.func_q;
        self.func_distinct += o.func_distinct;
        self.iso_checks += o.iso_checks;
        self.prop_q += o.prop_q;
        self.depth_q += o.depth_q;
        self.written_checks += o.written_checks;
        self.layout_pairs += o.layout_pairs;
        self.beta0_paths += o.beta0_paths;
        self.leak_checks += o.leak_checks;
        self.events_dismissed += o.events_dismissed;
        self.confirm_q += o.confirm_q;
        self.alloc_error_paths += o.alloc_error_paths;
        self.race_checks += o.race_checks;
        self.probe_q += o.probe_q;
        self.probe_returns += o.probe_returns;
        self.thread_paths += o.thread_paths;
        self.max_conc = self.max_conc.max(o.max_conc);
        self.panics_excluded += o.panics_excluded;
        self.cap_checks += o.cap_checks;
        self.seq_checks += o.seq_checks;
    }
    pub fn json(&self) -> String {
        let v: Vec<(&str, u64)> = vec![("scens", self.scens), ("paths", self.paths), ("cells", self.cells), ("func_q", self.func_q), ("func_distinct", self.func_distinct), ("iso_checks", self.iso_checks), ("prop_q", self.prop_q), ("depth_q", self.depth_q), ("written_checks", self.written_checks), ("layout_pairs", self.layout_pairs), ("beta0_paths", self.beta0_paths), ("leak_checks", self.leak_checks), ("events_dismissed", self.events_dismissed), ("confirm_q", self.confirm_q), ("alloc_error_paths", self.alloc_error_paths), ("race_checks", self.race_checks), ("probe_q", self.probe_q), ("probe_returns", self.probe_returns), ("thread_paths", self.thread_paths), ("max_conc", self.max_conc), ("panics_excluded", self.panics_excluded), ("cap_checks", self.cap_checks), ("seq_checks", self.seq_checks)];
        format!("{{{}}}", v.iter().map(|(a, b)| format!("{}: {}", jstr(a), b)).collect::<Vec<_>>().join(", "))
    }
}

pub struct CallInfo {
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub ma: Rc<Mat>,
    pub mb: Rc<Mat>,
    pub mc: Rc<Mat>,
    pub alpha: [T; 2],
    pub beta: [T; 2],
    pub dbl: bool,
    pub cplx: bool,
    pub d: [u64; 3],
    pub vars: Vec<(String, E)>,
    /// the call whose scalars (and strides) this one uses
    pub scal: u16,
    pub balias: u8,
}

pub struct PathEnd {
    pub st: State,
    /// role-mapped result per call: cell-major, part-minor
    pub res: Vec<Vec<T>>,
    pub done: usize,
    /// path condition of the unsubstituted conjuncts that do not concern the layout
    pub other: Vec<E>,
    /// task counts the specification allows on this path, with the condition
    pub caps: Vec<(u64, E)>,
}

pub struct Runner {
    pub e: Eng,
    pub want: Want,
    pub tot: Tot,
    pub viols: Vec<Viol>,
    pub fcache: FxMap<(T, T, Vec<E>), Option<Rc<Vec<(T, String)>>>>,
    pub dcache: FxMap<(T, u64), bool>,
    wcache: FxMap<(T, T, u64, Vec<E>), Option<Vec<(T, String)>>>,
    pub pcache: FxMap<(T, T, u8, Vec<E>), bool>,
    pub hw: Vec<E>,
    pub feat_unused: u64,
    pub alloc_sizes: Vec<u64>,
    pub maxpaths: u64,
    pub notes: Vec<String>,
    pub rw: FxMap<T, T>,
    pub small_first: bool,
    pub kinds: Vec<String>,
    pub counted: u64,
    pub traces: Vec<String>,
    pub trace_max: usize,
    trace_tick: u64,
}

/// deterministic operand data, the same in the native replay
pub fn datum(cls: u8, idx: u64, part: u8, dbl: bool) -> f64 {
    let mut z = 0x9E3779B97F4A7C15u64.wrapping_mul(1 + cls as u64 * 1_000_003 + idx * 4 + part as u64).wrapping_add(0x1234_5678_9ABC);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    let e = [1.0, 0.125, 8.0, 1.0][(z & 3) as usize];
    if dbl { ((z >> 11) as f64 / (1u64 << 52) as f64 - 1.0) * e } else { ((z >> 40) as f64 / (1u64 << 23) as f64 - 1.0) * e }
}

pub const FNS: [&str; 4] = ["sgemm", "dgemm", "cgemm", "zgemm"];
const FEATS: &[(&str, &str)] = &[
    ("sse3", "det_sse3"), ("ssse3", "det_ssse3"), ("sse4.1", "det_sse41"), ("sse4.2", "det_sse42"), ("avx", "det_avx"), ("avx2", "det_avx2"),
    ("fma", "det_fma"), ("f16c", "det_f16c"), ("bmi1", "det_bmi1"), ("bmi2", "det_bmi2"), ("popcnt", "det_popcnt"), ("lzcnt", "det_lzcnt"),
    ("avx512f", "det_avx512f"), ("avx512vl", "det_avx512vl"), ("avx512bw", "det_avx512bw"), ("avx512dq", "det_avx512dq"),
];
/// what hardware guarantees: a feature implies another
const IMPL: &[(&str, &str)] = &[
    ("ssse3", "sse3"), ("sse4.1", "ssse3"), ("sse4.2", "sse4.1"), ("avx", "sse4.2"), ("avx", "popcnt"), ("avx2", "avx"), ("fma", "avx"), ("f16c", "avx"),
    ("avx512f", "avx2"), ("avx512f", "fma"), ("avx512f", "f16c"), ("avx512vl", "avx512f"), ("avx512bw", "avx512f"), ("avx512dq", "avx512f"),
    ("sse4.2", "popcnt"),
];

impl Runner {
    pub fn new(prog: &'static Program, ty8: TyId, bin: &str, want: Want) -> Runner {
        let e = Eng::new(prog, bin, ty8);
        let mut r = Runner {
            e, want, tot: Default::default(), viols: vec![], fcache: Default::default(), dcache: Default::default(), wcache: Default::default(), pcache: Default::default(), hw: vec![],
            feat_unused: 0, alloc_sizes: vec![], maxpaths: 4000, notes: vec![], rw: Default::default(), small_first: true, kinds: vec![], counted: 0, traces: vec![], trace_max: 0, trace_tick: 0,
        };
        r.learn_features();
        r
    }
    /// run the feature-detection probes symbolically to learn which cache bits they test
    fn learn_features(&mut self) {
        let prog = self.e.prog;
        let mut names = vec![];
        for (ft, f) in FEATS {
            let id = match prog.fmap.get(*f) { Some(i) => *i, None => continue };
            let mut st = self.e.initial_state();
            self.e.activate(&st);
            self.e.push_frame(&mut st, id, vec![], u32::MAX, RetK::Top);
            self.e.work.push(st);
            let mut outs = vec![];
            while let Some(mut s) = self.e.work.pop() {
                self.e.activate(&s);
                s.ret = None;
                if let Next::Finished = self.e.run(&mut s) {
                    outs.push(s);
                }
            }
            if outs.len() == 1 {
                let s = &outs[0];
                for f in s.facts.iter() {
                    if !self.hw.contains(f) { self.hw.push(*f); }
                }
                let v = s.ret.clone().unwrap_or(V::Undef);
                let x = self.e.to_e(&v, 1);
                let x = if self.e.cx.w(x) > 1 { self.e.cx.trunc(x, 1) } else { x };
                self.e.feat.insert(ft.to_string(), x);
                names.push(*ft);
            } else if !outs.is_empty() {
                // two returns: true on one of them
                let mut c = self.e.cx.k(1, 0);
                let mut common: Option<Vec<E>> = None;
                for s in &outs {
                    let v = s.ret.clone().unwrap_or(V::Undef);
                    let x = self.e.to_e(&v, 1);
                    let mut p = if self.e.cx.w(x) > 1 { self.e.cx.trunc(x, 1) } else { x };
                    for f in s.facts.iter() { p = self.e.cx.and(p, *f); }
                    c = self.e.cx.or(c, p);
                    common = Some(match common { None => s.facts.to_vec(), Some(v) => v.into_iter().filter(|x| s.facts.contains(x)).collect() });
                }
                for f in common.unwrap_or_default() { if !self.hw.contains(&f) { self.hw.push(f); } }
                self.e.feat.insert(ft.to_string(), c);
                names.push(*ft);
            }
        }
        for (a, b) in IMPL {
            if let (Some(x), Some(y)) = (self.e.feat.get(*a).copied(), self.e.feat.get(*b).copied()) {
                let n = self.e.cx.not(x);
                let c = self.e.cx.or(n, y);
                self.hw.push(c);
            }
        }
    }

    fn strides(&mut self, ci: usize, x: &str, lay: &str, rows: u64, cols: u64) -> (E, E) {
        // a stride that is used is at most 2^44 elements (the address space of the platform is
        // 2^47 bytes); one that is not used may be anything
        let sym = |s: &mut Runner, n: &str| {
            let used = rows * cols > 0 && (if n == "rs" { rows } else { cols }) > 1;
            let v = s.e.cx.var(&format!("{}{}{}{}", n, x, ci, if used { "" } else { "_unused" }), 64, 0);
            if used { s.e.cx.sbounds.insert(v, (-(1 << 44), 1 << 44)); }
            v
        };
        // layout letters: one per matrix, in order a, b, c ("sym" = all symbolic)
        let ch = if lay == "sym" { 's' } else { let i = match x { "a" => 0, "b" => 1, _ => 2 }; lay.chars().nth(i).unwrap_or('s') };
        match ch {
            'r' => (self.e.cx.k(64, cols.max(1)), self.e.cx.k(64, 1)),
            'c' => (self.e.cx.k(64, 1), self.e.cx.k(64, rows.max(1))),
            // general: concrete strides that are neither row nor column major
            'g' => (self.e.cx.k(64, 3 * cols.max(1) + 1), self.e.cx.k(64, 3)),
            'n' => (self.e.cx.k(64, (cols.max(1)).wrapping_neg()), self.e.cx.k(64, u64::MAX)),
            'z' => (self.e.cx.k(64, 0), self.e.cx.k(64, 0)),
            _ => (sym(self, "rs"), sym(self, "cs")),
        }
    }

    fn mat(&mut self, st: &mut State, ci: usize, si: usize, x: &str, cls: Cls, call: &Call, rows: u64, cols: u64) -> (u32, Rc<Mat>) {
        let parts = if call.cplx() { 2 } else { 1 };
        let (rs, cs) = match (x, call.balias()) {
            ("b", 1) => self.strides(si, "a", call.letters(), cols, rows),
            ("b", 2) => { let (r, c) = self.strides(si, "a", call.letters(), cols, rows); (c, r) }
            _ => self.strides(si, x, call.letters(), rows, cols),
        };
        let m = Rc::new(Mat { cls, call: ci as u16, rows, cols, rs, cs, dbl: call.dbl(), parts, name: if ci == 0 { x.to_string() } else { format!("{} of call {}", x, ci + 1) } });
        let al = m.psz();
        // size 1 stands for a matrix without elements: its pointer may hold anything
        let o = self.e.new_obj(st, Kind::Ext, &m.name.clone(), (rows * cols == 0) as u64, al, false);
        Rc::make_mut(&mut st.objs[o as usize]).size = 0;
        Rc::make_mut(&mut st.objs[o as usize]).mat = Some(m.clone());
        if rows * cols > 0 {
            for (v, n) in [(rs, rows), (cs, cols)] {
                if self.e.cx.as_const(v).is_none() && n > 4097 { self.e.inconclusive.push("symbolic strides need dimensions of at most 4097".into()); }
            }
        }
        (o, m)
    }

    /// create the call's symbolic arguments and its first frame
    /// "=i": the arguments of call i with matrices of its own; "~i": call i again with other
    /// data in the same A and B
    pub fn setup(&mut self, st: &mut State, ci: usize, sc: &Scen, prev: &[CallInfo]) -> Option<CallInfo> {
        let prog = self.e.prog;
        let si = sc.calls[ci].f.strip_prefix(['=', '~']).map_or(ci, |x| x.parse().unwrap_or(0));
        let again = sc.calls[ci].f.starts_with('~');
        let call = &sc.calls[si];
        let fid = *prog.fmap.get(&format!("h_{}", call.f))?;
        let [m, k, n] = call.dd();
        st.call = ci as u16;
        let (mut a, ma) = self.mat(st, ci, si, "a", Cls::A, call, m, k);
        let (mut b, mb) = self.mat(st, ci, si, "b", Cls::B, call, k, n);
        if call.balias() > 0 { b = a; }
        if again { a = prev[si].a; b = prev[si].b; }
        let (c, mc) = self.mat(st, ci, si, "c", Cls::C, call, m, n);
        // distinct elements of C do not share memory: nonzero strides now, the rest when confirming
        if m > 1 && n > 0 {
            let z = self.e.cx.k(64, 0);
            let e = self.e.cx.cmp(IPred::Ne, mc.rs, z);
            if self.e.cx.as_const(e).is_none() { self.e.pre.push(e); }
        }
        if n > 1 && m > 0 {
            let z = self.e.cx.k(64, 0);
            let e = self.e.cx.cmp(IPred::Ne, mc.cs, z);
            if self.e.cx.as_const(e).is_none() { self.e.pre.push(e); }
        }
        let dbl = call.dbl();
        let np = if call.cplx() { 2 } else { 1 };
        let al: Vec<T> = (0..2).map(|p| self.e.cx.leaf(dbl, Cls::Alpha, si as u16, 0, p)).collect();
        let be: Vec<T> = (0..2).map(|p| self.e.cx.leaf(dbl, Cls::Beta, si as u16, 0, p)).collect();
        let zero = self.e.cx.tk(dbl, 0);
        let mut bz = self.e.cx.fcmp(FPred::Oeq, be[0], zero);
        if np == 2 {
            let z2 = self.e.cx.fcmp(FPred::Oeq, be[1], zero);
            bz = self.e.cx.and(bz, z2);
        }
        self.e.beta_zero = Some(bz);
        let mut args: Vec<V> = vec![];
        let dn = ["m", "k", "n"];
        for i in 0..3 {
            let sh = self.e.cx.var(&format!("{}{}", dn[i], si), 64, 0);
            if call.d[i] == SYM { args.push(V::S(sh)); continue; }
            args.push(V::I { v: call.d[i], sh: if self.want.constdims { 0 } else { sh } });
        }
        for p in 0..np { args.push(V::F(al[p])); }
        let sv = |e: E, s: &Runner| s.e.norm(e);
        args.push(V::P(a, 0));
        args.push(sv(ma.rs, self));
        args.push(sv(ma.cs, self));
        args.push(V::P(b, 0));
        args.push(sv(mb.rs, self));
        args.push(sv(mb.cs, self));
        for p in 0..np { args.push(V::F(be[p])); }
        args.push(V::P(c, 0));
        args.push(sv(mc.rs, self));
        args.push(sv(mc.cs, self));
        self.e.push_frame(st, fid, args, u32::MAX, RetK::Top);
        let mut vars = vec![];
        for (x, m) in [("a", &ma), ("b", &mb), ("c", &mc)] {
            vars.push((format!("rs{}", x), m.rs));
            vars.push((format!("cs{}", x), m.cs));
        }
        for (x, o) in [("a", a), ("b", b), ("c", c)] {
            vars.push((format!("base_{}", x), st.objs[o as usize].base));
        }
        for i in 0..3 { if call.d[i] == SYM { let v = self.e.cx.var(&format!("{}{}", dn[i], si), 64, 0); vars.push((dn[i].to_string(), v)); } }
        Some(CallInfo { a, b, c, ma, mb, mc, alpha: [al[0], al[1]], beta: [be[0], be[1]], dbl, cplx: np == 2, d: call.dd(), vars, scal: si as u16, balias: call.balias() })
    }

    // ------------------------------------------------------------------ term rewriting
    fn rewrite(&mut self, t: T, f: &dyn Fn(&Tm) -> Option<(Cls, u32)>, memo: &mut FxMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) { return r; }
        // explicit stack: terms are deep chains
        let mut stack = vec![(t, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) { continue; }
            let tm = self.e.cx.tm[x as usize];
            if !ready {
                stack.push((x, true));
                match tm {
                    Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => stack.push((a, false)),
                    Tm::Fma(a, b, c) | Tm::Un(_, a, b, c) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
                    Tm::Ite(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    _ => {}
                }
                continue;
            }
            let g = |y: T, memo: &FxMap<T, T>| *memo.get(&y).unwrap();
            let r = match tm {
                Tm::Leaf { dbl, part, .. } => match f(&tm) { Some((c, i)) => self.e.cx.leaf(dbl, c, 100, i, part), None => x },
                Tm::Add(a, b) => { let (a, b) = (g(a, memo), g(b, memo)); self.e.cx.fadd(a, b) }
                Tm::Mul(a, b) => { let (a, b) = (g(a, memo), g(b, memo)); self.e.cx.fmul(a, b) }
                Tm::Div(a, b) => { let (a, b) = (g(a, memo), g(b, memo)); self.e.cx.fdiv(a, b) }
                Tm::Neg(a) => { let a = g(a, memo); self.e.cx.fneg(a) }
                Tm::Ext(a) => { let a = g(a, memo); self.e.cx.fext(a) }
                Tm::Tru(a) => { let a = g(a, memo); self.e.cx.ftrunc(a) }
                Tm::Fma(a, b, c) => { let (a, b, c) = (g(a, memo), g(b, memo), g(c, memo)); self.e.cx.fma(a, b, c) }
                Tm::Un(n, a, b, c) => { let (a, b, c) = (g(a, memo), g(b, memo), g(c, memo)); let nm = self.e.cx.unames[n as usize].clone(); self.e.cx.fun(&nm, a, b, c) }
                Tm::Ite(c, a, b) => { let (a, b) = (g(a, memo), g(b, memo)); let c = self.rewrite_e(c, f, memo); self.e.cx.fite(c, a, b) }
                Tm::FromInt { signed, dbl, e } => { let e = self.rewrite_e(e, f, memo); self.e.cx.fromint(signed, dbl, e) }
                Tm::FromBits { dbl, e } => { let e = self.rewrite_e(e, f, memo); self.e.cx.frombits(dbl, e) }
                Tm::Const { .. } => x,
            };
            memo.insert(x, r);
        }
        memo[&t]
    }
    fn rewrite_e(&mut self, e: E, f: &dyn Fn(&Tm) -> Option<(Cls, u32)>, memo: &mut FxMap<T, T>) -> E {
        if self.e.cx.emask(e) == 0 { return e; }
        match self.e.cx.ex[e as usize].clone() {
            Ex::FCmp { p, a, b } => { let (a, b) = (self.rewrite(a, f, memo), self.rewrite(b, f, memo)); self.e.cx.fcmp(p, a, b) }
            Ex::FBits { t, .. } => { let t = self.rewrite(t, f, memo); self.e.cx.fbits(t) }
            Ex::FToI { t, signed, w } => { let t = self.rewrite(t, f, memo); self.e.cx.ftoi(t, signed, w) }
            Ex::Not(a) => { let a = self.rewrite_e(a, f, memo); self.e.cx.not(a) }
            Ex::And(a, b) => { let (a, b) = (self.rewrite_e(a, f, memo), self.rewrite_e(b, f, memo)); self.e.cx.and(a, b) }
            Ex::Or(a, b) => { let (a, b) = (self.rewrite_e(a, f, memo), self.rewrite_e(b, f, memo)); self.e.cx.or(a, b) }
            Ex::Cmp { p, a, b } => { let (a, b) = (self.rewrite_e(a, f, memo), self.rewrite_e(b, f, memo)); self.e.cx.cmp(p, a, b) }
            Ex::IsZero(a) => { let a = self.rewrite_e(a, f, memo); let z = { let w = self.e.cx.w(a); self.e.cx.k(w, 0) }; self.e.cx.cmp(IPred::Eq, a, z) }
            Ex::Bin { op, a, b, .. } => { let (a, b) = (self.rewrite_e(a, f, memo), self.rewrite_e(b, f, memo)); self.e.cx.bin(op, a, b) }
            Ex::Lin { w, c, ts } => {
                let mut acc = self.e.cx.k(w, c);
                for (k, t) in ts.iter() { let t2 = self.rewrite_e(*t, f, memo); acc = self.e.cx.addmul(acc, t2, *k); }
                acc
            }
            Ex::ZExt { w, a } => { let a = self.rewrite_e(a, f, memo); self.e.cx.zext(a, w) }
            Ex::SExt { w, a } => { let a = self.rewrite_e(a, f, memo); self.e.cx.sext(a, w) }
            Ex::Trunc { w, a } => { let a = self.rewrite_e(a, f, memo); self.e.cx.trunc(a, w) }
            Ex::Ite { c, a, b, .. } => { let (c, a, b) = (self.rewrite_e(c, f, memo), self.rewrite_e(a, f, memo), self.rewrite_e(b, f, memo)); self.e.cx.ite(c, a, b) }
            _ => e,
        }
    }

    // ------------------------------------------------------------------ confirmation
    /// full path condition, preconditions and `extra`; C's elements do not alias
    fn confirm(&mut self, st: &State, infos: &[CallInfo], extra: &[E]) -> Option<Model> {
        self.tot.confirm_q += 1;
        let mut base: Vec<E> = st.facts.to_vec();
        for p in self.e.pre.clone() {
            let q = self.e.cx.subst(st.sig, p);
            match self.e.cx.as_const(q) { Some(1) => {} Some(_) => return None, None => base.push(q) }
        }
        for x in extra {
            let q = self.e.cx.subst(st.sig, *x);
            match self.e.cx.as_const(q) { Some(1) => {} Some(_) => return None, None => base.push(q) }
        }
        let mut lazy: Vec<E> = vec![];
        // prefer small strides: they replay easily
        let sig = st.sig;
        let mut small: Vec<E> = vec![];
        for i in infos {
            for (n, v) in &i.vars {
                if n.starts_with("base") { continue; }
                let v = self.e.cx.subst(sig, *v);
                let (lo, hi) = (self.e.cx.k(64, 300u64.wrapping_neg()), self.e.cx.k(64, 300));
                let c1 = self.e.cx.cmp(IPred::Sle, lo, v);
                let c2 = self.e.cx.cmp(IPred::Sle, v, hi);
                for c in [c1, c2] { if self.e.cx.as_const(c).is_none() { small.push(c); } }
            }
        }
        // and strides that keep A's and B's elements apart: shared ones can hide what is wrong
        let mut apart: Vec<E> = vec![];
        let mut level = 0;
        for _ in 0..400 {
            let mut q = base.clone();
            q.extend(&lazy);
            if level % 2 == 0 { q.extend(&small); }
            if level < 2 { q.extend(&apart); }
            let (s, m) = self.e.query_vars(&q, &infos.iter().flat_map(|i| i.vars.iter().map(|x| x.1)).collect::<Vec<_>>(), sig);
            match s {
                Sat::Sat => {}
                _ if level < 3 => { level = if apart.is_empty() { 3 } else { level + 1 }; continue; }
                Sat::Unsat => return None,
                Sat::Unknown => { self.e.inconclusive.push("solver answered unknown while confirming".into()); return None; }
            }
            // does C alias under this model?
            let mut bad = false;
            for i in infos {
                let [rows, _, cols] = i.d;
                let rs = self.e.cx.subst(sig, i.mc.rs);
                let cs = self.e.cx.subst(sig, i.mc.cs);
                let (rv, cv) = (self.e.eval_def(&m, rs).unwrap_or(0), self.e.eval_def(&m, cs).unwrap_or(0));
                let mut seen: FxMap<u64, (u64, u64)> = Default::default();
                'o: for a in 0..rows {
                    for b in 0..cols {
                        let off = rv.wrapping_mul(a).wrapping_add(cv.wrapping_mul(b));
                        if let Some((p, q)) = seen.insert(off, (a, b)) {
                            let (di, dj) = (a.wrapping_sub(p), b.wrapping_sub(q));
                            let z = self.e.cx.k(64, 0);
                            let x = self.e.cx.addmul(z, rs, di);
                            let x = self.e.cx.addmul(x, cs, dj);
                            let c = self.e.cx.cmp(IPred::Ne, x, z);
                            if self.e.cx.as_const(c) == Some(0) { return None; }
                            lazy.push(c);
                            bad = true;
                            break 'o;
                        }
                    }
                }
            }
            if !bad && level < 2 && apart.len() < 60 {
                let n0 = apart.len();
                for i in infos {
                    for mt in [&i.ma, &i.mb] {
                        if mt.rows * mt.cols > 700 || (self.e.cx.as_const(mt.rs).is_some() && self.e.cx.as_const(mt.cs).is_some()) { continue; }
                        let rs = self.e.cx.subst(sig, mt.rs);
                        let cs = self.e.cx.subst(sig, mt.cs);
                        let (rv, cv) = (self.e.eval_def(&m, rs).unwrap_or(0), self.e.eval_def(&m, cs).unwrap_or(0));
                        let mut seen: FxMap<u64, (u64, u64)> = Default::default();
                        'p: for a in 0..mt.rows {
                            for b in 0..mt.cols {
                                if let Some((p, q)) = seen.insert(rv.wrapping_mul(a).wrapping_add(cv.wrapping_mul(b)), (a, b)) {
                                    let z = self.e.cx.k(64, 0);
                                    let x = self.e.cx.addmul(z, rs, a.wrapping_sub(p));
                                    let x = self.e.cx.addmul(x, cs, b.wrapping_sub(q));
                                    let c = self.e.cx.cmp(IPred::Ne, x, z);
                                    // always shared on this path
                                    if self.e.cx.as_const(c) == Some(0) { continue; }
                                    apart.push(c);
                                    break 'p;
                                }
                            }
                        }
                    }
                }
                if apart.len() > n0 { continue; }
            }
            if !bad { return Some(m); }
        }
        self.e.inconclusive.push("non-aliasing of C could not be settled".into());
        None
    }
    fn report(&mut self, st: &State, infos: &[CallInfo], sc: &Scen, kind: &str, what: String, loc: String, m: &Model, extra: Vec<(String, String)>) {
        let mut model = vec![];
        for (ci, i) in infos.iter().enumerate() {
            for (n, v) in &i.vars {
                let v = self.e.cx.subst(st.sig, *v);
                let x = self.e.eval_def(m, v).unwrap_or(0);
                model.push((format!("{}.{}", ci, n), format!("{}", x as i64)));
            }
            let bz = {
                let zero = self.e.cx.tk(i.dbl, 0);
                let mut b = self.e.cx.fcmp(FPred::Oeq, i.beta[0], zero);
                if i.cplx { let y = self.e.cx.fcmp(FPred::Oeq, i.beta[1], zero); b = self.e.cx.and(b, y); }
                b
            };
            let v = if st.facts.contains(&bz) { "1" } else {
                let mut memo = FxMap::default();
                let nb = self.e.cx.not(bz);
                if st.facts.contains(&nb) { "0" } else { match eval(&self.e.cx, m, &mut memo, bz) { Some(1) => "1", Some(_) => "0", None => "?" } }
            };
            model.push((format!("{}.beta_is_zero", ci), v.to_string()));
        }
        for i in 0..self.e.cachevars.len() {
            let v = self.e.cachevars[i];
            let x = self.e.eval_def(m, v).unwrap_or(0);
            model.push((format!("cpu{}", i), format!("{}", x)));
        }
        let mut fl = vec![];
        let fe: Vec<(String, E)> = self.e.feat.iter().map(|x| (x.0.clone(), *x.1)).collect();
        for (n, c) in fe {
            if self.e.eval_def(m, c) == Some(1) { fl.push(n); }
        }
        fl.sort();
        model.push(("features".into(), fl.join(",")));
        if let Some(v) = self.e.ncpu { let v2 = self.e.cx.subst(st.sig, v); let x = self.e.eval_def(m, v2).unwrap_or(0); model.push(("ncpu".into(), format!("{}", x))); }
        if let Some(l) = self.e.env_len {
            let l2 = self.e.cx.subst(st.sig, l);
            let n = self.e.eval_def(m, l2).unwrap_or(u64::MAX);
            model.push(("env_len".into(), format!("{}", n as i64)));
            let mut s = String::new();
            if n < 64 {
                for i in 0..n as usize {
                    let b = if i < self.e.env_bytes.len() { let v = self.e.env_bytes[i]; let v = self.e.cx.subst(st.sig, v); self.e.eval_def(m, v).unwrap_or(63) } else { 63 };
                    s.push_str(&format!("{:02x}", b));
                }
            }
            model.push(("env_hex".into(), s));
        }
        let lv: Vec<String> = m.reals.iter().filter_map(|(t, v)| self.leaf_value(*t, v)).take(400).collect();
        if !lv.is_empty() { model.push(("leaves".into(), lv.join(";"))); }
        let facts: Vec<String> = st.facts.iter().take(60).map(|f| self.e.cx.show(*f)).collect();
        let mut extra = extra;
        extra.push(("path".into(), facts.join(" && ")));
        self.viols.push(Viol { kind: kind.into(), what, loc, scen: sc.label(), model, calls: sc.calls.clone(), extra });
        EARLY.lock().unwrap().push(self.viols.last().unwrap().clone());
    }

    // ------------------------------------------------------------------ running a scenario
    pub fn run(&mut self, sc: &Scen) {
        self.tot.scens += 1;
        self.e.cur = (sc.calls[0].dd(), FNS.iter().position(|f| *f == sc.calls[0].f).unwrap_or(0) as u8);
        self.e.pre = self.hw.clone();
        self.e.opts.alloc_fail = sc.alloc_fail;
        self.e.opts.tls32 = sc.only.iter().any(|x| x == "t32");
        self.e.work.clear();
        self.e.matmap.clear();
        self.e.matkeep.clear();
        self.e.ncpu = None;
        self.e.ncpu_log = None;
        self.e.env_len = None;
        self.e.alloc_error_paths = 0;
        self.e.race_checks = 0;
        self.e.bz_cache.clear();
        self.e.feat_ok.clear();
        if self.e.feas.len() > 400_000 { self.e.feas.clear(); }
        if self.e.conc.len() > 100_000 { self.e.conc.clear(); }
        let mut st = self.e.initial_state();
        self.e.activate(&st);
        if let Some(v) = sc.env.strip_prefix('=') {
            let l = self.e.cx.k(64, v.len() as u64);
            self.e.env_len = Some(l);
            self.e.env_bytes.clear();
            for b in v.bytes() { let e = self.e.cx.k(8, b as u64); self.e.env_bytes.push(e); }
        } else if let Some(v) = sc.env.strip_prefix("any:") {
            // any:N (bytes), any:dN (digits), any:pPREFIXdN (a fixed prefix and N digits after it; full length unless followed by '-')
            let (pre, dig, num) = match v.strip_prefix('p') {
                Some(r) => { let x = r.find('d').unwrap_or(r.len()); (&r[..x], true, r[x..].trim_start_matches('d')) }
                None => ("", v.starts_with('d'), v.trim_start_matches('d')),
            };
            let mx: u64 = num.parse::<u64>().unwrap_or(2) + pre.len() as u64;
            let l = self.e.cx.var("env_len", 64, 0);
            self.e.env_len = Some(l);
            self.e.env_bytes.clear();
            for b in pre.bytes() { let e = self.e.cx.k(8, b as u64); self.e.env_bytes.push(e); }
            if dig {
                // digits only: the byte is '0' plus a value below ten
                for i in pre.len() as u64..mx {
                    let b = self.e.cx.var(&format!("env_digit{}", i), 8, 0);
                    self.e.cx.bounds.insert(b, (0, 9));
                    let z = self.e.cx.k(8, b'0' as u64);
                    let b = self.e.cx.bin(Bin::Add, b, z);
                    self.e.env_bytes.push(b);
                }
            }
            if !pre.is_empty() {
                let e = self.e.cx.k(64, mx);
                let c = self.e.cx.cmp(IPred::Eq, l, e);
                self.e.pre.push(c);
            }
            let lim = self.e.cx.k(64, mx);
            let big = self.e.cx.k(64, u64::MAX - 1);
            let c1 = self.e.cx.cmp(IPred::Ule, l, lim);
            let c2 = self.e.cx.cmp(IPred::Ule, big, l);
            let c = self.e.cx.or(c1, c2);
            self.e.pre.push(c);
        }
        if sc.calls[0].f.starts_with('!') { self.run_probe(st, sc); return; }
        let mut infos: Vec<CallInfo> = vec![];
        match self.setup(&mut st, 0, sc, &[]) {
            Some(i) => infos.push(i),
            None => { self.e.inconclusive.push(format!("entry point of {} is missing", sc.calls[0].f)); return; }
        }
        // later calls' arguments are created up front so that all paths share them
        let nobj0 = st.objs.len();
        let _ = nobj0;
        let mut later: Vec<Frame> = vec![];
        let bz0 = self.e.beta_zero;
        let mut bzs = vec![bz0];
        for ci in 1..sc.calls.len() {
            match self.setup(&mut st, ci, sc, &infos) {
                Some(i) => { infos.push(i); later.push(st.frames.pop().unwrap()); bzs.push(self.e.beta_zero); }
                None => { self.e.inconclusive.push("entry point is missing".into()); return; }
            }
        }
        st.call = 0;
        for o in &sc.only {
            let c = match o.as_str() {
                "t32" => continue,
                "b0" => bz0.unwrap(),
                "b1" => { let b = bz0.unwrap(); self.e.cx.not(b) }
                x => match self.e.feat.get(&x[1..]).copied() {
                    Some(c) => if x.starts_with('+') { c } else { self.e.cx.not(c) },
                    None => continue,
                }
            };
            self.e.pre.push(c);
            // what is known of the scalars is a fact about the operands as well
            if o == "b0" || o == "b1" { self.e.add_fact(&mut st, c); }
        }
        self.e.beta_zero = bz0;
        self.e.work.push(st);
        let mut ends: Vec<PathEnd> = vec![];
        let mut npaths = 0u64;
        let total = sc.calls.len();
        let spec = if self.want.cap { self.e.prog.fmap.get("h_spec_threads").copied() } else { None };
        if self.want.cap && spec.is_none() { self.e.inconclusive.push("no specification of the thread count in this build".into()); }
        while let Some(mut s) = self.e.work.pop() {
            self.e.activate(&s);
            npaths += 1;
            if npaths > self.maxpaths {
                self.e.inconclusive.push(format!("more than {} paths in {}", self.maxpaths, sc.label()));
                self.e.work.clear();
                break;
            }
            let mut done = 0;
            loop {
                self.e.beta_zero = bzs.get(s.call as usize).copied().flatten();
                match self.e.run(&mut s) {
                    Next::Finished => {
                        done = s.call as usize + 1;
                        if done == total && spec.is_some() {
                            // what the specification says on the same environment
                            s.call = done as u16;
                            s.ret = None;
                            s.env_other = false;
                            self.e.push_frame(&mut s, spec.unwrap(), vec![], u32::MAX, RetK::Top);
                            continue;
                        }
                        if done > total { done = total; break; }
                        if done < total {
                            s.call = done as u16;
                            s.maxconc = 1;
                            if sc.calls[done].f.starts_with('~') {
                                for (o, m) in [(infos[done].a, &infos[done].ma), (infos[done].b, &infos[done].mb)] {
                                    let ob = Rc::make_mut(&mut s.objs[o as usize]);
                                    ob.mat = Some(m.clone());
                                    ob.data = None;
                                }
                            }
                            let fr = later[done - 1].clone();
                            let f = fr.f;
                            s.frames.push(fr);
                            if self.e.opts.check_features { let _ = f; }
                            continue;
                        }
                        break;
                    }
                    _ => { done = s.call as usize; break; }
                }
            }
            if let Some(d) = self.e.deadline { if std::time::Instant::now() > d { if !self.e.inconclusive.iter().any(|x| x == "time budget") { self.e.inconclusive.push("time budget".into()); } self.e.work.clear(); } }
            let pe = self.path_end(s, done, &infos, sc);
            if let Some(p) = pe { ends.push(p); }
        }
        self.tot.paths += npaths;
        self.e.stats.paths += npaths;
        self.tot.alloc_error_paths += self.e.alloc_error_paths;
        self.tot.race_checks += self.e.race_checks;
        self.compare(&ends, &infos, sc);
    }

    /// a harness function without arguments that must return 1 on every path on which it returns
    fn run_probe(&mut self, mut st: State, sc: &Scen) {
        let f = match self.e.prog.fmap.get(&sc.calls[0].f[1..]).copied() { Some(f) => f, None => { self.e.inconclusive.push(format!("{} is not in this build", &sc.calls[0].f[1..])); return; } };
        st.call = 0;
        self.e.beta_zero = None;
        self.e.push_frame(&mut st, f, vec![], u32::MAX, RetK::Top);
        self.e.work.push(st);
        let mut npaths = 0u64;
        while let Some(mut s) = self.e.work.pop() {
            self.e.activate(&s);
            npaths += 1;
            if npaths > self.maxpaths { self.e.inconclusive.push(format!("more than {} paths in {}", self.maxpaths, sc.label())); self.e.work.clear(); break; }
            let fin = matches!(self.e.run(&mut s), Next::Finished);
            if let Some(d) = self.e.deadline { if std::time::Instant::now() > d { if !self.e.inconclusive.iter().any(|x| x == "time budget") { self.e.inconclusive.push("time budget".into()); } self.e.work.clear(); } }
            let ret = s.ret.clone();
            if fin {
                self.tot.probe_returns += 1;
                match ret {
                    Some(v) => {
                        let x = self.e.to_e(&v, 64);
                        let x = self.e.cx.subst(s.sig, x);
                        let one = self.e.cx.k(64, 1);
                        let bad = self.e.cx.cmp(IPred::Ne, x, one);
                        self.tot.probe_q += 1;
                        if self.e.cx.as_const(bad) != Some(0) && !self.full() {
                            if let Some(m) = self.confirm(&s, &[], &[bad]) {
                                let code = self.e.eval_def(&m, x).unwrap_or(0);
                                self.report(&s, &[], sc, "probe", format!("{} reports {}", &sc.calls[0].f[1..], code), String::new(), &m, vec![("code".into(), code.to_string())]);
                            }
                        }
                    }
                    None => self.e.inconclusive.push("a probe returned nothing".into()),
                }
            }
            self.path_end(s, 0, &[], sc);
        }
        self.tot.paths += npaths;
        self.e.stats.paths += npaths;
    }

    fn path_end(&mut self, st: State, done: usize, infos: &[CallInfo], sc: &Scen) -> Option<PathEnd> {
        let finished = done >= sc.calls.len();
        let done = done.min(sc.calls.len());
        // events
        let evs = st.events.clone();
        for ev in evs.iter() {
            if !self.kinds.is_empty() && !self.kinds.iter().any(|k| k == ev.kind) { continue; }
            if self.viols.iter().filter(|v| v.kind == ev.kind && v.loc == ev.loc).count() >= 3 { continue; }
            match self.confirm(&st, infos, &ev.cond) {
                Some(m) => self.report(&st, infos, sc, ev.kind, ev.what.clone(), ev.loc.clone(), &m, vec![("call".into(), format!("{}", ev.call))]),
                None => self.tot.events_dismissed += 1,
            }
        }
        if std::env::var("MMDEBUG").is_ok() { eprintln!("PATH {}", st.facts.iter().map(|f| self.e.cx.show(*f)).collect::<Vec<_>>().join(" && ")); }
        if !finished { return None; }
        // is the path compatible with a non-aliasing C at all?
        let mut res = vec![];
        for (ci, info) in infos.iter().enumerate() {
            let r = self.check_call(&st, ci, info, infos, sc);
            res.push(r?);
        }
        if self.want.leak { self.leaks(&st, infos, sc); }
        if self.traces.len() < self.trace_max && infos.len() == 1 && st.maxconc <= 1 { self.trace(&st, infos, sc); }
        if st.maxconc > 1 { self.tot.thread_paths += 1; }
        self.tot.max_conc = self.tot.max_conc.max(st.maxconc as u64);
        let mut other = vec![];
        let mut drop: FxSet<E> = self.layout_vars(infos);
        if !self.want.layout { drop.clear(); }
        for i in infos { for (n, v) in &i.vars { if n.starts_with("base") { drop.insert(*v); } } }
        for b in self.e.basemap.keys() { drop.insert(*b); }
        for v in [self.e.ncpu, self.e.ncpu_log, self.e.env_len] { if let Some(v) = v { drop.insert(v); } }
        for v in &self.e.env_bytes { drop.insert(*v); }
        for f in st.facts.iter() {
            let mut ls = vec![];
            self.e.leaves(*f, &mut ls);
            if !ls.iter().any(|l| drop.contains(l)) { other.push(*f); }
        }
        let mut caps = vec![];
        if self.want.cap {
            if let Some(v) = st.ret.clone() {
                let x = self.e.to_e(&v, 64);
                let x = self.e.cx.subst(st.sig, x);
                for t in 0..=64u64 {
                    let k = self.e.cx.k(64, t);
                    let c = self.e.cx.cmp(IPred::Eq, x, k);
                    if self.e.feasible(&st, c).0 { caps.push((t, c)); }
                }
                self.tot.cap_checks += 1;
                for (t, c) in &caps {
                    if (st.maxconc as u64) > *t && !self.full() {
                        if let Some(m) = self.confirm(&st, infos, &[*c]) {
                            let w = format!("{} tasks run at the same time where at most {} may", st.maxconc, t);
                            self.report(&st, infos, sc, "cap", w, String::new(), &m, vec![("allowed".into(), t.to_string()), ("used".into(), st.maxconc.to_string())]);
                        }
                    }
                }
                if caps.is_empty() { self.e.inconclusive.push("the thread specification allows nothing on a path".into()); }
            } else { self.e.inconclusive.push("the thread specification gave no answer".into()); }
        }
        if self.want.prev && infos.len() > 1 {
            for ci in 1..infos.len() {
                let si = infos[ci].scal as usize;
                if si == ci { continue; }
                self.tot.seq_checks += 1;
                if let Some(d) = res[si].iter().zip(res[ci].iter()).position(|(p, q): (&T, &T)| p != q) {
                    if self.full() { break; }
                    let n = infos[ci].d[2].max(1);
                    let parts = if infos[ci].cplx { 2 } else { 1 };
                    let cell = (d / parts) as u64;
                    if let Some(m) = self.confirm(&st, infos, &[]) {
                        let w = format!("element ({},{}) of C: the same call gave {} first and {} after other calls", cell / n, cell % n, self.e.cx.showt(res[si][d]).chars().take(300).collect::<String>(), self.e.cx.showt(res[ci][d]).chars().take(300).collect::<String>());
                        self.report(&st, infos, sc, "history", w, String::new(), &m, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", cell / n, cell % n))]);
                    }
                }
            }
        }
        Some(PathEnd { st, res, done, other, caps })
    }
    /// one concrete run through this path, with the result the executor predicts bit by bit
    fn trace(&mut self, st: &State, infos: &[CallInfo], sc: &Scen) {
        let info = &infos[0];
        let [m, k, n] = info.d;
        if m * n == 0 || m * n > 400 || m * n * k > 30_000 { return; }
        self.trace_tick += 1;
        // spread over the run: paths 1, 2, 4, 7, 11, ...
        let t = self.traces.len() as u64;
        if self.trace_tick < 1 + t * (t + 1) * 40 { return; }
        let mm = match self.confirm(st, infos, &[]) { Some(m) => m, None => return };
        let sig = st.sig;
        let mut sv = FxMap::default();
        for (nm, v) in &info.vars { let v = self.e.cx.subst(sig, *v); let x = self.e.eval_def(&mm, v).unwrap_or(0); sv.insert(nm.clone(), x); }
        // element whose value a location holds, given the model's strides
        let rep = |rs: u64, cs: u64, rows: u64, cols: u64| -> Vec<u64> {
            let mut first: FxMap<u64, u64> = Default::default();
            let mut v = vec![];
            for i in 0..rows { for j in 0..cols {
                let o = rs.wrapping_mul(i).wrapping_add(cs.wrapping_mul(j));
                v.push(*first.entry(o).or_insert(i * cols + j));
            } }
            v
        };
        let ra = rep(sv["rsa"], sv["csa"], m, k);
        let rb = rep(sv["rsb"], sv["csb"], k, n);
        if info.balias > 0 { return; }
        let dbl = info.dbl;
        let mut outs = vec![];
        for cell in 0..(m * n) as u32 { for p in 0..if info.cplx { 2 } else { 1u8 } { let t = self.e.c_value(st, info.c, cell, p); outs.push(t); } }
        for (al, be) in [(0.75, 0.625), (0.75, 0.0), (0.75, 1.0), (1.0, 0.625), (1.0, 1.0), (1.0, 0.0), (0.0, 0.625), (0.0, 1.0), (0.0, 0.0), (-1.0, 0.5), (0.75, -1.0)] {
            let al2 = [al, if info.cplx { if al == 0.75 { -0.375 } else { 0.0 } } else { 0.0 }];
            let be2 = [be, if info.cplx { if be == 0.625 { 0.25 } else { 0.0 } } else { 0.0 }];
            let leaf = |cls: Cls, idx: u32, part: u8| -> Option<f64> {
                Some(match cls {
                    Cls::A => datum(0, ra[idx as usize], part, dbl),
                    Cls::B => datum(1, rb[idx as usize], part, dbl),
                    Cls::C => datum(2, idx as u64, part, dbl),
                    Cls::Alpha => al2[part as usize],
                    Cls::Beta => be2[part as usize],
                    _ => return None,
                })
            };
            let mut ev = FEval { cx: &self.e.cx, m: &mm, leaf: &leaf, memo: Default::default() };
            let mut ok = true;
            for f in st.facts.iter() {
                if self.e.cx.emask(*f) == 0 { continue; }
                if ev.e(*f) != Some(1) { ok = false; break; }
            }
            if !ok { continue; }
            let mut bits = vec![];
            for t in &outs {
                match ev.t(*t) { Some(v) => bits.push(if dbl { format!("{:x}", v.to_bits()) } else { format!("{:x}", (v as f32).to_bits()) }), None => return }
            }
            drop(ev);
            let mut o = String::new();
            o.push_str(&format!("{{\"scen\": {}, \"f\": {}, \"m\": {}, \"k\": {}, \"n\": {}", jstr(&sc.label()), jstr(&sc.calls[0].f), m, k, n));
            for (nm, _) in &info.vars { o.push_str(&format!(", {}: \"{}\"", jstr(nm), sv[nm] as i64)); }
            for i in 0..self.e.cachevars.len() { let v = self.e.cachevars[i]; let x = self.e.eval_def(&mm, v).unwrap_or(0); o.push_str(&format!(", \"cpu{}\": \"{}\"", i, x)); }
            o.push_str(&format!(", \"alpha\": [{:?}, {:?}], \"beta\": [{:?}, {:?}], \"bits\": \"{}\"}}", al2[0], al2[1], be2[0], be2[1], bits.join(" ")));
            self.traces.push(o);
            return;
        }
    }
    fn layout_vars(&mut self, infos: &[CallInfo]) -> FxSet<E> {
        let mut s: FxSet<E> = Default::default();
        for i in infos { for (_, v) in &i.vars { s.insert(*v); } }
        s
    }

    /// role-mapped terms of one call's result, with the requested obligations discharged
    fn check_call(&mut self, st: &State, ci: usize, info: &CallInfo, infos: &[CallInfo], sc: &Scen) -> Option<Vec<T>> {
        let [m, k, n] = info.d;
        let parts = if info.cplx { 2 } else { 1u8 };
        let sig = st.sig;
        // canonical element numbers under the final substitution
        let canon = |s: &mut Runner, mt: &Rc<Mat>| -> Vec<u32> {
            let mut v = Vec::with_capacity((mt.rows * mt.cols) as usize);
            if mt.rows * mt.cols == 0 { return v; }
            for i in 0..mt.rows { for j in 0..mt.cols { v.push(s.e.canon_idx(sig, mt, i, j)); } }
            v
        };
        let ca = canon(self, &info.ma);
        let mut cb = canon(self, &info.mb);
        let al2 = info.balias;
        if al2 > 0 {
            // B's elements are elements of A
            for t in 0..k { for j in 0..n { cb[(t * n + j) as usize] = ca[if al2 == 1 { t * k + j } else { j * k + t } as usize]; } }
        }
        let cb = cb;
        let cc = canon(self, &info.mc);
        // aliasing elements of C on this path: not a valid call
        if cc.iter().enumerate().any(|(i, c)| *c as usize != i) { return None; }
        let zero = self.e.cx.tk(info.dbl, 0);
        let mut bz = self.e.cx.fcmp(FPred::Oeq, info.beta[0], zero);
        if info.cplx { let y = self.e.cx.fcmp(FPred::Oeq, info.beta[1], zero); bz = self.e.cx.and(bz, y); }
        let bz_here = { let b = self.e.cx.subst(sig, bz); self.e.feasible(st, b).0 };
        if bz_here { self.tot.beta0_paths += 1; }
        let mut out = Vec::with_capacity((m * n) as usize * parts as usize);
        let mut brow: Vec<u32> = vec![];
        for i in 0..m {
            if let Some(d) = self.e.deadline {
                if std::time::Instant::now() > d {
                    if !self.e.inconclusive.iter().any(|x| x == "time budget") { self.e.inconclusive.push("time budget".into()); }
                    return None;
                }
            }
            // row map of A: canonical element -> product number
            let mut amap: FxMap<u32, u32> = Default::default();
            for t in 0..k { let c = ca[(i * k + t) as usize]; amap.entry(c).or_insert(if al2 > 0 { c } else { t as u32 }); }
            for j in 0..n {
                let mut bmap: FxMap<u32, u32> = Default::default();
                for t in 0..k { let c = cb[(t * n + j) as usize]; bmap.entry(c).or_insert(if al2 > 0 { c } else { t as u32 }); }
                brow.clear();
                let cell = (i * n + j) as u32;
                let call = ci as u16;
                let scal = info.scal;
                let (ca2, cb2) = (&ca, &cb);
                let f = |t: &Tm| -> Option<(Cls, u32)> {
                    if let Tm::Leaf { cls, call: c, idx, .. } = t {
                        if *c == scal && matches!(cls, Cls::Alpha | Cls::Beta) { return Some((*cls, 0)); }
                        if *c != call { return Some((Cls::Other, 1_000_000 + (*cls as u32) * 4_000_000 + *idx + 40_000_000 * (*c as u32 + 1))); }
                        match cls {
                            Cls::A if al2 > 0 => Some((Cls::A, ca2[*idx as usize])),
                            Cls::A => match amap.get(&ca2[*idx as usize]) { Some(t) => Some((Cls::A, *t)), None => Some((Cls::Other, 5_000_000 + *idx)) },
                            Cls::B => match bmap.get(&cb2[*idx as usize]) { Some(t) => Some((Cls::B, *t)), None => Some((Cls::Other, 9_000_000 + *idx)) },
                            Cls::C => if *idx == cell { Some((Cls::C, 0)) } else { Some((Cls::Other, 13_000_000 + *idx)) },
                            Cls::Alpha => Some((Cls::Alpha, 0)),
                            Cls::Beta => Some((Cls::Beta, 0)),
                            Cls::Junk => Some((Cls::Junk, *idx)),
                            Cls::Other => Some((Cls::Other, 17_000_000 + *idx)),
                        }
                    } else { None }
                };
                let mut memo: FxMap<T, T> = Default::default();
                let mut terms = vec![];
                for p in 0..parts {
                    let t = self.e.c_value(st, info.c, cell, p);
                    let r = self.rewrite(t, &f, &mut memo);
                    terms.push(r);
                    out.push(r);
                }
                self.tot.cells += 1;
                if self.want.written && bz_here {
                    self.tot.written_checks += 1;
                    let d = &st.objs[info.c as usize].data;
                    for p in 0..parts {
                        let un = d.as_ref().map_or(true, |d| d[cell as usize * parts as usize + p as usize] == u32::MAX);
                        if un && !self.full() {
                            if let Some(mm) = self.confirm(st, infos, &[bz]) {
                                self.report(st, infos, sc, "unwritten", format!("element ({},{}) of C is not written although beta is zero", i, j), String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j))]);
                            }
                        }
                    }
                }
                if !(self.want.func || self.want.iso || self.want.prop || self.want.depth) { continue; }
                // float facts of the path in terms of the roles
                let mut ff: Vec<E> = vec![];
                for fct in st.facts.iter() {
                    if self.e.cx.emask(*fct) != 0 {
                        let g = self.rewrite_e(*fct, &f, &mut memo);
                        if self.e.cx.as_const(g).is_none() { ff.push(g); }
                    }
                }
                ff.sort();
                ff.dedup();
                if self.want.iso && al2 == 0 {
                    self.tot.iso_checks += 1;
                    for p in 0..parts as usize {
                        let t = terms[p];
                        if self.e.cx.tmask[t as usize] & (1 << Cls::Other as u8 | 1 << Cls::Junk as u8) != 0 && !self.full() {
                            // the solver decides whether the foreign operand can matter
                            let w = self.e.cx.showt(t);
                            if let Some(mm) = self.confirm(st, infos, &[]) {
                                self.report(st, infos, sc, "foreign", format!("element ({},{}) of C depends on data outside row {} of A, column {} of B and itself: {}", i, j, i, j, w.chars().take(400).collect::<String>()), String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j))]);
                            }
                        }
                    }
                }
                let al: Vec<T> = (0..parts).map(|p| self.e.cx.leaf(info.dbl, Cls::Alpha, 100, 0, p)).collect();
                let be: Vec<T> = (0..parts).map(|p| self.e.cx.leaf(info.dbl, Cls::Beta, 100, 0, p)).collect();
                if self.want.func {
                    let exp = self.expected(info, &amap, &bmap, &ca, &cb, i, j, &al, &be);
                    for p in 0..parts as usize {
                        self.tot.func_q += 1;
                        let r = self.equal(terms[p], exp[p], &ff);
                        if let Some(vals) = r {
                            if self.full() { continue; }
                            if let Some(mm) = self.confirm(st, infos, &[]) {
                                let w = format!("element ({},{}){} of C: computed {} instead of {}", i, j, if info.cplx { if p == 0 { " real part" } else { " imaginary part" } } else { "" }, self.e.cx.showt(terms[p]).chars().take(500).collect::<String>(), self.e.cx.showt(exp[p]).chars().take(500).collect::<String>());
                                let vs = if al2 > 0 { String::new() } else { vals.iter().filter_map(|(t, v)| self.leaf_value(*t, v)).take(400).collect::<Vec<_>>().join(";") };
                                self.report(st, infos, sc, "value", w, String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j)), ("values".into(), vs)]);
                            }
                        }
                    }
                }
                if self.want.depth && al2 == 0 {
                    let bound = if info.cplx { 2 * (k + 4) + 4 } else { k + 4 };
                    for p in 0..parts as usize {
                        self.tot.depth_q += 1;
                        let ok = self.depth_ok(terms[p], info.dbl, bound);
                        if !ok && !self.full() {
                            if let Some(mm) = self.confirm(st, infos, &[]) {
                                let w = format!("element ({},{}) of C: a term is rounded more than {} times or in lower precision: {}", i, j, bound, self.e.cx.showt(terms[p]).chars().take(500).collect::<String>());
                                self.report(st, infos, sc, "rounding", w, String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j))]);
                            }
                        }
                    }
                    let exp = self.expected(info, &amap, &bmap, &ca, &cb, i, j, &al, &be);
                    for p in 0..parts as usize {
                        self.tot.depth_q += 1;
                        if let Some(vals) = self.weight_ok(terms[p], &exp, info.dbl, bound, &ff) {
                            if self.full() { continue; }
                            if let Some(mm) = self.confirm(st, infos, &[]) {
                                let w = format!("element ({},{}) of C: operands enter with more weight than their products have, the error is not bounded by {} roundings of the sum of magnitudes: {}", i, j, bound, self.e.cx.showt(terms[p]).chars().take(500).collect::<String>());
                                let vs = vals.iter().filter_map(|(t, v)| self.leaf_value(*t, v)).take(400).collect::<Vec<_>>().join(";");
                                self.report(st, infos, sc, "rounding", w, String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j)), ("values".into(), vs)]);
                            }
                        }
                    }
                }
                if self.want.prop && k > 0 && al2 == 0 {
                    // every operand that counts, NaN or infinite, makes the result NaN or non-finite
                    let nbz = self.e.cx.not(bz);
                    let old_counts = !bz_here || { let b = self.e.cx.subst(sig, nbz); !st.facts.contains(&bz) && self.e.feasible(st, b).0 };
                    for p in 0..parts as usize {
                        let mut ops: Vec<T> = vec![];
                        for t in 0..k {
                            let (x, y) = (amap[&ca[(i * k + t) as usize]], bmap[&cb[(t * n + j) as usize]]);
                            for q in 0..parts {
                                ops.push(self.e.cx.leaf(info.dbl, Cls::A, 100, x, q));
                                ops.push(self.e.cx.leaf(info.dbl, Cls::B, 100, y, q));
                            }
                        }
                        for q in 0..parts { ops.push(self.e.cx.leaf(info.dbl, Cls::Alpha, 100, 0, q)); }
                        let mut oldops = vec![];
                        if old_counts {
                            for q in 0..parts { oldops.push(self.e.cx.leaf(info.dbl, Cls::C, 100, 0, q)); oldops.push(self.e.cx.leaf(info.dbl, Cls::Beta, 100, 0, q)); }
                        }
                        for mode in 0..2u8 {
                            self.tot.prop_q += 1;
                            let ok = self.propagates(terms[p], &ops, &oldops, &ff, mode, &be);
                            if !ok && !self.full() {
                                if let Some(mm) = self.confirm(st, infos, &[]) {
                                    let w = format!("element ({},{}) of C: {} of an operand can be lost: {}", i, j, if mode == 0 { "a NaN" } else { "an infinity" }, self.e.cx.showt(terms[p]).chars().take(500).collect::<String>());
                                    self.report(st, infos, sc, "special", w, String::new(), &mm, vec![("call".into(), format!("{}", ci)), ("cell".into(), format!("{},{}", i, j)), ("mode".into(), format!("{}", mode))]);
                                }
                            }
                        }
                    }
                }
            }
        }
        Some(out)
    }
    /// "A call index part value" of an operand leaf
    fn leaf_value(&self, t: T, v: &str) -> Option<String> {
        match self.e.cx.tm[t as usize] {
            Tm::Leaf { cls, call, idx, part, .. } => {
                let c = match cls { Cls::A => 'A', Cls::B => 'B', Cls::C => 'C', Cls::Alpha => 'a', Cls::Beta => 'b', _ => return None };
                Some(format!("{} {} {} {} {}", c, call, idx, part, v))
            }
            _ => None,
        }
    }
    fn full(&self) -> bool {
        self.viols.len() >= 8
    }
    fn expected(&mut self, info: &CallInfo, amap: &FxMap<u32, u32>, bmap: &FxMap<u32, u32>, ca: &[u32], cb: &[u32], i: u64, j: u64, al: &[T], be: &[T]) -> Vec<T> {
        let [_, k, n] = info.d;
        let dbl = info.dbl;
        let mut acc: Vec<Option<T>> = vec![None; if info.cplx { 2 } else { 1 }];
        let addto = |s: &mut Runner, a: Option<T>, x: T| Some(match a { None => x, Some(y) => s.e.cx.fadd(y, x) });
        for t in 0..k {
            let (x, y) = (amap[&ca[(i * k + t) as usize]], bmap[&cb[(t * n + j) as usize]]);
            let bcls = if info.balias > 0 { Cls::A } else { Cls::B };
            let ar = self.e.cx.leaf(dbl, Cls::A, 100, x, 0);
            let br = self.e.cx.leaf(dbl, bcls, 100, y, 0);
            let rr = self.e.cx.fmul(ar, br);
            if info.cplx {
                let ai = self.e.cx.leaf(dbl, Cls::A, 100, x, 1);
                let bi = self.e.cx.leaf(dbl, bcls, 100, y, 1);
                let ii = self.e.cx.fmul(ai, bi);
                let re = self.e.cx.fsub(rr, ii);
                let (u, v) = (self.e.cx.fmul(ar, bi), self.e.cx.fmul(ai, br));
                let im = self.e.cx.fadd(u, v);
                acc[0] = addto(self, acc[0], re);
                acc[1] = addto(self, acc[1], im);
            } else {
                acc[0] = addto(self, acc[0], rr);
            }
        }
        let c: Vec<T> = (0..acc.len() as u8).map(|p| self.e.cx.leaf(dbl, Cls::C, 100, 0, p)).collect();
        if info.cplx {
            let cmul = |s: &mut Runner, a: [T; 2], b: [T; 2]| -> [T; 2] {
                let (p, q, r, t) = (s.e.cx.fmul(a[0], b[0]), s.e.cx.fmul(a[1], b[1]), s.e.cx.fmul(a[0], b[1]), s.e.cx.fmul(a[1], b[0]));
                [s.e.cx.fsub(p, q), s.e.cx.fadd(r, t)]
            };
            let bc = cmul(self, [be[0], be[1]], [c[0], c[1]]);
            match (acc[0], acc[1]) {
                (Some(x), Some(y)) => {
                    let ab = cmul(self, [al[0], al[1]], [x, y]);
                    vec![self.e.cx.fadd(ab[0], bc[0]), self.e.cx.fadd(ab[1], bc[1])]
                }
                _ => bc.to_vec(),
            }
        } else {
            let bc = self.e.cx.fmul(be[0], c[0]);
            match acc[0] {
                Some(x) => { let y = self.e.cx.fmul(al[0], x); vec![self.e.cx.fadd(y, bc)] }
                None => vec![bc],
            }
        }
    }
    /// None: equal in exact arithmetic for all finite operands satisfying `ff`; Some(values): a counterexample
    fn equal(&mut self, a: T, b: T, ff: &[E]) -> Option<Rc<Vec<(T, String)>>> {
        if a == b { return None; }
        let key = (a, b, ff.to_vec());
        if let Some(r) = self.fcache.get(&key) { return r.clone(); }
        self.tot.func_distinct += 1;
        // first without the path's facts about operands (except those that fix one): unsat there is unsat with them
        let mut enc = Enc::new();
        enc.nonan = true;
        enc.t(&self.e.cx, a);
        enc.t(&self.e.cx, b);
        for f in ff {
            if let Ex::FCmp { p: FPred::Oeq, a: x, b: y } = self.e.cx.ex[*f as usize] {
                if self.e.cx.is_simple(x) && self.e.cx.is_simple(y) {
                    enc.t(&self.e.cx, x);
                    enc.t(&self.e.cx, y);
                    enc.body.push_str(&format!("(assert (= t{} t{}))\n", x, y));
                }
            }
        }
        let mut fast = false;
        if !enc.inexact && !enc.has_ite {
            enc.body.push_str(&format!("(assert (not (= 0.0 (- t{} t{}))))\n", a, b));
            let (s, _) = self.e.smt.check_with(&enc.body, &[], "(check-sat-using (then simplify solve-eqs (using-params simplify :som true :som_blowup 1000000) (try-for smt 3000)))");
            fast = s == Sat::Unsat;
        }
        if fast {
            self.fcache.insert(key, None);
            return None;
        }
        let mut enc = Enc::new();
        enc.t(&self.e.cx, a);
        enc.t(&self.e.cx, b);
        for f in ff { enc.assert(&self.e.cx, *f); }
        for (n, _) in enc.twant.clone() {
            let nn = format!("n{}", &n[1..]);
            enc.body.push_str(&format!("(assert (not {}))\n", nn));
        }
        enc.body.push_str(&format!("(assert (not (= t{} t{})))\n", a, b));
        let wants: Vec<String> = enc.twant.iter().map(|x| x.0.clone()).collect();
        let (s, vals) = self.e.smt.check_with(&enc.body, &wants, "(check-sat-using (then simplify solve-eqs (using-params simplify :som true :som_blowup 1000000) (try-for smt 15000)))");
        let (s, vals) = if s == Sat::Unknown { self.e.smt.check(&enc.body, &wants) } else { (s, vals) };
        let r = match s {
            Sat::Unsat => self.rounded_facts(a, b, ff),
            Sat::Sat => { let m = enc.model(&vals); Some(Rc::new(m.reals.iter().map(|(k, v)| (*k, v.clone())).collect())) }
            Sat::Unknown => {
                self.e.inconclusive.push("solver answered unknown on a value obligation".into());
                None
            }
        };
        self.fcache.insert(key, r.clone());
        r
    }
    /// rounding count of every operand product stays within the bound and no operation is narrower than the element
    fn depth_ok(&mut self, t: T, dbl: bool, bound: u64) -> bool {
        if let Some(&r) = self.dcache.get(&(t, bound)) { return r; }
        let mut body = String::new();
        let mut done: FxSet<T> = Default::default();
        let mut stack = vec![(t, false)];
        while let Some((x, ready)) = stack.pop() {
            if done.contains(&x) { continue; }
            let tm = self.e.cx.tm[x as usize];
            if !ready {
                stack.push((x, true));
                match tm {
                    Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => stack.push((a, false)),
                    Tm::Fma(a, b, c) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
                    Tm::Ite(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    _ => {}
                }
                continue;
            }
            done.insert(x);
            // an operation narrower than the element type counts as unboundedly many roundings
            let narrow = dbl && !self.e.cx.tdbl[x as usize];
            let one = if narrow { "1000000" } else { "1" };
            // products with several operands each rounded: roundings of the factors add up
            let s = match tm {
                Tm::Const { .. } | Tm::Leaf { .. } => "0".to_string(),
                Tm::Neg(a) => format!("d{}", a),
                Tm::Ext(a) => format!("(+ d{} {})", a, if dbl { "1000000" } else { "0" }),
                Tm::Tru(a) => format!("(+ d{} {})", a, one),
                Tm::Add(a, b) => format!("(+ {} (ite (> d{} d{}) d{} d{}))", one, a, b, a, b),
                Tm::Mul(a, b) | Tm::Div(a, b) => format!("(+ {} d{} d{})", one, a, b),
                Tm::Fma(a, b, c) => format!("(+ {} (let ((p (+ d{} d{}))) (ite (> p d{}) p d{})))", one, a, b, c, c),
                Tm::Ite(_, a, b) => format!("(ite (> d{} d{}) d{} d{})", a, b, a, b),
                _ => "1000000".to_string(),
            };
            body.push_str(&format!("(define-fun d{} () Int {})\n", x, s));
        }
        body.push_str(&format!("(assert (> d{} {}))\n", t, bound));
        let (s, _) = self.e.smt.check(&body, &[]);
        let ok = match s { Sat::Unsat => true, Sat::Sat => false, Sat::Unknown => { self.e.inconclusive.push("solver answered unknown on a rounding obligation".into()); true } };
        self.dcache.insert((t, bound), ok);
        ok
    }
    /// The path compares computed values, and equality above needed what those comparisons say of exact ones. The comparisons see rounded values (a square can
    /// underflow to zero), so: for each operand in them a floating-point model with that operand not zero, and the exact query again at these values.
    fn rounded_facts(&mut self, a: T, b: T, ff: &[E]) -> Option<Rc<Vec<(T, String)>>> {
        let mut ops: Vec<T> = vec![];
        let mut leaves: FxSet<T> = Default::default();
        let mut simple = true;
        let mut fp = String::new();
        let (mut de, mut dt): (FxSet<E>, FxSet<T>) = Default::default();
        for f in ff {
            if !self.fp_fact(*f, &mut fp, &mut de, &mut dt, &mut leaves, &mut simple) { return None; }
            fp.push_str(&format!("(assert e{f})\n"));
        }
        if simple || leaves.len() > 8 { return None; }
        ops.extend(leaves.iter().copied());
        ops.sort();
        for (l, large) in ops.iter().flat_map(|l| [(l, true), (l, false)]) {
            let mut body = fp.clone();
            for x in &ops { body.push_str(&format!("(assert (not (or (fp.isNaN t{x}) (fp.isInfinite t{x}))))\n")); }
            body.push_str(&format!("(assert (not (fp.isZero t{l})))\n"));
            if large {
                // far from the subnormal range
                let c = if self.e.cx.tdbl[*l as usize] { format!("((_ to_fp 11 53) #x{:016x})", 1e-200f64.to_bits()) } else { format!("((_ to_fp 8 24) #x{:08x})", 1e-25f32.to_bits()) };
                body.push_str(&format!("(assert (fp.gt (fp.abs t{l}) {c}))\n"));
            }
            let want: Vec<String> = ops.iter().map(|x| format!("b{x}")).collect();
            let (s, vals) = self.e.smt.check(&body, &want);
            if s != Sat::Sat { continue; }
            let mut enc = Enc::new();
            enc.nonan = true;
            enc.t(&self.e.cx, a);
            enc.t(&self.e.cx, b);
            let mut at = vec![];
            for (x, (_, v)) in ops.iter().zip(&vals) {
                let dbl = self.e.cx.tdbl[*x as usize];
                let r = match parse_bv(v).and_then(|v| Enc::rat(v, dbl)) { Some(r) => r, None => continue };
                enc.t(&self.e.cx, *x);
                enc.body.push_str(&format!("(assert (= t{x} {r}))\n"));
                at.push((*x, r));
            }
            enc.body.push_str(&format!("(assert (not (= t{} t{})))\n", a, b));
            let wants: Vec<String> = enc.twant.iter().map(|x| x.0.clone()).collect();
            let (s, vals) = self.e.smt.check(&enc.body, &wants);
            if s == Sat::Sat {
                let m = enc.model(&vals);
                let mut out: Vec<(T, String)> = m.reals.iter().filter(|(k, _)| !leaves.contains(k)).map(|(k, v)| (*k, v.clone())).collect();
                out.extend(at);
                return Some(Rc::new(out));
            }
        }
        None
    }
    /// a fact about operands in floating point; false: not expressible
    fn fp_fact(&self, e: E, out: &mut String, de: &mut FxSet<E>, dt: &mut FxSet<T>, leaves: &mut FxSet<T>, simple: &mut bool) -> bool {
        if de.contains(&e) { return true; }
        let s = match &self.e.cx.ex[e as usize] {
            Ex::Not(a) => { if !self.fp_fact(*a, out, de, dt, leaves, simple) { return false; } format!("(not e{a})") }
            Ex::And(a, b) => { if !self.fp_fact(*a, out, de, dt, leaves, simple) || !self.fp_fact(*b, out, de, dt, leaves, simple) { return false; } format!("(and e{a} e{b})") }
            Ex::Or(a, b) => { if !self.fp_fact(*a, out, de, dt, leaves, simple) || !self.fp_fact(*b, out, de, dt, leaves, simple) { return false; } format!("(or e{a} e{b})") }
            Ex::FCmp { p, a, b } => {
                let (a, b) = (*a, *b);
                if !self.e.cx.is_simple(a) || !self.e.cx.is_simple(b) { *simple = false; }
                if !self.fp_term(a, out, dt, leaves) || !self.fp_term(b, out, dt, leaves) { return false; }
                match p {
                    FPred::Oeq => format!("(fp.eq t{a} t{b})"),
                    FPred::One => format!("(or (fp.lt t{a} t{b}) (fp.gt t{a} t{b}))"),
                    FPred::Olt => format!("(fp.lt t{a} t{b})"),
                    FPred::Ole => format!("(fp.leq t{a} t{b})"),
                    _ => format!("(not (or (fp.isNaN t{a}) (fp.isNaN t{b})))"),
                }
            }
            _ => return false,
        };
        out.push_str(&format!("(define-fun e{e} () Bool {s})\n"));
        de.insert(e);
        true
    }
    fn fp_term(&self, t: T, out: &mut String, dt: &mut FxSet<T>, leaves: &mut FxSet<T>) -> bool {
        if dt.contains(&t) { return true; }
        let dbl = self.e.cx.tdbl[t as usize];
        let (sort, to, w) = if dbl { ("Float64", "(_ to_fp 11 53)", 64) } else { ("Float32", "(_ to_fp 8 24)", 32) };
        let mut go = |x: T| self.fp_term(x, out, dt, leaves);
        let tm = self.e.cx.tm[t as usize];
        let s = match tm {
            Tm::Leaf { .. } => {
                out.push_str(&format!("(declare-const b{t} (_ BitVec {w}))\n"));
                leaves.insert(t);
                format!("({to} b{t})")
            }
            Tm::Const { bits, .. } => format!("({to} #x{:0width$x})", bits, width = w / 4),
            Tm::Add(a, b) => { if !go(a) || !go(b) { return false; } format!("(fp.add RNE t{a} t{b})") }
            Tm::Mul(a, b) => { if !go(a) || !go(b) { return false; } format!("(fp.mul RNE t{a} t{b})") }
            Tm::Div(a, b) => { if !go(a) || !go(b) { return false; } format!("(fp.div RNE t{a} t{b})") }
            Tm::Neg(a) => { if !go(a) { return false; } format!("(fp.neg t{a})") }
            Tm::Ext(a) | Tm::Tru(a) => { if !go(a) { return false; } format!("({to} RNE t{a})") }
            Tm::Fma(a, b, c) => { if !go(a) || !go(b) || !go(c) { return false; } format!("(fp.fma RNE t{a} t{b} t{c})") }
            Tm::Un(n, a, _, _) if self.e.cx.unames[n as usize] == "fabs" => { if !go(a) { return false; } format!("(fp.abs t{a})") }
            Tm::Un(n, a, _, _) if self.e.cx.unames[n as usize] == "sqrt" => { if !go(a) { return false; } format!("(fp.sqrt RNE t{a})") }
            _ => return false,
        };
        out.push_str(&format!("(define-fun t{t} () {sort} {s})\n"));
        dt.insert(t);
        true
    }
    /// "m<x>" for every term under `roots`: the value with every sign dropped, an upper bound for all intermediate magnitudes;
    /// "g<x>": first-order bound of the rounding error in units of the element's rounding
    fn magnitudes(&mut self, roots: &[T], dbl: bool, errs: bool) -> Option<(String, FxSet<T>)> {
        let mut body = String::new();
        let mut done: FxSet<T> = Default::default();
        let mut stack: Vec<(T, bool)> = roots.iter().map(|t| (*t, false)).collect();
        while let Some((x, ready)) = stack.pop() {
            if done.contains(&x) { continue; }
            let tm = self.e.cx.tm[x as usize];
            if !ready {
                stack.push((x, true));
                match tm {
                    Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => stack.push((a, false)),
                    Tm::Un(n, a, _, _) if self.e.cx.unames[n as usize] == "fabs" => stack.push((a, false)),
                    Tm::Fma(a, b, c) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
                    Tm::Ite(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    _ => {}
                }
                continue;
            }
            done.insert(x);
            let one = if dbl && !self.e.cx.tdbl[x as usize] { "1000000.0" } else { "1.0" };
            let (m, g) = match tm {
                Tm::Leaf { .. } => { body.push_str(&format!("(declare-const m{x} Real)\n(assert (>= m{x} 0.0))\n(define-fun g{x} () Real 0.0)\n")); continue; }
                Tm::Const { dbl, bits } => (Enc::rat(bits & if dbl { u64::MAX >> 1 } else { 0x7fff_ffff }, dbl)?, "0.0".to_string()),
                Tm::Neg(a) => (format!("m{a}"), format!("g{a}")),
                Tm::Un(n, a, _, _) if self.e.cx.unames[n as usize] == "fabs" => (format!("m{a}"), format!("g{a}")),
                Tm::Ext(a) => (format!("m{a}"), format!("g{a}")),
                Tm::Tru(a) => (format!("m{a}"), format!("(+ g{a} (* {one} m{a}))")),
                Tm::Add(a, b) => (format!("(+ m{a} m{b})"), format!("(+ g{a} g{b} (* {one} (+ m{a} m{b})))")),
                Tm::Mul(a, b) => (format!("(* m{a} m{b})"), format!("(+ (* g{a} m{b}) (* m{a} g{b}) (* {one} m{a} m{b}))")),
                Tm::Div(a, b) => {
                    if !matches!(self.e.cx.tm[b as usize], Tm::Leaf { .. } | Tm::Const { .. }) { return None; }
                    (format!("(/ m{a} m{b})"), format!("(+ (/ g{a} m{b}) (* {one} (/ m{a} m{b})))"))
                }
                Tm::Fma(a, b, c) => (format!("(+ (* m{a} m{b}) m{c})"), format!("(+ (* g{a} m{b}) (* m{a} g{b}) g{c} (* {one} (+ (* m{a} m{b}) m{c})))")),
                Tm::Ite(_, a, b) => (format!("(ite (> m{a} m{b}) m{a} m{b})"), format!("(ite (> g{a} g{b}) g{a} g{b})")),
                _ => return None,
            };
            body.push_str(&format!("(define-fun m{x} () Real {m})\n"));
            if errs { body.push_str(&format!("(define-fun g{x} () Real {g})\n")); }
        }
        Some((body, done))
    }
    /// no operand enters with more weight than its products have in the definition: otherwise the error, though made of few roundings, is out of proportion.
    /// None: within the bound; Some(leaf values): not
    fn weight_ok(&mut self, t: T, exp: &[T], dbl: bool, bound: u64, ff: &[E]) -> Option<Vec<(T, String)>> {
        let key = (t, exp[0], bound, ff.to_vec());
        if let Some(r) = self.wcache.get(&key) { return r.clone(); }
        let mut r = None;
        // first the weights alone, then the first-order error bound
        for errs in [false, true] {
            let mut roots = vec![t];
            roots.extend_from_slice(exp);
            let (mut body, done) = match self.magnitudes(&roots, dbl, errs) {
                Some(x) => x,
                None => { self.e.inconclusive.push("rounding obligation with an operation outside the encoding".into()); break; }
            };
            for f in ff {
                if let Ex::FCmp { p: FPred::Oeq, a: x, b: y } = self.e.cx.ex[*f as usize] {
                    if done.contains(&x) || done.contains(&y) {
                        let simple = |s: &Runner, z: T| match s.e.cx.tm[z as usize] {
                            Tm::Leaf { .. } if done.contains(&z) => Some(format!("m{z}")),
                            Tm::Const { dbl, bits } => Enc::rat(bits & if dbl { u64::MAX >> 1 } else { 0x7fff_ffff }, dbl),
                            _ => None,
                        };
                        if let (Some(u), Some(v)) = (simple(self, x), simple(self, y)) { body.push_str(&format!("(assert (= {u} {v}))\n")); }
                    }
                }
            }
            let s: Vec<String> = exp.iter().map(|x| format!("m{x}")).collect();
            let s = if s.len() == 1 { s[0].clone() } else { format!("(+ {})", s.join(" ")) };
            if errs { body.push_str(&format!("(assert (> g{t} (* {bound}.0 {s})))\n")); } else { body.push_str(&format!("(assert (> m{t} {s}))\n")); }
            let leaves: Vec<T> = done.iter().copied().filter(|x| matches!(self.e.cx.tm[*x as usize], Tm::Leaf { .. })).collect();
            let want: Vec<String> = leaves.iter().map(|x| format!("m{x}")).collect();
            let (q, vals) = self.e.smt.check_with(&body, &want, "(check-sat-using (then simplify solve-eqs (using-params simplify :som true :som_blowup 1000000) (try-for smt 10000)))");
            match q {
                Sat::Unsat => { r = None; break; }
                Sat::Sat => { r = Some(leaves.iter().zip(vals).map(|(l, v)| (*l, v.1)).collect::<Vec<_>>()); }
                Sat::Unknown => { if errs { r = None; self.e.inconclusive.push("solver answered unknown on a rounding obligation".into()); } }
            }
        }
        self.wcache.insert(key, r.clone());
        r
    }
    /// mode 0: NaN in => NaN out; mode 1: infinity (or NaN) in => non-finite out
    fn propagates(&mut self, t: T, ops: &[T], oldops: &[T], ff: &[E], mode: u8, be: &[T]) -> bool {
        let key = (t, ops.len() as u32 * 2 + !oldops.is_empty() as u32, mode, ff.to_vec());
        if let Some(&r) = self.pcache.get(&key) { return r; }
        let mut body = String::new();
        let mut done: FxSet<T> = Default::default();
        let mut stack: Vec<(T, bool)> = vec![(t, false)];
        for o in ops.iter().chain(oldops) { stack.push((*o, false)); }
        let mut nfree = 0;
        while let Some((x, ready)) = stack.pop() {
            if done.contains(&x) { continue; }
            let tm = self.e.cx.tm[x as usize];
            if !ready {
                stack.push((x, true));
                match tm {
                    Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => stack.push((a, false)),
                    Tm::Fma(a, b, c) => { stack.push((a, false)); stack.push((b, false)); stack.push((c, false)); }
                    Tm::Un(_, a, _, _) => stack.push((a, false)),
                    Tm::Ite(_, a, b) => { stack.push((a, false)); stack.push((b, false)); }
                    _ => {}
                }
                continue;
            }
            done.insert(x);
            let s = match tm {
                Tm::Leaf { .. } => { body.push_str(&format!("(declare-const f{} Bool)\n", x)); continue; }
                Tm::Const { .. } => { let v = self.e.cx.fval(x).unwrap(); if if mode == 0 { v.is_nan() } else { !v.is_finite() } { "true".into() } else { "false".to_string() } }
                Tm::Neg(a) | Tm::Ext(a) | Tm::Tru(a) => format!("f{}", a),
                Tm::Add(a, b) | Tm::Mul(a, b) => format!("(or f{} f{})", a, b),
                Tm::Div(a, b) => if mode == 0 { format!("(or f{} f{})", a, b) } else { format!("f{}", a) },
                Tm::Fma(a, b, c) => format!("(or f{} f{} f{})", a, b, c),
                Tm::Un(n, a, _, _) if ["fabs", "sqrt"].contains(&self.e.cx.unames[n as usize].as_str()) => format!("f{}", a),
                Tm::Ite(_, a, b) => { nfree += 1; body.push_str(&format!("(declare-const c{} Bool)\n", nfree)); format!("(ite c{} f{} f{})", nfree, a, b) }
                _ => { nfree += 1; body.push_str(&format!("(declare-const c{} Bool)\n", nfree)); format!("c{}", nfree) }
            };
            body.push_str(&format!("(define-fun f{} () Bool {})\n", x, s));
        }
        // beta known to be zero or one is not special
        let _ = be;
        for f in ff {
            if let Ex::FCmp { p: FPred::Oeq, a, b } = self.e.cx.ex[*f as usize] {
                for x in [a, b] { if done.contains(&x) && matches!(self.e.cx.tm[x as usize], Tm::Leaf { .. }) { body.push_str(&format!("(assert (not f{}))\n", x)); } }
            }
        }
        let any: Vec<String> = ops.iter().chain(oldops).map(|o| format!("f{}", o)).collect();
        body.push_str(&format!("(assert (or {} false))\n(assert (not f{}))\n", any.join(" "), t));
        let (s, _) = self.e.smt.check(&body, &[]);
        let ok = match s { Sat::Unsat => true, Sat::Sat => false, Sat::Unknown => { self.e.inconclusive.push("solver answered unknown on a propagation obligation".into()); true } };
        self.pcache.insert(key, ok);
        ok
    }

    /// heap blocks that nothing can reach at the end of the last call
    fn leaks(&mut self, st: &State, infos: &[CallInfo], sc: &Scen) {
        self.tot.leak_checks += 1;
        for o in st.objs.iter() {
            if o.kind == Kind::Heap && !o.freed && !o.exempt {
                if self.full() { return; }
                if let Some(m) = self.confirm(st, infos, &[]) {
                    let w = format!("{} ({} bytes) is never freed", o.name, o.size);
                    self.report(st, infos, sc, "leak", w, String::new(), &m, vec![]);
                }
                return;
            }
        }
    }

    // ------------------------------------------------------------------ comparisons between paths
    fn compare(&mut self, ends: &[PathEnd], infos: &[CallInfo], sc: &Scen) {
        if self.want.cap {
            // the same allowance gives the same parallelism, however the allowance was written
            let mut seen: FxMap<u64, usize> = Default::default();
            let mut max: FxMap<u64, u32> = Default::default();
            for p in ends { for (t, _) in &p.caps { let e = max.entry(*t).or_insert(0); *e = (*e).max(p.st.maxconc); } }
            for (i, p) in ends.iter().enumerate() {
                for (t, c) in &p.caps {
                    self.tot.cap_checks += 1;
                    if p.st.maxconc == max[t] { seen.entry(*t).or_insert(i); continue; }
                    if self.full() { return; }
                    let s = p.st.clone();
                    if let Some(m) = self.confirm(&s, infos, &[*c]) {
                        let w = format!("{} tasks at most run at the same time although {} are configured and another way of configuring {} gives {}", s.maxconc, t, t, max[t]);
                        self.report(&s, infos, sc, "cap", w, String::new(), &m, vec![("allowed".into(), t.to_string()), ("used".into(), s.maxconc.to_string())]);
                        return;
                    }
                }
            }
        }
        if !(self.want.layout || self.want.threads) || ends.len() < 2 || infos.iter().any(|i| i.balias > 0) { return; }
        // layout paths where operands alias are compared under the aliasing of that path
        for ci in 0..infos.len() {
            let mut groups: Vec<(usize, Vec<T>)> = vec![];
            for (pi, p) in ends.iter().enumerate() {
                let r = &p.res[ci];
                match groups.iter().find(|g| g.1 == *r && ends[g.0].other == p.other) {
                    Some(_) => self.tot.layout_pairs += 1,
                    None => groups.push((pi, r.clone())),
                }
            }
            for x in 0..groups.len() {
                for y in 0..x {
                    let (pa, pb) = (&ends[groups[x].0], &ends[groups[y].0]);
                    if groups[x].1 == groups[y].1 { self.tot.layout_pairs += 1; continue; }
                    // may both happen on one machine with the same scalars?
                    let mut q: Vec<E> = pa.other.clone();
                    q.extend(&pb.other);
                    q.extend(&self.hw);
                    q.sort();
                    q.dedup();
                    self.tot.layout_pairs += 1;
                    let neg = q.iter().any(|e| { let n = self.e.cx.not(*e); pa.other.contains(&n) || pb.other.contains(&n) });
                    if neg { continue; }
                    let (s, _) = self.e.query(&q);
                    if s == Sat::Unsat { continue; }
                    // operands alias differently?  compare under the union of both aliasings
                    if self.aliased(&pa.st, &infos[ci]) || self.aliased(&pb.st, &infos[ci]) {
                        // an aliased path is compared with the plain one through the alias map
                        if self.same_under_alias(pa, pb, ci, infos) { continue; }
                    }
                    if self.full() { return; }
                    let (sa, sb) = (pa.st.clone(), pb.st.clone());
                    let (ma, mb) = (self.confirm(&sa, infos, &pb.other.clone()), self.confirm(&sb, infos, &pa.other.clone()));
                    if let (Some(ma), Some(mb)) = (ma, mb) {
                        let n = infos[ci].d[2];
                        let parts = if infos[ci].cplx { 2 } else { 1 };
                        let (ra, rb) = (groups[x].1.clone(), groups[y].1.clone());
                        let d = ra.iter().zip(rb.iter()).position(|(p, q)| p != q).unwrap_or(0);
                        let w = format!("element ({},{}) of C is computed as {} in one case and as {} in another", (d / parts) as u64 / n.max(1), (d / parts) as u64 % n.max(1), self.e.cx.showt(ra[d]).chars().take(300).collect::<String>(), self.e.cx.showt(rb[d]).chars().take(300).collect::<String>());
                        let before = self.viols.len();
                        self.report(&sb, infos, sc, "tmp", String::new(), String::new(), &mb, vec![]);
                        let other: Vec<(String, String)> = self.viols.pop().unwrap().model;
                        let _ = before;
                        let mut ex = vec![("call".to_string(), format!("{}", ci))];
                        for (k, v) in other { ex.push((format!("second.{}", k), v)); }
                        ex.push(("conc".into(), format!("{},{}", sa.maxconc, sb.maxconc)));
                        self.report(&sa, infos, sc, "bits", w, String::new(), &ma, ex);
                        return;
                    }
                }
            }
        }
    }
    fn aliased(&mut self, st: &State, info: &CallInfo) -> bool {
        for m in [&info.ma, &info.mb] {
            if m.rows * m.cols == 0 { continue; }
            for i in 0..m.rows { for j in 0..m.cols {
                if self.e.canon_idx(st.sig, m, i, j) as u64 != i * m.cols + j { return true; }
            } }
        }
        false
    }
    fn same_under_alias(&mut self, pa: &PathEnd, pb: &PathEnd, ci: usize, infos: &[CallInfo]) -> bool {
        let info = &infos[ci];
        let [m, k, n] = info.d;
        let parts = if info.cplx { 2 } else { 1usize };
        // both results with every operand element replaced by its representative under both aliasings
        let mut fa: Vec<u32> = vec![];
        let mut fb: Vec<u32> = vec![];
        for (mt, out) in [(&info.ma, &mut fa), (&info.mb, &mut fb)] {
            let sz = (mt.rows * mt.cols) as usize;
            let mut rep: Vec<u32> = (0..sz as u32).collect();
            let find = |rep: &Vec<u32>, mut x: u32| { while rep[x as usize] != x { x = rep[x as usize]; } x };
            for s in [&pa.st, &pb.st] {
                for i in 0..mt.rows { for j in 0..mt.cols {
                    let c = self.e.canon_idx(s.sig, mt, i, j);
                    let (x, y) = (find(&rep, c), find(&rep, (i * mt.cols + j) as u32));
                    let (lo, hi) = (x.min(y), x.max(y));
                    rep[hi as usize] = lo;
                } }
            }
            *out = (0..sz as u32).map(|x| find(&rep, x)).collect();
        }
        for cell in 0..(m * n) as usize {
            let (i, j) = (cell as u64 / n, cell as u64 % n);
            // role numbers refer to the first column with the same element on that path; redo with the union
            let fix = |s: &mut Runner, t: T| -> T {
                let f = |tm: &Tm| -> Option<(Cls, u32)> {
                    if let Tm::Leaf { cls, idx, .. } = tm {
                        match cls {
                            Cls::A => { let r = fa[(i * k) as usize + *idx as usize]; let t = (0..k).find(|t| fa[(i * k + t) as usize] == r).unwrap(); Some((Cls::A, t as u32)) }
                            Cls::B => { let r = fb[*idx as usize * n as usize + j as usize]; let t = (0..k).find(|t| fb[(t * n + j) as usize] == r).unwrap(); Some((Cls::B, t as u32)) }
                            _ => None,
                        }
                    } else { None }
                };
                let mut memo = FxMap::default();
                s.rewrite(t, &f, &mut memo)
            };
            for p in 0..parts {
                let (x, y) = (pa.res[ci][cell * parts + p], pb.res[ci][cell * parts + p]);
                if fix(self, x) != fix(self, y) { return false; }
            }
        }
        true
    }
}

/// concrete evaluation of float terms with the target's arithmetic
struct FEval<'a> {
    cx: &'a Ctx,
    m: &'a Model,
    leaf: &'a dyn Fn(Cls, u32, u8) -> Option<f64>,
    memo: FxMap<T, Option<f64>>,
}
impl<'a> FEval<'a> {
    fn t(&mut self, t: T) -> Option<f64> {
        if let Some(v) = self.memo.get(&t) { return *v; }
        let d = self.cx.tdbl[t as usize];
        let r32 = |x: f32| x as f64;
        let v = match self.cx.tm[t as usize] {
            Tm::Const { .. } => self.cx.fval(t),
            Tm::Leaf { cls, idx, part, .. } => (self.leaf)(cls, idx, part),
            Tm::Add(a, b) => { let (a, b) = (self.t(a)?, self.t(b)?); Some(if d { a + b } else { r32(a as f32 + b as f32) }) }
            Tm::Mul(a, b) => { let (a, b) = (self.t(a)?, self.t(b)?); Some(if d { a * b } else { r32(a as f32 * b as f32) }) }
            Tm::Div(a, b) => { let (a, b) = (self.t(a)?, self.t(b)?); Some(if d { a / b } else { r32(a as f32 / b as f32) }) }
            Tm::Neg(a) => Some(-self.t(a)?),
            Tm::Fma(a, b, c) => { let (a, b, c) = (self.t(a)?, self.t(b)?, self.t(c)?); Some(if d { a.mul_add(b, c) } else { r32((a as f32).mul_add(b as f32, c as f32)) }) }
            Tm::Ext(a) => self.t(a),
            Tm::Tru(a) => Some(self.t(a)? as f32 as f64),
            Tm::Ite(c, a, b) => if self.e(c)? == 1 { self.t(a) } else { self.t(b) },
            _ => None,
        };
        self.memo.insert(t, v);
        v
    }
    fn e(&mut self, e: E) -> Option<u64> {
        match self.cx.ex[e as usize].clone() {
            Ex::FCmp { p, a, b } => {
                let (a, b) = (self.t(a)?, self.t(b)?);
                Some(crate::ctx::fcmp_concrete(p, a, b) as u64)
            }
            Ex::Not(a) => Some(1 - self.e(a)?),
            Ex::And(a, b) => Some(self.e(a)? & self.e(b)?),
            Ex::Or(a, b) => Some(self.e(a)? | self.e(b)?),
            _ if self.cx.emask(e) != 0 => None,
            _ => { let mut memo = FxMap::default(); eval(self.cx, self.m, &mut memo, e) }
        }
    }
}
