use crate::guard;
use crate::mem::*;
use crate::*;
use std::sync::atomic::Ordering::*;

#[cfg(feature = "std")]
mod cpu {
    use std::sync::atomic::*;
    extern "C" {
        #[link_name = env!("MM_CACHE_SYM")]
        static CACHE: [AtomicUsize; 3];
    }
    /// make the library see at most the given features
    pub fn mask(w: [u64; 3]) {
        let _ = std::is_x86_feature_detected!("avx2");
        unsafe {
            for i in 0..3 {
                let real = CACHE[i].load(Ordering::Relaxed);
                CACHE[i].store(real & (w[i] as usize | 1 << 63), Ordering::Relaxed);
            }
        }
    }
    pub fn restore(w: [usize; 3]) { unsafe { for i in 0..3 { CACHE[i].store(w[i], Ordering::Relaxed); } } }
    pub fn real() -> [usize; 3] { let _ = std::is_x86_feature_detected!("avx2"); unsafe { [CACHE[0].load(Ordering::Relaxed), CACHE[1].load(Ordering::Relaxed), CACHE[2].load(Ordering::Relaxed)] } }
}
#[cfg(not(feature = "std"))]
mod cpu {
    pub fn mask(_: [u64; 3]) {}
    pub fn restore(_: [usize; 3]) {}
    pub fn real() -> [usize; 3] { [0; 3] }
}

/// the library: the crate itself, or (ext) the one that is linked in as objects
#[cfg(not(feature = "ext"))]
use matrixmultiply as lib;
#[cfg(feature = "ext")]
use crate::ext as lib;

/// the same numbers as the executor's
pub fn datum(cls: u8, idx: u64, part: u8, dbl: bool) -> f64 {
    let mut z = 0x9E3779B97F4A7C15u64.wrapping_mul(1 + cls as u64 * 1_000_003 + idx * 4 + part as u64).wrapping_add(0x1234_5678_9ABC);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    let e = [1.0, 0.125, 8.0, 1.0][(z & 3) as usize];
    if dbl { ((z >> 11) as f64 / (1u64 << 52) as f64 - 1.0) * e } else { ((z >> 40) as f64 / (1u64 << 23) as f64 - 1.0) * e }
}
fn whole(cls: u8, idx: usize, part: usize) -> f64 {
    let v = datum(cls, idx as u64, part as u8, true).to_bits() >> 20;
    (1 + v % 3) as f64 * if v & 8 == 0 { 1.0 } else { -1.0 }
}

pub struct Ops { pub a: Mat, pub b: Mat, pub c: Mat }

pub fn place(c: &Call, pl: Place) -> Ops {
    let parts = if c.cplx() { 2 } else { 1 };
    let mk = |r, q, x: usize| Mat::new(r, q, c.s[2 * x], c.s[2 * x + 1], parts, c.dbl(), pl, c.base[x]);
    // B is A's memory where the model says so
    let shared = c.shared && c.m * c.k > 0 && c.k * c.n > 0;
    match (mk(c.m, c.k, 0), if shared { mk(0, 0, 1) } else { mk(c.k, c.n, 1) }, mk(c.m, c.n, 2)) {
        (Some(a), Some(mut b), Some(o)) => {
            if shared { b.p = a.p; b.rows = c.k; b.cols = c.n; }
            Ops { a, b, c: o }
        }
        _ => { println!("a matrix needs more address space than this machine has"); std::process::exit(4); }
    }
}
impl Ops { pub fn free(self) { self.a.free(); self.b.free(); self.c.free(); } }

pub unsafe fn invoke(c: &Call, o: &Ops, al: [f64; 2], be: [f64; 2]) {
    let s = c.s;
    match c.f.as_str() {
        "sgemm" => lib::sgemm(c.m, c.k, c.n, al[0] as f32, o.a.p as *const f32, s[0], s[1], o.b.p as *const f32, s[2], s[3], be[0] as f32, o.c.p as *mut f32, s[4], s[5]),
        "dgemm" => lib::dgemm(c.m, c.k, c.n, al[0], o.a.p as *const f64, s[0], s[1], o.b.p as *const f64, s[2], s[3], be[0], o.c.p as *mut f64, s[4], s[5]),
        #[cfg(feature = "cgemm")]
        "cgemm" => {
            use lib::CGemmOption::Standard;
            lib::cgemm(Standard, Standard, c.m, c.k, c.n, [al[0] as f32, al[1] as f32], o.a.p as *const [f32; 2], s[0], s[1], o.b.p as *const [f32; 2], s[2], s[3], [be[0] as f32, be[1] as f32], o.c.p as *mut [f32; 2], s[4], s[5])
        }
        #[cfg(feature = "cgemm")]
        "zgemm" => {
            use lib::CGemmOption::Standard;
            lib::zgemm(Standard, Standard, c.m, c.k, c.n, al, o.a.p as *const [f64; 2], s[0], s[1], o.b.p as *const [f64; 2], s[2], s[3], be, o.c.p as *mut [f64; 2], s[4], s[5])
        }
        f => { println!("no function {}", f); std::process::exit(4); }
    }
}

fn fail(msg: String) -> ! {
    guard::ON.store(0, SeqCst);
    println!("{}", msg);
    std::process::exit(3);
}
fn desc(c: &Call, al: [f64; 2], be: [f64; 2]) -> String {
    if c.cplx() { format!("{} m={} k={} n={} strides {:?} alpha={:?} beta={:?}", c.f, c.m, c.k, c.n, c.s, al, be) } else { format!("{} m={} k={} n={} strides {:?} alpha={} beta={}", c.f, c.m, c.k, c.n, c.s, al[0], be[0]) }
}

type Data<'a> = &'a dyn Fn(u8, usize, usize) -> f64;

/// values, and per element the sum of magnitudes
fn reference(c: &Call, o: &Ops, al: [f64; 2], be: [f64; 2]) -> Vec<([f64; 2], f64)> {
    let cx = c.cplx();
    let g = |m: &Mat, i, j| if cx { [m.get(i, j, 0), m.get(i, j, 1)] } else { [m.get(i, j, 0), 0.0] };
    let mul = |x: [f64; 2], y: [f64; 2]| [x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]];
    let ab = |x: [f64; 2]| x[0].abs() + x[1].abs();
    let bz = be == [0.0, 0.0];
    let mut v = vec![];
    for i in 0..c.m { for j in 0..c.n {
        let mut s = [0.0, 0.0];
        let mut mg = 0.0;
        for t in 0..c.k {
            let (x, y) = (g(&o.a, i, t), g(&o.b, t, j));
            let p = mul(x, y);
            s[0] += p[0];
            s[1] += p[1];
            mg += ab(x) * ab(y);
        }
        let mut r = if c.k == 0 { [0.0, 0.0] } else { mul(al, s) };
        mg *= ab(al);
        if !bz { let old = g(&o.c, i, j); let q = mul(be, old); r[0] += q[0]; r[1] += q[1]; mg += ab(be) * ab(old); }
        v.push((r, mg));
    } }
    v
}

fn scalars(c: &Call) -> Vec<([f64; 2], [f64; 2])> {
    let r = [0.0, 1.0, 3.0, -1.0, 2.0];
    let mut v = vec![];
    if c.cplx() {
        let z = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [2.0, 3.0], [-1.0, 0.0], [3.0, -2.0], [2.0, 0.0], [0.0, -3.0]];
        for a in [3, 1, 2, 5, 4, 0, 6, 7] { for b in [0, 3, 1, 2, 5, 4, 6, 7] { v.push((z[a], z[b])); } }
    } else {
        for a in [2, 1, 3, 0, 4] { for b in [0, 4, 1, 3, 2] { v.push(([r[a], 0.0], [r[b], 0.0])); } }
    }
    // the kind of beta the solver found comes first
    if c.beta_zero >= 0 { v.sort_by_key(|x| ((x.1 == [0.0, 0.0]) as i32 != c.beta_zero) as i32); }
    v
}

fn check(c: &Call, o: &Ops, al: [f64; 2], be: [f64; 2], data: Data, nan_c: bool, tol: f64, reads_only: bool) -> Option<String> {
    o.a.fill(&|i, p| data(0, i, p));
    o.b.fill(&|i, p| data(1, i, p));
    o.c.fill(&|i, p| data(2, i, p));
    let want = reference(c, o, al, be);
    if nan_c { o.c.fill(&|_, _| f64::NAN); }
    if reads_only { o.a.read_only(); o.b.read_only(); }
    unsafe { invoke(c, o, al, be) };
    let parts = if c.cplx() { 2 } else { 1 };
    for i in 0..c.m { for j in 0..c.n { for p in 0..parts {
        let (w, mg) = want[i * c.n + j];
        let got = o.c.get(i, j, p);
        let bad = if tol == 0.0 { got != w[p] } else { !((got - w[p]).abs() <= tol * mg.max(if c.dbl() { 1e-299 } else { 1e-34 })) };
        if bad { return Some(format!("{}: element ({},{}){} is {:?} instead of {:?}{}", desc(c, al, be), i, j, if p == 1 { " imaginary part" } else { "" }, got, w[p], if nan_c { " (C held NaN before)" } else { "" })); }
    } } }
    None
}

/// data sets: generic whole numbers, then degenerate ones
fn datasets() -> Vec<(&'static str, Box<dyn Fn(u8, usize, usize) -> f64>)> {
    vec![
        ("whole numbers", Box::new(|c, i, p| whole(c, i, p))),
        ("ones", Box::new(|_, _, p| if p == 0 { 1.0 } else { 0.0 })),
        ("sparse", Box::new(|c, i, p| if i % 3 == 0 { 0.0 } else { whole(c, i, p) })),
        ("zero A", Box::new(|c, i, p| if c == 0 { 0.0 } else { whole(c, i, p) })),
        ("zero C", Box::new(|c, i, p| if c == 2 { 0.0 } else { whole(c, i, p) })),
    ]
}

fn value(s: &Spec) {
    let c = &s.calls[s.target];
    for (i, pc) in s.calls.iter().enumerate() {
        if i < s.target { let o = place(pc, Place::Model); check(pc, &o, [2.0, 1.0], [0.0, 0.0], &|c, i, p| whole(c, i, p), false, 1.0, false); o.free(); }
    }
    for pl in [Place::Model, Place::High] {
        let o = place(c, pl);
        for (dn, d) in datasets() {
            for (al, be) in scalars(c) {
                for nan in [false, true] {
                    if nan && be != [0.0, 0.0] { continue; }
                    if let Some(m) = check(c, &o, al, be, &*d, nan, 0.0, false) { fail(format!("{} [{}]", m, dn)); }
                }
            }
        }
        // the solver's own numbers
        let tol = if c.dbl() { 1e-9 } else { 1e-3 };
        for use_role in [true, false] {
            if s.leaf.is_empty() && s.role.is_empty() { break; }
            let cls = ['A', 'B', 'C'];
            let d = |cl: u8, i: usize, p: usize| -> f64 {
                if let Some(v) = s.leaf.iter().find(|x| x.0 == cls[cl as usize] && x.1 == i && x.2 == p) { return v.3; }
                if use_role {
                    let (ci, cj) = s.cell;
                    let r = match cl {
                        0 => if i / c.k.max(1) == ci { Some(i % c.k.max(1)) } else { None },
                        1 => if i % c.n.max(1) == cj { Some(i / c.n.max(1)) } else { None },
                        _ => if i == ci * c.n + cj { Some(0) } else { None },
                    };
                    if let Some(r) = r { if let Some(v) = s.role.iter().find(|x| x.0 == cls[cl as usize] && x.1 == r && x.2 == p) { return v.3; } }
                }
                whole(cl, i, p)
            };
            let (first, then) = if use_role { (&s.role, &s.leaf) } else { (&s.leaf, &s.role) };
            let sc = |ch: char, p: usize, dflt: f64| first.iter().chain(then.iter()).find(|x| x.0 == ch && x.2 == p).map_or(dflt, |x| x.3);
            let cx = c.cplx() as usize as f64;
            for (a0, b0) in [(1.0, 1.0), (2.0, 0.0)] {
                let al = [sc('a', 0, a0), sc('a', 1, 0.0) * cx];
                let be = [sc('b', 0, b0), sc('b', 1, 0.0) * cx];
                if let Some(m) = check(c, &o, al, be, &d, false, tol, false) { fail(format!("{} [the solver's numbers]", m)); }
            }
        }
        o.free();
    }
}

fn memory(s: &Spec) {
    guard::SKIP.with(|x| x.set(false));
    let few: Vec<([f64; 2], [f64; 2])> = vec![([2.0, 1.0], [0.0, 0.0]), ([2.0, 0.0], [3.0, 0.0]), ([1.0, 0.0], [1.0, 0.0]), ([2.0, 3.0], [3.0, 1.0]), ([0.0, 0.0], [2.0, 0.0])];
    for pl in [Place::High, Place::Low, Place::Model] {
        for (al, be) in &few {
            let mut live = None;
            for round in 0..3 {
                for c in &s.calls {
                    let (al, be) = if c.cplx() { (*al, *be) } else { ([al[0], 0.0], [be[0], 0.0]) };
                    let o = place(c, pl);
                    let nan = be == [0.0, 0.0];
                    guard::FILL.store([0xff, 0x00, 0x7f][round], SeqCst);
                    guard::ON.store(1, SeqCst);
                    let r = check(c, &o, al, be, &|c, i, p| whole(c, i, p), nan, 0.0, true);
                    guard::ON.store(0, SeqCst);
                    if let Some(m) = r { fail(format!("{} [scratch memory filled with {:#x}]", m, [0xff, 0x00, 0x7f][round])); }
                    if !o.a.intact() || !o.b.intact() || !o.c.intact() { fail(format!("{}: memory outside the elements of C was written", desc(c, al, be))); }
                    o.free();
                    let b = guard::BAD.load(SeqCst);
                    if b & 1 != 0 { fail(format!("{}: a block is released with another layout than it was allocated with", desc(c, al, be))); }
                    if b & 2 != 0 { fail(format!("{}: a block is released twice", desc(c, al, be))); }
                }
                let l = guard::LIVE.load(SeqCst);
                if let Some(x) = live { if round == 2 && l > x { fail(format!("{}: {} blocks are never released", s.calls[0].f, l - x)); } }
                if round == 1 { live = Some(l); }
            }
        }
    }
}

fn bits_of(c: &Call, o: &Ops) -> String {
    let mut v = vec![];
    for i in 0..c.m { for j in 0..c.n { for p in 0..if c.cplx() { 2 } else { 1 } {
        let b = o.c.bits(i, j, p);
        let nan = o.c.get(i, j, p).is_nan();
        v.push(if nan { "nan".to_string() } else { format!("{:x}", b) });
    } } }
    v.join(" ")
}

fn classes(cs: &[&Call], x: usize) -> Vec<usize> {
    // elements that share memory in one of the layouts hold the same value in all
    let (r, q) = match x { 0 => (cs[0].m, cs[0].k), _ => (cs[0].k, cs[0].n) };
    let mut rep: Vec<usize> = (0..r * q).collect();
    fn find(r: &mut Vec<usize>, mut x: usize) -> usize { while r[x] != x { x = r[x]; } x }
    for c in cs {
        let mut first = HashMap::new();
        for i in 0..r { for j in 0..q {
            let o = (i as isize).wrapping_mul(c.s[2 * x]).wrapping_add((j as isize).wrapping_mul(c.s[2 * x + 1]));
            let e = *first.entry(o).or_insert(i * q + j);
            let (u, v) = (find(&mut rep, e), find(&mut rep, i * q + j));
            let (lo, hi) = (u.min(v), u.max(v));
            rep[hi] = lo;
        } }
    }
    (0..r * q).map(|x| find(&mut rep, x)).collect()
}

fn bits(s: &Spec, which: usize) {
    let t = s.target;
    let sec = if s.second.is_empty() { &s.calls } else { &s.second };
    let both = [&s.calls[t], &sec[t]];
    let c = both[which];
    let (ra, rb) = (classes(&both, 0), classes(&both, 1));
    let o = place(c, Place::Model);
    let mut sc = scalars(c);
    sc.push(([0.7, 0.3], [0.45, -0.2]));
    sc.push(([0.7, 0.0], [0.0, 0.0]));
    for (n, (al, be)) in sc.iter().enumerate() {
        let (al, be) = if c.cplx() { (*al, *be) } else { ([al[0], 0.0], [be[0], 0.0]) };
        o.a.fill(&|i, p| datum(0, ra[i] as u64, p as u8, c.dbl()));
        o.b.fill(&|i, p| datum(1, rb[i] as u64, p as u8, c.dbl()));
        o.c.fill(&|i, p| datum(2, i as u64, p as u8, c.dbl()));
        unsafe { invoke(c, &o, al, be) };
        println!("alpha/beta#{}={:?}/{:?} {}", n, al, be, bits_of(c, &o));
    }
}

/// poison what a later call might wrongly read: the thread's tile buffer, the stack, the heap
fn poison() {
    #[inline(never)]
    fn stack(n: usize) -> u64 {
        let mut a = [f64::NAN; 2048];
        for i in 0..2048 { unsafe { std::ptr::write_volatile(&mut a[i], f64::NAN) } }
        if n > 0 { stack(n - 1) + a[n].to_bits() } else { a[0].to_bits() }
    }
    std::hint::black_box(stack(6));
    for f in ["sgemm", "dgemm", "cgemm", "zgemm"] {
        if cfg!(not(feature = "cgemm")) && (f == "cgemm" || f == "zgemm") { continue; }
        let c = Call { f: f.into(), m: 17, k: 9, n: 17, s: [9, 1, 17, 1, 17, 1], ..Default::default() };
        let o = place(&c, Place::Model);
        o.a.fill(&|_, _| f64::NAN);
        o.b.fill(&|_, _| f64::NAN);
        o.c.fill(&|_, _| f64::NAN);
        unsafe { invoke(&c, &o, [1.0, 0.0], [1.0, 0.0]) };
        o.free();
    }
    std::hint::black_box(stack(6));
}

fn call_bits(c: &Call, al: [f64; 2], be: [f64; 2]) -> String {
    let o = place(c, Place::Model);
    o.a.fill(&|i, p| datum(0, i as u64, p as u8, c.dbl()));
    o.b.fill(&|i, p| datum(1, i as u64, p as u8, c.dbl()));
    o.c.fill(&|i, p| datum(2, i as u64, p as u8, c.dbl()));
    unsafe { invoke(c, &o, al, be) };
    let r = bits_of(c, &o);
    o.free();
    r
}
fn pairs(c: &Call) -> Vec<([f64; 2], [f64; 2])> {
    let mut v = vec![([0.7, 0.3], [0.45, -0.2]), ([0.7, 0.3], [0.0, 0.0]), ([1.0, 0.0], [1.0, 0.0]), ([1.0, 0.0], [0.0, 0.0]), ([0.0, 0.0], [0.5, 0.0])];
    if !c.cplx() { for x in v.iter_mut() { x.0[1] = 0.0; x.1[1] = 0.0; } }
    if c.beta_zero >= 0 { v.sort_by_key(|x| ((x.1 == [0.0, 0.0]) as i32 != c.beta_zero) as i32); }
    v
}

fn history(s: &Spec) {
    let t = s.target;
    let c = &s.calls[t];
    for (al, be) in pairs(c) {
        let mut first = None;
        for (i, x) in s.calls.iter().enumerate() {
            let same = i == t || (t < s.calls.len() && s.calls[t].scal == i);
            let (a2, b2) = if same { (al, be) } else { pairs(x)[0] };
            let r = call_bits(x, a2, b2);
            if same {
                match &first { None => first = Some(r), Some(f) => if *f != r { fail(format!("{}: the same call gives {} first and {} later", desc(c, al, be), short(f), short(&r))) } }
            }
        }
        let r1 = call_bits(c, al, be);
        poison();
        let r2 = call_bits(c, al, be);
        if r1 != r2 { fail(format!("{}: different bits after other calls", desc(c, al, be))); }
        for x in &s.calls {
            let (a2, b2) = pairs(x)[0];
            let _ = call_bits(x, a2, b2);
            let r3 = call_bits(c, al, be);
            if r1 != r3 { fail(format!("{}: different bits after {}", desc(c, al, be), x.f)); }
        }
    }
}
/// the same memory with other contents: as if they had been there from the start?
fn stale(s: &Spec) {
    let c = &s.calls[s.target];
    if c.m * c.n == 0 { return; }
    for (al, be) in pairs(c) {
        for which in [3u8, 1, 2] {
            let fill = |o: &Ops, old: bool| {
                let f = |cl: u8, i: usize, p: usize| datum(cl, i as u64 + if old && which & (1 << cl) != 0 { 50_000_017 } else { 0 }, p as u8, c.dbl());
                o.a.fill(&|i, p| f(0, i, p));
                o.b.fill(&|i, p| f(1, i, p));
                o.c.fill(&|i, p| f(2, i, p));
            };
            let (o, q) = (place(c, Place::Model), place(c, Place::Model));
            fill(&o, false);
            unsafe { invoke(c, &o, al, be) };
            let want = bits_of(c, &o);
            for _ in 0..2 { fill(&q, true); unsafe { invoke(c, &q, al, be) }; }
            fill(&q, false);
            unsafe { invoke(c, &q, al, be) };
            let got = bits_of(c, &q);
            if got != want { fail(format!("{}: other contents in the memory of an earlier call give {} where {} is right", desc(c, al, be), short(&got), short(&want))); }
            o.free();
            q.free();
        }
    }
}
fn short(s: &str) -> String { s.chars().take(120).collect() }

/// bits with different contents of everything the library did not write itself
fn uninit(s: &Spec) {
    let c = &s.calls[s.target];
    for (al, be) in pairs(c) {
        let mut first: Option<String> = None;
        for fill in [0xffusize, 0, 0x40] {
            for pz in [false, true] {
                if pz { poison(); }
                guard::FILL.store(fill, SeqCst);
                guard::ON.store(1, SeqCst);
                let r = call_bits(c, al, be);
                guard::ON.store(0, SeqCst);
                match &first { None => first = Some(r), Some(f) => if *f != r { fail(format!("{}: the result depends on what memory held before the call ({} or {})", desc(c, al, be), short(f), short(&r))) } }
            }
        }
    }
}

fn foreign(s: &Spec) {
    let c = &s.calls[s.target];
    let (ci, cj) = s.cell;
    for (al, be) in pairs(c) {
        let mut first: Option<String> = None;
        for v in [None, Some(f64::NAN), Some(f64::INFINITY), Some(1e30), Some(-2.5), Some(0.0)] {
            let o = place(c, Place::Model);
            let d = |cl: u8, i: usize, p: usize| match v { None => datum(cl, i as u64, p as u8, c.dbl()), Some(x) => x };
            o.a.fill(&|i, p| d(0, i, p));
            o.b.fill(&|i, p| d(1, i, p));
            o.c.fill(&|i, p| d(2, i, p));
            let parts = if c.cplx() { 2 } else { 1 };
            for t in (0..c.k).rev() { for p in 0..parts {
                o.a.set(ci, t, p, datum(0, (ci * c.k + t) as u64, p as u8, c.dbl()));
                o.b.set(t, cj, p, datum(1, (t * c.n + cj) as u64, p as u8, c.dbl()));
            } }
            for p in 0..parts { o.c.set(ci, cj, p, datum(2, (ci * c.n + cj) as u64, p as u8, c.dbl())); }
            unsafe { invoke(c, &o, al, be) };
            let r = (0..parts).map(|p| if o.c.get(ci, cj, p).is_nan() { "nan".into() } else { format!("{:x}", o.c.bits(ci, cj, p)) }).collect::<Vec<String>>().join(" ");
            o.free();
            match &first { None => first = Some(r), Some(f) => if *f != r { fail(format!("{}: element ({},{}) is {} with ordinary numbers elsewhere and {} with {:?} elsewhere", desc(c, al, be), ci, cj, f, r, v)) } }
        }
    }
}

fn special(s: &Spec) {
    let c = &s.calls[s.target];
    let (ci, cj) = s.cell;
    let parts = if c.cplx() { 2 } else { 1 };
    for (dn, d) in datasets() {
        for (al, be) in scalars(c) {
            for sp in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                // which operand holds the special value
                let mut spots: Vec<(u8, usize, usize)> = vec![];
                for p in 0..parts {
                    for t in 0..c.k { spots.push((0, t, p)); spots.push((1, t, p)); }
                    spots.push((3, 0, p));
                    if be != [0.0, 0.0] { spots.push((2, 0, p)); spots.push((4, 0, p)); }
                }
                if spots.len() > 60 { let st = spots.len() / 60 + 1; spots = spots.into_iter().enumerate().filter(|(i, x)| i % st == 0 || x.0 > 1).map(|x| x.1).collect(); }
                for (cl, t, p) in spots {
                    let o = place(c, Place::Model);
                    o.a.fill(&|i, p| d(0, i, p));
                    o.b.fill(&|i, p| d(1, i, p));
                    o.c.fill(&|i, p| d(2, i, p));
                    let (mut al, mut be) = (al, be);
                    match cl { 0 => o.a.set(ci, t, p, sp), 1 => o.b.set(t, cj, p, sp), 2 => o.c.set(ci, cj, p, sp), 3 => al[p] = sp, _ => be[p] = sp }
                    unsafe { invoke(c, &o, al, be) };
                    for q in 0..parts {
                        let r = o.c.get(ci, cj, q);
                        if if sp.is_nan() { !r.is_nan() } else { r.is_finite() } {
                            fail(format!("{}: element ({},{}) is {} although {} holds {} [{}]", desc(c, al, be), ci, cj, r, ["its row of A", "its column of B", "the old element", "alpha", "beta"][cl as usize], sp, dn));
                        }
                    }
                    o.free();
                }
            }
        }
    }
}

fn panic_(s: &Spec) {
    let c = &s.calls[s.target];
    let mut sc = scalars(c);
    sc.extend(pairs(c));
    for (al, be) in sc {
        let o = place(c, Place::Model);
        o.a.fill(&|i, p| whole(0, i, p));
        o.b.fill(&|i, p| whole(1, i, p));
        o.c.fill(&|i, p| whole(2, i, p));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { invoke(c, &o, al, be) }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            fail(format!("{}: the call panicked: {}", desc(c, al, be), m));
        }
        o.free();
    }
}

fn cap(s: &Spec) {
    for c in &s.calls {
        let r = call_bits(c, [1.0, 0.0], [0.0, 0.0]);
        std::hint::black_box(r);
    }
    let n = std::fs::read_dir("/proc/self/task").map_or(1, |d| d.count());
    let allowed: usize = s.kv.get("allowed").and_then(|x| x.parse().ok()).unwrap_or(4);
    let used: usize = s.kv.get("used").and_then(|x| x.parse().ok()).unwrap_or(1);
    if used > allowed && n > allowed { fail(format!("the process has {} threads after the call where {} may be used", n, allowed)); }
    if used < allowed && n < allowed { fail(format!("the process has {} threads after the call where {} are configured", n, allowed)); }
    println!("{} threads after the call", n);
}

fn trace(s: &Spec) {
    let real = cpu::real();
    let mut ok = 0;
    for (n, (c, al, be, w, want)) in s.traces.iter().enumerate() {
        cpu::restore(real);
        cpu::mask(*w);
        let o = place(c, Place::Model);
        o.a.fill(&|i, p| datum(0, i as u64, p as u8, c.dbl()));
        o.b.fill(&|i, p| datum(1, i as u64, p as u8, c.dbl()));
        o.c.fill(&|i, p| datum(2, i as u64, p as u8, c.dbl()));
        unsafe { invoke(c, &o, *al, *be) };
        let mut x = 0;
        for i in 0..c.m { for j in 0..c.n { for p in 0..if c.cplx() { 2 } else { 1 } {
            let (g, e) = (o.c.bits(i, j, p), want[x]);
            x += 1;
            let nan = |b: u64| if c.dbl() { f64::from_bits(b).is_nan() } else { f32::from_bits(b as u32).is_nan() };
            if g != e && !(nan(g) && nan(e)) {
                println!("MISMATCH trace {}: {} element ({},{}) part {}: executor {:x}, machine {:x}", n, desc(c, *al, *be), i, j, p, e, g);
                std::process::exit(1);
            }
        } } }
        ok += 1;
        o.free();
    }
    println!("OK {}", ok);
}

/// a number as an unevaluated sum of two doubles
#[derive(Clone, Copy)]
struct DD(f64, f64);
impl DD {
    fn add(self, y: DD) -> DD {
        let s = self.0 + y.0;
        let b = s - self.0;
        let e = (self.0 - (s - b)) + (y.0 - b) + self.1 + y.1;
        DD(s + e, e - ((s + e) - s))
    }
    fn mul(self, y: DD) -> DD {
        let p = self.0 * y.0;
        let e = self.0.mul_add(y.0, -p) + self.0 * y.1 + self.1 * y.0;
        DD(p + e, e - ((p + e) - p))
    }
    fn neg(self) -> DD { DD(-self.0, -self.1) }
}

/// error against the dot-product bound of the element type
fn rounding(s: &Spec) {
    let c = &s.calls[s.target];
    let cx = c.cplx();
    let u = if c.dbl() { 2f64.powi(-53) } else { 2f64.powi(-24) };
    let d = if cx { 2 * (c.k + 4) + 4 } else { c.k + 4 } as f64;
    let gamma = d * u / (1.0 - d * u);
    let o = place(c, Place::Model);
    let mut worst = 0f64;
    for seed in 0..12u64 {
        for (al, be) in pairs(c) {
            let pos = seed % 2 == 1;
            let v = |cl: u8, i: usize, p: usize| { let x = datum(cl, i as u64 + 100_003 * seed, p as u8, c.dbl()); if pos { x.abs() + 0.5 } else { x } };
            o.a.fill(&|i, p| v(0, i, p));
            o.b.fill(&|i, p| v(1, i, p));
            o.c.fill(&|i, p| v(2, i, p));
            let (al, be) = if c.dbl() { (al, be) } else { (al.map(|x| x as f32 as f64), be.map(|x| x as f32 as f64)) };
            let mut want = vec![];
            let cmul = |x: [DD; 2], y: [DD; 2]| [x[0].mul(y[0]).add(x[1].mul(y[1]).neg()), x[0].mul(y[1]).add(x[1].mul(y[0]))];
            let g = |m: &Mat, i, j| [DD(m.get(i, j, 0), 0.0), DD(if cx { m.get(i, j, 1) } else { 0.0 }, 0.0)];
            let ab = |x: [DD; 2]| x[0].0.abs() + x[1].0.abs();
            let (ad, bd) = (al.map(|x| DD(x, 0.0)), be.map(|x| DD(x, 0.0)));
            for i in 0..c.m { for j in 0..c.n {
                let mut acc = [DD(0.0, 0.0); 2];
                let mut mg = 0.0;
                for t in 0..c.k {
                    let (x, y) = (g(&o.a, i, t), g(&o.b, t, j));
                    let p = cmul(x, y);
                    acc = [acc[0].add(p[0]), acc[1].add(p[1])];
                    mg += ab(x) * ab(y);
                }
                let mut r = cmul(ad, acc);
                mg *= ab(ad);
                let old = g(&o.c, i, j);
                let q = cmul(bd, old);
                r = [r[0].add(q[0]), r[1].add(q[1])];
                mg += ab(bd) * ab(old);
                want.push((r, mg));
            } }
            unsafe { invoke(c, &o, al, be) };
            for i in 0..c.m { for j in 0..c.n { for p in 0..if cx { 2 } else { 1 } {
                let (r, mg) = want[i * c.n + j];
                let e = DD(o.c.get(i, j, p), 0.0).add(r[p].neg()).0.abs();
                if mg > 0.0 { worst = worst.max(e / (gamma * mg)); }
                if !(e <= gamma * mg) { fail(format!("{}: element ({},{}) is off by {:e} where the bound is {:e}", desc(c, al, be), i, j, e, gamma * mg)); }
            } } }
        }
    }
    println!("largest error found is {:.3} of the bound", worst);
}

pub fn child(s: &Spec, what: &str) {
    let w = ["cpu0", "cpu1", "cpu2"].map(|k| s.kv.get(k).and_then(|x| x.parse::<u64>().ok()));
    if let [Some(a), Some(b), Some(c)] = w { cpu::mask([a, b, c]); }
    match what {
        "trace" => trace(s),
        "value" => value(s),
        "mem" => memory(s),
        "bits1" => bits(s, 0),
        "bits2" => bits(s, 1),
        "history" => history(s),
        "stale" => stale(s),
        "alone" | "after" => {
            let c = &s.calls[s.target];
            if what == "after" { for (i, x) in s.calls.iter().enumerate() { if i != s.target { let (a, b) = pairs(x)[0]; call_bits(x, a, b); } } poison(); }
            for (al, be) in pairs(c) { println!("{}", call_bits(c, al, be)); }
        }
        "uninit" => uninit(s),
        "foreign" => foreign(s),
        "special" => special(s),
        "rounding" => rounding(s),
        "probe" => probe(s),
        "panic" => panic_(s),
        "cap" => cap(s),
        "race" => value(s),
        x if x.starts_with("alloc") => {
            let n: i64 = x[5..].parse().unwrap();
            let c = &s.calls[s.target];
            let o = place(c, Place::Model);
            o.a.fill(&|i, p| whole(0, i, p));
            o.b.fill(&|i, p| whole(1, i, p));
            o.c.fill(&|i, p| whole(2, i, p));
            guard::FAIL_AT.store(n, SeqCst);
            guard::ON.store(1, SeqCst);
            unsafe { invoke(c, &o, [1.0, 0.0], [0.0, 0.0]) };
            guard::ON.store(0, SeqCst);
            if (guard::COUNT.load(SeqCst) as i64) <= n { println!("NOALLOC"); return; }
            fail(format!("{}: the call returned although allocation {} failed", desc(c, [1.0, 0.0], [0.0, 0.0]), n));
        }
        x => { println!("unknown experiment {}", x); std::process::exit(4); }
    }
}

#[cfg(all(mmverif, feature = "constconf"))]
mod probing {
    use super::*;
    pub static TEXT: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    #[no_mangle]
    pub extern "C" fn mmv_env_len() -> usize { TEXT.get().map_or(0, |t| t.len()) }
    #[no_mangle]
    pub extern "C" fn mmv_env_byte(i: usize) -> u8 { TEXT.get().unwrap()[i] }
    pub fn probe(s: &Spec) {
        #[cfg(not(feature = "ext"))]
        use crate::probes::*;
        #[cfg(feature = "ext")]
        use crate::ext::probes::*;
        let h = s.kv.get("env_hex").cloned().unwrap_or_default();
        let t: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let shown = String::from_utf8_lossy(&t).to_string();
        let _ = TEXT.set(t);
        let f: unsafe extern "C" fn() -> u64 = match &s.calls[0].f[1..] {
            "h_parse_exact" => h_parse_exact,
            "h_parse_zeros" => h_parse_zeros,
            "h_parse_reject" => h_parse_reject,
            "h_blocks_s" => h_blocks_s,
            "h_blocks_d" => h_blocks_d,
            #[cfg(feature = "cgemm")]
            "h_blocks_c" => h_blocks_c,
            #[cfg(feature = "cgemm")]
            "h_blocks_z" => h_blocks_z,
            x => { println!("unknown probe {}", x); std::process::exit(4); }
        };
        let r = unsafe { f() };
        if r != 1 { fail(format!("{} on the text {:?} reports {}", s.calls[0].f, shown, r)); }
    }
}
#[cfg(all(mmverif, feature = "constconf"))]
use probing::probe;
#[cfg(not(all(mmverif, feature = "constconf")))]
fn probe(_: &Spec) { println!("built without probes"); std::process::exit(4); }
