//! Hash-consed integer expressions (with linear normal forms modulo 2^w) and float terms.
use crate::ir::{sext, Bin, FPred, IPred};
use crate::util::FxMap;

pub type E = u32; // integer expression id
pub type T = u32; // float term id

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    Var { w: u32, name: u32, tz: u32 },
    /// c + sum coef*id  (mod 2^w); constants are Lin without terms
    Lin { w: u32, c: u64, ts: Box<[(u64, E)]> },
    Bin { op: Bin, w: u32, a: E, b: E },
    ZExt { w: u32, a: E },
    SExt { w: u32, a: E },
    Trunc { w: u32, a: E },
    IsZero(E),
    Cmp { p: IPred, a: E, b: E },
    Not(E),
    And(E, E),
    Or(E, E),
    Ite { w: u32, c: E, a: E, b: E },
    FCmp { p: FPred, a: T, b: T },
    /// overflow flag of an arithmetic operation
    Ovf { op: Bin, signed: bool, a: E, b: E },
    FBits { t: T, w: u32 },
    FToI { signed: bool, w: u32, t: T },
    Opaque { w: u32, n: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Cls {
    A = 0,
    B = 1,
    C = 2,
    Alpha = 3,
    Beta = 4,
    Junk = 5, // contents the library did not write in this call
    Other = 6,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tm {
    Const { dbl: bool, bits: u64 },
    /// cls, call number, element index, part (0 re / 1 im)
    Leaf { dbl: bool, cls: Cls, call: u16, idx: u32, part: u8 },
    Add(T, T),
    Mul(T, T),
    Div(T, T),
    Neg(T),
    Fma(T, T, T),
    Ext(T),
    Tru(T),
    Ite(E, T, T),
    /// named uninterpreted operation
    Un(u32, T, T, T),
    FromInt { signed: bool, dbl: bool, e: E },
    FromBits { dbl: bool, e: E },
}

pub struct Ctx {
    pub ex: Vec<Ex>,
    exmap: FxMap<Ex, E>,
    pub wid: Vec<u8>,
    pub tz: Vec<u8>,
    /// leaf classes an expression depends on
    em: Vec<u8>,
    /// a condition decides part of the value (it widens a boolean or selects)
    pub hb: Vec<bool>,
    pub names: Vec<String>,
    pub tm: Vec<Tm>,
    tmmap: FxMap<Tm, T>,
    pub tdbl: Vec<bool>,
    pub tmask: Vec<u8>, // bit per Cls
    pub sig: Vec<Vec<(E, E)>>, // substitutions, each maps a Var id to an expression
    submemo: FxMap<(u32, E), E>,
    pub nopaque: u32,
    pub unames: Vec<String>,
    /// variables known to lie in an interval (addresses of objects)
    pub bounds: FxMap<E, (u64, u64)>,
    /// the same for signed quantities (strides)
    pub sbounds: FxMap<E, (i64, i64)>,
    /// a signed interval assumed for one expression while a case is decided
    ovr: Option<(E, (i128, i128))>,
}

fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1 << w) - 1 }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            ex: vec![], exmap: Default::default(), wid: vec![], tz: vec![], em: vec![], hb: vec![], names: vec![], tm: vec![], tmmap: Default::default(),
            tdbl: vec![], tmask: vec![], sig: vec![vec![]], submemo: Default::default(), nopaque: 0, unames: vec![], bounds: Default::default(), sbounds: Default::default(), ovr: None,
        }
    }
    fn mk(&mut self, e: Ex) -> E {
        if let Some(&i) = self.exmap.get(&e) {
            return i;
        }
        let w = match &e {
            Ex::Var { w, .. } | Ex::Lin { w, .. } | Ex::Bin { w, .. } | Ex::ZExt { w, .. } | Ex::SExt { w, .. } | Ex::Trunc { w, .. }
            | Ex::Ite { w, .. } | Ex::FBits { w, .. } | Ex::FToI { w, .. } | Ex::Opaque { w, .. } => *w,
            _ => 1,
        };
        let tz = match &e {
            Ex::Var { tz, .. } => *tz as u32,
            Ex::Lin { w, c, ts } => {
                let mut z = if *c == 0 { *w } else { c.trailing_zeros() };
                for (k, t) in ts.iter() {
                    z = z.min(k.trailing_zeros() + self.tz[*t as usize] as u32);
                }
                z.min(*w)
            }
            Ex::Bin { op: Bin::Mul, w, a, b } => (self.tz[*a as usize] as u32 + self.tz[*b as usize] as u32).min(*w),
            Ex::Bin { op: Bin::And, a, b, .. } => (self.tz[*a as usize] as u32).max(self.tz[*b as usize] as u32),
            Ex::Bin { op: Bin::Or, a, b, .. } | Ex::Bin { op: Bin::Xor, a, b, .. } | Ex::Ite { a, b, .. } => {
                (self.tz[*a as usize] as u32).min(self.tz[*b as usize] as u32)
            }
            Ex::ZExt { a, .. } | Ex::SExt { a, .. } => self.tz[*a as usize] as u32,
            Ex::Trunc { w, a } => (self.tz[*a as usize] as u32).min(*w),
            _ => 0,
        };
        let i = self.ex.len() as E;
        self.ex.push(e.clone());
        let m = self.emask0(&e);
        let h = match &e {
            Ex::Lin { ts, .. } => ts.iter().any(|x| self.hb[x.1 as usize]),
            Ex::Bin { a, b, .. } | Ex::Cmp { a, b, .. } | Ex::And(a, b) | Ex::Or(a, b) | Ex::Ovf { a, b, .. } => self.hb[*a as usize] || self.hb[*b as usize],
            Ex::ZExt { a, .. } | Ex::SExt { a, .. } => self.wid[*a as usize] == 1 || self.hb[*a as usize],
            Ex::Trunc { a, .. } | Ex::IsZero(a) | Ex::Not(a) => self.hb[*a as usize],
            Ex::Ite { .. } => true,
            _ => false,
        };
        self.em.push(m);
        self.hb.push(h);
        self.wid.push(w as u8);
        self.tz.push(tz as u8);
        self.exmap.insert(e, i);
        i
    }
    pub fn var(&mut self, name: &str, w: u32, tz: u32) -> E {
        let n = match self.names.iter().position(|x| x == name) {
            Some(p) => p as u32,
            None => {
                self.names.push(name.to_string());
                self.names.len() as u32 - 1
            }
        };
        self.mk(Ex::Var { w, name: n, tz })
    }
    pub fn opaque(&mut self, w: u32) -> E {
        self.nopaque += 1;
        let n = self.nopaque;
        self.mk(Ex::Opaque { w, n })
    }
    pub fn k(&mut self, w: u32, c: u64) -> E {
        self.mk(Ex::Lin { w, c: c & mask(w), ts: Box::new([]) })
    }
    pub fn w(&self, e: E) -> u32 {
        self.wid[e as usize] as u32
    }
    pub fn as_const(&self, e: E) -> Option<u64> {
        match &self.ex[e as usize] {
            Ex::Lin { c, ts, .. } if ts.is_empty() => Some(*c),
            _ => None,
        }
    }
    fn lin_of(&self, e: E) -> (u64, Vec<(u64, E)>) {
        match &self.ex[e as usize] {
            Ex::Lin { c, ts, .. } => (*c, ts.to_vec()),
            _ => (0, vec![(1, e)]),
        }
    }
    pub fn mklin(&mut self, w: u32, c: u64, mut ts: Vec<(u64, E)>) -> E {
        let m = mask(w);
        ts.retain_mut(|t| {
            t.0 &= m;
            t.0 != 0
        });
        if ts.len() == 1 && ts[0].0 == 1 && c & m == 0 {
            return ts[0].1;
        }
        self.mk(Ex::Lin { w, c: c & m, ts: ts.into_boxed_slice() })
    }
    pub fn addmul(&mut self, a: E, b: E, kb: u64) -> E {
        // a + kb*b
        let w = self.w(a);
        let (ca, ta) = self.lin_of(a);
        let (cb, tb) = self.lin_of(b);
        let mut out = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() || (i < ta.len() && ta[i].1 < tb[j].1) {
                out.push(ta[i]);
                i += 1;
            } else if i >= ta.len() || tb[j].1 < ta[i].1 {
                out.push((tb[j].0.wrapping_mul(kb), tb[j].1));
                j += 1;
            } else {
                out.push((ta[i].0.wrapping_add(tb[j].0.wrapping_mul(kb)), ta[i].1));
                i += 1;
                j += 1;
            }
        }
        self.mklin(w, ca.wrapping_add(cb.wrapping_mul(kb)), out)
    }
    pub fn addk(&mut self, a: E, c: u64) -> E {
        let w = self.w(a);
        let (ca, ta) = self.lin_of(a);
        self.mklin(w, ca.wrapping_add(c), ta)
    }
    pub fn mulk(&mut self, a: E, k: u64) -> E {
        let w = self.w(a);
        let (ca, ta) = self.lin_of(a);
        let ts = ta.into_iter().map(|(x, t)| (x.wrapping_mul(k), t)).collect();
        self.mklin(w, ca.wrapping_mul(k), ts)
    }
    pub fn fold(op: Bin, w: u32, a: u64, b: u64) -> Option<u64> {
        let m = mask(w);
        let (sa, sb) = (sext(a, w), sext(b, w));
        Some(m & match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => if b == 0 { return None } else { a / b },
            Bin::URem => if b == 0 { return None } else { a % b },
            Bin::SDiv => if sb == 0 { return None } else { sa.wrapping_div(sb) as u64 },
            Bin::SRem => if sb == 0 { return None } else { sa.wrapping_rem(sb) as u64 },
            Bin::Shl => if b >= w as u64 { 0 } else { a << b },
            Bin::LShr => if b >= w as u64 { 0 } else { a >> b },
            Bin::AShr => (sa >> b.min(63)) as u64,
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
            Bin::UMin => a.min(b),
            Bin::UMax => a.max(b),
            Bin::SMin => sa.min(sb) as u64,
            Bin::SMax => sa.max(sb) as u64,
            Bin::USubSat => a.saturating_sub(b),
            Bin::UAddSat => if w == 64 { a.saturating_add(b) } else { (a + b).min(m) },
            Bin::SSubSat => if w == 64 { sa.saturating_sub(sb) as u64 } else { (sa - sb).clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) as u64 },
            Bin::SAddSat => if w == 64 { sa.saturating_add(sb) as u64 } else { (sa + sb).clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) as u64 },
        })
    }
    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(v) = Ctx::fold(op, w, x, y) {
                return self.k(w, v);
            }
        }
        if w == 1 {
            match op {
                Bin::And | Bin::Mul | Bin::UMin => return self.and(a, b),
                Bin::Or | Bin::UMax => return self.or(a, b),
                Bin::Xor | Bin::Add | Bin::Sub => {
                    if kb == Some(1) { return self.not(a); }
                    if ka == Some(1) { return self.not(b); }
                    if kb == Some(0) { return a; }
                    if ka == Some(0) { return b; }
                    if a == b { return self.k(1, 0); }
                    let (na, nb) = (self.not(a), self.not(b));
                    let x = self.and(a, nb);
                    let y = self.and(na, b);
                    return self.or(x, y);
                }
                _ => {}
            }
        }
        match op {
            Bin::Add => return self.addmul(a, b, 1),
            Bin::Sub => return self.addmul(a, b, u64::MAX),
            Bin::Mul => {
                if let Some(k) = kb { return self.mulk(a, k); }
                if let Some(k) = ka { return self.mulk(b, k); }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                return self.mk(Ex::Bin { op, w, a, b });
            }
            Bin::Shl => {
                if let Some(k) = kb {
                    return if k >= w as u64 { self.k(w, 0) } else { self.mulk(a, 1 << k) };
                }
            }
            Bin::And | Bin::URem => {
                let (x, mk) = match (op, ka, kb) {
                    (Bin::URem, _, Some(k)) if k.is_power_of_two() => (a, Some(k - 1)),
                    (Bin::And, _, Some(k)) => (a, Some(k)),
                    (Bin::And, Some(k), _) => (b, Some(k)),
                    _ => (a, None),
                };
                if let Some(k) = mk {
                    if k == 0 { return self.k(w, 0); }
                    if k == mask(w) { return x; }
                    // low mask on a linear form: drop terms that are multiples of the mask's modulus
                    if (k + 1).is_power_of_two() {
                        let bits = (k + 1).trailing_zeros();
                        let (c, ts) = self.lin_of(x);
                        let ts2: Vec<_> = ts.iter().filter(|(q, t)| q.trailing_zeros() + self.tz[*t as usize] as u32 % 65 < bits).map(|(q, t)| (q & k, *t)).collect();
                        let c2 = c & k;
                        if ts2.is_empty() { return self.k(w, c2); }
                        let y = self.mklin(w, c2, ts2);
                        let kk = self.k(w, k);
                        return self.mk(Ex::Bin { op: Bin::And, w, a: y, b: kk });
                    }
                    let kk = self.k(w, k);
                    return self.mk(Ex::Bin { op: Bin::And, w, a: x, b: kk });
                }
                if a == b {
                    return if op == Bin::And { a } else { self.k(w, 0) };
                }
            }
            Bin::Or => {
                if kb == Some(0) || a == b { return a; }
                if ka == Some(0) { return b; }
            }
            Bin::Xor => {
                if kb == Some(0) { return a; }
                if ka == Some(0) { return b; }
                if a == b { return self.k(w, 0); }
            }
            Bin::LShr | Bin::AShr => {
                if kb == Some(0) { return a; }
                if let (Some(k), Ex::Lin { c, ts, .. }) = (kb, self.ex[a as usize].clone()) {
                    let _ = (k, c, ts);
                }
            }
            Bin::UDiv | Bin::SDiv => {
                if kb == Some(1) { return a; }
            }
            Bin::UMin | Bin::SMin | Bin::UMax | Bin::SMax => {
                if a == b { return a; }
            }
            _ => {}
        }
        self.mk(Ex::Bin { op, w, a, b })
    }
    pub fn not(&mut self, a: E) -> E {
        if let Some(c) = self.as_const(a) { return self.k(1, 1 - (c & 1)); }
        match self.ex[a as usize] {
            Ex::Not(x) => x,
            Ex::Cmp { p, a: x, b: y } => {
                let q = match p { IPred::Ugt => IPred::Ule, IPred::Uge => IPred::Ult, IPred::Ult => IPred::Uge, IPred::Ule => IPred::Ugt, IPred::Sgt => IPred::Sle, IPred::Sge => IPred::Slt, IPred::Slt => IPred::Sge, IPred::Sle => IPred::Sgt, _ => { return self.mk(Ex::Not(a)); } };
                self.cmp(q, x, y)
            }
            _ => self.mk(Ex::Not(a)),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        match (self.as_const(a), self.as_const(b)) {
            (Some(0), _) | (_, Some(0)) => return self.k(1, 0),
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if a == b { return a; }
        if self.not(a) == b { return self.k(1, 0); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Ex::And(a, b))
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        match (self.as_const(a), self.as_const(b)) {
            (Some(1), _) | (_, Some(1)) => return self.k(1, 1),
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if let Some(v) = self.split_sign(a, b) { return self.k(1, v as u64); }
        if a == b { return a; }
        if self.not(a) == b { return self.k(1, 1); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Ex::Or(a, b))
    }
    /// decides `a or b` by the two cases of the sign test it contains, where intervals settle both
    fn split_sign(&mut self, a: E, b: E) -> Option<bool> {
        if self.bounds.is_empty() && self.sbounds.is_empty() { return None; }
        let mut parts = vec![];
        for x in [a, b] { match self.ex[x as usize] { Ex::And(p, q) => { parts.push(p); parts.push(q); } _ => parts.push(x) } }
        if parts.len() > 4 { return None; }
        let mut x = None;
        for p in &parts {
            let mut p = *p;
            if let Ex::Not(q) = self.ex[p as usize] { p = q; }
            if let Ex::Cmp { p: IPred::Sge | IPred::Slt | IPred::Sgt | IPred::Sle, a, b } = self.ex[p as usize] {
                let m = mask(self.w(a));
                if matches!(self.as_const(a), Some(c) if c == 0 || c == m) { x = Some(b); }
                if matches!(self.as_const(b), Some(c) if c == 0 || c == m) { x = Some(a); }
            }
        }
        let x = x?;
        let (lo, hi) = self.srange(x, 4)?;
        if lo >= 0 || hi < 0 { return None; }
        let mut r = None;
        for iv in [(0, hi), (lo, -1)] {
            self.ovr = Some((x, iv));
            let v = match (self.eval3(a), self.eval3(b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None };
            self.ovr = None;
            let v = v?;
            if r.map_or(false, |u| u != v) { return None; }
            r = Some(v);
        }
        r
    }
    fn eval3(&self, e: E) -> Option<bool> {
        match self.ex[e as usize] {
            Ex::Not(a) => self.eval3(a).map(|x| !x),
            Ex::And(a, b) => match (self.eval3(a), self.eval3(b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Ex::Or(a, b) => match (self.eval3(a), self.eval3(b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Ex::Cmp { p, a, b } => self.cmp_range(p, a, b, self.w(a)),
            _ => self.as_const(e).map(|v| v != 0),
        }
    }
    pub fn fold_cmp(p: IPred, w: u32, a: u64, b: u64) -> bool {
        let (sa, sb) = (sext(a, w), sext(b, w));
        match p {
            IPred::Eq => a == b, IPred::Ne => a != b, IPred::Ugt => a > b, IPred::Uge => a >= b, IPred::Ult => a < b, IPred::Ule => a <= b,
            IPred::Sgt => sa > sb, IPred::Sge => sa >= sb, IPred::Slt => sa < sb, IPred::Sle => sa <= sb,
        }
    }
    /// unsigned interval of an expression, from the known intervals of its variables
    pub fn range(&self, e: E, depth: u32) -> (u64, u64) {
        let m = mask(self.w(e));
        if let Some((x, (lo, hi))) = self.ovr {
            if x == e { let q = m as i128 + 1; return if lo >= 0 { (lo as u64, hi as u64) } else if hi < 0 { ((lo + q) as u64, (hi + q) as u64) } else { (0, m) }; }
        }
        if depth == 0 { return (0, m); }
        match &self.ex[e as usize] {
            Ex::Var { .. } => self.bounds.get(&e).copied().unwrap_or((0, m)),
            Ex::Lin { w, c, ts } => {
                // exact integer interval with signed or unsigned intervals of the parts, then reduced modulo 2^w
                let (mut lo, mut hi) = (sext(*c, *w) as i128, sext(*c, *w) as i128);
                for (k, t) in ts.iter() {
                    let (a, b) = match self.srange(*t, depth - 1) { Some(r) => r, None => { let r = self.range(*t, depth - 1); (r.0 as i128, r.1 as i128) } };
                    let k = sext(*k, *w) as i128;
                    let (p, q) = (k.saturating_mul(a), k.saturating_mul(b));
                    if p.unsigned_abs() > 1 << 100 || q.unsigned_abs() > 1 << 100 { return (0, m); }
                    lo += p.min(q);
                    hi += p.max(q);
                }
                let q = m as i128 + 1;
                if lo.div_euclid(q) != hi.div_euclid(q) { (0, m) } else { (lo.rem_euclid(q) as u64, hi.rem_euclid(q) as u64) }
            }
            Ex::Bin { op: Bin::Xor, a, b, .. } if self.as_const(*b) == Some(m) => { let (x, y) = self.range(*a, depth - 1); (m - y, m - x) }
            Ex::Bin { op: Bin::And, a, b, .. } => { let (x, y) = (self.range(*a, depth - 1), self.range(*b, depth - 1)); (0, x.1.min(y.1)) }
            Ex::Bin { op: Bin::LShr, a, b, .. } => { let x = self.range(*a, depth - 1); match self.as_const(*b) { Some(s) if s < 64 => (x.0 >> s, x.1 >> s), _ => (0, x.1) } }
            Ex::ZExt { a, .. } => self.range(*a, depth - 1),
            Ex::Ite { a, b, .. } => { let (x, y) = (self.range(*a, depth - 1), self.range(*b, depth - 1)); (x.0.min(y.0), x.1.max(y.1)) }
            _ => (0, m),
        }
    }
    /// signed interval; None if nothing better than the whole type is known
    pub fn srange(&self, e: E, depth: u32) -> Option<(i128, i128)> {
        let w = self.w(e);
        let (tlo, thi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        if let Some((x, r)) = self.ovr { if x == e { return Some(r); } }
        if depth == 0 { return None; }
        let r = match &self.ex[e as usize] {
            Ex::Var { .. } => match self.sbounds.get(&e) {
                Some((a, b)) => (*a as i128, *b as i128),
                None => { let b = self.bounds.get(&e)?; (b.0 as i128, b.1 as i128) }
            },
            Ex::Lin { w, c, ts } => {
                let (mut lo, mut hi) = (sext(*c, *w) as i128, sext(*c, *w) as i128);
                for (k, t) in ts.iter() {
                    let (a, b) = self.srange(*t, depth - 1)?;
                    let k = sext(*k, *w) as i128;
                    let (p, q) = (k.saturating_mul(a), k.saturating_mul(b));
                    if p.unsigned_abs() > 1 << 100 || q.unsigned_abs() > 1 << 100 { return None; }
                    lo += p.min(q);
                    hi += p.max(q);
                }
                (lo, hi)
            }
            Ex::ZExt { a, .. } => { let r = self.range(*a, depth - 1); (r.0 as i128, r.1 as i128) }
            Ex::Ite { a, b, .. } => { let (x, y) = (self.srange(*a, depth - 1)?, self.srange(*b, depth - 1)?); (x.0.min(y.0), x.1.max(y.1)) }
            _ => { let r = self.range(e, depth); (r.0 as i128, r.1 as i128) }
        };
        if r.0 < tlo || r.1 > thi { None } else { Some(r) }
    }
    /// the expression as constant plus multiples of its terms over the integers, if that never leaves the unsigned type
    fn integer(&self, e: E, depth: u32) -> Option<(i128, Vec<(i128, E)>)> {
        let (mut c0, mut t) = (0i128, vec![]);
        match &self.ex[e as usize] {
            Ex::Lin { w, c, ts } => {
                c0 = sext(*c, *w) as i128;
                for (k, x) in ts.iter() { t.push((sext(*k, *w) as i128, *x)); }
            }
            _ => t.push((1, e)),
        }
        let (mut lo, mut hi) = (c0, c0);
        for (k, x) in &t {
            let r = self.range(*x, depth - 1);
            let (p, q) = (k.checked_mul(r.0 as i128)?, k.checked_mul(r.1 as i128)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        let m = mask(self.w(e)) as i128;
        if lo < 0 { c0 += m + 1; lo += m + 1; hi += m + 1; }
        if lo < 0 || hi > m { None } else { Some((c0, t)) }
    }
    fn difference(&self, a: &(i128, Vec<(i128, E)>), b: &(i128, Vec<(i128, E)>)) -> Option<(i128, i128)> {
        let mut t: Vec<(i128, E)> = a.1.clone();
        for (k, x) in &b.1 {
            match t.iter_mut().find(|y| y.1 == *x) { Some(y) => y.0 -= *k, None => t.push((-*k, *x)) }
        }
        let (mut lo, mut hi) = (a.0 - b.0, a.0 - b.0);
        for (k, x) in &t {
            let r = self.range(*x, 3);
            let (p, q) = (k.checked_mul(r.0 as i128)?, k.checked_mul(r.1 as i128)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    fn addr_like(&self, e: E) -> bool {
        match self.srange(e, 4) { Some((lo, hi)) => lo >= 0 && hi < (1i128 << 63) && self.w(e) == 64, None => false }
    }
    fn cmp_range(&self, p: IPred, a: E, b: E, w: u32) -> Option<bool> {
        if w == 1 || (self.bounds.is_empty() && self.sbounds.is_empty()) { return None; }
        if let (Some(x), Some(y)) = (self.srange(a, 4), self.srange(b, 4)) {
            let pos = x.0 >= 0 && y.0 >= 0;
            let lt = |x: (i128, i128), y: (i128, i128)| if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None };
            let le = |x: (i128, i128), y: (i128, i128)| if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None };
            let r = match p {
                IPred::Slt => lt(x, y),
                IPred::Sle => le(x, y),
                IPred::Sgt => lt(y, x),
                IPred::Sge => le(y, x),
                IPred::Ult if pos => lt(x, y),
                IPred::Ule if pos => le(x, y),
                IPred::Ugt if pos => lt(y, x),
                IPred::Uge if pos => le(y, x),
                IPred::Eq if x.1 < y.0 || y.1 < x.0 => Some(false),
                IPred::Ne if x.1 < y.0 || y.1 < x.0 => Some(true),
                _ => None,
            };
            if r.is_some() { return r; }
        }
        if matches!(p, IPred::Ult | IPred::Ule | IPred::Ugt | IPred::Uge) {
            if let (Some(x), Some(y)) = (self.integer(a, 4), self.integer(b, 4)) {
                if let Some((lo, hi)) = self.difference(&x, &y) {
                    let r = match p {
                        IPred::Ult => if hi < 0 { Some(true) } else if lo >= 0 { Some(false) } else { None },
                        IPred::Ule => if hi <= 0 { Some(true) } else if lo > 0 { Some(false) } else { None },
                        IPred::Ugt => if lo > 0 { Some(true) } else if hi <= 0 { Some(false) } else { None },
                        _ => if lo >= 0 { Some(true) } else if hi < 0 { Some(false) } else { None },
                    };
                    if r.is_some() { return r; }
                }
            }
        }
        let (x, y) = (self.range(a, 4), self.range(b, 4));
        let half = mask(w) >> 1;
        let nonneg = x.1 <= half && y.1 <= half;
        match p {
            IPred::Eq if x.1 < y.0 || y.1 < x.0 => Some(false),
            IPred::Ne if x.1 < y.0 || y.1 < x.0 => Some(true),
            IPred::Ult if x.1 < y.0 => Some(true),
            IPred::Ult if x.0 >= y.1 => Some(false),
            IPred::Ule if x.1 <= y.0 => Some(true),
            IPred::Ule if x.0 > y.1 => Some(false),
            IPred::Ugt => self.cmp_range(IPred::Ult, b, a, w),
            IPred::Uge => self.cmp_range(IPred::Ule, b, a, w),
            IPred::Slt if nonneg => self.cmp_range(IPred::Ult, a, b, w),
            IPred::Sle if nonneg => self.cmp_range(IPred::Ule, a, b, w),
            IPred::Sgt if nonneg => self.cmp_range(IPred::Ult, b, a, w),
            IPred::Sge if nonneg => self.cmp_range(IPred::Ule, b, a, w),
            _ => None,
        }
    }
    pub fn cmp(&mut self, p: IPred, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.k(1, Ctx::fold_cmp(p, w, x, y) as u64);
        }
        if a == b {
            return self.k(1, matches!(p, IPred::Eq | IPred::Uge | IPred::Ule | IPred::Sge | IPred::Sle) as u64);
        }
        if let Some(r) = self.cmp_range(p, a, b, w) { return self.k(1, r as u64); }
        match p {
            IPred::Ne => {
                let e = self.cmp(IPred::Eq, a, b);
                self.not(e)
            }
            IPred::Eq => {
                if w == 1 {
                    if self.as_const(b) == Some(1) { return a; }
                    if self.as_const(b) == Some(0) { return self.not(a); }
                    if self.as_const(a) == Some(1) { return b; }
                    if self.as_const(a) == Some(0) { return self.not(b); }
                    let x = self.bin(Bin::Xor, a, b);
                    return self.not(x);
                }
                // zext of i1 compared with constants
                if let (Ex::ZExt { a: x, .. }, Some(k)) = (self.ex[a as usize].clone(), self.as_const(b)) {
                    let xw = self.w(x);
                    if k > mask(xw) { return self.k(1, 0); }
                    let kk = self.k(xw, k);
                    return self.cmp(IPred::Eq, x, kk);
                }
                let d = self.bin(Bin::Sub, a, b);
                if let Some(c) = self.as_const(d) { return self.k(1, (c == 0) as u64); }
                if let Ex::Lin { c: 0, ts, .. } = &self.ex[d as usize] {
                    // a shifted narrow value is zero exactly when the value is
                    if ts.len() == 1 && (ts[0].0.is_power_of_two() || ts[0].0.wrapping_neg().is_power_of_two()) {
                        let s = ts[0].0.trailing_zeros();
                        if let Ex::ZExt { a: x, .. } = self.ex[ts[0].1 as usize] {
                            if self.w(x) + s <= w {
                                let z = { let xw = self.w(x); self.k(xw, 0) };
                                return self.cmp(IPred::Eq, x, z);
                            }
                        }
                    }
                }
                if let Ex::ZExt { a: x, .. } = self.ex[d as usize] {
                    let z = { let xw = self.w(x); self.k(xw, 0) };
                    return self.cmp(IPred::Eq, x, z);
                }
                if let Ex::FBits { t, .. } = self.ex[d as usize] {
                    // |x| has all bits clear exactly when x is a zero
                    if let Tm::Un(n, x, _, _) = self.tm[t as usize] {
                        if self.unames[n as usize] == "fabs" {
                            let z = { let dbl = self.tdbl[x as usize]; self.tk(dbl, 0) };
                            return self.fcmp(FPred::Oeq, x, z);
                        }
                    }
                }
                if let Ex::Lin { c, ts, .. } = &self.ex[d as usize] {
                    let z = ts.iter().map(|(k, t)| k.trailing_zeros() + self.tz[*t as usize] as u32).min().unwrap_or(0);
                    if *c != 0 && c.trailing_zeros() < z.min(w) {
                        return self.k(1, 0);
                    }
                    // sign normalisation
                    let first = ts[0].0;
                    if first > mask(w) / 2 {
                        let nd = self.mulk(d, u64::MAX);
                        return self.mk(Ex::IsZero(nd));
                    }
                }
                self.mk(Ex::IsZero(d))
            }
            IPred::Ult | IPred::Uge | IPred::Ugt | IPred::Ule if self.addr_like(a) && self.addr_like(b) && !(self.as_const(a).is_some() || self.as_const(b).is_some()) => {
                // two addresses that cannot wrap: compare their distance
                let d = self.bin(Bin::Sub, a, b);
                let z = self.k(w, 0);
                let q = match p { IPred::Ult => IPred::Slt, IPred::Uge => IPred::Sge, IPred::Ugt => IPred::Sgt, _ => IPred::Sle };
                self.cmp(q, d, z)
            }
            IPred::Ult if self.as_const(b) == Some(0) => self.k(1, 0),
            IPred::Uge if self.as_const(b) == Some(0) => self.k(1, 1),
            IPred::Ult if self.as_const(b) == Some(1) => { let z = self.k(w, 0); self.cmp(IPred::Eq, a, z) }
            IPred::Ugt if self.as_const(b) == Some(0) => { let z = self.k(w, 0); self.cmp(IPred::Ne, a, z) }
            IPred::Ugt => self.mk(Ex::Cmp { p: IPred::Ult, a: b, b: a }),
            IPred::Ule => self.mk(Ex::Cmp { p: IPred::Uge, a: b, b: a }),
            IPred::Sgt => self.mk(Ex::Cmp { p: IPred::Slt, a: b, b: a }),
            IPred::Sle => self.mk(Ex::Cmp { p: IPred::Sge, a: b, b: a }),
            _ => self.mk(Ex::Cmp { p, a, b }),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        if self.w(a) == w { return a; }
        if let Some(c) = self.as_const(a) { return self.k(w, c); }
        if let Ex::ZExt { a: x, .. } = self.ex[a as usize] { return self.zext(x, w); }
        self.mk(Ex::ZExt { w, a })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.k(w, sext(c, aw) as u64); }
        self.mk(Ex::SExt { w, a })
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        if self.w(a) == w { return a; }
        match self.ex[a as usize].clone() {
            Ex::Lin { c, ts, .. } if ts.is_empty() => self.k(w, c),
            Ex::ZExt { a: x, .. } | Ex::SExt { a: x, .. } => {
                let xw = self.w(x);
                if xw == w { x } else if xw > w { self.trunc(x, w) } else if let Ex::ZExt { .. } = self.ex[a as usize] { self.zext(x, w) } else { self.sext(x, w) }
            }
            Ex::Trunc { a: x, .. } => self.trunc(x, w),
            _ => self.mk(Ex::Trunc { w, a }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            let nc = self.not(c);
            let x = self.and(c, a);
            let y = self.and(nc, b);
            return self.or(x, y);
        }
        self.mk(Ex::Ite { w, c, a, b })
    }
    pub fn ovf(&mut self, op: Bin, signed: bool, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let w = self.w(a);
            let o = if signed {
                let (x, y) = (sext(x, w) as i128, sext(y, w) as i128);
                let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y };
                r < -(1i128 << (w - 1)) || r >= (1i128 << (w - 1))
            } else {
                let (x, y) = (x as u128, y as u128);
                match op { Bin::Add => x + y > mask(w) as u128, Bin::Sub => x < y, _ => x.checked_mul(y).map_or(true, |r| r > mask(w) as u128) }
            };
            return self.k(1, o as u64);
        }
        if op == Bin::Mul {
            for (x, _) in [(a, b), (b, a)] {
                if matches!(self.as_const(x), Some(0) | Some(1)) { return self.k(1, 0); }
            }
        }
        if self.as_const(b) == Some(0) { return self.k(1, 0); }
        if signed && !(self.bounds.is_empty() && self.sbounds.is_empty()) {
            if let (Some(x), Some(y)) = (self.srange(a, 4), self.srange(b, 4)) {
                let w = self.w(a);
                let c: Vec<i128> = match op {
                    Bin::Add => vec![x.0 + y.0, x.1 + y.1],
                    Bin::Sub => vec![x.0 - y.1, x.1 - y.0],
                    _ => [(x.0, y.0), (x.0, y.1), (x.1, y.0), (x.1, y.1)].iter().map(|(p, q)| p.saturating_mul(*q)).collect(),
                };
                if c.iter().all(|v| *v >= -(1i128 << (w - 1)) && *v < (1i128 << (w - 1))) { return self.k(1, 0); }
            }
        }
        if op == Bin::Add && !signed && !self.bounds.is_empty() {
            let (x, y) = (self.range(a, 4), self.range(b, 4));
            if x.1 as u128 + y.1 as u128 <= mask(self.w(a)) as u128 { return self.k(1, 0); }
        }
        if op == Bin::Mul && !signed {
            for (x, y) in [(a, b), (b, a)] {
                if let Some(c) = self.as_const(x) { if c > 1 {
                    let w = self.w(a);
                    let lim = self.k(w, mask(w) / c);
                    return self.cmp(IPred::Ugt, y, lim);
                } }
            }
        }
        self.mk(Ex::Ovf { op, signed, a, b })
    }
    pub fn fcmp(&mut self, p: FPred, a: T, b: T) -> E {
        use FPred::*;
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) {
            return self.k(1, fcmp_concrete(p, x, y) as u64);
        }
        match p {
            False => return self.k(1, 0),
            True => return self.k(1, 1),
            Une | Uno | Ult | Ule | Ugt | Uge | Ueq => {
                let q = match p { Une => Oeq, Uno => Ord, Ult => Oge, Ule => Ogt, Ugt => Ole, Uge => Olt, _ => One };
                let e = self.fcmp(q, a, b);
                return self.not(e);
            }
            _ => {}
        }
        // canonical order, -0.0 as +0.0 in comparisons
        let nz = |s: &mut Ctx, t: T| if s.fval(t) == Some(0.0) { let d = s.tdbl[t as usize]; s.tk(d, 0) } else { t };
        let (a, b) = (nz(self, a), nz(self, b));
        let (p, a, b) = match p { Ogt => (Olt, b, a), Oge => (Ole, b, a), Oeq | One | Ord if a > b => (p, b, a), _ => (p, a, b) };
        self.mk(Ex::FCmp { p, a, b })
    }
    pub fn fbits(&mut self, t: T) -> E {
        let w = if self.tdbl[t as usize] { 64 } else { 32 };
        match self.tm[t as usize] {
            Tm::Const { bits, .. } => self.k(w, bits),
            Tm::FromBits { e, .. } => e,
            _ => self.mk(Ex::FBits { t, w }),
        }
    }
    pub fn ftoi(&mut self, t: T, signed: bool, w: u32) -> E {
        self.mk(Ex::FToI { signed, w, t })
    }

    // ------------------------------------------------------------ substitutions
    pub fn subst_add(&mut self, sig: u32, var: E, by: E) -> u32 {
        let mut s = self.sig[sig as usize].clone();
        let by = self.subst(sig, by);
        let one = vec![(var, by)];
        let ts = self.sig_id(one);
        for x in s.iter_mut() {
            x.1 = self.subst(ts, x.1);
        }
        s.push((var, by));
        s.sort();
        self.sig_id(s)
    }
    fn sig_id(&mut self, s: Vec<(E, E)>) -> u32 {
        match self.sig.iter().position(|x| *x == s) {
            Some(p) => p as u32,
            None => {
                self.sig.push(s);
                self.sig.len() as u32 - 1
            }
        }
    }
    pub fn subst(&mut self, sig: u32, e: E) -> E {
        if sig == 0 { return e; }
        if let Some(&r) = self.submemo.get(&(sig, e)) { return r; }
        let r = match self.ex[e as usize].clone() {
            Ex::Var { .. } => self.sig[sig as usize].iter().find(|x| x.0 == e).map_or(e, |x| x.1),
            Ex::Lin { w, c, ts } => {
                let mut acc = self.k(w, c);
                for (k, t) in ts.iter() {
                    let t2 = self.subst(sig, *t);
                    acc = self.addmul(acc, t2, *k);
                }
                acc
            }
            Ex::Bin { op, a, b, .. } => { let (a, b) = (self.subst(sig, a), self.subst(sig, b)); self.bin(op, a, b) }
            Ex::ZExt { w, a } => { let a = self.subst(sig, a); self.zext(a, w) }
            Ex::SExt { w, a } => { let a = self.subst(sig, a); self.sext(a, w) }
            Ex::Trunc { w, a } => { let a = self.subst(sig, a); self.trunc(a, w) }
            Ex::IsZero(a) => { let a = self.subst(sig, a); let z = self.k(self.w(a), 0); self.cmp(IPred::Eq, a, z) }
            Ex::Cmp { p, a, b } => { let (a, b) = (self.subst(sig, a), self.subst(sig, b)); self.cmp(p, a, b) }
            Ex::Not(a) => { let a = self.subst(sig, a); self.not(a) }
            Ex::And(a, b) => { let (a, b) = (self.subst(sig, a), self.subst(sig, b)); self.and(a, b) }
            Ex::Or(a, b) => { let (a, b) = (self.subst(sig, a), self.subst(sig, b)); self.or(a, b) }
            Ex::Ite { c, a, b, .. } => { let (c, a, b) = (self.subst(sig, c), self.subst(sig, a), self.subst(sig, b)); self.ite(c, a, b) }
            Ex::Ovf { op, signed, a, b } => { let (a, b) = (self.subst(sig, a), self.subst(sig, b)); self.ovf(op, signed, a, b) }
            _ => e,
        };
        self.submemo.insert((sig, e), r);
        r
    }
    /// from `e == 0` derive var := expr when a variable has an odd coefficient
    pub fn solve_zero(&mut self, e: E) -> Option<(E, E)> {
        let (w, c, ts) = match self.ex[e as usize].clone() {
            Ex::Lin { w, c, ts } => (w, c, ts),
            Ex::Var { w, .. } => { let z = self.k(w, 0); return Some((e, z)); }
            _ => return None,
        };
        for (i, (k, t)) in ts.iter().enumerate() {
            if k & 1 == 1 && matches!(self.ex[*t as usize], Ex::Var { .. }) {
                // inverse of k mod 2^64
                let mut inv: u64 = 1;
                for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(inv))); }
                let rest: Vec<_> = ts.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect();
                let l = self.mklin(w, c, rest);
                let r = self.mulk(l, inv.wrapping_neg());
                return Some((*t, r));
            }
        }
        None
    }

    // ------------------------------------------------------------ float terms
    fn mkt(&mut self, t: Tm) -> T {
        if let Some(&i) = self.tmmap.get(&t) { return i; }
        let (d, m) = match t {
            Tm::Const { dbl, .. } => (dbl, 0),
            Tm::Leaf { dbl, cls, .. } => (dbl, 1u8 << (cls as u8)),
            Tm::Add(a, b) | Tm::Mul(a, b) | Tm::Div(a, b) => (self.tdbl[a as usize], self.tmask[a as usize] | self.tmask[b as usize]),
            Tm::Neg(a) => (self.tdbl[a as usize], self.tmask[a as usize]),
            Tm::Fma(a, b, c) => (self.tdbl[a as usize], self.tmask[a as usize] | self.tmask[b as usize] | self.tmask[c as usize]),
            Tm::Ext(a) => (true, self.tmask[a as usize]),
            Tm::Tru(a) => (false, self.tmask[a as usize]),
            Tm::Ite(c, a, b) => (self.tdbl[a as usize], self.tmask[a as usize] | self.tmask[b as usize] | self.emask(c)),
            Tm::Un(_, a, b, c) => (self.tdbl[a as usize], self.tmask[a as usize] | self.tmask[b as usize] | self.tmask[c as usize]),
            Tm::FromInt { dbl, e, .. } | Tm::FromBits { dbl, e } => (dbl, self.emask(e)),
        };
        let i = self.tm.len() as T;
        self.tm.push(t);
        self.tdbl.push(d);
        self.tmask.push(m);
        self.tmmap.insert(t, i);
        i
    }
    /// leaf classes an integer expression depends on
    pub fn emask(&self, e: E) -> u8 { self.em[e as usize] }
    fn emask0(&self, x: &Ex) -> u8 {
        match x {
            Ex::FCmp { a, b, .. } => self.tmask[*a as usize] | self.tmask[*b as usize],
            Ex::FBits { t, .. } | Ex::FToI { t, .. } => self.tmask[*t as usize],
            Ex::Lin { ts, .. } => ts.iter().fold(0, |m, x| m | self.emask(x.1)),
            Ex::Bin { a, b, .. } | Ex::Cmp { a, b, .. } | Ex::And(a, b) | Ex::Or(a, b) | Ex::Ovf { a, b, .. } => self.emask(*a) | self.emask(*b),
            Ex::ZExt { a, .. } | Ex::SExt { a, .. } | Ex::Trunc { a, .. } | Ex::IsZero(a) | Ex::Not(a) => self.emask(*a),
            Ex::Ite { c, a, b, .. } => self.emask(*c) | self.emask(*a) | self.emask(*b),
            Ex::Var { name, .. } if self.names[*name as usize].starts_with("junk") => 1 << (Cls::Junk as u8),
            _ => 0,
        }
    }
    /// `e` where the condition `c` has been decided
    pub fn assume(&mut self, e: E, c: E, nc: E, val: bool, memo: &mut FxMap<E, E>) -> E {
        if e == c { return self.k(1, val as u64); }
        if e == nc { return self.k(1, !val as u64); }
        if !self.hb[e as usize] && self.wid[e as usize] != 1 { return e; }
        if let Some(r) = memo.get(&e) { return *r; }
        let r = match self.ex[e as usize].clone() {
            Ex::Lin { w, c: k, ts } => {
                let mut acc = self.k(w, k);
                for (k, t) in ts.iter() {
                    let t2 = self.assume(*t, c, nc, val, memo);
                    acc = self.addmul(acc, t2, *k);
                }
                acc
            }
            Ex::Bin { op, a, b, .. } => { let (a, b) = (self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.bin(op, a, b) }
            Ex::ZExt { w, a } => { let a = self.assume(a, c, nc, val, memo); self.zext(a, w) }
            Ex::SExt { w, a } => { let a = self.assume(a, c, nc, val, memo); self.sext(a, w) }
            Ex::Trunc { w, a } => { let a = self.assume(a, c, nc, val, memo); self.trunc(a, w) }
            Ex::IsZero(a) => { let a = self.assume(a, c, nc, val, memo); let z = self.k(self.w(a), 0); self.cmp(IPred::Eq, a, z) }
            Ex::Cmp { p, a, b } => { let (a, b) = (self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.cmp(p, a, b) }
            Ex::Not(a) => { let a = self.assume(a, c, nc, val, memo); self.not(a) }
            Ex::And(a, b) => { let (a, b) = (self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.and(a, b) }
            Ex::Or(a, b) => { let (a, b) = (self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.or(a, b) }
            Ex::Ite { c: q, a, b, .. } => { let (q, a, b) = (self.assume(q, c, nc, val, memo), self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.ite(q, a, b) }
            Ex::Ovf { op, signed, a, b } => { let (a, b) = (self.assume(a, c, nc, val, memo), self.assume(b, c, nc, val, memo)); self.ovf(op, signed, a, b) }
            _ => e,
        };
        memo.insert(e, r);
        r
    }
    pub fn tk(&mut self, dbl: bool, bits: u64) -> T {
        self.mkt(Tm::Const { dbl, bits })
    }
    pub fn leaf(&mut self, dbl: bool, cls: Cls, call: u16, idx: u32, part: u8) -> T {
        self.mkt(Tm::Leaf { dbl, cls, call, idx, part })
    }
    /// an operand, a constant or a widened one
    pub fn is_simple(&self, t: T) -> bool {
        match self.tm[t as usize] {
            Tm::Leaf { .. } => true,
            Tm::Const { .. } => self.fval(t).map_or(false, |v| v.is_finite()),
            Tm::Ext(a) | Tm::Tru(a) => self.is_simple(a),
            _ => false,
        }
    }
    pub fn fval(&self, t: T) -> Option<f64> {
        match self.tm[t as usize] {
            Tm::Const { dbl, bits } => Some(if dbl { f64::from_bits(bits) } else { f32::from_bits(bits as u32) as f64 }),
            _ => None,
        }
    }
    fn kf(&mut self, dbl: bool, v64: f64, v32: f32) -> T {
        let b = if dbl { v64.to_bits() } else { v32.to_bits() as u64 };
        self.tk(dbl, b)
    }
    fn f32v(&self, t: T) -> f32 {
        match self.tm[t as usize] {
            Tm::Const { bits, .. } => f32::from_bits(bits as u32),
            _ => 0.0,
        }
    }
    pub fn fneg(&mut self, a: T) -> T {
        match self.tm[a as usize] {
            Tm::Const { dbl, bits } => { let s = if dbl { 1u64 << 63 } else { 1 << 31 }; self.tk(dbl, bits ^ s) }
            Tm::Neg(x) => x,
            _ => self.mkt(Tm::Neg(a)),
        }
    }
    pub fn fadd(&mut self, a: T, b: T) -> T {
        let d = self.tdbl[a as usize];
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) {
            let z = self.f32v(a) + self.f32v(b);
            return self.kf(d, x + y, z);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mkt(Tm::Add(a, b))
    }
    pub fn fsub(&mut self, a: T, b: T) -> T {
        let n = self.fneg(b);
        self.fadd(a, n)
    }
    fn strip(&self, a: T) -> (bool, T) {
        match self.tm[a as usize] {
            Tm::Neg(x) => (true, x),
            _ => (false, a),
        }
    }
    pub fn fmul(&mut self, a: T, b: T) -> T {
        let d = self.tdbl[a as usize];
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) {
            let z = self.f32v(a) * self.f32v(b);
            return self.kf(d, x * y, z);
        }
        // multiplication by exactly one is the identity (up to the payload of signalling NaNs)
        if self.fval(a) == Some(1.0) { return b; }
        if self.fval(b) == Some(1.0) { return a; }
        if self.fval(a) == Some(-1.0) { return self.fneg(b); }
        if self.fval(b) == Some(-1.0) { return self.fneg(a); }
        let ((sa, a), (sb, b)) = (self.strip(a), self.strip(b));
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let m = self.mkt(Tm::Mul(a, b));
        if sa != sb { self.fneg(m) } else { m }
    }
    pub fn fdiv(&mut self, a: T, b: T) -> T {
        let d = self.tdbl[a as usize];
        if let (Some(x), Some(y)) = (self.fval(a), self.fval(b)) {
            let z = self.f32v(a) / self.f32v(b);
            return self.kf(d, x / y, z);
        }
        if self.fval(b) == Some(1.0) { return a; }
        self.mkt(Tm::Div(a, b))
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let d = self.tdbl[a as usize];
        if let (Some(x), Some(y), Some(z)) = (self.fval(a), self.fval(b), self.fval(c)) {
            let r = self.f32v(a).mul_add(self.f32v(b), self.f32v(c));
            return self.kf(d, x.mul_add(y, z), r);
        }
        let ((sa, a), (sb, b)) = (self.strip(a), self.strip(b));
        let (mut a, b) = if a <= b { (a, b) } else { (b, a) };
        if sa != sb { a = self.fneg(a); }
        self.mkt(Tm::Fma(a, b, c))
    }
    pub fn fext(&mut self, a: T) -> T {
        if let Some(v) = self.fval(a) { return self.tk(true, v.to_bits()); }
        self.mkt(Tm::Ext(a))
    }
    pub fn ftrunc(&mut self, a: T) -> T {
        if let Some(v) = self.fval(a) { return self.tk(false, (v as f32).to_bits() as u64); }
        if let Tm::Ext(x) = self.tm[a as usize] { return x; }
        self.mkt(Tm::Tru(a))
    }
    pub fn fite(&mut self, c: E, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        self.mkt(Tm::Ite(c, a, b))
    }
    pub fn fun(&mut self, name: &str, a: T, b: T, c: T) -> T {
        let n = match self.unames.iter().position(|x| x == name) {
            Some(p) => p as u32,
            None => { self.unames.push(name.to_string()); self.unames.len() as u32 - 1 }
        };
        self.mkt(Tm::Un(n, a, b, c))
    }
    pub fn fromint(&mut self, signed: bool, dbl: bool, e: E) -> T {
        if let Some(c) = self.as_const(e) {
            let w = self.w(e);
            let v = if signed { sext(c, w) as f64 } else { c as f64 };
            let v3 = if signed { sext(c, w) as f32 } else { c as f32 };
            return self.kf(dbl, v, v3);
        }
        self.mkt(Tm::FromInt { signed, dbl, e })
    }
    pub fn frombits(&mut self, dbl: bool, e: E) -> T {
        if let Some(c) = self.as_const(e) { return self.tk(dbl, c); }
        if let Ex::FBits { t, .. } = self.ex[e as usize] { if self.tdbl[t as usize] == dbl { return t; } }
        self.mkt(Tm::FromBits { dbl, e })
    }

    pub fn show(&self, e: E) -> String {
        self.show_d(e, 0)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        if d > 14 { return "...".into(); }
        let s = |x: E| self.show_d(x, d + 1);
        match &self.ex[e as usize] {
            Ex::Var { name, .. } => self.names[*name as usize].clone(),
            Ex::Lin { c, ts, w } => {
                let mut v: Vec<String> = ts.iter().map(|(k, t)| {
                    let q = sext(*k, *w);
                    if q == 1 { s(*t) } else { format!("{}*{}", q, s(*t)) }
                }).collect();
                if *c != 0 || v.is_empty() { v.push(format!("{}", sext(*c, *w))); }
                v.join(" + ")
            }
            Ex::Bin { op, a, b, .. } => format!("{:?}({}, {})", op, s(*a), s(*b)),
            Ex::ZExt { a, w } => format!("zext{}({})", w, s(*a)),
            Ex::SExt { a, w } => format!("sext{}({})", w, s(*a)),
            Ex::Trunc { a, w } => format!("trunc{}({})", w, s(*a)),
            Ex::IsZero(a) => format!("({} == 0)", s(*a)),
            Ex::Cmp { p, a, b } => format!("({} {:?} {})", s(*a), p, s(*b)),
            Ex::Not(a) => format!("!{}", s(*a)),
            Ex::And(a, b) => format!("({} && {})", s(*a), s(*b)),
            Ex::Or(a, b) => format!("({} || {})", s(*a), s(*b)),
            Ex::Ite { c, a, b, .. } => format!("ite({}, {}, {})", s(*c), s(*a), s(*b)),
            Ex::FCmp { p, a, b } => format!("{:?}({}, {})", p, self.showt(*a), self.showt(*b)),
            Ex::Ovf { op, signed, a, b } => format!("{}{:?}_overflows({}, {})", if *signed { "s" } else { "u" }, op, s(*a), s(*b)),
            Ex::FBits { t, .. } => format!("bits({})", self.showt(*t)),
            Ex::FToI { t, .. } => format!("int({})", self.showt(*t)),
            Ex::Opaque { n, .. } => format!("opaque{}", n),
        }
    }
    pub fn showt(&self, t: T) -> String {
        self.showt_d(t, 0)
    }
    fn showt_d(&self, t: T, d: u32) -> String {
        if d > 12 { return "...".into(); }
        let s = |x: T| self.showt_d(x, d + 1);
        match self.tm[t as usize] {
            Tm::Const { .. } => format!("{:?}", self.fval(t).unwrap()),
            Tm::Leaf { cls, call, idx, part, .. } => format!("{:?}{}[{}]{}", cls, if call > 0 { format!("@{}", call) } else { String::new() }, idx, if part == 1 { ".im" } else { "" }),
            Tm::Add(a, b) => format!("({} + {})", s(a), s(b)),
            Tm::Mul(a, b) => format!("{}*{}", s(a), s(b)),
            Tm::Div(a, b) => format!("{}/{}", s(a), s(b)),
            Tm::Neg(a) => format!("-{}", s(a)),
            Tm::Fma(a, b, c) => format!("fma({}, {}, {})", s(a), s(b), s(c)),
            Tm::Ext(a) => format!("ext({})", s(a)),
            Tm::Tru(a) => format!("trunc({})", s(a)),
            Tm::Ite(c, a, b) => format!("({} ? {} : {})", self.show(c), s(a), s(b)),
            Tm::Un(n, a, b, c) => format!("{}({}, {}, {})", self.unames[n as usize], s(a), s(b), s(c)),
            Tm::FromInt { e, .. } => format!("float({})", self.show(e)),
            Tm::FromBits { e, .. } => format!("frombits({})", self.show(e)),
        }
    }
}

pub fn fcmp_concrete(p: FPred, x: f64, y: f64) -> bool {
    use FPred::*;
    let un = x.is_nan() || y.is_nan();
    match p {
        False => false, True => true, Oeq => x == y, Ogt => x > y, Oge => x >= y, Olt => x < y, Ole => x <= y, One => !un && x != y,
        Ord => !un, Uno => un, Ueq => un || x == y, Ugt => un || x > y, Uge => un || x >= y, Ult => un || x < y, Ule => un || x <= y, Une => x != y,
    }
}
