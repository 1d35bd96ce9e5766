//! Interpreter, part three: instructions, calls, intrinsics.
use crate::ctx::*;
use crate::exec::*;
use crate::ir::*;
use std::rc::Rc;

fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1 << w) - 1 }
}

pub enum Next {
    Cont,
    Finished,
    Stop,
}

impl Eng {
    #[inline]
    fn val(&mut self, st: &State, op: &Op) -> V {
        match op {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(c) => {
                if let Some(v) = &self.constv[*c as usize] {
                    return v.clone();
                }
                let k = &self.prog.consts[*c as usize];
                let v = self.const_val(k, 0);
                self.constv[*c as usize] = Some(v.clone());
                v
            }
        }
    }
    fn valt(&mut self, st: &State, op: &Op, ty: TyId) -> V {
        let v = self.val(st, op);
        if let (V::Undef, Op::C(c)) = (&v, op) {
            if let Const::Undef = &self.prog.consts[*c as usize] {
                return self.const_val(&Const::Undef, ty);
            }
        }
        v
    }
    fn set(&mut self, st: &mut State, dst: u32, v: V) {
        if dst != u32::MAX {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    fn shadow(&mut self, w: u32, v: u64, sh: E) -> E {
        if sh != 0 { sh } else { self.cx.k(w, v) }
    }
    fn shk(&self, e: E) -> E {
        if self.cx.as_const(e).is_some() { 0 } else { e }
    }

    fn big(&self, v: &V) -> Option<u128> {
        match v {
            V::I { v, .. } => Some(*v as u128),
            V::Cat(ps) => {
                let mut acc = 0u128;
                let mut pos = 0;
                for (b, p) in ps.iter() {
                    if let V::I { v, .. } = p {
                        acc |= (*v as u128 & if *b >= 64 { u64::MAX as u128 } else { (1u128 << b) - 1 }) << pos;
                    } else {
                        return None;
                    }
                    pos += b;
                }
                Some(acc)
            }
            _ => None,
        }
    }
    fn mkbig(&self, w: u32, v: u128) -> V {
        if w <= 64 {
            return vi(v as u64 & mask(w));
        }
        let mut ps = vec![(64, vi(v as u64))];
        if w > 64 { ps.push(((w - 64).min(64), vi((v >> 64) as u64 & mask((w - 64).min(64))))); }
        V::Cat(Rc::new(ps))
    }

    pub fn ibin(&mut self, st: &mut State, op: Bin, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I { v: x, sh: sx }, V::I { v: y, sh: sy }) => {
                if w > 64 {
                    return self.bigbin(op, w, *x as u128, *y as u128);
                }
                let r = match Ctx::fold(op, w, *x, *y) {
                    Some(r) => r,
                    None => {
                        self.event(st, "panic", "division by zero".into(), vec![]);
                        st.dead = true;
                        return V::Undef;
                    }
                };
                if *sx == 0 && *sy == 0 {
                    return vi(r);
                }
                let (ex, ey) = (self.shadow(w, *x, *sx), self.shadow(w, *y, *sy));
                if matches!(op, Bin::UMin | Bin::UMax | Bin::SMin | Bin::SMax) {
                    let p = if matches!(op, Bin::UMin | Bin::UMax) { IPred::Ult } else { IPred::Slt };
                    let c = self.cx.cmp(p, ex, ey);
                    self.cover(st, Ctx::fold_cmp(p, w, *x, *y), c);
                    // equality boundaries are interesting as well
                }
                let e = self.cx.bin(op, ex, ey);
                if op == Bin::And && (*sx == 0 || *sy == 0) {
                    let m = if *sx == 0 { *x } else { *y };
                    if m >= 0x7f && m & m.wrapping_add(1) == 0 {
                        let whole = if *sx == 0 { ey } else { ex };
                        let c = self.cx.cmp(IPred::Eq, e, whole);
                        self.cover(st, r == if *sx == 0 { *y } else { *x }, c);
                    }
                }
                // so are quotients, remainders and bits by constants: is there anything?
                if *sy == 0 && *y > 1 {
                    let low = *y & y.wrapping_add(1) == 0;
                    match op {
                        Bin::UDiv | Bin::LShr => { let z = self.cx.k(w, 0); let c = self.cx.cmp(IPred::Ne, e, z); self.cover(st, r != 0, c); }
                        Bin::And if !low => { let z = self.cx.k(w, 0); let c = self.cx.cmp(IPred::Ne, e, z); self.cover(st, r != 0, c); }
                        Bin::URem => { let c = self.cx.cmp(IPred::Ule, ey, ex); self.cover(st, x >= y, c); }
                        _ => {}
                    }
                }
                V::I { v: r, sh: self.shk(e) }
            }
            (V::Undef, _) | (_, V::Undef) => V::Undef,
            _ => {
                if w > 64 {
                    if let (Some(x), Some(y)) = (self.big(a), self.big(b)) {
                        return self.bigbin(op, w, x, y);
                    }
                }
                // bit tricks on floats and piecewise values
                if let Some(v) = self.piecewise(op, w, a, b) {
                    return v;
                }
                if w > 64 {
                    self.inconclusive.push(format!("wide integer {:?}", op));
                    return V::Undef;
                }
                let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
                let (ea, eb) = (self.cx.subst(st.sig, ea), self.cx.subst(st.sig, eb));
                let e = self.cx.bin(op, ea, eb);
                self.norm(e)
            }
        }
    }
    fn bigbin(&mut self, op: Bin, w: u32, x: u128, y: u128) -> V {
        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let r = match op {
            Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y), Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
            Bin::Shl => if y >= w as u128 { 0 } else { x << y }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
            Bin::UDiv if y != 0 => x / y, Bin::URem if y != 0 => x % y,
            _ => { self.inconclusive.push(format!("wide integer {:?}", op)); 0 }
        };
        self.mkbig(w, r & m)
    }
    fn piecewise(&mut self, op: Bin, w: u32, a: &V, b: &V) -> Option<V> {
        let fl = |v: &V| matches!(v, V::F(_) | V::Cat(_));
        if !fl(a) && !fl(b) {
            return None;
        }
        let (a, b) = if fl(a) { (a, b) } else if matches!(op, Bin::And | Bin::Or | Bin::Xor) { (b, a) } else { return None };
        let pa: Vec<(u32, V)> = match a { V::Cat(p) => p.to_vec(), v => vec![(w, v.clone())] };
        match op {
            Bin::LShr | Bin::Shl => {
                let k = match b { V::I { v, .. } => *v as u32, V::Cat(_) => self.big(b)? as u32, _ => return None };
                if k >= w { return Some(self.mkbig(w, 0)); }
                // only at piece boundaries
                let mut pos = 0;
                let mut cuts = vec![0];
                for p in &pa { pos += p.0; cuts.push(pos); }
                if op == Bin::LShr {
                    if !cuts.contains(&k) { return None; }
                    let mut q = self.take(&pa, k, w - k);
                    q.push((k, vi(0)));
                    Some(self.regroup(&q, w))
                } else {
                    if !cuts.contains(&(w - k)) { return None; }
                    let mut q = vec![(k, vi(0))];
                    q.extend(self.take(&pa, 0, w - k));
                    Some(self.regroup(&q, w))
                }
            }
            Bin::And | Bin::Or | Bin::Xor => {
                let pb: Vec<(u32, V)> = match b { V::Cat(p) => p.to_vec(), v => vec![(w, v.clone())] };
                // common refinement
                let mut cuts = std::collections::BTreeSet::new();
                let mut pos = 0;
                for p in &pa { pos += p.0; cuts.insert(pos); }
                pos = 0;
                for p in &pb { pos += p.0; cuts.insert(pos); }
                let mut out = vec![];
                let mut lo = 0;
                for c in cuts {
                    if c > w { break; }
                    let n = c - lo;
                    let (x, y) = (self.take(&pa, lo, n), self.take(&pb, lo, n));
                    lo = c;
                    if x.len() != 1 || y.len() != 1 { return None; }
                    let (x, y) = (x[0].1.clone(), y[0].1.clone());
                    let r = match (&x, &y) {
                        (V::I { v: p, .. }, V::I { v: q, .. }) => vi(match op { Bin::And => p & q, Bin::Or => p | q, _ => p ^ q }),
                        (V::I { v: 0, .. }, _) => if op == Bin::And { vi(0) } else { y },
                        (_, V::I { v: 0, .. }) => if op == Bin::And { vi(0) } else { x },
                        (v, V::I { v: q, .. }) | (V::I { v: q, .. }, v) if *q == mask(n) && op == Bin::And => v.clone(),
                        (V::F(t), V::I { v: q, .. }) | (V::I { v: q, .. }, V::F(t)) => {
                            let sb = 1u64 << (n - 1);
                            if op == Bin::Xor && *q == sb { V::F(self.cx.fneg(*t)) }
                            else if op == Bin::And && *q == sb - 1 { let t2 = self.cx.fun("fabs", *t, *t, *t); V::F(t2) }
                            else { return None }
                        }
                        _ => return None,
                    };
                    out.push((n, r));
                }
                Some(self.regroup(&out, w))
            }
            _ => None,
        }
    }

    pub fn icmp(&mut self, st: &mut State, p: IPred, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I { v: x, sh: sx }, V::I { v: y, sh: sy }) => {
                let r = Ctx::fold_cmp(p, w, *x, *y);
                if *sx == 0 && *sy == 0 {
                    return vi(r as u64);
                }
                let (ex, ey) = (self.shadow(w, *x, *sx), self.shadow(w, *y, *sy));
                let e = self.cx.cmp(p, ex, ey);
                V::I { v: r as u64, sh: self.shk(e) }
            }
            (V::Undef, _) | (_, V::Undef) => V::Undef,
            (V::P(o, x), V::P(q, y)) if o == q => vi(Ctx::fold_cmp(p, 64, *x as u64, *y as u64) as u64),
            (V::P(o, _), V::P(q, _)) if o != q && matches!(p, IPred::Eq | IPred::Ne) => vi((p == IPred::Ne) as u64),
            (V::P(..), V::I { v: 0, .. }) | (V::I { v: 0, .. }, V::P(..)) | (V::Fn(_), V::I { .. }) | (V::I { .. }, V::Fn(_)) if matches!(p, IPred::Eq | IPred::Ne) => vi((p == IPred::Ne) as u64),
            (V::PS(..), V::I { v: 0, .. }) | (V::I { v: 0, .. }, V::PS(..)) if matches!(p, IPred::Eq | IPred::Ne) => vi((p == IPred::Ne) as u64),
            (V::Fn(x), V::Fn(y)) => vi(Ctx::fold_cmp(p, 64, *x as u64, *y as u64) as u64),
            _ => {
                if w > 64 {
                    if let (Some(x), Some(y)) = (self.big(a), self.big(b)) {
                        let r = match p { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, _ => { self.inconclusive.push("wide comparison".into()); false } };
                        return vi(r as u64);
                    }
                    if let (V::Cat(x), V::Cat(y)) = (a, b) {
                        if x.len() == y.len() && matches!(p, IPred::Eq | IPred::Ne) && x.iter().zip(y.iter()).all(|(p, q)| p.0 == q.0 && p.0 <= 64) {
                            let mut acc = self.cx.k(1, 1);
                            for (p, q) in x.iter().zip(y.iter()) {
                                let (e, f) = (self.to_e(&p.1, p.0), self.to_e(&q.1, p.0));
                                let c = self.cx.cmp(IPred::Eq, e, f);
                                acc = self.cx.and(acc, c);
                            }
                            if p == IPred::Ne { acc = self.cx.not(acc); }
                            return self.norm(acc);
                        }
                    }
                    self.inconclusive.push("wide comparison".into());
                    return V::Undef;
                }
                let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
                let (ea, eb) = (self.cx.subst(st.sig, ea), self.cx.subst(st.sig, eb));
                let e = self.cx.cmp(p, ea, eb);
                self.norm(e)
            }
        }
    }
    fn covkey(&self, st: &State) -> u64 {
        let f = st.frames.last().unwrap();
        (f.f as u64) << 32 | (f.blk as u64) << 12 | (f.ip as u64 & 0xfff)
    }
    /// a decision that depends on the dimensions went this way
    pub fn cover(&mut self, st: &State, taken: bool, c: E) {
        let k = self.covkey(st);
        let side = 1u8 << taken as u8;
        let e = self.cov.entry(k).or_insert(0);
        *e |= side;
        if *e != 3 {
            let other = 3 ^ side;
            let want = if taken { self.cx.not(c) } else { c };
            if self.cx.as_const(want).is_some() {
                return;
            }
            let cur = self.cur;
            let v = self.cand.entry((k, other)).or_default();
            if v.len() < 12 && !v.iter().any(|x| x.0 == want) {
                v.push((want, cur.0, cur.1));
            }
        }
    }
    fn truth(&mut self, st: &mut State, c: &V) -> Option<bool> {
        match c {
            V::I { v, sh } => {
                if *sh != 0 {
                    self.cover(st, *v & 1 == 1, *sh);
                } else {
                    let k = self.covkey(st);
                    *self.cov.entry(k).or_insert(0) |= 1 << (*v & 1);
                }
                Some(*v & 1 == 1)
            }
            V::S(e) => {
                let r = self.decide(st, *e);
                if st.dead { None } else { Some(r) }
            }
            V::Undef => {
                self.event(st, "uninit", "a branch depends on uninitialised memory".into(), vec![]);
                st.dead = true;
                None
            }
            _ => {
                let e = self.to_e(c, 1);
                let r = self.decide(st, e);
                if st.dead { None } else { Some(r) }
            }
        }
    }
    fn select1(&mut self, st: &mut State, c: &V, a: &V, b: &V, w: u32) -> V {
        match c {
            V::S(e) => {
                let e = self.cx.subst(st.sig, *e);
                if let Some(k) = self.cx.as_const(e) {
                    return if k == 1 { a.clone() } else { b.clone() };
                }
                if let (V::F(x), V::F(y)) = (a, b) {
                    if x == y { return a.clone(); }
                }
                let data = self.cx.emask(e) & 0b100111 != 0 && !st.facts.contains(&e) && { let n = self.cx.not(e); !st.facts.contains(&n) };
                if data {
                    match (a, b) {
                        (V::F(x), V::F(y)) => return V::F(self.cx.fite(e, *x, *y)),
                        (V::I { .. } | V::S(_), V::I { .. } | V::S(_)) if w <= 64 => {
                            let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                            let r = self.cx.ite(e, x, y);
                            return self.norm(r);
                        }
                        _ => {}
                    }
                }
                if w == 1 {
                    if let (V::I { .. } | V::S(_), V::I { .. } | V::S(_)) = (a, b) {
                        let (x, y) = (self.to_e(a, 1), self.to_e(b, 1));
                        let r = self.cx.ite(e, x, y);
                        return self.norm(r);
                    }
                }
                if self.decide(st, e) { a.clone() } else { b.clone() }
            }
            V::I { v, sh } => {
                if *sh != 0 {
                    self.cover(st, *v & 1 == 1, *sh);
                    // shadows of both arms are not merged: the taken arm's shadow stands
                }
                if *v & 1 == 1 { a.clone() } else { b.clone() }
            }
            V::Undef => V::Undef,
            _ => { let e = self.to_e(c, 1); self.select1(st, &V::S(e), a, b, w) }
        }
    }

    fn lanes(&self, v: &V, n: usize) -> Vec<V> {
        match v {
            V::Agg(a) => a.to_vec(),
            V::Undef => vec![V::Undef; n],
            v => vec![v.clone(); n.max(1)],
        }
    }
    fn fbin1(&mut self, op: FBin, a: &V, b: &V) -> V {
        match (a, b) {
            (V::F(x), V::F(y)) => V::F(match op {
                FBin::Add => self.cx.fadd(*x, *y),
                FBin::Sub => self.cx.fsub(*x, *y),
                FBin::Mul => self.cx.fmul(*x, *y),
                FBin::Div => self.cx.fdiv(*x, *y),
                FBin::Rem => self.cx.fun("frem", *x, *y, *y),
            }),
            _ => V::Undef,
        }
    }
    fn cast1(&mut self, st: &mut State, op: Cast, from: TyId, to: TyId, a: &V) -> V {
        let (wf, wt) = (self.width_of(from), self.width_of(to));
        let dbl = matches!(self.prog.types.get(to), Ty::F64);
        match op {
            Cast::Trunc => match a {
                V::I { v, sh } => {
                    if *sh != 0 && wt >= 8 && wf <= 64 {
                        // does it lose anything? Sizes at which it does count as a branch of their own
                        let t = self.cx.trunc(*sh, wt);
                        let z = self.cx.zext(t, wf);
                        let c = self.cx.cmp(IPred::Eq, z, *sh);
                        self.cover(st, *v & mask(wf) == *v & mask(wt), c);
                    }
 let s = if *sh != 0 { let t = self.cx.trunc(*sh, wt); self.shk(t) } else { 0 }; V::I { v: v & mask(wt), sh: s } }
                V::Undef => V::Undef,
                V::S(e) => { let t = self.cx.trunc(*e, wt); self.norm(t) }
                V::Cat(ps) => { let q = self.take(ps, 0, wt); self.regroup(&q, wt) }
                v => { let q = self.take(&[(wf, v.clone())], 0, wt); self.regroup(&q, wt) }
            },
            Cast::ZExt => match a {
                V::I { v, sh } if wt <= 64 => { let s = if *sh != 0 { self.cx.zext(*sh, wt) } else { 0 }; V::I { v: *v, sh: s } }
                V::Undef => V::Undef,
                V::S(e) if wt <= 64 => { let t = self.cx.zext(*e, wt); self.norm(t) }
                V::Cat(ps) => { let mut q = ps.to_vec(); q.push((wt - wf, vi(0))); self.regroup(&q, wt) }
                v => {
                    let mut q = vec![(wf, v.clone())];
                    let mut left = wt - wf;
                    while left > 0 { let n = left.min(64); q.push((n, vi(0))); left -= n; }
                    self.regroup(&q, wt)
                }
            },
            Cast::SExt => match a {
                V::I { v, sh } if wt <= 64 => { let s = if *sh != 0 { self.cx.sext(*sh, wt) } else { 0 }; V::I { v: sext(*v, wf) as u64 & mask(wt), sh: s } }
                V::Undef => V::Undef,
                v if wt <= 64 => { let e = self.to_e(v, wf); let t = self.cx.sext(e, wt); self.norm(t) }
                V::I { v, .. } => { let s = sext(*v, wf) as i128 as u128; self.mkbig(wt, s & if wt >= 128 { u128::MAX } else { (1 << wt) - 1 }) }
                _ => { self.inconclusive.push("wide sign extension".into()); V::Undef }
            },
            Cast::FpTrunc => match a { V::F(t) => V::F(self.cx.ftrunc(*t)), _ => V::Undef },
            Cast::FpExt => match a { V::F(t) => V::F(self.cx.fext(*t)), _ => V::Undef },
            Cast::FpToUi | Cast::FpToSi => match a {
                V::F(t) => { let e = self.cx.ftoi(*t, op == Cast::FpToSi, wt); V::S(e) }
                _ => V::Undef,
            },
            Cast::UiToFp | Cast::SiToFp => match a {
                V::Undef => V::Undef,
                v => { let e = self.to_e(v, wf); V::F(self.cx.fromint(op == Cast::SiToFp, dbl, e)) }
            },
            Cast::PtrToInt => match a {
                V::I { .. } | V::S(_) | V::Undef => a.clone(),
                v => { let e = self.to_e(v, 64); let e = self.cx.subst(st.sig, e); let x = self.norm(e); if wt < 64 { let ty64 = from; let _ = ty64; let t = self.cx.trunc(e, wt); self.norm(t) } else { x } }
            },
            Cast::IntToPtr => match a {
                V::S(e) => self.ptr_of_e(*e),
                v => v.clone(),
            },
            Cast::BitCast | Cast::AddrSpace => {
                let ps = self.pieces_of(from, a);
                self.from_pieces(to, &ps)
            }
        }
    }

    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last().unwrap();
        let prev = fr.blk;
        let f = &self.prog.funcs[fr.f as usize];
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let mut v = V::Undef;
                for (pb, op) in &ph.inc {
                    if *pb == prev {
                        v = self.valt(st, op, ph.ty);
                        break;
                    }
                }
                vals.push((ph.dst, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = b;
        fr.ip = 0;
    }

    pub fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: u32, ret: RetK) {
        let fun = &self.prog.funcs[f as usize];
        let mut regs = vec![V::Undef; fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if let Some(&r) = fun.params.get(i) {
                regs[r as usize] = a;
            }
        }
        if !self.fcov.contains_key(&f) { self.fcov.insert(f, 0); }
        *self.fcov.get_mut(&f).unwrap() += 1;
        if is_once(&fun.name) {
            st.initdepth += 1;
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst, ret });
        if self.opts.check_features && !fun.features.is_empty() {
            self.check_features(st, f);
        }
        if st.frames.len() > 400 {
            self.inconclusive.push("call depth".into());
            st.dead = true;
        }
    }
    fn check_features(&mut self, st: &mut State, f: u32) {
        let mut fs = st.facts.iter().fold(0u64, |h, x| h.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(*x as u64 + 1));
        fs = fs.wrapping_mul(31).wrapping_add(f as u64);
        if self.feat_ok.contains(&fs) {
            return;
        }
        let fun = &self.prog.funcs[f as usize];
        for ft in fun.features.clone() {
            let c = match self.feat.get(&ft) {
                Some(c) => *c,
                None => {
                    if self.feat.is_empty() { return; }
                    let one = self.cx.k(1, 1);
                    self.event(st, "feature", format!("{} needs the CPU feature {}, which is never tested", fun.name, ft), vec![one]);
                    continue;
                }
            };
            let n = self.cx.not(c);
            let n = self.cx.subst(st.sig, n);
            if self.feasible(st, n).0 {
                self.event(st, "feature", format!("{} runs although {} may be absent", fun.name, ft), vec![n]);
            }
        }
        self.feat_ok.insert(fs);
    }

    fn do_ret(&mut self, st: &mut State, v: V) -> Next {
        let fr = st.frames.pop().unwrap();
        if is_once(&self.prog.funcs[fr.f as usize].name) {
            st.initdepth -= 1;
        }
        for a in &fr.allocas {
            let o = Rc::make_mut(&mut st.objs[*a as usize]);
            o.freed = true;
            o.pages = vec![];
        }
        // reuse the ids of dead stack objects at the end of the table
        while let Some(o) = st.objs.last() {
            if o.kind == Kind::Stack && o.freed && st.par.is_empty() {
                let b = o.base;
                st.objs.pop();
                self.basemap.remove(&b);
                self.bases.pop();
            } else {
                break;
            }
        }
        match fr.ret {
            RetK::Top => { st.ret = Some(v); Next::Finished }
            RetK::Normal => {
                self.set(st, fr.dst, v);
                st.frames.last_mut().unwrap().ip += 1;
                Next::Cont
            }
            RetK::Inv(b) => {
                self.set(st, fr.dst, v);
                self.jump(st, b);
                Next::Cont
            }
        }
    }

    /// run until the top frame of the call returns, the path dies or a budget is hit
    pub fn run(&mut self, st: &mut State) -> Next {
        loop {
            if st.dead {
                return Next::Stop;
            }
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps > self.opts.max_steps {
                self.inconclusive.push(format!("more than {} instructions on one path", self.opts.max_steps));
                return Next::Stop;
            }
            if self.stats.steps & 0x3ff == 0 {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        self.inconclusive.push("time budget".into());
                        return Next::Stop;
                    }
                }
            }
            match self.step(st) {
                Next::Cont => {}
                x => return x,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> Next {
        let prog = self.prog;
        let fr = st.frames.last().unwrap();
        let f = &prog.funcs[fr.f as usize];
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin { op, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match prog.types.get(*ty) {
                    Ty::Int(w) => self.ibin(st, *op, *w, &x, &y),
                    Ty::Vec(n, e) => {
                        let w = self.width_of(*e);
                        let (x, y) = (self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                        let mut v = Vec::with_capacity(x.len());
                        for i in 0..*n as usize { v.push(self.ibin(st, *op, w, &x[i], &y[i])); }
                        V::Agg(Rc::new(v))
                    }
                    _ => V::Undef,
                };
                if st.dead { return Next::Stop; }
                self.set(st, *dst, r);
            }
            Inst::FBin { op, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match prog.types.get(*ty) {
                    Ty::Vec(n, _) => {
                        let (x, y) = (self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                        let mut v = Vec::with_capacity(x.len());
                        for i in 0..*n as usize { v.push(self.fbin1(*op, &x[i], &y[i])); }
                        V::Agg(Rc::new(v))
                    }
                    _ => self.fbin1(*op, &x, &y),
                };
                self.set(st, *dst, r);
            }
            Inst::FNeg { ty, a, dst } => {
                let x = self.val(st, a);
                let r = match prog.types.get(*ty) {
                    Ty::Vec(n, _) => { let x = self.lanes(&x, *n as usize); let v = x.iter().map(|q| match q { V::F(t) => V::F(self.cx.fneg(*t)), _ => V::Undef }).collect(); V::Agg(Rc::new(v)) }
                    _ => match x { V::F(t) => V::F(self.cx.fneg(t)), _ => V::Undef },
                };
                self.set(st, *dst, r);
            }
            Inst::ICmp { p, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match prog.types.get(*ty) {
                    Ty::Vec(n, e) => {
                        let w = self.width_of(*e);
                        let (x, y) = (self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                        let mut v = vec![];
                        for i in 0..*n as usize { v.push(self.icmp(st, *p, w, &x[i], &y[i])); }
                        V::Agg(Rc::new(v))
                    }
                    _ => { let w = self.width_of(*ty); self.icmp(st, *p, w, &x, &y) }
                };
                self.set(st, *dst, r);
            }
            Inst::FCmp { p, ty, a, b, dst } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let n = match prog.types.get(*ty) { Ty::Vec(n, _) => *n as usize, _ => 0 };
                let r = if n > 0 {
                    let (x, y) = (self.lanes(&x, n), self.lanes(&y, n));
                    let mut v = vec![];
                    for i in 0..n { v.push(match (&x[i], &y[i]) { (V::F(s), V::F(t)) => { let e = self.cx.fcmp(*p, *s, *t); self.norm(e) } _ => V::Undef }); }
                    V::Agg(Rc::new(v))
                } else {
                    match (&x, &y) { (V::F(s), V::F(t)) => { let e = self.cx.fcmp(*p, *s, *t); self.norm(e) } _ => V::Undef }
                };
                self.set(st, *dst, r);
            }
            Inst::Select { cty, ty, c, a, b, dst } => {
                let cv = self.val(st, c);
                let (x, y) = (self.valt(st, a, *ty), self.valt(st, b, *ty));
                let r = match (prog.types.get(*cty), prog.types.get(*ty)) {
                    (Ty::Vec(n, _), Ty::Vec(_, e)) => {
                        let w = self.width_of(*e);
                        let (c, x, y) = (self.lanes(&cv, *n as usize), self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                        let mut v = vec![];
                        for i in 0..*n as usize { v.push(self.select1(st, &c[i], &x[i], &y[i], w)); }
                        V::Agg(Rc::new(v))
                    }
                    _ => { let w = self.width_of(*ty); self.select1(st, &cv, &x, &y, w) }
                };
                if st.dead { return Next::Stop; }
                self.set(st, *dst, r);
            }
            Inst::Cast { op, from, to, a, dst } => {
                let x = self.val(st, a);
                let r = match (prog.types.get(*from), prog.types.get(*to), op) {
                    (_, _, Cast::BitCast) => self.cast1(st, *op, *from, *to, &x),
                    (Ty::Vec(n, ef), Ty::Vec(_, et), _) => {
                        let x = self.lanes(&x, *n as usize);
                        let mut v = vec![];
                        for q in x.iter() { v.push(self.cast1(st, *op, *ef, *et, q)); }
                        V::Agg(Rc::new(v))
                    }
                    _ => self.cast1(st, *op, *from, *to, &x),
                };
                self.set(st, *dst, r);
            }
            Inst::Load { ty, p, align, dst } => {
                let pv = self.val(st, p);
                let v = self.load(st, *ty, &pv, *align, false);
                if st.dead { return Next::Stop; }
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p, align } => {
                let x = self.valt(st, v, *ty);
                let pv = self.val(st, p);
                self.store(st, *ty, &x, &pv, *align, false);
                if st.dead { return Next::Stop; }
            }
            Inst::Gep { base, off, terms, dst } => {
                let mut p = self.val(st, base);
                if *off != 0 { p = self.padd(&p, &vi(*off as u64), 1); }
                for (o, scale, w) in terms {
                    let mut d = self.val(st, o);
                    if *w < 64 {
                        d = match d { V::I { v, .. } => vi(sext(v, *w) as u64), V::S(e) => { let s = self.cx.sext(e, 64); self.norm(s) } x => x };
                    }
                    p = self.padd(&p, &d, *scale);
                }
                if let V::PS(o, e) = &p {
                    let e2 = self.cx.subst(st.sig, *e);
                    if st.objs[*o as usize].kind != Kind::Ext && self.cx.as_const(e2).is_none() {
                        let v = self.concretise(st, e2);
                        if st.dead { return Next::Stop; }
                        p = V::P(*o, v as i64);
                    } else {
                        p = self.mkptr(*o, e2);
                    }
                }
                self.set(st, *dst, p);
            }
            Inst::Alloca { size, n, align, dst } => {
                let cnt = match n { Some(o) => match self.val(st, o) { V::I { v, .. } => v, _ => 1 }, None => 1 };
                let fname = &f.name;
                let o = self.new_obj(st, Kind::Stack, &format!("stack slot of {}", short(fname)), size * cnt, *align as u64, false);
                st.frames.last_mut().unwrap().allocas.push(o);
                self.set(st, *dst, V::P(o, 0));
            }
            Inst::ExtractElem { v, i, dst } => {
                let (x, k) = (self.val(st, v), self.val(st, i));
                let r = match (&x, &k) { (V::Agg(a), V::I { v, .. }) => a.get(*v as usize).cloned().unwrap_or(V::Undef), (V::Undef, _) => V::Undef, _ => { self.inconclusive.push("extractelement with a symbolic index".into()); V::Undef } };
                self.set(st, *dst, r);
            }
            Inst::InsertElem { ty, v, e, i, dst } => {
                let (x, y, k) = (self.valt(st, v, *ty), self.val(st, e), self.val(st, i));
                let n = prog.types.flat_len(*ty);
                let mut l = self.lanes(&x, n);
                match k { V::I { v, .. } if (v as usize) < n => l[v as usize] = y, _ => self.inconclusive.push("insertelement index".into()) }
                self.set(st, *dst, V::Agg(Rc::new(l)));
            }
            Inst::Shuffle { ty, a, b, mask: mk, dst } => {
                let (x, y) = (self.valt(st, a, *ty), self.valt(st, b, *ty));
                let n = prog.types.flat_len(*ty);
                let (x, y) = (self.lanes(&x, n), self.lanes(&y, n));
                let v = mk.iter().map(|m| if *m < 0 { V::Undef } else if (*m as usize) < n { x[*m as usize].clone() } else { y[*m as usize - n].clone() }).collect();
                self.set(st, *dst, V::Agg(Rc::new(v)));
            }
            Inst::ExtractVal { v, idx, dst } => {
                let mut x = self.val(st, v);
                for i in idx {
                    x = match x { V::Agg(a) => a[*i as usize].clone(), _ => V::Undef };
                }
                self.set(st, *dst, x);
            }
            Inst::InsertVal { ty, v, e, idx, dst } => {
                let x = self.valt(st, v, *ty);
                let y = self.val(st, e);
                let r = self.insert(*ty, x, y, idx);
                self.set(st, *dst, r);
            }
            Inst::Freeze { ty, a, dst } => {
                let x = self.val(st, a);
                let x = if let V::Undef = x { self.foreign_val(*ty) } else { x };
                self.set(st, *dst, x);
            }
            Inst::Fence => {}
            Inst::CmpXchg { ty, p, cmp, new, align, dst } => {
                let pv = self.val(st, p);
                let (c, n) = (self.val(st, cmp), self.val(st, new));
                let old = self.load(st, *ty, &pv, *align, true);
                if st.dead { return Next::Stop; }
                let w = self.width_of(*ty);
                let eq = self.icmp(st, IPred::Eq, w, &old, &c);
                let t = match self.truth(st, &eq) { Some(t) => t, None => return Next::Stop };
                if t { self.store(st, *ty, &n, &pv, *align, true); }
                if st.dead { return Next::Stop; }
                self.set(st, *dst, V::Agg(Rc::new(vec![old, vi(t as u64)])));
            }
            Inst::Rmw { op, ty, p, v, align, dst } => {
                let pv = self.val(st, p);
                let x = self.val(st, v);
                let old = self.load(st, *ty, &pv, *align, true);
                if st.dead { return Next::Stop; }
                let w = self.width_of(*ty);
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.ibin(st, Bin::Add, w, &old, &x),
                    "sub" => self.ibin(st, Bin::Sub, w, &old, &x),
                    "and" => self.ibin(st, Bin::And, w, &old, &x),
                    "or" => self.ibin(st, Bin::Or, w, &old, &x),
                    "xor" => self.ibin(st, Bin::Xor, w, &old, &x),
                    "max" => self.ibin(st, Bin::SMax, w, &old, &x),
                    "min" => self.ibin(st, Bin::SMin, w, &old, &x),
                    "umax" => self.ibin(st, Bin::UMax, w, &old, &x),
                    "umin" => self.ibin(st, Bin::UMin, w, &old, &x),
                    o => { self.inconclusive.push(format!("atomicrmw {}", o)); x }
                };
                self.store(st, *ty, &nv, &pv, *align, true);
                if st.dead { return Next::Stop; }
                self.set(st, *dst, old);
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                return Next::Cont;
            }
            Inst::CondBr { c, t, f } => {
                let cv = self.val(st, c);
                let r = match self.truth(st, &cv) { Some(r) => r, None => return Next::Stop };
                self.jump(st, if r { *t } else { *f });
                return Next::Cont;
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = self.val(st, v);
                let w = self.width_of(*ty);
                match &x {
                    V::I { v, sh } => {
                        let t = cases.iter().find(|c| c.0 == *v).map_or(*def, |c| c.1);
                        if *sh != 0 {
                            for c in cases.iter().take(6) {
                                let k = self.cx.k(w, c.0);
                                let e = self.cx.cmp(IPred::Eq, *sh, k);
                                let key = self.covkey(st) | (c.1 as u64) << 52;
                                let side = 1u8 << (c.0 == *v) as u8;
                                let en = self.cov.entry(key).or_insert(0);
                                *en |= side;
                                if *en == 1 {
                                    let cur = self.cur;
                                    let cv = self.cand.entry((key, 2)).or_default();
                                    if cv.len() < 12 && !cv.iter().any(|x| x.0 == e) { cv.push((e, cur.0, cur.1)); }
                                }
                            }
                        }
                        self.jump(st, t);
                    }
                    V::Undef => {
                        self.event(st, "uninit", "a switch depends on uninitialised memory".into(), vec![]);
                        return Next::Stop;
                    }
                    x => {
                        let e = self.to_e(x, w);
                        for c in cases {
                            let k = self.cx.k(w, c.0);
                            let q = self.cx.cmp(IPred::Eq, e, k);
                            let r = self.decide(st, q);
                            if st.dead { return Next::Stop; }
                            if r {
                                self.jump(st, c.1);
                                return Next::Cont;
                            }
                        }
                        self.jump(st, *def);
                    }
                }
                return Next::Cont;
            }
            Inst::Ret(v) => {
                let x = match v { Some(o) => self.val(st, o), None => V::Undef };
                return self.do_ret(st, x);
            }
            Inst::Unreachable => {
                self.event(st, "unreachable", "undefined behaviour: unreachable code is reached".into(), vec![]);
                return Next::Stop;
            }
            Inst::Resume => {
                self.event(st, "panic", "unwinding".into(), vec![]);
                return Next::Stop;
            }
            Inst::Unsupported(s) => {
                self.inconclusive.push(format!("unsupported instruction: {}", s));
                return Next::Stop;
            }
            Inst::Call { ret, callee, args, dst, normal } => {
                return self.call(st, *ret, callee, args, *dst, *normal);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Next::Cont
    }
    fn insert(&mut self, ty: TyId, x: V, y: V, idx: &[u32]) -> V {
        let n = self.prog.types.flat_len(ty);
        let mut l = match x { V::Agg(a) => a.to_vec(), _ => vec![V::Undef; n] };
        let i = idx[0] as usize;
        if idx.len() == 1 { l[i] = y; } else {
            let (_, ft) = self.prog.types.field_off(ty, i);
            let inner = std::mem::replace(&mut l[i], V::Undef);
            l[i] = self.insert(ft, inner, y, &idx[1..]);
        }
        V::Agg(Rc::new(l))
    }
    fn after(&mut self, st: &mut State, dst: u32, normal: u32, v: V) -> Next {
        if st.dead { return Next::Stop; }
        self.set(st, dst, v);
        if normal != u32::MAX { self.jump(st, normal) } else { st.frames.last_mut().unwrap().ip += 1 }
        Next::Cont
    }

    fn call(&mut self, st: &mut State, ret: TyId, callee: &Callee, args: &[(TyId, Op)], dst: u32, normal: u32) -> Next {
        let prog = self.prog;
        let f = match callee {
            Callee::Func(f) => *f,
            Callee::Reg(o) => match self.val(st, o) {
                V::Fn(f) => f,
                V::P(g, 0) if (g as usize) < prog.globals.len() => {
                    match prog.fmap.get(&prog.globals[g as usize].name) { Some(f) => *f, None => { self.inconclusive.push("indirect call to data".into()); return Next::Stop; } }
                }
                v => {
                    self.inconclusive.push(format!("indirect call through {:?} in {}", v, prog.funcs[st.frames.last().unwrap().f as usize].name));
                    return Next::Stop;
                }
            },
            Callee::Asm(s) => {
                if s.is_empty() { return self.after(st, dst, normal, V::Undef); }
                self.inconclusive.push(format!("inline assembly: {}", s));
                return Next::Stop;
            }
        };
        let fun = &prog.funcs[f as usize];
        let retk = if normal == u32::MAX { RetK::Normal } else { RetK::Inv(normal) };
        let ext = self.exts[f as usize];
        if ext == Ext::Intrinsic {
            return self.intrinsic(st, fun, ret, args, dst, normal);
        }
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (t, a) in args {
            av.push(self.valt(st, a, *t));
        }
        self.stats.calls += 1;
        match ext {
            Ext::None => {
                if !fun.defined {
                    self.inconclusive.push(format!("call to external function {}", fun.name));
                    st.dead = true;
                    return Next::Stop;
                }
                self.push_frame(st, f, av, dst, retk);
                Next::Cont
            }
            Ext::Nop => self.after(st, dst, normal, V::Undef),
            Ext::True => self.after(st, dst, normal, vi(1)),
            Ext::Alloc | Ext::AllocZeroed => {
                let (n, al) = match (&av[0], &av[1]) {
                    (V::I { v, .. }, V::I { v: a, .. }) => (*v, *a),
                    _ => { let e = self.to_e(&av[0], 64); let a = self.to_e(&av[1], 64); (self.concretise(st, e), self.concretise(st, a)) }
                };
                if st.dead { return Next::Stop; }
                if n == 0 {
                    self.event(st, "bad_alloc", "allocation of zero bytes".into(), vec![]);
                }
                if al == 0 || !al.is_power_of_two() || n > isize::MAX as u64 - (al - 1) {
                    self.event(st, "bad_alloc", format!("invalid layout: {} bytes aligned to {}", n, al), vec![]);
                    return Next::Stop;
                }
                if n > 1 << 33 {
                    self.inconclusive.push(format!("allocation of {} bytes", n));
                    return Next::Stop;
                }
                if self.opts.alloc_fail && st.initdepth == 0 {
                    let ok = self.cx.var(&format!("alloc_ok{}", st.allocs), 1, 0);
                    let r = self.decide(st, ok);
                    if !r {
                        st.allocs += 1;
                        return self.after(st, dst, normal, vi(0));
                    }
                }
                let nth = st.allocs;
                st.allocs += 1;
                let o = self.new_obj(st, Kind::Heap, &format!("heap block {}", nth), n, al, ext == Ext::AllocZeroed);
                self.after(st, dst, normal, V::P(o, 0))
            }
            Ext::Dealloc => {
                let (n, al) = match (&av[1], &av[2]) { (V::I { v, .. }, V::I { v: a, .. }) => (*v, *a), _ => { let e = self.to_e(&av[1], 64); let a = self.to_e(&av[2], 64); (self.concretise(st, e), self.concretise(st, a)) } };
                match &av[0] {
                    V::P(o, off) if st.objs[*o as usize].kind == Kind::Heap => {
                        let ob = &st.objs[*o as usize];
                        let (nm, sz, oal, fr) = (ob.name.clone(), ob.size, ob.align, ob.freed);
                        if fr {
                            self.event(st, "double_free", format!("{} is freed twice", nm), vec![]);
                        } else if *off != 0 || sz != n || oal != al {
                            self.event(st, "bad_dealloc", format!("{} allocated with size {} align {} is freed at offset {} with size {} align {}", nm, sz, oal, off, n, al), vec![]);
                        }
                        let o2 = *o;
                        self.note_obj(st, o2, 0, sz.max(1), true, false);
                        let ob = Rc::make_mut(&mut st.objs[o2 as usize]);
                        ob.freed = true;
                        ob.pages = vec![];
                    }
                    v => {
                        let w = format!("dealloc of {:?}, which is no heap block", v);
                        self.event(st, "bad_dealloc", w, vec![]);
                    }
                }
                self.after(st, dst, normal, V::Undef)
            }
            Ext::Realloc => {
                let (old, al, new) = match (&av[1], &av[2], &av[3]) { (V::I { v: a, .. }, V::I { v: b, .. }, V::I { v: c, .. }) => (*a, *b, *c), _ => { self.inconclusive.push("symbolic realloc".into()); return Next::Stop; } };
                let nth = st.allocs;
                st.allocs += 1;
                let o = self.new_obj(st, Kind::Heap, &format!("heap block {}", nth), new, al, false);
                if let V::P(q, 0) = av[0] {
                    if st.objs[q as usize].size != old || st.objs[q as usize].align != al || st.objs[q as usize].freed {
                        self.event(st, "bad_dealloc", "realloc with another layout".into(), vec![]);
                    }
                    self.memcpy(st, &V::P(o, 0), &av[0], old.min(new));
                    let ob = Rc::make_mut(&mut st.objs[q as usize]);
                    ob.freed = true;
                }
                self.after(st, dst, normal, V::P(o, 0))
            }
            Ext::AllocError => {
                if !self.opts.alloc_fail {
                    self.event(st, "panic", "allocation error handler".into(), vec![]);
                } else {
                    self.alloc_error_paths += 1;
                }
                Next::Stop
            }
            Ext::Panic => {
                self.event(st, "panic", format!("{} is reached", short(&fun.name)), vec![]);
                Next::Stop
            }
            Ext::NumCpus | Ext::LogCpus => {
                // 1 <= physical <= logical <= 2^16
                let (p, l) = match (self.ncpu, self.ncpu_log) { (Some(p), Some(l)) => (p, l), _ => {
                    let (p, l) = (self.cx.var("ncpu", 64, 0), self.cx.var("ncpu_logical", 64, 0));
                    self.ncpu = Some(p); self.ncpu_log = Some(l); (p, l)
                } };
                let (one, mx) = (self.cx.k(64, 1), self.cx.k(64, 1 << 16));
                for (a, b) in [(one, p), (p, l), (l, mx)] {
                    let c = self.cx.cmp(IPred::Ule, a, b);
                    if !self.pre.contains(&c) { self.pre.push(c); }
                }
                let v = if ext == Ext::NumCpus { p } else { l };
                let v = self.cx.subst(st.sig, v);
                let v = self.norm(v);
                self.after(st, dst, normal, v)
            }
            Ext::EnvVar | Ext::EnvVarOs => {
                let name = if ext == Ext::EnvVar { "model_env_var" } else { "model_env_var_os" };
                // only MATMUL_NUM_THREADS has the symbolic value; any other variable is unset
                const VAR: &[u8] = b"MATMUL_NUM_THREADS";
                let mut same = matches!(av.get(2), Some(V::I { v, .. }) if *v == VAR.len() as u64);
                if same {
                    let t8 = self.ty8;
                    for (i, c) in VAR.iter().enumerate() {
                        let p = self.padd(&av[1], &vi(i as u64), 1);
                        let x = self.load(st, t8, &p, 1, false);
                        if st.dead { return Next::Stop; }
                        let x = self.to_e(&x, 8);
                        if self.cx.as_const(x) != Some(*c as u64) { same = false; }
                    }
                }
                st.env_other = !same;
                match prog.fmap.get(name) {
                    Some(g) => {
                        let out = av[0].clone();
                        self.push_frame(st, *g, vec![out], dst, retk);
                        Next::Cont
                    }
                    None => { self.inconclusive.push("environment access".into()); Next::Stop }
                }
            }
            Ext::EnvLen => {
                let v = match self.env_len { Some(v) if !st.env_other => v, _ => self.cx.k(64, u64::MAX) };
                let v = self.cx.subst(st.sig, v);
                let c = self.concretise(st, v);
                self.after(st, dst, normal, vi(c))
            }
            Ext::EnvByte => {
                let i = self.len_arg(st, &av[0]) as usize;
                if st.dead { return Next::Stop; }
                if i > 4096 { self.inconclusive.push("environment value longer than modelled".into()); return Next::Stop; }
                while self.env_bytes.len() <= i {
                    let n = self.env_bytes.len();
                    let v = self.cx.var(&format!("env{}", n), 8, 0);
                    self.env_bytes.push(v);
                }
                let v = V::S(self.env_bytes[i]);
                self.after(st, dst, normal, v)
            }
            Ext::ParseUsize | Ext::OnceInit | Ext::Intrinsic => { self.inconclusive.push(format!("call to {}", fun.name)); Next::Stop }
            Ext::DetectInit => {
                // excluded by the assumption that detection has already run
                Next::Stop
            }
            Ext::Memcmp => {
                let n = match &av[2] { V::I { v, .. } => *v, _ => { let e = self.to_e(&av[2], 64); self.concretise(st, e) } };
                let t8 = self.ty8;
                let mut acc = self.cx.k(1, 1);
                for i in 0..n {
                    let (p, q) = (self.padd(&av[0], &vi(i), 1), self.padd(&av[1], &vi(i), 1));
                    let (x, y) = (self.load(st, t8, &p, 1, false), self.load(st, t8, &q, 1, false));
                    if st.dead { return Next::Stop; }
                    let (x, y) = (self.to_e(&x, 8), self.to_e(&y, 8));
                    let c = self.cx.cmp(IPred::Eq, x, y);
                    acc = self.cx.and(acc, c);
                }
                let (z, o) = (self.cx.k(32, 0), self.cx.k(32, 1));
                let r = self.cx.ite(acc, z, o);
                let r = self.norm(r);
                self.after(st, dst, normal, r)
            }
            Ext::MmvPool => {
                let l = match &av[0] { V::I { v, .. } => *v, _ => 99 };
                st.pool_levels.push(l);
                self.after(st, dst, normal, V::Undef)
            }
            Ext::MmvFork => {
                st.par.push(Par { sets: [AccSet::default(), AccSet::default()], phase: 0, th: st.th, depth: 0, outer: st.maxconc, mc: 0 });
                st.maxconc = 1;
                self.after(st, dst, normal, V::Undef)
            }
            Ext::MmvSwitch => {
                let depth = st.par.len() as u32;
                let th = st.th;
                let mc = st.maxconc;
                if let Some(p) = st.par.last_mut() { p.phase = 1; p.mc = mc; }
                st.maxconc = 1;
                let nt = match st.thmap.iter().position(|x| *x == (th, depth)) {
                    Some(i) => i as u32 + 1,
                    None => { Rc::make_mut(&mut st.thmap).push((th, depth)); st.thmap.len() as u32 }
                };
                st.th = nt;
                self.after(st, dst, normal, V::Undef)
            }
            Ext::MmvJoin => {
                if let Some(p) = st.par.pop() {
                    st.th = p.th;
                    let tot = p.mc + st.maxconc;
                    st.maxconc = p.outer.max(tot);
                    let [a, b] = p.sets;
                    let mut bad: Option<(u64, u32, u32)> = None;
                    for (l, f) in a.w.iter() {
                        if let Some(g) = b.w.get(l).or_else(|| b.r.get(l)) { bad = Some((*l, *f, *g)); break; }
                        if b.a.contains(l) { bad = Some((*l, *f, *f)); break; }
                    }
                    if bad.is_none() {
                        for (l, f) in b.w.iter() {
                            if let Some(g) = a.r.get(l) { bad = Some((*l, *g, *f)); break; }
                            if a.a.contains(l) { bad = Some((*l, *f, *f)); break; }
                        }
                    }
                    if let Some((l, f, g)) = bad {
                        let o = (l >> 40) as usize;
                        let w = format!("two concurrent tasks access {} (location {}), one of them writing: {} and {}", st.objs[o].name, l & 0xff_ffff_ffff, short(&prog.funcs[f as usize].name), short(&prog.funcs[g as usize].name));
                        self.event(st, "race", w, vec![]);
                    }
                    self.race_checks += (a.w.len() + a.r.len() + b.w.len() + b.r.len()) as u64;
                    if let Some(q) = st.par.last_mut() {
                        let s = &mut q.sets[q.phase];
                        for x in [a, b] {
                            for (l, f) in x.r { s.r.entry(l).or_insert(f); }
                            for (l, f) in x.w { s.w.entry(l).or_insert(f); }
                            s.a.extend(x.a);
                        }
                    }
                }
                self.after(st, dst, normal, V::Undef)
            }
        }
    }

    fn len_arg(&mut self, st: &mut State, v: &V) -> u64 {
        match v {
            V::I { v, .. } => *v,
            v => { let e = self.to_e(v, 64); self.concretise(st, e) }
        }
    }

    fn intrinsic(&mut self, st: &mut State, fun: &Func, ret: TyId, args: &[(TyId, Op)], dst: u32, normal: u32) -> Next {
        let prog = self.prog;
        let name = &fun.name[5..];
        if name.starts_with("lifetime") || name.starts_with("experimental.noalias") || name.starts_with("assume") || name.starts_with("dbg.") || name.starts_with("prefetch") || name.starts_with("stackrestore") || name.starts_with("invariant") || name.starts_with("donothing") || name.starts_with("x86.avx.vzeroupper") || name.starts_with("sideeffect") {
            return self.after(st, dst, normal, V::Undef);
        }
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (t, a) in args {
            av.push(self.valt(st, a, *t));
        }
        let base = name.split('.').next().unwrap();
        let at = |i: usize| args[i].0;
        // lane-wise helper
        let nl = match prog.types.get(ret) { Ty::Vec(n, _) => *n as usize, _ => 0 };
        let r = match base {
            "fma" | "fmuladd" => {
                let f = |s: &mut Eng, a: &V, b: &V, c: &V| match (a, b, c) { (V::F(a), V::F(b), V::F(c)) => V::F(s.cx.fma(*a, *b, *c)), _ => V::Undef };
                if nl > 0 {
                    let (a, b, c) = (self.lanes(&av[0], nl), self.lanes(&av[1], nl), self.lanes(&av[2], nl));
                    let v = (0..nl).map(|i| f(self, &a[i], &b[i], &c[i])).collect();
                    V::Agg(Rc::new(v))
                } else { f(self, &av[0], &av[1], &av[2]) }
            }
            "memcpy" | "memmove" => { let n = self.len_arg(st, &av[2]); self.memcpy(st, &av[0].clone(), &av[1].clone(), n); V::Undef }
            "memset" => { let n = self.len_arg(st, &av[2]); self.memset(st, &av[0].clone(), &av[1].clone(), n); V::Undef }
            "umin" | "umax" | "smin" | "smax" | "abs" | "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "fshl" | "fshr" => {
                let w = match prog.types.get(ret) { Ty::Vec(_, e) => self.width_of(*e), _ => self.width_of(ret) };
                if nl > 0 {
                    let l: Vec<Vec<V>> = av.iter().map(|x| self.lanes(x, nl)).collect();
                    let mut v = vec![];
                    for i in 0..nl { let a: Vec<V> = l.iter().map(|x| x.get(i).cloned().unwrap_or(V::Undef)).collect(); v.push(self.intop(st, base, w, &a)); }
                    V::Agg(Rc::new(v))
                } else { self.intop(st, base, w, &av) }
            }
            "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                let sat = name.contains(".sat");
                let w = self.width_of(at(0));
                let signed = base.starts_with('s');
                let op = match &base[1..] { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
                if sat {
                    let o = match base { "usub" => Bin::USubSat, "uadd" => Bin::UAddSat, "ssub" => Bin::SSubSat, _ => Bin::SAddSat };
                    self.ibin(st, o, w, &av[0], &av[1])
                } else {
                    let r = self.ibin(st, op, w, &av[0], &av[1]);
                    let o = match (&av[0], &av[1]) {
                        (V::I { v: x, sh: sx }, V::I { v: y, sh: sy }) => {
                            let (kx, ky) = (self.cx.k(w, *x), self.cx.k(w, *y));
                            let c = self.cx.ovf(op, signed, kx, ky);
                            let v = self.cx.as_const(c).unwrap();
                            if *sx != 0 || *sy != 0 {
                                let (ex, ey) = (if *sx != 0 { *sx } else { kx }, if *sy != 0 { *sy } else { ky });
                                let e = self.cx.ovf(op, signed, ex, ey);
                                V::I { v, sh: self.shk(e) }
                            } else { vi(v) }
                        }
                        (V::Undef, _) | (_, V::Undef) => V::Undef,
                        (a, b) => {
                            let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                            let (x, y) = (self.cx.subst(st.sig, x), self.cx.subst(st.sig, y));
                            let e = self.cx.ovf(op, signed, x, y);
                            self.norm(e)
                        }
                    };
                    V::Agg(Rc::new(vec![r, o]))
                }
            }
            "threadlocal" => {
                let g = match &av[0] { V::P(g, _) => *g, _ => return Next::Stop };
                let th = st.th;
                let o = match st.tls.get(&(g, th)) {
                    Some(o) => *o,
                    None => {
                        let gl = &prog.globals[g as usize];
                        let o = self.new_obj(st, Kind::Tls, &format!("thread-local {} of thread {}", short(&gl.name), th), gl.size, if self.opts.tls32 { gl.align.max(32) } else { gl.align }, false);
                        Rc::make_mut(&mut st.objs[o as usize]).lazy = Some(g);
                        Rc::make_mut(&mut st.tls).insert((g, th), o);
                        o
                    }
                };
                V::P(o, 0)
            }
            "expect" => av[0].clone(),
            "is" if name.starts_with("is.fpclass") => {
                let k = match &av[1] { V::I { v, .. } => *v, _ => 0 };
                let vt = at(0);
                let elem = match prog.types.get(vt) { Ty::Vec(_, e) => *e, _ => vt };
                let w = prog.types.size(elem) as u32 * 8;
                let l = if nl > 0 { self.lanes(&av[0], nl) } else { vec![av[0].clone()] };
                let mut v: Vec<V> = vec![];
                for x in l { if let V::Undef = x { v.push(V::Undef); } else { v.push(self.fpclass(&x, w, k)); } }
                if nl > 0 { V::Agg(Rc::new(v)) } else { v.pop().unwrap() }
            }
            "is" => vi(0), // is.constant
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven" | "minnum" | "maxnum" | "minimum" | "maximum" | "copysign" | "canonicalize" | "minimumnum" | "maximumnum" => {
                let f = |s: &mut Eng, a: &[V]| {
                    let ts: Vec<T> = a.iter().filter_map(|x| if let V::F(t) = x { Some(*t) } else { None }).collect();
                    if ts.is_empty() || ts.len() != a.len() { return V::Undef; }
                    if base == "canonicalize" { return V::F(ts[0]); }
                    let (x, y) = (ts[0], *ts.get(1).unwrap_or(&ts[0]));
                    V::F(s.cx.fun(base, x, y, x))
                };
                if nl > 0 {
                    let l: Vec<Vec<V>> = av.iter().map(|x| self.lanes(x, nl)).collect();
                    let v = (0..nl).map(|i| { let a: Vec<V> = l.iter().map(|x| x[i].clone()).collect(); f(self, &a) }).collect();
                    V::Agg(Rc::new(v))
                } else { f(self, &av) }
            }
            "vector" if name.starts_with("vector.reduce") => {
                let op = name.split('.').nth(2).unwrap_or("").to_string();
                let (mut acc, src) = if op == "fadd" || op == "fmul" { (Some(av[0].clone()), av[1].clone()) } else { (None, av[0].clone()) };
                let l = self.lanes(&src, 1);
                let w = match prog.types.get(at(args.len() - 1)) { Ty::Vec(_, e) => self.width_of(*e), _ => 64 };
                for x in l {
                    acc = Some(match acc { None => x, Some(a) => match op.as_str() {
                        "fadd" => self.fbin1(FBin::Add, &a, &x),
                        "fmul" => self.fbin1(FBin::Mul, &a, &x),
                        "add" => self.ibin(st, Bin::Add, w, &a, &x),
                        "and" => self.ibin(st, Bin::And, w, &a, &x),
                        "or" => self.ibin(st, Bin::Or, w, &a, &x),
                        "xor" => self.ibin(st, Bin::Xor, w, &a, &x),
                        "umax" => self.ibin(st, Bin::UMax, w, &a, &x),
                        "umin" => self.ibin(st, Bin::UMin, w, &a, &x),
                        _ => { self.inconclusive.push(format!("intrinsic {}", name)); V::Undef }
                    } });
                }
                acc.unwrap_or(V::Undef)
            }
            "masked" if name.starts_with("masked.load") || name.starts_with("masked.store") || name.starts_with("masked.expandload") => {
                // (ptr [, align], mask, passthru) or (value, ptr [, align], mask)
                let ld = name.starts_with("masked.load");
                let has_align = args.len() == 4;
                let (pi, mi) = if ld { (0, if has_align { 2 } else { 1 }) } else { (1, if has_align { 3 } else { 2 }) };
                let vt = if ld { ret } else { at(0) };
                let (n, e) = match prog.types.get(vt) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let es = prog.types.size(e);
                let m = self.lanes(&av[mi], n);
                let mut out = if ld { self.lanes(&av[mi + 1], n) } else { vec![] };
                for i in 0..n {
                    let on = match &m[i] { V::I { v, .. } => *v & 1 == 1, V::S(c) => { let c = *c; self.decide(st, c) } _ => false };
                    if on {
                        let p = self.padd(&av[pi], &vi(i as u64 * es), 1);
                        if ld { out[i] = self.load(st, e, &p, 1, false); } else { let x = self.lanes(&av[0], n)[i].clone(); self.store(st, e, &x, &p, 1, false); }
                        if st.dead { return Next::Stop; }
                    }
                }
                if ld { V::Agg(Rc::new(out)) } else { V::Undef }
            }
            "x86" if name.contains("maskload") || name.contains("maskstore") => {
                let ld = name.contains("maskload");
                let vt = if ld { ret } else { at(2) };
                let (n, e) = match prog.types.get(vt) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let es = prog.types.size(e);
                let m = self.lanes(&av[1], n);
                let w = es as u32 * 8;
                let z = self.zero(e);
                let mut out = vec![z; n];
                for i in 0..n {
                    let on = match &m[i] { V::I { v, .. } => v >> (w - 1) & 1 == 1, v => { let x = self.to_e(v, w); let zz = self.cx.k(w, 0); let c = self.cx.cmp(IPred::Slt, x, zz); self.decide(st, c) } };
                    if on {
                        let p = self.padd(&av[0], &vi(i as u64 * es), 1);
                        if ld { out[i] = self.load(st, e, &p, 1, false); } else { let x = self.lanes(&av[2], n)[i].clone(); self.store(st, e, &x, &p, 1, false); }
                        if st.dead { return Next::Stop; }
                    }
                }
                if ld { V::Agg(Rc::new(out)) } else { V::Undef }
            }
            "x86" if name.contains("addsub") => {
                let n = nl;
                let (a, b) = (self.lanes(&av[0], n), self.lanes(&av[1], n));
                let v = (0..n).map(|i| self.fbin1(if i % 2 == 0 { FBin::Sub } else { FBin::Add }, &a[i], &b[i])).collect();
                V::Agg(Rc::new(v))
            }
            "x86" if name.contains("hadd.p") || name.contains("hsub.p") => {
                let n = nl;
                let (a, b) = (self.lanes(&av[0], n), self.lanes(&av[1], n));
                let op = if name.contains("hadd") { FBin::Add } else { FBin::Sub };
                let lane = if name.contains(".pd") { 2 } else { 4 };
                let mut v = vec![];
                for blk in 0..n / lane {
                    for s in [&a, &b] {
                        for i in 0..lane / 2 { v.push(self.fbin1(op, &s[blk * lane + 2 * i], &s[blk * lane + 2 * i + 1])); }
                    }
                }
                V::Agg(Rc::new(v))
            }
            "masked" if name.starts_with("masked.gather") || name.starts_with("masked.scatter") => {
                // (ptrs [, align], mask, passthru) or (value, ptrs [, align], mask)
                let ld = name.starts_with("masked.gather");
                let has_align = args.len() == 4;
                let (pi, mi) = if ld { (0, if has_align { 2 } else { 1 }) } else { (1, if has_align { 3 } else { 2 }) };
                let vt = if ld { ret } else { at(0) };
                let (n, e) = match prog.types.get(vt) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let (m, ps) = (self.lanes(&av[mi], n), self.lanes(&av[pi], n));
                let mut out = if ld { self.lanes(&av[mi + 1], n) } else { self.lanes(&av[0], n) };
                for i in 0..n {
                    let on = match &m[i] { V::I { v, .. } => *v & 1 == 1, V::S(c) => { let c = *c; self.decide(st, c) } _ => false };
                    if on {
                        if ld { out[i] = self.load(st, e, &ps[i].clone(), 1, false); } else { let x = out[i].clone(); self.store(st, e, &x, &ps[i].clone(), 1, false); }
                        if st.dead { return Next::Stop; }
                    }
                }
                if ld { V::Agg(Rc::new(out)) } else { V::Undef }
            }
            "x86" if name.contains(".gather.") => {
                // (passthru, base, indices, mask, scale)
                let (n, e) = match prog.types.get(ret) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let w = prog.types.size(e) as u32 * 8;
                let (ni, iw) = match prog.types.get(at(2)) { Ty::Vec(n, e) => (*n as usize, self.width_of(*e)), _ => return Next::Stop };
                let sc = match &av[4] { V::I { v, .. } => *v, _ => 1 };
                let (ix, m) = (self.lanes(&av[2], ni), self.lanes(&av[3], n));
                let mut out = self.lanes(&av[0], n);
                for i in 0..n.min(ni) {
                    let x = self.to_e(&m[i], w);
                    let z = self.cx.k(w, 0);
                    let c = self.cx.cmp(IPred::Slt, x, z);
                    let on = match self.cx.as_const(c) { Some(v) => v == 1, None => self.decide(st, c) };
                    if on {
                        let o = match &ix[i] { V::I { v, sh: 0 } => vi(sext(*v, iw) as u64), v => { let e = self.to_e(v, iw); let e = if iw < 64 { self.cx.sext(e, 64) } else { e }; self.norm(e) } };
                        let p = self.padd(&av[1], &o, sc as i64);
                        out[i] = self.load(st, e, &p, 1, false);
                        if st.dead { return Next::Stop; }
                    }
                }
                for o in out.iter_mut().skip(ni) { *o = self.zero(e); }
                V::Agg(Rc::new(out))
            }
            "x86" if name.contains(".blendv") => {
                let (n, e) = match prog.types.get(ret) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let w = prog.types.size(e) as u32 * 8;
                let (a, b, m) = (self.lanes(&av[0], n), self.lanes(&av[1], n), self.lanes(&av[2], n));
                let mut v = vec![];
                for i in 0..n {
                    let x = self.to_e(&m[i], w);
                    let z = self.cx.k(w, 0);
                    let c = self.cx.cmp(IPred::Slt, x, z);
                    let on = match self.cx.as_const(c) { Some(v) => v == 1, None => self.decide(st, c) };
                    if st.dead { return Next::Stop; }
                    v.push(if on { b[i].clone() } else { a[i].clone() });
                }
                V::Agg(Rc::new(v))
            }
            "x86" if name.contains("vpermilvar") || name.ends_with("permps") || name.ends_with("permd") => {
                let (n, e) = match prog.types.get(ret) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let blk = if name.contains("vpermilvar") { 16 / prog.types.size(e) as usize } else { n };
                let (a, ix) = (self.lanes(&av[0], n), self.lanes(&av[1], n));
                let mut v = vec![];
                for i in 0..n {
                    match &ix[i] {
                        V::I { v: x, .. } => { let x = *x as usize; let q = if blk == 2 { x >> 1 & 1 } else { x & (blk - 1) }; v.push(a[i / blk * blk + q].clone()); }
                        _ => { self.inconclusive.push(format!("intrinsic {} with a symbolic index", name)); return Next::Stop; }
                    }
                }
                V::Agg(Rc::new(v))
            }
            "x86" if name.contains(".dpp") || name.contains(".dp.ps") => {
                let n = nl;
                let im = match &av[2] { V::I { v, .. } => *v, _ => 0 };
                let lane = if name.contains("dppd") { 2 } else { 4 };
                let (a, b) = (self.lanes(&av[0], n), self.lanes(&av[1], n));
                let z = self.zero(match prog.types.get(ret) { Ty::Vec(_, e) => *e, _ => ret });
                let mut v = vec![];
                for blk in 0..n / lane {
                    let p: Vec<V> = (0..lane).map(|i| if im >> (4 + i) & 1 == 1 { self.fbin1(FBin::Mul, &a[blk * lane + i], &b[blk * lane + i]) } else { z.clone() }).collect();
                    let s = if lane == 2 { self.fbin1(FBin::Add, &p[0], &p[1]) } else { let x = self.fbin1(FBin::Add, &p[0], &p[1]); let y = self.fbin1(FBin::Add, &p[2], &p[3]); self.fbin1(FBin::Add, &x, &y) };
                    for i in 0..lane { v.push(if im >> i & 1 == 1 { s.clone() } else { z.clone() }); }
                }
                V::Agg(Rc::new(v))
            }
            "x86" if nl > 0 && (name.contains(".max.p") || name.contains(".min.p") || name.contains(".rcp.p") || name.contains(".rsqrt.p")) => {
                let op = if name.contains(".max.") { "x86max" } else if name.contains(".min.") { "x86min" } else if name.contains(".rcp.") { "x86rcp" } else { "x86rsqrt" };
                let a = self.lanes(&av[0], nl);
                let b = if av.len() > 1 { self.lanes(&av[1], nl) } else { a.clone() };
                let v = (0..nl).map(|i| match (&a[i], &b[i]) { (V::F(x), V::F(y)) => V::F(self.cx.fun(op, *x, *y, *x)), _ => V::Undef }).collect();
                V::Agg(Rc::new(v))
            }
            "x86" if name.contains(".movmsk.p") => {
                let (n, e) = match prog.types.get(at(0)) { Ty::Vec(n, e) => (*n as usize, *e), _ => return Next::Stop };
                let w = prog.types.size(e) as u32 * 8;
                let l = self.lanes(&av[0], n);
                let mut r = 0u64;
                for i in 0..n {
                    let x = self.to_e(&l[i], w);
                    let z = self.cx.k(w, 0);
                    let c = self.cx.cmp(IPred::Slt, x, z);
                    let on = match self.cx.as_const(c) { Some(v) => v == 1, None => self.decide(st, c) };
                    if st.dead { return Next::Stop; }
                    if on { r |= 1 << i; }
                }
                vi(r)
            }
            "trap" | "ubsantrap" | "debugtrap" => {
                self.event(st, "panic", "trap".into(), vec![]);
                return Next::Stop;
            }
            "stacksave" => vi(0),
            _ => {
                self.inconclusive.push(format!("intrinsic {}", fun.name));
                return Next::Stop;
            }
        };
        self.after(st, dst, normal, r)
    }
    /// class test on the bits of a float: sNaN 1, qNaN 2, -inf 4, -normal 8, -subnormal 16, -0 32, +0 64, +subnormal 128, +normal 256, +inf 512
    fn fpclass(&mut self, x: &V, w: u32, k: u64) -> V {
        let b = self.to_e(x, w);
        let (frac, top) = if w == 64 { (52u32, 0x7ffu64) } else { (23, 0xff) };
        let inf = top << frac;
        let one = 1u64 << frac;
        let sign = 1u64 << (w - 1);
        // intervals of the bit pattern for each class
        let pos = [(1u64 << 6, 0, 0), (1 << 7, 1, one - 1), (1 << 8, one, inf - 1), (1 << 9, inf, inf), (1 << 0, inf + 1, inf + one / 2 - 1), (1 << 1, inf + one / 2, inf + one - 1)];
        let neg = [(1u64 << 5, 0, 0), (1 << 4, 1, one - 1), (1 << 3, one, inf - 1), (1 << 2, inf, inf), (1 << 0, inf + 1, inf + one / 2 - 1), (1 << 1, inf + one / 2, inf + one - 1)];
        let mut r = self.cx.k(1, 0);
        for (s, t) in [(0, &pos), (sign, &neg)] {
            // merge neighbouring intervals
            let mut cur: Option<(u64, u64)> = None;
            let mut ivs = vec![];
            for (bit, lo, hi) in t.iter() {
                if k & bit != 0 {
                    cur = Some(match cur { Some((l, h)) if h + 1 == *lo => (l, *hi), Some(c) => { ivs.push(c); (*lo, *hi) } None => (*lo, *hi) });
                }
            }
            ivs.extend(cur);
            for (lo, hi) in ivs {
                let (l, h) = (self.cx.k(w, lo | s), self.cx.k(w, hi | s));
                let c = if lo == hi { self.cx.cmp(IPred::Eq, b, l) } else { let c1 = self.cx.cmp(IPred::Uge, b, l); let c2 = self.cx.cmp(IPred::Ule, b, h); self.cx.and(c1, c2) };
                r = { let (nr, nc) = (self.cx.not(r), self.cx.not(c)); let a = self.cx.and(nr, nc); self.cx.not(a) };
            }
        }
        self.norm(r)
    }
    fn intop(&mut self, st: &mut State, base: &str, w: u32, a: &[V]) -> V {
        match base {
            "umin" => self.ibin(st, Bin::UMin, w, &a[0], &a[1]),
            "umax" => self.ibin(st, Bin::UMax, w, &a[0], &a[1]),
            "smin" => self.ibin(st, Bin::SMin, w, &a[0], &a[1]),
            "smax" => self.ibin(st, Bin::SMax, w, &a[0], &a[1]),
            _ => {
                let x = match &a[0] { V::I { v, .. } => *v, V::Undef => return V::Undef, v => {
                    if base == "abs" {
                        let e = self.to_e(v, w);
                        let z = self.cx.k(w, 0);
                        let c = self.cx.cmp(IPred::Slt, e, z);
                        let n = self.cx.mulk(e, u64::MAX);
                        let r = self.cx.ite(c, n, e);
                        return self.norm(r);
                    }
                    let e = self.to_e(v, w);
                    let c = self.concretise(st, e);
                    c
                } };
                match base {
                    "abs" => vi(sext(x, w).unsigned_abs() & mask(w)),
                    "ctpop" => vi(x.count_ones() as u64),
                    "ctlz" => vi(if x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 }),
                    "cttz" => vi(if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }),
                    "bswap" => vi(x.swap_bytes() >> (64 - w)),
                    "bitreverse" => vi(x.reverse_bits() >> (64 - w)),
                    "fshl" | "fshr" => {
                        let (y, k) = match (&a[1], &a[2]) { (V::I { v: y, .. }, V::I { v: k, .. }) => (*y, (*k % w as u64) as u32), _ => { self.inconclusive.push("symbolic funnel shift".into()); return V::Undef; } };
                        let cat = (x as u128) << w | (y & mask(w)) as u128;
                        let r = if base == "fshl" { (cat << k) >> w } else { cat >> k };
                        vi(r as u64 & mask(w))
                    }
                    _ => V::Undef,
                }
            }
        }
    }
}

fn is_once(n: &str) -> bool {
    n.contains("initialize_or_wait") || n.contains("OnceLock") || n.contains("9once_lock") || n.contains("4Once4call") || n.contains("9lazy_lock") || n.contains("9OnceCell") && n.contains("initialize")
}

/// readable tail of a mangled name
pub fn short(n: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 3 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 1 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[j].is_ascii_alphabetic() | (b[j] == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() { return n.to_string(); }
    let s = out.len().saturating_sub(4);
    out[s..].join("::")
}
