//! Interpreter, part two: pointers, memory operations, instructions, calls.
use crate::ctx::*;
use crate::exec::*;
use crate::ir::*;
use crate::util::FxMap;
use std::rc::Rc;

pub enum Loc {
    Obj(u32, i64),
    Ext(u32, E),
    Bad(String),
}

fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1 << w) - 1 }
}

impl Eng {
    // ------------------------------------------------------------------ bit pieces
    pub fn width_of(&self, t: TyId) -> u32 {
        self.prog.types.bits(t) as u32
    }
    pub fn flat(&self, bits: u32, v: &V, out: &mut Vec<(u32, V)>) {
        match v {
            V::Cat(ps) => {
                for (b, p) in ps.iter() {
                    self.flat(*b, p, out);
                }
            }
            v => out.push((bits, v.clone())),
        }
    }
    pub fn pieces_of(&self, ty: TyId, v: &V) -> Vec<(u32, V)> {
        let mut out = vec![];
        match (self.prog.types.get(ty), v) {
            (Ty::Vec(_, e), V::Agg(ls)) => {
                let b = self.width_of(*e);
                for l in ls.iter() {
                    self.flat(b, l, &mut out);
                }
            }
            _ => self.flat(self.width_of(ty), v, &mut out),
        }
        out
    }
    /// bits [lo, lo+n) of a piece list
    pub fn take(&mut self, ps: &[(u32, V)], lo: u32, n: u32) -> Vec<(u32, V)> {
        let mut out = vec![];
        let mut pos = 0;
        for (b, v) in ps {
            let (s, e) = (pos, pos + b);
            pos = e;
            let (x, y) = (s.max(lo), e.min(lo + n));
            if x >= y {
                continue;
            }
            if x == s && y == e {
                out.push((*b, v.clone()));
                continue;
            }
            let (sh, w) = (x - s, y - x);
            let nv = match v {
                V::I { v, sh: s0 } => {
                    let s2 = if sh == 0 && *s0 != 0 { let t = self.cx.trunc(*s0, w); if self.cx.as_const(t).is_some() { 0 } else { t } } else { 0 };
                    V::I { v: (v >> sh) & mask(w), sh: s2 }
                }
                V::Undef => V::Undef,
                v => {
                    let e = self.to_e(v, *b);
                    let k = self.cx.k(*b, sh as u64);
                    let s = self.cx.bin(Bin::LShr, e, k);
                    let t = self.cx.trunc(s, w);
                    self.norm(t)
                }
            };
            out.push((w, nv));
        }
        out
    }
    /// one value out of pieces that add up to `bits`
    pub fn regroup(&mut self, ps: &[(u32, V)], bits: u32) -> V {
        if ps.len() == 1 {
            return ps[0].1.clone();
        }
        if bits <= 64 {
            if ps.iter().all(|p| matches!(p.1, V::I { .. })) {
                // keep a shadow when the high part is zero
                let mut acc = 0u64;
                let mut pos = 0;
                for (b, v) in ps {
                    if let V::I { v, .. } = v {
                        acc |= (v & mask(*b)) << pos;
                    }
                    pos += b;
                }
                let mut sh = 0;
                if let V::I { sh: s, .. } = ps[0].1 {
                    if s != 0 && ps[1..].iter().all(|p| matches!(p.1, V::I { v: 0, .. })) {
                        sh = self.cx.zext(s, bits);
                    }
                }
                return V::I { v: acc, sh };
            }
            if ps.iter().all(|p| matches!(p.1, V::Undef)) {
                return V::Undef;
            }
            if ps.iter().all(|p| matches!(p.1, V::I { .. } | V::S(_))) {
                let c = V::Cat(Rc::new(ps.to_vec()));
                let e = self.to_e(&c, bits);
                return self.norm(e);
            }
        }
        V::Cat(Rc::new(ps.to_vec()))
    }
    pub fn from_pieces(&mut self, ty: TyId, ps: &[(u32, V)]) -> V {
        let prog = self.prog;
        match prog.types.get(ty) {
            Ty::Vec(n, e) => {
                let b = self.width_of(*e);
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    let q = self.take(ps, i * b, b);
                    v.push(self.from_pieces(*e, &q));
                }
                V::Agg(Rc::new(v))
            }
            Ty::F32 | Ty::F64 => {
                let dbl = matches!(prog.types.get(ty), Ty::F64);
                let w = if dbl { 64 } else { 32 };
                let v = self.regroup(ps, w);
                self.as_float(v, dbl)
            }
            Ty::Int(w) => { let w = *w; self.regroup(ps, w) }
            Ty::Ptr => self.regroup(ps, 64),
            _ => { let w = self.width_of(ty); self.regroup(ps, w) }
        }
    }
    pub fn as_float(&mut self, v: V, dbl: bool) -> V {
        match v {
            V::F(t) if self.cx.tdbl[t as usize] == dbl => V::F(t),
            V::I { v, .. } => V::F(self.cx.tk(dbl, v)),
            V::Undef => V::Undef,
            v => {
                let e = self.to_e(&v, if dbl { 64 } else { 32 });
                V::F(self.cx.frombits(dbl, e))
            }
        }
    }

    // ------------------------------------------------------------------ pointers
    pub fn concretise(&mut self, st: &mut State, e: E) -> u64 {
        let mut n = 0;
        loop {
            let e2 = self.cx.subst(st.sig, e);
            if let Some(c) = self.cx.as_const(e2) {
                return c;
            }
            let one = self.cx.k(1, 1);
            // a value from a model of the relevant facts
            let zero = self.cx.k(self.cx.w(e2), 0);
            let isz = self.cx.cmp(IPred::Uge, e2, zero);
            let _ = (one, isz);
            let mut key = self.slice(st, e2);
            key.push(e2);
            let val = match self.conc.get(&key) {
                Some(v) => *v,
                None => {
                    let v = self.some_value(st, e2);
                    self.conc.insert(key, v);
                    v
                }
            };
            let v = match val {
                Some(v) => v,
                None => {
                    st.dead = true;
                    return 0;
                }
            };
            let k = self.cx.k(self.cx.w(e2), v);
            let c = self.cx.cmp(IPred::Eq, e2, k);
            if self.decide(st, c) {
                self.add_fact(st, c);
                return v;
            }
            n += 1;
            if n > 300 {
                self.inconclusive.push("too many values while resolving a symbolic offset".into());
                st.dead = true;
                return v;
            }
        }
    }
    pub fn mkptr(&mut self, o: u32, e: E) -> V {
        match self.cx.as_const(e) {
            Some(c) => V::P(o, c as i64),
            None => V::PS(o, e),
        }
    }
    /// pointer-typed integer expression -> object and offset
    pub fn ptr_of_e(&mut self, e: E) -> V {
        let ts: Vec<(u64, E)> = match &self.cx.ex[e as usize] {
            Ex::Lin { ts, .. } => ts.to_vec(),
            _ => vec![(1, e)],
        };
        for (k, t) in ts {
            if k == 1 {
                if let Some(&o) = self.basemap.get(&t) {
                    let b = self.bases[o as usize];
                    let off = self.cx.addmul(e, b, u64::MAX);
                    return self.mkptr(o, off);
                }
            }
        }
        V::S(e)
    }
    pub fn padd(&mut self, p: &V, d: &V, scale: i64) -> V {
        // p + d*scale
        match (p, d) {
            (V::P(o, off), V::I { v, .. }) => V::P(*o, off.wrapping_add((*v as i64).wrapping_mul(scale))),
            (V::I { v, .. }, V::I { v: d, .. }) => vi(v.wrapping_add((*d as i64).wrapping_mul(scale) as u64)),
            (V::P(o, off), _) => {
                let e = self.to_e(d, 64);
                let z = self.cx.k(64, *off as u64);
                let e = self.cx.addmul(z, e, scale as u64);
                self.mkptr(*o, e)
            }
            (V::PS(o, b), _) => {
                let e = self.to_e(d, 64);
                let e = self.cx.addmul(*b, e, scale as u64);
                self.mkptr(*o, e)
            }
            (V::Undef, _) | (_, V::Undef) => V::Undef,
            _ => {
                let b = self.to_e(p, 64);
                let e = self.to_e(d, 64);
                let e = self.cx.addmul(b, e, scale as u64);
                if let Some(c) = self.cx.as_const(e) { return vi(c); }
                self.ptr_of_e(e)
            }
        }
    }
    pub fn resolve(&mut self, st: &mut State, p: &V) -> Loc {
        let p = match p {
            V::S(e) => { let e = self.cx.subst(st.sig, *e); self.ptr_of_e(e) }
            p => p.clone(),
        };
        match p {
            V::P(o, off) => {
                if st.objs[o as usize].kind == Kind::Ext {
                    let e = self.cx.k(64, off as u64);
                    Loc::Ext(o, e)
                } else {
                    Loc::Obj(o, off)
                }
            }
            V::PS(o, e) => {
                let e = self.cx.subst(st.sig, e);
                if st.objs[o as usize].kind == Kind::Ext {
                    Loc::Ext(o, e)
                } else {
                    let v = self.concretise(st, e);
                    Loc::Obj(o, v as i64)
                }
            }
            V::I { v, .. } => Loc::Bad(format!("address {:#x}", v)),
            V::Undef => Loc::Bad("an uninitialised pointer".into()),
            V::Fn(_) => Loc::Bad("a function pointer".into()),
            V::S(e) => Loc::Bad(format!("address {}", self.cx.show(e))),
            _ => Loc::Bad("a non-pointer value".into()),
        }
    }
    fn check_align(&mut self, st: &mut State, o: u32, off: E, align: u32, kind: &str) {
        if align <= 1 {
            return;
        }
        let need = align.trailing_zeros();
        let tz_off = self.cx.tz[off as usize] as u32;
        let base = st.objs[o as usize].base;
        let b = self.cx.subst(st.sig, base);
        let tz_b = self.cx.tz[b as usize] as u32;
        if tz_off.min(tz_b) >= need {
            return;
        }
        let a = self.cx.addmul(b, off, 1);
        let k = self.cx.k(64, align as u64 - 1);
        let m = self.cx.bin(Bin::And, a, k);
        let z = self.cx.k(64, 0);
        let c = self.cx.cmp(IPred::Ne, m, z);
        if self.feasible(st, c).0 {
            let name = st.objs[o as usize].name.clone();
            self.event(st, "misaligned", format!("{} of {} needs {}-byte alignment", kind, name, align), vec![c]);
        }
    }
    fn note(&mut self, st: &mut State, loc: u64, write: bool, atomic: bool) {
        let f = st.frames.last().map_or(0, |f| f.f);
        if let Some(p) = st.par.last_mut() {
            let s = &mut p.sets[p.phase];
            if atomic {
                s.a.insert(loc);
            } else if write {
                s.w.entry(loc).or_insert(f);
            } else {
                s.r.entry(loc).or_insert(f);
            }
        }
    }

    // ------------------------------------------------------------------ caller's matrices
    pub fn map_of(&mut self, sig: u32, m: &Rc<Mat>) -> Rc<FxMap<E, u32>> {
        let key = (sig, Rc::as_ptr(m) as usize);
        if let Some(r) = self.matmap.get(&key) {
            return r.clone();
        }
        let mut h = FxMap::default();
        let es = m.esz();
        let rs = self.cx.subst(sig, m.rs);
        let cs = self.cx.subst(sig, m.cs);
        let mut row = self.cx.k(64, 0);
        for i in 0..m.rows {
            let mut e = row;
            for j in 0..m.cols {
                h.entry(e).or_insert((i * m.cols + j) as u32);
                if j + 1 < m.cols {
                    e = self.cx.addmul(e, cs, es);
                }
            }
            if i + 1 < m.rows {
                row = self.cx.addmul(row, rs, es);
            }
        }
        let r = Rc::new(h);
        self.matkeep.push(m.clone());
        self.matmap.insert(key, r.clone());
        r
    }
    /// canonical index of an element (aliased elements of A or B share one)
    pub fn canon_idx(&mut self, sig: u32, m: &Rc<Mat>, i: u64, j: u64) -> u32 {
        let map = self.map_of(sig, m);
        let rs = self.cx.subst(sig, m.rs);
        let cs = self.cx.subst(sig, m.cs);
        let z = self.cx.k(64, 0);
        let es = m.esz();
        let e = self.cx.addmul(z, rs, i * es);
        let e = self.cx.addmul(e, cs, j * es);
        map.get(&e).copied().unwrap_or((i * m.cols + j) as u32)
    }
    pub fn elem_off(&mut self, sig: u32, m: &Mat, idx: u32) -> E {
        let (i, j) = (idx as u64 / m.cols, idx as u64 % m.cols);
        let rs = self.cx.subst(sig, m.rs);
        let cs = self.cx.subst(sig, m.cs);
        let z = self.cx.k(64, 0);
        let es = m.esz();
        let e = self.cx.addmul(z, rs, i * es);
        self.cx.addmul(e, cs, j * es)
    }
    /// element and part at a byte offset; None after reporting an access outside the elements
    fn locate(&mut self, st: &mut State, m: &Rc<Mat>, off: E, write: bool) -> Option<(u32, u8)> {
        if m.rows * m.cols > 0 {
            let map = self.map_of(st.sig, m);
            if let Some(&i) = map.get(&off) {
                return Some((i, 0));
            }
            if m.parts == 2 {
                let o2 = self.cx.addk(off, (m.psz() as i64).wrapping_neg() as u64);
                if let Some(&i) = map.get(&o2) {
                    return Some((i, 1));
                }
            }
        }
        // could this address be outside the valid elements?
        let ps = m.psz();
        let mut conds: Vec<E> = vec![];
        let total = m.rows * m.cols;
        let mut seen = vec![];
        for round in 0..40 {
            let mut c = self.cx.k(1, 1);
            for e in conds.iter() {
                c = self.cx.and(c, *e);
            }
            // query with everything relevant
            let probe = if conds.is_empty() { let z = self.cx.k(64, 0); let q = self.cx.cmp(IPred::Uge, off, z); let _ = q; None } else { Some(c) };
            let mut key = self.slice(st, off);
            for e in &conds {
                key.push(*e);
            }
            let _ = probe;
            let mdl = match self.model_of(&key) {
                Some(m) => m,
                None => break,
            };
            // evaluate all offsets under the model (unconstrained variables default to their pool value)
            let ov = match self.eval_def(&mdl, off) { Some(v) => v, None => break };
            let mut hit = None;
            let (rs, cs) = (self.cx.subst(st.sig, m.rs), self.cx.subst(st.sig, m.cs));
            let (rv, cv) = (self.eval_def(&mdl, rs).unwrap_or(0), self.eval_def(&mdl, cs).unwrap_or(0));
            'o: for i in 0..m.rows {
                for j in 0..m.cols {
                    let e = rv.wrapping_mul(i * m.esz()).wrapping_add(cv.wrapping_mul(j * m.esz()));
                    for p in 0..m.parts as u64 {
                        let d = ov.wrapping_sub(e.wrapping_add(p * ps));
                        if d == 0 || (d as i64).unsigned_abs() < ps {
                            hit = Some(((i * m.cols + j) as u32, p as u8));
                            break 'o;
                        }
                    }
                }
            }
            match hit {
                None => {
                    let w = format!("{} {} of {} at byte offset {} is no element of the {}x{} matrix", if write { "write" } else { "read" }, if write { "to memory" } else { "of memory" }, m.name, self.cx.show(off), m.rows, m.cols);
                    let conds2 = conds.clone();
                    // non-aliasing of C etc. is settled at confirmation time
                    if total > 0 && total * m.parts as u64 <= 64 {
                        // outside on this path; an element on the path that is split off
                        let mut c = self.cx.k(1, 1);
                        for i in 0..total as u32 {
                            for p in 0..m.parts as u64 {
                                let eo = self.elem_off(st.sig, m, i);
                                let eo = self.cx.addk(eo, p * ps);
                                let ne = self.cx.cmp(IPred::Ne, off, eo);
                                c = self.cx.and(c, ne);
                            }
                        }
                        if self.cx.as_const(c).is_none() && !self.decide(st, c) {
                            // not reached: the model is one of an address outside
                            st.dead = true;
                        }
                    }
                    self.event(st, if write { "oob_write" } else { "oob_read" }, w, conds2);
                    return None;
                }
                Some((idx, p)) => {
                    seen.push((idx, p));
                    let eo = self.elem_off(st.sig, m, idx);
                    let eo = self.cx.addk(eo, p as u64 * ps);
                    let c = self.cx.cmp(IPred::Ne, off, eo);
                    if self.cx.as_const(c) == Some(0) {
                        return Some((idx, p));
                    }
                    conds.push(c);
                }
            }
            if round as u64 > total + 2 {
                break;
            }
        }
        // always one of the elements seen: split cases
        for (idx, p) in seen {
            let eo = self.elem_off(st.sig, m, idx);
            let eo = self.cx.addk(eo, p as u64 * ps);
            let c = self.cx.cmp(IPred::Eq, off, eo);
            if self.decide(st, c) {
                self.add_fact(st, c);
                return Some((idx, p));
            }
        }
        self.inconclusive.push(format!("could not resolve offset {} into {}", self.cx.show(off), m.name));
        st.dead = true;
        None
    }
    pub fn c_value(&mut self, st: &State, o: u32, idx: u32, part: u8) -> T {
        let ob = &st.objs[o as usize];
        let m = ob.mat.clone().unwrap();
        if let Some(d) = &ob.data {
            let t = d[idx as usize * m.parts as usize + part as usize];
            if t != u32::MAX {
                return t;
            }
        }
        self.cx.leaf(m.dbl, m.cls, m.call, idx, part)
    }
    pub fn foreign(&mut self, dbl: bool) -> T {
        self.fresh += 1;
        let f = self.fresh;
        self.cx.leaf(dbl, Cls::Other, 0, f, 0)
    }
    fn ext_read(&mut self, st: &mut State, o: u32, off: E, n: u64, align: u32) -> Vec<(u32, V)> {
        let m = st.objs[o as usize].mat.clone().unwrap();
        self.check_align(st, o, off, align, "read");
        let ps = m.psz();
        let mut out = vec![];
        if n % ps != 0 {
            self.inconclusive.push(format!("{}-byte access to {}", n, m.name));
            return vec![(8 * n as u32, V::Undef)];
        }
        for q in 0..n / ps {
            let oe = self.cx.addk(off, q * ps);
            let t = match self.locate(st, &m, oe, false) {
                Some((idx, p)) => {
                    if !st.par.is_empty() {
                        self.note(st, (o as u64) << 40 | (idx as u64 * 2 + p as u64), false, false);
                    }
                    if m.cls == Cls::C {
                        let orig = st.objs[o as usize].data.as_ref().map_or(true, |d| d[idx as usize * m.parts as usize + p as usize] == u32::MAX);
                        if orig {
                            self.read_old_c(st);
                        }
                    }
                    self.c_value(st, o, idx, p)
                }
                None => self.foreign(m.dbl),
            };
            out.push((8 * ps as u32, V::F(t)));
        }
        out
    }
    fn read_old_c(&mut self, st: &mut State) {
        // reading old C must be impossible when beta is zero
        let bz = match self.beta_zero {
            Some(e) => e,
            None => return,
        };
        let e = self.cx.subst(st.sig, bz);
        let key = (st.facts.iter().fold(0u64, |h, x| h.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(*x as u64 + 1)), e);
        if let Some(r) = self.bz_cache.get(&key) {
            if !*r { return; }
        }
        let f = self.feasible(st, e).0;
        self.bz_cache.insert(key, f);
        if f {
            self.event(st, "beta0_read", "old contents of C are read although beta may be zero".into(), vec![e]);
        }
    }
    fn ext_write(&mut self, st: &mut State, o: u32, off: E, ps_in: &[(u32, V)], align: u32) {
        let m = st.objs[o as usize].mat.clone().unwrap();
        self.check_align(st, o, off, align, "write");
        let ps = m.psz() as u32;
        let total: u32 = ps_in.iter().map(|x| x.0).sum();
        if total % (8 * ps) != 0 {
            self.inconclusive.push(format!("{}-bit write to {}", total, m.name));
            return;
        }
        for q in 0..total / (8 * ps) {
            let part = self.take(ps_in, q * 8 * ps, 8 * ps);
            let v = self.regroup(&part, 8 * ps);
            let oe = self.cx.addk(off, (q * ps) as u64);
            if let Some((idx, p)) = self.locate(st, &m, oe, true) {
                if !st.par.is_empty() {
                    self.note(st, (o as u64) << 40 | (idx as u64 * 2 + p as u64), true, false);
                }
                if m.cls != Cls::C {
                    self.event(st, "oob_write", format!("operand {} is written at element {}", m.name, idx), vec![]);
                    continue;
                }
                let t = match self.as_float(v, m.dbl) {
                    V::F(t) => t,
                    _ => {
                        self.event(st, "uninit", format!("uninitialised bytes are stored to element {} of C", idx), vec![]);
                        self.foreign(m.dbl)
                    }
                };
                let n = (m.rows * m.cols) as usize * m.parts as usize;
                let ob = Rc::make_mut(&mut st.objs[o as usize]);
                let d = ob.data.get_or_insert_with(|| Rc::new(vec![u32::MAX; n]));
                Rc::make_mut(d)[idx as usize * m.parts as usize + p as usize] = t;
            }
        }
    }

    // ------------------------------------------------------------------ loads and stores
    pub fn bounds(&mut self, st: &mut State, o: u32, off: i64, n: u64, what: &str) -> bool {
        let ob = &st.objs[o as usize];
        let (size, freed, name) = (ob.size, ob.freed, ob.name.clone());
        if off < 0 || (off as u64).saturating_add(n) > size {
            self.event(st, "oob_scratch", format!("{} of {} bytes at offset {} of {} ({} bytes)", what, n, off, name, size), vec![]);
            return false;
        }
        if freed {
            self.event(st, "uaf", format!("{} of freed {}", what, name), vec![]);
            return false;
        }
        true
    }
    pub fn note_obj(&mut self, st: &mut State, o: u32, off: i64, n: u64, w: bool, atomic: bool) {
        if st.par.is_empty() {
            return;
        }
        let ob = &st.objs[o as usize];
        if ob.kind == Kind::Stack && ob.thread == st.th {
            // still shared with children forked later: only skip when created inside this task
        }
        if ob.kind == Kind::Global && ob.constant {
            return;
        }
        let mut g = off >> 2;
        while g <= (off + n as i64 - 1) >> 2 {
            self.note(st, (o as u64) << 40 | g as u64, w, atomic);
            g += 1;
        }
    }
    pub fn load(&mut self, st: &mut State, ty: TyId, p: &V, align: u32, atomic: bool) -> V {
        let prog = self.prog;
        match prog.types.get(ty) {
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = prog.types.flat_len(ty);
                let mut v = vec![];
                for i in 0..n {
                    let (fo, ft) = prog.types.field_off(ty, i);
                    let q = self.padd(p, &vi(fo), 1);
                    v.push(self.load(st, ft, &q, 1, atomic));
                    if st.dead { return V::Undef; }
                }
                return V::Agg(Rc::new(v));
            }
            _ => {}
        }
        let n = prog.types.store_size(ty);
        let loc = self.resolve(st, p);
        if st.dead {
            return V::Undef;
        }
        match loc {
            Loc::Ext(o, e) => {
                let ps = self.ext_read(st, o, e, n, align);
                self.from_pieces(ty, &ps)
            }
            Loc::Obj(o, off) => {
                if !self.bounds(st, o, off, n, "read") {
                    return self.foreign_val(ty);
                }
                if align > 1 {
                    let e = self.cx.k(64, off as u64);
                    self.check_align(st, o, e, align, "read");
                }
                self.note_obj(st, o, off, n, false, atomic);
                let heap = st.objs[o as usize].kind == Kind::Heap;
                let v = match prog.types.get(ty) {
                    Ty::F32 => { let v = self.get4(st, o, off); self.as_float(v, false) }
                    Ty::F64 => { let v = self.get8(st, o, off); self.as_float(v, true) }
                    Ty::Ptr => self.get8(st, o, off),
                    Ty::Int(64) => self.get8(st, o, off),
                    Ty::Int(32) => self.get4(st, o, off),
                    Ty::Int(w) if *w <= 32 && *w > 1 => { let v = self.get_bytes(st, o, off, n as u32); v }
                    Ty::Int(1) => match self.get_bytes(st, o, off, 1) { V::I { v, .. } => vi(v & 1), V::S(e) => { let t = self.cx.trunc(e, 1); self.norm(t) } x => x },
                    Ty::Vec(..) | Ty::Int(_) => {
                        let mut ps = vec![];
                        let mut i = 0;
                        if off & 3 == 0 && n % 4 == 0 {
                            while i < n as i64 {
                                match self.gr(st, o, off + i) {
                                    G::V8a(v) if i + 8 <= n as i64 => {
                                        self.flat(64, &v, &mut ps);
                                        i += 8;
                                    }
                                    _ => {
                                        let v = self.get4(st, o, off + i);
                                        ps.push((32, v));
                                        i += 4;
                                    }
                                }
                            }
                        } else {
                            while i < n as i64 {
                                let v = self.get_bytes(st, o, off + i, 1);
                                ps.push((8, v));
                                i += 1;
                            }
                        }
                        let w = self.width_of(ty);
                        let ps = self.take(&ps, 0, w);
                        self.from_pieces(ty, &ps)
                    }
                    _ => V::Undef,
                };
                if heap && self.has_undef(&v) && self.is_floaty(ty) {
                    let name = st.objs[o as usize].name.clone();
                    self.event(st, "uninit", format!("uninitialised bytes at offset {} of {} are read", off, name), vec![]);
                    return self.foreign_val(ty);
                }
                v
            }
            Loc::Bad(w) => {
                self.event(st, "bad_pointer", format!("read through {}", w), vec![]);
                st.dead = true;
                V::Undef
            }
        }
    }
    fn is_floaty(&self, ty: TyId) -> bool {
        match self.prog.types.get(ty) {
            Ty::F32 | Ty::F64 => true,
            Ty::Vec(_, e) => matches!(self.prog.types.get(*e), Ty::F32 | Ty::F64),
            _ => false,
        }
    }
    pub fn has_undef(&self, v: &V) -> bool {
        match v {
            V::Undef => true,
            V::Agg(a) => a.iter().any(|x| self.has_undef(x)),
            V::Cat(a) => a.iter().any(|x| self.has_undef(&x.1)),
            _ => false,
        }
    }
    pub fn foreign_val(&mut self, ty: TyId) -> V {
        let prog = self.prog;
        match prog.types.get(ty) {
            Ty::F32 => V::F(self.foreign(false)),
            Ty::F64 => V::F(self.foreign(true)),
            Ty::Vec(n, e) => { let v = (0..*n).map(|_| self.foreign_val(*e)).collect(); V::Agg(Rc::new(v)) }
            Ty::Int(w) if *w <= 64 => V::S(self.cx.opaque(*w)),
            _ => V::Undef,
        }
    }
    pub fn store(&mut self, st: &mut State, ty: TyId, v: &V, p: &V, align: u32, atomic: bool) {
        let prog = self.prog;
        match (prog.types.get(ty), v) {
            (Ty::Struct(..), V::Agg(a)) | (Ty::Arr(..), V::Agg(a)) => {
                for (i, x) in a.iter().enumerate() {
                    let (fo, ft) = prog.types.field_off(ty, i);
                    let q = self.padd(p, &vi(fo), 1);
                    self.store(st, ft, x, &q, 1, atomic);
                    if st.dead { return; }
                }
                return;
            }
            _ => {}
        }
        let n = prog.types.store_size(ty);
        let loc = self.resolve(st, p);
        if st.dead {
            return;
        }
        match loc {
            Loc::Ext(o, e) => {
                let ps = self.pieces_of(ty, v);
                self.ext_write(st, o, e, &ps, align);
            }
            Loc::Obj(o, off) => {
                if !self.bounds(st, o, off, n, "write") {
                    return;
                }
                if align > 1 {
                    let e = self.cx.k(64, off as u64);
                    self.check_align(st, o, e, align, "write");
                }
                self.note_obj(st, o, off, n, true, atomic);
                let (k, cst, name) = { let ob = &st.objs[o as usize]; (ob.kind, ob.constant, ob.name.clone()) };
                if k == Kind::Global {
                    if cst {
                        self.event(st, "const_write", format!("write to constant {}", name), vec![]);
                        return;
                    }
                    if st.initdepth == 0 && !atomic {
                        self.event(st, "global_write", format!("write to process-wide static {}", name), vec![]);
                    } else if st.initdepth == 0 && atomic {
                        self.event(st, "global_atomic_write", format!("atomic write to process-wide static {}", name), vec![]);
                    }
                }
                self.put_val(st, o, off, ty, v.clone());
            }
            Loc::Bad(w) => {
                self.event(st, "bad_pointer", format!("write through {}", w), vec![]);
                st.dead = true;
            }
        }
    }
    pub fn put_val(&mut self, st: &mut State, o: u32, off: i64, ty: TyId, v: V) {
        let prog = self.prog;
        match prog.types.get(ty) {
            Ty::F64 | Ty::Ptr | Ty::Int(64) => self.put8(st, o, off, v),
            Ty::F32 | Ty::Int(32) => self.put4(st, o, off, v),
            Ty::Int(w) if *w <= 32 => {
                let n = prog.types.store_size(ty) as u32;
                let v2 = if *w % 8 != 0 {
                    match v { V::I { v, sh } => V::I { v, sh: if sh != 0 { self.cx.zext(sh, 8 * n) } else { 0 } }, V::S(e) => { let z = self.cx.zext(e, 8 * n); self.norm(z) } x => x }
                } else { v };
                for i in 0..n {
                    let b = self.byte_of(&v2, i);
                    self.put_byte(st, o, off + i as i64, b);
                }
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                if let V::Agg(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        let (fo, ft) = prog.types.field_off(ty, i);
                        self.put_val(st, o, off + fo as i64, ft, x.clone());
                    }
                }
            }
            Ty::Vec(n, e) if matches!(prog.types.get(*e), Ty::F32 | Ty::F64 | Ty::Int(32) | Ty::Int(64) | Ty::Ptr) => {
                if let V::Agg(a) = v {
                    let s = prog.types.size(*e) as i64;
                    for i in 0..*n as usize {
                        self.put_val(st, o, off + s * i as i64, *e, a[i].clone());
                    }
                } else {
                    for i in 0..prog.types.store_size(ty) as i64 { self.put_byte(st, o, off + i, V::Undef); }
                }
            }
            _ => {
                let ps = self.pieces_of(ty, &v);
                let n = prog.types.store_size(ty) as i64;
                let tot: u32 = ps.iter().map(|x| x.0).sum();
                let mut i = 0;
                while i < n {
                    if (i + 8) * 8 <= tot as i64 && off & 3 == 0 {
                        let q = self.take(&ps, 8 * i as u32, 64);
                        let x = self.regroup(&q, 64);
                        self.put8(st, o, off + i, x);
                        i += 8;
                    } else {
                        let q = self.take(&ps, 8 * i as u32, 8);
                        let x = if q.is_empty() { V::Undef } else { self.regroup(&q, 8) };
                        self.put_byte(st, o, off + i, x);
                        i += 1;
                    }
                }
            }
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) {
        if n == 0 {
            return;
        }
        let (ld, ls) = (self.resolve(st, d), self.resolve(st, s));
        if st.dead {
            return;
        }
        // read everything first
        let mut ps: Vec<(u32, V)> = vec![];
        match ls {
            Loc::Ext(o, e) => ps = self.ext_read(st, o, e, n, 1),
            Loc::Obj(o, off) => {
                if !self.bounds(st, o, off, n, "copy from") {
                    return;
                }
                self.note_obj(st, o, off, n, false, false);
                let mut i = 0;
                while i < n as i64 {
                    if (off + i) & 3 == 0 && i + 8 <= n as i64 {
                        if let G::V8a(v) = self.gr(st, o, off + i) {
                            ps.push((64, v));
                            i += 8;
                            continue;
                        }
                    }
                    if (off + i) & 3 == 0 && i + 4 <= n as i64 {
                        match self.gr(st, o, off + i) {
                            G::V4(v) => { ps.push((32, v)); i += 4; continue; }
                            G::U => { ps.push((32, V::Undef)); i += 4; continue; }
                            G::B(b, 15) => { ps.push((32, vi(u32::from_le_bytes(b) as u64))); i += 4; continue; }
                            _ => {}
                        }
                    }
                    let b = self.get_bytes(st, o, off + i, 1);
                    ps.push((8, b));
                    i += 1;
                }
            }
            Loc::Bad(w) => {
                self.event(st, "bad_pointer", format!("copy from {}", w), vec![]);
                st.dead = true;
                return;
            }
        }
        match ld {
            Loc::Ext(o, e) => self.ext_write(st, o, e, &ps, 1),
            Loc::Obj(o, off) => {
                if !self.bounds(st, o, off, n, "copy to") {
                    return;
                }
                self.note_obj(st, o, off, n, true, false);
                let (k, cst, name) = { let ob = &st.objs[o as usize]; (ob.kind, ob.constant, ob.name.clone()) };
                if k == Kind::Global && st.initdepth == 0 {
                    self.event(st, if cst { "const_write" } else { "global_write" }, format!("copy into process-wide static {}", name), vec![]);
                }
                let mut pos = off;
                for (b, v) in ps {
                    match b {
                        64 => self.put8(st, o, pos, v),
                        32 => self.put4(st, o, pos, v),
                        _ => self.put_byte(st, o, pos, v),
                    }
                    pos += b as i64 / 8;
                }
            }
            Loc::Bad(w) => {
                self.event(st, "bad_pointer", format!("copy to {}", w), vec![]);
                st.dead = true;
            }
        }
    }
    pub fn memset(&mut self, st: &mut State, d: &V, b: &V, n: u64) {
        if n == 0 {
            return;
        }
        let byte = match b { V::I { v, .. } => *v as u8, _ => { self.inconclusive.push("memset with a symbolic byte".into()); 0 } };
        let l = self.resolve(st, d);
        if st.dead {
            return;
        }
        match l {
            Loc::Ext(o, e) => {
                let w = vec![(8, vi(byte as u64)); n as usize];
                self.ext_write(st, o, e, &w, 1);
            }
            Loc::Obj(o, off) => {
                if !self.bounds(st, o, off, n, "memset") {
                    return;
                }
                self.note_obj(st, o, off, n, true, false);
                let (k, name) = { let ob = &st.objs[o as usize]; (ob.kind, ob.name.clone()) };
                if k == Kind::Global && st.initdepth == 0 {
                    self.event(st, "global_write", format!("write to process-wide static {}", name), vec![]);
                }
                self.fill(st, o, off, n, byte);
            }
            Loc::Bad(w) => {
                self.event(st, "bad_pointer", format!("memset of {}", w), vec![]);
                st.dead = true;
            }
        }
    }
}
