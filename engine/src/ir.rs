//! Parser for the textual LLVM IR rustc emits, and the linked program representation.
use crate::util::FxMap;
use std::collections::BTreeSet;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(bool, Vec<TyId>),
    Other(String),
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: FxMap<Ty, TyId>,
    pub named: FxMap<String, TyId>,
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                // storage size rounded to ABI alignment for array stride
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Ptr => 8,
            Ty::Vec(n, e) => {
                let bits = *n as u64 * self.bits(*e);
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(packed, fs) => {
                let mut o = 0;
                let mut al = 1;
                for &f in fs {
                    let a = if *packed { 1 } else { self.align(f) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(f);
                }
                (o + al - 1) / al * al
            }
            Ty::Other(_) => 0,
        }
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => *w as u64,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, e) => *n as u64 * self.bits(*e),
            _ => self.size(t) * 8,
        }
    }
    /// bytes a load/store of this type touches
    pub fn store_size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(..) => (self.bits(t) + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Void | Ty::Other(_) => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size(t),
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(p, fs) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| self.align(*f)).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, t: TyId, idx: usize) -> (u64, TyId) {
        match self.get(t) {
            Ty::Struct(packed, fs) => {
                let mut o = 0;
                for (i, &f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align(f) };
                    o = (o + a - 1) / a * a;
                    if i == idx {
                        return (o, f);
                    }
                    o += self.size(f);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) => (idx as u64 * self.size(*e), *e),
            Ty::Vec(_, e) => (idx as u64 * self.size(*e), *e),
            x => panic!("field_off of {:?}", x),
        }
    }
    pub fn flat_len(&self, t: TyId) -> usize {
        match self.get(t) {
            Ty::Struct(_, fs) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 1,
        }
    }
}

/// Constant initialiser / constant operand.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u32, u64),
    BigInt(u32, u128),
    Float(bool /*is f64*/, u64),
    Null,
    Undef,
    Zero(TyId),
    Global(u32, i64),
    Func(u32),
    Agg(TyId, Vec<Const>),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u32), // index into program constant table
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    UMin, UMax, SMin, SMax, USubSat, UAddSat, SSubSat, SAddSat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, BitCast, AddrSpace }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Reg(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, ty: TyId, a: Op, b: Op, dst: u32 },
    FBin { op: FBin, ty: TyId, a: Op, b: Op, dst: u32 },
    FNeg { ty: TyId, a: Op, dst: u32 },
    ICmp { p: IPred, ty: TyId, a: Op, b: Op, dst: u32 },
    FCmp { p: FPred, ty: TyId, a: Op, b: Op, dst: u32 },
    Select { cty: TyId, ty: TyId, c: Op, a: Op, b: Op, dst: u32 },
    Cast { op: Cast, from: TyId, to: TyId, a: Op, dst: u32 },
    Load { ty: TyId, p: Op, align: u32, dst: u32 },
    Store { ty: TyId, v: Op, p: Op, align: u32 },
    Gep { base: Op, off: i64, terms: Vec<(Op, i64, u32)>, dst: u32 },
    Alloca { size: u64, n: Option<Op>, align: u32, dst: u32 },
    Call { ret: TyId, callee: Callee, args: Vec<(TyId, Op)>, dst: u32, normal: u32 },
    ExtractElem { v: Op, i: Op, dst: u32 },
    InsertElem { ty: TyId, v: Op, e: Op, i: Op, dst: u32 },
    Shuffle { ty: TyId, a: Op, b: Op, mask: Vec<i32>, dst: u32 },
    ExtractVal { v: Op, idx: Vec<u32>, dst: u32 },
    InsertVal { ty: TyId, v: Op, e: Op, idx: Vec<u32>, dst: u32 },
    Freeze { ty: TyId, a: Op, dst: u32 },
    Fence,
    CmpXchg { ty: TyId, p: Op, cmp: Op, new: Op, align: u32, dst: u32 },
    Rmw { op: String, ty: TyId, p: Op, v: Op, align: u32, dst: u32 },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: TyId, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Resume,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub ty: TyId,
    pub dst: u32,
    pub inc: Vec<(u32 /*block*/, Op)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub ptys: Vec<TyId>,
    pub ret: TyId,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub attrs: Vec<u32>,     // program-level attribute group ids
    pub features: Vec<String>, // target features beyond baseline
    pub module: u32,
    pub body: Option<(u32, usize, usize)>,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    pub init: Option<Const>,
}

#[derive(Default)]
pub struct Program {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fmap: FxMap<String, u32>,
    pub gmap: FxMap<String, u32>,
    pub consts: Vec<Const>,
    pub attr_groups: FxMap<(u32, u32), Vec<String>>,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Glob(String),
    Word(String),
    Int(String),
    Flt(String),
    Str(Vec<u8>),  // c"..."
    Quoted(String),
    Attr(u32),     // #n
    Meta(String),  // !...
    P(char),
    Ellipsis,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = vec![];
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' && self.i + 2 < self.s.len() {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap_or("");
                if let Ok(v) = u8::from_str_radix(h, 16) {
                    out.push(v);
                    self.i += 3;
                    continue;
                }
            }
            out.push(self.s[self.i]);
            self.i += 1;
        }
        self.i += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let v = self.quoted();
            return String::from_utf8_lossy(&v).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && is_name(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn all(mut self) -> Vec<Tok> {
        let mut v = vec![];
        while let Some(t) = self.next() {
            v.push(t);
        }
        v
    }
    fn next(&mut self) -> Option<Tok> {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            return None;
        }
        let c = self.s[self.i];
        Some(match c {
            b'/' if self.s.get(self.i + 1) == Some(&b'*') => {
                while self.i < self.s.len() && !(self.s[self.i] == b'*' && self.s.get(self.i + 1) == Some(&b'/')) {
                    self.i += 1;
                }
                self.i += 2;
                return self.next();
            }
            b';' => {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                return self.next();
            }
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Glob(self.name())
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(self.name().parse().unwrap_or(0))
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'{' {
                    Tok::Meta(String::new())
                } else if self.i < self.s.len() && self.s[self.i] == b'"' {
                    self.quoted();
                    Tok::Meta(String::new())
                } else {
                    Tok::Meta(self.name())
                }
            }
            b'"' => {
                let q = self.quoted();
                Tok::Quoted(String::from_utf8_lossy(&q).into_owned())
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::Str(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Ellipsis
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric()
                        || self.s[self.i] == b'.'
                        || ((self.s[self.i] == b'+' || self.s[self.i] == b'-')
                            && (self.s[self.i - 1] == b'e' || self.s[self.i - 1] == b'E')))
                {
                    self.i += 1;
                }
                let t = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                if t.starts_with("0x") || t.contains('.') || t.contains("e+") || t.contains("e-") {
                    Tok::Flt(t)
                } else {
                    Tok::Int(t)
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let n = self.name();
                if n.starts_with("f0x") {
                    Tok::Flt(n)
                } else {
                    Tok::Word(n)
                }
            }
            c => {
                self.i += 1;
                Tok::P(c as char)
            }
        })
    }
}

// ---------------------------------------------------------------- parser

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    prog: &'a mut Program,
    module: u32,
    locals: FxMap<String, u32>,
    labels: FxMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn adv(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or_else(|| "eol".to_string())?;
        self.i += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            Some(Tok::Word(w)) => Some(w),
            _ => None,
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn gname(&self, n: &str) -> String {
        n.to_string()
    }
    fn skip_parens(&mut self) {
        if !self.isp('(') {
            return;
        }
        let mut d = 0;
        while let Ok(t) = self.adv() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }

    fn ty(&mut self) -> R<TyId> {
        let base = match self.adv()? {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.eat_word("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "metadata" | "label" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80" => Ty::Other(w),
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.int()? as u64;
                if !self.eat_word("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, e)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut fs = vec![];
                    while !self.eat('}') {
                        fs.push(self.ty()?);
                        self.eat(',');
                    }
                    self.exp('>')?;
                    Ty::Struct(true, fs)
                } else {
                    let n = self.int()? as u32;
                    if !self.eat_word("x") {
                        return Err("vec x".into());
                    }
                    let e = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n, e)
                }
            }
            Tok::P('{') => {
                let mut fs = vec![];
                while !self.eat('}') {
                    fs.push(self.ty()?);
                    self.eat(',');
                }
                Ty::Struct(false, fs)
            }
            Tok::Local(n) => {
                let k = format!("{}:{}", self.module, n);
                return self.prog.types.named.get(&k).copied().ok_or_else(|| format!("named type {}", n));
            }
            t => return Err(format!("type tok {:?}", t)),
        };
        let mut t = self.prog.types.mk(base);
        // function type suffix `ty (args)` (only in calls of varargs) is left to callers
        while false {
            t = t;
        }
        Ok(t)
    }
    fn int(&mut self) -> R<i128> {
        match self.adv()? {
            Tok::Int(s) => s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|e| e.to_string()),
            t => Err(format!("int {:?}", t)),
        }
    }
    fn int_const(&self, w: u32, v: i128) -> Const {
        if w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            Const::Int(w, (v as u64) & m)
        } else {
            Const::BigInt(w, v as u128)
        }
    }
    fn const_of(&mut self, t: TyId) -> R<Const> {
        let ty = self.prog.types.get(t).clone();
        match self.adv()? {
            Tok::Int(s) => {
                let v = s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|e| e.to_string())?;
                match ty {
                    Ty::Int(w) => Ok(self.int_const(w, v)),
                    Ty::F32 => Ok(Const::Float(false, (v as f32).to_bits() as u64)),
                    Ty::F64 => Ok(Const::Float(true, (v as f64).to_bits())),
                    _ => Err("int const of type".into()),
                }
            }
            Tok::Flt(s) => match ty {
                Ty::F64 => Ok(Const::Float(true, parse_flt(&s, true)?)),
                Ty::F32 => Ok(Const::Float(false, parse_flt(&s, false)?)),
                _ => Err("float const".into()),
            },
            Tok::Str(b) => Ok(Const::Bytes(b)),
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Const::Int(1, 1)),
                "false" => Ok(Const::Int(1, 0)),
                "null" => Ok(Const::Null),
                "undef" | "poison" => Ok(Const::Undef),
                "zeroinitializer" => Ok(Const::Zero(t)),
                "splat" => {
                    self.exp('(')?;
                    let et = self.ty()?;
                    let c = self.const_of(et)?;
                    self.exp(')')?;
                    let n = self.prog.types.flat_len(t);
                    Ok(Const::Agg(t, vec![c; n]))
                }
                "getelementptr" => {
                    while self.word().is_some() && !self.isp('(') {
                        // inbounds nuw nusw inrange(...)
                        self.i += 1;
                        if self.word().is_none() && self.isp('(') {
                            break;
                        }
                    }
                    self.exp('(')?;
                    let mut bt = self.ty()?;
                    self.exp(',')?;
                    let pt = self.ty()?;
                    let base = self.const_of(pt)?;
                    let mut off: i64 = 0;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty()?;
                        let ix = match self.const_of(it)? {
                            Const::Int(w, v) => sext(v, w),
                            _ => return Err("gep const idx".into()),
                        };
                        if first {
                            off += ix * self.prog.types.size(bt) as i64;
                            first = false;
                        } else {
                            let (o, ft) = self.prog.types.field_off(bt, ix as usize);
                            off += o as i64;
                            bt = ft;
                        }
                    }
                    self.exp(')')?;
                    match base {
                        Const::Global(g, o) => Ok(Const::Global(g, o + off)),
                        Const::Null => Ok(Const::Int(64, off as u64)),
                        Const::Int(64, v) => Ok(Const::Int(64, v.wrapping_add(off as u64))),
                        _ => Err("gep base".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.exp('(')?;
                    let ft = self.ty()?;
                    let c = self.const_of(ft)?;
                    if !self.eat_word("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.exp(')')?;
                    if w == "trunc" {
                        if let (Const::Int(_, v), Ty::Int(n)) = (&c, self.prog.types.get(tt).clone()) {
                            return Ok(self.int_const(n, *v as i128));
                        }
                    }
                    Ok(c)
                }
                "sub" | "add" | "xor" | "mul" => {
                    while self.word().is_some() {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let t1 = self.ty()?;
                    let a = self.const_of(t1)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.const_of(t2)?;
                    self.exp(')')?;
                    match (a, b, w.as_str()) {
                        (Const::Int(n, x), Const::Int(_, y), "add") => Ok(self.int_const(n, x.wrapping_add(y) as i128)),
                        (Const::Int(n, x), Const::Int(_, y), "sub") => Ok(self.int_const(n, x.wrapping_sub(y) as i128)),
                        _ => Err("const expr".into()),
                    }
                }
                _ => Err(format!("const word {}", w)),
            },
            Tok::Glob(n) => {
                if let Some(&g) = self.prog.gmap.get(&self.key(&n)).or_else(|| self.prog.gmap.get(&n)) {
                    return Ok(Const::Global(g, 0));
                }
                if let Some(&f) = self.prog.fmap.get(&self.key(&n)).or_else(|| self.prog.fmap.get(&n)) {
                    return Ok(Const::Func(f));
                }
                Err(format!("unknown global {}", n))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let et = self.ty()?;
                    v.push(self.const_of(et)?);
                    self.eat(',');
                }
                Ok(Const::Agg(t, v))
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat(']') {
                    let et = self.ty()?;
                    v.push(self.const_of(et)?);
                    self.eat(',');
                }
                Ok(Const::Agg(t, v))
            }
            Tok::P('<') => {
                let st = self.eat('{');
                let mut v = vec![];
                loop {
                    if st && self.eat('}') {
                        self.exp('>')?;
                        break;
                    }
                    if !st && self.eat('>') {
                        break;
                    }
                    let et = self.ty()?;
                    v.push(self.const_of(et)?);
                    self.eat(',');
                }
                Ok(Const::Agg(t, v))
            }
            t => Err(format!("const tok {:?}", t)),
        }
    }
    fn key(&self, n: &str) -> String {
        format!("{}:{}", self.module, n)
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.locals.len() as u32;
        *self.locals.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self, n: &str) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(l)
    }
    fn op(&mut self, t: TyId) -> R<Op> {
        if let Some(Tok::Local(n)) = self.peek().cloned() {
            self.i += 1;
            return Ok(Op::Reg(self.reg(&n)));
        }
        let c = self.const_of(t)?;
        self.prog.consts.push(c);
        Ok(Op::C(self.prog.consts.len() as u32 - 1))
    }
    fn tyop(&mut self) -> R<(TyId, Op)> {
        let t = self.ty()?;
        let o = self.op(t)?;
        Ok((t, o))
    }
    fn lab(&mut self) -> R<u32> {
        if !self.eat_word("label") {
            return Err("label".into());
        }
        match self.adv()? {
            Tok::Local(n) => Ok(self.label(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let Some(w) = self.word() {
            if ws.contains(&w) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    /// parameter attributes after a type
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                            | "ptrtoint" | "bitcast" | "splat" | "trunc" | "sub" | "add"
                    ) {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if let Some(Tok::Int(_)) = self.peek() {
                            self.i += 1;
                            continue;
                        }
                    }
                    self.skip_parens();
                }
                Some(Tok::Attr(_)) | Some(Tok::Quoted(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn align_suffix(&mut self, def: u32) -> u32 {
        let mut a = def;
        let mut k = self.i;
        while k + 1 < self.t.len() {
            if self.t[k] == Tok::Word("align".into()) {
                if let Tok::Int(s) = &self.t[k + 1] {
                    a = s.parse().unwrap_or(def);
                    break;
                }
            }
            k += 1;
        }
        a
    }

    fn inst(&mut self) -> R<Option<Result<Inst, Phi>>> {
        let mut dst = u32::MAX;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.peek().cloned(), self.peek_at(1)) {
            self.i += 2;
            dst = self.reg(&n);
        }
        let w = match self.adv()? {
            Tok::Word(w) => w,
            t => return Err(format!("inst {:?}", t)),
        };
        let fmf = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        let i = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.skip_words(fmf);
                let op = match w.as_str() {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
                    "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor,
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(ty)?;
                Inst::Bin { op, ty, a, b, dst }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                // fast-math flags would make the term reading unsound
                let st = self.i;
                self.skip_words(fmf);
                for k in st..self.i {
                    if let Tok::Word(f) = &self.t[k] {
                        if matches!(f.as_str(), "fast" | "reassoc" | "contract" | "arcp" | "afn") {
                            // semantics still within exact arithmetic; rounding analysis treats them as ordinary ops
                        }
                    }
                }
                let op = match w.as_str() {
                    "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem,
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(ty)?;
                Inst::FBin { op, ty, a, b, dst }
            }
            "fneg" => {
                self.skip_words(fmf);
                let (ty, a) = self.tyop()?;
                Inst::FNeg { ty, a, dst }
            }
            "icmp" => {
                self.skip_words(fmf);
                let p = match self.adv()? {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult,
                        "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(ty)?;
                Inst::ICmp { p, ty, a, b, dst }
            }
            "fcmp" => {
                self.skip_words(fmf);
                let p = match self.adv()? {
                    Tok::Word(w) => match w.as_str() {
                        "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt,
                        "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt,
                        "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno,
                        _ => FPred::True,
                    },
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(ty)?;
                Inst::FCmp { p, ty, a, b, dst }
            }
            "select" => {
                self.skip_words(fmf);
                let (cty, c) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                Inst::Select { cty, ty, c, a, b, dst }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr"
            | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_words(fmf);
                let op = match w.as_str() {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::BitCast, _ => Cast::AddrSpace,
                };
                let (from, a) = self.tyop()?;
                if !self.eat_word("to") {
                    return Err("cast to".into());
                }
                let to = self.ty()?;
                Inst::Cast { op, from, to, a, dst }
            }
            "load" => {
                self.skip_words(&["atomic", "volatile"]);
                let ty = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                let al = self.prog.types.align(ty) as u32;
                let align = self.align_suffix(al);
                Inst::Load { ty, p, align, dst }
            }
            "store" => {
                self.skip_words(&["atomic", "volatile"]);
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                let al = self.prog.types.align(ty) as u32;
                let align = self.align_suffix(al);
                Inst::Store { ty, v, p, align }
            }
            "getelementptr" => {
                while self.word().map_or(false, |w| matches!(w, "inbounds" | "nuw" | "nusw" | "inrange")) {
                    self.i += 1;
                    self.skip_parens();
                }
                let mut bt = self.ty()?;
                self.exp(',')?;
                let (pt, base) = self.tyop()?;
                if !matches!(self.prog.types.get(pt), Ty::Ptr) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                while self.eat(',') {
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                    let (it, ix) = self.tyop()?;
                    let w = match self.prog.types.get(it) {
                        Ty::Int(w) => *w,
                        _ => return Err("gep index type".into()),
                    };
                    let cv = match &ix {
                        Op::C(c) => match &self.prog.consts[*c as usize] {
                            Const::Int(w, v) => Some(sext(*v, *w)),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        let s = self.prog.types.size(bt) as i64;
                        match cv {
                            Some(v) => off = off.wrapping_add(v.wrapping_mul(s)),
                            None => terms.push((ix, s, w)),
                        }
                        first = false;
                    } else {
                        match self.prog.types.get(bt).clone() {
                            Ty::Struct(..) => {
                                let (o, ft) = self.prog.types.field_off(bt, cv.ok_or("struct idx")? as usize);
                                off += o as i64;
                                bt = ft;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let s = self.prog.types.size(e) as i64;
                                match cv {
                                    Some(v) => off = off.wrapping_add(v.wrapping_mul(s)),
                                    None => terms.push((ix, s, w)),
                                }
                                bt = e;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                }
                Inst::Gep { base, off, terms, dst }
            }
            "alloca" => {
                let ty = self.ty()?;
                let size = self.prog.types.size(ty);
                let al = self.prog.types.align(ty) as u32;
                let align = self.align_suffix(al);
                let mut n = None;
                if self.isp(',') && !matches!(self.peek_at(1), Some(Tok::Word(w)) if w == "align") && !matches!(self.peek_at(1), Some(Tok::Meta(_))) {
                    self.i += 1;
                    let (_, o) = self.tyop()?;
                    n = Some(o);
                }
                Inst::Alloca { size, n, align, dst }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = w == "invoke";
                if w != "call" && w != "invoke" {
                    self.eat_word("call");
                }
                self.skip_words(fmf);
                // cc, return attributes
                loop {
                    let save = self.i;
                    if let Ok(_t) = self.ty() {
                        self.i = save;
                        break;
                    }
                    self.i = save;
                    match self.adv()? {
                        Tok::Word(w) => {
                            if w == "align" {
                                if let Some(Tok::Int(_)) = self.peek() {
                                    self.i += 1;
                                }
                            }
                            self.skip_parens();
                        }
                        Tok::Attr(_) | Tok::Quoted(_) | Tok::Int(_) => {}
                        t => return Err(format!("call {:?}", t)),
                    }
                }
                let ret = self.ty()?;
                if self.isp('(') {
                    self.skip_parens(); // explicit function type
                }
                let callee = match self.adv()? {
                    Tok::Glob(n) => {
                        let k = self.key(&n);
                        match self.prog.fmap.get(&k).or_else(|| self.prog.fmap.get(&n)) {
                            Some(&f) => Callee::Func(f),
                            None => return Err(format!("callee {}", n)),
                        }
                    }
                    Tok::Local(n) => Callee::Reg(Op::Reg(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        self.skip_words(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        let s = match self.adv()? {
                            Tok::Quoted(s) => s,
                            _ => String::new(),
                        };
                        if self.eat(',') {
                            self.i += 1;
                        }
                        Callee::Asm(s)
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                self.exp('(')?;
                let mut args = vec![];
                while !self.eat(')') {
                    let t = self.ty()?;
                    if let Ty::Other(_) = self.prog.types.get(t) {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                                Some(Tok::P(')')) | Some(Tok::P('}')) => {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1
                                }
                                Some(Tok::P(',')) if d == 0 => break,
                                None => return Err("eol".into()),
                                _ => {}
                            }
                            self.i += 1;
                        }
                        self.eat(',');
                        continue;
                    }
                    self.skip_attrs();
                    let o = self.op(t)?;
                    args.push((t, o));
                    self.eat(',');
                }
                let mut normal = u32::MAX;
                if inv {
                    while !self.eat_word("to") {
                        self.adv()?;
                    }
                    normal = self.lab()?;
                }
                Inst::Call { ret, callee, args, dst, normal }
            }
            "extractelement" => {
                let (_, v) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Inst::ExtractElem { v, i, dst }
            }
            "insertelement" => {
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, e) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Inst::InsertElem { ty, v, e, i, dst }
            }
            "shufflevector" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                self.exp(',')?;
                let mt = self.ty()?;
                let n = self.prog.types.flat_len(mt);
                let c = self.const_of(mt)?;
                let mask = match c {
                    Const::Zero(_) => vec![0; n],
                    Const::Undef => vec![-1; n],
                    Const::Agg(_, v) => v
                        .iter()
                        .map(|x| match x {
                            Const::Int(_, v) => *v as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                Inst::Shuffle { ty, a, b, mask, dst }
            }
            "extractvalue" => {
                let (_, v) = self.tyop()?;
                let mut idx = vec![];
                while self.eat(',') {
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                    idx.push(self.int()? as u32);
                }
                Inst::ExtractVal { v, idx, dst }
            }
            "insertvalue" => {
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, e) = self.tyop()?;
                let mut idx = vec![];
                while self.eat(',') {
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                    idx.push(self.int()? as u32);
                }
                Inst::InsertVal { ty, v, e, idx, dst }
            }
            "freeze" => {
                let (ty, a) = self.tyop()?;
                Inst::Freeze { ty, a, dst }
            }
            "fence" => Inst::Fence,
            "cmpxchg" => {
                self.skip_words(&["weak", "volatile"]);
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, cmp) = self.tyop()?;
                self.exp(',')?;
                let (_, new) = self.tyop()?;
                let al = self.prog.types.align(ty) as u32;
                let align = self.align_suffix(al);
                Inst::CmpXchg { ty, p, cmp, new, align, dst }
            }
            "atomicrmw" => {
                self.skip_words(&["volatile"]);
                let op = match self.adv()? {
                    Tok::Word(w) => w,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, v) = self.tyop()?;
                let al = self.prog.types.align(ty) as u32;
                let align = self.align_suffix(al);
                Inst::Rmw { op, ty, p, v, align, dst }
            }
            "br" => {
                if self.word() == Some("label") {
                    Inst::Br(self.lab()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.exp(',')?;
                    let t = self.lab()?;
                    self.exp(',')?;
                    let f = self.lab()?;
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let def = self.lab()?;
                self.exp('[')?;
                let mut cases = vec![];
                while !self.eat(']') {
                    let ct = self.ty()?;
                    let c = match self.const_of(ct)? {
                        Const::Int(_, v) => v,
                        _ => return Err("switch case".into()),
                    };
                    self.exp(',')?;
                    cases.push((c, self.lab()?));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                if self.word() == Some("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyop()?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            "phi" => {
                self.skip_words(fmf);
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp('[')?;
                    let o = self.op(ty)?;
                    self.exp(',')?;
                    let b = match self.adv()? {
                        Tok::Local(n) => self.label(&n),
                        _ => return Err("phi label".into()),
                    };
                    self.exp(']')?;
                    inc.push((b, o));
                    if !self.eat(',') {
                        break;
                    }
                    if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    }
                }
                return Ok(Some(Err(Phi { ty, dst, inc })));
            }
            _ => return Err(format!("opcode {}", w)),
        };
        Ok(Some(Ok(i)))
    }
}

pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn parse_flt(s: &str, dbl: bool) -> R<u64> {
    if let Some(h) = s.strip_prefix("f0x") {
        let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        return Ok(v);
    }
    if let Some(h) = s.strip_prefix("0x") {
        let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        return Ok(if dbl { v } else { (f64::from_bits(v) as f32).to_bits() as u64 });
    }
    let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
    Ok(if dbl { f.to_bits() } else { (f as f32).to_bits() as u64 })
}

fn lex(s: &str) -> Vec<Tok> {
    Lex { s: s.as_bytes(), i: 0 }.all()
}

const BASELINE: &[&str] = &["fxsr", "sse", "sse2", "x87", "mmx", "cmov", "cx8", "64bit"];

impl Program {
    pub fn load(paths: &[String]) -> R<Program> {
        let mut prog = Program::default();
        let mut texts = vec![];
        for p in paths {
            texts.push(std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e))?);
        }
        // pass 1: named types (iterate until closed), attribute groups, symbols
        let mut lines_of: Vec<Vec<&str>> = vec![];
        for t in &texts {
            lines_of.push(t.lines().collect());
        }
        for (mi, lines) in lines_of.iter().enumerate() {
            // types: forward references possible
            let mut pend: Vec<(String, Vec<Tok>)> = vec![];
            for l in lines {
                if l.starts_with('%') && l.contains(" = type ") {
                    let t = lex(l);
                    if let Tok::Local(n) = &t[0] {
                        pend.push((n.clone(), t[3..].to_vec()));
                    }
                } else if l.starts_with("attributes #") {
                    let t = lex(l);
                    if let Tok::Attr(n) = t[1] {
                        let mut fs = BTreeSet::new();
                        for k in 0..t.len() {
                            if t[k] == Tok::Quoted("target-features".into()) {
                                if let Some(Tok::Quoted(v)) = t.get(k + 2) {
                                    for f in v.split(',') {
                                        if let Some(f) = f.strip_prefix('+') {
                                            let f = if f == "crc32" { "sse4.2" } else { f };
                                            if !BASELINE.contains(&f) {
                                                fs.insert(f.to_string());
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        prog.attr_groups.insert((mi as u32, n), fs.into_iter().collect());
                    }
                }
            }
            let mut guard = 0;
            while !pend.is_empty() {
                guard += 1;
                if guard > 200 {
                    return Err(format!("cyclic types, {} left", pend.len()));
                }
                let mut next = vec![];
                for (n, toks) in pend {
                    let mut p = P { t: toks.clone(), i: 0, prog: &mut prog, module: mi as u32, locals: Default::default(), labels: Default::default() };
                    match p.ty() {
                        Ok(t) => {
                            prog.types.named.insert(format!("{}:{}", mi, n), t);
                        }
                        Err(e) if e.starts_with("named type") => next.push((n, toks)),
                        Err(e) if e.starts_with("type opaque") => {
                            let t = prog.types.mk(Ty::Struct(false, vec![]));
                            prog.types.named.insert(format!("{}:{}", mi, n), t);
                        }
                        Err(e) => return Err(format!("type {}: {}", n, e)),
                    }
                }
                pend = next;
            }
        }
        // symbols
        let mut ginits: Vec<(u32, u32, Vec<Tok>)> = vec![];
        for (mi, lines) in lines_of.iter().enumerate() {
            let mut ln = 0;
            while ln < lines.len() {
                let l = lines[ln];
                if l.starts_with('@') {
                    let t = lex(l);
                    let n = match &t[0] {
                        Tok::Glob(n) => n.clone(),
                        _ => return Err("global".into()),
                    };
                    let mut k = 2;
                    let (mut private, mut external, mut tls) = (false, false, false);
                    let constant;
                    loop {
                        match t.get(k) {
                            Some(Tok::Word(w)) => {
                                k += 1;
                                match w.as_str() {
                                    "private" | "internal" => private = true,
                                    "external" | "extern_weak" => external = true,
                                    "thread_local" => {
                                        tls = true;
                                        if t.get(k) == Some(&Tok::P('(')) {
                                            k += 3;
                                        }
                                    }
                                    "global" => {
                                        constant = false;
                                        break;
                                    }
                                    "constant" => {
                                        constant = true;
                                        break;
                                    }
                                    "alias" | "ifunc" => {
                                        constant = true;
                                        break;
                                    }
                                    _ => {}
                                }
                            }
                            Some(_) => k += 1,
                            None => return Err(format!("global line {}", l)),
                        }
                    }
                    let mut p = P { t: t[k..].to_vec(), i: 0, prog: &mut prog, module: mi as u32, locals: Default::default(), labels: Default::default() };
                    let ty = p.ty()?;
                    let used = p.i;
                    let rest = t[k + used..].to_vec();
                    let mut align = prog.types.align(ty);
                    for q in 0..rest.len() {
                        if rest[q] == Tok::Word("align".into()) {
                            if let Some(Tok::Int(s)) = rest.get(q + 1) {
                                align = s.parse().unwrap_or(align);
                            }
                        }
                    }
                    let key = if private { format!("{}:{}", mi, n) } else { n.clone() };
                    let id = match prog.gmap.get(&key) {
                        Some(&id) => id,
                        None => {
                            let id = prog.globals.len() as u32;
                            prog.globals.push(Global { name: n.clone(), ty, size: prog.types.size(ty), align, constant, tls, external: true, init: None });
                            prog.gmap.insert(key, id);
                            id
                        }
                    };
                    if !external {
                        let size = prog.types.size(ty);
                        let g = &mut prog.globals[id as usize];
                        g.external = false;
                        g.ty = ty;
                        g.size = size;
                        g.align = align;
                        g.constant = constant;
                        g.tls = tls;
                        ginits.push((id, mi as u32, rest));
                    }
                } else if l.starts_with("define") || l.starts_with("declare") {
                    let def = l.starts_with("define");
                    let t = lex(l);
                    let mut k = 1;
                    let mut private = false;
                    while !matches!(t.get(k), Some(Tok::Glob(_))) {
                        if let Some(Tok::Word(w)) = t.get(k) {
                            if w == "private" || w == "internal" {
                                private = true;
                            }
                        }
                        k += 1;
                        if k >= t.len() {
                            return Err(format!("define {}", l));
                        }
                    }
                    let n = match &t[k] {
                        Tok::Glob(n) => n.clone(),
                        _ => unreachable!(),
                    };
                    let key = if private { format!("{}:{}", mi, n) } else { n.clone() };
                    let id = match prog.fmap.get(&key) {
                        Some(&id) => id,
                        None => {
                            let id = prog.funcs.len() as u32;
                            prog.funcs.push(Func {
                                name: n.clone(), params: vec![], ptys: vec![], ret: 0, nregs: 0, blocks: vec![], defined: false,
                                attrs: vec![], features: vec![], module: mi as u32, body: None,
                            });
                            prog.fmap.insert(key, id);
                            id
                        }
                    };
                    if def {
                        let st = ln;
                        let mut en = ln + 1;
                        while en < lines.len() && lines[en] != "}" {
                            en += 1;
                        }
                        let f = &mut prog.funcs[id as usize];
                        f.defined = true;
                        f.module = mi as u32;
                        f.body = Some((mi as u32, st, en));
                        // attribute groups on the define line
                        let mut depth = 0;
                        for q in k..t.len() {
                            match &t[q] {
                                Tok::P('(') => depth += 1,
                                Tok::P(')') => depth -= 1,
                                Tok::Attr(a) if depth == 0 => f.attrs.push(*a),
                                _ => {}
                            }
                        }
                        ln = en;
                    }
                }
                ln += 1;
            }
        }
        for f in prog.funcs.iter_mut() {
            let mut fs = BTreeSet::new();
            for a in &f.attrs {
                if let Some(v) = prog.attr_groups.get(&(f.module, *a)) {
                    fs.extend(v.iter().cloned());
                }
            }
            f.features = fs.into_iter().collect();
        }
        for (id, mi, rest) in ginits {
            let ty = prog.globals[id as usize].ty;
            let mut p = P { t: rest, i: 0, prog: &mut prog, module: mi, locals: Default::default(), labels: Default::default() };
            match p.const_of(ty) {
                Ok(c) => prog.globals[id as usize].init = Some(c),
                Err(e) => {
                    // tolerated: reading it will be reported
                    if std::env::var("MMSYM_DEBUG").is_ok() {
                        eprintln!("global {}: {}", prog.globals[id as usize].name, e);
                    }
                }
            }
        }
        // bodies are parsed lazily: keep texts
        let bodies: Vec<(usize, u32, usize, usize)> = prog
            .funcs
            .iter()
            .enumerate()
            .filter_map(|(i, f)| f.body.map(|(m, a, b)| (i, m, a, b)))
            .collect();
        for (fi, mi, a, b) in bodies {
            if let Err(e) = prog.parse_body(fi, mi, &lines_of[mi as usize][a..b]) {
                if std::env::var("MMSYM_DEBUG").is_ok() {
                    eprintln!("function {}: {}", prog.funcs[fi].name, e);
                }
                let f = &mut prog.funcs[fi];
                f.blocks = vec![Block { phis: vec![], insts: vec![Inst::Unsupported(format!("body of {}: {}", f.name, e))] }];
                if f.nregs == 0 {
                    f.nregs = f.params.len() as u32;
                }
            }
        }
        Ok(prog)
    }

    fn parse_body(&mut self, fi: usize, mi: u32, lines: &[&str]) -> R<()> {
        // header
        let t = lex(lines[0]);
        let mut k = 0;
        while !matches!(t[k], Tok::Glob(_)) {
            k += 1;
        }
        let mut p = P { t: t[k + 1..].to_vec(), i: 0, prog: self, module: mi, locals: Default::default(), labels: Default::default() };
        p.exp('(')?;
        let mut params = vec![];
        let mut ptys = vec![];
        let mut anon = 0;
        while !p.eat(')') {
            if p.peek() == Some(&Tok::Ellipsis) {
                p.i += 1;
                continue;
            }
            let ty = p.ty()?;
            p.skip_attrs();
            let n = match p.peek().cloned() {
                Some(Tok::Local(n)) => {
                    p.i += 1;
                    n
                }
                _ => {
                    anon += 1;
                    format!("{}", anon - 1)
                }
            };
            let r = p.reg(&n);
            params.push(r);
            ptys.push(ty);
            p.eat(',');
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut ln = 1;
        while ln < lines.len() {
            let l = lines[ln];
            ln += 1;
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = match l.find(':') {
                    Some(_) => {
                        let mut lx = Lex { s: l.as_bytes(), i: 0 };
                        lx.name()
                    }
                    None => return Err(format!("label line {}", l)),
                };
                let id = p.label(&name);
                while blocks.len() <= id as usize {
                    blocks.push(None);
                }
                blocks[id as usize] = Some(Block::default());
                cur = Some(id);
                continue;
            }
            if l.trim_start().starts_with("#dbg") {
                continue;
            }
            if cur.is_none() {
                let name = format!("{}", params.len());
                let id = p.label(&name);
                while blocks.len() <= id as usize {
                    blocks.push(None);
                }
                blocks[id as usize] = Some(Block::default());
                cur = Some(id);
            }
            let mut text = l.to_string();
            if l.trim_start().starts_with("switch") {
                while !text.trim_end().contains(']') {
                    text.push(' ');
                    text.push_str(lines[ln]);
                    ln += 1;
                }
            } else if l.contains(" invoke ") || l.trim_start().starts_with("invoke") {
                while !text.contains("unwind label") && ln < lines.len() {
                    text.push(' ');
                    text.push_str(lines[ln]);
                    ln += 1;
                }
            }
            p.t = lex(&text);
            p.i = 0;
            let b = blocks[cur.unwrap() as usize].as_mut().unwrap();
            match p.inst() {
                Ok(Some(Ok(i))) => b.insts.push(i),
                Ok(Some(Err(ph))) => b.phis.push(ph),
                Ok(None) => {}
                Err(e) => b.insts.push(Inst::Unsupported(format!("{}: {}", e, text.trim()))),
            }
        }
        let nregs = p.locals.len() as u32;
        let blocks = blocks.into_iter().map(|b| b.unwrap_or_default()).collect();
        let f = &mut self.funcs[fi];
        f.params = params;
        f.ptys = ptys;
        f.nregs = nregs;
        f.blocks = blocks;
        Ok(())
    }
}
