//! Parser for the textual LLVM IR that rustc/opt emit (the subset Rust uses).
//! Instructions outside the subset parse to `I::Unsupported`, which is an
//! error only if symbolic execution actually reaches it.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Other(String),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs {
                    if !packed {
                        o = (o + f.align() - 1) / f.align() * f.align();
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vector(n, t) => n * t.size(),
            Ty::Other(s) => match s.as_str() {
                "double" => 8,
                "float" => 4,
                "half" => 2,
                "fp128" | "x86_fp80" => 16,
                _ => 8,
            },
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size().next_power_of_two().min(16).max(1),
            Ty::Other(_) => self.size(),
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => i * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = (o + f.align() - 1) / f.align() * f.align();
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i as usize].clone(),
            _ => Ty::Void,
        }
    }
    /// bit width of a first-class scalar
    pub fn bits(&self) -> Option<u32> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Int(u32, u128),
    Global(u32),
    Null,
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<Opnd>),
    Gep(Box<Opnd>, i64),
    Bytes(Vec<u8>),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, Opnd, Opnd),
    ICmp(Pred, u32, Opnd, Opnd),
    Cast(Cast, u32, u32, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, Vec<(u32, Opnd, u64)>, i64),
    Select(Opnd, Opnd, Opnd),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    Call(Opnd, Vec<Opnd>, Ty, Option<u32>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Alloca(u64),
    Rmw(String, u32, Opnd, Opnd),
    CmpXchg(u32, Opnd, Opnd, Opnd),
    Nop,
    Freeze(Opnd),
    Unsupported(String),
}

pub struct Instr {
    pub dst: u32,
    pub i: I,
}

#[derive(Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Instr>,
    pub succ: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub frame: u64,
    pub defined: bool,
    /// immediate postdominator (u32::MAX = function exit)
    pub ipdom: Vec<u32>,
    pub blockhot: Vec<bool>,
    pub is_panic: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Opnd>,
    pub constant: bool,
    pub func: Option<u32>,
    pub alias: Option<Opnd>,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<Func>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),  // bare word
    Loc(String), // %x
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Attr,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).to_string();
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                // metadata reference or string
                let mut j = i + 1;
                if j < b.len() && b[j] == b'"' {
                    j += 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    j += 1;
                } else {
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                }
                i = j;
                out.push(Tok::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                i = j;
                out.push(Tok::Attr);
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    locals: Option<&'a mut HashMap<String, u32>>,
}

type R<T> = Result<T, String>;

const OPERAND_KW: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast",
    "none", "blockaddress", "add", "sub", "trunc", "ptrtoaddr", "splat",
];

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                matches!(
                    s.as_str(),
                    "void" | "ptr" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "label" | "metadata" | "token"
                ) || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs_to_type(&mut self) -> R<()> {
        while !self.at_type() {
            match self.next()? {
                Tok::Id(s) => {
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if s == "align" {
                        self.next()?;
                    }
                }
                Tok::Attr | Tok::Str(_) | Tok::P('=') | Tok::Num(_) => {}
                t => return Err(format!("type expected, got {:?}", t)),
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Id(s) => {
                if s == "void" {
                    Ok(Ty::Void)
                } else if s == "ptr" {
                    if self.is_id("addrspace") {
                        self.next()?;
                        self.skip_parens()?;
                    }
                    Ok(Ty::Ptr)
                } else if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) {
                    Ok(Ty::Int(s[1..].parse().unwrap()))
                } else {
                    Ok(Ty::Other(s))
                }
            }
            Tok::Loc(n) => self.m.types.get(&n).cloned().ok_or(format!("type {}", n)),
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Ty::Array(n as u64, Box::new(t)))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat('}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                Ok(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    let t = self.ty()?;
                    self.expect('>')?;
                    if let Ty::Struct(f, _) = t {
                        return Ok(Ty::Struct(f, true));
                    }
                    return Err("packed".into());
                }
                let n = self.num()?;
                self.eat_id("x");
                let t = self.ty()?;
                self.expect('>')?;
                Ok(Ty::Vector(n as u64, Box::new(t)))
            }
            t => Err(format!("bad type {:?}", t)),
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => {
                if let Ok(v) = s.parse::<i128>() {
                    return Ok(v);
                }
                s.parse::<u128>().map(|v| v as i128).map_err(|e| format!("{} {}", s, e))
            }
            t => Err(format!("num {:?}", t)),
        }
    }
    fn skip_operand_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if OPERAND_KW.contains(&s.as_str()) {
                        return Ok(());
                    }
                    let al = s == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn gidx(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.m.gmap.get(n) {
            return i;
        }
        let i = self.m.globals.len() as u32;
        self.m.globals.push(Global {
            name: n.to_string(),
            ty: Ty::Void,
            init: None,
            constant: false,
            func: None,
            alias: None,
        });
        self.m.gmap.insert(n.to_string(), i);
        i
    }
    fn local(&mut self, n: &str) -> R<u32> {
        let l = self.locals.as_mut().ok_or("no locals")?;
        let k = l.len() as u32;
        Ok(*l.entry(n.to_string()).or_insert(k))
    }
    fn typed(&mut self) -> R<(Ty, Opnd)> {
        self.skip_attrs_to_type()?;
        let t = self.ty()?;
        if t == Ty::Other("metadata".into()) {
            // skip the metadata operand
            match self.next()? {
                Tok::Meta => {
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                _ => {}
            }
            return Ok((t, Opnd::Bad("metadata".into())));
        }
        self.skip_operand_attrs()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
    fn opnd(&mut self, t: &Ty) -> R<Opnd> {
        match self.next()? {
            Tok::Loc(n) => Ok(Opnd::Reg(self.local(&n)?)),
            Tok::Glob(n) => Ok(Opnd::Global(self.gidx(&n))),
            Tok::Num(s) => {
                if let Ty::Int(w) = t {
                    let v = if let Ok(v) = s.parse::<i128>() {
                        v as u128
                    } else if let Ok(v) = s.parse::<u128>() {
                        v
                    } else {
                        return Ok(Opnd::Bad(s));
                    };
                    let v = if *w >= 128 { v } else { v & ((1u128 << w) - 1) };
                    Ok(Opnd::Int(*w, v))
                } else {
                    Ok(Opnd::Bad(s))
                }
            }
            Tok::CStr(b) => Ok(Opnd::Bytes(b)),
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}')?;
                    self.expect('>')?;
                    Ok(a)
                } else {
                    self.agg('>')
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Opnd::Int(1, 1)),
                "false" => Ok(Opnd::Int(1, 0)),
                "null" => Ok(Opnd::Null),
                "none" => Ok(Opnd::Zero(t.clone())),
                "undef" | "poison" => Ok(Opnd::Undef(t.clone())),
                "zeroinitializer" => Ok(Opnd::Zero(t.clone())),
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) && !self.is_p('(') {
                        // inbounds / nuw / inrange(...)
                        self.next()?;
                    }
                    self.expect('(')?;
                    let ety = self.ty()?;
                    self.expect(',')?;
                    let (_, base) = self.typed()?;
                    let mut off = 0i64;
                    let mut cur = ety.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let (_, ix) = self.typed()?;
                        let v = match ix {
                            Opnd::Int(w, v) => {
                                let s = 128 - w;
                                (((v << s) as i128) >> s) as i64
                            }
                            _ => return Ok(Opnd::Bad("gep const index".into())),
                        };
                        if first {
                            off += v * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(v as u64) as i64;
                            cur = cur.field(v as u64);
                        }
                    }
                    self.expect(')')?;
                    Ok(Opnd::Gep(Box::new(base), off))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" => {
                    self.expect('(')?;
                    let (ft, o) = self.typed()?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.expect(')')?;
                    if ft.bits() == tt.bits() {
                        Ok(o)
                    } else {
                        Ok(Opnd::Bad("const cast".into()))
                    }
                }
                "splat" => {
                    self.expect('(')?;
                    let (_, o) = self.typed()?;
                    self.expect(')')?;
                    if let Ty::Vector(n, _) = t {
                        Ok(Opnd::Agg(vec![o; *n as usize]))
                    } else {
                        Err("splat".into())
                    }
                }
                _ => {
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                    Ok(Opnd::Bad(s))
                }
            },
            t => Err(format!("operand {:?}", t)),
        }
    }
    fn agg(&mut self, close: char) -> R<Opnd> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Opnd::Agg(v));
        }
        loop {
            let (_, o) = self.typed()?;
            v.push(o);
            if self.eat(close) {
                return Ok(Opnd::Agg(v));
            }
            self.expect(',')?;
        }
    }
}

fn bin_of(s: &str) -> Option<Bin> {
    Some(match s {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        _ => return None,
    })
}

struct FnCtx {
    frame: u64,
}

fn instr(p: &mut P, fc: &mut FnCtx, blocks: &HashMap<String, u32>, text: &str) -> R<(u32, I, Option<(u32, Vec<(u32, Opnd)>)>)> {
    let mut dst = u32::MAX;
    if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (p.t.first().cloned(), p.t.get(1)) {
        dst = p.local(&n)?;
        p.i = 2;
    }
    let blk = |p: &mut P| -> R<u32> {
        if !p.eat_id("label") {
            return Err("label".into());
        }
        match p.next()? {
            Tok::Loc(n) => blocks.get(&n).copied().ok_or(format!("block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    };
    let op = match p.next()? {
        Tok::Id(s) => s,
        t => return Err(format!("op {:?}", t)),
    };
    let skip_flags = |p: &mut P| {
        while let Some(Tok::Id(s)) = p.peek() {
            if matches!(
                s.as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "samesign" | "nusw" | "volatile" | "atomic"
            ) {
                p.i += 1;
            } else if s == "inrange" {
                p.i += 1;
                let _ = p.skip_parens();
            } else {
                break;
            }
        }
    };
    let i = if let Some(b) = bin_of(&op) {
        skip_flags(p);
        let t = p.ty()?;
        let a = p.opnd(&t)?;
        p.expect(',')?;
        let c = p.opnd(&t)?;
        match t {
            Ty::Int(w) => I::Bin(b, w, a, c),
            _ => I::Unsupported(text.to_string()),
        }
    } else {
        match op.as_str() {
            "icmp" => {
                skip_flags(p);
                let pr = match p.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let t = p.ty()?;
                let a = p.opnd(&t)?;
                p.expect(',')?;
                let b = p.opnd(&t)?;
                match t.bits() {
                    Some(w) => I::ICmp(pr, w, a, b),
                    None => I::Unsupported(text.to_string()),
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                skip_flags(p);
                let (ft, o) = p.typed()?;
                if !p.eat_id("to") {
                    return Err("to".into());
                }
                let tt = p.ty()?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    _ => Cast::Same,
                };
                match (ft.bits(), tt.bits()) {
                    (Some(f), Some(t)) if k != Cast::Same || f == t => I::Cast(k, f, t, o),
                    _ => I::Unsupported(text.to_string()),
                }
            }
            "load" => {
                skip_flags(p);
                let t = p.ty()?;
                p.expect(',')?;
                let (_, a) = p.typed()?;
                I::Load(t, a)
            }
            "store" => {
                skip_flags(p);
                let (t, v) = p.typed()?;
                p.expect(',')?;
                let (_, a) = p.typed()?;
                I::Store(t, v, a)
            }
            "getelementptr" => {
                skip_flags(p);
                let ety = p.ty()?;
                p.expect(',')?;
                let (_, base) = p.typed()?;
                let mut off = 0i64;
                let mut vars = vec![];
                let mut cur = ety;
                let mut first = true;
                while p.is_p(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) {
                    p.i += 1;
                    let (it, ix) = p.typed()?;
                    let stride = if first {
                        cur.size()
                    } else if matches!(cur, Ty::Array(..) | Ty::Vector(..)) {
                        cur.field_off(1)
                    } else {
                        0
                    };
                    match &ix {
                        Opnd::Int(w, v) => {
                            let s = 128 - w;
                            let v = (((v << s) as i128) >> s) as i64;
                            if first || stride != 0 {
                                off = off.wrapping_add(v.wrapping_mul(stride as i64));
                            } else {
                                off += cur.field_off(v as u64) as i64;
                            }
                            if !first {
                                cur = cur.field(v as u64);
                            }
                        }
                        _ => {
                            vars.push((it.bits().unwrap_or(64), ix, stride));
                            if !first {
                                cur = cur.field(0);
                            }
                        }
                    }
                    first = false;
                }
                I::Gep(base, vars, off)
            }
            "select" => {
                let (ct, c) = p.typed()?;
                p.expect(',')?;
                let (_, a) = p.typed()?;
                p.expect(',')?;
                let (_, b) = p.typed()?;
                if ct != Ty::Int(1) {
                    I::Unsupported(text.to_string())
                } else {
                    I::Select(c, a, b)
                }
            }
            "freeze" => {
                let (_, a) = p.typed()?;
                I::Freeze(a)
            }
            "extractvalue" => {
                let (_, a) = p.typed()?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Num(_))) {
                        ix.push(p.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = p.typed()?;
                p.expect(',')?;
                let (_, v) = p.typed()?;
                let mut ix = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Num(_))) {
                        ix.push(p.num()? as u32);
                    } else {
                        break;
                    }
                }
                I::InsertValue(t, a, v, ix)
            }
            "alloca" => {
                skip_flags(p);
                let t = p.ty()?;
                let mut al = t.align();
                let mut bad = false;
                let mut count = 1u64;
                while p.eat(',') {
                    if p.eat_id("align") {
                        al = p.num()? as u64;
                    } else if p.at_type() {
                        let (_, n) = p.typed()?;
                        match n {
                            Opnd::Int(_, v) => count = v as u64,
                            _ => bad = true,
                        }
                    } else {
                        break;
                    }
                }
                if bad {
                    I::Unsupported(text.to_string())
                } else {
                    fc.frame = (fc.frame + al - 1) / al * al;
                    let o = fc.frame;
                    fc.frame += (t.size() * count).max(1);
                    I::Alloca(o)
                }
            }
            "br" => {
                if p.is_id("label") {
                    let b = blk(p)?;
                    I::Br(b)
                } else {
                    let (_, c) = p.typed()?;
                    p.expect(',')?;
                    let a = blk(p)?;
                    p.expect(',')?;
                    let b = blk(p)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = p.typed()?;
                p.expect(',')?;
                let d = blk(p)?;
                p.expect('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let (_, v) = p.typed()?;
                    p.expect(',')?;
                    let b = blk(p)?;
                    if let Opnd::Int(_, v) = v {
                        cs.push((v, b));
                    } else {
                        return Err("switch case".into());
                    }
                }
                I::Switch(t.bits().ok_or("switch type")?, c, d, cs)
            }
            "ret" => {
                if p.is_id("void") {
                    I::Ret(None)
                } else {
                    let (_, v) = p.typed()?;
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unsupported("resume".into()),
            "fence" => I::Nop,
            "phi" => {
                skip_flags(p);
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect('[')?;
                    let o = p.opnd(&t)?;
                    p.expect(',')?;
                    let b = match p.next()? {
                        Tok::Loc(n) => blocks.get(&n).copied().ok_or(format!("block {}", n))?,
                        _ => return Err("phi".into()),
                    };
                    p.expect(']')?;
                    v.push((b, o));
                    if !p.is_p(',') || !matches!(p.t.get(p.i + 1), Some(Tok::P('['))) {
                        break;
                    }
                    p.i += 1;
                }
                return Ok((dst, I::Nop, Some((dst, v))));
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op != "call" && op != "invoke" {
                    p.next()?; // call
                }
                p.skip_attrs_to_type()?;
                let rt = p.ty()?;
                if p.is_p('(') {
                    // function type of a varargs call
                    p.skip_parens()?;
                }
                p.skip_operand_attrs()?;
                if p.is_id("asm") {
                    return Ok((dst, I::Unsupported(text.to_string()), None));
                }
                let callee = p.opnd(&Ty::Ptr)?;
                p.expect('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let (_, a) = p.typed()?;
                        args.push(a);
                        if p.eat(')') {
                            break;
                        }
                        p.expect(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_id("to") {
                        p.next()?;
                    }
                    p.next()?;
                    normal = Some(blk(p)?);
                }
                I::Call(callee, args, rt, normal)
            }
            "atomicrmw" => {
                skip_flags(p);
                let k = match p.next()? {
                    Tok::Id(s) => s,
                    _ => return Err("rmw".into()),
                };
                let (_, a) = p.typed()?;
                p.expect(',')?;
                let (t, v) = p.typed()?;
                match t.bits() {
                    Some(w) => I::Rmw(k, w, a, v),
                    None => I::Unsupported(text.to_string()),
                }
            }
            "cmpxchg" => {
                while p.eat_id("weak") || p.eat_id("volatile") {}
                let (_, a) = p.typed()?;
                p.expect(',')?;
                let (t, c) = p.typed()?;
                p.expect(',')?;
                let (_, n) = p.typed()?;
                match t.bits() {
                    Some(w) => I::CmpXchg(w, a, c, n),
                    None => I::Unsupported(text.to_string()),
                }
            }
            _ => I::Unsupported(text.to_string()),
        }
    };
    Ok((dst, i, None))
}

pub fn parse(src: &str) -> R<Module> {
    let mut m = Module { globals: vec![], gmap: HashMap::new(), funcs: vec![], types: HashMap::new() };
    // join continuation lines (switch tables, landingpads)
    let lines: Vec<&str> = src.lines().collect();
    // named types may refer to later ones
    let mut todo: Vec<(String, &str)> = vec![];
    for l in &lines {
        if l.starts_with('%') {
            if let Some(k) = l.find(" = type ") {
                todo.push((l[1..k].trim_matches('"').to_string(), &l[k + 8..]));
            }
        }
    }
    while !todo.is_empty() {
        let n = todo.len();
        let mut rest = vec![];
        let mut last = String::new();
        for (name, text) in todo {
            let t = lex(text);
            let mut p = P { t, i: 0, m: &mut m, locals: None };
            let ty = if p.is_id("opaque") { Ok(Ty::Void) } else { p.ty() };
            match ty {
                Ok(ty) => {
                    m.types.insert(name, ty);
                }
                Err(e) => {
                    last = e;
                    rest.push((name, text));
                }
            }
        }
        if rest.len() == n {
            return Err(format!("types: {}", last));
        }
        todo = rest;
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') && l.contains(" = type ") {
            // handled below
        } else if l.starts_with('@') {
            parse_global(&mut m, l).map_err(|e| format!("global: {}: {}", e, &l[..l.len().min(200)]))?;
        } else if l.starts_with("declare ") {
            let t = lex(&l[8..]);
            if let Some(Tok::Glob(n)) = t.iter().find(|t| matches!(t, Tok::Glob(_))).cloned() {
                let mut p = P { t: vec![], i: 0, m: &mut m, locals: None };
                p.gidx(&n);
                add_func(&mut m, &n, false);
            }
        } else if l.starts_with("define ") {
            let start = i;
            while lines[i] != "}" {
                i += 1;
            }
            parse_func(&mut m, &lines[start..i])?;
        }
        i += 1;
    }
    Ok(m)
}

fn add_func(m: &mut Module, name: &str, defined: bool) -> u32 {
    let g = m.gmap[name];
    if let Some(f) = m.globals[g as usize].func {
        return f;
    }
    let f = m.funcs.len() as u32;
    m.funcs.push(Func {
        name: name.to_string(),
        params: vec![],
        nregs: 0,
        blocks: vec![],
        frame: 0,
        defined,
        ipdom: vec![],
        blockhot: vec![],
        is_panic: is_panic_name(name),
    });
    m.globals[g as usize].func = Some(f);
    f
}

/// Diverging runtime entry points: reaching one of them is a panic/abort.
fn is_panic_name(n: &str) -> bool {
    n.contains("9panicking")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("slice_index_fail")
        || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow")
        || n.contains("12handle_error")
        || n.contains("len_mismatch_fail")
        || n.contains("rust_begin_unwind")
        || n == "abort"
}

fn parse_global(m: &mut Module, l: &str) -> R<()> {
    let t = lex(l);
    let mut p = P { t, i: 0, m, locals: None };
    let name = match p.next()? {
        Tok::Glob(n) => n,
        _ => return Err("name".into()),
    };
    p.expect('=')?;
    let g = p.gidx(&name);
    let mut external = false;
    loop {
        match p.peek() {
            Some(Tok::Id(s)) if s == "constant" || s == "global" => {
                let c = s == "constant";
                p.i += 1;
                p.m.globals[g as usize].constant = c;
                break;
            }
            Some(Tok::Id(s)) if s == "alias" => {
                p.i += 1;
                let _t = p.ty()?;
                p.expect(',')?;
                let (_, o) = p.typed()?;
                p.m.globals[g as usize].alias = Some(o);
                return Ok(());
            }
            Some(Tok::Id(s)) => {
                if s == "external" || s == "extern_weak" {
                    external = true;
                }
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
            }
            _ => return Err("global kind".into()),
        }
    }
    let t = p.ty()?;
    p.m.globals[g as usize].ty = t.clone();
    if !external {
        let o = p.opnd(&t)?;
        p.m.globals[g as usize].init = Some(o);
    }
    Ok(())
}

fn parse_func(m: &mut Module, ls: &[&str]) -> R<()> {
    let head = ls[0];
    let mut locals: HashMap<String, u32> = HashMap::new();
    let t = lex(&head[7..]);
    let mut params = vec![];
    let name;
    {
        let mut p = P { t, i: 0, m, locals: Some(&mut locals) };
        // find the function name
        while !matches!(p.peek(), Some(Tok::Glob(_))) {
            p.next()?;
        }
        name = match p.next()? {
            Tok::Glob(n) => n,
            _ => unreachable!(),
        };
        p.gidx(&name);
        p.expect('(')?;
        let mut k = 0;
        if !p.eat(')') {
            loop {
                if p.eat('.') {
                    p.eat('.');
                    p.eat('.');
                    p.expect(')')?;
                    break;
                }
                p.skip_attrs_to_type()?;
                let _ty = p.ty()?;
                // attributes then optional name
                loop {
                    match p.peek() {
                        Some(Tok::Loc(_)) | Some(Tok::P(',')) | Some(Tok::P(')')) => break,
                        Some(Tok::P('(')) => p.skip_parens()?,
                        _ => {
                            p.next()?;
                        }
                    }
                }
                let nm = if let Some(Tok::Loc(n)) = p.peek().cloned() {
                    p.next()?;
                    n
                } else {
                    k.to_string()
                };
                let r = p.local(&nm)?;
                params.push(r);
                k += 1;
                if p.eat(')') {
                    break;
                }
                p.expect(',')?;
            }
        }
    }
    let f = add_func(m, &name, true);
    // split in blocks, joining multi-line instructions
    let mut blocks: HashMap<String, u32> = HashMap::new();
    let mut bodies: Vec<Vec<String>> = vec![];
    let is_label = |l: &str| -> Option<String> {
        if l.starts_with(' ') || l.is_empty() {
            return None;
        }
        let k = if l.starts_with('"') { l[1..].find("\":").map(|k| k + 2)? } else { l.find(':')? };
        Some(l[..k].trim_matches('"').to_string())
    };
    let mut j = 1;
    let mut first = true;
    while j < ls.len() {
        let l = ls[j];
        if let Some(n) = is_label(l) {
            blocks.insert(n, bodies.len() as u32);
            bodies.push(vec![]);
            first = false;
        } else if !l.trim().is_empty() {
            if first {
                blocks.insert(params.len().to_string(), 0);
                bodies.push(vec![]);
                first = false;
            }
            let tl = l.trim();
            let b = bodies.last_mut().unwrap();
            if tl.starts_with("switch ") && tl.ends_with('[') {
                let mut s = tl.to_string();
                while ls[j].trim() != "]" && !ls[j].trim().starts_with("],") {
                    j += 1;
                    s.push(' ');
                    s.push_str(ls[j].trim());
                    if ls[j].trim().starts_with(']') {
                        break;
                    }
                }
                b.push(s);
            } else if tl.starts_with("to label ") {
                let last = b.last_mut().unwrap();
                last.push(' ');
                last.push_str(tl);
            } else if tl == "cleanup" || tl.starts_with("catch ") || tl.starts_with("filter ") {
                // landingpad clause
            } else {
                b.push(tl.to_string());
            }
        }
        j += 1;
    }
    let mut fc = FnCtx { frame: 0 };
    let mut out: Vec<Block> = vec![];
    for body in &bodies {
        let mut blk = Block::default();
        for text in body {
            if text.starts_with('#') || text.starts_with(';') {
                continue;
            }
            let t = lex(text);
            if t.is_empty() {
                continue;
            }
            let mut p = P { t, i: 0, m, locals: Some(&mut locals) };
            match instr(&mut p, &mut fc, &blocks, text) {
                Ok((_, _, Some(phi))) => blk.phis.push(phi),
                Ok((dst, i, None)) => {
                    match &i {
                        I::Br(a) => blk.succ.push(*a),
                        I::CondBr(_, a, b) => {
                            blk.succ.push(*a);
                            blk.succ.push(*b);
                        }
                        I::Switch(_, _, d, cs) => {
                            blk.succ.push(*d);
                            for c in cs {
                                blk.succ.push(c.1);
                            }
                        }
                        I::Call(_, _, _, Some(n)) => blk.succ.push(*n),
                        _ => {}
                    }
                    blk.ins.push(Instr { dst, i });
                }
                Err(e) => {
                    blk.ins.push(Instr { dst: u32::MAX, i: I::Unsupported(format!("parse: {}: {}", e, text)) });
                }
            }
        }
        out.push(blk);
    }
    let (ipdom, returns) = postdom(&out);
    let fun = &mut m.funcs[f as usize];
    fun.params = params;
    fun.nregs = locals.len() as u32;
    fun.blocks = out;
    fun.frame = fc.frame;
    fun.defined = true;
    fun.ipdom = ipdom;
    if !returns {
        fun.is_panic = true;
    }
    Ok(())
}

/// Immediate postdominators over the blocks that can reach a return.
fn postdom(bs: &[Block]) -> (Vec<u32>, bool) {
    let n = bs.len();
    let exit = n; // virtual exit
    let mut reach = vec![false; n];
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut succs: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in bs.iter().enumerate() {
        if matches!(b.ins.last().map(|x| &x.i), Some(I::Ret(_))) {
            preds[exit].push(i);
            succs[i].push(exit);
        }
        for &s in &b.succ {
            preds[s as usize].push(i);
            succs[i].push(s as usize);
        }
    }
    let mut st = preds[exit].clone();
    while let Some(x) = st.pop() {
        if reach[x] {
            continue;
        }
        reach[x] = true;
        st.extend(preds[x].iter().copied());
    }
    // reverse postorder on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, k)) = stack.pop() {
        if k < preds[x].len() {
            stack.push((x, k + 1));
            let y = preds[x][k];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (k, &x) in order.iter().enumerate() {
        num[x] = k;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &s in &succs[x] {
                if num[s] == usize::MAX || idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    let v = (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == exit { u32::MAX } else { idom[i] as u32 }).collect();
    (v, n > 0 && reach[0])
}
