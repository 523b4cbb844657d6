//! Symbolic execution of LLVM IR.

use crate::ir::*;
use crate::prove::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub const UNINIT: u32 = u32::MAX;
const NOBLK: u32 = u32::MAX;
/// object index ranges inside the upper 32 address bits
const GLOB0: u64 = 0x1000;
const FUNC0: u64 = 0x0800_0000;
const OBJ0: u64 = 0x0100_0000;

#[derive(Clone, Debug)]
pub enum V {
    C(u64, u8),
    T(Id),
    Agg(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u32>,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    b: u32,
    ip: u32,
    prev: u32,
    regs: Vec<V>,
    obj: u32,
    ret_dst: u32,
    ret_to: u32,
}

/// A harness-owned object and the heap objects it points to, at one moment.
pub struct Snap {
    regions: Vec<Region>,
    refs: Vec<u32>,
}
struct Region {
    addr: u64,
    parent: (u32, u32),
    bytes: Vec<u32>,
    /// offset of a pointer word -> (region, offset inside it)
    ptrs: BTreeMap<u32, (u32, u32)>,
}
/// Passing over iterations of a loop whose state advances linearly.
struct Skip {
    min_work: u64,
    delta: u64,
    seen: HashMap<Vec<u32>, (Vec<u64>, Vec<State>)>,
    bad: HashSet<Vec<u32>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Keep,
    Ptr,
    /// byte j of a counter: width, value in the last snapshot, step
    Count(u8, u8, u64, u64),
    Ref(u32),
    Any,
}

#[derive(Clone)]
pub struct State {
    snaps: Vec<Rc<Snap>>,
    quiet: bool,
    fuel: Option<u64>,
    spent: u64,
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pub pc: Vec<Id>,
    pub lanes: u32,
    pub lanes_ver: u64,
    pub nany: u32,
    pub inputs: Vec<(u32, u32)>, // (first var, byte count) per verif_any call
    pub nchoice: usize,
    pub deep: Vec<(String, Id)>,
    pub forks: u32,
}

pub struct Violation {
    pub tag: String,
    pub kind: String,
    pub inputs: Vec<Vec<u8>>,
    pub choices: Vec<u64>,
    pub note: String,
}

#[derive(Default, Clone)]
pub struct JobStats {
    pub instrs: u64,
    pub blocks_crate: u64,
    pub paths: u64,
    pub forks: u64,
    pub merges: u64,
    pub obligations: u64,
    pub checks: u64,
    pub bytes_checked: u64,
    pub covers: BTreeMap<String, u64>,
    pub tags: BTreeMap<String, u64>,
    pub nodes: u64,
    pub concretised: u64,
    pub outs: Vec<u8>,
}

pub enum Stop {
    Err(String),
    Violation(Violation),
}
type R<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

enum Step {
    Next,
    Jump,
    Stopped,
    Dead,
    Branch(Id, u32, u32),
    SwitchSym(Id, u32, Vec<(u128, u32)>, u32),
    Fork(Vec<State>),
}

pub struct Shared {
    pub m: Module,
    pub gaddr: Vec<u64>,                // address per global
    pub gobj: Vec<Option<Arc<Vec<u32>>>>, // const contents (byte ids, addresses < 256 are the byte value)
    pub gmutable: Vec<u32>,
    pub fns_of_crate: Vec<bool>,
}

impl Shared {
    pub fn new(m: Module, marker: &str) -> Result<Shared, String> {
        let n = m.globals.len();
        let mut gaddr = vec![0u64; n];
        let mut gmutable = vec![];
        for i in 0..n {
            if let Some(f) = m.globals[i].func {
                gaddr[i] = (FUNC0 + f as u64) << 32;
            } else if m.globals[i].alias.is_none() && m.globals[i].init.is_some() && !m.globals[i].constant {
                // ordinary memory of every state, allocated first
                gaddr[i] = (OBJ0 + gmutable.len() as u64) << 32;
                gmutable.push(i as u32);
            } else {
                gaddr[i] = (GLOB0 + i as u64) << 32;
            }
        }
        for i in 0..n {
            if let Some(a) = &m.globals[i].alias {
                if let Opnd::Global(g) = a {
                    gaddr[i] = gaddr[*g as usize];
                }
            }
        }
        let mut gobj = vec![None; n];
        for i in 0..n {
            let g = &m.globals[i];
            if g.func.is_some() || g.alias.is_some() {
                continue;
            }
            if let Some(init) = &g.init {
                let mut b = vec![0u32; g.ty.size() as usize];
                write_init(&mut b, 0, &g.ty, init, &gaddr)?;
                gobj[i] = Some(Arc::new(b));
            }
        }
        let fns_of_crate = m.funcs.iter().map(|f| f.name.contains(marker)).collect();
        Ok(Shared { m, gaddr, gobj, gmutable, fns_of_crate })
    }
}

fn write_init(b: &mut [u32], off: u64, ty: &Ty, o: &Opnd, gaddr: &[u64]) -> Result<(), String> {
    let put = |b: &mut [u32], v: u128, n: u64| {
        for k in 0..n {
            b[(off + k) as usize] = ((v >> (8 * k)) & 0xff) as u32;
        }
    };
    match o {
        Opnd::Zero(_) | Opnd::Null => {}
        Opnd::Undef(_) => {
            for k in 0..ty.size() {
                b[(off + k) as usize] = 0;
            }
        }
        Opnd::Int(_, v) => put(b, *v, ty.size()),
        Opnd::Bytes(x) => {
            for (k, v) in x.iter().enumerate() {
                b[off as usize + k] = *v as u32;
            }
        }
        Opnd::Global(g) => put(b, gaddr[*g as usize] as u128, 8),
        Opnd::Gep(base, k) => {
            if let Opnd::Global(g) = &**base {
                put(b, gaddr[*g as usize].wrapping_add(*k as u64) as u128, 8)
            }
        }
        Opnd::Agg(v) => {
            for (i, x) in v.iter().enumerate() {
                write_init(b, off + ty.field_off(i as u64), &ty.field(i as u64), x, gaddr)?;
            }
        }
        Opnd::Bad(_) => {
            // unsupported constant (e.g. float): contents unknown, poisoned
            for k in 0..ty.size() {
                b[(off + k) as usize] = UNINIT;
            }
        }
        Opnd::Reg(_) => return Err("register in initialiser".into()),
    }
    Ok(())
}

pub struct Exec<'a> {
    pub sh: &'a Shared,
    pub c: Ctx,
    pub p: Prover,
    pub choices: Vec<u64>,
    pub spawn: Option<&'a dyn Fn(Vec<Vec<u64>>)>,
    pub made: Vec<u64>,
    pub st: JobStats,
    pub tier: u64,
    pub max_instrs: u64,
    pub undef_n: u32,
    pub any_vars: HashMap<(u32, u32), u32>, // (call, byte) -> var index
    pub any_ids: HashMap<(u32, u32), Id>,
    pub concrete: Option<Vec<Vec<u8>>>, // concrete inputs (translation validation mode)
    pub depth: u32,
    pub fn_seen: HashSet<u32>,
    leap_data: Vec<Vec<Id>>,
    skip: Option<Skip>,
    leap_kinds: Vec<Vec<Kind>>,
    havoc: HashSet<Id>,
    pub deadline: Option<std::time::Instant>,
    /// set when enough violations of this harness are known
    pub cancel: Option<&'a std::sync::atomic::AtomicBool>,
}

fn cw(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

impl<'a> Exec<'a> {
    pub fn new(sh: &'a Shared, p: Prover, seed: u64) -> Exec<'a> {
        Exec {
            sh,
            c: Ctx::new(seed),
            p,
            choices: vec![],
            spawn: None,
            made: vec![],
            st: JobStats::default(),
            tier: 0,
            max_instrs: 4_000_000_000,
            undef_n: 0,
            any_vars: HashMap::new(),
            any_ids: HashMap::new(),
            concrete: None,
            depth: 0,
            fn_seen: HashSet::new(),
            leap_data: vec![],
            skip: None,
            leap_kinds: vec![],
            havoc: HashSet::new(),
            deadline: None,
            cancel: None,
        }
    }

    fn t(&mut self, v: &V, w: u32) -> Id {
        match v {
            V::C(x, _) => self.c.c(w as u8, *x as u128),
            V::T(t) => *t,
            V::U => {
                self.undef_n += 1;
                let n = format!("undef{}", self.undef_n);
                self.c.var(&n, w as u8)
            }
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, t: Id) -> V {
        let n = &self.c.nodes[t as usize];
        if n.op == Op::Const && n.w <= 64 {
            V::C(n.aux as u64, n.w)
        } else {
            V::T(t)
        }
    }

    fn zero(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w <= 64 => V::C(0, *w as u8),
            Ty::Int(w) => V::T(self.c.c(*w as u8, 0)),
            Ty::Ptr => V::C(0, 64),
            Ty::Struct(fs, _) => V::Agg(Rc::new(fs.iter().map(|f| self.zero(f)).collect())),
            Ty::Array(n, t) => V::Agg(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            _ => V::U,
        }
    }
    fn undef(&mut self, ty: &Ty) -> V {
        match ty {
            Ty::Struct(fs, _) => V::Agg(Rc::new(fs.iter().map(|f| self.undef(f)).collect())),
            Ty::Array(n, t) => V::Agg(Rc::new((0..*n).map(|_| self.undef(t)).collect())),
            _ => V::U,
        }
    }

    fn op(&mut self, s: &State, o: &Opnd) -> R<V> {
        Ok(match o {
            Opnd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::Int(w, v) => {
                if *w <= 64 {
                    V::C(*v as u64, *w as u8)
                } else {
                    V::T(self.c.c(*w as u8, *v))
                }
            }
            Opnd::Global(g) => V::C(self.sh.gaddr[*g as usize], 64),
            Opnd::Null => V::C(0, 64),
            Opnd::Undef(t) => self.undef(t),
            Opnd::Zero(t) => self.zero(t),
            Opnd::Agg(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.op(s, x)?);
                }
                V::Agg(Rc::new(o))
            }
            Opnd::Gep(b, k) => match self.op(s, b)? {
                V::C(x, w) => V::C(x.wrapping_add(*k as u64), w),
                _ => return err("gep const base"),
            },
            Opnd::Bytes(_) | Opnd::Bad(_) => return err(format!("operand {:?}", o)),
        })
    }

    // ---- memory -------------------------------------------------------------

    fn alloc(&mut self, s: &mut State, size: u64, heap: bool, fill: u32) -> u32 {
        let o = Some(Rc::new(Obj { bytes: vec![fill; size as usize], heap }));
        if let Some(i) = s.free.pop() {
            s.objs[i as usize] = o;
            i
        } else {
            s.objs.push(o);
            s.objs.len() as u32 - 1
        }
    }
    fn addr_of(i: u32) -> u64 {
        (OBJ0 + i as u64) << 32
    }
    fn free_obj(&mut self, s: &mut State, i: u32) {
        s.objs[i as usize] = None;
        s.free.push(i);
    }

    fn bytes<'b>(&'b self, s: &'b State, a: u64, n: u64) -> R<&'b [u32]> {
        let idx = a >> 32;
        let off = a & 0xffff_ffff;
        let sl: &[u32] = if idx >= OBJ0 && idx < FUNC0 {
            match s.objs.get((idx - OBJ0) as usize) {
                Some(Some(o)) => &o.bytes,
                _ => return err(format!("access to a dead object at {:#x}", a)),
            }
        } else if idx >= GLOB0 && ((idx - GLOB0) as usize) < self.sh.gobj.len() {
            match &self.sh.gobj[(idx - GLOB0) as usize] {
                Some(b) => b,
                None => return err(format!("access to external global {}", self.sh.m.globals[(idx - GLOB0) as usize].name)),
            }
        } else {
            return err(format!("access to unmapped address {:#x} ({} bytes)", a, n));
        };
        if off + n > sl.len() as u64 {
            return err(format!("out-of-bounds access at {:#x}+{} of an object of {} bytes", a, n, sl.len()));
        }
        Ok(&sl[off as usize..(off + n) as usize])
    }
    fn bytes_mut<'b>(&self, s: &'b mut State, a: u64, n: u64) -> R<&'b mut [u32]> {
        let idx = a >> 32;
        let off = a & 0xffff_ffff;
        if !(idx >= OBJ0 && idx < FUNC0) {
            return err(format!("write to unmapped or constant address {:#x}", a));
        }
        match s.objs.get_mut((idx - OBJ0) as usize) {
            Some(Some(o)) => {
                if off + n > o.bytes.len() as u64 {
                    return err(format!("out-of-bounds write at {:#x}+{} of an object of {} bytes", a, n, o.bytes.len()));
                }
                let o = Rc::make_mut(o);
                Ok(&mut o.bytes[off as usize..(off + n) as usize])
            }
            _ => err(format!("write to a dead object at {:#x}", a)),
        }
    }

    fn from_bytes(&mut self, b: &[u32], w: u32) -> V {
        let n = b.len();
        if n <= 8 {
            let mut v = 0u64;
            let mut ok = true;
            for (i, &x) in b.iter().enumerate() {
                if x < 256 {
                    v |= (x as u64) << (8 * i);
                } else {
                    ok = false;
                    break;
                }
            }
            if ok {
                return V::C(v & cw(w), w as u8);
            }
        }
        if b.iter().all(|x| *x == UNINIT) {
            return V::U;
        }
        // fast path: consecutive bytes of one term
        if b[0] != UNINIT && self.c.op(b[0]) == Op::Extract {
            let x = self.c.kid(b[0], 0);
            if self.c.w(x) as usize == 8 * n
                && w as usize == 8 * n
                && b.iter().enumerate().all(|(i, &y)| {
                    y != UNINIT
                        && self.c.op(y) == Op::Extract
                        && self.c.kid(y, 0) == x
                        && self.c.nodes[y as usize].aux == 8 * i as u128
                })
            {
                return V::T(x);
            }
        }
        let mut ids: Vec<Id> = vec![];
        for &x in b.iter().rev() {
            ids.push(if x == UNINIT { self.t(&V::U, 8) } else { x });
        }
        let t = self.c.concat(&ids);
        let t = self.c.extract(t, 0, w as u8);
        self.v(t)
    }
    fn to_bytes(&mut self, v: &V, w: u32, n: usize) -> Vec<u32> {
        match v {
            V::C(x, _) => (0..n).map(|i| if i < 8 { ((x >> (8 * i)) & 0xff) as u32 } else { 0 }).collect(),
            V::U => vec![UNINIT; n],
            V::T(t) => {
                let t = if (w as usize) < 8 * n { self.c.zext(*t, (8 * n) as u8) } else { *t };
                (0..n).map(|i| self.c.extract(t, 8 * i as u8, 8)).collect()
            }
            V::Agg(_) => unreachable!(),
        }
    }

    fn load_c(&mut self, s: &State, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                let mut buf = [0u32; 16];
                buf[..n as usize].copy_from_slice(self.bytes(s, a, n)?);
                Ok(self.from_bytes(&buf[..n as usize], *w))
            }
            Ty::Ptr => {
                let mut buf = [0u32; 8];
                buf.copy_from_slice(self.bytes(s, a, 8)?);
                Ok(self.from_bytes(&buf, 64))
            }
            Ty::Struct(fs, _) => {
                let mut o = vec![];
                for (i, f) in fs.iter().enumerate() {
                    o.push(self.load_c(s, f, a + ty.field_off(i as u64))?);
                }
                Ok(V::Agg(Rc::new(o)))
            }
            Ty::Array(n, f) => {
                let mut o = vec![];
                for i in 0..*n {
                    o.push(self.load_c(s, f, a + ty.field_off(i))?);
                }
                Ok(V::Agg(Rc::new(o)))
            }
            _ => err(format!("load of {:?}", ty)),
        }
    }
    fn store_c(&mut self, s: &mut State, ty: &Ty, v: &V, a: u64) -> R<()> {
        match (ty, v) {
            (_, V::U) => {
                let n = ty.size();
                self.bytes_mut(s, a, n)?.fill(UNINIT);
                Ok(())
            }
            (Ty::Int(w), _) => {
                let n = ((*w + 7) / 8) as usize;
                let b = self.to_bytes(v, *w, n);
                self.bytes_mut(s, a, n as u64)?.copy_from_slice(&b);
                Ok(())
            }
            (Ty::Ptr, _) => {
                let b = self.to_bytes(v, 64, 8);
                self.bytes_mut(s, a, 8)?.copy_from_slice(&b);
                Ok(())
            }
            (Ty::Struct(..), V::Agg(x)) | (Ty::Array(..), V::Agg(x)) => {
                for (i, e) in x.iter().enumerate() {
                    self.store_c(s, &ty.field(i as u64), e, a + ty.field_off(i as u64))?;
                }
                Ok(())
            }
            _ => err(format!("store of {:?}", ty)),
        }
    }

    /// Selector leaves of an address-like term.
    fn selectors(&mut self, t: Id, out: &mut Vec<Id>, depth: u32) -> bool {
        if out.contains(&t) || self.c.cval(t).is_some() {
            return true;
        }
        if depth > 60 || out.len() > 8 {
            return false;
        }
        let n = self.c.nodes[t as usize];
        match n.op {
            Op::Add | Op::Sub | Op::Mul | Op::Concat | Op::Shl => {
                for k in self.c.kids(t).to_vec() {
                    if !self.selectors(k, out, depth + 1) {
                        return false;
                    }
                }
                true
            }
            Op::Ite => {
                let (k, a, b) = (self.c.kid(t, 0), self.c.kid(t, 1), self.c.kid(t, 2));
                if !out.contains(&k) {
                    out.push(k);
                }
                self.selectors(a, out, depth + 1) && self.selectors(b, out, depth + 1)
            }
            Op::Lookup if self.c.w(self.c.kid(t, 0)) <= 10 => {
                let k = self.c.kid(t, 0);
                if !out.contains(&k) {
                    out.push(k);
                }
                true
            }
            _ => {
                let r = self.c.range(t);
                if r.1 - r.0 < 1024 {
                    out.push(t);
                    true
                } else {
                    false
                }
            }
        }
    }

    /// Evaluate t with the selectors set to concrete values.
    fn subst_eval(&self, t: Id, asg: &[(Id, u128)], memo: &mut HashMap<Id, u128>) -> Option<u128> {
        if let Some(v) = self.c.cval(t) {
            return Some(v);
        }
        for (k, v) in asg {
            if *k == t {
                return Some(*v);
            }
        }
        if let Some(v) = memo.get(&t) {
            return Some(*v);
        }
        let n = self.c.nodes[t as usize];
        let v = if n.op == Op::Ite {
            let k = self.subst_eval(self.c.kid(t, 0), asg, memo)?;
            let x = if k == 1 { self.c.kid(t, 1) } else { self.c.kid(t, 2) };
            self.subst_eval(x, asg, memo)?
        } else {
            let mut ks = vec![];
            let mut kw = vec![];
            for &k in self.c.kids(t) {
                ks.push(self.subst_eval(k, asg, memo)?);
                kw.push(self.c.w(k));
            }
            if matches!(n.op, Op::Var | Op::App) {
                return None;
            }
            self.c.eval_op(&n, &ks, &kw)
        };
        memo.insert(t, v);
        Some(v)
    }

    /// All concrete values of t: list of (selector assignment, value).
    fn enum_values(&mut self, t: Id, cap: usize) -> Option<(Vec<Id>, Vec<(Vec<u128>, u64)>)> {
        let mut sel = vec![];
        if !self.selectors(t, &mut sel, 0) || sel.is_empty() {
            return None;
        }
        let mut total = 1u128;
        let mut rs = vec![];
        for &x in &sel {
            let r = self.c.range(x);
            total = total.saturating_mul(r.1 - r.0 + 1);
            rs.push(r);
        }
        if total > cap as u128 {
            return None;
        }
        let mut out = vec![];
        let mut cur: Vec<u128> = rs.iter().map(|r| r.0).collect();
        loop {
            let asg: Vec<(Id, u128)> = sel.iter().copied().zip(cur.iter().copied()).collect();
            let mut memo = HashMap::new();
            let v = self.subst_eval(t, &asg, &mut memo)?;
            out.push((cur.clone(), v as u64));
            let mut i = sel.len();
            loop {
                if i == 0 {
                    return Some((sel, out));
                }
                i -= 1;
                if cur[i] < rs[i].1 {
                    cur[i] += 1;
                    for j in i + 1..sel.len() {
                        cur[j] = rs[j].0;
                    }
                    break;
                }
            }
        }
    }

    fn guard(&mut self, sel: &[Id], vals: &[u128]) -> Id {
        let mut g = self.c.bool(true);
        for (&s, &v) in sel.iter().zip(vals) {
            let w = self.c.w(s);
            let k = self.c.c(w, v);
            let e = self.c.eq(s, k);
            g = self.c.and(g, e);
        }
        g
    }

    /// Mux over the first selector by its bits; entries are (value, term).
    fn mux(&mut self, sel: Id, ents: &[(u128, Id)]) -> Id {
        let w = self.c.w(sel);
        let all_const = ents.iter().all(|e| self.c.cval(e.1).is_some());
        if ents.iter().all(|e| e.1 == ents[0].1) {
            return ents[0].1;
        }
        if all_const && w <= 10 && ents.len() > 2 {
            let mut vals = vec![0u128; 1 << w];
            for (k, v) in ents {
                vals[*k as usize] = self.c.cval(*v).unwrap();
            }
            let ow = self.c.w(ents[0].1);
            let t = self.c.table(w, ow, vals);
            return self.c.lookup(t, sel);
        }
        self.mux_bits(sel, w as i32 - 1, ents)
    }
    fn mux_bits(&mut self, sel: Id, bit: i32, ents: &[(u128, Id)]) -> Id {
        if bit < 0 || ents.len() == 1 || ents.iter().all(|e| e.1 == ents[0].1) {
            return ents[0].1;
        }
        let hi: Vec<(u128, Id)> = ents.iter().copied().filter(|e| e.0 >> bit & 1 == 1).collect();
        let lo: Vec<(u128, Id)> = ents.iter().copied().filter(|e| e.0 >> bit & 1 == 0).collect();
        if hi.is_empty() {
            return self.mux_bits(sel, bit - 1, &lo);
        }
        if lo.is_empty() {
            return self.mux_bits(sel, bit - 1, &hi);
        }
        let b = self.c.extract(sel, bit as u8, 1);
        let h = self.mux_bits(sel, bit - 1, &hi);
        let l = self.mux_bits(sel, bit - 1, &lo);
        self.c.ite(b, h, l)
    }
    fn mux_all(&mut self, sel: &[Id], ents: &[(Vec<u128>, Id)]) -> Id {
        if sel.is_empty() {
            return ents[0].1;
        }
        let mut groups: BTreeMap<u128, Vec<(Vec<u128>, Id)>> = BTreeMap::new();
        for (k, v) in ents {
            groups.entry(k[0]).or_default().push((k[1..].to_vec(), *v));
        }
        let mut e = vec![];
        for (k, g) in groups {
            let t = self.mux_all(&sel[1..], &g);
            e.push((k, t));
        }
        self.mux(sel[0], &e)
    }

    /// Enumerate the feasible concrete addresses for an n-byte access.
    fn addr_cases(&mut self, s: &State, t: Id, n: u64, write: bool) -> R<(Vec<Id>, Vec<(Vec<u128>, u64)>)> {
        let (sel, cases) = match self.enum_values(t, 1024) {
            Some(x) => x,
            None => {
                let t2 = self.p.simplify(&mut self.c, t);
                if t2 != t {
                    match self.enum_values(t2, 1024) {
                        Some(x) => x,
                        None => self.solved_cases(s, t2)?,
                    }
                } else {
                    self.solved_cases(s, t)?
                }
            }
        };
        let mut ok = vec![];
        for (asg, a) in cases {
            let inb = {
                let idx = a >> 32;
                if write && !(idx >= OBJ0 && idx < FUNC0) {
                    false
                } else {
                    self.bytes(s, a, n).is_ok()
                }
            };
            if inb {
                ok.push((asg, a));
            } else {
                let g = self.guard(&sel, &asg);
                if self.p.feasible(&mut self.c, &s.pc, g, true) {
                    return err(format!("feasible out-of-bounds access at {:#x}", a));
                }
            }
        }
        if ok.is_empty() {
            return err("no feasible address");
        }
        Ok((sel, ok))
    }

    /// The values t can take on this path, asked of the solver one by one
    /// until it refutes any other.
    fn solved_values(&mut self, s: &State, t: Id, cap: usize) -> Option<Vec<u128>> {
        let mut conj: Vec<Id> = s.pc.clone();
        for p in conj.iter_mut() {
            *p = self.p.simplify(&mut self.c, *p);
        }
        let w = self.c.w(t);
        let mut out = vec![];
        loop {
            match self.p.solve(&mut self.c, &conj, 5000) {
                Ok(None) => break,
                Ok(Some(m)) => {
                    let mut memo = HashMap::new();
                    let v = self.eval_model(t, &m, &mut memo);
                    if out.contains(&v) || out.len() == cap {
                        return None;
                    }
                    out.push(v);
                    let k = self.c.c(w, v);
                    let e = self.c.eq(t, k);
                    let ne = self.c.not(e);
                    conj.push(ne);
                }
                Err(_) => return None,
            }
        }
        out.sort_unstable();
        Some(out)
    }
    fn solved_cases(&mut self, s: &State, t: Id) -> R<(Vec<Id>, Vec<(Vec<u128>, u64)>)> {
        match self.solved_values(s, t, 64) {
            Some(vs) if !vs.is_empty() => Ok((vec![t], vs.iter().map(|&v| (vec![v], v as u64)).collect())),
            _ => err("symbolic address with too many targets"),
        }
    }

    fn load(&mut self, s: &State, ty: &Ty, a: &V) -> R<V> {
        match a {
            V::C(x, _) => self.load_c(s, ty, *x),
            V::T(t) => {
                let (sel, cases) = self.addr_cases(s, *t, ty.size(), false)?;
                self.load_cases(s, ty, &sel, &cases)
            }
            _ => err("load through undefined pointer"),
        }
    }
    fn load_cases(&mut self, s: &State, ty: &Ty, sel: &[Id], cases: &[(Vec<u128>, u64)]) -> R<V> {
        if let Ty::Struct(fs, _) = ty {
            let mut o = vec![];
            for (i, f) in fs.clone().iter().enumerate() {
                let off = ty.field_off(i as u64);
                let cs: Vec<(Vec<u128>, u64)> = cases.iter().map(|(k, a)| (k.clone(), a + off)).collect();
                o.push(self.load_cases(s, f, sel, &cs)?);
            }
            return Ok(V::Agg(Rc::new(o)));
        }
        let w = match ty.bits() {
            Some(w) => w,
            None => return err("symbolic aggregate load"),
        };
        let mut ents = vec![];
        for (k, a) in cases {
            let v = self.load_c(s, ty, *a)?;
            let t = self.t(&v, w);
            ents.push((k.clone(), t));
        }
        let t = self.mux_all(sel, &ents);
        Ok(self.v(t))
    }
    fn store(&mut self, s: &mut State, ty: &Ty, v: &V, a: &V) -> R<()> {
        match a {
            V::C(x, _) => self.store_c(s, ty, v, *x),
            V::T(t) => {
                let (sel, cases) = self.addr_cases(s, *t, ty.size(), true)?;
                let w = match ty.bits() {
                    Some(w) => w,
                    None => return err("symbolic aggregate store"),
                };
                let nv = self.t(v, w);
                for (k, a) in cases {
                    let g = self.guard(&sel, &k);
                    let old = self.load_c(s, ty, a)?;
                    let old = self.t(&old, w);
                    let x = self.c.ite(g, nv, old);
                    let x = self.v(x);
                    self.store_c(s, ty, &x, a)?;
                }
                Ok(())
            }
            _ => err("store through undefined pointer"),
        }
    }

    // ---- path conditions ------------------------------------------------------

    fn refresh_lanes(&mut self, s: &mut State) {
        if s.lanes_ver != self.p.version {
            s.lanes = self.p.lanes_of(&mut self.c, &s.pc);
            s.lanes_ver = self.p.version;
        }
    }
    fn assume(&mut self, s: &mut State, cond: Id) {
        if self.c.cval(cond) == Some(1) || s.pc.contains(&cond) {
            return;
        }
        self.refresh_lanes(s);
        s.pc.push(cond);
        let l = self.c.lanes(cond);
        for i in 0..LANES {
            if l[i] != 1 {
                s.lanes &= !(1 << i);
            }
        }
    }

    /// (may be true, may be false)
    fn decide(&mut self, s: &mut State, cond: Id) -> (bool, bool) {
        if let Some(v) = self.c.cval(cond) {
            return (v == 1, v == 0);
        }
        let look = |e: &mut Self, s: &mut State| {
            e.refresh_lanes(s);
            let l = e.c.lanes(cond);
            let (mut a, mut b) = (false, false);
            for i in 0..LANES {
                if s.lanes >> i & 1 == 1 {
                    if l[i] == 1 {
                        a = true
                    } else {
                        b = true
                    }
                }
            }
            (a, b)
        };
        let (mut a, mut b) = look(self, s);
        if a && b {
            return (a, b);
        }
        if !a {
            a = self.p.feasible(&mut self.c, &s.pc, cond, false);
        }
        if !b {
            let nc = self.c.not(cond);
            b = self.p.feasible(&mut self.c, &s.pc, nc, false);
        }
        (a, b)
    }

    fn model_inputs(&self, s: &State, m: &HashMap<u32, u128>) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for (call, n) in &s.inputs {
            let mut b = vec![];
            if *call == u32::MAX {
                let mut memo = HashMap::new();
                for &t in &self.leap_data[*n as usize] {
                    b.push(self.eval_model(t, m, &mut memo) as u8);
                }
                out.push(b);
                continue;
            }
            for i in 0..*n {
                let id = self.any_ids.get(&(*call, i)).copied();
                let v = match id {
                    Some(id) if self.c.op(id) == Op::Var => {
                        let k = self.c.nodes[id as usize].aux as u32;
                        m.get(&k).copied().unwrap_or_else(|| self.c.lane_value(k, 7))
                    }
                    Some(id) => self.c.cval(id).unwrap_or(0),
                    None => 0,
                };
                b.push(v as u8);
            }
            out.push(b);
        }
        out
    }

    fn eval_model(&self, root: Id, m: &HashMap<u32, u128>, memo: &mut HashMap<Id, u128>) -> u128 {
        let mut st = vec![root];
        while let Some(&t) = st.last() {
            if memo.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = self.c.nodes[t as usize];
            if let Some(v) = self.c.cval(t) {
                memo.insert(t, v);
            } else if n.op == Op::Var {
                let k = n.aux as u32;
                memo.insert(t, m.get(&k).copied().unwrap_or_else(|| self.c.lane_value(k, 7)));
            } else {
                let mut ready = true;
                for &k in self.c.kids(t) {
                    if !memo.contains_key(&k) {
                        st.push(k);
                        ready = false;
                    }
                }
                if !ready {
                    continue;
                }
                let ks: Vec<u128> = self.c.kids(t).iter().map(|k| memo[k]).collect();
                let kw: Vec<u8> = self.c.kids(t).iter().map(|&k| self.c.w(k)).collect();
                memo.insert(t, self.c.eval_op(&n, &ks, &kw));
            }
            st.pop();
        }
        memo[&root]
    }

    fn violation(&self, s: &State, tag: &str, kind: &str, note: &str, m: &HashMap<u32, u128>) -> Stop {
        Stop::Violation(Violation {
            tag: tag.into(),
            kind: kind.into(),
            inputs: self.model_inputs(s, m),
            choices: self.made.clone(),
            note: note.into(),
        })
    }

    /// A terminal bad event was reached on this path.
    fn bad_event(&mut self, s: &mut State, tag: &str, kind: &str, note: &str) -> R<()> {
        if s.quiet {
            return Ok(());
        }
        let f = self.c.bool(false);
        if !self.havoc.is_empty() && self.touches_havoc(&s.pc, f) {
            return err(format!("{} after a step whose history is not regular ({})", kind, note));
        }
        self.refresh_lanes(s);
        if s.lanes != 0 {
            let l = s.lanes.trailing_zeros() as usize;
            let m = self.p.lane_model(&mut self.c, l);
            return Err(self.violation(s, tag, kind, note, &m));
        }
        let pcs: Vec<Id> = s.pc.clone();
        let f = self.c.bool(false);
        match self.p.prove(&mut self.c, &pcs, f) {
            Outcome::Proved(_) => Ok(()),
            Outcome::Model(m) => Err(self.violation(s, tag, kind, note, &m)),
            Outcome::Unknown(e) => err(format!("cannot decide whether {} ({}) is reachable: {}", kind, note, e)),
        }
    }

    fn where_am_i(&self, s: &State) -> String {
        let mut v = vec![];
        for f in s.frames.iter().rev().take(8) {
            v.push(self.sh.m.funcs[f.f as usize].name.clone());
        }
        v.join(" <- ")
    }

    // ---- control ----------------------------------------------------------------

    fn push_frame(&mut self, s: &mut State, f: u32, args: Vec<V>, ret_dst: u32, ret_to: u32) -> R<()> {
        let sh = self.sh;
        let fun = &sh.m.funcs[f as usize];
        if s.frames.len() > 200 {
            return err("call depth");
        }
        let obj = if fun.frame > 0 { self.alloc(s, fun.frame, false, UNINIT) } else { u32::MAX };
        let mut regs = vec![V::U; fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < fun.params.len() {
                regs[fun.params[i] as usize] = a;
            }
        }
        self.fn_seen.insert(f);
        s.frames.push(Frame { f, b: 0, ip: 0, prev: NOBLK, regs, obj, ret_dst, ret_to });
        Ok(())
    }

    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let sh = self.sh;
        let (f, from) = {
            let fr = s.frames.last().unwrap();
            (fr.f, fr.b)
        };
        let blk = &sh.m.funcs[f as usize].blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (dst, ins) in &blk.phis {
                let o = match ins.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return err("phi without edge"),
                };
                vals.push((*dst, self.op(s, o)?));
            }
            let fr = s.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.prev = from;
        fr.b = to;
        fr.ip = 0;
        if sh.fns_of_crate[f as usize] {
            self.st.blocks_crate += 1;
        }
        Ok(())
    }

    fn set(&mut self, s: &mut State, dst: u32, v: V) {
        if dst != u32::MAX {
            s.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }

    pub fn start(&mut self, f: u32) -> R<State> {
        let mut s = State {
            frames: vec![],
            objs: vec![],
            free: vec![],
            pc: vec![],
            lanes: u32::MAX,
            lanes_ver: 0,
            nany: 0,
            snaps: vec![],
            quiet: false,
            fuel: None,
            spent: 0,
            inputs: vec![],
            nchoice: 0,
            deep: vec![],
            forks: 0,
        };
        for &g in &self.sh.gmutable {
            let bytes = self.sh.gobj[g as usize].as_ref().unwrap().to_vec();
            s.objs.push(Some(Rc::new(Obj { bytes, heap: false })));
        }
        self.push_frame(&mut s, f, vec![], u32::MAX, NOBLK)?;
        Ok(s)
    }

    pub fn run_all(&mut self, f: u32) -> R<()> {
        let s = self.start(f)?;
        let done = self.run(s, 1, NOBLK)?;
        self.st.paths += done.len() as u64;
        self.st.nodes = self.c.nodes.len() as u64;
        Ok(())
    }

    /// Run a state until it reaches block `stop` in the frame at `depth`, or
    /// leaves that frame.
    fn run(&mut self, s: State, depth: usize, stop: u32) -> R<Vec<State>> {
        self.depth += 1;
        if self.depth > 400 {
            return err("nesting of symbolic branches exceeds the bound");
        }
        let mut work = vec![s];
        let mut done = vec![];
        while let Some(mut s) = work.pop() {
            let stopped = |s: &State| {
                s.frames.len() < depth
                    || (s.frames.len() == depth && stop != NOBLK && s.frames[depth - 1].b == stop && s.frames[depth - 1].ip == 0)
            };
            match self.go(&mut s, depth, stop)? {
                Step::Stopped => done.push(s),
                Step::Dead => {}
                Step::Fork(v) => {
                    self.st.forks += v.len() as u64;
                    work.extend(v);
                }
                Step::Branch(cond, tb, fb) if s.fuel.is_some() => {
                    // step-bounded exploration: every path on its own
                    self.st.forks += 1;
                    let mut s1 = s.clone();
                    let mut s2 = s;
                    let nc = self.c.not(cond);
                    self.assume(&mut s1, cond);
                    self.assume(&mut s2, nc);
                    self.jump(&mut s1, tb)?;
                    self.jump(&mut s2, fb)?;
                    for m in [s1, s2] {
                        if stopped(&m) {
                            done.push(m);
                        } else {
                            work.push(m);
                        }
                    }
                }
                Step::Branch(cond, tb, fb) => {
                    let d = s.frames.len();
                    let fr = s.frames.last().unwrap();
                    let j = self.sh.m.funcs[fr.f as usize].ipdom[fr.b as usize];
                    let plen = s.pc.len();
                    self.st.forks += 1;
                    s.forks += 1;
                    let mut s1 = s.clone();
                    let mut s2 = s;
                    let nc = self.c.not(cond);
                    self.assume(&mut s1, cond);
                    self.assume(&mut s2, nc);
                    self.jump(&mut s1, tb)?;
                    self.jump(&mut s2, fb)?;
                    let mut r = self.run_arm(s1, d, j)?;
                    r.extend(self.run_arm(s2, d, j)?);
                    for m in self.merge(plen, r)? {
                        if stopped(&m) {
                            done.push(m);
                        } else {
                            work.push(m);
                        }
                    }
                }
                Step::SwitchSym(t, w, cases, def) => {
                    let d = s.frames.len();
                    let fr = s.frames.last().unwrap();
                    let j = self.sh.m.funcs[fr.f as usize].ipdom[fr.b as usize];
                    let plen = s.pc.len();
                    let mut r = vec![];
                    let mut rest = s;
                    let mut alive = true;
                    for (k, b) in cases {
                        let kc = self.c.c(w as u8, k);
                        let e = self.c.eq(t, kc);
                        let (may, maynot) = self.decide(&mut rest, e);
                        if may {
                            let mut s1 = rest.clone();
                            self.assume(&mut s1, e);
                            self.jump(&mut s1, b)?;
                            r.extend(self.run_arm(s1, d, j)?);
                        }
                        if !maynot {
                            alive = false;
                            break;
                        }
                        let ne = self.c.not(e);
                        self.assume(&mut rest, ne);
                    }
                    if alive {
                        self.jump(&mut rest, def)?;
                        r.extend(self.run_arm(rest, d, j)?);
                    }
                    for m in self.merge(plen, r)? {
                        if stopped(&m) {
                            done.push(m);
                        } else {
                            work.push(m);
                        }
                    }
                }
                Step::Next | Step::Jump => unreachable!(),
            }
            if work.len() + done.len() > 4096 {
                return err("too many paths");
            }
        }
        self.depth -= 1;
        Ok(done)
    }

    fn run_arm(&mut self, s: State, d: usize, j: u32) -> R<Vec<State>> {
        // the arm may already be at the join block
        if j != NOBLK && s.frames[d - 1].b == j {
            return Ok(vec![s]);
        }
        self.run(s, d, j)
    }

    // ---- merging ------------------------------------------------------------------

    fn word_conflict(a: &[u32], b: &[u32]) -> bool {
        // two fully concrete, different 8-byte words that look like pointers,
        // lengths or counters are kept apart
        let val = |x: &[u32]| -> Option<u64> {
            let mut v = 0u64;
            for (i, y) in x.iter().enumerate() {
                if *y >= 256 {
                    return None;
                }
                v |= (*y as u64) << (8 * i);
            }
            Some(v)
        };
        match (val(a), val(b)) {
            (Some(x), Some(y)) => x != y && (x > 1 || y > 1) && (x < 1 << 20 || x >> 32 != 0) && (y < 1 << 20 || y >> 32 != 0),
            _ => false,
        }
    }

    fn can_merge(&self, a: &State, b: &State) -> bool {
        if a.frames.len() != b.frames.len() || a.nany != b.nany || a.nchoice != b.nchoice || a.deep.len() != b.deep.len() || a.quiet != b.quiet || a.fuel.is_some() != b.fuel.is_some() {
            return false;
        }
        if let (Some(x), Some(y)) = (a.frames.last(), b.frames.last()) {
            if x.f != y.f || x.b != y.b || x.ip != y.ip || x.obj != y.obj {
                return false;
            }
            let blk = &self.sh.m.funcs[x.f as usize].blocks[x.b as usize];
            for (i, (p, q)) in x.regs.iter().zip(y.regs.iter()).enumerate() {
                if let (V::C(p, 64), V::C(q, 64)) = (p, q) {
                    if p != q && (*p > 1 || *q > 1) {
                        let live = blk.phis.iter().any(|f| f.0 == i as u32) || x.ip > 0;
                        if live {
                            return false;
                        }
                    }
                }
            }
        }
        let n = a.objs.len().max(b.objs.len());
        for i in 0..n {
            if let (Some(Some(p)), Some(Some(q))) = (a.objs.get(i), b.objs.get(i)) {
                if Rc::ptr_eq(p, q) {
                    continue;
                }
                if p.bytes.len() != q.bytes.len() {
                    return false;
                }
                if p.bytes == q.bytes {
                    continue;
                }
                for (x, y) in p.bytes.chunks(8).zip(q.bytes.chunks(8)) {
                    if x != y && x.len() == 8 && Self::word_conflict(x, y) {
                        return false;
                    }
                }
            }
        }
        true
    }

    fn merge_v(&mut self, g: Id, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x, w), V::C(y, w2)) if x == y && w == w2 => a.clone(),
            (V::T(x), V::T(y)) if x == y => a.clone(),
            (V::U, _) | (_, V::U) => V::U,
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.merge_v(g, p, q)).collect();
                V::Agg(Rc::new(v))
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => V::U,
            _ => {
                let w = match (a, b) {
                    (V::C(_, w), _) => *w,
                    (_, V::C(_, w)) => *w,
                    (V::T(t), _) => self.c.w(*t),
                    _ => unreachable!(),
                } as u32;
                let x = self.t(a, w);
                let y = self.t(b, w);
                if self.c.w(x) != self.c.w(y) {
                    return V::U;
                }
                let t = self.c.ite(g, x, y);
                self.v(t)
            }
        }
    }

    fn merge(&mut self, plen: usize, r: Vec<State>) -> R<Vec<State>> {
        let mut out: Vec<State> = vec![];
        'next: for s in r {
            for o in out.iter_mut() {
                if self.can_merge(o, &s) {
                    self.merge_into(plen, o, s)?;
                    self.st.merges += 1;
                    continue 'next;
                }
            }
            out.push(s);
        }
        Ok(out)
    }

    fn merge_into(&mut self, plen: usize, a: &mut State, b: State) -> R<()> {
        let conj = |e: &mut Self, v: &[Id]| {
            let mut g = e.c.bool(true);
            for &x in v {
                g = e.c.and(g, x);
            }
            g
        };
        let pa = a.pc[plen.min(a.pc.len())..].to_vec();
        let pb = b.pc[plen.min(b.pc.len())..].to_vec();
        let ga = conj(self, &pa);
        let gb = conj(self, &pb);
        // prefer the shorter guard as selector
        let g = ga;
        if let Some(fb) = b.frames.last() {
            let sh = self.sh;
            let (f, blk, ip) = (fb.f, fb.b, fb.ip);
            let phis = &sh.m.funcs[f as usize].blocks[blk as usize].phis;
            let n = fb.regs.len();
            for i in 0..n {
                let x = a.frames.last().unwrap().regs[i].clone();
                let y = &fb.regs[i];
                let same = match (&x, y) {
                    (V::C(p, w), V::C(q, w2)) => p == q && w == w2,
                    (V::T(p), V::T(q)) => p == q,
                    (V::U, V::U) => true,
                    (V::Agg(p), V::Agg(q)) => Rc::ptr_eq(p, q),
                    _ => false,
                };
                if same {
                    continue;
                }
                let live = ip > 0 || phis.iter().any(|p| p.0 == i as u32);
                let v = if live { self.merge_v(g, &x, y) } else { V::U };
                a.frames.last_mut().unwrap().regs[i] = v;
            }
        }
        let n = a.objs.len().max(b.objs.len());
        a.objs.resize(n, None);
        for i in 0..n {
            let q = match b.objs.get(i) {
                Some(Some(q)) => q.clone(),
                _ => continue,
            };
            let p = match &a.objs[i] {
                None => {
                    a.objs[i] = Some(q);
                    continue;
                }
                Some(p) => p.clone(),
            };
            if Rc::ptr_eq(&p, &q) || p.bytes == q.bytes {
                continue;
            }
            let mut nb = p.bytes.clone();
            let len = nb.len();
            let mut k = 0;
            while k < len {
                if nb[k] == q.bytes[k] {
                    k += 1;
                    continue;
                }
                if nb[k] == UNINIT || q.bytes[k] == UNINIT {
                    // one side never initialised it: the other side's value will do
                    if nb[k] == UNINIT {
                        nb[k] = q.bytes[k];
                    }
                    k += 1;
                    continue;
                }
                let t = self.c.ite(g, nb[k], q.bytes[k]);
                nb[k] = t;
                k += 1;
            }
            a.objs[i] = Some(Rc::new(Obj { bytes: nb, heap: p.heap }));
        }
        a.free.clear();
        for i in (0..n).rev() {
            if a.objs[i].is_none() {
                a.free.push(i as u32);
            }
        }
        self.refresh_lanes(a);
        let mut b = b;
        self.refresh_lanes(&mut b);
        a.lanes |= b.lanes;
        a.pc.truncate(plen);
        let o = self.c.or(ga, gb);
        if self.c.cval(o) != Some(1) {
            // factor out a common conjunct when possible
            a.pc.push(o);
        }
        a.forks = a.forks.max(b.forks);
        Ok(())
    }

    // ---- substitution / concretisation ----------------------------------------------

    fn subst(&mut self, t: Id, from: Id, to: Id, memo: &mut HashMap<Id, Id>) -> Id {
        if t == from {
            return to;
        }
        if t < from {
            // children always precede parents, so `from` cannot occur below t
            return t;
        }
        if let Some(&x) = memo.get(&t) {
            return x;
        }
        let ks: Vec<Id> = self.c.kids(t).to_vec();
        let mut ch = false;
        let nk: Vec<Id> = ks
            .iter()
            .map(|&k| {
                let x = self.subst(k, from, to, memo);
                ch |= x != k;
                x
            })
            .collect();
        let r = if ch { self.c.rebuild(t, &nk) } else { t };
        memo.insert(t, r);
        r
    }

    fn subst_state(&mut self, s: &mut State, from: Id, to: Id) {
        let mut memo = HashMap::new();
        fn go(e: &mut Exec, v: &V, from: Id, to: Id, memo: &mut HashMap<Id, Id>) -> Option<V> {
            match v {
                V::T(t) => {
                    let x = e.subst(*t, from, to, memo);
                    if x != *t {
                        Some(e.v(x))
                    } else {
                        None
                    }
                }
                V::Agg(a) => {
                    let mut ch = false;
                    let n: Vec<V> = a
                        .iter()
                        .map(|x| match go(e, x, from, to, memo) {
                            Some(y) => {
                                ch = true;
                                y
                            }
                            None => x.clone(),
                        })
                        .collect();
                    if ch {
                        Some(V::Agg(Rc::new(n)))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        }
        for fi in 0..s.frames.len() {
            for ri in 0..s.frames[fi].regs.len() {
                let v = s.frames[fi].regs[ri].clone();
                if let Some(n) = go(self, &v, from, to, &mut memo) {
                    s.frames[fi].regs[ri] = n;
                }
            }
        }
        for i in 0..s.objs.len() {
            if let Some(o) = s.objs[i].clone() {
                let mut nb: Option<Vec<u32>> = None;
                for (k, &b) in o.bytes.iter().enumerate() {
                    if b >= 256 && b != UNINIT {
                        let x = self.subst(b, from, to, &mut memo);
                        if x != b {
                            nb.get_or_insert_with(|| o.bytes.clone())[k] = x;
                        }
                    }
                }
                if let Some(b) = nb {
                    s.objs[i] = Some(Rc::new(Obj { bytes: b, heap: o.heap }));
                }
            }
        }
    }

    /// Fork the state over the feasible values of a small selector.
    fn fork_on(&mut self, s: &State, sel: Id, vals: &[u128]) -> R<Vec<State>> {
        let mut out = vec![];
        let w = self.c.w(sel);
        for &v in vals {
            let k = self.c.c(w, v);
            let g = self.c.eq(sel, k);
            let mut s0 = s.clone();
            let (may, _) = self.decide(&mut s0, g);
            if !may {
                continue;
            }
            self.assume(&mut s0, g);
            self.subst_state(&mut s0, sel, k);
            out.push(s0);
        }
        self.st.concretised += 1;
        Ok(out)
    }

    /// Make a value concrete, forking if necessary.
    fn concretise(&mut self, s: &State, v: &V, w: u32) -> R<Result<u64, Vec<State>>> {
        match v {
            V::C(x, _) => return Ok(Ok(*x)),
            V::T(t0) => {
                let mut t = *t0;
                let mut e = self.enum_values(t, 4096);
                if e.is_none() {
                    t = self.p.simplify(&mut self.c, *t0);
                    if let Some(v) = self.c.cval(t) {
                        return Ok(Ok(v as u64));
                    }
                    e = self.enum_values(t, 4096);
                    if e.is_some() && t != *t0 {
                        // continue with the simpler form
                        let mut s2 = s.clone();
                        self.subst_state(&mut s2, *t0, t);
                        return Ok(Err(vec![s2]));
                    }
                }
                if let Some((sel, cases)) = e {
                    if sel.len() == 1 || cases.len() <= 64 {
                        let k = sel[0];
                        let mut vals: Vec<u128> = cases.iter().map(|x| x.0[0]).collect();
                        vals.sort_unstable();
                        vals.dedup();
                        return Ok(Err(self.fork_on(s, k, &vals)?));
                    }
                }
                let _ = w;
                if let Some(vs) = self.solved_values(s, t, 64) {
                    return Ok(Err(self.fork_on(s, t, &vs)?));
                }
                err("DEEP: unbounded symbolic size")
            }
            _ => err("undefined value where a concrete one is needed"),
        }
    }

    /// Values of a selector that the path condition bounds syntactically.
    fn pc_bound(&mut self, s: &State, sel: Id) -> Option<(u128, u128)> {
        let mut r = self.c.range(sel);
        for &p in &s.pc {
            let mut q = p;
            let mut neg = false;
            if self.c.op(q) == Op::Not {
                q = self.c.kid(q, 0);
                neg = true;
            }
            match self.c.op(q) {
                Op::Ult => {
                    let (a, b) = (self.c.kid(q, 0), self.c.kid(q, 1));
                    if a == sel {
                        if let Some(k) = self.c.cval(b) {
                            if !neg {
                                r.1 = r.1.min(k.saturating_sub(1));
                            } else {
                                r.0 = r.0.max(k);
                            }
                        }
                    }
                    if b == sel {
                        if let Some(k) = self.c.cval(a) {
                            if !neg {
                                r.0 = r.0.max(k + 1);
                            } else {
                                r.1 = r.1.min(k);
                            }
                        }
                    }
                }
                Op::Eq if !neg => {
                    let (a, b) = (self.c.kid(q, 0), self.c.kid(q, 1));
                    for (x, y) in [(a, b), (b, a)] {
                        if let Some(k) = self.c.cval(y) {
                            // extract(sel, n, rest) == 0
                            if self.c.op(x) == Op::Extract && self.c.kid(x, 0) == sel && k == 0 {
                                let lo = self.c.nodes[x as usize].aux as u32;
                                if lo + self.c.w(x) as u32 == self.c.w(sel) as u32 {
                                    r.1 = r.1.min((1u128 << lo) - 1);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if r.1 < r.0 {
            return None;
        }
        Some(r)
    }

    /// A two-way symbolic branch on a small, bounded quantity (a length or an
    /// offset) is turned into a fork over its values.
    fn branch_small(&mut self, s: &State, cond: Id) -> R<Option<Vec<State>>> {
        let mut q = cond;
        if self.c.op(q) == Op::Not {
            q = self.c.kid(q, 0);
        }
        if !matches!(self.c.op(q), Op::Eq | Op::Ult | Op::Slt) {
            return Ok(None);
        }
        for i in 0..2 {
            let x = self.c.kid(q, i);
            let mut sel = vec![];
            if !self.selectors(x, &mut sel, 0) {
                continue;
            }
            for k in sel {
                if self.c.w(k) < 3 {
                    continue;
                }
                if let Some((lo, hi)) = self.pc_bound(s, k) {
                    if hi - lo >= 2 && hi - lo < 40 {
                        let vals: Vec<u128> = (lo..=hi).collect();
                        let v = self.fork_on(s, k, &vals)?;
                        if v.len() > 2 {
                            return Ok(Some(v));
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    fn go(&mut self, s: &mut State, depth: usize, stop: u32) -> R<Step> {
        loop {
            if let Some(f) = s.fuel {
                s.spent += 1;
                if f == 0 {
                    *self.st.covers.entry("beyond the step bound".into()).or_insert(0) += 1;
                    return Ok(Step::Dead);
                }
                s.fuel = Some(f - 1);
            }
            match self.step(s)? {
                Step::Next => {
                    s.frames.last_mut().unwrap().ip += 1;
                }
                Step::Jump => {
                    if self.skip.is_some() {
                        self.skip_hook(s);
                    }
                    let n = s.frames.len();
                    if n < depth {
                        return Ok(Step::Stopped);
                    }
                    if n == depth && stop != NOBLK {
                        let f = &s.frames[n - 1];
                        if f.b == stop && f.ip == 0 {
                            return Ok(Step::Stopped);
                        }
                    }
                }
                x => return Ok(x),
            }
        }
    }

    fn branch(&mut self, s: &mut State, v: &V, tb: u32, fb: u32) -> R<Step> {
        match v {
            V::C(x, _) => {
                self.jump(s, if *x & 1 == 1 { tb } else { fb })?;
                Ok(Step::Jump)
            }
            V::T(t0) => {
                let mut t = *t0;
                let mut d = self.decide(s, t);
                if d == (true, true) {
                    // try the proved normal form before splitting
                    let t2 = self.p.simplify(&mut self.c, t);
                    if t2 != t {
                        t = t2;
                        d = self.decide(s, t);
                    }
                }
                match d {
                    (true, false) => {
                        self.jump(s, tb)?;
                        Ok(Step::Jump)
                    }
                    (false, true) => {
                        self.jump(s, fb)?;
                        Ok(Step::Jump)
                    }
                    (false, false) => Ok(Step::Dead),
                    (true, true) => {
                        if let Some(v) = self.branch_small(s, t)? {
                            // the instruction is re-executed with the selector fixed
                            let mut out = vec![];
                            for mut x in v {
                                let _ = &mut x;
                                out.push(x);
                            }
                            return Ok(Step::Fork(out));
                        }
                        Ok(Step::Branch(t, tb, fb))
                    }
                }
            }
            _ => err(format!("branch on undefined value in {}", self.where_am_i(s))),
        }
    }

    fn ret(&mut self, s: &mut State, v: V) -> R<Step> {
        let fr = s.frames.pop().unwrap();
        if fr.obj != u32::MAX {
            self.free_obj(s, fr.obj);
        }
        if s.frames.is_empty() {
            return Ok(Step::Stopped);
        }
        self.set(s, fr.ret_dst, v);
        if fr.ret_to != NOBLK {
            self.jump(s, fr.ret_to)?;
        } else {
            s.frames.last_mut().unwrap().ip += 1;
        }
        Ok(Step::Jump)
    }

    fn step(&mut self, s: &mut State) -> R<Step> {
        let sh = self.sh;
        let fr = s.frames.last().unwrap();
        let fun = &sh.m.funcs[fr.f as usize];
        let ins = &fun.blocks[fr.b as usize].ins[fr.ip as usize];
        let dst = ins.dst;
        self.st.instrs += 1;
        if self.st.instrs > self.max_instrs {
            return err("instruction budget exceeded");
        }
        if self.st.instrs & 0xfff == 0 {
            if self.cancel.map_or(false, |c| c.load(std::sync::atomic::Ordering::Relaxed)) {
                return err("cancelled: enough violations found");
            }
            if let Some(d) = self.deadline {
                if std::time::Instant::now() > d {
                    return err("time budget exceeded");
                }
            }
        }
        match &ins.i {
            I::Load(ty, a) => {
                let a = self.op(s, a)?;
                let v = match self.load(s, ty, &a) {
                    Ok(v) => v,
                    Err(Stop::Err(e)) => return err(format!("{} in {}", e, self.where_am_i(s))),
                    Err(e) => return Err(e),
                };
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::Store(ty, v, a) => {
                let v = self.op(s, v)?;
                let a = self.op(s, a)?;
                match self.store(s, ty, &v, &a) {
                    Ok(()) => Ok(Step::Next),
                    Err(Stop::Err(e)) => err(format!("{} in {}", e, self.where_am_i(s))),
                    Err(e) => Err(e),
                }
            }
            I::Alloca(off) => {
                let o = s.frames.last().unwrap().obj;
                self.set(s, dst, V::C(Self::addr_of(o) + off, 64));
                Ok(Step::Next)
            }
            I::Gep(b, vars, off) => {
                let base = self.op(s, b)?;
                let mut conc = *off as u64;
                let mut sym: Option<Id> = None;
                for (w, o, stride) in vars {
                    match self.op(s, o)? {
                        V::C(x, _) => conc = conc.wrapping_add((sx(x, *w) as u64).wrapping_mul(*stride)),
                        V::U => return err("gep with undefined index"),
                        v => {
                            let t = self.t(&v, *w);
                            let t = self.c.sext(t, 64);
                            let k = self.c.c(64, *stride as u128);
                            let t = self.c.mul(t, k);
                            sym = Some(match sym {
                                None => t,
                                Some(x) => self.c.add(x, t),
                            });
                        }
                    }
                }
                let v = match (base, sym) {
                    (V::C(x, _), None) => V::C(x.wrapping_add(conc), 64),
                    (V::U, _) => return err("gep on undefined pointer"),
                    (b, sym) => {
                        let mut t = self.t(&b, 64);
                        if let Some(x) = sym {
                            t = self.c.add(t, x);
                        }
                        let k = self.c.c(64, conc as u128);
                        t = self.c.add(t, k);
                        self.v(t)
                    }
                };
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::Bin(op, w, a, b) => {
                let a = self.op(s, a)?;
                let b = self.op(s, b)?;
                let v = self.bin(*op, *w, a, b)?;
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::ICmp(p, w, a, b) => {
                let a = self.op(s, a)?;
                let b = self.op(s, b)?;
                let v = self.icmp(*p, *w, a, b)?;
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::Cast(k, f, t, a) => {
                let a = self.op(s, a)?;
                let v = match (k, &a) {
                    (_, V::U) => V::U,
                    (Cast::Same, _) => a,
                    (Cast::Trunc, V::C(x, _)) => V::C(x & cw(*t), *t as u8),
                    (Cast::ZExt, V::C(x, _)) if *t <= 64 => V::C(*x, *t as u8),
                    (Cast::SExt, V::C(x, _)) if *t <= 64 => V::C(sx(*x, *f) as u64 & cw(*t), *t as u8),
                    _ => {
                        let x = self.t(&a, *f);
                        let r = match k {
                            Cast::Trunc => self.c.extract(x, 0, *t as u8),
                            Cast::ZExt => self.c.zext(x, *t as u8),
                            Cast::SExt => self.c.sext(x, *t as u8),
                            Cast::Same => x,
                        };
                        self.v(r)
                    }
                };
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::Select(c, a, b) => {
                let c = self.op(s, c)?;
                let a = self.op(s, a)?;
                let b = self.op(s, b)?;
                let v = match c {
                    V::C(x, _) => {
                        if x & 1 == 1 {
                            a
                        } else {
                            b
                        }
                    }
                    V::T(t) => self.merge_v(t, &a, &b),
                    _ => return err("select on undefined value"),
                };
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::Freeze(a) => {
                let v = self.op(s, a)?;
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.op(s, a)?;
                for i in ix {
                    v = match &v {
                        V::Agg(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        _ => return err("extractvalue"),
                    };
                }
                self.set(s, dst, v);
                Ok(Step::Next)
            }
            I::InsertValue(ty, a, x, ix) => {
                let mut v = self.op(s, a)?;
                if let V::U = v {
                    v = self.undef(ty);
                }
                let x = self.op(s, x)?;
                fn ins(v: &V, ix: &[u32], x: V) -> Option<V> {
                    if ix.is_empty() {
                        return Some(x);
                    }
                    match v {
                        V::Agg(a) => {
                            let mut n = (**a).clone();
                            n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], x)?;
                            Some(V::Agg(Rc::new(n)))
                        }
                        _ => None,
                    }
                }
                match ins(&v, ix, x) {
                    Some(v) => self.set(s, dst, v),
                    None => return err("insertvalue"),
                }
                Ok(Step::Next)
            }
            I::Br(b) => {
                self.jump(s, *b)?;
                Ok(Step::Jump)
            }
            I::CondBr(c, tb, fb) => {
                let c = self.op(s, c)?;
                self.branch(s, &c, *tb, *fb)
            }
            I::Switch(w, c, d, cases) => {
                let c = self.op(s, c)?;
                match c {
                    V::C(x, _) => {
                        let to = cases.iter().find(|k| k.0 as u64 == x).map(|k| k.1).unwrap_or(*d);
                        self.jump(s, to)?;
                        Ok(Step::Jump)
                    }
                    V::T(t) => {
                        let t2 = self.p.simplify(&mut self.c, t);
                        if let Some(x) = self.c.cval(t2) {
                            let to = cases.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*d);
                            self.jump(s, to)?;
                            return Ok(Step::Jump);
                        }
                        Ok(Step::SwitchSym(t2, *w, cases.clone(), *d))
                    }
                    _ => err("switch on undefined value"),
                }
            }
            I::Ret(v) => {
                let v = match v {
                    Some(v) => self.op(s, v)?,
                    None => V::U,
                };
                self.ret(s, v)
            }
            I::Unreachable => {
                let w = self.where_am_i(s);
                self.bad_event(s, "unreachable", "unreachable", &w)?;
                Ok(Step::Dead)
            }
            I::Nop => Ok(Step::Next),
            I::Rmw(k, w, a, v) => {
                let a = self.op(s, a)?;
                let v = self.op(s, v)?;
                let ty = Ty::Int(*w);
                let old = self.load(s, &ty, &a)?;
                let nv = match k.as_str() {
                    "add" => self.bin(Bin::Add, *w, old.clone(), v)?,
                    "sub" => self.bin(Bin::Sub, *w, old.clone(), v)?,
                    "and" => self.bin(Bin::And, *w, old.clone(), v)?,
                    "or" => self.bin(Bin::Or, *w, old.clone(), v)?,
                    "xor" => self.bin(Bin::Xor, *w, old.clone(), v)?,
                    "xchg" => v,
                    _ => return err(format!("atomicrmw {}", k)),
                };
                self.store(s, &ty, &nv, &a)?;
                self.set(s, dst, old);
                Ok(Step::Next)
            }
            I::CmpXchg(w, a, cmp, new) => {
                let ty = Ty::Int(*w);
                let a = self.op(s, a)?;
                let cmp = self.op(s, cmp)?;
                let new = self.op(s, new)?;
                let old = self.load(s, &ty, &a)?;
                let (o, k, n) = (self.t(&old, *w), self.t(&cmp, *w), self.t(&new, *w));
                let e = self.c.eq(o, k);
                let r = self.c.ite(e, n, o);
                let r = self.v(r);
                self.store(s, &ty, &r, &a)?;
                let e = self.v(e);
                self.set(s, dst, V::Agg(Rc::new(vec![old, e])));
                Ok(Step::Next)
            }
            I::Unsupported(t) => err(format!("unsupported instruction `{}` in {}", t, self.where_am_i(s))),
            I::Call(callee, args, rt, normal) => {
                let cv = match callee {
                    Opnd::Global(g) => V::C(sh.gaddr[*g as usize], 64),
                    o => self.op(s, o)?,
                };
                let fa = match self.concretise(s, &cv, 64)? {
                    Ok(x) => x,
                    Err(v) => return Ok(Step::Fork(v)),
                };
                let idx = fa >> 32;
                if idx < FUNC0 || (idx - FUNC0) as usize >= sh.m.funcs.len() {
                    return err(format!("call to {:#x} in {}", fa, self.where_am_i(s)));
                }
                let fi = (idx - FUNC0) as u32;
                let callee = &sh.m.funcs[fi as usize];
                let mut vals = Vec::with_capacity(args.len());
                for a in args {
                    vals.push(match a {
                        Opnd::Bad(_) => V::U,
                        a => self.op(s, a)?,
                    });
                }
                if callee.is_panic {
                    let w = format!("{} <- {}", callee.name, self.where_am_i(s));
                    self.bad_event(s, "panic", "panic", &w)?;
                    return Ok(Step::Dead);
                }
                if callee.defined && !intercept(&callee.name) {
                    self.push_frame(s, fi, vals, dst, normal.unwrap_or(NOBLK))?;
                    return Ok(Step::Jump);
                }
                let name = callee.name.clone();
                match self.builtin(s, &name, vals, rt)? {
                    Ok(v) => {
                        self.set(s, dst, v);
                        if let Some(n) = normal {
                            self.jump(s, *n)?;
                            Ok(Step::Jump)
                        } else {
                            Ok(Step::Next)
                        }
                    }
                    Err(st) => Ok(st),
                }
            }
        }
    }

    fn bin(&mut self, op: Bin, w: u32, a: V, b: V) -> R<V> {
        if let (V::C(x, _), V::C(y, _)) = (&a, &b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return err("division by zero"),
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                    Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                };
                return Ok(V::C(r & cw(w), w as u8));
            }
        }
        if let (V::U, V::U) = (&a, &b) {
            return Ok(V::U);
        }
        let x = self.t(&a, w);
        let y = self.t(&b, w);
        let c = &mut self.c;
        let r = match op {
            Bin::Add => c.add(x, y),
            Bin::Sub => c.sub(x, y),
            Bin::Mul => c.mul(x, y),
            Bin::And => c.and(x, y),
            Bin::Or => c.or(x, y),
            Bin::Xor => c.xor(x, y),
            Bin::Shl => c.shl(x, y),
            Bin::LShr => c.lshr(x, y),
            Bin::AShr => c.ashr(x, y),
            Bin::UDiv => c.udiv(x, y),
            Bin::URem => c.urem(x, y),
            Bin::SDiv => c.sdiv(x, y),
            Bin::SRem => c.srem(x, y),
        };
        Ok(self.v(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> R<V> {
        if let (V::C(x, _), V::C(y, _)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let (sxx, syy) = (sx(x, w.min(64)), sx(y, w.min(64)));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxx > syy,
                Pred::Sge => sxx >= syy,
                Pred::Slt => sxx < syy,
                Pred::Sle => sxx <= syy,
            };
            return Ok(V::C(r as u64, 1));
        }
        let x = self.t(&a, w);
        let y = self.t(&b, w);
        let c = &mut self.c;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => {
                let e = c.slt(x, y);
                c.not(e)
            }
            Pred::Slt => c.slt(x, y),
            Pred::Sle => {
                let e = c.slt(y, x);
                c.not(e)
            }
        };
        Ok(self.v(r))
    }

    // ---- runtime, intrinsics, harness interface ------------------------------------

    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let b = match self.bytes(s, src, n) {
            Ok(b) => b.to_vec(),
            Err(Stop::Err(e)) => return err(format!("{} in {}", e, self.where_am_i(s))),
            Err(e) => return Err(e),
        };
        match self.bytes_mut(s, d, n) {
            Ok(x) => x.copy_from_slice(&b),
            Err(Stop::Err(e)) => return err(format!("{} in {}", e, self.where_am_i(s))),
            Err(e) => return Err(e),
        }
        Ok(())
    }

    /// Concretise several values at once; forks re-execute the instruction.
    fn conc_all(&mut self, s: &State, vs: &[(&V, u32)]) -> R<Result<Vec<u64>, Vec<State>>> {
        let mut o = vec![];
        for (v, w) in vs {
            match self.concretise(s, v, *w)? {
                Ok(x) => o.push(x),
                Err(f) => return Ok(Err(f)),
            }
        }
        Ok(Ok(o))
    }

    fn builtin(&mut self, s: &mut State, name: &str, a: Vec<V>, rt: &Ty) -> R<Result<V, Step>> {
        macro_rules! conc {
            ($($x:expr),*) => {{
                let r = self.conc_all(s, &[$((&$x, 64)),*]);
                match r {
                    Ok(Ok(v)) => v,
                    Ok(Err(f)) => return Ok(Err(Step::Fork(f))),
                    Err(Stop::Err(e)) if e.starts_with("DEEP") => return self.deep_event(s, name),
                    Err(e) => return Err(e),
                }
            }};
        }
        let un = Ok(Ok(V::U));
        if let Some(n) = name.strip_prefix("llvm.") {
            if n.starts_with("lifetime")
                || n.starts_with("dbg")
                || n.starts_with("assume")
                || n.starts_with("experimental.noalias")
                || n.starts_with("donothing")
                || n.starts_with("prefetch")
                || n.starts_with("sideeffect")
                || n.starts_with("x86.sse2.pause")
                || n.starts_with("invariant")
            {
                return un;
            }
            if n.starts_with("memcpy") || n.starts_with("memmove") {
                // symbolic source or destination with a concrete length
                let len = conc!(a[2])[0];
                if let (V::C(d, _), V::C(x, _)) = (&a[0], &a[1]) {
                    self.copy(s, *d, *x, len)?;
                    return un;
                }
                let i8t = Ty::Int(8);
                let mut tmp = vec![];
                for k in 0..len {
                    let p = self.bin(Bin::Add, 64, a[1].clone(), V::C(k, 64))?;
                    tmp.push(self.load(s, &i8t, &p)?);
                }
                for (k, v) in tmp.iter().enumerate() {
                    let p = self.bin(Bin::Add, 64, a[0].clone(), V::C(k as u64, 64))?;
                    self.store(s, &i8t, v, &p)?;
                }
                return un;
            }
            if n.starts_with("memset") {
                let x = conc!(a[0], a[2]);
                let b = self.t(&a[1], 8);
                if x[1] > 0 {
                    self.bytes_mut(s, x[0], x[1])?.fill(b);
                }
                return un;
            }
            if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("ssa.copy") || n.starts_with("launder") {
                return Ok(Ok(a[0].clone()));
            }
            if n.starts_with("is.constant") {
                return Ok(Ok(V::C(0, 1)));
            }
            if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") {
                let w = self.where_am_i(s);
                self.bad_event(s, "panic", "trap", &w)?;
                return Ok(Err(Step::Dead));
            }
            let w = match rt {
                Ty::Int(w) => *w,
                Ty::Struct(f, _) => f[0].bits().unwrap_or(64),
                _ => 64,
            };
            let sl: Vec<&str> = n.split('.').collect();
            let key = if sl.len() >= 3 { format!("{}.{}", sl[0], sl[1]) } else { sl[0].to_string() };
            if w > 64 && sl[0] != "umul" {
                // wide variants are handled on terms below where supported
            }
            match key.as_str() {
                "umax" | "umin" | "smax" | "smin" => {
                    let p = match key.as_str() {
                        "umax" => Pred::Ugt,
                        "umin" => Pred::Ult,
                        "smax" => Pred::Sgt,
                        _ => Pred::Slt,
                    };
                    let c = self.icmp(p, w, a[0].clone(), a[1].clone())?;
                    let v = match c {
                        V::C(1, _) => a[0].clone(),
                        V::C(_, _) => a[1].clone(),
                        V::T(t) => self.merge_v(t, &a[0], &a[1]),
                        _ => V::U,
                    };
                    return Ok(Ok(v));
                }
                "uadd.sat" | "usub.sat" => {
                    let x = self.t(&a[0], w);
                    let y = self.t(&a[1], w);
                    let r = if key == "uadd.sat" {
                        let sum = self.c.add(x, y);
                        let ov = self.c.ult(sum, x);
                        let m = self.c.c(w as u8, u128::MAX);
                        self.c.ite(ov, m, sum)
                    } else {
                        let d = self.c.sub(x, y);
                        let ov = self.c.ult(x, y);
                        let z = self.c.c(w as u8, 0);
                        self.c.ite(ov, z, d)
                    };
                    return Ok(Ok(self.v(r)));
                }
                "uadd.with" | "usub.with" | "sadd.with" | "ssub.with" | "umul.with" | "smul.with" => {
                    let x = self.t(&a[0], w);
                    let y = self.t(&a[1], w);
                    let c = &mut self.c;
                    let w8 = w as u8;
                    let (r, o) = match key.as_str() {
                        "uadd.with" => {
                            let r = c.add(x, y);
                            let (rx, ry) = (c.range(x), c.range(y));
                            let o = if rx.1.checked_add(ry.1).map_or(false, |m| m <= maskw(w8)) {
                                c.bool(false)
                            } else {
                                c.ult(r, x)
                            };
                            (r, o)
                        }
                        "usub.with" => {
                            let r = c.sub(x, y);
                            let o = c.ult(x, y);
                            (r, o)
                        }
                        "sadd.with" | "ssub.with" | "smul.with" => {
                            if w > 63 && key == "smul.with" && !(c.cval(x).is_some() && c.cval(y).is_some()) {
                                return err("smul.with.overflow");
                            }
                            let ww = if key == "smul.with" { (2 * w8 as u32).min(128) as u8 } else { w8 + 1 };
                            let (xx, yy) = (c.sext(x, ww), c.sext(y, ww));
                            let r2 = match key.as_str() {
                                "sadd.with" => c.add(xx, yy),
                                "ssub.with" => c.sub(xx, yy),
                                _ => c.mul(xx, yy),
                            };
                            let r = c.extract(r2, 0, w8);
                            let back = c.sext(r, ww);
                            let e = c.eq(back, r2);
                            (r, c.not(e))
                        }
                        _ => {
                            let r = c.mul(x, y);
                            let (rx, ry) = (c.range(x), c.range(y));
                            let o = if rx.1.checked_mul(ry.1).map_or(false, |m| m <= maskw(w8)) {
                                c.bool(false)
                            } else if w <= 64 {
                                let (xx, yy) = (c.zext(x, 2 * w8), c.zext(y, 2 * w8));
                                let p = c.mul(xx, yy);
                                let hi = c.extract(p, w8, w8);
                                let z = c.c(w8, 0);
                                let e = c.eq(hi, z);
                                c.not(e)
                            } else {
                                return err("umul.with.overflow.i128");
                            };
                            (r, o)
                        }
                    };
                    let v = V::Agg(Rc::new(vec![self.v(r), self.v(o)]));
                    return Ok(Ok(v));
                }
                "bswap" => {
                    let x = self.t(&a[0], w);
                    let parts: Vec<Id> = (0..w / 8).map(|i| self.c.extract(x, (8 * i) as u8, 8)).collect();
                    let r = self.c.concat(&parts);
                    return Ok(Ok(self.v(r)));
                }
                "bitreverse" => {
                    let x = self.t(&a[0], w);
                    let parts: Vec<Id> = (0..w).map(|i| self.c.extract(x, i as u8, 1)).collect();
                    let r = self.c.concat(&parts);
                    return Ok(Ok(self.v(r)));
                }
                "fshl" | "fshr" => {
                    let x = self.t(&a[0], w);
                    let y = self.t(&a[1], w);
                    if let V::C(k, _) = a[2] {
                        let k = (k % w as u64) as u32;
                        let k = if key == "fshl" { k } else { (w - k) % w };
                        if k == 0 {
                            let r = if key == "fshl" { x } else { y };
                            return Ok(Ok(self.v(r)));
                        }
                        let hi = self.c.extract(x, 0, (w - k) as u8);
                        let lo = self.c.extract(y, (w - k) as u8, k as u8);
                        let r = self.c.concat(&[hi, lo]);
                        return Ok(Ok(self.v(r)));
                    }
                    // symbolic amount (power-of-two width): (x << (k%w)) | (y >> 1 >> (w-1-k%w))
                    let k = self.t(&a[2], w);
                    let m = self.c.c(w as u8, w as u128 - 1);
                    let k = self.c.and(k, m);
                    let inv = self.c.sub(m, k);
                    let one = self.c.c(w as u8, 1);
                    let r = if key == "fshl" {
                        let l = self.c.shl(x, k);
                        let h = self.c.lshr(y, one);
                        let h = self.c.lshr(h, inv);
                        self.c.or(l, h)
                    } else {
                        let h = self.c.lshr(y, k);
                        let l = self.c.shl(x, one);
                        let l = self.c.shl(l, inv);
                        self.c.or(l, h)
                    };
                    return Ok(Ok(self.v(r)));
                }
                "ctpop" | "ctlz" | "cttz" => {
                    if let V::C(x, _) = a[0] {
                        let r = match key.as_str() {
                            "ctpop" => x.count_ones(),
                            "ctlz" => x.leading_zeros() - (64 - w),
                            _ => x.trailing_zeros().min(w),
                        };
                        return Ok(Ok(V::C(r as u64, w as u8)));
                    }
                    let x = self.t(&a[0], w);
                    let c = &mut self.c;
                    let w8 = w as u8;
                    let r = if key == "ctpop" {
                        let mut acc = c.c(w8, 0);
                        for i in 0..w8 {
                            let b = c.extract(x, i, 1);
                            let b = c.zext(b, w8);
                            acc = c.add(acc, b);
                        }
                        acc
                    } else {
                        let mut acc = c.c(w8, w as u128);
                        for i in 0..w8 {
                            // last assignment wins: nearest bit
                            let (bit, cnt) = if key == "ctlz" { (i, w8 - 1 - i) } else { (w8 - 1 - i, w8 - 1 - i) };
                            let b = c.extract(x, bit, 1);
                            let k = c.c(w8, cnt as u128);
                            acc = c.ite(b, k, acc);
                        }
                        acc
                    };
                    return Ok(Ok(self.v(r)));
                }
                "abs" => {
                    let x = self.t(&a[0], w);
                    let z = self.c.c(w as u8, 0);
                    let n = self.c.sub(z, x);
                    let neg = self.c.slt(x, z);
                    let r = self.c.ite(neg, n, x);
                    return Ok(Ok(self.v(r)));
                }
                "ucmp.i8" | "scmp.i8" | "ucmp" | "scmp" => {
                    let ww = match (&a[0], &a[1]) {
                        (V::C(_, w), _) | (_, V::C(_, w)) => *w as u32,
                        (V::T(t), _) => self.c.w(*t) as u32,
                        _ => return err("cmp"),
                    };
                    let (lt, gt) = if key.starts_with('u') { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                    let l = self.icmp(lt, ww, a[0].clone(), a[1].clone())?;
                    let g = self.icmp(gt, ww, a[0].clone(), a[1].clone())?;
                    let l = self.t(&l, 1);
                    let g = self.t(&g, 1);
                    let (m1, z, p1) = (self.c.c(w as u8, u128::MAX), self.c.c(w as u8, 0), self.c.c(w as u8, 1));
                    let r = self.c.ite(g, p1, z);
                    let r = self.c.ite(l, m1, r);
                    return Ok(Ok(self.v(r)));
                }
                _ => return err(format!("intrinsic {} in {}", name, self.where_am_i(s))),
            }
        }
        match name {
            "malloc" | "calloc" | "posix_memalign" | "aligned_alloc" => {
                let n = match name {
                    "malloc" => conc!(a[0])[0],
                    "calloc" => {
                        let x = conc!(a[0], a[1]);
                        x[0].wrapping_mul(x[1])
                    }
                    "aligned_alloc" => conc!(a[1])[0],
                    _ => conc!(a[2])[0],
                };
                if n > 1 << 28 {
                    return self.deep_event(s, name);
                }
                let o = self.alloc(s, n, true, if name == "calloc" { 0 } else { UNINIT });
                let p = V::C(Self::addr_of(o), 64);
                if name == "posix_memalign" {
                    self.store(s, &Ty::Ptr, &p, &a[0])?;
                    return Ok(Ok(V::C(0, 32)));
                }
                Ok(Ok(p))
            }
            "realloc" => {
                let x = conc!(a[0], a[1]);
                let o = self.alloc(s, x[1], true, UNINIT);
                if x[0] != 0 {
                    let old = (x[0] >> 32) - OBJ0;
                    let len = match &s.objs[old as usize] {
                        Some(o) => o.bytes.len() as u64,
                        None => return err("realloc of a dead object"),
                    };
                    self.copy(s, Self::addr_of(o), x[0], len.min(x[1]))?;
                    self.free_obj(s, old as u32);
                }
                Ok(Ok(V::C(Self::addr_of(o), 64)))
            }
            "free" => {
                let x = conc!(a[0])[0];
                if x != 0 {
                    let i = (x >> 32).wrapping_sub(OBJ0);
                    match s.objs.get(i as usize) {
                        Some(Some(o)) if o.heap && x & 0xffff_ffff == 0 => self.free_obj(s, i as u32),
                        _ => return err(format!("invalid free in {}", self.where_am_i(s))),
                    }
                }
                un
            }
            "memcpy" | "memmove" => {
                let x = conc!(a[0], a[1], a[2]);
                self.copy(s, x[0], x[1], x[2])?;
                Ok(Ok(a[0].clone()))
            }
            "memset" => {
                let x = conc!(a[0], a[2]);
                let b = self.t(&a[1], 32);
                let b = self.c.extract(b, 0, 8);
                self.bytes_mut(s, x[0], x[1])?.fill(b);
                Ok(Ok(a[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let x = conc!(a[0], a[1], a[2]);
                let (p, q) = if x[2] == 0 {
                    (vec![], vec![])
                } else {
                    (self.bytes(s, x[0], x[2])?.to_vec(), self.bytes(s, x[1], x[2])?.to_vec())
                };
                let mut r = self.c.c(32, 0);
                for (&u, &v) in p.iter().zip(q.iter()).rev() {
                    if u == UNINIT || v == UNINIT {
                        return err("comparison of uninitialised memory");
                    }
                    let e = self.c.eq(u, v);
                    if name == "bcmp" {
                        let one = self.c.c(32, 1);
                        r = self.c.ite(e, r, one);
                    } else {
                        let uu = self.c.zext(u, 32);
                        let vv = self.c.zext(v, 32);
                        let d = self.c.sub(uu, vv);
                        r = self.c.ite(e, r, d);
                    }
                }
                Ok(Ok(self.v(r)))
            }
            // what thread-locals and hash seeds need of the C library
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" => Ok(Ok(V::C(0, 32))),
            "pthread_key_create" => {
                let x = conc!(a[0]);
                self.bytes_mut(s, x[0], 4)?.copy_from_slice(&[1, 0, 0, 0]);
                Ok(Ok(V::C(0, 32)))
            }
            "gettid" => Ok(Ok(V::C(1, 32))),
            "getenv" => Ok(Ok(V::C(0, 64))),
            "write" => Ok(Ok(a[2].clone())),
            "syscall" if matches!(a[0], V::C(318, _)) => {
                let x = conc!(a[1], a[2]);
                for b in self.bytes_mut(s, x[0], x[1])? {
                    *b = 0x5a;
                }
                Ok(Ok(V::C(x[1], 64)))
            }
            "strlen" => {
                let mut x = conc!(a[0])[0];
                let mut n = 0;
                loop {
                    let b = self.bytes(s, x, 1)?[0];
                    if b == 0 {
                        return Ok(Ok(V::C(n, 64)));
                    }
                    if b >= 256 {
                        return err("strlen of symbolic data");
                    }
                    n += 1;
                    x += 1;
                }
            }
            // ---- harness interface
            "verif_any" => {
                let x = conc!(a[0], a[1]);
                let call = s.nany;
                s.nany += 1;
                for i in 0..x[1] as u32 {
                    let id = match self.any_ids.get(&(call, i)) {
                        Some(&id) => id,
                        None => {
                            let id = if let Some(cv) = &self.concrete {
                                let v = cv.get(call as usize).and_then(|b| b.get(i as usize)).copied().unwrap_or(0);
                                self.c.c(8, v as u128)
                            } else {
                                self.c.var(&format!("a{}_{}", call, i), 8)
                            };
                            self.any_ids.insert((call, i), id);
                            id
                        }
                    };
                    self.bytes_mut(s, x[0] + i as u64, 1)?[0] = id;
                }
                s.inputs.push((call, x[1] as u32));
                un
            }
            "verif_any_u64" => {
                let call = s.nany;
                s.nany += 1;
                let mut ids = vec![];
                for i in 0..8u32 {
                    let id = match self.any_ids.get(&(call, i)) {
                        Some(&id) => id,
                        None => {
                            let id = if let Some(cv) = &self.concrete {
                                let v = cv.get(call as usize).and_then(|b| b.get(i as usize)).copied().unwrap_or(0);
                                self.c.c(8, v as u128)
                            } else {
                                self.c.var(&format!("a{}_{}", call, i), 8)
                            };
                            self.any_ids.insert((call, i), id);
                            id
                        }
                    };
                    ids.push(id);
                }
                s.inputs.push((call, 8));
                ids.reverse();
                let t = self.c.concat(&ids);
                Ok(Ok(self.v(t)))
            }
            "verif_choose" => {
                let x = conc!(a[0], a[1]);
                let k = s.nchoice;
                s.nchoice += 1;
                if k < self.choices.len() {
                    let mut v = self.choices[k];
                    if self.concrete.is_some() && (v < x[0] || v > x[1]) {
                        // random scripts: any number selects something
                        v = x[0] + v % (x[1] - x[0] + 1);
                    }
                    if self.made.len() <= k {
                        self.made.push(v);
                    }
                    return Ok(Ok(V::C(v, 64)));
                }
                if x[0] > x[1] {
                    return err("empty choice");
                }
                if let Some(f) = self.spawn {
                    let more = (x[0] + 1..=x[1]).map(|v| {
                        let mut p = self.choices.clone();
                        p.push(v);
                        p
                    });
                    f(more.collect());
                }
                self.choices.push(x[0]);
                self.made.push(x[0]);
                Ok(Ok(V::C(x[0], 64)))
            }
            "verif_tier" => Ok(Ok(V::C(self.tier, 64))),
            "verif_assume" => {
                let t = self.t(&a[0], 8);
                let z = self.c.c(8, 0);
                let e = self.c.eq(t, z);
                let g = self.c.not(e);
                let (may, _) = self.decide(s, g);
                if !may {
                    return Ok(Err(Step::Dead));
                }
                self.assume(s, g);
                un
            }
            "verif_cover" => {
                let x = conc!(a[0], a[1]);
                let tag = self.str_at(s, x[0], x[1])?;
                self.refresh_lanes(s);
                let feasible = if s.lanes != 0 {
                    true
                } else {
                    let t = self.c.bool(true);
                    let pcs = s.pc.clone();
                    matches!(self.p.solve(&mut self.c, &[pcs, vec![t]].concat(), 20000), Ok(Some(_)))
                };
                if feasible {
                    *self.st.covers.entry(tag).or_insert(0) += 1;
                }
                un
            }
            "verif_out" => {
                let x = conc!(a[0], a[1]);
                let b = if x[1] == 0 { vec![] } else { self.bytes(s, x[0], x[1])?.to_vec() };
                for t in b {
                    if t < 256 {
                        self.st.outs.push(t as u8);
                    } else {
                        return err("verif_out of a non-concrete value");
                    }
                }
                un
            }
            "verif_eq" => {
                let x = conc!(a[0], a[1], a[2], a[3], a[4]);
                let tag = self.str_at(s, x[0], x[1])?;
                *self.st.tags.entry(tag.clone()).or_insert(0) += 1;
                let n = x[4];
                if n == 0 {
                    return un;
                }
                let p = self.bytes(s, x[2], n)?.to_vec();
                let q = self.bytes(s, x[3], n)?.to_vec();
                self.st.bytes_checked += n;
                if self.concrete.is_some() {
                    for t in p.iter().chain(q.iter()) {
                        if *t >= 256 {
                            return err(format!("check {} on a non-concrete value", tag));
                        }
                        self.st.outs.push(*t as u8);
                    }
                    return un;
                }
                for k in (0..n as usize).step_by(8) {
                    let e = (k + 8).min(n as usize);
                    if p[k..e].iter().chain(q[k..e].iter()).any(|b| *b == UNINIT) {
                        return err(format!("check {} reads uninitialised memory", tag));
                    }
                    let mut u: Vec<Id> = p[k..e].to_vec();
                    let mut v: Vec<Id> = q[k..e].to_vec();
                    u.reverse();
                    v.reverse();
                    let u = self.c.concat(&u);
                    let v = self.c.concat(&v);
                    let g = self.c.eq(u, v);
                    self.oblige(s, &tag, "mismatch", g)?;
                }
                un
            }
            "verif_check" => {
                let x = conc!(a[0], a[1]);
                let tag = self.str_at(s, x[0], x[1])?;
                *self.st.tags.entry(tag.clone()).or_insert(0) += 1;
                let t = self.t(&a[2], 8);
                let z = self.c.c(8, 0);
                let e = self.c.eq(t, z);
                let g = self.c.not(e);
                self.oblige(s, &tag, "false", g)?;
                un
            }
            "verif_fuel" => {
                let x = conc!(a[0]);
                s.fuel = if x[0] == 0 || self.concrete.is_some() { None } else { Some(x[0]) };
                if x[0] != 0 {
                    s.spent = 0;
                }
                un
            }
            "verif_skip" => {
                let x = conc!(a[0], a[1]);
                self.skip = if x[0] == 0 || self.concrete.is_some() {
                    None
                } else {
                    Some(Skip { min_work: x[0], delta: x[1], seen: HashMap::new(), bad: HashSet::new() })
                };
                un
            }
            "verif_work" => Ok(Ok(V::C(s.spent, 64))),
            "verif_live" => {
                let n: u64 = s.objs.iter().flatten().filter(|o| o.heap).map(|o| o.bytes.len() as u64).sum();
                Ok(Ok(V::C(n, 64)))
            }
            "verif_quiet" => {
                let x = conc!(a[0]);
                s.quiet = x[0] != 0;
                un
            }
            "verif_snap" => {
                let x = conc!(a[0], a[1], a[2], a[3]);
                let refs = self.bytes(s, x[2], x[3])?.to_vec();
                let sn = self.snap(s, x[0], x[1], refs)?;
                s.snaps.push(Rc::new(sn));
                un
            }
            "verif_leap" => {
                let x = conc!(a[0], a[1], a[2], a[3], a[5]);
                let m = self.t(&a[4], 64);
                let refs = self.bytes(s, x[2], x[3])?.to_vec();
                s.nany += 1;
                if self.concrete.is_some() {
                    return Ok(Ok(V::C(0, 8)));
                }
                let ok = self.leap(s, x[0], x[1], refs, m, x[4] as u8)?;
                Ok(Ok(V::C(ok as u64, 8)))
            }
            "verif_leap_closed" => {
                let x = conc!(a[0], a[1], a[2], a[3]);
                let m = self.t(&a[4], 64);
                let refs = self.bytes(s, x[2], x[3])?.to_vec();
                let ok = self.leap_closed(s, x[0], x[1], refs, m)?;
                Ok(Ok(V::C(ok as u64, 8)))
            }
            "verif_deep" => {
                let x = conc!(a[0], a[1]);
                let tag = self.str_at(s, x[0], x[1])?;
                let t = self.t(&a[2], 8);
                let z = self.c.c(8, 0);
                let e = self.c.eq(t, z);
                let g = self.c.not(e);
                s.deep.push((tag, g));
                un
            }
            _ => err(format!("external function {} in {}", name, self.where_am_i(s))),
        }
    }

    fn skip_hook(&mut self, s: &mut State) {
        let fr = s.frames.last().unwrap();
        if fr.ip != 0 {
            return;
        }
        // the same place, reached through the same calls
        let mut key = Vec::with_capacity(3 * s.frames.len());
        for f in &s.frames {
            key.extend([f.f, f.b, f.ip as u32]);
        }
        let now = self.st.instrs;
        let k = self.skip.as_mut().unwrap();
        if k.bad.contains(&key) {
            return;
        }
        let e = k.seen.entry(key.clone()).or_insert((vec![], vec![]));
        if e.0.last().map_or(false, |l| now - l < k.min_work) {
            k.seen.remove(&key);
            k.bad.insert(key);
            return;
        }
        e.0.push(now);
        e.1.push(s.clone());
        if e.1.len() < 6 {
            return;
        }
        let gaps: Vec<u64> = e.0.windows(2).skip(1).map(|p| p[1] - p[0]).collect();
        if gaps.iter().max().unwrap() * 4 > gaps.iter().min().unwrap() * 5 {
            k.seen.remove(&key);
            k.bad.insert(key);
            return;
        }
        let delta = k.delta;
        let (_, mut h) = k.seen.remove(&key).unwrap();
        k.bad.insert(key);
        // the first iterations may still set things up
        h.remove(0);
        let last = h.pop().unwrap();
        for x in &h {
            if x.frames.len() != last.frames.len() || x.pc != last.pc || x.frames.iter().zip(&last.frames).any(|(p, q)| p.f != q.f || p.obj != q.obj || p.regs.len() != q.regs.len()) {
                return;
            }
        }
        let line = |vs: &[u64], mask: u64| -> Option<u64> {
            let d = vs[1].wrapping_sub(vs[0]) & mask;
            if d != 0 && vs.windows(2).all(|p| p[1].wrapping_sub(p[0]) & mask == d) {
                Some(vs[vs.len() - 1].wrapping_add(d.wrapping_mul(delta)) & mask)
            } else {
                None
            }
        };
        let mut moved = 0;
        for fi in 0..last.frames.len() {
            for r in 0..last.frames[fi].regs.len() {
                let mut vs = vec![];
                let mut w = 0;
                for x in h.iter().chain([&last]) {
                    if let V::C(v, ww) = x.frames[fi].regs[r] {
                        vs.push(v);
                        w = ww;
                    }
                }
                if vs.len() == h.len() + 1 {
                    if let Some(v) = line(&vs, cw(w as u32)) {
                        s.frames[fi].regs[r] = V::C(v, w);
                        moved += 1;
                    }
                }
            }
        }
        for o in 0..last.objs.len() {
            let mut os = vec![];
            for x in h.iter().chain([&last]) {
                if let Some(Some(b)) = x.objs.get(o) {
                    os.push(b.clone());
                }
            }
            if os.len() != h.len() + 1 || os.iter().any(|b| b.bytes.len() != os[0].bytes.len()) || os.iter().all(|b| Rc::ptr_eq(b, &os[0])) {
                continue;
            }
            let n = os[0].bytes.len();
            if n > 4096 {
                continue; // a buffer, not loop state
            }
            for w in [8usize, 4] {
                for at in (0..n.saturating_sub(w - 1)).step_by(w) {
                    let mut vs = vec![];
                    for b in &os {
                        if b.bytes[at..at + w].iter().all(|x| *x < 256) {
                            vs.push(b.bytes[at..at + w].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64));
                        }
                    }
                    if vs.len() != os.len() || (w == 4 && n % 8 == 0) {
                        continue;
                    }
                    if let Some(v) = line(&vs, cw(8 * w as u32)) {
                        let ob = Rc::make_mut(s.objs[o].as_mut().unwrap());
                        for j in 0..w {
                            ob.bytes[at + j] = (v >> (8 * j) & 0xff) as u32;
                        }
                        moved += 1;
                    }
                }
            }
        }
        if moved > 0 {
            *self.st.covers.entry("iterations passed over".into()).or_insert(0) += 1;
            self.skip = None;
        }
    }

    fn snap(&self, s: &State, addr: u64, size: u64, refs: Vec<u32>) -> R<Snap> {
        let mut regions: Vec<Region> = vec![Region { addr, parent: (u32::MAX, 0), bytes: self.bytes(s, addr, size)?.to_vec(), ptrs: BTreeMap::new() }];
        let mut i = 0;
        while i < regions.len() {
            let b = regions[i].bytes.clone();
            let skew = (8 - regions[i].addr % 8) % 8;
            let mut at = skew as usize;
            while at + 8 <= b.len() {
                let mut v = 0u64;
                let mut ok = true;
                for k in 0..8 {
                    ok &= b[at + k] < 256;
                    v |= ((b[at + k] & 0xff) as u64) << (8 * k);
                }
                let idx = v >> 32;
                if ok && idx >= OBJ0 && idx < FUNC0 {
                    if let Some(Some(o)) = s.objs.get((idx - OBJ0) as usize) {
                        let base = idx << 32;
                        let r = regions.iter().position(|r| {
                            r.addr >> 32 == idx && (r.addr & 0xffff_ffff) <= (v & 0xffff_ffff) && (v & 0xffff_ffff) <= (r.addr & 0xffff_ffff) + r.bytes.len() as u64
                        });
                        let r = match r {
                            Some(r) => Some(r),
                            None if o.heap => {
                                regions.push(Region { addr: base, parent: (i as u32, at as u32), bytes: o.bytes.clone(), ptrs: BTreeMap::new() });
                                Some(regions.len() - 1)
                            }
                            None => None,
                        };
                        if let Some(r) = r {
                            let off = v - regions[r].addr;
                            regions[i].ptrs.insert(at as u32, (r as u32, off as u32));
                        }
                    }
                }
                at += 8;
            }
            i += 1;
            if regions.len() > 64 {
                return err("object graph too large");
            }
        }
        Ok(Snap { regions, refs })
    }

    fn same(&mut self, a: u32, b: u32) -> bool {
        if a == b {
            return true;
        }
        if a == UNINIT || b == UNINIT {
            return false;
        }
        if self.c.lanes(a) != self.c.lanes(b) {
            return false;
        }
        self.p.simplify(&mut self.c, a) == self.p.simplify(&mut self.c, b)
    }

    /// What every byte of the object did over the snapshots.
    fn classify_snaps(&mut self, sn: &[Rc<Snap>], width: u8) -> Option<Vec<Vec<Kind>>> {
        let last = sn.last()?.clone();
        if sn.len() < 3 {
            return None;
        }
        for x in sn {
            if x.regions.len() != last.regions.len() || x.refs.len() != last.refs.len() {
                return None;
            }
            for (p, q) in x.regions.iter().zip(&last.regions) {
                if p.bytes.len() != q.bytes.len() || p.parent != q.parent || p.ptrs != q.ptrs {
                    return None;
                }
            }
        }
        let mut out = vec![];
        for (ri, r) in last.regions.iter().enumerate() {
            let n = r.bytes.len();
            let mut k: Vec<Option<Kind>> = vec![None; n];
            for (&at, _) in &r.ptrs {
                for j in 0..8 {
                    k[at as usize + j] = Some(Kind::Ptr);
                }
            }
            // counters
            let w = width as usize;
            let mut at = ((w as u64 - r.addr % w as u64) % w as u64) as usize;
            while at + w <= n {
                let val = |x: &Snap| -> Option<u64> {
                    let mut v = 0u64;
                    for j in 0..w {
                        let b = x.regions[ri].bytes[at + j];
                        if b >= 256 {
                            return None;
                        }
                        v |= (b as u64) << (8 * j);
                    }
                    Some(v)
                };
                if k[at].is_none() {
                    let vs: Option<Vec<u64>> = sn.iter().map(|x| val(x)).collect();
                    if let Some(vs) = vs {
                        let mask = cw(8 * w as u32);
                        let d = vs[1].wrapping_sub(vs[0]) & mask;
                        if d != 0 && vs.windows(2).all(|p| p[1].wrapping_sub(p[0]) & mask == d) {
                            for j in 0..w {
                                k[at + j] = Some(Kind::Count(w as u8, j as u8, *vs.last().unwrap(), d));
                            }
                        }
                    }
                }
                at += w;
            }
            for i in 0..n {
                if k[i].is_some() {
                    continue;
                }
                let b = r.bytes[i];
                let mut keep = true;
                for x in sn {
                    let y = x.regions[ri].bytes[i];
                    if !self.same(y, b) {
                        keep = false;
                        break;
                    }
                }
                if keep {
                    k[i] = Some(Kind::Keep);
                    continue;
                }
                let mut found = None;
                for j in 0..last.refs.len() {
                    let mut ok = true;
                    for x in sn {
                        let (p, q) = (x.regions[ri].bytes[i], x.refs[j]);
                        if p == UNINIT || q == UNINIT || (p != q && self.c.lanes(p) != self.c.lanes(q)) {
                            ok = false;
                            break;
                        }
                    }
                    if ok && sn.iter().all(|x| self.same(x.regions[ri].bytes[i], x.refs[j])) {
                        found = Some(j as u32);
                        break;
                    }
                }
                k[i] = Some(match found {
                    Some(j) => Kind::Ref(j),
                    None => Kind::Any,
                });
            }
            out.push(k.into_iter().map(|x| x.unwrap()).collect());
        }
        Some(out)
    }

    /// base + d*m of the given width, with its constant low part explicit
    fn count_at(&mut self, w: u8, base: u64, d: u64, m: Id) -> Id {
        let bw = 8 * w;
        let tz = d.trailing_zeros().min(bw as u32 - 1) as u8;
        let m = self.c.extract(m, 0, bw - tz);
        let k = self.c.c(bw - tz, (d >> tz) as u128 & cw((bw - tz) as u32) as u128);
        let p = self.c.mul(m, k);
        let h = self.c.c(bw - tz, (base >> tz) as u128 & cw((bw - tz) as u32) as u128);
        let hi = self.c.add(p, h);
        if tz == 0 {
            return hi;
        }
        let lo = self.c.c(tz, base as u128 & ((1u128 << tz) - 1));
        self.c.concat(&[hi, lo])
    }

    /// The object after the last snapshot's state and m more of the same
    /// steps, by the pattern the snapshots show.
    fn leap(&mut self, s: &mut State, addr: u64, size: u64, refs: Vec<u32>, m: Id, width: u8) -> R<bool> {
        let sn: Vec<Rc<Snap>> = s.snaps.clone();
        let kinds = match self.classify_snaps(&sn, width) {
            Some(k) => k,
            None => return Ok(false),
        };
        let last = sn.last().unwrap().clone();
        let cur = self.snap(s, addr, size, vec![])?;
        if cur.regions.len() != last.regions.len() || refs.len() != last.refs.len() {
            return Ok(false);
        }
        for (p, q) in cur.regions.iter().zip(&last.regions) {
            if p.bytes.len() != q.bytes.len() || p.parent != q.parent || p.ptrs != q.ptrs {
                return Ok(false);
            }
        }
        if std::env::var("SYMEX_LEAP").is_ok() {
            for (ri, k) in kinds.iter().enumerate() {
                eprintln!("leap width {} region {}: {:?}", width, ri, k);
            }
        }
        let mut data: Vec<Id> = vec![];
        let put32 = |d: &mut Vec<Id>, v: u32| d.extend(v.to_le_bytes().iter().map(|b| *b as u32));
        put32(&mut data, kinds.len() as u32);
        for (ri, ks) in kinds.iter().enumerate() {
            let r = &last.regions[ri];
            let mut nb = vec![UNINIT; ks.len()];
            let mut mask = vec![1u32; ks.len()];
            for (i, k) in ks.iter().enumerate() {
                nb[i] = match *k {
                    Kind::Keep => r.bytes[i],
                    Kind::Ptr => {
                        mask[i] = 0;
                        cur.regions[ri].bytes[i]
                    }
                    Kind::Count(w, j, base, d) => {
                        let t = self.count_at(w, base, d, m);
                        self.c.extract(t, 8 * j, 8)
                    }
                    Kind::Ref(j) => refs[j as usize],
                    Kind::Any => {
                        self.undef_n += 1;
                        let n = format!("any{}", self.undef_n);
                        let t = self.c.var(&n, 8);
                        self.havoc.insert(t);
                        t
                    }
                };
                if nb[i] == UNINIT {
                    mask[i] = 0;
                }
            }
            put32(&mut data, r.parent.0);
            put32(&mut data, r.parent.1);
            put32(&mut data, ks.len() as u32);
            data.extend(nb.iter().map(|x| if *x == UNINIT { 0 } else { *x }));
            data.extend(mask);
            let a = cur.regions[ri].addr;
            self.bytes_mut(s, a, nb.len() as u64)?.copy_from_slice(&nb);
        }
        self.leap_kinds = kinds;
        s.inputs.push((u32::MAX, self.leap_data.len() as u32));
        self.leap_data.push(data);
        Ok(true)
    }

    fn leap_closed(&mut self, s: &mut State, addr: u64, size: u64, refs: Vec<u32>, m: Id) -> R<bool> {
        let last = match s.snaps.last() {
            Some(l) => l.clone(),
            None => return Ok(false),
        };
        let cur = self.snap(s, addr, size, vec![])?;
        if cur.regions.len() != last.regions.len() {
            return Ok(false);
        }
        let kinds = self.leap_kinds.clone();
        for (ri, ks) in kinds.iter().enumerate() {
            let (p, q) = (&cur.regions[ri], &last.regions[ri]);
            if p.bytes.len() != q.bytes.len() || p.parent != q.parent || p.ptrs != q.ptrs {
                return Ok(false);
            }
            for (i, k) in ks.iter().enumerate() {
                let want = match *k {
                    Kind::Keep => q.bytes[i],
                    Kind::Ptr | Kind::Any => continue,
                    Kind::Count(w, j, base, d) => {
                        let t = self.count_at(w, base, d, m);
                        self.c.extract(t, 8 * j, 8)
                    }
                    Kind::Ref(j) => refs[j as usize],
                };
                let have = p.bytes[i];
                if have == want || want == UNINIT {
                    continue;
                }
                if have == UNINIT {
                    return Ok(false);
                }
                let g = self.c.eq(have, want);
                let pcs = s.pc.clone();
                match self.p.prove(&mut self.c, &pcs, g) {
                    Outcome::Proved(_) => {}
                    _ => return Ok(false),
                }
            }
        }
        Ok(true)
    }

    fn str_at(&self, s: &State, p: u64, n: u64) -> R<String> {
        let b = self.bytes(s, p, n)?;
        Ok(b.iter().map(|x| *x as u8 as char).collect())
    }

    fn oblige(&mut self, s: &mut State, tag: &str, kind: &str, goal: Id) -> R<()> {
        self.st.obligations += 1;
        let pcs = s.pc.clone();
        match self.p.prove(&mut self.c, &pcs, goal) {
            Outcome::Proved(_) => Ok(()),
            Outcome::Model(m) => {
                if !self.havoc.is_empty() && self.touches_havoc(&pcs, goal) {
                    return err(format!("undecided: {} (depends on a part of the object whose history is not regular)", tag));
                }
                Err(self.violation(s, tag, kind, "", &m))
            }
            Outcome::Unknown(e) => err(format!("undecided: {} ({})", tag, e)),
        }
    }

    fn touches_havoc(&self, pc: &[Id], goal: Id) -> bool {
        let mut seen = HashSet::new();
        let mut st = pc.to_vec();
        st.push(goal);
        while let Some(x) = st.pop() {
            if self.havoc.contains(&x) {
                return true;
            }
            if seen.insert(x) {
                st.extend_from_slice(self.c.kids(x));
            }
        }
        false
    }

    /// The path reached an allocation or loop whose size is unbounded: the
    /// registered `verif_deep` conditions must hold here.
    fn deep_event(&mut self, s: &mut State, what: &str) -> R<Result<V, Step>> {
        if s.deep.is_empty() {
            return err(format!("unbounded symbolic size ({}) in {}", what, self.where_am_i(s)));
        }
        let d = s.deep.clone();
        for (tag, g) in d {
            *self.st.tags.entry(tag.clone()).or_insert(0) += 1;
            *self.st.covers.entry(format!("deep:{}", tag)).or_insert(0) += 1;
            self.oblige(s, &tag, "deep", g)?;
        }
        Ok(Err(Step::Dead))
    }
}

/// Functions that are modelled even though a body is available.
fn intercept(name: &str) -> bool {
    name.starts_with("verif_") || name == "memcpy" || name == "memmove" || name == "memset" || name == "bcmp" || name == "memcmp"
}
