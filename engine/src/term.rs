//! Hash-consed bit-vector terms (widths 1..=128) with light canonicalisation.
//!
//! The rewriting here is deliberately local (constant folding, concat/extract
//! normal form, operand sorting).  Deciding that two different terms denote
//! the same function is left to the SMT solver (see prove.rs).

pub type Id = u32;
pub const NONE: Id = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Extract, // aux = low bit
    Concat,  // args from most to least significant
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Lookup, // aux = table id
    App,    // aux = (function id << 32) | output index
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub start: u32,
    pub len: u32,
    pub aux: u128,
}

pub struct Table {
    pub iw: u8,
    pub w: u8,
    pub vals: Vec<u128>,
    /// each output bit as the XOR of bits of another table's entry (or of the
    /// index: None) and, bit 8, one
    affine: Option<(Option<u32>, Vec<u16>)>,
}

/// The bits of `out` as XORs of bits of `base` and a constant, over all entries.
fn affine_in(base: &[u128], bw: u8, out: &[u128], ow: u8) -> Option<Vec<u16>> {
    let column = |v: &[u128], j: u8| -> Vec<u64> {
        let mut c = vec![0u64; (v.len() + 63) / 64];
        for (i, x) in v.iter().enumerate() {
            c[i / 64] |= ((x >> j & 1) as u64) << (i % 64);
        }
        c
    };
    let n = base.len();
    let mut rows: Vec<(Vec<u64>, u16, usize)> = vec![]; // column, who, pivot
    let reduce = |rows: &[(Vec<u64>, u16, usize)], c: &mut Vec<u64>, who: &mut u16| {
        for (r, m, p) in rows {
            if c[p / 64] >> (p % 64) & 1 == 1 {
                c.iter_mut().zip(r).for_each(|(a, b)| *a ^= b);
                *who ^= m;
            }
        }
    };
    for j in 0..=bw {
        let mut c = if j == bw { column(&vec![1; n], 0) } else { column(base, j) };
        let mut who = if j == bw { 1 << 8 } else { 1 << j };
        reduce(&rows, &mut c, &mut who);
        if let Some(k) = c.iter().position(|x| *x != 0) {
            let p = 64 * k + c[k].trailing_zeros() as usize;
            rows.push((c, who, p));
        }
    }
    (0..ow)
        .map(|j| {
            let (mut c, mut who) = (column(out, j), 0);
            reduce(&rows, &mut c, &mut who);
            c.iter().all(|x| *x == 0).then_some(who)
        })
        .collect()
}

pub const LANES: usize = 32;

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub args: Vec<Id>,
    tab: Vec<Id>,
    mask: usize,
    pub vars: Vec<(String, u8)>,
    pub tables: Vec<Table>,
    table_ids: std::collections::HashMap<(u8, u8, Vec<u128>), u32>,
    pub ufs: Vec<(String, Vec<u8>, Vec<u8>)>,
    ranges: Vec<Option<(u128, u128)>>,
    pub sims: Vec<Option<Box<[u128; LANES]>>>,
    pub lane_overrides: Vec<std::collections::HashMap<u32, u128>>, // per lane: var -> value
    pub seed: u64,
    byte_ids: [Id; 256],
    pub notes: Vec<(Op, u8, u128, Vec<Id>, Id)>,
    pub note_left: u32,
    note_seen: std::collections::HashMap<u64, u8>,
}

#[inline]
pub fn maskw(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
fn fx(h: u64, x: u64) -> u64 {
    (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95)
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn sext128(v: u128, w: u8) -> i128 {
    if w == 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Ctx {
    pub fn new(seed: u64) -> Ctx {
        let mut c = Ctx {
            nodes: Vec::with_capacity(1 << 14),
            args: Vec::with_capacity(1 << 15),
            tab: vec![NONE; 1 << 15],
            mask: (1 << 15) - 1,
            vars: vec![],
            tables: vec![],
            table_ids: Default::default(),
            ufs: vec![],
            ranges: vec![],
            sims: vec![],
            lane_overrides: vec![Default::default(); LANES],
            seed,
            byte_ids: [NONE; 256],
            notes: vec![],
            note_left: 0,
            note_seen: Default::default(),
        };
        for i in 0..256u32 {
            c.byte_ids[i as usize] = c.raw(Op::Const, 8, i as u128, &[]);
        }
        c
    }

    #[inline]
    pub fn w(&self, t: Id) -> u8 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn op(&self, t: Id) -> Op {
        self.nodes[t as usize].op
    }
    #[inline]
    pub fn kids(&self, t: Id) -> &[Id] {
        let n = &self.nodes[t as usize];
        &self.args[n.start as usize..(n.start + n.len) as usize]
    }
    #[inline]
    pub fn kid(&self, t: Id, i: usize) -> Id {
        self.args[self.nodes[t as usize].start as usize + i]
    }
    #[inline]
    pub fn cval(&self, t: Id) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.aux)
        } else {
            None
        }
    }

    fn hash(op: Op, w: u8, aux: u128, args: &[Id]) -> u64 {
        let mut h = fx(op as u64 | ((w as u64) << 8), aux as u64);
        h = fx(h, (aux >> 64) as u64);
        for &a in args {
            h = fx(h, a as u64);
        }
        h ^ (h >> 29)
    }

    pub fn raw(&mut self, op: Op, w: u8, aux: u128, args: &[Id]) -> Id {
        let h = Self::hash(op, w, aux, args);
        let mut i = (h as usize) & self.mask;
        loop {
            let t = self.tab[i];
            if t == NONE {
                break;
            }
            let n = &self.nodes[t as usize];
            if n.op == op
                && n.w == w
                && n.aux == aux
                && n.len as usize == args.len()
                && &self.args[n.start as usize..(n.start + n.len) as usize] == args
            {
                return t;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.nodes.len() as Id;
        let start = self.args.len() as u32;
        self.args.extend_from_slice(args);
        self.nodes.push(Node { op, w, start, len: args.len() as u32, aux });
        self.tab[i] = id;
        if self.nodes.len() * 2 > self.tab.len() {
            self.grow();
        }
        id
    }

    fn grow(&mut self) {
        let n = self.tab.len() * 2;
        self.tab = vec![NONE; n];
        self.mask = n - 1;
        for id in 0..self.nodes.len() {
            let nd = self.nodes[id];
            let h = Self::hash(nd.op, nd.w, nd.aux, &self.args[nd.start as usize..(nd.start + nd.len) as usize]);
            let mut i = (h as usize) & self.mask;
            while self.tab[i] != NONE {
                i = (i + 1) & self.mask;
            }
            self.tab[i] = id as Id;
        }
    }

    #[inline]
    pub fn c(&mut self, w: u8, v: u128) -> Id {
        debug_assert!(w >= 1);
        let v = v & maskw(w);
        if w == 8 {
            return self.byte_ids[v as usize];
        }
        self.raw(Op::Const, w, v, &[])
    }
    pub fn bool(&mut self, b: bool) -> Id {
        self.c(1, b as u128)
    }

    pub fn var(&mut self, name: &str, w: u8) -> Id {
        // names are unique per width: reuse when already present
        let k = self.vars.len();
        self.vars.push((name.to_string(), w));
        self.raw(Op::Var, w, k as u128, &[])
    }

    pub fn table(&mut self, iw: u8, w: u8, vals: Vec<u128>) -> u32 {
        let mut vals = vals;
        vals.resize(1usize << iw, 0); // don't-care entries
        let key = (iw, w, vals);
        if let Some(&t) = self.table_ids.get(&key) {
            return t;
        }
        let t = self.tables.len() as u32;
        let mut affine = None;
        if w <= 8 && (4..=8).contains(&iw) {
            let own: Vec<u128> = (0..1u128 << iw).collect();
            affine = affine_in(&own, iw, &key.2, w).map(|m| (None, m));
            for (i, b) in self.tables.iter().enumerate() {
                if affine.is_none() && b.affine.is_none() && b.iw == iw && b.w <= 8 {
                    affine = affine_in(&b.vals, b.w, &key.2, w).map(|m| (Some(i as u32), m));
                }
            }
        }
        self.tables.push(Table { iw, w, vals: key.2.clone(), affine });
        self.table_ids.insert(key, t);
        t
    }

    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let t = self.and_rw(a, b);
        self.note(Op::And, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let t = self.or_rw(a, b);
        self.note(Op::Or, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let t = self.xor_rw(a, b);
        self.note(Op::Xor, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let t = self.add_rw(a, b);
        self.note(Op::Add, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let t = self.sub_rw(a, b);
        self.note(Op::Sub, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let t = self.mul_rw(a, b);
        self.note(Op::Mul, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let t = self.udiv_rw(a, b);
        self.note(Op::UDiv, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let t = self.urem_rw(a, b);
        self.note(Op::URem, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let t = self.sdiv_rw(a, b);
        self.note(Op::SDiv, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let t = self.srem_rw(a, b);
        self.note(Op::SRem, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let t = self.shl_rw(a, b);
        self.note(Op::Shl, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let t = self.lshr_rw(a, b);
        self.note(Op::LShr, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let t = self.ashr_rw(a, b);
        self.note(Op::AShr, self.w(a), 0, &[a, b], t);
        t
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        let t = self.eq_rw(a, b);
        self.note(Op::Eq, 1, 0, &[a, b], t);
        t
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let t = self.ult_rw(a, b);
        self.note(Op::Ult, 1, 0, &[a, b], t);
        t
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let t = self.slt_rw(a, b);
        self.note(Op::Slt, 1, 0, &[a, b], t);
        t
    }
    pub fn not(&mut self, a: Id) -> Id {
        let t = self.not_rw(a);
        self.note(Op::Not, self.w(a), 0, &[a], t);
        t
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        let t = self.ite_rw(c, a, b);
        self.note(Op::Ite, self.w(a), 0, &[c, a, b], t);
        t
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let t = self.extract_rw(a, lo, w);
        self.note(Op::Extract, w, lo as u128, &[a], t);
        t
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let t = self.sext_rw(a, w);
        if w > self.w(a) {
            self.note(Op::SExt, w, 0, &[a], t);
        }
        t
    }
    pub fn concat(&mut self, parts: &[Id]) -> Id {
        let t = self.concat_rw(parts);
        if parts.len() > 1 {
            self.note(Op::Concat, self.w(t), 0, parts, t);
        }
        t
    }
    pub fn lookup(&mut self, table: u32, idx: Id) -> Id {
        let t = self.lookup_rw(table, idx);
        self.note(Op::Lookup, self.w(t), table as u128, &[idx], t);
        t
    }

    /// Remember a sample of the simplifications made, for the solver to confirm.
    #[inline]
    fn note(&mut self, op: Op, w: u8, aux: u128, ks: &[Id], t: Id) {
        if self.note_left == 0 {
            return;
        }
        let n = self.nodes[t as usize];
        if n.op == op && n.aux == aux && self.kids(t) == ks {
            return;
        }
        if ks.iter().all(|k| *k < 256 || self.nodes[*k as usize].op == Op::Const) {
            return;
        }
        self.note_slow(op, w, aux, ks, t)
    }
    #[inline(never)]
    fn note_slow(&mut self, op: Op, w: u8, aux: u128, ks: &[Id], t: Id) {
        let n = self.nodes[t as usize];
        if n.op == op && ks.len() == 2 && self.kids(t) == [ks[1], ks[0]] {
            return; // operands ordered, nothing more
        }
        let mut h = fx(op as u64, w as u64 | (n.op as u64) << 8);
        for k in ks.iter().take(4) {
            let kn = self.nodes[*k as usize];
            h = fx(h, kn.op as u64 | (kn.w as u64) << 8 | (kn.len as u64) << 16);
        }
        let e = self.note_seen.entry(h).or_insert(0);
        if *e >= 3 {
            return;
        }
        *e += 1;
        self.note_left -= 1;
        self.notes.push((op, w, aux, ks.to_vec(), t));
    }

    // ---- structural helpers -------------------------------------------------

    /// Mask of bits known to be zero.
    pub fn kz(&self, t: Id) -> u128 {
        self.kz_d(t, 0)
    }
    fn kz_d(&self, t: Id, d: u32) -> u128 {
        let n = &self.nodes[t as usize];
        if d > 3 && n.op != Op::Const {
            return 0;
        }
        match n.op {
            Op::Const => !n.aux & maskw(n.w),
            Op::Concat => {
                let mut m = 0u128;
                for &a in self.kids(t) {
                    let aw = self.w(a);
                    m = if aw >= 128 { 0 } else { m << aw };
                    m |= self.kz_d(a, d + 1) & maskw(aw);
                }
                m
            }
            Op::And => self.kz_d(self.kid(t, 0), d + 1) | self.kz_d(self.kid(t, 1), d + 1),
            Op::Or | Op::Xor => self.kz_d(self.kid(t, 0), d + 1) & self.kz_d(self.kid(t, 1), d + 1),
            _ => 0,
        }
    }

    /// Unsigned range of a term (sound over-approximation).
    pub fn range(&mut self, t: Id) -> (u128, u128) {
        if self.ranges.len() < self.nodes.len() {
            self.ranges.resize(self.nodes.len(), None);
        }
        if let Some(r) = self.ranges[t as usize] {
            return r;
        }
        let r = self.range_d(t, 0);
        r
    }
    fn range_d(&mut self, t: Id, d: u32) -> (u128, u128) {
        if let Some(Some(r)) = self.ranges.get(t as usize) {
            return *r;
        }
        let n = self.nodes[t as usize];
        let full = (0, maskw(n.w));
        if d > 24 {
            return full;
        }
        let r = match n.op {
            Op::Const => (n.aux, n.aux),
            Op::Concat => {
                let ks: Vec<Id> = self.kids(t).to_vec();
                let (mut lo, mut hi) = (0u128, 0u128);
                for k in ks {
                    let kw = self.w(k);
                    let (l, h) = self.range_d(k, d + 1);
                    if kw >= 128 {
                        lo = l;
                        hi = h;
                    } else {
                        lo = (lo << kw) | l;
                        hi = (hi << kw) | h;
                    }
                }
                (lo, hi)
            }
            Op::Ite => {
                let (a, b) = (self.kid(t, 1), self.kid(t, 2));
                let (l1, h1) = self.range_d(a, d + 1);
                let (l2, h2) = self.range_d(b, d + 1);
                (l1.min(l2), h1.max(h2))
            }
            Op::Add => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let (l1, h1) = self.range_d(a, d + 1);
                let (l2, h2) = self.range_d(b, d + 1);
                match h1.checked_add(h2) {
                    Some(h) if h <= full.1 => (l1 + l2, h),
                    _ => {
                        // subtracting a constant without borrow
                        match l1.checked_add(l2) {
                            Some(l) if l > full.1 && n.w < 127 => (l - full.1 - 1, h1 + h2 - full.1 - 1),
                            _ => full,
                        }
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let (l1, h1) = self.range_d(a, d + 1);
                let (l2, h2) = self.range_d(b, d + 1);
                if l1 >= h2 {
                    (l1 - h2, h1 - l2)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let (l1, h1) = self.range_d(a, d + 1);
                let (l2, h2) = self.range_d(b, d + 1);
                match h1.checked_mul(h2) {
                    Some(h) if h <= full.1 => (l1 * l2, h),
                    _ => full,
                }
            }
            Op::And => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let h1 = self.range_d(a, d + 1).1;
                let h2 = self.range_d(b, d + 1).1;
                (0, h1.min(h2))
            }
            Op::UDiv => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let (l1, h1) = self.range_d(a, d + 1);
                let (l2, h2) = self.range_d(b, d + 1);
                if l2 > 0 {
                    (l1 / h2, h1 / l2)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                let h1 = self.range_d(a, d + 1).1;
                let (l2, h2) = self.range_d(b, d + 1);
                if l2 > 0 {
                    (0, h1.min(h2 - 1))
                } else {
                    full
                }
            }
            Op::LShr => {
                let a = self.kid(t, 0);
                (0, self.range_d(a, d + 1).1)
            }
            Op::Lookup => {
                let tb = &self.tables[n.aux as usize];
                (*tb.vals.iter().min().unwrap(), *tb.vals.iter().max().unwrap())
            }
            _ => full,
        };
        if self.ranges.len() < self.nodes.len() {
            self.ranges.resize(self.nodes.len(), None);
        }
        self.ranges[t as usize] = Some(r);
        r
    }

    fn runs(m: u128, w: u8) -> u32 {
        // number of maximal runs of equal bits
        let mut r = 1;
        let mut p = m & 1;
        for i in 1..w {
            let b = (m >> i) & 1;
            if b != p {
                r += 1;
                p = b;
            }
        }
        r
    }

    /// Split a mask into (lo, len, bit) runs from low to high.
    fn run_list(m: u128, w: u8) -> Vec<(u8, u8, bool)> {
        let mut out: Vec<(u8, u8, bool)> = vec![];
        for i in 0..w {
            let b = (m >> i) & 1 == 1;
            match out.last_mut() {
                Some(l) if l.2 == b => l.1 += 1,
                _ => out.push((i, 1, b)),
            }
        }
        out
    }

    /// a and b have disjoint possibly-one bits: combine into a concat.
    fn disjoint(&mut self, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        let (za, zb) = (self.kz(a), self.kz(b));
        if za == 0 || zb == 0 || (za | zb) != maskw(w) {
            return None;
        }
        if Self::runs(za, w) > 16 {
            return None;
        }
        // where za is 1 take b else take a
        let runs = Self::run_list(za, w);
        let mut parts: Vec<Id> = vec![];
        for &(lo, len, fromb) in runs.iter().rev() {
            let src = if fromb { b } else { a };
            parts.push(self.extract(src, lo, len));
        }
        Some(self.concat(&parts))
    }

    // ---- constructors ---------------------------------------------------------

    fn not_rw(&mut self, a: Id) -> Id {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => self.c(n.w, !n.aux),
            Op::Not => self.kid(a, 0),
            _ => self.raw(Op::Not, n.w, 0, &[a]),
        }
    }

    fn and_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(w, x & y);
        }
        let (x, cst) = match (ca, cb) {
            (Some(v), None) => (b, Some(v)),
            (None, Some(v)) => (a, Some(v)),
            _ => (a, None),
        };
        if let Some(m) = cst {
            if m == 0 {
                return self.c(w, 0);
            }
            if m == maskw(w) {
                return x;
            }
            if Self::runs(m, w) <= 5 {
                let mut parts = vec![];
                for &(lo, len, keep) in Self::run_list(m, w).iter().rev() {
                    parts.push(if keep { self.extract(x, lo, len) } else { self.c(len, 0) });
                }
                return self.concat(&parts);
            }
        }
        if self.op(a) == Op::Not && self.kid(a, 0) == b || self.op(b) == Op::Not && self.kid(b, 0) == a {
            return self.c(w, 0);
        }
        if (self.kz(a) | self.kz(b)) == maskw(w) {
            return self.c(w, 0);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::And, w, 0, &[a, b])
    }

    fn or_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(w, x | y);
        }
        let (x, cst) = match (ca, cb) {
            (Some(v), None) => (b, Some(v)),
            (None, Some(v)) => (a, Some(v)),
            _ => (a, None),
        };
        if let Some(m) = cst {
            if m == 0 {
                return x;
            }
            if m == maskw(w) {
                return self.c(w, m);
            }
            if Self::runs(m, w) <= 5 {
                let mut parts = vec![];
                for &(lo, len, one) in Self::run_list(m, w).iter().rev() {
                    parts.push(if one { self.c(len, u128::MAX) } else { self.extract(x, lo, len) });
                }
                return self.concat(&parts);
            }
        }
        if self.op(a) == Op::Not && self.kid(a, 0) == b || self.op(b) == Op::Not && self.kid(b, 0) == a {
            return self.c(w, u128::MAX);
        }
        if let Some(t) = self.disjoint(a, b) {
            return t;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Or, w, 0, &[a, b])
    }

    fn xor_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(w, 0);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.c(w, x ^ y),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(m), _) if m == maskw(w) => return self.not(b),
            (_, Some(m)) if m == maskw(w) => return self.not(a),
            _ => {}
        }
        // x ^ (x ^ y) = y, and (x ^ c1) ^ c2 = x ^ (c1 ^ c2)
        for (p, q) in [(a, b), (b, a)] {
            if self.op(q) == Op::Xor {
                if self.kid(q, 0) == p {
                    return self.kid(q, 1);
                }
                if self.kid(q, 1) == p {
                    return self.kid(q, 0);
                }
                if let Some(c1) = self.cval(p) {
                    for i in 0..2 {
                        if let Some(c2) = self.cval(self.kid(q, i)) {
                            let x = self.kid(q, 1 - i);
                            let c = self.c(w, c1 ^ c2);
                            return self.xor(x, c);
                        }
                    }
                }
            }
        }
        if let Some(t) = self.disjoint(a, b) {
            return t;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Xor, w, 0, &[a, b])
    }

    /// Decompose into (base, constant offset): t = base + k; base NONE for constants.
    pub fn lin(&self, t: Id) -> (Id, u128) {
        match self.op(t) {
            Op::Const => (NONE, self.nodes[t as usize].aux),
            Op::Add => {
                let (a, b) = (self.kid(t, 0), self.kid(t, 1));
                if let Some(k) = self.cval(b) {
                    return (a, k);
                }
                if let Some(k) = self.cval(a) {
                    return (b, k);
                }
                (t, 0)
            }
            _ => (t, 0),
        }
    }

    fn add_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_add(y)),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if let Some(t) = self.disjoint(a, b) {
            return t;
        }
        for (p, q) in [(a, b), (b, a)] {
            if let Some(k) = self.cval(p) {
                if self.op(q) == Op::Add {
                    let (base, k2) = self.lin(q);
                    if base != q {
                        let kk = self.c(w, k.wrapping_add(k2));
                        return self.add(base, kk);
                    }
                }
            }
        }
        // (h : k) + c with a constant low part k: the carry is known
        for (p, q) in [(a, b), (b, a)] {
            if let Some(k) = self.cval(p) {
                if self.op(q) == Op::Concat {
                    let ks = self.kids(q).to_vec();
                    let low = *ks.last().unwrap();
                    if let Some(lv) = self.cval(low) {
                        let lw = self.w(low);
                        let sum = lv + (k & maskw(lw));
                        let hi = self.concat(&ks[..ks.len() - 1]);
                        let up = self.c(w - lw, ((k >> lw) + (sum >> lw)) & maskw(w - lw));
                        let h = self.add(hi, up);
                        let l = self.c(lw, sum & maskw(lw));
                        return self.concat(&[h, l]);
                    }
                }
            }
        }
        // (x - y) + y = x
        for (p, q) in [(a, b), (b, a)] {
            if self.op(p) == Op::Sub && self.kid(p, 1) == q {
                return self.kid(p, 0);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Add, w, 0, &[a, b])
    }

    fn sub_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(w, 0);
        }
        if let Some(y) = self.cval(b) {
            let k = self.c(w, 0u128.wrapping_sub(y));
            return self.add(a, k);
        }
        let (ba, ka) = self.lin(a);
        let (bb, kb) = self.lin(b);
        if ba == bb {
            return self.c(w, ka.wrapping_sub(kb));
        }
        // (x + y) - y = x
        if self.op(a) == Op::Add {
            if self.kid(a, 0) == b {
                return self.kid(a, 1);
            }
            if self.kid(a, 1) == b {
                return self.kid(a, 0);
            }
        }
        // x - (x - y) = y
        if self.op(b) == Op::Sub && self.kid(b, 0) == a {
            return self.kid(b, 1);
        }
        self.raw(Op::Sub, w, 0, &[a, b])
    }

    fn mul_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(w, x.wrapping_mul(y));
        }
        for (k, x) in [(ca, b), (cb, a)] {
            if let Some(k) = k {
                if k == 0 {
                    return self.c(w, 0);
                }
                if k == 1 {
                    return x;
                }
                if k.is_power_of_two() {
                    let s = self.c(w, k.trailing_zeros() as u128);
                    return self.shl(x, s);
                }
                // copies of x that share no possibly-set bit: no carries
                let live = !self.kz(x) & maskw(w);
                if live.count_ones() <= w as u32 / 2 {
                    let (mut used, mut disjoint) = (0u128, true);
                    for j in (0..w as u32).filter(|&j| k >> j & 1 == 1) {
                        let copy = live << j & maskw(w);
                        disjoint &= used & copy == 0;
                        used |= copy;
                    }
                    if disjoint {
                        let mut r = self.c(w, 0);
                        for j in (0..w as u32).filter(|&j| k >> j & 1 == 1) {
                            let s = self.c(w, j as u128);
                            let y = self.shl(x, s);
                            r = self.xor(r, y);
                        }
                        return r;
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Mul, w, 0, &[a, b])
    }

    fn udiv_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(w, x / y);
                }
                if y.is_power_of_two() {
                    let s = self.c(w, y.trailing_zeros() as u128);
                    return self.lshr(a, s);
                }
                if self.range(a).1 < y {
                    return self.c(w, 0);
                }
            }
        }
        self.raw(Op::UDiv, w, 0, &[a, b])
    }
    fn urem_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.c(w, x % y);
                }
                if y.is_power_of_two() {
                    let m = self.c(w, y - 1);
                    return self.and(a, m);
                }
                if self.range(a).1 < y {
                    return a;
                }
            }
        }
        self.raw(Op::URem, w, 0, &[a, b])
    }
    fn sdiv_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(w, sext128(x, w).wrapping_div(sext128(y, w)) as u128);
            }
        }
        self.raw(Op::SDiv, w, 0, &[a, b])
    }
    fn srem_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(w, sext128(x, w).wrapping_rem(sext128(y, w)) as u128);
            }
        }
        self.raw(Op::SRem, w, 0, &[a, b])
    }

    fn shl_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s >= w as u128 {
                return self.c(w, 0);
            }
            if s == 0 {
                return a;
            }
            let s = s as u8;
            let x = self.extract(a, 0, w - s);
            let z = self.c(s, 0);
            return self.concat(&[x, z]);
        }
        self.raw(Op::Shl, w, 0, &[a, b])
    }
    fn lshr_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s >= w as u128 {
                return self.c(w, 0);
            }
            if s == 0 {
                return a;
            }
            let s = s as u8;
            let x = self.extract(a, s, w - s);
            let z = self.c(s, 0);
            return self.concat(&[z, x]);
        }
        self.raw(Op::LShr, w, 0, &[a, b])
    }
    fn ashr_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            let s = s.min(w as u128 - 1) as u8;
            if s == 0 {
                return a;
            }
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.raw(Op::AShr, w, 0, &[a, b])
    }

    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.c(w - aw, 0);
        self.concat(&[z, a])
    }
    fn sext_rw(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.c(w, sext128(v, aw) as u128);
        }
        if self.kz(a) >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.raw(Op::SExt, w, 0, &[a])
    }
    pub fn trunc(&mut self, a: Id, w: u8) -> Id {
        self.extract(a, 0, w)
    }

    fn extract_rw(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let aw = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= aw as u32, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => self.c(w, n.aux >> lo),
            Op::Extract => {
                let x = self.kid(a, 0);
                self.extract(x, lo + n.aux as u8, w)
            }
            Op::Concat => {
                let ks: Vec<Id> = self.kids(a).to_vec();
                let mut parts: Vec<Id> = vec![];
                let mut pos = 0u32; // from low
                let (l, h) = (lo as u32, lo as u32 + w as u32);
                for &k in ks.iter().rev() {
                    let kw = self.w(k) as u32;
                    let (kl, kh) = (pos, pos + kw);
                    pos = kh;
                    let (s, e) = (kl.max(l), kh.min(h));
                    if s < e {
                        let p = self.extract(k, (s - kl) as u8, (e - s) as u8);
                        parts.push(p);
                    }
                }
                parts.reverse();
                self.concat(&parts)
            }
            Op::SExt => {
                let x = self.kid(a, 0);
                if lo + w <= self.w(x) {
                    return self.extract(x, lo, w);
                }
                self.raw(Op::Extract, w, lo as u128, &[a])
            }
            Op::Ite => {
                let (c, x, y) = (self.kid(a, 0), self.kid(a, 1), self.kid(a, 2));
                if self.cval(x).is_some() || self.cval(y).is_some() || self.op(x) == Op::Concat || self.op(y) == Op::Concat {
                    let xx = self.extract(x, lo, w);
                    let yy = self.extract(y, lo, w);
                    return self.ite(c, xx, yy);
                }
                self.raw(Op::Extract, w, lo as u128, &[a])
            }
            Op::Not => {
                if w == 1 {
                    let x = self.kid(a, 0);
                    let x = self.extract(x, lo, w);
                    return self.not(x);
                }
                self.raw(Op::Extract, w, lo as u128, &[a])
            }
            _ => self.raw(Op::Extract, w, lo as u128, &[a]),
        }
    }

    fn concat_rw(&mut self, parts: &[Id]) -> Id {
        // flatten + merge, most significant first
        let mut out: Vec<Id> = Vec::with_capacity(parts.len() + 4);
        for &p in parts {
            if self.op(p) == Op::Concat {
                let ks: Vec<Id> = self.kids(p).to_vec();
                for k in ks {
                    self.push_part(&mut out, k);
                }
            } else {
                self.push_part(&mut out, p);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|&p| self.w(p) as u32).sum();
        assert!(w <= 128, "concat too wide");
        self.raw(Op::Concat, w as u8, 0, &out)
    }

    fn push_part(&mut self, out: &mut Vec<Id>, p: Id) {
        if let Some(&last) = out.last() {
            let (nl, np) = (self.nodes[last as usize], self.nodes[p as usize]);
            if nl.w as u32 + np.w as u32 <= 128 {
                match (nl.op, np.op) {
                    (Op::Const, Op::Const) => {
                        out.pop();
                        let v = (nl.aux << np.w) | np.aux;
                        let t = self.c(nl.w + np.w, v);
                        self.push_part(out, t);
                        return;
                    }
                    (Op::Extract, Op::Extract) => {
                        let (x, y) = (self.kid(last, 0), self.kid(p, 0));
                        if x == y && nl.aux == np.aux + np.w as u128 {
                            out.pop();
                            let t = self.extract(x, np.aux as u8, nl.w + np.w);
                            if self.op(t) == Op::Concat {
                                let ks: Vec<Id> = self.kids(t).to_vec();
                                for k in ks {
                                    self.push_part(out, k);
                                }
                            } else {
                                self.push_part(out, t);
                            }
                            return;
                        }
                    }
                    (Op::Ite, Op::Ite) => {
                        let (c1, c2) = (self.kid(last, 0), self.kid(p, 0));
                        if c1 == c2 {
                            let (a1, b1) = (self.kid(last, 1), self.kid(last, 2));
                            let (a2, b2) = (self.kid(p, 1), self.kid(p, 2));
                            out.pop();
                            let a = self.concat(&[a1, a2]);
                            let b = self.concat(&[b1, b2]);
                            let t = self.ite(c1, a, b);
                            if self.op(t) == Op::Concat {
                                let ks: Vec<Id> = self.kids(t).to_vec();
                                for k in ks {
                                    self.push_part(out, k);
                                }
                            } else {
                                self.push_part(out, t);
                            }
                            return;
                        }
                    }
                    _ => {}
                }
            }
        }
        out.push(p);
    }

    fn ite_rw(&mut self, c: Id, a: Id, b: Id) -> Id {
        debug_assert_eq!(self.w(c), 1);
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return a;
        }
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if self.op(c) == Op::Not {
            let c = self.kid(c, 0);
            return self.ite(c, b, a);
        }
        let w = self.w(a);
        if self.op(a) == Op::Ite && self.kid(a, 0) == c {
            let x = self.kid(a, 1);
            return self.ite(c, x, b);
        }
        if self.op(b) == Op::Ite && self.kid(b, 0) == c {
            let x = self.kid(b, 2);
            return self.ite(c, a, x);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        } else {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
                _ => {}
            }
        }
        self.raw(Op::Ite, w, 0, &[c, a, b])
    }

    fn eq_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.bool(true);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool(x == y);
        }
        let (x, k) = match (ca, cb) {
            (Some(v), None) => (b, Some(v)),
            (None, Some(v)) => (a, Some(v)),
            _ => (a, None),
        };
        if let Some(k) = k {
            if w == 1 {
                return if k == 1 { x } else { self.not(x) };
            }
            let r = self.range(x);
            if k < r.0 || k > r.1 {
                return self.bool(false);
            }
            match self.op(x) {
                Op::Concat => {
                    let ks: Vec<Id> = self.kids(x).to_vec();
                    let mut pos = w as u32;
                    let mut rest: Vec<(Id, u128)> = vec![];
                    for p in ks {
                        let pw = self.w(p) as u32;
                        pos -= pw;
                        let kv = (k >> pos) & maskw(pw as u8);
                        match self.cval(p) {
                            Some(v) => {
                                if v != kv {
                                    return self.bool(false);
                                }
                            }
                            None => rest.push((p, kv)),
                        }
                    }
                    let mut acc = self.bool(true);
                    for (p, kv) in rest {
                        let pw = self.w(p);
                        let kc = self.c(pw, kv);
                        let e = self.eq(p, kc);
                        acc = self.and(acc, e);
                    }
                    return acc;
                }
                Op::Not => {
                    let y = self.kid(x, 0);
                    let kc = self.c(w, !k);
                    return self.eq(y, kc);
                }
                Op::Xor => {
                    for i in 0..2 {
                        if let Some(m) = self.cval(self.kid(x, i)) {
                            let y = self.kid(x, 1 - i);
                            let kc = self.c(w, k ^ m);
                            return self.eq(y, kc);
                        }
                    }
                    if k == 0 {
                        let (p, q) = (self.kid(x, 0), self.kid(x, 1));
                        return self.eq(p, q);
                    }
                }
                Op::Add => {
                    let (base, m) = self.lin(x);
                    if base != x {
                        let kc = self.c(w, k.wrapping_sub(m));
                        return self.eq(base, kc);
                    }
                }
                Op::Sub if k == 0 => {
                    let (p, q) = (self.kid(x, 0), self.kid(x, 1));
                    return self.eq(p, q);
                }
                Op::Ite => {
                    let (c, p, q) = (self.kid(x, 0), self.kid(x, 1), self.kid(x, 2));
                    if self.cval(p).is_some() || self.cval(q).is_some() {
                        let kc = self.c(w, k);
                        let e1 = self.eq(p, kc);
                        let e2 = self.eq(q, kc);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            // x = x ^ y is y = 0, x ^ y = x ^ z is y = z
            for (p, q) in [(a, b), (b, a)] {
                if self.op(q) != Op::Xor {
                    continue;
                }
                for i in 0..2 {
                    let (k, o) = (self.kid(q, i), self.kid(q, 1 - i));
                    if k == p {
                        let z = self.c(w, 0);
                        return self.eq(o, z);
                    }
                    if self.op(p) == Op::Xor {
                        for j in 0..2 {
                            if self.kid(p, j) == k {
                                let r = self.kid(p, 1 - j);
                                return self.eq(o, r);
                            }
                        }
                    }
                }
            }
            let (ba, ka) = self.lin(a);
            let (bb, kb) = self.lin(b);
            if ba == bb && ba != NONE {
                return self.bool(ka == kb);
            }
            let (ra, rb) = (self.range(a), self.range(b));
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.bool(false);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.raw(Op::Eq, 1, 0, &[a, b])
    }

    fn ult_rw(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.bool(false);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 {
            return self.bool(true);
        }
        if ra.0 >= rb.1 {
            return self.bool(false);
        }
        let w = self.w(a);
        if self.cval(b) == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        // x + i < x + j without wrap-around
        let ((xa, ca), (xb, cb)) = (self.lin(a), self.lin(b));
        if xa == xb && self.w(xa) == w {
            let r = self.range(xa);
            if r.1.checked_add(ca.max(cb)).map_or(false, |m| m <= maskw(w)) {
                return self.bool(ca < cb);
            }
        }
        // strip common leading zero bits
        let (za, zb) = (self.kz(a), self.kz(b));
        let top = |z: u128| -> u8 {
            let mut n = 0;
            while n < w && (z >> (w - 1 - n)) & 1 == 1 {
                n += 1;
            }
            n
        };
        let lz = top(za).min(top(zb));
        if lz > 0 && lz < w {
            let x = self.extract(a, 0, w - lz);
            let y = self.extract(b, 0, w - lz);
            return self.ult(x, y);
        }
        if let Some(k) = self.cval(b) {
            // x < 2^n  <=>  high bits are zero
            if k.is_power_of_two() {
                let n = k.trailing_zeros() as u8;
                let hi = self.extract(a, n, w - n);
                let z = self.c(w - n, 0);
                return self.eq(hi, z);
            }
        }
        self.raw(Op::Ult, 1, 0, &[a, b])
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let t = self.ult(b, a);
        self.not(t)
    }
    fn slt_rw(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.bool(sext128(x, w) < sext128(y, w));
        }
        if a == b {
            return self.bool(false);
        }
        let half = 1u128 << (w - 1);
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < half && rb.1 < half {
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cval(b) == Some(1) && w > 1 {
            // x <= 0
            let z = self.c(w, 0);
            let e = self.eq(a, z);
            let s = self.extract(a, w - 1, 1);
            return self.or(e, s);
        }
        if self.cval(a) == Some(maskw(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        self.raw(Op::Slt, 1, 0, &[a, b])
    }

    fn lookup_rw(&mut self, table: u32, idx: Id) -> Id {
        let (w, v0, allsame) = {
            let t = &self.tables[table as usize];
            (t.w, t.vals[0], t.vals.iter().all(|v| *v == t.vals[0]))
        };
        if allsame {
            return self.c(w, v0);
        }
        if let Some(i) = self.cval(idx) {
            let v = self.tables[table as usize].vals[i as usize];
            return self.c(w, v);
        }
        if self.op(idx) == Op::Lookup {
            // compose two tables
            let inner = self.nodes[idx as usize].aux as usize;
            let x = self.kid(idx, 0);
            let iw = self.tables[inner].iw;
            let n = self.tables[table as usize].vals.len() as u128;
            if self.tables[inner].vals.iter().all(|v| *v < n) {
                let vals: Vec<u128> =
                    self.tables[inner].vals.iter().map(|v| self.tables[table as usize].vals[*v as usize]).collect();
                if w == iw && vals.len() == 1usize << iw && vals.iter().enumerate().all(|(i, v)| *v == i as u128) {
                    return x;
                }
                let t = self.table(iw, w, vals);
                return self.lookup(t, x);
            }
        }
        if w > 8 && w % 8 == 0 {
            // one table per byte
            let iw = self.tables[table as usize].iw;
            let parts: Vec<Id> = (0..w / 8)
                .rev()
                .map(|j| {
                    let vals = self.tables[table as usize].vals.iter().map(|v| v >> (8 * j) & 0xff).collect();
                    let t = self.table(iw, 8, vals);
                    self.lookup(t, idx)
                })
                .collect();
            return self.concat(&parts);
        }
        if let Some((base, m)) = self.tables[table as usize].affine.clone() {
            let x = match base {
                Some(b) => self.lookup(b, idx),
                None => idx,
            };
            let bits: Vec<Id> = m
                .iter()
                .rev()
                .map(|who| {
                    let mut t = self.c(1, (who >> 8 & 1) as u128);
                    for j in (0..8).filter(|j| who >> j & 1 == 1) {
                        let b = self.extract(x, j, 1);
                        t = self.xor(t, b);
                    }
                    t
                })
                .collect();
            return self.concat(&bits);
        }
        self.raw(Op::Lookup, w, table as u128, &[idx])
    }

    /// Rebuild a node with new children through the simplifying constructors.
    pub fn rebuild(&mut self, t: Id, ks: &[Id]) -> Id {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const | Op::Var => t,
            Op::Not => self.not(ks[0]),
            Op::And => self.and(ks[0], ks[1]),
            Op::Or => self.or(ks[0], ks[1]),
            Op::Xor => self.xor(ks[0], ks[1]),
            Op::Add => self.add(ks[0], ks[1]),
            Op::Sub => self.sub(ks[0], ks[1]),
            Op::Mul => self.mul(ks[0], ks[1]),
            Op::UDiv => self.udiv(ks[0], ks[1]),
            Op::URem => self.urem(ks[0], ks[1]),
            Op::SDiv => self.sdiv(ks[0], ks[1]),
            Op::SRem => self.srem(ks[0], ks[1]),
            Op::Shl => self.shl(ks[0], ks[1]),
            Op::LShr => self.lshr(ks[0], ks[1]),
            Op::AShr => self.ashr(ks[0], ks[1]),
            Op::Extract => self.extract(ks[0], n.aux as u8, n.w),
            Op::Concat => self.concat(ks),
            Op::SExt => self.sext(ks[0], n.w),
            Op::Ite => self.ite(ks[0], ks[1], ks[2]),
            Op::Eq => self.eq(ks[0], ks[1]),
            Op::Ult => self.ult(ks[0], ks[1]),
            Op::Slt => self.slt(ks[0], ks[1]),
            Op::Lookup => self.lookup(n.aux as u32, ks[0]),
            Op::App => self.raw(Op::App, n.w, n.aux, ks),
        }
    }

    // ---- evaluation -----------------------------------------------------------

    pub fn lane_value(&self, var: u32, lane: usize) -> u128 {
        let w = self.vars[var as usize].1;
        if let Some(v) = self.lane_overrides[lane].get(&var) {
            return *v & maskw(w);
        }
        match lane {
            0 => 0,
            1 => maskw(w),
            _ => {
                let a = splitmix(self.seed ^ ((var as u64) << 20) ^ lane as u64);
                let b = splitmix(a ^ 0x1234_5678_9abc_def1);
                let v = ((a as u128) << 64) | b as u128;
                // bias a few lanes towards small / boundary values
                let v = match lane {
                    2 => v & 0x0f,
                    3 => v | (maskw(w) << 4),
                    4 => v & 0x1f,
                    _ => v,
                };
                v & maskw(w)
            }
        }
    }

    pub fn eval_op(&self, n: &Node, ks: &[u128], kw: &[u8]) -> u128 {
        let w = n.w;
        let m = maskw(w);
        match n.op {
            Op::Const => n.aux,
            Op::Var => unreachable!(),
            Op::Not => !ks[0] & m,
            Op::And => ks[0] & ks[1],
            Op::Or => ks[0] | ks[1],
            Op::Xor => ks[0] ^ ks[1],
            Op::Add => ks[0].wrapping_add(ks[1]) & m,
            Op::Sub => ks[0].wrapping_sub(ks[1]) & m,
            Op::Mul => ks[0].wrapping_mul(ks[1]) & m,
            Op::UDiv => {
                if ks[1] == 0 {
                    m
                } else {
                    ks[0] / ks[1]
                }
            }
            Op::URem => {
                if ks[1] == 0 {
                    ks[0]
                } else {
                    ks[0] % ks[1]
                }
            }
            Op::SDiv => {
                let (a, b) = (sext128(ks[0], w), sext128(ks[1], w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128 & m
                }
            }
            Op::SRem => {
                let (a, b) = (sext128(ks[0], w), sext128(ks[1], w));
                if b == 0 {
                    ks[0]
                } else {
                    a.wrapping_rem(b) as u128 & m
                }
            }
            Op::Shl => {
                if ks[1] >= w as u128 {
                    0
                } else {
                    (ks[0] << ks[1]) & m
                }
            }
            Op::LShr => {
                if ks[1] >= w as u128 {
                    0
                } else {
                    ks[0] >> ks[1]
                }
            }
            Op::AShr => {
                let s = ks[1].min(w as u128 - 1) as u32;
                (sext128(ks[0], w) >> s) as u128 & m
            }
            Op::Extract => (ks[0] >> n.aux as u32) & m,
            Op::Concat => {
                let mut v = 0u128;
                for (x, xw) in ks.iter().zip(kw) {
                    v = if *xw >= 128 { *x } else { (v << xw) | x };
                }
                v
            }
            Op::SExt => sext128(ks[0], kw[0]) as u128 & m,
            Op::Ite => {
                if ks[0] == 1 {
                    ks[1]
                } else {
                    ks[2]
                }
            }
            Op::Eq => (ks[0] == ks[1]) as u128,
            Op::Ult => (ks[0] < ks[1]) as u128,
            Op::Slt => (sext128(ks[0], kw[0]) < sext128(ks[1], kw[0])) as u128,
            Op::Lookup => self.tables[n.aux as usize].vals[ks[0] as usize],
            Op::App => {
                let mut h = splitmix(n.aux as u64);
                for x in ks {
                    h = splitmix(h ^ *x as u64);
                    h = splitmix(h ^ (*x >> 64) as u64);
                }
                h as u128 & m
            }
        }
    }

    /// Make sure simulation vectors exist for t and everything below it.
    pub fn simulate(&mut self, t: Id) {
        if self.sims.len() < self.nodes.len() {
            self.sims.resize_with(self.nodes.len(), || None);
        }
        if self.sims[t as usize].is_some() {
            return;
        }
        let mut stack = vec![(t, 0usize)];
        while let Some((x, i)) = stack.pop() {
            if self.sims[x as usize].is_some() {
                continue;
            }
            let n = self.nodes[x as usize];
            if i < n.len as usize {
                stack.push((x, i + 1));
                let k = self.args[n.start as usize + i];
                if self.sims[k as usize].is_none() {
                    stack.push((k, 0));
                }
                continue;
            }
            let mut out = Box::new([0u128; LANES]);
            match n.op {
                Op::Const => {
                    for l in 0..LANES {
                        out[l] = n.aux;
                    }
                }
                Op::Var => {
                    for l in 0..LANES {
                        out[l] = self.lane_value(n.aux as u32, l);
                    }
                }
                _ => {
                    let mut kv = [0u128; 16];
                    let mut kwv = [0u8; 16];
                    let nk = n.len as usize;
                    if nk <= 16 {
                        for j in 0..nk {
                            kwv[j] = self.w(self.args[n.start as usize + j]);
                        }
                        for l in 0..LANES {
                            for j in 0..nk {
                                kv[j] = self.sims[self.args[n.start as usize + j] as usize].as_ref().unwrap()[l];
                            }
                            out[l] = self.eval_op(&n, &kv[..nk], &kwv[..nk]);
                        }
                    } else {
                        let ks: Vec<Id> = self.kids(x).to_vec();
                        let kws: Vec<u8> = ks.iter().map(|&k| self.w(k)).collect();
                        let mut kvs = vec![0u128; nk];
                        for l in 0..LANES {
                            for j in 0..nk {
                                kvs[j] = self.sims[ks[j] as usize].as_ref().unwrap()[l];
                            }
                            out[l] = self.eval_op(&n, &kvs, &kws);
                        }
                    }
                }
            }
            self.sims[x as usize] = Some(out);
        }
    }

    pub fn lanes(&mut self, t: Id) -> [u128; LANES] {
        self.simulate(t);
        **self.sims[t as usize].as_ref().unwrap()
    }

    /// Concrete evaluation under a full variable assignment.
    pub fn eval(&self, t: Id, vals: &dyn Fn(u32) -> u128, memo: &mut std::collections::HashMap<Id, u128>) -> u128 {
        let mut stack = vec![(t, 0usize)];
        while let Some((x, i)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = self.nodes[x as usize];
            if i < n.len as usize {
                stack.push((x, i + 1));
                let k = self.args[n.start as usize + i];
                if !memo.contains_key(&k) {
                    stack.push((k, 0));
                }
                continue;
            }
            let v = match n.op {
                Op::Const => n.aux,
                Op::Var => vals(n.aux as u32) & maskw(n.w),
                _ => {
                    let ks: Vec<u128> = self.kids(x).iter().map(|k| memo[k]).collect();
                    let kw: Vec<u8> = self.kids(x).iter().map(|&k| self.w(k)).collect();
                    self.eval_op(&n, &ks, &kw)
                }
            };
            memo.insert(x, v);
        }
        memo[&t]
    }
}
