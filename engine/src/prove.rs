//! Equivalence of terms by SMT, organised as bottom-up sweeping.
//!
//! Simulation values only *suggest* which pairs of terms may be equal; a pair
//! is merged only after the solver has answered unsat for their inequality,
//! possibly for a generalisation in which shared sub-terms are free symbols.

use crate::smt::*;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct LemmaCache {
    pub map: Mutex<HashMap<String, bool>>,
    pub linear_unknown: std::sync::atomic::AtomicU32,
    pub scripts: Mutex<Vec<String>>, // proved lemma bodies, for cross-checking
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub merges: u64,
    pub lemma_cached: u64,
    pub lemma_proved: u64,
    pub lemma_failed: u64,
    pub syntactic: u64,
    pub by_sweep: u64,
    pub by_query: u64,
    pub by_table: u64,
    pub by_gf2: u64,
    pub branch_queries: u64,
    pub rewrites_ok: u64,
    pub rewrites_open: u64,
    pub assumed_feasible: u64,
    pub models: u64,
}

pub struct Prover {
    pub rep: Vec<Id>,
    classes: HashMap<(u8, u64), Vec<Id>>,
    pub solver: Solver,
    pub cache: Arc<LemmaCache>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub final_timeout_ms: u64,
    pub version: u64, // bumped when the lanes change
    next_lane: usize,
    tried_conds: HashSet<(Id, bool)>,
    diversified: HashSet<Vec<Id>>,
    /// lanes with random values, not just what the solver came up with
    random_lanes: u32,
    class_hits: HashMap<Id, u32>,
    infeasible: HashMap<(Vec<Id>, Id), bool>,
    glue_unknown: u32,
    feas_spent: f64,
    /// time in lemma queries that showed nothing
    wasted: f64,
    forms: [HashMap<(Id, u8), std::rc::Rc<Form>>; 2],
}

/// One bit as an XOR of atoms (bits of terms) and a constant.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Form {
    pub one: bool,
    pub atoms: Vec<(Id, u8)>, // sorted
}
impl Form {
    fn atom(t: Id, b: u8) -> Form {
        Form { one: false, atoms: vec![(t, b)] }
    }
    fn constant(b: bool) -> Form {
        Form { one: b, atoms: vec![] }
    }
    fn is(&self, b: bool) -> bool {
        self.atoms.is_empty() && self.one == b
    }
    fn xor(&self, o: &Form) -> Form {
        let mut v = Vec::with_capacity(self.atoms.len() + o.atoms.len());
        let (mut i, mut j) = (0, 0);
        while i < self.atoms.len() || j < o.atoms.len() {
            if j == o.atoms.len() || (i < self.atoms.len() && self.atoms[i] < o.atoms[j]) {
                v.push(self.atoms[i]);
                i += 1;
            } else if i == self.atoms.len() || o.atoms[j] < self.atoms[i] {
                v.push(o.atoms[j]);
                j += 1;
            } else {
                i += 1;
                j += 1;
            }
        }
        Form { one: self.one ^ o.one, atoms: v }
    }
}

pub enum Outcome {
    Proved(&'static str),
    Model(HashMap<u32, u128>),
    Unknown(String),
}

fn hash_lanes(l: &[u128; LANES]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in l {
        h = (h ^ *v as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
        h = (h ^ (*v >> 64) as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    h
}

impl Prover {
    pub fn new(cache: Arc<LemmaCache>, solver: &str, timeout_ms: u64, final_timeout_ms: u64) -> Prover {
        Prover {
            rep: vec![],
            classes: HashMap::new(),
            solver: Solver::new(solver),
            cache,
            stats: Default::default(),
            timeout_ms,
            final_timeout_ms,
            version: 0,
            next_lane: 31,
            tried_conds: HashSet::new(),
            diversified: HashSet::new(),
            random_lanes: u32::MAX,
            class_hits: HashMap::new(),
            infeasible: HashMap::new(),
            glue_unknown: 0,
            feas_spent: 0.0,
            wasted: 0.0,
            forms: [HashMap::new(), HashMap::new()],
        }
    }

    /// Forget everything about a context (new job), keep the solver process.
    pub fn reset(&mut self) {
        self.rep.clear();
        self.classes.clear();
        self.version = 0;
        self.next_lane = 31;
        self.tried_conds.clear();
        self.diversified.clear();
        self.random_lanes = u32::MAX;
        self.class_hits.clear();
        self.infeasible.clear();
        self.glue_unknown = 0;
        self.feas_spent = 0.0;
        self.wasted = 0.0;
        self.forms[0].clear();
        self.forms[1].clear();
    }

    /// XOR normal form of bit `b` of `t` (linear algebra over GF(2); bits that
    /// are not affine in their operands stand for themselves).
    pub fn form(&mut self, c: &Ctx, t: Id, b: u8, depth: u32, mode: usize) -> std::rc::Rc<Form> {
        use std::rc::Rc;
        if let Some(v) = c.cval(t) {
            return Rc::new(Form::constant(v >> b & 1 == 1));
        }
        if let Some(f) = self.forms[mode].get(&(t, b)) {
            return f.clone();
        }
        let n = c.nodes[t as usize];
        let kid = |i: usize| c.kid(t, i);
        let own = Form::atom(t, b);
        let f = if depth > 400 || (mode == 0 && n.w > 8) {
            own
        } else {
            let d = depth + 1;
            match n.op {
                Op::Xor => self.form(c, kid(0), b, d, mode).xor(&*self.form(c, kid(1), b, d, mode)),
                Op::Not => {
                    let mut f = (*self.form(c, kid(0), b, d, mode)).clone();
                    f.one = !f.one;
                    f
                }
                Op::Extract => (*self.form(c, kid(0), b + n.aux as u8, d, mode)).clone(),
                Op::Concat => {
                    // first operand is the most significant
                    let mut pos = b;
                    let mut i = n.len as usize;
                    loop {
                        i -= 1;
                        let w = c.w(kid(i));
                        if pos < w {
                            break (*self.form(c, kid(i), pos, d, mode)).clone();
                        }
                        pos -= w;
                    }
                }
                Op::SExt => {
                    let w = c.w(kid(0));
                    (*self.form(c, kid(0), b.min(w - 1), d, mode)).clone()
                }
                Op::And | Op::Or => {
                    let x = self.form(c, kid(0), b, d, mode);
                    let y = self.form(c, kid(1), b, d, mode);
                    let absorb = n.op == Op::Or;
                    if x.is(absorb) || y.is(absorb) {
                        Form::constant(absorb)
                    } else if x.is(!absorb) || x == y {
                        (*y).clone()
                    } else if y.is(!absorb) {
                        (*x).clone()
                    } else {
                        own
                    }
                }
                Op::Ite => {
                    let x = self.form(c, kid(1), b, d, mode);
                    let y = self.form(c, kid(2), b, d, mode);
                    let df = x.xor(&y);
                    if df.is(false) {
                        (*y).clone()
                    } else if df.is(true) {
                        let k = self.form(c, kid(0), 0, d, mode);
                        y.xor(&k)
                    } else {
                        own
                    }
                }
                Op::Mul => {
                    // constant times a single possibly-set bit
                    let (k, x) = match (c.cval(kid(0)), c.cval(kid(1))) {
                        (Some(k), _) => (Some(k), kid(1)),
                        (_, Some(k)) => (Some(k), kid(0)),
                        _ => (None, t),
                    };
                    let mut r = own;
                    if let Some(k) = k {
                        let live = !c.kz(x) & maskw(n.w);
                        if live.count_ones() == 1 {
                            let p = live.trailing_zeros() as u8;
                            r = if b >= p && k >> (b - p) & 1 == 1 {
                                (*self.form(c, x, p, d, mode)).clone()
                            } else {
                                Form::constant(false)
                            };
                        }
                    }
                    r
                }
                Op::Shl | Op::LShr => match c.cval(kid(1)) {
                    Some(k) => {
                        let j = if n.op == Op::Shl { b as i128 - k as i128 } else { b as i128 + k as i128 };
                        if j < 0 || j >= n.w as i128 {
                            Form::constant(false)
                        } else {
                            (*self.form(c, kid(0), j as u8, d, mode)).clone()
                        }
                    }
                    None => own,
                },
                _ => own,
            }
        };
        let f = if f.atoms.len() > [128, 600][mode] { Form::atom(t, b) } else { f };
        let f = Rc::new(f);
        if self.forms[mode].len() > 500_000 {
            self.forms[mode].clear();
        }
        self.forms[mode].insert((t, b), f.clone());
        f
    }

    fn affine_equal(&mut self, c: &Ctx, a: Id, b: Id) -> bool {
        let w = c.w(a);
        // words as atoms first, then all the way down
        (0..2).any(|mode| (0..w).all(|i| self.form(c, a, i, 0, mode) == self.form(c, b, i, 0, mode)))
    }

    #[inline]
    fn get_rep(&self, t: Id) -> Id {
        self.rep.get(t as usize).copied().unwrap_or(NONE)
    }
    fn set_rep(&mut self, t: Id, r: Id) {
        if self.rep.len() <= t as usize {
            self.rep.resize(t as usize + 1024, NONE);
        }
        self.rep[t as usize] = r;
    }

    /// Representative of t: a term proved equal to t for all inputs.
    pub fn simplify(&mut self, c: &mut Ctx, t: Id) -> Id {
        let r = self.get_rep(t);
        if r != NONE {
            return r;
        }
        let mut stack = vec![(t, 0usize)];
        while let Some((x, i)) = stack.pop() {
            if self.get_rep(x) != NONE {
                continue;
            }
            let n = c.nodes[x as usize];
            if i < n.len as usize {
                stack.push((x, i + 1));
                let k = c.args[n.start as usize + i];
                if self.get_rep(k) == NONE {
                    stack.push((k, 0));
                }
                continue;
            }
            let mut changed = false;
            let ks: Vec<Id> = (0..n.len as usize)
                .map(|j| {
                    let k = c.args[n.start as usize + j];
                    let r = self.get_rep(k);
                    changed |= r != k;
                    r
                })
                .collect();
            let y = if changed { c.rebuild(x, &ks) } else { x };
            if y != x {
                let ry = self.get_rep(y);
                if ry != NONE {
                    self.set_rep(x, ry);
                    continue;
                }
                // rebuilt node may contain unswept children: process it first
                let mut pending = false;
                let kk: Vec<Id> = c.kids(y).to_vec();
                for k in kk {
                    if self.get_rep(k) == NONE {
                        pending = true;
                    }
                }
                if pending {
                    let r = self.simplify(c, y);
                    self.set_rep(x, r);
                    continue;
                }
            }
            let r = self.classify(c, y);
            self.set_rep(y, r);
            self.set_rep(x, r);
        }
        self.get_rep(t)
    }

    fn classify(&mut self, c: &mut Ctx, y: Id) -> Id {
        let n = c.nodes[y as usize];
        if matches!(n.op, Op::Const | Op::Var) || n.w < 5 {
            if n.op == Op::Var {
                let l = c.lanes(y);
                self.classes.entry((n.w, hash_lanes(&l))).or_default().push(y);
            }
            return y;
        }
        let l = c.lanes(y);
        if matches!(n.op, Op::Concat | Op::Extract | Op::SExt) && n.w <= 8 {
            // glue only; still enter the class so that others can find it
        }
        if l.iter().all(|v| *v == l[0]) {
            // constant candidate
            let k = c.c(n.w, l[0]);
            if self.try_merge(c, k, y) {
                return k;
            }
        }
        let key = (n.w, hash_lanes(&l));
        let cands = self.classes.get(&key).cloned().unwrap_or_default();
        let mut tries = 0;
        for m in cands {
            if m == y {
                return y;
            }
            tries += 1;
            if tries > 3 {
                break;
            }
            if self.try_merge(c, m, y) {
                self.stats.merges += 1;
                return m;
            }
        }
        self.classes.entry(key).or_default().push(y);
        y
    }

    /// Attempt to prove a == b from local structure.
    fn try_merge(&mut self, c: &mut Ctx, a: Id, b: Id) -> bool {
        // the same slice of two different words: rarely equal when the words are
        // not, and then hard to refute; only a few short attempts
        let glue = c.op(a) == Op::Extract
            && c.op(b) == Op::Extract
            && c.nodes[a as usize].aux == c.nodes[b as usize].aux
            && c.w(c.kid(a, 0)) == c.w(c.kid(b, 0));
        if glue && self.glue_unknown >= 6 {
            return false;
        }
        let timeout_ms = if glue { self.timeout_ms.min(300) } else { self.timeout_ms };
        // equal as XOR combinations? The solver is asked all the same, but bit
        // blasting is poor at parities: the algebra decides if it gives up
        let linear = c.w(a) <= 8 && !glue && self.affine_equal(c, a, b);
        let timeout_ms = if linear { timeout_ms.min(250) } else { timeout_ms };
        if !(linear && self.cache.linear_unknown.load(std::sync::atomic::Ordering::Relaxed) >= 24) && self.by_windows(c, a, b, glue, linear, timeout_ms) {
            return true;
        }
        if linear {
            self.stats.by_gf2 += 1;
        }
        linear
    }

    /// Have the solver confirm the simplifications noted while terms were
    /// built.  Err: one of them is wrong.
    pub fn confirm_notes(&mut self, c: &mut Ctx, deadline: std::time::Instant) -> Result<(), String> {
        c.note_left = 0;
        for (op, w, aux, ks, t) in std::mem::take(&mut c.notes) {
            if std::time::Instant::now() > deadline {
                break;
            }
            let r = c.raw(op, w, aux, &ks);
            if r == t {
                continue;
            }
            let (lr, lt) = (c.lanes(r), c.lanes(t));
            if lr != lt {
                return Err(format!("simplification of {:?} is wrong on a simulated input", op));
            }
            let before = self.stats.lemma_proved + self.stats.lemma_cached;
            if self.by_windows(c, r, t, false, false, 1000) {
                self.stats.rewrites_ok += 1;
            } else {
                self.stats.rewrites_open += 1;
            }
            let _ = before;
        }
        Ok(())
    }

    fn by_windows(&mut self, c: &mut Ctx, a: Id, b: Id, glue: bool, linear: bool, timeout_ms: u64) -> bool {
        // progressively larger windows
        let plans: [(usize, usize); 6] = [(0, 4), (1, 6), (2, 10), (4, 16), (6, 24), (10, 64)];
        let mut last_key = String::new();
        for (pi, &(mind, maxd)) in plans.iter().enumerate() {
            if (linear && pi >= 3) || (self.wasted > 30.0 && pi >= 4) || (self.wasted > 90.0 && pi >= 3) {
                break;
            }
            let expand_lookup = pi >= 2;
            let leaves = self.cut(c, a, b, mind, maxd, expand_lookup);
            let (leaves, size) = match leaves {
                Some(x) => x,
                None => break,
            };
            let key = canon(c, a, b, &leaves);
            if key == last_key {
                continue;
            }
            if size > 20000 {
                break;
            }
            let known = self.cache.map.lock().unwrap().get(&key).copied();
            let proved = match known {
                Some(p) => {
                    if p {
                        self.stats.lemma_cached += 1;
                    }
                    p
                }
                None => {
                    let mut e = Emit::new();
                    let f = |x: Id| leaves.contains(&x);
                    let ta = e.term(c, a, &f);
                    let tb = e.term(c, b, &f);
                    let body = e.body(&format!("(assert (distinct {} {}))\n", ta, tb));
                    let names = if leaves.is_empty() || e.leaves.iter().all(|&l| c.op(l) == Op::Var) {
                        e.leaf_names()
                    } else {
                        vec![]
                    };
                    let limit = if self.wasted > 90.0 { timeout_ms.min(150) } else if self.wasted > 30.0 { timeout_ms.min(500) } else { timeout_ms };
                    let t0 = std::time::Instant::now();
                    let r = self.solver.query(&body, &names, limit);
                    if !matches!(r, Res::Unsat) {
                        self.wasted += t0.elapsed().as_secs_f64();
                    }
                    if glue && !matches!(r, Res::Unsat) {
                        self.glue_unknown += 1;
                    }
                    match r {
                        Res::Unsat => {
                            self.stats.lemma_proved += 1;
                            self.cache.map.lock().unwrap().insert(key.clone(), true);
                            let mut s = self.cache.scripts.lock().unwrap();
                            if s.len() < 4000 {
                                s.push(body);
                            }
                            true
                        }
                        Res::Sat(vals) => {
                            self.stats.lemma_failed += 1;
                            self.cache.map.lock().unwrap().insert(key.clone(), false);
                            if !names.is_empty() {
                                // a genuine distinguishing input: remember it as a lane
                                let m: HashMap<u32, u128> = e
                                    .leaves
                                    .iter()
                                    .zip(vals)
                                    .map(|(&l, v)| (c.nodes[l as usize].aux as u32, v))
                                    .collect();
                                self.add_lane(c, m);
                                return false;
                            }
                            false
                        }
                        Res::Unknown(_) => {
                            self.cache.linear_unknown.fetch_add(linear as u32, std::sync::atomic::Ordering::Relaxed);
                            self.cache.map.lock().unwrap().insert(key.clone(), false);
                            // larger windows only get harder
                            return false;
                        }
                    }
                }
            };
            if proved {
                return true;
            }
            last_key = key;
        }
        false
    }

    /// Choose the cut for a pair: shared nodes at distance >= mind, or anything
    /// at distance maxd.
    fn cut(&self, c: &Ctx, a: Id, b: Id, mind: usize, maxd: usize, expand_lookup: bool) -> Option<(HashSet<Id>, usize)> {
        let transparent = |x: Id| matches!(c.op(x), Op::Concat | Op::Extract | Op::SExt | Op::Not);
        let cone = |r: Id| -> HashMap<Id, usize> {
            let mut d: HashMap<Id, usize> = HashMap::new();
            let mut q = std::collections::VecDeque::new();
            d.insert(r, 0);
            q.push_back(r);
            while let Some(x) = q.pop_front() {
                let dx = d[&x];
                if d.len() > 6000 {
                    break;
                }
                if dx > maxd {
                    continue;
                }
                if c.op(x) == Op::Lookup && !expand_lookup && dx > 0 {
                    continue;
                }
                let step = if transparent(x) { 0 } else { 1 };
                for &k in c.kids(x) {
                    if !d.contains_key(&k) {
                        d.insert(k, dx + step);
                        if step == 0 {
                            q.push_front(k);
                        } else {
                            q.push_back(k);
                        }
                    }
                }
            }
            d
        };
        let (da, db) = (cone(a), cone(b));
        let is_leaf = |x: Id| -> bool {
            if transparent(x) || matches!(c.op(x), Op::Const | Op::Var) {
                return false;
            }
            if x == a && x == b {
                return true;
            }
            match (da.get(&x), db.get(&x)) {
                (Some(&p), Some(&q)) => {
                    if p.min(q) >= mind {
                        return true;
                    }
                    p.min(q) >= maxd
                }
                (Some(&p), None) | (None, Some(&p)) => {
                    p >= maxd || (c.op(x) == Op::Lookup && !expand_lookup && x != a && x != b)
                }
                (None, None) => true,
            }
        };
        // collect the actual leaves from the roots
        let mut leaves = HashSet::new();
        let mut seen = HashSet::new();
        let mut st = vec![a, b];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > 30000 {
                return None;
            }
            if x != a && x != b && is_leaf(x) {
                leaves.insert(x);
                continue;
            }
            st.extend_from_slice(c.kids(x));
        }
        // a root may itself occur below the other one
        if (mind == 0) && c.op(a) != Op::Const {
            // b's cone contains a: let a be free
            if db.contains_key(&a) && !transparent(a) {
                leaves.insert(a);
            } else if da.contains_key(&b) && !transparent(b) {
                leaves.insert(b);
            }
        }
        Some((leaves, seen.len()))
    }

    pub fn add_lane(&mut self, c: &mut Ctx, m: HashMap<u32, u128>) {
        let l = self.next_lane;
        self.next_lane = if l <= 6 { 31 } else { l - 1 };
        c.lane_overrides[l] = m;
        self.random_lanes &= !(1 << l);
        c.sims.clear();
        self.classes.clear();
        self.version += 1;
        self.stats.models += 1;
        // classes must be rebuilt lazily: representatives re-enter on demand
        let reps: HashSet<Id> = self.rep.iter().copied().filter(|r| *r != NONE).collect();
        let mut reps: Vec<Id> = reps.into_iter().collect();
        reps.sort_unstable();
        for r in reps {
            let n = c.nodes[r as usize];
            if n.op == Op::Const || (n.w < 5 && n.op != Op::Var) {
                continue;
            }
            let ls = c.lanes(r);
            self.classes.entry((n.w, hash_lanes(&ls))).or_default().push(r);
        }
    }

    pub fn lane_model(&self, c: &mut Ctx, lane: usize) -> HashMap<u32, u128> {
        let mut m = HashMap::new();
        for v in 0..c.vars.len() as u32 {
            m.insert(v, c.lane_value(v, lane));
        }
        m
    }

    /// lanes (bitmask) on which all terms hold
    pub fn lanes_of(&self, c: &mut Ctx, pc: &[Id]) -> u32 {
        let mut m = u32::MAX;
        for &p in pc {
            let l = c.lanes(p);
            for i in 0..LANES {
                if l[i] != 1 {
                    m &= !(1 << i);
                }
            }
        }
        m
    }

    /// Is the conjunction satisfiable?  Ok(Some(model)) / Ok(None) = unsat.
    pub fn solve(&mut self, c: &mut Ctx, conj: &[Id], timeout: u64) -> Result<Option<HashMap<u32, u128>>, String> {
        if self.unsat_by_cut(c, conj, &[5, 12, 30]) {
            return Ok(None);
        }
        let mut e = Emit::new();
        let mut a = String::new();
        for &p in conj {
            if let Some(v) = c.cval(p) {
                if v == 0 {
                    return Ok(None);
                }
                continue;
            }
            let t = e.term(c, p, &|_| false);
            a.push_str(&format!("(assert (= {} #b1))\n", t));
        }
        if a.is_empty() {
            return Ok(Some(HashMap::new()));
        }
        let names = e.leaf_names();
        self.stats.branch_queries += 1;
        match self.solver.query(&e.body(&a), &names, timeout) {
            Res::Unsat => Ok(None),
            Res::Sat(vals) => Ok(Some(
                e.leaves.iter().zip(vals).map(|(&l, v)| (c.nodes[l as usize].aux as u32, v)).collect(),
            )),
            Res::Unknown(s) => Err(s),
        }
    }

    /// The conjunction with every node at distance `lim` from its roots
    /// replaced by a free symbol.  None: unsat.  Some(n): not shown, n nodes.
    fn solve_cut(&mut self, c: &mut Ctx, conj: &[Id], lim: usize) -> Option<usize> {
        let mut dist: HashMap<Id, usize> = HashMap::new();
        let mut q = std::collections::VecDeque::new();
        for &p in conj {
            match c.cval(p) {
                Some(0) => return None,
                Some(_) => {}
                None => {
                    dist.insert(p, 0);
                    q.push_back(p);
                }
            }
        }
        let mut cut = false;
        while let Some(x) = q.pop_front() {
            let d = dist[&x];
            if matches!(c.op(x), Op::Var | Op::Const | Op::App) {
                continue;
            }
            if d >= lim {
                cut = true;
                continue;
            }
            if dist.len() > 3000 {
                break;
            }
            for &k in c.kids(x) {
                if !dist.contains_key(&k) {
                    dist.insert(k, d + 1);
                    q.push_back(k);
                }
            }
        }
        if !cut {
            return Some(0);
        }
        let leaf = |x: Id| dist.get(&x).map_or(true, |d| *d >= lim);
        let mut e = Emit::new();
        let mut a = String::new();
        for &p in conj {
            if c.cval(p).is_none() {
                let t = e.term(c, p, &leaf);
                a.push_str(&format!("(assert (= {} #b1))\n", t));
            }
        }
        self.stats.branch_queries += 1;
        let t = self.timeout_ms.min(1500);
        match self.solver.query(&e.body(&a), &[], t) {
            Res::Unsat => None,
            _ => Some(dist.len()),
        }
    }

    /// Deep terms first as free symbols: unsat then holds for any value.
    fn unsat_by_cut(&mut self, c: &mut Ctx, conj: &[Id], limits: &[usize]) -> bool {
        let mut size = 0;
        for &lim in limits {
            match self.solve_cut(c, conj, lim) {
                Some(n) if n > size => size = n,
                Some(_) => break,
                None => return true,
            }
        }
        false
    }

    /// More than `n` nodes below these terms?
    fn larger_than(&self, c: &Ctx, ts: &[Id], n: usize) -> bool {
        let mut seen: HashSet<Id> = HashSet::new();
        let mut st = ts.to_vec();
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                if seen.len() > n {
                    return true;
                }
                st.extend_from_slice(c.kids(x));
            }
        }
        false
    }

    /// Can `cond` hold under pc?  Unknown counts as yes.
    pub fn feasible(&mut self, c: &mut Ctx, pc: &[Id], cond: Id, exact: bool) -> bool {
        if !exact && self.feas_spent > 60.0 {
            self.stats.assumed_feasible += 1;
            return true;
        }
        let w0 = self.wasted;
        let cond = self.simplify(c, cond);
        if let Some(v) = c.cval(cond) {
            if v == 0 {
                return false;
            }
        }
        let mut conj: Vec<Id> = pc.iter().map(|&p| self.simplify(c, p)).collect();
        self.feas_spent += self.wasted - w0;
        if conj.contains(&cond) {
            return true;
        }
        let nc = c.not(cond);
        if conj.contains(&nc) {
            return false;
        }
        let key = (conj.clone(), cond);
        if let Some(&r) = self.infeasible.get(&key) {
            return r;
        }
        conj.push(cond);
        let t0 = std::time::Instant::now();
        if self.larger_than(c, &conj, 1500) {
            // a whole cipher below the condition: taking the branch is sound,
            // deciding it exactly is out of the solver's reach
            let r = !self.unsat_by_cut(c, &conj, &[5, 12]);
            self.stats.assumed_feasible += r as u64;
            self.feas_spent += t0.elapsed().as_secs_f64();
            self.infeasible.insert(key, r);
            return r;
        }
        // taking a branch that cannot be taken is sound, only slow: little
        // effort goes into deciding it, and less once it has proved hard
        let limit = if exact { self.final_timeout_ms / 2 } else if self.feas_spent > 40.0 { 100 } else { 4000 };
        let r = match self.solve(c, &conj, limit) {
            Ok(None) => false,
            Ok(Some(m)) => {
                self.add_lane(c, m);
                true
            }
            Err(_) => {
                self.stats.assumed_feasible += 1;
                true
            }
        };
        self.feas_spent += t0.elapsed().as_secs_f64();
        self.infeasible.insert(key, r);
        r
    }

    /// Is `goal` (1 bit) implied by pc?
    pub fn prove(&mut self, c: &mut Ctx, pc: &[Id], goal: Id) -> Outcome {
        if c.cval(goal) == Some(1) {
            self.stats.syntactic += 1;
            return Outcome::Proved("syntactic");
        }
        let mut tried = false;
        for round in 0..24 {
            // 1. simulation lanes that satisfy pc
            let ok = self.lanes_of(c, pc);
            let g = c.lanes(goal);
            for i in 0..LANES {
                if ok >> i & 1 == 1 && g[i] == 0 {
                    return Outcome::Model(self.lane_model(c, i));
                }
            }
            // 2. sweeping
            let v0 = self.version;
            let s = self.simplify(c, goal);
            if c.cval(s) == Some(1) {
                self.stats.by_sweep += 1;
                return Outcome::Proved("sweep");
            }
            if self.version != v0 {
                continue;
            }
            let pcs: Vec<Id> = pc.iter().map(|&p| self.simplify(c, p)).collect();
            if self.version != v0 {
                continue;
            }
            // 3. exercise branch conditions no lane has covered
            if round < 20 && self.cover_conds(c, &pcs, s) {
                continue;
            }
            // 4. inputs that satisfy the path condition and are otherwise random
            if !tried {
                tried = true;
                let mut any = !pcs.is_empty() && self.random_models(c, &pcs);
                for path in self.rare_paths(c, &pcs, s) {
                    let mut conj = pcs.clone();
                    conj.extend_from_slice(&path);
                    any |= self.random_models(c, &conj);
                }
                if any {
                    continue;
                }
            }
            // 5. the full query
            let ng = c.not(s);
            let mut conj = pcs.clone();
            conj.push(ng);
            return match self.solve(c, &conj, self.final_timeout_ms) {
                Ok(None) => {
                    self.stats.by_query += 1;
                    Outcome::Proved("query")
                }
                Ok(Some(m)) => Outcome::Model(m),
                Err(e) => Outcome::Unknown(e),
            };
        }
        Outcome::Unknown("too many refinement rounds".into())
    }

    /// Branches below t that hardly any lane takes: each as the conditions
    /// on the way to it, the deepest first.
    fn rare_paths(&mut self, c: &mut Ctx, pc: &[Id], t: Id) -> Vec<Vec<Id>> {
        let ok = self.lanes_of(c, pc);
        let mut seen = HashSet::new();
        let mut q: std::collections::VecDeque<(Id, u32, Vec<Id>)> = Default::default();
        q.push_back((t, ok, vec![]));
        let mut out: Vec<Vec<Id>> = vec![];
        while let Some((x, mask, path)) = q.pop_front() {
            if !seen.insert(x) {
                continue;
            }
            if c.op(x) != Op::Ite {
                for &k in c.kids(x) {
                    q.push_back((k, mask, path.clone()));
                }
                continue;
            }
            let (k, a, b) = (c.kid(x, 0), c.kid(x, 1), c.kid(x, 2));
            let l = c.lanes(k);
            let mut on = 0u32;
            for i in 0..LANES {
                on |= (l[i] as u32 & 1) << i;
            }
            q.push_back((k, mask, path.clone()));
            for (y, m, take) in [(a, mask & on, true), (b, mask & !on, false)] {
                let mut p2 = path.clone();
                if p2.len() < 64 {
                    let kk = if take { k } else { c.not(k) };
                    p2.push(kk);
                    if m & self.random_lanes == 0 && out.len() < 4000 {
                        out.push(p2.clone());
                    }
                }
                q.push_back((y, m, p2));
            }
        }
        out.sort_by_key(|p| std::cmp::Reverse(p.len()));
        let mut keep: Vec<Vec<Id>> = vec![];
        for p in out.iter() {
            if keep.len() < 6 && !keep.iter().any(|k| k.starts_with(p)) {
                keep.push(p.clone());
            }
        }
        // a single condition may itself be made of many
        for p in out.iter().rev() {
            if keep.len() < 12 && !keep.contains(p) {
                keep.push(p.clone());
            }
        }
        keep
    }

    /// Models of pc in which as many variables as possible have random
    /// values, added as lanes.  A goal that is false on one of them is
    /// refuted without solving for it.
    fn random_models(&mut self, c: &mut Ctx, pc: &[Id]) -> bool {
        if self.larger_than(c, pc, 1500) {
            return false;
        }
        let mut seen: HashSet<Id> = HashSet::new();
        let mut st = pc.to_vec();
        let mut vars = vec![];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                if c.op(x) == Op::Var {
                    vars.push(x);
                }
                st.extend_from_slice(c.kids(x));
            }
        }
        if vars.is_empty() || vars.len() > 400 {
            return false;
        }
        vars.sort_unstable();
        let mut key: Vec<Id> = pc.to_vec();
        key.sort_unstable();
        if !self.diversified.insert(key) {
            return false;
        }
        let start = std::time::Instant::now();
        let mut found = false;
        for round in 0..3u64 {
            let mut fixed = pc.to_vec();
            let mut model = None;
            // random order, random values
            let mut order: Vec<(u64, Id)> = vars.iter().map(|&v| (splitmix(v as u64 * 8 + round), v)).collect();
            order.sort_unstable();
            let eqs: Vec<Id> = order
                .iter()
                .map(|&(h, v)| {
                    let w = c.w(v);
                    let r = splitmix(h) as u128 | (splitmix(h ^ 77) as u128) << 64;
                    let r = if w >= 128 { r } else { r & ((1u128 << w) - 1) };
                    let k = c.c(w, r);
                    c.eq(v, k)
                })
                .collect();
            let mut work = vec![(0, eqs.len())];
            while let Some((a, b)) = work.pop() {
                if start.elapsed().as_secs() > 20 {
                    break;
                }
                let mut conj = fixed.clone();
                conj.extend_from_slice(&eqs[a..b]);
                match self.plain(c, &conj, 2000) {
                    Some(m) => {
                        fixed = conj;
                        model = Some(m);
                    }
                    None if b - a > 1 => {
                        let h = (a + b) / 2;
                        work.push((h, b));
                        work.push((a, h));
                    }
                    None => {}
                }
            }
            if let Some(m) = model {
                let l = self.next_lane;
                self.add_lane(c, m);
                self.random_lanes |= 1 << l;
                found = true;
            }
        }
        found
    }
    /// A model of the conjunction, asked of the solver as it stands.
    fn plain(&mut self, c: &mut Ctx, conj: &[Id], timeout: u64) -> Option<HashMap<u32, u128>> {
        let mut e = Emit::new();
        let mut a = String::new();
        for &p in conj {
            match c.cval(p) {
                Some(0) => return None,
                Some(_) => continue,
                None => {}
            }
            let t = e.term(c, p, &|_| false);
            a.push_str(&format!("(assert (= {} #b1))\n", t));
        }
        let names = e.leaf_names();
        self.stats.branch_queries += 1;
        match self.solver.query(&e.body(&a), &names, timeout) {
            Res::Sat(vals) => Some(e.leaves.iter().zip(vals).map(|(&l, v)| (c.nodes[l as usize].aux as u32, v)).collect()),
            _ => None,
        }
    }

    /// Find 1-bit conditions in the cone that are constant over all lanes and
    /// ask the solver for inputs that flip them.  Returns true if a lane was
    /// added.
    fn cover_conds(&mut self, c: &mut Ctx, pc: &[Id], t: Id) -> bool {
        let mut seen = HashSet::new();
        let mut st = vec![t];
        let mut conds: Vec<Id> = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if c.op(x) == Op::Ite {
                conds.push(c.kid(x, 0));
            }
            st.extend_from_slice(c.kids(x));
        }
        conds.sort_unstable();
        conds.dedup();
        let ok = self.lanes_of(c, pc);
        let mut budget = 12;
        for k in conds {
            let l = c.lanes(k);
            let (mut t1, mut t0) = (false, false);
            for i in 0..LANES {
                if ok >> i & 1 == 1 {
                    if l[i] == 1 {
                        t1 = true
                    } else {
                        t0 = true
                    }
                }
            }
            for (have, want) in [(t1, true), (t0, false)] {
                if have || !self.tried_conds.insert((k, want)) {
                    continue;
                }
                budget -= 1;
                if budget == 0 {
                    return false;
                }
                let kk = if want { k } else { c.not(k) };
                let mut conj = pc.to_vec();
                conj.push(kk);
                if let Ok(Some(m)) = self.solve(c, &conj, 5000) {
                    self.add_lane(c, m);
                    return true;
                }
            }
        }
        false
    }
}

/// Canonical serialisation of the pair (a, b) relative to a cut.
fn canon(c: &Ctx, a: Id, b: Id, leaves: &HashSet<Id>) -> String {
    use std::fmt::Write;
    let mut num: HashMap<Id, u32> = HashMap::new();
    let mut s = String::new();
    for &r in &[a, b] {
        let mut stack = vec![(r, 0usize)];
        while let Some((x, i)) = stack.pop() {
            if num.contains_key(&x) {
                continue;
            }
            let n = c.nodes[x as usize];
            let leaf = n.op == Op::Var || leaves.contains(&x) || n.op == Op::App;
            if leaf && n.op != Op::Const {
                let k = num.len() as u32;
                num.insert(x, k);
                let _ = write!(s, "L{};", n.w);
                continue;
            }
            if i < n.len as usize {
                stack.push((x, i + 1));
                stack.push((c.args[n.start as usize + i], 0));
                continue;
            }
            let _ = write!(s, "{}:{}:", n.op as u8, n.w);
            if n.op == Op::Lookup {
                // table contents, not the per-context number
                let mut h = 0u64;
                for v in &c.tables[n.aux as usize].vals {
                    h = splitmix(h ^ *v as u64);
                }
                let _ = write!(s, "t{:x}", h);
            } else {
                let _ = write!(s, "{:x}", n.aux);
            }
            for j in 0..n.len as usize {
                let _ = write!(s, ",{}", num[&c.args[n.start as usize + j]]);
            }
            s.push(';');
            let k = num.len() as u32;
            num.insert(x, k);
        }
        let _ = write!(s, "R{};", num[&r]);
    }
    s
}
