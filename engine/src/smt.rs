//! A solver process driven over a pipe with SMT-LIB 2.

use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::os::unix::io::AsRawFd;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Debug, Clone)]
pub enum Res {
    Unsat,
    Sat(Vec<u128>),
    Unknown(String),
}

pub struct Solver {
    pub kind: String,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub queries: u64,
    pub time: f64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub slowest: f64,
    deadline: Option<std::time::Instant>,
    /// no query runs past this point
    pub end: Option<std::time::Instant>,
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

impl Solver {
    pub fn new(kind: &str) -> Solver {
        Solver { kind: kind.to_string(), child: None, queries: 0, time: 0.0, unsat: 0, sat: 0, unknown: 0, slowest: 0.0, deadline: None, end: None }
    }
    fn kill(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn start(&mut self) -> Result<(), String> {
        if self.child.is_some() {
            return Ok(());
        }
        let mut cmd = if self.kind.starts_with("cvc5") {
            let mut c = Command::new("cvc5");
            c.args(["--incremental", "--produce-models", "--lang=smt2", "-q"]);
            c
        } else {
            let mut c = Command::new(&self.kind);
            c.arg("-in");
            c
        };
        let mut ch = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start {}: {}", self.kind, e))?;
        let i = ch.stdin.take().unwrap();
        let o = BufReader::new(ch.stdout.take().unwrap());
        self.child = Some((ch, i, o));
        Ok(())
    }

    /// Decide one closed query.  `decls` declares symbols v0..; `asserts` is the
    /// body.  `names` are evaluated in a model.
    pub fn query(&mut self, body: &str, names: &[String], timeout_ms: u64) -> Res {
        let t0 = std::time::Instant::now();
        let mut timeout_ms = timeout_ms;
        if let Some(e) = self.end {
            let left = e.saturating_duration_since(t0).as_millis() as u64;
            if left == 0 {
                return Res::Unknown("time budget exhausted".into());
            }
            timeout_ms = timeout_ms.min(left + 500);
        }
        let r = self.query_inner(body, names, timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        match &r {
            Res::Unsat => self.unsat += 1,
            Res::Sat(_) => self.sat += 1,
            Res::Unknown(_) => {
                self.unknown += 1;
                if let Ok(d) = std::env::var("SYMEX_DUMP") {
                    let _ = std::fs::write(format!("{}/q{}_{:p}.smt2", d, self.queries, &self), body);
                }
                self.kill();
            }
        }
        r
    }

    fn query_inner(&mut self, body: &str, names: &[String], timeout_ms: u64) -> Res {
        if let Err(e) = self.start() {
            return Res::Unknown(e);
        }
        // solvers do not always honour their own limit
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_millis(timeout_ms + timeout_ms / 4 + 1000));
        let is_cvc5 = self.kind.starts_with("cvc5");
        let mut s = String::new();
        s.push_str("(reset)\n");
        if is_cvc5 {
            let _ = writeln!(s, "(set-option :tlimit-per {})\n(set-option :produce-models true)", timeout_ms);
        } else {
            let _ = writeln!(s, "(set-option :timeout {})", timeout_ms);
        }
        s.push_str("(set-logic QF_BV)\n");
        s.push_str(body);
        s.push_str("(check-sat)\n(echo \"<done>\")\n");
        let mut lines = match self.exchange(&s) {
            Ok(l) => l,
            Err(e) => return Res::Unknown(e),
        };
        if lines.iter().any(|l| l.contains("(error")) {
            return Res::Unknown(lines.join(" "));
        }
        let verdict = lines.pop().unwrap_or_default();
        match verdict.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if names.is_empty() {
                    return Res::Sat(vec![]);
                }
                let mut q = String::new();
                for n in names {
                    let _ = writeln!(q, "(get-value ({}))", n);
                }
                q.push_str("(echo \"<done>\")\n");
                match self.exchange(&q) {
                    Ok(ls) => {
                        let txt = ls.join("\n");
                        if txt.contains("(error") {
                            return Res::Unknown(txt);
                        }
                        let mut vals = vec![];
                        for part in txt.split("((").skip(1) {
                            let v = if let Some(k) = part.find("#x") {
                                let h: String = part[k + 2..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                                u128::from_str_radix(&h, 16).unwrap_or(0)
                            } else if let Some(k) = part.find("#b") {
                                let h: String = part[k + 2..].chars().take_while(|c| *c == '0' || *c == '1').collect();
                                u128::from_str_radix(&h, 2).unwrap_or(0)
                            } else {
                                return Res::Unknown(format!("model value {}", part));
                            };
                            vals.push(v);
                        }
                        if vals.len() != names.len() {
                            return Res::Unknown("model size".into());
                        }
                        Res::Sat(vals)
                    }
                    Err(e) => Res::Unknown(e),
                }
            }
            v => Res::Unknown(v.to_string()),
        }
    }

    fn exchange(&mut self, s: &str) -> Result<Vec<String>, String> {
        let (_, i, o) = self.child.as_mut().unwrap();
        i.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut out = vec![];
        loop {
            let mut l = String::new();
            if o.buffer().is_empty() {
                if let Some(d) = self.deadline {
                    let left = d.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
                    let mut p = PollFd { fd: o.get_ref().as_raw_fd(), events: 1, revents: 0 };
                    if left == 0 || unsafe { poll(&mut p, 1, left) } == 0 {
                        return Err("timeout (killed)".into());
                    }
                }
            }
            let n = o.read_line(&mut l).map_err(|e| e.to_string())?;
            if n == 0 {
                return Err("solver died".into());
            }
            let l = l.trim().trim_matches('"').to_string();
            if l == "<done>" {
                return Ok(out);
            }
            if !l.is_empty() {
                out.push(l);
            }
        }
    }
}

/// Serialises terms to SMT-LIB.  Nodes for which `leaf` returns true become
/// free symbols.
pub struct Emit {
    pub text: String,
    pub names: HashMap<Id, String>,
    pub leaves: Vec<Id>,
    tables: HashMap<u32, ()>,
    head: String,
}

impl Emit {
    pub fn new() -> Emit {
        Emit { text: String::new(), names: HashMap::new(), leaves: vec![], tables: HashMap::new(), head: String::new() }
    }

    fn table_body(vals: &[u128], iw: u8, w: u8, bit: i32, lo: usize, out: &mut String) {
        let n = 1usize << (bit + 1);
        let first = vals.get(lo).copied().unwrap_or(0);
        if (lo..lo + n).all(|i| vals.get(i).map_or(true, |v| *v == first)) {
            let _ = write!(out, "(_ bv{} {})", first, w);
            return;
        }
        let _ = write!(out, "(ite (= ((_ extract {} {}) x) #b1) ", bit, bit);
        Self::table_body(vals, iw, w, bit - 1, lo + n / 2, out);
        out.push(' ');
        Self::table_body(vals, iw, w, bit - 1, lo, out);
        out.push(')');
    }

    pub fn term(&mut self, c: &Ctx, root: Id, leaf: &dyn Fn(Id) -> bool) -> String {
        let mut stack = vec![(root, 0usize)];
        while let Some((x, i)) = stack.pop() {
            if self.names.contains_key(&x) {
                continue;
            }
            let n = c.nodes[x as usize];
            let is_leaf = n.op == Op::Var || (n.op != Op::Const && leaf(x)) || n.op == Op::App;
            if n.op == Op::Const {
                self.names.insert(x, format!("(_ bv{} {})", n.aux, n.w));
                continue;
            }
            if is_leaf {
                let nm = format!("v{}", self.leaves.len());
                let _ = writeln!(self.head, "(declare-const {} (_ BitVec {}))", nm, n.w);
                self.leaves.push(x);
                self.names.insert(x, nm);
                continue;
            }
            if i < n.len as usize {
                stack.push((x, i + 1));
                let k = c.args[n.start as usize + i];
                if !self.names.contains_key(&k) {
                    stack.push((k, 0));
                }
                continue;
            }
            let k = |j: usize| -> &str { &self.names[&c.kid(x, j)] };
            let e = match n.op {
                Op::Not => format!("(bvnot {})", k(0)),
                Op::And => format!("(bvand {} {})", k(0), k(1)),
                Op::Or => format!("(bvor {} {})", k(0), k(1)),
                Op::Xor => format!("(bvxor {} {})", k(0), k(1)),
                Op::Add => format!("(bvadd {} {})", k(0), k(1)),
                Op::Sub => format!("(bvsub {} {})", k(0), k(1)),
                Op::Mul => format!("(bvmul {} {})", k(0), k(1)),
                Op::UDiv => format!("(bvudiv {} {})", k(0), k(1)),
                Op::URem => format!("(bvurem {} {})", k(0), k(1)),
                Op::SDiv => format!("(bvsdiv {} {})", k(0), k(1)),
                Op::SRem => format!("(bvsrem {} {})", k(0), k(1)),
                Op::Shl => format!("(bvshl {} {})", k(0), k(1)),
                Op::LShr => format!("(bvlshr {} {})", k(0), k(1)),
                Op::AShr => format!("(bvashr {} {})", k(0), k(1)),
                Op::Extract => format!("((_ extract {} {}) {})", n.aux as u32 + n.w as u32 - 1, n.aux, k(0)),
                Op::Concat => {
                    let mut s = String::from("(concat");
                    for j in 0..n.len as usize {
                        s.push(' ');
                        s.push_str(k(j));
                    }
                    s.push(')');
                    s
                }
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - c.w(c.kid(x, 0)), k(0)),
                Op::Ite => format!("(ite (= {} #b1) {} {})", k(0), k(1), k(2)),
                Op::Eq => format!("(ite (= {} {}) #b1 #b0)", k(0), k(1)),
                Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", k(0), k(1)),
                Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", k(0), k(1)),
                Op::Lookup => {
                    let t = n.aux as u32;
                    if self.tables.insert(t, ()).is_none() {
                        let tb = &c.tables[t as usize];
                        let mut b = String::new();
                        Self::table_body(&tb.vals, tb.iw, tb.w, tb.iw as i32 - 1, 0, &mut b);
                        let _ = writeln!(
                            self.head,
                            "(define-fun T{} ((x (_ BitVec {}))) (_ BitVec {}) {})",
                            t, tb.iw, tb.w, b
                        );
                    }
                    format!("(T{} {})", t, k(0))
                }
                Op::Const | Op::Var | Op::App => unreachable!(),
            };
            let nm = format!("n{}", self.names.len());
            let _ = writeln!(self.text, "(define-fun {} () (_ BitVec {}) {})", nm, n.w, e);
            self.names.insert(x, nm);
        }
        self.names[&root].clone()
    }

    pub fn body(&self, assertion: &str) -> String {
        format!("{}{}{}", self.head, self.text, assertion)
    }
    pub fn leaf_names(&self) -> Vec<String> {
        (0..self.leaves.len()).map(|i| format!("v{}", i)).collect()
    }
}
