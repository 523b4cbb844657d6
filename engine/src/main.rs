//! symex: symbolic execution of LLVM IR with an SMT back end.
//!
//!   symex run  --ir F --harness a,b [--tier 0|1] [--threads N] [--budget S]
//!              [--job-timeout S] [--query-ms N] [--final-ms N] [--seed N]
//!              [--solver z3-new] [--out F] [--xcheck cvc5]
//!   symex conc --ir F --harness h --script F      (concrete interpretation)
//!   symex self [--seed N] [--rounds N]            (term rewriting self-test)

mod exec;
mod ir;
mod prove;
mod smt;
mod term;

use exec::*;
use prove::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k, &d.to_string()).parse().unwrap_or(d)
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Default)]
struct HarnessResult {
    jobs: u64,
    st: JobStats,
    ps: Stats,
    queries: u64,
    unsat: u64,
    sat: u64,
    unknown: u64,
    solver_s: f64,
    slowest: f64,
    wall: f64,
    violations: Vec<String>,
    errors: Vec<String>,
    fns: BTreeSet<String>,
    slow_job: (f64, String),
}

struct Q {
    jobs: VecDeque<(usize, Vec<u64>)>,
    active: usize,
    stop: bool,
    dropped: Vec<bool>,
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    let mut i = 2;
    while i + 1 < argv.len() {
        m.insert(argv[i].trim_start_matches("--").to_string(), argv[i + 1].clone());
        i += 2;
    }
    let a = Args(m);
    // deep recursion happens on worker stacks
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match argv.get(1).map(|s| s.as_str()) {
            Some("run") => run(&a),
            Some("conc") => conc(&a),
            Some("self") => selftest(&a),
            _ => {
                eprintln!("usage: symex run|conc|self ...");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}

fn load(a: &Args) -> Result<Shared, String> {
    let f = a.get("ir", "");
    let src = std::fs::read_to_string(&f).map_err(|e| format!("{}: {}", f, e))?;
    let m = ir::parse(&src).map_err(|e| format!("parse: {}", e))?;
    Shared::new(m, &a.get("marker", "dumb_crypto"))
}

fn find(sh: &Shared, n: &str) -> Option<u32> {
    sh.m.funcs.iter().position(|f| f.name == n && f.defined).map(|x| x as u32)
}

fn conc(a: &Args) -> i32 {
    let sh = match load(a) {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {}", e);
            return 2;
        }
    };
    let script = std::fs::read_to_string(a.get("script", "")).unwrap_or_default();
    // several cases, each "case <harness>" followed by choices/input lines
    let mut cases: Vec<(String, Vec<u64>, Vec<Vec<u8>>)> = vec![];
    for l in script.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("case") => cases.push((w.next().unwrap_or("").to_string(), vec![], vec![])),
            Some("choices") => cases.last_mut().unwrap().1 = w.map(|x| x.parse().unwrap_or(0)).collect(),
            Some("input") => {
                let h = w.next().unwrap_or("");
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                cases.last_mut().unwrap().2.push(b);
            }
            _ => {}
        }
    }
    for (h, ch, inp) in cases {
        let f = match find(&sh, &h) {
            Some(f) => f,
            None => {
                println!("ERROR no harness {}", h);
                return 2;
            }
        };
        let mut x = Exec::new(&sh, Prover::new(Arc::new(LemmaCache::default()), &a.get("solver", "z3-new"), 1000, 1000), 1);
        x.choices = ch;
        x.tier = a.num("tier", 0);
        x.concrete = Some(inp);
        let r = x.run_all(f);
        let tail = match r {
            Ok(()) => "ok".to_string(),
            Err(Stop::Err(e)) => format!("error {}", e),
            Err(Stop::Violation(v)) => format!("violation {} {} {}", v.tag, v.kind, v.note.split_whitespace().next().unwrap_or("")),
        };
        println!("{} {}", hex(&x.st.outs), tail);
    }
    0
}

fn run(a: &Args) -> i32 {
    let t00 = Instant::now();
    let sh = match load(a) {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {}", e);
            return 2;
        }
    };
    let parse_s = t00.elapsed().as_secs_f64();
    let names: Vec<String> = a.get("harness", "").split(',').map(|s| s.to_string()).collect();
    let mut fs = vec![];
    for n in &names {
        match find(&sh, n) {
            Some(f) => fs.push(f),
            None => {
                println!("ERROR no harness {}", n);
                return 2;
            }
        }
    }
    let threads = a.num("threads", 8) as usize;
    let budget = Duration::from_secs(a.num("budget", 600));
    let jobt = Duration::from_secs(a.num("job-timeout", 600));
    let seed = a.num("seed", 1);
    let tier = a.num("tier", 0);
    let qms = a.num("query-ms", 3000);
    let fms = a.num("final-ms", 60000);
    let solver = a.get("solver", "z3-new");
    let maxviol = a.num("max-violations", 3) as usize;
    let verbose = a.num("verbose", 0) > 0;
    let cache = Arc::new(LemmaCache::default());
    let cancel: Vec<std::sync::atomic::AtomicBool> = fs.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect();
    let q = Mutex::new(Q { jobs: VecDeque::new(), active: 0, stop: false, dropped: vec![false; fs.len()] });
    for i in 0..fs.len() {
        q.lock().unwrap().jobs.push_back((i, vec![]));
    }
    let cv = Condvar::new();
    let res: Mutex<Vec<HarnessResult>> = Mutex::new((0..fs.len()).map(|_| HarnessResult::default()).collect());
    let global_deadline = t00 + budget;
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let (sh, q, cv, res, cache, fs, names, solver, cancel) = (&sh, &q, &cv, &res, &cache, &fs, &names, &solver, &cancel);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let mut prover = Some(Prover::new(cache.clone(), solver, qms, fms));
                    loop {
                        let (h, ch) = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if g.stop {
                                    return;
                                }
                                if let Some(j) = g.jobs.pop_front() {
                                    g.active += 1;
                                    break j;
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let t0 = Instant::now();
                        let mut p = prover.take().unwrap();
                        p.reset();
                        p.stats = Default::default();
                        let (q0, u0, s0, k0, d0) = (p.solver.queries, p.solver.unsat, p.solver.sat, p.solver.unknown, p.solver.time);
                        p.solver.slowest = 0.0;
                        p.solver.end = Some(global_deadline.min(t0 + jobt));
                        let spawn = |v: Vec<Vec<u64>>| {
                            let mut g = q.lock().unwrap();
                            if !g.dropped[h] {
                                g.jobs.extend(v.into_iter().map(|j| (h, j)));
                                cv.notify_all();
                            }
                        };
                        let mut x = Exec::new(sh, p, seed);
                        x.choices = ch;
                        x.tier = tier;
                        x.spawn = Some(&spawn);
                        x.deadline = Some(global_deadline.min(t0 + jobt));
                        x.cancel = Some(&cancel[h]);
                        x.c.note_left = 150;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            x.run_all(fs[h])?;
                            let d = Instant::now() + Duration::from_secs(5);
                            x.p.confirm_notes(&mut x.c, d).map_err(Stop::Err)
                        }));
                        let made = x.made.clone();
                        {
                            let mut rs = res.lock().unwrap();
                            let o = &mut rs[h];
                            o.jobs += 1;
                            let s = &x.st;
                            o.st.instrs += s.instrs;
                            o.st.blocks_crate += s.blocks_crate;
                            o.st.paths += s.paths;
                            o.st.forks += s.forks;
                            o.st.merges += s.merges;
                            o.st.obligations += s.obligations;
                            o.st.bytes_checked += s.bytes_checked;
                            o.st.nodes += s.nodes;
                            o.st.concretised += s.concretised;
                            for (k, v) in &s.covers {
                                *o.st.covers.entry(k.clone()).or_insert(0) += v;
                            }
                            for (k, v) in &s.tags {
                                *o.st.tags.entry(k.clone()).or_insert(0) += v;
                            }
                            let ps = &x.p.stats;
                            o.ps.merges += ps.merges;
                            o.ps.by_gf2 += ps.by_gf2;
                            o.ps.assumed_feasible += ps.assumed_feasible;
                            o.ps.rewrites_ok += ps.rewrites_ok;
                            o.ps.rewrites_open += ps.rewrites_open;
                            o.ps.lemma_cached += ps.lemma_cached;
                            o.ps.lemma_proved += ps.lemma_proved;
                            o.ps.lemma_failed += ps.lemma_failed;
                            o.ps.syntactic += ps.syntactic;
                            o.ps.by_sweep += ps.by_sweep;
                            o.ps.by_query += ps.by_query;
                            o.ps.branch_queries += ps.branch_queries;
                            o.ps.models += ps.models;
                            o.queries += x.p.solver.queries - q0;
                            o.unsat += x.p.solver.unsat - u0;
                            o.sat += x.p.solver.sat - s0;
                            o.unknown += x.p.solver.unknown - k0;
                            o.solver_s += x.p.solver.time - d0;
                            o.slowest = o.slowest.max(x.p.solver.slowest);
                            let dt = t0.elapsed().as_secs_f64();
                            o.wall += dt;
                            if dt > o.slow_job.0 {
                                o.slow_job = (dt, format!("{:?}", made));
                            }
                            for f in &x.fn_seen {
                                if sh.fns_of_crate[*f as usize] {
                                    o.fns.insert(sh.m.funcs[*f as usize].name.clone());
                                }
                            }
                            if verbose {
                                eprintln!(
                                    "{} {:?}: {:.2}s instrs {} nodes {} paths {} forks {} obl {} queries {} ({:.2}s, slowest {:.2}) {:?}",
                                    names[h], made, dt, s.instrs, x.c.nodes.len(), s.paths, s.forks, s.obligations,
                                    x.p.solver.queries - q0, x.p.solver.time - d0, x.p.solver.slowest, ps
                                );
                            }
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(Stop::Err(e))) => {
                                    if verbose {
                                        eprintln!("  ERROR {}", e);
                                    }
                                    if o.errors.len() < 20 {
                                        o.errors.push(format!("{:?}: {}", made, e));
                                    } else {
                                        o.errors.last_mut().unwrap().push('+');
                                    }
                                }
                                Ok(Err(Stop::Violation(v))) => {
                                    if verbose {
                                        eprintln!("  VIOLATION {} {} {}", v.tag, v.kind, v.note);
                                    }
                                    if o.violations.len() < 60 {
                                        o.violations.push(format!(
                                            "{{\"tag\":{},\"kind\":{},\"note\":{},\"choices\":{:?},\"inputs\":[{}]}}",
                                            jstr(&v.tag),
                                            jstr(&v.kind),
                                            jstr(&v.note),
                                            v.choices,
                                            v.inputs.iter().map(|b| format!("\"{}\"", hex(b))).collect::<Vec<_>>().join(",")
                                        ));
                                    }
                                }
                                Err(_) => o.errors.push(format!("{:?}: engine panic", made)),
                            }
                            let mut g = q.lock().unwrap();
                            if o.violations.len() >= maxviol || o.errors.len() >= 20 {
                                // enough evidence for this harness: drop its remaining jobs
                                g.jobs.retain(|j| j.0 != h);
                                g.dropped[h] = true;
                                if o.violations.len() >= maxviol {
                                    cancel[h].store(true, std::sync::atomic::Ordering::Relaxed);
                                }
                            }
                            g.active -= 1;
                            if Instant::now() > global_deadline {
                                for j in g.jobs.drain(..) {
                                    let _ = j;
                                    if o.errors.len() < 11 {
                                        o.errors.push("time budget exhausted with work left".into());
                                    }
                                }
                            }
                            cv.notify_all();
                        }
                        prover = Some(x.p);
                    }
                })
                .unwrap();
        }
    });
    // ---- cross-check of the lemmas with a second solver
    let mut xc = (0u64, 0u64, 0u64);
    let xs = a.get("xcheck", "");
    if !xs.is_empty() {
        let n = a.num("xcheck-n", 200) as usize;
        let scripts = cache.scripts.lock().unwrap().clone();
        let step = (scripts.len() / n.max(1)).max(1);
        let picks: Vec<String> = scripts.into_iter().step_by(step).take(n).collect();
        let work = Mutex::new(picks);
        let out = Mutex::new((0u64, 0u64, 0u64));
        std::thread::scope(|sc| {
            for _ in 0..threads {
                let (work, out, xs) = (&work, &out, &xs);
                sc.spawn(move || {
                    let mut s = smt::Solver::new(xs);
                    loop {
                        let b = match work.lock().unwrap().pop() {
                            Some(b) => b,
                            None => return,
                        };
                        let r = s.query(&b, &[], 10000);
                        let mut o = out.lock().unwrap();
                        match r {
                            smt::Res::Unsat => o.0 += 1,
                            smt::Res::Sat(_) => o.1 += 1,
                            smt::Res::Unknown(_) => o.2 += 1,
                        }
                    }
                });
            }
        });
        xc = *out.lock().unwrap();
    }
    let rs = res.into_inner().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!(
        "\"wall_s\":{:.2},\"parse_s\":{:.2},\"solver\":{},\"xcheck\":{{\"solver\":{},\"agree\":{},\"disagree\":{},\"undecided\":{}}},\"lemmas\":{},\n\"harnesses\":{{\n",
        t00.elapsed().as_secs_f64(),
        parse_s,
        jstr(&solver),
        jstr(&xs),
        xc.0,
        xc.1,
        xc.2,
        cache.map.lock().unwrap().values().filter(|x| **x).count()
    ));
    let mut code = 0;
    for (i, r) in rs.iter().enumerate() {
        if !r.errors.is_empty() {
            code = 2;
        }
        let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        o.push_str(&format!(
            "{}:{{\"jobs\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"concretised\":{},\"instrs\":{},\"crate_blocks\":{},\"obligations\":{},\"bytes_checked\":{},\"term_nodes\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.2},\"slowest_query_s\":{:.3},\"cpu_s\":{:.2},\"slow_job\":[{:.2},{}],\"proved\":{{\"syntactic\":{},\"sweep\":{},\"query\":{}}},\"gf2\":{},\"assumed_feasible\":{},\"rewrites\":{{\"confirmed\":{},\"open\":{}}},\"lemmas\":{{\"proved\":{},\"reused\":{},\"refuted\":{},\"merges\":{}}},\"covers\":{{{}}},\"tags\":{{{}}},\"functions\":[{}],\"violations\":[{}],\"errors\":[{}]}}{}\n",
            jstr(&names[i]), r.jobs, r.st.paths, r.st.forks, r.st.merges, r.st.concretised, r.st.instrs, r.st.blocks_crate, r.st.obligations,
            r.st.bytes_checked, r.st.nodes, r.queries, r.unsat, r.sat, r.unknown, r.solver_s, r.slowest, r.wall, r.slow_job.0, jstr(&r.slow_job.1),
            r.ps.syntactic, r.ps.by_sweep, r.ps.by_query, r.ps.by_gf2, r.ps.assumed_feasible, r.ps.rewrites_ok, r.ps.rewrites_open, r.ps.lemma_proved, r.ps.lemma_cached, r.ps.lemma_failed, r.ps.merges,
            map(&r.st.covers), map(&r.st.tags),
            r.fns.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            r.violations.join(","),
            r.errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            if i + 1 < rs.len() { "," } else { "" }
        ));
    }
    o.push_str("}}\n");
    let f = a.get("out", "");
    if f.is_empty() {
        print!("{}", o);
    } else if std::fs::write(&f, &o).is_err() {
        println!("ERROR cannot write {}", f);
        return 2;
    }
    let _: HashSet<u8> = HashSet::new();
    code
}

/// Rewriting self-test: random terms built through the simplifying
/// constructors are compared with a direct evaluation of the same operation
/// sequence, and with the solver's reading of the emitted SMT-LIB.
fn selftest(a: &Args) -> i32 {
    use term::*;
    let seed = a.num("seed", 1);
    let rounds = a.num("rounds", 200);
    let mut s = splitmix(seed ^ 0x5eed);
    let mut rnd = move || {
        s = splitmix(s);
        s
    };
    let mut solver = smt::Solver::new(&a.get("solver", "z3-new"));
    let mut checked = 0u64;
    for round in 0..rounds {
        let mut c = Ctx::new(round);
        // (term, value) pairs under one random assignment; values tracked independently
        let mut pool: Vec<(Id, u128, u8)> = vec![];
        let mut vals: Vec<u128> = vec![];
        for (i, w) in [8u8, 8, 8, 8, 32, 32, 64, 1, 16].iter().enumerate() {
            let v = rnd() as u128 & maskw(*w);
            let v = if rnd() % 4 == 0 { [0, 1, maskw(*w), 1 << (w - 1)][rnd() as usize % 4] & maskw(*w) } else { v };
            let id = c.var(&format!("x{}", i), *w);
            vals.push(v);
            pool.push((id, v, *w));
        }
        for k in [0u128, 1, 7, 31, 255, 0x80] {
            for w in [8u8, 32, 64] {
                let id = c.c(w, k);
                pool.push((id, k & maskw(w), w));
            }
        }
        let sgn = |v: u128, w: u8| -> i128 { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) };
        for _ in 0..120 {
            let (x, xv, w) = pool[rnd() as usize % pool.len()];
            let same: Vec<(Id, u128, u8)> = pool.iter().copied().filter(|p| p.2 == w).collect();
            let (y, yv, _) = same[rnd() as usize % same.len()];
            let m = maskw(w);
            let (t, v, tw): (Id, u128, u8) = match rnd() % 22 {
                0 => (c.and(x, y), xv & yv, w),
                1 => (c.or(x, y), xv | yv, w),
                2 => (c.xor(x, y), xv ^ yv, w),
                3 => (c.add(x, y), xv.wrapping_add(yv) & m, w),
                4 => (c.sub(x, y), xv.wrapping_sub(yv) & m, w),
                5 => (c.mul(x, y), xv.wrapping_mul(yv) & m, w),
                6 => (c.not(x), !xv & m, w),
                7 => {
                    let k = rnd() as u128 % (w as u128 + 2);
                    let kk = c.c(w, k & m);
                    let k = k & m;
                    (c.shl(x, kk), if k >= w as u128 { 0 } else { (xv << k) & m }, w)
                }
                8 => {
                    let k = rnd() as u128 % (w as u128 + 2) & m;
                    let kk = c.c(w, k);
                    (c.lshr(x, kk), if k >= w as u128 { 0 } else { xv >> k }, w)
                }
                9 => {
                    let k = rnd() as u128 % (w as u128 + 2) & m;
                    let kk = c.c(w, k);
                    (c.ashr(x, kk), (sgn(xv, w) >> k.min(127)) as u128 & m, w)
                }
                10 => (c.eq(x, y), (xv == yv) as u128, 1),
                11 => (c.ult(x, y), (xv < yv) as u128, 1),
                12 => (c.slt(x, y), (sgn(xv, w) < sgn(yv, w)) as u128, 1),
                13 => {
                    let nw = [8u8, 16, 32, 64, 128][rnd() as usize % 5];
                    if nw < w {
                        continue;
                    }
                    (c.zext(x, nw), xv, nw)
                }
                14 => {
                    let nw = [8u8, 16, 32, 64, 128][rnd() as usize % 5];
                    if nw < w {
                        continue;
                    }
                    (c.sext(x, nw), sgn(xv, w) as u128 & maskw(nw), nw)
                }
                15 | 16 => {
                    let lo = rnd() as u8 % w;
                    let ew = 1 + rnd() as u8 % (w - lo);
                    let ew = if rnd() % 2 == 0 && lo + 8 <= w { 8 } else { ew };
                    (c.extract(x, lo, ew), (xv >> lo) & maskw(ew), ew)
                }
                17 => {
                    let (z, zv, zw) = pool[rnd() as usize % pool.len()];
                    if w as u32 + zw as u32 > 128 {
                        continue;
                    }
                    (c.concat(&[x, z]), (xv << zw) | zv, w + zw)
                }
                18 => {
                    let bs: Vec<(Id, u128, u8)> = pool.iter().copied().filter(|p| p.2 == 1).collect();
                    let (k, kv, _) = bs[rnd() as usize % bs.len()];
                    (c.ite(k, x, y), if kv == 1 { xv } else { yv }, w)
                }
                19 => {
                    if w > 8 {
                        continue;
                    }
                    let n = 1usize << w;
                    let tv: Vec<u128> = (0..n).map(|i| (splitmix(i as u64 ^ (round % 7)) & 0xff) as u128).collect();
                    let tb = c.table(w, 8, tv.clone());
                    (c.lookup(tb, x), tv[xv as usize], 8)
                }
                20 => (c.udiv(x, y), if yv == 0 { m } else { xv / yv }, w),
                _ => (c.urem(x, y), if yv == 0 { xv } else { xv % yv }, w),
            };
            if c.w(t) != tw {
                println!("SELFTEST width mismatch round {}", round);
                return 1;
            }
            let mut memo = HashMap::new();
            let e = c.eval(t, &|k| vals[k as usize], &mut memo);
            if e != v {
                println!("SELFTEST value mismatch round {} op {:?}: {:x} vs {:x}", round, c.op(t), e, v);
                return 1;
            }
            let r = c.range(t);
            if v < r.0 || v > r.1 {
                println!("SELFTEST range mismatch round {} {:?}", round, c.op(t));
                return 1;
            }
            if v & c.kz(t) != 0 {
                println!("SELFTEST known-zero mismatch round {} {:?}", round, c.op(t));
                return 1;
            }
            checked += 1;
            pool.push((t, v, tw));
        }
        // XOR normal forms against the values
        let mut pr = Prover::new(Arc::new(LemmaCache::default()), "z3-new", 1, 1);
        for &(t, v, w) in pool.iter() {
            for mode in 0..2 {
                for b in 0..w {
                    let f = pr.form(&c, t, b, 0, mode);
                    let mut x = f.one;
                    for &(a, k) in &f.atoms {
                        let mut memo = HashMap::new();
                        x ^= c.eval(a, &|k| vals[k as usize], &mut memo) >> k & 1 == 1;
                    }
                    if x != (v >> b & 1 == 1) {
                        println!("SELFTEST XOR form mismatch round {} {:?}", round, c.op(t));
                        return 1;
                    }
                }
            }
        }
        // solver agreement on the last term
        let (t, v, w) = *pool.last().unwrap();
        let mut e = smt::Emit::new();
        let s = e.term(&c, t, &|_| false);
        let mut body = String::new();
        for (i, &l) in e.leaves.iter().enumerate() {
            body.push_str(&format!("(assert (= v{} (_ bv{} {})))\n", i, vals[c.nodes[l as usize].aux as usize], c.w(l)));
        }
        body.push_str(&format!("(assert (distinct {} (_ bv{} {})))\n", s, v, w));
        match solver.query(&e.body(&body), &[], 10000) {
            smt::Res::Unsat => {}
            r => {
                println!("SELFTEST solver disagrees round {}: {:?}", round, r);
                return 1;
            }
        }
    }
    println!("SELFTEST ok terms={} solver_queries={}", checked, solver.queries);
    0
}
