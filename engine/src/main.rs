//! mmsym JOB: symbolic execution of matrixmultiply's compiler IR; see DESIGN.md.
#![allow(dead_code)]
mod ctx;
mod exec;
mod exec2;
mod exec3;
mod ir;
mod scen;
mod smt;
mod util;

use crate::ctx::*;
use crate::ir::*;
use crate::scen::*;
use crate::smt::*;
use crate::util::*;
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
struct Job {
    lls: Vec<String>,
    solver: String,
    threads: usize,
    deadline: f64,
    out: String,
    pathcap: u64,
    want: Want,
    log_access: bool,
    no_features: bool,
    scens: Vec<Scen>,
    closefns: Vec<String>,
    closelay: String,
    caps: Vec<[u64; 3]>,
    maxcost: u64,
    rounds: u32,
    verbose: bool,
    closeenv: String,
    closefail: bool,
    closeagain: bool,
    /// largest dimensions, largest cost and number of branch sides that get sizes of their own at the end
    heavy: Option<([u64; 3], u64, usize)>,
    maxviol: usize,
    kinds: Vec<String>,
    traces: usize,
}

fn parse_scen(s: &str) -> Scen {
    let mut sc = Scen { calls: vec![], alloc_fail: false, env: String::new(), only: vec![], gen: 0 };
    for part in s.split(';') {
        let w: Vec<&str> = part.split_whitespace().collect();
        let mut nums = vec![];
        let mut f = String::new();
        let mut lay = "sym".to_string();
        for x in w {
            if x == "allocfail" { sc.alloc_fail = true; }
            else if let Some(e) = x.strip_prefix("env:") { sc.env = e.to_string(); }
            else if x.starts_with('+') || x.starts_with('-') || x == "b0" || x == "b1" || x == "t32" { sc.only.push(x.to_string()); }
            else if x == "*" { nums.push(SYM); }
            else if x.starts_with(['=', '~', '!']) { f = x.to_string(); nums = vec![0, 0, 0]; }
            else if let Ok(v) = x.parse::<u64>() { nums.push(v); }
            else if f.is_empty() { f = x.to_string(); }
            else { lay = x.to_string(); }
        }
        if nums.len() == 3 { sc.calls.push(Call { f, d: [nums[0], nums[1], nums[2]], lay }); }
    }
    sc
}

fn parse_job(p: &str) -> Job {
    let t = std::fs::read_to_string(p).expect("job file");
    let mut j = Job { solver: "z3-new".into(), threads: 8, deadline: 600.0, pathcap: 4000, closelay: "sym".into(), maxcost: 3_000_000, maxviol: 6, ..Default::default() };
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "ll" => j.lls.push(r.into()),
            "solver" => j.solver = r.into(),
            "threads" => j.threads = r.parse().unwrap(),
            "deadline" => j.deadline = r.parse().unwrap(),
            "out" => j.out = r.into(),
            "pathcap" => j.pathcap = r.parse().unwrap(),
            "maxcost" => j.maxcost = r.parse().unwrap(),
            "rounds" => j.rounds = r.parse().unwrap(),
            "maxviol" => j.maxviol = r.parse().unwrap(),
            "verbose" => j.verbose = true,
            "logaccess" => j.log_access = true,
            "nofeatures" => j.no_features = true,
            "kinds" => j.kinds = r.split_whitespace().map(|s| s.into()).collect(),
            "want" => for w in r.split_whitespace() {
                match w {
                    "func" => j.want.func = true,
                    "iso" => j.want.iso = true,
                    "prop" => j.want.prop = true,
                    "depth" => j.want.depth = true,
                    "layout" => j.want.layout = true,
                    "written" => j.want.written = true,
                    "leak" => j.want.leak = true,
                    "threads" => j.want.threads = true,
                    "cap" => j.want.cap = true,
                    "prev" => j.want.prev = true,
                    "constdims" => j.want.constdims = true,
                    _ => panic!("want {}", w),
                }
            },
            "scen" => j.scens.push(parse_scen(r)),
            "close" => {
                // close f1,f2 lay m,k,n m,k,n ...
                let w: Vec<&str> = r.split_whitespace().collect();
                j.closefns = w[0].split(',').map(|s| s.into()).collect();
                j.closelay = w[1].into();
                for c in &w[2..] {
                    let v: Vec<u64> = c.split(',').map(|x| x.parse().unwrap()).collect();
                    j.caps.push([v[0], v[1], v[2]]);
                }
            }
            "traces" => j.traces = r.parse().unwrap(),
            "closeenv" => j.closeenv = r.into(),
            "closefail" => j.closefail = true,
            "closeagain" => j.closeagain = true,
            "heavy" => {
                let v: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
                j.heavy = Some(([v[0], v[1], v[2]], v[3], v[4] as usize));
            }
            _ => panic!("job line {}", l),
        }
    }
    j
}

#[derive(Default)]
struct Shared {
    queue: Vec<Scen>,
    seen: FxSet<Scen>,
    cov: FxMap<u64, u8>,
    tried: FxSet<(u64, u8, usize, usize, String)>,
    next: Vec<Scen>,
    viols: Vec<Viol>,
    incon: Vec<String>,
    skipped: u64,
    done: u64,
    fcov: FxMap<String, u64>,
    tots: Vec<Tot>,
    steps: u64,
    forks: u64,
    solver: [u64; 4],
    stime: f64,
    slowest: f64,
    feas: [u64; 3],
    log: Vec<(String, u64, f64)>,
    pub_terms: u64,
    features: Vec<String>,
    uncovered: Vec<String>,
    heavy: u8,
    heavies_run: u32,
    heavies: Vec<(u64, (u64, u8), Call)>,
    heavy_done: Vec<String>,
    rounds_done: u32,
    witness: FxMap<String, u64>,
    alloc_sizes: Vec<u64>,
    traces: Vec<String>,
    incon_scens: u64,
    busy: Vec<Option<(String, Instant)>>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let job = parse_job(&args[1]);
    let t0 = Instant::now();
    let mut prog = match Program::load(&job.lls) {
        Ok(p) => p,
        Err(e) => { eprintln!("cannot read the IR: {}", e); std::process::exit(3); }
    };
    let ty8 = prog.types.mk(Ty::Int(8));
    let prog: &'static Program = Box::leak(Box::new(prog));
    let load = t0.elapsed().as_secs_f64();
    let end = Instant::now() + Duration::from_secs_f64(job.deadline);
    let mut sh = Shared::default();
    for s in &job.scens {
        if sh.seen.insert(s.clone()) { sh.queue.push(s.clone()); }
    }
    sh.queue.reverse();
    let nthreads = job.threads.max(1);
    sh.busy = vec![None; nthreads];
    let shared = Mutex::new(sh);
    let barrier = Barrier::new(nthreads);
    let finished = std::sync::atomic::AtomicBool::new(false);
    let left = std::sync::atomic::AtomicUsize::new(nthreads);
    std::thread::scope(|sc| {
        {
            // a scenario that does not come to its end must not hold back what the others found
            let (shared, job, finished) = (&shared, &job, &finished);
            sc.spawn(move || {
                let mut first: Option<Instant> = None;
                while !finished.load(std::sync::atomic::Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let n = crate::scen::EARLY.lock().unwrap().len();
                    if n >= job.maxviol && first.is_none() { first = Some(Instant::now()); }
                    let late = Instant::now() > end + Duration::from_secs_f64(if n > 0 { 2.0 } else { 10.0 + job.deadline * 0.1 });
                    if late || first.map_or(false, |t| t.elapsed().as_secs() >= 8) {
                        let mut sh = shared.lock().unwrap();
                        if finished.load(std::sync::atomic::Ordering::SeqCst) { return; }
                        for v in crate::scen::EARLY.lock().unwrap().iter() {
                            if !sh.viols.iter().any(|x| x.scen == v.scen && x.kind == v.kind && x.what == v.what) { sh.viols.push(v.clone()); }
                        }
                        sh.skipped += sh.queue.len() as u64;
                        for (s, t) in sh.busy.clone().into_iter().flatten() {
                            sh.incon.push("time budget (in the middle of a scenario)".into());
                            sh.incon_scens += 1;
                            sh.log.push((format!("{} (stopped)", s), 0, t.elapsed().as_secs_f64()));
                        }
                        sh.incon.dedup();
                        write_out(job, &sh, prog, load, t0.elapsed().as_secs_f64());
                        std::process::exit(0);
                    }
                }
            });
        }
        let (left, finished) = (&left, &finished);
        for tid in 0..nthreads {
            let (shared, barrier, job) = (&shared, &barrier, &job);
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, move || {
                worker(tid, shared, barrier, job, prog, ty8, end);
                if left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 { finished.store(true, std::sync::atomic::Ordering::SeqCst); }
            }).unwrap();
        }
    });
    let sh = shared.into_inner().unwrap();
    write_out(&job, &sh, prog, load, t0.elapsed().as_secs_f64());
}

fn mkrunner(job: &Job, prog: &'static Program, ty8: TyId, end: Instant) -> Runner {
    let mut r = Runner::new(prog, ty8, &job.solver, job.want.clone());
    r.e.opts.log_access = job.log_access;
    r.e.opts.check_features = !job.no_features;
    r.e.deadline = Some(end);
    r.maxpaths = job.pathcap;
    r.kinds = job.kinds.clone();
    r.trace_max = job.traces;
    r
}

fn flush(r: &mut Runner, sh: &mut Shared, prog: &'static Program) {
    for (k, v) in r.e.cov.iter() { *sh.cov.entry(*k).or_insert(0) |= *v; }
    for (f, n) in r.e.fcov.drain() { *sh.fcov.entry(prog.funcs[f as usize].name.clone()).or_insert(0) += n; }
    sh.viols.append(&mut r.viols);
    for i in r.e.inconclusive.drain(..) { if sh.incon.len() < 50 && !sh.incon.contains(&i) { sh.incon.push(i); } }
}

/// what a worker has counted so far goes to the common record
fn retire(r: &mut Runner, sh: &mut Shared, prog: &'static Program) {
    flush(r, sh, prog);
    sh.traces.append(&mut r.traces);
    sh.tots.push(r.tot.clone());
    r.tot = Default::default();
    sh.steps += r.e.stats.steps;
    sh.forks += r.e.stats.forks;
    let s = &mut r.e.smt;
    for (i, v) in [s.queries, s.sat, s.unsat, s.unknown].iter().enumerate() { sh.solver[i] += v; }
    sh.stime += s.time;
    s.queries = 0;
    s.sat = 0;
    s.unsat = 0;
    s.unknown = 0;
    s.time = Default::default();
    sh.slowest = sh.slowest.max(s.slowest);
    for (i, v) in [r.e.stats.feas_cached, r.e.stats.feas_solver, r.e.stats.feas_witness].iter().enumerate() { sh.feas[i] += v; }
    r.e.stats = Default::default();
    sh.pub_terms += r.e.cx.tm.len() as u64 - r.counted;
    r.counted = r.e.cx.tm.len() as u64;
    let mut f: Vec<String> = r.e.feat.keys().cloned().collect();
    f.sort();
    sh.features = f;
}

fn worker(tid: usize, shared: &Mutex<Shared>, barrier: &Barrier, job: &Job, prog: &'static Program, ty8: TyId, end: Instant) {
    let mut r = mkrunner(job, prog, ty8, end);
    let mut round = 0u32;
    loop {
        loop {
            let s = {
                let mut sh = shared.lock().unwrap();
                if Instant::now() > end || sh.viols.len() >= job.maxviol { sh.skipped += sh.queue.len() as u64; sh.queue.clear(); }
                let s = sh.queue.pop();
                sh.busy[tid] = s.as_ref().map(|s| (s.label(), Instant::now()));
                s
            };
            let s = match s { Some(s) => s, None => break };
            let t = Instant::now();
            let p0 = r.tot.paths;
            let v0 = r.viols.len();
            let i0 = r.e.inconclusive.len();
            r.run(&s);
            let bad = r.e.inconclusive.len() > i0;
            let dt = t.elapsed().as_secs_f64();
            let mut sh = shared.lock().unwrap();
            sh.done += 1;
            if bad { sh.incon_scens += 1; }
            if job.verbose { eprintln!("[{}] {} paths {} {:.2}s terms {} ex {} viol {}", tid, s.label(), r.tot.paths - p0, dt, r.e.cx.tm.len(), r.e.cx.ex.len(), r.viols.len() - v0); }
            sh.log.push((s.label(), r.tot.paths - p0, dt));
            retire(&mut r, &mut sh, prog);
            sh.busy[tid] = None;
            if r.e.cx.tm.len() > 6_000_000 || r.e.cx.ex.len() > 6_000_000 || r.fcache.len() > 2_000_000 {
                let (cov, cand) = (std::mem::take(&mut r.e.cov), FxMap::default());
                drop(sh);
                r = mkrunner(job, prog, ty8, end);
                r.e.cov = cov;
                r.e.cand = cand;
            }
        }
        barrier.wait();
        // coverage closure: pick sizes that take branch sides nothing has taken yet
        let stop = { let sh = shared.lock().unwrap(); Instant::now() > end || sh.viols.len() >= job.maxviol };
        if round < job.rounds && !stop && !job.caps.is_empty() { propose(tid, &mut r, shared, job, prog); }
        let lead = barrier.wait().is_leader();
        if lead {
            let mut sh = shared.lock().unwrap();
            let mut nx = std::mem::take(&mut sh.next);
            nx.sort_by_key(|s| s.cost());
            for s in nx.into_iter().rev() { if sh.seen.insert(s.clone()) { sh.queue.push(s); } }
            sh.rounds_done = round + 1;
            if stop { sh.queue.clear(); }
            if sh.queue.is_empty() && !stop && sh.heavies_run < 3 && job.heavy.is_some() { sh.heavy = 1; sh.heavies_run += 1; }
        }
        barrier.wait();
        round += 1;
        if shared.lock().unwrap().heavy == 1 {
            // sides that nothing affordable takes: large matrices, laid out by rows, one kernel and kind of beta at a time
            propose_heavy(&mut r, shared, job);
            if barrier.wait().is_leader() {
                let mut sh = shared.lock().unwrap();
                sh.heavy = 0;
                let mut hs = std::mem::take(&mut sh.heavies);
                hs.sort();
                let mut sides: Vec<(u64, u8)> = vec![];
                for (_, side, call) in hs {
                    if sides.contains(&side) { continue; }
                    let name = format!("{} {}x{}x{}", call.f, call.d[0], call.d[1], call.d[2]);
                    if !sh.heavy_done.contains(&name) && sh.heavy_done.len() >= job.heavy.unwrap().2 { continue; }
                    sides.push(side);
                    if sh.heavy_done.contains(&name) { continue; }
                    sh.heavy_done.push(format!("{} {}x{}x{}", call.f, call.d[0], call.d[1], call.d[2]));
                    for ft in [&["+fma"][..], &["-fma", "+avx"], &["-avx"]] {
                        for b in ["b1", "b0"] {
                            let mut only: Vec<String> = ft.iter().map(|x| x.to_string()).collect();
                            if job.lls.iter().any(|l| l.contains("a64")) { if ft[0] != "-avx" { continue; } only.clear(); }
                            only.push(b.to_string());
                            let s = Scen { calls: vec![call.clone()], alloc_fail: false, env: String::new(), only, gen: 0 };
                            if sh.seen.insert(s.clone()) { sh.queue.push(s); }
                        }
                    }
                }
            }
            barrier.wait();
        }
        let empty = shared.lock().unwrap().queue.is_empty();
        barrier.wait();
        if empty || round > job.rounds + 3 { break; }
    }
    let mut sh = shared.lock().unwrap();
    // branch sides that depend on the sizes and were never taken
    for ((k, side), _) in r.e.cand.iter() {
        let c = *sh.cov.get(k).unwrap_or(&0);
        if c & side == 0 {
            let f = (*k >> 32) as usize & 0xfffff;
            let d = format!("{} block {} inst {} side {}", crate::exec3::short(&prog.funcs[f].name), (*k >> 12) & 0xfffff, k & 0xfff, side);
            if !sh.uncovered.contains(&d) { sh.uncovered.push(d); }
        }
    }
    retire(&mut r, &mut sh, prog);
}

/// Sizes that take an untaken branch side: change as few dimensions of the call that reached the
/// branch as possible, and change those as little as possible.
fn propose(_tid: usize, r: &mut Runner, shared: &Mutex<Shared>, job: &Job, _prog: &'static Program) {
    let cands: Vec<((u64, u8), Vec<(E, [u64; 3], u8)>)> = r.e.cand.iter().map(|(k, v)| (*k, v.clone())).collect();
    let subsets: [&[usize]; 7] = [&[0], &[1], &[2], &[0, 2], &[1, 2], &[0, 1], &[0, 1, 2]];
    for ((key, side), conds) in cands {
        for (c, d0, fi) in conds.iter() {
            let f = FNS[*fi as usize];
            if !job.closefns.iter().any(|x| x == f) { continue; }
            let desc = format!("{} {}", f, r.e.cx.show(*c));
            let mut found = 0;
            for (si, sub) in subsets.iter().enumerate() {
                if sub.len() > 1 && found > 0 { break; }
                {
                    let mut sh = shared.lock().unwrap();
                    if sh.cov.get(&key).unwrap_or(&0) & side != 0 { break; }
                    if !sh.tried.insert((key, side, si, 0, desc.clone())) { continue; }
                }
                for cap in job.caps.iter() {
                    // a very long dimension only together with short ones, and with concrete strides
                    let long = cap.iter().any(|x| *x > 10_000);
                    if long && (sub.len() > 1 || cap[sub[0]] <= 10_000) { continue; }
                    let d0 = if long { [1, 1, 1] } else { *d0 };
                    if let Some(d) = solve_dims(r, *c, d0, sub, *cap) {
                        let lay = if long { "rrr".into() } else { job.closelay.clone() };
                        let mut calls = vec![Call { f: f.into(), d, lay }];
                        if job.closeagain { calls.push(Call { f: "~0".into(), d: [0; 3], lay: "sym".into() }); }
                        let s = Scen { calls, alloc_fail: job.closefail, env: job.closeenv.clone(), only: vec![], gen: 0 };
                        if s.cost() > if long { job.maxcost.max(700_000) } else { job.maxcost } { continue; }
                        found += 1;
                        let mut sh = shared.lock().unwrap();
                        if !sh.seen.contains(&s) && !sh.next.contains(&s) { sh.next.push(s); }
                        break;
                    }
                }
            }
        }
    }
}

fn propose_heavy(r: &mut Runner, shared: &Mutex<Shared>, job: &Job) {
    let (cap, maxcost, _) = job.heavy.unwrap();
    let cands: Vec<((u64, u8), Vec<(E, [u64; 3], u8)>)> = r.e.cand.iter().map(|(k, v)| (*k, v.clone())).collect();
    let subsets: [&[usize]; 7] = [&[0], &[1], &[2], &[0, 2], &[1, 2], &[0, 1], &[0, 1, 2]];
    for ((key, side), conds) in cands {
        for (c, d0, fi) in conds.iter().take(6) {
            let f = FNS[*fi as usize];
            if !job.closefns.iter().any(|x| x == f) { continue; }
            let desc = format!("heavy {} {} {:?}", f, r.e.cx.show(*c), d0);
            {
                let mut sh = shared.lock().unwrap();
                if sh.cov.get(&key).unwrap_or(&0) & side != 0 { break; }
                if !sh.tried.insert((key, side, 7, 0, desc)) { continue; }
            }
            let mut best: Option<(u64, Call)> = None;
            for sub in subsets.iter() {
                if let Some(d) = solve_dims(r, *c, *d0, sub, cap) {
                    let call = Call { f: f.into(), d, lay: "rrr".into() };
                    let s = Scen { calls: vec![call.clone()], alloc_fail: false, env: String::new(), only: vec![], gen: 0 };
                    if best.as_ref().map_or(true, |b| s.cost() < b.0) { best = Some((s.cost(), call)); }
                }
            }
            // what is affordable has been tried
            if let Some((x, call)) = best { if x > job.maxcost && x <= maxcost { shared.lock().unwrap().heavies.push((x, (key, side), call)); } }
        }
    }
}

fn solve_dims(r: &mut Runner, c: E, d0: [u64; 3], sub: &[usize], cap: [u64; 3]) -> Option<[u64; 3]> {
    let vars = [r.e.cx.var("m0", 64, 0), r.e.cx.var("k0", 64, 0), r.e.cx.var("n0", 64, 0)];
    let mut q = vec![c];
    for i in 0..3 {
        let k = if sub.contains(&i) { r.e.cx.k(64, cap[i]) } else { r.e.cx.k(64, d0[i]) };
        let x = if sub.contains(&i) { r.e.cx.cmp(IPred::Ule, vars[i], k) } else { r.e.cx.cmp(IPred::Eq, vars[i], k) };
        q.push(x);
    }
    let ask = |r: &mut Runner, q: &[E]| -> Option<[u64; 3]> {
        let mut enc = Enc::new();
        for e in q { if r.e.cx.as_const(*e) == Some(0) { return None; } enc.assert(&r.e.cx, *e); }
        let (s, vals) = r.e.smt.check(&enc.body, &enc.wants());
        if s != Sat::Sat { return None; }
        let m = enc.model(&vals);
        let mut d = d0;
        for i in 0..3 { if let Some(v) = m.v.get(&vars[i]) { d[i] = *v; } }
        Some(d)
    };
    let mut best = ask(r, &q)?;
    for &i in sub.iter() {
        // first at or above the original value, as close as possible; else below
        let k0 = r.e.cx.k(64, d0[i]);
        let up = r.e.cx.cmp(IPred::Uge, vars[i], k0);
        q.push(up);
        if let Some(d) = ask(r, &q) {
            best = d;
            let (mut lo, mut hi) = (d0[i], d[i]);
            while lo < hi {
                let mid = (lo + hi) / 2;
                let k = r.e.cx.k(64, mid);
                let x = r.e.cx.cmp(IPred::Ule, vars[i], k);
                q.push(x);
                match ask(r, &q) { Some(d) => { best = d; hi = d[i].min(mid); } None => lo = mid + 1 }
                q.pop();
            }
        } else {
            q.pop();
            let (mut lo, mut hi) = (best[i], d0[i]);
            while lo < hi {
                let mid = (lo + hi + 1) / 2;
                let k = r.e.cx.k(64, mid);
                let x = r.e.cx.cmp(IPred::Uge, vars[i], k);
                q.push(x);
                match ask(r, &q) { Some(d) => { best = d; lo = d[i].max(mid); } None => hi = mid - 1 }
                q.pop();
            }
        }
        let k = r.e.cx.k(64, best[i]);
        let x = r.e.cx.cmp(IPred::Eq, vars[i], k);
        q.push(x);
    }
    Some(best)
}

fn write_out(job: &Job, sh: &Shared, prog: &'static Program, load: f64, wall: f64) {
    let mut o = String::new();
    o.push_str("{\n");
    let mut t = Tot::default();
    for x in &sh.tots { t.add(x); }
    o.push_str(&format!("\"totals\": {},\n", t.json()));
    o.push_str(&format!("\"scenarios_done\": {}, \"scenarios_skipped\": {}, \"closure_rounds\": {}, \"scenarios_incomplete\": {},\n", sh.done, sh.skipped, sh.rounds_done, sh.incon_scens));
    o.push_str(&format!("\"wall\": {:.3}, \"load\": {:.3}, \"steps\": {}, \"forks\": {}, \"float_terms\": {},\n", wall, load, sh.steps, sh.forks, sh.pub_terms));
    o.push_str(&format!("\"solver\": {{\"name\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"seconds\": {:.3}, \"slowest\": {:.3}}},\n", jstr(&job.solver), sh.solver[0], sh.solver[1], sh.solver[2], sh.solver[3], sh.stime, sh.slowest));
    o.push_str(&format!("\"feasibility\": {{\"cached\": {}, \"solver\": {}, \"witness\": {}}},\n", sh.feas[0], sh.feas[1], sh.feas[2]));
    o.push_str(&format!("\"features\": [{}],\n", sh.features.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    let both = sh.cov.values().filter(|v| **v == 3).count();
    o.push_str(&format!("\"branches\": {}, \"branches_both\": {},\n", sh.cov.len(), both));
    let mut un = sh.uncovered.clone();
    un.sort();
    o.push_str(&format!("\"heavy\": [{}],\n", sh.heavy_done.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("\"uncovered\": [{}],\n", un.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n")));
    let mut fs: Vec<_> = sh.fcov.iter().collect();
    fs.sort();
    o.push_str(&format!("\"functions\": {{{}}},\n", fs.iter().map(|(a, b)| format!("{}: {}", jstr(a), b)).collect::<Vec<_>>().join(",\n")));
    o.push_str(&format!("\"functions_defined\": {},\n", prog.funcs.iter().filter(|f| f.defined).count()));
    o.push_str(&format!("\"inconclusive\": [{}],\n", sh.incon.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n")));
    let mut lg = sh.log.clone();
    lg.sort_by(|a, b| b.2.partial_cmp(&a.2).unwrap());
    o.push_str(&format!("\"slowest\": [{}],\n", lg.iter().take(8).map(|(a, b, c)| format!("[{}, {}, {:.2}]", jstr(a), b, c)).collect::<Vec<_>>().join(",")));
    let mut sl: Vec<String> = sh.seen.iter().map(|s| s.label()).collect();
    sl.sort();
    o.push_str(&format!("\"scenarios\": [{}],\n", sl.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"traces\": [{}],\n", sh.traces.join(",\n")));
    o.push_str("\"violations\": [\n");
    for (i, v) in sh.viols.iter().enumerate() {
        let kv = |l: &[(String, String)]| l.iter().map(|(a, b)| format!("{}: {}", jstr(a), jstr(b))).collect::<Vec<_>>().join(", ");
        let calls = v.calls.iter().map(|c| format!("{{\"f\": {}, \"m\": {}, \"k\": {}, \"n\": {}, \"lay\": {}}}", jstr(&c.f), c.d[0], c.d[1], c.d[2], jstr(&c.lay))).collect::<Vec<_>>().join(", ");
        o.push_str(&format!("{}{{\"kind\": {}, \"what\": {}, \"loc\": {}, \"where\": {}, \"scen\": {}, \"calls\": [{}], \"model\": {{{}}}, \"extra\": {{{}}}}}",
            if i > 0 { ",\n" } else { "" }, jstr(&v.kind), jstr(&v.what), jstr(&v.loc), jstr(&crate::exec3::short(&v.loc)), jstr(&v.scen), calls, kv(&v.model), kv(&v.extra)));
    }
    o.push_str("\n]\n}\n");
    std::fs::write(&job.out, o).expect("output");
}
