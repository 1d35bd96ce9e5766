//! Runs the real, compiled library on the concrete inputs the symbolic executor found.
//!
//! mmreplay FILE: starts itself once per experiment and reports
//!   exit 3 "REPRODUCED ..." | exit 0 "not reproduced" | exit 4 "not realisable ...".
mod guard;
mod mem;
mod run;
#[cfg(feature = "ext")]
mod ext;
#[cfg(all(mmverif, feature = "constconf", not(feature = "ext")))]
#[path = "../../harness/src/probes.rs"]
mod probes;

use std::collections::HashMap;
use std::process::Command;

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub f: String,
    pub m: usize,
    pub k: usize,
    pub n: usize,
    pub s: [isize; 6],
    pub base: [usize; 3],
    pub beta_zero: i32,
    pub scal: usize,
    /// B is A's memory
    pub shared: bool,
}
impl Call {
    pub fn cplx(&self) -> bool { self.f == "cgemm" || self.f == "zgemm" }
    pub fn dbl(&self) -> bool { self.f == "dgemm" || self.f == "zgemm" }
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub mode: String,
    pub kv: HashMap<String, String>,
    pub calls: Vec<Call>,
    pub second: Vec<Call>,
    pub cell: (usize, usize),
    pub target: usize,
    /// (class, index, part, value) as the solver's model has them
    pub leaf: Vec<(char, usize, usize, f64)>,
    pub role: Vec<(char, usize, usize, f64)>,
    pub traces: Vec<(Call, [f64; 2], [f64; 2], [u64; 3], Vec<u64>)>,
}

fn call(w: &[&str]) -> Call {
    let i = |x: &str| -> isize { x.parse::<i128>().expect("number") as isize };
    let mut c = Call { f: w[0].into(), m: i(w[1]) as usize, k: i(w[2]) as usize, n: i(w[3]) as usize, ..Default::default() };
    for x in 0..6 { c.s[x] = i(w[4 + x]); }
    for x in 0..3 { c.base[x] = i(w[10 + x]) as usize; }
    c.beta_zero = w.get(13).map_or(-1, |x| x.parse().unwrap_or(-1));
    c.scal = w.get(14).map_or(0, |x| x.parse().unwrap_or(0));
    c.shared = w.get(15) == Some(&"shared");
    c
}

pub fn parse(p: &str) -> Spec {
    let t = std::fs::read_to_string(p).expect("replay file");
    let mut s = Spec::default();
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        match w[0] {
            "mode" => s.mode = w[1].into(),
            "call" => s.calls.push(call(&w[1..])),
            "second" => s.second.push(call(&w[1..])),
            "cell" => s.cell = (w[1].parse().unwrap(), w[2].parse().unwrap()),
            "target" => s.target = w[1].parse().unwrap(),
            "leaf" | "role" => {
                let v = (w[1].chars().next().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap());
                if w[0] == "leaf" { s.leaf.push(v) } else { s.role.push(v) }
            }
            "trace" => {
                // trace <call: 13 words> alpha0 alpha1 beta0 beta1 cpu0 cpu1 cpu2 bits...
                let c = call(&w[1..14]);
                let f = |i: usize| w[i].parse::<f64>().unwrap();
                let u = |i: usize| w[i].parse::<u64>().unwrap();
                s.traces.push((c, [f(14), f(15)], [f(16), f(17)], [u(18), u(19), u(20)], w[21..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect()));
            }
            k => { s.kv.insert(k.into(), w[1..].join(" ")); }
        }
    }
    s
}

struct Out { code: Option<i32>, signal: Option<i32>, text: String }

fn child(file: &str, what: &str, s: &Spec, threads: Option<&str>) -> Out {
    use std::os::unix::ffi::OsStringExt;
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(file).arg(what);
    c.env_remove("MATMUL_NUM_THREADS");
    match threads {
        Some(t) => { c.env("MATMUL_NUM_THREADS", t); }
        None => if let (Some(l), Some(h)) = (s.kv.get("env_len"), s.kv.get("env_hex")) {
            if !l.starts_with('-') {
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                if !b.contains(&0) { c.env("MATMUL_NUM_THREADS", std::ffi::OsString::from_vec(b)); }
            } else if l == "-2" {
                c.env("MATMUL_NUM_THREADS", std::ffi::OsString::from_vec(vec![0xff, 0xfe]));
            }
        }
    }
    c.stderr(std::process::Stdio::null());
    c.stdin(std::process::Stdio::null());
    c.stdout(std::process::Stdio::piped());
    let mut ch = c.spawn().expect("spawn");
    let mut out = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || { use std::io::Read; let mut t = vec![]; let _ = out.read_to_end(&mut t); t });
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().expect("wait") { break st; }
        if t0.elapsed().as_secs() > 60 { let _ = ch.kill(); let _ = ch.wait(); let _ = h.join(); return Out { code: None, signal: Some(-1), text: "no end after 60 s".into() }; }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    let text = String::from_utf8_lossy(&h.join().unwrap_or_default()).to_string();
    Out { code: st.code(), signal: st.signal(), text }
}

fn reproduced(msg: &str) -> ! {
    println!("REPRODUCED {}", msg.trim());
    std::process::exit(3);
}

fn judge(what: &str, o: &Out) {
    if let Some(sg) = o.signal {
        reproduced(&format!("[{}] the process ended with signal {} {}", what, sg, match sg { 11 => "(memory access outside the caller's matrices or the library's blocks)", 6 => "(abort)", 4 => "(illegal instruction)", -1 => "(did not end)", _ => "" }));
    }
    if o.code == Some(3) { reproduced(&format!("[{}] {}", what, o.text)); }
    if o.code == Some(4) { println!("not realisable: {}", o.text.trim()); std::process::exit(4); }
    if o.code != Some(0) { reproduced(&format!("[{}] the process ended with status {:?} {}", what, o.code, o.text)); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = &args[1];
    let s = parse(file);
    if args.len() > 2 {
        run::child(&s, &args[2]);
        std::process::exit(0);
    }
    match s.mode.as_str() {
        "trace" => {
            let o = child(file, "trace", &s, Some("1"));
            println!("{}", o.text.trim());
            std::process::exit(match (o.signal, o.code) { (None, Some(c)) => c, _ => 5 });
        }
        "bits" => {
            let conc: Vec<String> = s.kv.get("conc").map_or(vec![], |x| x.split(',').map(|y| y.to_string()).collect());
            let (t1, t2) = if conc.len() == 2 && conc[0] != conc[1] { (conc[0].as_str(), conc[1].as_str()) } else { ("1", "1") };
            let a = child(file, "bits1", &s, Some(t1));
            let b = child(file, "bits2", &s, Some(t2));
            for o in [&a, &b] { if o.signal.is_some() || o.code != Some(0) { judge("bits", o); } }
            for (x, y) in a.text.lines().zip(b.text.lines()) {
                if x != y {
                    let (p, q): (Vec<&str>, Vec<&str>) = (x.split(' ').collect(), y.split(' ').collect());
                    let d = p.iter().zip(q.iter()).position(|(u, v)| u != v).unwrap_or(0);
                    reproduced(&format!("results differ: {} element {} is {} in the first case and {} in the second", p[0], d.saturating_sub(1), p[d], q[d]));
                }
            }
        }
        "history" | "stale" => {
            judge("history", &child(file, "history", &s, None));
            judge("new contents in the same memory", &child(file, "stale", &s, None));
            if s.mode == "stale" { judge("foreign", &child(file, "foreign", &s, None)); }
            let a = child(file, "alone", &s, None);
            let b = child(file, "after", &s, None);
            for o in [&a, &b] { if o.signal.is_some() || o.code != Some(0) { judge("history", o); } }
            if a.text != b.text { reproduced("the call gives different bits on its own and after the other calls"); }
        }
        "alloc" => {
            for i in 0..6 {
                let o = child(file, &format!("alloc{}", i), &s, None);
                if o.code == Some(0) && o.text.contains("NOALLOC") { break; }
                if o.signal == Some(6) { continue; }
                judge("a failing allocation", &o);
            }
        }
        "race" | "cap" => {
            judge("threads", &child(file, &s.mode, &s, None));
            if s.mode == "race" { for t in ["2", "3", "4"] { judge("threads", &child(file, "value", &s, Some(t))); } }
        }
        "none" => {}
        "probe" => {
            // a panic is how an invalid text is rejected
            let o = child(file, "probe", &s, None);
            let rejects = s.calls[0].f.contains("reject");
            if !(rejects && (o.code == Some(101) || o.signal == Some(6))) { judge("probe", &o); }
        }
        m => {
            for what in [m, "mem"] {
                judge(what, &child(file, what, &s, None));
                if m == "value" || m == "mem" { break; }
            }
        }
    }
    println!("not reproduced");
}
