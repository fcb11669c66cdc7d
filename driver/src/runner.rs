//! Deterministic parallel case runner, shrinker, replay, evidence.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

use crate::client::*;
use crate::tape::{mix, Src};

#[derive(Default, Clone)]
pub struct Case {
    pub fail: Option<String>,
    pub hung: bool,
    pub nontrivial: bool,
    pub key: u64,
    pub desc: String,
    pub labels: Vec<String>,
    pub files: Vec<Vec<u8>>,
    /// numbers to be summed over the run (judged at the end)
    pub sums: Vec<(usize, f64)>,
}

impl Case {
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.fail.is_none() {
            self.fail = Some(m.into());
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
}

pub struct Env {
    pub scratch: String,
    pub tag: String,
    pub thorough: bool,
    pub corpus: std::sync::Arc<Vec<(String, Vec<u8>)>>,
    servers: BTreeMap<&'static str, Server>,
}

pub fn bin_path(v: &str) -> String {
    let base = std::env::var("VH_BINS").unwrap_or_else(|_| "/verif/target".into());
    format!("{}/{}", base, match v {
        "default" | "otherfill" => "default/release/vserver",
        "checked" => "checked/release/vserver",
        "scalar" => "scalar/release/vserver",
        "sse" => "sse/release/vserver",
        "debug" => "debug/release/vserver",
        "debugsse" => "debugsse/release/vserver",
        "asan" => "asan/x86_64-unknown-linux-gnu/release/vserver",
        "asansse" => "asansse/x86_64-unknown-linux-gnu/release/vserver",
        _ => panic!("variant"),
    })
}

impl Env {
    pub fn new(scratch: &str, tag: &str, thorough: bool, corpus: std::sync::Arc<Vec<(String, Vec<u8>)>>) -> Env {
        Env { scratch: scratch.into(), tag: tag.into(), thorough, corpus, servers: BTreeMap::new() }
    }
    pub fn server(&mut self, v: &'static str) -> &mut Server {
        let (s, t) = (self.scratch.clone(), self.tag.clone());
        self.servers.entry(v).or_insert_with(|| {
            Server::new(&bin_path(v), &s, &format!("{}_{}", t, v))
                .env("VSERVER_FILL", if v == "otherfill" { "60" } else { "165" })
                .env_if(v == "checked" || v.starts_with("asan"), "VSERVER_LOG", "1")
                .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:max_allocation_size_mb=4096")
        })
    }
    /// Run a script on a variant.  A crash of the server is a failure of the case.
    pub fn call(&mut self, v: &'static str, req: &Req, c: &mut Case) -> Option<Vec<Reply>> {
        if c.hung {
            return None;
        }
        c.files.extend(req.bufs.iter().cloned());
        let mut got = self.server(v).call(req);
        for t in 1..=8 {
            // every process here shares the system's limit on threads: a refusal
            // counts when it stays
            let refused = match &got {
                Ok(r) => r.iter().zip(&req.ops).any(|(x, op)| match (&x.res, op) {
                    (Res::Panic(m), _) => m.contains(NO_THREAD),
                    // results of several decodes in one answer
                    (Res::Pix(b), Op::Par(_)) => b.windows(NO_THREAD.len()).any(|w| w == NO_THREAD.as_bytes()),
                    _ => false,
                }),
                Err(Crash::Signal(_, e)) => e.contains(NO_THREAD),
                _ => false,
            };
            if !refused || LASTING.load(SeqCst) > 3 {
                break;
            }
            if t == 8 {
                LASTING.fetch_add(1, SeqCst);
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(100 * t * t));
            got = self.server(v).call(req);
        }
        match got {
            Ok(r) => {
                for (i, x) in r.iter().enumerate() {
                    if let Res::Panic(m) = &x.res {
                        c.fail(format!("[{}] panic in operation {} ({}): {}", v, i, opname(&req.ops[i]), m));
                    }
                }
                Some(r)
            }
            Err(Crash::Signal(n, e)) => {
                let line = e.lines().find(|l| l.contains("ERROR")).or_else(|| e.lines().next()).unwrap_or("").to_string();
                c.fail(format!("[{}] decoder process died (signal/exit {}): {}", v, n, line));
                None
            }
            Err(Crash::Hang(s)) => {
                c.fail(format!("[{}] decoder used {} s of CPU without returning", v, s));
                c.hung = true; // one is enough, they cost time
                None
            }
            Err(Crash::Env(e)) => {
                eprintln!("environment error: {}", e);
                std::process::exit(3);
            }
        }
    }
    /// One fresh decoder, one buffer.
    pub fn decode(&mut self, v: &'static str, o: O, b: &[u8], c: &mut Case) -> Option<Reply> {
        let mut r = Req::new();
        let i = r.buf(b);
        r.ops = vec![Op::New(o), Op::Decode(i)];
        self.call(v, &r, c).map(|mut x| x.pop().unwrap())
    }
}

pub fn opname(o: &Op) -> String {
    match o {
        Op::New(x) => format!("new_with_options({:?})", x.0),
        Op::Decode(i) => format!("decode_buffer(#{})", i),
        Op::Headers(i) => format!("read_headers(#{})", i),
        Op::File(i) => format!("decode_file(#{})", i),
        Op::Rgba => "rgba()".into(),
        Op::SetCs(c) => format!("set_output_colorspace({})", CS_NAMES[*c as usize]),
        Op::Limits(w, h) => format!("set_limits({},{})", w, h),
        Op::Threads(n) => format!("set_num_threads({})", n),
        Op::Par(v) => format!("{} concurrent decodes", v.len()),
        Op::Missing(s) => format!("decode_file({:?})", s),
        Op::Settle => "wait for threads to end".into(),
        Op::Getters(o) => format!("getters after {:?}", o.0),
    }
}

/// cases in which threads were refused to the end
static LASTING: AtomicUsize = AtomicUsize::new(0);

/// what std says when the system refuses a thread
const NO_THREAD: &str = "Resource temporarily unavailable";

pub type Fun = fn(&mut Src, &mut Env) -> Case;

#[derive(Clone, Copy)]
pub struct Phase {
    pub name: &'static str,
    pub f: Fun,
    /// (quick, thorough) number of cases; for `enumerated` phases the first
    /// draw of the tape is the case index
    pub n: (u64, u64),
    pub enumerated: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: Vec<Phase>,
    /// judged on the sums of the whole run
    pub final_check: Option<fn(&BTreeMap<usize, f64>) -> Option<String>>,
    pub assumptions: &'static [&'static str],
    pub variants: &'static [&'static str],
}

pub fn run_tape(f: Fun, tape: &[u64], env: &mut Env) -> (Case, Vec<u64>) {
    let mut s = Src::replay(tape);
    let c = f(&mut s, env);
    let used = s.used().min(tape.len());
    let mut t = tape[..used].to_vec();
    while t.last() == Some(&0) {
        t.pop();
    }
    (c, t)
}

fn less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink(f: Fun, tape: Vec<u64>, fixed: usize, env: &mut Env, budget: u32, secs: u64) -> (Vec<u64>, Case, u32) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut best_case = run_tape(f, &best, env).0;
    let mut tries = 0;
    let mut improved = !best_case.hung;
    while improved {
        improved = false;
        let mut cand: Vec<Vec<u64>> = vec![];
        let n = best.len();
        for k in [16usize, 8, 4, 2, 1] {
            let mut i = fixed;
            while i + k <= n {
                let mut t = best.clone();
                t.drain(i..i + k);
                cand.push(t);
                let mut t = best.clone();
                t[i..i + k].iter_mut().for_each(|x| *x = 0);
                cand.push(t);
                i += k.max(1);
            }
        }
        for i in fixed..n {
            let v = best[i];
            for w in [v / 2, v.saturating_sub(1), v.saturating_sub(8), v / 4 * 3] {
                if w < v {
                    let mut t = best.clone();
                    t[i] = w;
                    cand.push(t);
                }
            }
        }
        for t in cand {
            if tries >= budget || t0.elapsed().as_secs() > secs {
                return (best, best_case, tries);
            }
            if !less(&t, &best) {
                continue;
            }
            tries += 1;
            let (c, t2) = run_tape(f, &t, env);
            if c.fail.is_some() && less(&t2, &best) {
                best = t2;
                best_case = c;
                improved = true;
                break;
            }
        }
    }
    (best, best_case, tries)
}

pub struct Outcome {
    pub evals: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub per_phase: Vec<(String, u64)>,
    pub failure: Option<(usize, Vec<u64>, Case)>,
    pub sums: BTreeMap<usize, f64>,
}

pub fn run(p: &Prop, seed: u64, thorough: bool, threads: usize, scratch: &str, scale: f64,
           corpus: std::sync::Arc<Vec<(String, Vec<u8>)>>, only: Option<&str>) -> Outcome {
    let mut out = Outcome {
        evals: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        per_phase: vec![],
        failure: None,
        sums: BTreeMap::new(),
    };
    let keys: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let pid = p.id.bytes().fold(0u64, |a, b| a * 131 + u64::from(b));
    for (pi, ph) in p.phases.iter().enumerate() {
        if let Some(o) = only {
            if o != ph.name {
                continue;
            }
        }
        let mut n = if thorough { ph.n.1 } else { ph.n.0 };
        if !ph.enumerated {
            n = ((n as f64) * scale).ceil() as u64;
        }
        let next = AtomicU64::new(0);
        let bad: Mutex<Option<(u64, Vec<u64>, Case)>> = Mutex::new(None);
        let agg: Mutex<(u64, BTreeMap<String, u64>, BTreeMap<u64, String>, BTreeMap<u64, Vec<(usize, f64)>>)> =
            Mutex::new((0, BTreeMap::new(), BTreeMap::new(), BTreeMap::new()));
        let stop = AtomicU64::new(u64::MAX);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, bad, agg, stop, keys) = (&next, &bad, &agg, &stop, &keys);
                let corpus = corpus.clone();
                let scratch = scratch.to_string();
                sc.spawn(move || {
                    let mut env = Env::new(&scratch, &format!("t{}", t), thorough, corpus);
                    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut samples = BTreeMap::new();
                    let mut sums = BTreeMap::new();
                    let mut evals = 0;
                    let mut mykeys = vec![];
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || i >= stop.load(SeqCst) {
                            break;
                        }
                        let cs = mix(mix(seed, pid.wrapping_add(pi as u64 * 7919)), i);
                        let mut s = if ph.enumerated { Src::prefixed(vec![i], cs) } else { Src::fresh(cs) };
                        let c = (ph.f)(&mut s, &mut env);
                        evals += 1;
                        for l in &c.labels {
                            *labels.entry(l.clone()).or_default() += 1;
                        }
                        if c.nontrivial {
                            mykeys.push(c.key ^ (pi as u64) << 60);
                            if samples.len() < 3 {
                                samples.insert(i, c.desc.clone());
                            }
                        }
                        if !c.sums.is_empty() {
                            sums.insert(i, c.sums.clone());
                        }
                        if c.fail.is_some() {
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |x| i < x.0) {
                                *b = Some((i, s.tape.clone(), c));
                                stop.fetch_min(i, SeqCst);
                            }
                        }
                    }
                    keys.lock().unwrap().extend(mykeys);
                    let mut a = agg.lock().unwrap();
                    a.0 += evals;
                    for (k, v) in labels {
                        *a.1.entry(k).or_default() += v;
                    }
                    a.2.extend(samples);
                    a.3.extend(sums);
                });
            }
        });
        let (e, l, s, sm) = agg.into_inner().unwrap();
        out.evals += e;
        out.per_phase.push((ph.name.to_string(), e));
        for (k, v) in l {
            *out.labels.entry(k).or_default() += v;
        }
        out.samples.extend(s.into_values().take(3));
        for (_, v) in sm {
            for (k, x) in v {
                *out.sums.entry(k).or_default() += x;
            }
        }
        if let Some((_, tape, case)) = bad.into_inner().unwrap() {
            out.failure = Some((pi, tape, case));
            break;
        }
    }
    out.distinct = keys.into_inner().unwrap().len() as u64;
    out
}
