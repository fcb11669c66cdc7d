mod client;
mod enc;
mod gen;
mod mutate;
mod props;
mod refdec;
mod robust;
mod runner;
mod tape;
mod valid;

use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Arc;
use std::time::Instant;

use runner::*;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load_corpus(dir: &str) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for d in dir.split(':') {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                if let Ok(b) = std::fs::read(e.path()) {
                    v.push((e.file_name().to_string_lossy().into_owned(), b));
                }
            }
        }
    }
    v.sort();
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let scratch = arg(&a, "--scratch").unwrap_or_else(|| "/verif/scratch".into());
    let _ = std::fs::create_dir_all(&scratch);
    let thorough = arg(&a, "--tier").map_or(false, |t| t == "thorough");
    let corpus = Arc::new(load_corpus(&arg(&a, "--corpus").unwrap_or_default()));
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.variants.join(","));
            }
        }
        Some("variants") => {
            let id = a[2].clone();
            let p = props.iter().find(|p| p.id == id).expect("property");
            println!("{}", p.variants.join(" "));
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| {
                txt.lines().find_map(|l| l.strip_prefix(k)).expect("field").trim().to_string()
            };
            let id = get("property:");
            let phase = get("phase:");
            let tape: Vec<u64> = get("tape:").split_whitespace().map(|x| x.parse().unwrap()).collect();
            let p = props.iter().find(|p| p.id == id).expect("property");
            let ph = p.phases.iter().find(|x| x.name == phase).expect("phase");
            let mut env = Env::new(&scratch, "replay", thorough, corpus);
            let (c, _) = run_tape(ph.f, &tape, &mut env);
            println!("case: {}", c.desc);
            match c.fail {
                Some(m) => {
                    println!("FAILS: {}", m);
                    std::process::exit(1);
                }
                None => println!("holds"),
            }
        }
        Some("run") => {
            let id = a[2].clone();
            let p = props.iter().find(|p| p.id == id).expect("property");
            let seed: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let threads: usize = arg(&a, "--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
            let scale: f64 = arg(&a, "--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0);
            let only = arg(&a, "--phase");
            let replays = arg(&a, "--replays").unwrap_or_else(|| "/verif/replays".into());
            let t0 = Instant::now();
            let o = run(p, seed, thorough, threads, &scratch, scale, corpus.clone(), only.as_deref());
            let mut viol: Option<(String, String)> = None; // (message, replay path)
            if let Some((pi, tape, case)) = &o.failure {
                let ph = &p.phases[*pi];
                println!("failing case found in phase {}: {}", ph.name, case.desc);
                println!("  {}", case.fail.clone().unwrap());
                let mut env = Env::new(&scratch, "shrink", thorough, corpus.clone());
                let fixed = usize::from(ph.enumerated);
                let mut tape = tape.clone();
                let mut case = case.clone();
                let (c2, _) = run_tape(ph.f, &tape, &mut env);
                if c2.fail.is_some() {
                    let (t, c, tries) = shrink(ph.f, tape.clone(), fixed, &mut env, 4000, 60);
                    if c.fail.is_some() {
                        tape = t;
                        case = c;
                    }
                    println!("shrunk with {} attempts to: {}", tries, case.desc);
                    println!("  {}", case.fail.clone().unwrap());
                } else {
                    println!("  (did not fail again when re-run alone; reported as observed)");
                }
                let dir = format!("{}/{}-{:016x}", replays, p.id, gen::hash(format!("{:?}{}", tape, ph.name).as_bytes()));
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{}/replay.txt", dir);
                let mut f = std::fs::File::create(&path).expect("replay file");
                writeln!(f, "property: {}\nphase: {}\ntape: {}\ncase: {}\nfailure: {}\nrerun: ./replay.sh {}",
                    p.id, ph.name, tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
                    case.desc, case.fail.clone().unwrap(), path).unwrap();
                let mut seen: Vec<&Vec<u8>> = vec![];
                for b in &case.files {
                    if !seen.contains(&b) && seen.len() < 8 {
                        let _ = std::fs::write(format!("{}/input{}.jpg", dir, seen.len()), b);
                        seen.push(b);
                    }
                }
                viol = Some((case.fail.clone().unwrap(), path));
            } else if let Some(fc) = p.final_check {
                if only.is_none() {
                    if let Some(m) = fc(&o.sums) {
                        let dir = format!("{}/{}-aggregate", replays, p.id);
                        let _ = std::fs::create_dir_all(&dir);
                        let path = format!("{}/replay.txt", dir);
                        let _ = std::fs::write(&path, format!("property: {}\nseed: {}\ntier: {}\nfailure: {}\n", p.id, seed, if thorough { "thorough" } else { "quick" }, m));
                        viol = Some((m, path));
                    }
                }
            }
            for (k, v) in &o.labels {
                println!("  {:<40} {}", k, v);
            }
            for (k, v) in &o.sums {
                println!("  sum[{}] = {}", k, v);
            }
            println!("{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, o.evals, o.distinct, t0.elapsed().as_secs_f64());
            if let Some(ev) = arg(&a, "--evidence") {
                let lab: BTreeMap<_, _> = o.labels.clone();
                let mut s = String::from("{\n");
                s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(p.id), js(if thorough { "thorough" } else { "quick" }), seed);
                s += &format!(" \"wall_s\": {:.3},\n \"violations\": {},\n", t0.elapsed().as_secs_f64(), u8::from(viol.is_some()));
                s += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
                s += " \"coverage\": {\n";
                s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", o.evals, o.distinct, js(p.rule));
                s += &format!("  \"phases\": {{{}}},\n", o.per_phase.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
                s += &format!("  \"classes\": {{{}}},\n", lab.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
                s += &format!("  \"samples\": [{}]\n }}\n}}\n", o.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n   "));
                std::fs::write(&ev, s).expect("evidence");
            }
            if let Some((m, path)) = viol {
                println!("reason: {}", m);
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1);
            }
        }
        Some("make") => {
            // make WIDTH HEIGHT LAYOUT(0..4, 4 gray) PROGRESSIVE(0|1) RESTART SEED FILE
            let n: Vec<u64> = a[2..8].iter().map(|x| x.parse().unwrap()).collect();
            let (w, h, k) = (n[0] as usize, n[1] as usize, n[2] as usize);
            let mut s = tape::Src::fresh(n[5]);
            let mut img = if k == 4 { enc::Image::new(w, h, 1, (1, 1)) } else { enc::Image::new(w, h, 3, gen::SAMPS[k]) };
            gen::fill(&mut s, &mut img, &gen::Cfg { busy: true, ..gen::Cfg::new(40) });
            let mut o = enc::Opts { dri: n[4] as usize, ..enc::Opts::default() };
            if n[3] == 1 {
                o.progressive = true;
                o.scans = gen::script(&mut s, img.comps.len());
            }
            std::fs::write(&a[8], enc::encode(&img, &o)).unwrap();
        }
        Some("dump") => {
            // calibration aid: encoded files plus the reference intervals
            let n: u64 = a[2].parse().unwrap();
            let dir = &a[3];
            for i in 0..n {
                let mut s = tape::Src::fresh(tape::mix(99, i));
                let (img, _) = gen::image(&mut s, &gen::Cfg::new(120));
                let mut o = enc::Opts::default();
                gen::coding(&mut s, &mut o);
                if s.chance(1, 2) {
                    o.progressive = true;
                    o.scans = gen::script(&mut s, img.comps.len());
                    if s.chance(1, 3) {
                        o.eobrun_max = s.us(1, 5) as u32;
                    }
                }
                if s.chance(1, 2) {
                    gen::restart(&mut s, &img, &mut o);
                }
                let b = enc::encode(&img, &o);
                std::fs::write(format!("{}/{}.jpg", dir, i), &b).unwrap();
                let r = refdec::reference(&img);
                let mut t = vec![];
                for p in &r.planes {
                    t.extend(p.lo.iter().map(|x| *x as u8));
                    t.extend(p.hi.iter().map(|x| *x as u8));
                }
                std::fs::write(format!("{}/{}.ref", dir, i), &t).unwrap();
                std::fs::write(format!("{}/{}.txt", dir, i), format!("{} {} {} {} {} | {}", img.w, img.h, img.comps.len(), img.hmax, img.vmax, gen::desc(&img, &o))).unwrap();
            }
        }
        _ => {
            eprintln!("usage: vdriver list | run ID [...] | replay FILE");
            std::process::exit(2);
        }
    }
}
