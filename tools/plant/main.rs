// Runs the cases in cases.txt beside it against the crate and compares with the expected outcome.
//   op file key=value...  => outcome
// op: dec (fresh decoder), again (same decoder as before), hdr, hdragain, file
#![allow(deprecated)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use zune_jpeg::errors::{DecodeErrors, UnsupportedSchemes};
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

static MODE: AtomicUsize = AtomicUsize::new(0); // 0 plain, 1 guard page behind blocks, 2.. fill byte
static GUARDED: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct A;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        let m = MODE.load(SeqCst);
        if m == 1 && l.size() >= 64 {
            // the block ends where an inaccessible page begins; never unmapped
            let body = (l.size() + 4095) / 4096 * 4096;
            let p = mmap(std::ptr::null_mut(), body + 4096, 3, 0x22, -1, 0);
            mprotect(p.add(body), 4096, 0);
            return p.add((body - l.size()) / l.align() * l.align());
        }
        if m == 3 && l.align() < 16 {
            // aligned to what was asked for and no more; never freed
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16));
            return p.add(l.align());
        }
        let p = System.alloc(l);
        if m >= 2 && !p.is_null() { p.write_bytes(m as u8, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        if GUARDED.load(SeqCst) != 0 { return; } // leaks, this is a short test
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: A = A;

fn cs(n: &str) -> ColorSpace {
    match n { "RGB" => ColorSpace::RGB, "RGBA" => ColorSpace::RGBA, "RGBX" => ColorSpace::RGBX,
        "GRAY" => ColorSpace::GRAYSCALE, "YCbCr" => ColorSpace::YCbCr, "CMYK" => ColorSpace::CMYK, _ => panic!() }
}
fn state(d: &Decoder) -> String {
    match d.info() {
        None => "noinfo".into(),
        Some(i) => format!("{}x{}:{}:{}:{}:{}:{:?}:{:?}", i.width, i.height, i.components, i.pixel_density, i.x_density, i.y_density,
            i.sof, d.get_output_colorspace()).replace(' ', "_"),
    }
}
/// Which error it is.
fn kind(e: &DecodeErrors) -> String {
    match e {
        DecodeErrors::IllegalMagicBytes(x) => format!("magic{}", x),
        DecodeErrors::HuffmanDecode(_) => "huffman".into(),
        DecodeErrors::ZeroError => "zero".into(),
        DecodeErrors::DqtError(_) => "dqt".into(),
        DecodeErrors::SosError(_) => "sos".into(),
        DecodeErrors::SofError(_) => "sof".into(),
        DecodeErrors::Unsupported(UnsupportedSchemes::LosslessArithmetic) => "lossless-arithmetic".into(),
        DecodeErrors::Unsupported(UnsupportedSchemes::LosslessHuffman) => "lossless-huffman".into(),
        DecodeErrors::Unsupported(_) => "unsupported".into(),
        _ => "other".into(),
    }
}

fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let print = std::env::args().nth(2).is_some();
    std::panic::set_hook(Box::new(|_| {}));
    let cases = std::fs::read_to_string(dir.join("cases.txt")).unwrap();
    let (mut bad, mut d) = (0, Decoder::new());
    for line in cases.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')) {
        let (l, want) = line.split_once("=>").unwrap_or((line, ""));
        let w: Vec<&str> = l.split_whitespace().collect();
        let mut o = ZuneJpegOptions::new();
        let (mut mode, mut peak, mut reps, mut tasks, mut pad, mut limits, mut leak, mut set, mut segs, mut limit, mut kinds) = (0, None, 1, None, 0, false, None, false, 0, None, false);
        for kv in &w[2..] {
            let (k, v) = kv.split_once('=').unwrap();
            let n = v.parse::<usize>().unwrap_or(0);
            match k {
                "cs" => o = o.set_out_colorspace(cs(v)),
                "threads" => o = o.set_num_threads(std::num::NonZeroU32::new(n as u32).unwrap()),
                "unsafe" => o = o.set_use_unsafe(n != 0),
                "strict" => o = o.set_strict_mode(n != 0),
                "mw" => o = o.set_max_width(n as u16),
                "mh" => o = o.set_max_height(n as u16),
                "ms" => o = o.set_max_scans(n),
                "mode" => mode = n,
                "peak" => peak = Some(n),
                "reps" => reps = n,
                "pad" => pad = n,
                "kinds" => kinds = true,
                "limits" => limits = true,
                "set" => set = true,
                "segs" => segs = n,
                "limit" => limit = Some(n),
                "tasks" => tasks = Some(n),
                "leak" => leak = Some(n),
                _ => panic!("{}", k),
            }
        }
        if w[0] == "opts" {
            let got = format!("{:?}:{}:{}:{}:{}:{}:{}", o.get_out_colorspace(), o.get_use_unsafe(), o.get_threads(), o.get_max_width(), o.get_max_height(), o.get_max_scans(), o.get_strict_mode());
            if print { println!("{} => {}", l.trim_end(), got); }
            else if got != want.trim() { bad += 1; println!("{}\n  expected {}\n  got      {}", l, want.trim(), got); }
            continue;
        }
        let mut path = dir.join(w[1]);
        let mut data = std::fs::read(&path).unwrap();
        if segs > 0 {
            // that many short comments in front
            data.splice(2..2, [0xFF, 0xFE, 0, 3, 32].iter().copied().cycle().take(5 * segs));
        }
        if pad > 0 {
            // that many comments of full size in front
            let com: Vec<u8> = [0xFF, 0xFE, 0xFF, 0xFF].iter().copied().chain((0..65533).map(|_| 32)).collect();
            data.splice(2..2, com.iter().copied().cycle().take(com.len() * pad));
            path = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
            std::fs::write(&path, &data).unwrap();
        }
        if !w[0].ends_with("again") { d = Decoder::new_with_options(o); }
        if set { d.set_limits(o.get_max_width(), o.get_max_height()); }
        if limits {
            // limits set on the decoder
            d = Decoder::new();
            d.set_limits(o.get_max_width(), o.get_max_height());
        }
        let mut outs: Vec<String> = vec![];
        let at_first = LIVE.load(SeqCst);
        for _ in 0..reps {
            if mode == 1 || mode == 3 { GUARDED.store(1, SeqCst); }
            MODE.store(mode, SeqCst);
            let t0 = std::time::Instant::now();
            let before = LIVE.load(SeqCst);
            PEAK.store(before, SeqCst);
            let op = w[0].to_string();
            let mut dd = std::mem::replace(&mut d, Decoder::new());
            let (data, path) = (data.clone(), path.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| match op.as_str() {
                    "dec" | "again" => dd.decode_buffer(&data),
                    "file" | "fileagain" => dd.decode_file(&path),
                    _ => dd.read_headers(&data).map(|()| vec![]),
                }));
                let _ = tx.send((r.map_err(|_| ()), dd));
            });
            let s = match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                Err(_) => "hang".to_string(),
                Ok((r, back)) => {
                    d = back;
                    match r {
                        Err(_) => "panic".to_string(),
                        Ok(Err(e)) if kinds => format!("err:{}", kind(&e)),
                        Ok(Err(_)) => "err".to_string(),
                        Ok(Ok(px)) => {
                            let mut h = 0xcbf29ce484222325u64;
                            let x = d.get_output_colorspace() == ColorSpace::RGBX;
                            for (i, &b) in px.iter().enumerate() {
                                if x && i % 4 == 3 { continue; }
                                h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
                            }
                            format!("ok:{}:{}:{:016x}", state(&d), px.len(), h)
                        }
                    }
                }
            };
            MODE.store(0, SeqCst);
            let used = PEAK.load(SeqCst).saturating_sub(before);
            let s = match limit { Some(n) if t0.elapsed().as_millis() as usize > n => format!("{}:slow", s), _ => s };
            let s = match peak { Some(p) if used > p => format!("{}:peak{}", s, used), _ => s };
            if !outs.contains(&s) { outs.push(s); }
        }
        if let Some(n) = leak {
            // what the calls allocated is given back, soon after the last
            let grown = || LIVE.load(SeqCst).saturating_sub(at_first);
            let mut left = 100;
            while grown() > n && left > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                left -= 1;
            }
            if grown() > n { outs.push("bytes left".into()); }
        }
        if let Some(n) = tasks {
            // worker threads end soon after the decode that started them
            let count = || std::fs::read_dir("/proc/self/task").unwrap().count();
            let mut left = 200;
            while count() > n && left > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                left -= 1;
            }
            if count() > n { outs.push("threads left".into()); }
        }
        if pad > 0 { let _ = std::fs::remove_file(&path); }
        outs.sort();
        let got = outs.join("|");
        if print { println!("{} => {}", l.trim_end(), got); }
        else if got != want.trim() { bad += 1; println!("{}\n  expected {}\n  got      {}", l, want.trim(), got); }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
