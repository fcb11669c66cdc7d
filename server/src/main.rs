//! Executes scripts of public-API calls against the crate under test and
//! reports everything observable.  One process = one request at a time, so a
//! crash, abort or runaway is confined to (and attributable to) one request.
#![allow(deprecated)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

use zune_jpeg::errors::{DecodeErrors, UnsupportedSchemes};
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

// ---------------------------------------------------------------- allocator
// Accounts live and peak bytes.  Unless `plain-alloc` is on it is also a
// *hostile but legal* allocator: blocks are aligned to exactly what the layout
// asks for and no more, and fresh memory is filled with garbage.
struct Acct;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
#[cfg(not(feature = "plain-alloc"))]
static FILL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0xA5);

/// No legitimate request comes near this; running into it aborts the request
/// instead of exhausting the machine.
const CAP: usize = 2 << 30;

fn add(n: usize) -> bool {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if l > CAP {
        LIVE.fetch_sub(n, Relaxed);
    }
    l <= CAP
}

#[cfg(not(feature = "plain-alloc"))]
const OFF: usize = 16;

unsafe impl GlobalAlloc for Acct {
    #[cfg(feature = "plain-alloc")]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    #[cfg(feature = "plain-alloc")]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    #[cfg(feature = "plain-alloc")]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }

    #[cfg(not(feature = "plain-alloc"))]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        let p = if l.align() < OFF {
            let q = System.alloc(Layout::from_size_align_unchecked(l.size() + OFF, OFF));
            if q.is_null() {
                return q;
            }
            q.add(l.align())
        } else {
            System.alloc(l)
        };
        if !p.is_null() && l.size() < 1 << 22 {
            std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        }
        p
    }
    #[cfg(not(feature = "plain-alloc"))]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        if l.align() < OFF {
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + OFF, OFF));
            if q.is_null() {
                return q;
            }
            q.add(l.align())
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[cfg(not(feature = "plain-alloc"))]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        if l.align() < OFF {
            System.dealloc(p.sub(l.align()), Layout::from_size_align_unchecked(l.size() + OFF, OFF))
        } else {
            System.dealloc(p, l)
        }
    }
}

#[global_allocator]
static A: Acct = Acct;

// ---------------------------------------------------------------- threads
// Counts the threads started.
static SPAWNED: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(feature = "plain-alloc"))]
mod count_threads {
    use std::ffi::{c_char, c_int, c_void};
    use std::sync::atomic::Ordering::Relaxed;
    type Start = extern "C" fn(*mut c_void) -> *mut c_void;
    type Create = unsafe extern "C" fn(*mut c_void, *const c_void, Start, *mut c_void) -> c_int;
    extern "C" {
        fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    }
    /// # Safety
    /// Passes everything on to the C library.
    #[no_mangle]
    pub unsafe extern "C" fn pthread_create(t: *mut c_void, a: *const c_void, f: Start, x: *mut c_void) -> c_int {
        super::SPAWNED.fetch_add(1, Relaxed);
        let next = dlsym(-1isize as *mut c_void, c"pthread_create".as_ptr());
        std::mem::transmute::<*mut c_void, Create>(next)(t, a, f, x)
    }
}

/// `pthread_detach` of the C library installed here reads the thread's descriptor
/// after marking it, when the thread may already have ended and freed it
/// (glibc bug 19951): about one in a hundred million calls crashes the process.
/// The thread pool used by the crate detaches its workers just as they end, so
/// detached threads are put on a list here and joined once they have ended.
mod detach {
    use std::ffi::{c_int, c_void};
    use std::sync::Mutex;
    extern "C" {
        fn pthread_tryjoin_np(t: usize, r: *mut *mut c_void) -> c_int;
        fn __real_pthread_detach(t: usize) -> c_int;
    }
    const MAX: usize = 4096;
    struct List([usize; MAX], usize);
    static LIST: Mutex<List> = Mutex::new(List([0; MAX], 0));

    fn reap(l: &mut List) {
        let mut k = 0;
        while k < l.1 {
            // anything but EBUSY: joined, or not ours to join
            if unsafe { pthread_tryjoin_np(l.0[k], std::ptr::null_mut()) } == 16 {
                k += 1;
            } else {
                l.1 -= 1;
                l.0[k] = l.0[l.1];
            }
        }
    }

    /// Join what has ended.
    pub fn collect() {
        if let Ok(mut l) = LIST.lock() {
            reap(&mut l);
        }
    }

    /// # Safety
    /// As `pthread_detach`.
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_pthread_detach(t: usize) -> c_int {
        let Ok(mut l) = LIST.lock() else { return __real_pthread_detach(t) };
        if l.1 % 64 == 0 {
            reap(&mut l);
        }
        if l.1 == MAX {
            return __real_pthread_detach(t);
        }
        let n = l.1;
        l.0[n] = t;
        l.1 += 1;
        0
    }
}

/// CPU time of all threads of the process, in microseconds.
fn cpu_us() -> u64 {
    extern "C" {
        fn clock_gettime(id: std::ffi::c_int, t: *mut [i64; 2]) -> std::ffi::c_int;
    }
    let mut t = [0i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    (t[0] * 1_000_000 + t[1] / 1000) as u64
}

// ---------------------------------------------------------------- protocol
struct R<'a>(&'a [u8], usize);
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn u16(&mut self) -> u16 {
        u16::from(self.u8()) | u16::from(self.u8()) << 8
    }
    fn u32(&mut self) -> u32 {
        u32::from(self.u16()) | u32::from(self.u16()) << 16
    }
    fn u64(&mut self) -> u64 {
        u64::from(self.u32()) | u64::from(self.u32()) << 32
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.1 += n;
        &self.0[self.1 - n..self.1]
    }
}

fn cs(n: u8) -> ColorSpace {
    [
        ColorSpace::RGB,
        ColorSpace::GRAYSCALE,
        ColorSpace::YCbCr,
        ColorSpace::CMYK,
        ColorSpace::YCCK,
        ColorSpace::RGBA,
        ColorSpace::RGBX,
    ][n as usize]
}
fn cs_id(c: ColorSpace) -> u8 {
    match c {
        ColorSpace::RGB => 0,
        ColorSpace::GRAYSCALE => 1,
        ColorSpace::YCbCr => 2,
        ColorSpace::CMYK => 3,
        ColorSpace::YCCK => 4,
        ColorSpace::RGBA => 5,
        ColorSpace::RGBX => 6,
    }
}

/// Builder calls in the order given by the request: each is (tag, value).
fn opts(r: &mut R) -> ZuneJpegOptions {
    let mut o = ZuneJpegOptions::new();
    let n = r.u8();
    for _ in 0..n {
        let t = r.u8();
        let v = r.u64();
        o = match t {
            0 => o.set_out_colorspace(cs(v as u8)),
            1 => o.set_use_unsafe(v != 0),
            2 => o.set_num_threads(NonZeroU32::new(v as u32).unwrap()),
            3 => o.set_max_width(v as u16),
            4 => o.set_max_height(v as u16),
            5 => o.set_max_scans(v as usize),
            6 => o.set_strict_mode(v != 0),
            _ => panic!("bad option"),
        };
    }
    o
}

fn p32(o: &mut Vec<u8>, v: usize) {
    o.extend((v as u32).to_le_bytes());
}
fn pb(o: &mut Vec<u8>, b: &[u8]) {
    p32(o, b.len());
    o.extend(b);
}

thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static ANYMSG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    if let Ok(mut m) = ANYMSG.lock() {
        m.clear();
    }
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ANYMSG.lock().map(|m| m.clone()).unwrap_or_default())
}

type Out = Result<Result<Option<Vec<u8>>, String>, String>;

fn put_out(o: &mut Vec<u8>, r: &Out, peak: usize) {
    match r {
        Ok(Ok(None)) => {
            o.push(0);
            pb(o, &[]);
        }
        Ok(Ok(Some(p))) => {
            o.push(1);
            pb(o, p);
        }
        Ok(Err(e)) => {
            o.push(2);
            pb(o, e.as_bytes());
        }
        Err(m) => {
            o.push(3);
            pb(o, m.as_bytes());
        }
    }
    o.extend((peak as u64).to_le_bytes());
}

fn put_state(o: &mut Vec<u8>, d: &Decoder) {
    let i = guarded(|| (d.info(), d.width(), d.height(), d.get_output_colorspace()));
    match i {
        Ok((info, w, h, c)) => {
            match info {
                Some(i) => {
                    o.push(1);
                    o.extend(i.width.to_le_bytes());
                    o.extend(i.height.to_le_bytes());
                    o.push(i.pixel_density);
                    o.push(u8::from(i.sof.is_progressive()) | u8::from(i.sof.is_sequential_dct()) << 1 | u8::from(i.sof.is_lossless()) << 2 | (c.num_components() as u8) << 4);
                    o.push(i.components);
                    o.extend(i.x_density.to_le_bytes());
                    o.extend(i.y_density.to_le_bytes());
                }
                None => o.extend([0; 12]),
            }
            o.extend(w.to_le_bytes());
            o.extend(h.to_le_bytes());
            o.push(cs_id(c));
        }
        Err(_) => o.extend([0xFF; 17]),
    }
}

/// The kind of the error and its message; empty if there is no message.
fn err(e: DecodeErrors) -> String {
    let (a, b) = (format!("{:?}", e), format!("{}", e));
    if a.is_empty() || b.is_empty() {
        return String::new();
    }
    let kind = match &e {
        DecodeErrors::Format(_) | DecodeErrors::FormatStatic(_) => "Format".into(),
        DecodeErrors::IllegalMagicBytes(x) => format!("IllegalMagicBytes({:04x})", x),
        DecodeErrors::HuffmanDecode(_) => "HuffmanDecode".into(),
        DecodeErrors::ZeroError => "ZeroError".into(),
        DecodeErrors::DqtError(_) => "DqtError".into(),
        DecodeErrors::SosError(_) => "SosError".into(),
        DecodeErrors::SofError(_) => "SofError".into(),
        DecodeErrors::Unsupported(x) => format!(
            "Unsupported({})",
            match x {
                UnsupportedSchemes::ExtendedSequentialHuffman => "ExtendedSequentialHuffman",
                UnsupportedSchemes::LosslessHuffman => "LosslessHuffman",
                UnsupportedSchemes::ExtendedSequentialDctArithmetic => "ExtendedSequentialDctArithmetic",
                UnsupportedSchemes::ProgressiveDctArithmetic => "ProgressiveDctArithmetic",
                UnsupportedSchemes::LosslessArithmetic => "LosslessArithmetic",
                #[allow(unreachable_patterns)]
                _ => "other",
            }
        ),
        _ => "other".into(),
    };
    if a == b {
        format!("{}|{}", kind, a)
    } else {
        format!("{}|{} / {}", kind, a, b)
    }
}

fn handle(req: &[u8], scratch: &str) -> Vec<u8> {
    let mut r = R(req, 0);
    let nb = r.u32();
    let bufs: Vec<&[u8]> = (0..nb).map(|_| r.bytes()).collect();
    let nops = r.u32();
    let mut out = vec![];
    p32(&mut out, nops as usize);
    let mut d = Decoder::new();
    for k in 0..nops {
        let op = r.u8();
        let base = LIVE.load(Relaxed);
        PEAK.store(base, Relaxed);
        let spawned = SPAWNED.load(Relaxed);
        let cpu = cpu_us();
        let mut res: Out;
        match op {
            0 => {
                let o = opts(&mut r);
                res = guarded(|| {
                    d = Decoder::new_with_options(o);
                    Ok(None)
                });
            }
            1 => {
                let b = bufs[r.u32() as usize];
                res = guarded(|| d.decode_buffer(b).map(Some).map_err(err));
            }
            2 => {
                let b = bufs[r.u32() as usize];
                res = guarded(|| d.read_headers(b).map(|_| None).map_err(err));
            }
            3 => {
                let b = bufs[r.u32() as usize];
                // the name is no part of the image, so all sorts of names are used
                let sum = b.iter().fold(b.len(), |a, x| a.wrapping_mul(31).wrapping_add(usize::from(*x)));
                let stem = format!("f{}_{}", std::process::id(), k);
                let name: Vec<u8> = match sum % 16 {
                    0 => stem.into_bytes(),
                    1 => format!(".{}", stem).into_bytes(),
                    2 => format!("{}.png", stem).into_bytes(),
                    3 => format!("{} (copy) \u{e9}\u{4e2d}.JPEG", stem).into_bytes(),
                    4 => [stem.as_bytes(), b"\xff\xfe.jpg"].concat(),
                    5 => format!("{}.{}.jpg", stem, "x".repeat(200)).into_bytes(),
                    6 => format!("{}.jpg.tmp", stem).into_bytes(),
                    7 => format!("{}.JPG", stem).into_bytes(),
                    _ => format!("{}.jpg", stem).into_bytes(),
                };
                let dir = std::path::Path::new(scratch);
                let path = dir.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(&name));
                // now and then through a symbolic link
                let target = dir.join(format!("t{}_{}", std::process::id(), k));
                let link = sum / 16 % 8 == 0;
                if link {
                    std::fs::write(&target, b).expect("scratch file");
                    std::os::unix::fs::symlink(&target, &path).expect("scratch link");
                } else {
                    std::fs::write(&path, b).expect("scratch file");
                }
                res = guarded(|| d.decode_file(&path).map(Some).map_err(err));
                let same = std::fs::read(&path).map(|x| x == b).unwrap_or(false);
                let _ = std::fs::remove_file(&path);
                if link {
                    let _ = std::fs::remove_file(&target);
                }
                if !same {
                    res = Err("decode_file changed the file".to_string());
                }
            }
            4 => res = guarded(|| {
                d.rgba();
                Ok(None)
            }),
            5 => {
                let c = cs(r.u8());
                res = guarded(|| {
                    d.set_output_colorspace(c);
                    Ok(None)
                });
            }
            6 => {
                let (w, h) = (r.u16(), r.u16());
                res = guarded(|| {
                    d.set_limits(w, h);
                    Ok(None)
                });
            }
            7 => {
                let n = r.u64();
                res = guarded(|| d.set_num_threads(n as usize).map(|_| None).map_err(err));
            }
            8 => {
                // concurrent decodes, each with its own decoder
                let n = r.u32();
                let jobs: Vec<(ZuneJpegOptions, &[u8])> = (0..n)
                    .map(|_| {
                        let o = opts(&mut r);
                        (o, bufs[r.u32() as usize])
                    })
                    .collect();
                let gate = std::sync::RwLock::new(());
                let shut = gate.write().unwrap();
                let rs: Vec<Out> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs
                        .iter()
                        .map(|(o, b)| {
                            let gate = &gate;
                            std::thread::Builder::new().spawn_scoped(s, move || {
                                drop(gate.read());
                                catch_unwind(AssertUnwindSafe(|| {
                                    Decoder::new_with_options(*o).decode_buffer(b).map(Some).map_err(err)
                                }))
                                .map_err(|p| p.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic".into()))
                            })
                        })
                        .collect();
                    drop(shut);
                    hs.into_iter()
                        .map(|h| match h {
                            Ok(h) => h.join().unwrap_or(Err("panic".into())),
                            Err(e) => Err(e.to_string()),
                        })
                        .collect()
                });
                let mut blob = vec![];
                for x in &rs {
                    put_out(&mut blob, x, 0);
                }
                res = Ok(Ok(Some(blob)));
            }
            9 => {
                let p = String::from_utf8(r.bytes().to_vec()).unwrap();
                let p = format!("{}/{}", scratch, p);
                res = guarded(|| d.decode_file(&p).map(Some).map_err(err));
            }
            10 => {
                // option getters after a builder chain
                let o = opts(&mut r);
                let mut b = vec![cs_id(o.get_out_colorspace()), u8::from(o.get_use_unsafe()), u8::from(o.get_strict_mode())];
                b.extend(o.get_threads().to_le_bytes());
                b.extend(o.get_max_width().to_le_bytes());
                b.extend(o.get_max_height().to_le_bytes());
                b.extend((o.get_max_scans() as u64).to_le_bytes());
                res = Ok(Ok(Some(b)));
            }
            11 => {
                // wait for worker threads to go away; how many stay?
                let count = || std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1);
                let t0 = std::time::Instant::now();
                // a listing made while threads end may be short: one thread
                // must be all there is several times in a row
                let (mut n, mut calm) = (count(), 0);
                while calm < 5 && t0.elapsed().as_secs() < 20 {
                    std::thread::sleep(std::time::Duration::from_millis(if n > 1 { 1 } else { 0 }));
                    n = count();
                    calm = if n > 1 { 0 } else { calm + 1 };
                }
                let n = if calm < 5 { n.max(2) } else { 1 };
                res = Ok(Ok(Some((n as u32).to_le_bytes().to_vec())));
            }
            _ => panic!("bad op {}", op),
        }
        let cpu = cpu_us() - cpu;
        let peak = PEAK.load(Relaxed) - base.min(PEAK.load(Relaxed));
        put_out(&mut out, &res, peak);
        out.extend(((SPAWNED.load(Relaxed) - spawned) as u32).to_le_bytes());
        out.extend(cpu.to_le_bytes());
        drop(res);
        // bytes still live, without the answer being assembled here
        out.extend((LIVE.load(Relaxed).saturating_sub(out.capacity()) as u64).to_le_bytes());
        put_state(&mut out, &d);
    }
    out
}

/// Formats every message the crate logs and throws it away.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var_os("VSERVER_LOG").is_some() {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if m.contains("Resource temporarily unavailable") {
            eprintln!("{}", m);
        }
        if let Ok(mut g) = ANYMSG.lock() {
            // keep the first panic of a request: later ones are consequences
            if g.is_empty() {
                *g = format!("{} at {}", m, loc);
            }
        }
        MSG.with(|_| ());
    }));
    #[cfg(not(feature = "plain-alloc"))]
    if let Some(v) = std::env::var("VSERVER_FILL").ok().and_then(|x| x.parse().ok()) {
        FILL.store(v, Relaxed);
    }
    let scratch = std::env::args().nth(1).unwrap_or_else(|| "/tmp".into());
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut l = [0u8; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut b).unwrap();
        let r = handle(&b, &scratch);
        drop(b);
        detach::collect();
        o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&r).unwrap();
        o.flush().unwrap();
    }
}
