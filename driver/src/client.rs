//! Client side of the decoder servers.
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const RGB: u8 = 0;
pub const GRAY: u8 = 1;
pub const YCBCR: u8 = 2;
pub const CMYK: u8 = 3;
pub const YCCK: u8 = 4;
pub const RGBA: u8 = 5;
pub const RGBX: u8 = 6;
pub const CS_NAMES: [&str; 7] = ["RGB", "GRAYSCALE", "YCbCr", "CMYK", "YCCK", "RGBA", "RGBX"];

pub fn ncomp(cs: u8) -> usize {
    [3, 1, 3, 4, 4, 4, 4][cs as usize]
}

/// Ordered builder calls on the options object.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct O(pub Vec<(u8, u64)>);
impl O {
    pub fn new() -> O {
        // the default of four worker threads mostly costs time; properties
        // that quantify over threads set it themselves
        O(vec![(2, 1)])
    }
    pub fn plain() -> O {
        O(vec![])
    }
    pub fn cs(mut self, c: u8) -> O {
        self.0.push((0, u64::from(c)));
        self
    }
    pub fn uns(mut self, b: bool) -> O {
        self.0.push((1, u64::from(b)));
        self
    }
    pub fn threads(mut self, n: u32) -> O {
        self.0.push((2, u64::from(n)));
        self
    }
    pub fn maxw(mut self, n: u16) -> O {
        self.0.push((3, u64::from(n)));
        self
    }
    pub fn maxh(mut self, n: u16) -> O {
        self.0.push((4, u64::from(n)));
        self
    }
    pub fn scans(mut self, n: u64) -> O {
        self.0.push((5, n));
        self
    }
    pub fn strict(mut self, b: bool) -> O {
        self.0.push((6, u64::from(b)));
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(O),
    Decode(usize),
    Headers(usize),
    File(usize),
    Rgba,
    SetCs(u8),
    Limits(u16, u16),
    Threads(u64),
    Par(Vec<(O, usize)>),
    Missing(String),
    Getters(O),
    Settle,
}

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub bufs: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Pix(Vec<u8>),
    Err(String),
    Panic(String),
}

impl Res {
    pub fn short(&self) -> String {
        match self {
            Res::Unit => "Ok(())".into(),
            Res::Pix(p) => format!("Ok({} bytes)", p.len()),
            Res::Err(e) => format!("Err({})", e.chars().take(120).collect::<String>()),
            Res::Panic(e) => format!("PANIC({})", e.chars().take(200).collect::<String>()),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Unit | Res::Pix(_))
    }
    pub fn pix(&self) -> Option<&[u8]> {
        if let Res::Pix(p) = self { Some(p) } else { None }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub w: u16,
    pub h: u16,
    pub density: u8,
    pub progressive: bool,
    pub sequential: bool,
    pub lossless: bool,
    /// channels the output colorspace says it has
    pub channels: u8,
    pub comps: u8,
    pub dpi: (u16, u16),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    pub res: Res,
    pub peak: u64,
    /// threads started by the operation
    pub spawned: u32,
    /// microseconds of CPU time the operation took
    pub cpu: u64,
    /// live heap bytes after the operation
    pub live: u64,
    pub info: Option<Info>,
    pub w: u16,
    pub h: u16,
    pub cs: u8,
}

#[derive(Clone, Debug)]
pub enum Crash {
    /// the process died on a signal the program itself raised
    Signal(i32, String),
    /// more CPU time than any legitimate request can need
    Hang(u64),
    /// the environment failed (killed from outside, no progress without CPU use)
    Env(String),
}

fn p32(o: &mut Vec<u8>, v: usize) {
    o.extend((v as u32).to_le_bytes());
}

fn put_opts(o: &mut Vec<u8>, x: &O) {
    o.push(x.0.len() as u8);
    for (t, v) in &x.0 {
        o.push(*t);
        o.extend(v.to_le_bytes());
    }
}

impl Req {
    pub fn new() -> Req {
        Req::default()
    }
    pub fn buf(&mut self, b: &[u8]) -> usize {
        if let Some(i) = self.bufs.iter().position(|x| x == b) {
            return i;
        }
        self.bufs.push(b.to_vec());
        self.bufs.len() - 1
    }
    fn ser(&self) -> Vec<u8> {
        let mut o = vec![];
        p32(&mut o, self.bufs.len());
        for b in &self.bufs {
            p32(&mut o, b.len());
            o.extend(b);
        }
        p32(&mut o, self.ops.len());
        for op in &self.ops {
            match op {
                Op::New(x) => {
                    o.push(0);
                    put_opts(&mut o, x);
                }
                Op::Decode(i) => {
                    o.push(1);
                    p32(&mut o, *i);
                }
                Op::Headers(i) => {
                    o.push(2);
                    p32(&mut o, *i);
                }
                Op::File(i) => {
                    o.push(3);
                    p32(&mut o, *i);
                }
                Op::Rgba => o.push(4),
                Op::SetCs(c) => o.extend([5, *c]),
                Op::Limits(w, h) => {
                    o.push(6);
                    o.extend(w.to_le_bytes());
                    o.extend(h.to_le_bytes());
                }
                Op::Threads(n) => {
                    o.push(7);
                    o.extend(n.to_le_bytes());
                }
                Op::Par(v) => {
                    o.push(8);
                    p32(&mut o, v.len());
                    for (x, i) in v {
                        put_opts(&mut o, x);
                        p32(&mut o, *i);
                    }
                }
                Op::Missing(s) => {
                    o.push(9);
                    p32(&mut o, s.len());
                    o.extend(s.as_bytes());
                }
                Op::Settle => o.push(11),
                Op::Getters(x) => {
                    o.push(10);
                    put_opts(&mut o, x);
                }
            }
        }
        o
    }
}

struct R<'a>(&'a [u8], usize);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        self.1 += n;
        &self.0[self.1 - n..self.1]
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
}

fn get_res(r: &mut R) -> (Res, u64) {
    let t = r.u8();
    let n = r.u32() as usize;
    let b = r.take(n);
    let s = || String::from_utf8_lossy(b).into_owned();
    let res = match t {
        0 => Res::Unit,
        1 => Res::Pix(b.to_vec()),
        2 => Res::Err(s()),
        _ => Res::Panic(s()),
    };
    (res, r.u64())
}

/// Results of a concurrent-decodes operation.
pub fn split_par(blob: &[u8]) -> Vec<Res> {
    let mut r = R(blob, 0);
    let mut v = vec![];
    while r.1 < blob.len() {
        v.push(get_res(&mut r).0);
    }
    v
}

extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

pub struct Server {
    bin: String,
    scratch: String,
    extra_env: Vec<(String, String)>,
    proc: Option<(Child, ChildStdin, ChildStdout)>,
    errfile: String,
    pub cpu_limit_s: u64,
}

/// Every thread of the process is blocked.
fn all_asleep(pid: u32) -> bool {
    let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    let mut n = 0;
    for t in rd.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        match s.rfind(')').and_then(|i| s.as_bytes().get(i + 2).copied()) {
            Some(b'S') => n += 1,
            _ => return false,
        }
    }
    n > 0
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

impl Server {
    pub fn new(bin: &str, scratch: &str, tag: &str) -> Server {
        Server {
            bin: bin.into(),
            scratch: scratch.into(),
            extra_env: vec![],
            proc: None,
            errfile: format!("{}/stderr_{}", scratch, tag),
            cpu_limit_s: 40,
        }
    }
    pub fn env(mut self, k: &str, v: &str) -> Server {
        self.extra_env.push((k.into(), v.into()));
        self
    }
    pub fn env_if(self, c: bool, k: &str, v: &str) -> Server {
        if c { self.env(k, v) } else { self }
    }
    fn start(&mut self) {
        let ef = File::create(&self.errfile).expect("stderr file");
        let mut c = Command::new(&self.bin);
        c.arg(&self.scratch).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(ef));
        for (k, v) in &self.extra_env {
            c.env(k, v);
        }
        let mut ch = c.spawn();
        for t in 1..=8 {
            if !matches!(&ch, Err(e) if e.kind() == std::io::ErrorKind::WouldBlock) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(100 * t * t));
            ch = c.spawn();
        }
        let mut ch = ch.unwrap_or_else(|e| {
            eprintln!("cannot start {}: {}", self.bin, e);
            std::process::exit(3)
        });
        let i = ch.stdin.take().unwrap();
        let o = ch.stdout.take().unwrap();
        self.proc = Some((ch, i, o));
    }
    fn dead(&mut self) -> Crash {
        let (mut ch, i, o) = self.proc.take().unwrap();
        drop(i);
        drop(o);
        let st = ch.wait();
        let err = std::fs::read_to_string(&self.errfile).unwrap_or_default();
        let err: String = err.chars().take(3000).collect();
        match st {
            Ok(s) => match s.signal() {
                Some(9) => Crash::Env("server killed by SIGKILL".into()),
                Some(15) => Crash::Env("server terminated".into()),
                Some(n) => Crash::Signal(n, err),
                None => Crash::Signal(-s.code().unwrap_or(0), err),
            },
            Err(e) => Crash::Env(e.to_string()),
        }
    }
    pub fn call(&mut self, req: &Req) -> Result<Vec<Reply>, Crash> {
        if self.proc.is_none() {
            self.start();
        }
        let b = req.ser();
        let pid = self.proc.as_ref().unwrap().0.id();
        let t0 = cpu_ticks(pid).unwrap_or(0);
        {
            let i = &mut self.proc.as_mut().unwrap().1;
            if i.write_all(&(b.len() as u32).to_le_bytes()).and_then(|_| i.write_all(&b)).and_then(|_| i.flush()).is_err() {
                return Err(self.dead());
            }
        }
        let fd = self.proc.as_ref().unwrap().2.as_raw_fd();
        let mut waited = 0u64;
        let (mut idle, mut last) = (0, t0);
        loop {
            let mut p = PollFd { fd, events: 1, revents: 0 };
            let n = unsafe { poll(&mut p, 1, 2000) };
            if n > 0 {
                break;
            }
            waited += 2;
            let used = cpu_ticks(pid).unwrap_or(t0).saturating_sub(t0) / 100;
            if used > self.cpu_limit_s {
                let (mut ch, _i, _o) = self.proc.take().unwrap();
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(Crash::Hang(used));
            }
            // a deadlock: for a minute every thread slept and used no CPU at all
            let now = cpu_ticks(pid).unwrap_or(t0);
            idle = if now == last && all_asleep(pid) { idle + 1 } else { 0 };
            last = now;
            if idle >= 30 {
                let (mut ch, _i, _o) = self.proc.take().unwrap();
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(Crash::Hang(used));
            }
            if waited > 500 {
                let (mut ch, _i, _o) = self.proc.take().unwrap();
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(Crash::Env(format!("no answer in {} s with {} s of CPU", waited, used)));
            }
        }
        let mut l = [0u8; 4];
        let mut ok = self.proc.as_mut().unwrap().2.read_exact(&mut l).is_ok();
        let mut body = vec![];
        if ok {
            body = vec![0; u32::from_le_bytes(l) as usize];
            ok = self.proc.as_mut().unwrap().2.read_exact(&mut body).is_ok();
        }
        if !ok {
            return Err(self.dead());
        }
        let mut r = R(&body, 0);
        let n = r.u32();
        let mut out = vec![];
        for _ in 0..n {
            let (res, peak) = get_res(&mut r);
            let spawned = r.u32();
            let cpu = r.u64();
            let live = r.u64();
            let has = r.u8();
            let info = Info {
                w: r.u16(),
                h: r.u16(),
                density: r.u8(),
                progressive: false,
                sequential: false,
                lossless: false,
                channels: 0,
                comps: 0,
                dpi: (0, 0),
            };
            let s = r.u8();
            let comps = r.u8();
            let dpi = (r.u16(), r.u16());
            let info = Info { progressive: s & 1 != 0, sequential: s & 2 != 0, lossless: s & 4 != 0, channels: s >> 4, comps, dpi, ..info };
            out.push(Reply {
                res,
                peak,
                spawned,
                cpu,
                live,
                info: if has == 1 { Some(info) } else { None },
                w: r.u16(),
                h: r.u16(),
                cs: r.u8(),
            });
        }
        Ok(out)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        if let Some((mut ch, i, o)) = self.proc.take() {
            drop(i);
            drop(o);
            let _ = ch.wait();
        }
    }
}
