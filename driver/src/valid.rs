//! Properties about valid images: what the pixels are and what must not matter.
use std::collections::BTreeMap;

use crate::client::*;
use crate::enc::*;
use crate::gen;
use crate::gen::*;
use crate::refdec::*;
use crate::runner::*;
use crate::tape::{Rng, Src};

pub const COLORS: [u8; 5] = [YCBCR, RGB, GRAY, RGBA, RGBX];

pub fn judge(rf: &Ref, cs: u8, pix: &[u8]) -> Option<String> {
    match cs {
        GRAY => rf.check_planes(pix, 1),
        YCBCR => rf.check_planes(pix, 3),
        RGB => rf.check_rgb(pix, 3, false),
        RGBA => rf.check_rgb(pix, 4, true),
        _ => rf.check_rgb(pix, 4, false),
    }
}

/// Output colorspace an image ends up with.
pub fn eff(img: &Image, cs: u8) -> u8 {
    if img.comps.len() == 1 { GRAY } else { cs }
}

pub fn variant(s: &mut Src) -> &'static str {
    *s.pick(&["default", "default", "default", "default", "default", "default", "scalar", "sse"])
}

pub fn diff(a: &[u8], b: &[u8], w: usize, n: usize) -> String {
    if a.len() != b.len() {
        return format!("{} bytes against {}", a.len(), b.len());
    }
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    let cnt = a.iter().zip(b).filter(|(x, y)| x != y).count();
    format!("{} bytes differ, first at x={} y={} channel {}: {} against {}", cnt, k / n % w.max(1), k / n / w.max(1), k % n, a[k], b[k])
}

/// The X byte of RGBX carries nothing.
pub fn norm(cs: u8, p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    if cs == RGBX {
        v.iter_mut().skip(3).step_by(4).for_each(|x| *x = 0);
    }
    v
}

/// Decode a file that must be accepted.
pub fn must(e: &mut Env, v: &'static str, o: &O, b: &[u8], what: &str, c: &mut Case) -> Option<(Vec<u8>, Reply)> {
    let r = e.decode(v, o.clone(), b, c)?;
    match &r.res {
        Res::Pix(p) => Some((p.clone(), r.clone())),
        Res::Panic(_) => None,
        x => {
            c.fail(format!("[{}] {} not decoded: {}", v, what, x.short()));
            None
        }
    }
}

fn options(s: &mut Src, cs: u8) -> O {
    let uns = s.below(4) != 1;
    let t = *s.pick(&[1u32, 1, 1, 1, 2, 4]);
    O::plain().cs(cs).uns(uns).threads(t)
}

// ------------------------------------------------------------------- C01

fn c01_one(s: &mut Src, e: &mut Env, img: &Image, mode: usize, mut c: Case) -> Case {
    let mut o = Opts::default();
    coding(s, &mut o);
    let cs = *s.pick(&COLORS);
    let op = options(s, cs);
    let v = variant(s);
    let b = encode(img, &o);
    c.desc = format!("{} -> {} content={} [{}] {:?} ({} bytes)", desc(img, &o), CS_NAMES[cs as usize], mode, v, op.0, b.len());
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(img);
    c.label(format!("{} {}", if img.comps.len() == 1 { "gray".into() } else { format!("{}x{}", img.hmax, img.vmax) }, CS_NAMES[cs as usize]));
    if let Some((p, r)) = must(e, v, &op, &b, "valid baseline image", &mut c) {
        if r.cs != eff(img, cs) {
            c.fail(format!("output colorspace is {}", CS_NAMES[r.cs as usize % 7]));
        }
        if let Some(m) = judge(&reference(img), eff(img, cs), &p) {
            c.fail(m);
        } else if matches!(eff(img, cs), GRAY | YCBCR) && c.key % 4 == 0 {
            let (a, n) = bias(img, &p, ncomp(eff(img, cs)));
            c.sums = vec![(0, a), (1, n)];
        }
    }
    c
}

/// Rounding must not be biased: over all samples the mean of (decoded - exact)
/// stays near zero (truncation instead of rounding gives -0.5).
fn c01_bias(sums: &BTreeMap<usize, f64>) -> Option<String> {
    let (a, n) = (sums.get(&0).copied().unwrap_or(0.0), sums.get(&1).copied().unwrap_or(0.0));
    let most = if n > 2_000_000.0 { 0.012 } else { 0.03 };
    if n > 200_000.0 && (a / n).abs() > most {
        return Some(format!("decoded samples are off by {:.4} on average over {} samples", a / n, n));
    }
    None
}

fn c01_random(s: &mut Src, e: &mut Env) -> Case {
    let (img, mode) = image(s, &Cfg::new(200));
    c01_one(s, e, &img, mode, Case::default())
}

/// sizes 1..=40 squared, times {gray, four samplings}
fn c01_sizes(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(40 * 40 * 5) as usize;
    let (k, w, h) = (i % 5, i / 5 % 40 + 1, i / 200 + 1);
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    c01_one(s, e, &img, mode, Case::default())
}

/// Sides at which counters of some width could overflow.
pub const EDGES: [usize; 44] = [
    127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385,
    32752, 32753, 32759, 32760, 32761, 32767, 32768, 32769, 65504, 65505, 65519, 65520, 65521, 65527, 65528, 65529, 65532, 65533, 65534, 65535,
];

/// long and thin, tall, or just big
fn big(s: &mut Src) -> Image {
    let k = s.below(5) as usize;
    let long = |s: &mut Src| match s.below(3) {
        0 => s.us(1, 65535),
        1 => 65535 - s.us(0, 40),
        _ => *s.pick(&EDGES),
    };
    let (w, h) = match s.below(4) {
        0 => (long(s), s.us(1, 3)),
        1 => (s.us(1, 3), long(s)),
        2 => (s.us(200, 4200), s.us(1, 40)),
        _ => (s.us(1, 40), s.us(200, 4200)),
    };
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    img
}

fn c01_big(s: &mut Src, e: &mut Env) -> Case {
    let mut img = big(s);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    let cs = *s.pick(&COLORS);
    let op = options(s, cs).maxw(65535).maxh(65535);
    let mut o = Opts::default();
    coding(s, &mut o);
    let b = encode(&img, &o);
    let mut c = Case::default();
    c.desc = format!("{} -> {} content={}", desc(&img, &o), CS_NAMES[cs as usize], mode);
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(&img);
    if let Some((p, _)) = must(e, "default", &op, &b, "valid baseline image", &mut c) {
        if let Some(m) = judge(&reference(&img), eff(&img, cs), &p) {
            c.fail(m);
        }
    }
    c
}

/// millions of pixels, hundreds of thousands of blocks
fn c01_large(s: &mut Src, e: &mut Env) -> Case {
    let k = s.below(5) as usize;
    let (w, h) = match s.below(3) {
        0 => (s.us(1800, 3000), s.us(1800, 3000)),
        1 => (65535 - s.us(0, 20), s.us(60, 80)),
        _ => (s.us(60, 80), 65535 - s.us(0, 20)),
    };
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    let cs = *s.pick(&COLORS);
    let op = O::plain().cs(cs).threads(*s.pick(&[1u32, 4])).maxw(65535).maxh(65535);
    let o = Opts::default();
    let b = encode(&img, &o);
    let mut c = Case::default();
    c.desc = format!("{} -> {} content={}", desc(&img, &o), CS_NAMES[cs as usize], mode);
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(&img);
    if let Some((p, _)) = must(e, "default", &op, &b, "valid baseline image", &mut c) {
        if let Some(m) = judge(&reference(&img), eff(&img, cs), &p) {
            c.fail(m);
        }
    }
    c
}

/// Exhaustive: every coefficient position with every baseline value, one at a
/// time (64 * 2047 blocks), and every DC difference.
pub const SWEEP: u64 = 64 * 2047 / 256 + 1;
fn sweep_img(i: u64, prog: bool) -> Image {
    let mut img = Image::new(128, 128, 1, (1, 1));
    let lim = if prog { 1 } else { 1 };
    img.qt[0] = [lim; 64];
    for (n, b) in img.comps[0].blocks.iter_mut().enumerate() {
        let k = i * 256 + n as u64;
        let pos = (k / 2047) as usize;
        let v = (k % 2047) as i64 - 1023;
        if pos < 64 {
            b[pos] = v as i16;
        }
    }
    img
}

fn c01_sweep(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(SWEEP);
    let img = sweep_img(i, false);
    c01_one(s, e, &img, 99, Case::default())
}

/// Every DC difference from -2047 to 2047 (values stay in -1023..=1023).
fn c01_dc(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(32) as i64;
    let mut img = Image::new(128, 128, 1, (1, 1));
    let mut cur = 0i64;
    for (n, b) in img.comps[0].blocks.iter_mut().enumerate() {
        if n % 2 == 1 {
            let d = (i * 128 + (n as i64) / 2) % 2047;
            // difference of either sign and size d or 2047-d
            cur = if cur >= 0 { cur - d } else { cur + d };
            cur = cur.clamp(-1024, 1023);
        } else {
            cur = if (n / 2) % 2 == 0 { 1023 } else { -1024 };
        }
        b[0] = cur as i16;
        b[1] = (n % 3) as i16;
    }
    c01_one(s, e, &img, 98, Case::default())
}

// ------------------------------------------------------------------- C02

fn prog_opts(s: &mut Src, img: &Image) -> Opts {
    let mut p = Opts::default();
    coding(s, &mut p);
    p.progressive = true;
    p.scans = script(s, img.comps.len());
    if s.chance(1, 3) {
        p.eobrun_max = *s.pick(&[1u32, 2, 3, 5, 17, 64, 300]);
    }
    if s.chance(1, 3) {
        restart(s, img, &mut p);
    }
    p
}

fn c02_one(s: &mut Src, e: &mut Env, img: &Image, mode: usize) -> Case {
    let mut c = Case::default();
    let p = prog_opts(s, img);
    let cs = *s.pick(&COLORS);
    let op = options(s, cs).scans(1000).maxw(65535).maxh(65535);
    let v = variant(s);
    let b0 = encode(img, &Opts::default());
    let b1 = encode(img, &p);
    c.desc = format!("{} -> {} content={} [{}] scans={}", desc(img, &p), CS_NAMES[cs as usize], mode, v,
        p.scans.iter().map(|x| format!("{:?}:{}-{}/{}{}", x.comps, x.ss, x.se, x.ah, x.al)).collect::<Vec<_>>().join(" "));
    c.key = gen::hash(&b1);
    c.nontrivial = nonflat(img) && p.scans.len() > 1;
    c.label(format!("scans {}", match p.scans.len() { 0..=4 => "2-4", 5..=9 => "5-9", 10..=19 => "10-19", _ => "20+" }));
    c.label(if p.scans.iter().any(|x| x.ah > 0 && x.ss > 0) { "AC refinement" } else { "no AC refinement" });
    c.label(if p.dri > 0 { "with restarts" } else { "no restarts" });
    let a = must(e, v, &op, &b0, "baseline image", &mut c);
    let b = must(e, v, &op, &b1, "progressive image", &mut c);
    if let (Some((a, _)), Some((b, rb))) = (a, b) {
        let ec = eff(img, cs);
        if norm(ec, &a) != norm(ec, &b) {
            c.fail(format!("progressive differs from baseline: {}", diff(&b, &a, img.w, ncomp(ec))));
        }
        if rb.info.as_ref().map_or(true, |i| !i.progressive || i.sequential) {
            c.fail("info does not say progressive");
        }
        if let Some(m) = judge(&reference(img), ec, &b) {
            c.fail(m);
        }
    }
    c
}

fn c02_random(s: &mut Src, e: &mut Env) -> Case {
    let (img, mode) = image(s, &Cfg::new(160));
    c02_one(s, e, &img, mode)
}

/// A script that leaves out bands or refinements carries an image of lower
/// precision; it is the baseline image with those coefficients cleared.
fn c02_partial(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(120) });
    let mut p = prog_opts(s, &img);
    let nc = img.comps.len();
    // the first DC scans of all components stay
    let first = p.scans.iter().rposition(|x| x.ss == 0 && x.ah == 0).unwrap() + 1;
    let keep = s.us(first, p.scans.len());
    p.scans.truncate(keep);
    let mut low = img.clone();
    for ci in 0..nc {
        // last point transform each coefficient was sent with
        let mut al = [99u32; 64];
        for sc in p.scans.iter().filter(|x| x.comps.contains(&ci)) {
            for k in sc.ss..=sc.se {
                al[k] = sc.al;
            }
        }
        for b in low.comps[ci].blocks.iter_mut() {
            for k in 0..64 {
                let v = i32::from(b[ZZ[k]]);
                b[ZZ[k]] = if al[k] > 15 {
                    0
                } else if k == 0 {
                    (v >> al[0] << al[0]) as i16
                } else {
                    (v.signum() * (v.abs() >> al[k] << al[k])) as i16
                };
            }
        }
    }
    let cs = *s.pick(&COLORS);
    let op = options(s, cs).scans(1000);
    let v = variant(s);
    let b0 = encode(&low, &Opts { huff: Huff::Opt, ..Opts::default() });
    let b1 = encode(&img, &p);
    c.desc = format!("{} -> {} content={} [{}] only scans {}", desc(&img, &p), CS_NAMES[cs as usize], mode, v,
        p.scans.iter().map(|x| format!("{:?}:{}-{}/{}{}", x.comps, x.ss, x.se, x.ah, x.al)).collect::<Vec<_>>().join(" "));
    c.key = gen::hash(&b1);
    c.nontrivial = nonflat(&low);
    let a = must(e, v, &op, &b0, "baseline image", &mut c);
    let b = must(e, v, &op, &b1, "progressive image", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        let ec = eff(&img, cs);
        if norm(ec, &a) != norm(ec, &b) {
            c.fail(format!("progressive differs from baseline: {}", diff(&b, &a, img.w, ncomp(ec))));
        }
    }
    c
}

/// EOB runs of more than 2^14 blocks
fn c02_runs(s: &mut Src, e: &mut Env) -> Case {
    let k = s.below(5) as usize;
    let (w, h) = match s.below(3) {
        0 => (s.us(1500, 1700), s.us(1500, 1700)),
        1 => (s.us(700, 1700), s.us(700, 1700)),
        _ => (s.us(16, 40) * 8, s.us(4200, 9000)),
    };
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    let mut r = Rng::new(s.seed());
    let n = s.us(1, 6);
    for cc in img.comps.iter_mut() {
        let len = cc.blocks.len() as u64;
        for _ in 0..n {
            // only blocks that non-interleaved scans reach
            let i = r.below(len) as usize;
            if i % cc.bw < cc.rbw && i / cc.bw < cc.rbh {
                cc.blocks[i][ZZ[r.range(1, 63) as usize]] = r.range(-60, 60) as i16;
            }
        }
        cc.blocks[0][0] = r.range(-200, 200) as i16;
    }
    let mut p = Opts { progressive: true, huff: Huff::Opt, ..Opts::default() };
    p.scans = script(s, img.comps.len());
    let mut c = Case::default();
    let cs = *s.pick(&COLORS);
    let op = O::new().cs(cs).scans(1000).maxw(65535).maxh(65535);
    let b0 = encode(&img, &Opts::default());
    let b1 = encode(&img, &p);
    c.desc = format!("nearly empty {} -> {}", desc(&img, &p), CS_NAMES[cs as usize]);
    c.key = gen::hash(&b1);
    c.nontrivial = nonflat(&img);
    let a = must(e, "default", &op, &b0, "baseline image", &mut c);
    let b = must(e, "default", &op, &b1, "progressive image", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        let ec = eff(&img, cs);
        if norm(ec, &a) != norm(ec, &b) {
            c.fail(format!("progressive differs from baseline: {}", diff(&b, &a, img.w, ncomp(ec))));
        }
    }
    c
}

fn c02_sizes(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(40 * 40 * 5) as usize;
    let (k, w, h) = (i % 5, i / 5 % 40 + 1, i / 200 + 1);
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    c02_one(s, e, &img, mode)
}

fn c02_sweep(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(SWEEP);
    let img = sweep_img(i, true);
    c02_one(s, e, &img, 99)
}

fn c02_big(s: &mut Src, e: &mut Env) -> Case {
    let mut img = big(s);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    c02_one(s, e, &img, mode)
}

// ------------------------------------------------------------------- C03

fn c03_one(s: &mut Src, e: &mut Env, img: &Image, mode: usize) -> Case {
    let mut c = Case::default();
    let mut o = Opts::default();
    coding(s, &mut o);
    o.progressive = s.chance(2, 5);
    if o.progressive {
        o.scans = script(s, img.comps.len());
        if s.chance(1, 2) {
            o.eobrun_max = *s.pick(&[1u32, 2, 3, 7, 40]);
        }
    }
    let mut r = o.clone();
    restart(s, img, &mut r);
    if s.chance(1, 12) {
        r.dri = 0;
        r.dri_scan = vec![];
        r.dri_zero = true;
    } else if s.chance(1, 12) {
        r.dri = 65535;
    }
    let cs = *s.pick(&COLORS);
    let op = options(s, cs).scans(1000).maxw(65535).maxh(65535);
    let v = variant(s);
    let b0 = encode(img, &o);
    let b1 = encode(img, &r);
    let n = img.mcux * img.mcuy;
    c.desc = format!("{} ({} MCUs) -> {} content={} [{}]", desc(img, &r), n, CS_NAMES[cs as usize], mode, v);
    c.key = gen::hash(&b1);
    let markers = b1.windows(2).filter(|x| x[0] == 0xFF && (0xD0..=0xD7).contains(&x[1])).count();
    c.nontrivial = nonflat(img) && markers > 0;
    c.label(match markers { 0 => "no RST", 1..=8 => "1-8 RST", _ => "more than 8 RST" });
    c.label(if o.progressive { "progressive" } else { "baseline" });
    let a = must(e, v, &op, &b0, "image without restarts", &mut c);
    let b = must(e, v, &op, &b1, "image with restarts", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        let ec = eff(img, cs);
        if norm(ec, &a) != norm(ec, &b) {
            c.fail(format!("restart intervals changed the pixels: {}", diff(&b, &a, img.w, ncomp(ec))));
        }
        if let Some(m) = judge(&reference(img), ec, &b) {
            c.fail(m);
        }
    }
    c
}

fn c03_random(s: &mut Src, e: &mut Env) -> Case {
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(160) });
    c03_one(s, e, &img, mode)
}

/// every interval from 1 to beyond the number of MCUs, on a grid of shapes
fn c03_grid(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(5 * 12 * 34) as usize;
    let (k, shape, dri) = (i % 5, i / 5 % 12, i / 60 + 1);
    let (w, h) = [(1, 1), (8, 40), (40, 8), (17, 17), (16, 48), (33, 33), (48, 16), (24, 24), (64, 31), (9, 100), (100, 9), (41, 50)][shape];
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    let mut c = Case::default();
    let mut o = Opts::default();
    coding(s, &mut o);
    let prog = s.chance(1, 2);
    if prog {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
        o.eobrun_max = *s.pick(&[0x7fffu32, 1, 2, 3, 7]);
    }
    o.dri = dri;
    o.dri_late = s.chance(1, 2);
    let cs = *s.pick(&COLORS);
    let b = encode(&img, &o);
    c.desc = format!("{} -> {} content={}", desc(&img, &o), CS_NAMES[cs as usize], mode);
    c.key = gen::hash(&b);
    c.nontrivial = dri < img.mcux * img.mcuy;
    if let Some((p, _)) = must(e, "default", &O::new().cs(cs).scans(1000), &b, "image with restarts", &mut c) {
        if let Some(m) = judge(&reference(&img), eff(&img, cs), &p) {
            c.fail(m);
        }
    }
    c
}

fn c03_big(s: &mut Src, e: &mut Env) -> Case {
    let mut img = big(s);
    let mode = fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    c03_one(s, e, &img, mode)
}

/// Images of many MCUs with intervals around every power of two.
fn c03_long(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let k = s.below(3) as usize;
    let (w, h) = match s.below(3) {
        0 => (65535 - s.us(0, 30), s.us(65, 90)),
        1 => (s.us(65, 90), 65535 - s.us(0, 30)),
        _ => (s.us(2080, 2300), s.us(2080, 2300)),
    };
    let mut img = if k == 0 { Image::new(w, h, 3, (1, 1)) } else { Image::new(w, h, 1, (1, 1)) };
    let n = img.mcux * img.mcuy;
    let mut r = Rng::new(s.seed());
    for cc in img.comps.iter_mut() {
        for b in cc.blocks.iter_mut() {
            b[0] = r.range(-500, 500) as i16;
        }
    }
    let mut o = Opts::default();
    if s.chance(1, 3) {
        o.progressive = true;
        o.scans = vec![Scan { comps: (0..img.comps.len()).collect(), ss: 0, se: 0, ah: 0, al: 0 }];
        for i in 0..img.comps.len() {
            o.scans.push(Scan { comps: vec![i], ss: 1, se: 63, ah: 0, al: 0 });
        }
    }
    let mut q = o.clone();
    let p = 1usize << s.us(7, 16);
    q.dri = match s.below(5) {
        0 => s.us(1, 65535),
        1 => 65535 - s.us(0, 3),
        _ => p + s.us(0, 2) - 1,
    }
    .clamp(1, 65535);
    q.dri_late = s.chance(1, 2);
    if s.chance(1, 4) {
        q.dri_decoys = vec![s.us(0, 65535)];
    }
    let b0 = encode(&img, &o);
    let b1 = encode(&img, &q);
    c.desc = format!("{} MCUs, interval {}: {}", n, q.dri, desc(&img, &q));
    c.key = gen::hash(&b1);
    c.nontrivial = q.dri < n;
    c.label(if q.dri > 32767 { "interval over 32767" } else if q.dri > 255 { "interval over 255" } else { "interval up to 255" });
    let op = O::new().cs(GRAY).scans(1000).maxw(65535).maxh(65535);
    let a = must(e, "default", &op, &b0, "image without restarts", &mut c);
    let b = must(e, "default", &op, &b1, "image with restarts", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        if a != b {
            c.fail(format!("restart intervals changed the pixels: {}", diff(&b, &a, img.w, 1)));
        }
    }
    c
}

// ------------------------------------------------------------------- C04

fn c04(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(120) });
    let prog = s.chance(1, 3);
    let mut base = Opts::default();
    if prog {
        base.progressive = true;
        base.scans = script(s, img.comps.len());
    }
    let cs = *s.pick(&COLORS);
    let op = options(s, cs).scans(1000);
    let v = variant(s);
    let n = s.us(2, 4);
    let mut first: Option<(Vec<u8>, Vec<u8>)> = None;
    c.desc = format!("{} content={} [{}] -> {}:", desc(&img, &base), mode, v, CS_NAMES[cs as usize]);
    let ec = eff(&img, cs);
    for k in 0..n {
        let mut o = base.clone();
        if k > 0 {
            coding(s, &mut o);
        }
        let b = encode(&img, &o);
        c.desc += &format!(" [{:?} dc{:?} ac{:?} joined={} before_sof={} decoys={} shared={} ids={:?} unused={}]", o.huff, o.dc_ids, o.ac_ids, o.dht_joined, o.dht_before_sof, o.decoys, o.shared, o.ids_scan, o.unused);
        c.key ^= gen::hash(&b).rotate_left(k as u32);
        if let Some((p, _)) = must(e, v, &op, &b, "image", &mut c) {
            let p = norm(ec, &p);
            match &first {
                None => {
                    if let Some(m) = judge(&reference(&img), ec, &p) {
                        c.fail(m);
                    }
                    first = Some((b, p));
                }
                Some((b0, p0)) => {
                    c.nontrivial |= *b0 != b && nonflat(&img);
                    if *p0 != p {
                        c.fail(format!("other Huffman tables, other pixels: {}", diff(&p, p0, img.w, ncomp(ec))));
                    }
                }
            }
        }
    }
    c.label(if prog { "progressive" } else { "baseline" });
    c
}

/// One symbol under test, code length enumerated 1..=16, value of every size:
/// drives the table look-ups and the slow path for every length.
fn c04_lengths(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(16 * 10 * 16) as usize;
    let (len, size, run) = (i % 16 + 1, i / 16 % 10 + 1, i / 160);
    let mut c = Case::default();
    let mut img = Image::new(64, 64, 1, (1, 1));
    let mut r = Rng::new(s.seed());
    for b in img.comps[0].blocks.iter_mut() {
        b[0] = r.range(-300, 300) as i16;
        let mut k = 1 + run;
        while k < 64 {
            let lo = 1i64 << (size - 1);
            let a = r.range(lo, 2 * lo - 1);
            b[ZZ[k]] = if r.chance(1, 2) { a as i16 } else { -a as i16 };
            if size > 5 {
                break;
            }
            k += 1 + run;
        }
    }
    // huge values would leave the range in which the exact transform is defined
    let prog = s.chance(1, 3);
    let mut o = Opts { force: Some((((run << 4) | size) as u8, len as u32, s.seed())), ..Opts::default() };
    if prog {
        o.progressive = true;
        o.scans = script(s, 1);
    }
    let v = variant(s);
    let b0 = encode(&img, &Opts::default());
    let b1 = encode(&img, &o);
    c.desc = format!("AC symbol {:02x} with code length {} ({}) [{}]", (run << 4) | size, len, if prog { "progressive" } else { "baseline" }, v);
    c.key = gen::hash(&b1);
    c.nontrivial = true;
    let op = O::new().cs(GRAY).scans(1000);
    let a = must(e, v, &op, &b0, "image", &mut c);
    let b = must(e, v, &op, &b1, "image", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        if a != b {
            c.fail(format!("other Huffman tables, other pixels: {}", diff(&b, &a, 64, 1)));
        }
    }
    c
}

/// The same for DC: tiny pictures, so that scans end at every state of the bit buffer.
fn c04_dc_lengths(s: &mut Src, e: &mut Env) -> Case {
    dc_lengths(s, e, false)
}

/// With restart markers, against the same without.
fn c03_dc_lengths(s: &mut Src, e: &mut Env) -> Case {
    dc_lengths(s, e, true)
}

fn dc_lengths(s: &mut Src, e: &mut Env, rst: bool) -> Case {
    let i = s.below(DC_LENGTHS) as usize;
    let (len, size) = (i % 16 + 1, i / 16 % 11 + 1);
    let mut c = Case::default();
    let mut r = Rng::new(s.seed());
    let nc = if r.chance(1, 3) { 3 } else { 1 };
    let mut img = Image::new(r.range(1, 40) as usize, r.range(1, 24) as usize, nc, (1, 1));
    for k in 0..nc {
        let mut dc = 0i64;
        for b in img.comps[k].blocks.iter_mut() {
            let mut d = r.range(1 << (size - 1), (1 << size) - 1);
            if r.chance(1, 6) {
                d >>= r.range(1, 8);
            }
            if dc + d > 1023 || (dc - d >= -1024 && r.chance(1, 2)) {
                d = -d;
            }
            dc = (dc + d).clamp(-1024, 1023);
            b[0] = dc as i16;
            if r.chance(1, 4) {
                b[ZZ[r.range(1, 63) as usize]] = r.range(-3, 3) as i16;
            }
        }
    }
    let prog = s.chance(1, 2);
    let plain = Opts::default();
    let mut o = Opts { force: Some((size as u8, len as u32, s.seed())), force_dc: true, ..Opts::default() };
    if prog {
        o.progressive = true;
        o.scans = script(s, nc);
    }
    let v = variant(s);
    let b0 = encode(&img, if rst { &o } else { &plain });
    if rst {
        o.dri = r.range(1, 1 + (img.mcux * img.mcuy) as i64 / 2) as usize;
    }
    let b1 = encode(&img, &o);
    c.desc = format!("DC size {} with code length {} ({}) {}x{} {} components [{}]", size, len, if prog { "progressive" } else { "baseline" }, img.w, img.h, nc, v);
    c.key = gen::hash(&b1);
    c.nontrivial = true;
    let op = O::new().cs(YCBCR).scans(1000);
    let a = must(e, v, &op, &b0, "image", &mut c);
    let b = must(e, v, &op, &b1, "image", &mut c);
    if let (Some((a, _)), Some((b, _))) = (a, b) {
        if a != b {
            c.fail(format!("{}, other pixels: {}", if rst { "restart interval" } else { "other Huffman tables" }, diff(&b, &a, img.w, nc)));
        }
    }
    c
}

const DC_LENGTHS: u64 = 16 * 11 * 40;

// ------------------------------------------------------------------- C05

const PATHS: [(&str, bool); 6] = [("default", true), ("default", false), ("scalar", false), ("scalar", true), ("sse", true), ("sse", false)];

/// Did it decode?
fn same_everywhere(e: &mut Env, c: &mut Case, b: &[u8], cs: u8, extra: O) -> bool {
    let mut first: Option<Res> = None;
    for (v, u) in PATHS {
        let mut o = O::new().cs(cs).uns(u);
        o.0.extend(extra.0.clone());
        if let Some(r) = e.decode(v, o, b, c) {
            let x = match r.res {
                Res::Pix(p) => Res::Pix(norm(r.cs, &p)),
                Res::Err(_) => Res::Err(String::new()),
                y => y,
            };
            match &first {
                None => first = Some(x),
                Some(f) if *f != x => {
                    let w = usize::from(r.w);
                    let d = match (&x, f) {
                        (Res::Pix(a), Res::Pix(b)) => diff(a, b, w, ncomp(r.cs)),
                        (a, b) => format!("{} against {}", a.short(), b.short()),
                    };
                    c.fail(format!("[{} use_unsafe={}] differs from AVX2: {}", v, u, d));
                }
                _ => {}
            }
        }
    }
    matches!(first, Some(Res::Pix(_)))
}

fn c05_valid(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(150) });
    let mut o = Opts::default();
    if s.chance(1, 3) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    let cs = *s.pick(&COLORS);
    let b = encode(&img, &o);
    c.desc = format!("{} -> {} content={}", desc(&img, &o), CS_NAMES[cs as usize], mode);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = nonflat(&img);
    c.label(format!("content {}", mode));
    same_everywhere(e, &mut c, &b, cs, O::plain().scans(1000));
    c
}

/// coefficients far outside what an encoder would write
fn c05_wild(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let mut img = skeleton(s, &Cfg::new(80));
    let amp = *s.pick(&[1023i64, 2047, 4095, 16383, 32767]);
    let dens = s.us(1, 64) as u64;
    let q = s.below(3);
    for t in img.qt.iter_mut() {
        match q {
            0 => *t = [1; 64],
            1 => *t = [255; 64],
            _ => {}
        }
    }
    let mut r = Rng::new(s.seed());
    for cc in img.comps.iter_mut() {
        for b in cc.blocks.iter_mut() {
            for k in 0..64 {
                if r.below(64) < dens {
                    // DC differences must stay within 15 bits
                    let a = if k == 0 { amp.min(16383) } else { amp };
                    b[k] = r.range(-a, a) as i16;
                }
            }
        }
    }
    let cs = *s.pick(&COLORS);
    let o = Opts { huff: Huff::Opt, ..Opts::default() };
    let b = encode(&img, &o);
    c.desc = format!("{} -> {} amplitude {} density {}/64", desc(&img, &o), CS_NAMES[cs as usize], amp, dens);
    c.key = gen::hash(&b);
    c.nontrivial = true;
    c.label(format!("amplitude {}", amp));
    same_everywhere(e, &mut c, &b, cs, O::plain());
    c
}

/// damaged files: the same failure or the same pixels
fn c05_damaged(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = crate::mutate::hostile(s, 80);
    let cs = *s.pick(&COLORS);
    c.desc = format!("{} -> {}", d, CS_NAMES[cs as usize]);
    c.key = gen::hash(&b);
    let mut o = O::plain().scans(1000).maxw(320).maxh(320).threads(*s.pick(&[1u32, 1, 2]));
    if s.chance(1, 4) {
        o = o.strict(true);
    }
    c.nontrivial = same_everywhere(e, &mut c, &b, cs, o);
    c
}

fn c05_sweep(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let i = s.below(SWEEP);
    let img = sweep_img(i, false);
    let b = encode(&img, &Opts::default());
    c.desc = format!("single coefficients, part {} of {}", i, SWEEP);
    c.key = i;
    c.nontrivial = true;
    same_everywhere(e, &mut c, &b, GRAY, O::plain());
    c
}

fn c05_sizes(s: &mut Src, e: &mut Env) -> Case {
    let i = s.below(34 * 34 * 5) as usize;
    let (k, w, h) = (i % 5, i / 5 % 34 + 1, i / 170 + 1);
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    tables(s, &mut img);
    fill(s, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
    let mut c = Case::default();
    let cs = *s.pick(&COLORS);
    let o = Opts::default();
    let b = encode(&img, &o);
    c.desc = format!("{} -> {}", desc(&img, &o), CS_NAMES[cs as usize]);
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(&img);
    same_everywhere(e, &mut c, &b, cs, O::plain());
    c
}

// ------------------------------------------------------------------- C10

fn c10(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let kind = if s.chance(1, 8) { Kind::Gray } else { Kind::Color };
    let (img, mode) = image(s, &Cfg { kind, ..Cfg::new(200) });
    let mut o = Opts::default();
    if s.chance(1, 3) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    let b = encode(&img, &o);
    let v = variant(s);
    let base = options(s, RGB).scans(1000);
    c.desc = format!("{} content={} [{}] all output colorspaces", desc(&img, &o), mode, v);
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(&img);
    let mut out: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    for cs in COLORS {
        let mut op = base.clone();
        op = op.cs(cs);
        if let Some((p, r)) = must(e, v, &op, &b, CS_NAMES[cs as usize], &mut c) {
            if r.cs != eff(&img, cs) {
                c.fail(format!("asked for {}, told {}", CS_NAMES[cs as usize], CS_NAMES[r.cs as usize % 7]));
            }
            if p.len() != img.w * img.h * ncomp(eff(&img, cs)) {
                c.fail(format!("{} bytes of {}", p.len(), CS_NAMES[cs as usize]));
            }
            out.insert(cs, p);
        }
    }
    if c.fail.is_some() {
        return c;
    }
    relations(&img, &out, &mut c);
    for cs in [CMYK, YCCK] {
        if let Some(r) = e.decode(v, base.clone().cs(cs), &b, &mut c) {
            if img.comps.len() == 3 && r.res.is_ok() {
                c.fail(format!("{} output of a YCbCr image succeeded", CS_NAMES[cs as usize]));
            }
            if img.comps.len() == 1 && (r.res.pix() != Some(&out[&GRAY][..]) || r.cs != GRAY) {
                c.fail(format!("{} asked of a grayscale image: {} {}", CS_NAMES[cs as usize], r.res.short(), CS_NAMES[r.cs as usize % 7]));
            }
        }
    }
    c
}

fn relations(img: &Image, out: &BTreeMap<u8, Vec<u8>>, c: &mut Case) {
    let g = &out[&GRAY];
    if img.comps.len() == 1 {
        for (cs, p) in out {
            if p != g {
                c.fail(format!("grayscale image decodes differently when {} is asked for", CS_NAMES[*cs as usize]));
            }
        }
        return;
    }
    let (ycc, rgb) = (&out[&YCBCR], &out[&RGB]);
    let y: Vec<u8> = ycc.iter().step_by(3).copied().collect();
    if y != *g {
        c.fail(format!("GRAYSCALE is not the Y channel of YCbCr: {}", diff(g, &y, img.w, 1)));
    }
    if let Some(m) = check_rgb_of(ycc, rgb, 3, false) {
        c.fail(m);
    }
    for cs in [RGBA, RGBX] {
        let p = &out[&cs];
        let three: Vec<u8> = p.chunks_exact(4).flat_map(|x| [x[0], x[1], x[2]]).collect();
        if three != *rgb {
            c.fail(format!("{} colours are not those of RGB: {}", CS_NAMES[cs as usize], diff(&three, rgb, img.w, 3)));
        }
        if cs == RGBA && p.iter().skip(3).step_by(4).any(|&x| x != 255) {
            c.fail("alpha is not 255");
        }
    }
}

/// Exhaustive over (Cb, Cr) pairs and, in the thorough tier, over Y as well:
/// 256 blocks per image, each of one colour.
fn c10_cube(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let i = s.below(65536) as usize;
    // image i carries Cb = i / 256 for all 256 Cr; Y from the low bits
    let (cb, y0) = (i / 256, i % 256);
    let mut img = Image::new(16 * 8, 16 * 8, 3, (1, 1));
    img.qt[0] = [8; 64];
    for n in 0..256 {
        // the two Y rows of the block differ so one image samples four Y values
        img.comps[0].blocks[n][0] = y0 as i16 - 128;
        img.comps[1].blocks[n][0] = cb as i16 - 128;
        img.comps[2].blocks[n][0] = n as i16 - 128;
    }
    let v = variant(s);
    let cs = *s.pick(&[RGB, RGBA, RGBX]);
    let uns = s.below(4) != 1;
    let b = encode(&img, &Opts::default());
    c.desc = format!("Y={} Cb={} all Cr -> {} [{} unsafe={}]", y0, cb, CS_NAMES[cs as usize], v, uns);
    c.key = i as u64 * 8 + u64::from(cs);
    c.nontrivial = true;
    if let Some((p, _)) = must(e, v, &O::new().cs(cs).uns(uns), &b, "image", &mut c) {
        let mut ycc = Vec::with_capacity(128 * 128 * 3);
        for y in 0..128 {
            for x in 0..128 {
                ycc.extend([y0 as u8, cb as u8, (y / 8 * 16 + x / 8) as u8]);
            }
        }
        if let Some(m) = check_rgb_of(&ycc, &p, ncomp(cs), cs == RGBA) {
            c.fail(m);
        }
    }
    c
}

fn c10_cube_quick(s: &mut Src, e: &mut Env) -> Case {
    // all 256 Cb, 16 luminances spread over the range, rotating with Cb
    let i = s.below(4096) as usize;
    let (cb, k) = (i / 16, i % 16);
    let y = match k {
        0 => 0,
        15 => 255,
        _ => (k * 16 + cb * 5) % 256,
    };
    let mut t = Src::chain(vec![(cb * 256 + y) as u64], s);
    c10_cube(&mut t, e)
}

// ------------------------------------------------------------------- C13

pub fn metadata(s: &mut Src, n_slots: usize, o: &mut Opts) {
    let many = s.chance(1, 40);
    let n = if many { s.us(50, 300) } else { s.us(0, 6) };
    for _ in 0..n {
        let m = if s.chance(1, 4) { 0xE0 + s.below(16) as u8 } else { *s.pick(&[0xE0u8, 0xE1, 0xE2, 0xEE, 0xFE, 0xED, 0xEF, 0xE8]) };
        if many {
            // long lists of short segments
            let mut r = Rng::new(s.seed());
            let body = (0..r.below(9)).map(|_| r.below(256) as u8).collect();
            o.meta.push((s.us(0, n_slots - 1), m, body));
            continue;
        }
        let mut r = Rng::new(s.seed());
        let body: Vec<u8> = match s.below(9) {
            0 => vec![],
            1 => (0..s.us(1, 40)).map(|_| r.below(256) as u8).collect(),
            2 => b"JFIF\0\x01\x01\x01\x00\x48\x00\x48\x00\x00".to_vec(),
            3 => {
                let mut v = b"Adobe\0\x64\0\0\0\0".to_vec();
                v.push(s.below(3) as u8);
                v
            }
            4 => {
                let mut v = b"Exif\0\0".to_vec();
                v.extend((0..s.us(0, 300)).map(|_| r.below(256) as u8));
                v
            }
            // bytes that look like markers
            5 => (0..s.us(1, 30)).flat_map(|_| [0xFF, *[0xD8u8, 0xD9, 0xDA, 0xC0, 0xC2, 0xC4, 0xDB, 0xDD, 0xD0, 0xFF, 0].get(r.below(11) as usize).unwrap()]).collect(),
            6 => vec![0xFF; s.us(1, 20)],
            7 => (0..s.us(2000, 65533)).map(|_| r.below(256) as u8).collect(),
            _ => {
                // an embedded thumbnail: a whole JPEG file
                let mut t = Image::new(8, 8, 1, (1, 1));
                t.comps[0].blocks[0][0] = 5;
                encode(&t, &Opts::default())
            }
        };
        o.meta.push((s.us(0, n_slots - 1), m, body));
    }
    if s.chance(1, 3) {
        o.fill = if s.chance(1, 20) { *s.pick(&[15usize, 16, 17, 60, 254, 255, 256, 257, 600]) } else { s.us(1, 4) };
    }
}

fn c13(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(100) });
    let mut o = Opts::default();
    if s.chance(1, 2) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    if s.chance(1, 3) {
        restart(s, &img, &mut o);
        o.rst_fill = 0;
    }
    let mut m = o.clone();
    let slots = 4 + o.scans.len() + 3;
    metadata(s, slots, &mut m);
    // segment grouping and order
    m.dqt_joined = s.chance(1, 2);
    m.dht_joined = s.chance(1, 2);
    m.dht_before_sof = s.chance(1, 3);
    m.dri_late = s.chance(1, 2);
    m.rst_fill = if s.chance(1, 4) { s.us(1, 3) } else { 0 };
    let cs = *s.pick(&COLORS);
    let strict = s.chance(1, 5);
    let op = options(s, cs).scans(1000).strict(strict);
    let v = variant(s);
    let b0 = encode(&img, &o);
    let b1 = encode(&img, &m);
    c.desc = format!("{} -> {} content={} [{}] meta={:?} fill={} rstfill={} strict={} ({} -> {} bytes)", desc(&img, &o), CS_NAMES[cs as usize], mode, v,
        m.meta.iter().map(|x| (x.0, format!("{:02x}", x.1), x.2.len())).collect::<Vec<_>>(), m.fill, m.rst_fill, strict, b0.len(), b1.len());
    c.key = gen::hash(&b1);
    c.nontrivial = b0 != b1 && nonflat(&img);
    c.label(if o.progressive { "progressive" } else { "baseline" });
    c.label(format!("{} extra segments", m.meta.len()));
    let a = must(e, v, &op, &b0, "plain image", &mut c);
    let b = must(e, v, &op, &b1, "image with metadata", &mut c);
    let mut q = Req::new();
    let i = q.buf(&b1);
    q.ops = vec![Op::New(op.clone()), Op::Headers(i)];
    if let (Some(x), Some((_, ra))) = (e.call(v, &q, &mut c), &a) {
        if !x[1].res.is_ok() || x[1].info != ra.info {
            c.fail(format!("read_headers of the image with metadata: {} {:?}", x[1].res.short(), x[1].info));
        }
    }
    if let (Some((a, ra)), Some((b, rb))) = (a, b) {
        let ec = eff(&img, cs);
        if norm(ec, &a) != norm(ec, &b) {
            c.fail(format!("metadata changed the pixels: {}", diff(&b, &a, img.w, ncomp(ec))));
        }
        if ra.info != rb.info {
            c.fail(format!("metadata changed the image information: {:?} {:?}", ra.info, rb.info));
        }
        if let Some(m) = judge(&reference(&img), ec, &b) {
            c.fail(m);
        }
    }
    c
}

// ------------------------------------------------------------------- list

pub fn props() -> Vec<Prop> {
    let ph = |name, f: Fun, q, t| Phase { name, f, n: (q, t), enumerated: false };
    let en = |name, f: Fun, q, t| Phase { name, f, n: (q, t), enumerated: true };
    const V3: &[&str] = &["default", "scalar", "sse"];
    vec![
        Prop {
            id: "C01",
            rule: "A case is a baseline file encoded from generated quantised coefficients, decoded and judged sample by sample against the real-valued inverse DCT, the documented up-sampling and BT.601. Non-trivial: at least one coefficient is non-zero. Distinct: different file bytes.",
            phases: vec![
                ph("random", c01_random, 120_000, 3_000_000),
                en("sizes", c01_sizes, 8000, 8000),
                en("single-coefficients", c01_sweep, SWEEP, SWEEP),
                en("dc-differences", c01_dc, 32, 32),
                ph("big", c01_big, 400, 12_000),
                ph("large", c01_large, 3, 100),
            ],
            final_check: Some(c01_bias),
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C02",
            rule: "A case is one coefficient set encoded twice, baseline and progressive with a random legal scan script; both are decoded and compared bit for bit, and judged against the reference. Non-trivial: a non-zero coefficient and more than one scan. Distinct: different progressive file bytes.",
            phases: vec![
                ph("random", c02_random, 60_000, 1_500_000),
                en("sizes", c02_sizes, 8000, 8000),
                en("single-coefficients", c02_sweep, SWEEP, SWEEP),
                ph("big", c02_big, 250, 8_000),
                ph("partial", c02_partial, 15_000, 400_000),
                ph("long-runs", c02_runs, 60, 2_000),
            ],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C03",
            rule: "A case is one coefficient set encoded with and without restart intervals (baseline or progressive); decoded pixels must be identical. Non-trivial: at least one RST marker in the file and a non-zero coefficient. Distinct: different file bytes.",
            phases: vec![
                ph("random", c03_random, 70_000, 1_500_000),
                en("grid", c03_grid, 5 * 12 * 34, 5 * 12 * 34),
                ph("big", c03_big, 250, 8_000),
                ph("long", c03_long, 16, 1_000),
                en("dc-code-lengths", c03_dc_lengths, DC_LENGTHS, DC_LENGTHS),
            ],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C04",
            rule: "A case is one coefficient set encoded with two to four different choices of Huffman tables, table ids and table placement; all must decode to the same pixels. Non-trivial: the files differ and a coefficient is non-zero. Distinct: different set of file bytes.",
            phases: vec![
                ph("random", c04, 50_000, 1_200_000),
                en("code-lengths", c04_lengths, 16 * 10 * 16, 16 * 10 * 16),
                en("dc-code-lengths", c04_dc_lengths, DC_LENGTHS, DC_LENGTHS),
            ],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C05",
            rule: "A case is one file decoded along six code paths (AVX2, SSE4.1, scalar; three builds, use_unsafe on and off); results must be identical. Non-trivial: a non-zero coefficient. Distinct: different file bytes.",
            phases: vec![
                ph("valid", c05_valid, 40_000, 1_000_000),
                ph("wild", c05_wild, 12_000, 300_000),
                ph("damaged", c05_damaged, 12_000, 300_000),
                en("single-coefficients", c05_sweep, SWEEP, SWEEP),
                en("sizes", c05_sizes, 34 * 34 * 5, 34 * 34 * 5),
            ],
            final_check: None,
            assumptions: &["the machine running the check has AVX2 and SSE4.1"],
            variants: V3,
        },
        Prop {
            id: "C10",
            rule: "A case is one file decoded into all output colorspaces and the outputs related to each other; or one (Y, Cb) with all 256 Cr. Non-trivial: a non-zero coefficient. Distinct: different file or colour.",
            phases: vec![
                ph("random", c10, 25_000, 600_000),
                Phase { name: "colours", f: c10_cube_quick, n: (4096, 0), enumerated: true },
                Phase { name: "all-colours", f: c10_cube, n: (0, 65536), enumerated: true },
            ],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C13",
            rule: "A case is one image encoded plainly and again with APPn/COM segments, fill bytes and other groupings and orders of its segments; pixels and image information must agree. Non-trivial: the files differ and a coefficient is non-zero. Distinct: different file bytes.",
            phases: vec![ph("random", c13, 50_000, 1_200_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
    ]
}
