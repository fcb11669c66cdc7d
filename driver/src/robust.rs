//! Properties about arbitrary inputs, histories, schedules and configurations.
use crate::client::*;
use crate::enc::*;
use crate::gen;
use crate::gen::*;
use crate::mutate::*;
use crate::refdec::*;
use crate::runner::*;
use crate::tape::{Rng, Src};
use crate::valid::*;

fn small(s: &mut Src) -> O {
    // limits keep hostile headers from asking for gigabytes
    let cs = if s.chance(1, 12) { *s.pick(&[CMYK, YCCK]) } else { *s.pick(&COLORS) };
    let mut o = O::plain().cs(cs).uns(s.below(4) != 1).threads(*s.pick(&[1u32, 1, 1, 2, 3])).maxw(320).maxh(320);
    if s.chance(1, 60) {
        o = o.threads(*s.pick(&[u32::MAX, 1 << 31, 1 << 20, 65_536]));
    }
    if s.chance(1, 3) {
        o = o.strict(true);
    }
    if s.chance(1, 6) {
        o = o.scans(s.below(12));
    }
    o
}

// ------------------------------------------------------------------- C07

fn check_shape(r: &Reply, c: &mut Case) {
    if let Res::Pix(p) = &r.res {
        let n = ncomp(r.cs);
        match &r.info {
            None => c.fail("decoded but info() is None"),
            Some(i) => {
                let want = usize::from(i.w) * usize::from(i.h) * n;
                if p.len() != want {
                    c.fail(format!("{} bytes for {}x{} {}", p.len(), i.w, i.h, CS_NAMES[r.cs as usize]));
                }
                if i.w == 0 || i.h == 0 {
                    c.fail("decoded an image of no size");
                }
                if (i.w, i.h) != (r.w, r.h) {
                    c.fail(format!("info says {}x{}, width()/height() {}x{}", i.w, i.h, r.w, r.h));
                }
            }
        }
    }
}

fn c07_in(s: &mut Src, e: &mut Env, v: &'static str) -> Case {
    let mut c = Case::default();
    let (b, d) = hostile(s, 96);
    let op = small(s);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Headers(i), Op::New(op.clone()), Op::Decode(i)];
    c.desc = format!("[{}] {:?} {} ({} bytes)", v, op.0, d, b.len());
    c.key = gen::hash(&b);
    if let Some(x) = e.call(v, &r, &mut c) {
        // non-trivial: the decoder got at least as far as the frame header
        c.nontrivial = x[3].info.is_some();
        c.label(match &x[3].res {
            Res::Pix(_) => "decoded".to_string(),
            Res::Err(m) => format!("Err {}", kind(m)),
            _ => "panic".into(),
        });
        check_shape(&x[3], &mut c);
        for k in [1, 3] {
            if let Res::Err(m) = &x[k].res {
                if m.is_empty() {
                    c.fail("error with an empty message");
                }
            }
        }
    }
    c
}

fn c07_default(s: &mut Src, e: &mut Env) -> Case {
    c07_in(s, e, "default")
}
fn c07_scalar(s: &mut Src, e: &mut Env) -> Case {
    c07_in(s, e, "scalar")
}
fn c07_checked(s: &mut Src, e: &mut Env) -> Case {
    c07_in(s, e, "checked")
}

fn stretched_in(s: &mut Src, e: &mut Env, v: &'static str) -> Case {
    let mut c = Case::default();
    let (b, d) = stretched(s);
    let wide = s.chance(1, 2);
    // one side at a time may be large
    let (lw, lh) = if wide { (65535, 100) } else { (100, 65535) };
    let cs = *s.pick(&COLORS);
    let op = O::plain().cs(cs).uns(s.below(4) != 1).threads(*s.pick(&[1u32, 1, 3])).scans(1000).maxw(lw).maxh(lh);
    c.desc = format!("[{}] {:?} {}", v, op.0, d);
    c.key = gen::hash(&b) ^ u64::from(wide);
    if let Some(r) = e.decode(v, op, &b, &mut c) {
        c.nontrivial = r.info.is_some() && r.w <= lw && r.h <= lh;
        c.label(if r.res.is_ok() { "decoded" } else { "rejected" });
        check_shape(&r, &mut c);
    }
    c
}
fn c07_stretched(s: &mut Src, e: &mut Env) -> Case {
    let v = *s.pick(&["default", "checked", "scalar", "sse"]);
    stretched_in(s, e, v)
}
fn c18_stretched(s: &mut Src, e: &mut Env) -> Case {
    let v = asan(s);
    stretched_in(s, e, v)
}

/// coefficients no encoder would write, legal syntax
fn c07_wild(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = wild(s);
    let cs = *s.pick(&COLORS);
    let v = *s.pick(&["default", "checked", "scalar", "sse"]);
    let uns = s.chance(2, 3);
    c.desc = format!("[{}] unsafe={} {}", v, uns, d);
    c.key = gen::hash(&b);
    c.nontrivial = true;
    if let Some(r) = e.decode(v, O::new().cs(cs).uns(uns).scans(1000), &b, &mut c) {
        check_shape(&r, &mut c);
    }
    c
}

/// valid files on the build with overflow checks
fn c07_valid_checked(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 150);
    let cs = *s.pick(&COLORS);
    let uns = s.chance(2, 3);
    c.desc = format!("[checked] unsafe={} {}", uns, desc(&img, &o));
    c.key = gen::hash(&b);
    c.nontrivial = nonflat(&img);
    must(e, "checked", &O::new().cs(cs).uns(uns).scans(1000), &b, "valid image", &mut c);
    c
}

pub fn wild(s: &mut Src) -> (Vec<u8>, String) {
    let mut img = skeleton(s, &Cfg::new(60));
    let amp = *s.pick(&[1023i64, 2047, 8191, 16383, 32767]);
    let dens = s.us(1, 64) as u64;
    if s.chance(1, 2) {
        img.qt = [[255; 64]; 4];
    }
    let mut r = Rng::new(s.seed());
    for cc in img.comps.iter_mut() {
        for b in cc.blocks.iter_mut() {
            for k in 0..64 {
                if r.below(64) < dens {
                    let a = if k == 0 { amp.min(16383) } else { amp };
                    b[k] = r.range(-a, a) as i16;
                }
            }
        }
    }
    let mut o = Opts { huff: Huff::Opt, ..Opts::default() };
    if s.chance(1, 3) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    let d = format!("{} amplitude {} density {}/64", desc(&img, &o), amp, dens);
    (encode(&img, &o), d)
}

// ------------------------------------------------------------------- C06

fn c06(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let hostile_in = s.chance(1, 3);
    let (b, d) = if hostile_in {
        hostile(s, 96)
    } else {
        let (img, o, b, _) = any_lenient(s, 200);
        (b, desc(&img, &o))
    };
    let cs = *s.pick(&COLORS);
    let base = O::plain().cs(cs).uns(s.below(4) != 1).maxw(320).maxh(320).scans(1000);
    let ts: Vec<u32> = (0..s.us(2, 4)).map(|_| *s.pick(&[2u32, 3, 4, 5, 7, 8, 16, 33])).collect();
    c.desc = format!("threads 1, {:?} -> {} {}", ts, CS_NAMES[cs as usize], d);
    c.key = gen::hash(&b);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(base.clone().threads(1)), Op::Decode(i)];
    for t in &ts {
        r.ops.push(Op::New(base.clone().threads(*t)));
        r.ops.push(Op::Decode(i));
    }
    // again with one thread, and in a process whose fresh memory holds other bytes
    r.ops.push(Op::New(base.clone().threads(1)));
    r.ops.push(Op::Decode(i));
    if let Some(x) = e.call("default", &r, &mut c) {
        let want = strip(&x[1]);
        c.nontrivial = matches!(x[1].res, Res::Pix(_)) && x[1].h > 16;
        for k in (3..x.len()).step_by(2) {
            if strip(&x[k]) != want {
                c.fail(format!("{} gives {}, one thread gave {}{}", opname(&r.ops[k - 1]), x[k].res.short(), x[1].res.short(), pixdiff(&x[k], &x[1])));
            }
        }
        let mut r2 = Req::new();
        let i = r2.buf(&b);
        r2.ops = vec![Op::New(base.threads(*s.pick(&[1u32, 4]))), Op::Decode(i)];
        if let Some(y) = e.call("otherfill", &r2, &mut c) {
            if strip(&y[1]) != want {
                c.fail(format!("result depends on what fresh memory holds: {} then {}{}", x[1].res.short(), y[1].res.short(), pixdiff(&y[1], &x[1])));
            }
        }
    }
    c.label(if hostile_in { "damaged input" } else { "valid input" });
    c
}

fn strip(r: &Reply) -> (Res, Option<Info>, u8) {
    let res = match &r.res {
        Res::Pix(p) => Res::Pix(norm(r.cs, p)),
        x => x.clone(),
    };
    (res, r.info.clone(), r.cs)
}

fn pixdiff(a: &Reply, b: &Reply) -> String {
    match (&a.res, &b.res) {
        (Res::Pix(x), Res::Pix(y)) => format!(": {}", diff(&norm(a.cs, x), &norm(b.cs, y), usize::from(a.w), ncomp(a.cs))),
        _ => String::new(),
    }
}

/// far more threads than work or processors
fn c06_many(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 200);
    let t = *s.pick(&[64u32, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    let cs = *s.pick(&COLORS);
    let base = O::plain().cs(cs).scans(1000);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(base.clone().threads(1)), Op::Decode(i), Op::New(base.threads(t)), Op::Decode(i)];
    c.desc = format!("{} threads -> {} {}", t, CS_NAMES[cs as usize], desc(&img, &o));
    c.key = gen::hash(&b) ^ u64::from(t);
    if let Some(x) = e.call("default", &r, &mut c) {
        c.nontrivial = x[1].h > 16;
        if !x[1].res.is_ok() || strip(&x[1]) != strip(&x[3]) {
            c.fail(format!("{} threads give {}, one gave {}{}", t, x[3].res.short(), x[1].res.short(), pixdiff(&x[3], &x[1])));
        }
    }
    c
}

/// any number of threads that can be asked for, however absurd
fn c06_any_count(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 300);
    let t = match s.below(3) {
        0 => u32::MAX - s.below(4) as u32,
        1 => 1 << s.us(8, 31),
        _ => s.us(256, 1 << 30) as u32,
    };
    let cs = *s.pick(&COLORS);
    let base = O::plain().cs(cs).scans(1000);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(base.clone().threads(1)), Op::Decode(i), Op::New(base.clone().threads(t)), Op::Decode(i), Op::New(base), Op::Threads(u64::from(t)), Op::Decode(i)];
    c.desc = format!("{} threads -> {} {}", t, CS_NAMES[cs as usize], desc(&img, &o));
    c.key = gen::hash(&b) ^ u64::from(t);
    if let Some(x) = e.call("default", &r, &mut c) {
        c.nontrivial = x[1].h > 16;
        for k in [3, 6] {
            if !x[1].res.is_ok() || strip(&x[1]) != strip(&x[k]) {
                c.fail(format!("{} threads give {}, one gave {}{}", t, x[k].res.short(), x[1].res.short(), pixdiff(&x[k], &x[1])));
            }
        }
    }
    c
}

/// several decoders at once in one process
fn c06_par(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let n = s.us(2, 8);
    let mut r = Req::new();
    let mut par = vec![];
    let mut seq = vec![];
    for _ in 0..n {
        let b = if s.chance(1, 4) {
            hostile(s, 80).0
        } else {
            any_lenient(s, 160).2
        };
        let i = r.buf(&b);
        let o = small(s);
        let t = *s.pick(&[1u32, 2, 4, 6]);
        seq.push(Op::New(o.clone()));
        seq.push(Op::Decode(i));
        let k = s.us(1, 2);
        for _ in 0..k {
            par.push((o.clone().threads(t), i, seq.len() - 1));
        }
        c.key ^= gen::hash(&b);
    }
    r.ops = seq;
    r.ops.push(Op::Par(par.iter().map(|x| (x.0.clone(), x.1)).collect()));
    c.desc = format!("{} decoders at once on {} files", par.len(), n);
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        if let Some(Res::Pix(blob)) = x.last().map(|r| r.res.clone()) {
            for (k, got) in split_par(&blob).iter().enumerate() {
                let rf = &x[par[k].2];
                let (a, b) = match (got, &rf.res) {
                    (Res::Pix(a), Res::Pix(b)) => (Res::Pix(norm(rf.cs, a)), Res::Pix(norm(rf.cs, b))),
                    (a, b) => (a.clone(), b.clone()),
                };
                if a != b {
                    c.fail(format!("decoder {} of {} running together: {}, alone: {}", k, par.len(), a.short(), b.short()));
                }
            }
        }
    }
    c
}

// ------------------------------------------------------------------- C08

fn c08_valid(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let wide = s.chance(1, 12);
    let (img, o, b) = if wide {
        let k = s.below(5) as usize;
        let (w, h) = match s.below(3) {
            0 => (s.us(1, 65535), s.us(1, 20)),
            1 => (s.us(1, 20), s.us(1, 65535)),
            _ => (s.us(1, 1500), s.us(1, 1500)),
        };
        let img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
        let mut o = Opts::default();
        if s.chance(1, 3) {
            o.progressive = true;
            o.scans = script(s, img.comps.len());
        }
        let b = encode(&img, &o);
        (img, o, b)
    } else {
        let (img, o, b, _) = any_lenient(s, 200);
        (img, o, b)
    };
    let cs = *s.pick(&COLORS);
    let op = O::new().cs(cs).uns(s.below(4) != 1).scans(1000).maxw(65535).maxh(65535);
    let v = variant(s);
    c.desc = format!("{} -> {} [{}]", desc(&img, &o), CS_NAMES[cs as usize], v);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = img.w % 8 != 0 || img.h % 8 != 0;
    c.label(if wide { "large" } else { "small" });
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Headers(i), Op::New(op), Op::Decode(i)];
    if let Some(x) = e.call(v, &r, &mut c) {
        if x[0].info.is_some() {
            c.fail("info() before any image");
        }
        for k in [1, 3] {
            if !x[k].res.is_ok() {
                c.fail(format!("{} of a valid image: {}", opname(&r.ops[k]), x[k].res.short()));
                continue;
            }
            let want = Info { w: img.w as u16, h: img.h as u16, density: 8, progressive: o.progressive, sequential: !o.progressive, lossless: false, channels: ncomp(eff(&img, cs)) as u8, comps: img.comps.len() as u8, dpi: x[k].info.as_ref().map_or((0, 0), |i| i.dpi) };
            if x[k].info.as_ref() != Some(&want) || (x[k].w, x[k].h) != (want.w, want.h) {
                c.fail(format!("{}: info {:?} width {} height {}", opname(&r.ops[k]), x[k].info, x[k].w, x[k].h));
            }
            if x[k].cs != eff(&img, cs) {
                c.fail(format!("{}: output colorspace {}", opname(&r.ops[k]), CS_NAMES[x[k].cs as usize % 7]));
            }
        }
        if let Res::Pix(p) = &x[3].res {
            if p.len() != img.w * img.h * ncomp(eff(&img, cs)) {
                c.fail(format!("{} bytes of pixels", p.len()));
            }
        }
    }
    c
}

fn c08_hostile(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = hostile(s, 96);
    let op = small(s);
    c.desc = format!("{:?} {}", op.0, d);
    c.key = gen::hash(&b);
    if let Some(r) = e.decode(variant(s), op, &b, &mut c) {
        c.nontrivial = r.res.is_ok();
        check_shape(&r, &mut c);
    }
    c
}

/// every size up to 72x72, cheap content
fn c08_sizes(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let i = s.below(72 * 72) as usize;
    let (w, h) = (i % 72 + 1, i / 72 + 1);
    for k in 0..5 {
        let img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
        let mut o = Opts::default();
        if s.chance(1, 2) {
            o.progressive = true;
            o.scans = script(s, img.comps.len());
        }
        let b = encode(&img, &o);
        let cs = *s.pick(&COLORS);
        if let Some((p, r)) = must(e, "default", &O::new().cs(cs).scans(1000), &b, "valid image", &mut c) {
            if p.len() != w * h * ncomp(eff(&img, cs)) || r.info.as_ref().map(|i| (i.w, i.h)) != Some((w as u16, h as u16)) {
                c.fail(format!("{} -> {}: {} bytes, info {:?}", desc(&img, &o), CS_NAMES[cs as usize], p.len(), r.info));
            }
        }
    }
    c.desc = format!("{}x{} in all samplings", w, h);
    c.key = i as u64;
    c.nontrivial = w % 8 != 0 || h % 8 != 0;
    c
}

/// sides near the limits of 7 to 16 bits, both directions, all samplings, baseline and progressive
fn c08_edges(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let i = s.below(EDGES.len() as u64 * 20) as usize;
    let (k, wide, prog, side) = (i % 5, i / 5 % 2 == 0, i / 10 % 2 == 1, EDGES[i / 20]);
    let other = s.us(1, 9);
    let (w, h) = if wide { (side, other) } else { (other, side) };
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    // different first and last blocks: a picture that stops early or wraps around shows
    for cc in img.comps.iter_mut() {
        let n = cc.blocks.len();
        cc.blocks[0][0] = 200;
        cc.blocks[n / 2][0] = 300;
        cc.blocks[n - 1][0] = -300;
    }
    let mut o = Opts::default();
    if prog {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    let b = encode(&img, &o);
    let cs = *s.pick(&COLORS);
    c.desc = format!("{} -> {}", desc(&img, &o), CS_NAMES[cs as usize]);
    c.key = gen::hash(&b);
    c.nontrivial = true;
    let v = variant(s);
    let op = O::plain().cs(cs).uns(s.below(4) != 1).threads(1).scans(1000).maxw(65535).maxh(65535);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Headers(i), Op::New(op), Op::Decode(i)];
    if let Some(x) = e.call(v, &r, &mut c) {
        for k in [1, 3] {
            let got = x[k].info.as_ref().map(|i| (i.w as usize, i.h as usize, i.comps as usize, i.progressive));
            if !x[k].res.is_ok() || got != Some((w, h, img.comps.len(), prog)) {
                c.fail(format!("{}: {} info {:?}", opname(&r.ops[k]), x[k].res.short(), x[k].info));
            }
        }
        if let Res::Pix(p) = &x[3].res {
            if p.len() != w * h * ncomp(eff(&img, cs)) {
                c.fail(format!("{} bytes of pixels", p.len()));
            } else if let Some(m) = judge(&reference(&img), eff(&img, cs), p) {
                c.fail(m);
            }
        }
    }
    c
}

// ------------------------------------------------------------------- C09

fn c09_dims(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let near = |s: &mut Src, x: i64| (x + s.range(-2, 2)).clamp(1, 65535) as u16;
    // limits and dimensions close to each other
    let small_case = s.chance(2, 3);
    let (lw, lh) = if small_case { (s.range(1, 200), s.range(1, 200)) } else { (*s.pick(&[255i64, 256, 4096, 16384, 32767, 32768, 65535]), *s.pick(&[255i64, 256, 4096, 16384, 32767, 32768, 65535])) };
    let w = if s.chance(1, 2) { near(s, lw) } else { s.range(1, lw) as u16 };
    let h = if s.chance(1, 2) { near(s, lh) } else { s.range(1, lh) as u16 };
    let fits = i64::from(w) <= lw && i64::from(h) <= lh;
    let k = s.below(5) as usize;
    let prog = s.chance(1, 2);
    let how = s.below(4);
    let v = "default";
    let full = small_case || (usize::from(w) * usize::from(h) < 1 << 20);
    let b = if full {
        let img = if k == 4 { Image::new(w as usize, h as usize, 1, (1, 1)) } else { Image::new(w as usize, h as usize, 3, SAMPS[k]) };
        let mut o = Opts::default();
        if prog {
            o.progressive = true;
            o.scans = script(s, img.comps.len());
        }
        encode(&img, &o)
    } else {
        // only headers matter: patch the size of a small file
        let img = if k == 4 { Image::new(8, 8, 1, (1, 1)) } else { Image::new(8, 8, 3, SAMPS[k]) };
        let mut o = Opts::default();
        if prog {
            o.progressive = true;
            o.scans = script(s, img.comps.len());
        }
        let (mut b, l) = encode_l(&img, &o);
        b[l.sof + 5] = (h >> 8) as u8;
        b[l.sof + 6] = h as u8;
        b[l.sof + 7] = (w >> 8) as u8;
        b[l.sof + 8] = w as u8;
        b
    };
    let (lw16, lh16) = (lw as u16, lh as u16);
    let mut r = Req::new();
    let i = r.buf(&b);
    let base = O::new().scans(1000).cs(*s.pick(&COLORS));
    r.ops = match how {
        0 => vec![Op::New(base.maxw(lw16).maxh(lh16))],
        1 => vec![Op::New(base.maxh(lh16).maxw(lw16).maxw(lw16))],
        2 => vec![Op::New(base), Op::Limits(lw16, lh16)],
        _ => vec![Op::New(base.maxw(7).maxh(9)), Op::Limits(lw16, lh16)],
    };
    let n = r.ops.len();
    r.ops.push(Op::Headers(i));
    if !fits || full {
        r.ops.push(Op::Decode(i));
    }
    c.desc = format!("{}x{} with limits {}x{} set by {:?}, {}", w, h, lw, lh, r.ops[..n].iter().map(opname).collect::<Vec<_>>(), if prog { "progressive" } else { "baseline" });
    c.key = gen::hash(format!("{} {}", c.desc, k).as_bytes());
    c.nontrivial = (i64::from(w) - lw).abs() <= 1 || (i64::from(h) - lh).abs() <= 1;
    c.label(if fits { "fits" } else { "exceeds" });
    if let Some(x) = e.call(v, &r, &mut c) {
        for j in n..x.len() {
            let ok = x[j].res.is_ok();
            if ok != fits {
                c.fail(format!("{}: {}", opname(&r.ops[j]), x[j].res.short()));
            }
            // neither refusing an image nor reading headers may cost memory for pixels
            if (!fits || j == n) && x[j].peak > 200_000 + 4 * b.len() as u64 {
                c.fail(format!("{} allocated {} bytes", opname(&r.ops[j]), x[j].peak));
            }
        }
    }
    c
}

/// default limits: 16384 x 16384
fn c09_default(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (w, h) = match s.below(4) {
        0 => (s.range(16382, 16387) as u16, s.range(1, 20) as u16),
        1 => (s.range(1, 20) as u16, s.range(16382, 16387) as u16),
        2 => (s.range(16385, 65535) as u16, s.range(1, 65535) as u16),
        _ => (s.range(1, 65535) as u16, s.range(16385, 65535) as u16),
    };
    let fits = w <= 16384 && h <= 16384;
    let prog = s.chance(1, 2);
    let img = Image::new(8, 8, 3, (1, 1));
    let mut o = Opts::default();
    if prog {
        o.progressive = true;
        o.scans = script(s, 3);
    }
    let (mut b, l) = encode_l(&img, &o);
    b[l.sof + 5] = (h >> 8) as u8;
    b[l.sof + 6] = h as u8;
    b[l.sof + 7] = (w >> 8) as u8;
    b[l.sof + 8] = w as u8;
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(O::plain()), Op::Headers(i)];
    if !fits {
        r.ops.push(Op::Decode(i));
    }
    c.desc = format!("{}x{} with default limits", w, h);
    c.key = gen::hash(c.desc.as_bytes());
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        for j in 1..x.len() {
            if x[j].res.is_ok() != fits {
                c.fail(format!("{}: {}", opname(&r.ops[j]), x[j].res.short()));
            }
            if (!fits || j == 1) && x[j].peak > 200_000 + 4 * b.len() as u64 {
                c.fail(format!("rejected but allocated {} bytes", x[j].peak));
            }
        }
    }
    c
}

/// whatever the bytes: nothing larger than the limits comes out
fn c09_hostile(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = hostile(s, 96);
    let (lw, lh) = (s.us(1, 120) as u16, s.us(1, 120) as u16);
    let scans = s.us(1, 20) as u64;
    let o = O::new().maxw(lw).maxh(lh).scans(scans).strict(s.chance(1, 4));
    c.desc = format!("limits {}x{} {} scans, {}", lw, lh, scans, d);
    c.key = gen::hash(&b);
    if let Some(r) = e.decode("default", o, &b, &mut c) {
        c.nontrivial = r.info.is_some();
        if let Res::Pix(p) = &r.res {
            if r.w > lw || r.h > lh || p.len() > usize::from(lw) * usize::from(lh) * 3 {
                c.fail(format!("decoded {}x{} ({} bytes)", r.w, r.h, p.len()));
            }
        }
        let bound = 300_000 + 4 * b.len() as u64 + 40 * (u64::from(lw) + 32) * (u64::from(lh) + 32);
        if r.peak > bound {
            c.fail(format!("allocated {} bytes within limits {}x{}", r.peak, lw, lh));
        }
    }
    c
}

fn c09_scans(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, _) = image(s, &Cfg::new(60));
    let mut o = Opts { progressive: true, scans: script(s, img.comps.len()), ..Opts::default() };
    coding(s, &mut o);
    // longer scripts: repeat harmless refinements is not legal, so draw again
    if s.chance(1, 3) {
        restart(s, &img, &mut o);
    }
    let n = o.scans.len() as i64;
    let lim = if s.chance(3, 4) { (n + s.range(-2, 2)).max(1) } else { s.range(1, 70) };
    let b = encode(&img, &o);
    c.desc = format!("{} scans with limit {}: {}", n, lim, desc(&img, &o));
    c.key = gen::hash(&b) ^ lim as u64;
    c.nontrivial = (n - lim).abs() <= 1;
    c.label(if n <= lim { "within" } else { "beyond" });
    if let Some(r) = e.decode(variant(s), O::new().scans(lim as u64), &b, &mut c) {
        if r.res.is_ok() != (n <= lim) {
            c.fail(format!("{} scans, limit {}: {}", n, lim, r.res.short()));
        }
    }
    // the default is 64
    if s.chance(1, 4) {
        let mut p = Opts { progressive: true, ..Opts::default() };
        let k = s.us(62, 67);
        let mut img = Image::new(s.us(1, 20), s.us(1, 20), 1, (1, 1));
        fill(s, &mut img, &Cfg::new(20));
        p.scans = vec![Scan { comps: vec![0], ss: 0, se: 0, ah: 0, al: 0 }];
        for i in 1..=63usize {
            p.scans.push(Scan { comps: vec![0], ss: i, se: i, ah: 0, al: 0 });
        }
        if k < 64 {
            p.scans.truncate(k);
        } else {
            // split the last coefficients into refinements
            for j in 0..k - 64 {
                let i = 63 - j;
                let at = p.scans.iter().position(|x| x.ss == i && x.ah == 0).unwrap();
                p.scans[at].al = 1;
                p.scans.push(Scan { comps: vec![0], ss: i, se: i, ah: 1, al: 0 });
            }
        }
        let b = encode(&img, &p);
        if let Some(r) = e.decode("default", O::new(), &b, &mut c) {
            if r.res.is_ok() != (k <= 64) {
                c.fail(format!("{} scans with the default limit: {}", k, r.res.short()));
            }
        }
    }
    c
}

/// hundreds of scans
fn c09_many_scans(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let n = if s.chance(1, 2) { s.us(253, 260) } else { s.us(65, 379) };
    let mut img = Image::new(s.us(1, 20), s.us(1, 20), 3, SAMPS[s.below(4) as usize]);
    fill(s, &mut img, &Cfg::new(20));
    let mut o = Opts { progressive: true, ..Opts::default() };
    o.scans = vec![Scan { comps: vec![0, 1, 2], ss: 0, se: 0, ah: 0, al: 0 }];
    let mut refine = vec![];
    for k in 1..=63usize {
        for ci in 0..3 {
            // the first (n - 190) bands come in two steps
            let two = refine.len() + 190 < n;
            o.scans.push(Scan { comps: vec![ci], ss: k, se: k, ah: 0, al: u32::from(two) });
            if two {
                refine.push(Scan { comps: vec![ci], ss: k, se: k, ah: 1, al: 0 });
            }
        }
    }
    o.scans.extend(refine);
    o.scans.truncate(n);
    let n = o.scans.len() as i64;
    let lim = match s.below(4) {
        0 => s.range(1, 400),
        1 => s.range(254, 258),
        _ => n + s.range(-1, 1),
    };
    let b = encode(&img, &o);
    c.desc = format!("{} scans with limit {}: {}", n, lim, desc(&img, &o));
    c.key = gen::hash(&b) ^ lim as u64;
    c.nontrivial = (n - lim).abs() <= 1;
    c.label(if n <= lim { "within" } else { "beyond" });
    if let Some(r) = e.decode(variant(s), O::new().scans(lim as u64), &b, &mut c) {
        if r.res.is_ok() != (n <= lim) {
            c.fail(format!("{} scans, limit {}: {}", n, lim, r.res.short()));
        }
    }
    c
}

// ------------------------------------------------------------------- C11

fn c11(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let nf = s.us(2, 5);
    let mut r = Req::new();
    let mut files = vec![];
    let mut descs = vec![];
    for _ in 0..nf {
        let (b, d) = match s.below(6) {
            0 => hostile(s, 60),
            1 => {
                // cut short
                let (img, o, mut b, _) = any_lenient(s, 60);
                let k = s.us(0, b.len() - 1);
                b.truncate(k);
                (b, format!("{} cut at {}", desc(&img, &o), k))
            }
            _ => {
                let (img, o, b, _) = any_lenient(s, 60);
                (b, desc(&img, &o))
            }
        };
        c.key = c.key.rotate_left(7) ^ gen::hash(&b);
        files.push(r.buf(&b));
        descs.push(d);
    }
    let o0 = small(s);
    // model of what a decoder remembers: its options
    let mut cur = o0.clone();
    r.ops.push(Op::New(o0));
    let mut model: Vec<Option<O>> = vec![None];
    let mut uses = 0;
    let n = s.us(3, 12);
    for _ in 0..n {
        let op = match s.below(14) {
            12 => Op::Missing("no-such-file.jpg".into()),
            0 => {
                let cs = *s.pick(&COLORS);
                cur = cur.cs(cs);
                Op::SetCs(cs)
            }
            1 => {
                cur = cur.cs(RGBA);
                Op::Rgba
            }
            2 => {
                let (w, h) = (*s.pick(&[320u16, 30, 100]), *s.pick(&[320u16, 30, 100]));
                cur = cur.maxw(w).maxh(h);
                Op::Limits(w, h)
            }
            3 => {
                let t = *s.pick(&[1u32, 2, 3]);
                cur = cur.threads(t);
                Op::Threads(u64::from(t))
            }
            4 | 5 => {
                uses += 1;
                Op::Headers(*s.pick(&files))
            }
            6 => {
                uses += 1;
                Op::File(*s.pick(&files))
            }
            _ => {
                uses += 1;
                Op::Decode(*s.pick(&files))
            }
        };
        model.push(match op {
            Op::Headers(_) | Op::File(_) | Op::Decode(_) => Some(cur.clone()),
            _ => None,
        });
        r.ops.push(op);
    }
    c.desc = format!("files {:?}; history {:?}", descs, r.ops.iter().map(opname).collect::<Vec<_>>());
    c.nontrivial = uses > 1;
    c.label(format!("{} uses", uses.min(9)));
    let v = variant(s);
    // the same operations, each on a fresh decoder with the same options
    let mut f = Req { bufs: r.bufs.clone(), ops: vec![] };
    for (op, m) in r.ops.iter().zip(&model) {
        if let Some(o) = m {
            f.ops.push(Op::New(o.clone()));
            f.ops.push(op.clone());
        }
    }
    if let (Some(x), Some(y)) = (e.call(v, &r, &mut c), e.call(v, &f, &mut c)) {
        let mut k = 1;
        for (i, m) in model.iter().enumerate() {
            if m.is_some() {
                if strip(&x[i]) != strip(&y[k]) {
                    c.fail(format!("step {} ({}): used decoder {} (info {:?}, {}), fresh decoder {} (info {:?}, {}){}", i, opname(&r.ops[i]),
                        x[i].res.short(), x[i].info, CS_NAMES[x[i].cs as usize % 7], y[k].res.short(), y[k].info, CS_NAMES[y[k].cs as usize % 7], pixdiff(&x[i], &y[k])));
                }
                k += 2;
            }
        }
    }
    c
}

// ------------------------------------------------------------------- C12

fn c12(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let bad = s.chance(1, 2);
    let (b, d, valid) = if bad {
        let (b, d) = hostile(s, 80);
        (b, d, None)
    } else {
        let (img, o, b, l) = any_lenient(s, 120);
        let d = desc(&img, &o);
        (b, d, Some((img, o, l)))
    };
    let op = if bad { small(s) } else { O::new().cs(*s.pick(&COLORS)).scans(1000) };
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![
        Op::New(op.clone()), Op::Headers(i),
        Op::New(op.clone()), Op::Decode(i),
        Op::New(op.clone()), Op::File(i),
        Op::New(op.clone()), Op::Headers(i), Op::Decode(i), Op::Headers(i),
    ];
    // headers alone are enough
    let cut = valid.as_ref().map(|v| {
        let k = v.2.scans[0].0;
        let mut t = b[..k].to_vec();
        t.extend((0..s.us(0, 3)).map(|_| 0x12));
        t
    });
    if let Some(t) = &cut {
        let j = r.buf(t);
        r.ops.push(Op::New(op.clone()));
        r.ops.push(Op::Headers(j));
    }
    c.desc = format!("{:?} {}", op.0, d);
    c.key = gen::hash(&b);
    let v = variant(s);
    if let Some(x) = e.call(v, &r, &mut c) {
        c.nontrivial = x[3].info.is_some();
        c.label(format!("headers {} decode {}", x[1].res.is_ok(), x[3].res.is_ok()));
        if strip(&x[3]) != strip(&x[5]) {
            c.fail(format!("decode_buffer {} decode_file {}{}", x[3].res.short(), x[5].res.short(), pixdiff(&x[3], &x[5])));
        }
        if x[3].res.is_ok() && !x[1].res.is_ok() {
            c.fail(format!("decodes, but read_headers says {}", x[1].res.short()));
        }
        if x[3].res.is_ok() {
            if x[1].info != x[3].info || (x[1].w, x[1].h, x[1].cs) != (x[3].w, x[3].h, x[3].cs) {
                c.fail(format!("read_headers saw {:?} {}, decode {:?} {}", x[1].info, CS_NAMES[x[1].cs as usize % 7], x[3].info, CS_NAMES[x[3].cs as usize % 7]));
            }
        }
        if let (Res::Err(a), Res::Err(_)) = (&x[1].res, &x[3].res) {
            // headers unreadable: decoding cannot have got further
            if strip(&x[1]).1 != strip(&x[3]).1 {
                c.fail(format!("header error {} but decoding saw {:?}", a, x[3].info));
            }
        }
        if !x[1].res.is_ok() && x[3].res.is_ok() {
            c.fail("headers cannot be read but the image decodes");
        }
        if strip(&x[8]) != strip(&x[3]) {
            c.fail(format!("after read_headers: {}, without: {}", x[8].res.short(), x[3].res.short()));
        }
        if strip(&x[9]) != strip(&x[1]) {
            c.fail("read_headers after decoding differs from read_headers alone");
        }
        if let Some((img, o, _)) = &valid {
            for k in [1, 3, 5, 7, 9, 11] {
                if !x[k].res.is_ok() {
                    c.fail(format!("{} of a valid image: {}", opname(&r.ops[k]), x[k].res.short()));
                } else {
                    let w = x[k].info.as_ref().map(|i| (i.w as usize, i.h as usize, i.comps as usize, i.density, i.progressive));
                    if w != Some((img.w, img.h, img.comps.len(), 8, o.progressive)) {
                        c.fail(format!("{}: info {:?}", opname(&r.ops[k]), x[k].info));
                    }
                }
            }
            // header reading must not pay for pixels
            if x[1].peak > 200_000 + 4 * b.len() as u64 {
                c.fail(format!("read_headers allocated {} bytes", x[1].peak));
            }
        }
    }
    c
}

/// files of tens of kilobytes to a megabyte, of sizes next to round numbers
fn c12_large(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mut o, b, _) = any_valid(s, 60);
    let target = match s.below(4) {
        0 => s.us(4000, 300_000),
        1 => 65536 * s.us(1, 5) + s.us(0, 4) - 2,
        2 => *s.pick(&[4096usize, 8192, 16384, 32768, 1 << 20]) + s.us(0, 4) - 2,
        _ if s.chance(1, 12) => (1usize << s.us(21, 24)) + s.us(1, 1 << 20),
        _ => s.us(300_000, 1_300_000),
    };
    let mut left = target.saturating_sub(b.len());
    let tail = s.chance(1, 3);
    let mut r = Rng::new(s.seed());
    if tail {
        o.trailing = (0..left).map(|_| r.below(256) as u8).collect();
    } else {
        while left >= 4 + o.fill {
            let n = (left - 4 - o.fill).min(65533);
            o.meta.push((0, 0xFE, (0..n).map(|_| r.below(256) as u8).collect()));
            left -= n + 4 + o.fill;
        }
    }
    let t = encode(&img, &o);
    let op = O::new().cs(*s.pick(&COLORS)).scans(1000);
    let mut r = Req::new();
    let (i, j) = (r.buf(&t), r.buf(&b));
    r.ops = vec![Op::New(op.clone()), Op::Decode(j), Op::New(op.clone()), Op::Headers(i), Op::New(op.clone()), Op::Decode(i), Op::New(op), Op::File(i)];
    c.desc = format!("{} bytes, filled up {} the image: {}", t.len(), if tail { "behind" } else { "in front of" }, desc(&img, &o));
    c.key = gen::hash(&t);
    c.nontrivial = t.len() > b.len();
    if let Some(x) = e.call("default", &r, &mut c) {
        for k in [5, 7] {
            if !x[1].res.is_ok() || strip(&x[k]) != strip(&x[1]) {
                c.fail(format!("{} of {} bytes: {}, the short file: {}{}", opname(&r.ops[k]), t.len(), x[k].res.short(), x[1].res.short(), pixdiff(&x[k], &x[1])));
            }
        }
        if !x[3].res.is_ok() || x[3].info != x[1].info {
            c.fail(format!("read_headers of {} bytes: {} {:?}", t.len(), x[3].res.short(), x[3].info));
        }
    }
    c
}

fn c12_missing(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let name = *s.pick(&["no-such-file.jpg", "no/such/dir/x.jpg", ".", "", "a\u{301}\u{fffd}.jpeg"]);
    let valid = any_lenient(s, 30);
    let mut r = Req::new();
    let i = r.buf(&valid.2);
    r.ops = vec![Op::New(O::new().scans(1000)), Op::Missing(name.into()), Op::Decode(i), Op::Missing(name.into()), Op::Decode(i)];
    c.desc = format!("decode_file({:?}) between decodes", name);
    c.key = gen::hash(&valid.2) ^ name.len() as u64;
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        for k in [1, 3] {
            if !matches!(x[k].res, Res::Err(_)) {
                c.fail(format!("decode_file({:?}) = {}", name, x[k].res.short()));
            }
        }
        if !x[2].res.is_ok() || strip(&x[2]) != strip(&x[4]) {
            c.fail(format!("decoding after a file error: {} then {}", x[2].res.short(), x[4].res.short()));
        }
    }
    c
}

// ------------------------------------------------------------------- C14

fn c14(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let kind = s.below(4);
    let v = variant(s);
    let cs = *s.pick(&COLORS);
    let base = O::new().cs(cs).scans(1000).maxw(320).maxh(320);
    let (lenient, strict) = (base.clone().strict(false), base.strict(true));
    match kind {
        0 => {
            // well-formed files: strict mode changes nothing
            let (img, o, b, _) = any_valid(s, 120);
            c.desc = format!("well-formed {}", desc(&img, &o));
            c.key = gen::hash(&b);
            c.nontrivial = nonflat(&img);
            let x = must(e, v, &lenient, &b, "well-formed image", &mut c);
            let y = must(e, v, &strict, &b, "well-formed image in strict mode", &mut c);
            if let (Some((_, x)), Some((_, y))) = (x, y) {
                if strip(&x) != strip(&y) {
                    c.fail(format!("strict mode changed the result{}", pixdiff(&y, &x)));
                }
            }
        }
        1 => {
            // stray bytes between segments
            let (img, o, b, l) = any_valid(s, 80);
            let at = *s.pick(&l.segs);
            let n = if s.chance(1, 10) { s.us(100, 3000) } else { s.us(3, 40) };
            let mut r = Rng::new(s.seed());
            let mut t = b[..at].to_vec();
            t.extend((0..n).map(|_| r.below(255) as u8));
            t.extend(&b[at..]);
            c.desc = format!("{} stray bytes at {} of {}", n, at, desc(&img, &o));
            c.key = gen::hash(&t);
            c.nontrivial = true;
            if let Some((p, rp)) = must(e, v, &lenient, &b, "well-formed image", &mut c) {
                if let Some((q, _)) = must(e, v, &lenient, &t, "image with stray bytes in lenient mode", &mut c) {
                    if norm(rp.cs, &p) != norm(rp.cs, &q) {
                        c.fail("stray bytes changed the pixels");
                    }
                }
                let mut q = Req::new();
                let i = q.buf(&t);
                q.ops = vec![Op::New(strict.clone()), Op::Decode(i), Op::New(strict), Op::Headers(i)];
                if let Some(x) = e.call(v, &q, &mut c) {
                    for k in [1, 3] {
                        if x[k].res.is_ok() {
                            c.fail(format!("strict mode accepts {} stray bytes ({})", n, opname(&q.ops[k])));
                        }
                    }
                }
            }
        }
        2 => {
            // grayscale with sampling factors
            let (img, _) = image(s, &Cfg { kind: Kind::Gray, busy: true, ..Cfg::new(120) });
            let mut o = Opts::default();
            coding(s, &mut o);
            if s.chance(1, 2) {
                o.progressive = true;
                o.scans = script(s, 1);
            }
            if s.chance(1, 3) {
                restart(s, &img, &mut o);
            }
            let b = encode(&img, &o);
            let mut i2 = img.clone();
            let (h, vv) = *s.pick(&[(2usize, 1usize), (1, 2), (2, 2)]);
            i2.comps[0].h = h;
            i2.comps[0].v = vv;
            // same data: a single component is never interleaved
            let t = encode(&i2, &o);
            c.desc = format!("grayscale with sampling {}x{}: {}", h, vv, desc(&img, &o));
            c.key = gen::hash(&t);
            c.nontrivial = nonflat(&img);
            if let Some((p, _)) = must(e, v, &lenient, &b, "grayscale image", &mut c) {
                if let Some((q, _)) = must(e, v, &lenient, &t, "grayscale image with sampling factors", &mut c) {
                    if p != q {
                        c.fail(format!("sampling factors of a grayscale image changed its pixels: {}", diff(&q, &p, img.w, 1)));
                    }
                }
                if let Some(r) = e.decode(v, strict, &t, &mut c) {
                    if r.res.is_ok() {
                        c.fail("strict mode accepts a grayscale image with sampling factors");
                    }
                }
            }
        }
        _ => {
            // whatever strict mode accepts, lenient mode decodes to the same
            let (b, d) = hostile(s, 90);
            c.desc = format!("damaged: {}", d);
            c.key = gen::hash(&b);
            let x = e.decode(v, lenient, &b, &mut c);
            let y = e.decode(v, strict, &b, &mut c);
            if let (Some(x), Some(y)) = (x, y) {
                c.nontrivial = y.res.is_ok();
                if y.res.is_ok() && strip(&x) != strip(&y) {
                    c.fail(format!("strict {} lenient {}{}", y.res.short(), x.res.short(), pixdiff(&y, &x)));
                }
            }
        }
    }
    c.label(["well-formed", "stray bytes", "sampled grayscale", "damaged"][kind as usize]);
    c
}

// ------------------------------------------------------------------- C15

fn c15_cut(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mode) = image(s, &Cfg { busy: true, ..Cfg::new(120) });
    let mut o = Opts::default();
    coding(s, &mut o);
    if s.chance(1, 3) {
        restart(s, &img, &mut o);
    }
    o.rst_fill = 0;
    let (b, l) = encode_l(&img, &o);
    let (a, z) = l.scans[0];
    let cut = s.us(a, z);
    let mut t = b[..cut].to_vec();
    let tail = s.below(3);
    if tail == 1 {
        t.extend([0xFF, 0xD9]);
    }
    let cs = *s.pick(&COLORS);
    let v = variant(s);
    // rows of MCUs whose bits end before the cut (last byte may be shared, so
    // demand a full byte of slack)
    // a 0xFF without the zero byte stuffed behind it is the start of a marker, not data
    let rows = whole_rows(&img, &o, cut - a - usize::from(cut > a && b[cut - 1] == 0xFF));
    c.desc = format!("{} -> {} content={} cut at {} of {} entropy bytes{}: {} of {} MCU rows complete [{}]", desc(&img, &o), CS_NAMES[cs as usize], mode, cut - a, z - a,
        if tail == 1 { " + EOI" } else { "" }, rows, img.mcuy, v);
    c.key = gen::hash(&t);
    c.nontrivial = rows > 0 && rows < img.mcuy;
    let op = O::new().cs(cs);
    let full = must(e, v, &op, &b, "complete image", &mut c);
    let cutr = e.decode(v, op, &t, &mut c);
    if let (Some((p, _)), Some(r)) = (full, cutr) {
        c.label(if r.res.is_ok() { "cut file decoded" } else { "cut file rejected" });
        if let Res::Pix(q) = &r.res {
            let ec = eff(&img, cs);
            let n = ncomp(ec);
            if q.len() != p.len() {
                c.fail(format!("cut file gives {} bytes, whole file {}", q.len(), p.len()));
            } else {
                let hh = (rows * 8 * if img.comps.len() == 1 { 1 } else { img.vmax }).min(img.h);
                let k = hh * img.w * n;
                if norm(ec, &p[..k]) != norm(ec, &q[..k]) {
                    c.fail(format!("pixels in front of the cut changed: {}", diff(&q[..k], &p[..k], img.w, n)));
                }
            }
        }
    }
    c
}

/// MCU rows whose entropy-coded bits lie entirely in the first `n` bytes.
fn whole_rows(img: &Image, o: &Opts, n: usize) -> usize {
    // encode prefixes: the data of the first k rows is a prefix of the data
    let mut k = 0;
    while k < img.mcuy {
        let len = rows_len(img, o, k + 1);
        if len > n {
            break;
        }
        k += 1;
    }
    k
}

fn rows_len(img: &Image, o: &Opts, rows: usize) -> usize {
    let sc = &default_scans(img)[0];
    let toks = scan_tokens(img, o, sc, o.dri);
    let tabs = build_tables(&toks, o.huff, 0, None, false);
    // tokens of the first rows: same tokens from an image of fewer MCU rows
    let mut part = img.clone();
    part.mcuy = rows;
    for c in part.comps.iter_mut() {
        let v = if img.comps.len() == 1 { 1 } else { c.v };
        c.rbh = rows * v;
    }
    let pt = scan_tokens(&part, o, sc, o.dri);
    entropy(&pt, &tabs, o).len()
}

fn c15_tail(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, mut o, b, _) = any_valid(s, 120);
    let mut r = Rng::new(s.seed());
    o.trailing = match if s.chance(1, 100) { 9 } else { s.below(5) } {
        9 => {
            let n = s.us(60_000, 1_000_000);
            match s.below(3) {
                0 => vec![0; n],
                1 => vec![0xFF; n],
                _ => (0..n).map(|_| r.below(256) as u8).collect(),
            }
        }
        0 => vec![0; s.us(1, 10)],
        1 => (0..s.us(1, 400)).map(|_| r.below(256) as u8).collect(),
        2 => vec![0xFF; s.us(1, 10)],
        3 => b.clone(),
        _ => any_valid(s, 40).2,
    };
    let noeoi = !o.progressive && s.chance(1, 4);
    if noeoi {
        o.eoi = false;
        o.trailing = vec![];
        o.rst_fill = 0;
    }
    let t = encode(&img, &o);
    let cs = *s.pick(&COLORS);
    let v = variant(s);
    let op = O::new().cs(cs).scans(1000).strict(s.chance(1, 4));
    c.desc = format!("{} -> {} [{}] {}", desc(&img, &o), CS_NAMES[cs as usize], v, if noeoi { "without EOI".into() } else { format!("{} bytes after EOI", o.trailing.len()) });
    c.key = gen::hash(&t);
    c.nontrivial = nonflat(&img);
    c.label(if noeoi { "no EOI" } else { "trailing bytes" });
    let x = must(e, v, &op, &b, "image", &mut c);
    let y = must(e, v, &op, &t, if noeoi { "image without EOI" } else { "image with trailing bytes" }, &mut c);
    if let (Some((_, x)), Some((_, y))) = (x, y) {
        if strip(&x) != strip(&y) {
            c.fail(format!("what follows the image changed it{}", pixdiff(&y, &x)));
        }
    }
    c
}

/// every cut position of a header is an error
fn c15_head(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, l) = any_valid(s, 40);
    let k = s.us(0, l.scans[0].0 - 1);
    let t = &b[..k];
    c.desc = format!("{} cut at {} inside its headers", desc(&img, &o), k);
    c.key = gen::hash(t);
    c.nontrivial = k > 2;
    let mut r = Req::new();
    let i = r.buf(t);
    r.ops = vec![Op::New(O::new()), Op::Decode(i), Op::New(O::new()), Op::Headers(i)];
    if let Some(x) = e.call(variant(s), &r, &mut c) {
        for j in [1, 3] {
            if x[j].res.is_ok() {
                c.fail(format!("{} accepts a file whose headers are cut at {}", opname(&r.ops[j]), k));
            }
        }
    }
    c
}

// ------------------------------------------------------------------- C16

struct Broken {
    img: Image,
    o: Opts,
    b: Vec<u8>,
    what: String,
    /// reading headers has to reject it as well
    headers_too: bool,
}

const CLASSES: u64 = 46;

/// A valid file with one fault of the given class.
fn broken(s: &mut Src, class: u64) -> Broken {
    let (img, mut o, _, _) = any_valid(s, 60);
    o.decoys = false;
    o.fill = 0;
    o.ids_scan = vec![];
    o.unused = 0;
    if class >= 40 && (!o.progressive || o.scans.len() < 2) {
        o.progressive = true;
        while o.scans.len() < 2 {
            o.scans = gen::script(s, img.comps.len());
        }
        o.dri = 0;
        o.dri_decoys = vec![];
        o.rst_fill = 0;
    }
    let (mut b, mut l) = encode_l(&img, &o);
    let gray = img.comps.len() == 1;
    let sof = l.sof;
    let sos = walk(&b).iter().find(|x| x.1 == 0xDA).map(|x| x.0).unwrap();
    let find = |b: &[u8], m: u8| walk(b).iter().filter(|x| x.1 == m && x.0 < sos).map(|x| x.0).collect::<Vec<_>>();
    let mut headers_too = true; // read_headers must reject as well
    let what;
    match class {
        0 => {
            let v = loop {
                let v = s.below(65536) as u16;
                if v != 0xFFD8 {
                    break v;
                }
            };
            b[0] = (v >> 8) as u8;
            b[1] = v as u8;
            what = format!("magic {:04x}", v);
        }
        1 => {
            let m = *s.pick(&[0xC3u8, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]);
            b[sof + 1] = m;
            what = format!("frame type {:02x}", m);
        }
        2 => {
            let p = loop {
                let p = s.below(256) as u8;
                if p != 8 {
                    break p;
                }
            };
            b[sof + 4] = p;
            what = format!("precision {}", p);
        }
        3 => {
            let k = s.below(3);
            if k != 1 {
                b[sof + 5] = 0;
                b[sof + 6] = 0;
            }
            if k != 0 {
                b[sof + 7] = 0;
                b[sof + 8] = 0;
            }
            what = "zero width or height".into();
        }
        4 => {
            let n = *s.pick(&[0usize, 2, 4, 5, 10, 80]);
            let mut p = b[sof + 4..sof + 9].to_vec();
            p.push(n as u8);
            for i in 0..n {
                p.extend([i as u8 + 1, 0x11, b[sof + 12]]);
            }
            let end = sof + 4 + 6 + 3 * img.comps.len();
            let mut x = vec![];
            seg(&mut x, 0, b[sof + 1], &p);
            b.splice(sof..end, x);
            what = format!("{} components", n);
        }
        5 => {
            let d = *s.pick(&[-3i32, -2, -1, 1, 2, 3, 6, 100]);
            let n = (8 + 3 * img.comps.len() as i32 + d).max(2);
            b[sof + 2] = 0;
            b[sof + 3] = n as u8;
            what = format!("frame header length {}", n);
        }
        6 => {
            // no quantisation table at all
            for p in find(&b, 0xDB).into_iter().rev() {
                let n = 2 + (usize::from(b[p + 2]) << 8 | usize::from(b[p + 3]));
                b.drain(p..p + n);
            }
            what = "no quantisation table".into();
        }
        7 => {
            // a component refers to a missing quantisation table
            let used: Vec<usize> = img.comps.iter().map(|c| c.tq).collect();
            let free: Vec<usize> = (0..16).filter(|x| !used.contains(x)).collect();
            let t = *s.pick(&free);
            let k = s.us(0, img.comps.len() - 1);
            b[sof + 12 + 3 * k] = t as u8;
            what = format!("component {} uses undefined quantisation table {}", k, t);
        }
        8 => {
            // no Huffman tables before the first scan
            for p in find(&b, 0xC4).into_iter().rev() {
                let n = 2 + (usize::from(b[p + 2]) << 8 | usize::from(b[p + 3]));
                b.drain(p..p + n);
            }
            headers_too = false;
            what = "no Huffman table".into();
        }
        9 => {
            // scan refers to an undefined table
            let ids: Vec<usize> = (0..16).filter(|x| !o.dc_ids.contains(x)).collect();
            let t = *s.pick(&ids);
            b[sos + 6] = (t << 4 | usize::from(b[sos + 6]) & 15) as u8;
            headers_too = false;
            // only tables 0..=3 exist
            what = format!("scan uses undefined DC table {}", t);
        }
        10 => {
            let p = find(&b, 0xC4)[0];
            b[p + 4] = *s.pick(&[0x04u8, 0x0F, 0x14, 0x1A, 0x20, 0x30, 0xF0, 0x80]);
            what = format!("Huffman table destination {:02x}", b[p + 4]);
        }
        11 => {
            // over-subscribed code
            let p = find(&b, 0xC4)[0];
            let k = s.us(1, 7);
            let mut t = [0u8; 16];
            t[k - 1] = ((1u32 << k) + s.us(1, 3) as u32).min(255) as u8;
            let n: usize = t.iter().map(|x| usize::from(*x)).sum();
            let mut q = vec![b[p + 4]];
            q.extend(t);
            q.extend((0..n).map(|x| if b[p + 4] >> 4 == 0 { (x % 12) as u8 } else { x as u8 }));
            let mut x = vec![];
            seg(&mut x, 0, 0xC4, &q);
            b.splice(p..p, x);
            what = format!("over-subscribed Huffman code ({} codes of length {})", n, k);
        }
        12 => {
            // counts that exceed the segment
            let p = find(&b, 0xC4)[0];
            let k = s.us(0, 15);
            b[p + 5 + k] = 255;
            if k < 15 {
                b[p + 6 + k] = 255;
            } else {
                b[p + 4 + k] = 255;
            }
            what = "Huffman counts exceed the table".into();
        }
        13 => {
            let p = find(&b, 0xDB)[0];
            let n = usize::from(b[p + 2]) << 8 | usize::from(b[p + 3]);
            let d = s.us(1, 60);
            let m = n - d.min(n - 3);
            b[p + 2] = (m >> 8) as u8;
            b[p + 3] = m as u8;
            what = format!("quantisation segment length {} instead of {}", m, n);
        }
        14 => {
            let p = find(&b, 0xDB)[0];
            b[p + 4] = *s.pick(&[0x04u8, 0x0F, 0x20, 0xF0, 0x10, 0x13, 0x07]);
            what = format!("quantisation table header {:02x}", b[p + 4]);
        }
        15 => {
            let n = *s.pick(&[0u8, 4, 5, 17, 255]);
            b[sos + 4] = n;
            let keep = 6 + 2 * u16::from(n);
            b[sos + 2] = (keep >> 8) as u8;
            b[sos + 3] = keep as u8;
            what = format!("{} components in scan", n);
        }
        16 => {
            b[sos + 5] = *s.pick(&[0u8, 4, 5, 100, 255]);
            what = format!("scan of unknown component {}", b[sos + 5]);
        }
        17 => {
            if b[sos + 4] < 2 {
                b[sos + 3] = b[sos + 3].wrapping_add(1);
                what = "scan header length off by one".into();
            } else {
                b[sos + 7] = b[sos + 5];
                what = "component twice in a scan".into();
            }
        }
        18 => {
            let d = s.us(1, 5) as u8;
            b[sos + 3] = if s.chance(1, 2) { b[sos + 3] + d } else { b[sos + 3] - d };
            what = format!("scan header length {}", b[sos + 3]);
        }
        19 => {
            // segment lengths below 2
            let at = *s.pick(&l.segs);
            let n = s.below(2) as u8;
            let m = *s.pick(&[0xE0u8, 0xE5, 0xFE, 0xDB, 0xC4, 0xDD, 0xDC, 0xF0, 0xFD]);
            b.splice(at..at, [0xFF, m, 0, n]);
            what = format!("segment {:02x} of length {}", m, n);
        }
        20 => {
            let at = *s.pick(&l.segs);
            let n = loop {
                let n = s.below(30) as u8;
                if n != 4 {
                    break n;
                }
            };
            let mut x = vec![0xFF, 0xDD, 0, n];
            x.extend(vec![0; usize::from(n)]);
            b.splice(at..at, x);
            what = format!("DRI of length {}", n);
        }
        21 => {
            // frame missing: scan first
            let end = sof + 2 + (usize::from(b[sof + 2]) << 8 | usize::from(b[sof + 3]));
            b.drain(sof..end);
            what = "scan without frame".into();
        }
        22 => {
            let end = sof + 2 + (usize::from(b[sof + 2]) << 8 | usize::from(b[sof + 3]));
            let x = b[sof..end].to_vec();
            b.splice(end..end, x);
            what = "two frame headers".into();
        }
        23 => {
            let at = *s.pick(&l.segs);
            let m = *s.pick(&[0xD9u8, 0xCC, 0xDC]);
            b.splice(at..at, [0xFF, m, 0, 4, 0, 0]);
            what = format!("marker {:02x} inside the headers", m);
        }
        24 => {
            // sampling that is not supported
            let v = if gray { *s.pick(&[0x01u8, 0x10, 0x31, 0x13, 0x33, 0x00]) } else { *s.pick(&[0x01u8, 0x10, 0x31, 0x13, 0x00, 0x41, 0x14, 0x44, 0x42, 0x24, 0x81]) };
            b[sof + 11] = v;
            headers_too = false;
            what = format!("luminance sampling {:02x}", v);
        }
        25 => {
            if gray {
                b.truncate(1);
                what = "one byte".into();
            } else {
                let v = *s.pick(&[0x21u8, 0x12, 0x22, 0x41, 0x00, 0x01]);
                let k = s.us(1, 2);
                b[sof + 11 + 3 * k] = v;
                headers_too = false;
                what = format!("sampling of component {} is {:02x}", k, v);
            }
        }
        26 => {
            // a bit pattern that is no code: sixteen ones never are
            let (a, z) = l.scans[0];
            let n = s.us(4, 12);
            let x: Vec<u8> = std::iter::repeat([0xFF, 0]).take(n).flatten().collect();
            if o.progressive && o.scans[0].ah > 0 {
                b.truncate(sos);
            } else {
                b.splice(a..z, x);
            }
            headers_too = false;
            what = "entropy-coded data that is no Huffman code".into();
        }
        27 => {
            b.clear();
            if s.chance(1, 2) {
                b.push(0xFF);
            }
            what = "empty".into();
        }
        28 => {
            // Ah / Al out of range
            let k = sos + 5 + 2 * usize::from(b[sos + 4]) + 2;
            b[k] = *s.pick(&[0xE0u8, 0xF0, 0x0E, 0x0F, 0xEE]);
            what = format!("successive approximation {:02x}", b[k]);
        }
        30 | 31 => {
            // a table of any component of a scan is not defined
            let ac = class == 31;
            let used = if ac { o.ac_ids } else { o.dc_ids };
            let free: Vec<usize> = (0..16).filter(|x| !used.contains(x)).collect();
            let scans = if o.scans.is_empty() { default_scans(&img) } else { o.scans.clone() };
            let fits: Vec<usize> = (0..scans.len()).filter(|&i| !o.progressive || (scans[i].ah == 0 && (scans[i].ss > 0) == ac)).collect();
            let at = walk(&b).iter().filter(|x| x.1 == 0xDA).map(|x| x.0).collect::<Vec<_>>();
            headers_too = false;
            if free.is_empty() || fits.is_empty() || at.len() != scans.len() {
                b.truncate(sos);
                what = "no scan".into();
            } else {
                let n = *s.pick(&fits);
                let k = s.us(0, scans[n].comps.len() - 1);
                let t = *s.pick(&free);
                let p = at[n] + 6 + 2 * k;
                b[p] = if ac { b[p] & 0xF0 | t as u8 } else { b[p] & 15 | (t as u8) << 4 };
                what = format!("component {} of scan {} uses undefined {} table {}", k, n, if ac { "AC" } else { "DC" }, t);
            }
        }
        32 => {
            // over-subscribed by codes of unequal lengths
            let ps = find(&b, 0xC4);
            let p = *s.pick(&ps);
            let mut t = [0u8; 16];
            let k = s.us(2, 16);
            let start = s.us(1, k);
            // all but one code of some length, then one of each length up to k: one code of length k is left
            t[start - 1] = ((1u32 << start.min(6)) - 1) as u8;
            let extra = s.us(1, 4) as u8;
            if start <= 6 {
                for l in start + 1..=k {
                    t[l - 1] = 1;
                }
                if k == start {
                    t[k - 1] += 1 + extra;
                } else {
                    t[k - 1] += 1;
                    let j = s.us(k, 16);
                    t[j - 1] += extra;
                }
            } else {
                t = [0; 16];
                t[0] = 2;
                t[k - 1] += extra;
            }
            let n: usize = t.iter().map(|x| usize::from(*x)).sum();
            let mut q = vec![b[p + 4]];
            q.extend(t);
            q.extend((0..n).map(|x| if b[p + 4] >> 4 == 0 { (x % 12) as u8 } else { x as u8 }));
            let mut x = vec![];
            seg(&mut x, 0, 0xC4, &q);
            b.splice(p..p, x);
            what = format!("over-subscribed Huffman code {:?}", t);
        }
        34 => {
            // a Huffman segment whose length ends inside its last table
            let ps = find(&b, 0xC4);
            let p = *s.pick(&ps);
            let n = usize::from(b[p + 2]) << 8 | usize::from(b[p + 3]);
            let (mut at, mut last) = (p + 4, 0);
            while at < p + 2 + n {
                last = 17 + b[at + 1..at + 17].iter().map(|x| usize::from(*x)).sum::<usize>();
                at += last;
            }
            let m = n - s.us(1, last - 1);
            b[p + 2] = (m >> 8) as u8;
            b[p + 3] = m as u8;
            what = format!("Huffman segment length {} instead of {}", m, n);
        }
        35 => {
            // a table segment whose length goes beyond its last table
            let dht = s.chance(1, 2);
            let ps = find(&b, if dht { 0xC4 } else { 0xDB });
            let p = *s.pick(&ps);
            let n = usize::from(b[p + 2]) << 8 | usize::from(b[p + 3]);
            // a marker follows, 0xFF is neither a Huffman nor a quantisation table destination
            let m = n + if s.chance(1, 2) { s.us(1, 20) } else { s.us(1, 1000) };
            b[p + 2] = (m >> 8) as u8;
            b[p + 3] = m as u8;
            what = format!("{} segment length {} instead of {}", if dht { "Huffman" } else { "quantisation" }, m, n);
        }
        36 => {
            // DC tables have symbols up to 15
            let at = *s.pick(&l.segs);
            let n = s.us(1, 12);
            let mut q = vec![s.below(4) as u8];
            let mut t = [0u8; 16];
            t[s.us(3, 15)] = n as u8;
            q.extend(t);
            let bad = s.us(0, n - 1);
            q.extend((0..n).map(|i| i as u8));
            q[17 + bad] = s.us(16, 255) as u8;
            let mut x = vec![];
            seg(&mut x, 0, 0xC4, &q);
            b.splice(at..at, x);
            what = format!("DC Huffman table with symbol {}", q[17 + bad]);
        }
        37 => {
            // more than 256 symbols
            let at = *s.pick(&l.segs);
            let n = s.us(257, 700);
            let mut q = vec![0x10 | s.below(4) as u8];
            let mut t = [0u8; 16];
            let (mut left, mut k) = (n, 15);
            while left > 0 {
                let m = left.min(s.us(100, 255));
                t[k] = m as u8;
                left -= m;
                k -= 1;
            }
            q.extend(t);
            q.extend((0..n).map(|i| i as u8));
            let mut x = vec![];
            seg(&mut x, 0, 0xC4, &q);
            b.splice(at..at, x);
            what = format!("Huffman table with {} symbols", n);
        }
        38 => {
            // AC coefficients together with DC coefficients, or of several components
            let at = walk(&b).iter().filter(|x| x.1 == 0xDA).map(|x| x.0).collect::<Vec<_>>();
            let dc: Vec<usize> = at.iter().copied().filter(|p| b[p + 5 + 2 * usize::from(b[p + 4])] == 0).collect();
            headers_too = false;
            if !o.progressive || dc.is_empty() {
                b.truncate(sos);
                what = "no scan".into();
            } else {
                let p = *s.pick(&dc);
                let k = p + 5 + 2 * usize::from(b[p + 4]);
                b[k + 1] = s.us(1, 63) as u8;
                if b[p + 4] > 1 && s.chance(1, 2) {
                    b[k] = s.us(1, usize::from(b[k + 1])) as u8;
                }
                what = format!("progressive scan of {} components and coefficients {} to {}", b[p + 4], b[k], b[k + 1]);
            }
        }
        39 => {
            // a file without any scan
            b.truncate(sos);
            if s.chance(2, 3) {
                b.extend([0xFF, 0xD9]);
            }
            what = "no scan".into();
        }
        40 | 41 => {
            // a segment between the scans which would be refused in front of them
            headers_too = false;
            let all = walk(&b);
            let last = all.iter().filter(|x| x.1 == 0xDA).last().unwrap().0;
            let fits: Vec<usize> =
                all.iter().filter(|x| x.0 > sos && x.0 <= last && matches!(x.1, 0xDA | 0xC4 | 0xDB | 0xDD | 0xE0..=0xEF | 0xFE)).map(|x| x.0).collect();
            let at = *s.pick(&fits);
            let mut x = vec![];
            match s.below(7) {
                0 => {
                    let end = sof + 2 + (usize::from(b[sof + 2]) << 8 | usize::from(b[sof + 3]));
                    x = b[sof..end].to_vec();
                    if s.chance(1, 3) {
                        x[1] = 0xC0;
                    }
                }
                1 => {
                    let h = (img.h as u16).to_be_bytes();
                    seg(&mut x, 0, *s.pick(&[0xCCu8, 0xDC]), &h);
                }
                2 => x.extend([0xFF, *s.pick(&[0xE0u8, 0xE5, 0xEE, 0xFE, 0xDB, 0xC4, 0xDD]), 0, s.below(2) as u8]),
                3 => {
                    let n = *s.pick(&[2u8, 3, 5, 6, 20]);
                    x.extend([0xFF, 0xDD, 0, n]);
                    x.extend(vec![0; usize::from(n) - 2]);
                }
                4 => {
                    let mut q = vec![*s.pick(&[0u8, 1, 0x10, 0x13])];
                    let mut t = [0u8; 16];
                    let k = s.us(0, 5);
                    t[k] = (2u8 << k) + s.us(1, 3) as u8;
                    q.extend(t);
                    q.extend((0..t[k]).map(|x| x % 12));
                    seg(&mut x, 0, 0xC4, &q);
                }
                5 => {
                    let mut q = vec![*s.pick(&[0x04u8, 0x0F, 0x14, 0x20, 0xF0])];
                    q.extend([1u8; 128]);
                    seg(&mut x, 0, 0xDB, &q);
                }
                _ => {
                    let mut q = vec![*s.pick(&[0x04u8, 0x0F, 0x14, 0x20, 0xF0])];
                    q.extend([0u8; 16]);
                    q[4] = 2;
                    q.extend([0, 1]);
                    seg(&mut x, 0, 0xC4, &q);
                }
            }
            what = format!("between two scans, segment {:02x?}", &x[..x.len().min(24)]);
            b.splice(at..at, x);
        }
        42..=45 => {
            // a bad scan header after the first scan
            let all: Vec<usize> = walk(&b).iter().filter(|x| x.1 == 0xDA && (x.0 > sos || class > 43)).map(|x| x.0).collect();
            let p = *s.pick(&all);
            headers_too = p == sos;
            let n = usize::from(b[p + 4]);
            match if class > 43 { 5 } else { s.below(5) } {
                5 => {
                    let k = p + 5 + 2 * n;
                    match s.below(5) {
                        0 => b[k + 1] = s.us(64, 255) as u8,
                        1 => b[k] = s.us(64, 255) as u8,
                        2 => {
                            b[k] = s.us(1, 63) as u8;
                            b[k + 1] = s.us(0, usize::from(b[k]) - 1) as u8;
                        }
                        3 => {
                            b[k] += 64 * s.us(1, 3) as u8;
                            b[k + 1] += 64 * s.us(0, 3) as u8;
                        }
                        // refinement of another bit than the next
                        _ => {
                            let al = b[k + 2] & 15;
                            let ah = loop {
                                let ah = s.us(1, 13) as u8;
                                if ah != al + 1 {
                                    break ah;
                                }
                            };
                            b[k + 2] = ah << 4 | al;
                        }
                    }
                }
                0 => {
                    b[p + 4] = *s.pick(&[0u8, 4, 5, 17, 255]);
                    let keep = 6 + 2 * u16::from(b[p + 4]);
                    b[p + 2] = (keep >> 8) as u8;
                    b[p + 3] = keep as u8;
                }
                1 => b[p + 5 + 2 * s.us(0, n - 1)] = *s.pick(&[0u8, 4, 5, 100, 255]),
                2 if n > 1 => b[p + 7] = b[p + 5],
                3 => b[p + 7 + 2 * n] = *s.pick(&[0xE0u8, 0xF0, 0x0E, 0x0F, 0xEE]),
                _ => {
                    let d = s.us(1, 5) as u8;
                    b[p + 3] = if s.chance(1, 2) { b[p + 3] + d } else { b[p + 3] - d };
                }
            }
            what = format!("header {:02x?} of a {} scan", &b[p..p + 8 + 2 * n], if p > sos { "later" } else { "first" });
        }
        33 => {
            // a bit pattern that is no code, in the middle of the picture
            headers_too = false;
            o.dri = 0;
            o.dri_decoys = vec![];
            o.rst_fill = 0;
            (b, l) = encode_l(&img, &o);
            let sos = walk(&b).iter().find(|x| x.1 == 0xDA).map(|x| x.0).unwrap();
            let (a, z) = l.scans[0];
            let first = if o.progressive || img.mcuy < 2 { 0 } else { rows_len(&img, &o, img.mcuy - 1).min(z - a).saturating_sub(4) };
            let mut at = a + s.us(0, first);
            if at > a && b[at - 1] == 0xFF {
                at -= 1; // not inside a stuffed byte
            }
            if o.progressive {
                b.truncate(sos);
            } else {
                b.splice(at..z, std::iter::repeat([0xFF, 0]).take(40).flatten());
            }
            what = format!("entropy-coded data turns into no Huffman code after {} bytes", at - a);
        }
        _ => {
            // wrong or duplicate component ids in the frame
            let k = s.us(0, img.comps.len() - 1);
            let mut ids = vec![0u8, 4, 9, 200, 255];
            if !gray {
                ids.push(((k + 1) % 3 + 1) as u8); // that of another component
            }
            b[sof + 10 + 3 * k] = *s.pick(&ids);
            what = format!("frame component {} has id {}", k, b[sof + 10 + 3 * k]);
        }
    }
    Broken { img, o, b, what, headers_too }
}

fn c16(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let class = s.below(CLASSES);
    let Broken { img, o, b, what, headers_too } = broken(s, class);
    c.desc = format!("{}: {}", what, desc(&img, &o));
    c.key = gen::hash(&b);
    c.nontrivial = true;
    c.label(format!("class {:02}", class));
    let op = O::new().scans(1000).cs(*s.pick(&COLORS)).uns(s.below(4) != 1).maxw(2000).maxh(2000);
    let v = variant(s);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Decode(i), Op::New(op), Op::Headers(i)];
    if let Some(x) = e.call(v, &r, &mut c) {
        if !matches!(x[1].res, Res::Err(_)) {
            c.fail(format!("{}: decode gives {}", what, x[1].res.short()));
        }
        if headers_too && !matches!(x[3].res, Res::Err(_)) {
            c.fail(format!("{}: read_headers gives {}", what, x[3].res.short()));
        }
    }
    c
}

// ------------------------------------------------------------------- C21

/// The kind of an error, as the server reports it in front of its message.
fn kind(m: &str) -> &str {
    m.split_once('|').map_or("", |x| x.0)
}

/// What is wrong with a file is what the error says is wrong.
fn c21(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    const USED: [u64; 28] = [0, 0, 1, 1, 1, 1, 2, 3, 3, 4, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 18, 22, 28, 32, 34, 35, 36, 37];
    let class = if s.chance(1, 6) { s.us(40, 45) as u64 } else { *s.pick(&USED) };
    let Broken { img, o, b, what, headers_too } = broken(s, class);
    // one or several kinds which would be right
    let want: Vec<String> = match class {
        0 => vec![format!("IllegalMagicBytes({:04x})", u16::from(b[0]) << 8 | u16::from(b[1]))],
        1 => {
            match u8::from_str_radix(what.trim_start_matches("frame type "), 16).unwrap_or(0) {
                0xC1 => vec!["Unsupported(ExtendedSequentialHuffman)".into()],
                0xC3 => vec!["Unsupported(LosslessHuffman)".into()],
                0xC9 => vec!["Unsupported(ExtendedSequentialDctArithmetic)".into()],
                0xCA => vec!["Unsupported(ProgressiveDctArithmetic)".into()],
                0xCB => vec!["Unsupported(LosslessArithmetic)".into()],
                _ => vec![],
            }
        }
        2 | 4 | 22 => vec!["SofError".into()],
        3 => vec!["ZeroError".into()],
        // numbers above 3 are a fault of the frame header
        7 if what.rsplit(" ").next().map_or(true, |t| t.len() > 1 || t > "3") => vec![],
        6 | 7 | 13 | 14 => vec!["DqtError".into()],
        10 | 11 | 12 | 32 | 34 | 36 | 37 => vec!["HuffmanDecode".into()],
        35 if what.starts_with("Huffman") => vec!["HuffmanDecode".into()],
        35 => vec!["DqtError".into()],
        15 | 16 | 17 | 18 | 28 | 42..=45 => vec!["SosError".into()],
        _ => vec![],
    };
    c.desc = format!("{}: {}", what, desc(&img, &o));
    c.key = gen::hash(&b);
    c.nontrivial = !want.is_empty();
    c.label(format!("class {:02}", class));
    let op = O::new().scans(1000).cs(*s.pick(&COLORS)).uns(s.below(4) != 1).maxw(2000).maxh(2000);
    let v = variant(s);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Decode(i), Op::New(op.clone()), Op::Headers(i), Op::New(op), Op::File(i)];
    if let Some(x) = e.call(v, &r, &mut c) {
        for k in [1, 3, 5] {
            if k == 3 && !headers_too {
                continue;
            }
            match &x[k].res {
                Res::Err(m) if m.is_empty() => c.fail(format!("{}: an error without a message", what)),
                Res::Err(m) if !want.is_empty() && !want.iter().any(|w| w == kind(m)) => {
                    c.fail(format!("{}: reported as {}, not as {}", what, m, want[0]))
                }
                Res::Err(_) => {}
                r => c.fail(format!("{}: no error but {}", what, r.short())),
            }
        }
    }
    c
}

/// The error for an image beyond a limit names the side and the limit.
fn c21_limits(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, mut b, l) = any_valid(s, 60);
    let wide = s.chance(1, 2);
    let max = s.us(1, 65534);
    let side = s.us(max + 1, 65535);
    let p = l.sof + if wide { 7 } else { 5 };
    b[p] = (side >> 8) as u8;
    b[p + 1] = side as u8;
    c.desc = format!("{} {} limit {}: {}", if wide { "width" } else { "height" }, side, max, desc(&img, &o));
    c.key = gen::hash(&b);
    c.nontrivial = true;
    let op = if wide { O::new().maxw(max as u16).maxh(65535) } else { O::new().maxw(65535).maxh(max as u16) };
    let v = variant(s);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(op.clone()), Op::Decode(i), Op::New(op), Op::Headers(i)];
    if let Some(x) = e.call(v, &r, &mut c) {
        for k in [1, 3] {
            let Res::Err(m) = &x[k].res else {
                c.fail(format!("no error but {}", x[k].res.short()));
                continue;
            };
            let nums: Vec<&str> = m.split(|c: char| !c.is_ascii_digit()).collect();
            if !nums.contains(&side.to_string().as_str()) || !nums.contains(&max.to_string().as_str()) {
                c.fail(format!("side {} beyond limit {} is reported as {}", side, max, m));
            }
        }
    }
    c
}

// ------------------------------------------------------------------- C17

fn c17(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    // a random chain of builder calls against a model record
    let mut o = O::plain();
    let (mut cs, mut uns, mut th, mut mw, mut mh, mut sc, mut st) = (RGB, true, 4u32, 16384u16, 16384u16, 64u64, false);
    let n = s.us(0, 12);
    for _ in 0..n {
        match s.below(7) {
            0 => {
                cs = s.below(7) as u8;
                o = o.cs(cs);
            }
            1 => {
                uns = s.chance(1, 2);
                o = o.uns(uns);
            }
            2 => {
                th = *s.pick(&[1u32, 2, 3, 4, 8, 255, 256, 65536, u32::MAX]);
                o = o.threads(th);
            }
            3 => {
                mw = *s.pick(&[0u16, 1, 255, 256, 16384, 65535]);
                o = o.maxw(mw);
            }
            4 => {
                mh = *s.pick(&[0u16, 1, 255, 256, 16384, 65535]);
                o = o.maxh(mh);
            }
            5 => {
                sc = *s.pick(&[0u64, 1, 63, 64, 65, 255, 256, 65536, u64::from(u32::MAX) + 5]);
                o = o.scans(sc);
            }
            _ => {
                st = s.chance(1, 2);
                o = o.strict(st);
            }
        }
    }
    c.desc = format!("{:?}", o.0);
    c.key = gen::hash(c.desc.as_bytes());
    c.nontrivial = n > 0;
    let mut r = Req::new();
    r.ops = vec![Op::Getters(o)];
    if let Some(x) = e.call("default", &r, &mut c) {
        let mut want = vec![cs, u8::from(uns), u8::from(st)];
        want.extend(th.to_le_bytes());
        want.extend(mw.to_le_bytes());
        want.extend(mh.to_le_bytes());
        want.extend(sc.to_le_bytes());
        if x[0].res != Res::Pix(want.clone()) {
            c.fail(format!("getters report {:?}, set {:?}", x[0].res.pix(), want));
        }
    }
    c
}

/// Setters on the decoder, the options object and defaults all mean the same.
fn c17_effect(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 100);
    let cs = *s.pick(&COLORS);
    let t = *s.pick(&[1u32, 2, 3, 5, 9, 20]);
    let (lw, lh) = (*s.pick(&[40u16, 320]), *s.pick(&[40u16, 320]));
    let base = O::plain().scans(1000);
    let all = base.clone().cs(cs).threads(t).maxw(lw).maxh(lh);
    let mut rev = O(all.0.iter().rev().cloned().collect());
    rev = rev.strict(false);
    // overridden settings must not linger
    let over = O::plain().cs(CMYK).uns(false).maxw(1).maxh(1).scans(1).strict(true).threads(9).uns(true).strict(false).scans(1000).cs(cs).threads(t).maxw(lw).maxh(lh);
    // what the decoder was used for before its setters are called must not matter
    let first = if s.chance(1, 2) {
        let mut g = Image::new(s.us(1, 40), s.us(1, 40), 1, (1, 1));
        fill(s, &mut g, &Cfg::new(40));
        encode(&g, &Opts::default())
    } else {
        any_lenient(s, 40).2
    };
    let how = s.below(4);
    let mut r = Req::new();
    let i = r.buf(&b);
    let j = r.buf(&first);
    let used = match how {
        0 => Op::Headers(j),
        1 => Op::Missing("no-such-file.jpg".into()),
        2 => Op::File(j),
        _ => Op::Decode(j),
    };
    r.ops = vec![
        Op::New(all), Op::Decode(i),
        Op::New(rev), Op::Decode(i),
        Op::New(over), Op::Decode(i),
        Op::New(base.clone()), used.clone(), Op::SetCs(cs), Op::Limits(lw, lh), Op::Threads(u64::from(t)), Op::Decode(i),
        Op::New(base.clone().cs(YCCK)), Op::Threads(0), Op::Limits(3, 3), Op::SetCs(GRAY), used.clone(), Op::Threads(u64::from(t)), Op::Limits(lw, lh), Op::SetCs(cs), Op::Decode(i),
    ];
    let ends = [1, 3, 5, 11, 20];
    let rgba = s.chance(1, 3);
    if rgba {
        r.ops.push(Op::New(base.clone()));
        r.ops.push(used);
        r.ops.push(Op::Rgba);
        r.ops.push(Op::Decode(i));
        r.ops.push(Op::New(base.clone().cs(RGBA)));
        r.ops.push(Op::Decode(i));
    }
    c.desc = format!("{} -> {} threads {} limits {}x{}", desc(&img, &o), CS_NAMES[cs as usize], t, lw, lh);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        let fits = img.w <= usize::from(lw) && img.h <= usize::from(lh);
        c.label(if fits { "decodes" } else { "over the limit" });
        if x[1].res.is_ok() != fits {
            c.fail(format!("limits {}x{}: {}", lw, lh, x[1].res.short()));
        }
        for k in ends {
            if strip(&x[k]) != strip(&x[1]) {
                c.fail(format!("way {} of setting the same options: {} against {}{}", k, x[k].res.short(), x[1].res.short(), pixdiff(&x[k], &x[1])));
            }
            if x[k].spawned != x[1].spawned {
                c.fail(format!("{} threads asked for: way {} of setting that starts {} threads, another {}", t, k, x[k].spawned, x[1].spawned));
            }
        }
        if !matches!(x[13].res, Res::Err(_)) {
            c.fail("zero threads accepted");
        }
        if rgba && strip(&x[24]) != strip(&x[26]) {
            c.fail(format!("rgba() {} set_out_colorspace(RGBA) {}", x[24].res.short(), x[26].res.short()));
        }
    }
    c
}

/// Decoder::set_num_threads: zero and what does not fit are errors and change nothing.
fn c17_threads(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_valid(s, 40);
    let bad = *s.pick(&[0u64, 1 << 32, (1 << 32) + 1, u64::MAX]);
    let mut r = Req::new();
    let i = r.buf(&b);
    r.ops = vec![Op::New(O::plain().scans(1000).threads(2)), Op::Decode(i), Op::Threads(bad), Op::Decode(i)];
    c.desc = format!("set_num_threads({}) then {}", bad, desc(&img, &o));
    c.key = gen::hash(&b) ^ bad;
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        if !matches!(x[2].res, Res::Err(_)) {
            c.fail(format!("set_num_threads({}) = {}", bad, x[2].res.short()));
        }
        if !x[1].res.is_ok() || strip(&x[1]) != strip(&x[3]) {
            c.fail(format!("decode before {} and after {}", x[1].res.short(), x[3].res.short()));
        }
    }
    c
}

// ------------------------------------------------------------------- C18

/// builds with AddressSanitizer, AVX2 and SSE
fn asan(s: &mut Src) -> &'static str {
    if s.chance(1, 4) { "asansse" } else { "asan" }
}

/// Unoptimised builds, where an aligned load or store is one, with an
/// allocator that aligns to what is asked for and no more.
fn c18_align(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let v = if s.chance(1, 3) { "debugsse" } else { "debug" };
    let (b, d) = match s.below(8) {
        0 => hostile(s, 40),
        1 => wild(s),
        _ => {
            let (img, o, b, _) = any_lenient(s, 70);
            (b, desc(&img, &o))
        }
    };
    let cs = *s.pick(&COLORS);
    c.desc = format!("[{}] {} -> {}", v, d, CS_NAMES[cs as usize]);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = true;
    if let Some(r) = e.decode(v, O::new().cs(cs).uns(true).scans(1000).maxw(320).maxh(320), &b, &mut c) {
        c.label(if r.res.is_ok() { "decodes" } else { "refused" });
    }
    c
}

fn c18_valid(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 150);
    let cs = *s.pick(&COLORS);
    let t = *s.pick(&[1u32, 1, 3]);
    let v = asan(s);
    c.desc = format!("[asan] {} -> {}", desc(&img, &o), CS_NAMES[cs as usize]);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = nonflat(&img);
    must(e, v, &O::plain().cs(cs).uns(true).threads(t).scans(1000), &b, "valid image", &mut c);
    c
}

fn c18_sizes(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let i = s.below(48 * 48) as usize;
    let (w, h) = (i % 48 + 1, i / 48 + 1);
    c.desc = format!("[asan] {}x{} in all samplings and colorspaces", w, h);
    c.key = i as u64;
    c.nontrivial = true;
    for k in 0..5 {
        let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
        fill(s, &mut img, &Cfg::new(48));
        let mut o = Opts::default();
        if s.chance(1, 3) {
            o.progressive = true;
            o.scans = script(s, img.comps.len());
        }
        let b = encode(&img, &o);
        for cs in COLORS {
            must(e, "asan", &O::new().cs(cs).scans(1000), &b, "valid image", &mut c);
            if k == s.below(5) as usize {
                must(e, "asansse", &O::new().cs(cs).scans(1000), &b, "valid image", &mut c);
            }
        }
    }
    c
}

fn c18_hostile(s: &mut Src, e: &mut Env) -> Case {
    let v = asan(s);
    c07_in(s, e, v)
}

fn c18_wild(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = wild(s);
    let cs = *s.pick(&COLORS);
    let v = asan(s);
    c.desc = format!("[{}] {}", v, d);
    c.key = gen::hash(&b);
    c.nontrivial = true;
    e.decode(v, O::new().cs(cs).scans(1000), &b, &mut c);
    c
}

// ------------------------------------------------------------------- C19

pub fn mem_bound(w: usize, h: usize, len: usize) -> u64 {
    let r = |x: usize| (x + 63) / 32 * 32;
    (400_000 + 4 * len + 32 * r(w) * r(h)) as u64
}

fn c19_valid(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let k = s.below(5) as usize;
    let (w, h) = match s.below(4) {
        0 => (s.us(1, 1200), s.us(1, 1200)),
        1 => (s.us(1, 65535), s.us(1, 8)),
        2 => (s.us(1, 8), s.us(1, 65535)),
        _ => (s.us(1, 300), s.us(1, 300)),
    };
    let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
    if w * h < 100_000 {
        fill(s, &mut img, &Cfg::new(200));
    }
    let mut o = Opts::default();
    if s.chance(1, 2) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
    }
    let b = encode(&img, &o);
    let cs = *s.pick(&COLORS);
    let t = *s.pick(&[1u32, 4, 8]);
    c.desc = format!("{} -> {} threads {}", desc(&img, &o), CS_NAMES[cs as usize], t);
    c.key = gen::hash(&b) ^ u64::from(cs);
    c.nontrivial = w * h > 5000;
    if let Some((_, r)) = must(e, "default", &O::plain().cs(cs).threads(t).scans(1000).maxw(65535).maxh(65535), &b, "valid image", &mut c) {
        let m = mem_bound(w, h, b.len());
        if r.peak > m {
            c.fail(format!("{} bytes allocated at once for {} pixels and {} bytes of input (bound {})", r.peak, w * h, b.len(), m));
        }
        c.label(format!("peak/bound {:.1}", r.peak as f64 / m as f64));
    }
    c
}

fn c19_hostile(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (b, d) = hostile(s, 96);
    let o = O::new().cs(*s.pick(&COLORS)).maxw(700).maxh(700).scans(1000);
    c.desc = format!("{:?} {}", o.0, d);
    c.key = gen::hash(&b);
    if let Some(r) = e.decode("default", o, &b, &mut c) {
        c.nontrivial = r.info.is_some();
        let (w, h) = (usize::from(r.w).min(700), usize::from(r.h).min(700));
        let m = mem_bound(w, h, b.len());
        if r.peak > m {
            c.fail(format!("{} bytes allocated at once for a {}x{} image and {} bytes of input (bound {})", r.peak, r.w, r.h, b.len(), m));
        }
    }
    c
}

/// repeated use must not accumulate: the hundredth decode needs what the first did
fn c19_repeat(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    let (img, o, b, _) = any_lenient(s, 100);
    let (mut h, _) = hostile(s, 60);
    // bytes after the image, so that an input kept by mistake weighs something
    h.resize(h.len() + s.below(4) as usize * 3000, 0);
    let mut r = Req::new();
    let i = r.buf(&b);
    let j = r.buf(&h);
    let between = s.below(6);
    let mid = match between {
        0 | 1 => Op::Decode(j),
        2 | 3 => Op::File(j),
        4 => Op::Headers(j),
        _ => Op::Missing("/nonexistent/zune-verif.jpg".into()),
    };
    let main = if s.chance(1, 4) { Op::File(i) } else { Op::Decode(i) };
    r.ops = vec![Op::New(O::new().scans(1000).maxw(320).maxh(320)), main.clone()];
    for _ in 0..30 {
        r.ops.push(mid.clone());
        r.ops.push(main.clone());
    }
    r.ops.push(Op::Settle);
    c.desc = format!("31 decodes of {} with {} between", desc(&img, &o), ["failed decodes", "failed decodes", "failed decode_file calls", "failed decode_file calls", "header reads", "missing files"][between as usize]);
    c.key = gen::hash(&b);
    c.nontrivial = true;
    if let Some(x) = e.call("default", &r, &mut c) {
        let m = mem_bound(img.w, img.h, b.len());
        let left = x.last().unwrap().res.pix().map_or(1, |p| p[0]);
        if left > 1 {
            c.fail(format!("{} worker threads are left 20 s after the last decode", left - 1));
        }
        for k in (1..x.len() - 1).step_by(2) {
            if x[k].peak > m {
                c.fail(format!("decode number {} allocates {} bytes (bound {})", k, x[k].peak, m));
            }
            if strip(&x[k]) != strip(&x[1]) {
                c.fail(format!("decode number {} gives {}", k, x[k].res.short()));
            }
        }
        // worker threads may still be going away, hence the allowance
        let grown = x.last().unwrap().live as i64 - x[3].live as i64;
        if grown > 60_000 {
            c.fail(format!("{} bytes more are in use after 30 decodes than after two", grown));
        }
    }
    c
}

// ------------------------------------------------------------------- C20

/// The same thing in two sizes, the second `GROW` times the first.
const GROW: usize = 8;

fn c20(s: &mut Src, e: &mut Env) -> Case {
    let mut c = Case::default();
    const WHAT: [&str; 18] = [
        "comments", "application segments", "Huffman tables", "quantisation tables", "restart definitions", "stray bytes", "fill bytes",
        "bytes after the image", "unknown segments", "rows", "columns", "restart intervals", "scans", "bytes in a scan", "restart markers in a scan",
        "fill bytes in a scan", "stuffed bytes in a scan", "end of bands in a scan",
    ];
    let fam = s.below(WHAT.len() as u64) as usize;
    let seed = s.seed();
    let cs = *s.pick(&COLORS);
    let headers = fam < 9 && s.chance(1, 4);
    let file = !headers && s.chance(1, 6);
    let mut pair: Vec<Vec<u8>> = vec![];
    let k = s.below(5) as usize;
    let prog = s.chance(1, 2);
    let dri = if s.chance(1, 3) { s.us(1, 9) } else { 0 };
    let (a, b) = (s.us(1, 40), s.us(1, 40));
    let between = s.chance(1, 3);
    let place = s.seed();
    let fine = s.chance(1, 2);
    for f in [1, GROW] {
        let (w, h) = match fam {
            9 => (a + 300, 500 * f),
            10 => (500 * f, a + 300),
            11 => (200 + a, 300 * f),
            _ => (a, b),
        };
        let mut img = if k == 4 { Image::new(w, h, 1, (1, 1)) } else { Image::new(w, h, 3, SAMPS[k]) };
        let mut g = Src::fresh(seed);
        fill(&mut g, &mut img, &Cfg { busy: true, ..Cfg::new(40) });
        let mut o = Opts { dri, ..Opts::default() };
        if fam == 11 {
            o.dri = 1;
        }
        let n = img.comps.len();
        if prog || fam == 12 {
            o.progressive = true;
            o.scans = script(&mut g, n);
        }
        if fam == 12 {
            // many scans of little content: single coefficients, bit by bit
            o.scans = vec![Scan { comps: (0..n).collect(), ss: 0, se: 0, ah: 0, al: 0 }];
            let top = if fine { 9 } else { 4 };
            'all: for ci in 0..n {
                for z in 1..64 {
                    for al in (0..=top).rev() {
                        if o.scans.len() > 20 * f {
                            break 'all;
                        }
                        o.scans.push(Scan { comps: vec![ci], ss: z, se: z, ah: if al == top { 0 } else { al + 1 }, al });
                    }
                }
            }
        }
        let (mut b, l) = encode_l(&img, &o);
        let mut t = Src::fresh(place);
        let at = if between && l.scans.len() > 1 { l.scans[t.below(l.scans.len() as u64 - 1) as usize].1 } else { *t.pick(&l.segs) };
        let mut x: Vec<u8> = vec![];
        let mut put = |m: u8, body: &[u8]| {
            x.extend([0xFF, m, ((body.len() + 2) >> 8) as u8, (body.len() + 2) as u8]);
            x.extend(body);
        };
        let mut at = at;
        match fam {
            0 => (0..40_000 * f).for_each(|_| put(0xFE, b"ab")),
            1 => (0..6000 * f).for_each(|i| put(0xE0 + (i % 16) as u8, &[0xD9; 100])),
            2 => {
                let mut body = vec![0x13];
                body.extend([0u8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
                body.extend(1..16u8);
                (0..1500 * f).for_each(|_| put(0xC4, &body));
                at = 2;
            }
            3 => {
                let mut body = vec![3];
                body.extend([7; 64]);
                (0..10_000 * f).for_each(|_| put(0xDB, &body));
                at = 2;
            }
            4 => {
                (0..50_000 * f).for_each(|_| put(0xDD, &[0, 0]));
                at = 2;
            }
            5 => x.resize(300_000 * f, 0x21),
            6 => x.resize(300_000 * f, 0xFF),
            7 => {
                at = b.len();
                x = (0..1_000_000 * f).map(|i| [0xFF, 0xD8, 0xFF, 0xDA, 0, 12, 1, 0xFF, 0xD0][i % 9]).collect();
            }
            8 => (0..40_000 * f).for_each(|_| put(0xF0, b"abc")),
            13..=17 => {
                at = l.scans[t.below(l.scans.len() as u64) as usize].1;
                let unit: &[u8] = match fam {
                    13 => &[0x5A, 0x11, 0xFE],
                    14 => &[0xFF, 0xD0, 0x13, 0xFF, 0xD1],
                    15 => &[0xFF],
                    16 => &[0xFF, 0],
                    _ => &[0],
                };
                x = unit.iter().copied().cycle().take(300_000 * f).collect();
            }
            _ => (),
        }
        b.splice(at..at, x);
        pair.push(b);
    }
    let mut r = Req::new();
    let (i, j) = (r.buf(&pair[0]), r.buf(&pair[1]));
    let op = |n| if headers { Op::Headers(n) } else if file { Op::File(n) } else { Op::Decode(n) };
    r.ops.push(Op::New(O::new().cs(cs).threads(2).scans(100_000).maxw(65535).maxh(65535)));
    r.ops.extend([op(i), op(i), op(i), op(j), op(j)]);
    c.desc = format!("{} of {} and of {} times as many {} ({} and {} bytes)", opname(&r.ops[1]), if prog { "progressive image" } else { "baseline image" }, GROW, WHAT[fam], pair[0].len(), pair[1].len());
    c.label(WHAT[fam]);
    c.key = gen::hash(&pair[1]) ^ u64::from(cs);
    let mut tries = vec![];
    // time is measured, so a suspicion has to be confirmed
    for _ in 0..4 {
        match e.call("default", &r, &mut c) {
            Some(x) => {
                let small = x[1..4].iter().map(|y| y.cpu).min().unwrap();
                let big = x[4..6].iter().map(|y| y.cpu).min().unwrap();
                c.nontrivial = big > 3000;
                if big <= 3 * GROW as u64 * small + 60_000 {
                    return c;
                }
                tries.push(format!("{} us and {} us", small, big));
            }
            None => return c,
        }
    }
    c.fail(format!("time grows faster than the input and the image: {}", tries.join(", ")));
    c
}

// ------------------------------------------------------------------- list

pub fn props() -> Vec<Prop> {
    let ph = |name, f: Fun, q, t| Phase { name, f, n: (q, t), enumerated: false };
    let en = |name, f: Fun, q, t| Phase { name, f, n: (q, t), enumerated: true };
    const V3: &[&str] = &["default", "scalar", "sse"];
    let _ = judge;
    let _ = reference;
    vec![
        Prop {
            id: "C06",
            rule: "A case decodes one file with one thread, with other thread counts, again, and in a process whose fresh memory holds other bytes; or runs several decoders at once. All results must agree. Non-trivial: decodes and spans several MCU rows. Distinct: different file bytes.",
            phases: vec![ph("threads", c06, 20_000, 400_000), ph("concurrent", c06_par, 5_000, 100_000), ph("many-threads", c06_many, 60, 2_000), ph("any-count", c06_any_count, 60, 2_000)],
            final_check: None,
            assumptions: &["thread schedules are those the operating system produced during the run"],
            variants: &["default"],
        },
        Prop {
            id: "C07",
            rule: "A case is a generated file damaged by one to six structure-aware or blind mutations, raw bytes, or legal syntax with absurd coefficients, given to read_headers and decode_buffer. Non-trivial: decoding got past the frame header. Distinct: different bytes.",
            phases: vec![
                ph("default", c07_default, 120_000, 4_000_000),
                ph("scalar", c07_scalar, 30_000, 800_000),
                ph("checked", c07_checked, 60_000, 1_500_000),
                ph("valid-checked", c07_valid_checked, 20_000, 400_000),
                ph("wild", c07_wild, 10_000, 300_000),
                ph("stretched", c07_stretched, 1_500, 60_000),
            ],
            final_check: None,
            assumptions: &[],
            variants: &["default", "scalar", "sse", "checked"],
        },
        Prop {
            id: "C08",
            rule: "A case decodes a file and compares output length, info(), width(), height() and output colorspace with what the file says. Non-trivial: a side is no multiple of 8 (valid files), decoding succeeded (damaged files). Distinct: different file bytes.",
            phases: vec![
                ph("valid", c08_valid, 25_000, 500_000),
                en("sizes", c08_sizes, 72 * 72, 72 * 72),
                en("edges", c08_edges, EDGES.len() as u64 * 20, EDGES.len() as u64 * 20),
                ph("damaged", c08_hostile, 50_000, 1_500_000),
            ],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C09",
            rule: "A case sets size or scan limits and offers an image near, at or beyond them. Non-trivial: dimension or scan count within one of the limit. Distinct: different limits and file.",
            phases: vec![
                ph("dimensions", c09_dims, 25_000, 400_000),
                ph("defaults", c09_default, 4_000, 40_000),
                ph("scans", c09_scans, 20_000, 400_000),
                ph("many-scans", c09_many_scans, 1_000, 20_000),
                ph("damaged", c09_hostile, 40_000, 1_000_000),
            ],
            final_check: None,
            assumptions: &["allocation is what passes through the Rust global allocator"],
            variants: V3,
        },
        Prop {
            id: "C11",
            rule: "A case is a history of three to twelve operations on one decoder (decodes of valid, damaged and cut files, header reads, setters); every result must be that of a fresh decoder with the same options. Non-trivial: at least two images were given to the decoder. Distinct: different files.",
            phases: vec![ph("histories", c11, 40_000, 1_000_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C12",
            rule: "A case runs read_headers, decode_buffer and decode_file on one file (valid or damaged) and relates the results. Non-trivial: a frame header was found. Distinct: different bytes.",
            phases: vec![ph("relations", c12, 30_000, 700_000), ph("large-files", c12_large, 600, 10_000), ph("missing-file", c12_missing, 1_000, 10_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C14",
            rule: "A case decodes one file in strict and in lenient mode: well-formed, with stray bytes, grayscale with sampling factors, or damaged. Non-trivial: a non-zero coefficient, or for damaged files that strict mode accepts. Distinct: different bytes.",
            phases: vec![ph("modes", c14, 50_000, 1_200_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C15",
            rule: "A case cuts a baseline file inside its entropy-coded data, cuts any file inside its headers, or appends bytes after its end. Non-trivial: some but not all MCU rows lie in front of the cut; cut inside headers; appended to a non-flat image. Distinct: different bytes.",
            phases: vec![ph("cut", c15_cut, 30_000, 700_000), ph("tail", c15_tail, 20_000, 400_000), ph("headers", c15_head, 20_000, 300_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C16",
            rule: "A case is a valid file turned into one of forty-six classes of invalid or unsupported file; decoding (and, for header faults, reading headers) must give an error. Every case is non-trivial. Distinct: different bytes.",
            phases: vec![ph("classes", c16, 60_000, 1_500_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C21",
            rule: "A case is a valid file with one fault, or with a side beyond a limit; the kind of the error (or the numbers in its message) must be that of the fault. Non-trivial: the fault has one kind. Distinct: different bytes.",
            phases: vec![ph("kinds", c21, 30_000, 700_000), ph("limits", c21_limits, 5_000, 60_000)],
            final_check: None,
            assumptions: &[],
            variants: V3,
        },
        Prop {
            id: "C17",
            rule: "A case is a chain of option setters compared with a model record, or the same options set in five ways and their effect on a decode. Non-trivial: at least one setter. Distinct: different chain or file.",
            phases: vec![ph("getters", c17, 20_000, 400_000), ph("effects", c17_effect, 15_000, 300_000), ph("threads", c17_threads, 2_000, 20_000)],
            final_check: None,
            assumptions: &[],
            variants: &["default"],
        },
        Prop {
            id: "C18",
            rule: "A case runs one valid, damaged or absurd file through a build with AddressSanitizer, use_unsafe on. Non-trivial: a non-zero coefficient, or the frame header was reached. Distinct: different bytes.",
            phases: vec![
                ph("valid", c18_valid, 30_000, 800_000),
                en("sizes", c18_sizes, 48 * 48, 48 * 48),
                ph("damaged", c18_hostile, 60_000, 2_000_000),
                ph("wild", c18_wild, 5_000, 150_000),
                ph("stretched", c18_stretched, 600, 20_000),
                ph("align", c18_align, 8_000, 200_000),
            ],
            final_check: None,
            assumptions: &["AddressSanitizer sees heap and stack accesses of compiled code, not of inline assembly"],
            variants: &["asan", "asansse", "debug", "debugsse"],
        },
        Prop {
            id: "C19",
            rule: "A case decodes one file and compares the peak of live heap bytes with a bound linear in pixels and input size. Non-trivial: more than 5000 pixels, or a damaged file whose frame header was reached. Distinct: different file bytes.",
            phases: vec![ph("valid", c19_valid, 8_000, 150_000), ph("damaged", c19_hostile, 60_000, 1_500_000), ph("repeat", c19_repeat, 1_500, 30_000)],
            final_check: None,
            assumptions: &["allocation is what passes through the Rust global allocator"],
            variants: &["default"],
        },
        Prop {
            id: "C20",
            rule: "A case decodes (or reads the headers of) two files that differ in how much of one thing they contain: segments of one kind, stray or fill bytes, rows, columns, restart intervals, scans, surplus entropy data. Eight times as much may take at most 24 times the CPU time plus 60 ms, the best of several runs counting. Non-trivial: the larger takes more than 3 ms. Distinct: different bytes.",
            phases: vec![ph("growth", c20, 400, 12_000)],
            final_check: None,
            assumptions: &["CPU time as accounted by the operating system"],
            variants: &["default"],
        },
    ]
}
