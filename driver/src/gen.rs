//! Generators.  Every choice that matters is a draw from the tape; bulk block
//! content comes from an `Rng` whose seed is itself a draw.

use crate::enc::*;
use crate::tape::{Rng, Src};

pub const SAMPS: [(usize, usize); 4] = [(1, 1), (2, 1), (1, 2), (2, 2)];

/// Image side: mostly small, biased to block and MCU boundaries.
pub fn side(s: &mut Src, max: usize) -> usize {
    let m = max;
    let v = match s.below(8) {
        0 => s.us(1, 8),
        1 => s.us(1, 17),
        2 | 3 => s.us(1, 48),
        4 => 16 * s.us(1, 5) + s.us(0, 3) - 1,
        5 => 8 * s.us(1, 9) + s.us(0, 2) - 1,
        6 => s.us(1, 100),
        _ => s.us(1, 200),
    };
    v.clamp(1, m)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Any,
    Gray,
    Color,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_side: usize,
    pub kind: Kind,
    pub samp: Option<usize>,
    /// keep to blocks with integral inverse transforms
    pub exact_only: bool,
    /// forbid flat content
    pub busy: bool,
}

impl Cfg {
    pub fn new(max_side: usize) -> Cfg {
        Cfg { max_side, kind: Kind::Any, samp: None, exact_only: false, busy: false }
    }
}

pub fn skeleton(s: &mut Src, cfg: &Cfg) -> Image {
    let gray = match cfg.kind {
        Kind::Any => s.below(5) == 0,
        Kind::Gray => true,
        Kind::Color => false,
    };
    let samp = if gray { (1, 1) } else { SAMPS[cfg.samp.unwrap_or_else(|| s.below(4) as usize)] };
    let w = side(s, cfg.max_side);
    let mut h = side(s, cfg.max_side);
    if w * h > 12_000 {
        h = (12_000 / w).max(1);
    }
    let mut img = Image::new(w, h, if gray { 1 } else { 3 }, samp);
    tables(s, &mut img);
    img
}

/// Quantisation tables and their assignment.
pub fn tables(s: &mut Src, img: &mut Image) {
    let mode = s.below(5);
    let seed = s.seed();
    let mut r = Rng::new(seed);
    for t in 0..4 {
        for i in 0..64 {
            img.qt[t][i] = match mode {
                0 => 1,
                1 => [1, 2, 3, 4][t],
                2 => r.range(1, 16) as u8,
                3 => (1 + (i / 8 + i % 8) * (2 + t) + r.below(4) as usize).min(255) as u8,
                _ => r.range(1, 255) as u8,
            };
        }
    }
    let ids = match s.below(6) {
        0 => [0, 0, 0],
        1 | 2 => [0, 1, 1],
        3 => [0, 1, 2],
        4 => [3, 2, 1],
        _ => [r.below(4) as usize, r.below(4) as usize, r.below(4) as usize],
    };
    for (c, i) in img.comps.iter_mut().zip(ids) {
        c.tq = i;
    }
}

fn gcd8(q: i32) -> i32 {
    let mut g = 1;
    while g < 8 && q % (g * 2) == 0 {
        g *= 2;
    }
    g
}

/// value for position `i` (natural order) with |value*q| <= lim and |value| <= cap
fn lim(v: i32, q: i32, limv: i32, cap: i32) -> i16 {
    let m = (limv / q).min(cap);
    v.clamp(-m, m) as i16
}

pub const MODES: usize = 10;

fn block(mode: usize, r: &mut Rng, q: &[u8; 64], b: &mut [i16; 64]) {
    let qv = |i: usize| i32::from(q[i]);
    *b = [0; 64];
    match mode {
        0 => {}
        1 | 2 => {
            // integral inverse transform
            let ps: &[usize] = if mode == 1 { &[0] } else { &[0, 4, 32, 36] };
            for &p in ps {
                if p != 0 && r.chance(1, 3) {
                    continue;
                }
                let st = 8 / gcd8(qv(p));
                // the step makes value*q a multiple of 8
                let top = 1016 / (qv(p) * st).max(1);
                let k = if top == 0 { 0 } else { r.range(-i64::from(top), i64::from(top)) as i32 };
                b[p] = (k * st).clamp(-1023, 1023) as i16;
                if i32::from(b[p]) * qv(p) % 8 != 0 {
                    b[p] = 0;
                }
            }
        }
        3 => b[0] = lim(r.range(-1023, 1023) as i32, qv(0), 1023, 1023),
        4 => {
            b[0] = lim(r.range(-600, 600) as i32, qv(0), 700, 1023);
            for _ in 0..r.range(1, 8) {
                let p = ZZ[(r.below(6) * r.below(11)).min(63) as usize];
                if p != 0 {
                    b[p] = lim(r.range(-9, 9) as i32, qv(p), 500, 1023);
                }
            }
        }
        5 => {
            b[0] = lim(r.range(-300, 300) as i32, qv(0), 700, 1023);
            let amp = [1, 3, 15, 60][r.below(4) as usize];
            for p in 1..64 {
                b[p] = lim(r.range(-amp, amp) as i32, qv(p), 100, 1023);
            }
        }
        6 => {
            let p = r.below(64) as usize;
            b[p] = lim(r.range(-1023, 1023) as i32, qv(p), 1020, 1023);
        }
        7 => {
            b[0] = lim(r.range(-1023, 1023) as i32, qv(0), 1020, 1023);
            for _ in 0..r.range(1, 6) {
                let p = r.below(64) as usize;
                let a = [31, 32, 33, 63, 64, 127, 128, 511, 512, 1023][r.below(10) as usize];
                let a = if r.chance(1, 2) { -a } else { a };
                b[p] = lim(a, qv(p), 1023, 1023);
            }
        }
        8 => {
            // long zero runs, and blocks that end at coefficient 63 without EOB
            let mut k = 1;
            while k < 64 {
                k += [14, 15, 16, 17, 30, 31, 32, 33, 47, 62][r.below(10) as usize];
                if k < 64 {
                    b[ZZ[k]] = lim([1, -1, 2, -3, 20][r.below(5) as usize], qv(ZZ[k]), 600, 1023);
                }
                k += 1;
            }
            if r.chance(1, 2) {
                b[63] = lim([1, -1, 5][r.below(3) as usize], qv(63), 600, 1023);
            }
            b[0] = lim(r.range(-200, 200) as i32, qv(0), 700, 1023);
        }
        _ => {
            // saturating: drives samples beyond 0 and 255
            b[0] = lim(r.range(-1023, 1023) as i32, qv(0), 1023, 1023);
            for _ in 0..3 {
                let p = ZZ[r.below(12) as usize];
                if p != 0 {
                    b[p] = lim(if r.chance(1, 2) { 900 } else { -900 }, qv(p), 1000, 1023);
                }
            }
        }
    }
}

pub fn fill(s: &mut Src, img: &mut Image, cfg: &Cfg) -> usize {
    let mode = if cfg.exact_only {
        if cfg.busy { s.us(1, 2) } else { s.us(0, 2) }
    } else if cfg.busy {
        1 + s.below(MODES as u64) as usize
    } else {
        s.below(MODES as u64 + 1) as usize
    };
    let seed = s.seed();
    // share of blocks that carry content
    let dens = 1 + s.below(8);
    let mut r = Rng::new(seed);
    for ci in 0..img.comps.len() {
        let q = img.qt[img.comps[ci].tq];
        for b in img.comps[ci].blocks.iter_mut() {
            if !r.chance(dens, 8) {
                continue;
            }
            let m = if mode == MODES { r.below(MODES as u64) as usize } else { mode };
            block(m, &mut r, &q, b);
        }
    }
    mode
}

pub fn image(s: &mut Src, cfg: &Cfg) -> (Image, usize) {
    let mut img = skeleton(s, cfg);
    let m = fill(s, &mut img, cfg);
    (img, m)
}

/// Encoder freedoms that must not matter (no restart intervals, no metadata).
pub fn coding(s: &mut Src, o: &mut Opts) {
    o.huff = match s.below(4) {
        0 => Huff::Std,
        1 => Huff::Opt,
        _ => Huff::Random(s.seed()),
    };
    let ids = [[0, 1, 1], [0, 0, 0], [1, 0, 0], [0, 1, 2], [3, 2, 1], [2, 3, 3]];
    o.dc_ids = *s.pick(&ids);
    o.ac_ids = *s.pick(&ids);
    o.dqt_joined = s.chance(1, 2);
    o.dht_joined = s.chance(1, 2);
    o.dht_before_sof = s.chance(1, 4);
    o.zero_pad = s.chance(1, 6);
    o.decoys = s.chance(1, 6);
    o.shared = s.chance(1, 4);
    // these two matter to progressive files only
    if s.chance(1, 4) {
        let k = s.us(2, 6);
        o.ids_scan = (0..k).map(|_| (*s.pick(&ids), *s.pick(&ids))).collect();
    }
    o.unused = match s.below(3) {
        0 => 0,
        1 => 1,
        _ => 2 + s.below(1 << 20),
    };
}

pub fn restart(s: &mut Src, img: &Image, o: &mut Opts) {
    let n = img.mcux * img.mcuy;
    o.dri = match s.below(6) {
        0 => 1,
        1 => s.us(1, 4),
        2 => img.mcux.max(1),
        3 => s.us(1, n.max(1)),
        4 => n,
        _ => s.us(1, 40),
    };
    o.dri_late = s.chance(1, 2);
    o.rst_fill = if s.chance(1, 6) { s.us(1, 3) } else { 0 };
    if s.chance(1, 8) {
        o.dri_decoys = (0..s.us(1, 3)).map(|_| s.us(0, n.max(1).min(65535))).collect();
    }
    if o.progressive && s.chance(1, 3) {
        let k = s.us(1, 4);
        o.dri_scan = (0..k).map(|_| if s.chance(1, 4) { 0 } else { s.us(1, n.max(1).min(60)) }).collect();
    }
}

/// A legal progressive scan script (T.81 G.1.1): for every component DC first,
/// then AC bands and refinements in any legal order.
pub fn script(s: &mut Src, nc: usize) -> Vec<Scan> {
    let mut out: Vec<Scan> = vec![];
    // point transform of DC
    let dc_al = if s.chance(1, 2) { s.us(1, 3) as u32 } else if s.chance(1, 8) { s.us(4, 13) as u32 } else { 0 };
    // grouping of components in the first DC scan(s)
    let groups: Vec<Vec<usize>> = if nc == 1 {
        vec![vec![0]]
    } else {
        match s.below(5) {
            0 | 1 => vec![vec![0, 1, 2]],
            2 => vec![vec![0], vec![1], vec![2]],
            3 => vec![vec![0], vec![1, 2]],
            _ => vec![vec![0, 1], vec![2]],
        }
    };
    // pending queues: each must stay in its own order, queues interleave freely
    let mut queues: Vec<Vec<Scan>> = vec![];
    // the chrominance may start late, after AC scans of other components
    let late = groups.len() > 1 && s.chance(1, 3);
    for g in &groups {
        let x = Scan { comps: g.clone(), ss: 0, se: 0, ah: 0, al: dc_al };
        if late {
            queues.push(vec![x]);
        } else {
            out.push(x);
        }
    }
    if dc_al > 0 {
        let g2: Vec<Vec<usize>> = if nc == 1 || s.chance(1, 2) {
            groups.clone()
        } else if s.chance(1, 2) {
            vec![(0..nc).collect()]
        } else {
            (0..nc).map(|c| vec![c]).collect()
        };
        for g in g2 {
            let mut q = vec![];
            for a in (0..dc_al).rev() {
                q.push(Scan { comps: g.clone(), ss: 0, se: 0, ah: a + 1, al: a });
            }
            queues.push(q);
        }
    }
    for c in 0..nc {
        // split 1..=63 into bands
        let nb = s.us(1, 4);
        let mut cuts: Vec<usize> = (1..nb).map(|_| s.us(2, 63)).collect();
        cuts.sort_unstable();
        cuts.dedup();
        let mut lo = 1;
        cuts.push(64);
        for cut in cuts {
            let al = if s.chance(1, 2) { s.us(1, 3) as u32 } else if s.chance(1, 12) { s.us(4, 13) as u32 } else { 0 };
            let mut q = vec![Scan { comps: vec![c], ss: lo, se: cut - 1, ah: 0, al }];
            for a in (0..al).rev() {
                q.push(Scan { comps: vec![c], ss: lo, se: cut - 1, ah: a + 1, al: a });
            }
            queues.push(q);
            lo = cut;
        }
    }
    // a component's first DC scan precedes all its others
    let ready = |out: &[Scan], x: &Scan| {
        (x.ss == 0 && x.ah == 0) || x.comps.iter().all(|c| out.iter().any(|y| y.ss == 0 && y.comps.contains(c)))
    };
    if !late && s.chance(1, 2) {
        // pass by pass, as common encoders do
        let mut any = true;
        while any {
            any = false;
            for q in queues.iter_mut() {
                if !q.is_empty() {
                    out.push(q.remove(0));
                    any = true;
                }
            }
        }
    } else {
        while !queues.is_empty() {
            let can: Vec<usize> = (0..queues.len()).filter(|&i| ready(&out, &queues[i][0])).collect();
            let i = *s.pick(&can);
            out.push(queues[i].remove(0));
            if queues[i].is_empty() {
                queues.remove(i);
            }
        }
    }
    out
}

pub fn desc(img: &Image, o: &Opts) -> String {
    format!(
        "{}x{} {} {}{}{} huff={:?} dc={:?} ac={:?}{}",
        img.w,
        img.h,
        if img.comps.len() == 1 { "gray".into() } else { format!("{}x{}", img.hmax, img.vmax) },
        if o.progressive { format!("progressive/{} scans", o.scans.len()) } else { "baseline".into() },
        if !o.dri_scan.is_empty() { format!(" dri={:?}", o.dri_scan) } else if o.dri > 0 { format!(" dri={}{}", o.dri, if o.dri_late { " late" } else { "" }) } else { String::new() },
        if o.rst_fill > 0 { format!(" rstfill={}", o.rst_fill) } else { String::new() },
        o.huff,
        o.dc_ids,
        o.ac_ids,
        if o.dht_before_sof { " dht<sof" } else { "" },
    ) + &if o.ids_scan.is_empty() || !o.progressive { String::new() } else { format!(" ids per scan={:?}", o.ids_scan) }
        + &if o.unused > 0 && o.progressive { format!(" unused={}", o.unused) } else { String::new() }
}

pub fn nonflat(img: &Image) -> bool {
    img.comps.iter().any(|c| c.blocks.iter().any(|b| b.iter().any(|&v| v != 0)))
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= u64::from(*x) << (8 * i);
        }
        h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}
