//! Structure-aware and blind mutations of JPEG files.
use crate::enc::*;
use crate::gen::*;
use crate::tape::{Rng, Src};
use crate::valid::metadata;

/// A valid file using any mixture of features.
pub fn any_valid(s: &mut Src, max_side: usize) -> (Image, Opts, Vec<u8>, Layout) {
    any_of(s, max_side, false)
}

/// The same, and grayscale images with sampling factors, which lenient mode accepts.
pub fn any_lenient(s: &mut Src, max_side: usize) -> (Image, Opts, Vec<u8>, Layout) {
    any_of(s, max_side, true)
}

fn any_of(s: &mut Src, max_side: usize, lenient: bool) -> (Image, Opts, Vec<u8>, Layout) {
    let (mut img, _) = image(s, &Cfg::new(max_side));
    if lenient && img.comps.len() == 1 && s.chance(1, 3) {
        let (h, v) = *s.pick(&[(2usize, 1usize), (1, 2), (2, 2)]);
        img.comps[0].h = h;
        img.comps[0].v = v;
    }
    let mut o = Opts::default();
    coding(s, &mut o);
    if s.chance(2, 5) {
        o.progressive = true;
        o.scans = script(s, img.comps.len());
        if s.chance(1, 3) {
            o.eobrun_max = s.us(1, 5) as u32;
        }
    }
    if s.chance(1, 3) {
        restart(s, &img, &mut o);
    }
    if s.chance(1, 4) {
        let n = 4 + o.scans.len();
        metadata(s, n, &mut o);
        // mostly keep files short
        if !s.chance(1, 6) {
            for m in o.meta.iter_mut() {
                m.2.truncate(200);
            }
        }
    }
    let (b, l) = encode_l(&img, &o);
    (img, o, b, l)
}

/// Offsets of marker segments (marker byte position) found by walking the file.
pub fn walk(b: &[u8]) -> Vec<(usize, u8)> {
    let mut v = vec![];
    let mut i = 2;
    while i + 1 < b.len() {
        if b[i] == 0xFF && b[i + 1] != 0 && b[i + 1] != 0xFF {
            let m = b[i + 1];
            v.push((i, m));
            i += 2;
            if !(0xD0..=0xD9).contains(&m) && i + 1 < b.len() {
                i += usize::from(b[i]) << 8 | usize::from(b[i + 1]);
            }
        } else {
            i += 1;
        }
    }
    v
}

fn put(b: &mut [u8], i: usize, v: u8) {
    if i < b.len() {
        b[i] = v;
    }
}

const MARKERS: [u8; 24] = [
    0xD9, 0xD0, 0xD7, 0xDA, 0xC4, 0xDB, 0xDD, 0xC0, 0xC2, 0xD8, 0xFE, 0xE0, 0xE1, 0xEE, 0xCC, 0xDC, 0xC1, 0xC3, 0xC9, 0xCA,
    0x01, 0xDE, 0xF0, 0x02,
];

/// One mutation.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) -> String {
    if b.is_empty() {
        return "empty".into();
    }
    let segs = walk(b);
    let pick_seg = |s: &mut Src, want: &[u8]| -> Option<usize> {
        let c: Vec<usize> = segs.iter().filter(|x| want.is_empty() || want.contains(&x.1)).map(|x| x.0).collect();
        if c.is_empty() { None } else { Some(*s.pick(&c)) }
    };
    let val = |s: &mut Src| *s.pick(&[0u8, 1, 2, 3, 4, 8, 0x11, 0x12, 0x21, 0x22, 0x41, 0x14, 0x44, 0x33, 0x10, 0x3F, 0x40, 0x7F, 0x80, 0xFE, 0xFF, 0xD8, 0xD9, 0xF0]);
    match s.below(18) {
        0 => {
            let i = s.us(0, b.len() - 1);
            b[i] ^= 1 << s.below(8);
            format!("flip a bit of byte {}", i)
        }
        1 => {
            let i = s.us(0, b.len() - 1);
            let v = val(s);
            b[i] = v;
            format!("byte {} = {:02x}", i, v)
        }
        2 => {
            let k = s.us(1, 30);
            let lo = s.us(0, b.len() - 1);
            let mut r = Rng::new(s.seed());
            for i in lo..(lo + k).min(b.len()) {
                b[i] = r.below(256) as u8;
            }
            format!("{} random bytes at {}", k, lo)
        }
        3 => {
            let i = s.us(0, b.len() - 1);
            b.truncate(i);
            format!("truncated to {}", i)
        }
        4 => {
            let i = s.us(0, b.len() - 1);
            let k = s.us(1, 40).min(b.len() - i);
            b.drain(i..i + k);
            format!("removed {} bytes at {}", k, i)
        }
        5 => {
            let i = s.us(0, b.len() - 1);
            let k = s.us(1, 60).min(b.len() - i);
            let x: Vec<u8> = b[i..i + k].to_vec();
            let at = s.us(0, b.len());
            b.splice(at..at, x);
            format!("copied {} bytes from {} to {}", k, i, at)
        }
        6 => {
            let at = s.us(2.min(b.len()), b.len());
            let m = *s.pick(&MARKERS);
            let mut x = vec![0xFF, m];
            if s.chance(1, 2) {
                let n = s.us(0, 12);
                x.extend([0, n as u8]);
                let mut r = Rng::new(s.seed());
                x.extend((0..n).map(|_| r.below(256) as u8));
            }
            b.splice(at..at, x);
            format!("marker {:02x} inserted at {}", m, at)
        }
        7 => {
            // drop / duplicate / move a segment
            if segs.len() < 2 {
                return "no segment".into();
            }
            let k = s.us(0, segs.len() - 1);
            let a = segs[k].0;
            let e = segs.get(k + 1).map_or(b.len(), |x| x.0);
            let body: Vec<u8> = b[a..e].to_vec();
            match s.below(3) {
                0 => {
                    b.drain(a..e);
                    format!("segment {:02x} dropped", segs[k].1)
                }
                1 => {
                    b.splice(a..a, body);
                    format!("segment {:02x} doubled", segs[k].1)
                }
                _ => {
                    let j = s.us(0, segs.len() - 1);
                    let at = segs[j].0;
                    b.splice(at..at, body);
                    format!("segment {:02x} copied in front of {:02x}", segs[k].1, segs[j].1)
                }
            }
        }
        8 => {
            if let Some(i) = pick_seg(s, &[]) {
                let m = *s.pick(&MARKERS);
                put(b, i + 1, m);
                format!("marker at {} becomes {:02x}", i, m)
            } else {
                "no segment".into()
            }
        }
        9 => {
            // length field
            if let Some(i) = pick_seg(s, &[]) {
                let v = match s.below(4) {
                    0 => s.us(0, 4) as u16,
                    1 => 0xFFFF,
                    2 => s.us(0, 300) as u16,
                    _ => {
                        let l = u16::from(*b.get(i + 2).unwrap_or(&0)) << 8 | u16::from(*b.get(i + 3).unwrap_or(&0));
                        l.wrapping_add(s.us(0, 40) as u16).wrapping_sub(20)
                    }
                };
                put(b, i + 2, (v >> 8) as u8);
                put(b, i + 3, v as u8);
                format!("length at {} = {}", i, v)
            } else {
                "no segment".into()
            }
        }
        10 | 11 => {
            if let Some(i) = pick_seg(s, &[0xC0, 0xC2]) {
                match s.below(5) {
                    0 => {
                        let h = s.us(0, 300) as u16;
                        put(b, i + 5, (h >> 8) as u8);
                        put(b, i + 6, h as u8);
                        format!("height {}", h)
                    }
                    1 => {
                        let w = s.us(0, 300) as u16;
                        put(b, i + 7, (w >> 8) as u8);
                        put(b, i + 8, w as u8);
                        format!("width {}", w)
                    }
                    2 => {
                        let c = s.us(0, 2);
                        let v = *s.pick(&[0x11u8, 0x21, 0x12, 0x22, 0x41, 0x14, 0x44, 0x42, 0x24, 0x13, 0x31, 0x01, 0x10, 0x81, 0x88]);
                        put(b, i + 11 + 3 * c, v);
                        format!("sampling of component {} = {:02x}", c, v)
                    }
                    3 => {
                        let k = s.us(2, 18);
                        let v = val(s);
                        put(b, i + k, v);
                        format!("SOF byte {} = {:02x}", k, v)
                    }
                    _ => {
                        // swap baseline and progressive
                        let m = b[i + 1] ^ 2;
                        put(b, i + 1, m);
                        format!("SOF marker {:02x}", m)
                    }
                }
            } else {
                "no SOF".into()
            }
        }
        12 | 13 => {
            if let Some(i) = pick_seg(s, &[0xDA]) {
                let n = usize::from(*b.get(i + 4).unwrap_or(&0));
                let k = s.us(4, 4 + 2 * n.min(4) + 3);
                let v = if s.chance(1, 3) { s.below(256) as u8 } else { val(s) };
                put(b, i + k, v);
                format!("SOS byte {} = {:02x}", k, v)
            } else {
                "no SOS".into()
            }
        }
        14 => {
            if let Some(i) = pick_seg(s, &[0xC4]) {
                let k = s.us(4, 60);
                let v = val(s);
                put(b, i + k, v);
                format!("DHT byte {} = {:02x}", k, v)
            } else {
                "no DHT".into()
            }
        }
        15 => {
            if let Some(i) = pick_seg(s, &[]) {
                let v = s.us(0, 40) as u16;
                let x = [0xFF, 0xDD, 0, 4, (v >> 8) as u8, v as u8];
                b.splice(i..i, x);
                format!("DRI {} inserted at {}", v, i)
            } else {
                "no segment".into()
            }
        }
        16 => {
            // overwrite the tail of the entropy-coded data
            if let Some(i) = pick_seg(s, &[0xDA]) {
                let at = (i + 14 + s.us(0, 200)).min(b.len());
                let k = s.us(1, 200).min(b.len() - at);
                let v = *s.pick(&[0u8, 0xFF, 0x55, 0x7F]);
                for x in &mut b[at..at + k] {
                    *x = v;
                }
                format!("{} bytes at {} = {:02x}", k, at, v)
            } else {
                "no SOS".into()
            }
        }
        _ => {
            // splice with another file
            let (_, _, o, _) = any_valid(s, 40);
            let i = s.us(0, b.len());
            let j = s.us(0, o.len());
            b.truncate(i);
            b.extend(&o[j..]);
            format!("spliced at {} with another file from {}", i, j)
        }
    }
}

/// A file that claims to be much wider or taller than its data, and possibly damaged.
pub fn stretched(s: &mut Src) -> (Vec<u8>, String) {
    let (img, o, mut b, l) = any_lenient(s, 60);
    let long = if s.chance(1, 2) { 65535 - s.us(0, 40) } else { s.us(300, 65535) };
    let short = s.us(1, 40);
    let (w, h) = if s.chance(1, 2) { (long, short) } else { (short, long) };
    b[l.sof + 5..l.sof + 9].copy_from_slice(&[(h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8]);
    let mut d = format!("{} stretched to {}x{}", desc(&img, &o), w, h);
    for _ in 0..s.us(0, 2) {
        let m = mutate(s, &mut b);
        d += "; ";
        d += &m;
    }
    (b, d)
}

/// A possibly broken file.
pub fn hostile(s: &mut Src, max_side: usize) -> (Vec<u8>, String) {
    if s.chance(1, 24) {
        // raw bytes behind a plausible start
        let n = s.us(0, 300);
        let mut r = Rng::new(s.seed());
        let mut b: Vec<u8> = if s.chance(1, 5) { vec![] } else { vec![0xFF, 0xD8] };
        b.extend((0..n).map(|_| if r.chance(1, 6) { 0xFF } else { r.below(256) as u8 }));
        return (b, format!("{} raw bytes", n));
    }
    let (img, o, mut b, _) = any_lenient(s, max_side);
    let mut d = desc(&img, &o);
    let n = match s.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => s.us(3, 6),
    };
    for _ in 0..n {
        let m = mutate(s, &mut b);
        d += "; ";
        d += &m;
    }
    (b, d)
}
