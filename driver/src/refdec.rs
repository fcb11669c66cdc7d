//! What the pixels of a JPEG must be, computed from the coefficients the
//! generator chose: real-valued inverse DCT (T.81 A.3.3), the documented
//! triangle-filter upsampling, and BT.601 colour conversion.  Every sample is
//! an *interval* of admissible integers; blocks whose exact inverse transform
//! is integral admit a single value.

use crate::enc::Image;

pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub lo: Vec<i16>,
    pub hi: Vec<i16>,
}

pub struct Ref {
    pub w: usize,
    pub h: usize,
    pub planes: Vec<Plane>,
}

thread_local! {
    static COS: [[f64; 8]; 8] = {
        let mut t = [[0.0; 8]; 8];
        for (x, r) in t.iter_mut().enumerate() {
            for (u, c) in r.iter_mut().enumerate() {
                let cu = if u == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1.0 };
                *c = 0.5 * cu * (((2 * x + 1) * u) as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        t
    };
}

/// Exact (real) inverse DCT, level shifted, not clamped.
pub fn idct(c: &[i16; 64], q: &[u8; 64]) -> [f64; 64] {
    COS.with(|cos| {
        let mut t = [0.0; 64];
        for v in 0..8 {
            let mut any = false;
            let mut row = [0.0; 8];
            for u in 0..8 {
                row[u] = f64::from(i32::from(c[v * 8 + u]) * i32::from(q[v * 8 + u]));
                any |= row[u] != 0.0;
            }
            if any {
                for x in 0..8 {
                    let mut s = 0.0;
                    for u in 0..8 {
                        s += row[u] * cos[x][u];
                    }
                    t[v * 8 + x] = s;
                }
            }
        }
        let mut o = [0.0; 64];
        for y in 0..8 {
            for x in 0..8 {
                let mut s = 128.0;
                for v in 0..8 {
                    s += t[v * 8 + x] * cos[y][v];
                }
                o[y * 8 + x] = s;
            }
        }
        o
    })
}

/// Only frequencies 0 and 4 in both directions, and all eighths cancel.
fn exact_block(c: &[i16; 64], q: &[u8; 64]) -> Option<[i16; 64]> {
    let mut f = [0i32; 4];
    for (i, &v) in c.iter().enumerate() {
        if v != 0 {
            let k = match i {
                0 => 0,
                4 => 1,
                32 => 2,
                36 => 3,
                _ => return None,
            };
            f[k] = i32::from(v) * i32::from(q[i]);
        }
    }
    let s = [1, -1, -1, 1, 1, -1, -1, 1];
    let mut o = [0i16; 64];
    for y in 0..8 {
        for x in 0..8 {
            let n = f[0] + s[x] * f[1] + s[y] * f[2] + s[x] * s[y] * f[3];
            if n & 7 != 0 {
                return None;
            }
            o[y * 8 + x] = (128 + n / 8).clamp(0, 255) as i16;
        }
    }
    Some(o)
}

/// Signed rounding error of the first component over samples that are neither
/// exact nor clamped: (sum, number of samples).
pub fn bias(img: &Image, pix: &[u8], n: usize) -> (f64, f64) {
    let c = &img.comps[0];
    let q = &img.qt[c.tq];
    let (mut sum, mut cnt) = (0.0, 0.0);
    for by in 0..c.bh {
        for bx in 0..c.bw {
            let b = &c.blocks[by * c.bw + bx];
            if b[1..].iter().all(|x| *x == 0) || exact_block(b, q).is_some() {
                continue;
            }
            let e = idct(b, q);
            for y in 0..8 {
                for x in 0..8 {
                    let (px, py) = (bx * 8 + x, by * 8 + y);
                    let v = e[y * 8 + x];
                    if px < img.w && py < img.h && v > 2.0 && v < 253.0 {
                        sum += f64::from(pix[(py * img.w + px) * n]) - v;
                        cnt += 1.0;
                    }
                }
            }
        }
    }
    (sum, cnt)
}

pub const TOL: f64 = 1.0;

pub fn component_plane(img: &Image, ci: usize) -> Plane {
    let c = &img.comps[ci];
    let (w, h) = (c.bw * 8, c.bh * 8);
    let mut p = Plane { w, h, lo: vec![0; w * h], hi: vec![0; w * h] };
    let q = &img.qt[c.tq];
    for by in 0..c.bh {
        for bx in 0..c.bw {
            let b = &c.blocks[by * c.bw + bx];
            if let Some(e) = exact_block(b, q) {
                for y in 0..8 {
                    let o = (by * 8 + y) * w + bx * 8;
                    p.lo[o..o + 8].copy_from_slice(&e[y * 8..y * 8 + 8]);
                    p.hi[o..o + 8].copy_from_slice(&e[y * 8..y * 8 + 8]);
                }
            } else {
                let e = idct(b, q);
                for y in 0..8 {
                    for x in 0..8 {
                        let v = e[y * 8 + x];
                        let o = (by * 8 + y) * w + bx * 8 + x;
                        p.lo[o] = (v - TOL - 1e-6).ceil().clamp(0.0, 255.0) as i16;
                        p.hi[o] = (v + TOL + 1e-6).floor().clamp(0.0, 255.0) as i16;
                    }
                }
            }
        }
    }
    p
}

fn mixv(a: i16, b: i16) -> i16 {
    (3 * a + b + 2) >> 2
}

pub fn up_h(s: &[i16], w: usize) -> Vec<i16> {
    let mut o = Vec::with_capacity(s.len() * 2);
    for r in s.chunks(w) {
        for i in 0..w {
            o.push(if i == 0 { r[0] } else { mixv(r[i], r[i - 1]) });
            o.push(if i == w - 1 { r[i] } else { mixv(r[i], r[i + 1]) });
        }
    }
    o
}

pub fn up_v(s: &[i16], w: usize) -> Vec<i16> {
    let mut o = Vec::with_capacity(s.len() * 2);
    for g in s.chunks(w * 8) {
        let row = |k: usize| &g[k * w..(k + 1) * w];
        for k in 0..8 {
            let (near, far) = match k {
                0 => (row(0), row(0)),
                7 => (row(7), row(7)),
                _ => (row(k), row(k + 1)),
            };
            for i in 0..w {
                o.push(mixv(near[i], far[i]));
            }
            for i in 0..w {
                o.push(mixv(far[i], near[i]));
            }
        }
    }
    o
}

fn upsample(p: Plane, hm: usize, vm: usize) -> Plane {
    let Plane { mut w, mut h, mut lo, mut hi } = p;
    if vm == 2 {
        lo = up_v(&lo, w);
        hi = up_v(&hi, w);
        h *= 2;
    }
    if hm == 2 {
        lo = up_h(&lo, w);
        hi = up_h(&hi, w);
        w *= 2;
    }
    Plane { w, h, lo, hi }
}

pub fn reference(img: &Image) -> Ref {
    let mut planes = vec![];
    for ci in 0..img.comps.len() {
        let p = component_plane(img, ci);
        let p = if ci > 0 { upsample(p, img.hmax, img.vmax) } else { p };
        // crop
        let mut lo = Vec::with_capacity(img.w * img.h);
        let mut hi = Vec::with_capacity(img.w * img.h);
        for y in 0..img.h {
            lo.extend(&p.lo[y * p.w..y * p.w + img.w]);
            hi.extend(&p.hi[y * p.w..y * p.w + img.w]);
        }
        planes.push(Plane { w: img.w, h: img.h, lo, hi });
    }
    Ref { w: img.w, h: img.h, planes }
}

const CHN: [&str; 3] = ["Y", "Cb", "Cr"];

impl Ref {
    /// `pix`: interleaved n channels straight from the planes.
    pub fn check_planes(&self, pix: &[u8], n: usize) -> Option<String> {
        if pix.len() != self.w * self.h * n {
            return Some(format!("{} bytes of pixels, expected {}x{}x{}", pix.len(), self.w, self.h, n));
        }
        for (i, px) in pix.chunks_exact(n).enumerate() {
            for c in 0..n {
                let v = i16::from(px[c]);
                let (l, h) = (self.planes[c].lo[i], self.planes[c].hi[i]);
                if v < l || v > h {
                    return Some(format!(
                        "{} at x={} y={} is {}, admissible {}..={}",
                        CHN[c], i % self.w, i / self.w, v, l, h
                    ));
                }
            }
        }
        None
    }
    /// RGB / RGBA / RGBX.
    pub fn check_rgb(&self, pix: &[u8], n: usize, alpha: bool) -> Option<String> {
        if pix.len() != self.w * self.h * n {
            return Some(format!("{} bytes of pixels, expected {}x{}x{}", pix.len(), self.w, self.h, n));
        }
        for (i, px) in pix.chunks_exact(n).enumerate() {
            let g = |c: usize| {
                (f64::from(self.planes[c].lo[i]), f64::from(self.planes[c].hi[i]))
            };
            let (y, cb, cr) = (g(0), g(1), g(2));
            let b = [
                (y.0 + 1.402 * (cr.0 - 128.0), y.1 + 1.402 * (cr.1 - 128.0)),
                (
                    y.0 - 0.344136 * (cb.1 - 128.0) - 0.714136 * (cr.1 - 128.0),
                    y.1 - 0.344136 * (cb.0 - 128.0) - 0.714136 * (cr.0 - 128.0),
                ),
                (y.0 + 1.772 * (cb.0 - 128.0), y.1 + 1.772 * (cb.1 - 128.0)),
            ];
            for c in 0..3 {
                let l = (b[c].0 - 2.0).ceil().clamp(0.0, 255.0) as u8;
                let h = (b[c].1 + 2.0).floor().clamp(0.0, 255.0) as u8;
                if px[c] < l || px[c] > h {
                    return Some(format!(
                        "{} at x={} y={} is {}, admissible {}..={}",
                        ["R", "G", "B"][c], i % self.w, i / self.w, px[c], l, h
                    ));
                }
            }
            if alpha && px[3] != 255 {
                return Some(format!("alpha at x={} y={} is {}", i % self.w, i / self.w, px[3]));
            }
        }
        None
    }
}

/// Colour conversion judged on the decoder's own YCbCr output: within two of BT.601.
pub fn check_rgb_of(ycc: &[u8], pix: &[u8], n: usize, alpha: bool) -> Option<String> {
    if ycc.len() / 3 * n != pix.len() {
        return Some(format!("{} bytes for {} pixels of {} channels", pix.len(), ycc.len() / 3, n));
    }
    for (i, (s, p)) in ycc.chunks_exact(3).zip(pix.chunks_exact(n)).enumerate() {
        let (y, cb, cr) = (f64::from(s[0]), f64::from(s[1]) - 128.0, f64::from(s[2]) - 128.0);
        let e = [y + 1.402 * cr, y - 0.344136 * cb - 0.714136 * cr, y + 1.772 * cb];
        for c in 0..3 {
            let e = e[c].clamp(0.0, 255.0);
            if (f64::from(p[c]) - e).abs() > 2.0 {
                return Some(format!(
                    "pixel {}: YCbCr {:?} gives {} = {}, BT.601 says {:.2}",
                    i, s, ["R", "G", "B"][c], p[c], e
                ));
            }
        }
        if s[1] == 128 && s[2] == 128 && p[..3] != [s[0]; 3] {
            return Some(format!("pixel {}: YCbCr {:?} is neutral but gives {:?}", i, s, &p[..3]));
        }
        if alpha && p[3] != 255 {
            return Some(format!("pixel {}: alpha is {}", i, p[3]));
        }
    }
    None
}
