//! A from-scratch JPEG (T.81) *encoder* that starts at quantised DCT
//! coefficients.  It is the generator of every structured case: because the
//! coefficients are chosen by us, the correct pixels are known by construction
//! and no second decoder is needed as oracle.

use crate::tape::Rng;

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// blocks per line / lines of blocks, padded to whole MCUs
    pub bw: usize,
    pub bh: usize,
    /// blocks per line / lines of blocks in a non-interleaved scan
    pub rbw: usize,
    pub rbh: usize,
    /// quantised coefficients, natural order, bw*bh blocks in raster order
    pub blocks: Vec<[i16; 64]>,
}

#[derive(Clone, Debug)]
pub struct Image {
    pub w: usize,
    pub h: usize,
    pub hmax: usize,
    pub vmax: usize,
    pub mcux: usize,
    pub mcuy: usize,
    pub comps: Vec<Comp>,
    /// natural order
    pub qt: [[u8; 64]; 4],
}

fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

impl Image {
    /// Empty image (all coefficients zero). `samp` is the luma sampling factor pair.
    pub fn new(w: usize, h: usize, ncomp: usize, samp: (usize, usize)) -> Image {
        let (hm, vm) = samp;
        let (mcux, mcuy) = if ncomp == 1 {
            (cdiv(w, 8), cdiv(h, 8))
        } else {
            (cdiv(w, 8 * hm), cdiv(h, 8 * vm))
        };
        let mut comps = vec![];
        for i in 0..ncomp {
            let (ch, cv) = if i == 0 { samp } else { (1, 1) };
            let (bw, bh, rbw, rbh) = if ncomp == 1 {
                (mcux, mcuy, mcux, mcuy)
            } else {
                (
                    mcux * ch,
                    mcuy * cv,
                    cdiv(cdiv(w * ch, hm), 8),
                    cdiv(cdiv(h * cv, vm), 8),
                )
            };
            comps.push(Comp {
                id: i as u8 + 1,
                h: ch,
                v: cv,
                tq: 0,
                bw,
                bh,
                rbw,
                rbh,
                blocks: vec![[0; 64]; bw * bh],
            });
        }
        Image { w, h, hmax: hm, vmax: vm, mcux, mcuy, comps, qt: [[1; 64]; 4] }
    }
    pub fn interleaved(&self) -> bool {
        self.comps.len() > 1
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: u32,
    pub al: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Huff {
    /// Annex K tables where they contain all needed symbols, else optimal
    Std,
    /// tables optimal for the data
    Opt,
    /// random complete-ish code, `u64` seeds it
    Random(u64),
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub progressive: bool,
    pub scans: Vec<Scan>,
    /// restart interval per scan (0 = none). Length 1 means: same everywhere,
    /// written once before the frame.
    pub dri: usize,
    /// DRI is written between frame header and first scan rather than before SOF
    pub dri_late: bool,
    pub huff: Huff,
    pub dc_ids: [usize; 3],
    pub ac_ids: [usize; 3],
    pub dqt_joined: bool,
    pub dht_joined: bool,
    pub dht_before_sof: bool,
    /// table ids of qt assignments are in `Image`
    pub eobrun_max: u32,
    /// pad bits at the end of an entropy-coded segment (T.81: ones)
    pub zero_pad: bool,
    /// extra 0xFF fill bytes before markers outside entropy-coded data
    pub fill: usize,
    /// fill bytes before RST / the marker following a scan
    pub rst_fill: usize,
    /// (slot, marker byte, payload); slot counts header positions
    pub meta: Vec<(usize, u8, Vec<u8>)>,
    pub trailing: Vec<u8>,
    pub eoi: bool,
    /// wrong tables under the used ids come first; the later definition counts
    pub decoys: bool,
    /// one set of Huffman tables for all scans, written once
    pub shared: bool,
    /// restart interval of each scan (DRI in front of every scan), overrides `dri`
    pub dri_scan: Vec<usize>,
    /// a DRI segment with interval 0 in front of the frame
    pub dri_zero: bool,
    /// DRI segments in front of the real one; the later definition counts
    pub dri_decoys: Vec<usize>,
    /// (AC symbol, code length, seed): give that symbol that code length
    pub force: Option<(u8, u32, u64)>,
    /// it is a symbol of the DC tables
    pub force_dc: bool,
    /// progressive: table destinations (DC, AC) of each scan, cycled, overrides `dc_ids`, `ac_ids`
    pub ids_scan: Vec<([usize; 3], [usize; 3])>,
    /// progressive: what a scan header says about tables its scan does not use:
    /// 0 the component's usual destinations, 1 zero, n > 1 arbitrary ones
    pub unused: u64,
}

impl Opts {
    /// destinations of the DC and AC tables in scan `i`
    pub fn ids(&self, i: usize) -> ([usize; 3], [usize; 3]) {
        if self.ids_scan.is_empty() || !self.progressive {
            (self.dc_ids, self.ac_ids)
        } else {
            self.ids_scan[i % self.ids_scan.len()]
        }
    }

    fn selector(&self, i: usize, s: &Scan, c: usize) -> u8 {
        let (dc, ac) = self.ids(i);
        let (mut d, mut a) = (dc[c], ac[c]);
        if self.progressive && self.unused > 0 {
            let mut r = Rng::new(self.unused.wrapping_add((i * 4 + c) as u64 * 7919));
            let mut other = || if self.unused == 1 { 0 } else { r.below(4) as usize };
            if s.ss > 0 || s.ah > 0 {
                d = other();
            }
            if s.ss == 0 {
                a = other();
            }
        }
        ((d << 4) | a) as u8
    }
}

impl Default for Opts {
    fn default() -> Opts {
        Opts {
            progressive: false,
            scans: vec![],
            dri: 0,
            dri_late: false,
            huff: Huff::Std,
            dc_ids: [0, 1, 1],
            ac_ids: [0, 1, 1],
            dqt_joined: false,
            dht_joined: false,
            dht_before_sof: false,
            eobrun_max: 0x7fff,
            zero_pad: false,
            fill: 0,
            rst_fill: 0,
            meta: vec![],
            trailing: vec![],
            eoi: true,
            decoys: false,
            shared: false,
            dri_scan: vec![],
            dri_zero: false,
            dri_decoys: vec![],
            force: None,
            force_dc: false,
            ids_scan: vec![],
            unused: 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Tok {
    Dc(usize, u8),
    Ac(usize, u8),
    Bits(u32, u32),
    Rst,
}

fn cat(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}

fn put_val(out: &mut Vec<Tok>, v: i32, n: u32) {
    if n > 0 {
        let b = if v < 0 { (v - 1) as u32 & ((1u32 << n) - 1) } else { v as u32 };
        out.push(Tok::Bits(b, n));
    }
}

struct Prog<'a> {
    out: &'a mut Vec<Tok>,
    ac: usize,
    eobrun: u32,
    be: Vec<u8>,
    max: u32,
}

impl<'a> Prog<'a> {
    fn flush(&mut self) {
        if self.eobrun > 0 {
            let nb = 31 - self.eobrun.leading_zeros();
            self.out.push(Tok::Ac(self.ac, (nb << 4) as u8));
            if nb > 0 {
                self.out.push(Tok::Bits(self.eobrun & ((1 << nb) - 1), nb));
            }
            self.eobrun = 0;
            for b in self.be.drain(..) {
                self.out.push(Tok::Bits(u32::from(b), 1));
            }
        }
    }
}

/// Tokenise one scan.
pub fn scan_tokens(img: &Image, o: &Opts, s: &Scan, dri: usize) -> Vec<Tok> {
    let mut out = vec![];
    let inter = s.comps.len() > 1;
    let mut pred = [0i32; 4];
    let (mx, my) = if inter {
        (img.mcux, img.mcuy)
    } else {
        let c = &img.comps[s.comps[0]];
        (c.rbw, c.rbh)
    };
    let mut since = 0;
    let mut eobrun = 0u32;
    let mut be: Vec<u8> = vec![];
    let total = mx * my;
    for m in 0..total {
        if dri > 0 && since == dri {
            if o.progressive && s.ss > 0 {
                let mut p = Prog { out: &mut out, ac: o.ac_ids[s.comps[0]], eobrun, be: std::mem::take(&mut be), max: o.eobrun_max };
                p.flush();
                eobrun = 0;
            }
            out.push(Tok::Rst);
            pred = [0; 4];
            since = 0;
        }
        since += 1;
        let (x, y) = (m % mx, m / mx);
        for &ci in &s.comps {
            let c = &img.comps[ci];
            let (nh, nv) = if inter { (c.h, c.v) } else { (1, 1) };
            for v in 0..nv {
                for h in 0..nh {
                    let b = &c.blocks[(y * nv + v) * c.bw + x * nh + h];
                    if !o.progressive {
                        let d = i32::from(b[0]) - pred[ci];
                        pred[ci] = i32::from(b[0]);
                        let n = cat(d);
                        out.push(Tok::Dc(o.dc_ids[ci], n as u8));
                        put_val(&mut out, d, n);
                        let mut r = 0;
                        for k in 1..64 {
                            let v = i32::from(b[ZZ[k]]);
                            if v == 0 {
                                r += 1;
                                continue;
                            }
                            while r > 15 {
                                out.push(Tok::Ac(o.ac_ids[ci], 0xF0));
                                r -= 16;
                            }
                            let n = cat(v);
                            out.push(Tok::Ac(o.ac_ids[ci], ((r as u8) << 4) | n as u8));
                            put_val(&mut out, v, n);
                            r = 0;
                        }
                        if r > 0 {
                            out.push(Tok::Ac(o.ac_ids[ci], 0));
                        }
                    } else if s.ss == 0 {
                        let t = i32::from(b[0]) >> s.al;
                        if s.ah == 0 {
                            let d = t - pred[ci];
                            pred[ci] = t;
                            let n = cat(d);
                            out.push(Tok::Dc(o.dc_ids[ci], n as u8));
                            put_val(&mut out, d, n);
                        } else {
                            out.push(Tok::Bits((t & 1) as u32, 1));
                        }
                    } else {
                        let mut p = Prog { out: &mut out, ac: o.ac_ids[ci], eobrun, be: std::mem::take(&mut be), max: o.eobrun_max };
                        if s.ah == 0 {
                            ac_first(&mut p, b, s);
                        } else {
                            ac_refine(&mut p, b, s);
                        }
                        eobrun = p.eobrun;
                        be = p.be;
                    }
                }
            }
        }
    }
    if o.progressive && s.ss > 0 {
        let mut p = Prog { out: &mut out, ac: o.ac_ids[s.comps[0]], eobrun, be, max: o.eobrun_max };
        p.flush();
    }
    out
}

fn ac_first(p: &mut Prog, b: &[i16; 64], s: &Scan) {
    let mut r = 0u32;
    for k in s.ss..=s.se {
        let c = i32::from(b[ZZ[k]]);
        let a = c.abs() >> s.al;
        if a == 0 {
            r += 1;
            continue;
        }
        p.flush();
        while r > 15 {
            p.out.push(Tok::Ac(p.ac, 0xF0));
            r -= 16;
        }
        let n = cat(a);
        p.out.push(Tok::Ac(p.ac, ((r as u8) << 4) | n as u8));
        put_val(p.out, if c < 0 { -a } else { a }, n);
        r = 0;
    }
    if r > 0 {
        p.eobrun += 1;
        if p.eobrun >= p.max {
            p.flush();
        }
    }
}

fn ac_refine(p: &mut Prog, b: &[i16; 64], s: &Scan) {
    let mut abs = [0i32; 64];
    let mut eob = 0;
    for k in s.ss..=s.se {
        abs[k] = i32::from(b[ZZ[k]]).abs() >> s.al;
        if abs[k] == 1 {
            eob = k;
        }
    }
    let mut r = 0u32;
    let mut br: Vec<u8> = vec![];
    for k in s.ss..=s.se {
        let t = abs[k];
        if t == 0 {
            r += 1;
            continue;
        }
        while r > 15 && k <= eob {
            p.flush();
            p.out.push(Tok::Ac(p.ac, 0xF0));
            r -= 16;
            for x in br.drain(..) {
                p.out.push(Tok::Bits(u32::from(x), 1));
            }
        }
        if t > 1 {
            br.push((t & 1) as u8);
            continue;
        }
        p.flush();
        p.out.push(Tok::Ac(p.ac, ((r as u8) << 4) | 1));
        p.out.push(Tok::Bits(u32::from(b[ZZ[k]] >= 0), 1));
        for x in br.drain(..) {
            p.out.push(Tok::Bits(u32::from(x), 1));
        }
        r = 0;
    }
    if r > 0 || !br.is_empty() {
        p.eobrun += 1;
        p.be.extend(br);
        if p.eobrun >= p.max {
            p.flush();
        }
    }
}

// ---------------------------------------------------------------- Huffman

#[derive(Clone, Debug)]
pub struct HTable {
    /// bits[l] = number of codes of length l (1..=16)
    pub bits: [u8; 17],
    pub vals: Vec<u8>,
    pub code: [(u32, u32); 256],
}

impl HTable {
    pub fn from_spec(bits: [u8; 17], vals: Vec<u8>) -> HTable {
        let mut code = [(0, 0); 256];
        let (mut c, mut k) = (0u32, 0);
        for l in 1..=16u32 {
            for _ in 0..bits[l as usize] {
                code[vals[k] as usize] = (c, l);
                c += 1;
                k += 1;
            }
            assert!(c < (1 << l) || bits[l as usize] == 0 || c < (1 << l), "illegal table");
            c <<= 1;
        }
        HTable { bits, vals, code }
    }
    /// lens: (symbol, length)
    pub fn from_lens(mut lens: Vec<(u8, u32)>) -> HTable {
        lens.sort_by_key(|x| x.1);
        let mut bits = [0u8; 17];
        for x in &lens {
            bits[x.1 as usize] += 1;
        }
        HTable::from_spec(bits, lens.into_iter().map(|x| x.0).collect())
    }
}

/// Length-limited optimal code, Annex K.2 style.
pub fn opt_table(freq: &[u64; 256]) -> HTable {
    let mut f: Vec<(u64, Vec<usize>)> = vec![];
    for s in 0..256 {
        if freq[s] > 0 {
            f.push((freq[s], vec![s]));
        }
    }
    if f.is_empty() {
        f.push((1, vec![0]));
    }
    f.push((0, vec![256])); // reserve the all-ones code point
    let mut len = [0usize; 257];
    while f.len() > 1 {
        f.sort_by(|a, b| b.0.cmp(&a.0).then(a.1[0].cmp(&b.1[0]).reverse()));
        let a = f.pop().unwrap();
        let b = f.pop().unwrap();
        let mut m = a.1;
        m.extend(b.1);
        for &s in &m {
            len[s] += 1;
        }
        f.push((a.0 + b.0, m));
    }
    let mut bits = vec![0i32; 260];
    for s in 0..257 {
        if len[s] > 0 {
            bits[len[s]] += 1;
        }
    }
    let mut i = 259;
    while i > 16 {
        while bits[i] > 0 {
            let mut j = i - 2;
            while bits[j] == 0 {
                j -= 1;
            }
            bits[i] -= 2;
            bits[i - 1] += 1;
            bits[j + 1] += 2;
            bits[j] -= 1;
        }
        i -= 1;
    }
    let mut i = 16;
    while bits[i] == 0 {
        i -= 1;
    }
    bits[i] -= 1;
    let mut syms: Vec<usize> = (0..256).filter(|&s| len[s] > 0).collect();
    syms.sort_by_key(|&s| (len[s], s));
    let mut b17 = [0u8; 17];
    for l in 1..=16 {
        b17[l] = bits[l] as u8;
    }
    HTable::from_spec(b17, syms.into_iter().map(|s| s as u8).collect())
}

/// Random valid code containing `used` (and some unused symbols).
pub fn random_table(used: &[u8], dc: bool, r: &mut Rng) -> HTable {
    let mut syms: Vec<u8> = used.to_vec();
    let extra = match r.below(16) {
        0..=3 => 0,
        4..=7 => r.below(4),
        8..=10 => r.below(20),
        11..=13 => r.below(200),
        14 => {
            // every symbol there is
            syms = if dc { (0..12).collect() } else { (0..=255).collect() };
            0
        }
        _ => {
            // all but a few
            let k = r.range(1, 3) as usize;
            let all: Vec<u8> = if dc { (0..12).collect() } else { (0..=255).collect() };
            let rest: Vec<u8> = all.into_iter().filter(|x| !syms.contains(x)).collect();
            let n = rest.len().saturating_sub(k);
            syms.extend(&rest[..n]);
            0
        }
    };
    for _ in 0..extra {
        let s = if dc { r.below(12) as u8 } else { r.below(256) as u8 };
        if !syms.contains(&s) {
            syms.push(s);
        }
    }
    if syms.is_empty() {
        syms.push(0);
    }
    // random binary tree with one extra (reserved) leaf
    let mode = r.below(3);
    let mut leaves: Vec<u32> = vec![0];
    while leaves.len() < syms.len() + 1 {
        let i = loop {
            let i = match mode {
                0 => r.below(leaves.len() as u64) as usize,
                1 => leaves.len() - 1, // unary-ish: the deepest, newest leaf
                _ => {
                    let a = r.below(leaves.len() as u64) as usize;
                    let b = r.below(leaves.len() as u64) as usize;
                    if leaves[a] < leaves[b] { a } else { b }
                }
            };
            if leaves[i] < 16 {
                // keep the tree able to host all symbols
                break i;
            }
            let k = leaves.iter().enumerate().min_by_key(|x| x.1).unwrap().0;
            break k;
        };
        let d = leaves.remove(i) + 1;
        leaves.push(d);
        leaves.push(d);
    }
    leaves.sort_unstable();
    leaves.pop(); // the longest leaf stays unused: no code is all ones
    for i in (1..syms.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        syms.swap(i, j);
    }
    HTable::from_lens(syms.into_iter().zip(leaves).collect())
}

pub const STD_DC: [([u8; 17], [u8; 12]); 2] = [
    ([0, 0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
    ([0, 0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
];
const STD_AC_BITS: [[u8; 17]; 2] = [
    [0, 0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
    [0, 0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
];
const STD_AC0: [u8; 162] = [
    0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07,
    0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0,
    0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28,
    0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49,
    0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69,
    0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89,
    0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7,
    0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5,
    0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2,
    0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
    0xf9, 0xfa,
];
const STD_AC1: [u8; 162] = [
    0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71,
    0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 0x09, 0x23, 0x33, 0x52, 0xf0,
    0x15, 0x62, 0x72, 0xd1, 0x0a, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18, 0x19, 0x1a, 0x26,
    0x27, 0x28, 0x29, 0x2a, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
    0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68,
    0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87,
    0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5,
    0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3,
    0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda,
    0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
    0xf9, 0xfa,
];

pub fn std_table(dc: bool, chroma: usize) -> HTable {
    if dc {
        HTable::from_spec(STD_DC[chroma].0, STD_DC[chroma].1.to_vec())
    } else {
        HTable::from_spec(
            STD_AC_BITS[chroma],
            if chroma == 0 { STD_AC0.to_vec() } else { STD_AC1.to_vec() },
        )
    }
}

// ---------------------------------------------------------------- writer

struct BitW {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitW {
    fn put(&mut self, v: u32, n: u32) {
        self.acc = (self.acc << n) | u64::from(v);
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xFF {
                self.out.push(0);
            }
            self.n -= 8;
            self.acc &= (1 << self.n) - 1;
        }
    }
    fn pad(&mut self, zero: bool) {
        if self.n > 0 {
            let k = 8 - self.n;
            let v = if zero { 0 } else { (1 << k) - 1 };
            self.put(v, k);
        }
    }
}

pub type Tables = ([Option<HTable>; 4], [Option<HTable>; 4]);

/// A code in which `sym` has length `len` (if the other symbols leave room).
pub fn forced_table(used: &[u8], sym: u8, len: u32, dc: bool, r: &mut Rng) -> HTable {
    let mut others: Vec<u8> = used.iter().copied().filter(|&x| x != sym).collect();
    while others.len() < 4 {
        let x = r.below(if dc { 16 } else { 256 }) as u8;
        if x != sym && !others.contains(&x) {
            others.push(x);
        }
    }
    // a chain of codes of length 1, 2, .. len-1, `sym` at len, the rest below
    let mut lens: Vec<(u8, u32)> = vec![];
    let mut left = 0xFFFFu32; // units of 2^-16, one reserved for the all-ones code
    let cost = |l: u32| 1u32 << (16 - l);
    lens.push((sym, len));
    left -= cost(len);
    let n = others.len();
    for (i, x) in others.into_iter().enumerate() {
        let rest = (n - 1 - i) as u32;
        // shortest length that leaves one 16-bit code for every remaining symbol
        let mut l = 1 + r.below(9) as u32;
        while l < 16 && left < cost(l) + rest {
            l += 1;
        }
        lens.push((x, l));
        left -= cost(l);
    }
    HTable::from_lens(lens)
}

pub fn build_tables(toks: &[Tok], huff: Huff, salt: u64, force: Option<(u8, u32, u64)>, force_dc: bool) -> Tables {
    let mut fd = vec![[0u64; 256]; 4];
    let mut fa = vec![[0u64; 256]; 4];
    for t in toks {
        match *t {
            Tok::Dc(i, s) => fd[i][s as usize] += 1,
            Tok::Ac(i, s) => fa[i][s as usize] += 1,
            _ => {}
        }
    }
    let mk = |f: &[u64; 256], dc: bool, i: usize| -> Option<HTable> {
        let used: Vec<u8> = (0..=255u8).filter(|&s| f[s as usize] > 0).collect();
        if used.is_empty() {
            return None;
        }
        if let (Some((sym, len, seed)), true) = (force, dc == force_dc) {
            return Some(forced_table(&used, sym, len, dc, &mut Rng::new(seed ^ salt)));
        }
        Some(match huff {
            Huff::Std => {
                let t = std_table(dc, usize::from(i > 0));
                if used.iter().all(|&s| t.code[s as usize].1 > 0) { t } else { opt_table(f) }
            }
            Huff::Opt => opt_table(f),
            Huff::Random(seed) => random_table(
                &used,
                dc,
                &mut Rng::new(seed ^ salt.wrapping_mul(77) ^ (u64::from(dc) * 16 + i as u64)),
            ),
        })
    };
    let mut d: [Option<HTable>; 4] = [None, None, None, None];
    let mut a: [Option<HTable>; 4] = [None, None, None, None];
    for i in 0..4 {
        d[i] = mk(&fd[i], true, i);
        a[i] = mk(&fa[i], false, i);
    }
    (d, a)
}

pub fn seg(out: &mut Vec<u8>, fill: usize, marker: u8, payload: &[u8]) {
    for _ in 0..fill {
        out.push(0xFF);
    }
    out.extend([0xFF, marker]);
    out.extend(((payload.len() + 2) as u16).to_be_bytes());
    out.extend(payload);
}

fn dht_payload(class: u8, id: usize, t: &HTable) -> Vec<u8> {
    let mut p = vec![(class << 4) | id as u8];
    p.extend(&t.bits[1..17]);
    p.extend(&t.vals);
    p
}

fn write_dht(out: &mut Vec<u8>, o: &Opts, t: &Tables) {
    let mut ps = vec![];
    for i in 0..4 {
        if let Some(x) = &t.0[i] {
            ps.push(dht_payload(0, i, x));
        }
        if let Some(x) = &t.1[i] {
            ps.push(dht_payload(1, i, x));
        }
    }
    if o.dht_joined {
        if !ps.is_empty() {
            seg(out, o.fill, 0xC4, &ps.concat());
        }
    } else {
        for p in ps {
            seg(out, o.fill, 0xC4, &p);
        }
    }
}

pub fn entropy(toks: &[Tok], t: &Tables, o: &Opts) -> Vec<u8> {
    let mut w = BitW { out: vec![], acc: 0, n: 0 };
    let mut rst = 0u8;
    for k in toks {
        match *k {
            Tok::Dc(i, s) => {
                let (c, l) = t.0[i].as_ref().unwrap().code[s as usize];
                debug_assert!(l > 0);
                w.put(c, l);
            }
            Tok::Ac(i, s) => {
                let (c, l) = t.1[i].as_ref().unwrap().code[s as usize];
                debug_assert!(l > 0);
                w.put(c, l);
            }
            Tok::Bits(v, n) => w.put(v, n),
            Tok::Rst => {
                w.pad(o.zero_pad);
                for _ in 0..o.rst_fill {
                    w.out.push(0xFF);
                }
                w.out.extend([0xFF, 0xD0 + rst]);
                rst = (rst + 1) & 7;
            }
        }
    }
    w.pad(o.zero_pad);
    w.out
}

/// Byte offsets of interesting places in an encoded file.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub sof: usize,
    /// start of entropy-coded bytes of each scan, and their end
    pub scans: Vec<(usize, usize)>,
    pub eoi: usize,
    /// start of each marker segment before the first scan
    pub segs: Vec<usize>,
}

pub fn default_scans(img: &Image) -> Vec<Scan> {
    vec![Scan { comps: (0..img.comps.len()).collect(), ss: 0, se: 63, ah: 0, al: 0 }]
}

pub fn encode(img: &Image, o: &Opts) -> Vec<u8> {
    encode_l(img, o).0
}

pub fn sof_payload(img: &Image) -> Vec<u8> {
    let mut p = vec![8];
    p.extend((img.h as u16).to_be_bytes());
    p.extend((img.w as u16).to_be_bytes());
    p.push(img.comps.len() as u8);
    for c in &img.comps {
        p.extend([c.id, ((c.h << 4) | c.v) as u8, c.tq as u8]);
    }
    p
}

pub fn encode_l(img: &Image, o: &Opts) -> (Vec<u8>, Layout) {
    let mut out = vec![0xFF, 0xD8];
    let mut lay = Layout::default();
    let mut slot = 0;
    macro_rules! meta {
        () => {
            for (s, m, p) in &o.meta {
                if *s == slot {
                    if lay.scans.is_empty() {
                        lay.segs.push(out.len());
                    }
                    seg(&mut out, o.fill, *m, p);
                }
            }
            slot += 1;
        };
    }
    meta!();
    // DQT
    let mut used: Vec<usize> = img.comps.iter().map(|c| c.tq).collect();
    used.sort_unstable();
    used.dedup();
    let qps: Vec<Vec<u8>> = used
        .iter()
        .map(|&i| {
            let mut p = vec![i as u8];
            p.extend(ZZ.iter().map(|&z| img.qt[i][z]));
            p
        })
        .collect();
    if o.decoys {
        for &i in &used {
            let mut p = vec![i as u8];
            p.extend((0..64).map(|k| (k * 3 + i * 7 + 2) as u8));
            lay.segs.push(out.len());
            seg(&mut out, o.fill, 0xDB, &p);
        }
    }
    if o.dqt_joined {
        lay.segs.push(out.len());
        seg(&mut out, o.fill, 0xDB, &qps.concat());
        meta!();
    } else {
        for p in &qps {
            lay.segs.push(out.len());
            seg(&mut out, o.fill, 0xDB, p);
            meta!();
        }
    }
    let scans = if o.scans.is_empty() { default_scans(img) } else { o.scans.clone() };
    let ri = |i: usize| if o.dri_scan.is_empty() { o.dri } else { o.dri_scan[i % o.dri_scan.len()] };
    let toks: Vec<Vec<Tok>> = scans
        .iter()
        .enumerate()
        .map(|(i, s)| {
            if o.ids_scan.is_empty() {
                return scan_tokens(img, o, s, ri(i));
            }
            let (dc_ids, ac_ids) = o.ids(i);
            scan_tokens(img, &Opts { meta: vec![], dc_ids, ac_ids, ..o.clone() }, s, ri(i))
        })
        .collect();
    let tabs: Vec<Tables> = if o.shared {
        let t = build_tables(&toks.concat(), o.huff, 0, o.force, o.force_dc);
        let mut v = vec![([None, None, None, None], [None, None, None, None]); scans.len()];
        v[0] = t;
        v
    } else {
        toks.iter().enumerate().map(|(i, t)| build_tables(t, o.huff, i as u64, o.force, o.force_dc)).collect()
    };
    for d in &o.dri_decoys {
        lay.segs.push(out.len());
        seg(&mut out, o.fill, 0xDD, &(*d as u16).to_be_bytes());
    }
    if o.dri_zero || (!o.dri_decoys.is_empty() && o.dri == 0 && o.dri_scan.is_empty()) {
        lay.segs.push(out.len());
        seg(&mut out, o.fill, 0xDD, &[0, 0]);
    }
    if o.decoys {
        // some legal tables, none of them right
        for i in 0..4 {
            if tabs[0].0[i].is_some() {
                lay.segs.push(out.len());
                seg(&mut out, o.fill, 0xC4, &dht_payload(0, i, &std_table(true, i & 1)));
            }
            if tabs[0].1[i].is_some() {
                lay.segs.push(out.len());
                seg(&mut out, o.fill, 0xC4, &dht_payload(1, i, &std_table(false, 1 - (i & 1))));
            }
        }
    }
    if o.dri > 0 && o.dri_scan.is_empty() && !o.dri_late {
        lay.segs.push(out.len());
        seg(&mut out, o.fill, 0xDD, &(o.dri as u16).to_be_bytes());
    }
    if o.dht_before_sof {
        lay.segs.push(out.len());
        write_dht(&mut out, o, &tabs[0]);
        meta!();
    }
    lay.segs.push(out.len());
    lay.sof = out.len() + o.fill;
    seg(&mut out, o.fill, if o.progressive { 0xC2 } else { 0xC0 }, &sof_payload(img));
    meta!();
    for (i, s) in scans.iter().enumerate() {
        if !o.dri_scan.is_empty() {
            if i == 0 {
                lay.segs.push(out.len());
            }
            seg(&mut out, o.fill, 0xDD, &(ri(i) as u16).to_be_bytes());
        } else if o.dri > 0 && o.dri_late && i == 0 {
            lay.segs.push(out.len());
            seg(&mut out, o.fill, 0xDD, &(o.dri as u16).to_be_bytes());
        }
        if !(o.dht_before_sof && i == 0) {
            if i == 0 {
                lay.segs.push(out.len());
            }
            write_dht(&mut out, o, &tabs[i]);
            meta!();
        }
        let mut p = vec![s.comps.len() as u8];
        for &c in &s.comps {
            p.extend([img.comps[c].id, o.selector(i, s, c)]);
        }
        p.extend([s.ss as u8, s.se as u8, ((s.ah << 4) | s.al) as u8]);
        if i == 0 {
            lay.segs.push(out.len());
        }
        seg(&mut out, o.fill, 0xDA, &p);
        let a = out.len();
        out.extend(entropy(&toks[i], if o.shared { &tabs[0] } else { &tabs[i] }, o));
        lay.scans.push((a, out.len()));
        for _ in 0..o.rst_fill {
            out.push(0xFF);
        }
    }
    lay.eoi = out.len();
    if o.eoi {
        out.extend([0xFF, 0xD9]);
    }
    out.extend(&o.trailing);
    (out, lay)
}
