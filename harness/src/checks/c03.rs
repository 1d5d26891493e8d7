//! C03: Huffman-predictive vendor raw data.
use super::robust::hint;
use crate::asm::{File, V};
use crate::codec::nikon::{self as nk, PTable};
use crate::codec::{category, crw as cc};
use crate::corpus::{self, c32, Cfg, Ci};
use crate::pool::Opts;
use crate::rec::{image, noise, par, Mix, Rec, PATTERNS};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, DataType};

fn judge(r: &mut Rec, key: &str, ext: &str, file: Vec<u8>, w: usize, h: usize, bpc: u16, want: &[u16]) {
    r.transitions += want.len() as u64;
    let f = match rawfile_from_memory(file, Some(hint(ext))) {
        Ok(f) => f,
        Err(e) => return r.bad(key, format!("not opened {e:?}")),
    };
    match f.raw_data(false) {
        Err(e) => r.bad(key, format!("{w}x{h} {e:?}")),
        Ok(raw) => {
            let got = raw.data16().unwrap_or(&[]);
            let b: Vec<u8> = got.iter().flat_map(|v| v.to_le_bytes()).collect();
            r.trace(0, &b);
            if raw.width() as usize != w
                || raw.height() as usize != h
                || raw.data_type() != DataType::Raw
                || raw.bpc() != bpc
            {
                r.bad(
                    format!("{key}:shape"),
                    format!(
                        "{}x{} {:?} {} bits instead of {w}x{h} {bpc} bits",
                        raw.width(),
                        raw.height(),
                        raw.data_type(),
                        raw.bpc()
                    ),
                );
            } else if got != want {
                let i = got.iter().zip(want).position(|(a, b)| a != b);
                r.bad(
                    key,
                    format!(
                        "{w}x{h} {} samples of {}, first difference {i:?} {:?}",
                        got.len(),
                        want.len(),
                        i.map(|i| (got[i], want[i]))
                    ),
                );
            }
        }
    }
}

// ---- Nikon

/// How the maker note describes the compression
#[derive(Clone, Copy, Debug)]
struct Nk {
    name: &'static str,
    v: (u8, u8),
    bits: u32,
    /// number of curve elements
    n: usize,
    interp: bool,
    lossless: bool,
    skip: bool,
}
const fn nkv(name: &'static str, v: (u8, u8), bits: u32, n: usize) -> Nk {
    Nk {
        name,
        v,
        bits,
        n,
        interp: v.0 == 0x44 && v.1 == 0x20,
        lossless: v.0 == 0x46,
        skip: v.0 == 0x49 || v.1 == 0x58,
    }
}
const NKS: [Nk; 16] = [
    nkv("i12x2", (0x44, 0x20), 12, 2),
    nkv("i12x17", (0x44, 0x20), 12, 17),
    nkv("i12x257", (0x44, 0x20), 12, 257),
    nkv("i14x33", (0x44, 0x20), 14, 33),
    nkv("i14x257", (0x44, 0x20), 14, 257),
    nkv("d12", (0x44, 0x10), 12, 683),
    nkv("d12full", (0x44, 0x10), 12, 4096),
    nkv("d12one", (0x44, 0x10), 12, 1),
    nkv("d14", (0x44, 0x10), 14, 2753),
    nkv("d14full", (0x44, 0x10), 14, 16384),
    nkv("s12", (0x49, 0x00), 12, 700),
    nkv("s14", (0x49, 0x00), 14, 1400),
    nkv("t12", (0x44, 0x58), 12, 650),
    nkv("t14", (0x44, 0x58), 14, 650),
    nkv("l14", (0x46, 0x30), 14, 0),
    nkv("l14curve", (0x46, 0x30), 14, 257),
];
impl Nk {
    fn tables(&self) -> (([u8; 16], &'static [u8]), ([u8; 16], &'static [u8])) {
        match (self.lossless, self.bits) {
            (true, _) => (nk::LOSSLESS_14, nk::LOSSLESS_14),
            (_, 12) => (nk::LOSSY_12, nk::LOSSY_12_SPLIT),
            _ => (nk::LOSSY_14, nk::LOSSY_14_SPLIT),
        }
    }
    /// number of distinct values before the curve
    fn levels(&self) -> usize {
        if self.lossless || self.interp {
            1 << self.bits
        } else {
            self.n
        }
    }
    /// stored curve: increasing, uneven
    fn stored(&self, kind: usize) -> Vec<u16> {
        let top = (1usize << self.bits) - 1;
        let d = self.n.max(2) - 1;
        (0..self.n)
            .map(|i| match kind {
                0 => (i * top / d) as u16,
                1 => (i * i * top / (d * d)).min(top) as u16,
                _ => (top - i * top / d) as u16,
            })
            .collect()
    }
    /// value of each level
    fn curve(&self, kind: usize) -> Vec<u16> {
        let s = self.stored(kind);
        if self.lossless {
            (0..1usize << self.bits).map(|v| v as u16).collect()
        } else if self.interp {
            let step = (1usize << self.bits) / (self.n - 1);
            (0..1usize << self.bits)
                .map(|i| {
                    let (a, b, f) = (s[i / step] as usize, s[i / step + 1] as usize, i % step);
                    ((a * (step - f) + b * f) / step) as u16
                })
                .collect()
        } else {
            s
        }
    }
    fn blob(&self, be: bool, vpred: [[u16; 2]; 2], kind: usize, split: u16) -> Vec<u8> {
        let e = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
        let mut o = vec![self.v.0, self.v.1];
        if self.skip {
            o.extend((0..2110u32).map(|i| (i * 7 + 1) as u8));
        }
        for v in vpred.iter().flatten() {
            o.extend(e(*v));
        }
        o.extend(e(self.n as u16));
        for v in self.stored(kind) {
            o.extend(e(v));
        }
        if self.interp {
            while o.len() < 562 {
                o.push(0x5a);
            }
            if o.len() == 562 {
                o.extend(e(split));
            }
            o.extend([0x5a; 6]);
        }
        o
    }
    /// The row of the split is within the curve when it is long
    fn can_split(&self) -> bool {
        self.interp && self.n <= 257
    }
}
fn nef_file(be: bool, w: usize, h: usize, bits: u32, data: &[u8], table: Vec<u8>) -> File {
    let mut c = Cfg::new(be, w, h);
    c.img = vec![];
    corpus::nef_with(&c, bits as u16, 34713, data, vec![(0x96, V::U(table))])
}
/// `img`: w*h values before the curve (the last column isn't part of the image)
#[allow(clippy::too_many_arguments)]
fn nikon(r: &mut Rec, key: &str, k: &Nk, be: bool, w: usize, img: &[i32], vpred: [[u16; 2]; 2], kind: usize, split: usize) {
    let h = img.len() / w;
    let (t1, t2) = k.tables();
    let sp = if split > 0 { Some((split, t2)) } else { None };
    let (data, got) = nk::encode(img, w, t1, sp, vpred);
    let curve = k.curve(kind);
    let want: Vec<u16> = got
        .chunks(w)
        .flat_map(|row| &row[..w - 1])
        .map(|v| curve[(*v).clamp(0, curve.len() as i32 - 1) as usize] << (16 - k.bits))
        .collect();
    let mut data = data;
    data.extend([0xa5; 8]);
    let f = nef_file(be, w, h, k.bits, &data, k.blob(be, vpred, kind, split as u16));
    judge(r, key, "nef", f.data, w - 1, h, k.bits as u16, &want);
}

fn nikon_diffs(ctx: &mut Ctx) {
    // every difference of every table: alternately added to and taken from a value
    const PER: usize = 256;
    let mut cases = vec![];
    for (i, k) in NKS.iter().enumerate() {
        if !["i12x257", "i14x257", "l14", "d12full", "d14full"].contains(&k.name) {
            continue;
        }
        let n = (1usize << k.bits) / PER;
        for c in 0..n {
            cases.push((i, c * PER, false));
            if k.can_split() {
                cases.push((i, c * PER, true));
            }
        }
    }
    let name = |i: u64| {
        let (k, d, s) = cases[i as usize];
        format!("nikon-diff:{}:{}{d:x}", NKS[k].name, if s { "split:" } else { "" })
    };
    par(ctx, "nikon-differences", cases.len() as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (ki, d0, split) = cases[i as usize];
        let k = &NKS[ki];
        let top = (1i32 << k.bits) - 1;
        // columns: 0, 1, then pairs (+d, -d)
        for first in [true, false] {
            let mut img = vec![];
            let w = 17;
            let low = d0 % 512 == 0;
            for d in d0..d0 + PER {
                let d = d as i32;
                let (a, b) = if first { (0, d) } else { (top, top - d) };
                let (a, b) = if low { (a, b) } else { (b, a) };
                img.extend([a, a, b, b]);
            }
            while img.len() % w != 0 {
                img.push(0);
            }
            if split {
                // the row before the split
                let mut pre: Vec<i32> = (0..w as i32).map(|x| x * 3).collect();
                pre.extend(img);
                img = pre;
            }
            nikon(r, &name(i), k, i % 2 == 0, w, &img, [[0, 0], [0, 0]], 0, split as usize);
        }
    });
}

fn nikon_product(ctx: &mut Ctx) {
    let preds: [[[u16; 2]; 2]; 4] = [
        [[0, 0], [0, 0]],
        [[1, 2], [3, 4]],
        [[100, 0x7ff], [0x3ff, 5]],
        [[0x7ff, 0x7fe], [1, 0]],
    ];
    let geo = ctx.q::<&[(usize, usize)]>(
        &[(2, 1), (3, 1), (3, 3), (4, 2), (5, 4), (9, 5), (34, 7)],
        &[(2, 1), (2, 5), (3, 1), (3, 3), (4, 2), (5, 4), (6, 6), (9, 5), (17, 16), (34, 7), (65, 33)],
    );
    // contents: patterns, and excursions out of the range
    let n = NKS.len() * 2 * preds.len() * geo.len() * 3 * (PATTERNS + 2);
    let decode = |i: u64| {
        let mut m = Mix(i);
        let k = m.take(NKS.len());
        let be = m.take(2) == 1;
        let p = m.take(preds.len());
        let g = m.take(geo.len());
        let kind = m.take(3);
        let c = m.take(PATTERNS + 2);
        (k, be, p, g, kind, c)
    };
    let name = |i: u64| {
        let (k, be, p, g, kind, c) = decode(i);
        format!(
            "nikon:{}:{}:p{p}:{}x{}:curve{kind}:img{c}",
            NKS[k].name,
            if be { "be" } else { "le" },
            geo[g].0,
            geo[g].1
        )
    };
    par(ctx, "nikon-product", n as u64, 64, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (k, be, p, g, kind, c) = decode(i);
        let k = &NKS[k];
        let (w, h) = geo[g];
        let lv = k.levels() as i32;
        let img: Vec<i32> = if c < PATTERNS {
            image(c, w, h, 16).iter().map(|v| (*v as i32 * lv) >> 16).collect()
        } else {
            let mut rnd = noise(c as u64 + w as u64);
            (0..w * h)
                .map(|j| match (j + c) % 4 {
                    0 => -1 - (rnd() % 40) as i32,
                    1 => lv - 1,
                    2 => lv + (rnd() % 40) as i32,
                    _ => (rnd() % 8) as i32,
                })
                .collect()
        };
        let splits: Vec<usize> = if k.can_split() {
            let mut v = vec![0, 1, h.saturating_sub(1), h, h + 3];
            v.sort_unstable();
            v.dedup();
            v
        } else {
            vec![0]
        };
        for s in splits {
            nikon(r, &format!("{}:split{s}", name(i)), k, be, w, &img, preds[p], kind, s);
        }
    });
}

/// Every row of four samples over an alphabet of the boundaries of the categories.
fn small(ctx: &mut Ctx) {
    let alpha = |bits: u32, n: usize| -> Vec<i32> {
        let mut v = vec![0, (1i32 << bits) - 1];
        for k in 0..bits - 1 {
            for x in [(1 << (bits - 1 - k)) - 1, 1 << (bits - 1 - k)] {
                if v.len() < n && !v.contains(&x) {
                    v.push(x);
                }
            }
        }
        v
    };
    let nks: Vec<&Nk> = NKS
        .iter()
        .filter(|k| ["d12full", "d14full", "l14", "i12x257", "i14x257"].contains(&k.name))
        .collect();
    let pts: Vec<(String, PTable, bool)> = ptables(true).into_iter().step_by(13).collect();
    let n = ctx.q(9usize, 14);
    let total = (nks.len() + pts.len()) * n * n * n;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (m.take(nks.len() + pts.len()), m.take(n), m.take(n), m.take(n))
    };
    let name = |i: u64| {
        let (t, a, b, c) = decode(i);
        let t = if t < nks.len() { nks[t].name } else { &pts[t - nks.len()].0 };
        format!("small:{t}:{a}:{b}:{c}")
    };
    par(ctx, "all-small-rows", total as u64, 200, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, a, b, c) = decode(i);
        if t < nks.len() {
            let k = nks[t];
            let al = alpha(k.bits, n);
            for d in &al {
                let img = [al[a], al[b], al[c], *d, 0, al[c], al[a], *d, al[b], 0];
                let split = if k.can_split() { 1 } else { 0 };
                nikon(r, &name(i), k, a % 2 == 0, 5, &img, [[0, 0], [0, 0]], 1, split);
            }
        } else {
            let t = &pts[t - nks.len()];
            let bits = t.1.len() as u32 - 1;
            let al = alpha(bits, n);
            for d in &al {
                let img: Vec<u16> = [al[a], al[b], al[c], *d, al[c], al[a], *d, al[b]].iter().map(|v| *v as u16).collect();
                let data = nk::pentax(&img, 4, &t.1).expect("codes");
                let f = pef_file(a % 2 == 0, 4, 2, bits as u16, &data, t.2.then_some(&t.1), &[]);
                judge(r, &name(i), "pef", f, 4, 2, bits as u16, &img);
            }
        }
    });
}

// ---- Pentax

fn pef_file(be: bool, w: usize, h: usize, bits: u16, data: &[u8], table: Option<&PTable>, junk: &[u8]) -> Vec<u8> {
    let mut c = Cfg::new(be, w, h);
    c.img = vec![];
    let mn = match table {
        Some(t) => vec![(0x220, V::U(nk::pentax_blob(t, be)))],
        None => vec![],
    };
    let mut f = corpus::pef_with(&c, bits, 65535, data, mn).data;
    f.extend(junk);
    f
}
/// (name, table, in the file)
fn ptables(all: bool) -> Vec<(String, PTable, bool)> {
    let mut v = vec![("legacy".to_string(), nk::pentax_legacy(), false)];
    let lens: [(&str, Vec<u32>); 5] = [
        ("l13", vec![2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10]),
        ("flat12", vec![4; 12]),
        ("flat15", vec![4; 15]),
        ("steep14", vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 12, 12, 12]),
        ("mid15", vec![2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12]),
    ];
    for (n, l) in lens {
        let d = l.len();
        for rot in 0..d {
            for flip in [false, true] {
                for rev in [false, true] {
                    if !all && (rot + flip as usize * 2 + rev as usize) % 3 != 0 {
                        continue;
                    }
                    let mut o: Vec<usize> = (0..d).map(|i| (i + rot) % d).collect();
                    if rev {
                        o.reverse();
                    }
                    v.push((format!("{n}r{rot}{}{}", flip as u8, rev as u8), nk::ptable(&l, &o, flip), true));
                }
            }
        }
    }
    v
}
fn pentax(ctx: &mut Ctx) {
    let tables = ptables(true);
    // every difference of each table
    const PER: i32 = 512;
    let mut cases = vec![];
    let few = tables.iter().enumerate().filter(|(i, t)| !t.2 || i % ctx.q(7, 1) == 1).map(|x| x.0);
    for t in few {
        let top = 1i32 << (tables[t].1.len() - 1);
        for c in 0..(top + PER - 1) / PER {
            cases.push((t, c * PER));
        }
    }
    let name = |i: u64| format!("pentax-diff:{}:{:x}", tables[cases[i as usize].0].0, cases[i as usize].1);
    par(ctx, "pentax-differences", cases.len() as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, d0) = cases[i as usize];
        let t = &tables[t];
        let top = 1i32 << (t.1.len() - 1);
        let w = 31;
        for up in [true, false] {
            let mut img: Vec<u16> = vec![];
            for d in d0..(d0 + PER).min(top) {
                // small steps to get to the start
                let (a, b) = if up { (0, d) } else { (d, 0) };
                img.extend([a as u16, a as u16, b as u16, b as u16]);
            }
            while img.len() % w != 0 {
                img.push(0);
            }
            let data = nk::pentax(&img, w, &t.1).expect("codes");
            let f = pef_file(i % 2 == 0, w, img.len() / w, 16, &data, t.2.then_some(&t.1), &[]);
            judge(r, &name(i), "pef", f, w, img.len() / w, 16, &img);
        }
    });
    let geo = ctx.q::<&[(usize, usize)]>(
        &[(1, 1), (2, 1), (1, 3), (3, 3), (4, 2), (5, 4), (9, 5), (34, 7)],
        &[(1, 1), (2, 1), (1, 3), (2, 5), (3, 1), (3, 3), (4, 2), (5, 4), (6, 6), (9, 5), (17, 16), (34, 7), (65, 33)],
    );
    let junk: [&[u8]; 3] = [&[], &[0xff; 9], &[0; 1]];
    let n = tables.len() * 2 * geo.len() * PATTERNS * junk.len();
    let decode = |i: u64| {
        let mut m = Mix(i);
        (
            m.take(tables.len()),
            m.take(2) == 1,
            m.take(geo.len()),
            m.take(PATTERNS),
            m.take(junk.len()),
        )
    };
    let name = |i: u64| {
        let (t, be, g, c, j) = decode(i);
        format!("pentax:{}:{}:{}x{}:img{c}:j{j}", tables[t].0, if be { "be" } else { "le" }, geo[g].0, geo[g].1)
    };
    par(ctx, "pentax-product", n as u64, 64, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, be, g, c, j) = decode(i);
        let t = &tables[t];
        let (w, h) = geo[g];
        let bits = t.1.len() as u32 - 1;
        let img = image(c, w, h, bits.min(14));
        if let Some(data) = nk::pentax(&img, w, &t.1) {
            let f = pef_file(be, w, h, bits as u16, &data, t.2.then_some(&t.1), junk[j]);
            judge(r, &name(i), "pef", f, w, h, bits as u16, &img);
        }
    });
}

// ---- CRW

fn set_table(recs: &mut [Ci], t: u32, be: bool) {
    for r in recs {
        match r {
            Ci::H(0x1835, d) => d[..4].copy_from_slice(&c32(&[t], be)),
            Ci::S(_, v) => set_table(v, t, be),
            _ => {}
        }
    }
}
fn crw_file(be: bool, w: usize, h: usize, table: usize, raw: &[u8]) -> Vec<u8> {
    let mut c = Cfg::new(be, w, h);
    c.img = vec![];
    let mut recs = corpus::crw_recs(&c, raw);
    set_table(&mut recs, table as u32, be);
    corpus::crw_with(&c, &recs, false, 26).data
}
fn crw(ctx: &mut Ctx) {
    // every difference, first of a block or not
    const PER: usize = 64;
    let n = 3 * 2 * 1024 / PER;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (m.take(3), m.take(2), m.take(1024 / PER) * PER)
    };
    let name = |i: u64| {
        let (t, first, d) = decode(i);
        format!("crw-diff:t{t}:{}:{d}", if first == 1 { "dc" } else { "ac" })
    };
    par(ctx, "crw-differences", n as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, first, d0) = decode(i);
        for neg in [false, true] {
            let w = 128;
            let h = if first == 1 { PER * 2 } else { PER };
            let mut img = vec![512u16; w * h];
            for k in 0..PER {
                let d = (d0 + k) as i32;
                if first == 1 {
                    // at the beginning of the second block of a row
                    let (a, b) = if neg { (1023, 1023 - d) } else { (0, d) };
                    for y in [2 * k, 2 * k + 1] {
                        for x in 0..w {
                            img[y * w + x] = if x < 64 { a } else { b } as u16;
                        }
                    }
                } else {
                    let (a, b) = if neg { (1023, 1023 - d) } else { (0, d) };
                    for x in 0..w {
                        img[k * w + x] = if x % 64 < 7 { a } else { b } as u16;
                    }
                }
            }
            let big = category(d0 as i32 + PER as i32 - 1).0 > 10;
            assert!(!big);
            let raw = cc::encode_ex(&img, w, h, t, false, false);
            judge(r, &name(i), "crw", crw_file(neg, w, h, t, &raw), w, h, 10, &img);
        }
    });
    // every run of zeros and category
    let n = 3 * 64 * 11 * 2;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (m.take(3), m.take(64), m.take(11), m.take(2) == 1)
    };
    let name = |i: u64| {
        let (t, z, c, s) = decode(i);
        format!("crw-run:t{t}:{z}:{c}{}", if s { ":skips" } else { "" })
    };
    par(ctx, "crw-runs", n as u64, 64, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, z, c, s) = decode(i);
        let (w, h) = (64, 4);
        for neg in [false, true] {
            let mut img = vec![512u16; w * h];
            for y in 0..h {
                // a first difference every other row
                let base = [512, if neg { 1023 } else { 0 }][y % 2];
                let d = if c == 0 { 0 } else { 1i32 << (c - 1) };
                let d = if base == 1023 || (base == 512 && neg) { -d } else { d };
                for x in 0..w {
                    img[y * w + x] = base as u16;
                    if x >= z && (x - z) % 2 == 0 {
                        img[y * w + x] = (base + d).clamp(0, 1023) as u16;
                    }
                }
            }
            let raw = cc::encode_ex(&img, w, h, t, false, s);
            judge(r, &name(i), "crw", crw_file(neg, w, h, t, &raw), w, h, 10, &img);
        }
    });
    let geo = ctx.q::<&[(usize, usize)]>(
        &[(64, 4), (32, 4), (16, 4), (128, 5), (96, 4), (8, 8), (100, 16), (320, 7)],
        &[(64, 4), (64, 5), (32, 4), (16, 4), (128, 5), (96, 4), (8, 8), (100, 16), (320, 7), (1024, 5), (4, 16), (12, 16), (36, 64)],
    );
    let n = 4 * 2 * 2 * 2 * geo.len() * PATTERNS;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (
            m.take(4),
            m.take(2) == 1,
            m.take(2) == 1,
            m.take(2) == 1,
            m.take(geo.len()),
            m.take(PATTERNS),
        )
    };
    let name = |i: u64| {
        let (t, low, skips, be, g, c) = decode(i);
        format!(
            "crw:t{t}:{}{}{}:{}x{}:img{c}",
            if low { "low:" } else { "" },
            if skips { "skips:" } else { "" },
            if be { "be" } else { "le" },
            geo[g].0,
            geo[g].1
        )
    };
    par(ctx, "crw-product", n as u64, 16, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (t, low, skips, be, g, c) = decode(i);
        let (w, h) = geo[g];
        let bits = if low { 12 } else { 10 };
        let img = image(c, w, h, bits);
        let raw = cc::encode_ex(&img, w, h, t, low, skips);
        judge(r, &name(i), "crw", crw_file(be, w, h, t, &raw), w, h, bits as u16, &img);
    });
}

pub fn run(thorough: bool) -> i32 {
    let mut c = Ctx::new("C03", "model_checking", thorough);
    let ctx = &mut c;
    nikon_diffs(ctx);
    nikon_product(ctx);
    pentax(ctx);
    small(ctx);
    crw(ctx);
    ctx.rule = "each stream is produced by an encoder written from the published format description; the decoded samples, dimensions and depth must be those of the encoded image".into();
    ctx.assumptions = vec![
        "12-bit lossless NEF is documented as unsupported and is returned compressed".into(),
        "a CRW without any 0xff byte is ambiguous about its low bits and isn't judged".into(),
    ];
    c.finish()
}
