//! C06: tiles, slices and strips.
use super::robust::hint;
use crate::asm::{File, V};
use crate::codec::{ljpeg, Bits};
use crate::corpus::{self, be16, le16, with, without, Cfg};
use crate::pool::Opts;
use crate::rec::{image, par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, DataType};

/// Where the pieces are in the stored data, and the data.
fn lay(pieces: &[Vec<u8>], order: usize) -> (Vec<usize>, Vec<u8>) {
    let n = pieces.len();
    let seq: Vec<usize> = match order {
        0 | 2 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| (i + 1) % n).collect(),
    };
    let mut at = vec![0; n];
    let mut d = vec![];
    for i in seq {
        at[i] = d.len();
        d.extend(&pieces[i]);
        if order >= 2 {
            // between pieces: what isn't in the image
            d.extend([0xee, 0xd1, 0xcc][..1 + i % 3].iter());
        }
    }
    (at, d)
}

pub const ORDERS: [&str; 4] = ["in order", "reversed", "gaps", "rotated"];

fn ints(v: &[usize], short: bool) -> V {
    if short {
        V::S(v.iter().map(|x| *x as u16).collect())
    } else {
        V::L(v.iter().map(|x| *x as u32).collect())
    }
}

/// A file whose raw data are `pieces`, as tiles or strips.
pub fn pieces(
    build: fn(&Cfg) -> File,
    c: Cfg,
    (bits, comp): (u16, u16),
    pieces: &[Vec<u8>],
    order: usize,
    tile: Option<(usize, usize)>,
    rps: usize,
    short: bool,
    dir: &'static str,
) -> File {
    let (at, d) = lay(pieces, order);
    let lens: Vec<usize> = pieces.iter().map(|p| p.len()).collect();
    let mut base = 0;
    let mut f = None;
    for _ in 0..2 {
        let off: Vec<usize> = at.iter().map(|a| a + base).collect();
        let c = c.clone().raw(bits, comp, d.clone());
        let g = match tile {
            Some((tw, th)) => build(
                &c.tweak(without("raw", 0x111))
                    .tweak(without("raw", 0x116))
                    .tweak(without("raw", 0x117))
                    .tweak(with("raw", 0x142, ints(&[tw], short)))
                    .tweak(with("raw", 0x143, ints(&[th], short)))
                    .tweak(with("raw", 0x145, ints(&lens, short)))
                    .tweak(with("raw", 0x144, ints(&off, short))),
            ),
            None => build(
                &c.tweak(with(dir, 0x111, ints(&off, short)))
                    .tweak(with(dir, 0x116, ints(&[rps], short)))
                    .tweak(with(dir, 0x117, ints(&lens, short))),
            ),
        };
        base = g.labels["raw"];
        f = Some(g);
    }
    f.unwrap()
}

/// One piece with LJPEG. shape 0: a component; 1: two; 2: a component, half
/// the width and twice the height; 3: 4 components
pub fn jpeg(img: &[u16], w: usize, h: usize, prec: u8, shape: usize) -> Option<Vec<u8>> {
    let (jw, jh, n) = match shape {
        0 => (w, h, 1),
        1 if w % 2 == 0 => (w / 2, h, 2),
        2 if w % 2 == 0 => (w / 2, h * 2, 1),
        3 if w % 4 == 0 => (w / 4, h, 4),
        _ => return None,
    };
    Some(ljpeg::encode(
        &ljpeg::Params {
            psv: [1, 6, 7, 2][shape],
            table: 2,
            ntables: if shape == 1 { 2 } else { 1 },
            ..ljpeg::Params::new(jw, jh, n, prec)
        },
        img,
    ))
}

/// One piece stored plainly
fn plain(img: &[u16], w: usize, bits: u32, wide: bool, be: bool) -> Vec<u8> {
    if wide {
        return if be { be16(img) } else { le16(img) };
    }
    match bits {
        8 => img.iter().map(|v| *v as u8).collect(),
        12 if !be => {
            let mut o = vec![];
            for r in img.chunks(w) {
                for p in r.chunks(2) {
                    let q = p.get(1).copied().unwrap_or(0xabc);
                    o.push(p[0] as u8);
                    o.push((p[0] >> 8) as u8 | (q << 4) as u8);
                    if p.len() == 2 {
                        o.push((q >> 4) as u8);
                    }
                }
            }
            o
        }
        _ => {
            let mut o = vec![];
            for r in img.chunks(w) {
                let mut b = Bits::new(false);
                for v in r {
                    b.put(*v as u32, bits);
                }
                while b.bit_len() % 8 != 0 {
                    b.put(1, 1);
                }
                o.extend(b.buf);
            }
            o
        }
    }
}

fn check(r: &mut Rec, key: &str, ext: &str, f: Vec<u8>, w: usize, h: usize, img: &[u16], detail: &str) {
    r.transitions += img.len() as u64;
    let f = match rawfile_from_memory(f, Some(hint(ext))) {
        Ok(f) => f,
        Err(e) => return r.bad(key, format!("{detail}: not opened {e:?}")),
    };
    match f.raw_data(false) {
        Err(e) => r.bad(key, format!("{detail}: {e:?}")),
        Ok(raw) => {
            let got = raw.data16().unwrap_or(&[]);
            let b: Vec<u8> = got.iter().flat_map(|v| v.to_le_bytes()).collect();
            r.trace(0, &b);
            if (raw.width() as usize, raw.height() as usize) != (w, h) || raw.data_type() != DataType::Raw {
                r.bad(
                    format!("{key}:shape"),
                    format!("{detail}: {}x{} {:?}", raw.width(), raw.height(), raw.data_type()),
                );
            }
            if got != img {
                let i = got.iter().zip(img).position(|(a, b)| a != b);
                r.bad(
                    key,
                    format!(
                        "{detail}: {} samples for {}, first difference at {i:?} {:x?}",
                        got.len(),
                        img.len(),
                        i.map(|i| (got[i], img[i]))
                    ),
                );
            }
        }
    }
}

/// (bits, kept in 16 bits, compression)
const STORE: &[(u16, bool, u16)] = &[
    (16, true, 7),
    (14, true, 7),
    (16, true, 1),
    (8, false, 1),
    (12, false, 1),
    (14, false, 1),
    (12, true, 1),
    (14, true, 1),
    (10, false, 1),
];

/// each sample tells where it is
fn numbered(w: usize, h: usize, bits: u32, kind: usize) -> Vec<u16> {
    if kind > 0 {
        return image(kind, w, h, bits);
    }
    let m = (1u32 << bits) - 1;
    (0..w * h).map(|i| ((i as u32 * 1237 + 91) & m) as u16).collect()
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C06", "model_checking", thorough);
    ctx.rule = "for every way of cutting an image into tiles, slices or strips within the bounds, every storage, order of the pieces in the file, byte order and value of the samples outside of the image: the raw data are the image".into();
    let opts = Opts::default();
    let (nw, nt) = if thorough { (14, 10) } else { (9, 6) };
    let shapes = |s: usize| if STORE[s].2 == 7 { 4 } else { 1 };
    // tiles
    let mut cases = vec![];
    for s in 0..STORE.len() {
        for shape in 0..shapes(s) {
            for w in 1..=nw {
                for h in 1..=nw {
                    cases.push((s, shape, w, h));
                }
            }
        }
    }
    let name = |i: u64| {
        let (s, shape, w, h) = cases[i as usize];
        format!("tiles:{}b{}c{}:{shape}:{w}x{h}", STORE[s].0, if STORE[s].1 { "w" } else { "" }, STORE[s].2)
    };
    par(
        &mut ctx,
        "storages x image sizes x tile sizes x orders x byte orders x types x overhang contents: tiles",
        cases.len() as u64,
        2,
        &opts,
        &name,
        &|i, r| {
            let (s, shape, w, h) = cases[i as usize];
            let (bits, wide, comp) = STORE[s];
            let key = name(i);
            for tw in 1..=nt {
                for th in 1..=nt {
                    // a packed tile as long as 16-bit samples is taken as such
                    if !wide && bits > 10 && comp == 1 && (tw * bits as usize + 7) / 8 == 2 * tw {
                        continue;
                    }
                    let (nx, ny) = ((w + tw - 1) / tw, (h + th - 1) / th);
                    for k in 0..(ORDERS.len() * 4) {
                        let mut m = Mix(k as u64);
                        let order = m.take(ORDERS.len());
                        let be = m.take(2) == 1;
                        let short = m.take(2) == 1;
                        let kind = (tw + th + order) % 3;
                        let img = numbered(w, h, bits as u32, kind);
                        let hang = [0u16, !0, 0x5a5a][(k + tw) % 3] & (((1u32 << bits) - 1) as u16);
                        let mut ps = vec![];
                        for ty in 0..ny {
                            for tx in 0..nx {
                                let mut t = vec![];
                                for y in ty * th..(ty + 1) * th {
                                    for x in tx * tw..(tx + 1) * tw {
                                        t.push(if x < w && y < h { img[y * w + x] } else { hang });
                                    }
                                }
                                if comp == 7 {
                                    match jpeg(&t, tw, th, bits as u8, shape) {
                                        Some(d) => ps.push(d),
                                        None => break,
                                    }
                                } else {
                                    ps.push(plain(&t, tw, bits as u32, wide, be));
                                }
                            }
                        }
                        if ps.len() < nx * ny {
                            continue;
                        }
                        let f = pieces(
                            corpus::dng,
                            Cfg::new(be, w, h),
                            (bits, comp),
                            &ps,
                            order,
                            Some((tw, th)),
                            0,
                            short,
                            "raw",
                        );
                        let d = format!("tiles {tw}x{th} {} be={be} short={short} kind={kind}", ORDERS[order]);
                        check(r, &key, "dng", f.data, w, h, &img, &d);
                    }
                }
            }
        },
    );
    // strips
    type B = (&'static str, &'static str, fn(&Cfg) -> File, &'static [(u16, bool, u16)], Option<bool>);
    let nef: fn(&Cfg) -> File = corpus::nef;
    let arw: fn(&Cfg) -> File = corpus::arw;
    let strips: Vec<B> = vec![
        ("dng", "dng", corpus::dng, STORE, None),
        ("dngmain", "dng", |c| corpus::dng(&c.clone().var(4)), &STORE[2..], None),
        ("nef", "nef", nef, &[(16, true, 1), (12, true, 1), (14, true, 1), (12, false, 1)], Some(true)),
        ("arw", "arw", arw, &[(16, true, 1), (14, true, 1), (12, true, 1)], None),
        ("pef", "pef", corpus::pef, &[(16, true, 1), (12, true, 1), (12, false, 32773)], None),
        ("erf", "erf", corpus::erf, &[(16, true, 1)], None),
    ];
    let mut cases = vec![];
    for (b, t) in strips.iter().enumerate() {
        for (s, st) in t.3.iter().enumerate() {
            for shape in 0..(if st.2 == 7 { 4 } else { 1 }) {
                for w in 1..=nw + 1 {
                    for h in 1..=nw + 1 {
                        cases.push((b, s, shape, w, h));
                    }
                }
            }
        }
    }
    let name = |i: u64| {
        let (b, s, shape, w, h) = cases[i as usize];
        let t = &strips[b];
        let st = t.3[s];
        format!("strips:{}:{}b{}c{}:{shape}:{w}x{h}", t.0, st.0, if st.1 { "w" } else { "" }, st.2)
    };
    par(
        &mut ctx,
        "formats x storages x image sizes x rows per strip x orders x byte orders x types: strips",
        cases.len() as u64,
        2,
        &opts,
        &name,
        &|i, r| {
            let (b, s, shape, w, h) = cases[i as usize];
            let t = &strips[b];
            let (bits, wide, comp) = t.3[s];
            let key = name(i);
            if !wide && bits > 10 && comp != 7 && (w * bits as usize + 7) / 8 == 2 * w {
                return;
            }
            for rps in 1..=h + 1 {
                for k in 0..(ORDERS.len() * 4) {
                    let mut m = Mix(k as u64);
                    let order = m.take(ORDERS.len());
                    let be = m.take(2) == 1;
                    let short = m.take(2) == 1;
                    if t.4.is_some() && !wide && Some(be) != t.4 {
                        continue;
                    }
                    let kind = (rps + order) % 3;
                    let img = numbered(w, h, bits as u32, kind);
                    let mut ps = vec![];
                    for rows in img.chunks(w * rps) {
                        if comp == 7 {
                            match jpeg(rows, w, rows.len() / w, bits as u8, shape) {
                                Some(d) => ps.push(d),
                                None => return,
                            }
                        } else {
                            // Pentax: big endian bits in any file
                            ps.push(plain(rows, w, bits as u32, wide, be || comp == 32773));
                        }
                    }
                    // a single JPEG decodes to its own frame
                    if ps.len() == 1 && comp == 7 && shape == 2 {
                        continue;
                    }
                    let f = pieces(t.2, Cfg::new(be, w, h), (bits, comp), &ps, order, None, rps, short, if t.0 == "pef" { "main" } else { "raw" });
                    let d = format!("{rps} rows per strip {} be={be} short={short} kind={kind}", ORDERS[order]);
                    check(r, &key, t.1, f.data, w, h, &img, &d);
                }
            }
        },
    );
    // slices
    let nmax = if thorough { 5 } else { 3 };
    let wmax = if thorough { 24 } else { 16 };
    let mut cases = vec![];
    for shape in 0..4usize {
        for n in 0..=nmax {
            for w1 in 1..=wmax / 2 {
                for w2 in 1..=wmax / 2 {
                    let w = n * w1 + w2;
                    let unit = [1, 2, 4, 2][shape];
                    if w <= wmax && w % unit == 0 && w >= 2 {
                        cases.push((shape, n, w1, w2));
                    }
                }
            }
        }
    }
    let name = |i: u64| {
        let (shape, n, w1, w2) = cases[i as usize];
        format!("slices:{}:{n}x{w1}+{w2}", ["1", "2", "4", "4h"][shape])
    };
    par(
        &mut ctx,
        "frame shapes x numbers of slices x widths x heights x byte orders x contents: slices",
        cases.len() as u64,
        1,
        &opts,
        &name,
        &|i, r| {
            let (shape, n, w1, w2) = cases[i as usize];
            let w = n * w1 + w2;
            let key = name(i);
            for h in 1..=8 {
                if shape == 3 && h % 2 != 0 {
                    continue;
                }
                for be in [false, true] {
                    for kind in 0..3 {
                        let img = numbered(w, h, 14, kind);
                        let mut seq = vec![];
                        let mut x0 = 0;
                        for k in 0..=n {
                            let sw = if k < n { w1 } else { w2 };
                            for y in 0..h {
                                seq.extend(&img[y * w + x0..][..sw]);
                            }
                            x0 += sw;
                        }
                        // columns and rows of the frame, components
                        let (jw, jh, nc) = [(w, h, 1), (w / 2, h, 2), (w / 4, h, 4), (w / 2, h / 2, 4)][shape];
                        for rst in [0, 1] {
                            let d = ljpeg::encode(
                                &ljpeg::Params {
                                    rst,
                                    table: 2,
                                    ntables: nc.min(2),
                                    ..ljpeg::Params::new(jw, jh, nc, 14)
                                },
                                &seq,
                            );
                            let mut d2 = d;
                            while d2.len() < 16 {
                                d2.push(0);
                            }
                            let f = corpus::cr2_with(&Cfg::new(be, w, h), &d2, Some((n, w1, w2)));
                            check(r, &key, "cr2", f.data, w, h, &img, &format!("{w}x{h} be={be} kind={kind} rst={rst}"));
                        }
                    }
                }
            }
        },
    );
    ctx.finish()
}
