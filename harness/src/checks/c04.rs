//! C04: Olympus, Panasonic and Fujifilm compressed raw data.
use super::robust::hint;
use crate::codec::fuji::{Fuji, Seen};
use crate::codec::olympus;
use crate::codec::panasonic::{pack, Group};
use crate::corpus::{self, Cfg};
use crate::pool::{catch, Opts};
use crate::rec::{image, noise, par, Mix, Rec, PATTERNS};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, DataType};

#[allow(clippy::too_many_arguments)]
fn judge(r: &mut Rec, key: &str, ext: &str, file: Vec<u8>, w: usize, h: usize, bpc: u16, want: &[u16]) {
    r.transitions += want.len() as u64;
    let f = match rawfile_from_memory(file, Some(hint(ext))) {
        Ok(f) => f,
        Err(e) => return r.bad(key, format!("not opened {e:?}")),
    };
    match f.raw_data(false) {
        Err(e) => r.bad(key, format!("{w}x{h} {e:?}")),
        Ok(raw) => {
            let got = raw.data16().unwrap_or(&[]);
            let b: Vec<u8> = got.iter().flat_map(|v| v.to_le_bytes()).collect();
            r.trace(0, &b);
            if raw.width() as usize != w
                || raw.height() as usize != h
                || raw.data_type() != DataType::Raw
                || raw.bpc() != bpc
            {
                r.bad(
                    format!("{key}:shape"),
                    format!(
                        "{}x{} {:?} {} bits instead of {w}x{h} {bpc} bits",
                        raw.width(),
                        raw.height(),
                        raw.data_type(),
                        raw.bpc()
                    ),
                );
            } else {
                same(r, key, got, want, w);
            }
        }
    }
}
fn same(r: &mut Rec, key: &str, got: &[u16], want: &[u16], w: usize) {
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b);
        r.bad(
            key,
            format!(
                "{w} wide, {} samples of {}, first difference {i:?} {:?}",
                got.len(),
                want.len(),
                i.map(|i| (got[i], want[i]))
            ),
        );
    }
}

// ---- Olympus

fn olympus_img(r: &mut Rec, key: &str, img: &[u16], w: usize, odd: u32, file: bool) {
    let h = img.len() / w;
    let (data, esc) = olympus::encode(img, w, odd);
    if esc > 0 {
        r.state(b"escape");
    }
    match catch(|| libopenraw::decompress_olympus(&data, w, h)) {
        Ok(Ok(got)) => {
            r.transitions += img.len() as u64;
            r.trace(0, &data);
            same(r, key, &got, img, w);
        }
        Ok(Err(e)) => r.bad(key, format!("{w}x{h}: {e:?}")),
        Err(e) => r.bad(key, format!("{w}x{h}: {e}")),
    }
    // A file: told from other kinds by the length of the data
    let px = w * h;
    if file && data.len() < px * 2 && data.len() != px * 3 / 2 && data.len() != h * (w * 12 / 8 + (w + 2) / 10) {
        let mut c = Cfg::new(px % 2 == 0, w, h);
        c.img = vec![];
        let f = corpus::orf_with(&c, &data, 16);
        judge(r, &format!("{key}:file"), "orf", f.data, w, h, 12, img);
    }
}
fn olympus(ctx: &mut Ctx) {
    // every difference from every pair of values of a grid, at each parity
    let name = |i: u64| format!("olympus-pairs:{i}");
    let step = ctx.q(8usize, 1);
    let n = 4096 / step;
    par(ctx, "olympus-pairs", n as u64, 8, &Opts::default(), &name, &|i, r: &mut Rec| {
        let a = (i as usize * step + i as usize % step) as u16;
        let w = 66;
        let mut img: Vec<u16> = vec![];
        for b in 0..4096u16 {
            // both columns of a pair, in turn
            if b % 2 == 0 {
                img.extend([a, b, b, a]);
            } else {
                img.extend([b, a, a, b]);
            }
        }
        while img.len() % w != 0 {
            img.push(a);
        }
        olympus_img(r, &name(i), &img, w, (i & 1) as u32, i % 16 == 0);
    });
    // all the small images over an alphabet
    let shapes: &[(usize, usize, usize)] = ctx.q(
        &[(1, 1, 64), (2, 1, 32), (1, 2, 32), (3, 1, 16), (1, 3, 16), (2, 2, 12), (3, 2, 6), (3, 3, 4), (4, 3, 3), (5, 2, 4), (6, 2, 3), (1, 5, 8)],
        &[(1, 1, 64), (2, 1, 64), (1, 2, 64), (3, 1, 32), (1, 3, 32), (2, 2, 24), (3, 2, 10), (3, 3, 5), (4, 3, 3), (5, 3, 2), (5, 2, 5), (6, 2, 4), (1, 5, 16), (4, 4, 2)],
    );
    let alphabet = |n: usize| -> Vec<u16> {
        let all: Vec<u16> = vec![0, 4095, 2048, 33, 1, 100, 7, 600, 3, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2000, 2047, 2049, 3000, 3071, 3072, 4000, 4094];
        (0..n).map(|i| if i < all.len() { all[i] } else { (i * 61 % 4096) as u16 }).collect()
    };
    for &(w, h, a) in shapes {
        let al = alphabet(a);
        let total = (a as u64).pow((w * h) as u32);
        const PER: u64 = 64;
        let name = |i: u64| format!("olympus-small:{w}x{h}:{i}");
        par(ctx, &format!("olympus-small-{w}x{h}"), (total + PER - 1) / PER, 64, &Opts::default(), &name, &|i, r: &mut Rec| {
            for k in i * PER..((i + 1) * PER).min(total) {
                let mut m = Mix(k);
                let img: Vec<u16> = (0..w * h).map(|_| m.pick(&al)).collect();
                olympus_img(r, &name(i), &img, w, (k & 1) as u32, k % 16 == 0);
            }
        });
    }
    let geo = ctx.q::<&[(usize, usize)]>(
        &[(2, 2), (3, 5), (4, 4), (5, 7), (12, 8), (33, 9), (64, 32), (101, 21)],
        &[(2, 2), (3, 5), (4, 4), (5, 7), (12, 8), (33, 9), (64, 32), (101, 21), (500, 20), (1001, 12)],
    );
    let n = geo.len() * (PATTERNS + 6) * 12 * 2;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (m.take(geo.len()), m.take(PATTERNS + 6), m.take(12), m.take(2))
    };
    let name = |i: u64| {
        let (g, c, b, o) = decode(i);
        format!("olympus:{}x{}:img{c}:{}:{o}", geo[g].0, geo[g].1, b + 1)
    };
    par(ctx, "olympus-product", n as u64, 16, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (g, c, b, o) = decode(i);
        let (w, h) = geo[g];
        let bits = b as u32 + 1;
        let img: Vec<u16> = if c < PATTERNS {
            image(c, w, h, bits)
        } else {
            // noise whose size changes
            let mut rnd = noise(c as u64 * 77 + b as u64);
            (0..w * h)
                .map(|j| {
                    let m = match (j / (5 + c)) % 3 {
                        0 => 0xfff,
                        1 => (1 << bits) - 1,
                        _ => 3,
                    };
                    (rnd() as u16) & m
                })
                .collect()
        };
        olympus_img(r, &name(i), &img, w, o as u32, true);
    });
}

// ---- Panasonic

/// Groups in images of `w` by as many rows as are full
fn panasonic_img(r: &mut Rec, key: &str, groups: &[Group], w: usize, offset: bool) {
    let (data, px) = pack(groups);
    let h = groups.len() * 14 / w;
    let mut c = Cfg::new(false, w, h);
    c.img = vec![];
    let f = corpus::rw2_with(&c, &data, offset, 34316);
    judge(r, key, "rw2", f.data, w, h, 12, &px[..w * h]);
}
fn panasonic(ctx: &mut Ctx) {
    // every step: predicted value, shift and byte, for both columns
    let name = |i: u64| format!("panasonic-steps:sh{}:pred{}", i % 4, i / 4 * 8);
    par(ctx, "panasonic-steps", 512 * 4, 8, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (sh, p0) = ((i % 4) as u8, (i / 4 * 8) as u16);
        let mut groups = vec![];
        for p in p0..p0 + 8 {
            for j in 0..256usize {
                let mut g = Group::default();
                // the other one is away
                let q = (p + 2000) & 4095;
                for (x, v) in [(0, p), (1, q)] {
                    g.j[x] = (v >> 4) as u8;
                    g.low[x] = v as u8 & 15;
                }
                g.sh = [sh, (j % 4) as u8, (j / 4 % 4) as u8, (j / 16 % 4) as u8];
                g.j[2] = j as u8;
                g.j[3] = (j as u8).wrapping_mul(7).wrapping_add(p as u8);
                for k in 4..14 {
                    g.j[k] = (j * k + p as usize) as u8;
                }
                for k in 4..14 {
                    if (j + k) % 5 == 0 {
                        g.j[k] = 0;
                    }
                    g.low[k] = (j + k) as u8 & 15;
                }
                groups.push(g);
            }
        }
        panasonic_img(r, &name(i), &groups, 14 * 32, i % 2 == 0);
    });
    // every combination of shifts, with each first non zero position
    let kinds = ctx.q(6usize, 48);
    let name = |i: u64| format!("panasonic-groups:{}:first{},{}", i / 64, i % 8, i / 8 % 8);
    par(ctx, "panasonic-groups", 64 * kinds as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (f0, f1, kind) = ((i % 8) as usize, (i / 8 % 8) as usize, i / 64);
        let mut rnd = noise(kind + 1);
        let mut groups = vec![];
        for s in 0..256u32 {
            let mut g = Group {
                sh: [s as u8 & 3, (s >> 2) as u8 & 3, (s >> 4) as u8 & 3, (s >> 6) as u8],
                ..Default::default()
            };
            for k in 0..14 {
                g.low[k] = rnd() as u8 & 15;
                let first = [f0, f1][k & 1];
                g.j[k] = if k / 2 < first {
                    0
                } else {
                    match kind {
                        0 => 0x80 + (rnd() % 5) as u8 - 2,
                        1 => [1, 255, 0, 128][(rnd() % 4) as usize],
                        2 => 255,
                        3 => 1,
                        _ => rnd() as u8,
                    }
                };
                if k / 2 == first && g.j[k] == 0 {
                    g.j[k] = 1;
                }
            }
            groups.push(g);
        }
        panasonic_img(r, &name(i), &groups, 14, true);
        panasonic_img(r, &name(i), &groups, 14 * 16, true);
    });
    // images of several blocks, whole or not
    let geo = [(14, 1), (28, 3), (14, 1024), (14, 1025), (140, 103), (1400, 11), (14 * 64, 16), (14 * 64, 17), (14 * 290, 8), (14 * 50, 205)];
    let name = |i: u64| {
        let g = geo[i as usize % geo.len()];
        format!("panasonic:{}x{}:{}", g.0, g.1, i as usize / geo.len())
    };
    let seeds = ctx.q(6, 30);
    par(ctx, "panasonic-geometry", (geo.len() * seeds) as u64, 2, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (w, h) = geo[i as usize % geo.len()];
        let seed = i as usize / geo.len();
        let mut rnd = noise(seed as u64);
        let groups: Vec<Group> = (0..w * h / 14)
            .map(|_| {
                let mut g = Group::default();
                let m = if seed % 3 == 0 { 15 } else { 255 };
                for k in 0..14 {
                    g.j[k] = (rnd() as u8 & m) + if m == 15 { 0x78 } else { 0 };
                    g.low[k] = rnd() as u8 & 15;
                }
                for s in &mut g.sh {
                    *s = rnd() as u8 & 3;
                }
                g
            })
            .collect();
        // a strip is told from plain data by its length
        let strip = (groups.len() + 1023) / 1024 * 0x4000 + 32 < w * h * 3 / 2;
        for offset in [true, false] {
            if offset || strip {
                panasonic_img(r, &name(i), &groups, w, offset);
            }
        }
    });
}

// ---- Fujifilm

pub const XTRANS: &[u8; 36] = b"GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";
#[allow(clippy::too_many_arguments)]
fn fuji_img(r: &mut Rec, key: &str, f: &Fuji, img: &[u16], w: usize, junk: usize, seen: &mut Seen) {
    let h = img.len() / w;
    let (mut data, want) = f.encode(img, w, seen);
    data.resize(data.len() + junk, 0);
    let mut c = Cfg::new(false, w, h);
    c.img = vec![];
    let mut o = corpus::raf_opt(&c);
    o.bps = f.bits as u16;
    if f.cfa == cfa(b"BGGR") {
        c = c.id("FUJIFILM", "X10");
    }
    if f.xtrans {
        let mut p = f.cfa.clone();
        p.reverse();
        o.meta.push((0x131, p));
    }
    if data.len() >= f.bits as usize * w * h / 8 {
        // isn't seen as compressed
        r.state(b"too long");
        return;
    }
    let file = corpus::raf_with(&c, &o, &data);
    judge(r, key, "raf", file.data, w, h, 16, &want);
}
fn cfa(s: &[u8]) -> Vec<u8> {
    s.iter()
        .map(|c| match c {
            b'R' => 0,
            b'G' => 1,
            _ => 2,
        })
        .collect()
}
fn layouts() -> Vec<(&'static str, Fuji)> {
    let f = |x: bool, p: &[u8]| Fuji {
        xtrans: x,
        bits: 14,
        cfa: cfa(p),
        cw: if x { 6 } else { 2 },
        q: None,
        pad: 0,
    };
    vec![
        ("xtrans", f(true, XTRANS)),
        ("rggb", f(false, b"RGGB")),
        ("bggr", f(false, b"BGGR")),
    ]
}
type QFn = fn(usize, usize) -> i32;
const QS: [(&str, Option<QFn>); 9] = [
    ("lossless", None),
    ("q0", Some(|_, _| 0)),
    ("q1", Some(|_, _| 1)),
    ("q2", Some(|_, _| 2)),
    ("q3", Some(|_, _| 3)),
    ("q7", Some(|_, _| 7)),
    ("q40", Some(|_, _| 40)),
    ("q255", Some(|_, _| 255)),
    ("mixed", Some(|s, l| ((s * 5 + l * 3) % 6) as i32)),
];
fn states(r: &mut Rec, seen: &Seen) {
    for s in &seen.0 {
        r.state(&format!("{s:?}").into_bytes());
    }
}
fn fuji(ctx: &mut Ctx) {
    let lay = layouts();
    // every difference, alone on a flat field
    let depths = [12u32, 14, 16];
    let mut cases = vec![];
    const PER: usize = 32;
    for (l, _) in lay.iter().enumerate().take(2) {
        for b in depths {
            let n = (1usize << b) / PER;
            let step = match b {
                12 => 1,
                14 => ctx.q(4, 1),
                _ => ctx.q(16, 1),
            };
            for k in (0..n).step_by(step) {
                for base in 0..3 {
                    cases.push((l, b, k + base % step, base));
                }
            }
        }
    }
    let name = |i: u64| {
        let (l, b, k, base) = cases[i as usize];
        format!("fuji-diff:{}:{b}:{k}:base{base}", lay[l].0)
    };
    par(ctx, "fuji-differences", cases.len() as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (l, b, k, base) = cases[i as usize];
        let mut f = lay[l].1.clone();
        f.bits = b;
        let top = ((1u32 << b) - 1) as u16;
        let base = [0, top, top / 2 + 1][base];
        let w = 768;
        let mut img = vec![base; w * 12];
        for j in 0..PER {
            // spread over the positions of the pattern
            let (x, y) = (j * 24 + (j * 5 + k) % 12, (j + k) % 12);
            img[y * w + x] = (k * PER + j) as u16;
        }
        let mut seen = Seen::default();
        fuji_img(r, &name(i), &f, &img, w, 0, &mut seen);
        states(r, &seen);
    });
    // contents, sizes and modes
    let geo = ctx.q::<&[(usize, usize)]>(
        &[(768, 6), (768, 18), (792, 6), (1536, 12), (1560, 102), (2280, 6)],
        &[(768, 6), (768, 18), (792, 6), (1512, 12), (1536, 12), (1560, 102), (2280, 6), (2304, 30), (3840, 12), (12264, 6)],
    );
    let pads: [(usize, usize); 4] = [(0, 0), (3, 0), (16, 0), (1, 7)];
    const KINDS: usize = 7;
    let n = lay.len() * depths.len() * QS.len() * geo.len() * KINDS;
    let decode = |i: u64| {
        let mut m = Mix(i);
        (
            m.take(lay.len()),
            m.take(depths.len()),
            m.take(QS.len()),
            m.take(geo.len()),
            m.take(KINDS),
        )
    };
    let name = |i: u64| {
        let (l, b, q, g, k) = decode(i);
        format!("fuji:{}:{}:{}:{}x{}:img{k}", lay[l].0, depths[b], QS[q].0, geo[g].0, geo[g].1)
    };
    par(ctx, "fuji-product", n as u64, 4, &Opts::default(), &name, &|i, r: &mut Rec| {
        let (l, b, q, g, k) = decode(i);
        let mut f = lay[l].1.clone();
        f.bits = depths[b];
        f.q = QS[q].1;
        let (pad, junk) = pads[(l + b + q + g + k) % 4];
        f.pad = pad;
        let (w, h) = geo[g];
        let top = (1i32 << f.bits) - 1;
        let mut rnd = noise(i % 97);
        let img: Vec<u16> = (0..w * h)
            .map(|j| {
                let (x, y) = ((j % w) as i32, (j / w) as i32);
                let r = (rnd() & 0xffff) as i32;
                let v = match k {
                    0 => 0,
                    1 => top - (x * 3 + y * 5) % top,
                    2 => top / 3 + r % 9 - 4,
                    3 => top / 2 + ((x / 40) % 5 - 2) * (r % 200) / 4 + y,
                    // busy, in places
                    4 => {
                        if (x / 12 + y) % 9 == 0 {
                            r & top
                        } else {
                            200
                        }
                    }
                    5 => [0, top][((x / 31 + y / 3) % 2) as usize],
                    // each colour at its own level
                    _ => [300, 1200, 700][f.cfa[(y as usize % (f.cfa.len() / f.cw)) * f.cw + x as usize % f.cw] as usize] + r % 31 + x / 8,
                };
                v.clamp(0, top) as u16
            })
            .collect();
        let mut seen = Seen::default();
        fuji_img(r, &name(i), &f, &img, w, junk, &mut seen);
        states(r, &seen);
    });
}

pub fn run(thorough: bool) -> i32 {
    let mut c = Ctx::new("C04", "model_checking", thorough);
    let ctx = &mut c;
    olympus(ctx);
    panasonic(ctx);
    fuji(ctx);
    ctx.rule = "each stream is produced by an encoder (Olympus, Fujifilm) or a model of the decoder (Panasonic) written from the published algorithms; the decoded samples, dimensions and depth must be those of the model".into();
    ctx.assumptions = vec![
        "Panasonic rows are a whole number of groups of 14 pixels, as in every camera".into(),
        "compressed data is told from plain data by its length: data which is too long isn't judged".into(),
    ];
    c.finish()
}
