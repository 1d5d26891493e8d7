//! C02: packed and plain sample storage.
use super::robust::hint;
use crate::codec::Bits;
use crate::corpus::{self, be16, le16, with, without, Cfg};
use crate::pool::Opts;
use crate::rec::{image, noise, par, Mix, Rec};
use crate::report::Ctx;
use crate::asm::{File, V};
use libopenraw::{rawfile_from_memory, Bitmap, DataType};

/// rows of `bits`-bit samples, most significant bit first, each row filled to a byte
fn be_bits(img: &[u16], w: usize, bits: u32, fill: u8) -> Vec<u8> {
    let mut o = vec![];
    for row in img.chunks(w) {
        let mut b = Bits::new(false);
        for v in row {
            b.put(*v as u32, bits);
        }
        while b.bit_len() % 8 != 0 {
            b.put((fill & 1) as u32, 1);
        }
        o.extend(b.buf);
    }
    o
}
/// rows of 12-bit samples, least significant bits first
fn le12(img: &[u16], w: usize, fill: u8) -> Vec<u8> {
    let mut o = vec![];
    for row in img.chunks(w) {
        for p in row.chunks(2) {
            o.push(p[0] as u8);
            match p.get(1) {
                Some(q) => {
                    o.push((p[0] >> 8) as u8 | (q << 4) as u8);
                    o.push((q >> 4) as u8);
                }
                None => o.push((p[0] >> 8) as u8 | fill & 0xf0),
            }
        }
    }
    o
}
/// an unused byte after each 15
fn pad15(d: Vec<u8>, fill: u8) -> Vec<u8> {
    d.chunks(15)
        .flat_map(|c| {
            let mut c = c.to_vec();
            c.push(fill);
            c
        })
        .collect()
}
/// the bytes of each 32-bit word swapped
fn swap32(mut d: Vec<u8>, fill: u8) -> Vec<u8> {
    while d.len() % 4 != 0 {
        d.push(fill);
    }
    d.chunks(4).flat_map(|c| [c[3], c[2], c[1], c[0]]).collect()
}

struct L {
    name: &'static str,
    ext: &'static str,
    bits: u32,
    /// byte orders of the file
    be: &'static [bool],
    /// widths
    ws: &'static [usize],
    hs: &'static [usize],
    /// stored bytes of an image
    enc: fn(&[u16], usize, usize, bool, u8) -> Vec<u8>,
    file: fn(Cfg, Vec<u8>) -> File,
    /// number of columns stored for a declared width
    cols: fn(usize) -> usize,
    /// nothing may follow the data
    last: bool,
}

const W: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20];
const W2: &[usize] = &[2, 4, 6, 8, 10, 22, 32];
const W10: &[usize] = &[10, 20, 30];
const H: &[usize] = &[1, 2, 3];
const BE: &[bool] = &[false, true];

fn l(
    name: &'static str,
    ext: &'static str,
    bits: u32,
    ws: &'static [usize],
    enc: fn(&[u16], usize, usize, bool, u8) -> Vec<u8>,
    file: fn(Cfg, Vec<u8>) -> File,
) -> L {
    L {
        name,
        ext,
        bits,
        be: BE,
        ws,
        hs: H,
        enc,
        file,
        cols: |w| w,
        last: false,
    }
}
fn e16(i: &[u16], be: bool) -> Vec<u8> {
    if be {
        be16(i)
    } else {
        le16(i)
    }
}

fn layouts() -> Vec<L> {
    const LE: &[bool] = &[false];
    const MM: &[bool] = &[true];
    vec![
        l("dng8", "dng", 8, W, |i, _, _, _, _| i.iter().map(|v| *v as u8).collect(), |c, d| corpus::dng(&c.raw(8, 1, d))),
        l("dng16", "dng", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::dng(&c.raw(16, 1, d))),
        l("dng16main", "dng", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::dng(&c.var(4).raw(16, 1, d))),
        l("dng12in16", "dng", 12, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::dng(&c.raw(12, 1, d))),
        l("dng14in16", "dng", 14, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::dng(&c.raw(14, 1, d))),
        l("dng10", "dng", 10, W, |i, w, _, _, f| be_bits(i, w, 10, f), |c, d| corpus::dng(&c.raw(10, 1, d))),
        l("dng14", "dng", 14, W, |i, w, _, _, f| be_bits(i, w, 14, f), |c, d| corpus::dng(&c.raw(14, 1, d))),
        l(
            "dng12",
            "dng",
            12,
            W,
            |i, w, _, be, f| {
                if be {
                    be_bits(i, w, 12, f)
                } else {
                    le12(i, w, f)
                }
            },
            |c, d| corpus::dng(&c.raw(12, 1, d)),
        ),
        l("nef16", "nef", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::nef(&c.raw(16, 1, d))),
        l("nef12in16", "nef", 12, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::nef(&c.raw(12, 1, d))),
        l("nef14in16", "nef", 14, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::nef(&c.raw(14, 1, d))),
        L {
            be: MM,
            ..l("nef12", "nef", 12, W, |i, w, _, _, f| be_bits(i, w, 12, f), |c, d| corpus::nef(&c.raw(12, 1, d)))
        },
        l("nefpack", "nef", 12, W10, |i, w, _, _, f| pad15(be_bits(i, w, 12, 0), f), |c, d| corpus::nef(&c.raw(12, 32769, d))),
        L {
            // the D100 stores 6 more columns than its directory says, and calls it quantized
            cols: |w| w + 6,
            ..l(
                "nefd100",
                "nef",
                12,
                &[4, 14, 24],
                |i, w, _, _, f| pad15(be_bits(i, w, 12, 0), f),
                |c, d| corpus::nef(&c.id("NIKON CORPORATION", "NIKON D100 ").raw(12, 34713, d)),
            )
        },
        l("pef16", "pef", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::pef(&c.raw(16, 1, d))),
        l("pef12in16", "pef", 12, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::pef(&c.raw(12, 1, d))),
        l("pefpack", "pef", 12, W, |i, w, _, _, f| be_bits(i, w, 12, f), |c, d| corpus::pef(&c.raw(12, 32773, d))),
        l("erf16", "erf", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::erf(&c.raw(16, 1, d))),
        l("erfpack", "erf", 12, W10, |i, w, _, _, f| pad15(be_bits(i, w, 12, 0), f), |c, d| corpus::erf(&c.raw(12, 32769, d))),
        l("arw16", "arw", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::arw(&c.raw(16, 1, d))),
        l("arw14in16", "arw", 14, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::arw(&c.raw(14, 1, d))),
        l("arw12in16", "arw", 12, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::arw(&c.raw(12, 1, d))),
        // big endian whatever the file
        l("arwr1", "arw", 14, W, |i, _, _, _, _| be16(i), |c, d| {
            corpus::arw(&c.id("SONY", "DSC-R1").tweak(without("mnote", 0xb001)).raw(14, 1, d))
        }),
        L {
            be: LE,
            ..l("orf16", "orf", 16, W, |i, _, _, be, _| e16(i, be), |c, d| corpus::orf_with(&c, &d, 16))
        },
        L {
            be: LE,
            ..l("orfpack", "orf", 12, W10, |i, w, _, _, f| pad15(le12(i, w, 0), f), |c, d| corpus::orf_with(&c, &d, 16))
        },
        L {
            be: LE,
            ws: &[10, 32, 684],
            hs: &[1, 2, 3, 4, 5],
            ..l(
                "orfinter",
                "orf",
                12,
                W2,
                |i, w, h, _, f| {
                    let even: Vec<u16> = i.chunks(w).step_by(2).flatten().copied().collect();
                    let odd: Vec<u16> = i.chunks(w).skip(1).step_by(2).flatten().copied().collect();
                    let mut o = be_bits(&even, w, 12, 0);
                    let at = ((((h + 1) / 2) * w * 3 / 2) / 2048 + 1) * 2048;
                    o.resize(at, f);
                    o.extend(be_bits(&odd, w, 12, 0));
                    o
                },
                |c, d| {
                    // the declared length is that of the samples alone
                    let n = c.w * c.h * 3 / 2;
                    corpus::orf_with(&c.tweak(with("main", 0x117, V::L(vec![n as u32]))), &d, 16)
                },
            )
        },
        L {
            be: LE,
            hs: &[1, 2],
            ..l(
                "orfwords",
                "orf",
                12,
                &[3704],
                |i, _, _, _, f| swap32(be_bits(i, i.len(), 12, 0), f),
                |c, d| corpus::orf_with(&c, &d, 16),
            )
        },
        L {
            be: LE,
            last: true,
            ..l(
                "rw2_16",
                "rw2",
                12,
                W,
                |i, _, _, _, f| le16(&i.iter().map(|v| v << 4 | (f & 15) as u16).collect::<Vec<_>>()),
                |c, d| corpus::rw2_with(&c, &d, false, 0),
            )
        },
        L {
            be: LE,
            last: true,
            ..l("rw2pack", "rw2", 12, W10, |i, w, _, _, f| pad15(le12(i, w, 0), f), |c, d| corpus::rw2_with(&c, &d, false, 0))
        },
        L {
            be: MM,
            ..l("mrw16", "mrw", 16, W, |i, _, _, _, _| be16(i), |c, d| corpus::mrw_with(&c, &d, 0x52, 1))
        },
        L {
            be: MM,
            ..l("mrw12", "mrw", 12, W2, |i, w, _, _, f| be_bits(i, w, 12, f), |c, d| corpus::mrw_with(&c, &d, 0x59, 1))
        },
        L {
            be: MM,
            ws: &[4, 5, 6, 8, 13, 20],
            ..l("raf16", "raf", 16, W, |i, _, _, _, _| le16(i), |c, d| corpus::raf_with(&c, &corpus::raf_opt(&c), &d))
        },
        L {
            be: MM,
            ws: &[4, 5, 6, 8, 13, 20],
            ..l("raf16old", "raf", 16, W, |i, _, _, _, _| le16(i), |c, d| {
                let o = corpus::RafOpt {
                    old: true,
                    ..corpus::raf_opt(&c)
                };
                corpus::raf_with(&c, &o, &d)
            })
        },
        L {
            be: MM,
            ws: &[4, 6, 8, 20],
            ..l("raf12", "raf", 12, W, |i, w, _, _, f| le12(i, w, f), |c, d| {
                let o = corpus::RafOpt {
                    bps: 12,
                    ..corpus::raf_opt(&c)
                };
                corpus::raf_with(&c, &o, &d)
            })
        },
        L {
            be: MM,
            ws: &[8, 10, 13, 20],
            ..l("raf14", "raf", 14, W, |i, _, _, _, f| swap32(be_bits(i, i.len(), 14, f), f), |c, d| {
                let o = corpus::RafOpt {
                    bps: 14,
                    ..corpus::raf_opt(&c)
                };
                corpus::raf_with(&c, &o, &d)
            })
        },
    ]
}

fn judge(r: &mut Rec, key: &str, l: &L, w: usize, h: usize, be: bool, img: &[u16], fill: u8) {
    let cols = (l.cols)(w);
    let d = (l.enc)(img, cols, h, be, fill);
    let mut c = Cfg::new(be, w, h);
    c.img = vec![];
    let mut file = (l.file)(c, d).data;
    if !l.last {
        file.extend([fill; 37]);
    }
    r.transitions += img.len() as u64;
    let f = match rawfile_from_memory(file, Some(hint(l.ext))) {
        Ok(f) => f,
        Err(e) => return r.bad(key, format!("{w}x{h} not opened {e:?}")),
    };
    for skip in [false, true] {
        if skip && l.name == "mrw12" {
            continue;
        }
        match f.raw_data(skip) {
            Err(e) => r.bad(format!("{key}:skip{}", skip as u8), format!("{w}x{h} be={be} {e:?}")),
            Ok(raw) => {
                let got = raw.data16().unwrap_or(&[]);
                let b: Vec<u8> = got.iter().flat_map(|v| v.to_le_bytes()).collect();
                r.trace(0, &b);
                if raw.width() as usize != w || raw.height() as usize != h || raw.data_type() != DataType::Raw {
                    // undecoded ORF data are still "compressed"
                    if !(skip && l.name.starts_with("orf") && l.name != "orf16") {
                        r.bad(
                            format!("{key}:shape"),
                            format!("{}x{} {:?} instead of {w}x{h}", raw.width(), raw.height(), raw.data_type()),
                        );
                    }
                    continue;
                }
                if got != img {
                    let i = got.iter().zip(img).position(|(a, b)| a != b);
                    r.bad(
                        format!("{key}:skip{}", skip as u8),
                        format!(
                            "{w}x{h} be={be} fill {fill:x} len {} want {} first diff {i:?} {:x?}",
                            got.len(),
                            img.len(),
                            i.map(|i| (got[i], img[i]))
                        ),
                    );
                }
            }
        }
    }
}

/// images of one geometry: (group, images)
fn images(n: usize, bits: u32, cols: usize, group: usize, f: &mut dyn FnMut(usize, Vec<u16>)) {
    let max = ((1u32 << bits) - 1) as u16;
    // long images: the positions around row ends and the first and last words
    let pos: Vec<usize> = if n <= 128 {
        (0..n).collect()
    } else {
        (0..n)
            .filter(|p| *p < 20 || *p + 20 >= n || p % cols < 3 || p % cols + 3 >= cols || p % 97 == 0)
            .collect()
    };
    let mut k = 0;
    match group {
        0 => {
            // each single bit
            for bg in [0, max] {
                for p in &pos {
                    for b in 0..bits {
                        let mut i = vec![bg; n];
                        i[*p] ^= 1 << b;
                        f(k, i);
                        k += 1;
                    }
                }
            }
        }
        1 => {
            // each pair of neighbours over boundary values
            let vals = [0, 1, max, max - 1, max / 2 + 1, 0x5a5a & max, 0xff & max];
            for p in &pos {
                for a in vals {
                    for b in vals {
                        let mut i = vec![max / 3; n];
                        i[*p] = a;
                        i[(*p + 1) % n] = b;
                        f(k, i);
                        k += 1;
                    }
                }
            }
        }
        _ => {
            for kind in 0..crate::rec::PATTERNS {
                f(k, image(kind, n, 1, bits));
                k += 1;
            }
        }
    }
}

/// Files with undecoded data: the stored bytes come back as they are.
const STORED: &[&str] = &[
    "dng_ljpeg", "dng_lossy", "dng_tiles", "nef_quant", "nef_custom", "cr2", "arw2", "pef", "erf", "orf", "rw2_off",
    "rw2_strip", "mrw12", "raf", "crw", "cr3",
];

fn stored(name: &str, be: bool, d: &[u8], w: usize, h: usize) -> (&'static str, File) {
    let c = Cfg::new(be, w, h);
    let r = |bits, comp| c.clone().raw(bits, comp, d.to_vec());
    match name {
        "dng_ljpeg" => ("dng", corpus::dng(&r(16, 7))),
        "dng_lossy" => ("dng", corpus::dng(&r(8, 34892))),
        "dng_tiles" => {
            // 6 tiles, each a part of the data
            let n = d.len() / 6;
            let off: Vec<usize> = (0..6).map(|i| i * n).collect();
            let tw = (w as u32 + 2) / 3;
            let th = (h as u32 + 1) / 2;
            let sizes: Vec<u32> = (0..6).map(|i| if i == 5 { d.len() - 5 * n } else { n } as u32).collect();
            // built twice: the second time with the place of the data known
            let mut at = 0;
            let mut f = None;
            for _ in 0..2 {
                let g = corpus::dng(
                    &r(16, 7)
                        .tweak(without("raw", 0x111))
                        .tweak(without("raw", 0x116))
                        .tweak(without("raw", 0x117))
                        .tweak(with("raw", 0x142, V::L(vec![tw])))
                        .tweak(with("raw", 0x143, V::L(vec![th])))
                        .tweak(with("raw", 0x145, V::L(sizes.clone())))
                        .tweak(with("raw", 0x144, V::L(off.iter().map(|o| (at + o) as u32).collect()))),
                );
                at = g.labels["raw"];
                f = Some(g);
            }
            let f = f.unwrap();
            ("dng", f)
        }
        "nef_quant" => ("nef", corpus::nef(&r(12, 34713))),
        "nef_custom" => ("nef", corpus::nef(&r(14, 65535))),
        "cr2" => ("cr2", corpus::cr2_with(&c, d, Some((1, w / 2, w - w / 2)))),
        "arw2" => ("arw", corpus::arw(&r(8, 32767))),
        "pef" => ("pef", corpus::pef(&r(12, 65535))),
        "erf" => ("erf", corpus::erf(&r(12, 65535))),
        "orf" => ("orf", corpus::orf_with(&c, d, 16)),
        "rw2_off" => ("rw2", corpus::rw2_with(&c, d, true, 34316)),
        "rw2_strip" => ("rw2", corpus::rw2_with(&c, d, false, 34316)),
        "mrw12" => ("mrw", corpus::mrw_with(&c, d, 0x59, 1)),
        "raf" => {
            let o = corpus::RafOpt {
                bps: 14,
                ..corpus::raf_opt(&c)
            };
            ("raf", corpus::raf_with(&c, &o, d))
        }
        "crw" => ("crw", corpus::crw_with(&c, &corpus::crw_recs(&c, d), false, 26)),
        "cr3" => {
            let mut f = corpus::cr3(&c);
            // same length as the sample's
            let n = corpus::cr3_raw(&c).len();
            let at = f.labels["raw"];
            let mut b = d.to_vec();
            b.resize(n, 0x3c);
            f.data[at..at + n].copy_from_slice(&b);
            ("cr3", f)
        }
        _ => panic!(),
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C02", "model_checking", thorough);
    ctx.rule = "for every storage layout, geometry, byte order and enumerated image: the raw data of the file whose raw area is that image in that layout (padding bits and surrounding bytes at each filler) is the image; undecoded compressed data are the stored bytes".into();
    ctx.assumptions.push("layouts padded after each 10 samples only have rows of a multiple of 10 samples; 12-bit rows of MRW and RAF have an even length".into());
    let opts = Opts::default();
    let ls = layouts();
    let mut cases = vec![];
    for (li, l) in ls.iter().enumerate() {
        for &w in l.ws {
            for &h in l.hs {
                if l.name.starts_with("raf") && h < 2 {
                    continue;
                }
                // as long as 16-bit data: read as such
                let row = (w * l.bits as usize + 7) / 8;
                if ["dng12", "dng14", "nef12"].contains(&l.name) && row == 2 * w {
                    continue;
                }
                for &be in l.be {
                    for group in 0..3 {
                        let fills: &[u8] = if group == 2 || thorough { &[0, 0xff, 0xa5] } else { &[0x5a] };
                        for &fill in fills {
                            cases.push((li, w, h, be, group, fill));
                        }
                    }
                }
            }
        }
    }
    let name = |i: u64| {
        let (li, w, h, be, g, fill) = cases[i as usize];
        format!("{}:{w}x{h}:{}:g{g}:{fill:02x}", ls[li].name, if be { "be" } else { "le" })
    };
    par(
        &mut ctx,
        "layouts x widths x heights x byte orders x {single bits, neighbour pairs, contents} x padding",
        cases.len() as u64,
        1,
        &opts,
        &name,
        &|i, r| {
            let (li, w, h, be, g, fill) = cases[i as usize];
            let l = &ls[li];
            let cols = (l.cols)(w);
            let key = format!("{}:{w}x{h}:{}:g{g}", l.name, if be { "be" } else { "le" });
            images(cols * h, l.bits, cols, g, &mut |k, img| {
                judge(r, &format!("{key}:{k}"), l, w, h, be, &img, fill);
            });
        },
    );
    // undecoded
    let lens: Vec<usize> = if thorough { (6..400).collect() } else { (6..60).chain([100, 101, 255, 256, 257, 300]).collect() };
    let n = STORED.len() * 2 * lens.len() * 3;
    par(
        &mut ctx,
        "compressed formats x byte orders x lengths x contents, undecoded",
        n as u64,
        16,
        &opts,
        &|i| {
            let mut m = Mix(i);
            let (k, l, be, s) = (m.take(3), m.pick(&lens), m.take(2), m.take(STORED.len()));
            format!("stored:{}:{}:{l}:{k}", STORED[s], ["le", "be"][be])
        },
        &|i, r| {
            let mut m = Mix(i);
            let (k, l, be, s) = (m.take(3), m.pick(&lens), m.take(2), m.take(STORED.len()));
            let name = STORED[s];
            let be = be == 1;
            if be && ["rw2_off", "rw2_strip", "orf"].contains(&name) || !be && ["mrw12", "raf"].contains(&name) {
                return;
            }
            let mut rnd = noise(i + 1);
            let (w, h) = (24, 16);
            let mut d: Vec<u8> = (0..l)
                .map(|j| match k {
                    0 => rnd() as u8,
                    1 => 0xff,
                    _ => (j * 3) as u8,
                })
                .collect();
            if name == "mrw12" {
                d = (0..w * h * 3 / 2).map(|_| rnd() as u8).collect();
            }
            if name == "cr3" {
                d.resize(w * h / 2, 0x3c);
            }
            let (ext, f) = stored(name, be, &d, w, h);
            let key = format!("stored:{name}:{}:{l}:{k}", if be { "be" } else { "le" });
            let mut file = f.data;
            if name != "rw2_off" && name != "rw2_strip" && name != "crw" && name != "cr3" {
                file.extend([0x77; 21]);
            }
            let h = match rawfile_from_memory(file, Some(hint(ext))) {
                Ok(h) => h,
                Err(e) => return r.bad(key, format!("not opened {e:?}")),
            };
            match h.raw_data(true) {
                Err(e) => r.bad(key, format!("{e:?}")),
                Ok(raw) => {
                    let mut got: Vec<u8> = raw.data8().map(|d| d.to_vec()).unwrap_or_default();
                    if let Some(t) = raw.tile_data() {
                        got = t.concat();
                        r.transitions += t.len() as u64;
                    }
                    r.trace(1, &got);
                    if raw.data_type() != DataType::CompressedRaw {
                        r.bad(format!("{key}:type"), format!("{:?}", raw.data_type()));
                    }
                    if got != d {
                        r.bad(key, crate::obs::diff(&got, &d));
                    }
                }
            }
        },
    );
    ctx.finish()
}
