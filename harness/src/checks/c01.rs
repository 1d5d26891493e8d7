//! C01: lossless JPEG.
use crate::codec::ljpeg::{encode, Params};
use crate::pool::Opts;
use crate::rec::{image, par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::LJpeg;

fn decode(data: &[u8], tiled: bool, raw: bool) -> Result<(u32, u32, u16, Vec<u16>), String> {
    LJpeg::new(raw)
        .decompress_buffer(data, tiled, &None)
        .map(|t| (t.width, t.height, t.bpc, t.buf))
        .map_err(|e| format!("{e:?}"))
}

fn judge(r: &mut Rec, key: &str, p: &Params, img: &[u16], data: &[u8]) {
    let want: Vec<u16> = img.iter().map(|v| (v >> p.pt) << p.pt).collect();
    for tiled in [false, true] {
        let got = decode(data, tiled, false);
        r.transitions += img.len() as u64;
        match got {
            Err(e) => r.bad(key, format!("tiled={tiled} {p:?} {e}")),
            Ok((w, h, bpc, buf)) => {
                let b: Vec<u8> = buf.iter().flat_map(|v| v.to_le_bytes()).collect();
                r.trace(0, &b);
                let ww = if tiled { p.w } else { p.w * p.ncomp } as u32;
                if (w, h, bpc) != (ww, p.h as u32, p.prec as u16) {
                    r.bad(
                        key,
                        format!("tiled={tiled} {p:?} geometry {w}x{h} bpc {bpc}"),
                    );
                }
                if buf != want {
                    let i = buf.iter().zip(&want).position(|(a, b)| a != b);
                    r.bad(
                        key,
                        format!(
                            "tiled={tiled} {p:?} len {} want {} first diff {i:?} {:?}",
                            buf.len(),
                            want.len(),
                            i.map(|i| (buf[i], want[i]))
                        ),
                    );
                }
            }
        }
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C01", "model_checking", thorough);
    ctx.rule = "decode(encode(image)) == image for every image, table, predictor, precision, component count, restart interval and point transform of the bounded spaces; the encoder is an independent implementation of ITU T.81 process 14".into();
    // A. every 2x2 and 3x2 image over boundary sample values
    let precs = [2u8, 3, 8, 10, 12, 14, 15, 16];
    let na = 5u64.pow(4) * 8 * 3 * precs.len() as u64 * 4;
    let dec_a = |i: u64| {
        let mut m = Mix(i);
        let prec = m.pick(&precs);
        let psv = m.take(8) as u8;
        let pt = m.take(3).min(prec as usize - 1) as u8;
        let table = m.take(4) as u8;
        let max = ((1u32 << prec) - 1) as u16;
        let vals = [0, 1, max / 2 + 1, max - 1, max];
        let img: Vec<u16> = (0..4).map(|_| m.pick(&vals)).collect();
        (
            Params {
                psv,
                pt,
                table,
                ..Params::new(2, 2, 1, prec)
            },
            img,
        )
    };
    par(
        &mut ctx,
        "2x2 images over {0,1,mid,max-1,max} x precision x predictor x point transform x table",
        na,
        512,
        &Opts::default(),
        &|i| format!("small_{i}"),
        &|i, r| {
            let (p, img) = dec_a(i);
            judge(r, &format!("small_{i}"), &p, &img, &encode(&p, &img));
        },
    );
    // B. shapes
    let mut shapes = vec![];
    let (mw, mh) = if thorough { (7, 7) } else { (5, 5) };
    for ncomp in 1..=4usize {
        for w in 1..=mw {
            for h in 1..=mh {
                for rst in 0..=3usize {
                    for psv in 1..=7u8 {
                        for kind in 0..crate::rec::PATTERNS {
                            shapes.push((ncomp, w, h, rst, psv, kind));
                        }
                    }
                }
            }
        }
    }
    // long images for the restart marker cycle
    for rst in 1..=2 {
        for h in [8usize, 9, 10, 17, 20, 33] {
            for psv in 1..=7u8 {
                shapes.push((1, 3, h, rst, psv, 3));
                shapes.push((2, 2, h, rst, psv, 3));
            }
        }
    }
    for (w, h) in [(64, 3), (257, 2), (300, 4), (1, 70)] {
        for ncomp in 1..=4 {
            for psv in 1..=7u8 {
                shapes.push((ncomp, w, h, 0, psv, 3));
                shapes.push((ncomp, w, h, 1, psv, 5));
            }
        }
    }
    let precs: &[u8] = if thorough {
        &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]
    } else {
        &[8, 12, 14, 16]
    };
    par(
        &mut ctx,
        "shapes: components 1-4 x width x height x restart rows 0-3 x predictor x content",
        shapes.len() as u64,
        64,
        &Opts::default(),
        &|i| format!("shape_{i}"),
        &|i, r| {
            let (ncomp, w, h, rst, psv, kind) = shapes[i as usize];
            for (k, &prec) in precs.iter().enumerate() {
                for nt in 1..=ncomp {
                    let table = ((i as usize + k + nt) % 4) as u8;
                    let p = Params {
                        psv,
                        rst,
                        table,
                        ntables: nt,
                        pt: ((i / 7 + k as u64) % 3) as u8 % prec,
                        sof: [0xc3, 0xc0, 0xc1][(i % 3) as usize],
                        extra: i % 2 == 0,
                        ..Params::new(w, h, ncomp, prec)
                    };
                    let img = image(kind, w * ncomp, h, prec as u32);
                    judge(
                        r,
                        &format!("shape_{i}_p{prec}_t{nt}"),
                        &p,
                        &img,
                        &encode(&p, &img),
                    );
                }
            }
        },
    );
    // C. every difference value, every table, as successive samples
    par(
        &mut ctx,
        "all 65536 differences x table shape x 16 rows",
        4 * 16,
        1,
        &Opts::default(),
        &|i| format!("diffs_{i}"),
        &|i, r| {
            let table = (i % 4) as u8;
            let part = i / 4; // 4096 differences each
            let (w, h) = (512, 8);
            let mut v = 0u16;
            let mut img = vec![];
            for k in 0..4096u32 {
                v = v.wrapping_add((part as u32 * 4096 + k) as u16);
                img.push(v);
            }
            let p = Params {
                table,
                ..Params::new(w, h, 1, 16)
            };
            judge(r, &format!("diffs_{i}"), &p, &img, &encode(&p, &img));
        },
    );
    ctx.finish()
}
