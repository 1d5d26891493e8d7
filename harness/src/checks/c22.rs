//! C22: mosaic patterns: the same colour at every site in every view.
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::{CfaPattern, DataType, RawImage};
use std::convert::TryFrom;
use std::os::raw::c_void;

extern "C" {
    fn or_mosaicinfo_get_type(m: *const c_void) -> i32;
    fn or_mosaicinfo_get_pattern(m: *const c_void, count: *mut u16) -> *const u8;
    fn or_rawdata_get_cfa_pattern_type(r: *const c_void) -> i32;
    fn or_rawdata_get_mosaicinfo(r: *const c_void) -> *const c_void;
}

/// Every view of the pattern `p` made of the colours `b`.
fn views(b: &[u8], p: &CfaPattern) -> Result<(), String> {
    let want: String = b.iter().map(|c| ['R', 'G', 'B'][*c as usize]).collect();
    let got: String = p.pattern().iter().map(|c| c.to_char()).collect();
    if want != got {
        return Err(format!("colours {got}, parsed from {want}"));
    }
    let bytes: Vec<u8> = p.pattern().iter().map(|c| *c as u8).collect();
    if bytes != b {
        return Err(format!("bytes {bytes:?}"));
    }
    let (w, h) = (p.width(), p.height());
    if w * h != b.len() {
        return Err(format!("size {w}x{h} for {} sites", b.len()));
    }
    let side = (b.len() as f64).sqrt().round() as usize;
    if side * side == b.len() && (w, h) != (side, side) {
        return Err(format!("size {w}x{h} for a square pattern of {side}"));
    }
    for y in 0..h {
        for x in 0..w {
            if p[(x, y)] as u8 != b[y * w + x] {
                return Err(format!("site ({x},{y}) is {:?}", p[(x, y)]));
            }
        }
    }
    let (name, ty) = match &want[..] {
        "RGGB" => ("RGGB", 2),
        "GBRG" => ("GBRG", 3),
        "BGGR" => ("BGGR", 4),
        "GRBG" => ("GRBG", 5),
        _ => ("NON_RGB22", 1),
    };
    if p.to_string() != name {
        return Err(format!("name {p}, not {name}"));
    }
    if p.pattern_type() as u8 != ty {
        return Err(format!("type {:?}, not {ty}", p.pattern_type()));
    }
    if CfaPattern::try_from(&bytes[..]) != Ok(p.clone()) {
        return Err("does not round trip".into());
    }
    unsafe {
        let m = p as *const CfaPattern as *const c_void;
        if or_mosaicinfo_get_type(m) != ty as i32 {
            return Err("C type".into());
        }
        let mut n = 77u16;
        let d = or_mosaicinfo_get_pattern(m, &mut n);
        if n as usize != b.len() || d.is_null() || std::slice::from_raw_parts(d, b.len()) != b {
            return Err(format!("C pattern, count {n}"));
        }
        if or_mosaicinfo_get_pattern(m, std::ptr::null_mut()) != d {
            return Err("C pattern without count".into());
        }
        let mut r =
            RawImage::with_data16(2, 2, 12, DataType::Raw, vec![1, 2, 3, 4], CfaPattern::Empty);
        r.set_mosaic_pattern(p.clone());
        if r.mosaic_pattern() != p {
            return Err("raw image pattern".into());
        }
        let rp = &r as *const RawImage as *const c_void;
        if or_rawdata_get_cfa_pattern_type(rp) != ty as i32 {
            return Err("C raw data type".into());
        }
        let m = or_rawdata_get_mosaicinfo(rp);
        let d = or_mosaicinfo_get_pattern(m, &mut n);
        if or_mosaicinfo_get_type(m) != ty as i32
            || n as usize != b.len()
            || std::slice::from_raw_parts(d, b.len()) != b
        {
            return Err("C mosaic info of raw data".into());
        }
    }
    Ok(())
}

fn one(b: &[u8], key: &str, r: &mut Rec) {
    let legal = if b.len() == 4 {
        [[0, 1, 1, 2], [1, 2, 0, 1], [2, 1, 1, 0], [1, 0, 2, 1]]
            .iter()
            .any(|p| p == b)
    } else {
        !b.is_empty() && b.iter().all(|c| *c <= 2)
    };
    let p = CfaPattern::try_from(b);
    r.trace(10, format!("{p:?}").as_bytes());
    match p {
        Err(_) if legal => r.bad(key, format!("{b:?} is refused")),
        Ok(p) if !legal => r.bad(key, format!("{b:?} is accepted as {p:?}")),
        Ok(p) => {
            if let Err(e) = views(b, &p) {
                r.bad(key, format!("{b:?}: {e}"));
            }
        }
        Err(_) => {}
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C22", "model_checking", thorough);
    ctx.rule = "every byte string of the bounded space is accepted exactly if it is a pattern, and all views (string, bytes, index, type, C API, raw image) agree".into();
    ctx.assumptions.push("a pattern given as bytes carries no dimensions: square lengths are square patterns (X-Trans is 36); for others only width x height = number of sites is required".into());
    let small = [0u8, 1, 2, 3, 255];
    let maxlen = ctx.q(7u32, 9);
    for n in 0..=maxlen {
        let total = 5u64.pow(n);
        par(
            &mut ctx,
            &format!("byte strings of length {n} over 0,1,2,3,255"),
            total,
            4000,
            &Opts::default(),
            &|i| format!("len{n}:{i}"),
            &|i, r: &mut Rec| {
                let mut m = Mix(i);
                let b: Vec<u8> = (0..n).map(|_| m.pick(&small)).collect();
                one(&b, &format!("len{n}:{i}"), r);
            },
        );
    }
    par(
        &mut ctx,
        "all 4-byte strings over 0..=8 and 247..=255",
        18u64.pow(4),
        4000,
        &Opts::default(),
        &|i| format!("four:{i}"),
        &|i, r: &mut Rec| {
            let mut m = Mix(i);
            let b: Vec<u8> = (0..4)
                .map(|_| {
                    let v = m.take(18) as u8;
                    if v < 9 {
                        v
                    } else {
                        v + 238
                    }
                })
                .collect();
            one(&b, &format!("four:{i}"), r);
        },
    );
    par(
        &mut ctx,
        "lengths 1..=80: X-Trans-like contents with every byte at every position",
        80 * 256,
        64,
        &Opts::default(),
        &|i| format!("long:{i}"),
        &|i, r: &mut Rec| {
            let n = 1 + (i / 256) as usize;
            let base: Vec<u8> = (0..n)
                .map(|k| [1u8, 2, 1, 1, 0, 1, 0, 1, 2][k % 9])
                .collect();
            for p in 0..n {
                let mut b = base.clone();
                b[p] = i as u8;
                one(&b, &format!("long:{i}"), r);
            }
        },
    );
    // an absent pattern
    par(
        &mut ctx,
        "the empty pattern",
        1,
        1,
        &Opts::default(),
        &|_| "empty".into(),
        &|_, r: &mut Rec| {
            let p = CfaPattern::default();
            r.trace(6, b"empty");
            let mut n = 5u16;
            let ok = p.width() == 0
                && p.height() == 0
                && p.pattern().is_empty()
                && p.to_string() == "NONE"
                && p.pattern_type() as u8 == 0
                && unsafe {
                    let m = &p as *const _ as *const c_void;
                    or_mosaicinfo_get_type(m) == 0
                        && or_mosaicinfo_get_pattern(m, &mut n).is_null()
                        && n == 0
                        && or_mosaicinfo_get_type(std::ptr::null()) == 0
                        && or_mosaicinfo_get_pattern(std::ptr::null(), &mut n).is_null()
                };
            if !ok {
                r.bad("empty", "the empty pattern's views disagree");
            }
        },
    );
    ctx.finish()
}
