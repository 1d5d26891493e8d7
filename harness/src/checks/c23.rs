//! C23: rendering follows its definition at every stage.
use super::robust::hint;
use crate::asm::V;
use crate::corpus::{self as co, set, Cfg};
use crate::obs::{err, image};
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::{hash, Ctx};
use libopenraw::tiff::exif::{LightsourceValue as Light, PhotometricInterpretation as Photo};
use libopenraw::{
    rawfile_from_memory, Bitmap, CfaPattern, ColourSpace, DataType, RawFileImpl, RawImage,
    RenderingOptions, RenderingStage,
};
use std::convert::TryFrom;

const COLS: [[u8; 4]; 4] = [[0, 1, 1, 2], [2, 1, 1, 0], [1, 0, 2, 1], [1, 2, 0, 1]];
const STAGES: [RenderingStage; 4] = [
    RenderingStage::Raw,
    RenderingStage::Linearization,
    RenderingStage::Interpolation,
    RenderingStage::Colour,
];
const TARGETS: [ColourSpace; 4] =
    [ColourSpace::SRgb, ColourSpace::Camera, ColourSpace::XYZ, ColourSpace::Unknown];

fn opts(stage: RenderingStage, target: ColourSpace) -> RenderingOptions {
    RenderingOptions::default().with_stage(stage).with_target(target)
}
fn raw(w: u32, h: u32, bpc: u16, d: Vec<u16>, p: usize, bw: (u16, u16)) -> RawImage {
    let p = COLS.get(p).map_or(CfaPattern::Empty, |b| CfaPattern::try_from(&b[..]).unwrap());
    let mut r = RawImage::with_data16(w, h, bpc, DataType::Raw, d, p);
    r.set_blacks([bw.0; 4]);
    r.set_whites([bw.1; 4]);
    r
}
/// The linearised value of a sample, in 0..1 but not clipped
fn lin(v: u16, bw: (u16, u16)) -> f64 {
    let r = bw.1.saturating_sub(bw.0) as f64;
    let v = v.saturating_sub(bw.0) as f64;
    if r == 0.0 {
        // no range: all or nothing
        return if v > 0.0 { f64::INFINITY } else { 0.0 };
    }
    v / r
}
/// A value as stored. At a tie both are fine.
fn fits(got: u16, v: f64) -> bool {
    let x = v * 65535.0;
    if x.is_nan() || x <= 0.0 {
        return got == 0;
    }
    if x >= 65535.0 {
        return got == 65535;
    }
    let d = (got as f64 - x).abs();
    d <= 0.5 + 1e-6
}
fn srgb(v: f64) -> f64 {
    if v <= 0.0031308 {
        v * 12.92
    } else {
        1.055 * v.powf(1.0 / 2.4) - 0.055
    }
}
/// Everything that is to hold of an output besides the samples.
fn shape(o: &RawImage, w: u32, h: u32, cc: usize) -> Result<Vec<u16>, String> {
    let d = o.data16().ok_or("no 16 bits data")?.to_vec();
    if (o.width(), o.height()) != (w, h) {
        return Err(format!("{}x{}, not {w}x{h}", o.width(), o.height()));
    }
    if d.len() != w as usize * h as usize * cc {
        return Err(format!("{} samples for {w}x{h} of {cc}", d.len()));
    }
    let ty = if cc == 3 { DataType::PixmapRgb16 } else { DataType::Raw };
    if o.data_type() != ty {
        return Err(format!("{:?} of {cc} components", o.data_type()));
    }
    if o.bpc() != 16 || o.data_size() != d.len() * 2 {
        return Err(format!("{} bits, {} bytes", o.bpc(), o.data_size()));
    }
    Ok(d)
}
fn ask(key: &str, r: &RawImage, s: RenderingStage, t: ColourSpace, rec: &mut Rec) -> Result<RawImage, String> {
    let before = image(r);
    let a = r.rendered_image(opts(s, t));
    let b = r.rendered_image(opts(s, t));
    let f = |x: &Result<RawImage, libopenraw::Error>| match x {
        Ok(i) => image(i),
        Err(e) => err(e).into_bytes(),
    };
    let (fa, fb) = (f(&a), f(&b));
    rec.trace(2, &fa);
    if fa != fb {
        rec.bad(format!("{key} {s:?} {t:?} again"), "another answer the second time".to_string());
    }
    if image(r) != before {
        rec.bad(format!("{key} {s:?} {t:?} changed"), "the raw image is changed".to_string());
    }
    a.map_err(|e| err(&e))
}

// --- linearisation
const LEVELS: [(u16, u16); 20] = [
    (0, 65535),
    (0, 16383),
    (0, 4095),
    (0, 1),
    (1, 2),
    (0, 3),
    (128, 4095),
    (256, 15200),
    (1023, 16383),
    (2047, 14000),
    (1, 65535),
    (65534, 65535),
    (32768, 65535),
    (60000, 65000),
    (0, 65534),
    (17, 1000),
    (100, 100),
    (65535, 65535),
    (0, 0),
    (500, 20),
];
fn linear(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let bw = m.pick(&LEVELS);
    let bpc = m.pick(&[8u16, 12, 14, 16]);
    let pad = m.pick(&[0usize, 5]);
    let p = m.take(5);
    let data: Vec<u16> = (0..65536 + pad).map(|v| v as u16).collect();
    let r = raw(256, 256, bpc, data, p, bw);
    match ask(key, &r, RenderingStage::Linearization, ColourSpace::SRgb, rec) {
        Err(e) => rec.bad(key, e),
        Ok(o) => match shape(&o, 256, 256, 1) {
            Err(e) => rec.bad(key, e),
            Ok(d) => {
                for (v, g) in d.iter().enumerate() {
                    rec.transitions += 1;
                    if !fits(*g, lin(v as u16, bw)) || (v > 0 && *g < d[v - 1]) {
                        rec.bad(key, format!("levels {bw:?}: {v} is made {g}"));
                        break;
                    }
                }
                if o.mosaic_pattern() != r.mosaic_pattern() {
                    rec.bad(format!("{key} pattern"), "another pattern");
                }
                let again = o.rendered_image(opts(RenderingStage::Linearization, ColourSpace::SRgb));
                if again.ok().and_then(|o| o.data16().map(|d| d.to_vec())) != Some(d) {
                    rec.bad(format!("{key} twice"), "linearised again it isn't the same");
                }
                if o.blacks() != &[0; 4] || o.whites() != &[65535; 4] {
                    rec.bad(format!("{key} levels"), "the levels aren't those of the result");
                }
            }
        },
    }
}
/// The levels of the colours: each sample is to follow one of the pairs.
fn levels4(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let p = m.take(4);
    let b: [u16; 4] = [[10, 20, 30, 40], [500, 3, 2, 1], [0, 7, 0, 7]][m.take(3)];
    let w: [u16; 4] = [[4000, 4010, 4020, 4030], [700, 2000, 4095, 900], [4095, 4095, 1000, 1000]][m.take(3)];
    let (ww, h) = (128, 64);
    let mut r = raw(ww, h, 12, (0..ww * h).map(|v| (v / 2) as u16).collect(), p, (0, 1));
    r.set_blacks(b);
    r.set_whites(w);
    match ask(key, &r, RenderingStage::Linearization, ColourSpace::SRgb, rec) {
        Err(e) => rec.bad(key, e),
        Ok(o) => match shape(&o, ww, h, 1) {
            Err(e) => rec.bad(key, e),
            Ok(d) => {
                for site in 0..4 {
                    let one = |c: usize| {
                        (0..d.len())
                            .filter(|i| ((i / ww as usize) % 2) * 2 + i % 2 == site)
                            .all(|i| fits(d[i], lin((i / 2) as u16, (b[c], w[c]))))
                    };
                    rec.transitions += 1;
                    if !(0..4).any(one) {
                        rec.bad(key, format!("site {site} isn't mapped by any pair of {b:?} {w:?}"));
                    }
                }
            }
        },
    }
}
/// Linearisation tables come from DNG files.
fn table(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let kind = m.take(6);
    let white = m.pick(&[0u32, 255, 4000, 65535, 1]);
    let bits = m.pick(&[8u16, 12, 16]);
    let black = m.pick(&[0u16, 200, 3000]);
    let n = 1usize << bits;
    let len = [n, n / 2, 1, n + 7][m.take(4) as usize].min(65536);
    let t: Vec<u16> = (0..len)
        .map(|v| {
            let x = (v as u64 * 65535 / (n as u64 - 1)).min(65535);
            match kind {
                0 => x as u16,
                1 => (x * x / 65535) as u16,
                2 => 65535 - x as u16,
                3 => 0,
                4 => 65535,
                _ => (v as u32).wrapping_mul(40503) as u16,
            }
        })
        .collect();
    let (w, h) = (256usize, (n / 256).max(4));
    let vals: Vec<u16> = (0..w * h).map(|v| (v % n) as u16).collect();
    let data = match bits {
        8 => vals.iter().map(|v| *v as u8).collect(),
        12 if be => co::pack12be(&vals),
        12 => co::pack12le(&vals),
        _ => co::e16(&vals, be),
    };
    let tt = t.clone();
    let mut c = Cfg::new(be, w, h).raw(bits, 1, data).tweak(move |n, d| {
        if n != "raw" {
            return d;
        }
        let d = set(d, 0xc618, V::S(tt.clone()));
        let d = set(d, 0xc61a, V::S(vec![black]));
        let d = co::del(d, 0xc61d);
        if white != 0 {
            set(d, 0xc61d, V::L(vec![white]))
        } else {
            d
        }
    });
    c.img = vec![];
    let f = co::dng(&c).data;
    let img = match rawfile_from_memory(f, Some(hint("dng"))).and_then(|f| f.raw_data(false)) {
        Ok(i) => i,
        Err(e) => return rec.bad(key, format!("no raw data {e}")),
    };
    if img.data16() != Some(&vals[..]) {
        return rec.bad(format!("{key} data"), "other data".to_string());
    }
    let level = img.whites()[0];
    if level <= black {
        return;
    }
    let range = (level - black) as f64;
    let want = if white == 0 { (1u32 << bits) - 1 } else { white };
    if level as u32 != want {
        rec.bad(format!("{key} white"), format!("white {level}"));
    }
    match ask(key, &img, RenderingStage::Linearization, ColourSpace::SRgb, rec) {
        Err(e) => rec.bad(key, e),
        Ok(o) => match shape(&o, w as u32, h as u32, 1) {
            Err(e) => rec.bad(key, e),
            Ok(d) => {
                for (k, g) in d.iter().enumerate() {
                    rec.transitions += 1;
                    let e = t[(vals[k] as usize).min(len - 1)];
                    let v = e.saturating_sub(black) as f64 / range;
                    if !fits(*g, v) {
                        rec.bad(key, format!("{} is {e} in the table, black {black}, range {range}, got {g}", vals[k]));
                        break;
                    }
                }
            }
        },
    }
}

// --- interpolation
/// the colour of the site
fn at(p: usize, x: usize, y: usize) -> usize {
    COLS[p][(y % 2) * 2 + x % 2] as usize
}
/// Interpolation of `d` (linear values) at a site which isn't at the border.
fn bimedian(d: &dyn Fn(usize, usize) -> f64, p: usize, x: usize, y: usize) -> [f64; 3] {
    let mut o = [0.0; 3];
    for (c, o) in o.iter_mut().enumerate() {
        if at(p, x, y) == c {
            *o = d(x, y);
            continue;
        }
        // the neighbours of that colour
        let mut n = vec![];
        for (nx, ny) in (y - 1..=y + 1).flat_map(|ny| (x - 1..=x + 1).map(move |nx| (nx, ny))) {
            if at(p, nx, ny) == c {
                n.push(d(nx, ny));
            }
        }
        n.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // the median, the mean of the middle two
        *o = (n[n.len() / 2 - 1] + n[n.len() / 2]) / 2.0;
    }
    o
}
fn check_rgb(key: &str, r: &RawImage, p: usize, bw: (u16, u16), rec: &mut Rec) {
    let (w, h) = (r.width() as usize, r.height() as usize);
    let src = r.data16().unwrap();
    match ask(key, r, RenderingStage::Interpolation, ColourSpace::SRgb, rec) {
        Err(e) => rec.bad(key, e),
        Ok(o) => match shape(&o, w as u32 - 2, h as u32 - 2, 3) {
            Err(e) => rec.bad(key, e),
            Ok(d) => {
                for y in 1..h - 1 {
                    for x in 1..w - 1 {
                        let e = bimedian(&|x, y| lin(src[y * w + x], bw), p, x, y);
                        for c in 0..3 {
                            rec.transitions += 1;
                            let g = d[((y - 1) * (w - 2) + x - 1) * 3 + c];
                            if !fits(g, e[c]) {
                                return rec.bad(key, format!("colour {c} at {x},{y}: {g} for {}", e[c] * 65535.0));
                            }
                        }
                    }
                }
            }
        },
    }
}
/// All windows of 3x3 over `k` values, around a site of each of the kinds.
fn windows(i: u64, k: usize, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let p = m.take(4);
    let (dx, dy) = (m.take(2), m.take(2));
    // the rows of the windows are split over cases
    let part = m.0 as usize;
    let side = 128;
    let v = [0u16, 1000, 2500, 4000, 3999];
    let (w, h) = (side * 4 + 2, side * 4 + 2);
    let mut d: Vec<u16> = (0..w * h).map(|i| (i * 7 % 4001) as u16).collect();
    for cell in 0..side * side {
        let mut n = part * side * side + cell;
        if n >= k.pow(9) {
            break;
        }
        let (cx, cy) = (cell % side * 4 + dx, cell / side * 4 + dy);
        for y in 0..3 {
            for x in 0..3 {
                d[(cy + y) * w + cx + x] = v[n % k];
                n /= k;
            }
        }
    }
    let r = raw(w as u32, h as u32, 12, d, p, (0, 4000));
    check_rgb(key, &r, p, (0, 4000), rec);
}
fn sizes(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let (w, h) = (m.take(11), m.take(11));
    let p = m.take(6);
    let kind = m.take(crate::rec::PATTERNS);
    let photo = m.take(4);
    let bw = m.pick(&[(0u16, 4095u16), (64, 3000)]);
    let mut r = raw(w as u32, h as u32, 12, crate::rec::image(kind, w, h, 12), p.min(4), bw);
    if p == 5 {
        r.set_mosaic_pattern(CfaPattern::try_from(&[0u8, 1, 2, 1, 1, 0, 2, 2, 1][..]).unwrap());
    }
    r.set_photometric_interpretation([Photo::CFA, Photo::LinearRaw, Photo::YCbCr, Photo::None][photo]);
    for s in STAGES {
        for t in TARGETS {
            let key = format!("{key} {s:?} {t:?}");
            let got = ask(&key, &r, s, t, rec);
            let unimplemented = s == RenderingStage::Raw || (s == RenderingStage::Colour && t != ColourSpace::SRgb && photo == 0);
            let can = match s {
                RenderingStage::Raw => false,
                RenderingStage::Linearization => true,
                _ => photo == 1 || (photo == 0 && p < 4 && w >= 3 && h >= 3),
            };
            if s == RenderingStage::Colour && t != ColourSpace::SRgb && photo == 1 {
                // gray in a space that isn't implemented: not specified
                continue;
            }
            match got {
                Ok(o) => {
                    if !can || unimplemented {
                        rec.bad(key, "not refused".to_string());
                        continue;
                    }
                    let (ow, oh, cc) = match (s, photo) {
                        (RenderingStage::Linearization, _) => (w, h, 1),
                        (_, 1) => (w, h, 3),
                        _ => (w - 2, h - 2, 3),
                    };
                    match shape(&o, ow as u32, oh as u32, cc) {
                        Err(e) => rec.bad(key, e),
                        Ok(d) if photo == 1 && cc == 3 => {
                            for (k, v) in r.data16().unwrap().iter().enumerate() {
                                let mut v = lin(*v, bw);
                                if s == RenderingStage::Colour {
                                    v = v.powf(1.0 / 2.2);
                                }
                                if !(0..3).all(|c| fits(d[k * 3 + c], v)) {
                                    rec.bad(&key, format!("gray {:?} for {}", &d[k * 3..k * 3 + 3], v * 65535.0));
                                    break;
                                }
                            }
                        }
                        _ => {}
                    }
                }
                Err(e) => {
                    if can && !unimplemented {
                        rec.bad(key, e);
                    } else if unimplemented && can && !e.contains("Unimplemented") {
                        rec.bad(key, format!("refused with {e}"));
                    } else if s == RenderingStage::Raw && !e.contains("Unimplemented") {
                        rec.bad(key, format!("refused with {e}"));
                    }
                }
            }
        }
    }
    if photo == 0 && p < 4 && w >= 3 && h >= 3 {
        check_rgb(key, &r, p, bw, rec);
    }
}
/// Images which hold less, or more, than their size, or no mosaic
fn buffers(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let (w, h) = (m.pick(&[0usize, 1, 4, 5]), m.pick(&[0usize, 1, 4, 5]));
    let n = m.pick(&[0usize, 1, 3, 4, 15, 16, 17, 19, 20, 24, 25, 26, 100]);
    let ty = m.pick(&[DataType::Raw, DataType::CompressedRaw, DataType::PixmapRgb16, DataType::PixmapRgb8, DataType::Jpeg, DataType::Unknown]);
    let eight = m.take(3);
    let p = CfaPattern::try_from(&COLS[0][..]).unwrap();
    let mut r = match eight {
        0 => RawImage::with_data16(w as u32, h as u32, 12, ty, vec![1000; n], p),
        1 => RawImage::with_data8(w as u32, h as u32, 8, ty, vec![100; n], p),
        _ => RawImage::new_tiled(w as u32, h as u32, 12, ty, vec![vec![0; n]], (w as u32, h as u32), p),
    };
    r.set_whites([4000; 4]);
    for s in STAGES {
        let got = ask(key, &r, s, ColourSpace::SRgb, rec);
        let legal = eight == 0 && n >= w * h && ty == DataType::Raw && s != RenderingStage::Raw;
        match got {
            Ok(o) if legal => {
                let (cc, b) = if s == RenderingStage::Linearization { (1, 0) } else { (3, 2) };
                if let Err(e) = shape(&o, w as u32 - b, h as u32 - b, cc) {
                    rec.bad(format!("{key} {s:?}"), e);
                }
            }
            Ok(_) => rec.bad(format!("{key} {s:?}"), "not refused"),
            Err(e) => {
                if legal && (s == RenderingStage::Linearization || (w >= 3 && h >= 3)) {
                    rec.bad(format!("{key} {s:?}"), e);
                }
            }
        }
    }
}

// --- colour
const MATS: [[f64; 9]; 5] = [
    [0.838, -0.263, -0.0639, -0.2887, 1.0725, 0.2496, -0.0627, 0.1427, 0.5438],
    [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0],
    [0.0, 2.0, 0.0, 0.0, 0.0, 0.5, -1.0, 0.25, 0.0],
    [0.6844, -0.0996, -0.0856, -0.3876, 1.1761, 0.2396, -0.0593, 0.1772, 0.6198],
    // can't be inverted
    [1.0, 2.0, 3.0, 2.0, 4.0, 6.0, 0.0, 1.0, 0.0],
];
const XYZ_RGB: [f64; 9] = [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570];
fn mul(a: &[f64; 9], b: &[f64; 9]) -> [f64; 9] {
    let mut o = [0.0; 9];
    for i in 0..9 {
        o[i] = (0..3).map(|k| a[i / 3 * 3 + k] * b[k * 3 + i % 3]).sum();
    }
    o
}
fn inv(m: &[f64; 9]) -> Option<[f64; 9]> {
    let c = |a: usize, b: usize, c: usize, d: usize| m[a] * m[d] - m[b] * m[c];
    let adj = [
        c(4, 5, 7, 8),
        -c(1, 2, 7, 8),
        c(1, 2, 4, 5),
        -c(3, 5, 6, 8),
        c(0, 2, 6, 8),
        -c(0, 2, 3, 5),
        c(3, 4, 6, 7),
        -c(0, 1, 6, 7),
        c(0, 1, 3, 4),
    ];
    let det = m[0] * adj[0] + m[1] * adj[3] + m[2] * adj[6];
    if det == 0.0 {
        return None;
    }
    Some(adj.map(|v| v / det))
}
/// matrix choices: none, each of MATS, six values
fn matrix(k: usize) -> Option<Vec<f64>> {
    match k {
        0 => None,
        1..=5 => Some(MATS[k - 1].to_vec()),
        _ => Some(MATS[0][..6].to_vec()),
    }
}
fn colour(i: u64, n: usize, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let p = m.take(4);
    let k = [m.take(7), m.take(7)];
    let ill = [m.take(3), m.take(3)];
    let bw = m.pick(&[(0u16, 4095u16), (100, 3000)]);
    let lev = |i: usize| (i * 4095 / (n - 1)) as u16;
    let cells = n * n * n;
    let side = (cells as f64).sqrt().ceil() as usize;
    let (w, h) = (side * 4, side * 4);
    let rgb = |cell: usize| [lev(cell % n), lev(cell / n % n), lev(cell / n / n % n)];
    let mut d = vec![0; w * h];
    for y in 0..h {
        for x in 0..w {
            d[y * w + x] = rgb(y / 4 * side + x / 4)[at(p, x, y)];
        }
    }
    let mut r = raw(w as u32, h as u32, 12, d, p, bw);
    let lights = [Light::D65, Light::StandardA, Light::Unknown];
    let mut cm = None;
    for j in 0..2 {
        if let Some(v) = matrix(k[j]) {
            r.set_colour_matrix(j + 1, lights[ill[j]], &v);
            if cm.is_none() && ill[j] == 0 && v.len() == 9 {
                cm = inv(&<[f64; 9]>::try_from(&v[..]).unwrap());
            }
        }
    }
    let cam = cm.map(|c| mul(&XYZ_RGB, &c));
    match ask(key, &r, RenderingStage::Colour, ColourSpace::SRgb, rec) {
        Err(e) => rec.bad(key, e),
        Ok(o) => match shape(&o, w as u32 - 2, h as u32 - 2, 3) {
            Err(e) => rec.bad(key, e),
            Ok(d) => {
                for cell in 0..cells {
                    let v = rgb(cell).map(|v| lin(v, bw));
                    for c in 0..3 {
                        let e = srgb(cam.map_or(v[c], |m| (0..3).map(|k| m[c * 3 + k] * v[k]).sum()));
                        for s in 0..4 {
                            let (x, y) = (cell % side * 4 + s % 2, cell / side * 4 + s / 2);
                            let g = d[(y * (w - 2) + x) * 3 + c];
                            rec.transitions += 1;
                            if !fits(g, e) {
                                return rec.bad(key, format!("colour {c} of {:?}: {g} for {}", rgb(cell), e * 65535.0));
                            }
                        }
                    }
                }
            }
        },
    }
}

/// From a file: as from its raw image.
fn files(i: u64, list: &[super::robust::S], rec: &mut Rec) {
    let mut m = Mix(i);
    let s = &list[m.take(list.len())];
    let st = m.pick(&STAGES);
    let t = m.pick(&TARGETS);
    let order = m.take(2);
    let key = format!("{} {st:?} {t:?} {order}", s.name);
    let open = || rawfile_from_memory(s.data.clone(), Some(hint(s.ext)));
    let show = |r: Result<RawImage, libopenraw::Error>| match r {
        Ok(r) => {
            let mut o = image(&r);
            o.extend(hash(r.data16_as_u8().unwrap_or(&[])).to_le_bytes());
            o
        }
        Err(e) => err(&e).into_bytes(),
    };
    let (Ok(a), Ok(b)) = (open(), open()) else { return };
    if order == 1 {
        let _ = a.raw_data(true);
        let _ = a.rendered_image(opts(RenderingStage::Colour, ColourSpace::SRgb));
    }
    let x = show(a.rendered_image(opts(st, t)));
    let y = show(b.raw_data(false).and_then(|r| r.rendered_image(opts(st, t))));
    rec.trace(2, &x);
    if x != y {
        rec.bad(key, format!("{} but {}", crate::obs::show(&x), crate::obs::show(&y)));
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C23", "model_checking", thorough);
    ctx.rule = "every rendering of the bounded space equals that of a reference written from the definition of the stages (exact up to rounding ties), has the size, type and components it reports, is the same when asked again and leaves the raw image as it was; what isn't implemented is refused".into();
    ctx.assumptions = vec![
        "with levels which differ between colours each site is to follow one of the pairs: the library uses the first".into(),
        "not judged: gray images in other colour spaces than sRGB".into(),
    ];
    let o = Opts { mem: Some(2 << 30), ..Opts::default() };
    macro_rules! space {
        ($n:expr, $count:expr, $chunk:expr, $f:expr) => {
            par(&mut ctx, $n, $count, $chunk, &o, &|i| format!("{} {i}", $n), &|i, r| $f(i, r, &format!("{} {i}", $n)));
        };
    }
    space!("linearisation of all samples", 20 * 4 * 2 * 5, 4, linear);
    space!("levels of four colours", 36, 4, levels4);
    space!("linearisation tables", 2 * 6 * 5 * 3 * 3 * 4, 8, table);
    let parts = |k: u64| (k.pow(9) + 128 * 128 - 1) / (128 * 128);
    let k = ctx.q(4u64, 5);
    space!("all windows of 3x3", 16 * parts(k), 1, |i, r: &mut Rec, s: &str| windows(i, k as usize, r, s));
    space!("sizes, patterns and stages", 121 * 6 * 6 * 4 * 2, 200, sizes);
    space!("buffers", 16 * 13 * 6 * 3, 50, buffers);
    let n = ctx.q(13usize, 33);
    space!("colours", 4 * 49 * 9 * 2, 8, |i, r: &mut Rec, s: &str| colour(i, n, r, s));
    let list = super::robust::samples(16, 12, thorough);
    let total = list.len() as u64 * 16 * 2;
    par(&mut ctx, "files", total, 8, &o, &|i| format!("files {} {i}", list[i as usize % list.len()].name), &|i, r| files(i, &list, r));
    ctx.finish()
}
