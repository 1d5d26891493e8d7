//! C20: geometry, levels and colour data reported for raw images.
use super::robust::hint;
use crate::asm::{Dir, Field, File, V};
use crate::cameras::{MATRICES, MODELS, NUMBERS};
use crate::corpus::{self as co, be32, b2, c16, del, in8, set, Cfg, Ci};
use crate::obs::pattern;
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, CfaPattern, RawImage};
use std::rc::Rc;

type R4 = [u32; 4];

/// What is expected. A field that isn't judged is in `skip`.
#[derive(Clone, Debug, Default)]
pub struct W {
    dims: (u32, u32),
    bpc: u16,
    active: Option<R4>,
    crop: Option<R4>,
    ar: Option<(u32, u32)>,
    out: Option<(u32, u32)>,
    pat: String,
    blacks: [u16; 4],
    whites: [u16; 4],
    wb: Option<[f64; 4]>,
    xy: Option<(f64, f64)>,
    mats: [Option<(u32, Vec<f64>)>; 2],
    lin: Option<Vec<u16>>,
    photo: String,
    skip: Vec<&'static str>,
}

struct Fmt {
    name: &'static str,
    ext: &'static str,
    /// number of options of each knob: 0 is absent, 1 usual
    knobs: Vec<(&'static str, usize)>,
    endians: &'static [bool],
    /// (knobs, big endian, undecoded): the file and what is to be reported
    make: fn(&[usize], bool, bool) -> Option<(Vec<u8>, W)>,
}

fn builtin(place: &str, id: (u16, u16)) -> Option<(u16, u16, Vec<f64>)> {
    MATRICES
        .iter()
        .find(|m| m.0 == place && m.1 == id)
        .map(|m| (m.2, m.3, m.4.iter().map(|v| *v as f64 / 10000.0).collect()))
}
fn camera(place: &str, name: &str) -> ((u16, u16), Option<u32>, Option<&'static str>) {
    let n = NUMBERS.iter().find(|n| n.0 == place && n.4 == name);
    let m = MODELS.iter().find(|n| n.0 == place && n.4 == name);
    (n.map(|n| n.2).or(m.map(|m| m.2)).unwrap(), n.map(|n| n.1), m.map(|m| m.1))
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * b.abs().max(1.0)
}

fn judge(key: &str, r: &RawImage, w: &W, rec: &mut Rec) {
    let mut bad = |what: &'static str, ok: bool, got: String, want: String| {
        rec.transitions += 1;
        if !ok && !w.skip.contains(&what) {
            rec.bad(format!("{key} {what}"), format!("{what}: got {got}, stored {want}"));
        }
    };
    macro_rules! eq {
        ($n:expr, $g:expr, $w:expr) => {{
            let (g, w) = ($g, $w);
            bad($n, g == w, format!("{g:?}"), format!("{w:?}"));
        }};
    }
    eq!("dims", (r.width(), r.height()), w.dims);
    eq!("bpc", r.bpc(), w.bpc);
    eq!("active", r.active_area().map(|r| r.to_vec()), w.active.map(|v| v.to_vec()));
    eq!("crop", r.user_crop().map(|r| r.to_vec()), w.crop.map(|v| v.to_vec()));
    eq!("ar", r.user_aspect_ratio().map(|a| (a.0, a.1)), w.ar);
    let out = w.out.unwrap_or(w.dims);
    eq!("out", (r.output_size().width, r.output_size().height), out);
    eq!("pat", pattern(r.mosaic_pattern()), w.pat.clone());
    eq!("blacks", *r.blacks(), w.blacks);
    eq!("whites", *r.whites(), w.whites);
    eq!("photo", format!("{:?}", r.photometric_interpretation()), w.photo.clone());
    let g = r.as_shot_neutral().map(|v| v.to_vec());
    let ok = match (&g, &w.wb) {
        (Some(a), Some(b)) => a.len() == 4 && (0..4).all(|i| same(a[i], b[i])),
        (None, None) => true,
        _ => false,
    };
    bad("wb", ok, format!("{g:?}"), format!("{:?}", w.wb));
    let g = r.as_shot_white_xy();
    let ok = match (g, w.xy) {
        (Some(a), Some(b)) => same(a.0, b.0) && same(a.1, b.1),
        (None, None) => true,
        _ => false,
    };
    bad("xy", ok, format!("{g:?}"), format!("{:?}", w.xy));
    for i in 0..4usize {
        let g = r.colour_matrix(i).map(|m| (m.illuminant as u32, m.matrix.clone()));
        let e = if i == 1 || i == 2 { w.mats[i - 1].clone() } else { None };
        let ok = match (&g, &e) {
            (Some(a), Some(b)) => {
                a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| same(*x, *y))
            }
            (None, None) => true,
            _ => false,
        };
        bad("matrix", ok, format!("{i}: {g:?}"), format!("{e:?}"));
    }
    let g = r.linearization_table().cloned();
    bad("lin", g == w.lin, format!("{g:?}"), format!("{:?}", w.lin));
}

fn nan3(a: [f64; 3]) -> Option<[f64; 4]> {
    Some([a[0], a[1], a[2], f64::NAN])
}
fn quad(v: &[u32]) -> [u16; 4] {
    if v.len() == 4 {
        [v[0] as u16, v[1] as u16, v[2] as u16, v[3] as u16]
    } else {
        [v.first().copied().unwrap_or(0) as u16; 4]
    }
}
/// the value in one of the integer types
fn int(v: &[u32], ty: usize) -> V {
    match ty {
        0 => V::S(v.iter().map(|v| *v as u16).collect()),
        1 => V::L(v.to_vec()),
        _ => V::R(v.iter().map(|v| (v * 3, 3)).collect()),
    }
}
fn en16(v: &[u16], be: bool) -> Vec<u8> {
    c16(v, be)
}
const D65: u32 = 21;
const PATS: [&str; 4] = ["RGGB", "BGGR", "GRBG", "GBRG"];
fn pat_bytes(p: &str) -> Vec<u8> {
    p.bytes().map(|c| b"RGB".iter().position(|x| *x == c).unwrap() as u8).collect()
}
/// the way obs::pattern writes a pattern
fn pat(p: &str) -> String {
    let v = CfaPattern::try_from(&pat_bytes(p)[..]).unwrap();
    pattern(&v)
}
fn none_pat() -> String {
    pattern(&CfaPattern::default())
}

type Tw = Vec<(&'static str, u16, Option<V>)>;
fn apply(c: Cfg, t: Tw) -> Cfg {
    c.tweak(move |n, mut d: Dir| {
        for (w, tag, v) in &t {
            if *w == n {
                d = match v {
                    Some(v) => set(d, *tag, v.clone()),
                    None => del(d, *tag),
                };
            }
        }
        d
    })
}
fn base(w: usize, h: usize, photo: &str) -> W {
    W {
        dims: (w as u32, h as u32),
        bpc: 16,
        whites: [65535; 4],
        photo: photo.into(),
        pat: pat("RGGB"),
        ..W::default()
    }
}

fn dng_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("ActiveArea", 6),
        ("CropOrigin", 5),
        ("CropSize", 5),
        ("BlackLevel", 5),
        ("WhiteLevel", 4),
        ("AsShotNeutral", 4),
        ("AsShotWhiteXY", 5),
        ("ColorMatrix1", 3),
        ("ColorMatrix2", 3),
        ("Illuminant1", 5),
        ("Illuminant2", 5),
        ("CFAPattern", 8),
        ("LinearizationTable", 3),
        ("Photometric", 4),
    ]
}
fn dng_main(k: &[usize], be: bool, s: bool) -> Option<(Vec<u8>, W)> {
    dng(k, be, s, 4)
}
fn dng_sub(k: &[usize], be: bool, s: bool) -> Option<(Vec<u8>, W)> {
    dng(k, be, s, 0)
}
fn dng_jpeg(k: &[usize], be: bool, s: bool) -> Option<(Vec<u8>, W)> {
    dng(k, be, s, 1)
}
fn dng(k: &[usize], be: bool, _skip: bool, var: u32) -> Option<(Vec<u8>, W)> {
    let (w, h) = (16u32, 12u32);
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    let mut a = [0, 0, w, h];
    let area: [u32; 4] = [1, 2, h - 1, w - 3];
    t.push(("raw", 0xc68d, match k[0] {
        0 => None,
        4 => Some(V::L(vec![1, 2, 3])),
        5 => {
            a = [0, 3, w, h - 3];
            Some(int(&[3, 0, h, w], 0))
        }
        x => {
            a = [2, 1, w - 5, h - 2];
            Some(int(&area, x - 1))
        }
    }));
    e.active = Some(a);
    let org = match k[1] {
        0 => None,
        4 => Some(vec![5]),
        _ => Some(vec![3, 1]),
    };
    let siz = match k[2] {
        0 => None,
        4 => Some(vec![5]),
        _ => Some(vec![8, 7]),
    };
    t.push(("raw", 0xc61f, org.as_ref().map(|v: &Vec<u32>| int(v, (k[1] - 1) % 3))));
    t.push(("raw", 0xc620, siz.as_ref().map(|v: &Vec<u32>| int(v, (k[2] - 1) % 3))));
    if let (Some(o), Some(s)) = (org, siz) {
        if o.len() > 1 && s.len() > 1 {
            e.crop = Some([o[0] + a[0], o[1] + a[1], s[0], s[1]]);
        }
    }
    let bl: &[u32] = if k[3] == 4 { &[1, 2, 3, 65535] } else { &[258] };
    t.push(("raw", 0xc61a, if k[3] == 0 { None } else { Some(int(bl, (k[3] - 1) % 3)) }));
    if k[3] != 0 {
        e.blacks = quad(bl);
    }
    let wl: &[u32] = if k[4] == 3 { &[4001, 4002, 4003, 4004] } else { &[16383] };
    t.push(("raw", 0xc61d, if k[4] == 0 { None } else { Some(int(wl, (k[4] - 1) % 2)) }));
    if k[4] != 0 {
        e.whites = quad(wl);
    }
    t.push(("main", 0xc628, match k[5] {
        0 => None,
        1 => {
            e.wb = nan3([0.5, 1.0, 0.7]);
            Some(V::R(vec![(5, 10), (1, 1), (7, 10)]))
        }
        2 => {
            e.wb = Some([0.5, 1.0, 0.25, 0.125]);
            Some(V::R(vec![(5, 10), (1, 1), (1, 4), (1, 8)]))
        }
        _ => {
            e.wb = nan3([1.0, 2.0, 3.0]);
            Some(V::S(vec![1, 2, 3]))
        }
    }));
    let (xv, xy) = match k[6] {
        0 => (None, None),
        1 => (Some(V::R(vec![(3127, 10000), (329, 1000)])), Some((0.3127, 0.329))),
        2 => (Some(V::R(vec![(1, 3)])), None),
        3 => (Some(V::R(vec![(1, 3), (1, 4), (1, 5)])), Some((1.0 / 3.0, 0.25))),
        _ => (Some(V::R(vec![])), None),
    };
    t.push(("main", 0xc629, xv));
    if k[5] == 0 {
        e.xy = xy;
    }
    for (i, tag) in [0xc621u16, 0xc622].into_iter().enumerate() {
        let v: Vec<(i32, i32)> = (0..9).map(|j| ((j * 1777 - 4000) * (i as i32 + 1), 10000)).collect();
        let v = if k[7 + i] == 2 { (0..9).map(|j| (-j - 1, 7 + i as i32)).collect() } else { v };
        let ill = match k[9 + i] {
            0 => None,
            1 => Some([17u16, 21][i]),
            2 => Some(21),
            3 => Some(255),
            _ => Some(18),
        };
        if k[7 + i] != 0 {
            e.mats[i] = Some((ill.unwrap_or(0) as u32, v.iter().map(|x| x.0 as f64 / x.1 as f64).collect()));
        }
        t.push(("main", tag, if k[7 + i] == 0 { None } else { Some(V::SR(v)) }));
        t.push(("main", 0xc65a + i as u16, ill.map(|v| V::S(vec![v]))));
    }
    t.push(("raw", 0x828e, None));
    t.push(("raw", 0x828d, None));
    e.pat = none_pat();
    if k[11] != 0 {
        let p = PATS[(k[11] - 1) % 4];
        e.pat = pat(p);
        let b = pat_bytes(p);
        match (k[11] - 1) / 4 {
            0 => {
                t.push(("raw", 0x828e, Some(V::B(b))));
                t.push(("raw", 0x828d, Some(V::S(vec![2, 2]))));
            }
            _ => {
                let mut v = en16(&[2, 2], be);
                v.extend(&b);
                t.push(("exif", 0xa302, Some(V::U(v))));
            }
        }
    }
    let tab = match k[12] {
        0 => None,
        1 => Some((0..16u16).map(|v| v * v).collect::<Vec<u16>>()),
        _ => Some((0..300u16).map(|v| v * 3).collect()),
    };
    t.push(("raw", 0xc618, tab.clone().map(V::S)));
    e.lin = tab;
    t.push(("raw", 0x106, match k[13] {
        0 => None,
        1 => Some(V::S(vec![32803])),
        2 => {
            e.photo = "LinearRaw".into();
            Some(V::L(vec![34892]))
        }
        _ => {
            e.photo = "YCbCr".into();
            Some(V::S(vec![6]))
        }
    }));
    // Main is the raw directory: its photometric interpretation is there.
    let c = apply(Cfg::new(be, 16, 12).var(var), t);
    Some((co::dng(&c).data, e))
}

fn nef_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("BlackLevel", 4),
        ("CropArea", 4),
        ("WB_RBLevels", 5),
        ("ColorBalance", 5),
        ("ColorBalanceA", 6),
        ("CFAPattern", 5),
        ("Compression", 3),
    ]
}
fn nef(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let id = camera("nikon", "D70");
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    e.active = Some([0, 0, 16, 12]);
    let bl: &[u32] = if k[0] == 3 { &[11, 12, 13, 14] } else { &[260] };
    t.push(("mnote", 0x3d, if k[0] == 0 { None } else { Some(int(bl, (k[0] - 1) % 2)) }));
    if k[0] != 0 {
        e.blacks = quad(bl);
    }
    let cr: &[u32] = if k[1] == 3 { &[1, 2, 3] } else { &[1, 2, 300, 4] };
    t.push(("mnote", 0x45, if k[1] == 0 { None } else { Some(int(cr, (k[1] - 1) % 2)) }));
    if k[1] != 0 && cr.len() == 4 {
        e.crop = Some([cr[0], cr[1], cr[2], cr[3]]);
    }
    // white balances, the first found is used
    let mut wb = None;
    let v = match k[2] {
        0 => None,
        1 => {
            wb = Some(Some([256.0 / 500.0, 1.0, 256.0 / 300.0]));
            Some(V::R(vec![(500, 256), (300, 256), (256, 256), (256, 256)]))
        }
        2 => {
            wb = Some(Some([0.5, 1.0, 0.25]));
            Some(V::R(vec![(2, 1), (4, 1), (0, 1), (0, 1)]))
        }
        3 => {
            wb = Some(None);
            Some(V::R(vec![(2, 1), (4, 1)]))
        }
        _ => {
            wb = Some(Some([0.5, 3.0, 0.2]));
            Some(V::R(vec![(2, 1), (5, 1), (3, 1), (3, 1)]))
        }
    };
    t.push(("mnote", 0x0c, v));
    let blk = |n: usize, ver: &[u8], at: usize, v: &[u16]| {
        let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        b[..ver.len()].copy_from_slice(ver);
        b[at..at + v.len() * 2].copy_from_slice(&en16(v, be));
        b
    };
    let v = match k[3] {
        0 => None,
        x => {
            let (b, r) = match x {
                1 => (blk(84, b"0100", 72, &[500, 400, 256, 257]), Some([256.0 / 500.0, 1.0, 256.0 / 400.0])),
                2 => (blk(40, b"0103", 20, &[500, 300, 400]), Some([300.0 / 500.0, 1.0, 300.0 / 400.0])),
                3 => (blk(40, b"0100", 20, &[500, 300, 400]), None),
                _ => (blk(26, b"0103", 20, &[600, 300, 258]), Some([0.5, 1.0, 300.0 / 258.0])),
            };
            if wb.is_none() {
                wb = Some(r);
            }
            Some(V::U(b))
        }
    };
    t.push(("mnote", 0x97, v));
    let blk = |n: usize, ver: &[u8], at: usize, v: &[u32]| {
        let mut b: Vec<u8> = (0..n).map(|i| (i * 37 + 1) as u8).collect();
        b[..ver.len()].copy_from_slice(ver);
        for (i, x) in v.iter().enumerate() {
            b[at + i * 4..at + i * 4 + 4].copy_from_slice(&x.to_le_bytes());
        }
        b
    };
    let v = match k[4] {
        0 => None,
        x => {
            let nrw = Some([1100.0 / 1600.0, 1.0, 1100.0 / 2000.0]);
            let q: &[u32] = &[400, 500, 600, 500];
            let (b, r) = match x {
                1 => (blk(80, b"NRW 0110", 56, q), nrw),
                2 => (blk(1600, b"NRW 0100", 1556, q), nrw),
                3 => (blk(80, b"NRW 0100", 56, q), None),
                4 => {
                    let mut b = vec![7u8; 2560];
                    b[1248..1252].copy_from_slice(&[2, 0, 1, 128]);
                    (b, Some([0.5, 1.0, 256.0 / 384.0]))
                }
                _ => (vec![5; 100], None),
            };
            if wb.is_none() {
                wb = Some(r);
            }
            Some(V::U(b))
        }
    };
    t.push(("mnote", 0x14, v));
    e.wb = wb.flatten().and_then(nan3);
    t.push(("raw", 0x828e, None));
    t.push(("raw", 0x828d, None));
    e.pat = none_pat();
    if k[5] != 0 {
        e.pat = pat(PATS[k[5] - 1]);
        t.push(("raw", 0x828e, Some(V::B(pat_bytes(PATS[k[5] - 1])))));
    }
    let mut c = Cfg::new(be, 16, 12);
    match k[6] {
        0 => {
            // no compression told: none
            t.push(("raw", 0x103, None));
        }
        1 => {}
        _ => {
            c = c.var(1);
            e.bpc = 12;
            e.whites = [4095; 4];
        }
    }
    let _ = skip;
    e.mats[0] = builtin("nikon", id.0).map(|m| (D65, m.2));
    Some((co::nef(&apply(c, t)).data, e))
}

fn arw_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("Black", 4),
        ("White", 4),
        ("WB", 4),
        ("CropTopLeft", 4),
        ("CropSize", 4),
        ("camera", 9),
        ("aspect", 7),
        ("CFAPattern", 5),
        ("bits", 4),
    ]
}
/// (camera, where its aspect ratio is: 0 nowhere, 1 words, 2 bytes, else the
/// enciphered block)
const ARWS: [(&str, usize); 9] = [
    ("A700", 1),
    ("A380", 1),
    ("NEX5", 2),
    ("NEX6", 6444),
    ("ILCE7", 6488),
    ("RX100M4", 6444),
    ("ILCE9", 6284),
    ("R1", 0),
    ("RX100M2", 6444),
];
fn arw(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let _ = skip;
    let (name, at) = ARWS[k[5]];
    let (id, num, _) = camera("sony", name);
    let lev = builtin("sony", id);
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    e.active = Some([0, 0, 16, 12]);
    let (bits, be_data) = match k[8] {
        0 => (14, be),
        1 => (16, be),
        2 => (12, be),
        _ => (14, be),
    };
    let _ = be_data;
    e.bpc = bits;
    e.whites = [((1u32 << bits) - 1) as u16; 4];
    let bl: &[u32] = if k[0] == 3 { &[11, 12, 13, 14] } else { &[260] };
    t.push(("raw", 0x7310, if k[0] == 0 { None } else { Some(int(bl, (k[0] - 1) % 2)) }));
    if k[0] != 0 {
        e.blacks = quad(bl);
    } else if let Some(l) = &lev {
        e.blacks = [l.0; 4];
    }
    let wl: &[u32] = if k[1] == 3 { &[4011, 4012, 4013, 4014] } else { &[4000, 4000, 4000] };
    t.push(("raw", 0xc61d, if k[1] == 0 { None } else { Some(int(wl, (k[1] - 1) % 2)) }));
    if k[1] != 0 {
        e.whites = quad(wl);
    } else if let Some(l) = lev.as_ref().filter(|l| l.1 != 0) {
        e.whites = [l.1; 4];
    }
    t.push(("raw", 0x7313, match k[2] {
        0 => None,
        1 => {
            e.wb = nan3([0.5, 1.0, 1024.0 / 1500.0]);
            Some(V::SS(vec![2048, 1024, 1025, 1500]))
        }
        2 => Some(V::SS(vec![2048, 1024, 1025])),
        _ => {
            e.wb = nan3([0.5, 1.0, 0.25]);
            Some(V::SL(vec![4000, 2000, 2001, 8000]))
        }
    }));
    let tl: &[u32] = if k[3] == 3 { &[1] } else { &[1, 3] };
    let sz: &[u32] = if k[4] == 3 { &[9] } else { &[11, 7] };
    t.push(("raw", 0x74c7, if k[3] == 0 { None } else { Some(int(tl, (k[3] - 1) % 2)) }));
    t.push(("raw", 0x74c8, if k[4] == 0 { None } else { Some(int(sz, (k[4] - 1) % 2)) }));
    if (1..3).contains(&k[3]) && (1..3).contains(&k[4]) {
        e.crop = Some([3, 1, 11, 7]);
    }
    // the aspect ratio: 0 not there, 1.. values, the last too short a block
    t.push(("mnote", 0x0114, None));
    let val = [0u8, 0, 1, 2, 3, 4, 8][k[6]];
    if k[6] != 0 {
        match at {
            1 => {
                let mut b = vec![0u8; 280];
                b[171] = val;
                t.push(("mnote", 0x0114, Some(V::U(b))));
                e.ar = match val {
                    1 => Some((3, 2)),
                    2 => Some((16, 9)),
                    _ => None,
                };
            }
            2 => {
                let mut b = vec![0u8; 280];
                b[10] = val;
                t.push(("mnote", 0x0114, Some(V::U(b))));
                e.ar = match val {
                    4 => Some((3, 2)),
                    8 => Some((16, 9)),
                    _ => None,
                };
            }
            0 => {}
            n => {
                let mut b: Vec<u8> = vec![(5u32 * 25 % 249) as u8; n + 20];
                b[n] = (val as u32 * val as u32 * val as u32 % 249) as u8;
                if val == 4 {
                    b.truncate(n);
                } else {
                    e.ar = [Some((16, 9)), Some((4, 3)), Some((3, 2)), Some((1, 1))].get(val as usize).copied().flatten();
                }
                t.push(("mnote", 0x2010, Some(V::U(b))));
            }
        }
    }
    t.push(("raw", 0x828e, None));
    t.push(("raw", 0x828d, None));
    e.pat = none_pat();
    if k[7] != 0 {
        e.pat = pat(PATS[k[7] - 1]);
        t.push(("raw", 0x828e, Some(V::B(pat_bytes(PATS[k[7] - 1])))));
    }
    t.push(("raw", 0x102, Some(V::S(vec![bits]))));
    t.push(("mnote", 0xb001, Some(V::S(vec![num.unwrap() as u16]))));
    e.mats[0] = lev.map(|m| (D65, m.2));
    Some((co::arw(&apply(Cfg::new(be, 16, 12), t)).data, e))
}

fn pef_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("Black", 4),
        ("White", 3),
        ("WB", 4),
        ("AreaOffset", 3),
        ("RawSize", 3),
        ("Aspect", 6),
        ("CFAPattern", 5),
        ("camera", 4),
        ("bits", 3),
    ]
}
fn pef(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let _ = skip;
    let name = ["K100D_PEF", "K10D_PEF", "IST_D_PEF", "K5_PEF"][k[7]];
    let (id, num, _) = camera("pentax", name);
    let lev = builtin("pentax", id);
    let mut e = base(16, 12, "CFA");
    e.active = Some([0, 0, 16, 12]);
    let mut t: Tw = vec![];
    let var = match k[8] {
        2 => {
            e.bpc = 12;
            e.whites = [4095; 4];
            1
        }
        _ => 0,
    };
    let bl: &[u32] = if k[0] == 3 { &[11, 12, 13, 14] } else { &[260] };
    t.push(("mnote", 0x200, if k[0] == 0 { None } else { Some(int(bl, (k[0] - 1) % 2)) }));
    if k[0] != 0 {
        e.blacks = quad(bl);
    }
    t.push(("mnote", 0x7e, if k[1] == 0 { None } else { Some(int(&[3950], k[1] - 1)) }));
    if k[1] != 0 {
        e.whites = [3950; 4];
    } else if let Some(l) = &lev {
        if l.1 != 0 {
            e.whites = [l.1; 4];
        }
        if k[0] == 0 {
            e.blacks = [l.0; 4];
        }
    }
    if k[0] == 0 && k[1] != 0 && lev.as_ref().map_or(false, |l| l.0 != 0) {
        // the built-in black level isn't used when there is a white level
        e.skip.push("blacks");
    }
    t.push(("mnote", 0x201, match k[2] {
        0 => None,
        3 => Some(V::S(vec![500, 256, 256])),
        x => {
            e.wb = nan3([0.5, 1.0, 256.0 / 400.0]);
            Some(int(&[512, 256, 257, 400], x - 1))
        }
    }));
    let (o, s): (&[u16], &[u16]) = (if k[3] == 2 { &[7] } else { &[7, 300] }, if k[4] == 2 { &[7] } else { &[9, 10] });
    t.push(("mnote", 0x38, if k[3] == 0 { None } else { Some(V::S(o.to_vec())) }));
    t.push(("mnote", 0x39, if k[4] == 0 { None } else { Some(V::S(s.to_vec())) }));
    if k[3] == 1 && k[4] == 1 {
        e.crop = Some([7, 300, 9, 10]);
    }
    t.push(("mnote", 0x80, if k[5] == 0 { None } else { Some(V::B(vec![k[5] as u8 - 1])) }));
    e.ar = [None, Some((4, 3)), Some((3, 2)), Some((16, 9)), Some((1, 1)), None][k[5]];
    t.push(("main", 0x828e, None));
    t.push(("main", 0x828d, None));
    e.pat = none_pat();
    if k[6] != 0 {
        e.pat = pat(PATS[k[6] - 1]);
        t.push(("main", 0x828e, Some(V::B(pat_bytes(PATS[k[6] - 1])))));
    }
    t.push(("mnote", 0x05, Some(V::L(vec![num.unwrap()]))));
    e.mats[0] = lev.map(|m| (D65, m.2));
    Some((co::pef(&apply(Cfg::new(be, 16, 12).var(var), t)).data, e))
}

fn erf_knobs() -> Vec<(&'static str, usize)> {
    vec![("SensorArea", 3), ("Black", 4), ("WB", 4), ("CFAPattern", 5), ("bits", 3)]
}
fn erf(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let _ = skip;
    let (id, _, _) = camera("epson", "RD1");
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    t.push(("mnote", 0x400, match k[0] {
        0 => None,
        1 => {
            e.active = Some([1, 2, 13, 300]);
            Some(V::U(en16(&[1, 2, 13, 300], be)))
        }
        _ => Some(V::U(en16(&[1, 2, 13], be))),
    }));
    let bl: &[u32] = if k[1] == 3 { &[11, 12, 13, 14] } else { &[260] };
    t.push(("mnote", 0x401, if k[1] == 0 { None } else { Some(int(bl, (k[1] - 1) % 2)) }));
    if k[1] != 0 {
        e.blacks = quad(bl);
    }
    let mut v = vec![3u16; [0, 128, 26, 25][k[2]]];
    for (i, x) in [(24usize, 0x40u16), (25, 0x150)] {
        if i < v.len() {
            v[i] = x;
        }
    }
    t.push(("mnote", 0xe80, if k[2] == 0 { None } else { Some(V::U(en16(&v, be))) }));
    if k[2] == 1 || k[2] == 2 {
        e.wb = nan3([65536.0 / (64.0 * 508.0 * 1.078), 1.0, 65536.0 / (336.0 * 382.0 * 1.173)]);
    }
    t.push(("raw", 0x828e, None));
    t.push(("raw", 0x828d, None));
    e.pat = none_pat();
    if k[3] != 0 {
        e.pat = pat(PATS[k[3] - 1]);
        t.push(("raw", 0x828e, Some(V::B(pat_bytes(PATS[k[3] - 1])))));
    }
    if k[4] == 2 {
        // 12 bits in 16
        t.push(("raw", 0x102, Some(V::S(vec![12]))));
        e.bpc = 12;
        e.whites = [4095; 4];
    }
    e.mats[0] = builtin("epson", id).map(|m| (D65, m.2));
    Some((co::erf(&apply(Cfg::new(be, 16, 12), t)).data, e))
}

fn orf_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("RedBalance", 4),
        ("BlueBalance", 4),
        ("IP:WB_RB", 5),
        ("IP:BlackLevel2", 4),
        ("IP:CropTop", 3),
        ("IP:CropLeft", 3),
        ("IP:CropWidth", 3),
        ("IP:CropHeight", 3),
        ("IP:AspectFrame", 5),
        ("CFAPattern", 5),
        ("IP", 2),
    ]
}
fn orf(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let _ = skip;
    let (id, _, model) = camera("olympus", "EM5");
    let mut e = base(16, 12, "CFA");
    e.bpc = 12;
    e.whites = [4095; 4];
    let mut t: Tw = vec![];
    let num = |k: usize, v: u32| match k {
        0 => (None, None),
        // the count is sometimes 2: the first is the one
        3 => (Some(V::S(vec![v as u16, 64])), Some(v)),
        x => (Some(int(&[v], x - 1)), Some(v)),
    };
    let (v, r) = num(k[0], 512);
    t.push(("mnote", 0x1017, v));
    let (v, b) = num(k[1], 400);
    t.push(("mnote", 0x1018, v));
    if let (Some(r), Some(b)) = (r, b) {
        e.wb = nan3([256.0 / r as f64, 1.0, 256.0 / b as f64]);
    }
    let ip = k[10] == 1;
    if !ip {
        t.push(("mnote", 0x2040, None));
    }
    t.push(("ip", 0x100, match k[2] {
        0 => None,
        x => {
            let v: &[u16] = [&[1024u16, 300][..], &[1024, 300, 256, 256], &[1024], &[1024, 300, 7]][x - 1];
            if ip && e.wb.is_none() && (v.len() == 2 || v.len() == 4) {
                e.wb = nan3([0.25, 1.0, 256.0 / 300.0]);
            }
            Some(V::S(v.to_vec()))
        }
    }));
    t.push(("ip", 0x600, match k[3] {
        0 => None,
        x => {
            let v: &[u32] = [&[62u32, 63, 64, 65][..], &[70], &[71, 72]][x - 1];
            if ip && v.len() != 2 {
                e.blacks = quad(v);
            }
            Some(int(v, x % 2))
        }
    }));
    let mut a = vec![];
    for (i, (tag, v)) in [(0x612u16, 3u32), (0x613, 2), (0x614, 11), (0x615, 9)].into_iter().enumerate() {
        let kk = [k[5], k[4], k[6], k[7]][i];
        let (x, got) = num(kk, v);
        t.push(("ip", tag, x));
        a.push(got);
    }
    // 0x612 is left, 0x613 top
    let crop: Option<Vec<u32>> = a.into_iter().collect();
    e.active = Some([0, 0, 16, 12]);
    if let (Some(c), true) = (&crop, ip) {
        e.active = Some([c[0], c[1], c[2], c[3]]);
    }
    t.push(("ip", 0x1113, match k[8] {
        0 => None,
        x => {
            let v: &[u32] = [&[1u32, 2, 8, 6][..], &[0, 0, 15, 11], &[1, 2, 8], &[9, 9, 3, 3]][x - 1];
            if ip && x < 3 {
                let o = crop.as_ref().map_or((0, 0), |c| (c[0], c[1]));
                e.crop = Some([v[0] + o.0, v[1] + o.1, v[2] + 1 - v[0], v[3] + 1 - v[1]]);
            }
            Some(int(v, x % 2))
        }
    }));
    t.push(("exif", 0xa302, None));
    e.pat = none_pat();
    if k[9] != 0 {
        e.pat = pat(PATS[k[9] - 1]);
        let mut b = en16(&[2, 2], be);
        b.extend(pat_bytes(PATS[k[9] - 1]));
        t.push(("exif", 0xa302, Some(V::U(b))));
    }
    e.mats[0] = builtin("olympus", id).map(|m| (D65, m.2));
    let mut c = apply(Cfg::new(be, 16, 12), t);
    c.model = model.map(|m| m.to_string());
    Some((co::orf(&c).data, e))
}

fn rw2_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("LeftBorder", 3),
        ("TopBorder", 3),
        ("BottomBorder", 3),
        ("RightBorder", 3),
        ("bits", 3),
        ("LimitR", 3),
        ("LimitG", 2),
        ("LimitB", 2),
        ("BlackR", 3),
        ("BlackG", 2),
        ("BlackB", 2),
        ("WBRed", 3),
        ("WBGreen", 3),
        ("WBBlue", 3),
        ("RedBalance", 2),
        ("BlueBalance", 2),
        ("CFAPattern", 6),
        ("layout", 3),
    ]
}
fn rw2(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    if be {
        return None;
    }
    let _ = skip;
    let (id, _, _) = camera("panasonic", "GF1");
    let mut e = base(20, 12, "CFA");
    e.active = Some([0, 0, 20, 12]);
    let mut t: Tw = vec![];
    let b: Vec<u32> = [[0, 3, 1], [0, 2, 0], [0, 11, 12], [0, 14, 15]].iter().enumerate().map(|(i, v)| v[k[i]]).collect();
    for i in 0..4 {
        t.push(("main", 0x05, if k[0] == 0 { None } else { Some(V::S(vec![b[0] as u16])) }));
        t.push(("main", 0x04, if k[1] == 0 { None } else { Some(V::S(vec![b[1] as u16])) }));
        t.push(("main", 0x06, if k[2] == 0 { None } else { Some(V::S(vec![b[2] as u16])) }));
        t.push(("main", 0x07, if k[3] == 0 { None } else { Some(V::S(vec![b[3] as u16])) }));
        let _ = i;
    }
    if k[2] == 0 || k[3] == 0 {
        // no area told: whether it's empty or absent isn't specified
        e.skip.push("crop");
    } else {
        e.crop = Some([b[0], b[1], b[3] - b[0], b[2] - b[1]]);
    }
    e.bpc = match k[4] {
        0 => {
            t.push(("main", 0x0a, None));
            16
        }
        1 => 12,
        _ => {
            t.push(("main", 0x0a, Some(V::S(vec![14]))));
            14
        }
    };
    let max = ((1u32 << e.bpc) - 1) as u16;
    e.whites = [max; 4];
    for (i, tag) in [0x0eu16, 0x0f, 0x10].into_iter().enumerate() {
        let v = 4001 + i as u32;
        let x = k[5 + i];
        t.push(("main", tag, if x == 0 { None } else { Some(int(&[v], x - 1)) }));
        if x != 0 {
            e.whites[i] = v as u16;
        }
    }
    e.whites[3] = e.whites[1];
    for (i, tag) in [0x1cu16, 0x1d, 0x1e].into_iter().enumerate() {
        let v = 128 + i as u32;
        let x = k[8 + i];
        t.push(("main", tag, if x == 0 { None } else { Some(int(&[v], x - 1)) }));
        if x != 0 {
            e.blacks[i] = v as u16;
        }
    }
    e.blacks[3] = e.blacks[1];
    let mut wb = [None; 3];
    for (i, tag) in [0x24u16, 0x25, 0x26].into_iter().enumerate() {
        let v = [512u32, 256, 400][i];
        let x = k[11 + i];
        t.push(("main", tag, if x == 0 { None } else { Some(int(&[v], x - 1)) }));
        if x != 0 {
            wb[i] = Some(v as f64);
        }
    }
    let mut bal = [None; 2];
    for (i, tag) in [0x11u16, 0x12].into_iter().enumerate() {
        let v = [300u16, 450][i];
        t.push(("main", tag, if k[14 + i] == 0 { None } else { Some(V::S(vec![v])) }));
        if k[14 + i] != 0 {
            bal[i] = Some(v as f64);
        }
    }
    e.wb = match (wb[1], bal) {
        (Some(g), _) => nan3([wb[0].map_or(1.0, |r| g / r), 1.0, wb[2].map_or(1.0, |b| g / b)]),
        (None, [Some(r), Some(b)]) => nan3([256.0 / r, 1.0, 256.0 / b]),
        _ => None,
    };
    t.push(("main", 0x09, if k[16] == 0 { None } else { Some(V::S(vec![k[16] as u16])) }));
    e.pat = match k[16] {
        1..=4 => pat(["RGGB", "GRBG", "GBRG", "BGGR"][k[16] - 1]),
        _ => none_pat(),
    };
    e.mats[0] = builtin("panasonic", id).map(|m| (D65, m.2));
    let c = apply(Cfg::new(false, 20, 12), t);
    let f = match k[17] {
        0 => co::rw2(&c),
        1 => co::rw2_with(&c, &(0..384).map(|i| if i % 16 == 15 { 0 } else { 0x35 }).collect::<Vec<u8>>(), false, 0),
        _ => co::rw2_with(&c, &vec![0x35; 100], true, 0),
    };
    Some((f.data, e))
}

fn sensor(k: usize) -> (Option<V>, Option<R4>) {
    let s = |l: u16, t: u16, r: u16, b: u16, n: usize| {
        let mut v = vec![34u16, 16, 12, 1, 1, l, t, r, b, 7, 7, 7, 7, 0, 0, 0, 0];
        v.truncate(n);
        Some(V::S(v))
    };
    match k {
        0 => (None, None),
        1 => (s(2, 1, 14, 11, 17), Some([2, 1, 12, 10])),
        2 => (s(2, 1, 15, 10, 9), Some([2, 1, 14, 10])),
        3 => (s(2, 1, 15, 11, 8), None),
        4 => (s(5, 1, 5, 11, 17), None),
        _ => (s(2, 9, 15, 8, 17), None),
    }
}
fn aspect(k: usize, org: (u32, u32)) -> (Option<V>, Option<R4>, Option<(u32, u32)>) {
    let codes: [(u32, Option<(u32, u32)>); 10] = [
        (0, Some((3, 2))),
        (1, Some((1, 1))),
        (2, Some((4, 3))),
        (7, Some((16, 9))),
        (8, Some((4, 5))),
        (12, Some((3, 2))),
        (13, Some((3, 2))),
        (256, Some((3, 2))),
        (258, Some((4, 3))),
        (99, None),
    ];
    match k {
        0 => (None, None, None),
        11 => (Some(V::L(vec![0, 8, 7, 1])), None, None),
        _ => {
            let c = codes[k - 1];
            (Some(V::L(vec![c.0, 8, 7, 1, 3])), Some([1 + org.0, 3 + org.1, 8, 7]), c.1)
        }
    }
}

/// (length, first value, where black levels are, where the white balance is)
const COLOURS: [(usize, i16, Option<usize>, usize); 24] = [
    (582, 7, None, 25),
    (653, 7, None, 24),
    (796, 1, Some(196), 63),
    (674, 2, None, 63),
    (674, 3, None, 63),
    (702, 4, Some(692), 63),
    (1227, 5, Some(692), 63),
    (1250, 6, Some(715), 63),
    (1251, 7, Some(715), 63),
    (1337, 9, Some(719), 63),
    (1338, -4, Some(333), 71),
    (1338, -3, Some(264), 71),
    (1273, 10, Some(479), 63),
    (1275, 11, Some(479), 63),
    (1312, 10, Some(504), 63),
    (1506, 11, Some(728), 63),
    (1560, 12, Some(778), 63),
    (1592, 13, Some(778), 63),
    (1353, 14, Some(556), 63),
    (1602, 15, Some(778), 63),
    (1816, 16, Some(329), 71),
    (2024, 32, Some(343), 85),
    (3973, 34, Some(363), 105),
    (3778, 48, Some(363), 105),
];
fn cr2_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("SensorInfo", 6),
        ("AspectInfo", 12),
        ("ColorData", 30),
        ("CFA", 4),
        ("camera", 4),
        ("slices", 3),
        ("strip types", 4),
    ]
}
fn cr2(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    // listed: with white level, without; unlisted
    let (num, id) = match k[4] {
        0 => (0x80000999, (1u16, 0u16)),
        x => {
            let name = ["EOS_7D", "EOS_5D", "EOS_1DMKII"][x - 1];
            let c = camera("canon", name);
            (c.1.unwrap(), c.0)
        }
    };
    let lev = builtin("canon", id);
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    e.bpc = if skip { 8 } else { 14 };
    let max = ((1u32 << e.bpc) - 1) as u16;
    e.whites = [lev.as_ref().map_or(max, |l| if l.1 == 0 { max } else { l.1 }); 4];
    e.blacks = [lev.as_ref().map_or(0, |l| l.0); 4];
    let (v, a) = sensor(k[0]);
    t.push(("mnote", 0xe0, v));
    e.active = a;
    let (v, c, ar) = aspect(k[1], a.map_or((0, 0), |a| (a[0], a[1])));
    t.push(("mnote", 0x9a, v));
    e.crop = c;
    e.ar = ar;
    let mut cd = None;
    match k[2] {
        0 => {}
        1..=24 => {
            let (n, first, bl, wb) = COLOURS[k[2] - 1];
            let mut v: Vec<u16> = (0..n).map(|i| 2000 + i as u16).collect();
            v[0] = first as u16;
            if let Some(b) = bl {
                e.blacks = [v[b], v[b + 1], v[b + 2], v[b + 3]];
            }
            let f = |i: usize| v[wb + i] as f64;
            e.wb = nan3([f(1) / f(0), 1.0, f(1) / f(3)]);
            cd = Some(V::S(v));
        }
        // too short, or unknown: nothing is to be had
        25 => cd = Some(V::S(vec![])),
        26 => cd = Some(V::S(vec![1])),
        27 => {
            // white balance only
            let mut v: Vec<u16> = (0..150).map(|i| 2000 + i as u16).collect();
            v[0] = 1;
            e.skip.extend(["wb", "blacks"]);
            cd = Some(V::S(v));
        }
        28 => cd = Some(V::S(vec![100; 400])),
        _ => cd = Some(V::L(vec![1; 400])),
    }
    t.push(("mnote", 0x4001, cd));
    t.push(("raw", 0xc5e0, [None, Some(V::L(vec![1])), Some(V::S(vec![3])), Some(V::L(vec![4]))][k[3]].clone()));
    e.pat = pat(if k[3] == 2 { "GBRG" } else { "RGGB" });
    t.push(("mnote", 0x10, Some(V::L(vec![num]))));
    // what the file says of its size when the data isn't decoded
    if skip {
        e.skip.push("dims");
        e.skip.push("out");
    }
    e.mats[0] = lev.map(|m| (D65, m.2));
    let cfg = Cfg::new(be, 16, 12).var(if k[5] == 0 { 1 } else if k[5] == 1 { 0 } else { 2 });
    let mut f = co::cr2(&apply(cfg.clone(), t.clone()));
    if k[6] > 1 {
        // offset and length in words
        let (o, l) = (f.labels["raw"], f.labels["raw_end"] - f.labels["raw"]);
        if k[6] & 1 == 1 {
            t.push(("raw", 0x117, Some(V::S(vec![l as u16]))));
        }
        if k[6] & 2 == 2 {
            t.push(("raw", 0x111, Some(V::S(vec![o as u16]))));
        }
        f = co::cr2(&apply(cfg, t));
        assert_eq!(f.labels["raw"], o);
    }
    Some((f.data, e))
}

fn cr3_knobs() -> Vec<(&'static str, usize)> {
    vec![("SensorInfo", 6), ("AspectInfo", 12), ("camera", 3)]
}
fn cr3(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let _ = skip;
    let c = camera("canon", ["EOS_R", "EOS_RP", "EOS_R6"][k[2]]);
    let mut e = base(16, 12, "CFA");
    let mut t: Tw = vec![];
    e.bpc = 8;
    e.whites = [0; 4];
    e.skip.extend(["whites", "blacks"]);
    e.pat = none_pat();
    let (v, a) = sensor(k[0]);
    t.push(("mnote", 0xe0, v));
    e.active = a;
    let (v, cr, ar) = aspect(k[1], a.map_or((0, 0), |a| (a[0], a[1])));
    t.push(("mnote", 0x9a, v));
    e.crop = cr;
    e.ar = ar;
    t.push(("mnote", 0x10, Some(V::L(vec![c.1.unwrap()]))));
    e.mats[0] = builtin("canon", c.0).map(|m| (D65, m.2));
    Some((co::cr3(&apply(Cfg::new(be, 16, 12), t)).data, e))
}

fn crw_knobs() -> Vec<(&'static str, usize)> {
    vec![("SensorInfo", 4), ("ColourInfo2", 4), ("ColourInfo1", 4), ("ShotInfo", 11), ("WBTable", 2), ("camera", 5), ("lowbits", 2)]
}
fn crw(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    let (w, h) = (32usize, 16usize);
    let name = ["EOS_D60", "PRO1", "G6", "S60", "G2"][k[5]];
    let (id, _, model) = camera("canon", name);
    let lev = builtin("canon", id);
    let mut e = base(w, h, "CFA");
    let low = k[6] == 1;
    e.bpc = if skip { 8 } else if low { 12 } else { 10 };
    let max = ((1u32 << e.bpc) - 1) as u16;
    if skip {
        e.skip.extend(["whites", "blacks", "bpc"]);
    } else {
        e.whites = [lev.as_ref().map_or(max, |l| if l.1 == 0 { max } else { l.1 }); 4];
        e.blacks = [lev.as_ref().map_or(0, |l| l.0); 4];
    }
    let mut cfg = Cfg::new(be, w, h);
    cfg.img = crate::rec::image(5, w, h, if low { 12 } else { 10 });
    cfg.model = model.map(|m| m.to_string());
    let raw = crate::codec::crw::encode(&cfg.img, w, h, 0, low);
    let mut recs = co::crw_recs(&cfg, &raw);
    let wb_at = |n: usize, at: usize, v: &[u16]| {
        let mut b: Vec<u16> = (0..n).map(|i| 3000 + i as u16).collect();
        b[at..at + v.len()].copy_from_slice(v);
        b
    };
    let mut wb: Option<[f64; 4]> = None;
    let c2 = match k[1] {
        0 => None,
        1 => {
            wb = Some([0.5, 256.0 / 300.0, 1.0, 256.0 / 400.0]);
            let mut v = wb_at(100, 60, &[256, 400, 512, 300]);
            v[0] = 600;
            Some(v)
        }
        2 => {
            wb = nan3([0.5, 1.0, 256.0 / 400.0]);
            let mut v = wb_at(100, 50, &[255, 512, 400, 257]);
            v[0] = 100;
            Some(v)
        }
        _ => {
            let mut v = wb_at(100, 60, &[256, 400, 512, 300]);
            v[0] = 276;
            Some(v)
        }
    };
    let c1 = match k[2] {
        0 => None,
        1 => {
            if wb.is_none() {
                let v = [100.0, 200.0, 210.0, 300.0].map(|v| 1024.0 / v);
                let g = (v[1] + v[2]) / 2.0;
                wb = nan3([g / v[0], 1.0, g / v[3]]);
            }
            Some(wb_at(384, 36, &[100, 200, 210, 300]))
        }
        2 => {
            let (at, key) = if (1..=3).contains(&k[5]) { (48, (0x410u16, 0x45f3u16)) } else { (60, (0, 0)) };
            if wb.is_none() {
                wb = nan3([0.5, 1.0, 256.0 / 400.0]);
            }
            Some(wb_at(512, at, &[256 ^ key.0, 512 ^ key.1, 400 ^ key.0]))
        }
        _ => Some(wb_at(100, 36, &[100, 200, 210, 300])),
    };
    let tab: Vec<u16> = (0..60).map(|i| 200 + i as u16 * 10).collect();
    if wb.is_none() && k[3] != 0 && k[4] != 0 {
        if let Some(d) = b"0134567028".get(k[3] - 1) {
            let o = 1 + (d - b'0') as usize * 4;
            let g = tab[o + 1] as f64;
            wb = nan3([g / tab[o] as f64, 1.0, g / tab[o + 3] as f64]);
        }
    }
    e.wb = wb;
    let (si, area): (Option<Vec<u16>>, Option<R4>) = match k[0] {
        0 => (None, None),
        1 => (Some(vec![18, 32, 16, 1, 1, 2, 1, 30, 15]), Some([2, 1, 28, 14])),
        2 => (Some(vec![18, 32, 16, 1, 1, 2, 1, 29, 14]), Some([2, 1, 28, 14])),
        _ => (Some(vec![18, 32, 16, 1, 1, 9, 1, 9, 14]), None),
    };
    e.active = area;
    if area.is_none() && !skip {
        // no dimensions, no image
        return None;
    }
    let mut shot = vec![0u16; 24];
    shot[7] = (k[3] as u16).wrapping_sub(1);
    if let Ci::S(_, v) = &mut recs[2] {
        for r in v.iter_mut() {
            if let Ci::S(0x300b, v) = r {
                v.retain(|r| !matches!(r, Ci::H(0x1031 | 0x102a | 0x10a9, _) | Ci::I(0x1834, _)));
                for (tag, d) in [
                    (0x1031u16, si.clone()),
                    (0x102c, c2.clone()),
                    (0x0032, c1.clone()),
                    (0x102a, if k[3] == 0 { None } else { Some(shot.clone()) }),
                    (0x10a9, if k[4] == 0 { None } else { Some(tab.clone()) }),
                ] {
                    if let Some(d) = d {
                        v.push(Ci::H(tag, c16(&d, be)));
                    }
                }
                // an unlisted number: the name says the camera
                v.push(Ci::I(0x1834, in8(co::c32(&[0x0fff0000, 0], be))));
            }
        }
    }
    e.pat = pat("RGGB");
    e.mats[0] = lev.map(|m| (D65, m.2));
    Some((co::crw_with(&cfg, &recs, false, 26).data, e))
}

fn mrw_knobs() -> Vec<(&'static str, usize)> {
    vec![("WBG", 5), ("Bayer", 4), ("storage", 3), ("camera", 4), ("pixel size", 3)]
}
fn mrw(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    if !be {
        return None;
    }
    let (w, h) = (16usize, 12usize);
    let cam = [(b"27820001", "DIMAGE7"), (b"27660001", "DIMAGE5"), (b"27200001", "DIMAGEA1"), (b"99999999", "")][k[3]];
    let id = if cam.1.is_empty() {
        None
    } else {
        MODELS.iter().find(|m| m.0 == "minolta" && m.1.as_bytes() == cam.0).map(|m| m.2).or_else(|| {
            crate::cameras::IDS.iter().find(|i| i.0 == "minolta" && i.1 == cam.1).map(|i| (crate::cameras::IDS.iter().find(|v| v.0 == "vendor" && v.1 == "MINOLTA").unwrap().2, i.2))
        })
    };
    let lev = id.and_then(|i| builtin("minolta", i));
    let mut e = base(w, h, "CFA");
    let c = Cfg::new(true, w, h);
    let packed = k[2] == 1;
    let data = if packed { co::pack12be(&c.img) } else { co::be16(&c.img) };
    let bayer = [1u16, 4, 0, 7][k[1]];
    e.pat = pat(if bayer == 4 { "GBRG" } else { "RGGB" });
    let storage = [0x52u8, 0x59, 0x50][k[2]];
    let order: &[&str] = if k[0] == 0 { &["PRD", "TTW", "RIF", "PAD"] } else { &["PRD", "TTW", "WBG", "RIF", "PAD"] };
    let mut f = co::mrw_blocks(&c, &data, storage, bayer, order);
    let find = |d: &[u8], n: &[u8]| d.windows(4).position(|x| x == n).unwrap() + 8;
    let p = find(&f.data, b"\0PRD");
    f.data[p..p + 8].copy_from_slice(&cam.0[..]);
    let bps = [12u8, 14, 16][k[4]];
    f.data[p + 17] = bps;
    e.bpc = if packed && !skip { 16 } else { bps as u16 };
    if k[0] != 0 {
        let p = find(&f.data, b"\0WBG");
        // denominators r, g, g, b and the same of nominators
        let d: [u8; 4] = [[2, 2, 2, 2], [0, 1, 2, 3], [2, 0, 0, 1], [3, 3, 3, 3]][k[0] - 1];
        let n: [u16; 4] = [512, 256, 300, 400];
        f.data[p..p + 4].copy_from_slice(&d);
        f.data[p + 4..p + 12].copy_from_slice(&co::be16(&n));
        let v = |i: usize| (64u32 << d[i]) as f64 / n[i] as f64;
        // in the order of the pattern
        e.wb = if bayer == 4 { nan3([v(2), v(0), v(1)]) } else { nan3([v(0), v(1), v(3)]) };
    }
    match &lev {
        Some(l) => {
            e.whites = [l.1; 4];
            e.blacks = [l.0; 4];
        }
        None => e.skip.extend(["whites", "blacks"]),
    }
    e.mats[0] = lev.map(|m| (D65, m.2));
    Some((f.data, e))
}

fn raf_knobs() -> Vec<(&'static str, usize)> {
    vec![
        ("SensorDim", 2),
        ("TopLeft", 2),
        ("HeightWidth", 2),
        ("Aspect", 6),
        ("Cropped", 4),
        ("CropTopLeft", 2),
        ("CropHeightWidth", 2),
        ("Pattern", 4),
        ("RafData", 5),
        ("WBOld", 3),
        ("WB", 4),
        ("Black", 5),
        ("layout", 5),
        ("camera", 3),
    ]
}
/// the largest centred rectangle of the ratio inside `r`
fn crop_into(a: (u32, u32), r: R4) -> R4 {
    let (w, h) = (r[2] as u64, r[3] as u64);
    let (a0, a1) = (a.0 as u64, a.1 as u64);
    let (nw, nh) = if w * a1 > h * a0 { (h * a0 / a1, h) } else { (w, w * a1 / a0) };
    [r[0] + ((w - nw) / 2) as u32, r[1] + ((h - nh) / 2) as u32, nw as u32, nh as u32]
}
fn raf(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    if !be {
        return None;
    }
    let _ = skip;
    // with the old white balance is the old layout
    let mut k = k.to_vec();
    if k[9] != 0 {
        k[12] = 4;
    }
    let (w, h) = (24u16, 16u16);
    let name = ["XT1", "X10", "XF1"][k[13]];
    let (id, _, model) = camera("fujifilm", name);
    let mut e = base(w as usize, h as usize, "CFA");
    let mut meta: Vec<(u16, Vec<u8>)> = vec![];
    if k[0] == 0 && k[2] == 0 {
        return None;
    }
    // when the dimensions aren't told the area's are
    let area_dim = if k[0] == 0 { (w, h) } else { (20, 14) };
    if k[0] == 1 {
        meta.push((0x100, b2(h, w)));
    }
    if k[1] == 1 {
        meta.push((0x110, b2(1, 2)));
    }
    if k[2] == 1 {
        meta.push((0x111, b2(area_dim.1, area_dim.0)));
    }
    if k[1] == 1 && k[2] == 1 {
        e.active = Some([2, 1, area_dim.0 as u32, area_dim.1 as u32]);
    }
    let ar = [None, Some((3u32, 2u32)), Some((1, 1)), Some((16, 9)), Some((4, 3)), Some((2, 3))][k[3]];
    if let Some(a) = ar {
        meta.push((0x115, b2(a.1 as u16, a.0 as u16)));
    }
    e.ar = ar;
    let flag = [None, Some(0u32), Some(1), Some(3)][k[4]];
    if let Some(f) = flag {
        meta.push((0x117, be32(f)));
    }
    if k[5] == 1 {
        meta.push((0x118, b2(3, 4)));
    }
    if k[6] == 1 {
        meta.push((0x119, b2(10, 12)));
    }
    let src = if flag.map_or(false, |f| f & 1 == 1) {
        if k[5] == 1 && k[6] == 1 {
            Some([4, 3, 12, 10])
        } else {
            None
        }
    } else {
        e.active
    };
    match (ar, src) {
        (Some(a), Some(s)) => e.crop = Some(crop_into(a, s)),
        (None, Some(_)) => e.skip.push("crop"),
        _ => {}
    }
    let cols = |n: usize, s: usize| (0..n).map(|i| ((i * 7 + i / 6 + s) % 3) as u8).collect::<Vec<u8>>();
    e.pat = pat(if k[13] == 0 { "RGGB" } else { "BGGR" });
    match k[7] {
        0 => {}
        x => {
            let v = cols(36, x - 1);
            meta.push((0x131, v.clone()));
            let rev: Vec<u8> = v.into_iter().rev().collect();
            e.pat = pattern(&CfaPattern::try_from(&rev[..]).ok()?);
        }
    }
    let rd: &[u32] = [&[][..], &[29, 20, 14, 0], &[20, 14], &[60, 50, 40], &[50, 60, 23, 15, 9]][k[8]];
    if k[8] != 0 {
        meta.push((0xc000, rd.iter().flat_map(|v| v.to_le_bytes()).collect()));
    }
    e.out = [None, Some((20, 14)), Some((20, 14)), None, Some((23, 15))][k[8]];
    match k[9] {
        0 => {}
        1 => {
            meta.push((0x2ff0, co::be16(&[256, 512, 7, 400])));
            e.wb = nan3([0.5, 1.0, 256.0 / 400.0]);
        }
        _ => meta.push((0x2ff0, co::be16(&[256, 512, 7])[..5].to_vec())),
    }
    meta.push((0x130, be32(if k[12] == 4 { 0x80000000 } else { 0x00000c00 })));
    meta.sort_by_key(|m| m.0);
    let old = k[12] == 4;
    let mut t: Tw = vec![];
    if !old {
        let v: &[u32] = [&[][..], &[300, 600, 400], &[300, 600, 400, 9], &[300, 600]][k[10]];
        t.push(("raw", 0xf00e, if k[10] == 0 { None } else { Some(int(v, k[10] % 2)) }));
        if e.wb.is_none() && v.len() >= 3 {
            e.wb = nan3([0.5, 1.0, 0.75]);
        }
        let v: Vec<u32> = match k[11] {
            0 => vec![],
            1 => vec![1024, 1025, 1026, 1027],
            2 => vec![258],
            3 => (0..36).map(|i| 1000 + i).collect(),
            _ => vec![1024, 1025, 1026, 1027],
        };
        t.push(("raw", 0xf00a, if k[11] == 0 { None } else { Some(int(&v, (k[11] == 4) as usize ^ 1)) }));
        if k[11] != 0 {
            e.blacks = quad(&v);
        }
    }
    let mut c = apply(Cfg::new(false, w as usize, h as usize), t);
    c.model = model.map(|m| m.to_string());
    let o = co::RafOpt { meta, bps: [16u16, 14, 12, 14, 16][k[12]], old };
    let n = w as usize * h as usize;
    let (data, bpc): (Vec<u8>, u16) = match k[12] {
        0 | 4 => (co::le16(&c.img), 16),
        1 => (co::le16(&c.img), 16),
        2 => (vec![0x35; n * 3 / 2], 16),
        _ => (vec![0x35; n], 14),
    };
    e.bpc = bpc;
    e.whites = [((1u32 << o.bps) - 1) as u16; 4];
    e.mats[0] = builtin("fujifilm", id).map(|m| (D65, m.2));
    Some((co::raf_with(&c, &o, &data).data, e))
}

fn tif_knobs() -> Vec<(&'static str, usize)> {
    vec![("WB", 5), ("offset", 3), ("length", 4), ("camera", 3), ("sensor info", 3)]
}
/// The TIF of the EOS-1D and 1DS: the raw data is told by the maker note.
fn tif(k: &[usize], be: bool, skip: bool) -> Option<(Vec<u8>, W)> {
    tif_file(k, be, skip).map(|(f, w)| (f.data, w))
}
pub fn tif_file(k: &[usize], be: bool, skip: bool) -> Option<(File, W)> {
    if k[1] == 0 {
        return None;
    }
    let (w, h) = (16, 12);
    let (num, name) = [(0x80000001u32, "EOS_1D"), (0x80000167, "EOS_1DS"), (0x80000001, "EOS_1D")][k[3]];
    let lev = builtin("canon", camera("canon", name).0);
    let mut e = base(w, h, "CFA");
    e.bpc = if skip { 8 } else { 14 };
    let max = ((1u32 << e.bpc) - 1) as u16;
    e.whites = [lev.as_ref().map_or(max, |l| if l.1 == 0 { max } else { l.1 }); 4];
    e.blacks = [lev.as_ref().map_or(0, |l| l.0); 4];
    e.mats[0] = lev.map(|m| (D65, m.2));
    if skip {
        e.skip.extend(["dims", "out"]);
    }
    let mut t: Tw = vec![];
    t.push(("mnote", 0x10, Some(V::L(vec![num]))));
    t.push(("mnote", 0xa4, match k[0] {
        0 => None,
        4 => Some(V::S(vec![512, 256])),
        x => {
            let v = [512u32, 256, 400, 7, 8];
            e.wb = nan3([0.5, 1.0, 256.0 / 400.0]);
            Some(int(&v[..[3, 5, 4][x - 1]], (x == 3) as usize))
        }
    }));
    t.push(("mnote", 0x4001, None));
    t.push(("mnote", 0xe0, sensor(k[4] * 2).0));
    t.push(("raw", 0x111, None));
    let cfg = Cfg::new(be, w, h).var(1);
    let mut len = 0;
    let mut off = 0;
    for _ in 0..2 {
        let mut t = t.clone();
        t.push(("mnote", 0x81, Some(if k[1] == 2 { V::S(vec![off as u16]) } else { V::L(vec![off as u32]) })));
        t.push(("mnote", 0x82, match k[2] {
            0 => None,
            1 => Some(V::L(vec![len as u32])),
            2 => Some(V::S(vec![len as u16])),
            _ => Some(V::L(vec![len as u32 + 20])),
        }));
        let f = co::cr2(&apply(cfg.clone(), t));
        let was = off;
        (off, len) = (f.labels["raw"], f.labels["raw_end"] - f.labels["raw"]);
        if off == was {
            return Some((f, e));
        }
    }
    None
}

fn a100_knobs() -> Vec<(&'static str, usize)> {
    vec![("WBG", 5), ("Bayer", 4), ("PixelSize", 3), ("storage", 3), ("order", 4), ("private", 5), ("number", 2)]
}
/// The Sony A100: an ARW with the data blocks of a MRW.
fn a100(k: &[usize], be: bool, _skip: bool) -> Option<(Vec<u8>, W)> {
    a100_file(k, be).map(|(f, w)| (f.data, w))
}
pub fn a100_file(k: &[usize], be: bool) -> Option<(File, W)> {
    if be || k[5] != 1 {
        return None;
    }
    let (w, h) = (16usize, 12usize);
    let mut e = base(w, h, "CFA");
    e.bpc = [12u16, 14, 16][k[2]];
    e.skip.extend(["whites", "blacks"]);
    let bayer = [1u16, 4, 0, 7][k[1]];
    e.pat = pat(if bayer == 4 { "GBRG" } else { "RGGB" });
    let mut prd = b"DSLR-A10".to_vec();
    prd.extend(c16(&[h as u16, w as u16, 9, 10], false));
    prd.extend([12, e.bpc as u8, [0x52u8, 0x59, 0x50][k[3]], 0, 0, 0]);
    prd.extend(c16(&[bayer], false));
    let mut blocks: Vec<(&[u8], Vec<u8>)> = vec![(b"\0PRD", prd), (b"\0RIF", vec![3; 20])];
    if k[0] != 0 {
        let d: [u8; 4] = [[2, 2, 2, 2], [0, 1, 2, 3], [2, 0, 0, 1], [3, 3, 3, 3]][k[0] - 1];
        let n: [u16; 4] = [512, 256, 300, 400];
        let mut b = d.to_vec();
        b.extend(c16(&n, false));
        blocks.push((b"\0WBG", b));
        let v = |i: usize| (64u32 << d[i]) as f64 / n[i] as f64;
        // in the order of the pattern
        e.wb = if bayer == 4 { nan3([v(2), v(0), v(1)]) } else { nan3([v(0), v(1), v(3)]) };
    }
    match k[4] {
        0 => blocks.reverse(),
        1 => {}
        2 => blocks.insert(0, (b"\0PAD", vec![7; 9])),
        _ => blocks.insert(1, (b"\0XYZ", vec![])),
    }
    let mut mri = vec![];
    for (n, b) in &blocks {
        mri.extend(*n);
        mri.extend((b.len() as u32).to_le_bytes());
        mri.extend(b);
    }
    let mut all = b"\0MRI".to_vec();
    all.extend((mri.len() as u32).to_le_bytes());
    all.extend(mri);
    e.mats[0] = builtin("sony", camera("sony", "A100").0).map(|m| (D65, m.2));
    let mut at = 0usize;
    loop {
        let mut t: Tw = vec![];
        t.push(("main", 0x14a, Some(V::L(vec![(at + all.len()) as u32]))));
        t.push(("main", 0xc634, Some(V::B((at as u32).to_le_bytes().to_vec()))));
        t.push(("mnote", 0xb001, if k[6] == 0 { None } else { Some(V::S(vec![0x100])) }));
        let mut c = apply(Cfg::new(be, w, h), t);
        c.model = Some("DSLR-A100".into());
        let mut f = co::arw(&c);
        if at == f.data.len() {
            f.labels.insert("mri".into(), at);
            let mut p = 0;
            while p < all.len() {
                for (off, width) in [(0, 4), (4, 4), (8, 2), (10, 2), (16, 2), (18, 2), (25, 1), (26, 1), (30, 2)] {
                    if p + off + width <= all.len() {
                        f.fields.push(Field { off: at + p + off, width, be: false, name: format!("mri{p} {off}") });
                    }
                }
                let n = u32::from_le_bytes(all[p + 4..p + 8].try_into().unwrap()) as usize;
                p += 8 + if p == 0 { 0 } else { n };
            }
            f.data.extend(&all);
            f.data.extend(vec![0x5a; w * h * 2]);
            return Some((f, e));
        }
        at = f.data.len();
    }
}

fn formats() -> Vec<Fmt> {
    let both: &[bool] = &[false, true];
    let be: &[bool] = &[true];
    let le: &[bool] = &[false];
    let f = |name, ext, knobs: Vec<(&'static str, usize)>, endians, make| Fmt { name, ext, knobs, endians, make };
    vec![
        f("dng", "dng", dng_knobs(), both, dng_sub as fn(&[usize], bool, bool) -> Option<(Vec<u8>, W)>),
        f("dng raw in the main directory", "dng", dng_knobs(), both, dng_main),
        f("dng LJPEG", "dng", dng_knobs(), both, dng_jpeg),
        f("nef", "nef", nef_knobs(), both, nef),
        f("arw", "arw", arw_knobs(), both, arw),
        f("pef", "pef", pef_knobs(), both, pef),
        f("erf", "erf", erf_knobs(), both, erf),
        f("orf", "orf", orf_knobs(), both, orf),
        f("rw2", "rw2", rw2_knobs(), le, rw2),
        f("cr2", "cr2", cr2_knobs(), both, cr2),
        f("cr3", "cr3", cr3_knobs(), both, cr3),
        f("crw", "crw", crw_knobs(), both, crw),
        f("mrw", "mrw", mrw_knobs(), be, mrw),
        f("tif of Canon", "cr2", tif_knobs(), both, tif),
        f("arw of the A100", "arw", a100_knobs(), le, a100),
        f("raf", "raf", raf_knobs(), be, raf),
    ]
}

/// All vectors: presence of each field (0, 1), all options of every pair of
/// fields with the others absent, and with the others usual.
fn vectors(knobs: &[(&'static str, usize)], thorough: bool) -> Vec<Vec<usize>> {
    let n = knobs.len();
    let mut s = std::collections::BTreeSet::new();
    if n <= if thorough { 20 } else { 14 } {
        for m in 0..1usize << n {
            s.insert((0..n).map(|i| m >> i & 1).collect::<Vec<_>>());
        }
    } else {
        // too many for quick: all presences of every window of 12 fields
        for at in 0..n {
            for m in 0..1usize << 12 {
                for rest in 0..2 {
                    let mut v = vec![rest; n];
                    for i in 0..12 {
                        v[(at + i) % n] = m >> i & 1;
                    }
                    s.insert(v);
                }
            }
        }
    }
    let deep = if thorough { 3 } else { 2 };
    for rest in 0..2usize {
        for i in 0..n {
            for j in i + 1..n {
                for a in 0..knobs[i].1 {
                    for b in 0..knobs[j].1 {
                        let mut v = vec![rest; n];
                        v[i] = a;
                        v[j] = b;
                        s.insert(v.clone());
                        if deep == 3 {
                            for l in j + 1..n {
                                for c in 0..knobs[l].1 {
                                    let mut v = v.clone();
                                    v[l] = c;
                                    s.insert(v);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    s.into_iter().collect()
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C20", "model_checking", thorough);
    ctx.rule = "for every combination of present and absent fields of each format (and every choice of value and type for each pair of fields), in both byte orders, decoded and not, the raw image has the dimensions, depth, active area, crop, aspect ratio, output size, mosaic pattern, black and white levels, white balance, matrices and linearisation table the file declares, or the documented default".into();
    ctx.assumptions = vec![
        "the meaning of vendor fields (offsets in Canon colour data, Sony settings, Nikon blocks, CIFF records, Fuji tables) is that of ExifTool and dcraw".into(),
        "not judged: levels of undecoded CRW and CR3, size of undecoded CR2, crop of RW2 without right or bottom border, built-in PEF black next to a stored white, RAF crop without aspect ratio".into(),
    ];
    let opts = Opts::default();
    for f in formats() {
        let vs = Rc::new(vectors(&f.knobs, thorough));
        let per = f.endians.len() as u64;
        let name = |i: u64| {
            let v = &vs[(i / per) as usize];
            let d: Vec<String> = v.iter().enumerate().filter(|(_, x)| **x != 1).map(|(j, x)| format!("{}={x}", f.knobs[j].0)).collect();
            format!("{} be={} {}", f.name, f.endians[(i % per) as usize], d.join(" "))
        };
        par(&mut ctx, f.name, vs.len() as u64 * per, 64, &opts, &name, &|i, r| {
            let v = &vs[(i / per) as usize];
            let be = f.endians[(i % per) as usize];
            for skip in [false, true] {
                let Some((data, w)) = (f.make)(v, be, skip) else { continue };
                let key = format!("{} {}", name(i), if skip { "undecoded" } else { "decoded" });
                r.trace(1, &data);
                match rawfile_from_memory(data, Some(hint(f.ext))).and_then(|f| f.raw_data(skip)) {
                    Ok(img) => judge(&key, &img, &w, r),
                    Err(e) => r.bad(key, format!("no raw data: {e}")),
                }
            }
        });
    }
    ctx.finish()
}
