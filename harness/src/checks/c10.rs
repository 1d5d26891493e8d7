//! C10: which camera a file says it was taken with, and what is known of it.
use super::robust::hint;
use crate::asm::V;
use crate::cameras::{HEADER, IDS, MATRICES, MODELS, NUMBERS};
use crate::corpus::{self as co, with, without, Cfg, Ci};
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use libopenraw::rawfile_from_memory;

type Id = (u16, u16);

/// A format: extension, source of its cameras, and how it says them.
struct F {
    ext: &'static str,
    cams: &'static str,
    names: bool,
    numbers: bool,
    generic: Id,
}

fn vendor(n: &str) -> u16 {
    IDS.iter().find(|i| i.0 == "vendor" && i.1 == n).unwrap().2
}

fn formats() -> Vec<F> {
    let f = |ext, cams, names, numbers, v: &str| F {
        ext,
        cams,
        names,
        numbers,
        generic: (vendor(v), if ext == "dng" { 1 } else { 0 }),
    };
    vec![
        f("dng", "dng", true, false, "ADOBE"),
        f("nef", "nikon", true, false, "NIKON"),
        f("cr2", "canon", false, true, "CANON"),
        f("cr3", "canon", false, true, "CANON"),
        f("crw", "canon", true, true, "CANON"),
        f("arw", "sony", true, true, "SONY"),
        f("pef", "pentax", true, true, "PENTAX"),
        f("erf", "epson", true, false, "EPSON"),
        f("orf", "olympus", true, false, "OLYMPUS"),
        f("rw2", "panasonic", true, false, "PANASONIC"),
        f("mrw", "minolta", true, false, "MINOLTA"),
        f("raf", "fujifilm", true, false, "FUJIFILM"),
    ]
}

fn numtag(ext: &str) -> u16 {
    match ext {
        "arw" => 0xb001,
        "pef" => 5,
        _ => 0x10,
    }
}

const MAKE: &[(&str, &str)] = &[
    ("dng", "Pentax"),
    ("nef", "NIKON CORPORATION"),
    ("cr2", "Canon"),
    ("cr3", "Canon"),
    ("crw", "Canon"),
    ("arw", "SONY"),
    ("pef", "PENTAX Corporation "),
    ("erf", "SEIKO EPSON CORP."),
    ("orf", "OLYMPUS CORPORATION    "),
    ("rw2", "Panasonic"),
    ("mrw", "Minolta Co., Ltd."),
    ("raf", "FUJIFILM"),
];

/// How a file tells its camera
#[derive(Clone, Debug, Default)]
struct How {
    be: bool,
    name: Option<String>,
    /// UniqueCameraModel
    unique: Option<String>,
    number: Option<u32>,
    /// the number is stored as SHORT
    short: bool,
    /// the file also has a colour matrix of its own
    own: bool,
}

fn own() -> Vec<(i32, i32)> {
    (0..9).map(|i| (7000 - i * 777, 10000)).collect()
}

fn file(ext: &str, h: &How) -> Vec<u8> {
    let mut c = Cfg::new(h.be, 32, 16);
    c.make = MAKE.iter().find(|m| m.0 == ext).map(|m| m.1.to_string());
    if ext == "crw" {
        c.img = (0..512).map(|i| (i * 37 % 1024) as u16).collect();
    }
    if let Some(n) = &h.name {
        c.model = Some(n.clone());
    }
    if ext == "dng" {
        c = match &h.unique {
            Some(u) => c.tweak(with("main", 0xc614, V::A(u.clone()))),
            None => c.tweak(without("main", 0xc614)),
        };
        for t in [0xc621, 0xc622, 0xc65a, 0xc65b] {
            c = c.tweak(without("main", t));
        }
    }
    if h.own {
        c = c.tweak(with("main", 0xc621, V::SR(own())));
        c = c.tweak(with("main", 0xc65a, V::S(vec![17])));
    }
    let t = numtag(ext);
    match h.number {
        Some(n) if h.short => c = c.tweak(with("mnote", t, V::S(vec![n as u16]))),
        Some(n) => c = c.tweak(with("mnote", t, V::L(vec![n]))),
        None => c = c.tweak(without("mnote", t)),
    }
    if h.name.is_none() && ext != "crw" && ext != "raf" && ext != "mrw" {
        c = c.tweak(without("main", 0x110));
    }
    match ext {
        "dng" => co::dng(&c).data,
        "nef" => co::nef(&c).data,
        "cr2" => co::cr2(&c).data,
        "arw" => co::arw(&c).data,
        "pef" => co::pef(&c).data,
        "erf" => co::erf(&c).data,
        "orf" => co::orf(&c).data,
        "rw2" => co::rw2(&c).data,
        "raf" => co::raf(&c).data,
        "cr3" => co::cr3(&c).data,
        "mrw" => {
            let mut d = co::mrw(&c).data;
            // the model is told by the version in the PRD block
            let at = d.windows(4).position(|w| w == b"\0PRD").unwrap() + 8;
            let mut v = [b' '; 8];
            let n = h.name.clone().unwrap_or_default().into_bytes();
            let l = n.len().min(8);
            v[..l].copy_from_slice(&n[..l]);
            d[at..at + 8].copy_from_slice(&v);
            d
        }
        _ => {
            let raw = crate::codec::crw::encode(&c.img, c.w, c.h, 0, false);
            let mut recs = co::crw_recs(&c, &raw);
            fn fix(r: &mut Vec<Ci>, n: Option<u32>, be: bool) {
                r.retain(|x| n.is_some() || !matches!(x, Ci::I(0x1834, _)));
                for x in r {
                    match x {
                        Ci::S(_, s) => fix(s, n, be),
                        Ci::I(0x1834, v) => *v = co::in8(co::c32(&[n.unwrap(), 0], be)),
                        _ => {}
                    }
                }
            }
            fix(&mut recs, h.number, c.be);
            co::crw_with(&c, &recs, false, 26).data
        }
    }
}

/// What the file's identity and calibration should be.
fn want(f: &F, h: &How) -> Id {
    if f.numbers {
        if let Some(n) = h.number {
            if let Some(m) = NUMBERS.iter().find(|m| m.0 == f.cams && m.1 == n) {
                return m.2;
            }
            if f.ext != "crw" {
                return f.generic;
            }
        } else if !f.names {
            return f.generic;
        }
    }
    let n = h.name.as_ref().or(if f.ext == "dng" { h.unique.as_ref() } else { None });
    n.and_then(|n| MODELS.iter().find(|m| m.0 == f.cams && m.1 == n))
        .map(|m| m.2)
        .unwrap_or(f.generic)
}

/// A name nearly like a published one may be read as it, never as another.
fn alike(f: &F, h: &How, got: Id) -> bool {
    let same = |n: &String| {
        let k: String = n.trim().to_ascii_lowercase();
        MODELS.iter().any(|m| m.0 == f.cams && m.2 == got && m.1.trim().to_ascii_lowercase() == k)
    };
    (h.number.is_none() || f.ext == "crw") && (h.name.as_ref().map_or(false, same) || h.unique.as_ref().map_or(false, same))
}

fn judge(key: &str, f: &F, h: &How, full: bool, r: &mut Rec) {
    let data = file(f.ext, h);
    let rf = match rawfile_from_memory(data, Some(hint(f.ext))) {
        Ok(r) => r,
        Err(e) => return r.bad(key, format!("doesn't open: {e:?}")),
    };
    let w = want(f, h);
    let got = match rf.type_id() {
        Ok(t) => {
            let t = u32::from(t);
            ((t >> 16) as u16, t as u16)
        }
        Err(e) => return r.bad(key, format!("no identity: {e:?}")),
    };
    let v = rf.vendor_id();
    r.trace(4, format!("{got:?}").as_bytes());
    if got != w && !(w == f.generic && alike(f, h, got)) {
        return r.bad(key, format!("identified as {got:?}, expected {w:?}"));
    }
    if !matches!(v, Ok(v) if v == got.0) {
        r.bad(key, format!("vendor {v:?} of {got:?}"));
    }
    // calibration
    let bm: Option<Vec<f64>> = MATRICES
        .iter()
        .find(|m| m.0 == f.cams && m.1 == got)
        .map(|m| m.4.iter().map(|v| *v as f64 / 10000.0).collect());
    let close = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-9);
    let b = rf.get_builtin_colour_matrix();
    match (&b, &bm) {
        (Ok(x), Some(y)) if close(x, y) => {}
        (Err(_), None) => {}
        _ => r.bad(key, format!("built-in matrix of {got:?}: {b:?}, expected {bm:?}")),
    }
    let (origin, cm) = if h.own {
        ("Provided", Some(own().iter().map(|x| x.0 as f64 / x.1 as f64).collect()))
    } else {
        ("Builtin", bm)
    };
    let m = rf.colour_matrix(1);
    match (&m, &cm) {
        (Ok((o, x)), Some(y)) if close(x, y) && format!("{o:?}") == origin => {}
        (Err(_), None) => {}
        _ => r.bad(key, format!("colour matrix 1 of {got:?}: {m:?}, expected {origin} {cm:?}")),
    }
    for i in [0, 2, 3] {
        if let Ok(m) = rf.colour_matrix(i) {
            r.bad(key, format!("colour matrix {i} of {got:?}: {m:?}"));
        }
    }
    if !full {
        return;
    }
    let il = if h.own { "A" } else { "D65" };
    // a camera whose raw data is not like the other ones'
    if f.ext == "nef" && h.name.as_deref() == Some("NIKON D100 ")
        || f.ext == "arw" && h.name.as_deref() == Some("DSLR-A100")
        || f.ext == "cr2" && matches!(h.number, Some(0x80000001 | 0x80000167))
    {
        return;
    }
    match rf.raw_data(true) {
        Ok(img) => {
            let m = img.colour_matrix(1).map(|m| (format!("{:?}", m.illuminant), m.to_vec()));
            let ok = match (&m, &cm) {
                (Some((i, x)), Some(y)) => close(x, y) && (i == il || h.own),
                (None, None) => true,
                _ => false,
            };
            if !ok {
                r.bad(key, format!("image's matrix: {m:?}, expected {cm:?} {il}"));
            }
        }
        Err(e) => r.bad(key, format!("no raw data: {e:?}")),
    }
}

/// One edit of a name
fn edits(n: &str, thorough: bool) -> Vec<String> {
    let b = n.as_bytes();
    let abc: &[u8] = if thorough {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -/()"
    } else {
        b"0123456789 DXsRI-"
    };
    let mut o = vec![n.to_lowercase(), n.to_uppercase(), n.trim().to_string(), format!("X{n}"), String::new()];
    for p in 0..=b.len() {
        if p < b.len() {
            let mut x = b.to_vec();
            x.remove(p);
            o.push(String::from_utf8(x).unwrap());
            // and everything before
            o.push(n[..p].to_string());
        }
        for &c in abc {
            if p < b.len() {
                let mut x = b.to_vec();
                x[p] = c;
                o.push(String::from_utf8(x).unwrap());
            }
            if thorough || p == b.len() {
                let mut x = b.to_vec();
                x.insert(p, c);
                o.push(String::from_utf8(x).unwrap());
            }
        }
    }
    o.sort();
    o.dedup();
    o
}

/// The constants of the C header have the values the library gives.
fn header(r: &mut Rec) {
    let dir = std::env::temp_dir().join(format!("orv_c10_{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::from("#include <stdio.h>\n#include <libopenraw/cameraids.h>\n#include <libopenraw/consts.h>\nint main(void){\n");
    for (n, _) in HEADER {
        s += &format!("printf(\"%s %ld\\n\", \"{n}\", (long)({n}));\n");
    }
    s += "return 0;}\n";
    let src = dir.join("h.c");
    let exe = dir.join("h");
    std::fs::write(&src, s).unwrap();
    let inc = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/include");
    let out = std::process::Command::new("cc").arg("-I").arg(inc).arg("-o").arg(&exe).arg(&src).output();
    let t = match out {
        Ok(o) if o.status.success() => std::process::Command::new(&exe).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default(),
        Ok(o) => {
            r.bad("header", format!("a published constant is missing: {}", String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" | ")));
            String::new()
        }
        Err(e) => panic!("no C compiler: {e}"),
    };
    let _ = std::fs::remove_dir_all(&dir);
    if t.is_empty() {
        return;
    }
    for (l, (n, v)) in t.lines().zip(HEADER) {
        r.trace(1, l.as_bytes());
        if l != format!("{n} {v}") {
            r.bad(format!("header {n}"), format!("{l}, expected {v}"));
        }
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C10", "model_checking", thorough);
    ctx.rule = "a file that tells a published model name or model number, in either byte order, is identified as that camera of that vendor (number before name, Model before UniqueCameraModel), and the built-in colour matrix, if one is published, is the camera's; any other name or number gives the format's unknown camera, never another one; the file's own matrix comes before the built-in one; the constants of the C header have the identifiers' values".into();
    ctx.assumptions = vec![
        "the reference table (harness/src/cameras.rs) was extracted from the reviewed sources and compared with the C header and dcraw's table; defects found so were fixed first".into(),
        "a name that differs from a published one only in letter case or in spaces around it may be read as the published one".into(),
    ];
    let opts = Opts::default();
    let fs = formats();
    let mut cases: Vec<(usize, How)> = vec![];
    let mut near: Vec<(usize, How)> = vec![];
    for (fi, f) in fs.iter().enumerate() {
        let names: Vec<&str> = MODELS.iter().filter(|m| m.0 == f.cams).map(|m| m.1).collect();
        let nums: Vec<u32> = NUMBERS.iter().filter(|m| m.0 == f.cams).map(|m| m.1).collect();
        for be in [false, true] {
            for own in [false, true] {
                // a CIFF file has no such entry
                if own && f.ext == "crw" {
                    continue;
                }
                let base = How { be, own, ..Default::default() };
                for n in &names {
                    let n = Some(n.to_string());
                    if f.names {
                        cases.push((fi, How { name: n.clone(), ..base.clone() }));
                    }
                    if f.ext == "dng" {
                        let b = base.clone();
                        cases.push((fi, How { unique: n.clone(), ..b.clone() }));
                        cases.push((fi, How { unique: n.clone(), name: Some("Else".into()), ..b.clone() }));
                        cases.push((fi, How { name: n.clone(), unique: Some("Else".into()), ..b }));
                    }
                    if f.numbers {
                        // the number is unlisted
                        cases.push((fi, How { name: n.clone(), number: Some(0x7123), ..base.clone() }));
                    }
                }
                for (k, n) in nums.iter().enumerate() {
                    if !f.numbers {
                        continue;
                    }
                    let b = How { number: Some(*n), ..base.clone() };
                    if f.ext != "crw" {
                        cases.push((fi, b.clone()));
                    }
                    cases.push((fi, How { name: Some("Else".into()), ..b.clone() }));
                    if !names.is_empty() {
                        // and the name of another camera
                        cases.push((fi, How { name: Some(names[k * 7 % names.len()].into()), ..b.clone() }));
                    }
                    if *n <= 0xffff && f.cams != "canon" {
                        cases.push((fi, How { short: true, ..b.clone() }));
                    }
                }
                cases.push((fi, How { name: Some("Unlisted".into()), ..base }));
            }
        }
        if f.names {
            let mut all = vec![];
            for n in &names {
                all.extend(edits(n, thorough));
            }
            all.sort();
            all.dedup();
            // a Minolta's name is eight bytes
            all.retain(|n| f.ext != "mrw" || n.len() <= 8);
            for (k, n) in all.into_iter().enumerate() {
                near.push((fi, How { name: Some(n), be: k % 2 == 1, ..Default::default() }));
            }
        }
        if f.numbers {
            let mut all = vec![0u32, 1, u32::MAX];
            for n in &nums {
                all.extend((0..32).map(|b| n ^ (1 << b)));
                all.extend([n.wrapping_add(1), n.wrapping_sub(1), n.swap_bytes(), n & 0xffff, n << 16]);
            }
            all.sort();
            all.dedup();
            for (k, n) in all.into_iter().enumerate() {
                near.push((fi, How { number: Some(n), name: Some("Unlisted".into()), be: k % 2 == 1, ..Default::default() }));
            }
        }
    }
    let nm = |c: &(usize, How)| format!("{} {:?}", fs[c.0].ext, c.1);
    let n1 = |i: u64| nm(&cases[i as usize]);
    par(&mut ctx, "published names and numbers x byte order x own matrix x other names", cases.len() as u64, 64, &opts, &n1, &|i, r| {
        let c = &cases[i as usize];
        judge(&n1(i), &fs[c.0], &c.1, true, r)
    });
    let n2 = |i: u64| nm(&near[i as usize]);
    par(&mut ctx, "one edit from published names and numbers", near.len() as u64, 256, &opts, &n2, &|i, r| {
        let c = &near[i as usize];
        judge(&n2(i), &fs[c.0], &c.1, false, r)
    });
    par(&mut ctx, "constants of the C header", 1, 1, &opts, &|_| "header".into(), &|_, r| header(r));
    ctx.finish()
}
