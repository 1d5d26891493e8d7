//! C27: the C API says what the Rust API says.
use super::robust::{self, hint};
use crate::asm::{Asm, Dir, V};
use crate::capi::{self as c, P};
use crate::cobs::{self, code, fls, ints, txt, Out};
use crate::obs;
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::metadata::Value;
use libopenraw::tiff::IfdType;
use libopenraw::{
    extensions, mime_types, rawfile_from_file, rawfile_from_memory, type_for_mime_type, Bitmap,
    ColourSpace, Ifd, RawFileHandle, RenderingOptions, Result, Type,
};
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::ptr::null_mut;

/// the or_rawfile_type of the hints (consts.h, and those it lacks)
const TYPES: &[(i32, Type)] = &[
    (1, Type::Cr2),
    (2, Type::Crw),
    (3, Type::Nef),
    (4, Type::Mrw),
    (5, Type::Arw),
    (6, Type::Dng),
    (7, Type::Orf),
    (8, Type::Pef),
    (9, Type::Erf),
    (10, Type::Tiff),
    (11, Type::Nrw),
    (12, Type::Rw2),
    (13, Type::Raf),
    (14, Type::Cr3),
    (15, Type::Gpr),
    (16, Type::Sr2),
    (17, Type::Rw),
    (100, Type::Jpeg),
];
const IFDS: &[(i32, IfdType)] = &[
    (0, IfdType::Other),
    (1, IfdType::Main),
    (2, IfdType::Exif),
    (3, IfdType::MakerNote),
    (4, IfdType::Raw),
    (5, IfdType::SubIfd),
    (6, IfdType::GpsInfo),
    (10000, IfdType::Other),
];

fn ctype(t: Type) -> u32 {
    TYPES.iter().find(|x| x.1 == t).map_or(0, |x| x.0 as u32)
}

/// an answer of each API
fn eq(r: &mut Rec, key: &str, what: impl Fn() -> String, got: &[u8], want: &[u8]) -> bool {
    r.trace(1, got);
    if got != want {
        r.bad(format!("{key} {}", what()), obs::diff(got, want));
    }
    got == want
}

/// The object of the C API, or the code of the error, against the Rust result.
unsafe fn object<T>(
    r: &mut Rec,
    key: &str,
    what: &str,
    res: Result<T>,
    f: &dyn Fn(*mut i32) -> P,
    show: unsafe fn(P) -> Vec<u8>,
    want: &dyn Fn(&T) -> Vec<u8>,
    release: unsafe extern "C" fn(P) -> i32,
    mut extra: impl FnMut(&mut Rec, P, &T),
) {
    let mut e = 77;
    let p = f(&mut e);
    match &res {
        Ok(v) => {
            if p.is_null() || e != 0 {
                r.bad(format!("{key} {what}"), format!("null {} code {e}, expected an object", p.is_null()));
            }
            if !p.is_null() {
                eq(r, key, || what.into(), &show(p), &want(v));
                extra(r, p, v);
                if release(p) != 0 {
                    r.bad(format!("{key} {what}"), "release failed");
                }
            }
        }
        Err(err) => {
            eq(
                r,
                key,
                || what.into(),
                format!("null {} code {e}", p.is_null()).as_bytes(),
                format!("null true code {}", code(err)).as_bytes(),
            );
            if !p.is_null() {
                release(p);
            }
        }
    }
    // without the error
    let q = f(null_mut());
    if q.is_null() != res.is_err() {
        r.bad(format!("{key} {what} no error"), "other answer without the error");
    }
    if !q.is_null() {
        release(q);
    }
}

/// every out parameter of a raw image may be null
unsafe fn outs(r: &mut Rec, key: &str, p: P, v: &libopenraw::RawImage) {
    let rect = |x: Option<&libopenraw::Rect>| x.map(|a| vec![a.x, a.y, a.width, a.height]);
    let area = rect(v.active_area());
    let crop = rect(v.user_crop());
    let ar = v.user_aspect_ratio().map(|a| vec![a.0, a.1]);
    let dim = Some(vec![v.width(), v.height()]);
    let mut put = |n: &str, x: std::result::Result<(), String>| {
        r.trace(1, n.as_bytes());
        if let Err(e) = x {
            r.bad(format!("{key} {n}"), e);
        }
    };
    put("dimensions", ints(2, &dim, &|o| {
        c::or_rawdata_dimensions(p, o[0], o[1]);
        i32::MIN
    }));
    put("active area", ints(4, &area, &|o| c::or_rawdata_get_active_area(p, o[0], o[1], o[2], o[3])));
    put("crop", ints(4, &crop, &|o| c::or_rawdata_get_user_crop(p, o[0], o[1], o[2], o[3])));
    put("aspect", ints(2, &ar, &|o| c::or_rawdata_get_user_aspect_ratio(p, o[0], o[1])));
    for m in 0..4 {
        let mut b = Out::new(4, 0xdeadu16);
        let mut w = Out::new(4, 0xdeadu16);
        let e = c::or_rawdata_levels(
            p,
            if m & 1 == 1 { b.p() } else { null_mut() },
            if m & 2 == 2 { w.p() } else { null_mut() },
        );
        let want = |o: bool, x: &[u16; 4]| if o { *x } else { [0xdead; 4] };
        let ok = e == 0
            && b.get(4) == want(m & 1 == 1, v.blacks())
            && w.get(4) == want(m & 2 == 2, v.whites())
            && b.ok(4)
            && w.ok(4);
        put("levels", if ok { Ok(()) } else { Err(format!("mask {m} code {e} {:x?} {:x?}", b.0, w.0)) });
    }
    let (mut x, mut y) = (-7.0, -7.0);
    let e = [
        c::or_rawdata_as_shot_neutral(p, null_mut()),
        c::or_rawdata_as_shot_white_xy(p, null_mut(), &mut y),
        c::or_rawdata_as_shot_white_xy(p, &mut x, null_mut()),
        c::or_rawdata_as_shot_white_xy(p, null_mut(), null_mut()),
    ];
    if e.contains(&0) || (x, y) != (-7.0, -7.0) {
        put("white balance", Err(format!("{e:?} {x} {y}")));
    }
}

/// What to ask.
#[derive(Clone, Copy, PartialEq)]
enum Depth {
    Full,
    Light,
}

unsafe fn strs(f: &RawFileHandle, p: P, r: &mut Rec, key: &str, full: bool) {
    // the listing, and the directory of each of its entries
    let mut n = 0;
    let it = c::or_rawfile_get_metadata_iterator(p);
    if it.is_null() {
        r.bad(format!("{key} iterator"), "null");
        return;
    }
    if !c::or_metadata_iterator_get_entry(it).is_null() {
        r.bad(format!("{key} iterator"), "an entry before the first");
    }
    if let Some(want) = f.metadata() {
        for (k, v, t) in want {
            let more = c::or_metadata_iterator_next(it);
            let e = c::or_metadata_iterator_get_entry(it);
            let got = format!(
                "{more} {} {} {}",
                cobs::s(c::or_metadata_get_key(e)),
                c::or_metadata_get_type(e),
                cobs::c_value(c::or_metadata_get_value(e), full)
            );
            let want = format!("1 {} {t} {}", txt(k.as_bytes()), cobs::r_value(&v, full));
            if !eq(r, key, || format!("entry {n}"), got.as_bytes(), want.as_bytes()) {
                break;
            }
            // the name is the end of the key
            let d = c::or_metadata_iterator_get_dir(it);
            if d.is_null() {
                r.bad(format!("{key} dir of entry"), format!("null at {n}"));
            } else {
                let ns = match c::or_ifd_get_type(d) {
                    1 => "Exif.Image",
                    2 => "Exif.Photo",
                    3 => "MakerNote",
                    4 => "Raw",
                    6 => "GPSInfo",
                    _ => "other",
                };
                if !k.starts_with(&format!("{ns}.")) {
                    r.bad(format!("{key} dir of entry"), format!("{ns} for {k}"));
                }
                let id = cobs::s(c::or_ifd_get_makernote_id(d));
                if !id[1..id.len() - 1].bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.')
                {
                    r.bad(format!("{key} id of entry's dir"), id);
                }
                if c::or_ifd_count_tags(d) <= 0 {
                    r.bad(format!("{key} dir of entry"), "no tags");
                }
            }
            n += 1;
        }
    }
    let end = format!(
        "{} {} {}",
        c::or_metadata_iterator_next(it),
        c::or_metadata_iterator_get_entry(it).is_null(),
        c::or_metadata_iterator_next(it)
    );
    eq(r, key, || "iterator end".into(), end.as_bytes(), b"0 true 0");
    c::or_metadata_iterator_free(it);
}

/// Ask everything of both.
unsafe fn sweep(r: &mut Rec, key: &str, f: &RawFileHandle, p: P, depth: Depth) {
    let full = depth == Depth::Full;
    eq(
        r,
        key,
        || "file".into(),
        format!(
            "type {} id {} vendor {} orientation {} illuminants {} {} origin {}",
            c::or_rawfile_get_type(p),
            c::or_rawfile_get_typeid(p),
            c::or_rawfile_get_vendorid(p),
            c::or_rawfile_get_orientation(p),
            c::or_rawfile_get_calibration_illuminant1(p),
            c::or_rawfile_get_calibration_illuminant2(p),
            c::or_rawfile_get_colour_matrix_origin(p)
        )
        .as_bytes(),
        format!(
            "type {} id {} vendor {} orientation {} illuminants {} {} origin {}",
            ctype(f.type_()),
            f.type_id().map(u32::from).unwrap_or(0),
            f.vendor_id().unwrap_or(0),
            f.orientation(),
            f.calibration_illuminant(1) as u32,
            f.calibration_illuminant(2) as u32,
            match f.colour_matrix(1).map(|m| format!("{:?}", m.0)) {
                Ok(o) if o == "Builtin" => 1,
                Ok(o) if o == "Provided" => 2,
                _ => 0,
            }
        )
        .as_bytes(),
    );
    // thumbnails
    let mut n = 7777;
    let t = c::or_rawfile_get_thumbnail_sizes(p, &mut n);
    let want = f.thumbnail_sizes().map(|s| s.to_vec());
    let got = (!t.is_null()).then(|| std::slice::from_raw_parts(t, n).to_vec());
    eq(r, key, || "sizes".into(), format!("{got:?}").as_bytes(), format!("{want:?}").as_bytes());
    if c::or_rawfile_get_thumbnail_sizes(p, null_mut()).is_null() != t.is_null() {
        r.bad(format!("{key} sizes"), "other answer without the count");
    }
    let mut sizes = vec![0, 160, u32::MAX];
    for s in want.iter().flatten() {
        sizes.push(*s);
        if full {
            sizes.extend([s.saturating_sub(1), s + 1]);
        }
    }
    sizes.sort();
    sizes.dedup();
    for s in sizes {
        object(
            r,
            key,
            &format!("thumbnail {s}"),
            f.thumbnail(s),
            &|e| c::or_rawfile_get_thumbnail(p, s, e),
            cobs::c_thumb,
            &|t| cobs::r_thumb(t),
            c::or_thumbnail_release,
            |r, p, t| {
                let dim = Some(vec![t.width(), t.height()]);
                if let Err(e) = ints(2, &dim, &|o| {
                    c::or_thumbnail_dimensions(p, o[0], o[1]);
                    i32::MIN
                }) {
                    r.bad(format!("{key} thumbnail dimensions"), e);
                }
            },
        );
    }
    // raw data
    for o in 0..2 {
        object(
            r,
            key,
            &format!("raw {o}"),
            f.raw_data(o == 1),
            &|e| c::or_rawfile_get_rawdata(p, o, e),
            cobs::c_raw,
            &|v| cobs::r_raw(v),
            c::or_rawdata_release,
            |r, p, v| outs(r, key, p, v),
        );
    }
    // rendering: the colour space in the low 4 bits, then the stage
    let opts: Vec<u32> = if full { (0..64).chain([64 + 0x23, 0x8000_0013]).collect() } else { vec![0x13, 0x23] };
    for o in opts {
        let ro = RenderingOptions::default().with_stage(obs::stage((o >> 4 & 3) as u8));
        let ro = match o & 15 {
            0 => ro.with_target(ColourSpace::Unknown),
            1 => ro.with_target(ColourSpace::Camera),
            2 => ro.with_target(ColourSpace::XYZ),
            3 => ro.with_target(ColourSpace::SRgb),
            _ => continue,
        };
        object(
            r,
            key,
            &format!("render {o:#x}"),
            f.rendered_image(ro),
            &|e| c::or_rawfile_get_rendered_image(p, o, e),
            cobs::c_bitmap,
            &|v| cobs::r_bitmap(v),
            c::or_bitmapdata_release,
            |r, p, v| {
                let dim = Some(vec![v.width(), v.height()]);
                if let Err(e) = ints(2, &dim, &|o| {
                    c::or_bitmapdata_dimensions(p, o[0], o[1]);
                    i32::MIN
                }) {
                    r.bad(format!("{key} bitmap dimensions"), e);
                }
            },
        );
    }
    // matrices, in buffers of every size
    for i in 1..3 {
        let get = if i == 1 { c::or_rawfile_get_colourmatrix1 } else { c::or_rawfile_get_colourmatrix2 };
        let want = f.colour_matrix(i);
        for n in if full { 0..=40u32 } else { 8..=10 } {
            let mut m = Out::new(n as usize, -7.25);
            let mut size = n;
            let e = get(p, m.p(), &mut size);
            let got = format!("{e} {}", fls(m.get(n as usize)));
            let (we, mut wm) = (vec![-7.25; n as usize], 0);
            let (want, ws) = match &want {
                Err(e) => (format!("{} {}", code(e), fls(&we)), None),
                Ok((_, v)) if v.len() > n as usize => (format!("1 {}", fls(&we)), Some(v.len())),
                Ok((_, v)) => {
                    wm = v.len();
                    let mut we = we;
                    we[..wm].copy_from_slice(v);
                    (format!("0 {}", fls(&we)), Some(wm))
                }
            };
            eq(r, key, || format!("matrix {i} in {n}"), got.as_bytes(), want.as_bytes());
            if !m.ok(n as usize) {
                r.bad(format!("{key} matrix {i} in {n}"), format!("written out of the buffer, {wm}"));
            }
            if ws.map_or(false, |w| w != size as usize) {
                r.bad(format!("{key} matrix {i} size"), format!("{size} with a buffer of {n}"));
            }
            // without a buffer, without a size
            let mut size = n;
            if get(p, null_mut(), &mut size) == 0 || get(p, m.p(), null_mut()) == 0 {
                r.bad(format!("{key} matrix {i} null"), format!("no error, {n}"));
            }
        }
    }
    // metadata
    strs(f, p, r, key, true);
    if full {
        strs(f, p, r, key, false);
    }
    let mut keys: Vec<String> = f.metadata().map(|it| it.map(|x| x.0).collect()).unwrap_or_default();
    keys.extend(["Exif.Image.Model", "", "Exif", "Exif.Image.", "Exif.Photo.ISOSpeedRatings", "\u{e9}"].map(String::from));
    keys.sort();
    keys.dedup();
    for k in keys.iter().filter(|k| full || k.contains("M")) {
        for fl in [true, false] {
            let want = f.metadata_value(k).map_or("null".into(), |v: Value| cobs::r_value(&v, fl));
            let ck = CString::new(k.as_bytes()).unwrap();
            let v = c::or_rawfile_get_metavalue(p, ck.as_ptr());
            let got = if v.is_null() { "null".into() } else { cobs::c_value(v, fl) };
            eq(r, key, || format!("value {k}"), got.as_bytes(), want.as_bytes());
            c::or_metavalue_release(v);
        }
    }
    if !c::or_rawfile_get_metavalue(p, std::ptr::null()).is_null() {
        r.bad(format!("{key} value of no key"), "not null");
    }
    // directories
    for (n, t) in IFDS {
        let d = c::or_rawfile_get_ifd(p, *n);
        let tags: Vec<u32> = if !full {
            vec![0x10f, 0, 1]
        } else {
            (0..0x10000).chain([0x1010f, 0xffff_010f]).collect()
        };
        let mut got = String::new();
        let mut want = String::new();
        if d.is_null() {
            got.push_str("null");
        } else {
            got = format!(
                "{} {} {}",
                c::or_ifd_get_type(d),
                c::or_ifd_count_tags(d),
                cobs::s(c::or_ifd_get_makernote_id(d))
            );
            for t in &tags {
                let s = cobs::s(c::or_ifd_get_tag_name(d, *t));
                if s != "\"\"" {
                    got.push_str(&format!("\n{t:x} {s}"));
                }
            }
        }
        match f.ifd(*t) {
            None => want.push_str("null"),
            Some(d) => {
                let ty = match d.ifd_type() {
                    IfdType::Main => 1,
                    IfdType::Exif => 2,
                    IfdType::MakerNote => 3,
                    IfdType::Raw => 4,
                    IfdType::SubIfd => 5,
                    IfdType::GpsInfo => 6,
                    IfdType::Other => 0,
                };
                want = format!("{ty} {} {}", d.num_entries(), txt(d.id()));
                for t in tags {
                    let s = if t < 0x10000 { d.tag_name(t as u16) } else { "" };
                    if !s.is_empty() {
                        want.push_str(&format!("\n{t:x} {}", txt(s.as_bytes())));
                    }
                }
            }
        }
        eq(r, key, || format!("ifd {n}"), got.as_bytes(), want.as_bytes());
    }
}

/// Both open it, and the same, or none does.
unsafe fn both(r: &mut Rec, key: &str, f: Result<RawFileHandle>, p: P, depth: Depth) {
    match (f, p.is_null()) {
        (Err(_), true) => r.trace(1, b"none"),
        (Ok(f), false) => {
            sweep(r, key, &f, p, depth);
            if c::or_rawfile_release(p) != 0 {
                r.bad(format!("{key} release"), "error");
            }
        }
        (f, null) => r.bad(format!("{key} open"), format!("null {null}, Rust {:?}", f.err())),
    }
}
unsafe fn memory(data: &[u8], t: i32) -> P {
    c::or_rawfile_new_from_memory(data.as_ptr(), data.len() as u32, t)
}
fn cpath(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// or_get_extract_* of a path
unsafe fn extract(r: &mut Rec, key: &str, path: &Path) {
    let cp = cpath(path);
    let open = || rawfile_from_file(path, None);
    let can = path.is_file();
    for s in [0, 1, 160, 640, u32::MAX] {
        let mut p: P = 77 as P;
        let e = c::or_get_extract_thumbnail(cp.as_ptr(), s, &mut p);
        let got = if e == 0 {
            let v = cobs::c_thumb(p);
            c::or_thumbnail_release(p);
            v
        } else {
            format!("code {e} {}", p as usize).into_bytes()
        };
        let want = match open().and_then(|f| f.thumbnail_for_size(s)) {
            Ok(t) => cobs::r_thumb(&t),
            Err(_) if !can => b"code 3 77".to_vec(),
            Err(e) => format!("code {} 77", code(&e)).into_bytes(),
        };
        eq(r, key, || format!("extract thumbnail {s}"), &got, &want);
    }
    for o in 0..2 {
        let mut p: P = 77 as P;
        let e = c::or_get_extract_rawdata(cp.as_ptr(), o, &mut p);
        let got = if e == 0 {
            let v = cobs::c_raw(p);
            c::or_rawdata_release(p);
            v
        } else {
            format!("code {e} {}", p as usize).into_bytes()
        };
        let want = match open().and_then(|f| f.raw_data(o == 1)) {
            Ok(t) => cobs::r_raw(&t),
            Err(_) if !can => b"code 3 77".to_vec(),
            Err(e) => format!("code {} 77", code(&e)).into_bytes(),
        };
        eq(r, key, || format!("extract rawdata {o}"), &got, &want);
    }
    for e in [
        c::or_get_extract_thumbnail(cp.as_ptr(), 0, null_mut()),
        c::or_get_extract_rawdata(cp.as_ptr(), 0, null_mut()),
    ] {
        if e != 2 {
            r.bad(format!("{key} extract to null"), format!("{e}"));
        }
    }
}

/// everything of nothing
unsafe fn nulls(r: &mut Rec) {
    let n: P = null_mut();
    let key = "null";
    let text = {
        let codes = [
            c::or_rawfile_release(n),
            c::or_thumbnail_release(n),
            c::or_rawdata_release(n),
            c::or_bitmapdata_release(n),
        ];
        c::or_metavalue_release(n);
        c::or_metadata_iterator_free(n);
        format!("{codes:?}")
    };
    r.eq(key, text.as_bytes(), b"[2, 2, 2, 2]");
    for (what, f) in [
        ("thumbnail", &(|e| c::or_rawfile_get_thumbnail(null_mut(), 0, e)) as &dyn Fn(*mut i32) -> P),
        ("rawdata", &|e| c::or_rawfile_get_rawdata(null_mut(), 0, e)),
        ("rendered", &|e| c::or_rawfile_get_rendered_image(null_mut(), 0, e)),
    ] {
        let mut e = 77;
        let got = format!("{} {}", f(&mut e).is_null(), f(null_mut()).is_null());
        r.eq(&format!("{key} {what}"), format!("{got} {e}").as_bytes(), b"true true 2");
    }
    let mut z = 7usize;
    let mut m = [0.0; 16];
    let mut sz = 16;
    let got = format!(
        "{} {} {} {} {} {} {} {:?} {} {} {} {} {}",
        c::or_rawfile_get_type(n),
        c::or_rawfile_get_typeid(n),
        c::or_rawfile_get_vendorid(n),
        c::or_rawfile_get_orientation(n),
        c::or_rawfile_get_calibration_illuminant1(n),
        c::or_rawfile_get_calibration_illuminant2(n),
        c::or_rawfile_get_colour_matrix_origin(n),
        [
            c::or_rawfile_get_colourmatrix1(n, m.as_mut_ptr(), &mut sz),
            c::or_rawfile_get_colourmatrix2(n, m.as_mut_ptr(), &mut sz),
        ],
        c::or_rawfile_get_metavalue(n, b"Exif.Image.Model\0".as_ptr() as _).is_null(),
        c::or_rawfile_get_ifd(n, 1).is_null(),
        c::or_rawfile_get_metadata_iterator(n).is_null(),
        c::or_rawfile_get_thumbnail_sizes(n, &mut z).is_null(),
        c::or_rawfile_get_thumbnail_sizes(n, null_mut()).is_null(),
    );
    r.eq("null file", got.as_bytes(), b"0 0 0 0 0 0 0 [2, 2] true true true true true");
    let (mut x, mut y, mut w, mut h) = (7, 7, 7, 7);
    let mut u = [7u16; 4];
    let mut d = [7.0; 4];
    c::or_thumbnail_dimensions(n, &mut x, &mut y);
    c::or_rawdata_dimensions(n, &mut x, &mut y);
    c::or_bitmapdata_dimensions(n, &mut x, &mut y);
    let got = format!(
        "{} {} {} {} {} {} {} {} {} {} {} {} {} {} {:?} {x}{y}",
        c::or_thumbnail_data(n).is_null(),
        c::or_thumbnail_data_size(n),
        c::or_thumbnail_format(n),
        c::or_rawdata_data(n).is_null(),
        c::or_rawdata_data_size(n),
        c::or_rawdata_format(n),
        c::or_rawdata_bpc(n),
        c::or_rawdata_get_compression(n),
        c::or_rawdata_get_cfa_pattern_type(n),
        c::or_rawdata_get_mosaicinfo(n).is_null(),
        c::or_rawdata_get_colour_matrix(n, 1, &mut w).is_null(),
        c::or_bitmapdata_data(n).is_null(),
        c::or_bitmapdata_data_size(n),
        c::or_bitmapdata_format(n),
        [
            c::or_rawdata_get_active_area(n, &mut x, &mut y, &mut w, &mut h),
            c::or_rawdata_get_user_crop(n, &mut x, &mut y, &mut w, &mut h),
            c::or_rawdata_get_user_aspect_ratio(n, &mut w, &mut h),
            c::or_rawdata_levels(n, u.as_mut_ptr(), u.as_mut_ptr()),
            c::or_rawdata_as_shot_neutral(n, d.as_mut_ptr()),
            c::or_rawdata_as_shot_white_xy(n, &mut d[0], &mut d[1]),
        ],
    );
    r.eq(
        "null objects",
        got.as_bytes(),
        b"true 0 100 true 0 100 0 0 0 true true true 0 100 [2, 2, 2, 2, 2, 2] 77",
    );
    let mut k = 7;
    let got = format!(
        "{} {} {k} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        c::or_mosaicinfo_get_type(n),
        c::or_mosaicinfo_get_pattern(n, &mut k).is_null(),
        c::or_mosaicinfo_get_pattern(n, null_mut()).is_null(),
        c::or_ifd_get_type(n),
        c::or_ifd_count_tags(n),
        c::or_ifd_get_makernote_id(n).is_null(),
        c::or_ifd_get_tag_name(n, 1).is_null(),
        c::or_metadata_iterator_next(n),
        c::or_metadata_iterator_get_entry(n).is_null(),
        c::or_metadata_iterator_get_dir(n).is_null(),
        c::or_metadata_get_key(n).is_null(),
        c::or_metadata_get_value(n).is_null(),
        c::or_metadata_get_type(n),
        c::or_metavalue_get_count(n),
        c::or_metavalue_get_string(n).is_null() && c::or_metavalue_get_as_string(n, true).is_null(),
    );
    r.eq(
        "null others",
        got.as_bytes(),
        b"0 true 0 true 10000 -1 true true 0 true true true true 0 0 true",
    );
    for t in [0, 6] {
        let got = format!(
            "{} {} {}",
            c::or_rawfile_new(null_mut(), t).is_null(),
            c::or_rawfile_new_from_memory(null_mut(), 0, t).is_null(),
            c::or_rawfile_new_from_memory(null_mut(), 10, t).is_null(),
        );
        r.eq("null open", got.as_bytes(), b"true true true");
    }
    let mut p: P = 77 as P;
    let e = [
        c::or_get_extract_thumbnail(null_mut(), 0, &mut p),
        c::or_get_extract_rawdata(null_mut(), 0, &mut p),
    ];
    if e.contains(&0) || p as usize != 77 {
        r.bad("null extract", format!("{e:?} {p:?}"));
    }
    r.eq("null mime", format!("{}", c::or_get_type_for_mime_type(null_mut())).as_bytes(), b"0");
    // new, empty objects
    let t = c::or_thumbnail_new();
    r.eq("new thumbnail", &cobs::c_thumb(t), &cobs::r_thumb(&Default::default()));
    c::or_thumbnail_release(t);
    let t = c::or_rawdata_new();
    r.eq("new raw", &cobs::c_raw(t), &cobs::r_raw(&libopenraw::RawImage::new()));
    c::or_rawdata_release(t);
}

unsafe fn list(mut p: *const *const libc::c_char) -> String {
    let mut v = vec![];
    while !(*p).is_null() && v.len() < 1000 {
        v.push(cobs::s(*p));
        p = p.add(1);
    }
    v.join(",")
}
unsafe fn statics(r: &mut Rec) {
    for _ in 0..2 {
        let want = |v: &[String]| v.iter().map(|s| txt(s.as_bytes())).collect::<Vec<_>>().join(",");
        r.eq("extensions", list(c::or_get_file_extensions()).as_bytes(), want(extensions()).as_bytes());
        r.eq("mime types", list(c::or_get_mime_types()).as_bytes(), want(mime_types()).as_bytes());
    }
    for m in mime_types() {
        let mut near = vec![m.clone(), m.to_uppercase(), format!("{m} "), String::new()];
        for i in 0..m.len() {
            near.push(m[..i].into());
            near.push(format!("{}x{}", &m[..i], &m[i..]));
        }
        for s in near {
            let cs = CString::new(s.as_bytes()).unwrap();
            let want = type_for_mime_type(&s).map_or(0, ctype);
            r.eq(
                &format!("mime {s}"),
                format!("{}", c::or_get_type_for_mime_type(cs.as_ptr())).as_bytes(),
                format!("{want}").as_bytes(),
            );
        }
    }
    r.eq(
        "mime not UTF-8",
        format!("{}", c::or_get_type_for_mime_type(b"image/\xff\0".as_ptr() as _)).as_bytes(),
        b"0",
    );
}

/// A TIFF based file with values of every type.
fn values_file(m: &mut Mix) -> (String, Vec<u8>) {
    let be = m.take(2) == 1;
    let ty = [1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 99][m.take(14)];
    let n = [0usize, 1, 2, 3, 5, 19, 20, 21, 22, 23, 60][m.take(11)];
    let pat = m.take(8);
    let unit = crate::asm::type_size(ty) as usize;
    let b: Vec<u8> = (0..n * unit.max(1))
        .map(|i| match pat {
            0 => b'a' + (i % 26) as u8,
            1 => 0,
            2 => 0xff,
            3 if i + 1 == n => 0,
            3 => b'A' + (i % 26) as u8,
            4 if i == n / 2 => 0,
            4 => b'0' + (i % 10) as u8,
            5 => 0x80 | i as u8,
            6 => (i * 37 + 11) as u8,
            _ => [0x20, 0xc3, 0xa9, 0x7f, 1][i % 5],
        })
        .collect();
    let d = Dir::new()
        .a(0x10e, "x")
        .a(0x10f, "NIKON")
        .a(0x110, "NIKON D1")
        .e(0x9c9b, V::Raw(ty, n as u32, b));
    let mut a = Asm::new(be);
    a.tiff(42, &d);
    (format!("be {be} type {ty} count {n} pattern {pat}"), a.finish().data)
}

macro_rules! space {
    ($c:expr, $name:expr, $n:expr, $chunk:expr, $key:expr, $f:expr) => {
        par(&mut $c, $name, $n as u64, $chunk, &Opts::default(), &$key, &$f)
    };
}

pub fn run(thorough: bool) -> i32 {
    let mut c = Ctx::new("C27", "model_checking", thorough);
    let samples = robust::samples_all(32, 16, false);
    let scratch = Scratch::new();
    let paths: Vec<PathBuf> = samples
        .iter()
        .map(|s| {
            let p = scratch.0.join(format!("{}.{}", s.name, s.ext));
            std::fs::write(&p, &s.data).unwrap();
            p
        })
        .collect();
    let (s, p) = (&samples, &paths);
    // every query, by content, by type, by path
    space!(c, "every query", s.len() * 3, 1, |i| format!("{} {}", s[i as usize / 3].name, ["content", "type", "path"][i as usize % 3]), |i, r: &mut Rec| unsafe {
        let k = i as usize / 3;
        let key = format!("{} {}", s[k].name, ["content", "type", "path"][i as usize % 3]);
        let d = &s[k].data;
        match i % 3 {
            0 => both(r, &key, rawfile_from_memory(d.clone(), None), memory(d, 0), Depth::Full),
            1 => {
                let h = hint(s[k].ext);
                both(r, &key, rawfile_from_memory(d.clone(), Some(h)), memory(d, ctype(h) as i32), Depth::Full)
            }
            _ => {
                let cp = cpath(&p[k]);
                both(r, &key, rawfile_from_file(&p[k], None), c::or_rawfile_new(cp.as_ptr(), 0), Depth::Full);
                extract(r, &key, &p[k]);
            }
        }
    });
    // every type hint
    space!(c, "hints", s.len() * TYPES.len(), 4, |i| format!("{} as {}", s[i as usize / TYPES.len()].name, TYPES[i as usize % TYPES.len()].0), |i, r: &mut Rec| unsafe {
        let (k, t) = (i as usize / TYPES.len(), TYPES[i as usize % TYPES.len()]);
        let key = format!("{} as {}", s[k].name, t.0);
        let d = &s[k].data;
        both(r, &key, rawfile_from_memory(d.clone(), Some(t.1)), memory(d, t.0), Depth::Light);
        let cp = cpath(&p[k]);
        both(r, &key, rawfile_from_file(&p[k], Some(t.1)), c::or_rawfile_new(cp.as_ptr(), t.0), Depth::Light);
    });
    // cut files
    let cuts: Vec<(usize, usize)> = s
        .iter()
        .enumerate()
        .flat_map(|(k, x)| robust::prefixes(x, thorough).into_iter().map(move |n| (k, n)))
        .filter(|(_, n)| thorough || n % 3 == 0)
        .collect();
    space!(c, "cut files", cuts.len(), 64, |i| format!("{} cut at {}", s[cuts[i as usize].0].name, cuts[i as usize].1), |i, r: &mut Rec| unsafe {
        let (k, n) = cuts[i as usize];
        let key = format!("{} cut at {n}", s[k].name);
        let d = s[k].data[..n].to_vec();
        let h = hint(s[k].ext);
        both(r, &key, rawfile_from_memory(d.clone(), Some(h)), memory(&d, ctype(h) as i32), Depth::Light);
    });
    // damaged fields
    let damage: Vec<(usize, usize)> = s
        .iter()
        .enumerate()
        .flat_map(|(k, x)| (0..x.fields.len()).map(move |f| (k, f)))
        .collect();
    space!(c, "damaged fields", damage.len(), 8, |i| format!("{} field {}", s[damage[i as usize].0].name, damage[i as usize].1), |i, r: &mut Rec| unsafe {
        let (k, f) = damage[i as usize];
        let f = &s[k].fields[f];
        let vals = robust::values(&s[k].data, f);
        let n = vals.len();
        for (j, v) in vals.into_iter().enumerate() {
            if !thorough && j % 4 != (i as usize) % 4 && n > 4 {
                continue;
            }
            let mut d = s[k].data.clone();
            robust::put(&mut d, f, v);
            let key = format!("{} {}@{}={v:#x}", s[k].name, f.name, f.off);
            let h = hint(s[k].ext);
            both(r, &key, rawfile_from_memory(d.clone(), Some(h)), memory(&d, ctype(h) as i32), Depth::Light);
        }
    });
    // values
    let nv = 2 * 14 * 11 * 8;
    space!(c, "values", nv, 64, |i| format!("values {}", values_file(&mut Mix(i)).0), |i, r: &mut Rec| unsafe {
        let (key, d) = values_file(&mut Mix(i));
        let key = format!("values {key}");
        let (f, p) = (rawfile_from_memory(d.clone(), Some(Type::Nef)), memory(&d, 3));
        if let (Ok(f), false) = (&f, p.is_null()) {
            strs(f, p, r, &key, true);
            strs(f, p, r, &key, false);
        }
        both(r, &key, f, p, Depth::Light);
    });
    // what is not a file
    let odd = |i: u64| -> (&'static str, PathBuf) {
        let d = &scratch.0;
        match i {
            0 => ("missing", d.join("missing.nef")),
            1 => ("directory", d.clone()),
            2 => ("below a file", p[0].join("x.dng")),
            3 => ("empty path", PathBuf::new()),
            4 => ("empty", d.join("empty.dng")),
            5 => ("garbage", d.join("garbage.nef")),
            6 => ("other extension", d.join("garbage.txt")),
            _ => ("long name", d.join("x".repeat(300))),
        }
    };
    std::fs::write(odd(4).1, b"").unwrap();
    std::fs::write(odd(5).1, b"this is no raw file at all, at all, at all").unwrap();
    std::fs::write(odd(6).1, b"this is no raw file at all, at all, at all").unwrap();
    space!(c, "not files", 8, 1, |i| odd(i).0.to_string(), |i, r: &mut Rec| unsafe {
        let (key, path) = odd(i);
        let cp = cpath(&path);
        for (n, t) in std::iter::once((0, None)).chain(TYPES.iter().map(|t| (t.0, Some(t.1)))) {
            let f = rawfile_from_file(&path, t);
            both(r, &format!("{key} as {n}"), f, c::or_rawfile_new(cp.as_ptr(), n), Depth::Light);
        }
        extract(r, key, &path);
    });
    space!(c, "null and new", 1, 1, |_| "null".to_string(), |_, r: &mut Rec| unsafe { nulls(r) });
    space!(c, "static lists", 1, 1, |_| "static".to_string(), |_, r: &mut Rec| unsafe { statics(r) });
    c.rule = "each C call answers with the value, size, bytes, NUL-terminated string or error code of the corresponding Rust call, and writes nothing else".into();
    c.assumptions = vec!["arguments are those the headers allow (valid or null pointers, listed constants)".into()];
    c.finish()
}

/// a scratch directory, removed at the end
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("orverif-c27-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
