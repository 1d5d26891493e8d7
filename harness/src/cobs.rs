//! What the objects of the C API say, and the same text written from the
//! objects of the Rust API.
use crate::capi::{self as c, P};
use crate::obs;
use libc::{c_char, c_void};
use libopenraw::metadata::Value;
use libopenraw::{Bitmap, Error, RawImage, Thumbnail};
use std::fmt::Write as _;

/// The documented code of an error (consts.h).
pub fn code(e: &Error) -> i32 {
    match obs::err(e).as_str() {
        "E:None" => 0,
        "E:BufferTooSmall" => 1,
        "E:InvalidAddress" => 2,
        "E:NotFound" => 5,
        "E:InvalidParam" => 6,
        "E:InvalidFormat" => 7,
        "E:Decompression" | "E:JpegFormat" => 8,
        "E:Unimplemented" => 9,
        _ => 42,
    }
}
fn data_type(t: libopenraw::DataType) -> i32 {
    match format!("{t:?}").as_str() {
        "PixmapRgb8" => 1,
        "PixmapRgb16" => 2,
        "Jpeg" => 3,
        "Raw" => 6,
        "CompressedRaw" => 7,
        _ => 100,
    }
}
fn cfa(p: &libopenraw::CfaPattern) -> i32 {
    match format!("{p:?}").split('(').next().unwrap() {
        "NonRgb22" => 1,
        "Rggb" => 2,
        "Gbrg" => 3,
        "Bggr" => 4,
        "Grbg" => 5,
        _ => 0,
    }
}
fn fl(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}
pub fn fls(v: &[f64]) -> String {
    v.iter().map(|f| fl(*f)).collect::<Vec<_>>().join(" ")
}

/// A C string, up to its NUL.
pub unsafe fn s(p: *const c_char) -> String {
    if p.is_null() {
        return "null".into();
    }
    let mut v = vec![];
    let mut p = p as *const u8;
    while *p != 0 && v.len() < 1 << 20 {
        v.push(*p);
        p = p.add(1);
    }
    txt(&v)
}
/// The bytes up to the first NUL
pub fn txt(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    format!("\"{}\"", b[..n].escape_ascii())
}
unsafe fn bytes<'a>(p: *const c_void, n: usize) -> Option<&'a [u8]> {
    if p.is_null() {
        None
    } else {
        Some(std::slice::from_raw_parts(p as *const u8, n))
    }
}
fn data(o: &mut Vec<u8>, d: Option<&[u8]>) {
    match d {
        Some(d) => {
            o.extend_from_slice(b"\ndata:");
            o.extend_from_slice(d);
        }
        None => o.extend_from_slice(b"\nno data"),
    }
}

pub unsafe fn c_thumb(t: P) -> Vec<u8> {
    let (mut x, mut y) = (77, 77);
    c::or_thumbnail_dimensions(t, &mut x, &mut y);
    let n = c::or_thumbnail_data_size(t);
    let mut o = format!("thumb {} {x}x{y} size {n}", c::or_thumbnail_format(t)).into_bytes();
    data(&mut o, bytes(c::or_thumbnail_data(t) as _, n));
    o
}
pub fn r_thumb(t: &Thumbnail) -> Vec<u8> {
    let mut o = format!(
        "thumb {} {}x{} size {}",
        data_type(t.data_type()),
        t.width(),
        t.height(),
        t.data_size()
    )
    .into_bytes();
    data(&mut o, t.data8());
    o
}

fn samples(r: &RawImage) -> Option<Vec<u8>> {
    match (r.data8(), r.data16()) {
        (Some(d), _) => Some(d.to_vec()),
        (None, Some(d)) => Some(d.iter().flat_map(|v| v.to_ne_bytes()).collect()),
        _ => None,
    }
}
pub unsafe fn c_bitmap(b: P) -> Vec<u8> {
    let (mut x, mut y) = (77, 77);
    c::or_bitmapdata_dimensions(b, &mut x, &mut y);
    let n = c::or_bitmapdata_data_size(b);
    let mut o = format!("bitmap {} {x}x{y} size {n}", c::or_bitmapdata_format(b)).into_bytes();
    data(&mut o, bytes(c::or_bitmapdata_data(b), n));
    o
}
pub fn r_bitmap(r: &RawImage) -> Vec<u8> {
    let mut o = format!(
        "bitmap {} {}x{} size {}",
        data_type(r.data_type()),
        r.width(),
        r.height(),
        r.data_size()
    )
    .into_bytes();
    data(&mut o, samples(r).as_deref());
    o
}

pub unsafe fn c_mosaic(m: P) -> String {
    let mut n = 7777;
    let p = c::or_mosaicinfo_get_pattern(m, &mut n);
    let v = bytes(p as _, n as usize);
    let again = c::or_mosaicinfo_get_pattern(m, std::ptr::null_mut());
    format!("mosaic {} {n} {v:?} {}", c::or_mosaicinfo_get_type(m), again == p)
}
pub fn r_mosaic(m: &libopenraw::CfaPattern) -> String {
    let v: Vec<u8> = m.pattern().iter().map(|c| *c as u8).collect();
    let p = if v.is_empty() { None } else { Some(&v[..]) };
    format!("mosaic {} {} {p:?} true", cfa(m), v.len())
}

/// An array of out parameters between canaries. Only the first `n` may be
/// written.
pub struct Out<T: Copy + PartialEq>(pub Vec<T>, T);
impl<T: Copy + PartialEq> Out<T> {
    pub fn new(n: usize, canary: T) -> Self {
        Out(vec![canary; n + 8], canary)
    }
    pub fn p(&mut self) -> *mut T {
        unsafe { self.0.as_mut_ptr().add(4) }
    }
    pub fn get(&self, n: usize) -> &[T] {
        &self.0[4..4 + n]
    }
    /// nothing written but the first `n`
    pub fn ok(&self, n: usize) -> bool {
        self.0[..4].iter().chain(&self.0[4 + n..]).all(|v| *v == self.1)
    }
}

pub const CANARY: u32 = 0xdead_beef;
/// All answers of a getter of `n` integers with every choice of null outputs.
/// `None` if the written ones are not as they should.
pub fn ints(n: usize, want: &Option<Vec<u32>>, f: &dyn Fn(&[*mut u32]) -> i32) -> Result<(), String> {
    for mask in 0..1usize << n {
        let mut v = vec![CANARY; n];
        let p: Vec<*mut u32> = v
            .iter_mut()
            .enumerate()
            .map(|(i, x)| {
                if mask >> i & 1 == 1 {
                    x as *mut u32
                } else {
                    std::ptr::null_mut()
                }
            })
            .collect();
        let code = f(&p);
        let expect: Vec<u32> = (0..n)
            .map(|i| match want {
                Some(w) if mask >> i & 1 == 1 => w[i],
                _ => CANARY,
            })
            .collect();
        let ec = if want.is_some() { 0 } else { 5 };
        if v != expect || (code != ec && code != i32::MIN) {
            return Err(format!("mask {mask:b}: {v:x?} code {code}, expected {expect:x?} code {ec}"));
        }
    }
    Ok(())
}

pub unsafe fn c_raw(r: P) -> Vec<u8> {
    let mut t = String::new();
    let (mut x, mut y) = (77, 77);
    c::or_rawdata_dimensions(r, &mut x, &mut y);
    let n = c::or_rawdata_data_size(r);
    let _ = writeln!(
        t,
        "raw {} {x}x{y} size {n} bpc {} comp {} cfa {} {}",
        c::or_rawdata_format(r),
        c::or_rawdata_bpc(r),
        c::or_rawdata_get_compression(r),
        c::or_rawdata_get_cfa_pattern_type(r),
        c_mosaic(c::or_rawdata_get_mosaicinfo(r))
    );
    let mut a = [77u32; 4];
    let e = c::or_rawdata_get_active_area(r, &mut a[0], &mut a[1], &mut a[2], &mut a[3]);
    let _ = writeln!(t, "active {e} {a:?}");
    let mut a = [77u32; 4];
    let e = c::or_rawdata_get_user_crop(r, &mut a[0], &mut a[1], &mut a[2], &mut a[3]);
    let _ = writeln!(t, "crop {e} {a:?}");
    let mut a = [77u32; 2];
    let e = c::or_rawdata_get_user_aspect_ratio(r, &mut a[0], &mut a[1]);
    let _ = writeln!(t, "aspect {e} {a:?}");
    let mut b = Out::new(4, 0xdeadu16);
    let mut w = Out::new(4, 0xdeadu16);
    let e = c::or_rawdata_levels(r, b.p(), w.p());
    let _ = writeln!(t, "levels {e} {:?} {:?} {}", b.get(4), w.get(4), b.ok(4) && w.ok(4));
    let mut wb = Out::new(4, -7.0);
    let e = c::or_rawdata_as_shot_neutral(r, wb.p());
    let _ = writeln!(t, "neutral {e} {} {}", fls(wb.get(4)), wb.ok(4));
    let (mut px, mut py) = (-7.0, -7.0);
    let e = c::or_rawdata_as_shot_white_xy(r, &mut px, &mut py);
    let _ = writeln!(t, "xy {e} {} {}", fl(px), fl(py));
    for i in [0, 1, 2, 3, 4, u32::MAX] {
        let mut n = 0;
        let p = c::or_rawdata_get_colour_matrix(r, i, &mut n);
        let q = c::or_rawdata_get_colour_matrix(r, i, std::ptr::null_mut());
        if p.is_null() {
            let _ = writeln!(t, "m{i} null {}", p == q);
        } else {
            let m = std::slice::from_raw_parts(p, n as usize);
            let _ = writeln!(t, "m{i} {n} {} {}", fls(m), p == q);
        }
    }
    let mut o = t.into_bytes();
    data(&mut o, bytes(c::or_rawdata_data(r), n));
    o
}
pub fn r_raw(r: &RawImage) -> Vec<u8> {
    let mut t = String::new();
    let _ = writeln!(
        t,
        "raw {} {}x{} size {} bpc {} comp {} cfa {} {}",
        data_type(r.data_type()),
        r.width(),
        r.height(),
        r.data_size(),
        r.bpc(),
        r.compression() as u32,
        cfa(r.mosaic_pattern()),
        r_mosaic(r.mosaic_pattern())
    );
    let rect = |r: Option<&libopenraw::Rect>| match r {
        Some(r) => (0, [r.x, r.y, r.width, r.height]),
        None => (5, [77; 4]),
    };
    let (e, a) = rect(r.active_area());
    let _ = writeln!(t, "active {e} {a:?}");
    let (e, a) = rect(r.user_crop());
    let _ = writeln!(t, "crop {e} {a:?}");
    let (e, a) = match r.user_aspect_ratio() {
        Some(a) => (0, [a.0, a.1]),
        None => (5, [77; 2]),
    };
    let _ = writeln!(t, "aspect {e} {a:?}");
    let _ = writeln!(t, "levels 0 {:?} {:?} true", r.blacks(), r.whites());
    let (e, wb) = match r.as_shot_neutral() {
        Some(w) => (0, fls(&w[..])),
        None => (5, fls(&[-7.0; 4])),
    };
    let _ = writeln!(t, "neutral {e} {wb} true");
    let (e, x, y) = match r.as_shot_white_xy() {
        Some((x, y)) => (0, x, y),
        None => (5, -7.0, -7.0),
    };
    let _ = writeln!(t, "xy {e} {} {}", fl(x), fl(y));
    for i in [0, 1, 2, 3, 4, u32::MAX] {
        match r.colour_matrix(i as usize) {
            None => {
                let _ = writeln!(t, "m{i} null true");
            }
            Some(m) => {
                let v: Vec<f64> = m.iter().copied().collect();
                let _ = writeln!(t, "m{i} {} {} true", v.len(), fls(&v));
            }
        }
    }
    let mut o = t.into_bytes();
    data(&mut o, samples(r).as_deref());
    o
}

pub unsafe fn c_value(v: P, full: bool) -> String {
    format!(
        "value n={} str={} as={}",
        c::or_metavalue_get_count(v),
        s(c::or_metavalue_get_string(v)),
        s(c::or_metavalue_get_as_string(v, full))
    )
}
pub fn r_value(v: &Value, full: bool) -> String {
    let st = match v {
        Value::String(b) => txt(b),
        _ => "null".into(),
    };
    format!("value n={} str={st} as={}", v.count(), txt(v.into_string(full).as_bytes()))
}
