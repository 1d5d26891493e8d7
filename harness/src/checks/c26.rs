//! C26: sequences of calls of the C API.
use super::robust;
use crate::alloc;
use crate::capi::{self as c, P};
use crate::cobs;
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::ptr::null_mut;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    File,
    Thumb,
    Raw,
    Bitmap,
    Value,
    Iter,
}
/// An object the caller owns.
struct Live {
    id: usize,
    k: K,
    p: P,
    /// what it says
    want: Vec<u8>,
    /// entries taken of an iterator
    pos: usize,
    /// how a value was first converted
    full: Option<bool>,
}
/// Something borrowed from an object.
#[derive(Clone, Copy)]
enum B {
    Bytes(*const u8, usize),
    Str(*const libc::c_char),
    Dir(P),
    Mosaic(P),
    Entry(P, bool),
}
struct View {
    owner: usize,
    b: B,
    want: Vec<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    OpenMem,
    OpenPath,
    OpenBad,
    ExtractThumb,
    ExtractRaw,
    NewThumb,
    NewRaw,
    Nothing,
    Info(usize),
    Sizes(usize),
    Thumb(usize),
    Raw(usize, u32),
    Render(usize, u32),
    Value(usize),
    Iter(usize),
    Ifd(usize, i32),
    Data(usize),
    Mosaic(usize),
    Matrix(usize),
    Str(usize),
    As(usize, bool),
    Next(usize),
    Entry(usize),
    DirOf(usize),
    Release(usize),
}

/// The answers of calls made first on a new handle.
struct World {
    data: Vec<u8>,
    ty: i32,
    path: CString,
    missing: CString,
    key: CString,
    size: u32,
    info: String,
    sizes: Vec<u8>,
    thumb: Result<Vec<u8>, i32>,
    raw: [Result<Vec<u8>, i32>; 2],
    bitmap: [Result<Vec<u8>, i32>; 2],
    value: [String; 2],
    ifd: [String; 2],
    entries: Vec<[String; 2]>,
    dirs: Vec<String>,
    extracted: [Result<Vec<u8>, i32>; 2],
    empty: [Vec<u8>; 2],
    statics: String,
}

unsafe fn dir(d: P) -> String {
    if d.is_null() {
        return "null".into();
    }
    let mut s = format!(
        "{} {} {}",
        c::or_ifd_get_type(d),
        c::or_ifd_count_tags(d),
        cobs::s(c::or_ifd_get_makernote_id(d))
    );
    for t in [1u32, 2, 0x100, 0x10f, 0x110, 0x9000, 0xfffe] {
        s.push_str(&cobs::s(c::or_ifd_get_tag_name(d, t)));
    }
    s
}
unsafe fn entry(e: P, full: bool) -> String {
    if e.is_null() {
        return "null".into();
    }
    format!(
        "{} {} {}",
        cobs::s(c::or_metadata_get_key(e)),
        c::or_metadata_get_type(e),
        cobs::c_value(c::or_metadata_get_value(e), full)
    )
}
unsafe fn info(f: P) -> String {
    let mut m = [0.0; 9];
    let mut n = 9;
    let mut s = format!(
        "{} {} {} {} {} {} {}",
        c::or_rawfile_get_type(f),
        c::or_rawfile_get_typeid(f),
        c::or_rawfile_get_vendorid(f),
        c::or_rawfile_get_orientation(f),
        c::or_rawfile_get_calibration_illuminant1(f),
        c::or_rawfile_get_calibration_illuminant2(f),
        c::or_rawfile_get_colour_matrix_origin(f)
    );
    let e = c::or_rawfile_get_colourmatrix1(f, m.as_mut_ptr(), &mut n);
    s.push_str(&format!(" {e} {n} {}", cobs::fls(&m)));
    n = 9;
    let e = c::or_rawfile_get_colourmatrix2(f, m.as_mut_ptr(), &mut n);
    s.push_str(&format!(" {e} {n} {}", cobs::fls(&m)));
    n = 1;
    let e = c::or_rawfile_get_colourmatrix1(f, m.as_mut_ptr(), &mut n);
    let v = c::or_rawfile_get_metavalue(f, b"No.Such.Key\0".as_ptr() as _);
    s.push_str(&format!(" {e} {n} {}", v.is_null()));
    c::or_metavalue_release(v);
    s
}
unsafe fn statics() -> String {
    let mut s = String::new();
    for mut p in [c::or_get_file_extensions(), c::or_get_mime_types()] {
        while !(*p).is_null() {
            s.push_str(&cobs::s(*p));
            p = p.add(1);
        }
    }
    s.push_str(&format!("{}", c::or_get_type_for_mime_type(b"image/x-canon-cr2\0".as_ptr() as _)));
    let mut e = 77;
    let n: P = null_mut();
    s.push_str(&format!(
        " {} {} {} {} {} {}",
        c::or_rawfile_release(n),
        c::or_thumbnail_release(n),
        c::or_rawdata_release(n),
        c::or_bitmapdata_release(n),
        c::or_rawfile_get_rawdata(n, 0, &mut e).is_null(),
        e
    ));
    c::or_metavalue_release(n);
    c::or_metadata_iterator_free(n);
    s
}
type Show = unsafe fn(P) -> Vec<u8>;
type Free = unsafe extern "C" fn(P) -> i32;
unsafe fn taken(p: P, e: i32, show: Show, free: Free) -> Result<Vec<u8>, i32> {
    if p.is_null() {
        Err(e)
    } else {
        let v = show(p);
        free(p);
        if e == 0 {
            Ok(v)
        } else {
            Err(-1)
        }
    }
}

impl World {
    unsafe fn open(&self) -> P {
        c::or_rawfile_new_from_memory(self.data.as_ptr(), self.data.len() as u32, self.ty)
    }
    unsafe fn new(data: Vec<u8>, ty: i32, path: &std::path::Path) -> World {
        let cs = |p: &std::path::Path| CString::new(p.as_os_str().as_bytes()).unwrap();
        let mut w = World {
            data,
            ty,
            path: cs(path),
            missing: cs(&path.with_extension("missing")),
            key: CString::new("Exif.Image.Model").unwrap(),
            size: 0,
            info: String::new(),
            sizes: vec![],
            thumb: Err(0),
            raw: [Err(0), Err(0)],
            bitmap: [Err(0), Err(0)],
            value: Default::default(),
            ifd: Default::default(),
            entries: vec![],
            dirs: vec![],
            extracted: [Err(0), Err(0)],
            empty: Default::default(),
            statics: statics(),
        };
        let fresh = |f: &mut dyn FnMut(P)| {
            let p = w.open();
            assert!(!p.is_null(), "sample not opened");
            f(p);
            c::or_rawfile_release(p);
        };
        let (mut i, mut sz, mut first) = (String::new(), vec![], 0);
        fresh(&mut |p| i = info(p));
        fresh(&mut |p| {
            let mut n = 0;
            let q = c::or_rawfile_get_thumbnail_sizes(p, &mut n);
            if !q.is_null() {
                sz = std::slice::from_raw_parts(q as *const u8, n * 4).to_vec();
                if n > 0 {
                    first = *q;
                }
            }
        });
        let mut th = Err(0);
        fresh(&mut |p| {
            let mut e = 77;
            let t = c::or_rawfile_get_thumbnail(p, first, &mut e);
            th = taken(t, e, cobs::c_thumb, c::or_thumbnail_release);
        });
        let mut raw = [Err(0), Err(0)];
        let mut bm = [Err(0), Err(0)];
        for o in 0..2 {
            fresh(&mut |p| {
                let mut e = 77;
                let t = c::or_rawfile_get_rawdata(p, o as u32, &mut e);
                raw[o] = taken(t, e, cobs::c_raw, c::or_rawdata_release);
            });
            fresh(&mut |p| {
                let mut e = 77;
                let t = c::or_rawfile_get_rendered_image(p, RENDER[o], &mut e);
                bm[o] = taken(t, e, cobs::c_bitmap, c::or_bitmapdata_release);
            });
        }
        let mut val: [String; 2] = Default::default();
        let mut ifd: [String; 2] = Default::default();
        let mut ent: Vec<[String; 2]> = vec![];
        let mut dirs = vec![];
        for o in 0..2 {
            fresh(&mut |p| {
                let v = c::or_rawfile_get_metavalue(p, w.key.as_ptr());
                val[o] = if v.is_null() { "null".into() } else { cobs::c_value(v, o == 1) };
                c::or_metavalue_release(v);
            });
            fresh(&mut |p| ifd[o] = dir(c::or_rawfile_get_ifd(p, IFD[o])));
            fresh(&mut |p| {
                let it = c::or_rawfile_get_metadata_iterator(p);
                let mut k = 0;
                while c::or_metadata_iterator_next(it) != 0 {
                    let t = entry(c::or_metadata_iterator_get_entry(it), o == 1);
                    if o == 0 {
                        ent.push([t, String::new()]);
                        dirs.push(dir(c::or_metadata_iterator_get_dir(it)));
                    } else {
                        ent[k][1] = t;
                    }
                    k += 1;
                }
                c::or_metadata_iterator_free(it);
            });
        }
        let mut t: P = null_mut();
        let e = c::or_get_extract_thumbnail(w.path.as_ptr(), first, &mut t);
        w.extracted[0] = taken(t, e, cobs::c_thumb, c::or_thumbnail_release);
        let mut t: P = null_mut();
        let e = c::or_get_extract_rawdata(w.path.as_ptr(), 0, &mut t);
        w.extracted[1] = taken(t, e, cobs::c_raw, c::or_rawdata_release);
        let t = c::or_thumbnail_new();
        w.empty[0] = cobs::c_thumb(t);
        c::or_thumbnail_release(t);
        let t = c::or_rawdata_new();
        w.empty[1] = cobs::c_raw(t);
        c::or_rawdata_release(t);
        (w.info, w.sizes, w.size, w.thumb) = (i, sz, first, th);
        (w.raw, w.bitmap, w.value, w.ifd, w.entries, w.dirs) = (raw, bm, val, ifd, ent, dirs);
        w
    }
}
const RENDER: [u32; 2] = [0x13, 0x23];
const IFD: [i32; 2] = [1, 2];

/// One execution.
struct Run<'a> {
    w: &'a World,
    live: Vec<Live>,
    views: Vec<View>,
    next: usize,
    bad: Option<String>,
    steps: u64,
    log: Vec<A>,
}

impl<'a> Run<'a> {
    fn new(w: &'a World) -> Self {
        Run { w, live: vec![], views: vec![], next: 0, bad: None, steps: 0, log: vec![] }
    }
    /// what can be called now
    fn actions(&self, releases: bool) -> Vec<A> {
        let mut v = vec![];
        let room = |k: K| self.live.iter().filter(|l| l.k == k).count() < 2;
        if !releases {
            if room(K::File) {
                v.extend([A::OpenMem, A::OpenPath]);
            }
            v.extend([A::OpenBad, A::Nothing]);
            if room(K::Thumb) {
                v.extend([A::ExtractThumb, A::NewThumb]);
            }
            if room(K::Raw) {
                v.extend([A::ExtractRaw, A::NewRaw]);
            }
        }
        for (i, l) in self.live.iter().enumerate() {
            if !releases {
                match l.k {
                    K::File => {
                        v.extend([A::Info(i), A::Sizes(i), A::Ifd(i, 0), A::Ifd(i, 1)]);
                        if room(K::Thumb) {
                            v.push(A::Thumb(i));
                        }
                        if room(K::Raw) {
                            v.extend([A::Raw(i, 0), A::Raw(i, 1)]);
                        }
                        if room(K::Bitmap) {
                            v.extend([A::Render(i, 0), A::Render(i, 1)]);
                        }
                        if room(K::Value) {
                            v.push(A::Value(i));
                        }
                        if room(K::Iter) {
                            v.push(A::Iter(i));
                        }
                    }
                    K::Thumb | K::Bitmap => v.push(A::Data(i)),
                    K::Raw => v.extend([A::Data(i), A::Mosaic(i), A::Matrix(i)]),
                    K::Value => v.extend([A::Str(i), A::As(i, true), A::As(i, false)]),
                    K::Iter => v.extend([A::Next(i), A::Entry(i), A::DirOf(i)]),
                }
            }
            v.push(A::Release(i));
        }
        v
    }
    fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(format!("{m} in {:?}", self.log));
        }
    }
    fn same(&mut self, what: &str, got: &[u8], want: &[u8]) {
        if got != want {
            self.fail(format!("{what}: {}", crate::obs::diff(got, want)));
        }
    }
    fn own(&mut self, k: K, p: P, want: Vec<u8>) {
        self.live.push(Live { id: self.next, k, p, want, pos: 0, full: None });
        self.next += 1;
    }
    /// an object or an error, like on a new handle
    fn got(&mut self, k: K, p: P, e: i32, want: &Result<Vec<u8>, i32>) {
        match want {
            Ok(w) if !p.is_null() && e == 0 => self.own(k, p, w.clone()),
            Err(x) if p.is_null() && e == *x => {}
            _ => self.fail(format!(
                "{k:?}: null {} code {e}, expected {:?}",
                p.is_null(),
                want.as_ref().map(|_| ())
            )),
        }
    }
    fn view(&mut self, i: usize, b: B, want: Vec<u8>) {
        let owner = self.live[i].id;
        self.views.push(View { owner, b, want });
    }
    unsafe fn read(b: B) -> Vec<u8> {
        match b {
            B::Bytes(p, n) if p.is_null() || n == 0 => b"none".to_vec(),
            B::Bytes(p, n) => std::slice::from_raw_parts(p, n).to_vec(),
            B::Str(p) => cobs::s(p).into_bytes(),
            B::Dir(d) => dir(d).into_bytes(),
            B::Mosaic(m) => cobs::c_mosaic(m).into_bytes(),
            B::Entry(e, full) => entry(e, full).into_bytes(),
        }
    }
    unsafe fn step(&mut self, a: A) {
        let w = self.w;
        self.steps += 1;
        self.log.push(a);
        let n: P = null_mut();
        let mut e = 77;
        match a {
            A::OpenMem | A::OpenPath => {
                let p = if a == A::OpenMem {
                    w.open()
                } else {
                    c::or_rawfile_new(w.path.as_ptr(), w.ty)
                };
                if p.is_null() {
                    self.fail("not opened".into());
                } else {
                    self.own(K::File, p, vec![]);
                }
            }
            A::OpenBad => {
                let junk = b"this is not a raw file, is it? no, it isn't one!!";
                let all = [
                    c::or_rawfile_new(w.missing.as_ptr(), 0),
                    c::or_rawfile_new(w.missing.as_ptr(), w.ty),
                    c::or_rawfile_new_from_memory(junk.as_ptr(), junk.len() as u32, 0),
                    c::or_rawfile_new_from_memory(junk.as_ptr(), 0, 0),
                ];
                let mut t: P = 77 as P;
                let e = [
                    c::or_get_extract_thumbnail(w.missing.as_ptr(), 0, &mut t),
                    c::or_get_extract_rawdata(w.missing.as_ptr(), 0, &mut t),
                ];
                if all.iter().any(|p| !p.is_null()) || e.contains(&0) || t as usize != 77 {
                    self.fail(format!("opened {all:?} {e:?} {t:?}"));
                }
            }
            A::Nothing => {
                let s = statics();
                self.same("statics", s.as_bytes(), w.statics.as_bytes());
            }
            A::ExtractThumb => {
                let mut t = n;
                let e = c::or_get_extract_thumbnail(w.path.as_ptr(), w.size, &mut t);
                self.got(K::Thumb, t, e, &w.extracted[0]);
            }
            A::ExtractRaw => {
                let mut t = n;
                let e = c::or_get_extract_rawdata(w.path.as_ptr(), 0, &mut t);
                self.got(K::Raw, t, e, &w.extracted[1]);
            }
            A::NewThumb => self.own(K::Thumb, c::or_thumbnail_new(), w.empty[0].clone()),
            A::NewRaw => self.own(K::Raw, c::or_rawdata_new(), w.empty[1].clone()),
            A::Info(i) => {
                let s = info(self.live[i].p);
                self.same("info", s.as_bytes(), w.info.as_bytes());
            }
            A::Sizes(i) => {
                let mut k = 0;
                let p = c::or_rawfile_get_thumbnail_sizes(self.live[i].p, &mut k) as *const u8;
                let v = if p.is_null() { vec![] } else { std::slice::from_raw_parts(p, k * 4).to_vec() };
                self.same("sizes", &v, &w.sizes);
                if !v.is_empty() {
                    self.view(i, B::Bytes(p, k * 4), v);
                }
            }
            A::Thumb(i) => {
                let t = c::or_rawfile_get_thumbnail(self.live[i].p, w.size, &mut e);
                self.got(K::Thumb, t, e, &w.thumb);
            }
            A::Raw(i, o) => {
                let t = c::or_rawfile_get_rawdata(self.live[i].p, o, &mut e);
                self.got(K::Raw, t, e, &w.raw[o as usize]);
            }
            A::Render(i, o) => {
                let t = c::or_rawfile_get_rendered_image(self.live[i].p, RENDER[o as usize], &mut e);
                self.got(K::Bitmap, t, e, &w.bitmap[o as usize]);
            }
            A::Value(i) => {
                let v = c::or_rawfile_get_metavalue(self.live[i].p, w.key.as_ptr());
                if v.is_null() != (w.value[0] == "null") {
                    self.fail("value".into());
                }
                if !v.is_null() {
                    self.own(K::Value, v, vec![]);
                }
            }
            A::Iter(i) => {
                let it = c::or_rawfile_get_metadata_iterator(self.live[i].p);
                if it.is_null() {
                    self.fail("no iterator".into());
                } else {
                    self.own(K::Iter, it, vec![]);
                }
            }
            A::Ifd(i, o) => {
                let d = c::or_rawfile_get_ifd(self.live[i].p, IFD[o as usize]);
                let want = w.ifd[o as usize].clone().into_bytes();
                self.same("ifd", dir(d).as_bytes(), &want);
                self.view(i, B::Dir(d), want);
            }
            A::Data(i) => {
                let p = self.live[i].p;
                let (d, k) = match self.live[i].k {
                    K::Thumb => (c::or_thumbnail_data(p) as _, c::or_thumbnail_data_size(p)),
                    K::Raw => (c::or_rawdata_data(p), c::or_rawdata_data_size(p)),
                    _ => (c::or_bitmapdata_data(p), c::or_bitmapdata_data_size(p)),
                };
                // a compressed image in tiles has no contiguous data
                let b = B::Bytes(d as _, if d.is_null() { 0 } else { k });
                let v = Self::read(b);
                let none = self.live[i].want.ends_with(b"no data");
                if k > 0 && (d.is_null() != none || (!none && !self.live[i].want.ends_with(&v))) {
                    self.fail("data".into());
                }
                self.view(i, b, v);
            }
            A::Mosaic(i) => {
                let m = c::or_rawdata_get_mosaicinfo(self.live[i].p);
                let v = cobs::c_mosaic(m).into_bytes();
                if m.is_null() || !self.live[i].want.windows(v.len()).any(|x| x == v) {
                    self.fail("mosaic".into());
                }
                self.view(i, B::Mosaic(m), v);
            }
            A::Matrix(i) => {
                let mut k = 0;
                let m = c::or_rawdata_get_colour_matrix(self.live[i].p, 1, &mut k);
                let b = B::Bytes(m as _, k as usize * 8);
                let v = Self::read(b);
                self.view(i, b, v);
            }
            A::Str(i) => {
                let s = c::or_metavalue_get_string(self.live[i].p);
                let v = cobs::s(s).into_bytes();
                let want = format!(" str={} as=", std::str::from_utf8(&v).unwrap());
                if !w.value[0].contains(&want) {
                    self.fail(format!("string {want} of {}", w.value[0]));
                }
                if !s.is_null() {
                    self.view(i, B::Str(s), v);
                }
            }
            A::As(i, full) => {
                // the first conversion stays
                let f = *self.live[i].full.get_or_insert(full);
                let s = c::or_metavalue_get_as_string(self.live[i].p, full);
                let v = cobs::s(s);
                if !w.value[f as usize].ends_with(&format!(" as={v}")) {
                    self.fail(format!("as string {v} of {}", w.value[f as usize]));
                }
                self.view(i, B::Str(s), v.into_bytes());
            }
            A::Next(i) => {
                let id = self.live[i].id;
                self.views.retain(|v| v.owner != id);
                let more = c::or_metadata_iterator_next(self.live[i].p);
                let k = self.live[i].pos;
                if (more != 0) != (k < w.entries.len()) {
                    self.fail(format!("next {more} at {k}"));
                }
                self.live[i].pos = (k + 1).min(w.entries.len() + 1);
                self.live[i].full = None;
            }
            A::Entry(i) => {
                let full = *self.live[i].full.get_or_insert(i % 2 == 0);
                let en = c::or_metadata_iterator_get_entry(self.live[i].p);
                let k = self.live[i].pos;
                let want = if k == 0 || k > w.entries.len() {
                    "null".into()
                } else {
                    w.entries[k - 1][full as usize].clone()
                };
                self.same("entry", entry(en, full).as_bytes(), want.as_bytes());
                self.view(i, B::Entry(en, full), want.into_bytes());
            }
            A::DirOf(i) => {
                let d = c::or_metadata_iterator_get_dir(self.live[i].p);
                let k = self.live[i].pos;
                if k > 0 && k <= w.dirs.len() {
                    let want = w.dirs[k - 1].clone();
                    self.same("dir of iterator", dir(d).as_bytes(), want.as_bytes());
                }
                let v = dir(d).into_bytes();
                self.view(i, B::Dir(d), v);
            }
            A::Release(i) => {
                let l = self.live.remove(i);
                self.views.retain(|v| v.owner != l.id);
                let e = match l.k {
                    K::File => c::or_rawfile_release(l.p),
                    K::Thumb => c::or_thumbnail_release(l.p),
                    K::Raw => c::or_rawdata_release(l.p),
                    K::Bitmap => c::or_bitmapdata_release(l.p),
                    K::Value => {
                        c::or_metavalue_release(l.p);
                        0
                    }
                    K::Iter => {
                        c::or_metadata_iterator_free(l.p);
                        0
                    }
                };
                if e != 0 {
                    self.fail(format!("release {e}"));
                }
            }
        }
        self.look();
    }
    /// All that is alive still says the same.
    unsafe fn look(&mut self) {
        for i in 0..self.live.len() {
            let p = self.live[i].p;
            let got = match self.live[i].k {
                K::Thumb => cobs::c_thumb(p),
                K::Raw => cobs::c_raw(p),
                K::Bitmap => cobs::c_bitmap(p),
                K::File => {
                    if c::or_rawfile_get_type(p) == 0 {
                        self.fail("file type".into());
                    }
                    continue;
                }
                K::Value => {
                    if c::or_metavalue_get_count(p) != 1 {
                        self.fail("value count".into());
                    }
                    continue;
                }
                K::Iter => continue,
            };
            let want = std::mem::take(&mut self.live[i].want);
            let what = self.live[i].k;
            self.same(&format!("{what:?} afterwards"), &got, &want);
            self.live[i].want = want;
        }
        for i in 0..self.views.len() {
            let got = Self::read(self.views[i].b);
            let want = std::mem::take(&mut self.views[i].want);
            self.same("borrowed afterwards", &got, &want);
            self.views[i].want = want;
        }
    }
    unsafe fn end(&mut self, last: bool) {
        while !self.live.is_empty() {
            let i = if last { self.live.len() - 1 } else { 0 };
            self.step(A::Release(i));
        }
    }
}

/// One execution from a state: `choice` gives the calls, and gets the number
/// there was to choose from.
unsafe fn exec(w: &World, start: &[A], depth: usize, releases: bool, choice: &mut Vec<(usize, usize)>, fixed: usize) -> (u64, Option<String>, bool) {
    let mut r = Run::new(w);
    for a in start {
        // the start is not cut short
        r.step(*a);
    }
    let mut ok = true;
    for d in 0..depth {
        let acts = r.actions(releases);
        if acts.is_empty() {
            choice.truncate(d);
            break;
        }
        if choice.len() == d {
            choice.push((0, acts.len()));
        }
        choice[d].1 = acts.len();
        if choice[d].0 >= acts.len() {
            debug_assert!(d < fixed);
            ok = false;
            break;
        }
        r.step(acts[choice[d].0]);
    }
    let last = choice.iter().map(|x| x.0).sum::<usize>() % 2 == 0;
    r.end(last);
    (r.steps, r.bad.take(), ok)
}

/// Every sequence of calls whose first `fixed` choices are given.
unsafe fn explore(w: &World, start: &[A], depth: usize, releases: bool, first: &[usize], key: &str, rec: &mut Rec) {
    let mut choice: Vec<(usize, usize)> = first.iter().map(|x| (*x, usize::MAX)).collect();
    let fixed = first.len();
    loop {
        choice.reserve(depth.saturating_sub(choice.len()));
        let before = (alloc::live(), alloc::live_blocks());
        let (steps, bad, ok) = exec(w, start, depth, releases, &mut choice, fixed);
        let mut left = (alloc::live(), alloc::live_blocks()) != before;
        if !ok {
            return;
        }
        rec.traces += 1;
        rec.transitions += steps;
        if rec.traces % 64 == 0 {
            rec.state(format!("{key} {choice:?}").as_bytes());
        }
        if let Some(m) = bad {
            rec.bad(key, m);
            return;
        }
        // Nothing is left. Again, for what is made once and kept.
        for _ in 0..3 {
            if !left {
                break;
            }
            let mut again = choice.clone();
            again.reserve(depth);
            let before = (alloc::live(), alloc::live_blocks());
            let _ = exec(w, start, depth, releases, &mut again, fixed);
            left = (alloc::live(), alloc::live_blocks()) != before;
        }
        if left {
            rec.bad(key, format!("memory is left after {:?}", names(w, start, releases, &choice)));
            return;
        }
        // the next one
        loop {
            if choice.len() <= fixed {
                return;
            }
            let (i, n) = choice.pop().unwrap();
            if i + 1 < n {
                choice.push((i + 1, n));
                break;
            }
        }
    }
}
unsafe fn names(w: &World, start: &[A], releases: bool, choice: &[(usize, usize)]) -> Vec<A> {
    let mut r = Run::new(w);
    for a in start {
        r.step(*a);
    }
    for x in choice {
        let a = r.actions(releases);
        r.step(a[x.0]);
    }
    let l = r.log.clone();
    r.end(false);
    l
}

/// where sequences start
fn starts() -> Vec<(&'static str, Vec<A>)> {
    vec![
        ("nothing", vec![]),
        ("a file", vec![A::OpenMem]),
        ("a file and an iterator", vec![A::OpenMem, A::Iter(0), A::Next(1), A::Entry(1)]),
        ("an iterator without its file", vec![A::OpenPath, A::Iter(0), A::Release(0), A::Next(0)]),
        (
            "one of each",
            vec![A::OpenMem, A::Thumb(0), A::Raw(0, 0), A::Render(0, 0), A::Value(0), A::Iter(0)],
        ),
        ("two files", vec![A::OpenMem, A::OpenPath, A::Iter(1), A::Value(0)]),
    ]
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C26", "model_checking", thorough);
    let scratch = std::env::temp_dir().join(format!("orverif-c26-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let samples = robust::samples(8, 8, false);
    let mk = |i: usize| unsafe {
        let s = &samples[i];
        let p = scratch.join(format!("{}.{}", s.name, s.ext));
        if !p.exists() {
            std::fs::write(&p, &s.data).unwrap();
        }
        alloc::set_fill(Some(0xa5));
        // twice: what is made once is not counted
        drop(World::new(s.data.clone(), robust_type(s.ext), &p));
        World::new(s.data.clone(), robust_type(s.ext), &p)
    };
    for i in 0..samples.len() {
        let s = &samples[i];
        std::fs::write(scratch.join(format!("{}.{}", s.name, s.ext)), &s.data).unwrap();
    }
    let st = starts();
    const W: usize = 48;
    // one format, deep; the first two calls make the cases
    let main = samples.iter().position(|s| s.name.starts_with("dng")).unwrap_or(0);
    let opts = Opts { hang: std::time::Duration::from_secs(600), ..Opts::default() };
    for (name, start) in &st {
        let depth = match (*name, thorough) {
            ("nothing", false) => 4,
            ("nothing", true) => 5,
            ("a file", false) => 4,
            ("a file", true) => 5,
            ("one of each", false) | ("two files", false) => 3,
            (_, false) => 3,
            (_, true) => 4,
        };
        let space = format!("{depth} calls from {name}");
        let key = |i: u64| format!("from {name}: {}.{}", i as usize / W, i as usize % W);
        par(&mut ctx, &space, (W * W) as u64, 8, &opts, &key, &|i, r: &mut Rec| unsafe {
            thread_local!(static CACHE: std::cell::RefCell<Option<World>> = Default::default());
            CACHE.with(|c| {
                let mut c = c.borrow_mut();
                let w = c.get_or_insert_with(|| mk(main));
                explore(w, start, depth, false, &[i as usize / W, i as usize % W], &key(i), r);
            })
        });
    }
    // all orders of release
    par(&mut ctx, "all orders of release", samples.len() as u64, 1, &opts, &|i| format!("release {}", samples[i as usize].name), &|i, r: &mut Rec| unsafe {
        let w = mk(i as usize);
        let mut start = vec![A::OpenMem];
        if w.thumb.is_ok() {
            start.push(A::Thumb(0));
        }
        if w.raw[0].is_ok() {
            start.push(A::Raw(0, 0));
        }
        if w.bitmap[0].is_ok() {
            start.push(A::Render(0, 0));
        }
        start.push(A::Iter(0));
        let it = start.len() - 1;
        start.extend([A::Next(it), A::Entry(it), A::Ifd(0, 0), A::Sizes(0)]);
        if w.value[0] != "null" {
            start.push(A::Value(0));
        }
        explore(&w, &start, 7, true, &[], &format!("release {}", samples[i as usize].name), r);
    });
    // every format
    let depth = if thorough { 3 } else { 2 };
    par(&mut ctx, &format!("{depth} calls from each start, every format"), (samples.len() * st.len()) as u64, 1, &opts, &|i| {
        format!("{} from {}", samples[i as usize / st.len()].name, st[i as usize % st.len()].0)
    }, &|i, r: &mut Rec| unsafe {
        let k = i as usize / st.len();
        let (n, s) = &st[i as usize % st.len()];
        let w = mk(k);
        if *n == "one of each" && (w.thumb.is_err() || w.raw[0].is_err() || w.bitmap[0].is_err() || w.value[0] == "null") {
            return;
        }
        if *n == "two files" && w.value[0] == "null" {
            return;
        }
        explore(&w, s, depth, false, &[], &format!("{} from {n}", samples[k].name), r);
    });
    // the whole listing of every format
    par(&mut ctx, "whole listings", samples.len() as u64, 1, &opts, &|i| format!("listing {}", samples[i as usize].name), &|i, r: &mut Rec| unsafe {
        let w = mk(i as usize);
        for release_at in 0..w.entries.len() + 3 {
            let mut run = Run::new(&w);
            run.step(A::OpenMem);
            run.step(A::Iter(0));
            for k in 0..w.entries.len() + 2 {
                if k == release_at {
                    run.step(A::Release(0));
                }
                let it = run.live.len() - 1;
                run.step(A::Next(it));
                run.step(A::DirOf(it));
                run.step(A::Entry(it));
            }
            run.end(true);
            r.trace(run.steps, format!("{release_at}").as_bytes());
            if let Some(m) = run.bad.take() {
                let m = m.split(" in [").next().unwrap().to_string();
                r.bad(format!("listing {}", samples[i as usize].name), format!("file released after {release_at}: {m}"));
            }
        }
    });
    let _ = std::fs::remove_dir_all(&scratch);
    ctx.rule = "each call answers as on a new handle whatever was called before; what is owned or borrowed stays the same until released; when all is released no memory is left and nothing is freed twice".into();
    ctx.assumptions = vec![
        "calls follow the ownership rules of the headers (released once, nothing borrowed is used after its owner or the next step of the iterator)".into(),
        "at most two live objects of a kind".into(),
    ];
    ctx.finish()
}
fn robust_type(ext: &str) -> i32 {
    match ext {
        "cr2" => 1,
        "crw" => 2,
        "nef" => 3,
        "mrw" => 4,
        "arw" => 5,
        "dng" => 6,
        "orf" => 7,
        "pef" => 8,
        "erf" => 9,
        "rw2" => 12,
        "raf" => 13,
        "cr3" => 14,
        _ => 100,
    }
}
