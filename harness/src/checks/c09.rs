//! C09: what kind of file it is, by content, by name and by hint.
use super::robust::{samples, S};
use crate::asm::{Asm, Dir, V};
use crate::capi;
use crate::obs::{diff, err, observe, Op};
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::{
    extensions, mime_types, rawfile_from_file, rawfile_from_io, rawfile_from_memory,
    type_for_mime_type, Error, RawFileHandle, Result, Type,
};
use std::collections::BTreeSet;
use std::ffi::{CStr, CString, OsString};
use std::io::{BufReader, Cursor, Seek, SeekFrom};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// The published extensions and what a file so named is opened as.
const EXT: &[(&str, Type)] = &[
    ("arw", Type::Arw),
    ("cr2", Type::Cr2),
    ("cr3", Type::Cr3),
    ("crw", Type::Crw),
    ("dng", Type::Dng),
    ("erf", Type::Erf),
    ("gpr", Type::Dng),
    ("jpeg", Type::Jpeg),
    ("jpg", Type::Jpeg),
    ("mrw", Type::Mrw),
    ("nef", Type::Nef),
    ("nrw", Type::Nef),
    ("orf", Type::Orf),
    ("pef", Type::Pef),
    ("raf", Type::Raf),
    ("raw", Type::Rw2),
    ("rw2", Type::Rw2),
    ("rwl", Type::Rw2),
    ("sr2", Type::Arw),
];

/// The published MIME types, and the kind they stand for.
const MIME: &[(&str, Type)] = &[
    ("image/x-sony-arw", Type::Arw),
    ("image/x-canon-cr2", Type::Cr2),
    ("image/x-canon-cr3", Type::Cr3),
    ("image/x-canon-crw", Type::Crw),
    ("image/x-adobe-dng", Type::Dng),
    ("image/x-epson-erf", Type::Erf),
    ("image/x-minolta-mrw", Type::Mrw),
    ("image/x-nikon-nef", Type::Nef),
    ("image/x-nikon-nrw", Type::Nrw),
    ("image/x-olympus-orf", Type::Orf),
    ("image/x-pentax-pef", Type::Pef),
    ("image/x-fuji-raf", Type::Raf),
    ("image/x-panasonic-rw", Type::Rw),
    ("image/x-panasonic-rw2", Type::Rw2),
    ("image/x-sony-sr2", Type::Sr2),
];

/// Every type there is as a hint, and the kind of file it opens.
const HINT: &[(Type, Option<Type>)] = &[
    (Type::Unknown, None),
    (Type::Cr2, Some(Type::Cr2)),
    (Type::Crw, Some(Type::Crw)),
    (Type::Nef, Some(Type::Nef)),
    (Type::Mrw, Some(Type::Mrw)),
    (Type::Arw, Some(Type::Arw)),
    (Type::Dng, Some(Type::Dng)),
    (Type::Orf, Some(Type::Orf)),
    (Type::Pef, Some(Type::Pef)),
    (Type::Erf, Some(Type::Erf)),
    (Type::Tiff, None),
    (Type::Nrw, Some(Type::Nef)),
    (Type::Rw2, Some(Type::Rw2)),
    (Type::Raf, Some(Type::Raf)),
    (Type::Cr3, Some(Type::Cr3)),
    (Type::Gpr, Some(Type::Dng)),
    (Type::Sr2, Some(Type::Arw)),
    (Type::Rw, Some(Type::Rw2)),
    (Type::Jpeg, Some(Type::Jpeg)),
];

fn mime_of(t: Type) -> &'static str {
    MIME.iter()
        .find(|m| m.1 == t)
        .map(|m| m.0)
        .unwrap_or("application/octet-stream")
}

/// What content may be identified as.
#[derive(Debug, PartialEq, Clone)]
enum Want {
    Is(Type),
    /// refused, whatever the error
    Refuse,
    /// refused as unrecognised
    Unknown,
    /// either
    May(Type),
    /// not judged
    Any,
}

fn rd(b: &[u8], p: usize, n: usize, be: bool) -> Option<u32> {
    let s = b.get(p..p + n)?;
    Some(s.iter().enumerate().fold(0u32, |a, (i, v)| {
        a | (*v as u32) << (8 * if be { n - 1 - i } else { i })
    }))
}

/// Signature table, as documented for the formats.
fn want(b: &[u8]) -> Want {
    use Want::*;
    if b.len() < 4 {
        return Refuse;
    }
    let short = b.len() <= 4;
    let sure = |t| if short { May(t) } else { Is(t) };
    match &b[..4] {
        b"\xff\xd8\xff\xdb" => return sure(Type::Jpeg),
        [0xff, 0xd8, 0xff, _] => return May(Type::Jpeg),
        b"\0MRM" => return sure(Type::Mrw),
        b"IIRO" | b"IIRS" => return sure(Type::Orf),
        b"MMOR" | b"MMSR" => return sure(Type::Orf),
        b"IIU\0" => return sure(Type::Rw2),
        _ => {}
    }
    if b.len() >= 12 && &b[4..12] == b"ftypcrx " {
        return Is(Type::Cr3);
    }
    if b.len() >= 14 && &b[..14] == b"II\x1a\0\0\0HEAPCCDR" {
        return Is(Type::Crw);
    }
    if b.len() >= 15 && &b[..15] == b"FUJIFILMCCD-RAW" {
        // a blank comes after it
        return if b.len() >= 16 && b[15] == b' ' {
            Is(Type::Raf)
        } else {
            May(Type::Raf)
        };
    }
    let be = match &b[..4] {
        b"II\x2a\0" => false,
        b"MM\0\x2a" => true,
        _ => return if short { Refuse } else { Unknown },
    };
    if b.len() >= 12 && &b[8..11] == b"CR\x02" {
        return Is(Type::Cr2);
    }
    // first directory
    let ents = (|| {
        let o = rd(b, 4, 4, be)? as usize;
        let n = rd(b, o, 2, be)? as usize;
        let mut v = vec![];
        for i in 0..n {
            let p = o + 2 + 12 * i;
            v.push((
                rd(b, p, 2, be)?,
                rd(b, p + 2, 2, be)?,
                rd(b, p + 4, 4, be)? as usize,
                p + 8,
            ));
        }
        rd(b, o + 2 + 12 * n, 4, be)?;
        Some(v)
    })();
    let ents = match ents {
        None => return Refuse,
        Some(e) => e,
    };
    if ents.iter().any(|e| e.0 == 0xc612) {
        return Is(Type::Dng);
    }
    let make = ents.iter().find(|e| e.0 == 0x10f).map(|e| {
        if e.1 != 2 {
            return None;
        }
        let p = if e.2 > 4 {
            rd(b, e.3, 4, be)? as usize
        } else {
            e.3
        };
        let s = b.get(p..p + e.2)?;
        let n = s.iter().position(|c| *c == 0).unwrap_or(s.len());
        Some(s[..n].to_vec())
    });
    let m = match make {
        None => return Unknown,
        Some(None) => return Any,
        Some(Some(m)) => m,
    };
    let has = |p: &[u8]| m.windows(p.len()).any(|w| w == p);
    // written with other blanks after it, or in another way the vendor uses
    let like = |p: &str| String::from_utf8_lossy(&m).trim_end() == p;
    if has(b"NIKON") {
        Is(Type::Nef)
    } else if m == b"SEIKO EPSON CORP." {
        Is(Type::Erf)
    } else if m == b"PENTAX Corporation " {
        Is(Type::Pef)
    } else if has(b"SONY") {
        Is(Type::Arw)
    } else if m == b"Canon" {
        Is(Type::Cr2)
    } else if like("SEIKO EPSON CORP.") || like("EPSON") {
        May(Type::Erf)
    } else if like("PENTAX Corporation") || like("PENTAX") || like("Asahi Optical Co.,Ltd.") {
        May(Type::Pef)
    } else if like("RICOH IMAGING COMPANY, LTD.") {
        May(Type::Pef)
    } else if like("Canon") {
        May(Type::Cr2)
    } else {
        Unknown
    }
}

fn show(r: &Result<RawFileHandle>) -> String {
    match r {
        Ok(f) => format!("{:?} {}", f.type_(), f.mime_type()),
        Err(e) => err(e),
    }
}

fn judge_content(key: &str, b: &[u8], r: &mut Rec) {
    let got = rawfile_from_memory(b.to_vec(), None);
    let s = show(&got);
    r.trace(1, s.as_bytes());
    let w = want(b);
    let is = |t: Type| matches!(&got, Ok(f) if f.type_() == t);
    let ok = match &w {
        Want::Is(t) => is(*t),
        Want::Refuse => got.is_err(),
        Want::Unknown => matches!(got, Err(Error::UnrecognizedFormat)),
        Want::May(t) => got.is_err() || is(*t),
        Want::Any => true,
    };
    if !ok {
        r.bad(
            key,
            format!("{:02x?} should be {w:?}, got {s}", &b[..b.len().min(20)]),
        );
    }
    if let Ok(f) = &got {
        if f.mime_type() != mime_of(f.type_()) {
            r.bad(key, format!("MIME type {s}"));
        }
        if let Ok(id) = f.type_id() {
            if f.vendor_id().ok() != Some((u32::from(id) >> 16) as u16) {
                r.bad(key, format!("vendor {:?} of {id}", f.vendor_id()));
            }
        }
    }
}

const SIG: &[&[u8]] = &[
    b"\xff\xd8\xff\xdb",
    b"\xff\xd8\xff\xe1",
    b"\0MRM",
    b"IIRO\x08\0\0\0",
    b"IIRS\x08\0\0\0",
    b"MMOR\0\0\0\x08",
    b"MMSR\0\0\0\x08",
    b"IIU\0\x08\0\0\0",
    b"\0\0\0\x18ftypcrx \0\0\0\x01crx isom",
    b"\0\0\0\x18ftypheic\0\0\0\x01heic",
    b"II\x1a\0\0\0HEAPCCDR",
    b"FUJIFILMCCD-RAW 0201",
    b"II\x2a\0\x10\0\0\0CR\x02\0",
    b"MM\0\x2a\0\0\0\x10CR\x02\0",
    b"II\x2a\0\x12\0\0\0",
    b"MM\0\x2a\0\0\0\x12",
    b"\x89PNG\r\n\x1a\n",
    b"GIF89a",
    b"BM",
    b"PK\x03\x04",
    b"FOVb",
    b"IIII\x01\0\0\0",
    b"II\x2b\0\x08\0\0\0",
    b"MM\0\x2b\0\x08\0\0",
    b"RIFF\0\0\0\0WEBP",
    b"\0\0\0\0\0\0\0\0",
    b"",
];

const MAKES: &[&str] = &[
    "NIKON CORPORATION",
    "NIKON",
    "x NIKON x",
    "Nikon",
    "NIKO",
    "NIKON\0SONY",
    "X\0NIKON",
    "SONY",
    "SONY   ",
    "Sony",
    "a SONY",
    "NIKON SONY",
    "SONY NIKON",
    "SEIKO EPSON CORP.",
    "SEIKO EPSON CORP",
    "SEIKO EPSON CORP. ",
    " SEIKO EPSON CORP.",
    "PENTAX Corporation ",
    "PENTAX Corporation",
    "PENTAX",
    "xPENTAX Corporation ",
    "Canon",
    "Canon ",
    "canon",
    "Canonet",
    "C",
    "",
    "OLYMPUS IMAGING CORP.",
    "Panasonic",
    "LEICA",
    "FUJIFILM",
    "KONICA MINOLTA",
    "Minolta Co., Ltd.",
    "Apple",
    "GoPro",
    "Adobe",
];

/// a TIFF file with these things in the first, second or sub directory
fn tiff(be: bool, make: &str, dng: usize, place: usize, pre: usize, cr2: bool) -> Vec<u8> {
    let what = |d: Dir| {
        let d = match dng {
            0 => d,
            1 => d.e(0xc612, V::B(vec![1, 4, 0, 0])),
            _ => d.e(0xc612, V::Raw(7, 4, vec![1, 1, 0, 0])),
        };
        d.e(0x10f, V::A(make.into()))
    };
    let plain = Dir::new().s(0x100, 16).s(0x101, 16);
    let mut d = match place {
        0 => what(plain),
        1 => plain.next(what(Dir::new().s(0x100, 8))),
        2 => plain.e(0x14a, V::Sub(vec![what(Dir::new().s(0x100, 8))])),
        3 => plain.e(0x8769, V::Sub(vec![what(Dir::new().s(0x100, 8))])),
        4 => what(Dir::new()),
        // others around them
        _ => {
            let mut d = what(plain);
            for t in [0x103, 0x106, 0x110, 0x111, 0x112, 0x132, 0x8298, 0xc610] {
                d = d.s(t, 1);
            }
            d
        }
    };
    d.sorted = true;
    let mut a = Asm::new(be);
    a.label("start");
    a.bytes(if be { b"MM\0\x2a" } else { b"II\x2a\0" });
    a.ref32("d0", None);
    if cr2 {
        a.bytes(b"CR\x02\0");
        a.u32(0);
    }
    a.bytes(&vec![0; pre]);
    a.label("d0");
    a.dir(&d, "start");
    a.finish().data
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(n: u64) -> Scratch {
        let p = std::env::temp_dir().join(format!("orverif-c09-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What is observed of an opened file.
const OPS: &[Op] = &[
    Op::Type,
    Op::Mime,
    Op::TypeId,
    Op::Vendor,
    Op::Sizes,
    Op::ThumbNth(0),
    Op::Raw(true),
    Op::Meta,
    Op::Dump,
];

fn answers(f: Result<RawFileHandle>) -> Vec<u8> {
    match f {
        Err(e) => err(&e).into_bytes(),
        Ok(f) => {
            let f = Rc::new(f);
            let mut o = vec![];
            for op in OPS {
                o.extend_from_slice(format!("\n#{op:?}\n").as_bytes());
                let mut a = observe(&f, op);
                if *op == Op::Dump {
                    a.truncate(4000);
                }
                o.extend(a);
            }
            o
        }
    }
}

/// type, type id and vendor through a C handle
fn c_answers(p: capi::P) -> String {
    if p.is_null() {
        return "null".into();
    }
    unsafe {
        let s = format!(
            "{} {:08x} {:04x}",
            capi::or_rawfile_get_type(p),
            capi::or_rawfile_get_typeid(p),
            capi::or_rawfile_get_vendorid(p)
        );
        capi::or_rawfile_release(p);
        s
    }
}
fn c_want(f: &Result<RawFileHandle>) -> String {
    match f {
        Err(_) => "null".into(),
        Ok(f) => {
            let id = f.type_id().map(u32::from).unwrap_or(0);
            format!(
                "{} {:08x} {:04x}",
                f.type_() as u32,
                id,
                f.vendor_id().unwrap_or(0)
            )
        }
    }
}

fn cpath(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// The same bytes through every entry point, with the same hint.
fn entries(s: &S, hint: usize, n: u64, r: &mut Rec) {
    let key = format!("entry {} {:?}", s.name, HINT[hint].0);
    let h = match hint {
        0 => None,
        _ => Some(HINT[hint].0),
    };
    let reference = rawfile_from_memory(s.data.clone(), h);
    r.trace(1, show(&reference).as_bytes());
    // the hint decides
    if hint > 0 {
        let got = reference.as_ref().ok().map(|f| f.type_());
        if got != HINT[hint].1 {
            r.bad(
                key.clone(),
                format!("opened as {got:?}, not {:?}", HINT[hint].1),
            );
        }
        if let Err(e) = &reference {
            if !matches!(e, Error::UnrecognizedFormat) {
                r.bad(key.clone(), format!("refused with {e:?}"));
            }
        }
    }
    if let Ok(f) = &reference {
        if f.mime_type() != mime_of(f.type_()) {
            r.bad(key.clone(), format!("MIME type {}", show(&reference)));
        }
    }
    let cw = c_want(&reference);
    let want = answers(reference);
    let dir = Scratch::new(n);
    let mut names: Vec<OsString> = ["plain", "x.bin", "y.nef.bak", ".nef", "nef", "z."]
        .iter()
        .map(OsString::from)
        .collect();
    names.push(OsString::from_vec(b"\xff\xfe".to_vec()));
    names.push(OsString::from_vec(b"a.\xff\xfe".to_vec()));
    names.push(OsString::from_vec(b"a\xff.x\xc3\xa9".to_vec()));
    if h.is_some() {
        // a hint overrides the name
        names.push("q.nef".into());
        names.push("q.JPG".into());
        names.push("q.dng".into());
    }
    let mut check = |what: String, got: Vec<u8>| {
        r.trace(1, &got);
        if got != want {
            r.bad(key.clone(), format!("{what}: {}", diff(&got, &want)));
        }
    };
    check(
        "stream".into(),
        answers(rawfile_from_io(Box::new(Cursor::new(s.data.clone())), h)),
    );
    let mut c = Cursor::new(s.data.clone());
    let _ = c.seek(SeekFrom::Start(7));
    check("moved stream".into(), answers(rawfile_from_io(Box::new(c), h)));
    let mut c = Cursor::new(s.data.clone());
    let _ = c.seek(SeekFrom::End(3));
    check("stream past its end".into(), answers(rawfile_from_io(Box::new(c), h)));
    for (i, n) in names.iter().enumerate() {
        let p = dir.0.join(n);
        if std::fs::write(&p, &s.data).is_err() {
            continue;
        }
        check(format!("path {n:?}"), answers(rawfile_from_file(&p, h)));
        let cp = cpath(&p);
        let c = unsafe { capi::or_rawfile_new(cp.as_ptr(), HINT[hint].0 as i32) };
        let got = c_answers(c);
        if got != cw {
            check(format!("or_rawfile_new {n:?}: {got} / {cw}"), vec![]);
        }
        if i == 0 {
            let f = std::fs::File::open(&p).unwrap();
            check(
                "file stream".into(),
                answers(rawfile_from_io(Box::new(BufReader::with_capacity(16, f)), h)),
            );
        }
        let _ = std::fs::remove_file(&p);
    }
    let c = unsafe {
        capi::or_rawfile_new_from_memory(
            s.data.as_ptr(),
            s.data.len() as u32,
            HINT[hint].0 as i32,
        )
    };
    let got = c_answers(c);
    if got != cw {
        check(format!("or_rawfile_new_from_memory: {got} / {cw}"), vec![]);
    }
}

/// A file with a known extension, in every mixture of cases, in a path with
/// other dots in it, without a hint.
fn named(s: &S, ext: (&str, Type), n: u64, r: &mut Rec) {
    if ext.1 != Type::Jpeg && !extensions().contains(&ext.0.to_string()) {
        return; // reported by `tables`
    }
    let key = format!("name {} .{}", s.name, ext.0);
    let dir = Scratch::new(n);
    let as_ext = rawfile_from_memory(s.data.clone(), Some(ext.1));
    let cw = c_want(&as_ext);
    let want = answers(as_ext);
    for m in 0..1u32 << ext.0.len() {
        let e: String = ext
            .0
            .chars()
            .enumerate()
            .map(|(i, c)| {
                if m >> i & 1 == 1 {
                    c.to_ascii_uppercase()
                } else {
                    c
                }
            })
            .collect();
        let mut names = vec![OsString::from(format!("a.{e}"))];
        if m == 0 {
            names.push(format!("a.jpg.nef.{e}").into());
            let mut v = b"\xff\xfe.".to_vec();
            v.extend_from_slice(e.as_bytes());
            names.push(OsString::from_vec(v));
        }
        for n in names {
            let p = dir.0.join(&n);
            std::fs::write(&p, &s.data).unwrap();
            let f = rawfile_from_file(&p, None);
            r.trace(1, show(&f).as_bytes());
            match &f {
                Ok(f) if f.type_() == ext.1 => {}
                _ => r.bad(key.clone(), format!("{n:?} opened as {}", show(&f))),
            }
            if m == 0 {
                let got = answers(f);
                if got != want {
                    r.bad(key.clone(), format!("{n:?}: {}", diff(&got, &want)));
                }
                let cp = cpath(&p);
                let got = c_answers(unsafe { capi::or_rawfile_new(cp.as_ptr(), 0) });
                if got != cw {
                    r.bad(key.clone(), format!("or_rawfile_new {n:?}: {got} / {cw}"));
                }
            }
            let _ = std::fs::remove_file(&p);
        }
    }
}

unsafe fn strings(mut p: *const *const libc::c_char) -> Vec<String> {
    let mut v = vec![];
    while !(*p).is_null() && v.len() < 1000 {
        v.push(CStr::from_ptr(*p).to_string_lossy().into_owned());
        p = p.add(1);
    }
    v
}

fn tables(r: &mut Rec) {
    let set = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
    let got = set(extensions());
    let want: BTreeSet<String> = EXT
        .iter()
        .filter(|e| e.1 != Type::Jpeg)
        .map(|e| e.0.to_string())
        .collect();
    r.trace(1, format!("{got:?}").as_bytes());
    for e in want.symmetric_difference(&got) {
        r.bad(
            format!("ext {e}"),
            format!("listed: {}, supported: {}", got.contains(e), want.contains(e)),
        );
    }
    if got.len() != extensions().len() {
        r.bad("ext list", "an extension is listed twice");
    }
    let got = set(mime_types());
    let want: BTreeSet<String> = MIME.iter().map(|e| e.0.to_string()).collect();
    r.trace(1, format!("{got:?}").as_bytes());
    for e in want.symmetric_difference(&got) {
        r.bad(format!("mime {e}"), "in one of the lists only");
    }
    if got.len() != mime_types().len() {
        r.bad("mime list", "a type is listed twice");
    }
    let c = unsafe { strings(capi::or_get_file_extensions()) };
    r.eq(
        "C ext list",
        c.join(",").as_bytes(),
        extensions().join(",").as_bytes(),
    );
    let c = unsafe { strings(capi::or_get_mime_types()) };
    r.eq(
        "C mime list",
        c.join(",").as_bytes(),
        mime_types().join(",").as_bytes(),
    );
    // every string near a MIME type
    for (m, t) in MIME {
        let mut near: Vec<(String, Option<Type>)> = vec![(m.to_string(), Some(*t))];
        for i in 0..m.len() {
            near.push((m[..i].into(), None));
            let mut s = m.to_string();
            s.insert(i, 'x');
            near.push((s, None));
            let mut b = m.as_bytes().to_vec();
            b[i] ^= 1;
            near.push((String::from_utf8(b).unwrap(), None));
        }
        near.push((format!("{m} "), None));
        near.push(("image/jpeg".into(), None));
        near.push(("application/octet-stream".into(), None));
        for (s, w) in near {
            let w = MIME.iter().find(|e| e.0 == s).map(|e| e.1).or(w);
            let g = type_for_mime_type(&s);
            let c = CString::new(s.clone()).unwrap();
            let cg = unsafe { capi::or_get_type_for_mime_type(c.as_ptr()) };
            r.trace(1, format!("{g:?}").as_bytes());
            if g != w || cg != w.map(|t| t as u32).unwrap_or(0) {
                r.bad(format!("mime {s:?}"), format!("is {g:?}, in C {cg}"));
            }
        }
    }
    // a MIME type, the file it opens, and that file's MIME type
    for (m, t) in MIME {
        let f = rawfile_from_memory(vec![0; 64], type_for_mime_type(m));
        let kind = HINT.iter().find(|h| h.0 == *t).and_then(|h| h.1);
        r.trace(1, show(&f).as_bytes());
        match &f {
            Ok(f) if Some(f.type_()) == kind && mime_types().contains(&f.mime_type().to_string()) => {
                if type_for_mime_type(f.mime_type()) != Some(f.type_()) {
                    r.bad(format!("mime {m}"), "the MIME type isn't the type's");
                }
            }
            _ => r.bad(format!("mime {m}"), format!("opens as {}", show(&f))),
        }
    }
    // what can't be opened
    let dir = Scratch::new(u64::MAX);
    for n in ["none", "none.nef", ""] {
        let p = dir.0.join(n); // "" is the directory
        for h in [None, Some(Type::Nef)] {
            if n.is_empty() && h.is_some() {
                continue; // opening a directory doesn't fail, reading does
            }
            let f = rawfile_from_file(&p, h);
            r.trace(1, show(&f).as_bytes());
            if f.is_ok() {
                r.bad(format!("path {n:?} {h:?}"), "opened");
            }
        }
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C09", "model_checking", thorough);
    ctx.rule = "content near every signature, and every (first directory x make) TIFF, is identified as the signature table says; the same bytes opened through every entry point with every hint and under every kind of name give the same file; tables agree".into();
    ctx.assumptions.push("where vendors write their make in other ways than the one recognised today, identifying that content or refusing it are both accepted".into());
    let opts = Opts::default();

    par(&mut ctx, "tables", 1, 1, &opts, &|_| "tables".into(), &|_, r| tables(r));

    // signature, cut to each length, with tails
    let tails: &[&[u8]] = &[b"", b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", b"\x01\0\x0f\x01\x02\0\x04\0\0\0NIK\0\0\0\0\0"];
    let per = 26 * tails.len() as u64;
    let nm = |i: u64| {
        let mut m = Mix(i);
        let t = m.take(tails.len());
        let l = m.take(26);
        format!("sig {} len {l} tail {t}", m.take(SIG.len()))
    };
    par(&mut ctx, "signatures cut to each length x tails", SIG.len() as u64 * per, 64, &opts, &nm, &|i, r| {
        let mut m = Mix(i);
        let t = tails[m.take(tails.len())];
        let l = m.take(26);
        let s = SIG[m.take(SIG.len())];
        let mut b = s[..l.min(s.len())].to_vec();
        b.extend_from_slice(t);
        judge_content(&nm(i), &b, r);
    });

    // every byte of every signature takes every value
    let nm = |i: u64| {
        let mut m = Mix(i);
        let v = m.take(256);
        let p = m.take(20);
        format!("sig {} byte {p} = {v:#x}", m.take(SIG.len()))
    };
    par(&mut ctx, "signatures x byte x value", SIG.len() as u64 * 20 * 256, 1024, &opts, &nm, &|i, r| {
        let mut m = Mix(i);
        let v = m.take(256) as u8;
        let p = m.take(20);
        let mut b = SIG[m.take(SIG.len())].to_vec();
        b.resize(64, 0);
        b[p] = v;
        judge_content(&nm(i), &b, r);
    });

    // two bytes of every signature take the values that occur at their places
    // in any signature
    let mut alpha: Vec<Vec<u8>> = vec![vec![]; 16];
    for s in SIG {
        for (i, b) in s.iter().take(16).enumerate() {
            alpha[i].push(*b);
        }
    }
    for a in &mut alpha {
        a.sort_unstable();
        a.dedup();
    }
    let pairs: Vec<(usize, usize)> = (0..16)
        .flat_map(|a| (a + 1..16).map(move |b| (a, b)))
        .collect();
    let nm = |i: u64| {
        let mut m = Mix(i);
        let p = pairs[m.take(pairs.len())];
        format!("sig {} bytes {p:?}", m.take(SIG.len()))
    };
    par(&mut ctx, "signatures x byte pairs x bytes of other signatures", (SIG.len() * pairs.len()) as u64, 16, &opts, &nm, &|i, r| {
        let mut m = Mix(i);
        let p = pairs[m.take(pairs.len())];
        let mut b = SIG[m.take(SIG.len())].to_vec();
        b.resize(64, 0);
        for x in &alpha[p.0] {
            for y in &alpha[p.1] {
                b[p.0] = *x;
                b[p.1] = *y;
                judge_content(&nm(i), &b, r);
            }
        }
    });

    // every prefix of the signature alphabet product: all first four bytes
    let n4: u64 = alpha[..4].iter().map(|a| a.len() as u64).product();
    let nm = |i: u64| format!("first bytes {i}");
    par(&mut ctx, "all first four bytes over the signatures' bytes", n4, 2048, &opts, &nm, &|i, r| {
        let mut m = Mix(i);
        let mut b = vec![0u8; 64];
        for k in 0..4 {
            b[k] = m.pick(&alpha[k]);
        }
        judge_content(&nm(i), &b, r);
    });

    // TIFF
    let pres = [0usize, 1, 2, 7, 100, 5000];
    let nt = (2 * MAKES.len() * 3 * 6 * pres.len() * 2) as u64;
    let dec = |i: u64| {
        let mut m = Mix(i);
        let be = m.take(2) == 1;
        let cr2 = m.take(2) == 1;
        let pre = m.pick(&pres);
        let place = m.take(6);
        let dng = m.take(3);
        (be, m.take(MAKES.len()), dng, place, pre, cr2)
    };
    let nm = |i: u64| {
        let (be, k, dng, place, pre, cr2) = dec(i);
        format!("tiff be={be} make={:?} dng={dng} place={place} pre={pre} cr2={cr2}", MAKES[k])
    };
    par(&mut ctx, "TIFF: byte order x make x DNG version x where x directory offset x CR2 mark", nt, 64, &opts, &nm, &|i, r| {
        let (be, k, dng, place, pre, cr2) = dec(i);
        let b = tiff(be, MAKES[k], dng, place, pre, cr2);
        judge_content(&nm(i), &b, r);
    });

    // entry points and names
    let ss = samples(16, 16, thorough);
    let nh = HINT.len() as u64;
    let nm = |i: u64| format!("entry {} {:?}", ss[(i / nh) as usize].name, HINT[(i % nh) as usize].0);
    par(&mut ctx, "files x hints x entry points", ss.len() as u64 * nh, 4, &opts, &nm, &|i, r| {
        entries(&ss[(i / nh) as usize], (i % nh) as usize, i, r)
    });
    let ne = EXT.len() as u64;
    let nm = |i: u64| format!("name {} .{}", ss[(i / ne) as usize].name, EXT[(i % ne) as usize].0);
    par(&mut ctx, "files x extensions x letter cases", ss.len() as u64 * ne, 4, &opts, &nm, &|i, r| {
        named(&ss[(i / ne) as usize], EXT[(i % ne) as usize], i, r)
    });
    // the corpus by content
    let nm = |i: u64| format!("content {}", ss[i as usize].name);
    par(&mut ctx, "files by content", ss.len() as u64, 4, &opts, &nm, &|i, r| {
        let s = &ss[i as usize];
        judge_content(&nm(i), &s.data, r);
        // and as the format they are of
        let f = rawfile_from_memory(s.data.clone(), None);
        let k = super::robust::hint(s.ext);
        if let Ok(f) = f {
            if f.type_() != k {
                r.bad(nm(i), format!("{} is {:?}", s.ext, f.type_()));
            }
        }
    });
    ctx.finish()
}
