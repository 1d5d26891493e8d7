//! C07: a TIFF entry's value is what the file stores.
use super::robust::hint;
use crate::asm::{type_size, Asm, V};
use crate::corpus::{self, set, Cfg};
use crate::obs;
use crate::pool::Opts;
use crate::rec::{noise, par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::metadata::Value as MV;
use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::tiff::IfdType;
use libopenraw::{rawfile_from_memory, Ifd, RawFileHandle};

/// An entry as stored.
#[derive(Clone, Debug)]
pub struct E {
    pub tag: u16,
    pub ty: u16,
    pub count: u32,
    pub data: Vec<u8>,
}

/// Reference reader.
struct R<'a> {
    e: &'a E,
    be: bool,
}
impl R<'_> {
    fn u(&self, off: usize, n: usize) -> Option<u64> {
        let b = self.e.data.get(off..off + n)?;
        let mut v = 0u64;
        for i in 0..n {
            v = v << 8 | b[if self.be { i } else { n - 1 - i }] as u64;
        }
        Some(v)
    }
    /// the i-th unit of n bytes if the entry may be read as type `ty`
    fn at(&self, ty: u16, n: usize, i: u32) -> Option<u64> {
        if self.e.ty != ty && self.e.ty != 7 || i >= self.e.count {
            return None;
        }
        self.u(n * i as usize, n)
    }
    fn at2(&self, ty: u16, i: u32) -> Option<(u64, u64)> {
        if self.e.ty != ty && self.e.ty != 7 || i >= self.e.count {
            return None;
        }
        Some((self.u(8 * i as usize, 4)?, self.u(8 * i as usize + 4, 4)?))
    }
    fn str_at(&self, i: usize) -> Option<String> {
        let d = self.e.data.get(i..)?;
        let d = d.split(|c| *c == 0).next().unwrap_or(&[]);
        Some(String::from_utf8_lossy(d).into_owned())
    }
    fn n(&self) -> usize {
        self.e.count as usize
    }
    fn sx(&self, v: u64, n: usize) -> i64 {
        (v << (64 - 8 * n)) as i64 >> (64 - 8 * n)
    }
    fn uints(&self) -> Option<Vec<u32>> {
        (0..self.n())
            .map(|i| match self.e.ty {
                3 => self.u(2 * i, 2).map(|v| v as u32),
                4 => self.u(4 * i, 4).map(|v| v as u32),
                5 => {
                    let (a, b) = self.at2(5, i as u32)?;
                    Some(if b == 0 { 0 } else { (a / b) as u32 })
                }
                _ => None,
            })
            .collect::<Option<Vec<_>>>()
            .filter(|_| [3, 4, 5].contains(&self.e.ty))
    }
    fn ints(&self) -> Option<Vec<i32>> {
        let n = match self.e.ty {
            8 => 2,
            9 => 4,
            _ => return None,
        };
        (0..self.n())
            .map(|i| self.u(n * i, n).map(|v| self.sx(v, n) as i32))
            .collect()
    }
    fn floats(&self) -> Option<Vec<f64>> {
        let div = |a: f64, b: f64| if b == 0. { f64::NAN } else { a / b };
        (0..self.n())
            .map(|i| match self.e.ty {
                3 => self.u(2 * i, 2).map(|v| v as f64),
                4 => self.u(4 * i, 4).map(|v| v as f64),
                5 => self.at2(5, i as u32).map(|(a, b)| div(a as f64, b as f64)),
                10 => self
                    .at2(10, i as u32)
                    .map(|(a, b)| div(self.sx(a, 4) as f64, self.sx(b, 4) as f64)),
                11 => self.u(4 * i, 4).map(|v| f32::from_bits(v as u32) as f64),
                12 => self.u(8 * i, 8).map(f64::from_bits),
                _ => None,
            })
            .collect::<Option<Vec<_>>>()
            .filter(|_| [3, 4, 5, 10, 11, 12].contains(&self.e.ty))
    }
    /// the value the metadata iterator is to give
    fn meta(&self) -> Option<MV> {
        let n = self.n();
        Some(match self.e.ty {
            1 | 7 => MV::Bytes(self.e.data.clone()),
            2 => {
                let mut s = self.str_at(0)?.into_bytes();
                s.push(0);
                MV::String(s)
            }
            3 | 4 => MV::Int(self.uints()?),
            8 | 9 => MV::SInt(self.ints()?),
            6 => MV::SBytes(self.e.data.iter().map(|b| *b as i8).collect()),
            5 => MV::Rational(
                (0..n)
                    .map(|i| {
                        let (a, b) = self.at2(5, i as u32)?;
                        Some(Rational {
                            num: a as u32,
                            denom: b as u32,
                        })
                    })
                    .collect::<Option<_>>()?,
            ),
            10 => MV::SRational(
                (0..n)
                    .map(|i| {
                        let (a, b) = self.at2(10, i as u32)?;
                        Some(SRational {
                            num: a as i32,
                            denom: b as i32,
                        })
                    })
                    .collect::<Option<_>>()?,
            ),
            11 => MV::Float(
                (0..n)
                    .map(|i| Some(f32::from_bits(self.u(4 * i, 4)? as u32)))
                    .collect::<Option<_>>()?,
            ),
            12 => MV::Double(
                (0..n)
                    .map(|i| Some(f64::from_bits(self.u(8 * i, 8)?)))
                    .collect::<Option<_>>()?,
            ),
            _ => return None,
        })
    }
}

fn fb(v: Option<Vec<f64>>) -> String {
    format!(
        "{:?}",
        v.map(|v| v
            .iter()
            .map(|f| if f.is_nan() { "nan".into() } else { format!("{:x}", f.to_bits()) })
            .collect::<Vec<String>>())
    )
}

/// The value the metadata iterator is to give for the entry (None: an unknown type).
pub fn meta_value(e: &E, be: bool) -> Option<MV> {
    R { e, be }.meta()
}

/// Compare every way to read the entry with the reference.
pub fn judge(key: &str, f: &RawFileHandle, acc: usize, e: &E, be: bool, r: &mut Rec) {
    let x = R { e, be };
    let d = match f.ifd(ifd_type(acc)) {
        Some(d) => d,
        None => return r.bad(key, "directory not found"),
    };
    let mut n = 0u64;
    let mut check = |what: String, got: String, want: String, r: &mut Rec| {
        n += 1;
        if got != want {
            r.bad(
                format!("{key}:{what}"),
                format!("{e:?}: {got} instead of {want}"),
            );
        }
    };
    let ent = match d.entry(e.tag) {
        Some(ent) => ent,
        None => {
            r.bad(format!("{key}:missing"), format!("{e:?}: no such entry"));
            return;
        }
    };
    check(
        "inline".into(),
        ent.is_inline().to_string(),
        (e.data.len() <= 4).to_string(),
        r,
    );
    if !(1..=12).contains(&e.ty) {
        // an unknown type is never read as anything
        for (w, g) in [
            ("uint", d.uint_value(e.tag).is_some()),
            ("uints", d.uint_value_array(e.tag).is_some()),
            ("ints", d.int_value_array(e.tag).is_some()),
            ("u16s", d.u16_value_array(e.tag).is_some()),
            ("floats", d.float_value_array(e.tag).is_some()),
            ("string", ent.string_value().is_some()),
            ("u8", d.value::<u8>(e.tag).is_some()),
            ("u32", d.value::<u32>(e.tag).is_some()),
            ("String", d.value::<String>(e.tag).is_some()),
            ("Rational", d.value::<Rational>(e.tag).is_some()),
        ] {
            check(w.into(), g.to_string(), "false".into(), r);
        }
    } else {
        let u = x.uints();
        check(
            "uint".into(),
            format!("{:?}", d.uint_value(e.tag)),
            format!("{:?}", u.as_ref().and_then(|u| u.first().copied())),
            r,
        );
        check(
            "uints".into(),
            format!("{:?}", d.uint_value_array(e.tag)),
            format!("{u:?}"),
            r,
        );
        check(
            "ints".into(),
            format!("{:?}", d.int_value_array(e.tag)),
            format!("{:?}", x.ints()),
            r,
        );
        let u16s: Option<Vec<u64>> = match e.ty {
            3 => (0..x.n()).map(|i| x.u(2 * i, 2)).collect(),
            7 => (0..x.n() / 2).map(|i| x.u(2 * i, 2)).collect(),
            _ => None,
        };
        check(
            "u16s".into(),
            format!("{:?}", d.u16_value_array(e.tag)),
            format!("{u16s:?}"),
            r,
        );
        check(
            "floats".into(),
            fb(d.float_value_array(e.tag)),
            fb(x.floats()),
            r,
        );
        check(
            "string".into(),
            format!("{:?}", ent.string_value()),
            format!("{:?}", x.str_at(0).filter(|_| e.ty == 2)),
            r,
        );
        macro_rules! at {
            ($t:ty, $ty:expr, $n:expr, $conv:expr) => {
                for i in 0..(e.count.min(40) + 3) {
                    check(
                        format!("{}[{i}]", stringify!($t)),
                        format!("{:?}", d.entry_value::<$t>(ent, i).map(|v| v.to_ne_bytes())),
                        format!("{:?}", x.at($ty, $n, i).map($conv).map(|v| v.to_ne_bytes())),
                        r,
                    );
                }
            };
        }
        at!(u8, 1, 1, |v| v as u8);
        at!(i8, 6, 1, |v| v as i8);
        at!(u16, 3, 2, |v| v as u16);
        at!(i16, 8, 2, |v| v as i16);
        at!(u32, 4, 4, |v| v as u32);
        at!(i32, 9, 4, |v| v as i32);
        at!(f32, 11, 4, |v| f32::from_bits(v as u32));
        at!(f64, 12, 8, f64::from_bits);
        for i in 0..(e.count.min(40) + 3) {
            check(
                format!("Rational[{i}]"),
                format!("{:?}", d.entry_value::<Rational>(ent, i).map(|v| (v.num, v.denom))),
                format!("{:?}", x.at2(5, i)),
                r,
            );
            check(
                format!("SRational[{i}]"),
                format!("{:?}", d.entry_value::<SRational>(ent, i).map(|v| (v.num, v.denom))),
                format!("{:?}", x.at2(10, i).map(|(a, b)| (a as i32, b as i32))),
                r,
            );
            let inr = i < e.count;
            check(
                format!("String[{i}]"),
                format!("{:?}", d.entry_value::<String>(ent, i)),
                format!("{:?}", x.str_at(i as usize).filter(|_| inr && (e.ty == 2 || e.ty == 7))),
                r,
            );
            check(
                format!("bytes[{i}]"),
                format!("{:?}", d.entry_value::<Vec<u8>>(ent, i)),
                format!("{:?}", e.data.get(i as usize..).filter(|_| inr && e.ty == 7)),
                r,
            );
        }
    }
    r.traces += 1;
    r.transitions += n;
    r.states.insert(crate::report::hash(format!("{e:?}{be}").as_bytes()));
}

fn judge_meta(key: &str, f: &RawFileHandle, nth: usize, e: &E, be: bool, r: &mut Rec) {
    let got: Vec<_> = f.metadata().map(|i| i.collect()).unwrap_or_default();
    let Some((k, v, t)) = got.get(nth) else {
        r.bad(format!("{key}:meta"), "fewer items than entries");
        return;
    };
    if *t != e.ty as i16 {
        r.bad(format!("{key}:metatype"), format!("{e:?}: {k} has type {t}"));
    }
    match (R { e, be }).meta() {
        Some(w) => {
            if obs::value(v) != obs::value(&w) {
                r.bad(
                    format!("{key}:meta"),
                    format!("{e:?}: {} instead of {}", obs::value(v), obs::value(&w)),
                );
            }
            if v.count() != if e.ty == 2 { 1 } else { e.count as usize } {
                r.bad(format!("{key}:metacount"), format!("{e:?}: count {}", v.count()));
            }
        }
        None => {
            if !matches!(v, MV::Invalid(_)) {
                r.bad(format!("{key}:meta"), format!("{e:?}: {}", obs::value(v)));
            }
        }
    }
}

fn ifd_type(k: usize) -> IfdType {
    match k {
        0 => IfdType::Main,
        1 => IfdType::Exif,
        2 => IfdType::MakerNote,
        _ => IfdType::Raw,
    }
}

/// (sample, directory name in the builder, how it is reached)
const CARRIERS: &[(&str, &str, usize)] = &[
    ("dng", "main", 0),
    ("dng", "exif", 1),
    ("dng", "raw", 3),
    ("nef", "main", 0),
    ("nef", "exif", 1),
    ("nef", "mnote", 2),
    ("nef", "raw", 3),
    ("cr2", "main", 0),
    ("cr2", "exif", 1),
    ("cr2", "mnote", 2),
    ("cr2", "raw", 3),
    ("arw", "main", 0),
    ("arw", "exif", 1),
    ("arw", "mnote", 2),
    ("arw", "raw", 3),
    ("pef", "main", 0),
    ("pef", "exif", 1),
    ("pef", "mnote", 2),
    ("erf", "main", 0),
    ("erf", "exif", 1),
    ("erf", "mnote", 2),
    ("erf", "raw", 3),
    ("orf", "main", 0),
    ("orf", "exif", 1),
    ("orf", "mnote", 2),
    ("rw2", "main", 0),
    ("rw2", "exif", 1),
    ("rw2", "mnote", 2),
    ("mrw", "main", 0),
    ("mrw", "exif", 1),
    ("mrw", "mnote", 2),
    ("raf", "main", 0),
    ("raf", "exif", 1),
    ("raf", "mnote", 2),
    ("cr3", "main", 0),
    ("cr3", "exif", 1),
    ("cr3", "mnote", 2),
    ("jpeg", "main", 0),
    ("jpeg", "exif", 1),
    ("jpeg", "mnote", 2),
];

pub fn pattern(p: usize, n: usize) -> Vec<u8> {
    match p {
        0 => (0..n).map(|i| (i * 37 + 0x81) as u8).collect(),
        1 => vec![0xff; n],
        2 => {
            let mut r = noise(n as u64 + 5);
            (0..n).map(|_| r() as u8).collect()
        }
        3 => (0..n).map(|i| b'A' + (i % 26) as u8).collect(),
        _ => (0..n).map(|i| if i % 3 == 1 { 0 } else { 0x31 }).collect(),
    }
}

const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 14, 0xffff];
const COUNTS: [u32; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 63, 100, 1000];

pub fn unit(t: u16) -> usize {
    if t == 13 {
        1
    } else {
        type_size(t)
    }
}

/// Minimal DNG whose main (or Exif) directory has the given entries, with the
/// data of each at a chosen place: 0 after, 1 before, 2 odd offset, 3 end of file
fn place(be: bool, es: &[(E, usize)], exif: bool) -> Vec<u8> {
    let mut a = Asm::new(be);
    a.labels.insert("b".into(), 0);
    let b: &[u8] = if be { b"MM" } else { b"II" };
    a.bytes(b).u16(0x2a).ref32("d0", None);
    for (i, (e, p)) in es.iter().enumerate() {
        if *p == 1 {
            a.label(&format!("v{i}"));
            a.bytes(&e.data);
            a.align2();
        }
    }
    a.align2();
    a.label("d0");
    let put = |a: &mut Asm, es: &[(E, usize)]| {
        for (i, (e, _)) in es.iter().enumerate() {
            a.u16(e.tag).u16(e.ty).u32(e.count);
            if e.data.len() <= 4 {
                a.bytes(&e.data);
                // padding that must not be taken for data
                a.bytes(&b"PADD"[e.data.len()..]);
            } else {
                a.ref32(&format!("v{i}"), None);
            }
        }
    };
    let fixed = |a: &mut Asm| {
        a.u16(0xc612).u16(1).u32(4).bytes(&[1, 4, 0, 0]);
    };
    if exif {
        a.u16(2);
        a.u16(0x8769).u16(4).u32(1).ref32("ex", None);
        fixed(&mut a);
        a.u32(0);
        a.label("ex");
        a.u16(es.len() as u16);
        put(&mut a, es);
        a.u32(0);
    } else {
        a.u16(1 + es.len() as u16);
        fixed(&mut a);
        put(&mut a, es);
        a.u32(0);
    }
    for k in [0, 2, 3] {
        for (i, (e, p)) in es.iter().enumerate() {
            if *p == k {
                a.align2();
                if k == 2 {
                    a.bytes(&[0x55]);
                }
                a.label(&format!("v{i}"));
                a.bytes(&e.data);
                if k != 3 {
                    a.align2();
                }
            }
        }
    }
    a.finish().data
}

enum Order {
    /// as the file
    File,
    /// as the mark says
    Mark,
    Little,
}

struct Note {
    name: &'static str,
    id: &'static str,
    /// `@@` is replaced by the byte order mark
    header: &'static [u8],
    /// where offsets count from: None the TIFF header, else the maker note + n
    base: Option<usize>,
    order: Order,
    types: &'static [&'static str],
}

const ANY: &[&str] = &["dng", "jpg", "pef", "orf", "erf"];

fn notes() -> Vec<Note> {
    let n = |name, id, header, base, order, types| Note {
        name,
        id,
        header,
        base,
        order,
        types,
    };
    use Order::*;
    vec![
        n("canon", "Exif.Canon\0", b"", None, File, &["cr2"]),
        n("sony", "Exif.Sony5\0", b"", None, File, &["arw"]),
        n("sonydsc", "Exif.Sony5\0", b"SONY DSC \0\0\0", None, File, &["arw"]),
        n("nikon1", "Exif.Nikon2\0", b"Nikon\0\x01\0", Some(8), File, &["nef", "dng", "jpg"]),
        n(
            "nikon3",
            "Exif.Nikon\0",
            b"Nikon\0\x02\x10\0\0@@*",
            Some(10),
            Mark,
            &["nef", "dng", "jpg"],
        ),
        n("nikonhl", "Exif.NikonHeaderless\0", b"", None, File, &["nef"]),
        n("olympus2", "Exif.Olympus2\0", b"OLYMPUS\0@@\x03\0", Some(0), Mark, ANY),
        n("omsystem", "Exif.Olympus2\0", b"OM SYSTEM\0\0\0@@\x04\0", Some(0), Mark, ANY),
        n("olympus", "Exif.Olympus\0", b"OLYMP\0\x01\0", None, File, ANY),
        n("epson", "Exif.Epson\0", b"EPSON\0\x01\0", None, File, ANY),
        n("aoc", "Exif.Pentax\0", b"AOC\0\0\0", None, File, ANY),
        n("aoc2", "Exif.Pentax\0", b"AOC\0@@", None, Mark, ANY),
        n("aoc3", "Exif.Pentax\0", b"AOC\0  ", None, File, ANY),
        n("pentax", "Exif.Pentax\0", b"PENTAX \0@@", Some(0), Mark, ANY),
        n("panasonic", "Exif.Panasonic\0", b"Panasonic\0\0\0", None, File, ANY),
        n("ricoh", "Exif.Ricoh\0", b"Ricoh\0\0\0", None, File, ANY),
        n("leicaag", "Exif.Leica5\0", b"LEICA CAMERA AG\0\0\0", None, File, &["dng"]),
        n("leica2", "Exif.Leica2\0", b"LEICA\0\0\0", Some(0), File, ANY),
        n("leica5", "Exif.Leica5\0", b"LEICA\0\x01\0", Some(0), File, ANY),
        n("leica5t", "Exif.Leica5\0", b"LEICA\0\x06\0", Some(0), File, ANY),
        n("leica5q", "Exif.Leica5\0", b"LEICA\0\x09\0", None, File, ANY),
        n("leica6", "Exif.Leica6\0", b"LEICA\0\x02\xff", None, File, ANY),
        n("leica4", "Exif.Leica4\0", b"LEICA0\x03\0", Some(0), File, ANY),
        n("leica9", "Exif.Leica9\0", b"LEICA\0\x02\0", None, File, ANY),
        n("yi", "Exif.Xiaoyi\0", b"YI     \0\0\0\0\0", Some(0), File, ANY),
        n("apple", "Exif.Apple\0", b"Apple iOS\0\0\x01@@", Some(0), Mark, ANY),
        n("fuji", "Exif.Fujifilm\0", b"FUJIFILM\x0c\0\0\0", Some(0), Little, ANY),
        n("sigma", "Exif.Sigma\0", b"SIGMA\0\0\0\x01\0", None, File, ANY),
        n("minolta", "Exif.Minolta\0", b"", None, File, ANY),
        n("none", "\0", b"", None, File, ANY),
    ]
}

/// A file whose Exif directory has the maker note, with one entry in it
fn note_file(n: &Note, ext: &str, be: bool, own: bool, e: &E) -> Vec<u8> {
    let mut a = Asm::new(be);
    a.labels.insert("t".into(), 0);
    a.bytes(if be { b"MM" } else { b"II" }).u16(if ext == "orf" { 0x4f52 } else { 0x2a }).ref32("d0", None);
    // something in front, so that bases differ
    a.bytes(&[0x77; 34]);
    a.label("d0");
    let make: &[u8] = match ext {
        "nef" => b"NIKON CORPORATION\0",
        "arw" => b"SONY\0",
        "cr2" => b"Canon\0",
        "pef" => b"PENTAX Corporation \0",
        _ => b"Some Company\0",
    };
    a.u16(3);
    a.u16(0x10f).u16(2).u32(make.len() as u32).ref32("make", None);
    a.u16(0x8769).u16(4).u32(1).ref32("exif", None);
    a.u16(0xc612).u16(1).u32(4).bytes(&[1, 4, 0, 0]);
    a.u32(0);
    a.label("make").bytes(make).align2();
    a.label("exif").u16(1);
    a.u16(0x927c).u16(7).u32(400).ref32("mn", None);
    a.u32(0);
    a.bytes(&[0x66; 10]);
    a.label("mn");
    a.be = own;
    let h: Vec<u8> = n.header.to_vec();
    let at = h.windows(2).position(|w| w == b"@@");
    a.bytes(&h);
    if let Some(at) = at {
        let p = a.pos() - h.len() + at;
        a.buf[p..p + 2].copy_from_slice(if own { b"MM" } else { b"II" });
    }
    if n.name == "nikon3" {
        // the rest of the TIFF header: 42 (its 2nd byte), offset of the directory
        a.buf.pop();
        a.u16(42).u32(8);
    }
    if let Some(b) = n.base {
        let mn = a.labels["mn"];
        a.labels.insert("base".into(), mn + b);
    }
    let base = n.base.map(|_| "base");
    if n.name == "minolta" {
        a.u16(2);
        a.u16(0).u16(7).u32(4).bytes(b"MLT0");
    } else {
        a.u16(1);
    }
    a.u16(e.tag).u16(e.ty).u32(e.count);
    if e.data.len() <= 4 {
        a.bytes(&e.data).bytes(&b"PADD"[e.data.len()..]);
    } else {
        a.ref32("v", base);
    }
    a.u32(0);
    a.bytes(&[0x55; 6]);
    a.label("v").bytes(&e.data);
    // what a wrong base would give
    a.bytes(&[0x44; 700]);
    let d = a.finish().data;
    if ext == "jpg" {
        let mut app1 = b"Exif\0\0".to_vec();
        app1.extend(&d);
        corpus::jpeg(192, 128, 20, Some(&app1))
    } else {
        d
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C07", "model_checking", thorough);
    ctx.rule = "every (directory, entry): every typed read at every index, every array read, the string, and the metadata iterator's (type, count, value) equal the value a reference reader takes from the stored type, count and bytes".into();
    ctx.assumptions.push("UNDEFINED entries may be read as any type, from their counted bytes; strings end at the first NUL and are read as lossy UTF-8; the value of an unknown type is only required not to be read as a known one".into());
    let opts = Opts::default();

    // every carrier directory x byte order x type x count x pattern
    let nc = CARRIERS.len();
    let n = nc * 2 * TYPES.len() * COUNTS.len() * 3;
    let dec = |i: u64| {
        let mut m = Mix(i);
        (
            m.take(3),
            m.take(COUNTS.len()),
            m.take(TYPES.len()),
            m.take(2) == 1,
            m.take(nc),
        )
    };
    let name = |i: u64| {
        let (p, c, t, be, k) = dec(i);
        format!(
            "{}:{}:{}:type{}x{}:p{p}",
            CARRIERS[k].0,
            CARRIERS[k].1,
            if be { "be" } else { "le" },
            TYPES[t],
            COUNTS[c]
        )
    };
    par(
        &mut ctx,
        "directories x byte orders x types x counts x bit patterns",
        n as u64,
        64,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (p, c, t, be, k) = dec(i);
            let (s, dn, acc) = CARRIERS[k];
            let e = E {
                tag: 0xfdcd,
                ty: TYPES[t],
                count: COUNTS[c],
                data: pattern([0, 3, 4][p], COUNTS[c] as usize * unit(TYPES[t])),
            };
            let e2 = e.clone();
            let cfg = Cfg::new(be, 24, 18).tweak(move |n, d| {
                if n == dn {
                    let d = set(d, e2.tag, V::Raw(e2.ty, e2.count, e2.data.clone()));
                    set(d, 0xfdcc, V::S(vec![0x1234]))
                } else {
                    d
                }
            });
            let (ext, f) = corpus::build(s, &cfg);
            let key = name(i);
            let rf = match rawfile_from_memory(f.data, Some(hint(ext))) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            match rf.ifd(ifd_type(acc)) {
                None => r.bad(&key, "directory not found"),
                Some(d) => {
                    let be = format!("{:?}", d.endian()).contains("Big");
                    judge(&key, &rf, acc, &e, be, r);
                    if d.value::<u16>(0xfdcc) != Some(0x1234) {
                        r.bad(format!("{key}:neighbour"), "the entry before it changed");
                    }
                }
            }
        },
    );

    // maker notes: every known header, with its own byte order and offset base
    let notes = notes();
    let mut cases: Vec<(usize, &'static str)> = vec![];
    for (i, n) in notes.iter().enumerate() {
        for h in n.types {
            cases.push((i, *h));
        }
    }
    let mc = [0u32, 1, 2, 3, 4, 5, 8, 9, 33];
    let n = cases.len() * 2 * 2 * 12 * mc.len() * 2;
    let dec = |i: u64| {
        let mut m = Mix(i);
        (
            m.take(2),
            m.take(mc.len()),
            m.take(12) as u16 + 1,
            m.take(2) == 1,
            m.take(2) == 1,
            m.take(cases.len()),
        )
    };
    let name = |i: u64| {
        let (p, c, t, nbe, be, k) = dec(i);
        format!("mnote:{}:{}:{be}:{nbe}:type{t}x{}:p{p}", notes[cases[k].0].name, cases[k].1, mc[c])
    };
    par(
        &mut ctx,
        "maker note headers x file types x byte orders of file and maker note x types x counts",
        n as u64,
        64,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (p, c, t, nbe, be, k) = dec(i);
            let key = name(i);
            let (k, h) = cases[k];
            let note = &notes[k];
            let own = match note.order {
                Order::Mark => nbe,
                Order::File => be,
                Order::Little => false,
            };
            let e = E {
                tag: 0xfdcd,
                ty: t,
                count: mc[c],
                data: pattern([0, 3][p], mc[c] as usize * unit(t)),
            };
            let rf = match rawfile_from_memory(note_file(note, h, be, own, &e), Some(hint(h))) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            judge(&key, &rf, 2, &e, own, r);
            if let Some(d) = rf.ifd(IfdType::MakerNote) {
                if d.id() != note.id.as_bytes() {
                    r.bad(format!("{key}:id"), String::from_utf8_lossy(d.id()));
                }
                if format!("{:?}", d.endian()).contains("Big") != own {
                    r.bad(format!("{key}:order"), format!("{:?}", d.endian()));
                }
                if d.num_entries() != if note.name == "minolta" { 2 } else { 1 } {
                    r.bad(format!("{key}:n"), format!("{}", d.num_entries()));
                }
            }
        },
    );

    // pairs of entries, with placement of the data
    let small: Vec<(u16, u32)> = (1..=12u16)
        .flat_map(|t| [1u32, 2, 3, 5, 9].map(|c| (t, c)))
        .collect();
    let ns = small.len();
    let n = ns * ns * 4 * 4 * 2 * 2;
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.take(2) == 1, m.take(2) == 1, m.take(4), m.take(4), m.take(ns), m.take(ns))
    };
    par(
        &mut ctx,
        "pairs of (type, count) x placement of each one's data x byte order x {main, Exif}",
        n as u64,
        256,
        &opts,
        &|i| format!("pair:{:?}", dec(i)),
        &|i, r: &mut Rec| {
            let (be, exif, p, q, a, b) = dec(i);
            let mk = |tag: u16, (ty, count): (u16, u32), s: usize| E {
                tag,
                ty,
                count,
                data: pattern(s, count as usize * unit(ty)),
            };
            let (a, b) = (mk(0xc7f0, small[a], 2), mk(0xc7f1, small[b], 0));
            let key = format!("pair:{:?}", dec(i));
            let d = place(be, &[(a.clone(), p), (b.clone(), q)], exif);
            let rf = match rawfile_from_memory(d, None) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            match rf.ifd(ifd_type(exif as usize)) {
                None => r.bad(&key, "directory not found"),
                Some(d) => {
                    judge(&key, &rf, exif as usize, &a, be, r);
                    judge(&key, &rf, exif as usize, &b, be, r);
                    if d.num_entries() != if exif { 2 } else { 3 } {
                        r.bad(format!("{key}:n"), "number of entries");
                    }
                }
            }
            if !exif {
                judge_meta(&key, &rf, 1, &a, be, r);
                judge_meta(&key, &rf, 2, &b, be, r);
            }
        },
    );

    // every tag number, type and small count: the iterator's view
    let n = TYPES.len() * 10 * 5 * 2 * 4;
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.take(2) == 1, m.take(5), m.take(4), m.take(TYPES.len()), m.take(10) as u32)
    };
    par(
        &mut ctx,
        "types x counts 0..9 x bit patterns x placement x byte order, through the metadata iterator",
        n as u64,
        64,
        &opts,
        &|i| format!("iter:{:?}", dec(i)),
        &|i, r: &mut Rec| {
            let (be, p, pl, t, c) = dec(i);
            let e = E {
                tag: 0xc7f0,
                ty: TYPES[t],
                count: c,
                data: pattern(p, c as usize * unit(TYPES[t])),
            };
            let key = format!("iter:{:?}", dec(i));
            let rf = match rawfile_from_memory(place(be, &[(e.clone(), pl)], false), None) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            judge(&key, &rf, 0, &e, be, r);
            judge_meta(&key, &rf, 1, &e, be, r);
        },
    );

    // strings: every byte sequence up to a length
    let al = [b'A', 0u8, b' ', 0xc3, 0xa9, 0xff];
    let maxl = ctx.q(6, 8) as u32;
    let n: u64 = (0..=maxl).map(|l| 6u64.pow(l)).sum();
    let dec = |mut i: u64| {
        let mut l = 0u32;
        while i >= 6u64.pow(l) {
            i -= 6u64.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (0..l).map(|_| m.pick(&al)).collect::<Vec<u8>>()
    };
    par(
        &mut ctx,
        "ASCII and UNDEFINED entries: all byte sequences over {A, NUL, space, C3, A9, FF}",
        n * 2,
        256,
        &opts,
        &|i| format!("str{}:{:?}", i % 2, dec(i / 2)),
        &|i, r: &mut Rec| {
            let data = dec(i / 2);
            let e = E {
                tag: 0xc7f0,
                ty: if i % 2 == 0 { 2 } else { 7 },
                count: data.len() as u32,
                data,
            };
            let key = format!("str{}:{:?}", i % 2, e.data);
            let rf = match rawfile_from_memory(place(i % 3 == 0, &[(e.clone(), 0)], false), None) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            judge(&key, &rf, 0, &e, i % 3 == 0, r);
            judge_meta(&key, &rf, 1, &e, i % 3 == 0, r);
        },
    );

    // values that are not (all) in the file
    let lens: Vec<(u16, u32, i64)> = (1..=12u16)
        .flat_map(|t| {
            [5u32, 9, 100, 0x7fff_ffff, 0x8000_0000, 0x2000_0001, 0xffff_ffff]
                .iter()
                .flat_map(move |c| [-1000i64, -4, -1, 0, 1, 2, 4, 100, 1 << 20].map(|o| (t, *c, o)))
                .collect::<Vec<_>>()
        })
        .collect();
    par(
        &mut ctx,
        "values that end beyond the end of the file: types x counts x distance",
        lens.len() as u64 * 2,
        16,
        &opts,
        &|i| format!("past:{:?}:{}", lens[i as usize / 2], i % 2),
        &|i, r: &mut Rec| {
            let (t, c, o) = lens[i as usize / 2];
            let be = i % 2 == 1;
            let n = c as u64 * unit(t) as u64;
            let real = n.min(2000) as usize;
            let e = E {
                tag: 0xc7f0,
                ty: t,
                count: c,
                data: pattern(2, real),
            };
            let mut d = place(be, &[(E { data: pattern(2, real.max(5)), ..e.clone() }, 3)], false);
            // the offset of the value, moved
            let at = 8 + 2 + 12 + 8;
            let off = (d.len() - real.max(5)) as i64 + o;
            if off < 0 || n <= 4 {
                return;
            }
            let b = (off as u32).to_be_bytes();
            for k in 0..4 {
                d[at + k] = if be { b[k] } else { b[3 - k] };
            }
            let fits = off as u64 + n <= d.len() as u64;
            let key = format!("past:{:?}:{}", lens[i as usize / 2], i % 2);
            let want = d.get(off as usize..(off as u64 + n).min(d.len() as u64) as usize).map(|x| x.to_vec());
            let rf = match rawfile_from_memory(d, None) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            let dir = rf.main_ifd().unwrap();
            if fits {
                judge(&key, &rf, 0, &E { data: want.unwrap(), ..e }, be, r);
                return;
            }
            let any = dir.uint_value(e.tag).is_some()
                || dir.uint_value_array(e.tag).is_some()
                || dir.int_value_array(e.tag).is_some()
                || dir.float_value_array(e.tag).is_some()
                || dir.u16_value_array(e.tag).is_some()
                || dir.value::<u8>(e.tag).is_some()
                || dir.value::<i8>(e.tag).is_some()
                || dir.value::<u16>(e.tag).is_some()
                || dir.value::<u32>(e.tag).is_some()
                || dir.value::<i32>(e.tag).is_some()
                || dir.value::<f64>(e.tag).is_some()
                || dir.value::<Rational>(e.tag).is_some()
                || dir.value::<String>(e.tag).is_some()
                || dir.value::<Vec<u8>>(e.tag).is_some()
                || dir.entry(e.tag).and_then(|x| x.string_value()).is_some();
            if any {
                r.bad(&key, format!("{e:?}: a value that is not in the file is read"));
            }
            let m: Vec<_> = rf.metadata().unwrap().collect();
            match m.get(1) {
                Some((_, MV::Invalid(v), _)) if v.is_empty() => {}
                None => {}
                Some((_, v, _)) => r.bad(format!("{key}:meta"), format!("{}", obs::value(v))),
            }
            r.trace(16, key.as_bytes());
        },
    );
    ctx.finish()
}
