//! C28: the dump of a file shows what the file stores.
use super::c07::{meta_value, pattern, unit, E};
use super::c08::wrap;
use super::c25;
use super::robust::hint;
use crate::asm::{Asm, Dir, V};
use crate::corpus::{self as co, be32, c16, Cfg, Ci};
use crate::names;
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::metadata::Value as MV;
use libopenraw::{rawfile_from_memory, RawFileHandle};
use std::collections::HashMap;
use std::rc::Rc;

/// A line of an entry.
#[derive(Clone, Debug, PartialEq)]
struct L {
    tag: u16,
    name: String,
    ty: String,
    count: u32,
    value: String,
}
/// A directory of the dump.
#[derive(Clone, Debug, PartialEq)]
struct B {
    depth: usize,
    ty: String,
    n: usize,
    next: u32,
    lines: Vec<L>,
}

fn dump(data: &[u8], ext: &str) -> Result<(RawFileHandle, String), String> {
    let f = rawfile_from_memory(data.to_vec(), Some(hint(ext))).map_err(|e| format!("{e:?}"))?;
    let s = text(&f);
    Ok((f, s))
}
fn text(f: &RawFileHandle) -> String {
    let mut v: Vec<u8> = vec![];
    f.dump_file(&mut v);
    String::from_utf8_lossy(&v).into_owned()
}

fn entry(l: &str) -> Option<L> {
    let l = l.trim_start().strip_prefix("<0x")?;
    let (hex, l) = l.split_once('=')?;
    let (dec, l) = l.split_once('>')?;
    let (name, l) = l.split_once('[')?;
    let (ty, l) = l.split_once('=')?;
    let (tyname, l) = l.split_once(' ')?;
    let (count, l) = l.split_once(']')?;
    let (_, value) = l.split_once("= ")?;
    let tag = u16::from_str_radix(hex.trim(), 16).ok()?;
    if dec.trim().parse::<u16>().ok()? != tag {
        return None;
    }
    Some(L {
        tag,
        name: name.trim().into(),
        ty: format!("{}={}", ty.trim(), tyname.trim()),
        count: count.trim().parse().ok()?,
        value: value.to_string(),
    })
}

/// The directories shown, with their depth relative to what holds them
fn blocks(s: &str) -> Result<Vec<B>, String> {
    let mut o: Vec<B> = vec![];
    let mut open = None;
    for l in s.lines() {
        let depth = (l.len() - l.trim_start().len()) / 2;
        let t = l.trim_start();
        if let Some(h) = t.strip_prefix("<IFD ") {
            if open.is_some() {
                return Err("a directory within another".into());
            }
            let get = |k: &str| {
                let (_, r) = h.split_once(k)?;
                Some(r.split([' ', '>']).next()?.trim_matches('"').to_string())
            };
            let n = h.split(" entries").next().and_then(|x| x.split(' ').next_back()).and_then(|x| x.parse().ok());
            o.push(B {
                depth,
                ty: get("type=").unwrap_or_default(),
                n: n.ok_or_else(|| format!("no count: {l}"))?,
                next: get("next=@").and_then(|x| x.parse().ok()).ok_or_else(|| format!("no next: {l}"))?,
                lines: vec![],
            });
            open = Some(depth);
        } else if t == "</IFD>" {
            if open != Some(depth) {
                return Err("an end that doesn't match".into());
            }
            open = None;
        } else if let Some(d) = open {
            if d + 1 != depth {
                return Err(format!("depth of {l}"));
            }
            o.last_mut().unwrap().lines.push(entry(t).ok_or_else(|| format!("not an entry: {l}"))?);
        }
    }
    if open.is_some() {
        return Err("a directory that doesn't end".into());
    }
    Ok(o)
}

fn arr<T: ToString>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    match s.len() {
        1 => s[0].clone(),
        n if n > 6 => format!("[ {}, ... ]", s[..6].join(", ")),
        _ => format!("[ {} ]", s.join(", ")),
    }
}
fn value(e: &E, be: bool) -> Option<String> {
    Some(match meta_value(e, be)? {
        MV::Int(v) => arr(&v),
        MV::SInt(v) => arr(&v),
        MV::String(s) => format!("\"{}\"", String::from_utf8_lossy(&s[..s.len() - 1])),
        MV::Float(v) => arr(&v),
        MV::Double(v) => arr(&v),
        MV::Rational(v) => arr(&v.iter().map(|r| format!("{}/{}", r.num, r.denom)).collect::<Vec<_>>()),
        MV::SRational(v) => arr(&v.iter().map(|r| format!("{}/{}", r.num, r.denom)).collect::<Vec<_>>()),
        MV::Bytes(v) => arr(&v),
        MV::SBytes(v) => arr(&v),
        MV::Invalid(_) => return None,
    })
}
fn ty(t: u16) -> String {
    let n = match t {
        1 => "BYTE",
        2 => "ASCII",
        3 => "SHORT",
        4 => "LONG",
        5 => "RATIONAL",
        6 => "SBYTE",
        7 => "UNDEFINED",
        8 => "SSHORT",
        9 => "SLONG",
        10 => "SRATIONAL",
        11 => "FLOAT",
        12 => "DOUBLE",
        13 => "INVALID",
        _ => "ERROR",
    };
    format!("{}={n}", t as i16)
}

/// A directory to be written, and what it refers to.
#[derive(Clone, Default)]
struct T {
    es: Vec<E>,
    exif: Option<Box<T>>,
    note: Option<Box<T>>,
    gps: Option<Box<T>>,
    subs: Vec<T>,
    next: Option<Box<T>>,
}
/// something shown in place of a value that depends on the layout
const ANYVAL: &str = "?";

struct Names {
    exif: HashMap<u16, &'static str>,
    gps: HashMap<u16, &'static str>,
    rw2: HashMap<u16, &'static str>,
}
impl Names {
    fn new() -> Names {
        Names {
            exif: names::EXIF.iter().copied().collect(),
            gps: names::GPSINFO.iter().copied().collect(),
            rw2: names::RAW_PANASONIC.iter().copied().collect(),
        }
    }
}

impl T {
    fn dir(&self, id: &mut usize) -> Dir {
        let mut d = Dir::new().labelled(&format!("t{id}"));
        *id += 1;
        for e in &self.es {
            d = d.e(e.tag, V::Raw(e.ty, e.count, e.data.clone()));
        }
        if let Some(x) = &self.exif {
            d = d.e(0x8769, V::Sub(vec![x.dir(id)]));
        }
        if let Some(x) = &self.note {
            let n = x.dir(id);
            d = d.e(
                0x927c,
                V::Custom(
                    7,
                    Rc::new(move |a: &mut Asm| {
                        a.dir(&n, "tiff#1");
                        a.zeros(24);
                    }),
                ),
            );
        }
        if let Some(x) = &self.gps {
            d = d.e(0x8825, V::Sub(vec![x.dir(id)]));
        }
        if !self.subs.is_empty() {
            let s = self.subs.iter().map(|x| x.dir(id)).collect();
            d = d.e(0x14a, V::Sub(s));
        }
        if let Some(n) = &self.next {
            d = d.next(n.dir(id));
        }
        d
    }
    /// the lines of the directory, those of the pointers included
    fn lines(&self, be: bool, n: &HashMap<u16, &'static str>) -> Vec<L> {
        let mut o: Vec<L> = self
            .es
            .iter()
            .map(|e| L {
                tag: e.tag,
                name: String::new(),
                ty: ty(e.ty),
                count: e.count,
                value: value(e, be).unwrap_or(ANYVAL.into()),
            })
            .collect();
        let mut ptr = |tag, t: u16, count| {
            o.push(L {
                tag,
                name: String::new(),
                ty: ty(t),
                count,
                value: ANYVAL.into(),
            })
        };
        if self.exif.is_some() {
            ptr(0x8769, 4, 1);
        }
        if self.note.is_some() {
            ptr(0x927c, 7, 0);
        }
        if self.gps.is_some() {
            ptr(0x8825, 4, 1);
        }
        if !self.subs.is_empty() {
            ptr(0x14a, 4, self.subs.len() as u32);
        }
        o.sort_by_key(|l| l.tag);
        for l in &mut o {
            l.name = n.get(&l.tag).copied().unwrap_or("").into();
        }
        o
    }
    /// the number of directories below, itself included
    fn size(&self) -> usize {
        let o = |x: &Option<Box<T>>| x.as_ref().map_or(0, |x| x.size());
        1 + o(&self.exif) + o(&self.note) + o(&self.gps) + o(&self.next) + self.subs.iter().map(|x| x.size()).sum::<usize>()
    }
    /// what the dump is to show, in order; `id` as in dir()
    #[allow(clippy::too_many_arguments)]
    fn want(&self, c: &Chain, depth: usize, kind: &str, nth: usize, at: &HashMap<String, usize>, id: &mut usize, o: &mut Vec<B>) {
        *id += 1;
        let names = match kind {
            "MakerNote" => &c.none,
            "GpsInfo" => &c.names.gps,
            "Main" if nth == 0 && c.rw2 => &c.names.rw2,
            _ => &c.names.exif,
        };
        let after: usize = self.size() - self.next.as_ref().map_or(0, |n| n.size()) - 1;
        let lines = self.lines(c.be, names);
        o.push(B {
            depth,
            ty: kind.into(),
            n: lines.len(),
            next: if self.next.is_some() {
                at.get(&format!("t{}", *id + after)).copied().unwrap_or(0) as u32
            } else {
                0
            },
            lines,
        });
        if let Some(x) = &self.exif {
            let shown = nth != usize::MAX;
            let mut skip = vec![];
            x.want(c, depth + 1, "Exif", if shown { nth } else { usize::MAX }, at, id, if shown { o } else { &mut skip });
        }
        if let Some(x) = &self.note {
            let mut skip = vec![];
            x.want(c, depth + 1, "MakerNote", usize::MAX, at, id, if kind == "Exif" { o } else { &mut skip });
        }
        if let Some(x) = &self.gps {
            let mut skip = vec![];
            let shown = nth != usize::MAX && kind != "Exif";
            x.want(c, depth + 1, "GpsInfo", usize::MAX, at, id, if shown { o } else { &mut skip });
        }
        for x in &self.subs {
            let mut skip = vec![];
            let shown = nth != usize::MAX && kind != "Exif";
            x.want(c, depth + 1, "SubIfd", usize::MAX, at, id, if shown { o } else { &mut skip });
        }
        if let Some(x) = &self.next {
            if nth == usize::MAX || kind == "Exif" {
                // the chain of a directory below is not read
                *id += x.size();
            } else {
                let n = nth + 1;
                x.want(c, depth, c.chain.get(n).copied().unwrap_or("Other"), n, at, id, o);
            }
        }
    }
}

struct Chain {
    names: Names,
    none: HashMap<u16, &'static str>,
    chain: Vec<&'static str>,
    be: bool,
    rw2: bool,
}

/// (file type, types of the directories of the chain, beyond: Other)
const KINDS: &[(&str, &[&str])] = &[
    ("dng", &["Main"]),
    ("erf", &["Main"]),
    ("orf", &["Main"]),
    ("pef", &["Main"]),
    ("rw2", &["Main"]),
    ("jpg", &["Main"]),
    ("raf", &["Main"]),
    ("mrw", &["Main"]),
    ("cr2", &["Main", "Other", "Other", "Raw"]),
];

/// the file, and where its directories are in the TIFF part
fn file(kind: &str, be: bool, t: &T) -> (Vec<u8>, HashMap<String, usize>) {
    let d = t.dir(&mut 0);
    let mut a = Asm::new(be);
    a.tiff(0x2a, &d);
    let f = a.finish();
    let at = f.labels.iter().map(|(k, v)| (k.clone(), *v)).collect();
    (wrap_plain(kind, be, &d, f.data), at)
}
/// the wrapped kinds have the TIFF as it is; others differ in the magic number
fn wrap_plain(kind: &str, be: bool, d: &Dir, t: Vec<u8>) -> Vec<u8> {
    let m: u16 = match kind {
        "orf" => 0x4f52,
        "rw2" => 0x55,
        "jpg" | "raf" | "mrw" => return wrap(kind, be, d),
        _ => 0x2a,
    };
    let mut t = t;
    t[2..4].copy_from_slice(&c16(&[m], be));
    t
}

fn diff(key: &str, c: &Chain, got: &[B], want: &[B], r: &mut Rec) {
    let order = |b: &[B]| b.iter().map(|b| format!("{}@{}", b.ty, b.depth)).collect::<Vec<_>>().join(" ");
    // depths count from the first
    let base = got.first().map_or(0, |b| b.depth);
    let got: Vec<B> = got.iter().map(|b| B { depth: b.depth.saturating_sub(base), ..b.clone() }).collect();
    if order(&got) != order(want) {
        return r.bad(format!("{key}:order"), format!("{} instead of {}", order(&got), order(want)));
    }
    for (g, w) in got.iter().zip(want) {
        if (g.n, g.next) != (w.n, w.next) {
            r.bad(
                format!("{key}:head"),
                format!("{}: {} entries next {} instead of {} and {}", g.ty, g.n, g.next, w.n, w.next),
            );
        }
        if g.lines.len() != w.lines.len() {
            r.bad(format!("{key}:lines"), format!("{}: {} lines instead of {}", g.ty, g.lines.len(), w.lines.len()));
        }
        for (a, b) in g.lines.iter().zip(&w.lines) {
            let mut a = a.clone();
            if b.value == ANYVAL {
                a.value = ANYVAL.into();
            }
            if c.chain.len() > 1 && w.ty == "MakerNote" {
                // the names of the maker, which are not published
                a.name.clear();
            }
            if b.tag == 0x927c && b.count == 0 {
                a.count = 0;
            }
            if a != *b {
                r.bad(format!("{key}:entry"), format!("{}: {a:?} instead of {b:?}", g.ty));
            }
        }
        r.transitions += g.lines.len() as u64;
    }
}

fn judge(key: &str, kind: usize, be: bool, t: &T, r: &mut Rec) {
    let (ext, chain) = KINDS[kind];
    let be = super::c08::byteorder(ext, be);
    let (data, at) = file(ext, be, t);
    let (f, s) = match dump(&data, ext) {
        Ok(x) => x,
        Err(e) => return r.bad(key, e),
    };
    let c = Chain {
        names: Names::new(),
        none: HashMap::new(),
        chain: chain.to_vec(),
        be,
        rw2: ext == "rw2",
    };
    let mut want = vec![];
    t.want(&c, 0, "Main", 0, &at, &mut 0, &mut want);
    match blocks(&s) {
        Ok(got) => diff(key, &c, &got, &want, r),
        Err(e) => r.bad(format!("{key}:text"), e),
    }
    if text(&f) != s {
        r.bad(format!("{key}:again"), "the second dump is another");
    }
    r.trace(1, s.as_bytes());
}

const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 14, 0xffff];
const COUNTS: [u32; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 41];

fn ent(tag: u16, ty: u16, count: u32, p: usize) -> E {
    E {
        tag,
        ty,
        count,
        data: pattern(p, count as usize * unit(ty)),
    }
}

/// each kind of value in each kind of directory
fn values(i: u64, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let ty = m.pick(&TYPES);
    let count = m.pick(&COUNTS);
    let p = m.take(5);
    let be = m.take(2) == 1;
    let tag = m.pick(&[0x001du16, 0x9004, 0xfff0]);
    let place = m.take(6);
    let kind = m.take(KINDS.len());
    let e = ent(tag, ty, count, p);
    if ty == 2 && e.data.contains(&b'\n') {
        // would end the line
        return;
    }
    let here = |k| if k == place { vec![e.clone()] } else { vec![] };
    let b = |es| Some(Box::new(T { es, ..T::default() }));
    let t = T {
        es: here(0),
        exif: Some(Box::new(T {
            es: here(1),
            note: b(here(2)),
            ..T::default()
        })),
        gps: b(here(3)),
        subs: vec![T { es: here(4), ..T::default() }],
        next: b(here(5)),
        ..T::default()
    };
    judge(key, kind, be, &t, r);
}

/// what a directory refers to
fn shape(k: usize, salt: u16) -> T {
    let leaf = |s: u16| T {
        es: vec![ent(0x9004 + s, 3, 1 + s as u32 % 3, 0), ent(2 + salt, 7, 5, 3)],
        ..T::default()
    };
    let b = |s| Some(Box::new(leaf(s)));
    let mut t = leaf(salt);
    if k & 1 != 0 {
        t.exif = b(1);
    }
    if k & 2 != 0 {
        t.gps = b(2);
    }
    match k >> 2 {
        1 => t.subs = vec![leaf(3)],
        2 => t.subs = vec![leaf(3), leaf(4)],
        3 => t.subs = vec![leaf(5), leaf(6), leaf(7)],
        // directories below have some of their own
        4 => {
            let mut s = leaf(3);
            s.exif = b(8);
            s.next = b(9);
            t.subs = vec![s, leaf(4)];
        }
        5 if t.exif.is_some() => t.exif.as_mut().unwrap().note = b(6),
        6 if t.exif.is_some() => {
            t.exif.as_mut().unwrap().note = b(6);
            t.subs = vec![leaf(3)];
        }
        7 => t.es.clear(),
        _ => (),
    }
    t
}
const SHAPES: usize = 32;
fn shapes(i: u64, n: usize, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let kind = m.take(KINDS.len());
    let be = m.take(2) == 1;
    let mut t: Option<T> = None;
    for k in 0..n {
        let mut s = shape(m.take(SHAPES), k as u16);
        s.next = t.map(Box::new);
        t = Some(s);
    }
    judge(key, kind, be, &t.unwrap(), r);
}

/// every published name
fn all_names(i: u64, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let kind = m.take(KINDS.len());
    let be = m.take(2) == 1;
    let part = m.take(16) as u16;
    let special = [0x8769u16, 0x8825, 0x14a, 0x927c];
    let es = |t: &[(u16, &str)]| -> Vec<E> {
        let mut v: Vec<u16> = t.iter().map(|x| x.0).collect();
        v.sort();
        v.dedup();
        v.into_iter()
            .filter(|x| x % 16 == part && !special.contains(x))
            .map(|x| ent(x, 1, 1 + (x % 4) as u32, 0))
            .collect()
    };
    let t = T {
        es: if KINDS[kind].0 == "rw2" { es(names::RAW_PANASONIC) } else { es(names::EXIF) },
        exif: Some(Box::new(T { es: es(names::EXIF), ..T::default() })),
        gps: Some(Box::new(T { es: es(names::GPSINFO), ..T::default() })),
        ..T::default()
    };
    judge(key, kind, be, &t, r);
}

// --- CIFF
const CIFF: &[(u16, &str)] = &[
    (0x0001, "FreeBytes"),
    (0x0032, "ColourInfo1"),
    (0x0805, "FileDescription"),
    (0x080a, "RawMakeModel"),
    (0x080b, "FirmwareVersion"),
    (0x0810, "OwnerName"),
    (0x0817, "ThumbnailFileName"),
    (0x100a, "TargetImageType"),
    (0x101c, "BaseISO"),
    (0x1029, "FocalLength"),
    (0x102a, "ShotInfo"),
    (0x102d, "CameraSettings"),
    (0x1031, "SensorInfo"),
    (0x10a9, "WhiteBalanceTable"),
    (0x10b5, "RawJpgInfo"),
    (0x1803, "ImageSpace"),
    (0x180b, "SerialNumber"),
    (0x180e, "CapturedTime"),
    (0x1810, "ImageInfo"),
    (0x1818, "ExposureInfo"),
    (0x1834, "CanonModelID"),
    (0x1835, "DecoderTable"),
    (0x2005, "RawImageData"),
    (0x2007, "JpegImage"),
    (0x2008, "JpegThumbnail"),
    (0x10c2, "Unknown10c2"),
    (0x1819, "Unknown1819"),
];
const HEAPS: &[(u16, &str)] = &[
    (0x2804, "ImageDescription"),
    (0x2807, "CameraObject"),
    (0x3002, "ShootingRecord"),
    (0x3004, "CameraSpecification"),
    (0x300a, "ImageProps"),
    (0x300b, "ExifInformation"),
];

/// what is shown of the values
fn ciff_values(tag: u16, b: &[u8], be: bool) -> Option<Vec<String>> {
    let n = |w: usize| -> Vec<u32> {
        b.chunks_exact(w)
            .map(|c| c.iter().enumerate().map(|(i, x)| (*x as u32) << (8 * if be { w - 1 - i } else { i })).sum())
            .collect()
    };
    match tag & 0x3800 {
        0x0800 => Some(
            b.split(|c| *c == 0)
                .filter(|s| !s.is_empty())
                .map(|s| format!("'{}'", String::from_utf8_lossy(s)))
                .collect(),
        ),
        0x1000 => Some(vec![format!("{:?}", n(2))]),
        0x1800 => Some(vec![format!("{:?}", n(4))]),
        _ => None,
    }
}
fn name_of(t: u16) -> &'static str {
    CIFF.iter().chain(HEAPS).find(|x| x.0 == t).unwrap().1
}
struct Lines<'a> {
    l: std::iter::Peekable<std::str::Lines<'a>>,
}
impl<'a> Lines<'a> {
    fn take(&mut self) -> (usize, &'a str) {
        let l = self.l.next().unwrap_or("");
        ((l.len() - l.trim_start().len()) / 2, l.trim_start())
    }
}
/// compare the heap shown with the one written
fn ciff_heap(l: &mut Lines, recs: &[Ci], be: bool, depth: usize, span: (usize, usize), data: &[u8]) -> Result<(), String> {
    let need = |ok: bool, what: &str, got: (usize, &str)| if ok { Ok(()) } else { Err(format!("{what}: {got:?}")) };
    let (d, t) = l.take();
    need(d == depth && t == format!("<HEAP pos={} len={}>", span.0, span.1), &format!("heap at {span:?} depth {depth}"), (d, t))?;
    let (d, t) = l.take();
    need(d == depth + 1 && t == format!("Num records: {}", recs.len()), &format!("{} records", recs.len()), (d, t))?;
    let key = |c: &Ci| match c {
        Ci::H(t, _) | Ci::I(t, _) | Ci::S(t, _) => *t,
    };
    let mut sorted: Vec<&Ci> = recs.iter().collect();
    sorted.sort_by_key(|c| key(c));
    for c in sorted {
        let tag = key(c);
        let ty = match tag & 0x3800 {
            0 => "Byte",
            0x800 => "Ascii",
            0x1000 => "Word",
            0x1800 => "DWord",
            0x2000 => "Byte2",
            0x2800 => "Heap1",
            _ => "Heap2",
        };
        let head = format!("<Record '{}' = 0x{tag:x}, type: {ty}>", name_of(tag));
        let (d, t) = l.take();
        need(d == depth + 1 && t == head, &head, (d, t))?;
        let (d, t) = l.take();
        let bytes = match c {
            Ci::I(_, b) => {
                need(d == depth + 2 && t == "In record", "In record", (d, t))?;
                b.to_vec()
            }
            _ => {
                let mut n = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse::<usize>().ok());
                let at = n.next().zip(n.next());
                need(d == depth + 2 && t.starts_with("In heap at ") && at.is_some(), "In heap at", (d, t))?;
                let at = at.unwrap();
                let b = data.get(at.0..at.0 + at.1).ok_or(format!("no such place {t}"))?;
                if let Ci::H(_, w) = c {
                    need(b == w, &format!("the data of {tag:x} isn't there"), (d, t))?;
                }
                if let Ci::S(_, s) = c {
                    ciff_heap(l, s, be, depth + 2, at, data)?;
                }
                b.to_vec()
            }
        };
        if !matches!(c, Ci::S(..)) {
            if let Some(v) = ciff_values(tag, &bytes, be) {
                for v in v {
                    let (d, t) = l.take();
                    need(d == depth + 2 && t == v, &format!("{tag:x} {v}"), (d, t))?;
                }
            } else if let Ci::H(..) = c {
                let (d, t) = l.take();
                need(d == depth + 2 && t == format!("Count: {}", bytes.len()), &format!("{tag:x} count"), (d, t))?;
            }
        }
        let (d, t) = l.take();
        need(d == depth + 1 && t == "</Record>", &format!("end of {tag:x}"), (d, t))?;
    }
    let (d, t) = l.take();
    need(d == depth && t.starts_with("</HEAP"), "end of the heap", (d, t))
}
fn ciff(i: u64, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let lay = c25::Lay {
        data: m.take(3),
        table: m.take(3),
        gap: m.pick(&[0, 3]),
    };
    let header = m.pick(&[26usize, 32]);
    let nest = m.take(6);
    let (tag, _) = CIFF[m.take(CIFF.len())];
    let size = m.pick(&[0usize, 1, 2, 3, 4, 6, 8, 9, 16, 20, 96, usize::MAX]);
    let rec = |t: u16, size: usize, p: usize| {
        let text = t & 0x3800 == 0x800;
        if size == usize::MAX {
            let b = if text { pattern(p, 8) } else { pattern(0, 8) };
            Ci::I(t, b.try_into().unwrap())
        } else {
            Ci::H(t, pattern(if text { p } else { 0 }, size))
        }
    };
    let others: Vec<Ci> = [0x0805u16, 0x1028, 0x1806, 0x2008]
        .iter()
        .filter(|t| **t != tag && CIFF.iter().any(|x| x.0 == **t))
        .map(|t| rec(*t, 12, 4))
        .collect();
    let mut recs = vec![rec(tag, size, 3 + (i % 2) as usize)];
    recs.extend(others);
    for k in 0..nest.min(4) {
        let mut up = vec![Ci::S(HEAPS[(k + nest) % HEAPS.len()].0, recs)];
        up.push(rec(0x1803, 8, 0));
        if k % 2 == 0 {
            up.reverse();
        }
        recs = up;
    }
    if nest == 5 {
        recs.push(Ci::S(0x2804, vec![]));
    }
    let data = c25::crw_file(&recs, be, lay, header);
    let (f, s) = match dump(&data, "crw") {
        Ok(x) => x,
        Err(e) => return r.bad(key, e),
    };
    let mut l = Lines { l: s.lines().peekable() };
    let mut depth = None;
    while let Some(t) = l.l.peek() {
        if t.trim_start().starts_with("<HEAP") {
            depth = Some((t.len() - t.trim_start().len()) / 2);
            break;
        }
        l.take();
    }
    match depth {
        None => r.bad(key, "no heap".to_string()),
        Some(d) => {
            if let Err(e) = ciff_heap(&mut l, &recs, be, d, (header, data.len() - header), &data) {
                r.bad(key, e);
            }
        }
    }
    for w in [
        format!("Endian: {}", if be { "Big" } else { "Little" }),
        format!("Len: {header}"),
        "Type: \"HEAP\"".into(),
        "Subtype: \"CCDR\"".into(),
    ] {
        if !s.lines().any(|l| l.trim() == w) {
            r.bad(format!("{key}:header"), format!("{w} isn't there"));
        }
    }
    if text(&f) != s {
        r.bad(format!("{key}:again"), "the second dump is another");
    }
    r.trace(1, s.as_bytes());
}

/// `name = value`, spaces apart
fn field<'a>(s: &'a str, name: &str) -> Vec<&'a str> {
    s.lines()
        .filter_map(|l| l.trim().split_once('='))
        .filter(|(n, _)| n.trim() == name)
        .map(|(_, v)| v.trim())
        .collect()
}
fn expect(key: &str, s: &str, name: &str, v: Option<String>, r: &mut Rec) {
    let got = field(s, name);
    let want: Vec<&str> = v.iter().map(|v| v.as_str()).collect();
    if got != want {
        r.bad(format!("{key}:{name}"), format!("{got:?} instead of {want:?}"));
    }
}

// --- MRW
fn mrw(i: u64, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let fields = [
        ("SensorLength@8", 8, 2),
        ("SensorWidth@10", 10, 2),
        ("ImageLength@12", 12, 2),
        ("ImageWidth@14", 14, 2),
        ("DataSize@16", 16, 1),
        ("PixelSize@17", 17, 1),
        ("StorageType@18", 18, 1),
        ("BayerPattern@22", 22, 2),
    ];
    let which = m.take(fields.len());
    let v = m.pick(&[0u16, 1, 0x59, 0x80, 0xff, 0x100, 0x1234, 0x8000, 0xffff]);
    let skip = m.take(6);
    let order = m.take(6);
    let (mut p, raw) = c25::mrw_base(true);
    let (_, at, w) = fields[which];
    if w == 1 {
        p[0].1[at] = v as u8;
    } else {
        p[0].1[at..at + 2].copy_from_slice(&c16(&[v], true));
    }
    p.retain(|b| b.0 != b"PAD");
    if order % 2 == 1 {
        p.push((b"PAD".to_vec(), vec![0; 9]));
    }
    let prd = p[0].1.clone();
    p.rotate_left(order % 5 % 4);
    let gone = [None, Some(b"PRD"), Some(b"TTW"), Some(b"WBG"), Some(b"RIF"), None][skip];
    p.retain(|b| gone.map_or(true, |g| b.0 != g));
    let data = c25::mrw_file(&p, &raw);
    let (_, s) = match dump(&data, "mrw") {
        Ok(x) => x,
        Err(e) => return r.bad(key, e),
    };
    let has = p.iter().any(|b| b.0 == b"PRD");
    for (name, at, w) in fields {
        let v = prd[at..at + w].iter().fold(0u32, |a, b| a << 8 | *b as u32);
        expect(key, &s, name, has.then(|| v.to_string()), r);
    }
    let mut pos = 8;
    for (n, b) in &p {
        let n = String::from_utf8_lossy(n);
        let w = format!("<{n} @{pos}, len={}", b.len());
        let c = s.lines().filter(|l| l.trim().starts_with(&format!("<{n} @"))).count();
        if c != 1 || !s.lines().any(|l| l.trim().trim_end_matches("/>").trim_end_matches('>').trim() == w) {
            r.bad(format!("{key}:block"), format!("{w} isn't there once"));
        }
        pos += 8 + b.len();
    }
    for n in ["PRD", "TTW", "WBG", "RIF", "PAD"] {
        let shown = s.lines().any(|l| l.trim().starts_with(&format!("<{n} @")));
        if shown != p.iter().any(|b| b.0 == n.as_bytes()) {
            r.bad(format!("{key}:block"), format!("{n} shown: {shown}"));
        }
    }
    r.trace(1, s.as_bytes());
}

// --- RAF
fn raf(i: u64, r: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let which = m.take(12);
    let v = m.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x10000, 0x12345678, 0x80000000, 0xffffffff]);
    let start = m.pick(&[148usize, 160, 401]);
    let extra = m.take(2) == 1;
    let order = m.pick(&[[0usize, 1, 2], [2, 1, 0], [1, 0, 2]]);
    let mut p = c25::raf_parts();
    let names: [(u16, &str); 12] = [
        (0x100, "SensorDimension"),
        (0x110, "ImageTopLeft"),
        (0x111, "ImageHeightWidth"),
        (0x115, "ImageAspectRatio"),
        (0x117, "Cropped"),
        (0x118, "CropTopLeft"),
        (0x119, "CropHeightWidth"),
        (0x121, "OutputHeightWidth"),
        (0x130, "RawInfo"),
        (0x131, "CfaPattern"),
        (0x9650, "ExposureBias"),
        (0x9999, ""),
    ];
    let tag = names[which].0;
    p.meta.retain(|x| x.0 != tag);
    p.meta.push((tag, be32(v)));
    let f = c25::raf_file(&p, &order, start, 3, extra);
    let (h, s) = match dump(&f, "raf") {
        Ok(x) => x,
        Err(e) => return r.bad(key, e),
    };
    for (name, at) in [
        ("JPEG Offset", 84),
        ("JPEG Len", 88),
        ("Meta Offset", 92),
        ("Meta Len", 96),
        ("CFA Offset", 100),
        ("CFA Len", 104),
        ("Extra Offset", 120),
        ("Extra Len", 124),
        ("Extra CFA Offset", 128),
        ("Extra CFA Len", 132),
    ] {
        let v = u32::from_be_bytes(f[at..at + 4].try_into().unwrap());
        expect(key, &s, name, Some(v.to_string()), r);
    }
    // the tables: each tag once
    let mut tables: Vec<Vec<(u16, String, String)>> = vec![];
    let mut open = false;
    for l in s.lines() {
        let t = l.trim();
        if t.starts_with("<RAF Meta Container") {
            tables.push(vec![]);
            open = true;
        } else if t.starts_with("</RAF Meta Container") {
            open = false;
        } else if open {
            let x = t.strip_prefix("<0x").and_then(|t| {
                let (h, t) = t.split_once('=')?;
                let (d, t) = t.split_once('>')?;
                let (n, v) = t.split_once('=')?;
                let h = u16::from_str_radix(h, 16).ok()?;
                (d.parse::<u16>().ok()? == h).then(|| (h, n.trim().to_string(), v.trim().to_string()))
            });
            match x {
                Some(x) => tables.last_mut().unwrap().push(x),
                None => r.bad(format!("{key}:line"), t.to_string()),
            }
        }
    }
    match tables.first() {
        None => r.bad(format!("{key}:meta"), "no table".to_string()),
        Some(t) => {
            let mut want: Vec<u16> = p.meta.iter().map(|x| x.0).collect();
            want.sort();
            let got: Vec<u16> = t.iter().map(|x| x.0).collect();
            if got != want {
                r.bad(format!("{key}:meta"), format!("{got:x?} instead of {want:x?}"));
            }
            for (tag, name, val) in t {
                if let Some((_, n)) = names.iter().find(|x| x.0 == *tag) {
                    if n != name {
                        r.bad(format!("{key}:name"), format!("{name} for {tag:x}"));
                    }
                }
                let d = &p.meta.iter().find(|x| x.0 == *tag).unwrap().1;
                if d.len() != 4 {
                    continue;
                }
                let v = u32::from_be_bytes(d[..].try_into().unwrap());
                let want = match tag {
                    0x117 | 0x130 | 0x9650 => format!("0x{v:08x}"),
                    0x100 | 0x110 | 0x111 | 0x115 | 0x118 | 0x119 | 0x121 => format!("{}, {}", v & 0xffff, v >> 16),
                    _ => continue,
                };
                if *val != want {
                    r.bad(format!("{key}:value"), format!("{tag:x} {val} instead of {want}"));
                }
            }
        }
    }
    if tables.len() != 1 + extra as usize {
        r.bad(format!("{key}:tables"), format!("{} tables", tables.len()));
    }
    if text(&h) != s {
        r.bad(format!("{key}:again"), "the second dump is another");
    }
    r.trace(1, s.as_bytes());
}

// --- CR3: what the answers of the file say
fn samples(i: u64, r: &mut Rec, key: &str) {
    use libopenraw::tiff::IfdType;
    use libopenraw::Ifd;
    let mut m = Mix(i);
    let name = m.pick(co::NAMES);
    let be = m.take(2) == 1;
    let var = m.take(3) as u32;
    let size = m.pick(&[(32usize, 16usize), (64, 8)]);
    let c = Cfg::new(be, size.0, size.1).var(var).img(crate::rec::image(3, size.0, size.1, 10));
    let data = co::build(name, &c).1.data;
    let (f, s) = match dump(&data, co::ext(name)) {
        Ok(x) => x,
        Err(e) => return r.bad(key, e),
    };
    let got = match blocks(&s) {
        Ok(b) => b,
        Err(e) => return r.bad(format!("{key}:text"), e),
    };
    for (t, n) in [(IfdType::Main, "Main"), (IfdType::Exif, "Exif"), (IfdType::MakerNote, "MakerNote")] {
        let Some(d) = f.ifd(t) else { continue };
        // CIFF directories are made up, those of RW2 are in its JPEG
        if name == "crw" || name == "rw2" && t != IfdType::Main {
            continue;
        }
        let same = got.iter().filter(|b| b.ty == n || t == IfdType::Main).any(|b| {
            b.n == d.num_entries() as usize
                && b.lines.iter().all(|l| {
                    d.entry(l.tag).is_some_and(|_| {
                        d.uint_value_array(l.tag).map_or(true, |v| l.ty.contains("RATIONAL") || arr(&v) == l.value)
                    })
                })
        });
        if !same {
            r.bad(format!("{key}:{n}"), "the directory is not among those shown".to_string());
        }
    }
    if name == "cr3" {
        // each image is where the dump says
        let sizes: Vec<u32> = f.thumbnail_sizes().unwrap_or_default().to_vec();
        let mut shown: Vec<u32> = vec![];
        let dim = |l: &str| -> Option<u32> {
            let n: Vec<u32> = l.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            Some(*n.first()?.max(n.get(1)?))
        };
        let mut last = None;
        for l in s.lines().map(|l| l.trim()) {
            if l.starts_with("Thumbnail:") || l.starts_with("<Preview ") {
                shown.extend(dim(l));
            }
            if l.starts_with("Image: Width") {
                last = dim(l);
            }
            if let Some(x) = l.strip_prefix("JPEG: ").or(l.strip_prefix("Raw: ")) {
                let n: Vec<usize> = x.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                let at = data.get(n[1]..n[1] + n[0]);
                if l.starts_with("JPEG") {
                    shown.extend(last);
                    if at.map_or(true, |b| b[..2] != [0xff, 0xd8]) {
                        r.bad(format!("{key}:jpeg"), l.to_string());
                    }
                } else {
                    let raw = f.raw_data(true).ok().and_then(|r| {
                        use libopenraw::Bitmap;
                        r.data8().map(|d| d.to_vec())
                    });
                    if raw.as_deref() != at {
                        r.bad(format!("{key}:raw"), l.to_string());
                    }
                }
            }
        }
        shown.sort();
        let mut sizes = sizes;
        sizes.sort();
        if shown != sizes {
            r.bad(format!("{key}:images"), format!("{shown:?}, the sizes are {sizes:?}"));
        }
    }
    r.trace(1, s.as_bytes());
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C28", "model_checking", thorough);
    ctx.rule = "the text of dump_file, read back: the sequence and nesting of directories, heaps, blocks and tables and every entry's tag, name, type, count and value are those written; a second dump is the same".into();
    ctx.assumptions = vec![
        "spacing within a line is not compared; strings with a line feed are left out; the values of pointers and of types that don't exist are not compared".into(),
        "records with a CIFF tag nobody published, and tags stored twice, are left out".into(),
    ];
    let opts = Opts::default();
    let nk = KINDS.len();
    macro_rules! space {
        ($name:expr, $n:expr, $chunk:expr, $f:expr) => {{
            let f = $f;
            par(&mut ctx, $name, $n as u64, $chunk, &opts, &|i| format!("{}:{i}", $name.replace(' ', "-")), &|i, r: &mut Rec| {
                let k = format!("{}:{i}", $name.replace(' ', "-"));
                f(i as u64, r, &k)
            });
        }};
    }
    space!("values", TYPES.len() * COUNTS.len() * 5 * 2 * 3 * 6 * nk, 2000, values);
    space!("trees 1", SHAPES * 2 * nk, 200, |i, r: &mut Rec, k: &str| shapes(i, 1, r, k));
    space!("trees 2", SHAPES.pow(2) * 2 * nk, 500, |i, r: &mut Rec, k: &str| shapes(i, 2, r, k));
    space!("trees 3", SHAPES.pow(3) * 2 * if thorough { nk } else { 1 }, 500, |i: u64, r: &mut Rec, k: &str| {
        let i = if thorough { i } else { i * nk as u64 + i % nk as u64 };
        shapes(i, 3, r, k)
    });
    space!("names", nk * 2 * 16, 8, all_names);
    space!("ciff", 2 * 9 * 2 * 2 * 6 * CIFF.len() * 12, 500, ciff);
    space!("mrw", 8 * 9 * 6 * 6, 100, mrw);
    space!("raf", 12 * 9 * 3 * 2 * 3, 100, raf);
    space!("samples", co::NAMES.len() * 2 * 3 * 2, 10, samples);
    ctx.finish()
}
