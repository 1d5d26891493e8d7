//! C08: the metadata iterator.
use super::c07::{meta_value, pattern, unit, E};
use super::robust::hint;
use crate::asm::{Asm, Dir, V};
use crate::corpus;
use crate::names;
use crate::obs;
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::tiff::IfdType;
use libopenraw::{rawfile_from_memory, Ifd, RawFileHandle};
use std::collections::HashMap;

/// file type, namespace of each directory of the chain (beyond: "other"), panasonic names for the first
pub const KINDS: &[(&str, &[&str], bool)] = &[
    ("dng", &["Exif.Image"], false),
    ("nef", &["Exif.Image"], false),
    ("arw", &["Exif.Image"], false),
    ("orf", &["Exif.Image"], false),
    ("erf", &["Exif.Image"], false),
    ("pef", &["Exif.Image", "other", "other"], false),
    ("cr2", &["Exif.Image", "other", "other", "Raw"], false),
    ("rw2", &["Exif.Image"], true),
    ("mrw", &["Exif.Image"], false),
    ("jpg", &["Exif.Image"], false),
    ("raf", &["Exif.Image"], false),
];

/// the same directories wrapped as a file of the given kind
pub fn wrap(kind: &str, be: bool, d: &Dir) -> Vec<u8> {
    let mut a = Asm::new(byteorder(kind, be));
    match kind {
        "jpg" | "raf" => {
            a.tiff(0x2a, d);
            let mut app1 = b"Exif\0\0".to_vec();
            app1.extend(a.finish().data);
            let j = corpus::jpeg(192, 128, 20, Some(&app1));
            if kind == "jpg" {
                return j;
            }
            let mut o = b"FUJIFILMCCD-RAW 0201FF389501".to_vec();
            o.extend(b"X-T1");
            o.resize(84, 0);
            o.extend(148u32.to_be_bytes());
            o.extend((j.len() as u32).to_be_bytes());
            for _ in 0..2 {
                o.extend((148 + j.len() as u32).to_be_bytes());
                o.extend(16u32.to_be_bytes());
            }
            o.resize(148, 0);
            o.extend(j);
            o.extend([0; 16]);
            o
        }
        "mrw" => {
            a.tiff(0x2a, d);
            let t = a.finish().data;
            let mut o = b"\0MRM".to_vec();
            o.extend((8 + 24 + 8 + t.len() as u32).to_be_bytes());
            o.extend(b"\0PRD");
            o.extend(24u32.to_be_bytes());
            o.extend(b"27820001");
            o.extend([0, 32, 0, 32, 0, 32, 0, 32, 16, 12, 0x59, 0, 0, 0, 0, 1]);
            o.extend(b"\0TTW");
            o.extend((t.len() as u32).to_be_bytes());
            o.extend(t);
            o
        }
        _ => {
            a.tiff(
                match kind {
                    "orf" => 0x4f52,
                    "rw2" => 0x55,
                    _ => 0x2a,
                },
                d,
            );
            a.finish().data
        }
    }
}

/// the byte order of a file of the kind: some have only one
pub fn byteorder(kind: &str, be: bool) -> bool {
    (be || kind == "mrw") && kind != "rw2"
}

type Names = HashMap<u16, &'static str>;

struct Want {
    exif: Names,
    rw2: Names,
}
impl Want {
    fn new() -> Want {
        Want {
            exif: names::EXIF.iter().copied().collect(),
            rw2: names::RAW_PANASONIC.iter().copied().collect(),
        }
    }
    fn key(&self, kind: usize, dir: usize, tag: u16) -> String {
        let (_, ns, pana) = KINDS[kind];
        let n = if pana && dir == 0 { &self.rw2 } else { &self.exif };
        format!(
            "{}.{}",
            ns.get(dir).unwrap_or(&"other"),
            n.get(&tag).copied().unwrap_or("")
        )
    }
}

fn item(k: &str, v: String, t: i16) -> String {
    format!("{k}={t}:{v}")
}

/// what one entry of a directory is to give
fn expected(w: &Want, kind: usize, dir: usize, e: &E, be: bool) -> String {
    let k = w.key(kind, dir, e.tag);
    match meta_value(e, be) {
        Some(v) => item(&k, obs::value(&v), e.ty as i16),
        None => item(&k, "?".into(), e.ty as i16),
    }
}

fn listing(f: &RawFileHandle) -> Vec<(String, String, i16)> {
    f.metadata()
        .map(|i| i.map(|(k, v, t)| (k, obs::value(&v), t)).collect())
        .unwrap_or_default()
}

fn compare(key: &str, f: &RawFileHandle, want: &[String], r: &mut Rec) {
    let got: Vec<String> = listing(f)
        .into_iter()
        .map(|(k, v, t)| {
            let v = if (1..=12).contains(&t) { v } else { "?".into() };
            item(&k, v, t)
        })
        .collect();
    if got != want {
        let i = got
            .iter()
            .zip(want)
            .position(|(a, b)| a != b)
            .unwrap_or_else(|| got.len().min(want.len()));
        r.bad(
            key,
            format!(
                "{} items instead of {}; item {i} is {:?} instead of {:?}",
                got.len(),
                want.len(),
                got.get(i),
                want.get(i)
            ),
        );
    }
    r.transitions += got.len() as u64;
    r.states.insert(crate::report::hash(want.join("\n").as_bytes()));
}

/// looking keys up agrees with iterating; other keys are absent
fn lookups(key: &str, f: &RawFileHandle, r: &mut Rec) {
    let n = f.main_ifd().map(|d| d.num_entries()).unwrap_or(0) as usize;
    let l = listing(f);
    // the main directory is the first of the chain
    let main: Vec<_> = l.iter().take(n).collect();
    let get = |k: &str| f.metadata_value(k).map(|v| obs::value(&v));
    for (k, _, _) in &main {
        let all: Vec<&String> = main.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
        match get(k) {
            Some(v) if all.contains(&&v) => {}
            v => r.bad(format!("{key}:{k}"), format!("{v:?} instead of one of {all:?}")),
        }
        let (ns, name) = k.rsplit_once('.').unwrap();
        for other in [
            String::new(),
            name.to_string(),
            ns.to_string(),
            format!("{k} "),
            format!(" {k}"),
            format!("{k}\0"),
            k.to_lowercase(),
            k.to_uppercase(),
            k[..k.len() - 1].to_string(),
            format!("{k}X"),
            format!("other.{name}"),
            format!("Exif.Photo.{name}"),
            format!("Raw.{name}"),
        ] {
            if main.iter().any(|x| x.0 == other) {
                continue;
            }
            if let Some(v) = get(&other) {
                r.bad(format!("{key}:{other:?}"), format!("there is no such key, yet it gives {v}"));
            }
        }
        r.transitions += 14;
    }
}

fn dirs(be: bool, ds: &[Vec<E>], order: usize) -> Option<Dir> {
    let mut next: Option<Dir> = None;
    for es in ds.iter().rev() {
        let mut es = es.clone();
        match order {
            1 => es.reverse(),
            2 if es.len() > 1 => es.rotate_left(1),
            _ => {}
        }
        let mut d = Dir::new();
        d.sorted = false;
        for e in &es {
            d = d.e(
                e.tag,
                match (e.tag, e.ty) {
                    // a directory below, whose entries are not to be listed
                    (0x8769, 4) | (0x8825, 4) | (0x14a, 4) => V::Sub(vec![Dir::new()
                        .s(0x100, 77)
                        .a(0x131, "below")
                        .next(Dir::new().s(0x100, 78))]),
                    _ => V::Raw(e.ty, e.count, e.data.clone()),
                },
            );
        }
        if let Some(n) = next {
            d = d.next(n);
        }
        next = Some(d);
    }
    let _ = be;
    next
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C08", "model_checking", thorough);
    ctx.rule = "the sequence of (key, type, value) of the iterator is the one of the directories written: chain order, ascending tags, published names; metadata_value gives the iterator's value and nothing else; interleaved iterators and calls don't change it".into();
    ctx.assumptions.push("a tag without a published name has an empty name in its key; with a tag twice in one directory the listing has it once; values of pointers to sub-directories are not compared, only their presence".into());
    let opts = Opts::default();
    let w = Want::new();

    // chains of directories
    let e = |tag, ty: u16, count: u32| E {
        tag,
        ty,
        count,
        data: pattern(3, count as usize * unit(ty)),
    };
    let sets: Vec<Vec<E>> = vec![
        vec![],
        vec![e(0x100, 3, 1)],
        vec![e(0x101, 4, 1), e(0x10f, 2, 5), e(0x110, 2, 12)],
        vec![e(0, 1, 2), e(0xffff, 7, 3), e(0x7fff, 3, 2), e(0x8000, 4, 2)],
        vec![e(0x8769, 4, 1), e(0x9000, 7, 4)],
        vec![e(0x14a, 4, 1), e(0x112, 3, 1), e(0x11a, 5, 1), e(0x8825, 4, 1)],
        vec![e(0xfe, 4, 1), e(0x1234, 10, 2), e(0x1235, 12, 1), e(0x1236, 6, 9), e(0x1237, 9, 1), e(0x1238, 11, 3)],
        (0..40).map(|i| e(0x300 + i * 7, 3, i as u32 % 5)).collect(),
    ];
    let ns = sets.len();
    let maxd = ctx.q(3, 4) as u32;
    let nchain: usize = (1..=maxd).map(|d| ns.pow(d)).sum();
    let nk = KINDS.len();
    let dec = |i: u64| {
        let mut m = Mix(i);
        let (order, be, kind, mut c) = (m.take(3), m.take(2) == 1, m.take(nk), m.take(nchain));
        let mut d = 1;
        while c >= ns.pow(d) {
            c -= ns.pow(d);
            d += 1;
        }
        let mut m = Mix(c as u64);
        let v: Vec<usize> = (0..d).map(|_| m.take(ns)).collect();
        (order, be, kind, v)
    };
    let name = |i: u64| {
        let (o, be, k, v) = dec(i);
        format!("chain:{}:{be}:{o}:{v:?}", KINDS[k].0)
    };
    par(
        &mut ctx,
        "file kinds x byte order x order of entries x chains of directories",
        (3 * 2 * nk * nchain) as u64,
        256,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (order, be, kind, v) = dec(i);
            let ds: Vec<Vec<E>> = v.iter().map(|s| sets[*s].clone()).collect();
            let kn = KINDS[kind].0;
            let be2 = byteorder(kn, be);
            let data = wrap(kn, be, &dirs(be2, &ds, order).unwrap());
            let key = name(i);
            let f = match rawfile_from_memory(data, Some(hint(kn))) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            let mut want = vec![];
            for (n, es) in ds.iter().enumerate() {
                let mut es = es.clone();
                es.sort_by_key(|e| e.tag);
                for e in &es {
                    want.push(if [0x8769, 0x8825, 0x14a].contains(&e.tag) {
                        format!("{}=4:*", w.key(kind, n, e.tag))
                    } else {
                        expected(&w, kind, n, e, be2)
                    });
                }
            }
            // pointers: presence only
            let got: Vec<String> = listing(&f)
                .into_iter()
                .zip(want.iter().map(Some).chain(std::iter::repeat(None)))
                .map(|((k, v, t), w)| match w {
                    Some(w) if w.ends_with("=4:*") => format!("{k}={t}:*"),
                    _ => item(&k, v, t),
                })
                .collect();
            if got != want {
                r.bad(&key, format!("{got:?} instead of {want:?}"));
            }
            r.trace(got.len() as u64 + 1, want.join("\n").as_bytes());
            if order == 0 {
                lookups(&key, &f, r);
            }
        },
    );

    // every tag number: its name and its place
    let per = 32u32;
    let nf = 65536 / per;
    let combos: Vec<(usize, usize)> = (0..nk)
        .flat_map(|k| (0..5).map(move |d| (k, d)))
        .filter(|(k, d)| *d < 2 || KINDS[*k].0 == "cr2")
        .collect();
    let nc = combos.len();
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.take(nf as usize) as u32, m.take(2), m.take(nc))
    };
    par(
        &mut ctx,
        "every tag number x file kind x place in the chain x byte order",
        nf as u64 * 2 * nc as u64,
        64,
        &opts,
        &|i| format!("tags:{:?}", dec(i)),
        &|i, r: &mut Rec| {
            let (b, be, c) = dec(i);
            let (kind, dir) = combos[c];
            let kn = KINDS[kind].0;
            let be = byteorder(kn, be == 1);
            let es: Vec<E> = (b * per..(b + 1) * per)
                .map(|t| E {
                    tag: t as u16,
                    ty: 3,
                    count: 1,
                    data: if be { vec![0, 1] } else { vec![1, 0] },
                })
                .collect();
            let mut ds = vec![vec![]; dir];
            ds.push(es.clone());
            let key = format!("tags:{:?}", dec(i));
            let f = match rawfile_from_memory(wrap(kn, be, &dirs(be, &ds, 0).unwrap()), Some(hint(kn))) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            let want: Vec<String> = es.iter().map(|e| expected(&w, kind, dir, e, be)).collect();
            compare(&key, &f, &want, r);
            if dir == 0 && (i / nf as u64) % 2 == 0 {
                lookups(&key, &f, r);
            }
            r.traces += 1;
        },
    );

    // a tag more than once
    let nd = 3usize.pow(4);
    par(
        &mut ctx,
        "directories with repeated tags",
        (nd * 2) as u64,
        16,
        &opts,
        &|i| format!("twice:{i}"),
        &|i, r: &mut Rec| {
            let be = i % 2 == 1;
            let mut m = Mix(i / 2);
            let es: Vec<E> = (0..4u16)
                .map(|k| E {
                    tag: 0x7000 + m.take(3) as u16,
                    ty: 3,
                    count: 1,
                    data: vec![k as u8, k as u8],
                })
                .collect();
            let key = format!("twice:{i}");
            let f = match rawfile_from_memory(wrap("dng", be, &dirs(be, &[es.clone()], 0).unwrap()), Some(hint("dng"))) {
                Ok(f) => f,
                Err(e) => return r.bad(&key, format!("not opened: {e:?}")),
            };
            let mut tags: Vec<u16> = es.iter().map(|e| e.tag).collect();
            tags.sort();
            tags.dedup();
            let got = listing(&f);
            if got.len() != tags.len() {
                r.bad(&key, format!("{} items for {} tags", got.len(), tags.len()));
            }
            for (t, g) in tags.iter().zip(&got) {
                let ok = es
                    .iter()
                    .filter(|e| e.tag == *t)
                    .any(|e| obs::value(&meta_value(e, be).unwrap()) == g.1);
                if !ok {
                    r.bad(format!("{key}:{t:x}"), format!("value {}", g.1));
                }
            }
            r.trace(4, format!("{tags:?}{be}").as_bytes());
        },
    );

    // interleavings of two iterators and other calls
    let all: Vec<(&str, &str, Vec<u8>, Vec<(String, String, i16)>)> = corpus::all(24, 18)
        .into_iter()
        .map(|s| {
            let l = listing(&rawfile_from_memory(s.file.data.clone(), Some(hint(s.ext))).unwrap());
            (s.name, s.ext, s.file.data, l)
        })
        .collect();
    for (n, _, _, l) in &all {
        if l.is_empty() {
            ctx.violation(&format!("inter:{n}:empty"), "no metadata");
        }
    }
    const STEPS: usize = 7;
    let depth = ctx.q(5, 6) as u32;
    let nseq = STEPS.pow(depth);
    let ni = all.len();
    let dec = |i: u64| {
        let mut m = Mix(i);
        let mut s = m.take(nseq) as u64;
        let f = m.take(ni);
        let mut v = vec![];
        for _ in 0..depth {
            v.push((s % STEPS as u64) as usize);
            s /= STEPS as u64;
        }
        (f, v)
    };
    par(
        &mut ctx,
        "sample files x interleavings of two iterators with other calls",
        (nseq * ni) as u64,
        2048,
        &opts,
        &|i| {
            let (f, v) = dec(i);
            format!("inter:{}:{v:?}", all[f].0)
        },
        &|i, r: &mut Rec| {
            let (f, v) = dec(i);
            let (n, ext, data, l) = &all[f];
            let key = format!("inter:{n}:{v:?}");
            let h = rawfile_from_memory(data.clone(), Some(hint(ext))).unwrap();
            let mut its = [h.metadata(), h.metadata()];
            let mut at = [0usize, 0];
            for s in &v {
                match s {
                    0 | 1 => {
                        let g = its[*s].as_mut().and_then(|i| i.next());
                        let g = g.map(|(k, v, t)| (k, obs::value(&v), t));
                        if g.as_ref() != l.get(at[*s]) {
                            r.bad(&key, format!("iterator {s} step {}: {g:?}", at[*s]));
                        }
                        at[*s] += 1;
                    }
                    2 => {
                        // run the second to its end
                        let g: Vec<_> = its[1]
                            .as_mut()
                            .map(|i| i.map(|(k, v, t)| (k, obs::value(&v), t)).collect())
                            .unwrap_or_default();
                        if g[..] != l[at[1].min(l.len())..] {
                            r.bad(&key, "the rest of iterator 1 differs".to_string());
                        }
                        at[1] = l.len();
                    }
                    3 => {
                        let _ = h.metadata_value(&l[0].0);
                    }
                    4 => {
                        let _ = h.thumbnail(160);
                    }
                    5 => {
                        let _ = (h.ifd(IfdType::MakerNote).is_some(), h.ifd(IfdType::Exif).is_some());
                    }
                    _ => {
                        its[0] = h.metadata();
                        at[0] = 0;
                    }
                }
            }
            r.trace(v.len() as u64, format!("{n}{at:?}").as_bytes());
        },
    );
    // lookups on the samples, and after the end
    par(
        &mut ctx,
        "sample files: lookups, and the iterator after its end",
        ni as u64,
        1,
        &opts,
        &|i| format!("look:{}", all[i as usize].0),
        &|i, r: &mut Rec| {
            let (n, ext, data, l) = &all[i as usize];
            let h = rawfile_from_memory(data.clone(), Some(hint(ext))).unwrap();
            lookups(&format!("look:{n}"), &h, r);
            if let Some(mut it) = h.metadata() {
                for _ in 0..l.len() {
                    it.next();
                }
                for _ in 0..3 {
                    if it.next().is_some() {
                        r.bad(format!("look:{n}:end"), "an item after the end");
                    }
                }
            }
            r.trace(1, n.as_bytes());
        },
    );
    ctx.finish()
}
