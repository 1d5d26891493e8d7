//! C19: the thumbnail list and the selection by size.
use super::robust::hint;
use crate::asm::{Asm, Dir, V};
use crate::corpus::{self, jpeg, rgb, Cfg};
use crate::obs;
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, DataType, RawFileHandle, Thumbnail};
use std::rc::Rc;

/// A preview the file stores.
#[derive(Clone, PartialEq, Debug)]
struct P {
    w: u32,
    h: u32,
    jpeg: bool,
    data: Rc<Vec<u8>>,
}
impl P {
    fn dim(&self) -> u32 {
        self.w.max(self.h)
    }
}
fn jp(w: u32, h: u32, data: Vec<u8>) -> P {
    P {
        w,
        h,
        jpeg: true,
        data: Rc::new(data),
    }
}

fn same(t: &Thumbnail, p: &P) -> bool {
    t.width() == p.w
        && t.height() == p.h
        && t.bpc() == 8
        && t.data_type()
            == if p.jpeg {
                DataType::Jpeg
            } else {
                DataType::PixmapRgb8
            }
        && t.data8() == Some(&p.data[..])
        && t.data_size() == p.data.len()
}

/// which of the stored previews this is
fn who(t: &Thumbnail, want: &[P]) -> String {
    match want.iter().position(|p| same(t, p)) {
        Some(i) => format!("preview {i}"),
        None => format!(
            "{:?} {}x{} {} bytes {}",
            t.data_type(),
            t.width(),
            t.height(),
            t.data_size(),
            match want.iter().position(|p| t.data8() == Some(&p.data[..])) {
                Some(i) => format!("(data of preview {i})"),
                None => "".into(),
            }
        ),
    }
}

/// the dimension that serves a request
fn serves(sizes: &[u32], q: u32) -> Option<u32> {
    sizes
        .iter()
        .copied()
        .filter(|s| *s >= q)
        .min()
        .or(sizes.iter().copied().max())
}

/// Judge a file: the list and every query around its sizes. `order`: the list
/// is expected in this order.
fn judge(key: &str, f: &RawFileHandle, want: &[P], order: bool, r: &mut Rec) {
    let sizes: Vec<u32> = f.thumbnail_sizes().map(|s| s.to_vec()).unwrap_or_default();
    let mut ws: Vec<u32> = want.iter().map(|p| p.dim()).collect();
    let (mut a, mut b) = (sizes.clone(), ws.clone());
    if !order {
        a.sort();
        b.sort();
    }
    let mut acc = format!("{sizes:?}").into_bytes();
    if a != b {
        r.bad(
            format!("{key} list"),
            format!("sizes {sizes:?}, stored {ws:?}"),
        );
    }
    // each listed preview, byte-exact
    let mut n = 1;
    ws.sort();
    ws.dedup();
    for s in &ws {
        n += 1;
        let c: Vec<P> = want.iter().filter(|p| p.dim() == *s).cloned().collect();
        match f.thumbnail_for_size(*s) {
            Ok(t) => {
                let ok = if order {
                    same(&t, &c[0])
                } else {
                    c.iter().any(|p| same(&t, p))
                };
                if !ok {
                    r.bad(
                        format!("{key} content"),
                        format!("for {s}: {}, want {}x{}", who(&t, want), c[0].w, c[0].h),
                    );
                }
                acc.extend(obs::thumb(&t));
            }
            Err(e) => r.bad(format!("{key} content"), format!("for {s}: {e:?}")),
        }
    }
    // selection
    let mut q: Vec<u32> = vec![0, 1, 2, 160, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    for s in &ws {
        q.extend([s - 1, s + 1, s * 2, s / 2]);
        q.push(*s);
    }
    q.sort();
    q.dedup();
    for q in q {
        n += 2;
        let got = f.thumbnail(q);
        match (q, serves(&ws, q)) {
            (0, _) => match got {
                Err(libopenraw::Error::InvalidParam) => {}
                o => r.bad(
                    format!("{key} zero"),
                    format!("size 0 gives {:?}", o.map(|t| who(&t, want))),
                ),
            },
            (_, None) => match got {
                Err(libopenraw::Error::NotFound) => {}
                o => r.bad(
                    format!("{key} none"),
                    format!("no preview, {q} gives {:?}", o.map(|t| who(&t, want))),
                ),
            },
            (_, Some(s)) => match got {
                Ok(t)
                    if want
                        .iter()
                        .any(|p| p.dim() == s && same(&t, p)) => {}
                o => r.bad(
                    format!("{key} select"),
                    format!(
                        "{q} of {ws:?} gives {:?}, want the one of {s}",
                        o.map(|t| who(&t, want))
                    ),
                ),
            },
        }
        let exact = f.thumbnail_for_size(q);
        if ws.contains(&q) != exact.is_ok() {
            r.bad(
                format!("{key} exact"),
                format!("exactly {q} of {ws:?}: {:?}", exact.map(|t| who(&t, want))),
            );
        }
    }
    r.trace(n, &acc);
}

/// ways a TIFF directory stores a preview (or something that is none)
const KINDS: &[&str] = &[
    "none", "j6", "j7", "jx", "jxnodim", "jxbare", "jstripnodim", "jshort", "j2strips", "jnosub",
    "jhalfdim", "rgb", "rgbbare", "rgbshort", "rgb3strips", "rgb16", "ycbcr", "rgbasjpeg",
    "primary", "jx7",
];

struct Slot {
    dir: Dir,
    blob: Vec<u8>,
    p: Option<P>,
}

/// directory content of the kind; `at`: where the data is, if known
fn slot(kind: &str, l: &str, w: u32, h: u32, fill: usize, at: usize) -> Slot {
    let d = Dir::new();
    let end = format!("{l}_end");
    let j = jpeg(w as u16, h as u16, fill, None);
    let px = rgb(w as usize, h as usize);
    let strip = |d: Dir| d.r(0x111, l).e(0x117, V::Len(l.into(), end.clone()));
    let jif = |d: Dir| d.r(0x201, l).e(0x202, V::Len(l.into(), end.clone()));
    let dims = |d: Dir| d.l(0x100, w).l(0x101, h);
    let sd = |d: Dir| d.s(0x100, w as u16).s(0x101, h as u16);
    let bps = |d: Dir, b: u16| d.e(0x102, V::S(vec![b, b, b])).s(0x115, 3);
    let pj = Some(jp(w, h, j.clone()));
    let pr = Some(P {
        w,
        h,
        jpeg: false,
        data: Rc::new(px.clone()),
    });
    let sub = |d: Dir| d.l(0xfe, 1);
    // n strips one after the other
    let strips = |d: Dir, len: usize, n: usize, short: bool| {
        let each = len / n;
        let mut o: Vec<u32> = vec![];
        let mut c: Vec<u32> = vec![];
        for i in 0..n {
            o.push((at + i * each) as u32);
            c.push(if i + 1 == n { len - i * each } else { each } as u32);
        }
        let v = |x: Vec<u32>| {
            if short {
                V::S(x.iter().map(|v| *v as u16).collect())
            } else {
                V::L(x)
            }
        };
        d.e(0x111, v(o)).e(0x117, v(c))
    };
    let (dir, blob, p) = match kind {
        "none" => (d, vec![], None),
        "j6" => (strip(bps(dims(sub(d)), 8).s(0x103, 6).s(0x106, 6)), j, pj),
        "j7" => (strip(bps(dims(sub(d)), 8).s(0x103, 7).s(0x106, 6)), j, pj),
        "jx" => (jif(dims(sub(d)).s(0x103, 6)), j, pj),
        "jx7" => (jif(sd(d).s(0x103, 7).s(0x106, 6)), j, pj),
        "jxnodim" => (jif(sub(d).s(0x103, 6)), j, pj),
        "jxbare" => (jif(d), j, pj),
        "jstripnodim" => (strip(sub(d).s(0x103, 6)), j, pj),
        "jhalfdim" => (jif(sub(d).l(0x100, w).s(0x103, 6)), j, pj),
        "jshort" => (
            strips(sd(sub(d)).s(0x103, 6).s(0x106, 6), j.len(), 1, true),
            j,
            pj,
        ),
        "j2strips" => (
            strips(dims(sub(d)).s(0x103, 7).s(0x106, 6), j.len(), 2, false),
            j,
            pj,
        ),
        "jnosub" => (strip(dims(d).s(0x103, 6).s(0x106, 6)), j, pj),
        "rgb" => (
            strip(bps(dims(sub(d)), 8).s(0x103, 1).s(0x106, 2)),
            px,
            pr,
        ),
        "rgbbare" => (strip(dims(d)), px, pr),
        "rgbshort" => (
            strips(
                bps(sd(sub(d)), 8).s(0x103, 1).s(0x106, 2),
                px.len(),
                1,
                true,
            ),
            px,
            pr,
        ),
        "rgb3strips" => (
            strips(
                bps(dims(sub(d)), 8).s(0x103, 1).s(0x106, 2),
                px.len(),
                3,
                true,
            ),
            px,
            pr,
        ),
        "rgb16" => (
            strip(bps(dims(sub(d)), 16).s(0x103, 1).s(0x106, 2)),
            [px.clone(), px].concat(),
            None,
        ),
        "ycbcr" => (
            strip(bps(dims(sub(d)), 8).s(0x103, 1).s(0x106, 6)),
            px,
            None,
        ),
        "rgbasjpeg" => (
            strip(bps(dims(sub(d)), 8).s(0x103, 6).s(0x106, 2)),
            px,
            None,
        ),
        "primary" => (
            strip(bps(dims(d.l(0xfe, 0)), 8).s(0x103, 6).s(0x106, 6)),
            j,
            None,
        ),
        k => unreachable!("{k}"),
    };
    Slot { dir, blob, p }
}

const FORMATS: &[&str] = &["dng", "nef", "arw", "orf", "erf", "pef", "cr2"];

const SIZES: &[[(u32, u32); 5]] = &[
    [(64, 48), (16, 12), (32, 40), (24, 18), (8, 10)],
    [(20, 15), (20, 15), (20, 15), (20, 14), (20, 13)],
    [(9, 16), (300, 2), (10, 10), (17, 17), (15, 3)],
];

/// TIFF file with previews of the kinds in: main, its sub-directories 0 and 1, second and third directory of the chain
fn generic(fmt: &str, be: bool, kinds: &[&str], sizes: &[(u32, u32); 5]) -> (Vec<u8>, Vec<P>) {
    let mut at = [0usize; 5];
    loop {
        let mut a = Asm::new(be);
        let ls = ["pa", "pb", "pc", "pd", "pe"];
        let s: Vec<Slot> = (0..5)
            .map(|i| {
                let (w, h) = sizes[i];
                let k = kinds.get(i).copied().unwrap_or("none");
                slot(k, ls[i], w, h, 5 + i * 3, at[i])
            })
            .collect();
        let mut main = s[0].dir.clone().a(0x10f, "ORV").a(0x110, "Previews");
        let mut subs = vec![];
        for i in 1..3 {
            if kinds.len() > i {
                subs.push(s[i].dir.clone());
            }
        }
        if !subs.is_empty() {
            main = main.e(0x14a, V::Sub(subs));
        }
        if kinds.len() > 3 {
            let mut c = s[3].dir.clone();
            if kinds.len() > 4 {
                c = c.next(s[4].dir.clone());
            }
            main = main.next(c);
        }
        a.tiff(if fmt == "orf" { 0x4f52 } else { 0x2a }, &main);
        for i in 0..5 {
            a.align2();
            a.label(ls[i]);
            a.bytes(&s[i].blob);
            a.label(&format!("{}_end", ls[i]));
        }
        let f = a.finish();
        let pos: Vec<usize> = ls.iter().map(|l| f.labels[*l]).collect();
        if pos != at {
            at.copy_from_slice(&pos);
            continue;
        }
        return (f.data, s.into_iter().filter_map(|s| s.p).collect());
    }
}

fn open(ext: &str, data: Vec<u8>) -> Option<RawFileHandle> {
    rawfile_from_memory(data, Some(hint(ext))).ok()
}

/// previews of a sample: (index, w, h, fill) of the JPEG ones, the fixed others
fn stored(n: &str) -> (Vec<(u16, u16, usize)>, Vec<P>) {
    let px = P {
        w: 16,
        h: 12,
        jpeg: false,
        data: Rc::new(rgb(16, 12)),
    };
    match n {
        "dng" | "dng_ljpeg" | "dng_tiled" => (vec![(64, 48, 20)], vec![px]),
        "nef" | "nef_p12" => (vec![(64, 48, 20), (80, 60, 15)], vec![px]),
        "cr2" | "cr2_4c" => (vec![(96, 64, 30), (16, 12, 10)], vec![]),
        "arw" | "pef" | "pef_p12" => (vec![(64, 48, 20), (16, 12, 10)], vec![]),
        "orf" => (vec![(64, 48, 20)], vec![]),
        "erf" => (vec![], vec![px, jp(640, 424, jpeg(640, 424, 25, None))]),
        "rw2" | "raf" => (vec![(160, 120, 10), (192, 128, 20)], vec![]),
        "mrw" | "mrw_p12" => (vec![], vec![jp(640, 480, jpeg(640, 480, 20, None))]),
        "crw" => (vec![(64, 48, 20)], vec![]),
        "cr3" => (
            vec![(160, 120, 12), (324, 216, 18), (96, 64, 22), (48, 32, 14)],
            vec![],
        ),
        "jpeg" => (vec![(160, 120, 10)], vec![]),
        _ => (vec![], vec![]),
    }
}

fn cfg(n: &str, be: bool) -> Cfg {
    if n == "crw" {
        Cfg::new(be, 32, 16).img(crate::rec::image(5, 32, 16, 10))
    } else {
        Cfg::new(be, 24, 18)
    }
}

/// variations of one stored preview
const VARY: &[(u16, u16, usize)] = &[
    (0, 0, 0), // as is
    (0, 0, 21),
    (37, 12, 3),
    (19, 90, 8),
    (1023, 10, 1),
    (11, 5000, 40),
    (4001, 3000, 301),
];

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C19", "model_checking", thorough);
    ctx.rule = "the list of sizes is that of the previews the directories store, in file order; each size gives the stored bytes, dimensions and type; every request gives the exact, else the smallest larger, else the largest; 0 is refused".into();
    ctx.assumptions.push("a preview located through a maker note whose dimension is already listed may be left out, as the library documents; NewSubfileType absent counts as a preview; 16-bit RGB, YCbCr strips, and pixels marked as JPEG are no previews, as documented in tiff.rs".into());
    let opts = Opts::default();

    // (a) previews in the directories of a TIFF
    let nk = KINDS.len();
    let pat: &[&[usize]] = &[&[0, 1], &[0, 1, 2], &[0, 3], &[0, 1, 3], &[0, 3, 4]];
    let mut cases: Vec<(usize, Vec<usize>, usize, bool, usize)> = vec![];
    for (fi, _) in FORMATS.iter().enumerate() {
        for be in [false, true] {
            for (pi, p) in pat.iter().enumerate() {
                if p.len() == 3 && !thorough && (pi + fi + be as usize) % 2 == 1 {
                    continue;
                }
                for i in 0..nk.pow(p.len() as u32) {
                    let mut m = Mix(i as u64);
                    let mut k = vec![0; p[p.len() - 1] + 1];
                    for s in *p {
                        k[*s] = m.take(nk);
                    }
                    let sz: Vec<usize> = if thorough || p.len() < 3 {
                        (0..SIZES.len()).collect()
                    } else {
                        vec![(i + i / nk) % SIZES.len()]
                    };
                    for s in sz {
                        cases.push((fi, k.clone(), s, be, pi));
                    }
                }
            }
        }
    }
    let name = |c: &(usize, Vec<usize>, usize, bool, usize)| {
        format!(
            "tiff:{}:{}:{}:{}",
            FORMATS[c.0],
            if c.3 { "be" } else { "le" },
            c.1.iter()
                .map(|k| KINDS[*k])
                .collect::<Vec<_>>()
                .join("+"),
            c.2
        )
    };
    par(
        &mut ctx,
        "previews in the main, sub- and chained directories of a TIFF",
        cases.len() as u64,
        500,
        &opts,
        &|i| name(&cases[i as usize]),
        &|i, r| {
            let c = &cases[i as usize];
            let fmt = FORMATS[c.0];
            let k: Vec<&str> = c.1.iter().map(|k| KINDS[*k]).collect();
            let (data, want) = generic(fmt, c.3, &k, &SIZES[c.2]);
            match open(fmt, data) {
                Some(f) => judge(&name(c), &f, &want, true, r),
                None => r.bad(name(c), "does not open"),
            }
        },
    );

    // (b) the previews of each format's own structures, sizes and contents varied
    let mut cases: Vec<(&'static str, bool, Vec<usize>)> = vec![];
    for n in corpus::NAMES {
        let np = stored(n).0.len();
        for be in [false, true] {
            if np == 0 {
                cases.push((n, be, vec![]));
                continue;
            }
            let all = np <= 2 || thorough;
            let tot = VARY.len().pow(np as u32);
            for i in 0..tot {
                let mut m = Mix(i as u64);
                let v: Vec<usize> = (0..np).map(|_| m.take(VARY.len())).collect();
                if all || v.iter().filter(|x| **x != 0).count() <= 2 {
                    cases.push((n, be, v));
                }
            }
        }
    }
    let name = |c: &(&str, bool, Vec<usize>)| {
        format!("own:{}:{}:{:?}", c.0, if c.1 { "be" } else { "le" }, c.2)
    };
    par(
        &mut ctx,
        "previews of the sample of each format",
        cases.len() as u64,
        50,
        &opts,
        &|i| name(&cases[i as usize]),
        &|i, r| {
            let c = &cases[i as usize];
            let (j, fixed) = stored(c.0);
            // no two of the same dimension: the second differs in its width
            let size = |k: usize, v: usize, d: (u16, u16, usize)| {
                let x = VARY[v];
                if v == 0 {
                    d
                } else if x.0 == 0 {
                    (d.0, d.1, x.2 + k)
                } else if x.0 > x.1 {
                    (x.0 + 3 * k as u16, x.1, x.2 + k)
                } else {
                    (x.0, x.1 + 3 * k as u16, x.2 + k)
                }
            };
            let v = c.2.clone();
            let (n, f) = corpus::build(
                c.0,
                &cfg(c.0, c.1).previews(move |k, d| size(k, v[k], d)),
            );
            let mut want = fixed;
            for (k, d) in j.iter().enumerate() {
                let s = size(k, c.2[k], *d);
                let app1 = matches!(c.0, "rw2" | "raf") && k == 1;
                let mut p = jp(s.0 as u32, s.1 as u32, jpeg(s.0, s.1, s.2, None));
                if app1 {
                    // the stored stream carries the Exif data
                    match label_bytes(&f, s) {
                        Some(b) => p.data = Rc::new(b),
                        None => r.bad(name(c), "stream not found in the sample"),
                    }
                }
                want.push(p);
            }
            match open(n, f.data) {
                Some(h) => judge(&name(c), &h, &want, false, r),
                None => r.bad(name(c), "does not open"),
            }
        },
    );

    // (c) with the entries that lead to a preview absent
    let cut: &[(&str, &str, &[u16], usize)] = &[
        // sample, directory, entries, index of the preview that goes (100+: fixed)
        ("dng", "main", &[0x111], 100),
        ("dng", "preview", &[0x111], 0),
        ("nef", "main", &[0x111], 100),
        ("nef", "preview", &[0x201], 0),
        ("nef", "mnpreview", &[0x201], 1),
        ("nef", "mnote", &[0x11], 1),
        ("cr2", "main", &[0x111], 0),
        ("cr2", "ifd1", &[0x201], 1),
        ("arw", "main", &[0x201], 0),
        ("arw", "ifd1", &[0x201], 1),
        ("pef", "mnote", &[4], 0),
        ("pef", "mnote", &[3], 0),
        ("pef", "ifd1", &[0x201], 1),
        ("orf", "cs", &[0x101], 0),
        ("orf", "cs", &[0x102], 0),
        ("orf", "cs", &[0x100], 0),
        ("orf", "mnote", &[0x2020], 0),
        ("erf", "mnote", &[0x280], 101),
        ("erf", "main", &[0x111], 100),
        ("rw2", "main", &[0x2e], 200),
        ("rw2", "jthumb", &[0x201], 0),
        ("raf", "jthumb", &[0x201], 0),
        ("raf", "jthumb", &[0x202], 0),
        ("mrw", "mnote", &[0x88], 100),
        ("mrw", "mnote", &[0x89], 100),
        ("jpeg", "jthumb", &[0x201], 0),
        ("jpeg", "jthumb", &[0x202], 0),
    ];
    // every subset of the cuts of a sample
    let mut cases: Vec<(&'static str, bool, Vec<usize>)> = vec![];
    for n in corpus::NAMES {
        let mine: Vec<usize> = (0..cut.len()).filter(|i| cut[*i].0 == *n).collect();
        for be in [false, true] {
            for m in 1..1usize << mine.len() {
                cases.push((
                    n,
                    be,
                    (0..mine.len())
                        .filter(|b| m >> b & 1 == 1)
                        .map(|b| mine[b])
                        .collect(),
                ));
            }
        }
    }
    let name = |c: &(&str, bool, Vec<usize>)| {
        format!(
            "cut:{}:{}:{}",
            c.0,
            if c.1 { "be" } else { "le" },
            c.2.iter()
                .map(|i| format!("{}.{:x}", cut[*i].1, cut[*i].2[0]))
                .collect::<Vec<_>>()
                .join("+")
        )
    };
    par(
        &mut ctx,
        "samples without the entries that lead to a preview",
        cases.len() as u64,
        20,
        &opts,
        &|i| name(&cases[i as usize]),
        &|i, r| {
            let c = &cases[i as usize];
            let (j, fixed) = stored(c.0);
            let mut g = cfg(c.0, c.1);
            for k in &c.2 {
                for t in cut[*k].2 {
                    g = g.tweak(corpus::without(cut[*k].1, *t));
                }
            }
            let (n, f) = corpus::build(c.0, &g);
            let gone = |x: usize| c.2.iter().any(|k| cut[*k].3 == x || cut[*k].3 == 200);
            let mut want: Vec<P> = vec![];
            for (k, p) in fixed.into_iter().enumerate() {
                if !gone(100 + k) {
                    want.push(p);
                }
            }
            for (k, d) in j.iter().enumerate() {
                if gone(k) {
                    continue;
                }
                let mut p = jp(d.0 as u32, d.1 as u32, jpeg(d.0, d.1, d.2, None));
                if matches!(c.0, "rw2" | "raf") && k == 1 {
                    match label_bytes(&f, *d) {
                        Some(b) => p.data = Rc::new(b),
                        None => r.bad(name(c), "stream not found in the sample"),
                    }
                }
                want.push(p);
            }
            match open(n, f.data) {
                Some(h) => judge(&name(c), &h, &want, false, r),
                None => r.bad(name(c), "does not open"),
            }
        },
    );

    // (d) previews through other entries of a maker note
    let odd = ["orf_thm", "orf_thm160", "mrw_old", "dng_leica6", "jpeg_app0", "rw2_app0", "raf_app0"];
    par(
        &mut ctx,
        "other carriers of a preview",
        odd.len() as u64 * 2 * VARY.len() as u64,
        1,
        &opts,
        &|i| {
            let mut m = Mix(i);
            let n = m.pick(&odd);
            format!("other:{n}:{}:{}", m.take(2), m.take(VARY.len()))
        },
        &|i, r| {
            let mut m = Mix(i);
            let n = m.pick(&odd);
            let be = m.take(2) == 1;
            let v = m.take(VARY.len());
            let key = format!("other:{n}:{}:{v}", be as u8);
            let x = match VARY[v] {
                (0, 0, f) => (200, 100, f),
                x => x,
            };
            let j = jpeg(x.0, x.1, x.2, None);
            let p = jp(x.0 as u32, x.1 as u32, j.clone());
            let raw = |j: Vec<u8>| {
                V::Custom(
                    7,
                    Rc::new(move |a: &mut Asm| {
                        a.bytes(&j);
                    }),
                )
            };
            let (ext, data, want) = match n {
                "orf_thm" | "orf_thm160" => {
                    let g = cfg("orf", be).tweak(corpus::with("mnote", 0x100, raw(j)));
                    let (e, f) = corpus::build("orf", &g);
                    (e, f.data, vec![p, jp(64, 48, jpeg(64, 48, 20, None))])
                }
                "mrw_old" => {
                    let mut j = jpeg(640, 480, x.2, None);
                    let p = jp(640, 480, j.clone());
                    j[0] = 0x21;
                    let g = cfg("mrw", be).tweak(corpus::with("mnote", 0x81, raw(j)));
                    let (e, f) = corpus::build("mrw", &g);
                    (e, f.data, vec![p])
                }
                "dng_leica6" => {
                    let mut a = Asm::new(be);
                    let mn = V::Custom(
                        7,
                        Rc::new(move |a: &mut Asm| {
                            a.bytes(b"LEICA\0\x02\xff");
                            let d = Dir::new().l(0x305, 1).e(0x300, raw(j.clone()));
                            a.labels.insert("file0".into(), 0);
                            a.dir(&d, "file0");
                        }),
                    );
                    let ex = Dir::new().e(0x927c, mn);
                    let px = rgb(16, 12);
                    let main = Dir::new()
                        .l(0xfe, 1)
                        .l(0x100, 16)
                        .l(0x101, 12)
                        .a(0x10f, "Leica Camera AG")
                        .a(0x110, "LEICA M (Typ 240)")
                        .r(0x111, "px")
                        .e(0x117, V::L(vec![px.len() as u32]))
                        .e(0x8769, V::Sub(vec![ex]));
                    a.tiff(0x2a, &main);
                    a.label("px");
                    a.bytes(&px);
                    let t = P {
                        w: 16,
                        h: 12,
                        jpeg: false,
                        data: Rc::new(px),
                    };
                    ("dng", a.finish().data, vec![t, p])
                }
                _ => {
                    // a JFIF segment ahead of the Exif one
                    let k = n.split('_').next().unwrap();
                    let e = exif_with(be, &j);
                    let mut s = jpeg(192, 128, 20, Some(&e));
                    let mut app0 = vec![0xff, 0xe0, 0, 16];
                    app0.extend(b"JFIF\0\x01\x02\0\0\x48\0\x48\0\0");
                    s.splice(2..2, app0);
                    let main = jp(192, 128, s.clone());
                    match k {
                        "jpeg" => ("jpg", s, vec![p]),
                        "rw2" => {
                            let mut a = Asm::new(false);
                            let d = Dir::new()
                                .s(2, 24)
                                .s(3, 18)
                                .a(0x10f, "Panasonic")
                                .e(0x2e, raw(s));
                            a.tiff(0x55, &d);
                            ("rw2", a.finish().data, vec![p, main])
                        }
                        _ => {
                            let mut o = b"FUJIFILMCCD-RAW 0201FF389501".to_vec();
                            o.extend(b"X-T1");
                            o.resize(84, 0);
                            o.extend(148u32.to_be_bytes());
                            o.extend((s.len() as u32).to_be_bytes());
                            for _ in 0..2 {
                                o.extend((148 + s.len() as u32).to_be_bytes());
                                o.extend(16u32.to_be_bytes());
                            }
                            o.resize(148, 0);
                            o.extend(s);
                            o.extend([0; 16]);
                            ("raf", o, vec![p, main])
                        }
                    }
                }
            };
            match open(ext, data) {
                Some(h) => judge(&key, &h, &want, false, r),
                None => r.bad(key, "does not open"),
            }
        },
    );
    ctx.finish()
}

/// Exif data whose second directory has the preview
fn exif_with(be: bool, j: &[u8]) -> Vec<u8> {
    let mut e = Asm::new(be);
    let d = Dir::new().a(0x10f, "ORV").next(
        Dir::new()
            .s(0x103, 6)
            .r(0x201, "t")
            .e(0x202, V::L(vec![j.len() as u32])),
    );
    e.tiff(0x2a, &d);
    e.label("t");
    e.bytes(j);
    let mut o = b"Exif\0\0".to_vec();
    o.extend(e.finish().data);
    o
}

/// the JPEG stream of this size with Exif data that the sample stores
fn label_bytes(f: &crate::asm::File, s: (u16, u16, usize)) -> Option<Vec<u8>> {
    // SOI + APP1 of the outer stream, then its own end: the same filler as in `jpeg`
    let plain = jpeg(s.0, s.1, s.2, None);
    let tail = &plain[2..];
    let a = f
        .data
        .windows(4)
        .position(|w| w == [0xff, 0xd8, 0xff, 0xe1])?;
    let len = u16::from_be_bytes([f.data[a + 4], f.data[a + 5]]) as usize;
    let e = a + 4 + len;
    if f.data[e..].starts_with(tail) {
        Some(f.data[a..e + tail.len()].to_vec())
    } else {
        None
    }
}
