//! C12: open files don't influence each other.
use super::robust::{hint, samples_all};
use crate::asm::V;
use crate::codec::{crw as cc, fuji, nikon as nk, olympus, panasonic};
use crate::corpus::{self as co, with, Cfg};
use crate::obs::{alphabet, diff, image, observe, thumb, Op};
use crate::pool::{self, Opts};
use crate::rec::{self, compute, pack, par, unpack, Mix, Rec};
use crate::report::Ctx;
use crate::stream::{Hooked, HOOK};
use libopenraw::{rawfile_from_io, rawfile_from_memory, RawFileHandle, RawImage, Thumbnail};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct F {
    name: String,
    kind: String,
    ext: &'static str,
    data: Arc<Vec<u8>>,
}

/// Of every kind of file another one, with other contents, byte order,
/// camera, dimensions and compression parameters.
/// `same`: of the same dimensions and byte order.
fn other(n: &str, same: bool) -> Option<Vec<u8>> {
    let image = rec::image;
    let (w, h) = if same { (16, 16) } else { (20, 14) };
    let le = Cfg { img: vec![], ..Cfg::new(same && ["nef_quant", "pef_huff"].contains(&n), w, h) };
    let put = |v: u16| if le.be { v.to_be_bytes() } else { v.to_le_bytes() };
    Some(match n {
        "nef_quant" => {
            let img: Vec<i32> = image(1, w, h, 12).iter().map(|v| *v as i32).collect();
            let (data, _) = nk::encode(&img, w, nk::LOSSY_12, None, [[9, 2], [300, 4]]);
            let mut t = vec![0x44, 0x20];
            for v in [9u16, 2, 300, 4, 33] {
                t.extend(put(v));
            }
            for i in 0..33u16 {
                t.extend(put(i * 100));
            }
            t.resize(600, 0);
            co::nef_with(&le, 12, 34713, &data, vec![(0x96, V::U(t))]).data
        }
        "pef_huff" => {
            let t = nk::ptable(&[4, 3, 3, 2, 2, 4, 5, 6, 7, 8, 9, 10, 10], &(0..13).rev().collect::<Vec<_>>(), false);
            let data = nk::pentax(&image(5, w, h, 12), w, &t)?;
            co::pef_with(&le, 12, 65535, &data, vec![(0x220, V::U(nk::pentax_blob(&t, le.be)))]).data
        }
        "pef_legacy" => {
            let data = nk::pentax(&image(5, w, h, 12), w, &nk::pentax_legacy())?;
            co::pef_with(&Cfg { be: true, ..le }, 12, 65535, &data, vec![]).data
        }
        "orf_comp" => co::orf_with(&le, &olympus::encode(&image(5, w, h, 9), w, 0).0, 16).data,
        "rw2_comp" => {
            let (w, h) = if same { (28, 18) } else { (42, 10) };
            let g: Vec<panasonic::Group> = (0..w * h / 14)
                .map(|i| panasonic::Group { sh: [2, 0, i as u8 & 3, 1], j: [0x40 + i as u8; 14], low: [1; 14] })
                .collect();
            co::rw2_with(&Cfg { w, h, ..le }, &panasonic::pack(&g).0, true, 34316).data
        }
        "raf_comp" | "raf_lossy" => {
            let fx = fuji::Fuji { xtrans: false, bits: 12, cfa: vec![0, 1, 1, 2], cw: 2, q: None, pad: 0 };
            let (w, h) = (768, 6);
            let data = fx.encode(&vec![300; w * h], w, &mut Default::default()).0;
            let c = Cfg { w, h, ..le };
            let mut o = co::raf_opt(&c);
            o.bps = 12;
            co::raf_with(&c, &o, &data).data
        }
        "crw_low" => {
            let (w, h) = if same { (32, 16) } else { (64, 8) };
            let raw = cc::encode(&image(1, w, h, 10), w, h, 2, false);
            let c = Cfg { w, h, ..le };
            co::crw_with(&c, &co::crw_recs(&c, &raw), false, 26).data
        }
        _ => {
            let ids: &[(&str, &str, &str)] = &[
                ("dng", "PENTAX", "PENTAX K10D        "),
                ("nef", "NIKON CORPORATION", "NIKON D90"),
                ("arw", "SONY", "DSLR-A900"),
                ("pef", "PENTAX Corporation ", "PENTAX K-5"),
                ("erf", "SEIKO EPSON CORP.", "R-D1X"),
                ("orf", "OLYMPUS IMAGING CORP.  ", "E-3             "),
                ("rw2", "Panasonic", "DMC-GH1"),
                ("raf", "FUJIFILM", "X-T2"),
                ("crw", "Canon", "Canon PowerShot G6"),
                ("cr2", "Canon", "Canon EOS 5D"),
                ("cr3", "Canon", "Canon EOS R5"),
            ];
            let (w, h) = if n == "crw" && same { (32, 16) } else if n == "crw" { (64, 8) } else { (w, h) };
            let be = same && ["nef", "pef", "nef_p12"].contains(&n) || !same && ["dng", "arw", "cr2", "orf", "erf", "dng_ljpeg", "dng_tiled", "dng_main", "jpeg", "pef_p12", "cr2_4c"].contains(&n);
            let img = image(if n == "crw" { 1 } else { 3 }, w, h, if n == "crw" { 10 } else { 12 });
            let mut c = Cfg::new(be, w, h).img(img).previews(|k, (w, h, f)| (w + 16 * (k as u16 + 1), h + 8, f + 30));
            if let Some(i) = ids.iter().find(|i| n.starts_with(i.0)) {
                c = c.id(i.1, i.2);
            }
            if n.starts_with("cr2") || n == "cr3" {
                c = c.tweak(with("mnote", 0x10, V::L(vec![0x80000218])));
            }
            if n == "arw" {
                c = c.tweak(with("mnote", 0xb001, V::S(vec![0x101])));
            }
            if n.starts_with("pef") {
                c = c.tweak(with("mnote", 5, V::L(vec![0x12e76])));
            }
            c = c.tweak(with("exif", 0x9003, V::A("1999:12:31 23:59:59".into())));
            if !co::NAMES.contains(&n) {
                return None;
            }
            co::build(n, &c).1.data
        }
    })
}

fn files(thorough: bool) -> Vec<F> {
    let mut v = vec![];
    for s in samples_all(16, 16, thorough) {
        let o = [other(&s.name, false), other(&s.name, true)];
        let n = s.data.len();
        v.push(F { name: s.name.clone(), kind: s.name.clone(), ext: s.ext, data: Arc::new(s.data) });
        for (d, k) in o.into_iter().zip(["'", "''"]) {
            if let Some(mut d) = d {
                // of the same length, too
                if k == "''" && !["crw", "cr3", "rw2"].contains(&s.ext) {
                    let n = if d.len() < 8000 { 8000 } else { n.max(d.len()) };
                    d.resize(n, 0);
                }
                v.push(F { name: format!("{}{k}", s.name), kind: s.name.clone(), ext: s.ext, data: Arc::new(d) });
            }
        }
    }
    v.push(F { name: "pef_legacy".into(), kind: "pef_legacy".into(), ext: "pef", data: Arc::new(other("pef_legacy", false).unwrap()) });
    v
}

impl F {
    fn hint(&self) -> Option<libopenraw::Type> {
        if ["jpg", "pef"].contains(&self.ext) || self.ext == "orf" || self.ext == "rw2" {
            Some(hint(self.ext))
        } else {
            None
        }
    }
}

fn open(f: &F) -> RawFileHandle {
    // by content where that is enough
    rawfile_from_memory(f.data.to_vec(), f.hint()).expect("open")
}

enum Kept {
    No,
    Raw(libopenraw::Result<RawImage>),
    Thumb(libopenraw::Result<Thumbnail>),
}
impl Kept {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Kept::No => vec![],
            Kept::Raw(Ok(r)) => image(r),
            Kept::Thumb(Ok(t)) => thumb(t),
            Kept::Raw(Err(e)) => crate::obs::err(e).into_bytes(),
            Kept::Thumb(Err(e)) => crate::obs::err(e).into_bytes(),
        }
    }
}

/// What one handle does, step by step; the last step drops the handle while
/// what it gave is kept and looked at after everything else.
struct Side<'a> {
    f: &'a F,
    h: Option<RawFileHandle>,
    kept: Kept,
}
const KEEP: &[Op] = &[Op::Raw(false), Op::ThumbNth(0)];

impl<'a> Side<'a> {
    fn new(f: &'a F) -> Self {
        Side { f, h: None, kept: Kept::No }
    }
    fn keep(&mut self, k: usize) {
        let h = self.h.as_ref().unwrap();
        self.kept = match KEEP[k] {
            Op::Raw(s) => Kept::Raw(h.raw_data(s)),
            _ => {
                let n = h.thumbnail_sizes().and_then(|s| s.first().copied());
                match n {
                    Some(n) => Kept::Thumb(h.thumbnail_for_size(n)),
                    None => Kept::No,
                }
            }
        }
    }
}

type Ref = Vec<Vec<Result<Vec<u8>, String>>>;

fn check(key: &str, what: &str, got: Vec<u8>, want: &Result<Vec<u8>, String>, r: &mut Rec) {
    r.trace(1, &got);
    match want {
        Ok(w) if *w == got => {}
        Ok(w) => r.bad(key, format!("{what} is not as when used alone: {}", diff(&got, w))),
        Err(e) => r.bad(key, format!("{what} has no reference: {e}")),
    }
}

/// All interleavings of a and b steps, as bit masks (1: the second side)
fn merges(a: usize, b: usize) -> Vec<u32> {
    (0..1u32 << (a + b)).filter(|m| m.count_ones() as usize == b).collect()
}

// --- two threads under a controlled scheduler

struct St {
    /// whose turn it is
    turn: usize,
    /// steps made by the running side since it got the turn
    steps: u64,
    done: [bool; 2],
    /// when to take the turn away: number of steps of each successive run
    plan: Vec<u64>,
    beat: u64,
    stalls: u32,
}
struct Sched {
    m: Mutex<St>,
    c: Condvar,
}

impl Sched {
    fn give(&self, s: &mut St, to: usize) {
        if !s.done[to] {
            s.turn = to;
            s.steps = 0;
        }
        self.c.notify_all();
    }
    /// A scheduling point of side `me`
    fn point(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.beat += 1;
        if s.turn == me {
            if let Some(&n) = s.plan.first() {
                if s.steps >= n {
                    s.plan.remove(0);
                    self.give(&mut s, 1 - me);
                }
            }
        }
        self.wait(s, me);
    }
    fn wait(&self, mut s: std::sync::MutexGuard<'_, St>, me: usize) {
        let mut beat = s.beat;
        while s.turn != me {
            let (g, t) = self.c.wait_timeout(s, Duration::from_millis(400)).unwrap();
            s = g;
            if t.timed_out() && s.turn != me {
                if s.beat == beat {
                    // the other side waits for something this one holds
                    s.stalls += 1;
                    s.turn = me;
                    s.steps = 0;
                }
                beat = s.beat;
            }
        }
        s.steps += 1;
    }
    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.done[me] = true;
        s.plan.clear();
        self.give(&mut s, 1 - me);
    }
}

/// What each thread does with its file
const SCRIPT: &[Op] = &[Op::Type, Op::TypeId, Op::Raw(false), Op::Meta, Op::ThumbNth(0), Op::Orient];

fn script(f: &F, point: impl Fn() + 'static + Clone) -> Vec<Result<Vec<u8>, String>> {
    let p = point.clone();
    HOOK.with(|h| *h.borrow_mut() = Some(Box::new(p)));
    let mut out = vec![];
    point();
    match rawfile_from_io(Hooked::new(f.data.clone()), f.hint()) {
        Ok(h) => {
            let h = std::rc::Rc::new(h);
            for op in SCRIPT {
                point();
                out.push(pool::catch(|| observe(&h, op)));
            }
            point();
        }
        Err(e) => out.push(Err(format!("{e:?}"))),
    }
    HOOK.with(|h| *h.borrow_mut() = None);
    out
}

/// Run both scripts; `start` begins, and the turn goes over after each of the
/// numbers of steps.
fn threads(f: [&F; 2], start: usize, plan: Vec<u64>) -> [Vec<Result<Vec<u8>, String>>; 2] {
    let sc = Arc::new(Sched {
        m: Mutex::new(St { turn: start, steps: 0, done: [false; 2], plan, beat: 0, stalls: 0 }),
        c: Condvar::new(),
    });
    let mut r: Vec<Vec<_>> = std::thread::scope(|s| {
        let t: Vec<_> = (0..2)
            .map(|i| {
                let sc = sc.clone();
                let f = f[i];
                s.spawn(move || {
                    let p = sc.clone();
                    let o = pool::catch(|| script(f, move || p.point(i)));
                    sc.finish(i);
                    o.unwrap_or_else(|e| vec![Err(e)])
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let b = r.pop().unwrap();
    [r.pop().unwrap(), b]
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C12", "model_checking", thorough);
    ctx.rule = "every interleaving of calls on two open files, and every schedule of two threads with one file each (switching at calls and at stream operations, up to the preemption bound), gives on each handle the answers it gives when used alone in a process; what a handle gave stays as it was when other handles work or are dropped".into();
    ctx.assumptions = vec![
        "threads switch at calls and stream operations (under the controlled scheduler), not within the computations between them; a side that waits for a lock the other holds lets that one run".into(),
        "the reference is the answer in a process of its own".into(),
    ];
    let fs = files(thorough);
    let nf = fs.len();
    let mut ops = alphabet();
    ops.push(Op::Value("Exif.Photo.DateTimeOriginal"));
    let no = ops.len();
    let only_fresh = Opts { fresh: true, hang: Duration::from_secs(30), ..Opts::default() };
    let mut flat = vec![];
    pool::run((nf * no) as u64, &only_fresh, &|i| {
        let i = i as usize;
        pack(pool::catch(|| observe(&std::rc::Rc::new(open(&fs[i / no])), &ops[i % no])))
    }, |i, st, d| flat.push((i, if st.is_ok() { Some(d) } else { None })));
    flat.sort_by_key(|x| x.0);
    let mut flat = flat.into_iter();
    let refs: Ref = fs.iter().map(|_| ops.iter().map(|_| unpack(flat.next().unwrap().1)).collect()).collect();
    let at = |op: &Op| ops.iter().position(|o| o == op).unwrap_or_else(|| panic!("{op:?}"));
    for (i, f) in fs.iter().enumerate() {
        if matches!(&refs[i][at(&Op::Raw(true))], Ok(v) if crate::obs::is_err(v)) && f.ext != "jpg" {
            ctx.violation(format!("reference {}", f.name), "no raw data".to_string());
        }
        if std::env::var_os("ORVERIF_DEBUG").is_some() {
            let s = |o| match &refs[i][at(o)] { Ok(v) => crate::obs::show(v), Err(e) => e.clone() };
            eprintln!("{} raw {:.60} thumb {:.30} id {}", f.name, s(&Op::Raw(false)), s(&Op::ThumbNth(0)), s(&Op::TypeId));
        }
    }
    let opts = Opts { hang: Duration::from_secs(60), ..Opts::default() };

    // A: one thread, all interleavings of [open, query, take, drop] on two handles
    let ms = merges(4, 4);
    let sc: &[(usize, usize)] = if thorough { &[(0, 0), (0, 1), (1, 0), (1, 1)] } else { &[(0, 0), (1, 1)] };
    let n = nf * nf * sc.len();
    let dec = |i: u64| {
        let mut m = Mix(i);
        (m.take(nf), m.take(nf), m.pick(sc))
    };
    let nm = |i: u64| {
        let (a, b, k) = dec(i);
        format!("handles {} {} keep {k:?}", fs[a].name, fs[b].name)
    };
    par(&mut ctx, "pairs of files x kept data (all 70 interleavings of open, query, take, drop each)", n as u64, 2, &opts, &nm, &|i, r| {
        let (a, b, k) = dec(i);
        let key = nm(i);
        // large files: only the interleavings with the middle steps apart
        let q = [(i as usize * 5 + 3) % no, (i as usize * 11 + 7) % no];
        for m in &ms {
            let mut s = [Side::new(&fs[a]), Side::new(&fs[b])];
            let mut st = [0usize; 2];
            for bit in 0..8 {
                let w = (m >> bit & 1) as usize;
                let fi = [a, b][w];
                match st[w] {
                    0 => s[w].h = Some(open(s[w].f)),
                    1 => {
                        let o = std::rc::Rc::new(s[w].h.take().unwrap());
                        let got = observe(&o, &ops[q[w]]);
                        check(&key, &format!("{:?} of {} in {m:08b}", ops[q[w]], fs[fi].name), got, &refs[fi][q[w]], r);
                        s[w].h = Some(std::rc::Rc::try_unwrap(o).unwrap_or_else(|_| panic!("kept")));
                    }
                    2 => s[w].keep([k.0, k.1][w]),
                    _ => s[w].h = None,
                }
                st[w] += 1;
            }
            for w in 0..2 {
                let fi = [a, b][w];
                let op = &KEEP[[k.0, k.1][w]];
                if !matches!(s[w].kept, Kept::No) {
                    check(&key, &format!("kept {op:?} of {} in {m:08b}", fs[fi].name), s[w].kept.bytes(), &refs[fi][at(op)], r);
                }
            }
        }
    });

    // B: every pair of queries, on a file and its kin, both handles open
    let kin: Vec<(usize, usize)> = (0..nf).flat_map(|i| {
        let mut v: Vec<usize> = (0..nf).filter(|j| fs[*j].ext == fs[i].ext && (thorough || fs[*j].kind == fs[i].kind)).collect();
        v.push((i + 7) % nf);
        v.into_iter().map(move |j| (i, j)).collect::<Vec<_>>()
    }).collect();
    let dec = |i: u64| {
        let mut m = Mix(i);
        let (x, p) = (m.take(no), m.pick(&kin));
        (p.0, p.1, x)
    };
    let nm = |i: u64| {
        let (a, b, x) = dec(i);
        format!("queries {} {:?} {}", fs[a].name, ops[x], fs[b].name)
    };
    par(&mut ctx, "files x query x kin file (then every query there, and the first again)", (kin.len() * no) as u64, 8, &opts, &nm, &|i, r| {
        let (a, b, x) = dec(i);
        let key = nm(i);
        let ha = std::rc::Rc::new(open(&fs[a]));
        let hb = std::rc::Rc::new(open(&fs[b]));
        for y in 0..no {
            check(&key, &format!("{:?} of {} before {:?}", ops[x], fs[a].name, ops[y]), observe(&ha, &ops[x]), &refs[a][x], r);
            check(&key, &format!("{:?} of {}", ops[y], fs[b].name), observe(&hb, &ops[y]), &refs[b][y], r);
        }
    });

    // C: the first calls of a process
    let nm = |i: u64| format!("first {} {:?} then {}", fs[i as usize % nf].name, ops[i as usize / nf % no], fs[i as usize / nf / no].name);
    let nc = if thorough { nf * no * nf } else { nf * no * 5 };
    let dec = |i: u64| {
        let (a, x, j) = (i as usize % nf, i as usize / nf % no, i as usize / nf / no);
        (a, x, if thorough { j } else { [a + 1, a + 2, a + nf - 1, a + 20, a + 31][j] % nf })
    };
    let nm = |i: u64| {
        let _ = &nm;
        let (a, x, b) = dec(i);
        format!("first {} {:?} then {}", fs[a].name, ops[x], fs[b].name)
    };
    par(&mut ctx, "first call of a process: file x query, then another file", nc as u64, 1, &only_fresh, &nm, &|i, r| {
        let (a, x, b) = dec(i);
        let key = nm(i);
        let h = std::rc::Rc::new(open(&fs[a]));
        check(&key, &format!("{:?} of {}", ops[x], fs[a].name), observe(&h, &ops[x]), &refs[a][x], r);
        let g = std::rc::Rc::new(open(&fs[b]));
        for y in [Op::TypeId, Op::Raw(false), Op::Meta, Op::ThumbNth(0)] {
            check(&key, &format!("{y:?} of {}", fs[b].name), observe(&g, &y), &refs[b][at(&y)], r);
        }
    });

    // D: two threads
    let want: Vec<Vec<&Result<Vec<u8>, String>>> = (0..nf).map(|i| SCRIPT.iter().map(|o| &refs[i][at(o)]).collect()).collect();
    let lens: Vec<u64> = compute(nf as u64, &|i| {
        let n = std::rc::Rc::new(std::cell::Cell::new(0u64));
        let m = n.clone();
        script(&fs[i as usize], move || m.set(m.get() + 1));
        n.get().to_le_bytes().to_vec()
    }).into_iter().map(|d| d.map_or(0, |d| u64::from_le_bytes(d.try_into().unwrap()))).collect();
    let pairs: Vec<(usize, usize)> = if thorough {
        (0..nf).flat_map(|a| (0..nf).map(move |b| (a, b))).collect()
    } else {
        kin.iter().copied().filter(|p| fs[p.0].kind == fs[p.1].kind && p.0 != p.1 || fs[p.0].ext != fs[p.1].ext).collect()
    };
    // a bounded number of switch points per run: all when few, else evenly spread
    let cap = if thorough { 300 } else { 40 };
    let mut scheds: Vec<(usize, usize, usize, u64, u64)> = vec![];
    for &(a, b) in &pairs {
        for start in 0..2 {
            let l = [lens[a], lens[b]][start];
            let st = (l / if fs[a].kind == fs[b].kind { cap } else { cap.min(10) }).max(1);
            let mut k = 1 + (a as u64 % st);
            while k <= l {
                scheds.push((a, b, start, k, u64::MAX));
                k += st;
            }
        }
    }
    // two switches
    let cap2 = if thorough { 24 } else { 8 };
    for &(a, b) in kin.iter().filter(|p| p.1 == p.0 + 1) {
        let st = [(lens[a] / cap2).max(1), (lens[b] / cap2).max(1)];
        let mut k = 1;
        while k <= lens[a] {
            let mut j = 1;
            while j <= lens[b] {
                scheds.push((a, b, 0, k, j));
                j += st[1];
            }
            k += st[0];
        }
    }
    let nm = |i: u64| {
        let s = &scheds[i as usize];
        format!("threads {} {} start {} switch {} {}", fs[s.0].name, fs[s.1].name, s.2, s.3, s.4 as i64)
    };
    let th = Opts { fresh: true, hang: Duration::from_secs(60), ..Opts::default() };
    par(&mut ctx, "two threads: pairs of files x starting side x switch points", scheds.len() as u64, 1, &th, &nm, &|i, r| {
        let s = scheds[i as usize];
        let key = nm(i);
        let mut plan = vec![s.3];
        if s.4 != u64::MAX {
            plan.push(s.4);
        }
        let out = threads([&fs[s.0], &fs[s.1]], s.2, plan);
        for w in 0..2 {
            let fi = [s.0, s.1][w];
            r.transitions += lens[fi];
            if out[w].len() != SCRIPT.len() {
                r.bad(&key[..], format!("{} didn't finish: {:?}", fs[fi].name, out[w].iter().filter_map(|x| x.as_ref().err()).next()));
            }
            for (k, o) in out[w].iter().enumerate() {
                match o {
                    Ok(g) => check(&key, &format!("{:?} of {}", SCRIPT[k], fs[fi].name), g.clone(), want[fi][k], r),
                    Err(e) => r.bad(&key[..], format!("{:?} of {}: {e}", SCRIPT[k], fs[fi].name)),
                }
            }
        }
    });
    ctx.finish()
}
