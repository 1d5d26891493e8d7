//! C05: what is decoded in parallel is the same under every schedule.
use crate::alloc;
use crate::asm::V;
use crate::checks::c06;
use crate::checks::robust::hint;
use crate::codec::fuji::{Fuji, Seen};
use crate::corpus::{self, with, Cfg};
use crate::obs;
use crate::pool::Opts;
use crate::rec::{image, par, Rec};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap, RawImage};
use rayon_core::explore::{explore, on_segment, once, point, Bounds, Ran};
use std::sync::Mutex;
use std::time::Duration;

/// What isn't all explored: much more schedules than there should be.
const CUT: &[u8] = b"cut";
static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
fn limit() -> u64 {
    let t = START.get_or_init(std::time::Instant::now).elapsed();
    if thorough() {
        u64::MAX
    } else if t < Duration::from_secs(180) {
        20000
    } else {
        20
    }
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        point()
    }
    fn flush(&self) {}
}
static LOG: Log = Log;

/// what is decoded: everything the image says, or the error
fn show(r: &Result<RawImage, String>) -> Vec<u8> {
    match r {
        Err(e) => format!("E: {e}").into_bytes(),
        Ok(r) => {
            let mut o = format!("{}x{} {:?} {} bits ", r.width(), r.height(), r.data_type(), r.bpc()).into_bytes();
            if let Some(d) = r.data16() {
                o.extend(d.iter().flat_map(|v| v.to_le_bytes()));
            } else if let Some(d) = r.data8() {
                o.extend(d);
            }
            o
        }
    }
}
fn decode(data: &[u8], ext: &str) -> Result<RawImage, String> {
    let f = rawfile_from_memory(data.to_vec(), Some(hint(ext))).map_err(|e| format!("{e:?}"))?;
    f.raw_data(false).map_err(|e| format!("{e:?}"))
}

struct Case {
    name: String,
    ext: &'static str,
    data: Vec<u8>,
    /// the pixels, if all of it is good
    want: Option<Vec<u16>>,
    tasks: usize,
    /// the tasks write into one image
    shared: bool,
}

/// `short`: the last row of tiles holds the rows that are left only
fn tiles(nx: usize, ny: usize, bad: usize, short: bool) -> Case {
    let (tw, th) = (4, 3);
    // the last ones hang over the edges
    let (w, h) = (tw * nx - 1, th * ny - 1);
    let img = image(3, w, h, 14);
    let mut ps = vec![];
    for ty in 0..ny {
        for tx in 0..nx {
            let mut t = vec![];
            let rows = if short { ((ty + 1) * th).min(h) } else { (ty + 1) * th } - ty * th;
            for y in ty * th..ty * th + rows {
                for x in tx * tw..(tx + 1) * tw {
                    t.push(if x < w && y < h { img[y * w + x] } else { 0 });
                }
            }
            let mut d = c06::jpeg(&t, tw, rows, 14, ps.len() % 3).unwrap();
            if bad >> ps.len() & 1 == 1 {
                d[1] = 0;
            }
            ps.push(d);
        }
    }
    let f = c06::pieces(corpus::dng, Cfg::new(true, w, h), (14, 7), &ps, 0, Some((tw, th)), 0, false, "raw");
    Case {
        name: format!("tiles {nx}x{ny}{} bad {bad:b}", if short { " short" } else { "" }),
        ext: "dng",
        data: f.data,
        want: (bad == 0).then_some(img),
        tasks: nx * ny,
        shared: false,
    }
}

fn interlaced(w: usize, h: usize, cut: usize) -> Case {
    let img = image(3, w, h, 12);
    let field = |s: usize| {
        let mut o = vec![];
        for r in img.chunks(w).skip(s).step_by(2) {
            for p in r.chunks(2) {
                o.extend([(p[0] >> 4) as u8, (p[0] << 4) as u8 | (p[1] >> 8) as u8, p[1] as u8]);
            }
        }
        o
    };
    let mut d = field(0);
    let at = ((((h + 1) / 2) * w * 3 / 2) / 2048 + 1) * 2048;
    d.resize(at, 0xaa);
    d.extend(field(1));
    let n = d.len() - cut;
    d.truncate(n);
    let c = Cfg::new(false, w, h).tweak(with("main", 0x117, V::L(vec![(w * h * 3 / 2) as u32])));
    let mut f = corpus::orf_with(&c, &d, 16);
    if cut > 0 {
        // the data are at the end
        let end = f.labels["raw"] + n;
        f.data.truncate(end);
    }
    Case {
        name: format!("rows {w}x{h} cut {cut}"),
        ext: "orf",
        data: f.data,
        want: (cut == 0).then_some(img),
        tasks: h,
        shared: true,
    }
}

const XTRANS: &[u8; 36] = b"GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";
/// `bad`: what is wrong with each strip: 0 nothing, 1 is beyond the end of the
/// data, 2 holds invalid codes
fn strips(x: bool, q: bool, n: usize, lines: usize, last: usize, bad: &[u8]) -> Option<Case> {
    let cfa = |s: &[u8]| -> Vec<u8> {
        s.iter()
            .map(|c| match c {
                b'R' => 0,
                b'G' => 1,
                _ => 2,
            })
            .collect()
    };
    let f = Fuji {
        xtrans: x,
        bits: 14,
        cfa: if x { cfa(XTRANS) } else { cfa(b"RGGB") },
        cw: if x { 6 } else { 2 },
        // bases that change within a strip, and from a strip to the next
        q: q.then_some(|s, l| ((s * 5 + l * 3) % 6) as i32),
        pad: 0,
    };
    let (w, h) = (768 * (n - 1) + last, 6 * lines);
    // close to each other, for the data to be shorter than plain ones
    let img: Vec<u16> = image(3, w, h, 5).iter().enumerate().map(|(i, v)| v + 5000 + (i % w / 768 * 700) as u16).collect();
    let (mut d, want) = f.encode(&img, w, &mut Seen::default());
    let at = (16 + 4 * n + 15) / 16 * 16 + if q { n * ((lines + 15) / 16 * 16) } else { 0 };
    let len = |d: &[u8], i: usize| u32::from_be_bytes(d[16 + 4 * i..][..4].try_into().unwrap()) as usize;
    let mut name = format!("{}{} strips {n}x{lines}+{last}", if q { "lossy " } else { "" }, if x { "xtrans" } else { "bayer" });
    for (i, b) in bad.iter().enumerate() {
        let off = at + (0..i).map(|j| len(&d, j)).sum::<usize>();
        match b {
            0 => {}
            1 => {
                // the sizes that follow move too
                d[16 + 4 * i..][..4].copy_from_slice(&0x7000_0000u32.to_be_bytes());
                break;
            }
            _ => {
                let l = len(&d, i);
                d[off..off + l].fill(if *b == 2 { 0 } else { 0xff });
            }
        }
    }
    if bad.iter().any(|b| *b > 0) {
        name += &format!(" bad {bad:?}");
    }
    if d.len() >= 14 * w * h / 8 {
        return None;
    }
    let mut c = Cfg::new(false, w, h);
    c.img = vec![];
    let mut o = corpus::raf_opt(&c);
    o.bps = 14;
    if x {
        let mut p = f.cfa.clone();
        p.reverse();
        o.meta.push((0x131, p));
    }
    let file = corpus::raf_with(&c, &o, &d);
    Some(Case {
        name,
        ext: "raf",
        data: file.data,
        want: bad.iter().all(|b| *b == 0).then_some(want),
        tasks: n,
        shared: true,
    })
}

/// All the schedules of decoding a case.
fn schedules(c: &Case, b: Bounds, r: &mut Rec) {
    let key = &c.name;
    let reference = decode(&c.data, c.ext);
    if let Some(want) = &c.want {
        let got = reference.as_ref().ok().and_then(|i| i.data16()).unwrap_or(&[]);
        if got != &want[..] {
            return r.bad(format!("{key}: in order"), "not the image stored");
        }
    }
    let want = show(&reference);
    if std::env::var("ORVERIF_DEBUG").is_ok() && c.want.is_none() {
        let l = format!("{key}: {}\n", String::from_utf8_lossy(&want[..want.len().min(60)]));
        unsafe { libc::write(2, l.as_ptr() as *const _, l.len()) };
    }
    let (mut steals, mut blocked) = (0, 0);
    let mut n = 0;
    explore(b, &mut || decode(&c.data, c.ext), &mut |got, ran: &Ran| {
        let got = show(&got);
        r.trace(ran.moves, &got);
        r.state(format!("{key} {:?}", ran.choices).as_bytes());
        steals += ran.steals;
        blocked += ran.blocked;
        if got != want {
            let s: Vec<usize> = ran.choices.iter().map(|c| c.0).collect();
            r.bad(
                format!("{key}: {} threads", b.threads),
                format!("schedule {s:?}, {} preemptions allowed: {}", b.preempt, obs::diff(&got, &want)),
            );
            return false;
        }
        n += 1;
        if n >= limit() {
            r.state(CUT);
            return false;
        }
        true
    });
    if c.tasks > 1 && b.threads > 1 && steals == 0 {
        // decoded by a single task: every schedule is the same
        r.state(b"not parallel");
    }
    if blocked > 0 {
        r.state(b"locks");
    }
}

// ---- footprints

struct Block {
    at: usize,
    last: Vec<u8>,
    /// which segment wrote, 0 for none
    by: Vec<u32>,
    twice: Option<(usize, u32, u32)>,
}
#[derive(Default)]
struct Foot {
    on: bool,
    fill: Option<u8>,
    /// the blocks to fill
    which: Vec<usize>,
    segment: u32,
    blocks: Vec<Block>,
}
static FOOT: Mutex<Option<Foot>> = Mutex::new(None);

fn segment(_: usize) {
    let mut g = FOOT.lock().unwrap();
    let Some(f) = g.as_mut() else { return };
    f.segment += 1;
    if !f.on {
        f.on = true;
        for (i, (at, n)) in alloc::tracked().into_iter().enumerate() {
            let b = unsafe { std::slice::from_raw_parts_mut(at as *mut u8, n) };
            if let (Some(v), true) = (f.fill, f.which.contains(&i)) {
                b.fill(v);
            }
            f.blocks.push(Block { at, last: b.to_vec(), by: vec![0; n], twice: None });
        }
        return;
    }
    let s = f.segment;
    let live = alloc::tracked();
    for b in &mut f.blocks {
        if !live.contains(&(b.at, b.last.len())) {
            continue;
        }
        let now = unsafe { std::slice::from_raw_parts(b.at as *const u8, b.last.len()) };
        for i in 0..now.len() {
            if now[i] != b.last[i] {
                if b.by[i] != 0 && b.by[i] != s {
                    b.twice.get_or_insert((i, b.by[i], s));
                }
                b.by[i] = s;
                b.last[i] = now[i];
            }
        }
    }
}

/// One run in which the bytes each task writes are noted. The image, and for
/// each of its bytes the task.
fn footprint(c: &Case, n: usize, prefix: &[usize], fill: Option<u8>, which: &[usize]) -> (Vec<u8>, Foot, Option<(usize, usize)>) {
    alloc::set_track(Some((n, 2 * n + 256)));
    *FOOT.lock().unwrap() = Some(Foot { fill, which: which.to_vec(), ..Foot::default() });
    on_segment(Some(segment));
    let (got, _) = once(Bounds { threads: 8, preempt: 0 }, prefix, &mut || decode(&c.data, c.ext));
    on_segment(None);
    let f = FOOT.lock().unwrap().take().unwrap();
    alloc::set_track(None);
    let d = got.as_ref().ok().and_then(|i| i.data16()).map(|d| d.as_ptr() as usize);
    let at = d.and_then(|d| f.blocks.iter().position(|b| b.at <= d && d < b.at + b.last.len()).map(|i| (i, d - f.blocks[i].at)));
    let bytes: Vec<u8> = got.ok().and_then(|i| i.data16().map(|d| d.iter().flat_map(|v| v.to_le_bytes()).collect())).unwrap_or_default();
    (bytes, f, at)
}

fn footprints(c: &Case, r: &mut Rec) {
    let key = format!("{}: what tasks write", c.name);
    let Some(want) = &c.want else { return };
    let want: Vec<u8> = want.iter().flat_map(|v| v.to_le_bytes()).collect();
    let n = want.len();
    // what is made once
    let _ = footprint(c, n, &[], None, &[]);
    // in order, and in the order reversed: every job is stolen at once
    for prefix in [&[][..], &[1; 64][..]] {
        let (got, f, at) = footprint(c, n, prefix, None, &[]);
        r.eq(&key, &got, &want);
        let Some((k, off)) = at else {
            r.state(b"each task has its own image");
            continue;
        };
        let _ = (f, off);
        for fill in [0x00, 0xff, 0xa5, 0x5a] {
            let (got, f, at) = footprint(c, n, prefix, Some(fill), &[k]);
            if at.map(|a| a.0) != Some(k) {
                r.bad(&key, "not the same blocks");
                continue;
            }
            // what is written as it was already isn't seen: another fill shows it
            let b = &f.blocks[k];
            r.transitions += b.by.iter().collect::<std::collections::HashSet<_>>().len() as u64;
            r.trace(1, &got);
            if let Some((i, x, y)) = b.twice {
                r.bad(&key, format!("fill {fill:#x}: byte {i} by two tasks ({x} and {y})"));
            }
            if got != want {
                r.bad(
                    &key,
                    format!("fill {fill:#x}: not written, or depends on what other tasks write: {}", obs::diff(&got, &want)),
                );
            }
        }
    }
}

fn all() -> Vec<(String, String, Vec<u8>)> {
    crate::checks::robust::samples(16, 8, true)
        .into_iter()
        .map(|s| (s.name.to_string(), s.ext.to_string(), s.data))
        .collect()
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C05", "model_checking", thorough);
    ctx.rule = "every schedule of the thread pool while an image is decoded gives the image, or the error, that decoding in order gives; each byte of a shared image is written by one task, whose values do not depend on what the others wrote".into();
    limit();
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    alloc::HOOK.store(point as fn() as *mut (), std::sync::atomic::Ordering::SeqCst);
    let opts = Opts { hang: Duration::from_secs(if thorough { 3000 } else { 300 }), ..Opts::default() };

    let mut cases = vec![];
    for (nx, ny) in [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 4), (5, 1), (2, 3)] {
        let n = nx * ny;
        for bad in 0..1usize << n {
            if n >= 5 && bad.count_ones() > 1 && !thorough {
                continue;
            }
            cases.push(tiles(nx, ny, bad, false));
            if bad.count_ones() < 2 {
                cases.push(tiles(nx, ny, bad, true));
            }
        }
    }
    for h in 1..=5 {
        for cut in [0, 1, 3, 6, 9] {
            cases.push(interlaced(10, h, cut));
        }
    }
    for x in [false, true] {
        for n in 1..=5usize {
            for last in [768, 384] {
                // not less than a strip
                if n == 1 && last < 768 {
                    continue;
                }
                cases.extend(strips(x, false, n, 1, last, &vec![0; n]));
                if n < 4 {
                    cases.extend(strips(x, true, n, 2, last, &vec![0; n]));
                }
            }
            let kinds = if n <= 3 { 4usize.pow(n as u32) } else { 1 << n };
            for k in 1..kinds {
                let (b, base) = if n <= 3 { (k, 4usize) } else { (k, 2) };
                let bad: Vec<u8> = (0..n).map(|i| (b / base.pow(i as u32) % base) as u8 * if base == 2 { 2 } else { 1 }).collect();
                cases.extend(strips(x, false, n, 1, 768, &bad));
            }
        }
    }
    // (threads, preemptions, tasks at most)
    let bounds: &[(usize, usize, usize)] = if thorough {
        &[(1, 0, 6), (2, 0, 6), (3, 0, 5), (4, 0, 4), (2, 1, 4), (3, 1, 3), (4, 1, 3), (2, 2, 3), (3, 2, 2)]
    } else {
        &[(1, 0, 6), (2, 0, 5), (3, 0, 4), (4, 0, 3), (2, 1, 3), (3, 1, 2)]
    };
    for (threads, preempt, tasks) in bounds.iter().copied() {
        let these: Vec<&Case> = cases
            .iter()
            .filter(|c| c.tasks <= tasks && !(threads == 3 && c.tasks > 4 && c.want.is_none()) && (preempt == 0 || c.want.is_some() || c.ext != "raf" || c.tasks < 3 || thorough))
            .collect();
        let name = |i: u64| these[i as usize].name.clone();
        par(
            &mut ctx,
            &format!("schedules of {threads} threads, {preempt} preemptions, {tasks} tasks at most"),
            these.len() as u64,
            1,
            &opts,
            &name,
            &|i, r: &mut Rec| {
                let t = std::time::Instant::now();
                schedules(these[i as usize], Bounds { threads, preempt }, r);
                if std::env::var("ORVERIF_DEBUG").is_ok() {
                    let l = format!("{threads} {preempt} {} {} {:?}\n", these[i as usize].name, r.traces, t.elapsed());
                    unsafe { libc::write(2, l.as_ptr() as *const _, l.len()) };
                }
            },
        );
    }
    // whatever else is done in parallel
    let samples = all();
    par(
        &mut ctx,
        "schedules of 2 threads, no preemption: every query of every format",
        samples.len() as u64,
        1,
        &opts,
        &|i| format!("queries of {}", samples[i as usize].0),
        &|i, r: &mut Rec| {
            let (name, ext, data) = &samples[i as usize];
            for op in obs::alphabet() {
                let ask = || crate::checks::robust::query(data, ext, &op).unwrap_or_else(|p| format!("panic {p}").into_bytes());
                let want = ask();
                let mut n = 0;
                explore(Bounds { threads: 2, preempt: 0 }, &mut { ask }, &mut |got, ran| {
                    r.trace(ran.moves + 1, &got);
                    if got != want {
                        r.bad(format!("queries of {name}"), format!("{op:?}: {:?}: {}", ran.choices, obs::diff(&got, &want)));
                    }
                    n += 1;
                    if n >= limit() {
                        r.state(CUT);
                    }
                    got == want && n < limit()
                });
            }
        },
    );
    // what tasks write
    let good: Vec<&Case> = cases.iter().filter(|c| c.want.is_some() && c.tasks > 1).collect();
    par(&mut ctx, "footprints", good.len() as u64, 1, &opts, &|i| good[i as usize].name.clone(), &|i, r: &mut Rec| {
        footprints(good[i as usize], r)
    });
    if ctx.states.contains(&crate::report::hash(CUT)) {
        ctx.exhaustive = false;
    }
    ctx.finish()
}
