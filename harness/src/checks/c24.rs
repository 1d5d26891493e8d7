//! C24: the ISO media container of CR3 files.
use super::robust::hint;
use crate::asm::Asm;
use crate::corpus::{self as co, Cfg};
use crate::obs::{self, Op};
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::{rawfile_from_memory, Bitmap};

fn ops() -> Vec<Op> {
    obs::alphabet().into_iter().filter(|o| *o != Op::Dump).collect()
}
fn answers(data: &[u8]) -> Vec<Vec<u8>> {
    ops()
        .iter()
        .map(|op| match rawfile_from_memory(data.to_vec(), Some(hint("cr3"))) {
            Ok(f) => obs::observe(&f, op),
            Err(e) => obs::err(&e).into_bytes(),
        })
        .collect()
}
fn alike(rec: &mut Rec, key: &str, data: &[u8], want: &[Vec<u8>]) {
    for ((op, g), w) in ops().iter().zip(answers(data)).zip(want) {
        rec.trace(1, &g);
        if &g != w {
            rec.bad(format!("{key} {op:?}"), obs::diff(&g, w));
        }
    }
}
fn same<T: PartialEq + std::fmt::Debug>(rec: &mut Rec, key: String, got: T, want: T) {
    rec.trace(1, format!("{got:?}").as_bytes());
    if got != want {
        rec.bad(key, format!("got {got:?} want {want:?}"));
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut p = p.clone();
            p.insert(i, n - 1);
            o.push(p);
        }
    }
    o
}

// --- a tree of boxes
#[derive(Clone)]
enum P {
    B(Vec<u8>),
    R32(String, Option<String>),
    R64(String, Option<String>),
    L(String),
}
#[derive(Clone)]
struct N {
    name: [u8; 4],
    /// form of the size: 0: 32 bits, 1: 64 bits, 2: to the end of the file
    form: u8,
    head: Vec<P>,
    kids: Vec<N>,
    tail: Vec<P>,
    /// its kids are boxes
    open: bool,
    label: &'static str,
}
fn leaf(name: &[u8; 4], head: Vec<P>) -> N {
    N { name: *name, form: 0, head, kids: vec![], tail: vec![], open: false, label: "" }
}
fn data(name: &[u8; 4], d: &[u8]) -> N {
    leaf(name, vec![P::B(d.to_vec())])
}
fn node(name: &[u8; 4], head: Vec<P>, kids: Vec<N>) -> N {
    N { name: *name, form: 0, head, kids, tail: vec![], open: true, label: "" }
}
fn emit(n: &N, a: &mut Asm) {
    if !n.label.is_empty() {
        a.label(n.label);
    }
    co::mbox(a, &n.name, n.form, |a| {
        let put = |a: &mut Asm, p: &P| match p {
            P::B(b) => {
                a.bytes(b);
            }
            P::R32(l, b) => {
                a.ref32(l, b.as_deref());
            }
            P::R64(l, b) => {
                a.ref64(l, b.as_deref());
            }
            P::L(l) => {
                a.label(l);
            }
        };
        for p in &n.head {
            put(a, p);
        }
        for k in &n.kids {
            emit(k, a);
        }
        for p in &n.tail {
            put(a, p);
        }
    });
    if !n.label.is_empty() {
        a.label(&format!("{}_end", n.label));
    }
}
fn bytes(top: &[N]) -> Vec<u8> {
    let mut a = Asm::new(true);
    for n in top {
        emit(n, &mut a);
    }
    a.finish().data
}
/// the content of a box of the file of the corpus
fn content(d: &[u8], path: &[&[u8; 4]], skip: &[usize]) -> Vec<u8> {
    let mut p = 0;
    while p + 8 <= d.len() {
        let n = u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        if &d[p + 4..p + 8] == path[0] {
            let c = &d[p + 8 + skip[0]..p + n];
            return if path.len() == 1 { c.to_vec() } else { content(c, &path[1..], &skip[1..]) };
        }
        p += n;
    }
    panic!("no such box");
}

const HEADER: [u8; 16] = [0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
const XMP: [u8; 16] = [0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac];
const PRV: [u8; 16] = [0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16];
const LABELS: [&str; 4] = ["jpg0", "jpg1", "raw", "meta"];

#[derive(Clone)]
struct O {
    /// 32-bit offsets, per track
    stco: u32,
    /// list of sample sizes, per track
    list: u32,
    /// 64-bit times: mvhd, then tkhd, then mdhd
    v1: u32,
    /// entries of CTBO
    table: Vec<u32>,
    /// order of the media data, unused bytes before each, in the second mdat
    order: Vec<usize>,
    gap: usize,
    second: u32,
    be: bool,
    /// the second track is a smaller raw
    sd: bool,
}
impl Default for O {
    fn default() -> O {
        O { stco: 0, list: 0, v1: 0, table: vec![1, 2, 3], order: vec![0, 1, 2, 3], gap: 0, second: 0, be: false, sd: false }
    }
}
fn cfg(be: bool) -> Cfg {
    Cfg::new(be, 24, 16)
}
fn w32(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|v| v.to_be_bytes()).collect()
}
fn w16(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|v| v.to_be_bytes()).collect()
}
fn times(v1: bool, len: usize) -> Vec<u8> {
    vec![0x11; if v1 { 2 * len } else { len }]
}
/// The boxes of the file: ftyp, moov, xmp, preview, mdat.
fn tree(o: &O) -> Vec<N> {
    let c = cfg(o.be);
    let base = co::cr3(&c).data;
    let hdr = |n: &[u8; 4]| data(n, &content(&base, &[b"moov", b"uuid", n], &[0, 16, 0]));
    let s = |l: &str| l.to_string();
    let mut ctbo = vec![P::B(w32(&[o.table.len() as u32]))];
    for t in &o.table {
        ctbo.push(P::B(w32(&[*t])));
        match t {
            1..=3 => {
                let l = ["xmp", "prvu", "mdat"][*t as usize - 1];
                ctbo.push(P::R64(s(l), None));
                ctbo.push(P::R64(format!("{l}_end"), Some(s(l))));
            }
            // some other thing
            5 => {
                ctbo.push(P::R64(s("jpg0"), None));
                ctbo.push(P::R64(s("jpg0_end"), Some(s("jpg0"))));
            }
            _ => ctbo.push(P::B(vec![0; 16])),
        }
    }
    let mut head = node(
        b"uuid",
        vec![P::B(HEADER.to_vec())],
        vec![
            hdr(b"CNCV"),
            hdr(b"CCTP"),
            leaf(b"CTBO", ctbo),
            hdr(b"CMT1"),
            hdr(b"CMT2"),
            hdr(b"CMT3"),
            hdr(b"CMT4"),
            hdr(b"THMB"),
        ],
    );
    head.label = "";
    let v = |k: u32| o.v1 >> k & 1 == 1;
    let mut m = vec![v(0) as u8, 0, 0, 0];
    m.extend(times(v(0), 8));
    m.extend(w32(&[1000]));
    m.extend(times(v(0), 4));
    m.extend([0; 80]);
    let mut moov = vec![head, data(b"mvhd", &m)];
    let dims = [(96, 64), (48, 32), (c.w as u16, c.h as u16), (0, 0)];
    for t in 0..4usize {
        let (w, h) = dims[t];
        let l = LABELS[t];
        let mut tk = vec![v(t as u32 + 1) as u8, 0, 0, 7];
        tk.extend(times(v(t as u32 + 1), 8));
        tk.extend(w32(&[t as u32 + 1, 0]));
        tk.extend(times(v(t as u32 + 1), 4));
        tk.extend([0; 52]);
        tk.extend(w32(&[(w as u32) << 16, (h as u32) << 16]));
        let mut md = vec![v(t as u32 + 5) as u8, 0, 0, 0];
        md.extend(times(v(t as u32 + 5), 8));
        md.extend(w32(&[1000]));
        md.extend(times(v(t as u32 + 5), 4));
        md.extend([0; 4]);
        let mut hd = vec![0; 8];
        hd.extend_from_slice(if t == 3 { b"meta" } else { b"vide" });
        hd.extend([0; 13]);
        let entry = if t == 3 {
            node(b"CTMD", vec![P::B(vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1]), P::B(w32(&[0]))], vec![])
        } else {
            let jpeg = t == 0 || (t == 1 && !o.sd);
            let mut e = vec![0; 6];
            e.extend(w16(&[1]));
            e.extend([0; 16]);
            e.extend(w16(&[w, h]));
            e.extend(w32(&[0x480000, 0x480000, 0]));
            e.extend(w16(&[1]));
            e.extend([0; 32]);
            e.extend(w16(&[24, 0xffff, if jpeg { 3 } else { 1 }, 0]));
            let kind = if jpeg { data(b"JPEG", &[0; 4]) } else { data(b"CMP1", &[0; 52]) };
            let cdi = node(b"CDI1", vec![P::B(vec![0; 4])], vec![data(b"IAD1", &[0; 20])]);
            node(b"CRAW", vec![P::B(e)], if jpeg { vec![kind, data(b"free", &[])] } else { vec![kind, cdi] })
        };
        let mut stsd = node(b"stsd", vec![P::B(w32(&[0, 1]))], vec![entry]);
        stsd.open = false;
        let len = P::R32(format!("{l}_end"), Some(s(l)));
        let stsz = if o.list >> t & 1 == 1 {
            leaf(b"stsz", vec![P::B(w32(&[0, 0, 1])), len])
        } else {
            leaf(b"stsz", vec![P::B(w32(&[0])), len, P::B(w32(&[1]))])
        };
        let off = if o.stco >> t & 1 == 1 {
            leaf(b"stco", vec![P::B(w32(&[0, 1])), P::R32(s(l), None)])
        } else {
            leaf(b"co64", vec![P::B(w32(&[0, 1])), P::R64(s(l), None)])
        };
        let stbl = node(b"stbl", vec![], vec![stsd, data(b"stts", &w32(&[0, 1, 1, 1])), data(b"stsc", &w32(&[0, 1, 1, 1, 1])), stsz, off]);
        let url = data(b"url ", &w32(&[1]));
        let dref = node(b"dref", vec![P::B(w32(&[0, 1]))], vec![url]);
        let minf = node(b"minf", vec![], vec![data(if t == 3 { b"nmhd" } else { b"vmhd" }, &[0; 12]), node(b"dinf", vec![], vec![dref]), stbl]);
        let mdia = node(b"mdia", vec![], vec![data(b"mdhd", &md), data(b"hdlr", &hd), minf]);
        moov.push(node(b"trak", vec![], vec![data(b"tkhd", &tk), mdia]));
    }
    let mut xmp = leaf(b"uuid", vec![P::B(XMP.to_vec()), P::B(b"<?xpacket?>".to_vec())]);
    xmp.label = "xmp";
    let j = c.jp(1, 324, 216, 18, None);
    let mut pw = w32(&[0]);
    pw.extend(w16(&[1, 324, 216, 1]));
    pw.extend(w32(&[j.len() as u32]));
    let prvw = leaf(b"PRVW", vec![P::B(pw), P::B(j)]);
    let mut prv = node(b"uuid", vec![P::B(PRV.to_vec()), P::B(w32(&[0, 1]))], vec![prvw]);
    prv.label = "prvu";
    let mut mdat = leaf(b"mdat", vec![]);
    mdat.label = "mdat";
    let mut other = leaf(b"mdat", vec![]);
    for k in &o.order {
        let b = if o.second >> k & 1 == 1 { &mut other } else { &mut mdat };
        b.head.push(P::B(vec![0x77; o.gap]));
        b.head.push(P::L(s(LABELS[*k])));
        b.head.push(P::B(media(&c, *k)));
        b.head.push(P::L(format!("{}_end", LABELS[*k])));
    }
    let mut top = vec![data(b"ftyp", b"crx \0\0\0\x01crx isom"), node(b"moov", vec![], moov), xmp, prv, mdat];
    if o.second != 0 {
        top.push(other);
    }
    top
}
fn media(c: &Cfg, k: usize) -> Vec<u8> {
    match k {
        0 => c.jp(2, 96, 64, 22, None),
        1 => c.jp(3, 48, 32, 14, None),
        2 => co::cr3_raw(c),
        _ => vec![1, 2, 3, 4],
    }
}

// --- places in the tree
type Path = Vec<usize>;
fn kids<'a>(top: &'a mut Vec<N>, p: &[usize]) -> &'a mut Vec<N> {
    match p.split_first() {
        None => top,
        Some((i, p)) => kids(&mut top[*i].kids, p),
    }
}
fn walk(v: &[N], at: &mut Path, all: &mut Vec<Path>, open: &mut Vec<Path>) {
    for (i, n) in v.iter().enumerate() {
        at.push(i);
        all.push(at.clone());
        if n.open {
            open.push(at.clone());
        }
        walk(&n.kids, at, all, open);
        at.pop();
    }
}
/// every box, and every box that holds boxes
fn places(top: &[N]) -> (Vec<Path>, Vec<Path>) {
    let (mut all, mut open) = (vec![], vec![vec![]]);
    walk(top, &mut vec![], &mut all, &mut open);
    // the entry of the metadata track and the reference of data hold no other boxes
    open.retain(|p| p.is_empty() || !matches!(&name(top, p), b"CTMD" | b"dref" | b"CDI1"));
    (all, open)
}
fn name(top: &[N], p: &[usize]) -> [u8; 4] {
    let n = &top[p[0]];
    if p.len() == 1 {
        n.name
    } else {
        name(&n.kids, &p[1..])
    }
}
fn reorder(v: &mut Vec<N>, p: &[usize], keep: usize) {
    let old = v.clone();
    for (k, i) in p.iter().enumerate() {
        v[keep + k] = old[keep + i].clone();
    }
}
fn set_form(top: &mut Vec<N>, p: &[usize], form: u8) {
    let (l, d) = p.split_last().unwrap();
    kids(top, d)[*l].form = form;
}
fn junk(kind: usize) -> N {
    let mut wide = leaf(b"skip", vec![]);
    wide.form = 1;
    let mut uuid64 = data(b"uuid", &[0x5a; 20]);
    uuid64.form = 1;
    // an unknown box that holds what looks like other boxes
    let decoy = node(
        b"zzzz",
        vec![],
        vec![
            node(b"moov", vec![], vec![node(b"trak", vec![], vec![data(b"tkhd", &[0; 84])])]),
            data(b"CMT1", b"II*\0\x08\0\0\0\0\0\0\0\0\0"),
            data(b"THMB", &[0; 24]),
            data(b"stsz", &w32(&[0, 3, 1])),
            data(b"PRVW", &[9; 24]),
        ],
    );
    match kind {
        0 => data(b"free", &[]),
        1 => data(b"abcd", &[1, 2, 3]),
        2 => wide,
        3 => data(b"uuid", &[0xa5; 16]),
        4 => data(b"uuid", &[0xa5; 40]),
        5 => uuid64,
        6 => decoy,
        7 => data(b"free", &[0; 1]),
        8 => data(&[0, 0, 0, 1], &[0; 8]),
        9 => data(b"wide", &[]),
        _ => data(b"\xa9xyz", &[0xff; 300]),
    }
}
const JUNK: usize = 11;

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C24", "model_checking", thorough);
    ctx.rule = "the previews, the metadata blocks and the raw track are those stored, and each of the 26 answers is that of the same boxes in the usual order and form".into();
    ctx.assumptions = vec!["ftyp is the first box, with a 32-bit size".into(), "a box of unknown size is only the last of the file (ISO 14496-12, 4.2)".into()];
    let o = Opts { mem: Some(2 << 30), ..Opts::default() };
    macro_rules! space {
        ($n:expr, $count:expr, $chunk:expr, $f:expr) => {
            par(&mut ctx, $n, $count as u64, $chunk, &o, &|i| format!("{} {i}", $n), &|i, r: &mut Rec| $f(i, r, format!("{} {i}", $n).as_str()));
        };
    }
    let opts = |k: u64| O { be: k & 1 == 1, sd: k & 2 == 2, ..O::default() };
    let base: Vec<Vec<Vec<u8>>> = crate::rec::compute(4, &|k| {
        let mut o = vec![];
        for a in answers(&bytes(&tree(&opts(k)))) {
            o.extend((a.len() as u64).to_le_bytes());
            o.extend(a);
        }
        o
    })
    .iter()
    .map(|b| {
        let b = b.as_ref().expect("the usual layout failed");
        let (mut p, mut o) = (0, vec![]);
        while p < b.len() {
            let n = u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
            o.push(b[p + 8..p + 8 + n].to_vec());
            p += 8 + n;
        }
        o
    })
    .collect();
    let usual = &base[0];

    // what is stored
    space!("the file itself", 4, 1, |i, rec: &mut Rec, key: &str| {
        let o = opts(i);
        let c = cfg(o.be);
        let d = bytes(&tree(&o));
        let f = match rawfile_from_memory(d, Some(hint("cr3"))) {
            Ok(f) => f,
            Err(e) => return rec.bad(key, obs::err(&e)),
        };
        let mut want = vec![(160u32, 120u32, c.jp(0, 160, 120, 12, None)), (324, 216, c.jp(1, 324, 216, 18, None)), (96, 64, media(&c, 0))];
        if !o.sd {
            want.push((48, 32, media(&c, 1)));
        }
        let mut sizes = f.thumbnail_sizes().map(|s| s.to_vec()).unwrap_or_default();
        sizes.sort();
        want.sort();
        let dims: Vec<u32> = want.iter().map(|w| w.0.max(w.1)).collect();
        same(rec, format!("{key} sizes"), sizes, dims);
        for (w, h, b) in want {
            match f.thumbnail_for_size(w.max(h)) {
                Ok(t) => {
                    same(rec, format!("{key} thumbnail {w}"), (t.width(), t.height()), (w, h));
                    if t.data8() != Some(&b[..]) {
                        rec.bad(format!("{key} thumbnail {w} data"), format!("{:?} bytes, {} stored", t.data8().map(|d| d.len()), b.len()));
                    }
                }
                Err(e) => rec.bad(format!("{key} thumbnail {w}"), obs::err(&e)),
            }
        }
        match f.raw_data(true) {
            Ok(r) => {
                same(rec, format!("{key} raw size"), (r.width(), r.height()), (c.w as u32, c.h as u32));
                if r.data8() != Some(&media(&c, 2)[..]) {
                    rec.bad(format!("{key} raw data"), "other");
                }
            }
            Err(e) => rec.bad(format!("{key} raw"), obs::err(&e)),
        }
        // as the file of the corpus, that is described and checked elsewhere
        if !o.sd {
            alike(rec, key, &co::cr3(&c).data, &base[i as usize]);
        }
    });

    // orders
    let plain = tree(&O::default());
    let (all, open) = places(&plain);
    for p in &open {
        let keep = p.is_empty() as usize;
        let n = kids(&mut plain.clone(), p).len() - keep;
        if n < 2 {
            continue;
        }
        let ps = perms(n);
        let label = if p.is_empty() { "the file".to_string() } else { String::from_utf8_lossy(&name(&plain, p)).to_string() };
        let n = format!("orders in {label} {p:?}");
        space!(&n, ps.len(), 20, |i: u64, rec: &mut Rec, key: &str| {
            let mut t = plain.clone();
            reorder(kids(&mut t, p), &ps[i as usize], keep);
            alike(rec, key, &bytes(&t), usual);
        });
    }
    // several at once: top, moov, header, then by kind in every track
    let orders = ctx.q(3usize, 4);
    let kinds: [&[u8; 4]; 6] = [b"trak", b"mdia", b"minf", b"stbl", b"CRAW", b"stsd"];
    space!("orders everywhere", orders.pow(3) * orders.pow(4) * 2 * 4, 50, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let mut t = tree(&opts(m.take(4) as u64));
        let b = &base[(i % 4) as usize];
        let mut pick = |v: &mut Vec<N>, keep: usize, k: usize| match k {
            1 => v[keep..].reverse(),
            2 => v[keep..].rotate_left(1),
            3 => {
                v[keep..].rotate_right(1);
                let n = v.len();
                v.swap(n - 1, keep);
            }
            _ => (),
        };
        let ks: Vec<usize> = (0..7).map(|_| m.take(orders)).collect();
        let craw = m.take(2);
        for p in open.iter().rev() {
            let k = match p.len() {
                0 => ks[0],
                1 if p[0] == 1 => ks[1],
                2 if p == &[1, 0] => ks[2],
                _ => match kinds.iter().position(|n| **n == name(&plain, p)) {
                    Some(4) => craw,
                    Some(k) if k < 4 => ks[3 + k],
                    _ => 0,
                },
            };
            pick(kids(&mut t, p), p.is_empty() as usize, k);
        }
        alike(rec, key, &bytes(&t), b);
    });

    // forms of the sizes
    let n = all.len() - 1; // not ftyp
    let wide = |t: &mut Vec<N>, k: usize| set_form(t, &all[k + 1], 1);
    space!("64-bit size of a box", n, 4, |i, rec: &mut Rec, key: &str| {
        let mut t = plain.clone();
        wide(&mut t, i as usize);
        alike(rec, key, &bytes(&t), usual);
    });
    space!("64-bit sizes of two boxes", n * n, 100, |i: u64, rec: &mut Rec, key: &str| {
        let (a, b) = (i as usize / n, i as usize % n);
        if a < b {
            let mut t = plain.clone();
            wide(&mut t, a);
            wide(&mut t, b);
            alike(rec, key, &bytes(&t), usual);
        }
    });
    if thorough {
        space!("64-bit sizes of three boxes", n * n * n, 2000, |i: u64, rec: &mut Rec, key: &str| {
            let i = i as usize;
            let (a, b, c) = (i / n / n, i / n % n, i % n);
            if a < b && b < c {
                let mut t = plain.clone();
                for k in [a, b, c] {
                    wide(&mut t, k);
                }
                alike(rec, key, &bytes(&t), usual);
            }
        });
    }
    space!("all sizes but one with 64 bits", n + 1, 4, |i, rec: &mut Rec, key: &str| {
        let mut t = plain.clone();
        for k in 0..n {
            if k != i as usize {
                wide(&mut t, k);
            }
        }
        alike(rec, key, &bytes(&t), usual);
    });
    // by kind of box, and the last to the end of the file
    space!("sizes by kind of box", 2 * 4 * 512, 20, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let mut t = plain.clone();
        let end = m.take(2);
        let last = m.take(4);
        let mask = m.0;
        let kind: [&[&[u8; 4]]; 9] = [&[b"moov"], &[b"uuid"], &[b"mdat"], &[b"trak"], &[b"mdia", b"minf", b"stbl"], &[b"stsd", b"CRAW", b"CTMD"], &[b"stsz", b"co64"], &[b"PRVW", b"THMB", b"CTBO"], &[b"CMT1", b"CMT2", b"CMT3", b"CMT4"]];
        for p in &all[1..] {
            let n = name(&t, p);
            if kind.iter().enumerate().any(|(k, v)| mask >> k & 1 == 1 && v.iter().any(|v| **v == n)) {
                set_form(&mut t, p, 1);
            }
        }
        let b = t.remove(1 + last);
        t.push(b);
        if end == 1 {
            t.last_mut().unwrap().form = 2;
        }
        alike(rec, key, &bytes(&t), usual);
    });
    space!("to the end of the file, in any order", 24 * 2 * 2, 4, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let mut t = plain.clone();
        reorder(&mut t, &perms(4)[m.take(24)], 1);
        if m.take(2) == 1 {
            // unknown as well, and then the size of the others is known
            t.push(junk(1));
        }
        t.last_mut().unwrap().form = 2;
        if m.take(2) == 1 {
            for k in 1..t.len() - 1 {
                t[k].form = 1;
            }
        }
        alike(rec, key, &bytes(&t), usual);
    });

    // other boxes
    let spots: Vec<(Path, usize)> = open
        .iter()
        .flat_map(|p| {
            let n = kids(&mut plain.clone(), p).len();
            let p = p.clone();
            (p.is_empty() as usize..=n).map(move |k| (p.clone(), k))
        })
        .collect();
    let s = spots.len();
    // the later first, as they don't move the others
    let add = |t: &mut Vec<N>, spot: usize, j: N| {
        let (p, k) = &spots[spot];
        kids(t, p).insert(*k, j);
    };
    space!("another box", s * JUNK, 20, |i: u64, rec: &mut Rec, key: &str| {
        let mut t = plain.clone();
        add(&mut t, i as usize / JUNK, junk(i as usize % JUNK));
        alike(rec, key, &bytes(&t), usual);
    });
    let few = ctx.q(2usize, 5);
    space!("two other boxes", s * s * few, 200, |i: u64, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let k = m.take(few);
        let (a, b) = (m.take(s), m.take(s));
        // in the same place too; the same two boxes once only
        let ((pa, ka), (pb, kb)) = (&spots[a], &spots[b]);
        if a > b {
            return;
        }
        let mut t = plain.clone();
        // the one that doesn't move the path of the other first: deeper paths, then later places
        let (x, y) = if pa.len() > pb.len() || (pa == pb && ka > kb) { (a, b) } else { (b, a) };
        let (jx, jy) = [(0, 1), (6, 4), (2, 7), (5, 10), (8, 3)][k];
        // when neither holds the other the order doesn't matter
        add(&mut t, x, junk(jx));
        add(&mut t, y, junk(jy));
        alike(rec, key, &bytes(&t), usual);
    });
    space!("other boxes everywhere", JUNK * JUNK * 4, 10, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let mut t = tree(&opts(m.take(4) as u64));
        let b = &base[(i % 4) as usize];
        let (a, c) = (m.take(JUNK), m.take(JUNK));
        let mut k = 0;
        fill(&mut t, 1, &mut || {
            k += 1;
            junk(if k % 2 == 0 { a } else { c })
        });
        if i % 8 < 4 {
            t.last_mut().unwrap().form = 2;
        }
        alike(rec, key, &bytes(&t), b);
    });

    // tables
    space!("offsets and sizes", 256, 8, |i, rec: &mut Rec, key: &str| {
        let t = tree(&O { stco: i as u32 & 15, list: i as u32 >> 4, ..O::default() });
        alike(rec, key, &bytes(&t), usual);
    });
    space!("64-bit times", 512, 16, |i, rec: &mut Rec, key: &str| {
        let t = tree(&O { v1: i as u32, ..O::default() });
        alike(rec, key, &bytes(&t), usual);
    });
    // entries 1 to 3, an unused one, and one for something else; in any order, those that don't matter absent
    space!("table of offsets", 120 * 16, 20, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let p = &perms(5)[m.take(120)];
        let mask = m.0 as usize;
        let table: Vec<u32> = p.iter().map(|k| *k as u32 + 1).filter(|k| *k == 2 || mask >> [0, 0, 1, 2, 3][*k as usize - 1] & 1 == 0).collect();
        alike(rec, key, &bytes(&tree(&O { table, ..O::default() })), usual);
    });
    space!("media data", 24 * 5 * 16 * 2, 20, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let o = O { order: perms(4)[m.take(24)].clone(), gap: m.pick(&[0usize, 1, 2, 7, 300]), second: m.take(16) as u32, ..O::default() };
        let mut t = tree(&o);
        if m.take(2) == 1 {
            // the media data first
            let n = t.len();
            t[1..n].rotate_left(3);
        }
        alike(rec, key, &bytes(&t), usual);
    });
    space!("tables, media data and orders", 16 * 16 * 24 * 6, 50, |i, rec: &mut Rec, key: &str| {
        let mut m = Mix(i);
        let mut t = tree(&O { stco: m.take(16) as u32, list: m.take(16) as u32, ..O::default() });
        // the tracks in any order
        let p = &perms(4)[m.take(24)];
        reorder(&mut t[1].kids, p, 2);
        match m.take(6) {
            1 => t[1..].reverse(),
            2 => t[1..].rotate_left(1),
            3 => t.last_mut().unwrap().form = 2,
            4 => t[1].form = 1,
            5 => t.insert(1, junk(6)),
            _ => (),
        }
        alike(rec, key, &bytes(&t), usual);
    });
    ctx.finish()
}
/// Put a box before, between and after the kids of each box.
fn fill(v: &mut Vec<N>, keep: usize, j: &mut dyn FnMut() -> N) {
    let old = std::mem::take(v);
    for (i, mut n) in old.into_iter().enumerate() {
        if i >= keep {
            v.push(j());
        }
        if n.open && !matches!(&n.name, b"CTMD" | b"dref" | b"CDI1") {
            fill(&mut n.kids, 0, j);
        }
        v.push(n);
    }
    v.push(j());
}
