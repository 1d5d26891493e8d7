//! C17: any graph of pointers is walked in bounded time and memory.
use super::c13::ask;
use super::robust::{hint, put, samples, S};
use crate::alloc;
use crate::asm::{Asm, Dir, V};
use crate::corpus::{ci_heap, Ci};
use crate::obs::Op;
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use crate::stream::Plan;
use std::rc::Rc;
use std::time::Duration;

/// The queries that walk pointers.
const WALK: [Op; 11] = [
    Op::TypeId,
    Op::Sizes,
    Op::ThumbNth(0),
    Op::Raw(true),
    Op::Meta,
    Op::Value("Exif.Image.Model"),
    Op::Orient,
    Op::IfdObs(1),
    Op::IfdObs(2),
    Op::Matrix(1),
    Op::Dump,
];

/// Bounds on the work of one query on a file of `n` bytes, in stream
/// operations and in bytes of heap memory.
fn ops_bound(n: usize) -> u64 {
    40_000 + 40 * n as u64
}
fn mem_bound(n: usize) -> usize {
    (1 << 20) + 400 * n
}

fn walk(key: &dyn Fn() -> String, data: &Rc<Vec<u8>>, ext: &str, ops: &[Op], r: &mut Rec) {
    walk_(key, data, ext, ops, false, r)
}
/// `square`: directories overlap or share parts, the bound is quadratic.
fn walk_(
    key: &dyn Fn() -> String,
    data: &Rc<Vec<u8>>,
    ext: &str,
    ops: &[Op],
    square: bool,
    r: &mut Rec,
) {
    let n2 = if square {
        data.len() * data.len() / 16
    } else {
        0
    };
    for op in ops {
        for h in [None, Some(hint(ext))] {
            let plan = Rc::new(Plan::default());
            let live = alloc::live();
            alloc::reset_peak();
            let got = ask(data, h, op, &plan);
            let mem = alloc::peak().saturating_sub(live);
            let n = plan.ops.get();
            let by = if h.is_some() { "hint" } else { "content" };
            match got {
                Ok(o) => {
                    r.trace(n, &o);
                    if h.is_none() && o.starts_with(b"E:Unrec") {
                        continue;
                    }
                }
                Err(m) => r.bad(format!("{}:{op:?}:{by}", key()), format!("panic: {m}")),
            }
            if n > ops_bound(data.len()) + n2 as u64 {
                r.bad(
                    format!("{}:{op:?}:{by}:ops", key()),
                    format!("{n} stream operations for a file of {} bytes", data.len()),
                );
            }
            // pixels of the declared size are not pointers
            if mem > mem_bound(data.len()) + n2 && !matches!(op, Op::Raw(_)) {
                r.bad(
                    format!("{}:{op:?}:{by}:memory", key()),
                    format!("{mem} bytes of heap for a file of {} bytes", data.len()),
                );
            }
            break;
        }
    }
}

/// A file of directories D0.., each with a next pointer and the given tags;
/// targets[d][p]: 0 none, i+1 = Di
fn graph(kind: &str, tags: &[u16], targets: &[Vec<u8>]) -> Vec<u8> {
    let be = matches!(kind, "nef" | "pef");
    let mut a = Asm::new(be);
    let b: &[u8] = if be { b"MM" } else { b"II" };
    a.bytes(b);
    a.u16(match kind {
        "orf" => 0x4f52,
        "rw2" => 0x55,
        _ => 0x2a,
    });
    a.ref32("d0", None);
    if kind == "cr2" {
        a.bytes(b"CR\x02\0");
        a.ref32("d1", None);
    }
    a.label("base");
    let (make, model) = match kind {
        "nef" => ("NIKON CORPORATION", "NIKON D50"),
        "pef" => ("PENTAX Corporation ", "PENTAX *ist D"),
        "cr2" => ("Canon", "Canon EOS 20D"),
        "arw" => ("SONY", "DSLR-A100"),
        "erf" => ("SEIKO EPSON CORP.", "R-D1"),
        "orf" => ("OLYMPUS IMAGING CORP.", "E-330"),
        "rw2" => ("Panasonic", "DMC-GX1"),
        _ => ("Adobe", "X"),
    };
    for (i, t) in targets.iter().enumerate() {
        let mut d = Dir::new()
            .l(0xfe, if i == 1 { 0 } else { 1 })
            .s(0x100, 160)
            .s(0x101, 4)
            .s(0x102, 8)
            .s(0x103, 6)
            .a(0x10f, make)
            .a(0x110, model)
            .l(0x201, 8)
            .l(0x202, 100);
        if kind == "dng" {
            d = d.e(0xc612, V::B(vec![1, 4, 0, 0]));
        }
        for (p, tag) in tags.iter().enumerate() {
            let x = t[p + 1];
            if x > 0 {
                let l = format!("d{}", x - 1);
                d = match tag {
                    // a list: the target, twice, and this directory itself
                    0x014b => d.e(0x14a, V::Ref(vec![l.clone(), l, format!("d{i}")])),
                    0x927c | 0xc634 => {
                        let mut v = d;
                        v.e.push((*tag, V::Ref(vec![l])));
                        v
                    }
                    t => d.r(*t, &l),
                };
            }
        }
        if t[0] > 0 {
            d.next_ref = Some(format!("d{}", t[0] - 1));
        }
        a.label(&format!("d{i}"));
        a.dir(&d, "base0");
    }
    a.labels.insert("base0".into(), 0);
    a.zeros(64);
    let mut f = a.finish();
    // maker notes are bytes, not longs: type 7, count 64
    for i in 0..f.data.len() - 12 {
        for tag in [0x927cu16, 0xc634] {
            let (x, t7, n64) = if be {
                (tag.to_be_bytes(), [0, 7], [0, 0, 0, 64])
            } else {
                (tag.to_le_bytes(), [7, 0], [64, 0, 0, 0])
            };
            let t4 = if be { [0, 4] } else { [4, 0] };
            if f.data[i..i + 2] == x && f.data[i + 2..i + 4] == t4 {
                f.data[i + 2..i + 4].copy_from_slice(&t7);
                f.data[i + 4..i + 8].copy_from_slice(&n64);
            }
        }
    }
    f.data
}

fn base_positions(s: &S) -> Vec<usize> {
    let mut b: Vec<usize> = s
        .labels
        .iter()
        .filter(|(k, _)| k.starts_with("tiff") || k.starts_with("file"))
        .map(|x| *x.1)
        .collect();
    b.push(0);
    b.sort();
    b.dedup();
    b
}
fn is_struct(n: &str) -> bool {
    n == "ref" || n == "next" || n == "ciff"
}

fn crw(tree: &[u8], be: bool) -> Vec<u8> {
    // a CRW file whose heap is given
    let mut o: Vec<u8> = vec![];
    o.extend_from_slice(if be { b"MM" } else { b"II" });
    o.extend_from_slice(&if be {
        26u32.to_be_bytes()
    } else {
        26u32.to_le_bytes()
    });
    o.extend_from_slice(b"HEAPCCDR");
    o.extend_from_slice(&[2, 0, 1, 0]);
    o.resize(26, 0);
    o.extend_from_slice(tree);
    o
}

/// k records pointing to heaps; tags alternate between both heap types.
fn heap_tag(i: usize) -> u16 {
    match i {
        0 => 0x300a,
        1 => 0x300b,
        2 => 0x2807,
        i if i % 2 == 0 => 0x2900 + (i / 2) as u16,
        i => 0x3100 + (i / 2) as u16,
    }
}
/// a heap with k heap records (pos, len) and some payload records
fn raw_heap(recs: &[(u16, u32, u32)], payload: usize) -> Vec<u8> {
    let mut o = vec![0u8; payload];
    o.extend_from_slice(&(recs.len() as u16).to_le_bytes());
    for (t, l, p) in recs {
        o.extend_from_slice(&t.to_le_bytes());
        o.extend_from_slice(&l.to_le_bytes());
        o.extend_from_slice(&p.to_le_bytes());
    }
    o.extend_from_slice(&(payload as u32).to_le_bytes());
    o
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C17", "model_checking", thorough);
    ctx.rule = "every (file whose pointers form the given graph, walking query): no panic, hang or abort; stream operations and heap memory within a bound linear in the file's size".into();
    ctx.assumptions.push("graphs of up to 3 directories x 3-4 pointers (2 x 6), heaps of up to 3 nodes x 3 records, wide fans up to 4000; one pointer (quick) of every sample file re-aimed at every structure of the file, two of them within directories".into());
    let opts = Opts {
        hang: Duration::from_secs(20),
        mem: Some(256 << 20),
        ..Opts::default()
    };

    // one pointer of each sample aimed anywhere
    let ss = samples(24, 18, thorough);
    let mut flat: Vec<(usize, usize, u64)> = vec![];
    for (si, s) in ss.iter().enumerate() {
        let mut pos: Vec<usize> = s.labels.values().copied().collect();
        pos.extend(
            s.fields
                .iter()
                .filter(|f| is_struct(&f.name))
                .map(|f| f.off),
        );
        pos.sort();
        pos.dedup();
        for (fi, f) in s.fields.iter().enumerate() {
            if f.width < 4 {
                continue;
            }
            let mut t: Vec<u64> = vec![];
            for b in base_positions(s) {
                t.extend(pos.iter().map(|p| (*p as u64).wrapping_sub(b as u64)));
            }
            t.sort();
            t.dedup();
            if !is_struct(&f.name) && !thorough {
                t.retain(|t| t % 2 == 0);
            }
            flat.extend(t.into_iter().map(|t| (si, fi, t)));
        }
    }
    let name = |i: u64| {
        let (s, f, v) = flat[i as usize];
        format!(
            "{}:{}@{:#x}->{:#x}",
            ss[s].name, ss[s].fields[f].name, ss[s].fields[f].off, v
        )
    };
    par(
        &mut ctx,
        "samples x 32/64-bit fields x structures of the file, relative to each base",
        flat.len() as u64,
        256,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (s, f, v) = flat[i as usize];
            let s = &ss[s];
            let mut d = s.data.clone();
            put(&mut d, &s.fields[f], v);
            walk(
                &|| name(i),
                &Rc::new(d),
                s.ext,
                if thorough {
                    &WALK
                } else {
                    &[Op::Sizes, Op::Raw(true), Op::Meta, Op::Matrix(1), Op::Dump]
                },
                r,
            );
        },
    );

    // two structural pointers aimed at directories
    let mut flat2: Vec<(usize, usize, u64, usize, u64)> = vec![];
    for (si, s) in ss.iter().enumerate() {
        let ptr: Vec<usize> = (0..s.fields.len())
            .filter(|i| is_struct(&s.fields[*i].name) && s.fields[*i].width >= 4)
            .collect();
        let mut pos: Vec<u64> = s
            .labels
            .iter()
            .filter(|(k, _)| {
                ["ifd0", "next", "sub", "tiff", "bs"]
                    .iter()
                    .any(|p| k.starts_with(p))
            })
            .map(|x| *x.1 as u64)
            .collect();
        pos.sort();
        pos.dedup();
        let keep = ctx.q(16, 64) as usize;
        let ptr: Vec<usize> = if ptr.len() > keep {
            let m = ptr.len();
            (0..keep).map(|i| ptr[i * m / keep]).collect()
        } else {
            ptr
        };
        let keep = ctx.q(6, 12) as usize;
        let pos: Vec<u64> = if pos.len() > keep {
            let m = pos.len();
            (0..keep).map(|i| pos[i * m / keep]).collect()
        } else {
            pos
        };
        for i in 0..ptr.len() {
            for j in i + 1..ptr.len() {
                for a in &pos {
                    for b in &pos {
                        flat2.push((si, ptr[i], *a, ptr[j], *b));
                    }
                }
            }
        }
    }
    let name2 = |i: u64| {
        let (s, f, v, g, w) = flat2[i as usize];
        format!(
            "{}:@{:#x}->{:#x},@{:#x}->{:#x}",
            ss[s].name, ss[s].fields[f].off, v, ss[s].fields[g].off, w
        )
    };
    par(
        &mut ctx,
        "samples x pairs of structural pointers x pairs of directories",
        flat2.len() as u64,
        256,
        &opts,
        &name2,
        &|i, r: &mut Rec| {
            let (s, f, v, g, w) = flat2[i as usize];
            let s = &ss[s];
            let mut d = s.data.clone();
            put(&mut d, &s.fields[f], v);
            put(&mut d, &s.fields[g], w);
            walk(
                &|| name2(i),
                &Rc::new(d),
                s.ext,
                &[Op::Sizes, Op::Raw(true), Op::Meta, Op::Dump],
                r,
            );
        },
    );

    // directory graphs
    let kinds: &[&str] = if thorough {
        &["dng", "nef", "orf", "cr2", "arw", "pef", "erf", "rw2"]
    } else {
        &["dng", "nef"]
    };
    for (tags, dirs, what) in [
        (&[0x014a_u16, 0x8769][..], 3usize, "3 directories x {next, SubIFD, Exif} x {none, D0, D1, D2}"),
        (&[0x014b, 0x8769, 0x8825, 0x927c, 0xc634][..], 2, "2 directories x {next, SubIFD list, Exif, GPS, maker note, private data} x {none, D0, D1}"),
    ] {
        let np = tags.len() + 1;
        let per = (dirs as u64 + 1).pow((np * dirs) as u32);
        let name = |i: u64| format!("{}:{dirs}x{np}:{}", kinds[(i / per) as usize], i % per);
        par(
            &mut ctx,
            &format!("kinds of file x {what}"),
            kinds.len() as u64 * per,
            512,
            &opts,
            &name,
            &|i, r: &mut Rec| {
                let mut m = Mix(i % per);
                let t: Vec<Vec<u8>> = (0..dirs)
                    .map(|_| (0..np).map(|_| m.take(dirs + 1) as u8).collect())
                    .collect();
                let k = kinds[(i / per) as usize];
                let d = graph(k, tags, &t);
                walk(&|| name(i), &Rc::new(d), k, &[Op::Sizes, Op::Raw(true), Op::Meta, Op::Dump], r);
            },
        );
    }

    // CIFF heaps: 3 heaps, each with 3 heap records aimed at any heap
    let per = 4u64.pow(9);
    par(
        &mut ctx,
        "3 CIFF heaps x 3 heap records x {none, H0, H1, H2}",
        per,
        512,
        &opts,
        &|i| format!("crw:{i}"),
        &|i, r: &mut Rec| {
            let mut m = Mix(i);
            let t: Vec<Vec<usize>> = (0..3)
                .map(|_| (0..3).map(|_| m.take(4)).collect())
                .collect();
            // every heap: 2 + 3*10 + 4 = 36 bytes of table, 12 bytes of payload;
            // H0 holds H1 and H2, so sizes are 48, 48 and 48+96
            let (l1, l0) = (48u32, 144u32);
            let rec = |h: usize, at: u32| -> Vec<(u16, u32, u32)> {
                (0..3)
                    .map(|p| {
                        let (pos, len) = match t[h][p] {
                            0 => return (0x0805, 4, 0),
                            1 => (0u32, l0),
                            2 => (0, l1),
                            _ => (48, l1),
                        };
                        (heap_tag(p), len, pos.wrapping_sub(at))
                    })
                    .collect()
            };
            let mut inner = raw_heap(&rec(1, 0), 12);
            inner.extend(raw_heap(&rec(2, 48), 12));
            let mut h0 = inner;
            let x = raw_heap(&rec(0, 0), 0);
            let n = h0.len() as u32;
            h0.extend_from_slice(&x[..x.len() - 4]);
            h0.extend_from_slice(&[0; 12]);
            h0.extend_from_slice(&n.to_le_bytes());
            walk(
                &|| format!("crw:{i}"),
                &Rc::new(crw(&h0, false)),
                "crw",
                &[Op::TypeId, Op::Sizes, Op::Raw(true), Op::Meta, Op::Dump],
                r,
            );
        },
    );

    // wide fans: k pointers to one target, nested fans
    let ks = [1usize, 2, 3, 5, 10, 30, 100, 300, 1000, 4000];
    let fans: Vec<(usize, usize, usize)> = (0..9)
        .flat_map(|f| (0..ks.len()).flat_map(move |a| (0..ks.len()).map(move |b| (f, a, b))))
        .collect();
    let fan = |f: usize, k: usize, m: usize| -> Vec<u8> {
        match f {
            // SubIFD list of k pointers to self / to a directory of m entries / chained
            0..=4 => {
                let mut a = Asm::new(false);
                a.labels.insert("b".into(), 0);
                a.bytes(b"II").u16(0x2a).ref32("d0", None);
                let mut d = Dir::new()
                    .l(0xfe, 1)
                    .a(0x10f, "Adobe")
                    .a(0x110, "X")
                    .e(0xc612, V::B(vec![1, 4, 0, 0]));
                let t = if f == 0 { "d0" } else { "d1" };
                d = d.e(0x14a, V::Ref(vec![t.to_string(); k]));
                if f == 2 {
                    d.next_ref = Some("d1".into());
                }
                a.label("d0");
                a.dir(&d, "b");
                let mut d = Dir::new().l(0xfe, 1).s(0x100, 160).s(0x101, 120);
                for i in 0..m {
                    d = d.s(0x1000u16.wrapping_add(i as u16), i as u16);
                }
                if f == 3 {
                    d = d.e(0x14a, V::Ref(vec!["d0".to_string(); m]));
                    d.next_ref = Some("d0".into());
                }
                a.align2();
                if f == 4 {
                    // k directories in one chain, each with a list of m pointers at the next
                    for i in 0..k.min(300) {
                        let mut d = Dir::new().l(0xfe, 1).s(0x100, 160).s(0x101, 120);
                        d = d.e(0x14a, V::Ref(vec!["dl".to_string(); m.min(300)]));
                        if i + 1 < k.min(300) {
                            d.next_ref = Some(format!("c{}", i + 1));
                        }
                        a.align2();
                        a.label(&format!("c{i}"));
                        a.dir(&d, "b");
                    }
                    a.labels.insert("d1".into(), a.labels["c0"]);
                    a.align2();
                    a.label("dl");
                    a.dir(&d, "b");
                } else {
                    a.label("d1");
                    a.dir(&d, "b");
                }
                a.finish().data
            }
            // heap of k records, all the heap itself
            5 => {
                let n = 2 + 10 * (k as u32) + 4;
                let recs: Vec<_> = (0..k.min(500)).map(|i| (heap_tag(i), n, 0)).collect();
                let n = 2 + 10 * (recs.len() as u32) + 4;
                let recs: Vec<_> = recs.iter().map(|r| (r.0, n, 0)).collect();
                crw(&raw_heap(&recs, 0), false)
            }
            // heaps nested 6 deep, each with k records at the same inner heap
            6 => {
                let mut h = raw_heap(&[(0x0805, 0, 0)], 8);
                for _ in 0..6 {
                    let recs: Vec<_> = (0..k.min(300))
                        .map(|i| (heap_tag(i), h.len() as u32, 0))
                        .collect();
                    let t = raw_heap(&recs, 0);
                    let n = h.len() as u32;
                    h.extend_from_slice(&t[..t.len() - 4]);
                    h.extend_from_slice(&n.to_le_bytes());
                }
                crw(&h, false)
            }
            // k entries, all with the same m * 16 bytes as value
            8 => {
                let mut a = Asm::new(false);
                a.bytes(b"II").u16(0x2a).u32(8);
                a.u16(k as u16 + 2);
                a.u16(0x10f).u16(2).u32(3).bytes(b"Ad\0\0");
                for i in 0..k {
                    a.u16(0x1000 + i as u16)
                        .u16(7)
                        .u32(16 * m as u32)
                        .ref32("v", None);
                }
                a.u16(0xc612).u16(1).u32(4).bytes(&[1, 4, 0, 0]);
                a.u32(0);
                a.label("v");
                a.zeros(16 * m);
                a.finish().data
            }
            // same, built by the writer of the corpus
            _ => {
                let mut f = vec![];
                let inner: Vec<Ci> = (0..m.min(300))
                    .map(|i| Ci::H(0x0805 + i as u16, vec![1; 4]))
                    .collect();
                let outer: Vec<Ci> = (0..k.min(100))
                    .map(|i| Ci::S(heap_tag(i), inner.clone()))
                    .collect();
                crw(&ci_heap(&outer, false, &mut f, 26, false), false)
            }
        }
    };
    let name = |i: u64| {
        let (f, a, b) = fans[i as usize];
        format!("fan{f}:{}x{}", ks[a], ks[b])
    };
    par(
        &mut ctx,
        "kinds of fan x number of pointers x size of the target",
        fans.len() as u64,
        1,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (f, a, b) = fans[i as usize];
            let d = fan(f, ks[a], ks[b]);
            let dng = f < 5 || f == 8;
            walk_(
                &|| name(i),
                &Rc::new(d),
                if dng { "dng" } else { "crw" },
                &WALK,
                f == 4,
                r,
            );
        },
    );
    // overlapping directories: a file of identical bytes behind a long list
    let big = ctx.q(1500, 4000) as usize;
    let ov: Vec<(u8, usize, bool)> = [1u8, 2, 3, 4, 7, 0x10, 0x20, 0xff]
        .iter()
        .flat_map(|b| {
            [64usize, 500, 4000]
                .iter()
                .flat_map(move |k| [false, true].map(|c| (*b, *k, c)))
        })
        .collect();
    par(
        &mut ctx,
        "overlapping directories: fill byte x list length x {chained, listed}",
        ov.len() as u64,
        1,
        &opts,
        &|i| format!("overlap:{:?}", ov[i as usize]),
        &|i, r: &mut Rec| {
            let (b, k, chain) = ov[i as usize];
            let mut a = Asm::new(false);
            a.bytes(b"II").u16(0x2a).u32(8);
            let t = 8 + 2 + 12 * 3 + 4;
            a.u16(3);
            a.u16(0x10f).u16(2).u32(3).bytes(b"Ad\0\0");
            a.u16(0x14a).u16(4).u32(k as u32).u32(t as u32);
            a.u16(0xc612).u16(1).u32(4).bytes(&[1, 4, 0, 0]);
            let start = t + 4 * k;
            a.u32(if chain { start as u32 } else { 0 });
            for j in 0..k {
                a.u32((start + j * 2) as u32);
            }
            a.bytes(&vec![b; k * 16]);
            let f = a.finish();
            walk_(
                &|| format!("overlap:{b}:{k}:{chain}"),
                &Rc::new(f.data),
                "dng",
                &WALK,
                true,
                r,
            );
        },
    );
    ctx.sample(format!(
        "graph(dng) D0->D1->D2->D0: {} bytes",
        graph("dng", &[0x14a], &[vec![2, 1], vec![3, 0], vec![1, 2]]).len()
    ));
    ctx.finish()
}
