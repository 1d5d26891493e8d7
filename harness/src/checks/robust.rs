//! Shared engine of the robustness checks: sample files, field mutations and
//! judged openings.
use crate::asm::Field;
use crate::corpus::{self, Cfg, Sample};
use crate::obs::{observe, Op};
use crate::pool;
use libopenraw::{rawfile_from_memory, RawFileHandle, Type};
use std::rc::Rc;

pub fn hint(ext: &str) -> Type {
    match ext {
        "dng" => Type::Dng,
        "nef" => Type::Nef,
        "cr2" => Type::Cr2,
        "arw" => Type::Arw,
        "pef" => Type::Pef,
        "erf" => Type::Erf,
        "orf" => Type::Orf,
        "rw2" => Type::Rw2,
        "mrw" => Type::Mrw,
        "raf" => Type::Raf,
        "crw" => Type::Crw,
        "cr3" => Type::Cr3,
        _ => Type::Jpeg,
    }
}

/// Open by content; if the content is not recognised, as the given type.
pub fn open(data: &[u8], ext: &str) -> Result<Rc<RawFileHandle>, String> {
    match rawfile_from_memory(data.to_vec(), None) {
        Ok(f) => Ok(Rc::new(f)),
        Err(_) => rawfile_from_memory(data.to_vec(), Some(hint(ext)))
            .map(Rc::new)
            .map_err(|e| crate::obs::err(&e)),
    }
}

/// Byte and length fields of the JPEG marker segments in a file.
fn jpeg_fields(data: &[u8], out: &mut Vec<Field>) {
    let mut i = 0;
    while i + 4 < data.len() {
        if data[i] == 0xff && data[i + 1] == 0xd8 && data[i + 2] == 0xff {
            let mut p = i + 2;
            while p + 4 < data.len() && data[p] == 0xff && data[p + 1] >= 0xc0 && data[p + 1] < 0xff
            {
                let m = data[p + 1];
                let l = u16::from_be_bytes([data[p + 2], data[p + 3]]) as usize;
                out.push(Field {
                    off: p + 1,
                    width: 1,
                    be: true,
                    name: "marker".into(),
                });
                out.push(Field {
                    off: p + 2,
                    width: 2,
                    be: true,
                    name: "jlen".into(),
                });
                let end = (p + 2 + l).min(data.len());
                if m != 0xe1 && m != 0xdb {
                    for k in p + 4..end {
                        out.push(Field {
                            off: k,
                            width: 1,
                            be: true,
                            name: "jbyte".into(),
                        });
                    }
                }
                if m == 0xda {
                    break;
                }
                if m == 0xe1 {
                    p += 4; // look inside
                    while p + 1 < end && !(data[p] == 0xff && data[p + 1] == 0xd8) {
                        p += 1;
                    }
                    if p + 1 < end {
                        break;
                    }
                }
                p = end;
            }
        }
        i += 1;
    }
}

pub struct S {
    pub name: String,
    pub ext: &'static str,
    pub data: Vec<u8>,
    pub fields: Vec<Field>,
    pub labels: std::collections::HashMap<String, usize>,
}

fn conv(name: String, s: Sample) -> S {
    let mut fields = s.file.fields;
    jpeg_fields(&s.file.data, &mut fields);
    fields.sort_by_key(|f| (f.off, f.width));
    fields.dedup_by_key(|f| (f.off, f.width));
    fields.retain(|f| f.off + f.width <= s.file.data.len());
    S {
        name,
        ext: s.ext,
        data: s.file.data,
        fields,
        labels: s.file.labels,
    }
}

/// The corpus: every format in its usual byte order, plus (if `full`) the other one.
pub fn samples(w: usize, h: usize, full: bool) -> Vec<S> {
    let mut v: Vec<S> = corpus::all(w, h)
        .into_iter()
        .map(|s| conv(s.name.to_string(), s))
        .collect();
    for (n, file) in corpus::extra(w, h) {
        if n == "raf_lossy" && !full {
            continue;
        }
        v.push(conv(
            n.to_string(),
            Sample {
                name: "",
                ext: n.split('_').next().map(|e| corpus::ext(e)).unwrap(),
                file,
            },
        ));
    }
    if full {
        for n in [
            "dng",
            "dng_ljpeg",
            "dng_tiled",
            "dng_main",
            "nef",
            "nef_p12",
            "arw",
            "pef",
            "pef_p12",
            "erf",
            "orf",
            "cr2",
            "jpeg",
        ] {
            let be = !["nef", "pef", "nef_p12", "pef_p12"].contains(&n);
            let (ext, file) = corpus::build(n, &Cfg::new(be, w, h));
            v.push(conv(
                format!("{n}_{}", if be { "be" } else { "le" }),
                Sample {
                    name: "",
                    ext,
                    file,
                },
            ));
        }
    }
    v
}

fn get(d: &[u8], f: &Field) -> u64 {
    let b = &d[f.off..f.off + f.width];
    let mut v = 0u64;
    if f.be {
        for x in b {
            v = v << 8 | *x as u64;
        }
    } else {
        for x in b.iter().rev() {
            v = v << 8 | *x as u64;
        }
    }
    v
}

pub fn put(d: &mut [u8], f: &Field, v: u64) {
    for i in 0..f.width {
        let sh = if f.be { 8 * (f.width - 1 - i) } else { 8 * i };
        d[f.off + i] = (v >> sh) as u8;
    }
}

/// Boundary values of a field.
pub fn values(d: &[u8], f: &Field) -> Vec<u64> {
    let v = get(d, f);
    let n = d.len() as u64;
    let m = if f.width == 8 {
        u64::MAX
    } else {
        (1u64 << (8 * f.width)) - 1
    };
    let mut o: Vec<u64> = (0..=16).collect();
    o.extend([17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255]);
    o.extend([
        v.wrapping_add(1),
        v.wrapping_sub(1),
        v.wrapping_add(2),
        v.wrapping_sub(2),
        v * 2 & m,
        v / 2,
        v ^ (m ^ (m >> 1)),
    ]);
    if f.width >= 2 {
        o.extend([
            0x100,
            0x3ff,
            0x400,
            0xfff,
            0x1000,
            0x4001,
            0x7fff,
            0x8000,
            0x8001,
            0xfffe,
            0xffff,
            v.swap_bytes() >> (64 - 8 * f.width),
        ]);
        o.extend([n, n - 1, n + 1, n.wrapping_sub(2), n.wrapping_sub(v), n / 2]);
    }
    if f.width >= 4 {
        o.extend([
            0x10000, 0x10001, 0xff0000, 0x1000000, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff,
            0x80000000, 0x80000001, 0xfffffff0, 0xfffffff8, 0xfffffffe, 0xffffffff,
        ]);
    }
    if f.width == 8 {
        o.extend([
            1 << 32,
            (1 << 32) + 8,
            1 << 62,
            1 << 63,
            i64::MAX as u64,
            u64::MAX,
            u64::MAX - 7,
            u64::MAX - 8,
        ]);
    }
    let mut o: Vec<u64> = o.into_iter().map(|x| x & m).collect();
    o.sort();
    o.dedup();
    o.retain(|x| *x != v);
    o
}

/// Outcome of one query on a fresh handle of the given bytes.
pub fn query(data: &[u8], ext: &str, op: &Op) -> Result<Vec<u8>, String> {
    pool::catch(|| match open(data, ext) {
        Ok(f) => observe(&f, op),
        Err(e) => e.into_bytes(),
    })
}

/// As `samples`, with the one which takes more time
pub fn samples_all(w: usize, h: usize, full: bool) -> Vec<S> {
    let mut v = samples(w, h, full);
    if !full {
        v.extend(samples_of("raf_lossy", w, h));
    }
    v
}
fn samples_of(name: &str, w: usize, h: usize) -> Vec<S> {
    corpus::extra(w, h)
        .into_iter()
        .filter(|x| x.0 == name)
        .map(|(n, file)| {
            conv(
                n.to_string(),
                Sample {
                    name: "",
                    ext: n.split('_').next().map(|e| corpus::ext(e)).unwrap(),
                    file,
                },
            )
        })
        .collect()
}

/// Lengths to cut a file at: all of them, but only some within the long
/// and costly compressed image data.
pub fn prefixes(s: &S, thorough: bool) -> Vec<usize> {
    let len = s.data.len();
    let (from, step) = match &s.name[..] {
        "rw2_comp" => (len - 0x4000 + 300, 61),
        "raf_comp" | "raf_lossy" => (1400, 17),
        "crw_low" => (900, 61),
        _ => (len, 1),
    };
    (0..len)
        .filter(|n| thorough || *n < from || *n + 64 > len || n % step == 0)
        .collect()
}
