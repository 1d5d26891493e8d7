//! Synthetic camera files: one builder per format, written from the format
//! descriptions. Every named directory goes through `Cfg::tweak` before it is
//! written so that checks can set, delete or replace entries.
use crate::asm::{Asm, Dir, File, V};
use crate::codec::ljpeg;
use std::rc::Rc;

pub type Tweak = Rc<dyn Fn(&str, Dir) -> Dir>;

#[derive(Clone)]
pub struct Cfg {
    pub be: bool,
    pub w: usize,
    pub h: usize,
    /// format-specific variant
    pub var: u32,
    /// raw samples (w*h), as stored (meaning depends on the format)
    pub img: Vec<u16>,
    pub tweak: Tweak,
    /// the previews: (index, default width, height, filler) to what is stored
    pub pv: Rc<dyn Fn(usize, (u16, u16, usize)) -> (u16, u16, usize)>,
    pub make: Option<String>,
    pub model: Option<String>,
    /// replaces the raw data: (bits per sample, compression, stored bytes)
    pub raw: Option<(u16, u16, Rc<Vec<u8>>)>,
}

impl Cfg {
    pub fn new(be: bool, w: usize, h: usize) -> Cfg {
        Cfg {
            be,
            w,
            h,
            var: 0,
            img: crate::rec::image(5, w, h, 12),
            tweak: Rc::new(|_, d| d),
            pv: Rc::new(|_, p| p),
            make: None,
            model: None,
            raw: None,
        }
    }
    pub fn raw(mut self, bits: u16, comp: u16, data: Vec<u8>) -> Cfg {
        self.raw = Some((bits, comp, Rc::new(data)));
        self
    }
    fn stored(&self, d: (u16, u16, Vec<u8>)) -> (u16, u16, Vec<u8>) {
        match &self.raw {
            Some(r) => (r.0, r.1, r.2.to_vec()),
            None => d,
        }
    }
    pub fn var(mut self, v: u32) -> Cfg {
        self.var = v;
        self
    }
    pub fn img(mut self, i: Vec<u16>) -> Cfg {
        assert_eq!(i.len(), self.w * self.h);
        self.img = i;
        self
    }
    pub fn tweak(mut self, f: impl Fn(&str, Dir) -> Dir + 'static) -> Cfg {
        let old = self.tweak.clone();
        self.tweak = Rc::new(move |n, d| f(n, old(n, d)));
        self
    }
    pub fn id(mut self, make: &str, model: &str) -> Cfg {
        self.make = Some(make.into());
        self.model = Some(model.into());
        self
    }
    pub fn previews(
        mut self,
        f: impl Fn(usize, (u16, u16, usize)) -> (u16, u16, usize) + 'static,
    ) -> Cfg {
        self.pv = Rc::new(f);
        self
    }
    /// the JPEG stored as preview `n`
    pub fn jp(&self, n: usize, w: u16, h: u16, fill: usize, app1: Option<&[u8]>) -> Vec<u8> {
        let (w, h, fill) = (self.pv)(n, (w, h, fill));
        jpeg(w, h, fill, app1)
    }
    fn pd(&self, n: usize, w: u16, h: u16) -> (u16, u16) {
        let (w, h, _) = (self.pv)(n, (w, h, 0));
        (w, h)
    }
    fn t(&self, n: &str, d: Dir) -> Dir {
        (self.tweak)(n, d)
    }
    fn mk(&self, d: &str) -> String {
        self.make.clone().unwrap_or(d.into())
    }
    fn md(&self, d: &str) -> String {
        self.model.clone().unwrap_or(d.into())
    }
}

pub fn set(mut d: Dir, tag: u16, v: V) -> Dir {
    d.e.retain(|e| e.0 != tag);
    d.e.push((tag, v));
    d
}
pub fn del(mut d: Dir, tag: u16) -> Dir {
    d.e.retain(|e| e.0 != tag);
    d
}
/// add/replace an entry of the directory called `name`
pub fn with(name: &'static str, tag: u16, v: V) -> impl Fn(&str, Dir) -> Dir {
    move |n, d| if n == name { set(d, tag, v.clone()) } else { d }
}
pub fn without(name: &'static str, tag: u16) -> impl Fn(&str, Dir) -> Dir {
    move |n, d| if n == name { del(d, tag) } else { d }
}

pub fn le16(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn be16(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn e16(v: &[u16], be: bool) -> Vec<u8> {
    if be {
        be16(v)
    } else {
        le16(v)
    }
}

/// Smallest JPEG stream a header parser accepts: SOI [APP1] DQT SOF0 filler EOI.
pub fn jpeg(w: u16, h: u16, fill: usize, app1: Option<&[u8]>) -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    if let Some(e) = app1 {
        o.extend_from_slice(&[0xff, 0xe1]);
        o.extend_from_slice(&((e.len() + 2) as u16).to_be_bytes());
        o.extend_from_slice(e);
    }
    o.extend_from_slice(&[0xff, 0xdb, 0, 67, 0]);
    o.extend((0..64).map(|i| i + 1));
    o.extend_from_slice(&[0xff, 0xc0, 0, 17, 8]);
    o.extend_from_slice(&h.to_be_bytes());
    o.extend_from_slice(&w.to_be_bytes());
    o.extend_from_slice(&[3, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0]);
    o.extend((0..fill).map(|i| (i * 7 + w as usize) as u8 & 0x7f));
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}

/// RGB8 thumbnail content
pub fn rgb(w: usize, h: usize) -> Vec<u8> {
    (0..w * h * 3).map(|i| (i * 11 + 5) as u8).collect()
}

fn exif_dir(c: &Cfg, mnote: Option<V>) -> Dir {
    let mut d = Dir::new()
        .e(0x829a, V::R(vec![(1, 250)]))
        .e(0x829d, V::R(vec![(28, 10)]))
        .s(0x8827, 200)
        .a(0x9003, "2021:06:07 08:09:10")
        .e(0x9201, V::SR(vec![(8, 1)]))
        .e(0x9000, V::U(b"0230".to_vec()))
        .s(0x9207, 5)
        .e(0x920a, V::R(vec![(50, 1)]));
    if let Some(m) = mnote {
        d = d.e(0x927c, m);
    }
    c.t("exif", d)
}

fn gps_dir(c: &Cfg) -> Dir {
    c.t(
        "gps",
        Dir::new()
            .e(0, V::B(vec![2, 3, 0, 0]))
            .a(1, "N")
            .e(2, V::R(vec![(45, 1), (30, 1), (1234, 100)])),
    )
}

fn strip(d: Dir, label: &str) -> Dir {
    d.r(0x111, label)
        .e(0x117, V::Len(label.into(), format!("{label}_end")))
}
fn blob(a: &mut Asm, label: &str, b: &[u8]) {
    a.align2();
    a.label(label);
    a.bytes(b);
    a.label(&format!("{label}_end"));
}

fn rgb_thumb(d: Dir, w: usize, h: usize) -> Dir {
    strip(
        d.l(0xfe, 1)
            .l(0x100, w as u32)
            .l(0x101, h as u32)
            .e(0x102, V::S(vec![8, 8, 8]))
            .s(0x103, 1)
            .s(0x106, 2)
            .s(0x115, 3)
            .l(0x116, h as u32),
        "thumb",
    )
}

pub fn cfa_dir(d: Dir) -> Dir {
    d.e(0x828d, V::S(vec![2, 2]))
        .e(0x828e, V::B(vec![0, 1, 1, 2]))
}

/// A directory with uncompressed or compressed raw data in one strip.
fn raw_dir(c: &Cfg, bits: u16, comp: u16) -> Dir {
    strip(
        cfa_dir(
            Dir::new()
                .l(0xfe, 0)
                .l(0x100, c.w as u32)
                .l(0x101, c.h as u32)
                .s(0x102, bits)
                .s(0x103, comp)
                .s(0x106, 32803)
                .s(0x115, 1)
                .l(0x116, c.h as u32),
        ),
        "raw",
    )
}

fn head(c: &Cfg, make: &str, model: &str) -> Dir {
    Dir::new()
        .a(0x10f, &c.mk(make))
        .a(0x110, &c.md(model))
        .s(0x112, 6)
        .e(0x11a, V::R(vec![(300, 1)]))
        .a(0x131, "ORV 1.0")
        .a(0x132, "2022:01:02 03:04:05")
}

/// DNG. var 0: 16-bit strip; 1: LJPEG strip (2 components); 2: LJPEG tiles;
/// 3: 16-bit tiles?; 4: raw in the main directory; 5: lossy (unsupported) compression
pub fn dng(c: &Cfg) -> File {
    let mut a = Asm::new(c.be);
    let (w, h) = (c.w, c.h);
    let mut streams: Vec<Vec<u8>> = vec![];
    let mut rd;
    match c.var {
        1 => {
            let p = ljpeg::Params {
                psv: 1,
                ..ljpeg::Params::new(w / 2, h, 2, 16)
            };
            streams.push(ljpeg::encode(&p, &c.img));
            rd = raw_dir(c, 16, 7);
        }
        2 => {
            let (tw, th) = (w / 2 + 1, h / 2 + 1);
            for ty in 0..2 {
                for tx in 0..2 {
                    let mut t = vec![];
                    for y in 0..th {
                        for x in 0..tw {
                            let (xx, yy) = ((tx * tw + x).min(w.wrapping_sub(1)), (ty * th + y).min(h.wrapping_sub(1)));
                            t.push(c.img[yy * w + xx]);
                        }
                    }
                    let p = ljpeg::Params {
                        psv: 6,
                        table: 2,
                        ..ljpeg::Params::new(tw, th, 1, 16)
                    };
                    streams.push(ljpeg::encode(&p, &t));
                }
            }
            rd = raw_dir(c, 16, 7);
            for t in [0x111, 0x116, 0x117] {
                rd = del(rd, t);
            }
            rd = rd
                .l(0x142, tw as u32)
                .l(0x143, th as u32)
                .e(0x144, V::Ref((0..4).map(|i| format!("tile{i}")).collect()));
            rd = rd.e(
                0x145,
                V::L(streams.iter().map(|s| s.len() as u32).collect()),
            );
        }
        5 => {
            streams.push(vec![0x5a; 40]);
            rd = raw_dir(c, 8, 34892);
        }
        _ => {
            let (bits, comp, data) = c.stored((16, 1, e16(&c.img, c.be)));
            streams.push(data);
            rd = raw_dir(c, bits, comp);
        }
    }
    rd = rd
        .e(0xc61a, V::S(vec![64]))
        .e(0xc61d, V::S(vec![4095]))
        .e(0xc61f, V::L(vec![1, 1]))
        .e(0xc620, V::L(vec![(w as u32).wrapping_sub(2), (h as u32).wrapping_sub(2)]))
        .e(0xc68d, V::L(vec![0, 0, h as u32, w as u32]));
    let colour = |d: Dir| {
        d.e(0xc612, V::B(vec![1, 4, 0, 0]))
            .e(0xc613, V::B(vec![1, 1, 0, 0]))
            .e(
                0xc621,
                V::SR((0..9).map(|i| (i * 1000 + 1, 10000)).collect()),
            )
            .e(
                0xc622,
                V::SR((0..9).map(|i| (i * 500 - 2000, 10000)).collect()),
            )
            .e(0xc628, V::R(vec![(5, 10), (1, 1), (7, 10)]))
            .s(0xc65a, 17)
            .s(0xc65b, 21)
            .a(0xc614, &c.md("ORV Test One"))
    };
    let exif = exif_dir(c, None);
    let gps = gps_dir(c);
    let main = if c.var == 4 {
        let mut m = head(c, "ORV", "Test One");
        for e in c.t("raw", rd).e {
            m = set(m, e.0, e.1);
        }
        colour(m)
            .e(0x8769, V::Sub(vec![exif]))
            .e(0x8825, V::Sub(vec![gps]))
    } else {
        let prev = strip(
            Dir::new()
                .l(0xfe, 1)
                .l(0x100, c.pd(0, 64, 48).0 as u32)
                .l(0x101, c.pd(0, 64, 48).1 as u32)
                .e(0x102, V::S(vec![8, 8, 8]))
                .s(0x103, 7)
                .s(0x106, 6)
                .s(0x115, 3),
            "jpeg1",
        );
        colour(rgb_thumb(head(c, "ORV", "Test One"), 16, 12))
            .e(0x14a, V::Sub(vec![c.t("raw", rd), c.t("preview", prev)]))
            .e(0x8769, V::Sub(vec![exif]))
            .e(0x8825, V::Sub(vec![gps]))
    };
    a.tiff(0x2a, &c.t("main", main));
    if c.var != 4 {
        blob(&mut a, "thumb", &rgb(16, 12));
        blob(&mut a, "jpeg1", &c.jp(0, 64, 48, 20, None));
    }
    if c.var == 2 {
        for (i, s) in streams.iter().enumerate() {
            blob(&mut a, &format!("tile{i}"), s);
        }
    } else {
        blob(&mut a, "raw", &streams[0]);
    }
    a.finish()
}

/// Nikon maker note, type 2 (own TIFF header).
fn nikon_mnote(c: &Cfg, extra: Vec<(u16, V)>) -> V {
    let mut d = Dir::new()
        .e(0x01, V::U(b"0210".to_vec()))
        .a(0x05, "AUTO")
        .e(
            0x0c,
            V::R(vec![(500, 256), (300, 256), (256, 256), (256, 256)]),
        )
        .e(0x3d, V::S(vec![8, 8, 8, 8]))
        .e(0x45, V::S(vec![1, 1, (c.w as u16).wrapping_sub(2), (c.h as u16).wrapping_sub(2)]));
    for (t, v) in extra {
        d = set(d, t, v);
    }
    d = d.e(
        0x11,
        V::Sub(vec![c.t("mnpreview", Dir::new().l(0x201, 0).l(0x202, 0))]),
    );
    let d = c.t("mnote", d);
    let pj = c.jp(1, 80, 60, 15, None);
    V::Custom(
        7,
        Rc::new(move |a: &mut Asm| {
            a.bytes(b"Nikon\0\x02\x10\0\0");
            let mut d = d.clone();
            d.sorted = true;
            let base = a.fresh("mn");
            a.label(&base);
            let b: &[u8] = if a.be { b"MM" } else { b"II" };
            a.bytes(b);
            a.u16(0x2a);
            let l = a.fresh("mnifd");
            a.ref32(&l, Some(&base));
            a.label(&l);
            // preview offset is relative to the maker note's own header
            for e in d.e.iter_mut() {
                if let (0x11, V::Sub(s)) = (e.0, &mut e.1) {
                    for f in s[0].e.iter_mut() {
                        if let (0x201, V::L(v)) = (f.0, &f.1) {
                            if v == &vec![0] {
                                f.1 = V::Ref(vec!["mnjpeg".into()]);
                            }
                        }
                        if let (0x202, V::L(v)) = (f.0, &f.1) {
                            if v == &vec![0] {
                                f.1 = V::Len("mnjpeg".into(), "mnjpeg_end".into());
                            }
                        }
                    }
                }
            }
            a.dir(&d, &base);
            a.align2();
            a.label("mnjpeg");
            a.bytes(&pj);
            a.label("mnjpeg_end");
        }),
    )
}

/// NEF. var 0: 16-bit uncompressed; 1: 12-bit big endian packed; 2: quantized with the given stream in img? (see `nef_comp`)
pub fn nef(c: &Cfg) -> File {
    let (bits, comp, data): (u16, u16, Vec<u8>) = match c.var {
        1 => (12, 1, pack12be(&c.img)),
        _ => (16, 1, e16(&c.img, c.be)),
    };
    let (bits, comp, data) = c.stored((bits, comp, data));
    nef_with(c, bits, comp, &data, vec![])
}

pub fn nef_with(c: &Cfg, bits: u16, comp: u16, data: &[u8], mn: Vec<(u16, V)>) -> File {
    let mut a = Asm::new(c.be);
    let prev = Dir::new()
        .l(0xfe, 1)
        .s(0x103, 6)
        .e(0x201, V::Ref(vec!["jpeg1".into()]))
        .e(0x202, V::Len("jpeg1".into(), "jpeg1_end".into()));
    let main = rgb_thumb(head(c, "NIKON CORPORATION", "NIKON D70"), 16, 12)
        .e(
            0x14a,
            V::Sub(vec![
                c.t("preview", prev),
                c.t("raw", raw_dir(c, bits, comp)),
            ]),
        )
        .e(0x8769, V::Sub(vec![exif_dir(c, Some(nikon_mnote(c, mn)))]));
    a.tiff(0x2a, &c.t("main", main));
    blob(&mut a, "thumb", &rgb(16, 12));
    blob(&mut a, "jpeg1", &c.jp(0, 64, 48, 20, None));
    blob(&mut a, "raw", data);
    a.finish()
}

pub fn pack12be(v: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for p in v.chunks(2) {
        let (x, y) = (p[0] & 0xfff, p.get(1).copied().unwrap_or(0) & 0xfff);
        o.extend_from_slice(&[
            (x >> 4) as u8,
            ((x & 15) << 4) as u8 | (y >> 8) as u8,
            y as u8,
        ]);
    }
    o
}
pub fn pack12le(v: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    for p in v.chunks(2) {
        let (x, y) = (p[0] & 0xfff, p.get(1).copied().unwrap_or(0) & 0xfff);
        o.extend_from_slice(&[
            x as u8,
            (x >> 8) as u8 | ((y & 15) << 4) as u8,
            (y >> 4) as u8,
        ]);
    }
    o
}

/// Maker note made of a header and a directory whose offsets are relative to `rel`:
/// 0 file start, 1 the maker note itself. `he`: endian of the directory (None: the file's)
fn mnote(header: &'static [u8], d: Dir, rel: u8, file_base: bool) -> V {
    let _ = file_base;
    V::Custom(
        7,
        Rc::new(move |a: &mut Asm| {
            let base = a.fresh("mn");
            a.label(&base);
            a.bytes(header);
            if rel == 1 {
                a.dir(&d, &base);
            } else {
                a.labels.insert("file0".into(), 0);
                a.dir(&d, "file0");
            }
        }),
    )
}

fn canon_mnote_dir(c: &Cfg) -> Dir {
    let (w, h) = (c.w as u16, c.h as u16);
    let mut cam = vec![0u16; 48];
    cam[0] = 96;
    c.t(
        "mnote",
        Dir::new()
            .e(0x0001, V::S(cam))
            .a(0x0006, "Canon EOS Test")
            .a(0x0007, "Firmware 1.0")
            .a(0x0009, "Owner")
            .l(0x0010, 0x80000250) // EOS 7D
            .e(0x4001, V::S((0..210).map(|i| if i == 0 { 1 } else { i + 300 }).collect()))
            .e(0x009a, V::L(vec![0, (w as u32).wrapping_sub(2), (h as u32).wrapping_sub(2), 1, 1]))
            .e(
                0x00e0,
                V::S(vec![
                    34,
                    w,
                    h,
                    1,
                    1,
                    1,
                    1,
                    w.wrapping_sub(1),
                    h.wrapping_sub(1),
                    0,
                    0,
                    0,
                    0,
                    0,
                    0,
                    0,
                    0,
                ]),
            ),
    )
}

/// CR2. var 0: one component count 2 with slices; 1: no slices; 2: 4 components
pub fn cr2(c: &Cfg) -> File {
    let (w, h) = (c.w, c.h);
    let ncomp = if c.var == 2 { 4 } else { 2 };
    let slices: Option<(usize, usize, usize)> = if c.var == 0 {
        Some((1, w / 2, w - w / 2))
    } else {
        None
    };
    let mut seq = vec![];
    if let Some((n, w1, w2)) = slices {
        let mut x0 = 0;
        for i in 0..=n {
            let sw = if i < n { w1 } else { w2 };
            for y in 0..h {
                seq.extend_from_slice(&c.img[y * w + x0..y * w + x0 + sw]);
            }
            x0 += sw;
        }
    } else {
        seq = c.img.clone();
    }
    let p = if ncomp == 4 {
        ljpeg::Params::new(w / 2, h / 2, 4, 14)
    } else {
        ljpeg::Params::new(w / 2, h, 2, 14)
    };
    let mut stream = ljpeg::encode(
        &ljpeg::Params {
            ntables: 2,
            table: 2,
            ..p
        },
        &seq,
    );
    while stream.len() < 16 {
        stream.push(0);
    }
    cr2_with(c, &stream, slices)
}

pub fn cr2_with(c: &Cfg, stream: &[u8], slices: Option<(usize, usize, usize)>) -> File {
    let (w, h) = (c.w, c.h);
    let mut a = Asm::new(c.be);
    let md = canon_mnote_dir(c);
    let mn = mnote(b"", md, 0, true);
    let exif = {
        let c2 = c.clone().tweak(|_, d| d);
        let d = exif_dir(
            &Cfg {
                tweak: Rc::new(|_, d| d),
                ..c2
            },
            Some(mn),
        );
        c.t("exif", d.l(0xa002, w as u32).l(0xa003, h as u32))
    };
    let mut raw = strip(
        Dir::new()
            .s(0x103, 6)
            .s(0xc5d8, 1)
            .l(0xc5e0, 1)
            .s(0xc6c5, 1),
        "raw",
    );
    if let Some((n, w1, w2)) = slices {
        raw = raw.e(0xc640, V::S(vec![n as u16, w1 as u16, w2 as u16]));
    }
    let ifd2 = strip(
        Dir::new()
            .l(0x100, 10)
            .l(0x101, 8)
            .e(0x102, V::S(vec![16, 16, 16]))
            .s(0x103, 6)
            .s(0x106, 2)
            .s(0x115, 3),
        "small",
    );
    let ifd1 = Dir::new()
        .e(0x201, V::Ref(vec!["jpeg1".into()]))
        .e(0x202, V::Len("jpeg1".into(), "jpeg1_end".into()));
    let main = strip(
        head(c, "Canon", "Canon EOS 7D")
            .s(0x100, c.pd(0, 96, 64).0)
            .s(0x101, c.pd(0, 96, 64).1)
            .e(0x102, V::S(vec![8, 8, 8]))
            .s(0x103, 6),
        "jpeg0",
    )
    .e(0x8769, V::Sub(vec![exif]))
    .e(0x8825, V::Sub(vec![gps_dir(c)]));
    let main = c.t("main", main).next(
        c.t("ifd1", ifd1)
            .next(c.t("ifd2", ifd2).next(c.t("raw", raw).labelled("rawifd"))),
    );
    a.labels.insert("file0".into(), 0);
    let b: &[u8] = if c.be { b"MM" } else { b"II" };
    a.bytes(b).u16(0x2a);
    a.ref32("ifd0", None);
    a.bytes(b"CR\x02\0");
    a.ref32("rawifd", None);
    a.label("ifd0");
    a.dir(&main, "file0");
    blob(&mut a, "jpeg0", &c.jp(0, 96, 64, 30, None));
    blob(&mut a, "jpeg1", &c.jp(1, 16, 12, 10, None));
    blob(&mut a, "small", &vec![0x33; 10 * 8 * 6]);
    blob(&mut a, "raw", stream);
    a.finish()
}

/// ARW. var 0: 16-bit LE uncompressed; 1: 12 bits (packed le); 2 ARW2 compressed (not decoded)
pub fn arw(c: &Cfg) -> File {
    let mut a = Asm::new(c.be);
    let md = c.t(
        "mnote",
        Dir::new()
            .s(0xb001, 0x102)
            .e(0x0114, V::U(vec![0; 280]))
            .a(0xb020, "Standard"),
    );
    let mn = mnote(b"SONY DSC \0\0\0", md, 0, true);
    let (bits, comp, data) = match c.var {
        2 => (8, 32767, vec![0x11; c.w * c.h]),
        _ => (14, 1, e16(&c.img, c.be)),
    };
    let (bits, comp, data) = c.stored((bits, comp, data));
    let raw = raw_dir(c, bits, comp)
        .e(0x7310, V::S(vec![128, 128, 128, 128]))
        .e(0x7313, V::SS(vec![2000, 1024, 1024, 1500]))
        .e(0xc61d, V::S(vec![4095, 4095, 4095]))
        .e(0x74c7, V::L(vec![1, 2]))
        .e(0x74c8, V::L(vec![(c.w as u32).wrapping_sub(2), (c.h as u32).wrapping_sub(3)]));
    let main = head(c, "SONY", "DSLR-A700")
        .l(0xfe, 1)
        .s(0x103, 6)
        .e(0x201, V::Ref(vec!["jpeg1".into()]))
        .e(0x202, V::Len("jpeg1".into(), "jpeg1_end".into()))
        .e(0x14a, V::Sub(vec![c.t("raw", raw)]))
        .e(0x8769, V::Sub(vec![exif_dir(c, Some(mn))]));
    let ifd1 = Dir::new()
        .s(0x103, 6)
        .e(0x201, V::Ref(vec!["jpeg2".into()]))
        .e(0x202, V::Len("jpeg2".into(), "jpeg2_end".into()));
    a.tiff(0x2a, &c.t("main", main).next(c.t("ifd1", ifd1)));
    blob(&mut a, "jpeg1", &c.jp(0, 64, 48, 20, None));
    blob(&mut a, "jpeg2", &c.jp(1, 16, 12, 10, None));
    blob(&mut a, "raw", &data);
    a.finish()
}

/// PEF. var 0: 16-bit uncompressed; 1: 12-bit packed BE
pub fn pef(c: &Cfg) -> File {
    let (bits, comp, data) = match c.var {
        1 => (12, 32773, pack12be(&c.img)),
        _ => (16, 1, e16(&c.img, c.be)),
    };
    let (bits, comp, data) = c.stored((bits, comp, data));
    pef_with(c, bits, comp, &data, vec![])
}
pub fn pef_with(c: &Cfg, bits: u16, comp: u16, data: &[u8], mn: Vec<(u16, V)>) -> File {
    let mut a = Asm::new(c.be);
    let mut md = Dir::new()
        .e(0x03, V::Len("jpeg1".into(), "jpeg1_end".into()))
        .r(0x04, "jpeg1")
        .l(0x05, 0x12b9c) // K100D
        .e(0x38, V::S(vec![1, 2]))
        .e(0x39, V::S(vec![(c.w as u16).wrapping_sub(2), (c.h as u16).wrapping_sub(3)]))
        .e(0x80, V::B(vec![0]))
        .e(0x200, V::S(vec![64, 65, 66, 67]))
        .e(0x7e, V::L(vec![3950]))
        .e(0x201, V::S(vec![500, 256, 256, 400]));
    for (t, v) in mn {
        md = set(md, t, v);
    }
    let md = c.t("mnote", md);
    let h: &'static [u8] = if c.be { b"AOC\0MM" } else { b"AOC\0II" };
    let mn = mnote(h, md, 0, true);
    let mut main = head(c, "PENTAX Corporation ", "PENTAX K100D");
    for e in del(raw_dir(c, bits, comp), 0xfe).e {
        main = set(main, e.0, e.1);
    }
    let main = main.e(0x8769, V::Sub(vec![exif_dir(c, Some(mn))]));
    let ifd1 = Dir::new()
        .s(0x103, 6)
        .e(0x201, V::Ref(vec!["jpeg2".into()]))
        .e(0x202, V::Len("jpeg2".into(), "jpeg2_end".into()));
    a.tiff(0x2a, &c.t("main", main).next(c.t("ifd1", ifd1)));
    blob(&mut a, "jpeg1", &c.jp(0, 64, 48, 20, None));
    blob(&mut a, "jpeg2", &c.jp(1, 16, 12, 10, None));
    blob(&mut a, "raw", data);
    a.finish()
}

/// ERF: 16 bits
pub fn erf(c: &Cfg) -> File {
    let mut a = Asm::new(c.be);
    let mut wb = vec![0u8; 128 * 2];
    for (i, v) in [(24usize, 0x40u16), (25, 0x50)] {
        let b = if c.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        };
        wb[i * 2..i * 2 + 2].copy_from_slice(&b);
    }
    let area: Vec<u8> = [1u16, 2, (c.w as u16).wrapping_sub(2), (c.h as u16).wrapping_sub(3)]
        .iter()
        .flat_map(|v| {
            if c.be {
                v.to_be_bytes()
            } else {
                v.to_le_bytes()
            }
        })
        .collect();
    let md = c.t(
        "mnote",
        Dir::new()
            .e(
                0x280,
                V::Custom(
                    7,
                    Rc::new(|a: &mut Asm| {
                        let mut j = jpeg(640, 424, 25, None);
                        j[0] = 0;
                        a.bytes(&j);
                    }),
                ),
            )
            .e(0x400, V::U(area))
            .e(0x401, V::S(vec![60, 61, 62, 63]))
            .e(0xe80, V::U(wb)),
    );
    let mn = mnote(b"EPSON\0\x01\0", md, 0, true);
    let (bits, comp, data) = c.stored((16, 1, e16(&c.img, c.be)));
    let raw = raw_dir(c, bits, comp);
    let main = rgb_thumb(head(c, "SEIKO EPSON CORP.", "R-D1"), 16, 12)
        .e(0x14a, V::Sub(vec![c.t("raw", raw)]))
        .e(0x8769, V::Sub(vec![exif_dir(c, Some(mn))]));
    a.tiff(0x2a, &c.t("main", main));
    blob(&mut a, "thumb", &rgb(16, 12));
    blob(&mut a, "raw", &data);
    a.finish()
}

/// ORF. var 0: 16-bit LE uncompressed; 1: compressed stream supplied through `orf_with`
pub fn orf(c: &Cfg) -> File {
    orf_with(c, &le16(&c.img), 16)
}
pub fn orf_with(c: &Cfg, data: &[u8], bits: u16) -> File {
    let mut a = Asm::new(c.be);
    let cs = c.t(
        "cs",
        Dir::new()
            .l(0x100, 1)
            .r(0x101, "jpeg1")
            .e(0x102, V::Len("jpeg1".into(), "jpeg1_end".into())),
    );
    let ip = c.t(
        "ip",
        Dir::new()
            .e(0x100, V::S(vec![450, 380]))
            .e(0x600, V::S(vec![62, 63, 64, 65]))
            .s(0x612, 1)
            .s(0x613, 2)
            .s(0x614, (c.w as u16).wrapping_sub(2))
            .s(0x615, (c.h as u16).wrapping_sub(3)),
    );
    let md = c.t(
        "mnote",
        Dir::new()
            .e(0x2020, V::Sub(vec![cs]))
            .e(0x2040, V::Sub(vec![ip]))
            .a(0x207, "S0003"),
    );
    let h: &'static [u8] = if c.be {
        b"OLYMPUS\0MM\x03\0"
    } else {
        b"OLYMPUS\0II\x03\0"
    };
    // preview bytes live inside the maker note so that its offset is relative to it
    let pj = c.jp(0, 64, 48, 20, None);
    let mn = V::Custom(
        7,
        Rc::new(move |a: &mut Asm| {
            let base = a.fresh("mn");
            a.label(&base);
            a.bytes(h);
            a.dir(&md, &base);
            a.align2();
            a.label("jpeg1");
            a.bytes(&pj);
            a.label("jpeg1_end");
        }),
    );
    let mut main = head(c, "OLYMPUS IMAGING CORP.  ", "E-M5");
    for e in raw_dir(c, bits, 1).e {
        if ![0x828d, 0x828e, 0xfe].contains(&e.0) {
            main = set(main, e.0, e.1);
        }
    }
    let exif = {
        let c2 = Cfg {
            tweak: Rc::new(|_, d| d),
            ..c.clone()
        };
        c.t(
            "exif",
            exif_dir(&c2, Some(mn)).e(
                0xa302,
                V::U(if c.be {
                    vec![0, 2, 0, 2, 0, 1, 1, 2]
                } else {
                    vec![2, 0, 2, 0, 0, 1, 1, 2]
                }),
            ),
        )
    };
    let main = main.e(0x8769, V::Sub(vec![exif]));
    a.tiff(if c.be { 0x4f52 } else { 0x4f52 }, &c.t("main", main));
    blob(&mut a, "raw", data);
    a.finish()
}

/// RW2: `IIU\0`. data16: samples stored in 16 bits (<< 4)
pub fn rw2(c: &Cfg) -> File {
    let d: Vec<u16> = c.img.iter().map(|v| v << 4).collect();
    rw2_with(c, &le16(&d), false, 0)
}
pub fn rw2_with(c: &Cfg, data: &[u8], raw_offset: bool, comp: u16) -> File {
    let mut a = Asm::new(false);
    let mut d = Dir::new()
        .e(0x01, V::U(b"0310".to_vec()))
        .s(0x02, c.w as u16)
        .s(0x03, c.h as u16)
        .s(0x04, 2)
        .s(0x05, 1)
        .s(0x06, (c.h as u16).wrapping_sub(1))
        .s(0x07, (c.w as u16).wrapping_sub(1))
        .s(0x09, 3)
        .s(0x0a, 12)
        .s(0x0e, 4000)
        .s(0x0f, 4001)
        .s(0x10, 4002)
        .s(0x17, 100)
        .s(0x1c, 15)
        .s(0x1d, 16)
        .s(0x1e, 17)
        .s(0x24, 500)
        .s(0x25, 256)
        .s(0x26, 400)
        .a(0x10f, &c.mk("Panasonic"))
        .a(0x110, &c.md("DMC-GF1"))
        .s(0x112, 1);
    d = if comp != 0 { d.s(0x0b, comp) } else { d };
    if raw_offset {
        d = d.r(0x118, "raw");
    } else {
        d = strip(d, "raw");
    }
    // Exif of the embedded JPEG
    let mut e = Asm::new(false);
    let md = c.t(
        "mnote",
        Dir::new()
            .l(0x03, 1)
            .e(0x01, V::S(vec![2]))
            .e(0x25, V::U(b"F070000".to_vec())),
    );
    let mn = mnote(b"Panasonic\0\0\0", md, 0, true);
    let ex = exif_dir(c, Some(mn));
    let jm = c.t(
        "jmain",
        head(c, "Panasonic", "DMC-GF1").e(0x8769, V::Sub(vec![ex])),
    );
    let j1 = c.t(
        "jthumb",
        Dir::new()
            .s(0x103, 6)
            .r(0x201, "t")
            .e(0x202, V::Len("t".into(), "t_end".into())),
    );
    e.tiff(0x2a, &jm.next(j1));
    blob(&mut e, "t", &c.jp(0, 160, 120, 10, None));
    let mut app1 = b"Exif\0\0".to_vec();
    app1.extend(e.finish().data);
    let j = c.jp(1, 192, 128, 20, Some(&app1));
    d = d.e(
        0x2e,
        V::Custom(
            7,
            Rc::new(move |a: &mut Asm| {
                a.bytes(&j);
            }),
        ),
    );
    a.tiff(0x55, &c.t("main", d));
    blob(&mut a, "raw", data);
    a.finish()
}

/// MRW. var 0: 16-bit BE samples; 1: packed 12 bits
pub fn mrw(c: &Cfg) -> File {
    let packed = c.var == 1;
    let data = if packed {
        pack12be(&c.img)
    } else {
        be16(&c.img)
    };
    mrw_with(c, &data, if packed { 0x59 } else { 0x52 - 0x52 + 0x50 }, 1)
}
pub fn mrw_with(c: &Cfg, data: &[u8], storage: u8, bayer: u16) -> File {
    mrw_blocks(
        c,
        data,
        storage,
        bayer,
        &["PRD", "TTW", "WBG", "RIF", "PAD"],
    )
}
pub fn mrw_blocks(c: &Cfg, data: &[u8], storage: u8, bayer: u16, order: &[&str]) -> File {
    let mut a = Asm::new(true);
    let mut t = Asm::new(true);
    let md = c.t(
        "mnote",
        Dir::new()
            .e(0x00, V::U(b"MLT0".to_vec()))
            .r(0x88, "th")
            .e(0x89, V::Len("th".into(), "th_end".into())),
    );
    let mn = mnote(b"", md, 0, true);
    let main = c.t(
        "main",
        head(c, "Minolta Co., Ltd.", "DiMAGE 7").e(0x8769, V::Sub(vec![exif_dir(c, Some(mn))])),
    );
    t.labels.insert("file0".into(), 0);
    t.tiff(0x2a, &main);
    let mut j = jpeg(640, 480, 20, None);
    j[0] = 0;
    blob(&mut t, "th", &j);
    let ttw = t.finish();
    a.bytes(b"\0MRM");
    a.ref32("data", Some("mrm"));
    a.label("mrm");
    for b in order {
        a.bytes(b"\0").bytes(b.as_bytes());
        let (s, e) = (a.fresh("s"), a.fresh("e"));
        a.ref32(&e, Some(&s));
        a.label(&s);
        match *b {
            "PRD" => {
                a.bytes(b"27820001");
                a.u16(c.h as u16)
                    .u16(c.w as u16)
                    .u16((c.h as u16).wrapping_sub(2))
                    .u16((c.w as u16).wrapping_sub(2));
                a.u8(if storage == 0x59 || storage == 0x52 {
                    12
                } else {
                    16
                })
                .u8(12)
                .u8(storage)
                .u8(0)
                .u16(0)
                .u16(bayer);
            }
            "TTW" => {
                let off = a.pos();
                for f in &ttw.fields {
                    a.fields.push(crate::asm::Field {
                        off: off + f.off,
                        width: f.width,
                        be: f.be,
                        name: f.name.clone(),
                    });
                }
                a.bytes(&ttw.data);
            }
            "WBG" => {
                a.u8(2)
                    .u8(2)
                    .u8(2)
                    .u8(2)
                    .u16(400)
                    .u16(256)
                    .u16(256)
                    .u16(500);
            }
            "RIF" => {
                a.zeros(20);
            }
            _ => {
                a.zeros(6);
            }
        }
        a.label(&e);
    }
    a.label("data");
    a.bytes(data);
    let mut f = a.finish();
    for (k, v) in ttw.labels {
        f.labels.entry(format!("ttw:{k}")).or_insert(v);
    }
    f
}

#[derive(Clone)]
pub struct RafOpt {
    pub meta: Vec<(u16, Vec<u8>)>,
    pub bps: u16,
    pub old: bool,
}
pub fn be32(v: u32) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
pub fn b2(a: u16, b: u16) -> Vec<u8> {
    [a.to_be_bytes(), b.to_be_bytes()].concat()
}
pub fn raf_opt(c: &Cfg) -> RafOpt {
    let (w, h) = (c.w as u16, c.h as u16);
    RafOpt {
        meta: vec![
            (0x100, b2(h, w)),
            (0x110, b2(1, 2)),
            (0x111, b2(h.wrapping_sub(2), w.wrapping_sub(4))),
            (0x115, b2(2, 3)),
            (0x121, b2(h.wrapping_sub(2), w.wrapping_sub(4))),
            (0x130, be32(0x00000c00)),
            (0x9650, be32(0)),
            (
                0xc000,
                [(w as u32) + 5, (w.wrapping_sub(4)) as u32, (h.wrapping_sub(2)) as u32, 0]
                    .iter()
                    .flat_map(|v| v.to_le_bytes())
                    .collect(),
            ),
        ],
        bps: 16,
        old: false,
    }
}
/// RAF with uncompressed 16 bits
pub fn raf(c: &Cfg) -> File {
    let o = raf_opt(c);
    raf_with(c, &o, &le16(&c.img))
}
pub fn raf_with(c: &Cfg, o: &RafOpt, data: &[u8]) -> File {
    let mut a = Asm::new(true);
    a.bytes(b"FUJIFILMCCD-RAW ");
    a.bytes(b"0201FF389501");
    let mut m = c.md("X-T1").into_bytes();
    m.resize(32, 0);
    a.bytes(&m);
    a.bytes(b"0100");
    a.zeros(20);
    for l in ["jpg", "meta", "cfa"] {
        a.ref32(l, None);
        a.ref32(&format!("{l}_end"), Some(l));
    }
    a.zeros(12);
    a.zeros(16); // extra directories
    a.pad_to(148);
    // preview
    let mut e = Asm::new(false);
    e.labels.insert("file0".into(), 0);
    let md = c.t(
        "mnote",
        Dir::new()
            .e(0x00, V::U(b"0130".to_vec()))
            .a(0x10, "FF389501")
            .a(0x1000, "NORMAL "),
    );
    let mn = mnote(b"FUJIFILM\x0c\0\0\0", md, 1, false);
    let ex = exif_dir(c, Some(mn));
    let jm = c.t(
        "main",
        head(c, "FUJIFILM", "X-T1").e(0x8769, V::Sub(vec![ex])),
    );
    let j1 = c.t(
        "jthumb",
        Dir::new()
            .s(0x103, 6)
            .r(0x201, "t")
            .e(0x202, V::Len("t".into(), "t_end".into())),
    );
    e.tiff(0x2a, &jm.next(j1));
    blob(&mut e, "t", &c.jp(0, 160, 120, 10, None));
    let ef = e.finish();
    let mut app1 = b"Exif\0\0".to_vec();
    app1.extend(&ef.data);
    let off = a.pos() + 2 + 4 + 6;
    for f in &ef.fields {
        a.fields.push(crate::asm::Field {
            off: off + f.off,
            width: f.width,
            be: f.be,
            name: f.name.clone(),
        });
    }
    blob(&mut a, "jpg", &c.jp(1, 192, 128, 20, Some(&app1)));
    a.align2();
    a.label("meta");
    a.u32(o.meta.len() as u32);
    for (t, v) in &o.meta {
        a.u16(*t).u16(v.len() as u16);
        if v.len() == 4 {
            a.u32(u32::from_be_bytes(v[..].try_into().unwrap()));
        } else {
            a.bytes(v);
        }
    }
    a.label("meta_end");
    a.pad_to((a.pos() + 15) & !15);
    a.label("cfa");
    if o.old {
        a.zeros(2048);
        a.label("raw");
        a.bytes(data);
        a.label("raw_end");
    } else {
        a.be = false;
        let sub = c.t(
            "raw",
            Dir::new()
                .l(0xf001, c.w as u32)
                .l(0xf002, c.h as u32)
                .l(0xf003, o.bps as u32)
                .r(0xf007, "raw")
                .e(0xf008, V::Len("raw".into(), "raw_end".into()))
                .e(0xf00a, V::L(vec![32, 33, 34, 35]))
                .e(0xf00e, V::L(vec![300, 500, 400])),
        );
        a.tiff(0x2a, &Dir::new().e(0xf000, V::Sub(vec![sub])));
        a.be = true;
        blob(&mut a, "raw", data);
    }
    a.label("cfa_end");
    a.finish()
}

/// A CIFF record.
#[derive(Clone)]
pub enum Ci {
    /// stored in the heap
    H(u16, Vec<u8>),
    /// stored inline (8 bytes)
    I(u16, [u8; 8]),
    /// sub heap
    S(u16, Vec<Ci>),
}
pub fn ci_heap(
    recs: &[Ci],
    be: bool,
    fields: &mut Vec<crate::asm::Field>,
    at: usize,
    rev: bool,
) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut tab: Vec<(u16, u32, u32, Option<[u8; 8]>)> = vec![];
    let mut order: Vec<usize> = (0..recs.len()).collect();
    if rev {
        order.reverse();
    }
    let mut ent = vec![(0u16, 0u32, 0u32, None); recs.len()];
    for i in order {
        ent[i] = match &recs[i] {
            Ci::H(t, b) => {
                let off = o.len() as u32;
                o.extend_from_slice(b);
                if o.len() % 2 == 1 {
                    o.push(0);
                }
                (*t, b.len() as u32, off, None)
            }
            Ci::S(t, r) => {
                let off = o.len() as u32;
                let b = ci_heap(r, be, fields, at + o.len(), rev);
                o.extend_from_slice(&b);
                (*t, b.len() as u32, off, None)
            }
            Ci::I(t, b) => (*t | 0x4000, 0, 0, Some(*b)),
        };
    }
    tab.extend(ent);
    let toff = o.len() as u32;
    let e16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let e32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut f = |o: &Vec<u8>, w: usize| {
        fields.push(crate::asm::Field {
            off: at + o.len(),
            width: w,
            be,
            name: "ciff".into(),
        })
    };
    f(&o, 2);
    o.extend_from_slice(&e16(tab.len() as u16));
    for (t, l, off, inl) in tab {
        f(&o, 2);
        o.extend_from_slice(&e16(t));
        if let Some(b) = inl {
            f(&o, 4);
            o.extend_from_slice(&b[..4]);
            f(&o, 4);
            o.extend_from_slice(&b[4..]);
        } else {
            f(&o, 4);
            o.extend_from_slice(&e32(l));
            f(&o, 4);
            o.extend_from_slice(&e32(off));
        }
    }
    f(&o, 4);
    o.extend_from_slice(&e32(toff));
    o
}
pub fn c16(v: &[u16], be: bool) -> Vec<u8> {
    e16(v, be)
}
pub fn c32(v: &[u32], be: bool) -> Vec<u8> {
    v.iter()
        .flat_map(|x| if be { x.to_be_bytes() } else { x.to_le_bytes() })
        .collect()
}
pub fn in8(b: Vec<u8>) -> [u8; 8] {
    let mut o = [0; 8];
    o[..b.len().min(8)].copy_from_slice(&b[..b.len().min(8)]);
    o
}
/// Default records of a CRW file; raw: compressed stream
pub fn crw_recs(c: &Cfg, raw: &[u8]) -> Vec<Ci> {
    let be = c.be;
    let model = c.md("Canon EOS D60");
    let mut cam = vec![0u16; 48];
    cam[0] = 96;
    cam[17] = 3;
    cam[20] = 1;
    cam[23] = 200;
    cam[24] = 50;
    cam[25] = 1;
    let mut wbt = vec![0u16; 60];
    for (i, v) in wbt.iter_mut().enumerate() {
        *v = 200 + i as u16 * 10;
    }
    let mut shot = vec![0u16; 24];
    shot[7] = 1;
    vec![
        Ci::H(0x2005, raw.to_vec()),
        Ci::H(0x2007, c.jp(0, 64, 48, 20, None)),
        Ci::S(
            0x300a,
            vec![
                Ci::S(
                    0x2807,
                    vec![
                        Ci::H(0x080a, format!("Canon\0{model}\0").into_bytes()),
                        Ci::H(0x0810, b"Owner Name\0".to_vec()),
                    ],
                ),
                Ci::H(
                    0x1810,
                    c32(&[c.w as u32, c.h as u32, 0x3f800000, 90, 8, 24, 1], be),
                ),
                Ci::H(0x180e, c32(&[1_600_000_000, 0, 0], be)),
                Ci::I(0x180b, in8(c32(&[0x1234abcd, 0], be))),
                Ci::S(
                    0x300b,
                    vec![
                        Ci::I(0x1834, in8(c32(&[0x01668000, 0], be))),
                        Ci::H(0x1835, c32(&[0, 512, 514, raw.len() as u32], be)),
                        Ci::H(
                            0x1031,
                            c16(
                                &[
                                    18,
                                    c.w as u16,
                                    c.h as u16,
                                    1,
                                    1,
                                    2,
                                    1,
                                    (c.w as u16).wrapping_sub(3),
                                    (c.h as u16).wrapping_sub(2),
                                ],
                                be,
                            ),
                        ),
                        Ci::H(0x102d, c16(&cam, be)),
                        Ci::H(0x1029, c16(&[2, 85, 0, 0], be)),
                        Ci::H(0x102a, c16(&shot, be)),
                        Ci::H(0x10a9, c16(&wbt, be)),
                    ],
                ),
            ],
        ),
    ]
}
pub fn crw_with(c: &Cfg, recs: &[Ci], rev: bool, header: usize) -> File {
    let mut a = Asm::new(c.be);
    let b: &[u8] = if c.be { b"MM" } else { b"II" };
    a.bytes(b);
    a.u32(header as u32);
    a.bytes(b"HEAPCCDR");
    a.u32(0x00010002);
    a.pad_to(header);
    let mut fields = vec![];
    let heap = ci_heap(recs, c.be, &mut fields, header, rev);
    a.bytes(&heap);
    a.fields.extend(fields);
    a.finish()
}
/// A CRW whose raw data decodes to c.img (10 bits)
pub fn crw(c: &Cfg) -> File {
    let raw = crate::codec::crw::encode(&c.img, c.w, c.h, 0, false);
    crw_with(c, &crw_recs(c, &raw), false, 26)
}

/// ISO media box
pub fn mbox(a: &mut Asm, name: &[u8; 4], form: u8, f: impl FnOnce(&mut Asm)) {
    let (s, e) = (a.fresh("bs"), a.fresh("be"));
    a.label(&s);
    match form {
        1 => {
            a.u32(1);
            a.bytes(name);
            a.ref64(&e, Some(&s));
        }
        0 => {
            a.ref32(&e, Some(&s));
            a.bytes(name);
        }
        _ => {
            a.u32(0);
            a.bytes(name);
        }
    }
    f(a);
    a.label(&e);
}

#[derive(Clone)]
pub struct Cr3Opt {
    /// order of the boxes of the Canon header
    pub hdr: Vec<usize>,
    /// order of top level boxes (0 moov, 1 xmp uuid, 2 preview uuid, 3 mdat, 4 free)
    pub top: Vec<usize>,
    /// size form of (moov, tracks, mdat, header uuid)
    pub form: [u8; 4],
    /// 64-bit chunk offsets
    pub co64: bool,
    /// constant sample size in stsz
    pub constant: bool,
    /// unknown boxes in between
    pub junk: bool,
    /// sibling order inside stbl
    pub stbl: Vec<usize>,
}
impl Default for Cr3Opt {
    fn default() -> Self {
        Cr3Opt {
            hdr: (0..8).collect(),
            top: vec![0, 1, 2, 3],
            form: [0; 4],
            co64: true,
            constant: true,
            junk: false,
            stbl: vec![0, 1, 2, 3, 4],
        }
    }
}
pub fn cr3(c: &Cfg) -> File {
    cr3_with(c, &Cr3Opt::default())
}
pub fn cr3_raw(c: &Cfg) -> Vec<u8> {
    (0..c.w * c.h / 2).map(|i| (i * 13 + 1) as u8).collect()
}
fn sub_tiff(a: &mut Asm, d: &Dir, be: bool) {
    let o = a.be;
    a.be = be;
    let mut t = Asm::new(be);
    t.labels.insert("file0".into(), 0);
    t.tiff(0x2a, d);
    let f = t.finish();
    let off = a.pos();
    for x in &f.fields {
        a.fields.push(crate::asm::Field {
            off: off + x.off,
            width: x.width,
            be: x.be,
            name: x.name.clone(),
        });
    }
    a.bytes(&f.data);
    a.be = o;
}
pub fn cr3_with(c: &Cfg, o: &Cr3Opt) -> File {
    let mut a = Asm::new(true);
    let junk = |a: &mut Asm| {
        if o.junk {
            mbox(a, b"abcd", 0, |a| {
                a.bytes(&[1, 2, 3]);
            });
            mbox(a, b"free", 0, |_| {});
        }
    };
    mbox(&mut a, b"ftyp", 0, |a| {
        a.bytes(b"crx ").u32(1).bytes(b"crx isom");
    });
    let tracks: [(u8, u16, u16, &str); 4] = [
        (1, c.pd(2, 96, 64).0, c.pd(2, 96, 64).1, "jpg0"),
        (1, c.pd(3, 48, 32).0, c.pd(3, 48, 32).1, "jpg1"),
        (0, c.w as u16, c.h as u16, "raw"),
        (2, 0, 0, "meta"),
    ];
    for t in &o.top {
        junk(&mut a);
        match t {
            0 => mbox(&mut a, b"moov", o.form[0], |a| {
                mbox(a, b"uuid", o.form[3], |a| {
                    a.bytes(&[
                        0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce,
                        0x46, 0x2b, 0x6a, 0x48,
                    ]);
                    for k in &o.hdr {
                        junk(a);
                        match k {
                            0 => mbox(a, b"CNCV", 0, |a| {
                                a.bytes(b"CanonCR3_001/00.09.00/00.00.00");
                            }),
                            1 => mbox(a, b"CCTP", 0, |a| {
                                a.u32(0).u32(1).u32(0);
                            }),
                            2 => mbox(a, b"CTBO", 0, |a| {
                                a.u32(3);
                                for (i, l) in ["xmp", "prvu", "mdat"].iter().enumerate() {
                                    a.u32(i as u32 + 1);
                                    a.ref64(l, None);
                                    a.ref64(&format!("{l}_end"), Some(l));
                                }
                            }),
                            3 => mbox(a, b"CMT1", 0, |a| {
                                let d = c.t(
                                    "main",
                                    head(c, "Canon", "Canon EOS R")
                                        .s(0x100, c.w as u16)
                                        .s(0x101, c.h as u16),
                                );
                                sub_tiff(a, &d, c.be);
                            }),
                            4 => mbox(a, b"CMT2", 0, |a| {
                                let d = exif_dir(c, None);
                                sub_tiff(a, &d, c.be);
                            }),
                            5 => mbox(a, b"CMT3", 0, |a| {
                                let d = canon_mnote_dir(&c.clone().tweak(|n, d| {
                                    if n == "mnote" {
                                        set(d, 0x10, V::L(vec![0x80000424]))
                                    } else {
                                        d
                                    }
                                }));
                                let d = c.t("mnote", d);
                                sub_tiff(a, &d, c.be);
                            }),
                            6 => mbox(a, b"CMT4", 0, |a| {
                                let d = gps_dir(c);
                                sub_tiff(a, &d, c.be);
                            }),
                            _ => mbox(a, b"THMB", 0, |a| {
                                let j = c.jp(0, 160, 120, 12, None);
                                a.u32(0)
                                    .u16(c.pd(0, 160, 120).0)
                                    .u16(c.pd(0, 160, 120).1)
                                    .u32(j.len() as u32)
                                    .u32(0x00010000);
                                a.label("thmb");
                                a.bytes(&j);
                                a.label("thmb_end");
                            }),
                        }
                    }
                });
                junk(a);
                mbox(a, b"mvhd", 0, |a| {
                    a.u32(0).u32(0).u32(0).u32(1).u32(1);
                    a.zeros(80);
                });
                for (ti, (kind, w, h, lab)) in tracks.iter().enumerate() {
                    junk(a);
                    mbox(a, b"trak", o.form[1], |a| {
                        mbox(a, b"tkhd", 0, |a| {
                            a.u32(7).u32(0).u32(0).u32(ti as u32 + 1).u32(0).u32(1);
                            a.zeros(52);
                            a.u32((*w as u32) << 16).u32((*h as u32) << 16);
                        });
                        junk(a);
                        mbox(a, b"mdia", 0, |a| {
                            mbox(a, b"mdhd", 0, |a| {
                                a.u32(0).u32(0).u32(0).u32(1).u32(1).u32(0);
                            });
                            mbox(a, b"hdlr", 0, |a| {
                                a.u32(0).u32(0);
                                a.bytes(if *kind == 2 { b"meta" } else { b"vide" });
                                a.zeros(13);
                            });
                            mbox(a, b"minf", 0, |a| {
                                junk(a);
                                mbox(a, b"stbl", 0, |a| {
                                    for k in &o.stbl {
                                        junk(a);
                                        match k {
                                            0 => mbox(a, b"stsd", 0, |a| {
                                                a.u32(0).u32(1);
                                                if *kind == 2 {
                                                    mbox(a, b"CTMD", 0, |a| {
                                                        a.zeros(8);
                                                        a.u32(1).u32(0);
                                                    });
                                                    return;
                                                }
                                                mbox(a, b"CRAW", 0, |a| {
                                                    a.zeros(6);
                                                    a.u16(1);
                                                    a.zeros(16);
                                                    a.u16(*w).u16(*h);
                                                    a.u32(0x480000).u32(0x480000).u32(0).u16(1);
                                                    a.zeros(32);
                                                    a.u16(24).u16(0xffff);
                                                    a.u16(if *kind == 1 { 3 } else { 1 }).u16(0);
                                                    if *kind == 1 {
                                                        mbox(a, b"JPEG", 0, |a| {
                                                            a.u32(0);
                                                        });
                                                    } else {
                                                        mbox(a, b"CMP1", 0, |a| {
                                                            a.zeros(52);
                                                        });
                                                    }
                                                });
                                            }),
                                            1 => mbox(a, b"stts", 0, |a| {
                                                a.u32(0).u32(1).u32(1).u32(1);
                                            }),
                                            2 => mbox(a, b"stsc", 0, |a| {
                                                a.u32(0).u32(1).u32(1).u32(1).u32(1);
                                            }),
                                            3 => mbox(a, b"stsz", 0, |a| {
                                                a.u32(0);
                                                if o.constant {
                                                    a.ref32(&format!("{lab}_end"), Some(lab));
                                                    a.u32(1);
                                                } else {
                                                    a.u32(0).u32(1);
                                                    a.ref32(&format!("{lab}_end"), Some(lab));
                                                }
                                            }),
                                            _ => mbox(
                                                a,
                                                if o.co64 { b"co64" } else { b"stco" },
                                                0,
                                                |a| {
                                                    a.u32(0).u32(1);
                                                    if o.co64 {
                                                        a.ref64(lab, None);
                                                    } else {
                                                        a.ref32(lab, None);
                                                    }
                                                },
                                            ),
                                        }
                                    }
                                });
                            });
                        });
                    });
                }
            }),
            1 => {
                a.label("xmp");
                mbox(&mut a, b"uuid", 0, |a| {
                    a.bytes(&[
                        0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94,
                        0x91, 0xe3, 0xaf, 0xac,
                    ]);
                    a.bytes(b"<?xpacket?>");
                });
                a.label("xmp_end");
            }
            2 => {
                a.label("prvu");
                mbox(&mut a, b"uuid", 0, |a| {
                    a.bytes(&[
                        0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc,
                        0x40, 0x6e, 0x4d, 0x16,
                    ]);
                    a.u32(0).u32(1);
                    mbox(a, b"PRVW", 0, |a| {
                        let j = c.jp(1, 324, 216, 18, None);
                        let (pw, ph) = c.pd(1, 324, 216);
                        a.u32(0).u16(1).u16(pw).u16(ph).u16(1).u32(j.len() as u32);
                        a.label("prv");
                        a.bytes(&j);
                        a.label("prv_end");
                    });
                });
                a.label("prvu_end");
            }
            3 => {
                a.label("mdat");
                mbox(&mut a, b"mdat", o.form[2], |a| {
                    blob(a, "jpg0", &c.jp(2, 96, 64, 22, None));
                    blob(a, "jpg1", &c.jp(3, 48, 32, 14, None));
                    blob(a, "raw", &cr3_raw(c));
                    blob(a, "meta", &[1, 2, 3, 4]);
                });
                a.label("mdat_end");
            }
            _ => junk(&mut a),
        }
    }
    a.finish()
}

/// Plain JPEG with Exif
pub fn jpg(c: &Cfg) -> File {
    let mut e = Asm::new(c.be);
    e.labels.insert("file0".into(), 0);
    let md = c.t(
        "mnote",
        Dir::new()
            .s(0x10, 7)
            .a(6, "Canon EOS 7D")
            .e(1, V::S((0..12).map(|i| i * 3).collect())),
    );
    let ex = exif_dir(c, Some(mnote(b"", md, 0, true)));
    let jm = c.t(
        "main",
        head(c, "Canon", "Canon EOS 7D").e(0x8769, V::Sub(vec![ex])),
    );
    let j1 = c.t(
        "jthumb",
        Dir::new()
            .s(0x103, 6)
            .r(0x201, "t")
            .e(0x202, V::Len("t".into(), "t_end".into())),
    );
    e.tiff(0x2a, &jm.next(j1));
    blob(&mut e, "t", &c.jp(0, 160, 120, 10, None));
    let ef = e.finish();
    let mut app1 = b"Exif\0\0".to_vec();
    app1.extend(&ef.data);
    let data = jpeg(192, 128, 20, Some(&app1));
    let fields = ef
        .fields
        .iter()
        .map(|f| crate::asm::Field {
            off: 12 + f.off,
            ..f.clone()
        })
        .collect();
    File {
        data,
        fields,
        labels: Default::default(),
    }
}

pub struct Sample {
    pub name: &'static str,
    pub ext: &'static str,
    pub file: File,
}

pub const NAMES: &[&str] = &[
    "dng",
    "dng_ljpeg",
    "dng_tiled",
    "dng_main",
    "nef",
    "nef_p12",
    "cr2",
    "cr2_4c",
    "arw",
    "pef",
    "pef_p12",
    "erf",
    "orf",
    "rw2",
    "mrw",
    "mrw_p12",
    "raf",
    "crw",
    "cr3",
    "jpeg",
];

pub fn build(name: &str, c: &Cfg) -> (&'static str, File) {
    match name {
        "dng" => ("dng", dng(c)),
        "dng_ljpeg" => ("dng", dng(&c.clone().var(1))),
        "dng_tiled" => ("dng", dng(&c.clone().var(2))),
        "dng_main" => ("dng", dng(&c.clone().var(4))),
        "nef" => ("nef", nef(c)),
        "nef_p12" => ("nef", nef(&c.clone().var(1))),
        "cr2" => ("cr2", cr2(c)),
        "cr2_4c" => ("cr2", cr2(&c.clone().var(2))),
        "arw" => ("arw", arw(c)),
        "pef" => ("pef", pef(c)),
        "pef_p12" => ("pef", pef(&c.clone().var(1))),
        "erf" => ("erf", erf(c)),
        "orf" => ("orf", orf(c)),
        "rw2" => ("rw2", rw2(c)),
        "mrw" => ("mrw", mrw(c)),
        "mrw_p12" => ("mrw", mrw(&c.clone().var(1))),
        "raf" => ("raf", raf(c)),
        "crw" => ("crw", crw(c)),
        "cr3" => ("cr3", cr3(c)),
        "jpeg" => ("jpg", jpg(c)),
        _ => panic!("no builder {name}"),
    }
}

pub fn all(w: usize, h: usize) -> Vec<Sample> {
    NAMES
        .iter()
        .map(|n| {
            let be = ["nef", "pef", "nef_p12"].contains(n);
            let mut c = Cfg::new(be, w, h);
            if *n == "crw" {
                c = Cfg::new(be, 32, 16).img(crate::rec::image(5, 32, 16, 10));
            }
            let (ext, file) = build(n, &c);
            Sample { name: n, ext, file }
        })
        .collect()
}

pub fn ext(n: &str) -> &'static str {
    match n {
        "dng" => "dng",
        "nef" => "nef",
        "cr2" => "cr2",
        "arw" => "arw",
        "pef" => "pef",
        "erf" => "erf",
        "orf" => "orf",
        "rw2" => "rw2",
        "mrw" => "mrw",
        "raf" => "raf",
        "crw" => "crw",
        "cr3" => "cr3",
        _ => "jpg",
    }
}

/// Further variants of the formats, for the robustness checks.
/// Files with vendor compression
pub fn extra(w: usize, h: usize) -> Vec<(&'static str, File)> {
    use crate::codec::{crw as cc, fuji, nikon as nk, olympus, panasonic};
    use crate::rec::image;
    // bytes of the compressed data are fields
    let stream = |f: &mut File, label: &str, n: usize| {
        let at = f.labels[label];
        for i in 0..n {
            f.fields.push(crate::asm::Field {
                off: at + i,
                width: 1,
                be: false,
                name: format!("stream{i}"),
            });
        }
    };
    let cfg = |be: bool, w: usize, h: usize| {
        let mut c = Cfg::new(be, w, h);
        c.img = vec![];
        c
    };
    let mut v = vec![
        ("arw_a100", crate::checks::c20::a100_file(&[1; 7], false).unwrap().0),
        ("cr2_tif", crate::checks::c20::tif_file(&[1; 5], false, false).unwrap().0),
    ];

    let img: Vec<i32> = image(2, w, h, 12).iter().map(|v| *v as i32).collect();
    let (data, _) = nk::encode(&img, w, nk::LOSSY_12, Some((h / 2, nk::LOSSY_12_SPLIT)), [[1, 2], [3, 4]]);
    let e = |v: u16| v.to_be_bytes();
    let mut t = vec![0x44, 0x20];
    for v in [1, 2, 3, 4, 17] {
        t.extend(e(v));
    }
    for i in 0..17u16 {
        t.extend(e(i * 255));
    }
    t.resize(562, 0);
    t.extend(e(h as u16 / 2));
    let n = t.len();
    let mut f = nef_with(&cfg(true, w, h), 12, 34713, &data, vec![(0x96, V::U(t.clone()))]);
    let at = f.data.windows(n).position(|x| x == t).expect("table");
    for (i, o) in (0..24).chain([562]).enumerate().filter(|x| x.0 < 2 || x.1 % 2 == 0) {
        let width = if i < 2 { 1 } else { 2 };
        f.fields.push(crate::asm::Field {
            off: at + o,
            width,
            be: true,
            name: format!("linearization{o}"),
        });
    }
    stream(&mut f, "raw", 8);
    v.push(("nef_quant", f));

    let t = nk::ptable(&[2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10], &(0..13).collect::<Vec<_>>(), false);
    let data = nk::pentax(&image(2, w, h, 12), w, &t).expect("codes");
    let blob = nk::pentax_blob(&t, true);
    let mut f = pef_with(&cfg(true, w, h), 12, 65535, &data, vec![(0x220, V::U(blob.clone()))]);
    let at = f.data.windows(blob.len()).position(|x| x == blob).expect("table");
    for o in (0..blob.len()).filter(|o| *o < 2 || *o >= 14) {
        f.fields.push(crate::asm::Field {
            off: at + o,
            width: 1,
            be: true,
            name: format!("table{o}"),
        });
    }
    stream(&mut f, "raw", 8);
    v.push(("pef_huff", f));

    let (data, _) = olympus::encode(&image(1, w, h, 9), w, 0);
    let mut f = orf_with(&cfg(false, w, h), &data, 16);
    stream(&mut f, "raw", 24);
    v.push(("orf_comp", f));

    let groups: Vec<panasonic::Group> = (0..28 * 18 / 14)
        .map(|i| {
            let mut g = panasonic::Group {
                sh: [0, 1, 2, i as u8 & 3],
                j: [0x80; 14],
                low: [3; 14],
            };
            g.j[0] = i as u8;
            g
        })
        .collect();
    let (data, _) = panasonic::pack(&groups);
    let mut f = rw2_with(&cfg(false, 28, 18), &data, true, 34316);
    stream(&mut f, "raw", 4);
    v.push(("rw2_comp", f));

    let fx = fuji::Fuji {
        xtrans: true,
        bits: 14,
        cfa: b"GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"
            .iter()
            .map(|c| b"RGB".iter().position(|x| x == c).unwrap() as u8)
            .collect(),
        cw: 6,
        q: None,
        pad: 0,
    };
    for (n, q) in [("raf_comp", None), ("raf_lossy", Some((|_, l| l as i32) as fn(usize, usize) -> i32))] {
        let mut fx = fx.clone();
        fx.q = q;
        let (fw, fh) = (768, 6);
        let (data, _) = fx.encode(&vec![512; fw * fh], fw, &mut Default::default());
        let c = cfg(false, fw, fh);
        let mut o = raf_opt(&c);
        o.bps = 14;
        let mut p = fx.cfa.clone();
        p.reverse();
        o.meta.push((0x131, p));
        let mut f = raf_with(&c, &o, &data);
        stream(&mut f, "raw", 56);
        v.push((n, f));
    }

    let img = image(5, 32, 16, 12);
    let raw = cc::encode(&img, 32, 16, 1, true);
    let c = cfg(false, 32, 16);
    let mut f = crw_with(&c, &crw_recs(&c, &raw), false, 26);
    if f.labels.contains_key("raw") {
        stream(&mut f, "raw", 8);
    }
    v.push(("crw_low", f));
    v
}
