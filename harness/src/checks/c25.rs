//! C25: the containers of CRW (CIFF), MRW and RAF files.
use super::robust::hint;
use crate::corpus::{self as co, b2, be32, c16, c32, in8, Cfg, Ci};
use crate::names;
use crate::obs::{self, Op};
use crate::pool::Opts;
use crate::rec::{par, Mix, Rec};
use crate::report::Ctx;
use libopenraw::rawfile_from_memory;

// --- listing and answers
fn listing(data: &[u8], ext: &str) -> Result<Vec<String>, String> {
    let f = rawfile_from_memory(data.to_vec(), Some(hint(ext))).map_err(|e| obs::err(&e))?;
    Ok(f.metadata().map(|it| it.map(|(k, v, t)| format!("{k} {t} {}", obs::value(&v))).collect()).unwrap_or_default())
}
fn ops() -> Vec<Op> {
    obs::alphabet().into_iter().filter(|o| *o != Op::Dump).collect()
}
fn answers(data: &[u8], ext: &str) -> Vec<Vec<u8>> {
    ops()
        .iter()
        .map(|op| match rawfile_from_memory(data.to_vec(), Some(hint(ext))) {
            Ok(f) => obs::observe(&f, op),
            Err(e) => obs::err(&e).into_bytes(),
        })
        .collect()
}
/// every answer is that of the file in its usual layout
fn alike(rec: &mut Rec, key: &str, data: &[u8], ext: &str, want: &[Vec<u8>]) {
    for ((op, g), w) in ops().iter().zip(answers(data, ext)).zip(want) {
        rec.trace(1, &g);
        if &g != w {
            rec.bad(format!("{key} {op:?}"), obs::diff(&g, w));
        }
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut p = p.clone();
            p.insert(i, n - 1);
            o.push(p);
        }
    }
    o
}

// --- CIFF
/// Layout of a heap.
#[derive(Clone, Copy, Default)]
pub struct Lay {
    /// order of the data: as the entries, reversed, rotated
    pub data: usize,
    /// place of the table: after the data, before, in the middle
    pub table: usize,
    /// unused bytes between data
    pub gap: usize,
}
fn heap(recs: &[Ci], be: bool, l: Lay) -> Vec<u8> {
    let n = recs.len();
    let mut o: Vec<u8> = vec![];
    let mut ent = vec![vec![]; n];
    let mut order: Vec<usize> = (0..n).collect();
    match l.data {
        1 => order.reverse(),
        2 if n > 1 => order.rotate_left(n / 2),
        _ => (),
    }
    let size = 2 + 10 * n;
    let at = match l.table {
        1 => 0,
        2 => n / 2,
        _ => n,
    };
    let mut table = 0;
    for k in 0..=n {
        if k == at {
            table = o.len();
            o.resize(o.len() + size, 0);
        }
        if k == n {
            break;
        }
        let (t, b) = match &recs[order[k]] {
            Ci::I(t, b) => {
                let mut e = c16(&[*t | 0x4000], be);
                e.extend_from_slice(b);
                ent[order[k]] = e;
                continue;
            }
            Ci::H(t, b) => (*t, b.clone()),
            Ci::S(t, r) => (*t, heap(r, be, l)),
        };
        o.resize(o.len() + l.gap, 0xee);
        let mut e = c16(&[t], be);
        e.extend(c32(&[b.len() as u32, o.len() as u32], be));
        ent[order[k]] = e;
        o.extend(b);
    }
    let mut t = c16(&[n as u16], be);
    t.extend(ent.concat());
    o[table..table + size].copy_from_slice(&t);
    o.extend(c32(&[table as u32], be));
    o
}
pub fn crw_file(recs: &[Ci], be: bool, l: Lay, header: usize) -> Vec<u8> {
    let mut o = if be { b"MM".to_vec() } else { b"II".to_vec() };
    o.extend(c32(&[header as u32], be));
    o.extend(b"HEAPCCDR");
    o.extend(c32(&[0x00010002], be));
    o.resize(header, 0);
    o.extend(heap(recs, be, l));
    o
}

/// What a CRW file stores.
#[derive(Clone)]
struct Vals {
    be: bool,
    w: u32,
    h: u32,
    depth: u32,
    angle: u32,
    names: Option<Vec<u8>>,
    owner: Option<Vec<u8>>,
    serial: Option<u32>,
    time: Option<u32>,
    cam: Option<Vec<u16>>,
    focal: Option<[u16; 4]>,
    id: Option<u32>,
    /// kept in the record: id, decoder table, owner, serial, time, focal length, names
    inline: u32,
}
fn vals(be: bool) -> Vals {
    let mut cam = vec![0u16; 48];
    cam[0] = 96;
    cam[17] = 3;
    cam[20] = 1;
    cam[25] = 1;
    Vals {
        be,
        w: 32,
        h: 16,
        depth: 8,
        angle: 90,
        names: Some(b"Canon\0Canon EOS D60\0".to_vec()),
        owner: Some(b"Owner Name\0".to_vec()),
        serial: Some(0x1234abcd),
        time: Some(1_600_000_000),
        cam: Some(cam),
        focal: Some([2, 85, 0, 0]),
        id: Some(0x01668000),
        inline: 0b1001,
    }
}
const IMG: (usize, usize) = (32, 16);
fn stream() -> Vec<u8> {
    crate::codec::crw::encode(&crate::rec::image(3, IMG.0, IMG.1, 10), IMG.0, IMG.1, 0, false)
}
fn preview() -> Vec<u8> {
    co::jpeg(64, 48, 20, None)
}
impl Vals {
    fn put(&self, bit: u32, tag: u16, b: Vec<u8>) -> Ci {
        if self.inline >> bit & 1 == 1 {
            assert!(b.len() <= 8);
            Ci::I(tag, in8(b))
        } else {
            Ci::H(tag, b)
        }
    }
    /// the records of the root heap
    fn recs(&self) -> Vec<Ci> {
        let be = self.be;
        let raw = stream();
        let n = raw.len() as u32;
        let mut camera = vec![];
        if let Some(n) = &self.names {
            camera.push(self.put(6, 0x080a, n.clone()));
        }
        if let Some(o) = &self.owner {
            camera.push(self.put(2, 0x0810, o.clone()));
        }
        let mut exif = vec![];
        if let Some(i) = self.id {
            exif.push(self.put(0, 0x1834, c32(&[i], be)));
        }
        let table = if self.inline & 2 != 0 { c32(&[0, 512], be) } else { c32(&[0, 512, 514, n], be) };
        exif.push(self.put(1, 0x1835, table));
        exif.push(Ci::H(0x1031, c16(&[18, 32, 16, 1, 1, 2, 1, 29, 14], be)));
        if let Some(c) = &self.cam {
            exif.push(Ci::H(0x102d, c16(c, be)));
        }
        if let Some(f) = &self.focal {
            exif.push(self.put(5, 0x1029, c16(f, be)));
        }
        let mut shot = vec![0u16; 24];
        shot[7] = 1;
        exif.push(Ci::H(0x102a, c16(&shot, be)));
        exif.push(Ci::H(0x10a9, c16(&(0..60).map(|i| 200 + i * 10).collect::<Vec<_>>(), be)));
        let mut props = vec![
            Ci::S(0x2807, camera),
            Ci::H(0x1810, c32(&[self.w, self.h, 0x3f800000, self.angle, self.depth, 24, 1], be)),
        ];
        if let Some(t) = self.time {
            let t = if self.inline & 16 != 0 { c32(&[t], be) } else { c32(&[t, 0, 0], be) };
            props.push(self.put(4, 0x180e, t));
        }
        if let Some(s) = self.serial {
            props.push(self.put(3, 0x180b, c32(&[s], be)));
        }
        props.push(Ci::S(0x300b, exif));
        vec![Ci::H(0x2005, raw), Ci::H(0x2007, preview()), Ci::S(0x300a, props)]
    }
    fn file(&self) -> Vec<u8> {
        crw_file(&self.recs(), self.be, Lay::default(), 26)
    }
    /// the listing of the metadata
    fn want(&self) -> Vec<String> {
        let cut = |b: &[u8], n: usize| -> Option<String> {
            b.split(|c| *c == 0).nth(n).map(|s| String::from_utf8_lossy(s).to_string())
        };
        let mut m: Vec<(u16, i16, String)> = vec![];
        let s = |t: u16, s: String| (t, 2i16, format!("S{:?}", [s.as_bytes(), &[0]].concat()));
        let int = |t: u16, ty: i16, v: u32| (t, ty, format!("I{:?}", vec![v]));
        m.push(int(0x100, 4, self.w));
        m.push(int(0x101, 4, self.h));
        m.push(int(0x102, 3, self.depth & 0xffff));
        let o = match self.angle {
            0 => 1,
            90 => 6,
            180 => 3,
            270 => 8,
            _ => 0,
        };
        if let Some(n) = &self.names {
            if let Some(v) = cut(n, 0) {
                m.push(s(0x10f, v));
            }
            if let Some(v) = cut(n, 1) {
                m.push(s(0x110, v));
            }
        }
        m.push(int(0x112, 3, o));
        let mut e: Vec<(u16, i16, String)> = vec![];
        if let Some(c) = self.cam.as_ref().filter(|c| c.len() > 20) {
            let p = [0u32, 2, 4, 3, 1, 5];
            e.push(int(0x8822, 3, *p.get(c[20] as usize).unwrap_or(&0)));
            let p = [0u32, 3, 1, 5, 6, 2];
            e.push(int(0x9207, 3, *p.get(c[17] as usize).unwrap_or(&0)));
            let p = [0u32, 0x19, 1, 0x41, 0, 0x41];
            e.push(int(0x9209, 3, *p.get(c[4] as usize).unwrap_or(&0)));
            if c[1] == 1 {
                e.push(int(0xa40c, 3, 1));
            }
        }
        if let (Some(f), Some(u)) = (self.focal, self.cam.as_ref().and_then(|c| c.get(25))) {
            e.push((0x920a, 5, format!("R{:?}", vec![format!("{}/{u}", f[1])])));
        }
        if let Some(t) = self.time {
            e.push(s(0x9003, date(t)));
            e.push(s(0x9004, date(t)));
        }
        if let Some(o) = &self.owner {
            e.push(s(0xa430, cut(o, 0).unwrap()));
        }
        if let Some(v) = self.serial {
            e.push(s(0xa431, format!("{v:X}")));
        }
        e.sort_by_key(|e| e.0);
        let name = |p: &str, t: u16| format!("{p}.{}", names::EXIF.iter().find(|n| n.0 == t).unwrap().1);
        m.iter()
            .map(|(t, ty, v)| format!("{} {ty} {v}", name("Exif.Image", *t)))
            .chain(e.iter().map(|(t, ty, v)| format!("{} {ty} {v}", name("Exif.Photo", *t))))
            .collect()
    }
}
/// seconds since 1970 as a date
fn date(t: u32) -> String {
    let (mut d, s) = (t / 86400, t % 86400);
    let leap = |y: u32| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    while d >= 365 + leap(y) as u32 {
        d -= 365 + leap(y) as u32;
        y += 1;
    }
    let mut m = 0;
    let days = [31, 28 + leap(y) as u32, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    while d >= days[m] {
        d -= days[m];
        m += 1;
    }
    format!("{y:04}:{:02}:{:02} {:02}:{:02}:{:02}", m + 1, d + 1, s / 3600, s / 60 % 60, s % 60)
}

fn judge(rec: &mut Rec, key: &str, data: &[u8], ext: &str, want: &[String]) {
    let got = match listing(data, ext) {
        Ok(g) => g,
        Err(e) => return rec.bad(key, e),
    };
    rec.trace(got.len() as u64, got.join("\n").as_bytes());
    if got != want {
        let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        rec.bad(key, format!("entry {k}: got {:?}, want {:?}", got.get(k), want.get(k)));
    }
}
/// the preview, pixels and dimensions of a CRW file
fn crw_basics(rec: &mut Rec, key: &str, data: &[u8], v: &Vals) {
    let f = match rawfile_from_memory(data.to_vec(), Some(hint("crw"))) {
        Ok(f) => f,
        Err(e) => return rec.bad(key, obs::err(&e)),
    };
    match f.thumbnail(64) {
        Ok(t) => {
            let p = preview();
            if t.data8() != Some(&p[..]) {
                rec.bad(format!("{key} preview"), "other bytes".to_string());
            }
        }
        Err(e) => rec.bad(format!("{key} preview"), obs::err(&e)),
    }
    use libopenraw::Bitmap;
    match f.raw_data(true) {
        Ok(r) => {
            if (r.width(), r.height(), r.bpc() as u32) != (v.w, v.h, v.depth & 0xffff) || r.data8() != Some(&stream()[..]) {
                rec.bad(format!("{key} undecoded"), format!("{}x{} {}", r.width(), r.height(), r.bpc()));
            }
        }
        Err(e) => rec.bad(format!("{key} undecoded"), obs::err(&e)),
    }
    match f.raw_data(false) {
        Ok(r) => {
            let d = r.data16().unwrap_or(&[]);
            if d != crate::rec::image(3, IMG.0, IMG.1, 10) {
                rec.bad(format!("{key} pixels"), format!("{} samples", d.len()));
            }
        }
        Err(e) => rec.bad(format!("{key} pixels"), obs::err(&e)),
    }
    rec.trace(3, key.as_bytes());
}

fn permute(recs: &[Ci], p: &[usize]) -> Vec<Ci> {
    p.iter().map(|i| recs[*i].clone()).collect()
}
/// replace the records of a heap
fn at<'a>(recs: &'a mut [Ci], path: &[u16]) -> &'a mut Vec<Ci> {
    let r = recs
        .iter_mut()
        .find_map(|r| match r {
            Ci::S(t, r) if *t == path[0] => Some(r),
            _ => None,
        })
        .unwrap();
    if path.len() == 1 {
        r
    } else {
        at(r, &path[1..])
    }
}

/// Every order of the entries of each heap.
fn crw_orders(i: u64, rec: &mut Rec, key: &str, base: &[Vec<Vec<u8>>; 2]) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let l = Lay { data: m.take(3), table: m.take(3), gap: m.pick(&[0, 1, 7]) };
    let header = m.pick(&[26usize, 32, 45]);
    let k = m.0 as usize;
    let v = vals(be);
    let mut r = v.recs();
    if k < 5040 {
        let x = at(&mut r, &[0x300a, 0x300b]);
        *x = permute(x, &perms(7)[k]);
    } else {
        let k = k - 5040;
        let x = at(&mut r, &[0x300a, 0x2807]);
        *x = permute(x, &perms(2)[k % 2]);
        let x = at(&mut r, &[0x300a]);
        *x = permute(x, &perms(5)[k / 2 % 120]);
        r = permute(&r, &perms(3)[k / 240 % 6]);
    }
    let f = crw_file(&r, be, l, header);
    judge(rec, key, &f, "crw", &v.want());
    alike(rec, key, &f, "crw", &base[be as usize]);
}
const ORDERS: usize = 5040 + 1440;

/// Every choice of what is stored in the record itself.
fn crw_inline(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let mut v = vals(be);
    v.owner = Some(m.pick(&[&b"Own\0"[..], b"Own", b"Owner Na", b"\0\0\0\0\0\0\0\0", b"a"]).to_vec());
    v.names = Some(m.pick(&[&b"C\0D\0"[..], b"Canon\0X\0", b"Canon\0XY", b"C\0D"]).to_vec());
    let base = answers(
        &{
            let mut v = v.clone();
            v.inline = 0;
            v.file()
        },
        "crw",
    );
    for n in 0..128 {
        v.inline = n;
        let f = v.file();
        let key = format!("{key} {n:07b}");
        judge(rec, &key, &f, "crw", &v.want());
        alike(rec, &key, &f, "crw", &base);
    }
}

/// Records nobody knows, and records in heaps within heaps.
fn crw_extra(i: u64, rec: &mut Rec, key: &str, base: &[Vec<Vec<u8>>; 2]) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let v = vals(be);
    let mut r = v.recs();
    let kind = m.take(3);
    if kind == 0 {
        // another record somewhere
        let tag = m.pick(&[0x0000u16, 0x0001, 0x0003, 0x0805, 0x0fff, 0x1030, 0x1777, 0x1818, 0x1fff, 0x2008, 0x2222, 0x2804, 0x3002, 0x3333]);
        let extra = match m.take(6) {
            0 => Ci::I(tag, [1, 2, 3, 4, 5, 6, 7, 8]),
            1 => Ci::H(tag, vec![]),
            2 => Ci::H(tag, vec![7; 5]),
            3 => Ci::H(tag, vec![0xff; 64]),
            4 => Ci::S(tag, vec![]),
            _ => Ci::S(tag, vec![Ci::I(0x1777, [9; 8]), Ci::H(0x1818, vec![3; 12])]),
        };
        let x = match m.take(4) {
            0 => &mut r,
            1 => at(&mut r, &[0x300a]),
            2 => at(&mut r, &[0x300a, 0x2807]),
            _ => at(&mut r, &[0x300a, 0x300b]),
        };
        let k = m.take(8) % (x.len() + 1);
        x.insert(k, extra);
    } else {
        // records moved into heaps below
        let tags = [0x1029u16, 0x180e, 0x180b, 0x0810];
        let set = m.take(16);
        let depth = 1 + m.take(3);
        let tag = m.pick(&[0x3002u16, 0x3003, 0x3004, 0x2804]);
        let mut moved = vec![];
        for (k, t) in tags.iter().enumerate() {
            if set >> k & 1 == 0 {
                continue;
            }
            let x = match t {
                0x1029 => at(&mut r, &[0x300a, 0x300b]),
                0x0810 => at(&mut r, &[0x300a, 0x2807]),
                _ => at(&mut r, &[0x300a]),
            };
            let k = x.iter().position(|c| matches!(c, Ci::H(c, _) | Ci::I(c, _) if c == t)).unwrap();
            moved.push(x.remove(k));
        }
        let mut s = Ci::S(tag, moved);
        for d in 1..depth {
            s = Ci::S([0x3003, 0x2804, 0x3004][(d + tag as usize) % 3], vec![s]);
        }
        let x = if kind == 1 { at(&mut r, &[0x300a]) } else { at(&mut r, &[0x300a, 0x300b]) };
        let k = m.take(4) % (x.len() + 1);
        x.insert(k, s);
    }
    let l = Lay { data: m.take(2), table: m.take(2), gap: 0 };
    let f = crw_file(&r, be, l, 26);
    judge(rec, key, &f, "crw", &v.want());
    alike(rec, key, &f, "crw", &base[be as usize]);
}

/// Values of each record, and absent records.
fn crw_values(i: u64, rec: &mut Rec, key: &str) {
    let mut m = Mix(i);
    let be = m.take(2) == 1;
    let mut v = vals(be);
    let k = m.0 as usize;
    let edge = |k: usize| [0u32, 1, 2, 12, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff][k % 14];
    let cam = |i: usize, x: u16| {
        let mut c = vals(false).cam.unwrap();
        c[i] = x;
        Some(c)
    };
    match k {
        0..=13 => v.w = edge(k),
        14..=27 => v.h = edge(k),
        28..=91 => v.depth = [8, 10, 12, 14, 16, 1, 255, 256, 65535][k % 9],
        92..=95 => v.angle = [0, 90, 180, 270][k - 92],
        96..=127 => v.serial = Some(1 << (k - 96)),
        128..=141 => v.serial = Some(edge(k)),
        142..=173 => v.time = Some(1 << (k - 142)),
        174..=187 => v.time = Some(edge(k)),
        // dates around the ends of months and years
        188..=287 => v.time = Some(951_782_400 + (k as u32 - 188) * 43_200 * 61 - (k as u32 & 1)),
        288..=307 => v.cam = cam(1, (k - 288) as u16),
        308..=327 => v.cam = cam(4, (k - 308) as u16),
        328..=347 => v.cam = cam(17, (k - 328) as u16),
        348..=367 => v.cam = cam(20, (k - 348) as u16),
        368..=381 => v.cam = cam(25, edge(k) as u16),
        382..=395 => v.focal = Some([2, edge(k) as u16, 3, 4]),
        396..=445 => v.cam = v.cam.map(|c| c[..(k - 396).min(48)].to_vec()),
        446..=465 => v.owner = Some([vec![b'o'; k - 446], vec![0]].concat()),
        466..=475 => v.owner = Some([vec![b'o'; 2 * (k - 466)], vec![0, b'x', b'y']].concat()),
        476..=485 => v.owner = Some(vec![b'p'; 3 * (k - 475)]),
        486..=505 => v.names = Some([vec![b'm'; k - 486], vec![0], vec![b'n'; 505 - k], vec![0]].concat()),
        506 => v.names = Some(b"Canon\0Canon EOS 10D\0".to_vec()),
        507 => v.names = Some(b"Canon\0Canon PowerShot G2".to_vec()),
        508 => v.names = Some(b"Canon\0Canon PowerShot G2\0\0\0\0\0".to_vec()),
        509 => v.owner = Some("J\u{e9}r\u{f4}me\0".as_bytes().to_vec()),
        510 => v.owner = Some("\u{20ac}\0".as_bytes().to_vec()),
        // any set of records absent
        _ => {
            let s = k - 511;
            if s & 1 != 0 {
                v.names = None;
            }
            if s & 2 != 0 {
                v.owner = None;
            }
            if s & 4 != 0 {
                v.serial = None;
            }
            if s & 8 != 0 {
                v.time = None;
            }
            if s & 16 != 0 {
                v.cam = None;
            }
            if s & 32 != 0 {
                v.focal = None;
            }
            if s & 64 != 0 {
                v.id = None;
            }
        }
    }
    let f = v.file();
    judge(rec, key, &f, "crw", &v.want());
    if v.depth >= 8 && v.depth <= 16 {
        crw_basics(rec, key, &f, &v);
    }
}
const VALUES: u64 = 511 + 128;

// --- MRW
fn mrw_parts(c: &Cfg) -> Vec<(Vec<u8>, Vec<u8>)> {
    let f = co::mrw(c).data;
    let end = 8 + u32::from_be_bytes(f[4..8].try_into().unwrap()) as usize;
    let mut p = 8;
    let mut o = vec![];
    while p + 8 <= end {
        let n = u32::from_be_bytes(f[p + 4..p + 8].try_into().unwrap()) as usize;
        o.push((f[p + 1..p + 4].to_vec(), f[p + 8..p + 8 + n].to_vec()));
        p += 8 + n;
    }
    o
}
pub fn mrw_file(blocks: &[(Vec<u8>, Vec<u8>)], raw: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (n, b) in blocks {
        o.push(0);
        o.extend(n);
        o.extend((b.len() as u32).to_be_bytes());
        o.extend(b);
    }
    let mut f = b"\0MRM".to_vec();
    f.extend((o.len() as u32).to_be_bytes());
    f.extend(o);
    f.extend(raw);
    f
}
fn mrw_cfg(packed: bool) -> (Cfg, Vec<u8>) {
    let c = Cfg::new(true, 16, 12).img(crate::rec::image(3, 16, 12, 12));
    let raw = if packed { co::pack12be(&c.img) } else { co::e16(&c.img, true) };
    (c, raw)
}
/// the file of these blocks, the storage set
pub fn mrw_base(packed: bool) -> (Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>) {
    let (c, raw) = mrw_cfg(packed);
    let mut p = mrw_parts(&c);
    p[0].1[16] = if packed { 12 } else { 16 };
    p[0].1[18] = if packed { 0x59 } else { 0x52 };
    (p, raw)
}
fn mrw_orders(i: u64, rec: &mut Rec, key: &str, base: &[Vec<Vec<u8>>; 2]) {
    let mut m = Mix(i);
    let packed = m.take(2) == 1;
    let extra = m.pick(&[0usize, 1, 8, 24, 100]);
    let name = m.pick(&[&b"XYZ"[..], b"PAD", b"RIF", b"\0\0\0"]);
    let (mut p, raw) = mrw_base(packed);
    p.retain(|b| b.0 != b"PAD");
    p.push((name.to_vec(), vec![0x55; extra]));
    if extra >= 24 {
        p.push((b"QQQ".to_vec(), b"\0PRD\0\0\0\x18\0TTW\0\0\0\x10".to_vec()));
    } else {
        p.push((b"PAD".to_vec(), vec![0; extra]));
    }
    let q = &perms(6)[m.0 as usize];
    let f = mrw_file(&q.iter().map(|i| p[*i].clone()).collect::<Vec<_>>(), &raw);
    alike(rec, key, &f, "mrw", &base[packed as usize]);
}
/// White balance, dimensions, patterns, and absent blocks.
fn mrw_values(i: u64, rec: &mut Rec, key: &str) {
    use libopenraw::Bitmap;
    let mut m = Mix(i);
    let kind = m.take(3);
    let (mut p, mut raw) = mrw_base(true);
    let (mut w, mut h) = (16u32, 12u32);
    let mut bayer = 1u16;
    let mut wbg: Option<[u32; 8]> = Some([2, 2, 2, 2, 400, 256, 256, 500]);
    let mut prd = true;
    match kind {
        0 => {
            bayer = m.pick(&[1, 4]);
            let d = m.pick(&[0u32, 1, 2, 3, 9]);
            let n = m.pick(&[1u32, 255, 256, 257, 0x8000, 0xffff]);
            let which = m.take(6);
            let mut g = [1u32, 2, 3, 4, 300, 400, 500, 600];
            if which < 4 {
                g[which] = d;
                g[which + 4] = n;
            } else if which == 4 {
                g = [d, d, d, d, n, n, n, n];
            }
            wbg = Some(g);
        }
        1 => {
            w = m.pick(&[2u32, 3, 16, 255, 256, 257]);
            h = m.pick(&[1u32, 2, 12, 255, 256, 300]);
            bayer = m.pick(&[1, 4]);
            w += w & 1;
            let img = crate::rec::image(2, w as usize, h as usize, 12);
            raw = co::pack12be(&img);
        }
        _ => {
            let s = m.take(4);
            if s & 1 != 0 {
                wbg = None;
            }
            prd = s & 2 == 0;
        }
    }
    p[0].1[8..12].copy_from_slice(&c16(&[h as u16, w as u16], true));
    p[0].1[22..24].copy_from_slice(&c16(&[bayer], true));
    let k = p.iter().position(|b| b.0 == b"WBG").unwrap();
    match wbg {
        Some(g) => {
            let mut b: Vec<u8> = g[..4].iter().map(|v| *v as u8).collect();
            b.extend(c16(&g[4..].iter().map(|v| *v as u16).collect::<Vec<_>>(), true));
            p[k].1 = b;
        }
        None => {
            p.remove(k);
        }
    }
    if !prd {
        p.retain(|b| b.0 != b"PRD");
    }
    if kind == 2 && m.take(2) == 1 {
        p.retain(|b| b.0 != b"TTW");
    }
    let f = match rawfile_from_memory(mrw_file(&p, &raw), Some(hint("mrw"))) {
        Ok(f) => f,
        Err(e) => return rec.bad(key, obs::err(&e)),
    };
    let r = f.raw_data(false);
    rec.trace(1, &w.to_le_bytes());
    let r = match r {
        Err(e) if prd => return rec.bad(key, obs::err(&e)),
        Err(_) => return,
        Ok(_) if !prd => return rec.bad(key, "an image without its description".to_string()),
        Ok(r) => r,
    };
    if (r.width(), r.height()) != (w, h) {
        rec.bad(format!("{key} size"), format!("{}x{}", r.width(), r.height()));
    }
    let img = crate::rec::image(if kind == 1 { 2 } else { 3 }, w as usize, h as usize, 12);
    if r.data16() != Some(&img[..]) {
        rec.bad(format!("{key} pixels"), "other".to_string());
    }
    let pat = obs::pattern(r.mosaic_pattern());
    if !pat.contains(if bayer == 4 { "GBRG" } else { "RGGB" }) {
        rec.bad(format!("{key} pattern"), pat);
    }
    // the order of the coefficients is that of the pattern
    let at = if bayer == 4 { [2, 0, 1] } else { [0, 1, 3] };
    let want = wbg.map(|g| at.map(|k| (64u64 << g[k]) as f64 / g[k + 4] as f64));
    let got = r.as_shot_neutral().map(|v| [v[0], v[1], v[2]]);
    let same = match (&got, &want) {
        (Some(a), Some(b)) => a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-9 * b),
        (None, None) => true,
        _ => false,
    };
    if !same {
        rec.bad(format!("{key} white balance"), format!("got {got:?} want {want:?}"));
    }
}

// --- RAF
pub struct Raf {
    pub head: Vec<u8>,
    pub jpg: Vec<u8>,
    pub meta: Vec<(u16, Vec<u8>)>,
    pub cfa: Vec<u8>,
}
pub fn raf_parts() -> Raf {
    let c = Cfg::new(true, 16, 12).img(crate::rec::image(3, 16, 12, 14));
    let f = co::raf(&c);
    let cut = |l: &str| f.data[f.labels[l]..f.labels[&format!("{l}_end")]].to_vec();
    let mut meta = co::raf_opt(&c).meta;
    meta.push((0x131, vec![0, 1, 1, 2]));
    meta.push((0x117, be32(1)));
    meta.push((0x118, b2(1, 1)));
    meta.push((0x119, b2(6, 8)));
    Raf { head: f.data[..84].to_vec(), jpg: cut("jpg"), meta, cfa: cut("cfa") }
}
fn raf_meta(m: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = be32(m.len() as u32);
    for (t, v) in m {
        o.extend(b2(*t, v.len() as u16));
        o.extend(v);
    }
    o
}
/// order: of jpeg, meta, cfa; gap: unused bytes before each
pub fn raf_file(r: &Raf, order: &[usize], start: usize, gap: usize, extra: bool) -> Vec<u8> {
    let parts = [r.jpg.clone(), raf_meta(&r.meta), r.cfa.clone()];
    let mut o = r.head.clone();
    o.resize(start, 0);
    let mut pos = [0; 3];
    for k in order {
        o.resize(o.len() + gap, 0xaa);
        pos[*k] = o.len();
        o.extend(&parts[*k]);
    }
    for k in 0..3 {
        o[84 + 8 * k..92 + 8 * k].copy_from_slice(&[be32(pos[k] as u32), be32(parts[k].len() as u32)].concat());
    }
    if extra {
        // the second set of tables of cameras with two kinds of pixels
        let p = o.len();
        let m = raf_meta(&[(0x100, b2(7, 9)), (0x111, b2(5, 5)), (0x110, b2(3, 3)), (0x117, be32(0))]);
        o.extend(&m);
        o[120..128].copy_from_slice(&[be32(p as u32), be32(m.len() as u32)].concat());
        let p = o.len();
        o.extend(&r.cfa);
        o[128..136].copy_from_slice(&[be32(p as u32), be32(r.cfa.len() as u32)].concat());
    }
    o
}
fn raf_places(i: u64, rec: &mut Rec, key: &str, base: &[Vec<u8>]) {
    let mut m = Mix(i);
    let o = &perms(3)[m.take(6)];
    let start = m.pick(&[136usize, 137, 148, 160, 401]);
    let gap = m.pick(&[0usize, 1, 2, 15]);
    let f = raf_file(&raf_parts(), o, start, gap, m.take(2) == 1);
    alike(rec, key, &f, "raf", base);
}
fn raf_short(i: u64, rec: &mut Rec, key: &str, base: &[Vec<u8>]) {
    // the JPEG at or before the place of the second set of tables: there is none
    let mut m = Mix(i);
    let r = raf_parts();
    let o = [[0, 1, 2], [0, 2, 1]][m.take(2)];
    let f = raf_file(&r, &o, 120, 0, false);
    alike(rec, key, &f, "raf", base);
}
fn raf_orders(i: u64, rec: &mut Rec, key: &str, base: &[Vec<u8>], n: usize) {
    let mut r = raf_parts();
    let len = r.meta.len();
    let mut m = Mix(i);
    let shift = m.take(len);
    // n neighbours permuted, the rest rotated
    r.meta.rotate_left(shift);
    let p = &perms(n)[m.0 as usize];
    let front = r.meta.clone();
    for (k, q) in p.iter().enumerate() {
        r.meta[k] = front[*q].clone();
    }
    let f = raf_file(&r, &[0, 1, 2], 148, 0, false);
    alike(rec, key, &f, "raf", base);
}
fn raf_extra(i: u64, rec: &mut Rec, key: &str, base: &[Vec<u8>]) {
    let mut r = raf_parts();
    let mut m = Mix(i);
    let tag = m.pick(&[0u16, 1, 0x101, 0x112, 0x120, 0x132, 0x1000, 0x2000, 0x2f00, 0x9200, 0xbfff, 0xffff]);
    let size = m.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 4095, 65535]);
    let fill = m.pick(&[0u8, 1, 0xff]);
    let at = m.take(r.meta.len() + 1);
    r.meta.insert(at, (tag, vec![fill; size]));
    let f = raf_file(&r, &[0, 1, 2], 148, 0, false);
    alike(rec, key, &f, "raf", base);
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C25", "model_checking", thorough);
    ctx.rule = "whatever the order and place of the records, blocks, tables and sections of the container, the answers are those of the same contents in the usual layout; and the entries, dimensions, preview and pixels are those stored".into();
    ctx.assumptions = vec![
        "angles other than 0, 90, 180 and 270 degrees aren't judged".into(),
        "records a CIFF file repeats within a heap, and RAF tags repeated, aren't enumerated".into(),
    ];
    let o = Opts { mem: Some(2 << 30), ..Opts::default() };
    macro_rules! space {
        ($n:expr, $count:expr, $chunk:expr, $f:expr) => {
            par(&mut ctx, $n, $count, $chunk, &o, &|i| format!("{} {i}", $n), &|i, r| $f(i, r, &format!("{} {i}", $n)));
        };
    }
    // the usual layouts, each asked in a worker of its own
    let base = crate::rec::compute(5, &|i| {
        let a = match i {
            0 | 1 => answers(&vals(i == 1).file(), "crw"),
            2 | 3 => {
                let (p, raw) = mrw_base(i == 3);
                answers(&mrw_file(&p, &raw), "mrw")
            }
            _ => answers(&raf_file(&raf_parts(), &[0, 1, 2], 148, 0, false), "raf"),
        };
        let mut o = vec![];
        for a in a {
            o.extend((a.len() as u64).to_le_bytes());
            o.extend(a);
        }
        o
    });
    let de = |b: &Option<Vec<u8>>| -> Vec<Vec<u8>> {
        let b = b.as_ref().expect("the usual layout failed");
        let (mut p, mut o) = (0, vec![]);
        while p < b.len() {
            let n = u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
            o.push(b[p + 8..p + 8 + n].to_vec());
            p += 8 + n;
        }
        o
    };
    let crw = [de(&base[0]), de(&base[1])];
    let mrw = [de(&base[2]), de(&base[3])];
    let raf = de(&base[4]);

    space!("CRW values and absent records", 2 * VALUES, 8, crw_values);
    space!("CRW inline or in the heap", 2 * 5 * 4, 1, crw_inline);
    let lays = 2 * 3 * 3 * 3 * 3;
    if thorough {
        space!("CRW entry orders x layouts", lays * ORDERS as u64, 200, |i, r: &mut Rec, k: &str| crw_orders(i, r, k, &crw));
    } else {
        // every order, the layouts in turn
        space!("CRW entry orders, layouts in turn", 2 * ORDERS as u64, 50, |i: u64, r: &mut Rec, k: &str| {
            let (be, n) = (i % 2, i / 2);
            crw_orders(be + 2 * (n % 81) + lays * n, r, k, &crw)
        });
    }
    space!("CRW other records and nested heaps", 2 * 3 * 14 * 6 * 4 * 8 * 4, 100, |i, r: &mut Rec, k: &str| crw_extra(i, r, k, &crw));
    space!("MRW block orders", 2 * 5 * 4 * 720, 100, |i, r: &mut Rec, k: &str| mrw_orders(i, r, k, &mrw));
    space!("MRW values", 3 * 2 * 6 * 6 * 6 * 2, 20, mrw_values);
    space!("RAF sections", 6 * 5 * 4 * 2, 10, |i, r: &mut Rec, k: &str| raf_places(i, r, k, &raf));
    space!("RAF without a second set", 2, 1, |i, r: &mut Rec, k: &str| raf_short(i, r, k, &raf));
    let n = ctx.q(5usize, 7);
    let f: u64 = (1..=n as u64).product();
    space!("RAF table orders", 12 * f, 50, |i, r: &mut Rec, k: &str| raf_orders(i, r, k, &raf, n));
    space!("RAF other records", 12 * 13 * 3 * 13, 20, |i, r: &mut Rec, k: &str| raf_extra(i, r, k, &raf));
    ctx.finish()
}
