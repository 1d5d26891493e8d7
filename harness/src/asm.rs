//! A byte assembler with labels, and a TIFF directory writer on top of it.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Field {
    pub off: usize,
    pub width: usize,
    pub be: bool,
    pub name: String,
}

#[derive(Clone)]
struct Fix {
    pos: usize,
    label: String,
    base: Option<String>,
    width: usize,
    be: bool,
}

pub struct Asm {
    pub be: bool,
    pub buf: Vec<u8>,
    pub labels: HashMap<String, usize>,
    fixes: Vec<Fix>,
    pub fields: Vec<Field>,
    n: usize,
    /// name under which reference fields are recorded
    pub refname: &'static str,
}

pub struct File {
    pub data: Vec<u8>,
    pub fields: Vec<Field>,
    pub labels: HashMap<String, usize>,
}

impl Asm {
    pub fn new(be: bool) -> Asm {
        Asm {
            be,
            buf: vec![],
            labels: HashMap::new(),
            fixes: vec![],
            fields: vec![],
            n: 0,
            refname: "ref",
        }
    }
    pub fn pos(&self) -> usize {
        self.buf.len()
    }
    fn field(&mut self, w: usize, name: &str) {
        self.fields.push(Field {
            off: self.buf.len(),
            width: w,
            be: self.be,
            name: name.into(),
        });
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.field(1, "u8");
        self.buf.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.field(2, "u16");
        let b = if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        };
        self.buf.extend_from_slice(&b);
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.field(4, "u32");
        let b = if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        };
        self.buf.extend_from_slice(&b);
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.field(8, "u64");
        let b = if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        };
        self.buf.extend_from_slice(&b);
        self
    }
    pub fn u16be(&mut self, v: u16) -> &mut Self {
        let o = self.be;
        self.be = true;
        self.u16(v);
        self.be = o;
        self
    }
    pub fn u32be(&mut self, v: u32) -> &mut Self {
        let o = self.be;
        self.be = true;
        self.u32(v);
        self.be = o;
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.buf.extend_from_slice(b);
        self
    }
    pub fn zeros(&mut self, n: usize) -> &mut Self {
        self.buf.resize(self.buf.len() + n, 0);
        self
    }
    pub fn pad_to(&mut self, pos: usize) -> &mut Self {
        if self.buf.len() < pos {
            self.buf.resize(pos, 0);
        }
        self
    }
    pub fn align2(&mut self) -> &mut Self {
        if self.buf.len() % 2 == 1 {
            self.buf.push(0);
        }
        self
    }
    pub fn label(&mut self, l: &str) -> &mut Self {
        self.labels.insert(l.into(), self.buf.len());
        self
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}#{}", self.n)
    }
    fn fix(&mut self, l: &str, base: Option<&str>, width: usize, be: bool) {
        let name = self.refname;
        self.field(width, name);
        self.fixes.push(Fix {
            pos: self.buf.len(),
            label: l.into(),
            base: base.map(|s| s.into()),
            width,
            be,
        });
        self.buf.resize(self.buf.len() + width, 0);
    }
    /// 32-bit reference to a label, relative to `base` (file start if None).
    pub fn ref32(&mut self, l: &str, base: Option<&str>) -> &mut Self {
        let be = self.be;
        self.fix(l, base, 4, be);
        self
    }
    pub fn ref64(&mut self, l: &str, base: Option<&str>) -> &mut Self {
        let be = self.be;
        self.fix(l, base, 8, be);
        self
    }
    pub fn ref16(&mut self, l: &str, base: Option<&str>) -> &mut Self {
        let be = self.be;
        self.fix(l, base, 2, be);
        self
    }
    pub fn ref32be(&mut self, l: &str, base: Option<&str>) -> &mut Self {
        self.fix(l, base, 4, true);
        self
    }
    pub fn finish(mut self) -> File {
        for f in &self.fixes {
            let t = *self
                .labels
                .get(&f.label)
                .unwrap_or_else(|| panic!("label {}", f.label));
            let b = f
                .base
                .as_ref()
                .map(|b| *self.labels.get(b).unwrap_or_else(|| panic!("label {b}")))
                .unwrap_or(0);
            let v = (t as i64 - b as i64) as u64;
            let bytes = if f.be {
                v.to_be_bytes()[8 - f.width..].to_vec()
            } else {
                v.to_le_bytes()[..f.width].to_vec()
            };
            self.buf[f.pos..f.pos + f.width].copy_from_slice(&bytes);
        }
        File {
            data: self.buf,
            fields: self.fields,
            labels: self.labels,
        }
    }
}

/// A TIFF value.
#[derive(Clone)]
pub enum V {
    B(Vec<u8>),
    A(String),
    S(Vec<u16>),
    L(Vec<u32>),
    R(Vec<(u32, u32)>),
    U(Vec<u8>),
    SS(Vec<i16>),
    SL(Vec<i32>),
    SR(Vec<(i32, i32)>),
    /// arbitrary type, count and raw bytes
    Raw(u16, u32, Vec<u8>),
    /// LONG(s) pointing at labels
    Ref(Vec<String>),
    /// LONG: distance between two labels (start, end)
    Len(String, String),
    /// LONG(s) pointing at sub-directories written after this one
    Sub(Vec<Dir>),
    /// external bytes of the given type, written by a closure; count = bytes
    Custom(u16, Rc<dyn Fn(&mut Asm)>),
}

#[derive(Clone, Default)]
pub struct Dir {
    pub e: Vec<(u16, V)>,
    pub next: Option<Box<Dir>>,
    pub next_ref: Option<String>,
    pub label: Option<String>,
    pub sorted: bool,
}

impl Dir {
    pub fn new() -> Dir {
        Dir {
            sorted: true,
            ..Default::default()
        }
    }
    pub fn e(mut self, tag: u16, v: V) -> Dir {
        self.e.push((tag, v));
        self
    }
    pub fn opt(self, c: bool, tag: u16, v: V) -> Dir {
        if c {
            self.e(tag, v)
        } else {
            self
        }
    }
    pub fn s(self, tag: u16, v: u16) -> Dir {
        self.e(tag, V::S(vec![v]))
    }
    pub fn l(self, tag: u16, v: u32) -> Dir {
        self.e(tag, V::L(vec![v]))
    }
    pub fn a(self, tag: u16, v: &str) -> Dir {
        self.e(tag, V::A(v.into()))
    }
    pub fn r(self, tag: u16, l: &str) -> Dir {
        self.e(tag, V::Ref(vec![l.into()]))
    }
    pub fn next(mut self, d: Dir) -> Dir {
        self.next = Some(Box::new(d));
        self
    }
    pub fn labelled(mut self, l: &str) -> Dir {
        self.label = Some(l.into());
        self
    }
}

pub fn type_size(t: u16) -> usize {
    match t {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 | 13 => 4,
        5 | 10 | 12 => 8,
        _ => 1,
    }
}

pub fn encode(v: &V, be: bool) -> (u16, u32, Vec<u8>) {
    macro_rules! enc {
        ($v:expr) => {{
            let mut o = Vec::new();
            for x in $v {
                o.extend_from_slice(&(if be { x.to_be_bytes() } else { x.to_le_bytes() }));
            }
            o
        }};
    }
    match v {
        V::B(b) => (1, b.len() as u32, b.clone()),
        V::A(s) => {
            let mut b = s.as_bytes().to_vec();
            b.push(0);
            (2, b.len() as u32, b)
        }
        V::S(v) => (3, v.len() as u32, enc!(v)),
        V::L(v) => (4, v.len() as u32, enc!(v)),
        V::SS(v) => (8, v.len() as u32, enc!(v)),
        V::SL(v) => (9, v.len() as u32, enc!(v)),
        V::U(b) => (7, b.len() as u32, b.clone()),
        V::R(v) => {
            let f: Vec<u32> = v.iter().flat_map(|x| [x.0, x.1]).collect();
            (5, v.len() as u32, enc!(&f))
        }
        V::SR(v) => {
            let f: Vec<i32> = v.iter().flat_map(|x| [x.0, x.1]).collect();
            (10, v.len() as u32, enc!(&f))
        }
        V::Raw(t, c, b) => (*t, *c, b.clone()),
        _ => unreachable!(),
    }
}

impl Asm {
    /// TIFF header with first directory right behind, base label "tiff<n>".
    pub fn tiff(&mut self, magic: u16, dir: &Dir) -> String {
        let base = self.fresh("tiff");
        self.label(&base);
        let b: &[u8] = if self.be { b"MM" } else { b"II" };
        self.bytes(b);
        self.u16(magic);
        let l = self.fresh("ifd0");
        self.ref32(&l, Some(&base));
        self.label(&l);
        self.dir(dir, &base);
        base
    }

    /// Write a directory (and everything below it) at the current position.
    pub fn dir(&mut self, d: &Dir, base: &str) {
        let mut ents: Vec<&(u16, V)> = d.e.iter().collect();
        if d.sorted {
            ents.sort_by_key(|x| x.0);
        }
        if let Some(l) = &d.label {
            self.label(l);
        }
        self.u16(ents.len() as u16);
        enum Post {
            Bytes(String, Vec<u8>, u16),
            Dirs(Vec<(String, Dir)>),
            RefTab(String, Vec<String>),
            Custom(String, String, Rc<dyn Fn(&mut Asm)>),
        }
        let mut post: Vec<Post> = vec![];
        for (tag, v) in ents.iter().map(|x| (x.0, &x.1)) {
            self.u16(tag);
            match v {
                V::Ref(ls) => {
                    self.u16(4).u32(ls.len() as u32);
                    if ls.len() == 1 {
                        self.ref32(&ls[0], Some(base));
                    } else {
                        let t = self.fresh("reftab");
                        self.ref32(&t, Some(base));
                        post.push(Post::RefTab(t, ls.clone()));
                    }
                }
                V::Len(a, b) => {
                    self.u16(4).u32(1);
                    self.ref32(b, Some(a));
                }
                V::Sub(ds) => {
                    self.u16(4).u32(ds.len() as u32);
                    let ls: Vec<(String, Dir)> =
                        ds.iter().map(|d| (self.fresh("sub"), d.clone())).collect();
                    if ls.len() == 1 {
                        self.ref32(&ls[0].0, Some(base));
                    } else {
                        let t = self.fresh("reftab");
                        self.ref32(&t, Some(base));
                        post.push(Post::RefTab(t, ls.iter().map(|x| x.0.clone()).collect()));
                    }
                    post.push(Post::Dirs(ls));
                }
                V::Custom(t, f) => {
                    self.u16(*t);
                    let s = self.fresh("cs");
                    let e = self.fresh("ce");
                    let be = self.be;
                    self.fix(&e, Some(&s), 4, be);
                    self.ref32(&s, Some(base));
                    post.push(Post::Custom(s, e, f.clone()));
                }
                v => {
                    let (t, c, b) = encode(v, self.be);
                    self.u16(t).u32(c);
                    if b.len() <= 4 {
                        let w = type_size(t).min(4);
                        let mut i = 0;
                        while i + w <= b.len() {
                            self.field(w, "val");
                            self.buf.extend_from_slice(&b[i..i + w]);
                            i += w;
                        }
                        let rest = b.len() - i;
                        self.buf.extend_from_slice(&b[i..]);
                        self.zeros(4 - i - rest);
                    } else {
                        let l = self.fresh("ext");
                        self.ref32(&l, Some(base));
                        post.push(Post::Bytes(l, b, t));
                    }
                }
            }
        }
        let mut nextl = None;
        if let Some(l) = &d.next_ref {
            self.ref32(l, Some(base));
        } else if d.next.is_some() {
            let l = self.fresh("next");
            self.ref32(&l, Some(base));
            nextl = Some(l);
        } else {
            self.u32(0);
        }
        if let Some(f) = self.fields.last_mut() {
            f.name = "next".into();
        }
        for p in post {
            self.align2();
            match p {
                Post::Bytes(l, b, t) => {
                    self.label(&l);
                    let w = type_size(t).min(4);
                    if b.len() <= 64 && w > 1 {
                        for c in b.chunks(w) {
                            self.field(c.len(), "val");
                            self.buf.extend_from_slice(c);
                        }
                    } else {
                        self.buf.extend_from_slice(&b);
                    }
                }
                Post::RefTab(l, ls) => {
                    self.label(&l);
                    for x in ls {
                        self.ref32(&x, Some(base));
                    }
                }
                Post::Dirs(ds) => {
                    for (l, d) in ds {
                        self.align2();
                        self.label(&l);
                        self.dir(&d, base);
                    }
                }
                Post::Custom(s, e, f) => {
                    self.label(&s);
                    f(self);
                    self.label(&e);
                }
            }
        }
        if let (Some(l), Some(n)) = (nextl, &d.next) {
            self.align2();
            self.label(&l);
            self.dir(n, base);
        }
    }
}
