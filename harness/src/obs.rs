//! The observation alphabet: every query of the public Rust API, with its
//! complete answer serialised to canonical bytes.
use libopenraw::tiff::exif::{Rational, SRational};
use libopenraw::{
    metadata, Bitmap, CfaPattern, ColourSpace, Error, Ifd, RawFileHandle, RawImage,
    RenderingOptions, RenderingStage, Thumbnail,
};
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Type,
    TypeId,
    Mime,
    Vendor,
    Sizes,
    Thumb(u32),
    /// the i-th listed thumbnail size
    ThumbNth(usize),
    Raw(bool),
    Render(u8),
    Meta,
    MetaFirst,
    Value(&'static str),
    Orient,
    IfdObs(u8),
    Illum(usize),
    Matrix(usize),
    Builtin,
    Dump,
    Debug,
}

/// Directory tags looked at by `Op::IfdObs`.
pub const TAGS: &[u16] = &[
    0x0001, 0x0002, 0x0003, 0x0004, 0x0005, 0x0006, 0x0007, 0x0008, 0x000c, 0x000d, 0x0011, 0x0012,
    0x0017, 0x0018, 0x001d, 0x0024, 0x0025, 0x0026, 0x002e, 0x0095, 0x0096, 0x0098, 0x00a7, 0x00aa,
    0x00e0, 0x00fe, 0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x010e, 0x010f, 0x0110, 0x0111, 0x0112,
    0x0115, 0x0116, 0x0117, 0x0118, 0x011c, 0x0131, 0x0132, 0x013b, 0x0142, 0x0143, 0x0144, 0x0145,
    0x014a, 0x0201, 0x0202, 0x0203, 0x0200, 0x0229, 0x0640, 0x2010, 0x4001, 0x7000, 0x7010, 0x828d,
    0x828e, 0x829a, 0x829d, 0x8769, 0x8825, 0x8827, 0x9003, 0x9201, 0x9202, 0x920a, 0x9216, 0x9217,
    0x927c, 0xa002, 0xa003, 0xa302, 0xc612, 0xc614, 0xc618, 0xc619, 0xc61a, 0xc61d, 0xc61f, 0xc620,
    0xc621, 0xc622, 0xc628, 0xc629, 0xc634, 0xc640, 0xc65a, 0xc65b, 0xc68d,
];

/// The full alphabet used by the exhaustive sequence and fault checks.
pub fn alphabet() -> Vec<Op> {
    vec![
        Op::Type,
        Op::TypeId,
        Op::Mime,
        Op::Vendor,
        Op::Sizes,
        Op::ThumbNth(0),
        Op::ThumbNth(1),
        Op::ThumbNth(2),
        Op::Thumb(1),
        Op::Thumb(160),
        Op::Thumb(70000),
        Op::Raw(false),
        Op::Raw(true),
        Op::Render(1),
        Op::Render(3),
        Op::Meta,
        Op::MetaFirst,
        Op::Value("Exif.Image.Model"),
        Op::Orient,
        Op::IfdObs(0),
        Op::IfdObs(1),
        Op::IfdObs(2),
        Op::Illum(1),
        Op::Matrix(1),
        Op::Matrix(2),
        Op::Builtin,
        Op::Dump,
    ]
}

pub fn err(e: &Error) -> String {
    let s = format!("{e:?}");
    let n = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
    format!("E:{}", &s[..n])
}

pub fn is_err(o: &[u8]) -> bool {
    o.starts_with(b"E:")
}

fn fl(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", v.to_bits())
    }
}
fn ra(r: &Rational) -> String {
    format!("{}/{}", r.num, r.denom)
}
fn sra(r: &SRational) -> String {
    format!("{}/{}", r.num, r.denom)
}

pub fn value(v: &metadata::Value) -> String {
    use metadata::Value::*;
    match v {
        Int(v) => format!("I{v:?}"),
        SInt(v) => format!("i{v:?}"),
        String(v) => format!("S{v:?}"),
        Float(v) => format!("f{:?}", v.iter().map(|f| f.to_bits()).collect::<Vec<_>>()),
        Double(v) => format!("d{:?}", v.iter().map(|f| f.to_bits()).collect::<Vec<_>>()),
        Rational(v) => format!("R{:?}", v.iter().map(ra).collect::<Vec<_>>()),
        SRational(v) => format!("r{:?}", v.iter().map(sra).collect::<Vec<_>>()),
        Bytes(v) => format!("B{v:?}"),
        SBytes(v) => format!("b{v:?}"),
        Invalid(v) => format!("?{v:?}"),
    }
}

pub fn pattern(p: &CfaPattern) -> String {
    let c: std::string::String = p.pattern().iter().map(|c| c.to_char()).collect();
    format!("{}x{} {} {:?}", p.width(), p.height(), c, p.pattern_type())
}

pub fn bitmap(o: &mut Vec<u8>, b: &dyn Bitmap) {
    let mut s = std::string::String::new();
    let _ = writeln!(
        s,
        "{:?} {}x{} bpc {} size {}",
        b.data_type(),
        b.width(),
        b.height(),
        b.bpc(),
        b.data_size()
    );
    o.extend_from_slice(s.as_bytes());
    if let Some(d) = b.data8() {
        o.extend_from_slice(format!("\nd8 {}:", d.len()).as_bytes());
        o.extend_from_slice(d);
    }
    if let Some(d) = b.data16() {
        o.extend_from_slice(format!("\nd16 {}:", d.len()).as_bytes());
        for v in d {
            o.extend_from_slice(&v.to_le_bytes());
        }
    }
}

pub fn attrs(r: &RawImage) -> String {
    let mut s = String::new();
    let _ = write!(
        s,
        "active {:?} crop {:?} ar {:?} out {:?}\n",
        r.active_area().map(|r| r.to_vec()),
        r.user_crop().map(|r| r.to_vec()),
        r.user_aspect_ratio().map(|a| (a.0, a.1)),
        (r.output_size().width, r.output_size().height)
    );
    let _ = write!(
        s,
        "blacks {:?} whites {:?} pi {:?} comp {:?}\n",
        r.blacks(),
        r.whites(),
        r.photometric_interpretation(),
        r.compression()
    );
    let _ = write!(
        s,
        "neutral {:?} xy {:?}\n",
        r.as_shot_neutral()
            .map(|v| v.iter().map(|f| fl(*f)).collect::<Vec<_>>()),
        r.as_shot_white_xy().map(|(a, b)| (fl(a), fl(b)))
    );
    for i in 0..4 {
        let _ = write!(
            s,
            "m{i} {:?}\n",
            r.colour_matrix(i)
                .map(|m| (m.illuminant, m.iter().map(|f| fl(*f)).collect::<Vec<_>>()))
        );
    }
    let _ = write!(s, "pat {}\n", pattern(r.mosaic_pattern()));
    let _ = write!(
        s,
        "lin {:?}\n",
        r.linearization_table().map(|t| (
            t.len(),
            crate::report::hash(&t.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>())
        ))
    );
    let _ = write!(s, "tile {:?}\n", r.tile_size());
    s
}

pub fn image(r: &RawImage) -> Vec<u8> {
    let mut o = Vec::new();
    bitmap(&mut o, r);
    o.extend_from_slice(b"\n");
    o.extend_from_slice(attrs(r).as_bytes());
    if let Some(t) = r.tile_data() {
        for t in t {
            o.extend_from_slice(format!("tile {}:", t.len()).as_bytes());
            o.extend_from_slice(t);
        }
    }
    if let Some(d) = r.data16_as_u8() {
        o.extend_from_slice(&crate::report::hash(d).to_le_bytes());
    }
    o
}

pub fn thumb(t: &Thumbnail) -> Vec<u8> {
    let mut o = Vec::new();
    bitmap(&mut o, t);
    o
}

fn res<T>(r: libopenraw::Result<T>, f: impl FnOnce(&T) -> Vec<u8>) -> Vec<u8> {
    match r {
        Ok(v) => f(&v),
        Err(e) => err(&e).into_bytes(),
    }
}

macro_rules! dir_obs {
    ($d:expr) => {{
        let d = $d;
        let mut s = String::new();
        let _ = write!(
            s,
            "{:?} {:?} n={} id={:?} next={} primary={}\n",
            d.ifd_type(),
            d.endian(),
            d.num_entries(),
            d.id(),
            d.next_ifd(),
            d.is_primary()
        );
        for t in TAGS {
            if let Some(e) = d.entry(*t) {
                let _ = write!(
                    s,
                    "{:04x} {:?} inline={} u={:?} ua={:?} ia={:?} u16={:?} s={:?}",
                    t,
                    d.tag_name(*t),
                    e.is_inline(),
                    d.uint_value(*t),
                    d.uint_value_array(*t),
                    d.int_value_array(*t),
                    d.u16_value_array(*t),
                    e.string_value()
                );
                let _ = write!(
                    s,
                    " f={:?}\n",
                    d.float_value_array(*t)
                        .map(|v| v.iter().map(|f| fl(*f)).collect::<Vec<_>>())
                );
            }
        }
        s.into_bytes()
    }};
}

pub fn stage(n: u8) -> RenderingStage {
    match n {
        0 => RenderingStage::Raw,
        1 => RenderingStage::Linearization,
        2 => RenderingStage::Interpolation,
        _ => RenderingStage::Colour,
    }
}

pub fn observe(f: &RawFileHandle, op: &Op) -> Vec<u8> {
    match op {
        Op::Type => format!("{:?}", f.type_()).into_bytes(),
        Op::TypeId => res(f.type_id(), |t| format!("{t}").into_bytes()),
        Op::Mime => f.mime_type().as_bytes().to_vec(),
        Op::Vendor => res(f.vendor_id(), |t| format!("{t}").into_bytes()),
        Op::Sizes => match f.thumbnail_sizes() {
            Some(s) => format!("{s:?}").into_bytes(),
            None => b"E:none".to_vec(),
        },
        Op::Thumb(n) => res(f.thumbnail(*n), thumb),
        Op::ThumbNth(n) => match f.thumbnail_sizes().and_then(|s| s.get(*n).copied()) {
            Some(s) => res(f.thumbnail(s), thumb),
            None => b"E:nosuch".to_vec(),
        },
        Op::Raw(skip) => res(f.raw_data(*skip), image),
        Op::Render(s) => res(
            f.rendered_image(
                RenderingOptions::default()
                    .with_stage(stage(*s))
                    .with_target(ColourSpace::SRgb),
            ),
            image,
        ),
        Op::Meta => match f.metadata() {
            None => b"E:none".to_vec(),
            Some(it) => {
                let mut s = String::new();
                for (k, v, t) in it {
                    let _ = write!(s, "{k} {t} {} {:?}\n", value(&v), v.into_string(false));
                }
                s.into_bytes()
            }
        },
        Op::MetaFirst => match f.metadata() {
            None => b"E:none".to_vec(),
            Some(mut it) => {
                format!("{:?}", it.next().map(|(k, v, t)| (k, value(&v), t))).into_bytes()
            }
        },
        Op::Value(k) => match f.metadata_value(k) {
            None => b"E:none".to_vec(),
            Some(v) => format!(
                "{} n={} int={:?} str={:?} rat={:?}",
                value(&v),
                v.count(),
                v.integer(),
                v.string(),
                v.rational().map(|r| ra(&r))
            )
            .into_bytes(),
        },
        Op::Orient => format!("{}", f.orientation()).into_bytes(),
        Op::IfdObs(k) => {
            let d = match k {
                0 => f.main_ifd(),
                1 => f.exif_ifd(),
                _ => f.maker_note_ifd(),
            };
            match d {
                None => b"E:none".to_vec(),
                Some(d) => dir_obs!(d),
            }
        }
        Op::Illum(n) => format!("{:?}", f.calibration_illuminant(*n)).into_bytes(),
        Op::Matrix(n) => res(f.colour_matrix(*n), |(o, m)| {
            format!("{o:?} {:?}", m.iter().map(|f| fl(*f)).collect::<Vec<_>>()).into_bytes()
        }),
        Op::Builtin => res(f.get_builtin_colour_matrix(), |m| {
            format!("{:?}", m.iter().map(|f| fl(*f)).collect::<Vec<_>>()).into_bytes()
        }),
        Op::Dump => {
            let mut v: Vec<u8> = vec![];
            f.dump_file(&mut v);
            v
        }
        Op::Debug => format!("{f:?}").into_bytes(),
    }
}

/// Short printable form of an observation.
pub fn show(o: &[u8]) -> String {
    let mut s: String = o
        .iter()
        .take(200)
        .map(|c| {
            if (0x20..0x7f).contains(c) {
                *c as char
            } else {
                '.'
            }
        })
        .collect();
    if o.len() > 200 {
        let _ = write!(s, "… ({} bytes)", o.len());
    }
    s
}

/// First difference of two observations, printable.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let s = n.saturating_sub(30);
    format!(
        "at byte {n}: got [{}] want [{}]",
        show(&a[s.min(a.len())..]),
        show(&b[s.min(b.len())..])
    )
}
