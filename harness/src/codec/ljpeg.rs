//! Lossless JPEG (ITU T.81 process 14) encoder.
use super::{canonical, category, Bits};

#[derive(Clone, Debug, PartialEq)]
pub struct Params {
    /// columns and rows of the JPEG frame (samples per component)
    pub w: usize,
    pub h: usize,
    pub ncomp: usize,
    pub prec: u8,
    pub psv: u8,
    pub pt: u8,
    /// restart interval, in rows (0: none)
    pub rst: usize,
    /// table shape: 0 flat 5 bits, 1 unary-like up to 16 bits, 2 short codes for small, 3 reverse of 1
    pub table: u8,
    /// Huffman table of each component
    pub ntables: usize,
    pub sof: u8,
    /// extra segments before the frame (APPn, COM, APP0)
    pub extra: bool,
}

impl Params {
    pub fn new(w: usize, h: usize, ncomp: usize, prec: u8) -> Params {
        Params {
            w,
            h,
            ncomp,
            prec,
            psv: 1,
            pt: 0,
            rst: 0,
            table: 0,
            ntables: 1,
            sof: 0xc3,
            extra: false,
        }
    }
}

pub fn table(shape: u8, t: usize) -> ([u8; 16], Vec<u8>) {
    let mut bits = [0u8; 16];
    let mut order: Vec<u8> = (0..=16).collect();
    match shape {
        0 => {
            bits[4] = 17;
            order.rotate_left(t);
        }
        1 | 3 => {
            for b in bits.iter_mut().take(14) {
                *b = 1;
            }
            bits[15] = 3;
            if shape == 3 {
                order.reverse();
            }
            order.rotate_left(t);
        }
        _ => {
            // 2 codes of 2 bits, 2 of 3, 2 of 4, rest of 8 and 9
            bits[1] = 2;
            bits[2] = 2;
            bits[3] = 2;
            bits[7] = 5;
            bits[8] = 6;
            order.rotate_left(t);
        }
    }
    (bits, order)
}

/// Predicted value of T.81 H.1.2.1, all samples already point-transformed.
fn predict(
    p: &Params,
    s: &dyn Fn(usize, usize, usize) -> i32,
    x: usize,
    y: usize,
    c: usize,
) -> i32 {
    let first = y == 0 || (p.rst != 0 && y % p.rst == 0);
    if first {
        if x == 0 {
            1 << (p.prec - p.pt - 1)
        } else {
            s(x - 1, y, c)
        }
    } else if x == 0 {
        s(0, y - 1, c)
    } else {
        let (a, b, cc) = (s(x - 1, y, c), s(x, y - 1, c), s(x - 1, y - 1, c));
        match p.psv {
            0 => 0,
            1 => a,
            2 => b,
            3 => cc,
            4 => a + b - cc,
            5 => a + ((b - cc) >> 1),
            6 => b + ((a - cc) >> 1),
            _ => (a + b) >> 1,
        }
    }
}

/// Encode interleaved samples (w*h*ncomp).
pub fn encode(p: &Params, img: &[u16]) -> Vec<u8> {
    assert_eq!(img.len(), p.w * p.h * p.ncomp);
    let mut o: Vec<u8> = vec![0xff, 0xd8];
    if p.extra {
        o.extend_from_slice(&[0xff, 0xe1, 0, 6, 0xff, 0xd8, 0xff, 0xc4]);
        o.extend_from_slice(&[0xff, 0xfe, 0, 4, b'h', b'i']);
    }
    for t in 0..p.ntables {
        let (b, v) = table(p.table, t);
        o.extend_from_slice(&[0xff, 0xc4]);
        o.extend_from_slice(&((2 + 1 + 16 + v.len()) as u16).to_be_bytes());
        o.push(t as u8);
        o.extend_from_slice(&b);
        o.extend_from_slice(&v);
    }
    o.extend_from_slice(&[0xff, p.sof]);
    o.extend_from_slice(&((8 + 3 * p.ncomp) as u16).to_be_bytes());
    o.push(p.prec);
    o.extend_from_slice(&(p.h as u16).to_be_bytes());
    o.extend_from_slice(&(p.w as u16).to_be_bytes());
    o.push(p.ncomp as u8);
    for c in 0..p.ncomp {
        o.extend_from_slice(&[c as u8, 0x11, 0]);
    }
    if p.rst != 0 {
        o.extend_from_slice(&[0xff, 0xdd, 0, 4]);
        o.extend_from_slice(&((p.rst * p.w) as u16).to_be_bytes());
    }
    o.extend_from_slice(&[0xff, 0xda]);
    o.extend_from_slice(&((6 + 2 * p.ncomp) as u16).to_be_bytes());
    o.push(p.ncomp as u8);
    for c in 0..p.ncomp {
        o.extend_from_slice(&[c as u8, ((c % p.ntables) << 4) as u8]);
    }
    o.extend_from_slice(&[p.psv, 0, p.pt]);
    let codes: Vec<Vec<(u32, u32)>> = (0..p.ntables)
        .map(|t| {
            let (b, v) = table(p.table, t);
            let mut m = vec![(0, 0); 17];
            for (v, c, l) in canonical(&b, &v) {
                m[v as usize] = (c, l);
            }
            m
        })
        .collect();
    let s = |x: usize, y: usize, c: usize| (img[(y * p.w + x) * p.ncomp + c] >> p.pt) as i32;
    let mut bits = Bits::new(true);
    let mut rn = 0u8;
    for y in 0..p.h {
        if p.rst != 0 && y != 0 && y % p.rst == 0 {
            bits.flush(1);
            bits.buf.extend_from_slice(&[0xff, 0xd0 + rn]);
            rn = (rn + 1) & 7;
        }
        for x in 0..p.w {
            for c in 0..p.ncomp {
                // modulo 2^16, in -32767..=32768
                let mut d = (s(x, y, c) - predict(p, &s, x, y, c)) & 0xffff;
                if d > 32768 {
                    d -= 65536;
                }
                let (cat, extra) = category(d);
                let (code, len) = codes[c % p.ntables][cat as usize];
                bits.put(code, len);
                if cat != 0 && cat != 16 {
                    bits.put(extra, cat);
                }
            }
        }
    }
    bits.flush(1);
    o.extend_from_slice(&bits.buf);
    o.extend_from_slice(&[0xff, 0xd9]);
    o
}
