//! Independent reference codecs, written from the format descriptions.
pub mod crw;
pub mod fuji;
pub mod ljpeg;
pub mod nikon;
pub mod olympus;
pub mod panasonic;

/// MSB-first bit writer.
#[derive(Default, Clone)]
pub struct Bits {
    pub buf: Vec<u8>,
    acc: u64,
    n: u32,
    pub stuff: bool,
}

impl Bits {
    pub fn new(stuff: bool) -> Bits {
        Bits {
            stuff,
            ..Default::default()
        }
    }
    pub fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v as u64 >> i.min(63)) & 1);
            self.n += 1;
            if self.n == 8 {
                let b = self.acc as u8;
                self.buf.push(b);
                if self.stuff && b == 0xff {
                    self.buf.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn bit_len(&self) -> usize {
        self.buf.len() * 8 + self.n as usize
    }
    /// pad with `bit` up to a byte
    pub fn flush(&mut self, bit: u32) {
        while self.n != 0 {
            self.put(bit, 1);
        }
    }
}

/// JPEG canonical codes: (bits[16], values) -> code per value.
pub fn canonical(bits: &[u8; 16], vals: &[u8]) -> Vec<(u8, u32, u32)> {
    let mut out = vec![];
    let mut code = 0u32;
    let mut k = 0;
    for (l, n) in bits.iter().enumerate() {
        for _ in 0..*n {
            out.push((vals[k], code, l as u32 + 1));
            code += 1;
            k += 1;
        }
        code <<= 1;
    }
    out
}

/// JPEG magnitude category and extra bits of a difference.
pub fn category(d: i32) -> (u32, u32) {
    let a = d.unsigned_abs();
    let s = 32 - a.leading_zeros();
    let bits = if d >= 0 {
        d as u32
    } else {
        (d - 1) as u32 & ((1u64 << s) - 1) as u32
    };
    (s, bits)
}
