//! Panasonic compression: the published decoder (dcraw) as a model.

/// The codes of a group of 14 pixels.
#[derive(Clone, Default, Debug)]
pub struct Group {
    pub sh: [u8; 4],
    /// 8 bits for each pixel
    pub j: [u8; 14],
    /// 4 bits for the pixels which need them
    pub low: [u8; 14],
}
impl Group {
    /// 16 bytes, and the pixels
    pub fn make(&self) -> ([u8; 16], [u16; 14]) {
        let mut bits: u128 = 0;
        let mut n = 0;
        let mut put = |v: u8, l: u32| {
            bits = (bits << l) | (v as u128 & ((1 << l) - 1));
            n += l;
        };
        let mut pred = [0i32; 2];
        let mut nonz = [false; 2];
        let mut sh = 0;
        let mut out = [0; 14];
        for i in 0..14 {
            let c = i & 1;
            if i % 3 == 2 {
                put(self.sh[i / 3], 2);
                sh = [0, 1, 2, 4][self.sh[i / 3] as usize];
            }
            let j = self.j[i];
            put(j, 8);
            if nonz[c] {
                if j != 0 {
                    pred[c] -= 0x80 << sh;
                    if pred[c] < 0 || sh == 4 {
                        pred[c] &= !(-1 << sh);
                    }
                    pred[c] += (j as i32) << sh;
                }
            } else {
                nonz[c] = j != 0;
                if nonz[c] || i > 11 {
                    put(self.low[i], 4);
                    pred[c] = (j as i32) << 4 | self.low[i] as i32;
                }
            }
            out[i] = pred[c] as u16;
        }
        assert!(n <= 128);
        bits <<= 128 - n;
        // the bits are read from the end
        let mut b = bits.to_be_bytes();
        b.reverse();
        (b, out)
    }
}
/// Groups to data
pub fn pack(groups: &[Group]) -> (Vec<u8>, Vec<u16>) {
    let mut px = vec![];
    let mut out = vec![];
    for block in groups.chunks(0x400) {
        let mut b = vec![];
        for g in block {
            let (d, p) = g.make();
            b.extend(d);
            px.extend(p);
        }
        b.resize(0x4000, 0);
        out.extend(&b[0x2008..]);
        out.extend(&b[..0x2008]);
    }
    (out, px)
}
