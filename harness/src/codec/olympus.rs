//! Olympus compression, the reverse of the published decoder (dcraw).
use super::Bits;

/// Returns the stream and how many escapes there are.
/// `odd`: value of the ignored bit of an escape.
pub fn encode(img: &[u16], w: usize, odd: u32) -> (Vec<u8>, usize) {
    let mut b = Bits::new(false);
    for i in 0..7u32 {
        b.put(0xa5 ^ i, 8);
    }
    let mut esc = 0;
    for y in 0..img.len() / w {
        let mut carry = [[0i32; 3]; 2];
        for x in 0..w {
            let c = &mut carry[x & 1];
            let at = |y: usize, x: usize| img[y * w + x] as i32;
            let pred = match (y < 2, x < 2) {
                (true, true) => 0,
                (true, false) => at(y, x - 2),
                (false, true) => at(y - 2, x),
                (false, false) => {
                    let (west, n, nw) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
                    if (west < nw && nw < n) || (n < nw && nw < west) {
                        if (west - nw).abs() > 32 || (n - nw).abs() > 32 {
                            west + n - nw
                        } else {
                            (west + n) >> 1
                        }
                    } else if (west - nw).abs() > (n - nw).abs() {
                        west
                    } else {
                        n
                    }
                }
            };
            let i = if c[2] < 3 { 2 } else { 0 };
            let mut nbits = 2 + i;
            while (c[0] as u16 as u32) >> (nbits + i) != 0 {
                nbits += 1;
            }
            let t = at(y, x) - pred;
            let (low, diff) = (t & 3, t >> 2);
            let u = diff - c[1];
            let (sign, mag) = if u < 0 { (1, !u) } else { (0, u) };
            b.put(sign, 1);
            b.put(low as u32, 2);
            let high = mag >> nbits;
            if high < 12 {
                b.put(1, high as u32 + 1);
            } else {
                esc += 1;
                b.put(0, 12);
                assert!(high < 1 << (15 - nbits));
                b.put((high as u32) << 1 | odd, 16 - nbits as u32);
            }
            b.put(mag as u32 & ((1 << nbits) - 1), nbits as u32);
            c[0] = mag;
            c[1] = (diff * 3 + c[1]) >> 5;
            c[2] = if mag > 16 { 0 } else { c[2] + 1 };
        }
    }
    b.flush(0);
    (b.buf, esc)
}
