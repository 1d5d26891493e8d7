//! Canon CRW encoder (tables of the format, as published with dcraw).
use super::{canonical, Bits};
const FIRST: [&[u8]; 3] = [
    &[
        0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255,
    ],
    &[
        0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255,
    ],
    &[
        0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255,
    ],
];
const SECOND: [&[u8]; 3] = [
    &[
        0, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139, 3, 4, 2, 5, 1, 6, 7, 8, 18, 19, 17, 20,
        9, 21, 34, 0, 33, 22, 10, 240, 35, 23, 36, 49, 50, 24, 25, 51, 37, 65, 52, 66, 53, 81, 54,
        55, 56, 41, 121, 38, 26, 57, 86, 87, 40, 39, 82, 85, 88, 67, 118, 89, 119, 84, 97, 249,
        113, 120, 117, 150, 151, 73, 183, 83, 215, 116, 182, 152, 71, 72, 149, 105, 153, 145, 250,
        184, 104, 181, 185, 214, 247, 216, 103, 70, 69, 148, 137, 248, 129, 213, 246, 180, 136,
        177, 42, 68, 114, 217, 135, 102, 212, 245, 58, 167, 115, 169, 168, 134, 98, 199, 101, 200,
        201, 161, 244, 209, 233, 90, 146, 133, 166, 231, 147, 232, 193, 198, 122, 100, 225, 74,
        106, 230, 179, 241, 211, 165, 138, 178, 154, 186, 132, 164, 99, 229, 197, 243, 210, 196,
        130, 170, 218, 228, 242, 202, 131, 163, 162, 195, 234, 194, 226, 227, 255, 255,
    ],
    &[
        0, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140, 2, 3, 1, 4, 5, 18, 17, 6, 19, 7, 8, 20,
        34, 9, 33, 0, 35, 21, 49, 50, 10, 22, 240, 36, 51, 65, 66, 25, 23, 37, 24, 81, 52, 67, 82,
        41, 53, 97, 57, 113, 98, 54, 83, 38, 56, 26, 55, 129, 39, 145, 121, 85, 69, 40, 114, 89,
        161, 177, 68, 105, 84, 88, 209, 250, 87, 225, 241, 185, 73, 71, 99, 106, 249, 86, 70, 168,
        42, 74, 120, 153, 58, 117, 116, 134, 101, 193, 118, 182, 150, 214, 137, 133, 201, 245, 149,
        180, 199, 247, 138, 151, 184, 115, 183, 216, 217, 135, 167, 122, 72, 130, 132, 234, 244,
        166, 197, 90, 148, 164, 198, 146, 195, 104, 181, 200, 228, 229, 230, 233, 162, 163, 227,
        194, 102, 103, 147, 170, 212, 213, 231, 248, 136, 154, 215, 119, 196, 100, 226, 152, 165,
        202, 218, 232, 243, 246, 169, 178, 179, 242, 210, 131, 186, 211, 255, 255,
    ],
    &[
        0, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117, 4, 5, 3, 6, 2, 7, 1, 8, 9, 18, 19, 20,
        17, 21, 10, 22, 23, 240, 0, 34, 33, 24, 35, 25, 36, 50, 49, 37, 51, 56, 55, 52, 53, 54, 57,
        121, 87, 88, 89, 40, 86, 120, 39, 65, 41, 119, 38, 66, 118, 153, 26, 85, 152, 151, 249, 72,
        84, 150, 137, 71, 183, 73, 250, 117, 104, 182, 103, 105, 185, 184, 216, 82, 215, 136, 181,
        116, 81, 70, 217, 248, 58, 214, 135, 69, 122, 149, 213, 246, 134, 180, 169, 148, 83, 42,
        168, 67, 245, 247, 212, 102, 167, 90, 68, 138, 201, 232, 200, 231, 154, 106, 115, 74, 97,
        199, 244, 198, 101, 233, 114, 230, 113, 145, 147, 166, 218, 146, 133, 98, 243, 197, 178,
        164, 132, 186, 100, 165, 179, 210, 129, 229, 211, 170, 196, 202, 242, 177, 228, 209, 131,
        99, 234, 195, 226, 130, 241, 163, 194, 161, 193, 227, 162, 225, 255, 255,
    ],
];

fn codes(t: &[u8]) -> Vec<Option<(u32, u32)>> {
    let mut bits = [0u8; 16];
    bits.copy_from_slice(&t[..16]);
    let mut m = vec![None; 256];
    let n: usize = bits.iter().map(|b| *b as usize).sum();
    // a value listed twice keeps its first (shortest) code
    for (v, c, l) in canonical(&bits, &t[16..16 + n]) {
        if m[v as usize].is_none() {
            m[v as usize] = Some((c, l));
        }
    }
    m
}

/// Header padding before the Huffman coded data.
pub const HEAD: usize = 514;

/// Encode w*h samples (10 bits, or 12 bits with low bits).
pub fn encode(img: &[u16], w: usize, h: usize, table: usize, low: bool) -> Vec<u8> {
    encode_ex(img, w, h, table, low, false)
}

/// `skips`: a first difference of 0 is skipped, and the zeros at the end of a block are runs
pub fn encode_ex(img: &[u16], w: usize, h: usize, table: usize, low: bool, skips: bool) -> Vec<u8> {
    assert!(w * h % 64 == 0 && img.len() == w * h);
    let (c1, c2) = (codes(FIRST[table.min(2)]), codes(SECOND[table.min(2)]));
    let mut o = vec![];
    if low {
        for q in img.chunks(4) {
            o.push(
                q.iter()
                    .enumerate()
                    .map(|(i, v)| ((v & 3) << (2 * i)) as u8)
                    .sum(),
            );
        }
    }
    o.resize(o.len() + HEAD, 0);
    let sh = if low { 2 } else { 0 };
    let mut b = Bits::new(true);
    let mut base = [512i32; 2];
    let mut carry = 0;
    for (k, blk) in img.chunks(64).enumerate() {
        let mut d = [0i32; 64];
        for i in 0..64 {
            if (k * 64 + i) % w == 0 {
                base = [512; 2];
            }
            let v = (blk[i] >> sh) as i32;
            d[i] = v - base[i & 1];
            base[i & 1] = v;
        }
        let d0 = d[0];
        d[0] -= carry;
        carry = d0;
        let put = |b: &mut Bits, c: (u32, u32)| b.put(c.0, c.1);
        let (len, ex) = super::category(d[0]);
        match c1[0xff] {
            Some(c) if skips && len == 0 => put(&mut b, c),
            _ => {
                put(&mut b, c1[len as usize].expect("first table"));
                b.put(ex, len);
            }
        }
        let mut i = 1;
        while i < 64 {
            let z = d[i..].iter().take_while(|v| **v == 0).count();
            if i + z == 64 && (!skips || z < 8) {
                put(&mut b, c2[0].expect("end"));
                break;
            }
            if z >= 16 || i + z == 64 {
                // can go past the end of the block
                put(&mut b, c2[0xf0].expect("run"));
                i += 16;
                continue;
            }
            let (len, ex) = super::category(d[i + z]);
            match c2[(z as usize) << 4 | len as usize] {
                Some(t) => {
                    put(&mut b, t);
                    b.put(ex, len);
                    i += z + 1;
                }
                None => panic!("no code for {z} {len}"),
            }
        }
    }
    b.flush(1);
    o.extend_from_slice(&b.buf);
    o.extend_from_slice(&[0; 8]);
    // filler up to what the low bits detection looks at; 0xff is followed by
    // 0 in coded data and may be followed by anything in low bits
    while o.len() < 0x4000 - 30 {
        o.push(0);
    }
    o.extend_from_slice(&[0xff, if low { 1 } else { 0 }, 0, 0, 0, 0, 0, 0]);
    o
}
