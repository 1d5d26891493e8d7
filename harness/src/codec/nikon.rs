//! Nikon and Pentax predictive Huffman codes, from the published descriptions
//! of the formats (dcraw): each table is the list of counts of codes of each
//! length followed by the values.
use super::{canonical, category, Bits};

pub const LOSSY_12: ([u8; 16], &[u8]) = (
    [0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0],
);
pub const LOSSY_12_SPLIT: ([u8; 16], &[u8]) = (
    [0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[0x39, 0x5a, 0x38, 0x27, 0x16, 5, 4, 3, 2, 1, 0, 11, 12, 12],
);
pub const LOSSY_14: ([u8; 16], &[u8]) = (
    [0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14],
);
pub const LOSSY_14_SPLIT: ([u8; 16], &[u8]) = (
    [0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0],
    &[8, 0x5c, 0x4b, 0x3a, 0x29, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14],
);
pub const LOSSLESS_14: ([u8; 16], &[u8]) = (
    [0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0],
    &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14],
);

/// One code: (bits, length), number of raw bits, shift.
#[derive(Clone, Copy, Debug)]
pub struct Code {
    pub code: u32,
    pub len: u32,
    pub size: u32,
    pub shl: u32,
}
pub fn codes(t: ([u8; 16], &[u8])) -> Vec<Code> {
    canonical(&t.0, t.1)
        .into_iter()
        .map(|(v, code, len)| Code {
            code,
            len,
            size: (v & 15) as u32,
            shl: (v >> 4) as u32,
        })
        .collect()
}
/// The difference that `bits` means with a code.
pub fn meaning(c: &Code, bits: u32) -> i32 {
    if c.size == 0 {
        return 0;
    }
    let half = 1i32 << (c.size - 1);
    if c.shl == 0 {
        let b = bits as i32;
        if b >= half {
            b
        } else {
            b - 2 * half + 1
        }
    } else {
        // the dropped bits are in the middle of the quantization step
        let v = ((bits << c.shl) | (1 << (c.shl - 1))) as i32;
        if v >= half {
            v
        } else {
            v - 2 * half
        }
    }
}
/// What to write for the difference nearest to `d`: the code, its raw bits and the difference.
pub fn nearest(cs: &[Code], d: i32) -> (Code, u32, i32) {
    let mut best: Option<(i32, Code, u32, i32)> = None;
    for c in cs {
        let n = c.size - c.shl;
        let cand: Vec<u32> = if c.size == 0 {
            vec![0]
        } else if c.shl == 0 {
            let (s, b) = category(d);
            if s == c.size {
                vec![b]
            } else {
                vec![0, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1]
            }
        } else {
            (0..1 << n).collect()
        };
        for b in cand {
            let m = meaning(c, b);
            let e = (m - d).abs();
            if best.as_ref().map(|x| e < x.0).unwrap_or(true) {
                best = Some((e, *c, b, m));
            }
        }
    }
    let (_, c, b, m) = best.unwrap();
    (c, b, m)
}

/// Encode the image nearest to `img` (values after prediction), and say what it is.
/// Rows from `split` use the second table.
pub fn encode(
    img: &[i32],
    w: usize,
    t1: ([u8; 16], &[u8]),
    split: Option<(usize, ([u8; 16], &[u8]))>,
    vpred: [[u16; 2]; 2],
) -> (Vec<u8>, Vec<i32>) {
    let (c1, c2) = (codes(t1), split.map(|s| (s.0, codes(s.1))));
    let mut vp = [[vpred[0][0] as i32, vpred[0][1] as i32], [vpred[1][0] as i32, vpred[1][1] as i32]];
    let mut b = Bits::new(false);
    let mut out = vec![];
    for (y, row) in img.chunks(w).enumerate() {
        let cs = match &c2 {
            Some((s, c)) if y >= *s => c,
            _ => &c1,
        };
        let mut hp = [0i32; 2];
        for (x, v) in row.iter().enumerate() {
            let p = if x < 2 { vp[y & 1][x] } else { hp[x & 1] };
            let (c, bits, d) = nearest(cs, v - p);
            b.put(c.code, c.len);
            b.put(bits, c.size - c.shl);
            let r = p + d;
            if x < 2 {
                vp[y & 1][x] = r;
            }
            hp[x & 1] = r;
            out.push(r);
        }
    }
    b.flush(0);
    (b.buf, out)
}

/// A Pentax table: for a difference of n bits, (code, length).
pub type PTable = Vec<(u32, u32)>;

pub fn pentax_legacy() -> PTable {
    let mut t = vec![(0, 0); 13];
    for (v, c, l) in canonical(
        &[0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
        &[3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12],
    ) {
        t[v as usize] = (c, l);
    }
    t
}
/// Prefix codes of these lengths (one per code), in the order of the symbols given
pub fn ptable(lens: &[u32], order: &[usize], flip: bool) -> PTable {
    let mut l: Vec<u32> = lens.to_vec();
    l.sort_unstable();
    let mut t = vec![(0, 0); order.len()];
    let (mut code, mut prev) = (0u32, l[0]);
    for (k, s) in order.iter().enumerate() {
        code <<= l[k] - prev;
        prev = l[k];
        t[*s] = (if flip { !code & ((1 << l[k]) - 1) } else { code }, l[k]);
        code += 1;
    }
    assert!(code <= 1 << prev);
    t
}
/// The table as the maker note has it.
pub fn pentax_blob(t: &PTable, be: bool) -> Vec<u8> {
    let e = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = vec![];
    o.extend(e(((t.len() + 4) & 15) as u16));
    o.extend([0xa5; 12]);
    for (c, l) in t {
        o.extend(e((c << (12 - l)) as u16));
    }
    for (_, l) in t {
        o.push(*l as u8);
    }
    o
}
/// None if a difference has no code
pub fn pentax(img: &[u16], w: usize, t: &PTable) -> Option<Vec<u8>> {
    let mut b = Bits::new(false);
    let mut up = [[0i32; 2]; 2];
    for (y, row) in img.chunks(w).enumerate() {
        let mut hp = up[y & 1];
        for (x, v) in row.iter().enumerate() {
            let (s, bits) = category(*v as i32 - hp[x & 1]);
            let (c, l) = *t.get(s as usize)?;
            b.put(c, l);
            b.put(bits, s);
            hp[x & 1] = *v as i32;
            if x < 2 {
                up[y & 1][x] = *v as i32;
            }
        }
    }
    b.flush(0);
    Some(b.buf)
}
