//! Fujifilm compression, the reverse of the published decoder (LibRaw).
use super::Bits;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Fuji {
    pub xtrans: bool,
    pub bits: u32,
    /// row-major colours of the pattern (0 R, 1 G, 2 B), its width
    pub cfa: Vec<u8>,
    pub cw: usize,
    /// quantization base of each line, lossless otherwise
    pub q: Option<fn(strip: usize, line: usize) -> i32>,
    /// padding after each strip
    pub pad: usize,
}
struct Q {
    base: i32,
    points: [i32; 5],
    max_grad: i32,
    mult: i32,
    raw_bits: u32,
    total: i32,
}
fn log2ceil(v: i32) -> u32 {
    let mut b = 0;
    while (1i64 << b) < v as i64 {
        b += 1;
    }
    b.max(1)
}
impl Q {
    fn new(max: i32, base: i32, points: [i32; 4], max_grad: i32, mult: i32) -> Q {
        let total = (max + 2 * base) / (2 * base + 1) + 1;
        Q {
            base,
            points: [points[0], points[1], points[2], points[3], max],
            max_grad,
            mult,
            raw_bits: log2ceil(total),
            total,
        }
    }
    fn main(max: i32, b: i32) -> Q {
        let mut p = [b, 3 * b + 0x12, 5 * b + 0x43, 7 * b + 0x114];
        if p[1] > max || p[1] < b + 1 {
            p[1] = b + 1;
        }
        for i in 2..4 {
            if p[i] < p[i - 1] || p[i] > max {
                p[i] = p[i - 1];
            }
        }
        Q::new(max, b, p, 0, 9)
    }
    fn level(&self, v: i32) -> i32 {
        let p = &self.points;
        if v <= -p[3] {
            -4
        } else if v <= -p[2] {
            -3
        } else if v <= -p[1] {
            -2
        } else if v < -p[0] {
            -1
        } else if v <= p[0] {
            0
        } else if v < p[1] {
            1
        } else if v < p[2] {
            2
        } else if v < p[3] {
            3
        } else {
            4
        }
    }
    fn grad(&self, a: i32, b: i32) -> i32 {
        self.mult * self.level(a) + self.level(b)
    }
    fn start(&self) -> (i32, i32) {
        (2.max((self.total + 0x20) >> 6), 1)
    }
}
/// 0: interpolated, 1: coded (even positions of the lines of a pass)
type Even = fn(usize) -> bool;
const ALL: Even = |_| true;
const NONE: Even = |_| false;
const NOT4: Even = |p| p & 3 != 0;
const NOT2: Even = |p| p & 3 != 2;
// lines: red 0..5, green 5..13, blue 13..18
const R2: usize = 2;
const G2: usize = 7;
const B2: usize = 15;
/// Lines of the six passes
const PASSES: [[usize; 2]; 6] = [
    [R2, G2],
    [G2 + 1, B2],
    [R2 + 1, G2 + 2],
    [G2 + 3, B2 + 1],
    [R2 + 2, G2 + 4],
    [G2 + 5, B2 + 2],
];
const XT_EVEN: [[Even; 2]; 6] = [
    [NONE, ALL],
    [ALL, NONE],
    [NOT4, NONE],
    [ALL, NOT2],
    [NOT2, ALL],
    [NONE, NOT4],
];

/// What was seen by the encoder
#[derive(Default)]
pub struct Seen(pub HashSet<(u8, bool, i32, u8, u8)>);

struct Strip<'a> {
    f: &'a Fuji,
    max: i32,
    lw: usize,
    line: Vec<Vec<i32>>,
    /// main, then the three of the lossy mode
    q: Vec<Q>,
    /// [even/odd][list][table][gradient]
    g: Vec<Vec<Vec<Vec<(i32, i32)>>>>,
    out: Bits,
    seen: &'a mut Seen,
}
impl Strip<'_> {
    fn sample(&mut self, l: usize, p: usize, list: usize, want: i32) -> i32 {
        let odd = p & 1;
        let a = &self.line;
        let at = |l: usize, d: i32| a[l][(1 + p as i32 + d) as usize];
        let (rb, rc, rd, rf) = (at(l - 1, 0), at(l - 1, -1), at(l - 1, 1), at(l - 2, 0));
        let (ra, rg) = (at(l, -1), at(l, 1));
        let act = if odd == 0 {
            (rf - rb).abs() + (rc - rb).abs()
        } else {
            (rb - rc).abs() + (rc - ra).abs()
        };
        let mut t = 0;
        for i in 1..self.q.len() {
            if self.q[0].base < i as i32 {
                break;
            }
            if act <= self.q[i].max_grad {
                t = i;
                break;
            }
        }
        let q = &self.q[t];
        let grad = if odd == 0 {
            q.grad(rb - rf, rc - rb)
        } else {
            q.grad(rb - rc, rc - ra)
        };
        let pred = if odd == 0 {
            self.interpolate(l, p)
        } else if (rb > rc && rb > rd) || (rb < rc && rb < rd) {
            (rg + ra + 2 * rb) >> 2
        } else {
            (ra + rg) >> 1
        };
        let step = 2 * q.base + 1;
        let s = if grad < 0 { -1 } else { 1 };
        let d = (want - pred) * s;
        let mut code = (d.abs() + q.base) / step * d.signum();
        let fold = |c: i32| if c < 0 { -2 * c - 1 } else { 2 * c };
        let mut wrap = 0;
        if fold(code) >= q.total {
            wrap = 1;
            code -= q.total * code.signum();
        }
        let folded = fold(code);
        assert!(folded >= 0 && folded < q.total, "{folded} {}", q.total);
        let g = &mut self.g[odd][list][t][grad.unsigned_abs() as usize];
        let mut bits = 0;
        while bits < 15 && (g.1 << bits) < g.0 {
            bits += 1;
        }
        let max_bits = 4 * self.f.bits;
        let run = folded >> bits;
        let limit = (max_bits - q.raw_bits - 1) as i32;
        if run < limit {
            self.out.put(1, run as u32 + 1);
            self.out.put(folded as u32 & ((1 << bits) - 1), bits);
        } else {
            self.out.put(1, limit as u32 + 1);
            assert!(folded > 0);
            self.out.put(folded as u32 - 1, q.raw_bits);
            wrap |= 2;
        }
        self.seen
            .0
            .insert((t as u8, odd == 1, grad, bits as u8, wrap | ((code < 0) as u8) << 2));
        g.0 += code.abs();
        if g.1 == 0x40 {
            g.0 >>= 1;
            g.1 >>= 1;
        }
        g.1 += 1;
        let mut v = pred + code * step * s;
        if v < -q.base {
            v += q.total * step;
        } else if v > q.base + self.max {
            v -= q.total * step;
        }
        let v = v.clamp(0, self.max);
        assert!((v - want).abs() <= q.base, "{v} for {want}, q {}", q.base);
        v
    }
    fn interpolate(&self, l: usize, p: usize) -> i32 {
        let a = &self.line;
        let (rb, rc, rd, rf) = (a[l - 1][1 + p], a[l - 1][p], a[l - 1][2 + p], a[l - 2][1 + p]);
        let (dc, df, dd) = ((rc - rb).abs(), (rf - rb).abs(), (rd - rb).abs());
        (2 * rb
            + if dc > df && dc > dd {
                rf + rd
            } else if dd > dc && dd > df {
                rf + rc
            } else {
                rd + rc
            })
            >> 2
    }
    fn extend(&mut self, from: usize, n: usize) {
        for i in from..from + n {
            self.line[i][0] = self.line[i - 1][1];
            self.line[i][self.lw + 1] = self.line[i - 1][self.lw];
        }
    }
    fn reset_main(&mut self, q: i32) {
        self.q[0] = Q::main(self.max, q);
        for o in 0..2 {
            for l in 0..3 {
                self.g[o][l][0] = vec![self.q[0].start(); 41];
            }
        }
    }
}

impl Fuji {
    fn slot(&self, x: usize) -> usize {
        if !self.xtrans {
            return x / 2;
        }
        // three pixels take two positions, as the last two aren't in the same line
        x / 3 * 2 + (x % 3).min(1)
    }
    /// line and position of a pixel within a group of six rows
    fn place(&self, x: usize, y: usize) -> (usize, usize) {
        let ch = self.cfa.len() / self.cw;
        let l = match self.cfa[(y % ch) * self.cw + x % self.cw] {
            0 => R2 + y / 2,
            1 => G2 + y,
            _ => B2 + y / 2,
        };
        let p = self.slot(x);
        (l, p)
    }
    /// Returns the data and the pixels to find.
    pub fn encode(&self, img: &[u16], w: usize, seen: &mut Seen) -> (Vec<u8>, Vec<u16>) {
        let h = img.len() / w;
        let strips = (w + 767) / 768;
        let lines = h / 6;
        let max = (1i32 << self.bits) - 1;
        let mut out = img.to_vec();
        let mut parts = vec![];
        for n in 0..strips {
            let lw = if self.xtrans { 512 } else { 384 };
            let sw = 768.min(w - n * 768);
            let mut s = Strip {
                f: self,
                max,
                lw,
                line: vec![vec![0; lw + 2]; 18],
                q: vec![Q::main(max, 0)],
                g: vec![vec![vec![]; 3]; 2],
                out: Bits::new(false),
                seen,
            };
            if self.q.is_some() {
                for (b, p) in [(0, [0, 0x12, 0x43, 0x114]), (1, [1, 0x15, 0x48, 0x11b]), (2, [2, 0x18, 0x4d, 0x122])] {
                    s.q.push(Q::new(max, b, p, 5 + b, 3));
                }
            }
            for o in 0..2 {
                for l in 0..3 {
                    s.g[o][l] = s.q.iter().map(|q| vec![q.start(); if q.mult == 9 { 41 } else { 13 }]).collect();
                }
            }
            let mut last = None;
            for y6 in 0..lines {
                if let Some(q) = self.q {
                    let q = q(n, y6);
                    if last != Some(q) {
                        s.reset_main(q);
                        last = Some(q);
                    }
                }
                // pixels to positions
                let mut want = vec![vec![None; lw]; 18];
                for y in 0..6 {
                    for x in 0..sw {
                        let (l, p) = self.place(x, y);
                        assert!(want[l][p].is_none(), "two pixels at {l},{p}");
                        want[l][p] = Some(img[(y6 * 6 + y) * w + n * 768 + x] as i32);
                    }
                }
                for (i, ls) in PASSES.iter().enumerate() {
                    let (mut even, mut odd) = (0, 1);
                    while even < lw || odd < lw {
                        if even < lw {
                            for (k, l) in ls.iter().enumerate() {
                                let coded = !self.xtrans || XT_EVEN[i][k](even);
                                let v = if coded {
                                    // beyond the image: anything
                                    let t = want[*l][even];
                                    assert!(t.is_some() || even >= sw * lw / 768, "no pixel at {l},{even}");
                                    let t = t.unwrap_or_else(|| s.interpolate(*l, even));
                                    s.sample(*l, even, i % 3, t)
                                } else {
                                    assert!(want[*l][even].is_none(), "pixel at {l},{even}");
                                    s.interpolate(*l, even)
                                };
                                s.line[*l][1 + even] = v;
                            }
                            even += 2;
                        }
                        if even > 8 {
                            for l in ls {
                                let t = want[*l][odd];
                                assert!(t.is_some() || odd >= sw * lw / 768, "no pixel at {l},{odd}");
                                let t = t.unwrap_or(s.line[*l - 1][1 + odd]);
                                let v = s.sample(*l, odd, i % 3, t);
                                s.line[*l][1 + odd] = v;
                            }
                            odd += 2;
                        }
                    }
                    if i % 2 == 0 {
                        s.extend(R2, 3);
                    }
                    s.extend(G2, 6);
                    if i % 2 == 1 {
                        s.extend(B2, 3);
                    }
                }
                for y in 0..6 {
                    for x in 0..sw {
                        let (l, p) = self.place(x, y);
                        out[(y6 * 6 + y) * w + n * 768 + x] = s.line[l][1 + p] as u16;
                    }
                }
                for (a, b) in [(0, 3), (1, 4), (5, 11), (6, 12), (13, 16), (14, 17)] {
                    s.line[a] = s.line[b].clone();
                }
                for (a, k) in [(R2, 3), (G2, 6), (B2, 3)] {
                    for l in a..a + k {
                        s.line[l] = vec![0; lw + 2];
                    }
                    s.extend(a, 1);
                }
            }
            s.out.flush(0);
            let mut d = s.out.buf;
            d.resize(d.len() + self.pad, 0);
            parts.push(d);
        }
        let mut o = vec![0x49, 0x53, self.q.is_none() as u8, if self.xtrans { 16 } else { 0 }, self.bits as u8];
        for v in [h, strips * 768, w, 768] {
            o.extend((v as u16).to_be_bytes());
        }
        o.push(strips as u8);
        o.extend((lines as u16).to_be_bytes());
        assert_eq!(o.len(), 16);
        for p in &parts {
            o.extend((p.len() as u32).to_be_bytes());
        }
        while o.len() % 16 != 0 {
            o.push(0);
        }
        if let Some(q) = self.q {
            for n in 0..strips {
                for l in 0..(lines + 15) / 16 * 16 {
                    o.push(if l < lines { q(n, l) as u8 } else { 0 });
                }
            }
        }
        for p in parts {
            o.extend(p);
        }
        (o, out)
    }
}
