//! Enumerating a space of cases over worker processes and judging each.
use crate::pool::{self, Opts, Status};
use crate::report::{hash, Ctx};
use std::collections::HashSet;

/// What one case (or chunk of cases) found.
#[derive(Default)]
pub struct Rec {
    pub traces: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub viol: Vec<(String, String)>,
}

impl Rec {
    /// one judged execution of `n` steps with outcome `o`
    pub fn trace(&mut self, n: u64, o: &[u8]) {
        self.traces += 1;
        self.transitions += n;
        self.states.insert(hash(o));
    }
    pub fn state(&mut self, o: &[u8]) {
        self.states.insert(hash(o));
    }
    pub fn bad(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 200 {
            self.viol.push((key.into(), detail.into()));
        }
    }
    /// compare and record
    pub fn eq(&mut self, key: &str, got: &[u8], want: &[u8]) -> bool {
        self.trace(1, got);
        if got != want {
            self.bad(key, crate::obs::diff(got, want));
            return false;
        }
        true
    }
    fn ser(&self) -> Vec<u8> {
        let mut o = vec![];
        o.extend_from_slice(&self.traces.to_le_bytes());
        o.extend_from_slice(&self.transitions.to_le_bytes());
        o.extend_from_slice(&(self.states.len() as u64).to_le_bytes());
        for s in &self.states {
            o.extend_from_slice(&s.to_le_bytes());
        }
        for (k, d) in &self.viol {
            for s in [k, d] {
                o.extend_from_slice(&(s.len() as u64).to_le_bytes());
                o.extend_from_slice(s.as_bytes());
            }
        }
        o
    }
    fn de(b: &[u8]) -> Rec {
        let mut r = Rec::default();
        let u = |p: &mut usize| {
            let v = u64::from_le_bytes(b[*p..*p + 8].try_into().unwrap());
            *p += 8;
            v
        };
        let mut p = 0;
        r.traces = u(&mut p);
        r.transitions = u(&mut p);
        let n = u(&mut p);
        for _ in 0..n {
            let v = u(&mut p);
            r.states.insert(v);
        }
        while p < b.len() {
            let mut s = vec![];
            for _ in 0..2 {
                let l = u(&mut p) as usize;
                s.push(String::from_utf8_lossy(&b[p..p + l]).into_owned());
                p += l;
            }
            let d = s.pop().unwrap();
            r.viol.push((s.pop().unwrap(), d));
        }
        r
    }
    fn into_ctx(self, ctx: &mut Ctx) {
        ctx.traces += self.traces;
        ctx.transitions += self.transitions;
        ctx.states.extend(self.states);
        for (k, d) in self.viol {
            ctx.violation(k, d);
        }
    }
}

/// Run every case of 0..n, in worker processes, `chunk` at a time. A panic,
/// crash or hang is a violation keyed by the case's name.
pub fn par(
    ctx: &mut Ctx,
    space: &str,
    n: u64,
    chunk: u64,
    opts: &Opts,
    name: &dyn Fn(u64) -> String,
    f: &dyn Fn(u64, &mut Rec),
) {
    let only = std::env::var("ORVERIF_ONLY")
        .ok()
        .map(|s| s.replace(' ', "_"));
    let one = |i: u64, r: &mut Rec| {
        if let Some(o) = &only {
            let n = name(i).replace(' ', "_");
            // a key, or ~ and a part of the names
            if !o.strip_prefix('~').map_or_else(|| o.contains(&n), |p| n.contains(p)) {
                return;
            }
        }
        if let Err(m) = pool::catch(|| f(i, r)) {
            r.bad(format!("{}!panic", name(i)), format!("panic: {m}"));
        }
    };
    let nch = (n + chunk - 1) / chunk;
    let mut redo: Vec<u64> = vec![];
    let done = pool::run(
        nch,
        opts,
        &|c| {
            let mut r = Rec::default();
            for i in c * chunk..((c + 1) * chunk).min(n) {
                one(i, &mut r);
            }
            r.ser()
        },
        |c, st, data| match st {
            Status::Ok => Rec::de(&data).into_ctx(ctx),
            _ if chunk > 1 => redo.push(c),
            s => ctx.violation(format!("{}!dead", name(c)), format!("{s:?}")),
        },
    );
    if done < nch {
        ctx.exhaustive = false;
    }
    let cases: Vec<u64> = redo
        .iter()
        .flat_map(|c| c * chunk..((c + 1) * chunk).min(n))
        .collect();
    pool::run(
        cases.len() as u64,
        opts,
        &|c| {
            let mut r = Rec::default();
            one(cases[c as usize], &mut r);
            r.ser()
        },
        |c, st, data| match st {
            Status::Ok => Rec::de(&data).into_ctx(ctx),
            s => ctx.violation(
                format!("{}!dead", name(cases[c as usize])),
                format!("{s:?}"),
            ),
        },
    );
    ctx.space(space, n);
}

/// Reference results, each computed in a worker process: the parent never runs
/// library code, as a thread pool started here would be dead in forked workers.
/// `None` when the computation died.
pub fn compute(n: u64, f: &dyn Fn(u64) -> Vec<u8>) -> Vec<Option<Vec<u8>>> {
    let mut out = vec![None; n as usize];
    pool::run(n, &Opts::default(), f, |i, st, d| {
        if st.is_ok() {
            out[i as usize] = Some(d);
        }
    });
    out
}

/// `Result<Vec<u8>, String>` over a byte pipe
pub fn pack(r: Result<Vec<u8>, String>) -> Vec<u8> {
    match r {
        Ok(mut v) => {
            v.push(0);
            v
        }
        Err(e) => {
            let mut v = e.into_bytes();
            v.push(1);
            v
        }
    }
}
pub fn unpack(d: Option<Vec<u8>>) -> Result<Vec<u8>, String> {
    match d {
        None => Err("the computation died".into()),
        Some(mut v) => match v.pop() {
            Some(0) => Ok(v),
            _ => Err(String::from_utf8_lossy(&v).into_owned()),
        },
    }
}

/// Mixed-radix index decoder.
pub struct Mix(pub u64);
impl Mix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.take(v.len())]
    }
}

/// deterministic noise
pub fn noise(seed: u64) -> impl FnMut() -> u32 {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 20) as u32
    }
}

/// Image contents: 0 flat, 1 ramp, 2 extremes alternating, 3 noise, 4 columns, 5 diagonal small noise
pub const PATTERNS: usize = 6;
pub fn image(kind: usize, w: usize, h: usize, bits: u32) -> Vec<u16> {
    let max = ((1u32 << bits) - 1) as u32;
    let mut rnd = noise(kind as u64 * 7919 + w as u64 * 31 + h as u64 + bits as u64);
    let mut o = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let r = rnd();
            let v = match kind {
                0 => max / 3,
                1 => ((y * w + x) as u32).wrapping_mul(37) & max,
                2 => {
                    if (x + y) % 2 == 0 {
                        0
                    } else {
                        max
                    }
                }
                3 => r & max,
                4 => {
                    if x % 3 == 0 {
                        max
                    } else {
                        x as u32 & max
                    }
                }
                _ => (max / 2).wrapping_add((x + y) as u32).wrapping_add(r & 7) & max,
            };
            o.push(v as u16);
        }
    }
    o
}
