//! C11: every answer is independent of the calls made before it.
use super::robust::{open, query, samples, S};
use crate::obs::{alphabet, diff, observe, Op};
use crate::pool::{self, Opts};
use crate::rec::{compute, pack, par, unpack, Rec};
use crate::report::Ctx;
use std::time::Duration;

/// Besides the intact files: the same files damaged so that some queries
/// fail, as failures must not be remembered wrongly either.
fn variants(full: bool) -> Vec<S> {
    let mut v = vec![];
    for s in samples(24, 18, full) {
        let n = s.data.len();
        let mut cuts = vec![n / 4, n / 2, n * 3 / 4, n - 3];
        if !full {
            cuts = vec![n / 2, n - 3];
        }
        for c in cuts {
            v.push(S {
                name: format!("{}[..{c}]", s.name),
                ext: s.ext,
                data: s.data[..c].to_vec(),
                fields: vec![],
                labels: Default::default(),
            });
        }
        v.push(s);
    }
    v
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C11", "model_checking", thorough);
    ctx.rule = "every call sequence up to the depth on one handle: each call's complete answer equals the answer the same call gives as the first call on a fresh handle".into();
    ctx.assumptions.push(
        "the reference is the first-call answer; queries only (the API has no mutators on a file)"
            .into(),
    );
    let mut ops = alphabet();
    ops.push(Op::Value("Exif.Photo.DateTimeOriginal"));
    ops.push(Op::Value("Exif.Image.NoSuchKey"));
    let ss = variants(thorough);
    // reference answers
    let no = ops.len() as u64;
    let mut flat = compute(ss.len() as u64 * no, &|i| {
        let s = &ss[(i / no) as usize];
        pack(query(&s.data, s.ext, &ops[(i % no) as usize]))
    })
    .into_iter();
    let reference: Vec<Vec<Result<Vec<u8>, String>>> = ss
        .iter()
        .map(|_| ops.iter().map(|_| unpack(flat.next().unwrap())).collect())
        .collect();
    // one case: (file, first two calls); all continuations inside
    let n = ss.len() as u64 * no * no;
    let name = |i: u64| {
        let s = &ss[(i / (no * no)) as usize];
        format!(
            "{}:{:?},{:?}",
            s.name,
            ops[(i / no % no) as usize],
            ops[(i % no) as usize]
        )
    };
    let opts = Opts {
        hang: Duration::from_secs(60),
        ..Opts::default()
    };
    let deep = thorough;
    par(
        &mut ctx,
        if deep {
            "files x call sequences of length 4"
        } else {
            "files x call sequences of length 3"
        },
        n,
        4,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let fi = (i / (no * no)) as usize;
            let s = &ss[fi];
            let refs = &reference[fi];
            let (a, b) = ((i / no % no) as usize, (i % no) as usize);
            let go = |seq: &[usize], from: usize, r: &mut Rec| {
                let f = match open(&s.data, s.ext) {
                    Ok(f) => f,
                    Err(_) => return,
                };
                let mut st = 0u64;
                for (k, o) in seq.iter().enumerate() {
                    let got = pool::catch(|| observe(&f, &ops[*o]));
                    if got != refs[*o] {
                        let calls: Vec<_> =
                            seq[..=k].iter().map(|o| format!("{:?}", ops[*o])).collect();
                        r.bad(
                            format!("{}:{}", s.name, calls.join(",")),
                            match (&got, &refs[*o]) {
                                (Ok(g), Ok(w)) => diff(g, w),
                                (g, w) => format!(
                                    "got {:?} want {:?}",
                                    g.as_ref().err(),
                                    w.as_ref().err()
                                ),
                            },
                        );
                        return;
                    }
                    if k >= from {
                        st = st.wrapping_mul(31).wrapping_add(*o as u64 + 1);
                    }
                }
                r.traces += 1;
                r.transitions += seq.len() as u64;
                r.states
                    .insert(st ^ (fi as u64) << 40 ^ (a * 64 + b) as u64);
            };
            for c in 0..ops.len() {
                if deep {
                    for d in 0..ops.len() {
                        go(&[a, b, c, d], 2, r);
                    }
                } else {
                    go(&[a, b, c], 2, r);
                }
            }
        },
    );
    // every call twice over the whole alphabet, both directions
    for s in &ss {
        ctx.sample(s.name.clone());
    }
    let nf = ss.len() as u64;
    par(
        &mut ctx,
        "files x long histories (whole alphabet from each start, forwards, backwards, repeated)",
        nf * no * 2,
        8,
        &opts,
        &|i| {
            format!(
                "{}:cycle {} {}",
                ss[(i / (no * 2)) as usize].name,
                i / 2 % no,
                i % 2
            )
        },
        &|i, r: &mut Rec| {
            let fi = (i / (no * 2)) as usize;
            let s = &ss[fi];
            let f = match open(&s.data, s.ext) {
                Ok(f) => f,
                Err(_) => return,
            };
            let start = (i / 2 % no) as usize;
            for k in 0..2 * ops.len() {
                let o = if i % 2 == 0 {
                    (start + k) % ops.len()
                } else {
                    (start + 4 * ops.len() - k) % ops.len()
                };
                let got = pool::catch(|| observe(&f, &ops[o]));
                if got != reference[fi][o] {
                    r.bad(
                        format!("{}:cycle{start},{}:{:?}", s.name, i % 2, ops[o]),
                        "answer differs from the first-call answer",
                    );
                }
                r.transitions += 1;
            }
            r.traces += 1;
        },
    );
    ctx.finish()
}
