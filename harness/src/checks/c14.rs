//! C14: a failing stream; C15: a truncated file.
use super::c13::ask;
use super::robust::{hint, prefixes, query, samples, S};
use crate::judge::Refs;
use crate::obs::{alphabet, Op};
use crate::pool::Opts;
use crate::rec::{compute, pack, par, unpack, Rec};
use crate::report::{hash, Ctx};
use crate::stream::Plan;
use std::rc::Rc;
use std::time::Duration;

pub fn refs(ss: &[S], ops: &[Op]) -> Vec<Refs> {
    let no = ops.len() as u64;
    let mut flat = compute(ss.len() as u64 * no, &|i| {
        let s = &ss[(i / no) as usize];
        pack(query(&s.data, s.ext, &ops[(i % no) as usize]))
    })
    .into_iter();
    ss.iter()
        .map(|s| Refs {
            extra: if s.ext == "arw" {
                vec!["126".into()]
            } else {
                vec![]
            },
            ops: ops.to_vec(),
            ans: ops
                .iter()
                .map(|_| {
                    unpack(flat.next().unwrap()).unwrap_or_else(|e| format!("E:{e}").into_bytes())
                })
                .collect(),
        })
        .collect()
}

pub fn full_ops() -> Vec<Op> {
    let mut ops = alphabet();
    ops.push(Op::Value("Exif.Photo.DateTimeOriginal"));
    ops
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C14", "model_checking", thorough);
    ctx.rule = "every (file, query, stream operation index, once or from then on): the query ends without panic and its answer is an error, absence, or drawn from the undisturbed answer; the next handle over the working stream answers as ever".into();
    ctx.assumptions.push("the failing operation returns an I/O error of kind Other; documented defaults (levels, whole-image areas) stand for absent values; text dumps are only required to terminate".into());
    let ss = samples(24, 18, thorough);
    let ops = full_ops();
    let rf = refs(&ss, &ops);
    let no = ops.len() as u64;
    let opts = Opts {
        hang: Duration::from_secs(120),
        ..Opts::default()
    };
    let name = |i: u64| {
        format!(
            "{}:{:?}:{}",
            ss[(i / 2 / no) as usize].name,
            ops[(i / 2 % no) as usize],
            if i % 2 == 0 { "content" } else { "hint" }
        )
    };
    for s in &ss {
        ctx.sample(s.name.clone());
    }
    par(
        &mut ctx,
        "files x queries x {by content, by hint}; inside: every stream operation failing once / from then on",
        ss.len() as u64 * no * 2,
        1,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let si = (i / 2 / no) as usize;
            let s = &ss[si];
            let op = &ops[(i / 2 % no) as usize];
            let h = if i % 2 == 0 { None } else { Some(hint(s.ext)) };
            let data = Rc::new(s.data.clone());
            let p0 = Rc::new(Plan::default());
            let base = ask(&data, h, op, &p0);
            let n = p0.ops.get();
            for sticky in [false, true] {
                for k in 0..n {
                    let plan = Rc::new(Plan {
                        fail: Some((k, sticky)),
                        ..Plan::default()
                    });
                    let key = || format!("{}:{}{k}", name(i), if sticky { "from" } else { "op" });
                    match ask(&data, h, op, &plan) {
                        Err(m) => r.bad(key(), format!("panic: {m}")),
                        Ok(got) => {
                            r.traces += 1;
                            r.transitions += plan.ops.get();
                            r.states.insert(hash(&got) ^ i);
                            if plan.hits.get() == 0 {
                                r.bad(key(), "the run did not reach the failing operation");
                            }
                            if let Err(e) = rf[si].judge(op, &got, false) {
                                r.bad(key(), e);
                            }
                        }
                    }
                }
            }
            // the stream works again
            if ask(&data, h, op, &Rc::new(Plan::default())) != base {
                r.bad(format!("{}:after", name(i)), "a new handle answers differently after failures");
            }
        },
    );
    ctx.finish()
}

pub fn run15(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C15", "model_checking", thorough);
    ctx.rule = "every (file, prefix length, query): the query on the prefix ends without panic and its answer is an error, absence, the whole file's, or made of the whole file's data with what is missing left out, cut or zero".into();
    ctx.assumptions.push(
        "documented defaults stand for absent values; text dumps are only required to terminate"
            .into(),
    );
    let ss = samples(24, 18, thorough);
    let ops = full_ops();
    let rf = refs(&ss, &ops);
    let mut flat: Vec<(usize, usize)> = vec![];
    for (i, s) in ss.iter().enumerate() {
        for n in prefixes(s, thorough) {
            flat.push((i, n));
        }
    }
    let name = |i: u64| {
        let (s, n) = flat[i as usize];
        format!("{}[..{n}]", ss[s].name)
    };
    let opts = Opts {
        hang: Duration::from_secs(60),
        mem: Some(256 << 20),
        ..Opts::default()
    };
    for s in &ss {
        ctx.sample(format!("{} ({} bytes)", s.name, s.data.len()));
    }
    par(
        &mut ctx,
        "files x prefix lengths",
        flat.len() as u64,
        64,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (si, n) = flat[i as usize];
            let s = &ss[si];
            for op in &ops {
                match query(&s.data[..n], s.ext, op) {
                    Err(m) => r.bad(format!("{}:{op:?}", name(i)), format!("panic: {m}")),
                    Ok(got) => {
                        r.trace(1, &got);
                        // the packing of such a file is told by the file's length alone
                        if s.name == "rw2" && matches!(op, Op::Raw(_) | Op::Render(_)) {
                            continue;
                        }
                        if let Err(e) = rf[si].judge(op, &got, true) {
                            r.bad(format!("{}:{op:?}", name(i)), e);
                        }
                    }
                }
            }
        },
    );
    ctx.finish()
}
