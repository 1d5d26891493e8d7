//! C18: results depend on the file's bytes alone: every case of the truncation,
//! corruption and stream-failure spaces is run twice in one process, with
//! fresh memory filled with different patterns, and must answer the same.
use super::c13::ask;
use super::robust::{prefixes, hint, put, query, samples, values};
use crate::alloc::set_fill;
use crate::obs::{alphabet, diff, Op};
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use crate::stream::{Dev, Plan};
use std::rc::Rc;
use std::time::Duration;

const FILLS: [u8; 2] = [0xa5, 0x3c];

/// Run twice under the two fills; None if the case panics (other checks judge that).
fn twice(
    key: &dyn Fn() -> String,
    r: &mut Rec,
    f: &dyn Fn() -> Result<Vec<u8>, String>,
) -> Option<Vec<u8>> {
    set_fill(Some(FILLS[0]));
    let a = f();
    set_fill(Some(FILLS[1]));
    let b = f();
    set_fill(None);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            r.trace(2, &a);
            if a != b {
                r.bad(key(), format!("two runs differ: {}", diff(&b, &a)));
            }
            Some(a)
        }
        (Err(_), Err(_)) => None,
        _ => {
            r.bad(key(), "one of two runs panics");
            None
        }
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C18", "model_checking", thorough);
    ctx.rule = "every (file, damage, query) of the truncation, field-corruption, stream-failure and stream-chopping spaces gives the same complete answer in two runs with differently filled fresh memory".into();
    ctx.assumptions.push("uninitialised memory shows as a difference under two fill patterns of the allocator; stack memory is only reachable from safe code".into());
    let ss = samples(24, 18, thorough);
    let ops: Vec<Op> = alphabet()
        .into_iter()
        .filter(|o| {
            !matches!(
                o,
                Op::Mime | Op::Vendor | Op::Type | Op::Illum(_) | Op::Sizes
            )
        })
        .collect();
    let opts = Opts {
        hang: Duration::from_secs(60),
        mem: Some(512 << 20),
        ..Opts::default()
    };
    // truncation
    let flat: Vec<(usize, usize)> = ss
        .iter()
        .enumerate()
        .flat_map(|(i, s)| {
            let mut p = prefixes(s, thorough);
            p.push(s.data.len());
            p.into_iter().map(move |n| (i, n))
        })
        .collect();
    par(
        &mut ctx,
        "files x prefix lengths (whole file included)",
        flat.len() as u64,
        64,
        &opts,
        &|i| format!("{}[..{}]", ss[flat[i as usize].0].name, flat[i as usize].1),
        &|i, r: &mut Rec| {
            let (s, n) = flat[i as usize];
            let s = &ss[s];
            for op in &ops {
                twice(&|| format!("{}[..{n}]:{op:?}", s.name), r, &|| {
                    query(&s.data[..n], s.ext, op)
                });
            }
        },
    );
    // corruption
    let flat: Vec<(usize, usize, u64)> = ss
        .iter()
        .enumerate()
        .flat_map(|(si, s)| {
            (0..s.fields.len()).flat_map(move |f| {
                values(&s.data, &s.fields[f])
                    .into_iter()
                    .map(move |v| (si, f, v))
            })
        })
        .collect();
    let name = |i: u64| {
        let (s, f, v) = flat[i as usize];
        format!(
            "{}:{}@{:#x}={:#x}",
            ss[s].name, ss[s].fields[f].name, ss[s].fields[f].off, v
        )
    };
    // in quick, queries that share their code with another one are left out
    let ops2: Vec<Op> = if thorough {
        ops.clone()
    } else {
        ops.iter()
            .copied()
            .filter(|o| {
                !matches!(
                    o,
                    Op::TypeId
                        | Op::MetaFirst
                        | Op::Orient
                        | Op::Value(_)
                        | Op::Thumb(1)
                        | Op::Thumb(160)
                        | Op::Matrix(2)
                        | Op::Builtin
                )
            })
            .collect()
    };
    par(
        &mut ctx,
        "samples x fields x values",
        flat.len() as u64,
        64,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (s, f, v) = flat[i as usize];
            let s = &ss[s];
            let mut d = s.data.clone();
            put(&mut d, &s.fields[f], v);
            for op in &ops2 {
                twice(&|| format!("{}:{op:?}", name(i)), r, &|| {
                    query(&d, s.ext, op)
                });
            }
        },
    );
    // streams
    let no = ops.len() as u64;
    let name = |i: u64| {
        format!(
            "{}:{:?}",
            ss[(i / no) as usize].name,
            ops[(i % no) as usize]
        )
    };
    par(
        &mut ctx,
        "files x queries; inside: every stream operation failing once / from then on, every read cut to one byte / to half",
        ss.len() as u64 * no,
        1,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let s = &ss[(i / no) as usize];
            let op = &ops[(i % no) as usize];
            let h = Some(hint(s.ext));
            let data = Rc::new(s.data.clone());
            let p0 = Rc::new(Plan::default());
            let _ = ask(&data, h, op, &p0);
            for k in 0..p0.ops.get() {
                for sticky in [false, true] {
                    twice(&|| format!("{}:{}{k}", name(i), if sticky { "from" } else { "op" }), r, &|| {
                        ask(&data, h, op, &Rc::new(Plan {
                            fail: Some((k, sticky)),
                            ..Plan::default()
                        }))
                    });
                }
            }
            for k in 0..p0.reads.get() {
                for d in [Dev::One, Dev::Half] {
                    twice(&|| format!("{}:read{k}{d:?}", name(i)), r, &|| {
                        ask(&data, h, op, &Rc::new(Plan {
                            devs: vec![(k, d)],
                            ..Plan::default()
                        }))
                    });
                }
            }
        },
    );
    ctx.sample(format!(
        "{} files, {} single-field corruptions",
        ss.len(),
        flat.len()
    ));
    ctx.finish()
}
