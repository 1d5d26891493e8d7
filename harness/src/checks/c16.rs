//! C16: any single corrupted field.
use super::robust::{put, query, samples_all, values};
use crate::obs::alphabet;
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use std::time::Duration;

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C16", "model_checking", thorough);
    ctx.rule = "every (sample file, header/directory/marker field, boundary value): every query of the alphabet on a fresh handle returns within the time and memory bound, without panic, abort, overrun or stack overflow".into();
    ctx.assumptions.push("one field at a time; files of the synthetic corpus; memory bound 256 MiB for files of a few KiB".into());
    let ss = samples_all(24, 18, thorough);
    let ops = alphabet();
    let mut cases: Vec<(usize, usize, Vec<u64>)> = vec![];
    for (si, s) in ss.iter().enumerate() {
        for fi in 0..s.fields.len() {
            cases.push((si, fi, values(&s.data, &s.fields[fi])));
        }
    }
    let opts = Opts {
        hang: Duration::from_secs(30),
        mem: Some(256 << 20),
        ..Opts::default()
    };
    // one case per (field, value)
    let flat: Vec<(usize, usize, u64)> = cases
        .iter()
        .flat_map(|(s, f, v)| v.iter().map(move |v| (*s, *f, *v)))
        .collect();
    let name = |i: u64| {
        let (s, f, v) = flat[i as usize];
        format!(
            "{}:{}@{:#x}={:#x}",
            ss[s].name, ss[s].fields[f].name, ss[s].fields[f].off, v
        )
    };
    par(
        &mut ctx,
        "samples x fields x values",
        flat.len() as u64,
        64,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let (s, f, v) = flat[i as usize];
            let s = &ss[s];
            let mut d = s.data.clone();
            put(&mut d, &s.fields[f], v);
            for op in &ops {
                match query(&d, s.ext, op) {
                    Ok(o) => r.trace(1, &o),
                    Err(m) => r.bad(format!("{}:{op:?}", name(i)), format!("panic: {m}")),
                }
            }
        },
    );
    if thorough {
        // every byte of every file, every value
        let opts = Opts {
            hang: Duration::from_secs(60),
            mem: Some(256 << 20),
            ..Opts::default()
        };
        let flat: Vec<(usize, usize)> = ss
            .iter()
            .enumerate()
            .flat_map(|(i, s)| (0..s.data.len().min(4200)).map(move |o| (i, o)))
            .collect();
        let name = |i: u64| {
            format!(
                "{}:byte@{:#x}",
                ss[flat[i as usize].0].name, flat[i as usize].1
            )
        };
        par(
            &mut ctx,
            "samples x byte offsets (256 values each)",
            flat.len() as u64,
            1,
            &opts,
            &name,
            &|i, r: &mut Rec| {
                let (s, o) = flat[i as usize];
                let s = &ss[s];
                let mut d = s.data.clone();
                for v in 0..=255u8 {
                    d[o] = v;
                    for op in &ops {
                        match query(&d, s.ext, op) {
                            Ok(o) => r.trace(1, &o),
                            Err(m) => r.bad(
                                format!("{}:byte@{o:#x}={v:#x}:{op:?}", s.name),
                                format!("panic: {m}"),
                            ),
                        }
                    }
                }
            },
        );
    }
    ctx.sample(format!(
        "{} files, {} single-field corruptions",
        ss.len(),
        flat.len()
    ));
    ctx.finish()
}
