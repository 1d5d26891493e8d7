//! C13: chopped and interrupted reads are invisible.
use super::robust::{hint, samples};
use crate::obs::{alphabet, diff, observe, Op};
use crate::pool::{self, Opts};
use crate::rec::{par, Rec};
use crate::report::Ctx;
use crate::stream::{Dev, Flaky, Plan, DEVS};
use libopenraw::{rawfile_from_io, Type};
use std::rc::Rc;
use std::time::Duration;

/// The answer of `op` on a file opened over such a stream.
pub fn ask(
    data: &Rc<Vec<u8>>,
    h: Option<Type>,
    op: &Op,
    plan: &Rc<Plan>,
) -> Result<Vec<u8>, String> {
    pool::catch(
        || match rawfile_from_io(Flaky::new(data.clone(), plan.clone()), h) {
            Ok(f) => observe(&f, op),
            Err(e) => crate::obs::err(&e).into_bytes(),
        },
    )
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C13", "model_checking", thorough);
    ctx.rule = "every (file, query, read index, deviation): the complete answer over the deviating stream equals the answer over a stream that delivers every read in full".into();
    ctx.assumptions.push("deviations at one read (two reads in thorough) or at every read; the stream returns the right bytes".into());
    let ss = samples(24, 18, thorough);
    let ops = alphabet();
    let no = ops.len() as u64;
    let opts = Opts {
        hang: Duration::from_secs(if thorough { 600 } else { 60 }),
        ..Opts::default()
    };
    let name = |i: u64| {
        format!(
            "{}:{:?}:{}",
            ss[(i / 2 / no) as usize].name,
            ops[(i / 2 % no) as usize],
            if i % 2 == 0 { "content" } else { "hint" }
        )
    };
    for s in &ss {
        ctx.sample(s.name.clone());
    }
    par(
        &mut ctx,
        if thorough {
            "files x queries x {by content, by hint}; inside: all single and all pairs of deviations"
        } else {
            "files x queries x {by content, by hint}; inside: all single deviations, and every read deviating"
        },
        ss.len() as u64 * no * 2,
        1,
        &opts,
        &name,
        &|i, r: &mut Rec| {
            let s = &ss[(i / 2 / no) as usize];
            let op = &ops[(i / 2 % no) as usize];
            let h = if i % 2 == 0 { None } else { Some(hint(s.ext)) };
            let data = Rc::new(s.data.clone());
            let p0 = Rc::new(Plan::default());
            let want = ask(&data, h, op, &p0);
            let n = p0.reads.get();
            let go = |plan: Plan, key: &str, r: &mut Rec| {
                let plan = Rc::new(plan);
                let got = ask(&data, h, op, &plan);
                if plan.hits.get() == 0 {
                    r.bad(format!("{}:{key}", name(i)), "the run did not reach the deviation: the library reads differently from run to run");
                }
                r.traces += 1;
                r.transitions += plan.ops.get();
                if let Ok(g) = &got {
                    r.states.insert(crate::report::hash(g) ^ i);
                }
                if got != want {
                    r.bad(
                        format!("{}:{key}", name(i)),
                        match (&got, &want) {
                            (Ok(g), Ok(w)) => diff(g, w),
                            (g, w) => {
                                format!("got {:?} want {:?}", g.as_ref().err(), w.as_ref().err())
                            }
                        },
                    );
                }
            };
            if n == 0 {
                return;
            }
            for d in DEVS {
                go(
                    Plan {
                        always: Some(d),
                        ..Plan::default()
                    },
                    &format!("all={d:?}"),
                    r,
                );
                for k in 0..n {
                    go(
                        Plan {
                            devs: vec![(k, d)],
                            ..Plan::default()
                        },
                        &format!("{k}={d:?}"),
                        r,
                    );
                }
            }
            if thorough && i % 2 == 0 {
                for k in 0..n {
                    for l in k + 1..(n + 1).min(k + 400) {
                        for (a, b) in [
                            (Dev::One, Dev::One),
                            (Dev::One, Dev::Intr),
                            (Dev::Intr, Dev::One),
                            (Dev::Intr, Dev::Intr),
                        ] {
                            go(
                                Plan {
                                    devs: vec![(k, a), (l, b)],
                                    ..Plan::default()
                                },
                                &format!("{k}={a:?},{l}={b:?}"),
                                r,
                            );
                        }
                    }
                }
            }
        },
    );
    ctx.finish()
}
