//! C05: the parallel decoders, under a pool whose schedules are enumerated.
#![allow(dead_code)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/asm.rs"]
mod asm;
mod c05;
mod checks;
#[path = "../../harness/src/codec/mod.rs"]
mod codec;
#[path = "../../harness/src/cameras.rs"]
mod cameras;
#[path = "../../harness/src/corpus.rs"]
mod corpus;
#[path = "../../harness/src/obs.rs"]
mod obs;
#[path = "../../harness/src/pool.rs"]
mod pool;
#[path = "../../harness/src/rec.rs"]
mod rec;
#[path = "../../harness/src/report.rs"]
mod report;

#[global_allocator]
static A: alloc::CheckAlloc = alloc::CheckAlloc;

fn main() {
    pool::install_hook();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    std::process::exit(c05::run(thorough))
}
