//! The interface of rayon-core, where the scheduler is a controlled one: see
//! `explore`. Outside of an exploration everything runs in order on the
//! calling thread.
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub mod explore;

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

type Panic = Box<dyn Any + Send>;

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !explore::mine() {
        return (a(FnContext::new(false)), b(FnContext::new(false)));
    }
    let latch = AtomicUsize::new(1);
    let mut b = Some(b);
    let mut rb: Option<Result<RB, Panic>> = None;
    let mut run = |migrated: bool| {
        let f = b.take().unwrap();
        rb = Some(catch_unwind(AssertUnwindSafe(|| f(FnContext::new(migrated)))));
        latch.store(0, SeqCst);
    };
    // lives until the latch is down
    let id = unsafe { explore::push(explore::erase(&mut run)) };
    explore::decide(false);
    let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
    explore::decide(false);
    explore::until(&latch, Some(id));
    match (ra, rb.unwrap()) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(p), _) | (_, Err(p)) => resume_unwind(p),
    }
}

pub fn current_num_threads() -> usize {
    explore::threads()
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    explore::index()
}

// ---- scopes

struct Shared {
    left: AtomicUsize,
    panic: Mutex<Option<Panic>>,
}
pub struct Scope<'scope> {
    s: Arc<Shared>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope>(Scope<'scope>);

impl<'scope> Scope<'scope> {
    fn again(&self) -> Scope<'scope> {
        Scope { s: self.s.clone(), _m: PhantomData }
    }
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let me = self.again();
        let run = move || {
            let s = me.s.clone();
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(&me))) {
                s.panic.lock().unwrap().get_or_insert(p);
            }
            s.left.fetch_sub(1, SeqCst);
        };
        self.s.left.fetch_add(1, SeqCst);
        if !explore::mine() {
            return run();
        }
        // the scope waits for it
        unsafe { explore::push(explore::boxed(Box::new(run))) };
        explore::decide(false);
    }
    pub fn spawn_broadcast<B>(&self, body: B)
    where
        B: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        for i in 0..current_num_threads() {
            body(self, BroadcastContext { i, _m: PhantomData });
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<B>(&self, body: B)
    where
        B: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        self.0.spawn(move |s| body(&ScopeFifo(s.again())))
    }
    pub fn spawn_broadcast<B>(&self, body: B)
    where
        B: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        for i in 0..current_num_threads() {
            body(self, BroadcastContext { i, _m: PhantomData });
        }
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope {
        s: Arc::new(Shared { left: AtomicUsize::new(0), panic: Mutex::new(None) }),
        _m: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    if explore::mine() {
        explore::decide(false);
        explore::until(&s.s.left, None);
    }
    let r = match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    };
    if let Some(p) = s.s.panic.lock().unwrap().take() {
        resume_unwind(p);
    }
    r
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(|s| op(&ScopeFifo(s.again())))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    in_place_scope(|s| op(&ScopeFifo(s.again())))
}

// ---- the rest

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    if !explore::mine() {
        return f();
    }
    let run = move || {
        let _ = catch_unwind(AssertUnwindSafe(f));
    };
    unsafe { explore::push(explore::boxed(Box::new(run))) };
    explore::decide(false);
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}
pub struct BroadcastContext<'a> {
    i: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|i| op(BroadcastContext { i, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    broadcast(op);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    if explore::mine() {
        explore::decide(false);
        Some(Yield::Idle)
    } else {
        None
    }
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn run(self) {}
}
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        spawn(f)
    }
}
