//! The controlled scheduler. A pool of `threads` workers, the calling thread
//! being the first of them, of which one runs at a time. At each decision the
//! moves are: the running thread goes on; another one that was interrupted,
//! or whose latch is down, goes on; a thread without anything to do (or
//! waiting for a latch) steals the oldest job of a queue. A schedule is the
//! list of the moves taken; `explore` runs all of them, depth first, with at
//! most `preempt` interruptions of a thread outside of the pool's own
//! operations (at `point`s).
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

type Job = Box<dyn FnOnce(bool)>;
struct Task(usize, Job);
// it is rayon's interface that asks for it
unsafe impl Send for Task {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// can go on
    Ready,
    /// until the latch is down
    Wait(usize),
    /// nothing to do
    Idle,
    /// holds no baton, and sleeps in something that isn't ours
    Blocked,
}
struct Th {
    st: St,
    queue: VecDeque<Task>,
    todo: Option<Task>,
    tid: i32,
}
struct Exec {
    th: Vec<Th>,
    cur: usize,
    ack: bool,
    over: bool,
    next: usize,
    prefix: Vec<usize>,
    made: Vec<(usize, usize)>,
    preempt: usize,
    moves: u64,
    steals: u64,
    blocked: u64,
    alive: usize,
}
const NONE: usize = usize::MAX;

static ON: AtomicBool = AtomicBool::new(false);
static POINTS: AtomicBool = AtomicBool::new(false);
static N: AtomicUsize = AtomicUsize::new(1);
static EXEC: Mutex<Option<Exec>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static SEGMENT: Mutex<Option<fn(usize)>> = Mutex::new(None);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static IN: Cell<bool> = const { Cell::new(false) };
}

/// whether the calling thread is one of the exploration
pub fn mine() -> bool {
    ON.load(SeqCst) && ME.with(|m| m.get()) != NONE && !IN.with(|i| i.get())
}
pub fn threads() -> usize {
    if ON.load(SeqCst) {
        N.load(SeqCst)
    } else {
        1
    }
}
pub fn index() -> Option<usize> {
    if ON.load(SeqCst) {
        Some(ME.with(|m| m.get())).filter(|m| *m != NONE)
    } else {
        None
    }
}
/// `f(thread)` at each decision, before it, the thread being the one running
pub fn on_segment(f: Option<fn(usize)>) {
    *SEGMENT.lock().unwrap() = f;
}

struct Inside;
impl Inside {
    fn enter() -> Inside {
        IN.with(|i| i.set(true));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        IN.with(|i| i.set(false));
    }
}
fn lock() -> MutexGuard<'static, Option<Exec>> {
    EXEC.lock().unwrap_or_else(|e| e.into_inner())
}
fn me() -> usize {
    ME.with(|m| m.get())
}

/// # Safety
/// the closure must live until it ran.
pub unsafe fn erase<F: FnMut(bool)>(f: &mut F) -> Job {
    let p = f as *mut F;
    let b: Box<dyn FnOnce(bool) + '_> = Box::new(move |m| (*p)(m));
    std::mem::transmute::<Box<dyn FnOnce(bool) + '_>, Job>(b)
}
/// # Safety
/// what the closure borrows must live until it ran.
pub unsafe fn boxed<'a>(f: Box<dyn FnOnce() + 'a>) -> Job {
    let b: Box<dyn FnOnce(bool) + 'a> = Box::new(move |_| f());
    std::mem::transmute::<Box<dyn FnOnce(bool) + 'a>, Job>(b)
}

/// Make a job available.
pub(crate) unsafe fn push(job: Job) -> usize {
    let _i = Inside::enter();
    let mut g = lock();
    let e = g.as_mut().unwrap();
    let id = e.next;
    e.next += 1;
    e.th[me()].queue.push_back(Task(id, job));
    id
}

enum Move {
    Go(usize),
    Steal(usize, usize),
}
fn down(latch: usize) -> bool {
    // waiting threads keep their latch alive
    unsafe { (*(latch as *const AtomicUsize)).load(SeqCst) == 0 }
}

impl Exec {
    fn moves(&self, cur: usize, preemptive: bool) -> Vec<Move> {
        let mut v = vec![];
        let ready = self.th[cur].st == St::Ready;
        if ready {
            v.push(Move::Go(cur));
            if preemptive && self.preempt == 0 {
                return v;
            }
        }
        let mut idle = false;
        for t in 0..self.th.len() {
            let h = &self.th[t];
            match h.st {
                St::Ready if t != cur => v.push(Move::Go(t)),
                St::Wait(l) if down(l) => v.push(Move::Go(t)),
                St::Wait(_) => self.steals(t, &mut v),
                // one that has nothing to do is as good as another
                St::Idle if !idle => {
                    idle = true;
                    self.steals(t, &mut v)
                }
                _ => {}
            }
        }
        v
    }
    fn steals(&self, t: usize, v: &mut Vec<Move>) {
        for q in 0..self.th.len() {
            if !self.th[q].queue.is_empty() {
                v.push(Move::Steal(t, q));
            }
        }
    }
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.made.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        let c = if c < n { c } else { 0 };
        self.made.push((c, n));
        c
    }
    fn give(&mut self, t: usize) {
        if t >= self.th.len() {
            self.cur = NONE;
            return;
        }
        self.cur = t;
        self.ack = false;
        if self.th[t].st != St::Idle {
            self.th[t].st = St::Ready;
        }
    }
}

/// A place where the pool's threads may be told to go on or wait.
/// `preemptive`: in the middle of a job.
pub fn decide(preemptive: bool) {
    let _i = Inside::enter();
    let me = me();
    if let Some(f) = *SEGMENT.lock().unwrap() {
        f(me);
    }
    let mut g = lock();
    // when it was thought blocked and isn't any more
    if g.as_ref().unwrap().cur != me {
        g = back(g, me);
    }
    step(g, me, preemptive);
}
/// Take a move, and wait for one's turn.
fn step(mut g: MutexGuard<'static, Option<Exec>>, me: usize, preemptive: bool) {
    let e = g.as_mut().unwrap();
    let m = e.moves(me, preemptive);
    if m.is_empty() {
        e.give(NONE);
    } else {
        let ready = e.th[me].st == St::Ready;
        let c = e.choose(m.len());
        if c > 0 && preemptive && ready {
            e.preempt -= 1;
        }
        e.moves += 1;
        match m[c] {
            Move::Go(t) if t == me => {
                e.th[me].st = St::Ready;
                return;
            }
            Move::Go(t) => e.give(t),
            Move::Steal(t, q) => {
                e.steals += 1;
                let j = e.th[q].queue.pop_front();
                e.th[t].todo = j;
                if e.th[t].st == St::Idle && e.th[t].tid == 0 {
                    e.th[t].tid = -1;
                    e.alive += 1;
                    std::thread::spawn(move || worker(t));
                }
                e.th[t].st = St::Ready;
                e.give(t);
            }
        }
    }
    CV.notify_all();
    drop(turn(g, me));
}
/// Wait for one's turn.
fn turn(mut g: MutexGuard<'static, Option<Exec>>, me: usize) -> MutexGuard<'static, Option<Exec>> {
    let mut seen = (NONE, 0);
    loop {
        let e = g.as_mut().unwrap();
        if e.cur == me {
            e.ack = true;
            return g;
        }
        if e.over {
            return g;
        }
        if e.cur == NONE && e.th[me].st == St::Ready {
            e.give(me);
            continue;
        }
        let (n, t) = CV.wait_timeout(g, Duration::from_millis(2)).unwrap_or_else(|e| e.into_inner());
        g = n;
        let e = g.as_mut().unwrap();
        if t.timed_out() && e.cur != me && e.cur != NONE && e.ack && e.th[me].st == St::Ready {
            let now = (e.cur, e.moves);
            if asleep(e.th[e.cur].tid) && seen == now {
                // it waits for something that one of us holds
                let c = e.cur;
                e.th[c].st = St::Blocked;
                e.blocked += 1;
                e.give(me);
            }
            seen = now;
        }
    }
}
fn back(mut g: MutexGuard<'static, Option<Exec>>, me: usize) -> MutexGuard<'static, Option<Exec>> {
    g.as_mut().unwrap().th[me].st = St::Ready;
    turn(g, me)
}
fn asleep(tid: i32) -> bool {
    if tid <= 0 {
        return false;
    }
    let mut b = [0u8; 256];
    unsafe {
        let p = format!("/proc/self/task/{tid}/stat\0");
        let f = libc::open(p.as_ptr() as *const _, libc::O_RDONLY);
        if f < 0 {
            return false;
        }
        let n = libc::read(f, b.as_mut_ptr() as *mut _, b.len());
        libc::close(f);
        let s = &b[..n.max(0) as usize];
        match s.iter().rposition(|c| *c == b')') {
            Some(i) => s.get(i + 2) == Some(&b'S'),
            None => false,
        }
    }
}
fn tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// Run what was stolen, if anything was.
fn todo(me: usize) -> bool {
    let t = lock().as_mut().unwrap().th[me].todo.take();
    match t {
        Some(Task(_, j)) => {
            IN.with(|i| i.set(false));
            j(true);
            true
        }
        None => false,
    }
}
fn worker(me: usize) {
    ME.with(|m| m.set(me));
    loop {
        let stop = {
            let _i = Inside::enter();
            let mut g = lock();
            g.as_mut().unwrap().th[me].tid = tid();
            let g = turn(g, me);
            g.as_ref().unwrap().over
        };
        if stop {
            break;
        }
        todo(me);
        let _i = Inside::enter();
        if let Some(f) = *SEGMENT.lock().unwrap() {
            f(me);
        }
        let mut g = lock();
        if g.as_ref().unwrap().cur != me {
            g = back(g, me);
        }
        let e = g.as_mut().unwrap();
        e.th[me].st = St::Idle;
        // never a return to this thread without a job
        let m = e.moves(me, false);
        if m.is_empty() {
            e.give(NONE);
        } else {
            let c = e.choose(m.len());
            e.moves += 1;
            match m[c] {
                Move::Go(t) => e.give(t),
                Move::Steal(t, q) => {
                    e.steals += 1;
                    let j = e.th[q].queue.pop_front();
                    e.th[t].todo = j;
                    if t != me && e.th[t].st == St::Idle && e.th[t].tid == 0 {
                        e.th[t].tid = -1;
                        e.alive += 1;
                        std::thread::spawn(move || worker(t));
                    }
                    e.th[t].st = St::Ready;
                    e.give(t);
                }
            }
        }
        CV.notify_all();
    }
    let _i = Inside::enter();
    let mut g = lock();
    g.as_mut().unwrap().alive -= 1;
    CV.notify_all();
    drop(g);
}

/// Until the latch is down, with one's own jobs meanwhile.
pub(crate) fn until(latch: &AtomicUsize, own: Option<usize>) {
    let me = me();
    let l = latch as *const AtomicUsize as usize;
    while !down(l) {
        let own_job = {
            let _i = Inside::enter();
            let mut g = lock();
            if g.as_ref().unwrap().cur != me {
                g = back(g, me);
            }
            g.as_mut().unwrap().th[me].queue.pop_back()
        };
        if let Some(Task(id, j)) = own_job {
            j(false);
            if Some(id) == own {
                return;
            }
            decide(false);
            continue;
        }
        {
            let _i = Inside::enter();
            let mut g = lock();
            g.as_mut().unwrap().th[me].st = St::Wait(l);
            step(g, me, false);
        }
        if todo(me) {
            decide(false);
        }
    }
}

/// A place in a job where it may be interrupted.
pub fn point() {
    if POINTS.load(SeqCst) && mine() {
        decide(true);
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    pub threads: usize,
    pub preempt: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Ran {
    pub choices: Vec<(usize, usize)>,
    pub moves: u64,
    pub steals: u64,
    pub blocked: u64,
}
/// One execution.
pub fn once<R>(b: Bounds, prefix: &[usize], f: &mut dyn FnMut() -> R) -> (R, Ran) {
    let mut th: Vec<Th> = (0..b.threads)
        .map(|_| Th { st: St::Idle, queue: VecDeque::new(), todo: None, tid: 0 })
        .collect();
    th[0].st = St::Ready;
    th[0].tid = tid();
    *lock() = Some(Exec {
        th,
        cur: 0,
        ack: true,
        over: false,
        next: 0,
        prefix: prefix.to_vec(),
        made: vec![],
        preempt: b.preempt,
        moves: 0,
        steals: 0,
        blocked: 0,
        alive: 0,
    });
    N.store(b.threads, SeqCst);
    ME.with(|m| m.set(0));
    POINTS.store(b.preempt > 0, SeqCst);
    ON.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // jobs nobody waits for
    loop {
        let g = lock().as_mut().unwrap().th.iter_mut().find_map(|t| t.queue.pop_front());
        match g {
            Some(Task(_, j)) => j(true),
            None => break,
        }
    }
    ON.store(false, SeqCst);
    ME.with(|m| m.set(NONE));
    let mut g = lock();
    g.as_mut().unwrap().over = true;
    CV.notify_all();
    while g.as_ref().unwrap().alive > 0 {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let e = g.take().unwrap();
    drop(g);
    let ran = Ran { choices: e.made, moves: e.moves, steals: e.steals, blocked: e.blocked };
    match r {
        Ok(r) => (r, ran),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// All the executions; `visit` returns whether to go on.
pub fn explore<R>(b: Bounds, f: &mut dyn FnMut() -> R, visit: &mut dyn FnMut(R, &Ran) -> bool) -> u64 {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let (r, ran) = once(b, &prefix, f);
        n += 1;
        if !visit(r, &ran) {
            return n;
        }
        let c = ran.choices;
        match c.iter().rposition(|(k, m)| k + 1 < *m) {
            Some(i) => {
                prefix = c[..i].iter().map(|x| x.0).collect();
                prefix.push(c[i].0 + 1);
            }
            None => return n,
        }
    }
}
