//! Checking allocator: fills fresh memory with a chosen pattern, tracks live
//! bytes, enforces a limit, detects double/foreign frees and overruns.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub struct CheckAlloc;

static FILL: AtomicU8 = AtomicU8::new(0);
static FILL_ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
/// called at each allocation
pub static HOOK: std::sync::atomic::AtomicPtr<()> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub static LIMIT_HIT: AtomicBool = AtomicBool::new(false);

const MAGIC: u64 = 0x5afe_b10c_a110_ca7e;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const TAIL: usize = 16;
const TAILB: u8 = 0xC5;

#[inline]
fn head(align: usize) -> usize {
    if align > 32 {
        align
    } else {
        32
    }
}

fn die(msg: &[u8]) -> ! {
    unsafe {
        crate::pool::note_fatal(msg);
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort();
    }
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.do_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.do_alloc(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(l.align());
        let m = p.sub(16) as *mut u64;
        let s = p.sub(8) as *mut u64;
        if *m != MAGIC {
            if *m == DEAD {
                die(b"CHECKALLOC: double free\n");
            }
            die(b"CHECKALLOC: foreign free or underrun\n");
        }
        if *s != l.size() as u64 {
            die(b"CHECKALLOC: free with wrong size\n");
        }
        for i in 0..TAIL {
            if *p.add(l.size() + i) != TAILB {
                die(b"CHECKALLOC: buffer overrun\n");
            }
        }
        if l.size() >= TRACK_MIN.load(Relaxed) {
            untrack(p as usize);
        }
        *m = DEAD;
        LIVE.fetch_sub(l.size(), Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        if FILL_ON.load(Relaxed) {
            std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        }
        let nl = Layout::from_size_align_unchecked(h + l.size() + TAIL, l.align().max(16));
        System.dealloc(p.sub(h), nl);
    }
}

impl CheckAlloc {
    unsafe fn do_alloc(&self, l: Layout, zero: bool) -> *mut u8 {
        let hook = HOOK.load(Relaxed);
        if !hook.is_null() {
            std::mem::transmute::<*mut (), fn()>(hook)();
        }
        let h = head(l.align());
        let live = LIVE.load(Relaxed);
        if l.size() > LIMIT.load(Relaxed).saturating_sub(live) {
            // Like a real allocator: callers that handle failure go on, the
            // others abort the process.
            LIMIT_HIT.store(true, Relaxed);
            crate::pool::note_fatal(b"CHECKALLOC: memory limit exceeded\n");
            return std::ptr::null_mut();
        }
        let nl = match Layout::from_size_align(h + l.size() + TAIL, l.align().max(16)) {
            Ok(n) => n,
            Err(_) => return std::ptr::null_mut(),
        };
        let q = if zero {
            System.alloc_zeroed(nl)
        } else {
            System.alloc(nl)
        };
        if q.is_null() {
            return q;
        }
        let p = q.add(h);
        *(p.sub(16) as *mut u64) = MAGIC;
        *(p.sub(8) as *mut u64) = l.size() as u64;
        std::ptr::write_bytes(p.add(l.size()), TAILB, TAIL);
        if !zero && FILL_ON.load(Relaxed) {
            std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        }
        if l.size() >= TRACK_MIN.load(Relaxed) && l.size() <= TRACK_MAX.load(Relaxed) {
            track(p as usize, l.size());
        }
        LIVE.fetch_add(l.size(), Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        let nlive = LIVE.load(Relaxed);
        if nlive > PEAK.load(Relaxed) {
            PEAK.store(nlive, Relaxed);
        }
        p
    }
}

// blocks of some sizes
static TRACK_MIN: AtomicUsize = AtomicUsize::new(usize::MAX);
static TRACK_MAX: AtomicUsize = AtomicUsize::new(0);
const SLOTS: usize = 64;
static SLOT: [[AtomicUsize; 2]; SLOTS] = [const { [const { AtomicUsize::new(0) }; 2] }; SLOTS];
fn track(p: usize, n: usize) {
    for s in &SLOT {
        if s[0].compare_exchange(0, p, SeqCst, SeqCst).is_ok() {
            s[1].store(n, SeqCst);
            return;
        }
    }
}
fn untrack(p: usize) {
    for s in &SLOT {
        let _ = s[0].compare_exchange(p, 0, SeqCst, SeqCst);
    }
}
/// Keep a list of the blocks of `min..=max` bytes from now on.
pub fn set_track(sizes: Option<(usize, usize)>) {
    TRACK_MIN.store(usize::MAX, SeqCst);
    for s in &SLOT {
        s[0].store(0, SeqCst);
    }
    if let Some((a, b)) = sizes {
        TRACK_MAX.store(b, SeqCst);
        TRACK_MIN.store(a, SeqCst);
    }
}
/// Those that live, `(address, size)`.
pub fn tracked() -> Vec<(usize, usize)> {
    let mut v = Vec::with_capacity(SLOTS);
    for s in &SLOT {
        let p = s[0].load(SeqCst);
        if p != 0 {
            v.push((p, s[1].load(SeqCst)));
        }
    }
    v
}

pub fn set_fill(b: Option<u8>) {
    match b {
        Some(b) => {
            FILL.store(b, Relaxed);
            FILL_ON.store(true, Relaxed);
        }
        None => FILL_ON.store(false, Relaxed),
    }
}
/// Limit total live bytes from now to current + `extra`.
pub fn set_limit(extra: Option<usize>) {
    match extra {
        Some(x) => LIMIT.store(LIVE.load(Relaxed) + x, Relaxed),
        None => LIMIT.store(usize::MAX, Relaxed),
    }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn live_blocks() -> usize {
    LIVE_BLOCKS.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
