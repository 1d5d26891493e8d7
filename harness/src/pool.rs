//! Fork-based exhaustive case runner: every case of an enumerated space runs
//! in a worker process, so that a crash, an abort, a hang or memory exhaustion
//! of the code under test is an outcome of that case and not of the checker.
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    Panic(String),
    Crash(String),
    Hang,
}
impl Status {
    pub fn is_ok(&self) -> bool {
        *self == Status::Ok
    }
}

const MSG: usize = 400;
#[repr(C)]
struct Slot {
    cur: AtomicU64, // case + 1, 0 = idle
    start_ms: AtomicU64,
    msg_len: AtomicU64,
    msg: [u8; MSG],
}

static MY_SLOT: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());
static QUIET: AtomicBool = AtomicBool::new(false);

pub fn note_fatal(msg: &[u8]) {
    let p = MY_SLOT.load(SeqCst);
    if !p.is_null() {
        unsafe {
            if (*p).msg_len.load(SeqCst) != 0 && msg.starts_with(b"panic in a function") {
                return;
            }
            let n = msg.len().min(MSG);
            let dst = std::ptr::addr_of_mut!((*p).msg) as *mut u8;
            std::ptr::copy_nonoverlapping(msg.as_ptr(), dst, n);
            (*p).msg_len.store(n as u64, SeqCst);
        }
    }
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let m = format!("{loc}: {}", msg.replace('\n', " "));
        if MY_SLOT.load(SeqCst).is_null() && !QUIET.load(SeqCst) {
            eprintln!("panic: {m}");
        }
        if !msg.starts_with("panic in a function that cannot unwind") {
            note_fatal(m.as_bytes());
            if let Ok(mut g) = LAST_PANIC.lock() {
                *g = m;
            }
        }
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let q = QUIET.swap(true, SeqCst);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    QUIET.store(q, SeqCst);
    r.map_err(|_| LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default())
}

pub struct Opts {
    pub workers: usize,
    pub hang: Duration,
    pub mem: Option<usize>,
    /// fork one process per case (cold process-wide state)
    pub fresh: bool,
    /// stop starting cases after this time; the run is then not exhaustive
    pub budget: Option<Duration>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            workers: 8,
            hang: Duration::from_secs(20),
            mem: Some(1 << 30),
            fresh: false,
            budget: None,
        }
    }
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

unsafe fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = libc::write(fd, b.as_ptr() as *const _, b.len());
        if n <= 0 {
            libc::_exit(3);
        }
        b = &b[n as usize..];
    }
}

struct W {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    slot: usize,
}

/// Run cases 0..n. `sink(idx, status, data)` is called in the parent for each.
/// Returns the number of cases completed.
pub fn run(
    n: u64,
    opts: &Opts,
    f: &dyn Fn(u64) -> Vec<u8>,
    mut sink: impl FnMut(u64, Status, Vec<u8>),
) -> u64 {
    if n == 0 {
        return 0;
    }
    let nw = opts.workers.min(n as usize).max(1);
    let sz = 4096 + nw * std::mem::size_of::<Slot>();
    let shm = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            sz,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    } as *mut u8;
    assert!(shm as isize != -1);
    let ctr = unsafe { &*(shm as *const AtomicU64) };
    let slot = |i: usize| unsafe { &*(shm.add(4096) as *const Slot).add(i) };
    let t0 = Instant::now();

    let spawn = |i: usize| -> W {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            libc::fcntl(fds[0], libc::F_SETPIPE_SZ, 1 << 20);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit {
                    rlim_cur: 0,
                    rlim_max: 0,
                };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                // the code under test must not write to our stdout/stderr
                let dn = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                if std::env::var_os("ORVERIF_DEBUG").is_none() {
                    libc::dup2(dn, 1);
                    libc::dup2(dn, 2);
                }
                MY_SLOT.store(slot(i) as *const Slot as *mut Slot, SeqCst);
                let s = slot(i);
                loop {
                    let c = ctr.fetch_add(1, SeqCst);
                    if c >= n || opts.budget.map(|b| t0.elapsed() > b).unwrap_or(false) {
                        libc::_exit(0);
                    }
                    s.msg_len.store(0, SeqCst);
                    s.start_ms.store(now_ms(), SeqCst);
                    s.cur.store(c + 1, SeqCst);
                    crate::alloc::set_limit(opts.mem);
                    let r = catch(|| f(c));
                    crate::alloc::set_limit(None);
                    let (st, data) = match r {
                        Ok(d) => (0u8, d),
                        Err(m) => (1u8, m.into_bytes()),
                    };
                    let mut rec = Vec::with_capacity(13 + data.len());
                    rec.extend_from_slice(&c.to_le_bytes());
                    rec.push(st);
                    rec.extend_from_slice(&(data.len() as u32).to_le_bytes());
                    rec.extend_from_slice(&data);
                    write_all(fds[1], &rec);
                    s.cur.store(0, SeqCst);
                    if opts.fresh {
                        libc::_exit(7);
                    }
                }
            }
            libc::close(fds[1]);
            W {
                pid,
                fd: fds[0],
                buf: Vec::new(),
                slot: i,
            }
        }
    };

    slot_reset(&slot, nw);
    let mut ws: Vec<Option<W>> = (0..nw).map(|i| Some(spawn(i))).collect();
    let mut done = 0u64;
    let hang_ms = opts.hang.as_millis() as u64;
    loop {
        let mut pfds: Vec<libc::pollfd> = Vec::new();
        let mut idxs = Vec::new();
        for (i, w) in ws.iter().enumerate() {
            if let Some(w) = w {
                pfds.push(libc::pollfd {
                    fd: w.fd,
                    events: libc::POLLIN,
                    revents: 0,
                });
                idxs.push(i);
            }
        }
        if pfds.is_empty() {
            break;
        }
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as _, 200) };
        let now = now_ms();
        for (k, i) in idxs.iter().enumerate() {
            let i = *i;
            let mut hung = false;
            if pfds[k].revents == 0 {
                let s = slot(i);
                if s.cur.load(SeqCst) != 0 && now.saturating_sub(s.start_ms.load(SeqCst)) > hang_ms
                {
                    unsafe { libc::kill(ws[i].as_ref().unwrap().pid, libc::SIGKILL) };
                    hung = true;
                } else {
                    continue;
                }
            }
            let w = ws[i].as_mut().unwrap();
            let mut tmp = vec![0u8; 1 << 16];
            let mut eof = false;
            loop {
                let r = unsafe { libc::read(w.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
                if r <= 0 {
                    eof = true;
                    break;
                }
                w.buf.extend_from_slice(&tmp[..r as usize]);
                if !hung && (r as usize) < tmp.len() {
                    break;
                }
            }
            let mut p = 0;
            let mut last_done = None;
            while w.buf.len() - p >= 13 {
                let c = u64::from_le_bytes(w.buf[p..p + 8].try_into().unwrap());
                let st = w.buf[p + 8];
                let l = u32::from_le_bytes(w.buf[p + 9..p + 13].try_into().unwrap()) as usize;
                if w.buf.len() - p - 13 < l {
                    break;
                }
                let data = w.buf[p + 13..p + 13 + l].to_vec();
                p += 13 + l;
                done += 1;
                last_done = Some(c);
                if st == 0 {
                    sink(c, Status::Ok, data);
                } else {
                    sink(
                        c,
                        Status::Panic(String::from_utf8_lossy(&data).into()),
                        vec![],
                    );
                }
            }
            w.buf.drain(..p);
            if eof {
                let mut st = 0;
                unsafe {
                    libc::waitpid(w.pid, &mut st, 0);
                    libc::close(w.fd);
                }
                let s = slot(w.slot);
                let cur = s.cur.swap(0, SeqCst);
                if cur != 0 && Some(cur - 1) != last_done {
                    let ml = s.msg_len.load(SeqCst) as usize;
                    let m = String::from_utf8_lossy(&s.msg[..ml.min(MSG)])
                        .trim()
                        .to_string();
                    let status = if hung {
                        Status::Hang
                    } else if libc::WIFSIGNALED(st) {
                        Status::Crash(format!("signal {} {}", libc::WTERMSIG(st), m))
                    } else {
                        Status::Crash(format!("exit {} {}", libc::WEXITSTATUS(st), m))
                    };
                    done += 1;
                    sink(cur - 1, status, vec![]);
                }
                let more =
                    ctr.load(SeqCst) < n && opts.budget.map(|b| t0.elapsed() <= b).unwrap_or(true);
                ws[i] = if more { Some(spawn(i)) } else { None };
            }
        }
    }
    unsafe { libc::munmap(shm as *mut _, sz) };
    done
}

fn slot_reset<'a>(slot: &dyn Fn(usize) -> &'a Slot, n: usize) {
    for i in 0..n {
        let s = slot(i);
        s.cur.store(0, SeqCst);
        s.msg_len.store(0, SeqCst);
    }
}
