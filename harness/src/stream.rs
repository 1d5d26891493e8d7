//! Byte streams with injected behaviour: chopped reads, interrupted reads,
//! failing operations. They count what they are asked, so that every point of
//! a run can be enumerated.
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dev {
    One,
    Half,
    AllBut,
    Intr,
}
pub const DEVS: [Dev; 4] = [Dev::One, Dev::Half, Dev::AllBut, Dev::Intr];

#[derive(Default, Debug)]
pub struct Plan {
    /// reads asked so far (of a non-empty buffer)
    pub reads: Cell<u64>,
    /// reads and seeks so far
    pub ops: Cell<u64>,
    /// deviations at given read indices
    pub devs: Vec<(u64, Dev)>,
    /// a deviation at every read (an interrupt at every other one)
    pub always: Option<Dev>,
    /// fail operation i (and, if true, every one after it)
    pub fail: Option<(u64, bool)>,
    pub hits: Cell<u64>,
}

#[derive(Debug)]
pub struct Flaky {
    data: Rc<Vec<u8>>,
    pos: u64,
    plan: Rc<Plan>,
}

impl Flaky {
    pub fn new(data: Rc<Vec<u8>>, plan: Rc<Plan>) -> Box<Flaky> {
        Box::new(Flaky { data, pos: 0, plan })
    }
    fn op(&self) -> Result<()> {
        let n = self.plan.ops.get();
        self.plan.ops.set(n + 1);
        if let Some((i, sticky)) = self.plan.fail {
            if n == i || sticky && n > i {
                self.plan.hits.set(self.plan.hits.get() + 1);
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
        }
        Ok(())
    }
}

impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op()?;
        let mut n = buf.len();
        if n > 0 {
            let i = self.plan.reads.get();
            self.plan.reads.set(i + 1);
            let d = match self.plan.always {
                Some(Dev::Intr) if i % 2 == 1 => None,
                Some(d) => Some(d),
                None => self.plan.devs.iter().find(|d| d.0 == i).map(|d| d.1),
            };
            if d.is_some() {
                self.plan.hits.set(self.plan.hits.get() + 1);
            }
            match d {
                Some(Dev::One) => n = 1,
                Some(Dev::Half) => n = (n + 1) / 2,
                Some(Dev::AllBut) => n = (n - 1).max(1),
                Some(Dev::Intr) => {
                    if std::env::var_os("ORVERIF_BT").is_some() {
                        eprintln!("{}", std::backtrace::Backtrace::force_capture());
                    }
                    return Err(Error::new(ErrorKind::Interrupted, "injected"));
                }
                None => {}
            }
        }
        let p = self.pos.min(self.data.len() as u64) as usize;
        let n = n.min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Flaky {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op()?;
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

impl libopenraw::verif::ReadAndSeek for Flaky {}

thread_local! {
    /// called before every operation of a `Hooked` stream of this thread
    pub static HOOK: std::cell::RefCell<Option<Box<dyn Fn()>>> = std::cell::RefCell::new(None);
}

/// A stream whose every operation is a scheduling point.
#[derive(Debug)]
pub struct Hooked {
    data: std::sync::Arc<Vec<u8>>,
    pos: u64,
}
impl Hooked {
    pub fn new(data: std::sync::Arc<Vec<u8>>) -> Box<Hooked> {
        Box::new(Hooked { data, pos: 0 })
    }
    fn op(&self) {
        HOOK.with(|h| {
            if let Some(f) = &*h.borrow() {
                f()
            }
        });
    }
}
impl Read for Hooked {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op();
        let p = self.pos.min(self.data.len() as u64) as usize;
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Hooked {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op();
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
impl libopenraw::verif::ReadAndSeek for Hooked {}
