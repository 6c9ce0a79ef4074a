//! Instrumented reader over a sparse image: logs calls, injects faults,
//! bounds the number of calls and detects out-of-range requests.
use crate::enc::Img;
use ext4_view::Ext4Read;
use std::cell::RefCell;
use std::collections::HashSet;
use std::error::Error;
use std::fmt;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimErr {
    pub call: u64,
    pub kind: &'static str,
}
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated {} error at call {}", self.kind, self.call)
    }
}
impl Error for SimErr {}

#[derive(Default)]
pub struct Ctl {
    pub calls: u64,
    pub log: Option<Vec<(u64, usize)>>,
    pub fail: HashSet<u64>,
    pub fail_all: bool,
    pub failed: u64,
    pub oob: Vec<(u64, usize)>,
    pub budget: Option<u64>,
    pub over_budget: bool,
    /// Reads that intersect this byte range [start, end) fail.
    pub bad_range: Option<(u64, u64)>,
    pub bytes: u64,
}
pub type CtlRef = Rc<RefCell<Ctl>>;

pub struct SimDisk {
    pub img: Rc<Img>,
    pub ctl: CtlRef,
}
impl SimDisk {
    pub fn new(img: Rc<Img>) -> (Self, CtlRef) {
        let ctl: CtlRef = Rc::default();
        (Self { img, ctl: ctl.clone() }, ctl)
    }
}
impl Ext4Read for SimDisk {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        let mut c = self.ctl.borrow_mut();
        c.calls += 1;
        c.bytes += dst.len() as u64;
        let n = c.calls;
        if let Some(l) = &mut c.log {
            l.push((start, dst.len()));
        }
        if let Some(b) = c.budget {
            if n > b {
                c.over_budget = true;
                return Err(Box::new(SimErr { call: n, kind: "budget" }));
            }
        }
        let end = start.saturating_add(dst.len() as u64);
        let bad = c.bad_range.is_some_and(|(a, b)| start < b && end > a);
        if bad || c.fail_all || c.fail.contains(&n) {
            c.failed += 1;
            // An adversarial failing device scribbles over the buffer.
            dst.fill(0xBD);
            return Err(Box::new(SimErr { call: n, kind: "fault" }));
        }
        if !self.img.read(start, dst) {
            c.oob.push((start, dst.len()));
            return Err(Box::new(SimErr { call: n, kind: "oob" }));
        }
        Ok(())
    }
}
