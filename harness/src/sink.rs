//! Executes traces one by one, recording the one in flight in shared memory.
use crate::stats::{mix, Stats};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Size of the shared slot in which the running trace is recorded.
pub const SLOT: usize = 80 << 20;
pub const SLOT_HEAD: usize = 16;

pub type RunFn = fn(&[u8], &mut Stats) -> Result<(), String>;

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs one payload; a panic of the code under test is a failure. A panic of the harness itself is
/// an error of the check: it propagates.
pub fn run_one(run: RunFn, payload: &[u8], st: &mut Stats) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| run(payload, st))) {
        Ok(r) => r,
        Err(p) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            if msg.contains("harness:") || msg.contains(" at src/") {
                std::panic::resume_unwind(p);
            }
            Err(format!("panic: {}", msg))
        }
    }
}

pub struct Sink {
    pub shard: usize,
    pub nshards: usize,
    pub thorough: bool,
    pub st: Stats,
    pub violation: Option<(Vec<u8>, String)>,
    pub seq: u64,
    slot: *mut u8,
    run: RunFn,
    deal: usize,
}

impl Sink {
    pub fn new(shard: usize, nshards: usize, thorough: bool, run: RunFn, slot: *mut u8) -> Sink {
        Sink {
            shard,
            nshards,
            thorough,
            st: Stats::new(),
            violation: None,
            seq: 0,
            slot,
            run,
            deal: 0,
        }
    }
    pub fn phase(&mut self, name: &'static str) {
        self.st.phase = name;
        self.deal = 0;
    }
    /// Deals work units out to the shards.
    pub fn mine(&mut self) -> bool {
        self.deal += 1;
        (self.deal - 1) % self.nshards == self.shard
    }
    pub fn stopped(&self) -> bool {
        self.violation.is_some()
    }
    fn head(&self, k: usize) -> &AtomicU64 {
        unsafe { &*(self.slot.add(k * 8) as *const AtomicU64) }
    }
    /// Executes one trace; returns false when the exploration is to stop.
    pub fn case(&mut self, payload: &[u8]) -> bool {
        if self.violation.is_some() {
            return false;
        }
        assert!(payload.len() <= SLOT - SLOT_HEAD, "harness: payload too large");
        unsafe {
            std::ptr::copy_nonoverlapping(payload.as_ptr(), self.slot.add(SLOT_HEAD), payload.len());
        }
        self.head(1).store(payload.len() as u64, SeqCst);
        self.seq += 1;
        // odd: in flight
        self.head(0).store(self.seq * 2 + 1, SeqCst);
        let r = run_one(self.run, payload, &mut self.st);
        self.head(0).store(self.seq * 2, SeqCst);
        self.st.traces += 1;
        self.st.max_payload = self.st.max_payload.max(payload.len());
        let phase = self.st.phase;
        match self.st.phases.get_mut(phase) {
            Some(n) => {
                *n += 1;
                let n = *n;
                // a few samples from inside each phase
                if n == 100 || n == 5000 {
                    self.sample(payload);
                }
            }
            None => {
                self.st.phases.insert(phase.to_owned(), 1);
                if self.shard == 0 {
                    self.sample(payload);
                }
            }
        }
        if let Err(msg) = r {
            self.violation = Some((payload.to_vec(), msg));
            return false;
        }
        true
    }
    fn sample(&mut self, payload: &[u8]) {
        if self.st.samples.len() < 24 {
            let s = format!("{}: {}", self.st.phase, render(payload));
            self.st.samples.push(s);
        }
    }
}

pub fn render(payload: &[u8]) -> String {
    let mut s = String::new();
    for b in payload.iter().take(160) {
        s.push_str(&format!("{:02x}", b));
    }
    if payload.len() > 160 {
        s.push_str(&format!(".. ({} bytes)", payload.len()));
    }
    s
}

pub fn hash_stream(v: &[i64]) -> u64 {
    v.iter().fold(11, |a, &x| mix(a, x as u64))
}
