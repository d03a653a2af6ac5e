//! Controlled scheduler for two threads. A thread can lose its turn either where it calls the
//! allocator or, single-stepped by the processor's trap flag, after any instruction outside of the
//! allocator (and at its end); a schedule is the list of points at which the turn changes.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::thread::{self, Thread};
use std::time::{Duration, Instant};

struct Shared {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    /// The turn was not given back in time (the code under test may wait for a lock that the other
    /// thread holds): from then on the threads run freely.
    free: AtomicBool,
    switches: AtomicUsize,
}

struct Ctl {
    me: usize,
    count: Cell<usize>,
    next: Cell<usize>,
    at: Vec<usize>,
    /// points are instructions, not allocator calls
    step: bool,
    /// if not 0: also a switch at every multiple of this
    every: usize,
    in_alloc: Cell<usize>,
    stepping: Cell<bool>,
    shared: *const Shared,
    other: Thread,
}

thread_local!(static CTL: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) });

/// Held during a call of the allocator, which is not interrupted.
pub struct InAlloc(*const Ctl);
impl Drop for InAlloc {
    #[inline]
    fn drop(&mut self) {
        if !self.0.is_null() {
            let c = unsafe { &*self.0 };
            c.in_alloc.set(c.in_alloc.get() - 1);
            if c.stepping.get() && c.in_alloc.get() == 0 {
                unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
            }
        }
    }
}

/// Called by the allocator.
#[inline]
#[must_use]
pub fn point() -> InAlloc {
    let c = CTL.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if !c.is_null() {
        let c = unsafe { &*c };
        if !c.step {
            c.point();
        }
        c.in_alloc.set(c.in_alloc.get() + 1);
        if c.stepping.get() {
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") };
        }
    }
    InAlloc(c)
}

#[repr(C)]
struct SigAction {
    handler: extern "C" fn(i32, *mut u8, *mut u8),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn raise(sig: i32) -> i32;
}
const SIGTRAP: i32 = 5;
const TRAP_FLAG: u64 = 0x100;
/// Where the flags register is in a `ucontext_t` on x86-64 Linux: 40 bytes before the general
/// registers, of which it is number 17.
const FLAGS: usize = 40 + 17 * 8;

/// After every instruction of a thread that is single-stepped.
extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
    let flags = unsafe { &mut *(context.add(FLAGS) as *mut u64) };
    let c = CTL.with(|c| c.get());
    if c.is_null() {
        *flags &= !TRAP_FLAG;
        return;
    }
    let c = unsafe { &*c };
    if c.in_alloc.get() != 0 {
        *flags &= !TRAP_FLAG;
        return;
    }
    c.point();
    if c.every == 0 && c.next.get() >= c.at.len() || unsafe { (*c.shared).done[1 - c.me].load(SeqCst) } && !c.at.contains(&usize::MAX) {
        *flags &= !TRAP_FLAG;
        c.stepping.set(false);
    } else {
        *flags |= TRAP_FLAG;
        c.stepping.set(true);
    }
}

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        // SA_SIGINFO | SA_RESTART
        let a = SigAction { handler: trap, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
        let r = unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) };
        assert!(r == 0, "harness: sigaction");
    });
}

impl Ctl {
    fn point(&self) {
        let n = self.count.get() + 1;
        self.count.set(n);
        let listed = self.at.get(self.next.get()) == Some(&n);
        if listed {
            self.next.set(self.next.get() + 1);
        }
        if listed || self.every != 0 && n % self.every == 0 {
            let s = unsafe { &*self.shared };
            if !s.done[1 - self.me].load(SeqCst) {
                s.switches.fetch_add(1, SeqCst);
                s.turn.store(1 - self.me, SeqCst);
                self.other.unpark();
                wait(s, self.me);
            }
        }
    }
}

fn wait(s: &Shared, me: usize) {
    for _ in 0..2000 {
        if s.turn.load(SeqCst) == me || s.free.load(SeqCst) {
            return;
        }
        std::hint::spin_loop();
    }
    let since = Instant::now();
    while s.turn.load(SeqCst) != me && !s.free.load(SeqCst) {
        thread::park_timeout(Duration::from_millis(20));
        if since.elapsed() > Duration::from_millis(1000) {
            s.free.store(true, SeqCst);
        }
    }
}

pub struct Outcome<T> {
    /// result (None: it panicked) and number of points passed
    pub of: [(Option<T>, usize); 2],
    pub switches: usize,
    pub free: bool,
}

/// Gives the turn away until it comes back; false if the other thread is at its end.
pub fn pass() -> bool {
    let c = CTL.with(|c| c.get());
    if c.is_null() {
        return false;
    }
    let c = unsafe { &*c };
    let s = unsafe { &*c.shared };
    if s.done[1 - c.me].load(SeqCst) || s.free.load(SeqCst) {
        return false;
    }
    s.turn.store(1 - c.me, SeqCst);
    c.other.unpark();
    wait(s, c.me);
    !s.done[1 - c.me].load(SeqCst)
}

/// What the points are.
#[derive(Copy, Clone, PartialEq)]
pub enum Points {
    Allocator,
    /// instructions; and a switch at every multiple of these numbers, if not 0
    Instructions([usize; 2]),
}

/// Runs both functions, the first one first; thread `k` gives its turn away at its points `at[k]`.
/// What `after` makes of a result is not interleaved.
pub fn run<R, T: Send, F: Fn() -> R + Sync>(f: [&F; 2], points: Points, at: [&[usize]; 2], after: &(dyn Fn(R) -> T + Sync)) -> Outcome<T> {
    let shared = Shared {
        turn: AtomicUsize::new(usize::MAX),
        done: [AtomicBool::new(false), AtomicBool::new(false)],
        free: AtomicBool::new(false),
        switches: AtomicUsize::new(0),
    };
    let (step, every) = match points {
        Points::Allocator => (false, [0; 2]),
        Points::Instructions(every) => {
            install();
            (true, every)
        }
    };
    let sh = &shared;
    let handles = std::sync::Mutex::new([None::<Thread>, None]);
    let (hs, ready) = (&handles, &AtomicUsize::new(0));
    let of = thread::scope(|sc| {
        let mut t = Vec::new();
        for me in 0..2 {
            t.push(
                thread::Builder::new()
                    .stack_size(crate::STACK)
                    .spawn_scoped(sc, move || {
                        hs.lock().unwrap()[me] = Some(thread::current());
                        ready.fetch_add(1, SeqCst);
                        while ready.load(SeqCst) < 2 {
                            thread::yield_now();
                        }
                        let other = hs.lock().unwrap()[1 - me].clone().unwrap();
                        let ctl = Ctl { me, count: Cell::new(0), next: Cell::new(0), at: at[me].to_vec(), step, every: every[me], in_alloc: Cell::new(0), stepping: Cell::new(false), shared: sh, other };
                        if me == 0 {
                            sh.turn.store(0, SeqCst);
                            ctl.other.unpark();
                        }
                        wait(sh, me);
                        CTL.with(|c| c.set(&ctl));
                        if step {
                            unsafe { raise(SIGTRAP) };
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f[me]()));
                        CTL.with(|c| c.set(std::ptr::null()));
                        let out = r.ok().map(|r| after(r));
                        sh.done[me].store(true, SeqCst);
                        sh.turn.store(1 - me, SeqCst);
                        ctl.other.unpark();
                        (out, ctl.count.get())
                    })
                    .expect("harness: thread"),
            );
        }
        let b = t.pop().unwrap().join().expect("harness: thread");
        let a = t.pop().unwrap().join().expect("harness: thread");
        [a, b]
    });
    Outcome { of, switches: shared.switches.load(SeqCst), free: shared.free.load(SeqCst) }
}
