//! A controlled scheduler for real threads: exactly one runs at a time, and at every scheduling
//! point the explorer decides who goes on. Lock waits go through a virtual futex, so that blocking
//! is deterministic too and a deadlock is seen at once.

use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

use crate::engine::{last_panic, mix, seed, seed_thread};

extern "C" {
    fn mc_level(l: i32);
    fn mc_level_now() -> i32;
    fn mc_stack(top: *mut u8);
    fn __errno_location() -> *mut i32;
}

thread_local! {
    static ME: Cell<(*const Run, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub const LEVELS: [&str; 3] = [
    "call boundaries",
    "call boundaries, allocations and accesses to statics",
    "every basic block and every access to memory off the stack",
];

/// (how many choices, whether taking another than the first is a preemption)
pub type Decision = (u8, bool);

#[derive(Default)]
struct State {
    running: usize,
    deviations: Vec<(u32, u8)>,
    next_deviation: usize,
    decisions: Vec<Decision>,
    finished: Vec<bool>,
    /// The address a thread waits on, if it is blocked
    waits: Vec<usize>,
    streak: u64,
    yields: u64,
    started: usize,
    diverged: bool,
    deadlock: bool,
}

pub struct Run {
    m: Mutex<State>,
    cv: Condvar,
}

const NOBODY: usize = usize::MAX;
/// After this many points without a switch, the running thread is taken to spin.
const SPIN: u64 = 300_000;

impl State {
    /// Decides who runs next; `me` is the thread at a point that could go on, or None when it
    /// ended, blocked or must yield.
    fn decide(&mut self, me: Option<usize>, not: Option<usize>) {
        let mut order = [0usize; 8];
        let mut n = 0;
        if let Some(t) = me {
            order[0] = t;
            n = 1;
        }
        for t in 0..self.finished.len() {
            if Some(t) != me && Some(t) != not && !self.finished[t] && self.waits[t] == 0 {
                order[n] = t;
                n += 1;
            }
        }
        if n == 0 {
            self.running = NOBODY;
            if let Some(t) = not {
                // Nobody to yield to
                self.running = t;
            } else if self.finished.iter().any(|f| !f) {
                self.deadlock = true;
            }
            return;
        }
        let i = self.decisions.len() as u32;
        let mut c = 0;
        if let Some(d) = self.deviations.get(self.next_deviation) {
            if d.0 == i {
                self.next_deviation += 1;
                c = d.1 as usize;
                if c >= n {
                    self.diverged = true;
                    c = 0;
                }
            }
        }
        self.decisions.push((n as u8, me.is_some()));
        if self.running != order[c] {
            self.streak = 0;
        }
        self.running = order[c];
    }
}

impl Run {
    fn wait_turn(&self, mut s: MutexGuard<State>, me: usize) {
        self.cv.notify_all();
        while s.running != me {
            s = self.cv.wait(s).unwrap();
        }
    }
}

fn with_scheduler(f: impl FnOnce(&Run, usize)) {
    let (run, me) = ME.get();
    if run.is_null() || BUSY.get() {
        return;
    }
    BUSY.set(true);
    let level = unsafe { mc_level_now() };
    unsafe { mc_level(0) };
    f(unsafe { &*run }, me);
    unsafe { mc_level(level) };
    BUSY.set(false);
}

/// A scheduling point. Does nothing outside a controlled thread.
#[no_mangle]
pub extern "C" fn mc_point() {
    with_scheduler(|run, me| {
        let mut s = run.m.lock().unwrap();
        s.streak += 1;
        if s.streak > SPIN {
            s.streak = 0;
            s.yields += 1;
            s.decide(None, Some(me));
        } else {
            s.decide(Some(me), None);
        }
        if s.running != me {
            run.wait_turn(s, me);
        }
    });
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    with_scheduler(|run, me| {
        let mut s = run.m.lock().unwrap();
        s.yields += 1;
        s.decide(None, Some(me));
        if s.running != me {
            run.wait_turn(s, me);
        }
    });
    0
}

unsafe fn real_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// std's locks wait and wake through this. Waits by controlled threads are virtual.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    let (run, _) = ME.get();
    if n != FUTEX || run.is_null() || BUSY.get() {
        return real_syscall(n, a, b, c, d, e, f);
    }
    let mut ret = 0;
    match b & 127 {
        0 | 9 => with_scheduler(|run, me| {
            let mut s = run.m.lock().unwrap();
            if (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                *__errno_location() = 11;
                ret = -1;
                return;
            }
            if d != 0 {
                // A wait with a time limit: let the others on, then say that it passed
                s.decide(None, Some(me));
                *__errno_location() = 110;
                ret = -1;
            } else {
                s.waits[me] = a;
                s.decide(None, None);
            }
            if s.running != me {
                run.wait_turn(s, me);
            }
        }),
        1 | 10 => with_scheduler(|run, _| {
            let mut s = run.m.lock().unwrap();
            for w in s.waits.iter_mut() {
                if *w == a && ret < c as i64 {
                    *w = 0;
                    ret += 1;
                }
            }
        }),
        _ => return real_syscall(n, a, b, c, d, e, f),
    }
    ret
}

/// Runs `f` with scheduling points inside it, as fine as `level` says.
pub fn fine<R>(level: i32, f: impl FnOnce() -> R) -> R {
    unsafe { mc_level(level) };
    let r = f();
    unsafe { mc_level(0) };
    r
}

pub struct Outcome {
    pub results: Vec<Result<String, String>>,
    pub decisions: Vec<Decision>,
    pub diverged: bool,
    pub deadlock: bool,
    pub yields: u64,
}

pub type Body = Box<dyn FnOnce() -> String + Send>;

/// One execution of the bodies under the schedule with the given deviations from the default
/// (the running thread goes on; the lowest thread is first).
pub fn execute(bodies: Vec<Body>, deviations: &[(u32, u8)]) -> Outcome {
    let n = bodies.len();
    let run = Arc::new(Run {
        m: Mutex::new(State {
            running: NOBODY,
            deviations: deviations.to_vec(),
            finished: vec![false; n],
            waits: vec![0; n],
            ..State::default()
        }),
        cv: Condvar::new(),
    });
    let results: Arc<Mutex<Vec<Option<Result<String, String>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    for (t, body) in bodies.into_iter().enumerate() {
        let (run, results) = (run.clone(), results.clone());
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let mut top = 0u8;
                unsafe { mc_stack((&mut top as *mut u8).add(4096)) };
                seed_thread(mix(seed()) ^ mix(1000 + t as u64));
                {
                    let mut s = run.m.lock().unwrap();
                    s.started += 1;
                    run.cv.notify_all();
                    while s.running != t {
                        s = run.cv.wait(s).unwrap();
                    }
                }
                ME.set((Arc::as_ptr(&run), t));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                unsafe { mc_level(0) };
                ME.set((std::ptr::null(), t));
                let r = r.map_err(|_| format!("panicked: {}", last_panic()));
                results.lock().unwrap()[t] = Some(r);
                let mut s = run.m.lock().unwrap();
                s.finished[t] = true;
                s.decide(None, None);
                run.cv.notify_all();
            })
            .expect("thread");
    }
    let mut s = run.m.lock().unwrap();
    while s.started < n {
        s = run.cv.wait(s).unwrap();
    }
    s.decide(None, None);
    run.cv.notify_all();
    while s.finished.iter().any(|f| !f) && !s.deadlock {
        s = run.cv.wait_timeout(s, Duration::from_millis(200)).unwrap().0;
    }
    let out = Outcome {
        results: Vec::new(),
        decisions: std::mem::take(&mut s.decisions),
        diverged: s.diverged,
        deadlock: s.deadlock,
        yields: s.yields,
    };
    drop(s);
    let results = std::mem::take(&mut *results.lock().unwrap());
    Outcome {
        results: results.into_iter().map(|r| r.unwrap_or_else(|| Err("did not end".into()))).collect(),
        ..out
    }
}

/// For the harness's own allocator, which this binary does not use.
pub fn point() {}
