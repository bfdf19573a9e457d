//! The exploration engine: jobs made of deterministic cases, a worker process, and a supervisor
//! that confirms crashes and hangs before it reports them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
}

// ---------------------------------------------------------------- allocator (sizes, schedule points)

pub struct CountingAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static HOOK: Cell<bool> = const { Cell::new(false) };
    static SEED: Cell<u64> = const { Cell::new(0) };
}

fn account(delta: isize) {
    let live = LIVE.get() + delta;
    LIVE.set(live);
    if live > PEAK.get() {
        PEAK.set(live);
    }
    if HOOK.get() {
        HOOK.set(false);
        crate::sched::point();
        HOOK.set(true);
    }
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            account(layout.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            account(layout.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        account(-(layout.size() as isize));
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let p = System.realloc(ptr, layout, new_size);
        if !p.is_null() {
            account(new_size as isize - layout.size() as isize);
        }
        p
    }
}

/// Runs `f` and returns the most memory this thread held at once during it, beyond what it held
/// before.
pub fn peak_alloc<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.get();
    PEAK.set(base);
    let r = f();
    (r, (PEAK.get() - base).max(0) as usize)
}

/// While set, every allocation by this thread is a scheduling point.
pub fn set_alloc_hook(on: bool) -> bool {
    HOOK.replace(on)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Owns the only nondeterminism in the library: the hash seeds of std's RandomState.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED.get();
    for i in 0..len {
        s = mix(s.wrapping_add(i as u64 + 1));
        unsafe { *buf.add(i) = s as u8 };
    }
    SEED.set(mix(s));
    len as isize
}

/// Must be called first in a fresh thread: its hash seeds then depend on `seed` alone.
pub fn seed_thread(seed: u64) {
    SEED.set(seed);
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ u64::from(*x));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = mix(self.0 ^ i);
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---------------------------------------------------------------- jobs

pub type JobFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;

pub struct Job {
    pub name: String,
    pub run: JobFn,
}

pub fn job(name: impl Into<String>, run: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Job {
    Job {
        name: name.into(),
        run: Box::new(run),
    }
}

pub struct Violation {
    pub job: usize,
    pub job_name: String,
    pub case: u64,
    pub desc: String,
    pub what: String,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub distinct: IdSet,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
}

pub struct Shared {
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub deadline: Instant,
    pub slots: *mut u64,
    pub violation: Mutex<Option<Violation>>,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

pub struct Ctx<'a> {
    pub tier: Tier,
    pub job: usize,
    pub job_name: &'a str,
    pub stats: Stats,
    case: u64,
    until: Option<u64>,
    slot: usize,
    shared: &'a Shared,
    last_clock: u64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

const DISTINCT_CAP: usize = 3_000_000;

impl Ctx<'_> {
    /// True when this job should end: a violation was found, or the time is up.
    pub fn stopped(&self) -> bool {
        self.shared.stop.load(SeqCst)
    }

    fn beat(&mut self, active: bool) {
        unsafe {
            let p = self.shared.slots.add(self.slot * 4);
            p.write_volatile(self.job as u64);
            p.add(1).write_volatile(self.case);
            p.add(2).write_volatile(p.add(2).read_volatile() + 1);
            p.add(3).write_volatile(u64::from(active));
        }
    }

    /// Runs one case. Returns whether to go on.
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) -> bool {
        if self.stopped() {
            return false;
        }
        self.case += 1;
        self.stats.cases += 1;
        self.beat(true);
        if self.case.is_power_of_two() && self.stats.samples.len() < 24 {
            let d = desc();
            self.stats.samples.push(d);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        set_alloc_hook(false);
        self.beat(false);
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(format!(
                "panicked: {}",
                PANIC.take().unwrap_or_else(|| "?".into())
            )),
        };
        if let Err(what) = r {
            let mut v = self.shared.violation.lock().unwrap();
            if v.is_none() {
                *v = Some(Violation {
                    job: self.job,
                    job_name: self.job_name.to_string(),
                    case: self.case,
                    desc: desc(),
                    what,
                });
            }
            self.shared.stop.store(true, SeqCst);
            return false;
        }
        if self.until == Some(self.case) {
            self.shared.stop.store(true, SeqCst);
            return false;
        }
        self.last_clock += 1;
        if self.last_clock & 0xff == 0 && Instant::now() > self.shared.deadline {
            self.shared.capped.store(true, SeqCst);
            self.shared.stop.store(true, SeqCst);
            return false;
        }
        true
    }

    /// Counts a distinct non-trivial case, by the hash of what made it.
    pub fn distinct(&mut self, h: u64) {
        if self.stats.distinct.len() < DISTINCT_CAP {
            self.stats.distinct.insert(mix(h ^ mix(self.job as u64)));
        }
    }

    pub fn note(&mut self, k: &str, n: u64) {
        *self.stats.notes.entry(k.to_string()).or_insert(0) += n;
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<Job>,
}

// ---------------------------------------------------------------- system calls

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const SLOTS: usize = 64;

fn map_slots(path: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slots file");
    f.set_len((SLOTS * 32) as u64).expect("slots size");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 32, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u64
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(default)
}

pub fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}

// ---------------------------------------------------------------- worker

pub struct WorkerArgs {
    pub tier: Tier,
    pub only_job: Option<usize>,
    pub until: Option<u64>,
    pub slots: PathBuf,
    pub quiet: bool,
}

fn write_replay(p: &Property, tier: Tier, v: &Violation) -> PathBuf {
    let dir = Path::new(VERIF).join("out");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{}-{}-{}.txt", p.id, v.job, v.case));
    let text = format!(
        "property: {}\ntier: {}\nseed: {}\njob: {}\ncase: {}\njob-name: {}\ncase-description: {}\nwhat: {}\n\nre-run just this case: /verif/bin/replay.sh {}\n",
        p.id, tier.name(), seed(), v.job, v.case, v.job_name, v.desc, v.what, path.display()
    );
    let _ = fs::write(&path, text);
    path
}

fn report_violation(p: &Property, tier: Tier, v: &Violation) {
    let path = write_replay(p, tier, v);
    let mut what = v.what.clone();
    if what.len() > 2000 {
        let mut i = 2000;
        while !what.is_char_boundary(i) {
            i -= 1;
        }
        what.truncate(i);
    }
    println!("job {} ({}), case {}: {}", v.job, v.job_name, v.case, v.desc);
    println!("what: {what}");
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Property,
    tier: Tier,
    wall: f64,
    st: &Stats,
    jobs_done: usize,
    jobs_all: usize,
    capped: bool,
    violations: u64,
) {
    let dir = Path::new(VERIF).join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut c = format!("\"evaluations\": {}", st.cases);
    c += &format!(", \"distinct_nontrivial\": {}", st.distinct.len());
    c += &format!(", \"rule\": {}", json_str(p.rule));
    if p.level == "model_checking" {
        c += &format!(
            ", \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}",
            st.states, st.transitions, st.traces
        );
    } else {
        c += &format!(", \"calls_compared\": {}", st.transitions);
    }
    c += &format!(
        ", \"jobs\": {jobs_all}, \"jobs_completed\": {jobs_done}, \"exhaustive\": {}",
        !capped && jobs_done == jobs_all
    );
    for (k, v) in &st.notes {
        c += &format!(", {}: {v}", json_str(k));
    }
    let samples: Vec<String> = st
        .samples
        .iter()
        .map(|s| {
            let s: String = s.chars().take(400).collect();
            json_str(&s)
        })
        .collect();
    c += &format!(", \"samples\": [{}]", samples.join(", "));
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let text = format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{{c}}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {violations}}}\n",
        p.id, tier.name(), seed(), p.level, assumptions.join(", ")
    );
    let _ = fs::write(dir.join(format!("{}.json", p.id)), text);
}

pub fn worker(p: &Property, a: &WorkerArgs) -> i32 {
    let start = Instant::now();
    let limit = env_u64("MC_AS_GB", 20) << 30;
    unsafe { setrlimit(9, &[limit, limit]) };
    std::panic::set_hook(Box::new(|info| {
        let was = set_alloc_hook(false);
        let msg = info.to_string();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(msg);
            }
        });
        set_alloc_hook(was);
    }));

    let jobs = (p.jobs)(a.tier);
    let budget = env_u64("MC_BUDGET", a.tier.pick(400, 3000));
    let shared = Shared {
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        deadline: start + Duration::from_secs(budget),
        slots: map_slots(&a.slots),
        violation: Mutex::new(None),
    };
    let total = Mutex::new(Stats::default());
    let done = AtomicUsize::new(0);
    let next = AtomicUsize::new(0);
    let threads = if a.only_job.is_some() {
        1
    } else {
        env_u64("MC_THREADS", 8) as usize
    };
    let order: Vec<usize> = match a.only_job {
        Some(j) => vec![j],
        None => (0..jobs.len()).collect(),
    };
    let slow = AtomicU64::new(0);

    std::thread::scope(|s| {
        for slot in 0..threads {
            let (jobs, shared, total, done, next, order, slow) =
                (&jobs, &shared, &total, &done, &next, &order, &slow);
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= order.len() || shared.stop.load(SeqCst) {
                    return;
                }
                let j = order[i];
                let t0 = Instant::now();
                // A fresh thread per job, so that its hash seeds depend on the job alone
                let stats = std::thread::scope(|s2| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s2, move || {
                            seed_thread(mix(seed()) ^ mix(j as u64 + 1));
                            let mut ctx = Ctx {
                                tier: a.tier,
                                job: j,
                                job_name: &jobs[j].name,
                                stats: Stats::default(),
                                case: 0,
                                until: a.until,
                                slot,
                                shared,
                                last_clock: 0,
                            };
                            match catch_unwind(AssertUnwindSafe(|| (jobs[j].run)(&mut ctx))) {
                                Ok(()) => Ok(ctx.stats),
                                Err(_) => Err(PANIC.take().unwrap_or_default()),
                            }
                        })
                        .expect("job thread")
                        .join()
                        .expect("job thread ended")
                });
                let dt = t0.elapsed().as_millis() as u64;
                slow.fetch_max(dt << 20 | j as u64, SeqCst);
                if std::env::var("MC_TIMES").is_ok() {
                    eprintln!("job {j} {}: {dt} ms", jobs[j].name);
                }
                match stats {
                    Ok(st) => {
                        let mut t = total.lock().unwrap();
                        t.cases += st.cases;
                        t.states += st.states;
                        t.transitions += st.transitions;
                        t.traces += st.traces;
                        t.distinct.extend(st.distinct);
                        if t.samples.len() < 12 {
                            t.samples.extend(st.samples.into_iter().rev().take(2));
                        }
                        for (k, v) in st.notes {
                            *t.notes.entry(k).or_insert(0) += v;
                        }
                        drop(t);
                        if !shared.stop.load(SeqCst) {
                            done.fetch_add(1, SeqCst);
                        }
                    }
                    Err(what) => {
                        let (_, case, _, _) = read_slot(shared.slots, slot);
                        let mut v = shared.violation.lock().unwrap();
                        if v.is_none() {
                            *v = Some(Violation {
                                job: j,
                                job_name: jobs[j].name.clone(),
                                case,
                                desc: "after this case, while preparing the next".into(),
                                what: format!("panicked: {what}"),
                            });
                        }
                        shared.stop.store(true, SeqCst);
                    }
                }
            });
        }
    });

    let st = total.into_inner().unwrap();
    let capped = shared.capped.load(SeqCst);
    let v = shared.violation.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    if !a.quiet {
        write_evidence(
            p,
            a.tier,
            wall,
            &st,
            done.load(SeqCst),
            jobs.len(),
            capped,
            u64::from(v.is_some()),
        );
    }
    if let Some(v) = v {
        report_violation(p, a.tier, &v);
        return 1;
    }
    if a.only_job.is_some() {
        println!("job {:?} until case {:?}: held", a.only_job, a.until);
        return 0;
    }
    let slow = slow.load(SeqCst);
    println!(
        "{}: {} jobs, {} cases, {} states, {} transitions, {} executions, {} distinct non-trivial, {:.1} s{} (longest job {} ms: {})",
        p.id,
        jobs.len(),
        st.cases,
        st.states,
        st.transitions,
        st.traces,
        st.distinct.len(),
        wall,
        if capped { ", CAPPED by the time budget" } else { "" },
        slow >> 20,
        jobs[(slow & 0xfffff) as usize].name,
    );
    0
}

// ---------------------------------------------------------------- supervisor

enum End {
    Code(i32),
    Died(String),
    Hung(usize, u64),
}

fn spawn_worker(
    p: &Property,
    tier: Tier,
    slots: &Path,
    only: Option<(usize, u64)>,
) -> std::io::Result<Child> {
    let mut c = Command::new(std::env::current_exe()?);
    c.arg("worker").arg(p.id).arg(tier.name()).arg(slots);
    if let Some((j, k)) = only {
        c.arg(j.to_string()).arg(k.to_string());
    }
    c.spawn()
}

fn wait_worker(child: &mut Child, slots: *mut u64, hang: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    loop {
        match child.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(c) => End::Code(c),
                    None => End::Died(format!("killed by signal {}", s.signal().unwrap_or(0))),
                }
            }
            Ok(None) => (),
            Err(e) => return End::Died(format!("wait: {e}")),
        }
        for (i, l) in last.iter_mut().enumerate() {
            let (job, case, beat, active) = read_slot(slots, i);
            if beat != l.0 || active == 0 {
                *l = (beat, Instant::now());
            } else if l.1.elapsed() > hang {
                let _ = child.kill();
                let _ = child.wait();
                return End::Hung(job as usize, case);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn read_slot(slots: *mut u64, i: usize) -> (u64, u64, u64, u64) {
    unsafe {
        let p = slots.add(i * 4);
        (
            p.read_volatile(),
            p.add(1).read_volatile(),
            p.add(2).read_volatile(),
            p.add(3).read_volatile(),
        )
    }
}

fn clear_slots(slots: *mut u64) {
    for i in 0..SLOTS * 4 {
        unsafe { slots.add(i).write_volatile(0) };
    }
}

pub fn check(p: &Property, tier: Tier) -> i32 {
    let start = Instant::now();
    let dir = Path::new(VERIF).join("out");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::remove_file(Path::new(VERIF).join(format!("evidence/{}.json", p.id)));
    let slots_path = dir.join(format!("slots-{}-{}", p.id, std::process::id()));
    let slots = map_slots(&slots_path);
    clear_slots(slots);
    let hang = Duration::from_secs(env_u64("MC_HANG", tier.pick(45, 120)));
    let code = supervise(p, tier, &slots_path, slots, hang, start);
    let _ = fs::remove_file(&slots_path);
    code
}

fn supervise(
    p: &Property,
    tier: Tier,
    slots_path: &Path,
    slots: *mut u64,
    hang: Duration,
    start: Instant,
) -> i32 {
    let mut child = match spawn_worker(p, tier, slots_path, None) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("engine error: cannot start the worker: {e}");
            return 2;
        }
    };
    let (why, mut suspects) = match wait_worker(&mut child, slots, hang) {
        End::Code(c @ (0 | 1)) => return c,
        End::Code(c) => {
            eprintln!("engine error: the worker ended with code {c}");
            return 2;
        }
        End::Hung(j, k) => (format!("no end after {} s", hang.as_secs()), vec![(j, k)]),
        End::Died(why) => {
            let mut v = Vec::new();
            for i in 0..SLOTS {
                let (job, case, _, active) = read_slot(slots, i);
                if active != 0 {
                    v.push((job as usize, case));
                }
            }
            (why, v)
        }
    };
    suspects.sort_unstable();
    println!("worker: {why}; running the cases in flight on their own: {suspects:?}");
    for (j, k) in suspects {
        clear_slots(slots);
        let Ok(mut child) = spawn_worker(p, tier, slots_path, Some((j, k))) else {
            return 2;
        };
        let how = match wait_worker(&mut child, slots, hang) {
            End::Code(0) => continue,
            // It reported the violation itself
            End::Code(1) => {
                evidence_of_crash(p, tier, start);
                return 1;
            }
            End::Code(_) => continue,
            End::Died(h) => h,
            End::Hung(..) => format!("no end after {} s", hang.as_secs()),
        };
        let (job, case) = (0..SLOTS)
            .map(|i| read_slot(slots, i))
            .find(|s| s.3 != 0)
            .map_or((j, k), |s| (s.0 as usize, s.1));
        let v = Violation {
            job,
            job_name: (p.jobs)(tier)
                .get(job)
                .map_or(String::new(), |j| j.name.clone()),
            case,
            desc: "the case during which the process died or hung (twice)".into(),
            what: format!("the process running the real code: {how}"),
        };
        evidence_of_crash(p, tier, start);
        report_violation(p, tier, &v);
        return 1;
    }
    eprintln!("engine error: {why}, and no case in flight does it again on its own");
    2
}

fn evidence_of_crash(p: &Property, tier: Tier, start: Instant) {
    write_evidence(
        p,
        tier,
        start.elapsed().as_secs_f64(),
        &Stats::default(),
        0,
        1,
        true,
        1,
    );
}

pub fn replay(props: &[Property], file: &str) -> i32 {
    let Ok(text) = fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}: ")))
            .unwrap_or("")
            .to_string()
    };
    let id = get("property");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no property {id}");
        return 2;
    };
    std::env::set_var("VERIF_SEED", get("seed"));
    let tier = if get("tier") == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let (Ok(job), Ok(case)) = (get("job").parse(), get("case").parse()) else {
        return 2;
    };
    let slots = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    let r = worker(
        p,
        &WorkerArgs {
            tier,
            only_job: Some(job),
            until: Some(case),
            slots: slots.clone(),
            quiet: true,
        },
    );
    let _ = fs::remove_file(&slots);
    let _ = std::io::stdout().flush();
    r
}

pub fn note_panic(msg: String) {
    PANIC.with(|p| {
        if let Ok(mut p) = p.try_borrow_mut() {
            *p = Some(msg);
        }
    });
}

/// The message of this thread's last panic.
pub fn last_panic() -> String {
    PANIC.take().unwrap_or_else(|| "?".into())
}
