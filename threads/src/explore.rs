//! Scenarios, and the search over their schedules.

use crate::cops;
use crate::engine::{hash_str, job, Ctx, Job, Tier};
use crate::ops::*;
use crate::sched::{execute, Body, Decision, LEVELS};
use std::io::{Read as _, Write as _};
use std::marker::PhantomData;
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq)]
enum Call {
    R(usize),
    E(usize),
    /// Made, in a world that begins empty
    M(usize),
    /// Of the C library: reads, edits, made in a world that begins empty
    CR(usize),
    CE(usize),
    CM,
}

impl Call {
    fn name(self) -> &'static str {
        match self {
            Call::R(i) => READS[i].0,
            Call::E(i) => EDITS[i].0,
            Call::M(i) => MAKES[i].0,
            Call::CR(i) => cops::READS[i].0,
            Call::CE(i) => cops::EDITS[i].0,
            Call::CM => cops::MAKE.0,
        }
    }
}

struct Scenario {
    level: i32,
    bound: usize,
    shared: bool,
    bodies: Vec<Vec<Call>>,
}

impl Scenario {
    fn show(&self) -> String {
        let b: Vec<String> = self
            .bodies
            .iter()
            .map(|b| format!("[{}]", b.iter().map(|c| c.name()).collect::<Vec<_>>().join(", ")))
            .collect();
        format!(
            "{} threads on {}: {}; points at {}; at most {} preemptions",
            b.len(),
            if self.shared { "one shared object" } else { "objects of their own" },
            b.join(" | "),
            LEVELS[self.level as usize],
            if self.bound > 50 { "any number of".to_string() } else { self.bound.to_string() },
        )
    }
}

fn calls() -> Vec<Call> {
    (0..EDITS.len()).map(Call::E).chain((0..READS.len()).map(Call::R)).collect()
}

fn reads() -> Vec<Call> {
    (0..READS.len()).map(Call::R).collect()
}

const ANY: usize = 99;

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = Vec::new();
    let mut push = |level, bound, shared, bodies: Vec<Vec<Call>>| {
        v.push(Scenario { level, bound, shared, bodies });
    };
    let all = calls();
    let rs = reads();
    // From nothing, so that whatever is set up once is set up in the threads
    for i in 0..MAKES.len() - 1 {
        push(2, 1, false, vec![vec![Call::M(i)], vec![Call::M(i)]]);
    }
    for i in 0..READS.len() {
        let body = vec![Call::M(make_for(i)), Call::R(i)];
        push(2, 1, false, vec![body.clone(), body]);
    }
    // The same for the C library
    for i in 0..cops::READS.len() {
        let body = vec![Call::CM, Call::CR(i)];
        push(2, 1, false, vec![body.clone(), body]);
    }
    let crs: Vec<Call> = (0..cops::READS.len()).map(Call::CR).collect();
    let call: Vec<Call> = (0..cops::EDITS.len()).map(Call::CE).chain(crs.iter().copied()).collect();
    for (shared, calls) in [(false, &call), (true, &crs)] {
        for (i, a) in calls.iter().enumerate() {
            for b in &calls[i..] {
                push(if a.name() == b.name() || tier == Tier::Thorough { 2 } else { 1 }, 1, shared, vec![vec![*a], vec![*b]]);
            }
            let b = calls[(i * 7 + 3) % calls.len()];
            push(1, 2, shared, vec![vec![*a], vec![*a]]);
            push(1, 1, shared, vec![vec![*a, b], vec![b]]);
            push(0, ANY, shared, vec![vec![*a, b], vec![b, *a], vec![*a, *a]]);
        }
    }
    // One call each, preempted anywhere in them: in quick, each call with itself and with two others
    let picked = |i: usize, j: usize, n: usize| tier == Tier::Thorough || j == i || j == (i * 7 + 3) % n;
    for (shared, calls) in [(false, &all), (true, &rs)] {
        let n = calls.len();
        for i in 0..n {
            for j in i..n {
                let pair = vec![vec![calls[i]], vec![calls[j]]];
                if picked(i, j, n) || picked(j, i, n) {
                    push(2, 1, shared, pair);
                } else {
                    push(1, 1, shared, pair);
                }
            }
        }
    }
    // The same call twice: the second finds whatever the first left behind
    for (i, a) in all.iter().enumerate() {
        let b = all[(i * 7 + 3) % all.len()];
        push(2, 1, false, vec![vec![*a, *a], vec![*a]]);
        push(tier.pick(1, 2), 1, false, vec![vec![*a, b], vec![b]]);
    }
    for a in &rs {
        push(tier.pick(1, 2), 1, true, vec![vec![*a, *a], vec![*a]]);
    }
    // Two preemptions, at the points where something can be shared
    for (i, a) in all.iter().enumerate() {
        for b in tier.pick(&all[i..=i], &all[i..]) {
            push(1, 2, false, vec![vec![*a], vec![*b]]);
        }
    }
    for (i, a) in rs.iter().enumerate() {
        for b in tier.pick(&rs[i..=i], &rs[i..]) {
            push(1, 2, true, vec![vec![*a], vec![*b]]);
        }
    }
    // Every order of whole calls: two threads of three calls, three threads of two
    let n = all.len();
    for i in 0..n {
        for j in 0..tier.pick(1, n) {
            let k = (i + 5 * j + 1) % n;
            push(0, ANY, false, vec![vec![all[i], all[j], all[k]], vec![all[k], all[i], all[j]]]);
            push(0, ANY, false, vec![vec![all[i], all[k]], vec![all[j], all[i]], vec![all[k], all[j]]]);
        }
    }
    let n = rs.len();
    for i in 0..n {
        for j in 0..tier.pick(1, n) {
            let k = (i + 5 * j + 1) % n;
            push(0, ANY, true, vec![vec![rs[i], rs[k]], vec![rs[j], rs[i]], vec![rs[k], rs[j]]]);
        }
    }
    if tier == Tier::Thorough {
        for a in &all {
            for b in &all {
                push(2, 1, false, vec![vec![*a, *b], vec![*b, *a]]);
            }
        }
        for a in &rs {
            push(2, 1, true, vec![vec![*a], vec![*a], vec![*a]]);
        }
        for a in &all {
            push(2, 1, false, vec![vec![*a], vec![*a], vec![*a]]);
        }
    }
    v
}

// ---------------------------------------------------------------- one execution, in a child

struct Shareable<T>(T);
unsafe impl<T> Send for Shareable<T> {}
unsafe impl<T> Sync for Shareable<T> {}

struct Report {
    /// Per body its result, then what the objects report afterwards
    results: Vec<String>,
    decisions: Vec<Decision>,
    problem: Option<String>,
    yields: u64,
}

/// The objects that the threads work on: made once, before the fork.
struct Worlds {
    own: Vec<Arc<Shareable<Mutex<World>>>>,
    shared: Arc<Shareable<World>>,
}

impl Worlds {
    fn new(s: &Scenario) -> Worlds {
        let empty = s.bodies.iter().any(|b| matches!(b[0], Call::M(_) | Call::CM));
        let own = |i| if empty { World::empty(i) } else { World::new(i) };
        Worlds {
            own: (0..3).map(|i| Arc::new(Shareable(Mutex::new(own(i))))).collect(),
            shared: Arc::new(Shareable(if s.shared { World::new(0) } else { World::empty(0) })),
        }
    }
}

fn run(s: &Scenario, w: &Worlds, only: Option<usize>, deviations: &[(u32, u8)]) -> Report {
    let (worlds, shared) = (&w.own[..s.bodies.len()], &w.shared);
    let mut bodies: Vec<Body> = Vec::new();
    for (i, calls) in s.bodies.iter().enumerate() {
        if only.is_some_and(|o| o != i) {
            continue;
        }
        let (calls, level) = (calls.clone(), s.level);
        if s.shared {
            let w = shared.clone();
            bodies.push(Box::new(move || {
                let w: &Shareable<World> = &w;
                let mut out = String::new();
                for c in &calls {
                    let read = match c {
                        Call::R(i) => READS[*i].1,
                        Call::CR(i) => cops::READS[*i].1,
                        _ => unreachable!(),
                    };
                    out += &read(&w.0, level);
                    out.push('\n');
                    crate::sched::mc_point();
                }
                out
            }));
        } else {
            let w = worlds[i].clone();
            bodies.push(Box::new(move || {
                let w: &Shareable<Mutex<World>> = &w;
                let mut w = w.0.lock().unwrap();
                let mut out = String::new();
                for c in &calls {
                    out += &match c {
                        Call::R(i) => READS[*i].1(&w, level),
                        Call::E(i) => EDITS[*i].1(&mut w, level),
                        Call::M(i) => MAKES[*i].1(&mut w, level),
                        Call::CR(i) => cops::READS[*i].1(&w, level),
                        Call::CE(i) => cops::EDITS[*i].1(&mut w, level),
                        Call::CM => cops::MAKE.1(&mut w, level),
                    };
                    out.push('\n');
                    crate::sched::mc_point();
                }
                out
            }));
        }
    }
    let x = execute(bodies, deviations);
    let mut problem = None;
    if x.deadlock {
        problem = Some("deadlock: every thread that has not ended waits for another".to_string());
    }
    if x.diverged {
        problem = Some("DIVERGED".to_string());
    }
    let mut results: Vec<String> = Vec::new();
    for (i, r) in x.results.into_iter().enumerate() {
        match r {
            Ok(s) => results.push(s),
            Err(e) => {
                results.push(String::new());
                problem = problem.or(Some(format!("thread {} {e}", only.unwrap_or(i))));
            }
        }
    }
    if problem.is_none() {
        if s.shared {
            results.push(shared.0.report());
        } else {
            for (i, w) in worlds.iter().enumerate() {
                if only.is_none_or(|o| o == i) {
                    results.push(w.0.lock().unwrap().report());
                }
            }
        }
    }
    Report { results, decisions: x.decisions, problem, yields: x.yields }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend((b.len() as u32).to_le_bytes());
    v.extend(b);
}

/// Runs one execution in a forked child. Err: the child died. With `want`, the child compares its
/// results with that and reports only a difference.
fn forked(s: &Scenario, w: &Worlds, only: Option<usize>, deviations: &[(u32, u8)], want: Option<&[String]>) -> Result<Report, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(20);
            let mut r = run(s, w, only, deviations);
            if let Some(want) = want {
                if r.problem.is_none() {
                    r.problem = differ(s, &r.results, want);
                }
                r.results.clear();
            }
            let mut v = Vec::new();
            v.extend(r.yields.to_le_bytes());
            put(&mut v, r.problem.as_deref().unwrap_or("").as_bytes());
            let d: Vec<u8> = r.decisions.iter().map(|(n, p)| n | u8::from(*p) << 7).collect();
            put(&mut v, &d);
            for x in &r.results {
                put(&mut v, x.as_bytes());
            }
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&v);
            drop(f);
            _exit(0);
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut v = Vec::new();
        let _ = f.read_to_end(&mut v);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if status != 0 {
            let sig = status & 127;
            return Err(if sig == 14 { "no end after 20 s".to_string() } else { format!("the process died (signal {sig}, status {status})") });
        }
        let mut at = 8;
        let mut parts: Vec<Vec<u8>> = Vec::new();
        while at + 4 <= v.len() {
            let n = u32::from_le_bytes(v[at..at + 4].try_into().unwrap()) as usize;
            parts.push(v[at + 4..at + 4 + n].to_vec());
            at += 4 + n;
        }
        if parts.len() < 2 {
            return Err("the process ended without a report".into());
        }
        let problem = String::from_utf8_lossy(&parts[0]).into_owned();
        Ok(Report {
            yields: u64::from_le_bytes(v[..8].try_into().unwrap()),
            problem: (!problem.is_empty()).then_some(problem),
            decisions: parts[1].iter().map(|b| (b & 127, b >> 7 == 1)).collect(),
            results: parts.into_iter().skip(2).map(|p| String::from_utf8(p).unwrap_or_default()).collect(),
        })
    }
}

fn differ(s: &Scenario, got: &[String], want: &[String]) -> Option<String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let at = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(80).min(s.len())..(at + 80).min(s.len())]).into_owned();
            let who = if i < s.bodies.len() {
                format!("thread {i} got")
            } else {
                format!("afterwards the object of thread {} reports", i - s.bodies.len())
            };
            return Some(format!("{who} ..{:?}.., alone it is ..{:?}..", cut(g), cut(w)));
        }
    }
    (got.len() != want.len()).then(|| format!("{} results, expected {}", got.len(), want.len()))
}

struct Counts {
    executions: u64,
    nodes: u64,
    points: u64,
    most: u64,
    capped: u64,
}

/// Searches every schedule of one scenario. Err: (what, schedule).
fn search(s: &Scenario, w: &Worlds, max: u64, c: &mut Counts) -> Result<(), String> {
    // What each body gives alone
    let mut want = Vec::new();
    let mut after = Vec::new();
    for i in 0..s.bodies.len() {
        let r = forked(s, w, Some(i), &[], None)?;
        if let Some(p) = r.problem {
            return Err(format!("alone, thread {i}: {p}"));
        }
        want.push(r.results[0].clone());
        if !s.shared || i == 0 {
            after.push(r.results[1].clone());
        }
    }
    want.extend(after);
    let mut stack: Vec<Vec<(u32, u8)>> = vec![vec![]];
    let mut n = 0;
    while let Some(dev) = stack.pop() {
        if n >= max {
            c.capped += 1;
            return Ok(());
        }
        n += 1;
        let judge = |dev: &[(u32, u8)]| -> Result<(Report, Option<String>), String> {
            let r = forked(s, w, None, dev, Some(&want))?;
            let bad = r.problem.clone();
            Ok((r, bad))
        };
        let (r, bad) = match judge(&dev) {
            Ok(x) => x,
            Err(e) => (
                Report { results: vec![], decisions: vec![], problem: None, yields: 0 },
                Some(e),
            ),
        };
        if let Some(bad) = bad {
            if bad == "DIVERGED" {
                eprintln!("engine error: schedule {dev:?} of {} diverged", s.show());
                std::process::exit(3);
            }
            // The same schedule must do it again
            for _ in 0..2 {
                match judge(&dev) {
                    Ok((_, Some(again))) if again == bad => (),
                    Err(e) if e == bad => (),
                    x => {
                        eprintln!(
                            "engine error: schedule {dev:?} of {} gave {bad}, and then {:?}",
                            s.show(),
                            x.map(|x| x.1)
                        );
                        std::process::exit(3);
                    }
                }
            }
            return Err(format!("{bad}; schedule: {dev:?} (decision number, choice) of {} decisions", r.decisions.len()));
        }
        let from = dev.last().map_or(0, |d| d.0 as usize + 1);
        let mut cost = 0;
        for (i, _) in &dev {
            cost += usize::from(r.decisions[*i as usize].1);
        }
        c.executions += 1;
        c.points += r.decisions.len() as u64;
        c.most = c.most.max(r.decisions.len() as u64);
        c.nodes += (r.decisions.len() - from.min(r.decisions.len())) as u64;
        if r.yields > 4 {
            // A spinning thread is let go on only so often
            c.capped += 1;
            continue;
        }
        for (i, (enabled, preempts)) in r.decisions.iter().enumerate().skip(from) {
            if cost + usize::from(*preempts) > s.bound {
                continue;
            }
            for alt in 1..*enabled {
                let mut d = dev.clone();
                d.push((i as u32, alt));
                stack.push(d);
            }
        }
    }
    Ok(())
}

/// `explore TIER I...`: searches scenarios, reporting one line each.
pub fn child(tier: Tier, which: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|info| crate::engine::note_panic(info.to_string())));
    let all = scenarios(tier);
    // The first one decides how the objects begin
    let w = Worlds::new(&all[which[0].parse::<usize>().unwrap()]);
    for i in which {
        let i: usize = i.parse().unwrap();
        let mut s = &all[i];
        let coarser = Scenario { level: 1, bound: s.bound, shared: s.shared, bodies: s.bodies.clone() };
        if s.level == 2 {
            // A scenario with too many points is searched with the coarser ones
            if let Ok(r) = forked(s, &w, None, &[], None) {
                if r.decisions.len() > tier.pick(3000, 12_000) {
                    s = &coarser;
                }
            }
        }
        let mut c = Counts { executions: 0, nodes: 0, points: 0, most: 0, capped: 0 };
        let r = search(s, &w, tier.pick(60_000, 400_000), &mut c);
        println!("{i} {} {} {} {} {} {}", c.executions, c.nodes, c.points, c.most, c.capped, s.level);
        if let Err(e) = r {
            println!("BAD {}", e.replace('\n', "\\n"));
        }
    }
    0
}

// ---------------------------------------------------------------- jobs

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Unsure {
    fn sendable(&self) -> bool {
        false
    }
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Unsure for &Probe<T> {}
struct SendProbe<T>(PhantomData<T>);
impl<T> Unsure for &SendProbe<T> {}
impl<T: Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T: Send> SendProbe<T> {
    fn sendable(&self) -> bool {
        true
    }
}

fn marks(ctx: &mut Ctx) {
    macro_rules! one {
        ($t:ty) => {
            ctx.stats.states += 1;
            ctx.distinct(hash_str(stringify!($t)));
            if !ctx.case(
                || format!("{} can be shared with and sent to another thread", stringify!($t)),
                || {
                    if !(&Probe::<$t>(PhantomData)).shareable() {
                        return Err(format!("{} is not Sync: several threads cannot read one", stringify!($t)));
                    }
                    if !(&SendProbe::<$t>(PhantomData)).sendable() {
                        return Err(format!("{} is not Send: a thread cannot have its own", stringify!($t)));
                    }
                    Ok(())
                },
            ) {
                return;
            }
        };
    }
    one!(graphrox::Graph);
    one!(graphrox::CompressedGraph);
    one!(graphrox::matrix::CsrAdjacencyMatrix);
    one!(graphrox::matrix::CsrSquareMatrix<f64>);
    one!(graphrox::matrix::CsrSquareMatrix<i128>);
    one!(graphrox::builder::CompressedGraphBuilder);
    one!(graphrox::error::GraphRoxError);
}

pub fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![job("types can be used from several threads", marks)];
    let n = scenarios(tier).len();
    let size = tier.pick(8, 4);
    for lo in (0..n).step_by(size) {
        v.push(job(format!("scenarios {lo}..{}", (lo + size).min(n)), move |ctx| {
            let all = scenarios(tier);
            for i in lo..(lo + size).min(n) {
                let s = &all[i];
                let mut line = String::new();
                let ok = ctx.case(
                    || s.show(),
                    || {
                        let out = Command::new(std::env::current_exe().unwrap())
                            .args(["explore", tier.name(), &i.to_string()])
                            .stdin(Stdio::null())
                            .output()
                            .map_err(|e| format!("engine: {e}"))?;
                        let text = String::from_utf8_lossy(&out.stdout).into_owned();
                        if !out.status.success() {
                            eprintln!("{}", String::from_utf8_lossy(&out.stderr));
                            eprintln!("engine error: exploring scenario {i} ended with {}", out.status);
                            std::process::exit(3);
                        }
                        line = text.lines().next().unwrap_or("").to_string();
                        match text.lines().find_map(|l| l.strip_prefix("BAD ")) {
                            Some(b) => Err(b.to_string()),
                            None => Ok(()),
                        }
                    },
                );
                let x: Vec<u64> = line.split(' ').filter_map(|x| x.parse().ok()).collect();
                if x.len() == 7 {
                    ctx.stats.traces += x[1];
                    ctx.stats.states += x[2];
                    ctx.stats.transitions += x[3];
                    ctx.note("scenarios_not_searched_to_the_end", x[5]);
                    ctx.distinct(hash_str(&s.show()));
                    let kind = format!("schedules_with_points_at_{}", ["call_boundaries", "allocations_and_statics", "every_block_and_access"][x[6] as usize]);
                    ctx.note(&kind, x[1]);
                    if x[6] != s.level as u64 {
                        ctx.note("scenarios_searched_with_coarser_points", 1);
                    }
                }
                if !ok {
                    return;
                }
            }
        }));
    }
    v
}
