//! Histories with very many columns, rows or blocks, gone through by the program in /verif/deep,
//! which has the crate compiled without optimisation and a small stack.

use crate::engine::{hash_str, job, Job, Tier, VERIF};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HISTORIES: [&str; 12] = [
    "columns",
    "columns-emptied",
    "columns-emptied-but-first",
    "columns-emptied-but-last",
    "columns-every-second-emptied",
    "row",
    "row-emptied",
    "row-emptied-but-last",
    "path",
    "path-emptied",
    "blocks",
    "blocks-emptied-but-last",
];

/// Ends well, or says what went wrong. None: no answer in the time given.
fn run(group: &str, name: &str, n: u64) -> Option<Result<(), String>> {
    let mut child = Command::new(format!("{VERIF}/target/deep/debug/deep"))
        .args([group, name, &n.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .ok()?;
    // What it prints is less than what a pipe holds
    let end = Instant::now() + Duration::from_secs(35);
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut out = String::new();
    let mut err = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let _ = child.stderr.take().unwrap().read_to_string(&mut err);
    if status.success() {
        return Some(Ok(()));
    }
    // Ended by what frees memory when it runs low, which is no answer
    use std::os::unix::process::ExitStatusExt;
    if status.signal() == Some(9) {
        return None;
    }
    let last: Vec<&str> = out.lines().rev().take(2).collect();
    let last: Vec<&str> = last.into_iter().rev().collect();
    Some(Err(format!(
        "without optimisation, on a stack of 1 MB: {}; {status}; {}",
        last.join(" / "),
        err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" / ")
    )))
}

pub fn jobs(tier: Tier, groups: &'static [&'static str]) -> Vec<Job> {
    let mut v = Vec::new();
    for &group in groups {
        for part in HISTORIES.chunks(4) {
            v.push(job(format!("{group} after long histories: {}..", part[0]), move |ctx| {
                let sizes: Vec<u64> = tier.pick(vec![1, 2, 3, 1 << 10, 1 << 16], (0..17).map(|k| 1 << k).collect());
                for &name in part {
                    for &n in &sizes {
                        ctx.stats.states += n;
                        ctx.stats.transitions += 2 * n;
                        ctx.stats.traces += 1;
                        ctx.distinct(hash_str(name) ^ n);
                        let mut unanswered = false;
                        let go_on = ctx.case(
                            || format!("{name}, n={n}"),
                            || {
                                run(group, name, n).unwrap_or_else(|| {
                                    unanswered = true;
                                    Ok(())
                                })
                            },
                        );
                        if unanswered {
                            ctx.note("long histories without an answer in the time given", 1);
                        }
                        if !go_on {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v
}
