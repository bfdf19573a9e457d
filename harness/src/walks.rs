//! Iterators used through every way an iterator can be driven, not only `next`: positions reached
//! by `next`, `nth`, `skip`, `step_by` and `take`; the rest consumed by `count`, `last`, `fold`,
//! `collect` and `find`; the size hint at every position.

use crate::engine::{job, Job, Tier};
use crate::model::Edge;
use crate::obs::{build, ensure, Res};
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use std::collections::BTreeSet;
use std::fmt::Debug;

fn spread(n: usize) -> Vec<usize> {
    let s: BTreeSet<usize> = [0, 1, 2, 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n]
        .into_iter()
        .filter(|x| *x <= n)
        .collect();
    s.into_iter().collect()
}

/// One object's iterator; the elements expected are distinct. Returns the number of walks.
pub fn walks<T, K, I>(mk: impl Fn() -> I, key: impl Fn(T) -> K, want: &BTreeSet<K>) -> Result<u64, String>
where
    K: Ord + Clone + Debug,
    I: Iterator<Item = T>,
{
    let n = want.len();
    let mut count = 0;
    // The first p elements by next(), with the hint before each
    let start = |p: usize| -> Result<(I, BTreeSet<K>), String> {
        let mut it = mk();
        let mut seen = BTreeSet::new();
        for i in 0..p {
            hint(&it, n - i)?;
            let Some(x) = it.next() else {
                return Err(format!("next() ends after {i} of {n} elements"));
            };
            let x = key(x);
            ensure!(want.contains(&x), "next() yields {x:?}, which is not there");
            ensure!(seen.insert(x.clone()), "next() yields {x:?} twice");
        }
        hint(&it, n - p)?;
        Ok((it, seen))
    };
    // The rest, of which all are new and `left` are left
    let rest = |v: Vec<T>, seen: &mut BTreeSet<K>, left: usize, what: &str| -> Res {
        ensure!(v.len() == left, "{what}: {} elements are left, expected {left}", v.len());
        for x in v {
            let x = key(x);
            ensure!(want.contains(&x), "{what} leads to {x:?}, which is not there");
            ensure!(seen.insert(x.clone()), "{what} leads to {x:?} again");
        }
        Ok(())
    };
    for p in spread(n) {
        let left = n - p;
        for k in spread(left + 1) {
            let (mut it, mut seen) = start(p)?;
            let what = format!("after {p} of {n}, nth({k})");
            let x = it.nth(k);
            ensure!(x.is_some() == (k < left), "{what} is {}", x.is_some());
            if let Some(x) = x {
                let x = key(x);
                ensure!(want.contains(&x) && seen.insert(x.clone()), "{what} yields {x:?}, not new");
                hint(&it, left - k - 1)?;
                rest(it.by_ref().collect(), &mut seen, left - k - 1, &what)?;
            }
            ensure!(it.next().is_none(), "{what}: goes on after its end");

            let (it, mut seen) = start(p)?;
            rest(it.skip(k).collect(), &mut seen, left.saturating_sub(k), &format!("after {p} of {n}, skip({k})"))?;

            let (mut it, mut seen) = start(p)?;
            let what = format!("after {p} of {n}, take({k})");
            let first: Vec<T> = it.by_ref().take(k).collect();
            rest(first, &mut seen, k.min(left), &what)?;
            hint(&it, left - k.min(left))?;
            rest(it.by_ref().collect(), &mut seen, left - k.min(left), &what)?;
            ensure!(seen == *want, "{what}: {seen:?} in all, expected {want:?}");
            ensure!(it.next().is_none(), "{what}: goes on after its end");

            let (it, mut seen) = start(p)?;
            let what = format!("after {p} of {n}, step_by({})", k + 1);
            rest(it.step_by(k + 1).collect(), &mut seen, left.div_ceil(k + 1), &what)?;
            count += 4;
        }
        let (it, _) = start(p)?;
        let c = it.count();
        ensure!(c == left, "after {p} of {n}, count() is {c}");

        let (it, mut seen) = start(p)?;
        let l = it.last();
        ensure!(l.is_some() == (left > 0), "after {p} of {n}, last() is {}", l.is_some());
        rest(l.into_iter().collect(), &mut seen, left.min(1), "last()")?;

        let (it, mut seen) = start(p)?;
        let v = it.fold(Vec::new(), |mut v, x| {
            v.push(x);
            v
        });
        rest(v, &mut seen, left, &format!("after {p} of {n}, fold()"))?;
        ensure!(seen == *want, "after {p} of {n}, fold() leads to {seen:?}, expected {want:?}");

        // find() stops right after what it finds
        let (mut it, mut seen) = start(p)?;
        let mut passed = Vec::new();
        let target = want.iter().find(|k| !seen.contains(*k)).cloned();
        if let Some(target) = target {
            let found = it.by_ref().find_map(|x| {
                let x = key(x);
                let hit = x == target;
                passed.push(x);
                hit.then_some(())
            });
            ensure!(found.is_some(), "after {p} of {n}, find() misses {target:?}");
            let m = passed.len();
            for x in passed {
                ensure!(want.contains(&x) && seen.insert(x.clone()), "find() passes {x:?}, not new");
            }
            rest(it.by_ref().collect(), &mut seen, left - m, "find()")?;
            ensure!(seen == *want, "after find(), {seen:?} in all, expected {want:?}");
        }
        count += 4;
    }
    Ok(count)
}

fn hint<I: Iterator>(it: &I, left: usize) -> Res {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.is_none_or(|h| h >= left), "size_hint() is ({lo}, {hi:?}) with {left} elements left");
    Ok(())
}

/// Cells of a matrix of `n` columns: which are there, and which were there and are no more.
fn states(tier: Tier) -> Vec<(u64, u64, u64)> {
    let mut v = Vec::new();
    for n in 1..=3u64 {
        for mask in 0..1u64 << (n * n) {
            let full = (1 << (n * n)) - 1;
            for gone in [0, full & !mask, full & !mask & 0b101_010_101, full & !mask & 0b111] {
                if gone == 0 || !v.contains(&(n, mask, gone)) {
                    v.push((n, mask, gone));
                }
            }
        }
    }
    if tier == Tier::Thorough {
        for mask in 0..1u64 << 16 {
            v.push((4, mask, 0xffff & !mask));
        }
    }
    v
}

fn large() -> Vec<(&'static str, Vec<Edge>, Vec<Edge>)> {
    let mut v = Vec::new();
    for n in [5u64, 8, 20, 70, 300] {
        v.push(("loops", (0..n).map(|i| (i, i)).collect(), vec![]));
        v.push(("one column", (0..n).map(|i| (3, i)).collect(), vec![]));
        v.push(("one row", (0..n).map(|i| (i, 3)).collect(), vec![]));
        v.push(("columns of every length", (0..n).flat_map(|i| (0..i % 5).map(move |j| (i, j))).collect(), vec![]));
        v.push((
            "every other column emptied",
            (0..n).flat_map(|i| [(i, 0), (i, i)]).collect(),
            (0..n).step_by(2).flat_map(|i| [(i, 0), (i, i)]).collect(),
        ));
    }
    v
}

fn cells(n: u64, mask: u64) -> Vec<Edge> {
    (0..n * n).filter(|i| mask >> i & 1 == 1).map(|i| (i / n, i % n)).collect()
}

type Walker = fn(&[Edge], &[Edge]) -> Result<u64, String>;

fn left(there: &[Edge], gone: &[Edge]) -> BTreeSet<Edge> {
    there.iter().filter(|e| !gone.contains(e)).copied().collect()
}

fn graph_walks(there: &[Edge], gone: &[Edge]) -> Result<u64, String> {
    let mut n = 0;
    for und in [false, true] {
        let mut m = crate::model::RG::new(und);
        for e in there {
            m.add_edge(e.0, e.1);
        }
        let mut g = build(&m);
        for e in gone {
            g.delete_edge(e.0, e.1);
            m.delete_edge(e.0, e.1);
        }
        n += walks(|| (&g).into_iter(), |e| e, &m.e)?;
    }
    Ok(n)
}

fn adjacency_walks(there: &[Edge], gone: &[Edge]) -> Result<u64, String> {
    let mut a = CsrAdjacencyMatrix::new();
    for e in there {
        a.set_entry(1, e.0, e.1);
    }
    for e in gone {
        a.zero_entry(e.0, e.1);
    }
    walks(|| (&a).into_iter(), |e| e, &left(there, gone))
}

fn square_walks(there: &[Edge], gone: &[Edge]) -> Result<u64, String> {
    let mut a: CsrSquareMatrix<i16> = CsrSquareMatrix::new();
    let mut b: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
    let value = |e: &Edge| (e.0 * 7 + e.1) as i16 % 50 + 1;
    for e in there {
        a.set_entry(value(e), e.0, e.1);
        b.set_entry(f64::from(value(e)) / 8.0, e.0, e.1);
    }
    for e in gone {
        a.zero_entry(e.0, e.1);
        b.set_entry(0.0, e.0, e.1);
    }
    let want = left(there, gone).iter().map(|e| (value(e), e.0, e.1)).collect();
    Ok(walks(|| (&a).into_iter(), |e| e, &want)? + walks(|| (&b).into_iter(), |e| ((e.0 * 8.0) as i16, e.1, e.2), &want)?)
}

fn walk_jobs(tier: Tier, name: &'static str, walker: Walker) -> Vec<Job> {
    let mut v = Vec::new();
    let all = states(tier);
    for chunk in all.chunks(all.len().div_ceil(16)) {
        let chunk = chunk.to_vec();
        v.push(job(format!("{name} walked from cells {:?}", chunk[0]), move |ctx| {
            for (n, mask, gone) in &chunk {
                // What is gone was there
                let there = cells(*n, mask | gone);
                let gone = cells(*n, *gone);
                let mut count = 0;
                let ok = ctx.case(
                    || format!("{name} of entries {there:?} without {gone:?}, iterated in every way"),
                    || {
                        count = walker(&there, &gone)?;
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += count;
                ctx.stats.traces += count;
                ctx.distinct(n << 60 | mask << 20 | gone.len() as u64);
            }
        }));
    }
    v.push(job(format!("{name} walked, large"), move |ctx| {
        for (what, there, gone) in large() {
            let mut count = 0;
            let ok = ctx.case(
                || format!("{name}: {what}, {} entries, {} removed again, iterated in every way", there.len(), gone.len()),
                || {
                    count = walker(&there, &gone)?;
                    Ok(())
                },
            );
            if !ok {
                return;
            }
            ctx.stats.transitions += count;
            ctx.stats.traces += count;
        }
    }));
    v
}

pub fn graph_jobs(tier: Tier) -> Vec<Job> {
    walk_jobs(tier, "a graph", graph_walks)
}

pub fn adjacency_jobs(tier: Tier) -> Vec<Job> {
    walk_jobs(tier, "an adjacency matrix", adjacency_walks)
}

pub fn square_jobs(tier: Tier) -> Vec<Job> {
    walk_jobs(tier, "a square matrix", square_walks)
}
