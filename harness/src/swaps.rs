//! Reads around edits of larger objects that leave as much as possible as it was: counts, degrees,
//! sums. What a read remembers from before such an edit shows in the read after it.

use crate::engine::{job, mix, seed_thread, Ctx, Job, Tier};
use crate::gen;
use crate::model::{Edge, RG};
use crate::obs::*;
use crate::p_matrix::AM;
use crate::reads::*;
use crate::sq::Sq;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::Graph;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug)]
pub enum Edit {
    Add(Edge),
    Delete(Edge),
}

/// Evaluates on a thread of its own, so that nothing this thread did before can matter.
pub fn apart<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        s.spawn(|| {
            seed_thread(77);
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

fn pick<T: Copy>(v: &[T], k: usize) -> Vec<T> {
    if v.len() <= k {
        return v.to_vec();
    }
    (0..k).map(|i| v[i * (v.len() - 1) / (k - 1)]).collect()
}

/// Edits by deletions and additions of the same number of edges, with the IDs they touch.
pub fn swaps(m: &RG) -> Vec<(Vec<Edit>, Vec<u64>)> {
    let edges: Vec<Edge> = m.e.iter().copied().filter(|(a, b)| !m.und || a <= b).collect();
    let ids: Vec<u64> = m.e.iter().flat_map(|(a, b)| [*a, *b]).collect::<BTreeSet<_>>().into_iter().collect();
    let free = |e: &Edge| !m.has(e.0, e.1) && !(m.und && m.has(e.1, e.0));
    let mut v = Vec::new();
    let mut push = |d: &[Edge], a: &[Edge]| {
        let touched: BTreeSet<u64> = d.iter().chain(a).flat_map(|(a, b)| [*a, *b]).collect();
        let del = d.iter().map(|e| Edit::Delete(*e));
        let add = a.iter().map(|e| Edit::Add(*e));
        v.push((del.clone().chain(add.clone()).collect::<Vec<_>>(), touched.iter().copied().collect::<Vec<_>>()));
        v.push((add.chain(del).collect(), touched.into_iter().collect()));
    };
    let few = pick(&ids, 4);
    for e in pick(&edges, 3) {
        // In the same column, in the same row, the mirror, and elsewhere
        let mut to: Vec<Edge> = Vec::new();
        to.extend(few.iter().map(|x| (e.0, *x)).filter(free).take(1));
        to.extend(few.iter().map(|x| (*x, e.1)).filter(free).take(1));
        to.extend([(e.1, e.0)].into_iter().filter(free));
        to.extend(few.iter().flat_map(|x| few.iter().map(move |y| (*y, *x))).filter(free).take(1));
        for f in to {
            if !(m.und && (f.1, f.0) == e) {
                push(&[e], &[f]);
            }
        }
    }
    // Two edges exchange their ends: every degree stays, and every sum over the edges
    let mut found = 0;
    'outer: for (i, e) in edges.iter().enumerate() {
        for f in edges[i + 1..].iter().rev() {
            let new = [(e.0, f.1), (f.0, e.1)];
            if new.iter().all(free) && new[0] != new[1] && !(m.und && new[0] == (new[1].1, new[1].0)) {
                push(&[*e, *f], &new);
                found += 1;
                if found == 3 {
                    break 'outer;
                }
                break;
            }
        }
    }
    v
}

fn build(m: &RG) -> Graph {
    let mut g = if m.und { Graph::new_undirected() } else { Graph::new_directed() };
    for (a, b) in &m.e {
        g.add_edge(*a, *b);
    }
    if m.n > 0 {
        g.add_vertex(m.n - 1, None);
    }
    g
}

fn edit(g: &mut Graph, edits: &[Edit]) {
    for e in edits {
        match e {
            Edit::Add((a, b)) => g.add_edge(*a, *b),
            Edit::Delete((a, b)) => g.delete_edge(*a, *b),
        }
    }
}

pub fn neighbour_reads(ids: &[u64]) -> Vec<Read> {
    let mut v = vec![Read::Iterate, Read::IterateHalf];
    for a in ids {
        v.extend([Read::Out(*a), Read::In(*a), Read::OutDegree(*a), Read::InDegree(*a)]);
    }
    v
}

/// One read, one edit, the same read; and the read of two graphs in turn, one being the other edited.
pub fn graph_swaps(ctx: &mut Ctx, m: &RG, reads: fn(&[u64]) -> Vec<Read>) -> bool {
    ctx.stats.states += 1;
    ctx.distinct(m.hash64());
    for (edits, ids) in swaps(m) {
        let reads = reads(&ids);
        ctx.stats.transitions += (edits.len() * reads.len()) as u64;
        ctx.stats.traces += reads.len() as u64;
        if !ctx.case(
            || format!("{}: {edits:?} between a read and the same read", m.show()),
            || {
                let (before, after) = apart(|| {
                    let mut g = build(m);
                    let before: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                    edit(&mut g, &edits);
                    let mut edited = m.clone();
                    for e in &edits {
                        match e {
                            Edit::Add((a, b)) => edited.add_edge(*a, *b),
                            Edit::Delete((a, b)) => edited.delete_edge(*a, *b),
                        }
                    }
                    let h = build(&edited);
                    let after: Vec<String> = apart(|| reads.iter().map(|r| r.of(&h)).collect());
                    (before, after)
                });
                let mut g = build(m);
                for ((r, before), after) in reads.iter().zip(&before).zip(&after) {
                    let got = r.of(&g);
                    ensure!(got == *before, "{r:?} gives {got}, expected {before}");
                    let mut h = g.clone();
                    edit(&mut h, &edits);
                    let got = r.of(&h);
                    ensure!(got == *after, "{r:?} of an edited clone gives {got}, expected {after}");
                    let got = r.of(&g);
                    ensure!(got == *before, "{r:?} after that of an edited clone gives {got}, expected {before}");
                    edit(&mut g, &edits);
                    let got = r.of(&g);
                    ensure!(got == *after, "{r:?}, the edits, {r:?} gives {got}, expected {after}");
                    g = h;
                    edit(&mut g, &undo(&edits));
                }
                Ok(())
            },
        ) {
            return false;
        }
    }
    true
}

fn undo(edits: &[Edit]) -> Vec<Edit> {
    let inverse = edits.iter().rev().map(|e| match e {
        Edit::Add(e) => Edit::Delete(*e),
        Edit::Delete(e) => Edit::Add(*e),
    });
    inverse.collect()
}

fn bases(tier: Tier) -> Vec<(String, Vec<RG>)> {
    let mut v = Vec::new();
    for k in tier.pick(vec![3, 5, 9, 17, 33, 65], vec![3, 4, 5, 6, 7, 9, 12, 17, 24, 33, 48, 65, 100, 129]) {
        v.push((format!("{k} vertices with gaps"), gen::spread_families(&[k])));
    }
    for n in tier.pick(vec![5, 9, 17], vec![4, 5, 6, 8, 9, 12, 16, 17, 24, 33, 40]) {
        let mut f = gen::sparse_families(&[n]);
        if n < 20 {
            f.extend(gen::dense_families(&[n]));
        }
        f.retain(|m| !m.e.is_empty());
        v.push((format!("families n={n}"), f));
    }
    v
}

pub fn graph_jobs(tier: Tier, reads: fn(&[u64]) -> Vec<Read>, skip: usize) -> Vec<Job> {
    let mut v = Vec::new();
    for (name, gs) in bases(tier) {
        let gs: Vec<RG> = gs.into_iter().step_by(skip).collect();
        for (i, part) in gs.chunks(16).enumerate() {
            let part = part.to_vec();
            v.push(job(format!("reads around swaps, {name}, part {i}"), move |ctx| {
                for m in &part {
                    if !graph_swaps(ctx, m, reads) {
                        return;
                    }
                }
            }));
        }
    }
    v
}

// ---------------------------------------------------------------- adjacency matrices

type Reader<O> = (String, Box<dyn Fn(&O) -> String>);

fn adjacency_reads(ids: &[u64], n: u64) -> Vec<Reader<CsrAdjacencyMatrix>> {
    let mut v: Vec<Reader<CsrAdjacencyMatrix>> = vec![
        ("iteration".into(), Box::new(|a| format!("{:?}", a.into_iter().collect::<BTreeSet<_>>()))),
        ("entry_count".into(), Box::new(|a| a.entry_count().to_string())),
    ];
    if n <= 80 {
        v.push(("to_string".into(), Box::new(|a| a.to_string())));
    }
    for &x in ids {
        v.push((format!("row vector {x}"), Box::new(move |a| format!("{:?}", sorted(a.get_sparse_row_vector(x))))));
        v.push((format!("col vector {x}"), Box::new(move |a| format!("{:?}", sorted(a.get_sparse_col_vector(x))))));
        v.push((format!("row count {x}"), Box::new(move |a| a.row_nonzero_entry_count(x).to_string())));
        v.push((format!("col count {x}"), Box::new(move |a| a.col_nonzero_entry_count(x).to_string())));
        for &y in ids {
            v.push((format!("entry ({x}, {y})"), Box::new(move |a| a.get_entry(x, y).to_string())));
        }
    }
    v
}

fn adjacency_answer(name: &str, m: &AM) -> Option<String> {
    // What needs no second reading of the matrix to be known
    let number = |s: &str| s.parse::<u64>().ok();
    let rows = |x| m.e.iter().filter(|e| e.1 == x).map(|e| e.0).collect::<Vec<_>>();
    let cols = |x| m.e.iter().filter(|e| e.0 == x).map(|e| e.1).collect::<Vec<_>>();
    if name == "iteration" {
        return Some(format!("{:?}", m.e));
    }
    if name == "entry_count" {
        return Some(m.e.len().to_string());
    }
    if let Some(x) = name.strip_prefix("row vector ").and_then(number) {
        return Some(format!("{:?}", rows(x)));
    }
    if let Some(x) = name.strip_prefix("col vector ").and_then(number) {
        return Some(format!("{:?}", cols(x)));
    }
    if let Some(x) = name.strip_prefix("row count ").and_then(number) {
        return Some(rows(x).len().to_string());
    }
    if let Some(x) = name.strip_prefix("col count ").and_then(number) {
        return Some(cols(x).len().to_string());
    }
    None
}

pub fn adjacency_jobs(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    for (name, gs) in bases(tier) {
        let gs: Vec<RG> = gs.into_iter().filter(|m| !m.und).collect();
        for (i, part) in gs.chunks(16).enumerate() {
            let part = part.to_vec();
            v.push(job(format!("reads around swaps, {name}, part {i}"), move |ctx| {
                for m in &part {
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                    for (edits, ids) in swaps(m) {
                        let reads = adjacency_reads(&ids, m.n);
                        ctx.stats.transitions += (edits.len() * reads.len()) as u64;
                        ctx.stats.traces += reads.len() as u64;
                        if !ctx.case(
                            || format!("{}: {edits:?} between a read and the same read", m.show()),
                            || {
                                let make = |e: &BTreeSet<Edge>| {
                                    let mut a = CsrAdjacencyMatrix::new();
                                    e.iter().for_each(|(c, r)| a.set_entry(1, *c, *r));
                                    if m.n > 0 && a.dimension() < m.n {
                                        a.set_entry(0, m.n - 1, 0);
                                    }
                                    a
                                };
                                let mut want = AM { dim: m.n, e: m.e.clone() };
                                let old = want.clone();
                                for e in &edits {
                                    match e {
                                        Edit::Add(e) => want.e.insert(*e),
                                        Edit::Delete(e) => want.e.remove(e),
                                    };
                                }
                                let fresh = make(&want.e);
                                let mut a = make(&m.e);
                                for (name, r) in &reads {
                                    let first = r(&a);
                                    if let Some(w) = adjacency_answer(name, &old) {
                                        ensure!(first == w, "{name} is {first}, expected {w}");
                                    }
                                    for e in &edits {
                                        match e {
                                            Edit::Add((c, r)) => a.set_entry(1, *c, *r),
                                            Edit::Delete((c, r)) => a.zero_entry(*c, *r),
                                        }
                                    }
                                    let got = r(&a);
                                    let w = adjacency_answer(name, &want).unwrap_or_else(|| r(&fresh));
                                    ensure!(got == w, "{name}, the edits, {name} is {got}, expected {w}");
                                    for e in undo(&edits) {
                                        match e {
                                            Edit::Add((c, r)) => a.set_entry(1, c, r),
                                            Edit::Delete((c, r)) => a.set_entry(0, c, r),
                                        }
                                    }
                                    let got = r(&a);
                                    ensure!(got == first, "{name}, the edits undone, {name} is {got}, expected {first}");
                                }
                                Ok(())
                            },
                        ) {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v
}

// ---------------------------------------------------------------- numeric matrices

fn square_reads<S: Sq>(ids: &[u64], n: u64) -> Vec<Reader<S>> {
    let mut v: Vec<Reader<S>> = vec![
        (
            "iteration".into(),
            Box::new(|s| {
                let mut e: Vec<_> = s.entries().into_iter().map(|(v, c, r)| (c, r, format!("{v:?}"))).collect();
                e.sort();
                format!("{e:?}")
            }),
        ),
        ("entry_count".into(), Box::new(|s| s.count().to_string())),
    ];
    if n <= 80 {
        v.push(("to_string".into(), Box::new(|s| s.display())));
        v.push(("to_string_with_precision(3)".into(), Box::new(|s| format!("{:?}", s.text(3)))));
    }
    for &x in ids {
        for &y in ids {
            v.push((format!("entry ({x}, {y})"), Box::new(move |s| format!("{:?}", s.get(x, y)))));
        }
    }
    v
}

/// Entries exchanged, moved and incremented between two equal reads.
pub fn square_jobs<S: Sq>(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    for (name, gs) in bases(tier) {
        let gs: Vec<RG> = gs.into_iter().filter(|m| !m.und).step_by(tier.pick(3, 1)).collect();
        for (i, part) in gs.chunks(16).enumerate() {
            let part = part.to_vec();
            v.push(job(format!("{}: reads around swaps, {name}, part {i}", S::NAME), move |ctx| {
                let values: Vec<S::T> = S::values().into_iter().filter(|v| *v != S::nought() && S::succ(*v).is_some()).collect();
                if values.len() < 2 {
                    return;
                }
                let at = |e: &Edge| values[(mix(e.0 ^ mix(e.1)) % values.len() as u64) as usize];
                for m in &part {
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                    for (edits, ids) in swaps(m) {
                        let reads = square_reads::<S>(&ids, m.n);
                        ctx.stats.transitions += (edits.len() * reads.len()) as u64;
                        ctx.stats.traces += reads.len() as u64;
                        if !ctx.case(
                            || format!("{}: {edits:?} between a read and the same read", m.show()),
                            || {
                                let make = |e: &BTreeSet<Edge>| {
                                    let mut a = S::new();
                                    for c in e {
                                        a.set(at(c), c.0, c.1);
                                    }
                                    if m.n > 0 && a.dim() < m.n {
                                        a.set(S::nought(), m.n - 1, 0);
                                    }
                                    a
                                };
                                let mut want = m.e.clone();
                                for e in &edits {
                                    match e {
                                        Edit::Add(e) => want.insert(*e),
                                        Edit::Delete(e) => want.remove(e),
                                    };
                                }
                                let fresh = make(&want);
                                let after: Vec<String> = reads.iter().map(|(_, r)| r(&fresh)).collect();
                                let mut a = make(&m.e);
                                let touched: Vec<Edge> = m.e.iter().copied().take(2).collect();
                                for ((name, r), w) in reads.iter().zip(&after) {
                                    let first = r(&a);
                                    for e in &edits {
                                        match e {
                                            Edit::Add(e) => a.set(at(e), e.0, e.1),
                                            Edit::Delete(e) => a.zero(e.0, e.1),
                                        }
                                    }
                                    let got = r(&a);
                                    ensure!(got == *w, "{name}, the edits, {name} is {got}, expected {w}");
                                    for e in undo(&edits) {
                                        match e {
                                            Edit::Add(e) => a.set(at(&e), e.0, e.1),
                                            Edit::Delete(e) => a.set(S::nought(), e.0, e.1),
                                        }
                                    }
                                    let got = r(&a);
                                    ensure!(got == first, "{name}, the edits undone, {name} is {got}, expected {first}");
                                    // The same cells, other values
                                    if let [x, y] = touched[..] {
                                        let exchange = |a: &mut S| {
                                            let (p, q) = (a.get(x.0, x.1), a.get(y.0, y.1));
                                            a.set(q, x.0, x.1);
                                            a.set(p, y.0, y.1);
                                        };
                                        let mut b = make(&m.e);
                                        exchange(&mut b);
                                        let w = r(&b);
                                        exchange(&mut a);
                                        let got = r(&a);
                                        ensure!(got == w, "{name}, two entries exchanged, {name} is {got}, expected {w}");
                                        exchange(&mut a);
                                        let mut b = make(&m.e);
                                        b.inc(x.0, x.1);
                                        let w = r(&b);
                                        r(&a);
                                        a.inc(x.0, x.1);
                                        let got = r(&a);
                                        ensure!(got == w, "{name}, one entry incremented, {name} is {got}, expected {w}");
                                        a.set(at(&x), x.0, x.1);
                                    }
                                }
                                Ok(())
                            },
                        ) {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v
}

pub fn some_square_jobs(tier: Tier) -> Vec<Job> {
    let mut v = square_jobs::<CsrSquareMatrix<f64>>(tier);
    v.extend(square_jobs::<CsrSquareMatrix<u64>>(tier));
    if tier == Tier::Thorough {
        v.extend(square_jobs::<CsrSquareMatrix<i8>>(tier));
        v.extend(square_jobs::<CsrSquareMatrix<f32>>(tier));
    }
    v
}
