//! C01, C02, C03, C04: what a graph holds, lists and mirrors.

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::gen;
use crate::hist::*;
use crate::model::{Edge, RG};
use crate::obs::*;
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;

pub fn interesting_ids() -> Vec<u64> {
    let m = u64::MAX;
    vec![
        0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536,
        (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 7,
        1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, m - 9, m - 8, m - 2, m - 1, m,
    ]
}

fn label_sets() -> Vec<Vec<u64>> {
    gen::embeddings()
}

fn history_jobs(tier: Tier, check: GCheck) -> Vec<Job> {
    let mut jobs = Vec::new();
    for (i, l) in label_sets().into_iter().enumerate() {
        for und in [false, true] {
            let lists = i < 2 || tier == Tier::Thorough;
            let labels = l[..3].to_vec();
            let max = if und { 60_000 } else { 60_000 };
            // Directed searches over three labels close at a few thousand states; the list-free
            // ones over two labels are cheap enough for every label set
            let labels = if !und && i >= 4 && tier == Tier::Quick {
                l[..2].to_vec()
            } else {
                labels
            };
            jobs.push(job(
                format!("bfs und={und} labels={labels:?} lists={lists}"),
                move |ctx| {
                    let s = GraphSys {
                        und,
                        ops: graph_ops(&labels, lists),
                        labels: labels.clone(),
                        check,
                    };
                    bfs(ctx, &s, 64, max);
                },
            ));
        }
    }
    if tier == Tier::Thorough {
        for und in [false, true] {
            let labels = vec![0u64, 1, 8, 9];
            jobs.push(job(format!("bfs4 und={und} labels={labels:?}"), move |ctx| {
                let s = GraphSys {
                    und,
                    ops: graph_ops(&labels, false),
                    labels: labels.clone(),
                    check,
                };
                bfs(ctx, &s, if und { 64 } else { 7 }, 60_000);
            }));
        }
    }
    // Every sequence, no deduplication, every subset of reading points
    for und in [false, true] {
        for labels in [vec![0u64, 1], vec![7, 8], vec![u64::MAX - 1, 3]] {
            let mut ops = graph_ops(&labels, false);
            ops.push(GOp::AddVertexWith(labels[0], vec![labels[1], labels[1]]));
            ops.push(GOp::AddVertexWith(labels[1], vec![labels[1], labels[0]]));
            let depth = tier.pick(4, 5);
            for first in 0..ops.len() {
                let (ops, labels) = (ops.clone(), labels.clone());
                jobs.push(job(
                    format!("sequences und={und} labels={labels:?} depth={depth} first={first}"),
                    move |ctx| {
                        let s = GraphSys {
                            und,
                            ops: ops.clone(),
                            labels: labels.clone(),
                            check,
                        };
                        sequences(ctx, &s, depth, Some(first));
                    },
                ));
            }
        }
    }
    jobs
}

/// Two edges over all pairs of interesting IDs, added, one deleted: aliasing between IDs.
fn pair_jobs(tier: Tier) -> Vec<Job> {
    let ids = interesting_ids();
    let mut jobs = Vec::new();
    for und in [false, true] {
        for a in ids.clone() {
            let ids = ids.clone();
            jobs.push(job(format!("edge pairs und={und} first from {a}"), move |ctx| {
                for b in &ids {
                    for c in &ids {
                        for d in &ids {
                            if tier == Tier::Quick && (c ^ d ^ b) % 3 != 0 && ![a, *b].contains(c) && ![a, *b].contains(d) {
                                continue;
                            }
                            let ok = ctx.case(
                                || format!("und={und}: add ({a}, {b}), add ({c}, {d}), delete ({a}, {b})"),
                                || {
                                    let mut g = new_graph(und);
                                    let mut m = RG::new(und);
                                    let p = [a, *b, *c, *d];
                                    for op in [
                                        GOp::AddEdge(a, *b),
                                        GOp::AddEdge(*c, *d),
                                        GOp::DeleteEdge(a, *b),
                                    ] {
                                        apply_g(&mut g, &op);
                                        apply_m(&mut m, &op);
                                        check_edges(&g, &m, &p)
                                            .map_err(|e| format!("after {op:?}: {e}"))?;
                                    }
                                    Ok(())
                                },
                            );
                            if !ok {
                                return;
                            }
                            ctx.stats.traces += 1;
                            ctx.stats.transitions += 3;
                            ctx.distinct(mix(a) ^ mix(*b).rotate_left(1) ^ mix(*c).rotate_left(2) ^ mix(*d).rotate_left(3));
                        }
                    }
                }
            }));
        }
    }
    jobs
}

/// Long histories with light checks at every step: counters and tables that grow large.
fn growth_jobs(tier: Tier) -> Vec<Job> {
    let mut jobs = Vec::new();
    let n: u64 = tier.pick(70_000, 300_000);
    type Shape = (&'static str, fn(u64) -> Edge);
    let shapes: [Shape; 6] = [
        ("star out", |i| (5, i)),
        ("star in", |i| (i, 5)),
        ("path", |i| (i, i + 1)),
        ("loops", |i| (i, i)),
        ("square", |i| (i % 271, i / 271)),
        ("spread", |i| (i << 40, i << 24)),
    ];
    for und in [false, true] {
        for (name, f) in shapes {
            jobs.push(job(format!("growth {name} und={und} n={n}"), move |ctx| {
                let light = |g: &Graph, m: &RG, e: Edge, want: bool| -> Res {
                    ensure!(
                        g.edge_count() == m.e.len() as u64,
                        "edge_count() is {}, expected {}",
                        g.edge_count(),
                        m.e.len()
                    );
                    ensure!(
                        g.vertex_count() == m.n,
                        "vertex_count() is {}, expected {}",
                        g.vertex_count(),
                        m.n
                    );
                    ensure!(
                        g.does_edge_exist(e.0, e.1) == want,
                        "does_edge_exist{e:?} is {}",
                        !want
                    );
                    ensure!(
                        g.does_edge_exist(e.1, e.0) == m.has(e.1, e.0),
                        "does_edge_exist of the mirror of {e:?} is wrong"
                    );
                    Ok(())
                };
                let mut g = new_graph(und);
                let mut m = RG::new(und);
                let mut go = true;
                // Add each (some twice), re-add, delete half, re-add, delete all
                for phase in 0..4 {
                    for i in 0..n {
                        if phase == 1 && i % 2 == 0 {
                            continue;
                        }
                        let e = f(i);
                        let del = phase == 1 || phase == 3;
                        go = ctx.case(
                            || format!("{name}: phase {phase}, step {i}, edge {e:?}"),
                            || {
                                if del {
                                    g.delete_edge(e.0, e.1);
                                    m.delete_edge(e.0, e.1);
                                } else {
                                    g.add_edge(e.0, e.1);
                                    m.add_edge(e.0, e.1);
                                }
                                light(&g, &m, e, !del)
                            },
                        );
                        if !go {
                            return;
                        }
                        ctx.stats.transitions += 1;
                    }
                    go &= ctx.case(
                        || format!("{name}: all edges after phase {phase}"),
                        || {
                            for i in 0..n {
                                let e = f(i);
                                ensure!(
                                    g.does_edge_exist(e.0, e.1) == m.has(e.0, e.1),
                                    "does_edge_exist{e:?} is wrong"
                                );
                            }
                            Ok(())
                        },
                    );
                    if !go {
                        return;
                    }
                }
                ctx.stats.traces += 1;
            }));
        }
        // One ID twice (or three times) at every pair of positions of a list, periods, long lists
        jobs.push(job(format!("edge lists with repetitions und={und}"), move |ctx| {
            let mut lists: Vec<(String, Vec<u64>)> = Vec::new();
            for len in [2u64, 3, 9, 17, 24, 33] {
                for i in 0..len {
                    for j in i + 1..len {
                        let mut l: Vec<u64> = (0..len).map(|x| x * 5 % 37 + 1).collect();
                        l[j as usize] = l[i as usize];
                        lists.push((format!("{len} IDs, place {j} as place {i}"), l.clone()));
                        l.push(l[i as usize]);
                        lists.push((format!("{len} IDs, place {j} and the last as place {i}"), l));
                    }
                }
            }
            for period in 1..=70u64 {
                for len in [period + 1, 2 * period + 1, 150] {
                    lists.push((format!("period {period}, length {len}"), (0..len).map(|i| i % period * 3).collect()));
                }
            }
            for len in tier.pick(vec![1023u64, 1024, 1025, 4097, 9000, 70000], vec![1023, 1024, 1025, 4097, 9000, 70000, 300000]) {
                lists.push((format!("{len} IDs"), (0..len).collect()));
                lists.push((format!("{len} IDs, downwards and apart"), (0..len).rev().map(|i| i << 20).collect()));
                lists.push((format!("{len} IDs, half of them twice"), (0..len).map(|i| i * 7 % (len / 2)).collect()));
            }
            for (what, list) in &lists {
                for v in [0, 3] {
                    let ok = ctx.case(
                        || format!("add_vertex({v}, {what}) und={und}"),
                        || {
                            let mut g = new_graph(und);
                            let mut m = RG::new(und);
                            g.add_vertex(v, Some(list));
                            m.add_vertex(v, Some(list));
                            ensure!(g.edge_count() == m.e.len() as u64, "edge_count() is {}, expected {}", g.edge_count(), m.e.len());
                            ensure!(g.vertex_count() == m.n, "vertex_count() is {}, expected {}", g.vertex_count(), m.n);
                            for t in list {
                                ensure!(g.does_edge_exist(v, *t), "edge ({v}, {t}) is missing");
                                ensure!(g.does_edge_exist(*t, v) == m.has(*t, v), "edge ({t}, {v}) is wrong");
                            }
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                    ctx.distinct(mix(v) ^ crate::engine::hash_str(what));
                }
            }
        }));
        // Edge lists of every length up to 600, with repetitions
        jobs.push(job(format!("edge lists und={und}"), move |ctx| {
            for len in 0..600u64 {
                for (what, list) in [
                    ("0..len", (0..len).collect::<Vec<u64>>()),
                    ("len..0", (0..len).rev().collect()),
                    ("mod 7", (0..len).map(|i| i % 7).collect()),
                    ("wide", (0..len).map(|i| i << 33 | i).collect()),
                ] {
                    for v in [0, 3, 700] {
                        let ok = ctx.case(
                            || format!("add_vertex({v}, list {what} of {len}) und={und}, twice"),
                            || {
                                let mut g = new_graph(und);
                                let mut m = RG::new(und);
                                for _ in 0..2 {
                                    g.add_vertex(v, Some(&list));
                                    m.add_vertex(v, Some(&list));
                                    ensure!(g.edge_count() == m.e.len() as u64, "edge_count() is {}, expected {}", g.edge_count(), m.e.len());
                                    ensure!(g.vertex_count() == m.n, "vertex_count() is {}, expected {}", g.vertex_count(), m.n);
                                    for t in &list {
                                        ensure!(g.does_edge_exist(v, *t), "edge ({v}, {t}) is missing");
                                        ensure!(g.does_edge_exist(*t, v) == m.has(*t, v), "edge ({t}, {v}) is wrong");
                                    }
                                }
                                Ok(())
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += 2;
                        ctx.stats.traces += 1;
                        ctx.distinct(mix(len) ^ v ^ crate::engine::hash_str(what));
                    }
                }
            }
        }));
    }
    // Edge lists that name the last ID, which has no room, among others
    for und in [false, true] {
        jobs.push(job(format!("edge lists with the last ID, und={und}"), move |ctx| {
            let ids = [u64::MAX, 0, 3, 9, u64::MAX - 1];
            for len in 1..=tier.pick(4u32, 5) {
                for x in 0..5u64.pow(len) {
                    let list: Vec<u64> = (0..len).map(|i| ids[(x / 5u64.pow(i) % 5) as usize]).collect();
                    if list.iter().all(|t| *t == u64::MAX) {
                        continue;
                    }
                    for v in [0, 3, u64::MAX] {
                        let ok = ctx.case(
                            || format!("und={und}, add_vertex({v}, {list:?})"),
                            || {
                                let mut g = new_graph(und);
                                let mut m = RG::new(und);
                                g.add_vertex(v, Some(&list));
                                m.add_vertex(v, Some(&list));
                                check_edges(&g, &m, &ids)
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += 1;
                        ctx.stats.traces += 1;
                        ctx.distinct(mix(x) ^ v ^ u64::from(len));
                    }
                }
            }
        }));
    }
    jobs
}

pub fn c01(tier: Tier) -> Vec<Job> {
    let mut v = growth_jobs(tier);
    v.extend(history_jobs(tier, check_edges));
    v.extend(pair_jobs(tier));
    v
}

// ---------------------------------------------------------------- C02

fn check_lists_as_queried(g: &Graph, m: &RG, probes: &[u64]) -> Res {
    // The edge set is what the edge queries say; vertices the graph does not have are in `probes`
    let mut q = RG::new(g.is_undirected());
    q.n = m.n;
    for a in probes {
        for b in probes {
            if g.does_edge_exist(*a, *b) {
                q.e.insert((*a, *b));
            }
        }
    }
    check_lists(g, &q, probes)
}

/// All orders in which the columns of a graph can come out, and iterators side by side.
fn iteration_job(ctx: &mut Ctx, und: bool, n: u64, mask: u64, del: u64) {
    let m = gen::small(und, n, mask);
    let mut want = m.clone();
    let edges: Vec<Edge> = m.e.iter().copied().collect();
    for (i, e) in edges.iter().enumerate() {
        if del >> i & 1 == 1 {
            want.delete_edge(e.0, e.1);
        }
    }
    let cols: BTreeSet<u64> = m.e.iter().map(|e| e.0).collect();
    let all_orders: usize = (1..=cols.len()).product();
    let mut seen: BTreeSet<Vec<u64>> = BTreeSet::new();
    let mut tries = 0;
    while seen.len() < all_orders && tries < 40 * all_orders {
        tries += 1;
        let mut order: Vec<u64> = Vec::new();
        let ok = ctx.case(
            || format!("{} minus edges {del:b}, build {tries}", m.show()),
            || {
                let mut g = build(&m);
                // The order of the columns now, while every column still has an edge
                for (c, _) in &g {
                    if order.last() != Some(&c) {
                        order.push(c);
                    }
                }
                for (i, e) in edges.iter().enumerate() {
                    if del >> i & 1 == 1 {
                        g.delete_edge(e.0, e.1);
                    }
                }
                let got = iter_edges(&g)?;
                ensure!(got == want.e, "iteration yields {got:?}, expected {:?}", want.e);
                check_lists(&g, &want, &all_ids(n))
            },
        );
        if !ok {
            return;
        }
        ctx.stats.traces += 1;
        ctx.stats.transitions += 1;
        if seen.insert(order) {
            ctx.stats.states += 1;
            ctx.distinct(mix(mask) ^ mix(del << 20) ^ mix(tries as u64) ^ n);
        }
    }
    ctx.note("column_orders_seen", seen.len() as u64);
    ctx.note("column_orders_possible", all_orders as u64);
}

/// Every interleaving of two iterators over the same graph, and of one with reads of the graph.
fn interleave_job(ctx: &mut Ctx, m: &RG) {
    let k = m.e.len() + 2;
    if k > 6 {
        return;
    }
    for pick in 0..1u32 << (2 * k) {
        if pick.count_ones() as usize != k {
            continue;
        }
        let ok = ctx.case(
            || format!("{}: two iterators advanced by bits {pick:b}", m.show()),
            || {
                let g = build(m);
                let mut a = (&g).into_iter();
                let mut b = (&g).into_iter();
                let (mut xa, mut xb) = (Vec::new(), Vec::new());
                for i in 0..2 * k {
                    if pick >> i & 1 == 1 {
                        xa.push(a.next());
                    } else {
                        xb.push(b.next());
                        let _ = g.get_vertex_in_degree(0);
                    }
                }
                for x in [xa, xb] {
                    let got: BTreeSet<Edge> = x.iter().flatten().copied().collect();
                    ensure!(
                        x.iter().flatten().count() == m.e.len() && got == m.e,
                        "one of two iterators yields {x:?}, expected {:?}",
                        m.e
                    );
                    ensure!(
                        x.iter().skip_while(|e| e.is_some()).all(|e| e.is_none()),
                        "an iterator goes on after its end: {x:?}"
                    );
                }
                Ok(())
            },
        );
        if !ok {
            return;
        }
        ctx.stats.transitions += 2 * k as u64;
        ctx.stats.traces += 1;
    }
}

pub fn c02(tier: Tier) -> Vec<Job> {
    let mut v = history_jobs(tier, check_lists_as_queried);
    v.extend(crate::walks::graph_jobs(tier));
    v.extend(crate::swaps::graph_jobs(tier, crate::swaps::neighbour_reads, 1));
    v.extend(crate::deep::jobs(tier, &["reads"]));
    v.extend(crate::walks::adjacency_jobs(tier));
    for (und, n, count) in gen::small_spaces(Tier::Quick) {
        if n == 0 {
            continue;
        }
        let step = 64;
        let mut lo = 0;
        while lo < count {
            let hi = (lo + step).min(count);
            v.push(job(
                format!("iteration orders und={und} n={n} graphs {lo}..{hi}"),
                move |ctx| {
                    for mask in lo..hi {
                        let e = gen::small(und, n, mask).e.len();
                        // Delete nothing, everything, each single edge, and (few edges) every subset
                        let full = (1u64 << e) - 1;
                        let dels: Vec<u64> = if e <= tier.pick(3, 6) {
                            (0..=full).collect()
                        } else {
                            let mut d: Vec<u64> = vec![0, full];
                            d.extend((0..e).map(|i| 1 << i));
                            d.extend((0..e).map(|i| full ^ (1 << i)));
                            d
                        };
                        for d in dels {
                            iteration_job(ctx, und, n, mask, d);
                        }
                        interleave_job(ctx, &gen::small(und, n, mask));
                        if ctx.stopped() {
                            return;
                        }
                    }
                },
            ));
            lo = hi;
        }
    }
    // Many emptied columns; many neighbours; adjacency matrices
    v.push(job("emptied columns", move |ctx| {
        for und in [false, true] {
            for cols in [1u64, 2, 10, 100, 1000, 20_000] {
                for keep in [0, 1, cols / 2, cols.saturating_sub(1), cols] {
                    let ok = ctx.case(
                        || format!("und={und} {cols} columns, all but {keep} emptied"),
                        || {
                            let mut g = new_graph(und);
                            let mut m = RG::new(und);
                            for c in 0..cols {
                                g.add_edge(c, c);
                                m.add_edge(c, c);
                            }
                            for c in keep..cols {
                                g.delete_edge(c, c);
                                m.delete_edge(c, c);
                            }
                            let got = iter_edges(&g)?;
                            ensure!(got == m.e, "iteration yields {} edges, expected {}", got.len(), m.e.len());
                            check_lists(&g, &m, &[0, 1, keep, cols, u64::MAX])
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                }
            }
        }
    }));
    let sizes: Vec<u64> = tier.pick(
        (1..20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect::<Vec<_>>(),
        (1..160).chain([255, 256, 257, 511, 512, 513, 1000]).collect(),
    );
    for n in sizes {
        v.push(job(format!("families n={n}"), move |ctx| {
            let mut gs = gen::sparse_families(&[n]);
            if n <= 130 {
                gs.extend(gen::dense_families(&[n]));
            }
            for m in gs {
                let ok = ctx.case(
                    || m.show(),
                    || {
                        let (g, r) = built(&m);
                        let ids: Vec<u64> = if n <= 40 { all_ids(n) } else { vec![0, 1, 7, 8, n / 2, n - 1, n, u64::MAX] };
                        check_lists(&g, &r, &ids)
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 1;
                ctx.stats.traces += 1;
                ctx.stats.states += 1;
                ctx.distinct(m.hash64());
            }
        }));
    }
    // Two neighbours of one vertex, over all IDs that may be taken for each other
    for und in [false, true] {
        for at in interesting_ids() {
            v.push(job(format!("neighbour pairs und={und} of {at}"), move |ctx| {
                let ids = interesting_ids();
                for (k, a) in ids.iter().enumerate() {
                    for b in &ids[k + 1..] {
                        ctx.stats.states += 1;
                        ctx.stats.transitions += 2;
                        ctx.stats.traces += 1;
                        ctx.distinct(mix(at) ^ mix(*a).rotate_left(1) ^ mix(*b).rotate_left(2) ^ u64::from(und));
                        if !ctx.case(
                            || format!("und={und}: edges of {at} to and from {a} and {b}"),
                            || {
                                for out in [false, true] {
                                    let mut g = new_graph(und);
                                    let mut m = RG::new(und);
                                    for w in [*a, *b] {
                                        let (x, y) = if out { (at, w) } else { (w, at) };
                                        g.add_edge(x, y);
                                        m.add_edge(x, y);
                                    }
                                    check_lists(&g, &m, &[at, *a, *b])?;
                                }
                                Ok(())
                            },
                        ) {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // Few of many vertices, and columns that were emptied
    crate::p_derive::spread_jobs(&mut v, tier, "lists", |ctx, m| {
        for emptied in [0u64, 20] {
            ctx.stats.transitions += 1;
            ctx.stats.traces += 1;
            if !ctx.case(
                || format!("{}, {emptied} columns emptied", m.show()),
                || {
                    let mut g = build(m);
                    let mut r = m.clone();
                    for i in 0..emptied {
                        for (a, b) in [(i * 5, 2), (3, i * 11)] {
                            g.add_edge(a, b);
                            r.add_edge(a, b);
                            if !m.has(a, b) {
                                g.delete_edge(a, b);
                                r.delete_edge(a, b);
                            }
                        }
                    }
                    let mut ids: Vec<u64> = m.e.iter().take(20).chain(m.e.iter().rev().take(20)).flat_map(|e| [e.0, e.1]).collect();
                    ids.extend([0, 1, 2, 3, 5, m.n - 1, m.n, u64::MAX]);
                    ids.sort_unstable();
                    ids.dedup();
                    let q = as_queried(&g, &r);
                    check_lists(&g, &q, &ids)
                },
            ) {
                return false;
            }
        }
        true
    });
    // Neighbour counts through the sizes where counters wrap
    v.push(job("degrees up to 70000", move |ctx| {
        for und in [false, true] {
            for (name, star_in) in [("out", false), ("in", true)] {
                let mut g = new_graph(und);
                for i in 0..70_000u64 {
                    if star_in {
                        g.add_edge(i, 9);
                    } else {
                        g.add_edge(9, i);
                    }
                    let look = i < 600 || i % 8192 < 2 || (65_530..65_540).contains(&i);
                    if !look {
                        continue;
                    }
                    let ok = ctx.case(
                        || format!("und={und} star {name} with {} edges", i + 1),
                        || {
                            let k = i + 1;
                            let has9 = u64::from(i >= 9);
                            let (o, n) = if und { (k, k) } else if star_in { (has9, k) } else { (k, has9) };
                            ensure!(g.get_vertex_out_degree(9) == o, "out-degree is {}, expected {o}", g.get_vertex_out_degree(9));
                            ensure!(g.get_vertex_in_degree(9) == n, "in-degree is {}, expected {n}", g.get_vertex_in_degree(9));
                            ensure!(sorted(g.get_vertex_out_edges(9)).len() as u64 == o, "out list length");
                            ensure!(sorted(g.get_vertex_in_edges(9)).len() as u64 == n, "in list length");
                            ensure!((&g).into_iter().count() as u64 == g.edge_count(), "iteration length");
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                }
                ctx.stats.traces += 1;
            }
        }
    }));
    // Adjacency matrices are iterated on their own too
    v.push(job("adjacency matrix iteration", move |ctx| {
        for mask in 0..512u64 {
            for del in [0u64, 0x1ff, 0b111, 0b1010101, 0b100010001] {
                let m = gen::digraph(3, mask);
                let ok = ctx.case(
                    || format!("matrix of {} with cells {del:b} zeroed", m.show()),
                    || {
                        let mut a = CsrAdjacencyMatrix::new();
                        let mut want = m.e.clone();
                        for (c, r) in &m.e {
                            a.set_entry(1, *c, *r);
                        }
                        for i in 0..9 {
                            if del >> i & 1 == 1 {
                                a.zero_entry(i / 3, i % 3);
                                want.remove(&(i / 3, i % 3));
                            }
                        }
                        let x: Vec<Edge> = (&a).into_iter().collect();
                        let s: BTreeSet<Edge> = x.iter().copied().collect();
                        ensure!(s.len() == x.len() && s == want, "iteration yields {x:?}, expected {want:?}");
                        let mut it = (&a).into_iter();
                        for _ in 0..x.len() {
                            it.next();
                        }
                        ensure!(it.next().is_none() && it.next().is_none(), "iteration goes on after its end");
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 1;
                ctx.stats.traces += 1;
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C03

fn sym(g: &Graph, und: bool, ids: &[u64], what: &str) -> Res {
    ensure!(
        g.is_undirected() == und,
        "{what}: is_undirected() is {}, expected {und}",
        g.is_undirected()
    );
    if !und {
        return Ok(());
    }
    for a in ids {
        for b in ids {
            ensure!(
                g.does_edge_exist(*a, *b) == g.does_edge_exist(*b, *a),
                "{what}: undirected, but edge ({a}, {b}) is {} and ({b}, {a}) is {}",
                g.does_edge_exist(*a, *b),
                g.does_edge_exist(*b, *a)
            );
        }
        let (i, o) = (sorted(g.get_vertex_in_edges(*a)), sorted(g.get_vertex_out_edges(*a)));
        ensure!(i == o, "{what}: in-neighbours {i:?} and out-neighbours {o:?} of {a} differ");
        ensure!(
            g.get_vertex_in_degree(*a) == g.get_vertex_out_degree(*a),
            "{what}: in- and out-degree of {a} differ"
        );
    }
    for (a, b) in iter_edges(g)? {
        ensure!(
            g.does_edge_exist(a, b) && g.does_edge_exist(b, a),
            "{what}: edge ({a}, {b}) is listed, but the queries say {} and {} (mirror)",
            g.does_edge_exist(a, b),
            g.does_edge_exist(b, a)
        );
    }
    Ok(())
}

fn csym(c: &CompressedGraph, und: bool, ids: &[u64], what: &str) -> Res {
    ensure!(
        c.is_undirected() == und,
        "{what}: is_undirected() is {}, expected {und}",
        c.is_undirected()
    );
    if !und {
        return Ok(());
    }
    for a in ids {
        for b in ids {
            ensure!(
                c.does_edge_exist(*a, *b) == c.does_edge_exist(*b, *a),
                "{what}: undirected, but edge ({a}, {b}) and its mirror differ"
            );
        }
    }
    Ok(())
}

/// Every route from a graph to another, two routes deep.
fn check_routes(g: &Graph, und: bool, ids: &[u64], n: u64, deep: bool, what: &str) -> Res {
    sym(g, und, ids, what)?;
    let next = |h: &Graph, w: String| -> Res {
        if deep {
            check_routes(h, und, ids, n, false, &w)
        } else {
            sym(h, und, ids, &w)
        }
    };
    next(&g.clone(), format!("{what}, cloned"))?;
    let mut over = new_graph(!und);
    over.add_edge(1, 9);
    over.add_edge(9, 1);
    over.add_edge(2, 5);
    over.clone_from(g);
    next(&over, format!("{what}, cloned over another graph"))?;
    let b = g.to_bytes().map_err(|e| format!("{what}: to_bytes: {e}"))?;
    let h = Graph::try_from(b.as_slice()).map_err(|e| format!("{what}: loading: {e}"))?;
    next(&h, format!("{what}, saved and loaded"))?;
    for bd in [0, 1, 2, 3, 8, u64::MAX] {
        for t in [0.0, 0.25, 0.5, 1.0] {
            next(&g.approximate(bd, t), format!("{what}, approximated by {bd} at {t}"))?;
        }
    }
    for l in [1, 2, 4, 64] {
        let c = g.compress(l);
        let w = format!("{what}, compressed at {l}");
        csym(&c, und, ids, &w)?;
        let b = c.to_bytes().map_err(|e| format!("{w}: to_bytes: {e}"))?;
        let d = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("{w}: loading: {e}"))?;
        csym(&d, und, ids, &format!("{w}, saved and loaded"))?;
        csym(&c.clone(), und, ids, &format!("{w}, cloned"))?;
        let mut over = new_graph(!und).compress(1);
        over.clone_from(&c);
        csym(&over, und, ids, &format!("{w}, cloned over another"))?;
        next(&d.decompress(), format!("{w}, loaded and decompressed"))?;
        next(&c.decompress(), format!("{w}, decompressed"))?;
    }
    Ok(())
}

pub fn c03(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    crate::p_large::mirrors(&mut v, tier);
    fn sym_check(g: &Graph, m: &RG, probes: &[u64]) -> Res {
        sym(g, m.und, probes, "after the history")
    }
    v.extend(
        history_jobs(tier, sym_check)
            .into_iter()
            .filter(|j| j.name.contains("und=true")),
    );
    for (und, n, count) in gen::small_spaces(tier) {
        if !und && n > 2 {
            continue;
        }
        let step = 64;
        for lo in (0..count).step_by(step) {
            let hi = (lo + step as u64).min(count);
            v.push(job(format!("routes und={und} n={n} graphs {lo}..{hi}"), move |ctx| {
                for mask in lo..hi {
                    for (k, l) in [vec![0, 1, 2, 3, 4], vec![6, 7, 8, 9, 17], vec![0, 8, 16, 25, 33]].iter().enumerate() {
                        let m = gen::embed(&gen::small(und, n, mask), l, 0);
                        let ok = ctx.case(
                            || format!("all routes from {}", m.show()),
                            || check_routes(&build(&m), und, &all_ids(m.n), m.n, k == 0 && n <= 3, "built"),
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.states += 1;
                        ctx.stats.transitions += 40;
                        ctx.stats.traces += 1;
                        ctx.distinct(m.hash64());
                    }
                }
            }));
        }
    }
    // Every adjacency matrix offered as undirected, and every list of records offered as bytes
    v.push(job("matrices and edited results", move |ctx| {
        for mask in 0..512u64 {
            let m = gen::digraph(3, mask);
            let ok = ctx.case(
                || format!("undirected_from the matrix {}", m.show()),
                || {
                    let mut a = CsrAdjacencyMatrix::new();
                    for (c, r) in &m.e {
                        a.set_entry(1, *c, *r);
                    }
                    if let Ok(mut g) = Graph::undirected_from(a.clone()) {
                        sym(&g, true, &[0, 1, 2, 3], "from a matrix")?;
                        g.add_edge(0, 3);
                        g.delete_edge(1, 0);
                        sym(&g, true, &[0, 1, 2, 3], "from a matrix, edited")?;
                    }
                    sym(&Graph::directed_from(a), false, &[], "directed from a matrix")
                },
            );
            if !ok {
                return;
            }
            ctx.stats.transitions += 1;
            ctx.distinct(mask);
        }
    }));
    for n in 1..=3u64 {
        v.push(job(format!("loaded records n={n}"), move |ctx| {
            // All lists of up to 4 records, loaded as undirected: whatever loads is symmetric
            let cells = n * n;
            let lens: u32 = if n == 3 { 3 } else { 4 };
            for len in 0..=lens {
                for x in 0..cells.pow(len) {
                    let mut recs = Vec::new();
                    let mut y = x;
                    for _ in 0..len {
                        recs.push((y % cells / n, y % cells % n));
                        y /= cells;
                    }
                    let ok = ctx.case(
                        || format!("undirected records {recs:?} over {n} vertices"),
                        || {
                            let b = crate::model::encode_graph(true, n, &recs);
                            match Graph::try_from(b.as_slice()) {
                                Ok(g) => sym(&g, true, &all_ids(n), "loaded"),
                                Err(_) => Ok(()),
                            }
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                }
            }
        }));
    }
    v.push(job("loaded compressed blocks", move |ctx| {
        let bits: Vec<u64> = (0..64).map(|i| 1u64 << i).chain([u64::MAX, 0x8040201008040201, 0x0102040810204080, 0xff, 0x0101010101010101, 1 << 8 | 2, 6]).collect();
        for n in [3u64, 8, 11, 16] {
            for x in &bits {
                for y in bits.iter().copied().chain([0]) {
                    for (p, q) in [((0, 0), (0, 0)), ((0, 1), (1, 0)), ((0, 0), (1, 1)), ((1, 0), (0, 0)), ((1, 1), (0, 1))] {
                        let mut recs = vec![(*x, p.0, p.1)];
                        if y != 0 {
                            recs.push((y, q.0, q.1));
                        }
                        let ok = ctx.case(
                            || format!("undirected blocks {recs:x?} over {n} vertices"),
                            || {
                                let b = crate::model::encode_compressed(true, n, 1, &recs);
                                match CompressedGraph::try_from(b.as_slice()) {
                                    Ok(c) => {
                                        csym(&c, true, &all_ids(n), "loaded")?;
                                        sym(&c.decompress(), true, &all_ids(n), "loaded and decompressed")
                                    }
                                    Err(_) => Ok(()),
                                }
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += 1;
                        ctx.stats.traces += 1;
                    }
                }
            }
        }
    }));
    let sizes: Vec<u64> = tier.pick(vec![5, 8, 9, 16, 17, 24, 33], (4..48).collect());
    for n in sizes {
        v.push(job(format!("routes of families n={n}"), move |ctx| {
            let mut gs = gen::sparse_families(&[n]);
            gs.extend(gen::dense_families(&[n]));
            for m in gs.into_iter().filter(|m| m.und) {
                let ok = ctx.case(
                    || format!("all routes from {}", m.show()),
                    || check_routes(&build(&m), true, &all_ids(n), n, false, "built"),
                );
                if !ok {
                    return;
                }
                ctx.stats.states += 1;
                ctx.stats.transitions += 40;
                ctx.stats.traces += 1;
                ctx.distinct(m.hash64());
            }
        }));
    }
    v
}

// ---------------------------------------------------------------- C04

fn adj(m: &RG, dim: u64, empties: bool) -> CsrAdjacencyMatrix {
    let mut a = CsrAdjacencyMatrix::new();
    if empties {
        // Cells set and zeroed again leave nothing behind but possibly the dimension
        for i in 0..dim {
            a.set_entry(1, i, dim - 1 - i);
            a.zero_entry(i, dim - 1 - i);
        }
    }
    for (c, r) in &m.e {
        a.set_entry(1, *c, *r);
    }
    if dim > 0 {
        let keep = a.get_entry(dim - 1, dim - 1);
        a.set_entry(keep, dim - 1, dim - 1);
    }
    a
}

fn from_matrix_case(m: &RG, empties: bool) -> Res {
    let a = adj(m, m.n, empties);
    // The matrix as it reads
    let mut q = m.clone();
    q.n = a.dimension();
    q.e = (&a).into_iter().collect();
    let ids = if m.n <= 40 { all_ids(m.n) } else { probes(&m.e.iter().take(20).flat_map(|e| [e.0, e.1]).collect::<Vec<_>>(), m) };
    let mut g = Graph::directed_from(a.clone());
    q.und = false;
    check_graph(&g, &q, &ids).map_err(|e| format!("directed_from: {e}"))?;
    edits(&mut g, &q, &ids).map_err(|e| format!("directed_from, edited: {e}"))?;
    match Graph::undirected_from(a.clone()) {
        Ok(mut g) => {
            ensure!(q.symmetric(), "undirected_from accepts an asymmetric matrix");
            q.und = true;
            // The matrix is symmetric, as this function requires
            let mut u = unsafe { Graph::undirected_from_unchecked(a) };
            check_graph(&u, &q, &ids).map_err(|e| format!("undirected_from_unchecked: {e}"))?;
            edits(&mut u, &q, &ids).map_err(|e| format!("undirected_from_unchecked, edited: {e}"))?;
            check_graph(&g, &q, &ids).map_err(|e| format!("undirected_from: {e}"))?;
            edits(&mut g, &q, &ids).map_err(|e| format!("undirected_from, edited: {e}"))
        }
        Err(e) => {
            ensure!(!q.symmetric(), "undirected_from refuses a symmetric matrix: {e}");
            ensure!(
                matches!(e, graphrox::error::GraphRoxError::InvalidFormat(_)),
                "undirected_from fails with {e:?}, not a format error"
            );
            Ok(())
        }
    }
}

fn edits(g: &mut Graph, m: &RG, ids: &[u64]) -> Res {
    let mut m = m.clone();
    let hi = m.n.min(u64::MAX - 2);
    for op in [
        GOp::AddEdge(0, hi),
        GOp::AddEdge(0, 0),
        GOp::DeleteEdge(0, hi),
        GOp::DeleteEdge(1, 0),
        GOp::AddVertex(2),
        GOp::AddVertexWith(1, vec![0, 1]),
    ] {
        apply_g(g, &op);
        apply_m(&mut m, &op);
        check_graph(g, &m, ids).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    Ok(())
}

pub fn c04(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    let mut spaces: Vec<(u64, u64)> = (0..=3).map(|n| (n, 1u64 << (n * n))).collect();
    if tier == Tier::Thorough {
        spaces.push((4, 1 << 16));
    }
    for (n, count) in spaces {
        for lo in (0..count).step_by(128) {
            let hi = (lo + 128).min(count);
            v.push(job(format!("all matrices n={n} {lo}..{hi}"), move |ctx| {
                for mask in lo..hi {
                    for (k, l) in gen::embeddings().iter().enumerate() {
                        for trailing in [0, 1, 9] {
                            if l.iter().any(|x| *x > 1 << 60) && trailing > 0 {
                                continue;
                            }
                            for empties in [false, true] {
                                let m = gen::embed(&gen::digraph(n, mask), l, trailing);
                                if empties && (m.n > 64 || k > 3) {
                                    continue;
                                }
                                if !ctx.case(
                                    || format!("matrix {} (cells set and zeroed before: {empties})", m.show()),
                                    || from_matrix_case(&m, empties),
                                ) {
                                    return;
                                }
                                ctx.stats.transitions += 14;
                                ctx.stats.traces += 2;
                                if !empties {
                                    ctx.stats.states += 1;
                                    ctx.distinct(m.hash64());
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // Matrices of many entries, of which one has no mirror
    for shape in ["dense", "path", "star"] {
        let sizes: Vec<u64> = tier.pick(vec![300, 3000, 12000, 70000], vec![300, 3000, 12000, 70000, 300000]);
        for entries in sizes {
            v.push(job(format!("{shape} of {entries} entries, one without a mirror"), move |ctx| {
                let mut es: Vec<Edge> = Vec::new();
                match shape {
                    "dense" => {
                        let n = (entries as f64).sqrt() as u64;
                        (0..n).for_each(|a| (0..n).for_each(|b| es.push((a, b))));
                    }
                    "path" => (0..entries / 2).for_each(|a| es.extend([(a, a + 1), (a + 1, a)])),
                    _ => (1..entries / 2).for_each(|a| es.extend([(a, 0), (0, a)])),
                }
                let whole = {
                    let mut m = CsrAdjacencyMatrix::new();
                    es.iter().for_each(|(a, b)| m.set_entry(1, *a, *b));
                    m
                };
                let n = es.iter().map(|e| e.0.max(e.1)).max().unwrap() + 1;
                let at = |k: usize| es[(es.len() - 1) * k / 16];
                let mut missing: Vec<Option<Edge>> = vec![None];
                missing.extend((0..=16).map(at).filter(|e| e.0 != e.1).map(Some));
                for gone in missing {
                    let ok = ctx.case(
                        || format!("a {shape} of {} entries without {gone:?}", es.len()),
                        || {
                            let mut m = whole.clone();
                            if let Some((a, b)) = gone {
                                m.zero_entry(a, b);
                            }
                            let want = es.len() as u64 - gone.is_some() as u64;
                            let g = Graph::directed_from(m.clone());
                            ensure!(
                                g.edge_count() == want && g.vertex_count() == n,
                                "as directed: {} edges, {} vertices, expected {want} and {n}",
                                g.edge_count(),
                                g.vertex_count()
                            );
                            match Graph::undirected_from(m) {
                                Ok(_) if gone.is_some() => Err("an asymmetric matrix is accepted".into()),
                                Err(e) if gone.is_none() => Err(format!("a symmetric matrix is refused: {e}")),
                                Err(graphrox::error::GraphRoxError::InvalidFormat(_)) => Ok(()),
                                Err(e) => Err(format!("the error is {e:?}")),
                                Ok(g) => {
                                    ensure!(
                                        g.edge_count() == want && g.vertex_count() == n && g.is_undirected(),
                                        "as undirected: {} edges, {} vertices, expected {want} and {n}",
                                        g.edge_count(),
                                        g.vertex_count()
                                    );
                                    let got: std::collections::HashSet<Edge> = (&g).into_iter().collect();
                                    ensure!(got.len() == es.len() && es.iter().all(|e| got.contains(e)), "the edges differ");
                                    Ok(())
                                }
                            }
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 2;
                    ctx.stats.traces += 1;
                    ctx.stats.states += 1;
                }
            }));
        }
    }
    // Larger matrices, symmetric and with exactly one cell that breaks the symmetry
    let sizes: Vec<u64> = tier.pick(vec![4, 5, 8, 9, 12, 17, 40], (4..60).collect());
    for n in sizes {
        v.push(job(format!("families n={n}"), move |ctx| {
            let mut gs = gen::sparse_families(&[n]);
            gs.extend(gen::dense_families(&[n]));
            for m in gs {
                let mut ms = vec![m.clone()];
                if m.und {
                    // Each of the edges missing (some of them, when there are many)
                    let e: Vec<Edge> = m.e.iter().copied().collect();
                    for i in (0..e.len()).step_by((e.len() / 24).max(1)) {
                        let mut x = m.clone();
                        x.e.remove(&e[i]);
                        ms.push(x);
                    }
                }
                for m in ms {
                    if !ctx.case(|| format!("matrix {}", m.show()), || from_matrix_case(&m, false)) {
                        return;
                    }
                    ctx.stats.transitions += 14;
                    ctx.stats.traces += 2;
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                }
            }
        }));
    }
    v
}
