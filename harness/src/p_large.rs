//! Large objects: what holds for small ones holds past every size at which an implementation may
//! change its ways (C20: copies; C26: routes to the same graph).

use crate::engine::{job, mix, Job, Tier};
use crate::model::Edge;
use crate::obs::*;
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

type Facts = Vec<(String, u64)>;

fn digest(mut v: Vec<[u64; 3]>) -> u64 {
    v.sort_unstable();
    v.iter().flatten().fold(v.len() as u64, |h, x| mix(h ^ mix(*x)))
}

fn records(b: &[u8], header: usize, size: usize) -> u64 {
    let mut v: Vec<&[u8]> = b[header..].chunks(size).collect();
    v.sort_unstable();
    let word = |c: &[u8]| c.iter().fold(0u64, |h, x| h.rotate_left(8) ^ u64::from(*x));
    let h = b[..header].iter().fold(0, |h, x| mix(h ^ u64::from(*x)));
    v.iter().flat_map(|r| r.chunks(8)).fold(h, |h, c| mix(h ^ mix(word(c))))
}

fn compressed_facts(c: &CompressedGraph, of: &str, f: &mut Facts) {
    let mut put = |what: &str, x: u64| f.push((format!("{what} of {of}"), x));
    put("is_undirected()", c.is_undirected() as u64);
    put("vertex_count()", c.vertex_count());
    put("edge_count()", c.edge_count());
    put("compression_level()", c.compression_level() as u64);
    match c.to_bytes() {
        Ok(b) => put("the records of to_bytes()", records(&b, 42, 24)),
        Err(e) => put(&format!("to_bytes(): {e}"), 1),
    }
}

fn basic(g: &Graph, of: &str, f: &mut Facts) {
    let mut put = |what: &str, x: u64| f.push((format!("{what} of {of}"), x));
    put("is_undirected()", g.is_undirected() as u64);
    put("vertex_count()", g.vertex_count());
    put("edge_count()", g.edge_count());
    put("the edges", digest(g.into_iter().map(|(a, b)| [a, b, 0]).collect()));
}

fn facts(g: &Graph, es: &[Edge]) -> Facts {
    let mut f = Facts::new();
    basic(g, "the graph", &mut f);
    let n = g.vertex_count();
    f.push(("does_edge_exist()".into(), es.iter().fold(0, |h, (a, b)| mix(h ^ (g.does_edge_exist(*a, *b) as u64) << 1 ^ g.does_edge_exist(*b, *a) as u64))));
    for v in [0, 1, es[0].0, es[es.len() / 2].0, es[es.len() - 1].1, n - 1, n] {
        f.push((format!("get_vertex_out_edges({v})"), digest(g.get_vertex_out_edges(v).into_iter().map(|x| [x, 0, 0]).collect())));
        f.push((format!("get_vertex_in_edges({v})"), digest(g.get_vertex_in_edges(v).into_iter().map(|x| [x, 0, 0]).collect())));
        f.push((format!("degrees of {v}"), g.get_vertex_out_degree(v) << 32 ^ g.get_vertex_in_degree(v)));
    }
    match g.to_bytes() {
        Ok(b) => f.push(("the records of to_bytes()".into(), records(&b, 26, 16))),
        Err(e) => f.push((format!("to_bytes(): {e}"), 1)),
    }
    for b in [2, 64] {
        let p = g.find_avg_pool_matrix(b);
        f.push((format!("dimension and count pooled by {b}"), p.dimension() << 32 ^ p.entry_count()));
        f.push((format!("entries pooled by {b}"), digest(p.into_iter().map(|(x, a, b)| [x.to_bits(), a, b]).collect())));
    }
    basic(&g.approximate(3, 0.2), "its approximation", &mut f);
    let levels: &[u8] = if es.len() > 5000 { &[1] } else { &[1, 2] };
    for level in levels.iter().copied() {
        let c = g.compress(level);
        compressed_facts(&c, &format!("it compressed at {level}"), &mut f);
        basic(&c.decompress(), &format!("it compressed at {level} and decompressed"), &mut f);
    }
    if n < 400 {
        let s = g.matrix_string().unwrap_or_default();
        f.push(("matrix_string()".into(), s.bytes().fold(0, |h, x| mix(h ^ u64::from(x)))));
    }
    f
}

fn same(got: &Facts, want: &Facts, what: &str) -> Res {
    for (g, w) in got.iter().zip(want) {
        ensure!(g == w, "{what}: {} differs ({} and {} as {})", w.0, g.1, w.1, g.0);
    }
    Ok(())
}

const SHAPES: [&str; 5] = ["chain", "star outwards", "star inwards", "dense", "far apart"];

fn edges(shape: usize, k: u64) -> Vec<Edge> {
    let side = (k as f64).sqrt() as u64;
    (0..k)
        .map(|i| match shape {
            0 => (i, i + 1),
            1 => (1, i),
            2 => (i, 1),
            3 => (i % side, i / side),
            _ => (i * 1_000_003, (k - i) << 33),
        })
        .collect()
}

fn empty(und: bool) -> Graph {
    if und {
        Graph::new_undirected()
    } else {
        Graph::new_directed()
    }
}

fn built(und: bool, es: &[Edge], top: u64) -> Graph {
    let mut g = empty(und);
    es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
    g.add_vertex(top, None);
    g
}

/// What is done to one side
fn edit(g: &mut Graph, es: &[Edge], how: u64) {
    let at = |k: usize| es[(es.len() - 1) * k / 4];
    match how {
        0 => g.add_edge(at(1).0, at(3).1 ^ 1),
        1 => g.delete_edge(at(0).0, at(0).1),
        2 => (0..=4).for_each(|k| g.delete_edge(at(k).0, at(k).1)),
        3 => g.add_vertex(at(2).0, Some(&[0, 3, at(2).1])),
        _ => es.iter().for_each(|(a, b)| g.delete_edge(*a, *b)),
    }
}

fn sizes(tier: Tier) -> Vec<u64> {
    tier.pick(vec![40, 600, 5000, 20000], vec![40, 600, 1100, 2100, 5000, 20000, 70000, 140000])
}

pub fn copies(v: &mut Vec<Job>, tier: Tier) {
    for k in sizes(tier) {
        for shape in 0..SHAPES.len() {
            for und in [false, true] {
                v.push(job(format!("large: copies of a {} of {k} edges, und={und}", SHAPES[shape]), move |ctx| {
                    let es = edges(shape, k);
                    let top = es.iter().map(|e| e.0.max(e.1)).max().unwrap() + 77;
                    for emptied in [false, true] {
                        let g = {
                            let mut g = built(und, &es, top);
                            if emptied {
                                // Columns without entries stay behind
                                (0..es.len()).step_by(3).for_each(|i| g.delete_edge(es[i].0, es[i].1));
                            }
                            g
                        };
                        let f = facts(&g, &es);
                        ctx.stats.states += 1;
                        for how in 0..5u64 {
                            for (name, copy) in [
                                ("clone", 0),
                                ("clone of a clone", 1),
                                ("clone_from over an empty graph", 2),
                                ("clone_from over another graph", 3),
                                ("approximate(1, 1.0)", 4),
                            ] {
                                if k > 600 && (how % 2 == 1 || copy == 1) || k > 5000 && (how != 2 || copy == 2 && emptied) {
                                    continue;
                                }
                                let ok = ctx.case(
                                    || format!("{name} of a {} of {k} edges (und={und}, some deleted: {emptied}), edit {how}", SHAPES[shape]),
                                    || {
                                        let make = || match copy {
                                            0 => g.clone(),
                                            1 => g.clone().clone(),
                                            2 | 3 => {
                                                let mut h = if copy == 2 { empty(!und) } else { built(!und, &[(1, 2), (3, 70000), (5, 5)], 90000) };
                                                h.clone_from(&g);
                                                h
                                            }
                                            _ => g.approximate(1, 1.0),
                                        };
                                        let mut h = make();
                                        same(&facts(&h, &es), &f, "the copy")?;
                                        edit(&mut h, &es, how);
                                        same(&facts(&g, &es), &f, "the original, after an edit of the copy")?;
                                        // The other way round, and a copy like the original under the same edit
                                        let mut a = g.clone();
                                        let b = make();
                                        edit(&mut a, &es, how);
                                        same(&facts(&b, &es), &f, "the copy, after an edit of another")?;
                                        same(&facts(&h, &es), &facts(&a, &es), "the edited copy")
                                    },
                                );
                                if !ok {
                                    return;
                                }
                                ctx.stats.transitions += 6;
                                ctx.stats.traces += 1;
                            }
                        }
                        // Copies of what is derived
                        let ok = ctx.case(
                            || format!("clones of what is derived from a {} of {k} edges (und={und}, some deleted: {emptied})", SHAPES[shape]),
                            || {
                                for level in [1, 2] {
                                    let c = g.compress(level);
                                    let (mut x, mut y) = (Facts::new(), Facts::new());
                                    compressed_facts(&c, "it", &mut x);
                                    basic(&c.decompress(), "it decompressed", &mut x);
                                    let mut d = c.clone();
                                    d.clone_from(&c.clone());
                                    drop(c);
                                    compressed_facts(&d, "it", &mut y);
                                    basic(&d.decompress(), "it decompressed", &mut y);
                                    same(&y, &x, "a copy of the compressed graph")?;
                                }
                                for b in [1, 2, 16] {
                                    let p = g.find_avg_pool_matrix(b);
                                    let mut q = p.clone();
                                    q.set_entry(9.0, 0, 1);
                                    let mut r = g.find_avg_pool_matrix(3);
                                    r.clone_from(&p);
                                    let fact = |m: &graphrox::matrix::CsrSquareMatrix<f64>| {
                                        (m.dimension(), m.entry_count(), digest(m.into_iter().map(|(x, a, b)| [x.to_bits(), a, b]).collect()))
                                    };
                                    let s = p.clone();
                                    ensure!(fact(&p) == fact(&g.find_avg_pool_matrix(b)), "pooled by {b}, the matrix changes with its clone");
                                    ensure!(fact(&r) == fact(&p), "pooled by {b}, clone_from gives another matrix");
                                    drop(p);
                                    ensure!(fact(&s) == fact(&r), "pooled by {b}, clone gives another matrix");
                                    if b == 2 {
                                        let mut m = s.clone();
                                        m.set_entry(q.get_entry(0, 1), 0, 1);
                                        ensure!(fact(&m) == fact(&q), "a clone edited differs from another");
                                    }
                                }
                                Ok(())
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += 16;
                        ctx.stats.traces += 1;
                    }
                }));
            }
        }
    }
}

pub fn routes(v: &mut Vec<Job>, tier: Tier) {
    for k in sizes(tier) {
        for shape in 0..SHAPES.len() {
            for und in [false, true] {
                v.push(job(format!("large: routes to a {} of {k} edges, und={und}", SHAPES[shape]), move |ctx| {
                    let es = edges(shape, k);
                    let top = es.iter().map(|e| e.0.max(e.1)).max().unwrap() + 77;
                    let first = built(und, &es, top);
                    let want = facts(&first, &es);
                    ctx.stats.states += 1;
                    for route in 0..11 {
                        let ok = ctx.case(
                            || format!("route {route} to a {} of {k} edges, und={und}", SHAPES[shape]),
                            || {
                                let mut g = empty(und);
                                let n = es.len();
                                match route {
                                    0 => es.iter().rev().for_each(|(a, b)| g.add_edge(*a, *b)),
                                    1 => {
                                        g.add_vertex(top, None);
                                        // Every seventh, then the others
                                        (0..7).for_each(|r| (r..n).step_by(7).for_each(|i| g.add_edge(es[i].0, es[i].1)));
                                    }
                                    2 => es.iter().for_each(|(a, b)| g.add_vertex(*a, Some(&[*b, *b]))),
                                    3 => {
                                        // The longest lists there are
                                        let mut i = 0;
                                        while i < n {
                                            let j = (i..n).find(|j| es[*j].0 != es[i].0).unwrap_or(n);
                                            let to: Vec<u64> = es[i..j].iter().map(|e| e.1).collect();
                                            g.add_vertex(es[i].0, Some(&to));
                                            i = j;
                                        }
                                    }
                                    4 => {
                                        // A detour through as many columns more
                                        es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                        (0..k).for_each(|i| g.add_edge(top - i % top.min(9000), i % 3));
                                        (0..k).for_each(|i| g.delete_edge(top - i % top.min(9000), i % 3));
                                        es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                    }
                                    5 => {
                                        es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                        es.iter().for_each(|(a, b)| g.delete_edge(*a, *b));
                                        es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                    }
                                    6 => {
                                        let mut m = CsrAdjacencyMatrix::new();
                                        for (a, b) in &es {
                                            m.set_entry(1, *a, *b);
                                            if und {
                                                m.set_entry(1, *b, *a);
                                            }
                                        }
                                        g = if und { Graph::undirected_from(m).map_err(|e| format!("{e}"))? } else { Graph::directed_from(m) };
                                    }
                                    7 => g = Graph::try_from(first.to_bytes().map_err(|e| format!("{e}"))?.as_slice()).map_err(|e| format!("{e}"))?,
                                    8 => g = first.clone(),
                                    9 => g = first.compress(1).decompress(),
                                    _ => {
                                        // Half, a copy, and the other half
                                        es[..n / 2].iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                        g = g.clone();
                                        es[n / 2..].iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                    }
                                }
                                g.add_vertex(top, None);
                                // Another graph is for the property of the route
                                if g.vertex_count() != first.vertex_count() || g.edge_count() != first.edge_count() || !(&first).into_iter().all(|(a, b)| g.does_edge_exist(a, b)) {
                                    return Ok(());
                                }
                                same(&facts(&g, &es), &want, "reached another way")
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += k;
                        ctx.stats.traces += 1;
                    }
                }));
            }
        }
    }
}

/// Graphs of a few edges, which were large once
pub fn shrunk(v: &mut Vec<Job>, tier: Tier) {
    for k in sizes(tier) {
        for shape in 0..SHAPES.len() {
            for und in [false, true] {
                v.push(job(format!("large: little is left of a {} of {k} edges, und={und}", SHAPES[shape]), move |ctx| {
                    let es = edges(shape, k);
                    let n = es.len();
                    let top = es.iter().map(|e| e.0.max(e.1)).max().unwrap();
                    for kept in [vec![], vec![0], vec![n / 2], vec![n - 1], vec![0, n - 1], vec![0, 1, n / 3, n / 2, n - 2, n - 1]] {
                        let rest: Vec<Edge> = kept.iter().map(|i| es[*i]).collect();
                        let probes = if rest.is_empty() { vec![es[0], es[n - 1]] } else { rest.clone() };
                        let want = built(und, &rest, top);
                        let full = facts(&want, &probes);
                        for route in 0..5 {
                            let ok = ctx.case(
                                || format!("edges {kept:?} are left of a {} of {k} edges, und={und}, route {route}", SHAPES[shape]),
                                || {
                                    let mut g = empty(und);
                                    let stays = |a: u64, b: u64| rest.iter().any(|e| *e == (a, b) || und && *e == (b, a));
                                    let gone = |g: &mut Graph, e: &Edge| {
                                        if !stays(e.0, e.1) {
                                            g.delete_edge(e.0, e.1);
                                        }
                                    };
                                    match route {
                                        0 => {
                                            es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                            es.iter().for_each(|e| gone(&mut g, e));
                                        }
                                        1 => {
                                            es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                            es.iter().rev().for_each(|e| gone(&mut g, e));
                                        }
                                        2 => {
                                            // Everything goes, and the rest comes back
                                            es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                            es.iter().for_each(|(a, b)| g.delete_edge(*a, *b));
                                            rest.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                        }
                                        3 => {
                                            // A copy is what shrinks
                                            es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                            g = g.clone();
                                            es.iter().for_each(|e| gone(&mut g, e));
                                        }
                                        _ => {
                                            // As are edges read back
                                            es.iter().for_each(|(a, b)| g.add_edge(*a, *b));
                                            g = Graph::try_from(g.to_bytes().map_err(|e| format!("{e}"))?.as_slice()).map_err(|e| format!("{e}"))?;
                                            es.iter().for_each(|e| gone(&mut g, e));
                                        }
                                    }
                                    // Another graph is for the property of the edits
                                    if g.vertex_count() != want.vertex_count() || g.edge_count() != want.edge_count() || !(&want).into_iter().all(|(a, b)| g.does_edge_exist(a, b)) {
                                        return Ok(());
                                    }
                                    same(&facts(&g, &probes), &full, "was large once")
                                },
                            );
                            if !ok {
                                return;
                            }
                            ctx.stats.transitions += 2 * k;
                            ctx.stats.traces += 1;
                            ctx.stats.states += 1;
                        }
                    }
                }));
            }
        }
    }
}

fn symmetric(g: &Graph, what: &str) -> Res {
    ensure!(g.is_undirected(), "{what}: not undirected");
    let es: std::collections::HashSet<Edge> = g.into_iter().collect();
    ensure!(es.len() as u64 == g.edge_count(), "{what}: {} edges are listed, {} counted", es.len(), g.edge_count());
    for (a, b) in &es {
        ensure!(es.contains(&(*b, *a)) && g.does_edge_exist(*b, *a), "{what}: ({a}, {b}) has no mirror");
    }
    Ok(())
}

pub fn mirrors(v: &mut Vec<Job>, tier: Tier) {
    for k in sizes(tier) {
        for shape in 0..SHAPES.len() {
            v.push(job(format!("large: mirrors in a {} of {k} edges", SHAPES[shape]), move |ctx| {
                let es = edges(shape, k);
                let top = es.iter().map(|e| e.0.max(e.1)).max().unwrap() + 77;
                let g = built(true, &es, top);
                ctx.stats.states += 1;
                let refused = |e: graphrox::error::GraphRoxError| format!("refused: {e}");
                let mut steps: Vec<(String, Box<dyn Fn() -> Result<Graph, String> + '_>)> = vec![
                    ("built".into(), Box::new(|| Ok(g.clone()))),
                    ("a third deleted".into(), Box::new(|| {
                        let mut h = g.clone();
                        es.iter().step_by(3).for_each(|(a, b)| h.delete_edge(*b, *a));
                        Ok(h)
                    })),
                    ("loaded".into(), Box::new(|| Graph::try_from(g.to_bytes().map_err(refused)?.as_slice()).map_err(refused))),
                    ("from a matrix".into(), Box::new(|| {
                        let mut m = CsrAdjacencyMatrix::new();
                        (&g).into_iter().for_each(|(a, b)| m.set_entry(1, a, b));
                        Graph::undirected_from(m).map_err(refused)
                    })),
                ];
                for b in [2u64, 3, 8, 100] {
                    for t in [1e-18, 0.1, 0.5] {
                        let g = &g;
                        steps.push((format!("approximate({b}, {t})"), Box::new(move || Ok(g.approximate(b, t)))));
                    }
                }
                for level in [1u8, 2, 8] {
                    let g = &g;
                    steps.push((format!("compress({level}).decompress()"), Box::new(move || Ok(g.compress(level).decompress()))));
                    steps.push((
                        format!("compress({level}), saved, loaded and decompressed"),
                        Box::new(move || {
                            let c = CompressedGraph::try_from(g.compress(level).to_bytes().map_err(refused)?.as_slice()).map_err(refused)?;
                            let d = c.decompress();
                            for (a, b) in &d {
                                ensure!(c.does_edge_exist(a, b) && c.does_edge_exist(b, a), "compressed, ({a}, {b}) has no mirror");
                                ensure!(c.is_undirected(), "compressed, it is not undirected");
                            }
                            Ok(d)
                        }),
                    ));
                }
                for (name, step) in &steps {
                    let ok = ctx.case(
                        || format!("an undirected {} of {k} edges, {name}", SHAPES[shape]),
                        || symmetric(&step()?, name),
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                }
            }));
        }
    }
}
