//! C19: operands at the limits of their types. Every call must give the reference's result, or,
//! for strings that cannot fit in memory, a capacity error; nothing may panic, abort or hang.

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::hist::*;
use crate::model::{decode_compressed, decode_graph, Edge, RC, RG};
use crate::obs::*;
use crate::p_derive::{by_hand, check_pool};
use crate::p_matrix::*;
use crate::sq::{for_all_types, Sq};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::CsrAdjacencyMatrix;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

const M: u64 = u64::MAX;

/// Every power of two and its neighbours, and the last values of the type.
pub fn limits() -> Vec<u64> {
    let mut s: BTreeSet<u64> = BTreeSet::new();
    for k in 0..64 {
        let p = 1u64 << k;
        s.extend([p - 1, p, p + 1]);
    }
    for k in 0..20 {
        s.insert(M - k);
    }
    s.extend([M - 63, M - 64, M - 65, M / 3, M / 5 * 2, 10_000_000_000_000_000_000]);
    s.into_iter().collect()
}

/// The ones where something changes: word halves, blocks, squares, the last IDs.
pub fn few() -> Vec<u64> {
    vec![
        0, 1, 7, 8, 9, 63, 64, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        (1 << 53) + 1, (1 << 61) - 1, 1 << 61, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, M - 64, M - 63, M - 9, M - 8,
        M - 7, M - 2, M - 1, M,
    ]
}

/// What a string call must give: its text, a capacity error, or (in between) either.
fn string_ok(what: &str, got: Result<String, GraphRoxError>, size: Option<u128>, want: impl FnOnce() -> String) -> Res {
    const SMALL: u128 = 1 << 21;
    const HUGE: u128 = 1 << 36;
    match (size, got) {
        (Some(n), Ok(s)) if n <= SMALL => crate::p_string::same_text(what, &s, &want()),
        (Some(n), Err(e)) if n <= SMALL => Err(format!("{what}: {e:?} for a string of {n} bytes")),
        (Some(n), _) if n < HUGE => Ok(()),
        (_, Err(GraphRoxError::CapacityOverflow(_))) => Ok(()),
        (n, Err(e)) => Err(format!("{what}: {e:?} for a string of {n:?} bytes, expected CapacityOverflow")),
        (n, Ok(s)) => Err(format!("{what}: gave {} bytes for a string of {n:?} bytes", s.len())),
    }
}

/// Whether to ask for a string of this size: the ones in between would take seconds each.
fn worth(size: Option<u128>) -> bool {
    size.is_none_or(|n| n <= 1 << 21 || n >= 1 << 36)
}

fn text_size(dim: u64, width: u128) -> Option<u128> {
    if dim == 0 {
        return Some(0);
    }
    let d = u128::from(dim);
    (width + 2).checked_mul(d.checked_mul(d)?)?.checked_add(4 * d)
}

fn graph_reads(g: &Graph, m: &RG, ids: &[u64], blocks: &[u64], deep: bool) -> Res {
    check_graph(g, m, ids)?;
    let size = text_size(m.n, 1);
    if worth(size) {
        string_ok("matrix_string()", g.matrix_string(), size, || m.matrix_string())?;
    }
    let b = g.to_bytes().map_err(|e| format!("to_bytes(): {e:?}"))?;
    let d = decode_graph(&b).map_err(|e| format!("to_bytes() gave malformed bytes: {e}"))?;
    ensure!(d == *m, "to_bytes() holds {}, expected {}", d.show(), m.show());
    let back = Graph::try_from(b.as_slice()).map_err(|e| format!("loading back: {e:?}"))?;
    check_graph(&back, m, ids).map_err(|e| format!("loaded back: {e}"))?;
    for b in blocks {
        check_pool(&g.find_avg_pool_matrix(*b), m, *b)?;
        let ts: &[f64] = if deep { &[0.0, 1e-18, 1e-9, 0.25, 1.0, f64::INFINITY] } else { &[0.0, 0.25] };
        for t in ts {
            check_graph_auto(&g.approximate(*b, *t), &m.approximate(*b, *t)).map_err(|e| format!("approximated by {b} at {t:e}: {e}"))?;
        }
        let _ = g.approximate(*b, f64::NAN);
    }
    for l in [0u8, 1, 2, 64, 255] {
        let rc = m.compress(l);
        let c = g.compress(l);
        check_compressed(&c, &rc).map_err(|e| format!("compressed at {l}: {e}"))?;
        check_graph_auto(&c.decompress(), &rc.decompress()).map_err(|e| format!("decompressed: {e}"))?;
        compressed_reads(&c, &rc)?;
    }
    Ok(())
}

fn compressed_reads(c: &CompressedGraph, rc: &RC) -> Res {
    for a in few() {
        for b in few() {
            let got = c.get_compressed_matrix_entry(a, b);
            let want = rc.blocks.get(&(a, b)).copied().unwrap_or(0);
            ensure!(got == want, "get_compressed_matrix_entry({a}, {b}) is {got:#x}, expected {want:#x}");
            ensure!(
                c.does_edge_exist(a, b) == rc.has(a, b),
                "compressed does_edge_exist({a}, {b}) is {}",
                c.does_edge_exist(a, b)
            );
        }
    }
    let width = rc.blocks.values().map(|v| v.to_string().len()).max().unwrap_or(1);
    let size = text_size(rc.dim(), width as u128);
    if worth(size) {
        string_ok("matrix_string() of a compressed graph", c.matrix_string(), size, || rc.matrix_string())?;
    }
    let b = c.to_bytes().map_err(|e| format!("compressed to_bytes(): {e:?}"))?;
    let d = decode_compressed(&b).map_err(|e| format!("compressed to_bytes() gave malformed bytes: {e}"))?;
    ensure!(d == *rc, "compressed to_bytes() holds {}, expected {}", d.show(), rc.show());
    let back = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("loading back: {e:?}"))?;
    check_compressed(&back, rc).map_err(|e| format!("loaded back: {e}"))
}

fn run(ctx: &mut Ctx, und: bool, ops: &[GOp], blocks: &[u64], deep: bool) -> bool {
    let mut ids: BTreeSet<u64> = BTreeSet::from([0, M, M - 1]);
    for o in ops {
        match o {
            GOp::AddEdge(a, b) | GOp::DeleteEdge(a, b) => ids.extend([*a, *b]),
            GOp::AddVertex(a) => ids.extend([*a]),
            GOp::AddVertexWith(a, l) => {
                ids.insert(*a);
                ids.extend(l);
            }
        }
    }
    let ids: Vec<u64> = ids.into_iter().collect();
    ctx.stats.states += 1;
    ctx.stats.traces += 1;
    ctx.stats.transitions += ops.len() as u64 + 3 * blocks.len() as u64;
    ctx.distinct(crate::engine::hash_str(&format!("{und} {ops:?}")));
    ctx.case(
        || format!("und={und} {ops:?}, block sizes {blocks:?}"),
        || {
            let mut g = new_graph(und);
            let mut m = RG::new(und);
            for o in ops {
                apply_g(&mut g, o);
                apply_m(&mut m, o);
                check_graph(&g, &m, &ids)?;
            }
            graph_reads(&g, &m, &ids, blocks, deep)
        },
    )
}

fn near_blocks(a: u64, b: u64) -> Vec<u64> {
    let n = if a == M || b == M { 0 } else { a.max(b) + 1 };
    let s: BTreeSet<u64> = [0, 1, 2, 8, 1 << 32, a, b, n, n.saturating_sub(1), n.saturating_add(1), n / 2, n / 2 + 1, M]
        .into_iter()
        .collect();
    s.into_iter().collect()
}

fn entries<S: Sq>(v: &mut Vec<Job>, tier: Tier) {
    v.push(job(format!("{}: entries at the limits", S::NAME), move |ctx| {
        let at = tier.pick(few(), limits());
        let x = S::one();
        for c in &at {
            for r in &at {
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += 5;
                ctx.distinct(mix(*c) ^ *r);
                if !ctx.case(
                    || format!("column {c}, row {r}"),
                    || {
                        let ids = around(&[*c, *r], c.max(r).saturating_add(1));
                        let mut a = S::new();
                        let mut m = SM::<S::T> { dim: 0, e: BTreeMap::new() };
                        let inside = *c != M && *r != M;
                        let step = |a: &S, m: &mut SM<S::T>, v: Option<S::T>| {
                            if inside {
                                m.dim = m.dim.max(c + 1).max(r + 1);
                                match v {
                                    Some(v) => m.e.insert((*c, *r), v),
                                    None => m.e.remove(&(*c, *r)),
                                };
                            }
                            check_sq(a, m, &ids)
                        };
                        a.set(S::nought(), *c, *r);
                        step(&a, &mut m, None).map_err(|e| format!("after set to 0: {e}"))?;
                        a.set(x, *c, *r);
                        step(&a, &mut m, Some(x)).map_err(|e| format!("after set: {e}"))?;
                        a.inc(*c, *r);
                        step(&a, &mut m, S::succ(x)).map_err(|e| format!("after increment: {e}"))?;
                        let size = text_size(a.dim(), 1);
                        if size.is_none_or(|n| n >= 1 << 36) {
                            string_ok("to_string_with_precision(0)", a.text(0), size, String::new)?;
                            string_ok("to_string_with_precision(9)", a.text(9), size, String::new)?;
                        }
                        a.zero(*c, *r);
                        step(&a, &mut m, None).map_err(|e| format!("after zeroing: {e}"))?;
                        a.inc(*c, *r);
                        step(&a, &mut m, Some(x)).map_err(|e| format!("after increment from 0: {e}"))
                    },
                ) {
                    return;
                }
            }
        }
    }));
    v.push(job(format!("{}: digits at the limits", S::NAME), move |ctx| {
        let mut digits: BTreeSet<usize> = BTreeSet::new();
        for k in 0..64 {
            let p = 1usize << k;
            digits.extend([p - 1, p, p.saturating_add(1)]);
        }
        for k in 0..12 {
            digits.insert(usize::MAX - k);
            digits.insert(usize::MAX / 2 - k);
            digits.insert(usize::MAX / 4 - k);
            digits.insert(usize::MAX / 9 - k);
        }
        let mut values = S::lattice();
        if tier == Tier::Quick {
            let n = values.len();
            let mut k = 0;
            values.retain(|_| {
                k += 1;
                k < 4 || k % 9 == 0 || k == n
            });
        }
        for d in digits {
            for dim in [0u64, 1, 2, 3] {
                for (i, x) in values.iter().enumerate() {
                    let width = S::written(*x, d.min(1)).len() as u128 - 1 + d as u128;
                    let size = text_size(dim, width);
                    if !worth(size) || (size.is_some_and(|n| n < 1 << 36 && (n > 4096 && (dim == 3 || i > 5) || n > 1 << 18 && i > 0))) {
                        continue;
                    }
                    ctx.stats.states += 1;
                    ctx.stats.traces += 1;
                    ctx.stats.transitions += 1;
                    ctx.distinct(crate::engine::hash_str(&format!("{x:?} {dim} {d}")));
                    if !ctx.case(
                        || format!("{x:?} in a matrix of dimension {dim}, {d} digits"),
                        || {
                            let mut a = S::new();
                            if dim > 0 {
                                a.set(*x, dim - 1, 0);
                            }
                            let mut cells = BTreeMap::new();
                            if dim == 0 {
                                return string_ok(&format!("to_string_with_precision({d})"), a.text(d), Some(0), String::new);
                            }
                            string_ok(&format!("to_string_with_precision({d})"), a.text(d), size, || {
                                if *x != S::nought() {
                                    cells.insert((dim - 1, 0), S::written(*x, d));
                                }
                                crate::model::grid(dim, &cells, &S::written(S::nought(), d))
                            })
                        },
                    ) {
                        return;
                    }
                }
            }
        }
    }));
}

pub fn c19(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["reads", "bytes", "pool", "approximate", "compress", "decompress", "compressed-bytes", "builder", "matrix", "square"]);
    let ids = tier.pick(few(), limits());
    for a in ids.clone() {
        let ids = ids.clone();
        v.push(job(format!("one edge from {a}"), move |ctx| {
            for b in &ids {
                for und in [false, true] {
                    let blocks = near_blocks(a, *b);
                    let e = GOp::AddEdge(a, *b);
                    for ops in [
                        vec![e.clone()],
                        vec![e.clone(), GOp::AddEdge(0, 1), GOp::DeleteEdge(*b, a), GOp::AddEdge(*b, a)],
                        vec![GOp::AddVertex(a), GOp::AddVertexWith(*b, vec![a]), GOp::DeleteEdge(a, *b)],
                    ] {
                        let deep = ops.len() == 1;
                        let bl = if deep { &blocks[..] } else { &blocks[..3.min(blocks.len())] };
                        if !run(ctx, und, &ops, bl, deep) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // Every block size at the limits, for a few graphs
    for (i, at) in limits().chunks(24).enumerate() {
        let at = at.to_vec();
        v.push(job(format!("block sizes at the limits, part {i}"), move |ctx| {
            let far = [1u64 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 62) + 3, M - 2, M - 1];
            for b in &at {
                for f in far {
                    for und in [false, true] {
                        for ops in [
                            vec![GOp::AddEdge(f, f), GOp::AddEdge(0, f), GOp::AddEdge(0, 0)],
                            vec![GOp::AddEdge(*b, f), GOp::AddEdge(b.wrapping_sub(1), f)],
                            vec![GOp::AddEdge(3, 5), GOp::AddVertex(f)],
                        ] {
                            if !run(ctx, und, &ops, &[*b, b.wrapping_add(1), M - *b], true) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // Vertices and lists
    for part in 0..12usize {
    v.push(job(format!("vertices and edge lists at the limits, part {part}"), move |ctx| {
        let at = limits();
        for a in at.iter().skip(part).step_by(12) {
            for und in [false, true] {
                let mut cases = vec![
                    vec![GOp::AddVertex(*a)],
                    vec![GOp::AddVertexWith(*a, vec![])],
                    vec![GOp::AddVertexWith(*a, vec![0, *a, 3])],
                    vec![GOp::AddVertex(*a), GOp::AddVertex(5)],
                    vec![GOp::AddEdge(2, 3), GOp::AddVertex(*a), GOp::AddEdge(*a, 2), GOp::DeleteEdge(*a, *a)],
                    vec![GOp::DeleteEdge(*a, 0), GOp::DeleteEdge(0, *a), GOp::DeleteEdge(*a, *a)],
                ];
                for b in few() {
                    // A list holding only IDs without a place says nothing about its own vertex
                    if *a != M && b != M {
                        cases.push(vec![GOp::AddVertexWith(*a, vec![b, 1])]);
                    }
                    if ctx.tier == Tier::Thorough || *a == M || b >= M - 1 {
                        cases.push(vec![GOp::AddVertexWith(*a, vec![*a, M, b])]);
                    }
                }
                for ops in cases {
                    if !run(ctx, und, &ops, &[8, *a], false) {
                        return;
                    }
                }
            }
        }
    }));
    }
    // Adjacency matrices
    v.push(job("adjacency matrix entries at the limits", move |ctx| {
        let at = limits();
        for c in &at {
            for r in &at {
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += 4;
                ctx.distinct(mix(*c) ^ *r);
                if !ctx.case(
                    || format!("column {c}, row {r}"),
                    || {
                        let ids = around(&[*c, *r], c.max(r).saturating_add(1));
                        let mut a = CsrAdjacencyMatrix::new();
                        let mut m = AM::default();
                        for op in [AOp::Zero(*c, *r), AOp::Set(0, *c, *r), AOp::Set(255, *c, *r), AOp::Set(1, *r, *c), AOp::Zero(*r, *c), AOp::Set(1, *c, *r)] {
                            apply_a(&mut a, &op);
                            apply_am(&mut m, &op);
                            check_adj(&a, &m, &ids).map_err(|e| format!("after {op:?}: {e}"))?;
                        }
                        let size = text_size(m.dim, 1);
                        if worth(size) {
                            string_ok("try_to_string()", a.try_to_string(), size, || {
                                let mut g = RG::with(false, m.dim, []);
                                g.e = m.e.clone();
                                g.matrix_string()
                            })?;
                        }
                        // And as a graph
                        let mut g = RG::new(false);
                        g.n = m.dim;
                        g.e = m.e.clone();
                        check_graph(&Graph::directed_from(a.clone()), &g, &ids)?;
                        match Graph::undirected_from(a) {
                            Ok(u) => {
                                ensure!(g.symmetric(), "undirected_from() accepted an asymmetric matrix");
                                g.und = true;
                                check_graph(&u, &g, &ids)
                            }
                            Err(_) => {
                                ensure!(!g.symmetric(), "undirected_from() refused a symmetric matrix");
                                Ok(())
                            }
                        }
                    },
                ) {
                    return;
                }
            }
        }
    }));
    fn each<S: Sq>(v: &mut Vec<Job>, tier: Tier) {
        entries::<S>(v, tier);
    }
    for_all_types!(each, &mut v, tier);
    // Graph strings at every dimension limit
    v.push(job("graph strings at the limits", move |ctx| {
        for n in limits() {
            for und in [false, true] {
                let size = text_size(n, 1);
                let csize = text_size(RC { und, n, level: 1, blocks: BTreeMap::new() }.dim(), 1);
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += 2;
                ctx.distinct(n);
                if !ctx.case(
                    || format!("{n} vertices, und={und}"),
                    || {
                        let m = RG::with(und, n, []);
                        let g = build(&m);
                        if worth(size) {
                            string_ok("matrix_string()", g.matrix_string(), size, || m.matrix_string())?;
                        }
                        if worth(csize) {
                            string_ok("compressed matrix_string()", g.compress(3).matrix_string(), csize, || m.compress(3).matrix_string())?;
                        }
                        Ok(())
                    },
                ) {
                    return;
                }
            }
        }
    }));
    // Compressed graphs by hand, at the limits of the vertex count and the block positions
    for n in tier.pick(few(), limits()) {
        v.push(job(format!("compressed by hand, {n} vertices"), move |ctx| {
            let dim = RC { und: false, n, level: 1, blocks: BTreeMap::new() }.dim();
            let mut at: BTreeSet<u64> = few().into_iter().filter(|x| *x < dim).collect();
            at.extend([dim - 1, dim / 2, dim.saturating_sub(2)]);
            at.retain(|x| *x < dim);
            for c in &at {
                for r in &at {
                    for und in [false, true] {
                        if und && c != r {
                            continue;
                        }
                        for bits in [1u64, 1 << 63, M, 0x8040201008040201] {
                            let mut bits = bits;
                            for i in 0..64u64 {
                                if c * 8 + i % 8 >= n || r * 8 + i / 8 >= n || c * 8 > M - i % 8 || r * 8 > M - i / 8 {
                                    bits &= !(1 << i);
                                }
                            }
                            if bits == 0 || und && crate::p_derive::transpose(bits) != bits {
                                continue;
                            }
                            let rc = RC { und, n, level: 1, blocks: [((*c, *r), bits)].into() };
                            ctx.stats.states += 1;
                            ctx.stats.traces += 1;
                            ctx.stats.transitions += 4;
                            ctx.distinct(mix(n ^ bits) ^ mix(*c) ^ *r);
                            if !ctx.case(
                                || rc.show(),
                                || {
                                    let g = by_hand(&rc);
                                    check_compressed(&g, &rc)?;
                                    compressed_reads(&g, &rc)?;
                                    check_graph_auto(&g.decompress(), &rc.decompress())
                                },
                            ) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    v.push(job("builder calls beyond every bound do not crash", move |ctx| {
        for n in few() {
            for c in few() {
                for r in few() {
                    for w in [None, Some(0), Some(1), Some(M)] {
                        ctx.stats.transitions += 2;
                        ctx.distinct(mix(n) ^ mix(c ^ 5) ^ r);
                        if !ctx.case(
                            || format!("n={n}: two entries at {c}, {r} with weight {w:?}"),
                            || {
                                for level in [0, 1, 64, 65, 255] {
                                    let mut b = CompressedGraphBuilder::new(false, n, level);
                                    b.add_compressed_matrix_entry(M, c, r, w);
                                    b.add_compressed_matrix_entry(1, r, c, w);
                                    b.add_compressed_matrix_entry(0, 0, 0, None);
                                    let g = unsafe { b.finish() };
                                    let l = g.compression_level();
                                    ensure!(l == level.clamp(1, 64), "level {level} became {l}");
                                    ensure!(g.vertex_count() == n, "vertex count {n} became {}", g.vertex_count());
                                    let _ = (g.edge_count(), g.does_edge_exist(c, r), g.get_compressed_matrix_entry(c, r));
                                }
                                Ok(())
                            },
                        ) {
                            return;
                        }
                    }
                }
            }
        }
    }));
    // Queries with arguments at the limits
    v.push(job("queries at the limits", move |ctx| {
        let at = limits();
        let edges: Vec<Vec<Edge>> = vec![vec![], vec![(0, 0)], vec![(3, 9), (9, 3), (8, 8)], vec![(M - 1, 0), (M - 1, M - 1), (1 << 63, 7)]];
        for e in edges {
            for und in [false, true] {
                let m = RG::with(und, 12, e.clone());
                for chunk in at.chunks(12) {
                    ctx.stats.states += 1;
                    ctx.stats.traces += 1;
                    ctx.stats.transitions += (chunk.len() * chunk.len()) as u64;
                    ctx.distinct(m.hash64() ^ chunk[0]);
                    if !ctx.case(
                        || format!("{} asked about {chunk:?}", m.show()),
                        || {
                            let g = build(&m);
                            check_graph(&g, &m, chunk)?;
                            let (c, rc) = (g.compress(1), m.compress(1));
                            for a in chunk {
                                for b in &at {
                                    for (a, b) in [(*a, *b), (*b, *a)] {
                                        ensure!(c.does_edge_exist(a, b) == rc.has(a, b), "compressed does_edge_exist({a}, {b})");
                                        ensure!(
                                            c.get_compressed_matrix_entry(a, b) == rc.blocks.get(&(a, b)).copied().unwrap_or(0),
                                            "get_compressed_matrix_entry({a}, {b})"
                                        );
                                    }
                                }
                            }
                            Ok(())
                        },
                    ) {
                        return;
                    }
                }
            }
        }
    }));
    v
}
