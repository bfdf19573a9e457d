//! C10, C11, C12, C13, C14: pooling, approximation, compression, decompression, the builder.
//! The reference is computed from the graph as its own edge queries describe it, so that these
//! checks judge the derived results alone.

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::gen;
use crate::model::{Edge, RC, RG};
use crate::obs::*;
use crate::p_live::live_jobs;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

/// Graph universes shared by these properties, cut into jobs.
pub fn graph_jobs(
    v: &mut Vec<Job>,
    tier: Tier,
    what: &'static str,
    embeds: bool,
    f: impl Fn(&mut Ctx, &RG) -> bool + Copy + Send + Sync + 'static,
) {
    for (und, n, count) in gen::small_spaces(tier) {
        let chunk = if tier == Tier::Quick { 128 } else { 1024 };
        for lo in (0..count).step_by(chunk) {
            let hi = (lo + chunk as u64).min(count);
            v.push(job(format!("{what}: und={und} n={n} graphs {lo}..{hi}"), move |ctx| {
                for mask in lo..hi {
                    let g = gen::small(und, n, mask);
                    ctx.stats.states += 1;
                    ctx.distinct(g.hash64());
                    if !f(ctx, &g) {
                        return;
                    }
                    let deep = count > 1024;
                    if embeds && n > 0 && !deep {
                        for l in gen::embeddings() {
                            for trailing in [0, 1, 7, 8] {
                                if trailing > 0 && (l.iter().any(|x| *x > 1 << 40) || mask % 4 != 0) {
                                    continue;
                                }
                                let g = gen::embed(&g, &l, trailing);
                                ctx.stats.states += 1;
                                ctx.distinct(g.hash64());
                                if !f(ctx, &g) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
}

pub fn family_jobs(
    v: &mut Vec<Job>,
    tier: Tier,
    what: &'static str,
    f: impl Fn(&mut Ctx, &RG) -> bool + Copy + Send + Sync + 'static,
) {
    let sizes: Vec<u64> = match tier {
        Tier::Quick => vec![1, 2, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25],
        Tier::Thorough => (1..=50).collect(),
    };
    for n in sizes {
        v.push(job(format!("{what}: families n={n}"), move |ctx| {
            let mut gs = gen::sparse_families(&[n]);
            gs.extend(gen::dense_families(&[n]));
            for g in gs {
                ctx.stats.states += 1;
                ctx.distinct(g.hash64());
                if !f(ctx, &g) {
                    return;
                }
            }
        }));
    }
    spread_jobs(v, tier, what, f);
}

/// Many vertices with edges, far fewer than there are vertices.
pub fn spread_jobs(
    v: &mut Vec<Job>,
    tier: Tier,
    what: &'static str,
    f: impl Fn(&mut Ctx, &RG) -> bool + Copy + Send + Sync + 'static,
) {
    for k in tier.pick(vec![4, 18, 40], vec![2, 3, 5, 9, 18, 33, 40, 70, 130]) {
        v.push(job(format!("{what}: {k} vertices with gaps between them"), move |ctx| {
            for g in gen::spread_families(&[k]) {
                ctx.stats.states += 1;
                ctx.distinct(g.hash64());
                if !f(ctx, &g) {
                    return;
                }
            }
        }));
    }
}

pub fn block_sizes(n: u64) -> Vec<u64> {
    let mut s: BTreeSet<u64> = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 64, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]
        .into_iter()
        .collect();
    if n <= 30 {
        s.extend(0..n + 3);
    }
    for x in [n / 2, n / 3, n.saturating_sub(1), n, n.saturating_add(1), n / 2 + 1] {
        s.insert(x);
    }
    s.into_iter().collect()
}

// ---------------------------------------------------------------- C10

pub fn check_pool(p: &CsrSquareMatrix<f64>, m: &RG, b: u64) -> Res {
    let dim = m.pool_dim(b);
    ensure!(
        p.dimension() == dim,
        "pooled by {b}: dimension() is {}, expected {dim} ({})",
        p.dimension(),
        m.show()
    );
    let counts = m.pool_counts(b);
    ensure!(
        p.entry_count() == counts.len() as u64,
        "pooled by {b}: entry_count() is {}, expected {} ({})",
        p.entry_count(),
        counts.len(),
        m.show()
    );
    let bb = b.clamp(1, m.n.max(1));
    let cells = (u128::from(bb) * u128::from(bb)) as f64;
    let close = |got: f64, k: u64| {
        let want = k as f64 / cells;
        got == want || (got - want).abs() <= want.abs() * 1e-12
    };
    let mut seen = BTreeSet::new();
    for (e, c, r) in p {
        ensure!(
            seen.insert((c, r)),
            "pooled by {b}: the entry at column {c}, row {r} is listed twice"
        );
        let k = counts.get(&(c, r)).copied().unwrap_or(0);
        ensure!(
            k > 0 && close(e, k),
            "pooled by {b}: the entry at column {c}, row {r} is listed as {e}, expected {k}/{bb}^2 ({})",
            m.show()
        );
    }
    ensure!(
        seen.len() == counts.len(),
        "pooled by {b}: {} entries are listed, expected {}",
        seen.len(),
        counts.len()
    );
    let mut pos: BTreeSet<Edge> = BTreeSet::new();
    if dim <= 10 {
        pos.extend((0..dim + 2).flat_map(|c| (0..dim + 2).map(move |r| (c, r))));
    }
    pos.extend(counts.keys().copied().take(64));
    pos.extend(counts.keys().map(|(c, r)| (*r, *c)).take(64).collect::<Vec<_>>());
    pos.extend([(dim, 0), (0, dim), (u64::MAX, u64::MAX)]);
    for (c, r) in pos {
        let k = counts.get(&(c, r)).copied().unwrap_or(0);
        let e = p.get_entry(c, r);
        ensure!(
            if k == 0 { e == 0.0 } else { close(e, k) },
            "pooled by {b}: get_entry({c}, {r}) is {e}, expected {k}/{bb}^2 ({})",
            m.show()
        );
    }
    Ok(())
}

fn c10_graph(ctx: &mut Ctx, m: &RG) -> bool {
    let bs = block_sizes(m.n);
    let ok = ctx.case(
        || format!("pool {} by {bs:?}", m.show()),
        || {
            let (g, q) = built(m);
            for b in &bs {
                check_pool(&g.find_avg_pool_matrix(*b), &q, *b)?;
            }
            Ok(())
        },
    );
    ctx.stats.transitions += bs.len() as u64;
    ctx.stats.traces += 1;
    ok
}

/// A block of every density: k edges in one block of size b, and one edge outside it.
fn density_graph(b: u64, k: u64, at: Edge, und: bool, extra: bool) -> RG {
    let mut m = RG::new(und);
    m.n = (at.0.max(at.1) + 1) * b + u64::from(extra);
    let mut left = k;
    // Spread the edges so that they do not fill rows first
    for i in 0..b * b {
        if left == 0 {
            break;
        }
        let j = (i * 7 + 3) % (b * b);
        let j = if b.is_multiple_of(7) { i } else { j };
        let e = (at.0 * b + j % b, at.1 * b + j / b);
        if und && at.0 == at.1 && e.0 > e.1 {
            continue;
        }
        m.add_edge(e.0, e.1);
        left = left.saturating_sub(1);
    }
    if extra {
        m.add_edge(m.n - 1, 0);
    }
    m
}

fn density_jobs(
    v: &mut Vec<Job>,
    tier: Tier,
    what: &'static str,
    f: impl Fn(&mut Ctx, &RG, u64) -> bool + Copy + Send + Sync + 'static,
) {
    let max_all = tier.pick(8, 12);
    let mut sizes: Vec<u64> = (2..=max_all).collect();
    sizes.extend([10, 13, 16, 31, 32, 33, 49, 64].iter().filter(|b| **b > max_all));
    for b in sizes {
        v.push(job(format!("{what}: densities of blocks of size {b}"), move |ctx| {
            let all = b * b;
            let step = if b <= max_all { 1 } else { (all / 24).max(1) };
            let mut ks: Vec<u64> = (1..=all).step_by(step as usize).collect();
            ks.extend([all - 1, all]);
            for k in ks {
                for (at, und) in [((0, 0), false), ((1, 0), false), ((1, 0), true), ((1, 1), true), ((0, 2), false)] {
                    for extra in [false, true] {
                        let m = density_graph(b, k, at, und, extra);
                        ctx.stats.states += 1;
                        ctx.distinct(m.hash64());
                        if !f(ctx, &m, b) {
                            return;
                        }
                    }
                }
            }
        }));
    }
}

pub fn c10(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["pool"]);
    density_jobs(&mut v, tier, "pool", |ctx, m, b| {
        ctx.stats.transitions += 3;
        ctx.stats.traces += 1;
        ctx.case(
            || format!("pool {} by about {b}", m.show()),
            || {
                let (g, q) = built(m);
                for x in [b, b - 1, b + 1] {
                    check_pool(&g.find_avg_pool_matrix(x), &q, x)?;
                }
                Ok(())
            },
        )
    });
    family_jobs(&mut v, tier, "pool", c10_graph);
    graph_jobs(&mut v, tier, "pool", true, c10_graph);
    // Pooling states reached by editing: emptied columns, trailing vertices
    v.push(job("pool after deletions", |ctx| {
        for mask in 0..512u64 {
            for del in [0b111u64, 0b1001001, 0b101010101, 0b111111111, 0b110] {
                let m = gen::embed(&gen::digraph(3, mask), &[0, 5, 9], 2);
                let ok = ctx.case(
                    || format!("pool {} after deleting cells {del:b}", m.show()),
                    || {
                        let mut g = build(&m);
                        let l = [0, 5, 9];
                        for i in 0..9 {
                            if del >> i & 1 == 1 {
                                g.delete_edge(l[i / 3], l[i % 3]);
                            }
                        }
                        let q = as_queried(&g, &m);
                        for b in [0, 1, 2, 3, 4, 5, 6, 8, 12, 13, 40] {
                            check_pool(&g.find_avg_pool_matrix(b), &q, b)?;
                        }
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 11;
                ctx.stats.traces += 1;
                ctx.distinct(mask << 16 | del);
            }
        }
    }));
    // Counts beyond small integers
    let n: u64 = tier.pick(300, 1100);
    v.push(job(format!("pool complete graph n={n}"), move |ctx| {
        let m = RG::with(false, n, (0..n).flat_map(|a| (0..n).map(move |b| (a, b))));
        let mut g = Graph::new_directed();
        let all: Vec<u64> = (0..n).collect();
        for a in 0..n {
            g.add_vertex(a, Some(&all));
        }
        for b in [1, 2, 15, 16, 17, 255, 256, 257, n - 1, n, n + 1, u64::MAX] {
            if b > 300 && b < n {
                continue;
            }
            ctx.stats.transitions += 1;
            if !ctx.case(
                || format!("pool the complete graph of {n} by {b}"),
                || check_pool(&g.find_avg_pool_matrix(b), &m, b),
            ) {
                return;
            }
        }
        ctx.stats.traces += 1;
    }));
    live_jobs(&mut v, tier, "pool", 4, |g, q, k| {
        let b = [2, 3, 0, 9][k];
        check_pool(&g.find_avg_pool_matrix(b), q, b)
    });
    v
}

// ---------------------------------------------------------------- C11

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

fn thresholds(m: &RG, b: u64, all: bool) -> Vec<f64> {
    let mut v = vec![
        f64::NEG_INFINITY,
        -1.0,
        -0.0,
        0.0,
        f64::from_bits(1),
        f64::MIN_POSITIVE,
        1e-19,
        1e-18,
        next_up(1e-18),
        next_down(1e-18),
        2e-18,
        1e-17,
        3e-18,
        1e-9,
        0.5,
        next_down(1.0),
        1.0,
        next_up(1.0),
        1.5,
        1e300,
        f64::INFINITY,
    ];
    let bb = b.clamp(1, m.n.max(1));
    let cells = u128::from(bb) * u128::from(bb);
    let mut ks: BTreeSet<u128> = m.pool_counts(b).values().map(|k| u128::from(*k)).collect();
    for k in ks.clone() {
        ks.extend([k + 1, k - 1]);
    }
    if all && cells <= 144 {
        ks.extend(1..=cells);
    }
    for k in ks {
        let t = k as f64 / cells as f64;
        v.extend([t, next_up(t), next_down(t)]);
    }
    v
}

fn check_approx(a: &Graph, want: &RG, b: u64, t: f64) -> Res {
    check_graph_auto(a, want).map_err(|e| format!("approximated by {b} at {t:e}: {e}"))
}

fn c11_case(g: &Graph, q: &RG, b: u64, all: bool) -> Result<u64, String> {
    let mut last: Option<(RG, RG)> = None;
    let ts = thresholds(q, b, all);
    let n = ts.len() as u64;
    for t in ts {
        let want = q.approximate(b, t);
        let a = g.approximate(b, t);
        check_approx(&a, &want, b, t)?;
        last = Some((want, as_queried(&a, q)));
    }
    drop(last);
    Ok(n)
}

fn c11_graph(ctx: &mut Ctx, m: &RG, sizes: &[u64], all: bool) -> bool {
    let mut n = 0;
    let ok = ctx.case(
        || format!("approximate {} by each of {sizes:?} at every threshold", m.show()),
        || {
            let (g, q) = built(m);
            for b in sizes {
                n += c11_case(&g, &q, *b, all)?;
            }
            let again = as_queried(&g, m);
            ensure!(again == q && g.edge_count() == q.e.len() as u64, "the original graph changed");
            Ok(())
        },
    );
    ctx.stats.transitions += n;
    ctx.stats.traces += 1;
    ok
}

/// Blocks so large that the few edges in them are next to the lowest threshold.
fn faint_jobs(v: &mut Vec<Job>, tier: Tier) {
    let mut sizes: Vec<u64> = vec![3, 10, 100, 1_000, 100_000, 1_000_000, 100_000_000, 316_227_766, 316_227_767, 500_000_000, 707_106_781, 707_106_782];
    sizes.extend([999_999_999, 1_000_000_000, 1_000_000_001, 1_414_213_562, 1_414_213_563, 3_000_000_000, 3_162_277_660, 10_000_000_000, 1 << 40]);
    for k in tier.pick(vec![20, 26, 29, 30, 31, 32, 33, 53, 62], (2..63).collect()) {
        sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for part in sizes.chunks(12) {
        let part = part.to_vec();
        v.push(job(format!("approximate: blocks of size {}..{}", part[0], part[part.len() - 1]), move |ctx| {
            for &b in &part {
                for edges in 1..=tier.pick(4, 12u64) {
                    for und in [false, true] {
                        for (dim, short) in [(1, 0), (2, 0), (2, 1), (3, b / 2)] {
                            let mut m = RG::new(und);
                            let Some(all) = b.checked_mul(dim) else { continue };
                            m.n = all - short;
                            for i in 0..edges {
                                // Edges in the first and the last block, on the diagonal and off it
                                let i = (i * (b / 5 + 1)).min(b - 1);
                                m.add_edge(i, b - 1 - i);
                                if i % 3 != 1 {
                                    m.add_edge(m.n - 1 - i.min(m.n - 1), 0);
                                }
                            }
                            ctx.stats.states += 1;
                            ctx.distinct(m.hash64());
                            if !c11_graph(ctx, &m, &[b], false) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
}

pub fn c11(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["approximate"]);
    faint_jobs(&mut v, tier);
    density_jobs(&mut v, tier, "approximate", |ctx, m, b| c11_graph(ctx, m, &[b], b <= 5));
    family_jobs(&mut v, tier, "approximate", |ctx, m| {
        let bs: Vec<u64> = if m.n > 100 {
            vec![0, 1, 2, 3, 8, 10, 17, m.n / 3, m.n, u64::MAX]
        } else {
            (0..m.n + 2).filter(|b| *b < 9 || b % 3 == 0).chain([u64::MAX]).collect()
        };
        c11_graph(ctx, m, &bs, false)
    });
    graph_jobs(&mut v, tier, "approximate", true, |ctx, m| {
        let bs = if m.n <= 5 {
            vec![0, 1, 2, 3, 4, 5, u64::MAX]
        } else if ctx.tier == Tier::Thorough {
            block_sizes(m.n)
        } else {
            vec![0, 2, 8, m.n / 2, m.n.saturating_sub(1), m.n, 1 << 32, u64::MAX]
        };
        c11_graph(ctx, m, &bs, m.n <= 5)
    });
    live_jobs(&mut v, tier, "approximate", 5, |g, q, k| {
        let (b, t) = [(2, 0.25), (2, 0.5), (0, 0.5), (3, 0.0), (9, 1.0)][k];
        check_approx(&g.approximate(b, t), &q.approximate(b, t), b, t)
    });
    v
}

// ---------------------------------------------------------------- C12

fn c12_graph(ctx: &mut Ctx, m: &RG, levels: &[u8]) -> bool {
    let ok = ctx.case(
        || format!("compress {} at levels {levels:?}", m.show()),
        || {
            let (g, q) = built(m);
            for l in levels {
                let c = g.compress(*l);
                check_compressed(&c, &q.compress(*l)).map_err(|e| format!("level {l}: {e}"))?;
            }
            Ok(())
        },
    );
    ctx.stats.transitions += levels.len() as u64;
    ctx.stats.traces += 1;
    ok
}

/// Graphs whose blocks hold every number of edges.
fn block_count_graph(k: u64, at: Edge, pattern: u64, und: bool, n_extra: u64) -> RG {
    let mut m = RG::new(und);
    m.n = (at.0.max(at.1) + 1) * 8 + n_extra;
    for i in 0..k.min(64) {
        let p = match pattern {
            0 => i,
            1 => 63 - i,
            2 => (i * 27 + 5) % 64,
            3 => (i % 8) * 8 + i / 8,
            _ => (i * 9 + 1) % 64,
        };
        let e = (at.0 * 8 + p % 8, at.1 * 8 + p / 8);
        m.add_edge(e.0, e.1);
    }
    m
}

pub fn c12(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["compress"]);
    for k in 0..=64u64 {
        v.push(job(format!("compress: blocks of {k} edges"), move |ctx| {
            let all: Vec<u8> = (0..=255).collect();
            let near: Vec<u8> = [0, 1, 2, 63, 64, 65, 128, 255]
                .into_iter()
                .chain((k as u8).saturating_sub(2)..=(k as u8 + 2))
                .collect();
            for pattern in 0..5 {
                for at in [(0, 0), (0, 1), (1, 0), (1, 1), (3, 2), (31, 32), ((1 << 32) - 1, 1 << 32), (1 << 58, 5)] {
                    for und in [false, true] {
                        for n_extra in [0, 3] {
                            let m = block_count_graph(k, at, pattern, und, n_extra);
                            ctx.stats.states += 1;
                            ctx.distinct(m.hash64());
                            let l = if pattern == 0 || ctx.tier == Tier::Thorough { &all } else { &near };
                            if !c12_graph(ctx, &m, l) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // Every single edge and every pair of cells of a block, in a 16-vertex graph
    for a in 0..16u64 {
        v.push(job(format!("compress: single edges and pairs from {a}"), move |ctx| {
            for b in 0..16u64 {
                for n_extra in [0, 1, 9] {
                    for und in [false, true] {
                        let mut m = RG::new(und);
                        m.add_edge(a, b);
                        m.n += n_extra;
                        ctx.stats.states += 1;
                        if !c12_graph(ctx, &m, &[0, 1, 2, 3, 64, 255]) {
                            return;
                        }
                        for c in 0..16u64 {
                            for d in 0..16u64 {
                                let mut m = m.clone();
                                m.add_edge(c, d);
                                ctx.stats.states += 1;
                                ctx.distinct(m.hash64());
                                if n_extra == 0 && !c12_graph(ctx, &m, &[1, 2, 3]) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    family_jobs(&mut v, tier, "compress", |ctx, m| {
        let l: Vec<u8> = (0..=66).chain([127, 128, 255]).collect();
        c12_graph(ctx, m, &l)
    });
    graph_jobs(&mut v, tier, "compress", true, |ctx, m| {
        c12_graph(ctx, m, &[0, 1, 2, 3, 4, 5, 9, 10, 63, 64, 65, 255])
    });
    live_jobs(&mut v, tier, "compress", 2, |g, q, k| {
        check_compressed(&g.compress(k as u8 + 1), &q.compress(k as u8 + 1))
    });
    v
}

// ---------------------------------------------------------------- C13

/// The compressed graph as its own queries describe it.
pub fn c_as_queried(c: &CompressedGraph, like: &RC) -> RC {
    let mut r = RC {
        und: c.is_undirected(),
        n: c.vertex_count(),
        level: c.compression_level(),
        blocks: BTreeMap::new(),
    };
    let mut pos: BTreeSet<Edge> = like.blocks.keys().copied().collect();
    pos.extend(like.blocks.keys().map(|(a, b)| (*b, *a)).collect::<Vec<_>>());
    if like.dim() <= 8 {
        pos.extend((0..like.dim()).flat_map(|a| (0..like.dim()).map(move |b| (a, b))));
    }
    for (col, row) in pos {
        // The edges it reports, cell by cell
        let mut v = 0u64;
        for i in 0..64u64 {
            if c.does_edge_exist(col * 8 + i % 8, row * 8 + i / 8) {
                v |= 1 << i;
            }
        }
        if v != 0 {
            r.blocks.insert((col, row), v);
        }
    }
    r
}

fn c13_graph(ctx: &mut Ctx, m: &RG, levels: &[u8]) -> bool {
    let ok = ctx.case(
        || format!("compress {} at {levels:?} and decompress", m.show()),
        || {
            let (g, q) = built(m);
            for l in levels {
                let c = g.compress(*l);
                let cq = c_as_queried(&c, &q.compress(1));
                let d = c.decompress();
                check_graph_auto(&d, &cq.decompress()).map_err(|e| format!("level {l}: {e}"))?;
                if *l <= 1 {
                    ensure!(
                        d.is_undirected() == q.und && d.vertex_count() == q.n && iter_edges(&d)? == q.e,
                        "level {l}: not the original graph ({})",
                        q.show()
                    );
                } else {
                    let de = iter_edges(&d)?;
                    ensure!(
                        de.is_subset(&q.e),
                        "level {l}: not a subgraph of the original ({})",
                        q.show()
                    );
                }
                let c2 = d.compress(*l);
                let c2q = c_as_queried(&c2, &q.compress(1));
                ensure!(
                    c2q == cq && c2.edge_count() == c.edge_count(),
                    "level {l}: compressing again gives {}, expected {}",
                    c2q.show(),
                    cq.show()
                );
                for (a, b) in cq.blocks.keys() {
                    ensure!(
                        c2.get_compressed_matrix_entry(*a, *b) == c.get_compressed_matrix_entry(*a, *b),
                        "level {l}: compressing again gives another block ({a}, {b})"
                    );
                }
            }
            Ok(())
        },
    );
    ctx.stats.transitions += 3 * levels.len() as u64;
    ctx.stats.traces += 1;
    ok
}

/// A compressed graph built by hand decompresses to its own bits.
fn c13_built(ctx: &mut Ctx, rc: &RC) -> bool {
    ctx.stats.transitions += 1;
    ctx.stats.traces += 1;
    ctx.stats.states += 1;
    ctx.case(
        || format!("decompress {}", rc.show()),
        || {
            let c = by_hand(rc);
            let cq = c_as_queried(&c, rc);
            check_graph_auto(&c.decompress(), &cq.decompress())?;
            // What its bytes hold is decompressed in the same way
            let b = c.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
            let Ok(l) = CompressedGraph::try_from(b.as_slice()) else {
                return Ok(());
            };
            let lq = c_as_queried(&l, rc);
            check_graph_auto(&l.decompress(), &lq.decompress()).map_err(|e| format!("loaded from its bytes: {e}"))
        },
    )
}

pub fn by_hand(rc: &RC) -> CompressedGraph {
    let mut b = CompressedGraphBuilder::new(rc.und, rc.n, rc.level);
    for ((c, r), v) in &rc.blocks {
        b.add_compressed_matrix_entry(*v, *c, *r, None);
    }
    unsafe { b.finish() }
}

pub fn c13(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["decompress"]);
    for k in [1u64, 2, 7, 8, 9, 31, 32, 33, 63, 64] {
        v.push(job(format!("decompress: blocks of {k} edges"), move |ctx| {
            for pattern in 0..5 {
                for at in [(0, 0), (0, 1), (1, 0), (1, 1), (3, 2), (31, 32), ((1 << 32) - 1, 1 << 32), (1 << 58, 5)] {
                    for und in [false, true] {
                        for n_extra in [0, 3, 800] {
                            let m = block_count_graph(k, at, pattern, und, n_extra);
                            ctx.stats.states += 1;
                            ctx.distinct(m.hash64());
                            if !c13_graph(ctx, &m, &[1, k as u8, k as u8 + 1]) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    family_jobs(&mut v, tier, "decompress", |ctx, m| c13_graph(ctx, m, &[0, 1, 2, 3, 5, 8, 9, 16, 33, 63, 64, 65]));
    graph_jobs(&mut v, tier, "decompress", true, |ctx, m| c13_graph(ctx, m, &[0, 1, 2, 3, 4, 7, 64]));
    // Blocks by hand: every single bit and every pair of bits
    for i in 0..64u64 {
        v.push(job(format!("decompress: bit {i} with every other"), move |ctx| {
            for j in 0..64u64 {
                for pos in [(0, 0), (1, 0), (0, 1), (2, 2), (7, 300), (1 << 40, 1 << 50)] {
                    for bits in [1u64 << i | 1 << j, !(1u64 << i | 1 << j)] {
                        for (extra, level) in [(0u64, 1u8), (11, 1), (3, 2), (0, 3), (7, 62), (0, 63), (11, 64)] {
                            let rc = RC {
                                und: false,
                                n: (pos.0.max(pos.1) + 1) * 8 + extra,
                                level,
                                blocks: [(pos, bits)].into(),
                            };
                            ctx.distinct(mix(bits) ^ pos.0 ^ extra << 8 ^ u64::from(level) << 16);
                            if !c13_built(ctx, &rc) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // Blocks by hand that hold any number of edges at any level, beside blocks that are full
    for level in 1..=64u8 {
        v.push(job(format!("decompress: by hand at level {level}"), move |ctx| {
            for k in 1..=64u32 {
                for und in [false, true] {
                    let bits = u64::MAX >> (64 - k);
                    let mut blocks: Vec<(u64, u64, u64)> = vec![(u64::MAX, 0, 0), (bits, 0, 1), (bits << (64 - k), 2, 1)];
                    if und {
                        symmetrise(&mut blocks);
                    }
                    for n in [24u64, 31, 4096] {
                        let rc = RC { und, n, level, blocks: blocks.iter().map(|(v, c, r)| ((*c, *r), *v)).collect() };
                        ctx.distinct(mix(u64::from(k)) ^ n ^ u64::from(level) << 16 ^ u64::from(und) << 32);
                        if !c13_built(ctx, &rc) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    live_jobs(&mut v, tier, "compress and decompress", 2, |g, q, k| {
        let c = g.compress(k as u8 + 1);
        let cq = c_as_queried(&c, &q.compress(1));
        let d = c.decompress();
        check_graph_auto(&d, &cq.decompress())?;
        if k == 0 {
            ensure!(d.vertex_count() == q.n && iter_edges(&d)? == q.e, "not the graph {}", q.show());
        }
        Ok(())
    });
    v
}

// ---------------------------------------------------------------- C14

fn c14_case(und: bool, n: u64, level: u8, seq: &[(u64, u64, u64)], weights: u32) -> Res {
    let mut b = CompressedGraphBuilder::new(und, n, level);
    let mut blocks = BTreeMap::new();
    for (i, (v, c, r)) in seq.iter().enumerate() {
        let w = (weights >> (i % 32) & 1 == 1).then(|| u64::from(v.count_ones()));
        b.add_compressed_matrix_entry(*v, *c, *r, w);
        if *v != 0 {
            blocks.insert((*c, *r), *v);
        }
    }
    let c = unsafe { b.finish() };
    check_compressed(
        &c,
        &RC {
            und,
            n,
            level: level.clamp(1, 64),
            blocks,
        },
    )
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for i in 0..n {
        let mut next = Vec::new();
        for p in &out {
            for k in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(k, i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

pub fn c14(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["builder"]);
    let m = u64::MAX;
    let pats: Vec<u64> = vec![1, 1 << 63, m, 0x8040201008040201, 0x00ff00ff00ff00ff, 1 << 7, 1 << 56, 0xf0f0f0f0, m - 1, m >> 1, 0];
    let grids: Vec<(u64, Vec<Edge>)> = vec![
        (16, vec![(0, 0), (0, 1), (1, 0), (1, 1)]),
        (17, vec![(0, 0), (1, 0), (0, 1), (1, 1)]),
        (8 * 400, vec![(0, 255), (255, 0), (256, 256), (399, 399)]),
        (1 << 40, vec![(0, 0), (1 << 33, 1), (1, 1 << 33), ((1 << 37) - 1, (1 << 37) - 1)]),
        (m, vec![(0, 0), (1 << 60, 1 << 60), ((1 << 61) - 2, 0), (0, (1 << 61) - 2)]),
    ];
    for (gi, (n, cells)) in grids.into_iter().enumerate() {
        for len in 0..=cells.len() {
            let orders: Vec<Vec<usize>> = permutations(4)
                .into_iter()
                .map(|p| p[..len].to_vec())
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();
            for und in [false, true] {
                let (cells, pats, orders) = (cells.clone(), pats.clone(), orders.clone());
                v.push(job(format!("build {len} blocks in every order, n={n} und={und}"), move |ctx| {
                    for o in &orders {
                        let base = pats.len();
                        let total: usize = if len <= 2 || (ctx.tier == Tier::Thorough && len <= 3) { base.pow(len as u32) } else { base * 6 };
                        for x in 0..total {
                            let mut y = x;
                            let mut seq = Vec::new();
                            for (k, ci) in o.iter().enumerate() {
                                let p = if total == base.pow(len as u32) {
                                    let p = y % base;
                                    y /= base;
                                    p
                                } else {
                                    (x + k * (x / base + 1)) % base
                                };
                                let (c, r) = cells[*ci];
                                // An undirected graph needs its blocks valid by the caller: give
                                // both mirrors for off-diagonal cells only when they come anyway
                                seq.push((fit(pats[p], c, r, n, und), c, r));
                            }
                            if und {
                                symmetrise(&mut seq);
                            }
                            for level in [1u8, 0, 7, 64, 65, 255] {
                                if level > 1 && x % 5 != 0 {
                                    continue;
                                }
                                for weights in [0u32, 0xff, 0b0101] {
                                    ctx.stats.transitions += 1;
                                    if !ctx.case(
                                        || format!("und={und} n={n} level={level} blocks {seq:x?} weights given {weights:b}"),
                                        || c14_case(und, n, level, &seq, weights),
                                    ) {
                                        return;
                                    }
                                }
                            }
                            ctx.stats.states += 1;
                            ctx.stats.traces += 1;
                            ctx.distinct(seq.iter().fold(gi as u64, |h, s| mix(mix(h ^ s.0) ^ s.1 ^ s.2.rotate_left(7))));
                        }
                    }
                }));
            }
        }
    }
    // Every level, every weight of one block, every single bit
    v.push(job("levels, weights and bits", move |ctx| {
        for level in 0..=255u8 {
            for k in 0..=64u32 {
                let bits = if k == 64 { m } else { (1u64 << k) - 1 };
                for given in [0, 1] {
                    ctx.stats.transitions += 1;
                    if !ctx.case(
                        || format!("level={level} bits={bits:x} weight given {given}"),
                        || c14_case(false, 8, level, &[(bits, 0, 0)], given),
                    ) {
                        return;
                    }
                }
            }
        }
        for i in 0..64 {
            for j in 0..64 {
                ctx.stats.transitions += 1;
                ctx.stats.traces += 1;
                let bits = 1u64 << i | 1 << j;
                ctx.distinct(bits);
                if !ctx.case(
                    || format!("bits {bits:x}"),
                    || c14_case(false, 24, 1, &[(bits, 2, 1), (!bits, 1, 2)], 1),
                ) {
                    return;
                }
            }
        }
    }));
    // Vertex counts without blocks, and many blocks
    v.push(job("vertex counts and many blocks", move |ctx| {
        for n in (0..200).chain([255, 256, 257, 65535, 65536, 1 << 32, (1 << 61) - 1, 1 << 61, m - 8, m - 7, m - 1, m]) {
            for und in [false, true] {
                for level in [0, 1, 9, 64, 255] {
                    ctx.stats.transitions += 1;
                    if !ctx.case(
                        || format!("und={und} n={n} level={level}, no blocks"),
                        || c14_case(und, n, level, &[], 0),
                    ) {
                        return;
                    }
                }
            }
        }
        let max: u64 = ctx.tier.pick(40, 120);
        for k in 1..max {
            for style in 0..3 {
                let seq: Vec<(u64, u64, u64)> = (0..k * k)
                    .map(|i| (mix(i) | 1, i % k, i / k))
                    .filter(|(_, c, r)| match style {
                        0 => true,
                        1 => c == r,
                        _ => (c + r) % 3 == 0,
                    })
                    .collect();
                ctx.stats.transitions += 1;
                ctx.stats.traces += 1;
                ctx.distinct(k << 8 | style);
                if !ctx.case(
                    || format!("{k}x{k} blocks, style {style}"),
                    || c14_case(false, 8 * k, 3, &seq, 0x5555),
                ) {
                    return;
                }
            }
        }
    }));
    let _ = tier;
    v
}

/// Drops the bits beyond the vertex count (which the builder's caller must not give).
fn fit(bits: u64, c: u64, r: u64, n: u64, _und: bool) -> u64 {
    let mut v = bits;
    for i in 0..64u64 {
        if u128::from(c) * 8 + u128::from(i % 8) >= u128::from(n) || u128::from(r) * 8 + u128::from(i / 8) >= u128::from(n) {
            v &= !(1 << i);
        }
    }
    v
}

pub fn transpose(v: u64) -> u64 {
    let mut t = 0;
    for i in 0..64 {
        if v >> i & 1 == 1 {
            t |= 1 << (i % 8 * 8 + i / 8);
        }
    }
    t
}

/// Makes the sequence that of a valid undirected graph: diagonal blocks symmetric, off-diagonal
/// ones mirrored (mirrors that are not in the sequence are appended).
pub fn symmetrise(seq: &mut Vec<(u64, u64, u64)>) {
    let mut all: BTreeMap<Edge, u64> = BTreeMap::new();
    for (v, c, r) in seq.iter() {
        *all.entry((*c, *r)).or_insert(0) |= v;
        *all.entry((*r, *c)).or_insert(0) |= transpose(*v);
    }
    for s in seq.iter_mut() {
        s.0 = all.remove(&(s.1, s.2)).unwrap_or(s.0);
    }
    for ((c, r), v) in all {
        seq.push((v, c, r));
    }
}
