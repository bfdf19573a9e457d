//! C05, C06, C07, C08, C09: the two byte formats.

use crate::engine::{job, mix, peak_alloc, Ctx, Job, Tier};
use crate::gen;
use crate::hist::{apply_g, apply_m, GOp};
use crate::model::*;
use crate::obs::*;
use crate::p_live::live_jobs;
use crate::p_derive::{by_hand, c_as_queried, family_jobs, graph_jobs, transpose};
use graphrox::error::GraphRoxError;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

fn ids_of(m: &RG) -> Vec<u64> {
    if m.n <= 24 {
        return all_ids(m.n);
    }
    let mut s: BTreeSet<u64> = BTreeSet::new();
    for (a, b) in m.e.iter().take(8).chain(m.e.iter().rev().take(8)) {
        s.extend([*a, *b]);
    }
    let l: Vec<u64> = s.into_iter().collect();
    probes(&l, m)
}

fn edits(m: &RG) -> Vec<GOp> {
    let hi = m.n.min(u64::MAX - 2);
    let mut v = vec![
        GOp::AddEdge(0, hi),
        GOp::AddEdge(hi / 2, 0),
        GOp::DeleteEdge(0, hi),
        GOp::AddVertexWith(1, vec![0, 1]),
    ];
    if let Some((a, b)) = m.e.iter().next() {
        v.push(GOp::DeleteEdge(*a, *b));
        v.push(GOp::AddEdge(*b, *a));
    }
    v.push(GOp::AddVertex(hi));
    v
}

// ---------------------------------------------------------------- C05

fn save_load(g: &Graph, what: &str) -> Result<Graph, String> {
    let b = g.to_bytes().map_err(|e| format!("{what}: to_bytes fails: {e}"))?;
    let want = 26 + 16 * g.edge_count();
    ensure!(
        b.len() as u64 == want,
        "{what}: {} bytes, expected {want} for {} edges",
        b.len(),
        g.edge_count()
    );
    Graph::try_from(b.as_slice()).map_err(|e| format!("{what}: loading its bytes fails: {e}"))
}

fn c05_case(m: &RG, deep: bool) -> Res {
    let g = build(m);
    let ids = ids_of(m);
    let before = as_queried(&g, m);
    let mut h = save_load(&g, "first save")?;
    let after = as_queried(&g, m);
    ensure!(
        before == after && g.edge_count() == before.e.len() as u64,
        "saving changed the graph"
    );
    same_graphs(&h, &g, &ids, "loaded and original")?;
    if !deep {
        return Ok(());
    }
    // The same edits on both, with a save and load after every edit
    let mut g2 = g.clone();
    for op in edits(m) {
        apply_g(&mut g2, &op);
        apply_g(&mut h, &op);
        same_graphs(&h, &g2, &ids, &format!("loaded and original after {op:?}"))?;
        h = save_load(&h, &format!("save after {op:?}"))?;
        same_graphs(&h, &g2, &ids, &format!("loaded again and original after {op:?}"))?;
    }
    Ok(())
}

pub fn c05(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["bytes"]);
    let many: u64 = tier.pick(70_000, 1_100_000);
    for (name, f) in [
        ("column", (|i| (3, i)) as fn(u64) -> Edge),
        ("row", |i| (i, 3)),
        ("square", |i| (i % 271, i / 271)),
        ("spread", |i| (i << 40, i << 23)),
    ] {
        for und in [false, true] {
            v.push(job(format!("save {many} edges, {name}, und={und}"), move |ctx| {
                for k in [255u64, 256, 257, 4095, 4096, 65535, 65536, many] {
                    let ok = ctx.case(
                        || format!("save and load {k} edges, {name}, und={und}"),
                        || {
                            let mut g = crate::hist::new_graph(und);
                            for i in 0..k {
                                let (a, b) = f(i);
                                g.add_edge(a, b);
                            }
                            let h = save_load(&g, "save")?;
                            ensure!(h.edge_count() == g.edge_count(), "edge counts differ");
                            ensure!(h.vertex_count() == g.vertex_count(), "vertex counts differ");
                            ensure!(h.is_undirected() == und, "kinds differ");
                            for i in 0..k {
                                let (a, b) = f(i);
                                ensure!(h.does_edge_exist(a, b), "edge ({a}, {b}) is lost");
                                ensure!(h.does_edge_exist(b, a) == g.does_edge_exist(b, a), "edge ({b}, {a}) differs");
                            }
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 2;
                    ctx.stats.traces += 1;
                    ctx.stats.states += 1;
                    ctx.distinct(k << 1 | u64::from(und));
                }
            }));
        }
    }
    family_jobs(&mut v, tier, "save", |ctx, m| {
        ctx.stats.transitions += 2;
        ctx.stats.traces += 1;
        ctx.case(|| format!("save and load {}", m.show()), || c05_case(m, m.n < 10))
    });
    graph_jobs(&mut v, tier, "save", true, |ctx, m| {
        ctx.stats.transitions += 15;
        ctx.stats.traces += 1;
        ctx.case(|| format!("save, load and edit {}", m.show()), || c05_case(m, true))
    });
    // Trailing vertices, emptied graphs
    v.push(job("vertex counts without edges", |ctx| {
        let max = u64::MAX;
        for n in (0..300).chain([65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 63) - 1, 1 << 63, max - 1, max]) {
            for und in [false, true] {
                let mut m = RG::new(und);
                m.n = n;
                ctx.stats.transitions += 1;
                ctx.stats.traces += 1;
                ctx.stats.states += 1;
                ctx.distinct(n << 1 | u64::from(und));
                if !ctx.case(|| format!("save {}", m.show()), || c05_case(&m, true)) {
                    return;
                }
                if !ctx.case(
                    || format!("save {} after adding and deleting an edge", m.show()),
                    || {
                        let mut g = build(&m);
                        g.add_edge(3, 5);
                        g.delete_edge(3, 5);
                        let h = save_load(&g, "save")?;
                        same_graphs(&h, &g, &[0, 3, 5, 6], "loaded and original")
                    },
                ) {
                    return;
                }
            }
        }
    }));
    live_jobs(&mut v, tier, "save and load", 1, |g, q, _| {
        let h = save_load(g, "save")?;
        same_graphs(&h, g, &ids_of(q), "loaded and original")
    });
    v
}

// ---------------------------------------------------------------- C06

fn alloc_bound(len: usize) -> usize {
    8192 + 512 * len
}

/// Judges the bytes where they are and at other addresses: where the records are aligned, and one
/// that depends on the bytes (outside the accounting, so a copy costs nothing).
fn at_addresses(b: &[u8], judge: fn(&[u8]) -> Res) -> Res {
    judge(b)?;
    let any = b.iter().fold(b.len(), |h, x| h.wrapping_mul(31).wrapping_add(usize::from(*x))) % 16;
    for to in [6, any] {
        let mut room = vec![0xa5u8; b.len() + 48];
        let at = (to + 16 - room.as_ptr() as usize % 16) % 16;
        room[at..at + b.len()].copy_from_slice(b);
        judge(&room[at..at + b.len()]).map_err(|e| format!("at an address of remainder {to} modulo 16: {e}"))?;
    }
    Ok(())
}

fn c06_case(b: &[u8]) -> Res {
    at_addresses(b, c06_at)
}

fn c06_at(b: &[u8]) -> Res {
    let want = decode_graph(b);
    let (got, peak) = peak_alloc(|| Graph::try_from(b));
    ensure!(
        peak <= alloc_bound(b.len()),
        "loading {} bytes allocates {peak} bytes",
        b.len()
    );
    match (got, want) {
        (Ok(g), Ok(m)) => check_graph_auto(&g, &m).map_err(|e| format!("the loaded graph: {e}")),
        (Ok(_), Err(why)) => Err(format!("loads, but it is not well-formed: {why}")),
        (Err(e), Ok(m)) => Err(format!("refused ({e}), but it is well-formed: {}", m.show())),
        (Err(GraphRoxError::InvalidFormat(_)), Err(_)) => Ok(()),
        (Err(e), Err(why)) => Err(format!("refused with {e:?}, not a format error ({why})")),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(160) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 160 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

type Verdict = fn(&[u8]) -> Res;

fn try_bytes(ctx: &mut Ctx, b: &[u8], verdict: Verdict) -> bool {
    ctx.stats.transitions += 1;
    ctx.distinct(b.iter().fold(b.len() as u64, |h, x| mix(h ^ u64::from(*x))));
    ctx.case(|| format!("load {}", hex(b)), || verdict(b))
}

/// Every fault of one well-formed base: truncations, extensions, byte values, pairs of them,
/// bit flips in the records, records swapped, repeated, dropped and rotated.
fn faults(ctx: &mut Ctx, base: &[u8], header: usize, record: usize, counts_at: usize, verdict: Verdict) -> bool {
    if !try_bytes(ctx, base, verdict) {
        return false;
    }
    // At every alignment, inside a larger buffer
    for offset in 0..=16 {
        for fill in [0u8, 1, 0xff] {
            for (more, less) in [(0, 0), (0, 1), (1, 0), (record, 0)] {
                let mut b = vec![fill; offset];
                b.extend(&base[..base.len() - less]);
                b.extend(std::iter::repeat_n(0, more));
                let end = b.len();
                b.extend(std::iter::repeat_n(fill, 64));
                if !try_bytes(ctx, &b[offset..end], verdict) {
                    return false;
                }
            }
        }
    }
    for len in 0..base.len() {
        if base.len() > 400 && len > 100 && len % 7 != 0 && (len - header) % record > 1 {
            continue;
        }
        if !try_bytes(ctx, &base[..len], verdict) {
            return false;
        }
    }
    for ext in 1..=2 * record + 1 {
        for fill in [0u8, 1, 0xff] {
            let mut b = base.to_vec();
            b.extend(std::iter::repeat_n(fill, ext));
            if !try_bytes(ctx, &b, verdict) {
                return false;
            }
            if ext % record == 0 {
                // The count says so too
                bump(&mut b, counts_at, (ext / record) as u64);
                if !try_bytes(ctx, &b, verdict) {
                    return false;
                }
            }
        }
    }
    for at in 0..base.len().min(header + 3 * record) {
        for x in 0..=255u8 {
            let mut b = base.to_vec();
            b[at] = x;
            if !try_bytes(ctx, &b, verdict) {
                return false;
            }
        }
    }
    // Two bytes wrong together
    let vals = |o: u8| [0u8, 1, 2, 0x7f, 0x80, 0xff, o ^ 1, o.wrapping_add(1), o.wrapping_sub(1)];
    for p in 0..header {
        for q in p + 1..header {
            for x in vals(base[p]) {
                for y in vals(base[q]) {
                    if ctx.tier == Tier::Quick && (x ^ y ^ p as u8 ^ q as u8) % 4 != 0 {
                        continue;
                    }
                    let mut b = base.to_vec();
                    b[p] = x;
                    b[q] = y;
                    if !try_bytes(ctx, &b, verdict) {
                        return false;
                    }
                }
            }
        }
    }
    let n = (base.len() - header) / record;
    let rec = |i: usize| base[header + i * record..header + (i + 1) * record].to_vec();
    for i in 0..n.min(12) {
        for j in 0..n.min(12) {
            // Record i replaced by record j; swapped with it; inserted after it
            let mut b = base.to_vec();
            b[header + i * record..header + (i + 1) * record].copy_from_slice(&rec(j));
            if !try_bytes(ctx, &b, verdict) {
                return false;
            }
            b[header + j * record..header + (j + 1) * record].copy_from_slice(&rec(i));
            if !try_bytes(ctx, &b, verdict) {
                return false;
            }
            let mut b = base.to_vec();
            let at = header + j * record;
            b.splice(at..at, rec(i));
            for d in [0u64, 1, 2] {
                let mut c = b.clone();
                bump(&mut c, counts_at, d);
                if !try_bytes(ctx, &c, verdict) {
                    return false;
                }
            }
        }
        let mut b = base.to_vec();
        b.drain(header + i * record..header + (i + 1) * record);
        for d in [0u64, 1u64.wrapping_neg(), 1] {
            let mut c = b.clone();
            bump(&mut c, counts_at, d);
            if !try_bytes(ctx, &c, verdict) {
                return false;
            }
        }
        // The fields of the record set to what is special
        for f in 0..record / 8 {
            for val in [0u64, 1, 2, 7, 8, 255, 256, 1 << 32, 1 << 61, 1 << 63, u64::MAX - 1, u64::MAX] {
                let mut b = base.to_vec();
                let at = header + i * record + 8 * f;
                b[at..at + 8].copy_from_slice(&val.to_be_bytes());
                if !try_bytes(ctx, &b, verdict) {
                    return false;
                }
            }
        }
    }
    // Reversed, rotated
    let mut b = base[..header].to_vec();
    for i in (0..n).rev() {
        b.extend(rec(i));
    }
    if !try_bytes(ctx, &b, verdict) {
        return false;
    }
    for k in 1..n.min(20) {
        let mut b = base[..header].to_vec();
        for i in 0..n {
            b.extend(rec((i + k) % n));
        }
        if !try_bytes(ctx, &b, verdict) {
            return false;
        }
    }
    true
}

fn bump(b: &mut [u8], at: usize, by: u64) {
    let mut x = [0; 8];
    x.copy_from_slice(&b[at..at + 8]);
    let v = u64::from_be_bytes(x).wrapping_add(by);
    b[at..at + 8].copy_from_slice(&v.to_be_bytes());
}

fn special_u64() -> Vec<u64> {
    let m = u64::MAX;
    let mut v = vec![];
    for k in [0, 1, 3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 56, 58, 59, 60, 61, 62, 63] {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([m, m - 1, m - 8, (m - 26) / 16, (m - 26) / 16 + 1, (m - 42) / 24, (m - 42) / 24 + 1, m / 24, m / 16, m / 3, m / 3 + 1]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c06(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    let mut bases: Vec<RG> = vec![
        RG::with(false, 0, []),
        RG::with(true, 0, []),
        RG::with(false, 3, []),
        RG::with(false, 2, [(0, 1)]),
        RG::with(true, 2, [(0, 1)]),
        RG::with(true, 3, [(1, 1), (0, 2)]),
        RG::with(false, 300, [(0, 299), (255, 256), (256, 255), (7, 7)]),
        RG::with(true, 65537, [(65535, 65536), (0, 1), (3, 3)]),
        RG::with(false, u64::MAX, [(u64::MAX - 1, u64::MAX - 1), (0, u64::MAX - 1), (1 << 32, 1)]),
        RG::with(false, 9, (0..8).map(|i| (i, i + 1))),
        RG::with(true, 9, (0..8).map(|i| (i, i + 1))),
    ];
    if tier == Tier::Thorough {
        bases.extend(gen::sparse_families(&[4, 17, 40]));
        bases.extend(gen::dense_families(&[3, 6]));
    }
    for m in bases {
        v.push(job(format!("faults of the bytes of {}", m.show()), move |ctx| {
            faults(ctx, &m.encode(), 26, 16, 16, c06_case);
        }));
    }
    // Every list of records over tiny vertex sets, under every claim about it
    for n in 0..=3u64 {
        let cells = (n + 1) * (n + 1);
        let max_len: u32 = match (n, tier) {
            (0..=1, _) => 4,
            (2, Tier::Quick) => 4,
            (2, Tier::Thorough) => 5,
            (_, Tier::Quick) => 3,
            (_, Tier::Thorough) => 4,
        };
        for len in 0..=max_len {
            v.push(job(format!("all lists of {len} records over 0..={n}"), move |ctx| {
                for x in 0..cells.pow(len) {
                    let mut recs: Vec<Edge> = Vec::new();
                    let mut y = x;
                    for _ in 0..len {
                        recs.push((y % cells / (n + 1), y % cells % (n + 1)));
                        y /= cells;
                    }
                    for und in [0, 1] {
                        for count in [u64::from(len), u64::from(len) + 1, u64::from(len).wrapping_sub(1)] {
                            if count != u64::from(len) && (len > 2 || und == 1) {
                                continue;
                            }
                            let b = encode_graph_raw(0x7ae71ffd, 1, n, count, und, 0, &recs);
                            if !try_bytes(ctx, &b, c06_case) {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // Symmetric and one short of it: every undirected graph with each record missing, repeated
    for n in 2..=4u64 {
        v.push(job(format!("mirrors missing, n={n}"), move |ctx| {
            for mask in 0..1u64 << gen::und_cells(n) {
                if n == 4 && mask % 3 != 0 && ctx.tier == Tier::Quick {
                    continue;
                }
                let m = gen::ungraph(n, mask);
                let e: Vec<Edge> = m.e.iter().copied().collect();
                for i in 0..e.len() {
                    for j in 0..=e.len() {
                        let mut recs = e.clone();
                        if j < e.len() {
                            recs[i] = e[j];
                        } else {
                            recs.remove(i);
                        }
                        for und in [true, false] {
                            if !try_bytes(ctx, &encode_graph(und, n, &recs), c06_case) {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    v.push(job("extreme claims", |ctx| {
        let s = special_u64();
        for n in &s {
            for count in &s {
                for recs in [vec![], vec![(0u64, 0u64)], vec![(n.saturating_sub(1), 0)], vec![(*n, 0)], vec![(0, *n)], vec![(0, 0), (1, 1)]] {
                    for und in [0, 1] {
                        let b = encode_graph_raw(0x7ae71ffd, 1, *n, *count, und, 0, &recs);
                        if !try_bytes(ctx, &b, c06_case) {
                            return;
                        }
                    }
                }
            }
            // The right count, ids around the vertex count
            for a in [n.wrapping_sub(1), *n, n.wrapping_add(1), 0, u64::MAX] {
                for b in [n.wrapping_sub(1), *n, n.wrapping_add(1), 0, u64::MAX] {
                    for und in [false, true] {
                        for recs in [vec![(a, b)], vec![(a, b), (b, a)], vec![(0, 0), (a, b)]] {
                            if !try_bytes(ctx, &encode_graph(und, *n, &recs), c06_case) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }));
    v.push(job("short strings", |ctx| {
        for len in 0..=60usize {
            for fill in 0..=255u8 {
                if !try_bytes(ctx, &vec![fill; len], c06_case) {
                    return;
                }
            }
        }
    }));
    // The other format's bytes, and version and magic values
    v.push(job("magic and version values", |ctx| {
        let m = RG::with(false, 3, [(0, 1), (2, 2)]);
        let e: Vec<Edge> = m.e.iter().copied().collect();
        if !try_bytes(ctx, &m.compress(1).encode(), c06_case) {
            return;
        }
        for version in (0..600).chain([u32::MAX, 1 << 8, 1 << 16, 1 << 24, 0x7ae71ffd, 256 + 1, 65536 + 1]) {
            for magic in [0x7ae71ffdu32, 0x71ff7aed, 0, u32::MAX, 0xfd1fe77a, 0x7ae71ffc] {
                if !try_bytes(ctx, &encode_graph_raw(magic, version, 3, 2, 0, 0, &e), c06_case) {
                    return;
                }
            }
        }
        for und in 0..=255u8 {
            for w in 0..=255u8 {
                if !try_bytes(ctx, &encode_graph_raw(0x7ae71ffd, 1, 3, 2, und, w, &e), c06_case) {
                    return;
                }
            }
        }
    }));
    // Long inputs: the last record wrong, and memory in proportion
    v.push(job("long inputs", |ctx| {
        for k in [100u64, 1000, 5000, 20000] {
            for shape in 0..3u64 {
                let f = |i: u64| match shape {
                    0 => (i, i),
                    1 => (i % 100, i / 100),
                    _ => (0, i),
                };
                let recs: Vec<Edge> = (0..k).map(f).collect();
                let n = k + 1;
                let mut variants = vec![recs.clone()];
                let mut r = recs.clone();
                *r.last_mut().unwrap() = r[0];
                variants.push(r);
                let mut r = recs.clone();
                *r.last_mut().unwrap() = (n, 0);
                variants.push(r);
                let mut r = recs.clone();
                *r.last_mut().unwrap() = (0, n);
                variants.push(r);
                let mut r = recs;
                r.reverse();
                variants.push(r);
                for r in variants {
                    for und in [false, true] {
                        if !try_bytes(ctx, &encode_graph(und, n, &r), c06_case) {
                            return;
                        }
                    }
                }
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C07

pub fn same_compressed(a: &CompressedGraph, b: &CompressedGraph, like: &RC, what: &str) -> Res {
    ensure!(a.is_undirected() == b.is_undirected(), "{what}: kinds differ");
    ensure!(
        a.vertex_count() == b.vertex_count(),
        "{what}: vertex counts {} and {} differ",
        a.vertex_count(),
        b.vertex_count()
    );
    ensure!(
        a.edge_count() == b.edge_count(),
        "{what}: edge counts {} and {} differ",
        a.edge_count(),
        b.edge_count()
    );
    ensure!(
        a.compression_level() == b.compression_level(),
        "{what}: levels {} and {} differ",
        a.compression_level(),
        b.compression_level()
    );
    let mut pos: BTreeSet<Edge> = like.blocks.keys().copied().collect();
    pos.extend(like.blocks.keys().map(|(x, y)| (*y, *x)).collect::<Vec<_>>());
    let d = like.dim();
    if d <= 10 {
        pos.extend((0..=d).flat_map(|x| (0..=d).map(move |y| (x, y))));
    }
    for (x, y) in pos {
        let (p, q) = (a.get_compressed_matrix_entry(x, y), b.get_compressed_matrix_entry(x, y));
        ensure!(p == q, "{what}: blocks ({x}, {y}) {p:#x} and {q:#x} differ");
    }
    let (x, y) = (c_as_queried(a, like), c_as_queried(b, like));
    ensure!(x == y, "{what}: edges differ: {} and {}", x.show(), y.show());
    Ok(())
}

fn c07_case(c: &CompressedGraph, like: &RC, what: &str) -> Res {
    let before = c_as_queried(c, like);
    let stored = like
        .blocks
        .keys()
        .filter(|(x, y)| c.get_compressed_matrix_entry(*x, *y) != 0)
        .count();
    let b = c.to_bytes().map_err(|e| format!("{what}: to_bytes fails: {e}"))?;
    ensure!(
        b.len() == 42 + 24 * stored,
        "{what}: {} bytes, expected {} for {stored} blocks",
        b.len(),
        42 + 24 * stored
    );
    let d = CompressedGraph::try_from(b.as_slice())
        .map_err(|e| format!("{what}: loading its bytes fails: {e}"))?;
    same_compressed(&d, c, like, &format!("{what}: loaded and original"))?;
    ensure!(c_as_queried(c, like) == before, "{what}: saving changed it");
    let (x, y) = (d.decompress(), c.decompress());
    let ids: Vec<u64> = like.edges().iter().take(6).flat_map(|e| [e.0, e.1]).chain([0, like.n]).collect();
    same_graphs(&x, &y, &ids, &format!("{what}: decompressed, loaded and original"))?;
    if like.blocks.len() <= 64 {
        check_graph_auto(&x, &before.decompress()).map_err(|e| format!("{what}: decompressed: {e}"))?;
    }
    let b2 = d.to_bytes().map_err(|e| format!("{what}: saving again fails: {e}"))?;
    let e = CompressedGraph::try_from(b2.as_slice())
        .map_err(|e| format!("{what}: loading again fails: {e}"))?;
    same_compressed(&e, c, like, &format!("{what}: loaded twice and original"))
}

fn c07_graph(ctx: &mut Ctx, m: &RG, levels: &[u8]) -> bool {
    ctx.stats.transitions += levels.len() as u64 * 4;
    ctx.stats.traces += 1;
    ctx.case(
        || format!("compress {} at {levels:?}, save and load", m.show()),
        || {
            let (g, q) = built(m);
            for l in levels {
                c07_case(&g.compress(*l), &q.compress(1), &format!("level {l}"))?;
            }
            Ok(())
        },
    )
}

pub fn c07(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["compressed-bytes"]);
    family_jobs(&mut v, tier, "save compressed", |ctx, m| {
        c07_graph(ctx, m, &[0, 1, 2, 3, 8, 9, 33, 63, 64, 65, 255])
    });
    graph_jobs(&mut v, tier, "save compressed", true, |ctx, m| c07_graph(ctx, m, &[0, 1, 2, 3, 9, 64, 255]));
    for level in 0..=65u8 {
        v.push(job(format!("by hand, level {level}"), move |ctx| {
            for n in [0u64, 1, 7, 8, 9, 63, 64, 65, 2040, 2048, 2049, 1 << 20, 1 << 40, u64::MAX] {
                for k in 0..6u64 {
                    let mut rc = RC {
                        und: k % 2 == 1,
                        n,
                        level: level.clamp(1, 64),
                        blocks: BTreeMap::new(),
                    };
                    let d = n / 8;
                    for i in 0..k {
                        if d == 0 {
                            break;
                        }
                        let p = (mix(i) % d.min(300), if i % 2 == 0 { mix(i + 7) % d } else { d - 1 });
                        let bits = mix(i * 31 + k) | 1;
                        if rc.und {
                            let bits = if p.0 == p.1 { bits | transpose(bits) } else { bits };
                            if rc.blocks.contains_key(&p) {
                                continue;
                            }
                            rc.blocks.insert(p, bits);
                            rc.blocks.insert((p.1, p.0), transpose(bits));
                        } else {
                            rc.blocks.insert(p, bits);
                        }
                    }
                    ctx.stats.states += 1;
                    ctx.stats.transitions += 4;
                    ctx.stats.traces += 1;
                    ctx.distinct(mix(n) ^ k ^ u64::from(level) << 8);
                    if !ctx.case(
                        || format!("by hand {}", rc.show()),
                        || c07_case(&by_hand(&rc), &rc, "by hand"),
                    ) {
                        return;
                    }
                }
            }
        }));
    }
    let many: u64 = tier.pick(270, 800);
    v.push(job(format!("{many}^2 blocks by hand"), move |ctx| {
        for side in [15u64, 16, 17, 64, 255, 256, 257, many] {
            let rc = RC {
                und: false,
                n: side * 8,
                level: 1,
                blocks: (0..side * side).map(|i| ((i % side, i / side), mix(i) | 1 << 63)).collect(),
            };
            ctx.stats.states += 1;
            ctx.stats.transitions += 2;
            ctx.stats.traces += 1;
            ctx.distinct(side);
            if !ctx.case(
                || format!("{side}x{side} blocks by hand"),
                || {
                    let c = by_hand(&rc);
                    let b = c.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
                    ensure!(b.len() as u64 == 42 + 24 * side * side, "{} bytes", b.len());
                    let d = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("loading: {e}"))?;
                    ensure!(d.edge_count() == c.edge_count(), "edge counts differ");
                    for (x, y) in rc.blocks.keys() {
                        ensure!(
                            d.get_compressed_matrix_entry(*x, *y) == c.get_compressed_matrix_entry(*x, *y),
                            "blocks ({x}, {y}) differ"
                        );
                    }
                    Ok(())
                },
            ) {
                return;
            }
        }
    }));
    live_jobs(&mut v, tier, "compress, save and load", 2, |g, q, k| {
        c07_case(&g.compress(k as u8 + 1), &q.compress(1), "compressed")
    });
    v
}

// ---------------------------------------------------------------- C08

fn c08_case(b: &[u8]) -> Res {
    at_addresses(b, c08_at)
}

fn c08_at(b: &[u8]) -> Res {
    let want = decode_compressed(b);
    let (got, peak) = peak_alloc(|| CompressedGraph::try_from(b));
    ensure!(
        peak <= alloc_bound(b.len()),
        "loading {} bytes allocates {peak} bytes",
        b.len()
    );
    match (got, want) {
        (Ok(c), Ok(m)) => check_compressed(&c, &m).map_err(|e| format!("the loaded one: {e}")),
        (Ok(_), Err(why)) => Err(format!("loads, but it is not well-formed: {why}")),
        (Err(e), Ok(m)) => Err(format!("refused ({e}), but it is well-formed: {}", m.show())),
        (Err(GraphRoxError::InvalidFormat(_)), Err(_)) => Ok(()),
        (Err(e), Err(why)) => Err(format!("refused with {e:?}, not a format error ({why})")),
    }
}

fn rc(und: bool, n: u64, level: u8, blocks: &[(Edge, u64)]) -> RC {
    let mut c = RC {
        und,
        n,
        level,
        blocks: BTreeMap::new(),
    };
    for ((a, b), v) in blocks {
        *c.blocks.entry((*a, *b)).or_insert(0) |= v;
        if und {
            *c.blocks.entry((*b, *a)).or_insert(0) |= transpose(*v);
        }
    }
    c
}

pub fn c08(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    let m = u64::MAX;
    let bases = vec![
        rc(false, 0, 1, &[]),
        rc(true, 0, 64, &[]),
        rc(false, 9, 3, &[]),
        rc(false, 8, 1, &[((0, 0), m)]),
        rc(true, 8, 2, &[((0, 0), 0x8040201008040201)]),
        rc(false, 17, 5, &[((0, 0), 0x0102030405060708), ((2, 0), 0x0101010101010101), ((0, 2), 0xff), ((2, 2), 1)]),
        rc(true, 17, 5, &[((0, 0), 0x0102030405060708), ((2, 0), 0x0101010101010101), ((1, 1), 0xff), ((2, 2), 1)]),
        rc(false, 3, 1, &[((0, 0), 0x0000000000070707)]),
        rc(true, 2100, 9, &[((255, 256), 0xdeadbeef), ((260, 1), 7), ((5, 5), 1)]),
        rc(false, m, 64, &[(((1 << 61) - 1, 0), 1), ((0, (1 << 61) - 1), 1), ((1 << 60, 1 << 59), m)]),
    ];
    let mut all = bases;
    if tier == Tier::Thorough {
        for g in gen::dense_families(&[5, 12, 20]) {
            all.push(g.compress(1));
        }
    }
    for c in all {
        v.push(job(format!("faults of the bytes of {}", c.show()), move |ctx| {
            faults(ctx, &c.encode(), 42, 24, 16, c08_case);
        }));
    }
    // Every vertex count up to 40 with every cell of a block at the matrix's edge
    for n in 0..=40u64 {
        v.push(job(format!("single cells, n={n}"), move |ctx| {
            let dim = (n / 8 + u64::from(n % 8 != 0)).max(1);
            for c in 0..=dim {
                for r in 0..=dim {
                    for i in 0..64 {
                        for und in [false, true] {
                            let one = (1u64 << i, c, r);
                            let mirror = (transpose(1 << i), r, c);
                            let mut lists = vec![vec![one], vec![one, one]];
                            if und {
                                lists.push(vec![one, mirror]);
                                lists.push(vec![(one.0 | mirror.0, c, r)]);
                                lists.push(vec![one, (one.0, r, c)]);
                            }
                            for l in lists {
                                if !try_bytes(ctx, &encode_compressed(und, n, 1, &l), c08_case) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    // Every list of up to three blocks over a two-by-two block matrix from a few patterns
    for und in [0u8, 1] {
        for n in [9u64, 16] {
            v.push(job(format!("block lists, n={n} und={und}"), move |ctx| {
                let pats = [0u64, 1, 1 << 63, 2, 1 << 8, 0x0102, m, 0x8040201008040201];
                let opts: Vec<(u64, u64, u64)> = pats
                    .iter()
                    .flat_map(|p| (0..3).flat_map(move |c| (0..3).map(move |r| (*p, c, r))))
                    .filter(|(_, c, r)| *c < 2 && *r < 2 || c + r == 2)
                    .collect();
                let mut lists: Vec<Vec<(u64, u64, u64)>> = vec![vec![]];
                for a in &opts {
                    lists.push(vec![*a]);
                    for b in &opts {
                        lists.push(vec![*a, *b]);
                        if a.1 < 2 && b.1 < 2 && a.2 < 2 && b.2 < 2 && (ctx.tier == Tier::Thorough || a.0.count_ones() < 9 && b.0.count_ones() < 9) {
                            for c in opts.iter().filter(|c| c.1 < 2 && c.2 < 2) {
                                lists.push(vec![*a, *b, *c]);
                            }
                        }
                    }
                }
                for l in lists {
                    let total: u64 = l.iter().map(|x| u64::from(x.0.count_ones())).sum();
                    for t in [total, total + 1] {
                        if t != total && l.len() > 2 {
                            continue;
                        }
                        let b = encode_compressed_raw(0x71ff7aed, 2, 2, l.len() as u64, t, n, und, 1, &l);
                        if !try_bytes(ctx, &b, c08_case) {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v.push(job("extreme claims", |ctx| {
        let s = special_u64();
        for n in &s {
            let dim = (n / 8 + u64::from(n % 8 != 0)).max(1);
            for d in [dim, dim.wrapping_sub(1), dim.wrapping_add(1), 0, n / 8, n / 8 + 1, u64::MAX] {
                for count in [0u64, 1] {
                    let recs = if count == 1 { vec![(1u64, 0u64, 0u64)] } else { vec![] };
                    if !try_bytes(ctx, &encode_compressed_raw(0x71ff7aed, 2, d, count, count, *n, 0, 1, &recs), c08_case) {
                        return;
                    }
                }
            }
            for count in &s {
                for recs in [vec![], vec![(1u64, 0u64, 0u64)]] {
                    if !try_bytes(ctx, &encode_compressed_raw(0x71ff7aed, 2, dim, *count, 1, *n, 0, 1, &recs), c08_case) {
                        return;
                    }
                    // The edge total likewise
                    if !try_bytes(ctx, &encode_compressed_raw(0x71ff7aed, 2, dim, recs.len() as u64, *count, *n, 0, 1, &recs), c08_case) {
                        return;
                    }
                }
            }
            for c in [0, dim.wrapping_sub(1), dim, dim.wrapping_add(1), u64::MAX, 1 << 61, (1 << 61) - 1, 1 << 60] {
                for r in [0, dim.wrapping_sub(1), dim, dim.wrapping_add(1), u64::MAX, 1 << 61, (1 << 61) - 1, 1 << 60] {
                    for bits in [1u64, 1 << 7, 1 << 56, 1 << 63, u64::MAX] {
                        if !try_bytes(ctx, &encode_compressed(false, *n, 1, &[(bits, c, r)]), c08_case) {
                            return;
                        }
                    }
                }
            }
        }
    }));
    v.push(job("flags, levels, versions", |ctx| {
        let l = [(3u64, 0u64, 0u64)];
        for und in 0..=255u8 {
            for level in 0..=255u8 {
                if !try_bytes(ctx, &encode_compressed_raw(0x71ff7aed, 2, 1, 1, 2, 4, und, level, &l), c08_case) {
                    return;
                }
            }
        }
        for version in (0..600).chain([u32::MAX, 1 << 16, 1 << 24, 1 << 25, 256 + 2, 65536 + 2]) {
            for magic in [0x71ff7aedu32, 0x7ae71ffd, 0, u32::MAX, 0xed7aff71, 0x71ff7aec] {
                if !try_bytes(ctx, &encode_compressed_raw(magic, version, 1, 1, 2, 4, 0, 1, &l), c08_case) {
                    return;
                }
            }
        }
        let _ = try_bytes(ctx, &RG::with(false, 4, [(0, 0), (1, 0)]).encode(), c08_case);
        for len in 0..=80usize {
            for fill in 0..=255u8 {
                if !try_bytes(ctx, &vec![fill; len], c08_case) {
                    return;
                }
            }
        }
    }));
    v.push(job("long inputs", |ctx| {
        for side in [10u64, 32, 64, 100] {
            for und in [false, true] {
                let mut recs: Vec<(u64, u64, u64)> = (0..side * side)
                    .map(|i| {
                        let (c, r) = (i % side, i / side);
                        let bits = mix(c.min(r) * 1000 + c.max(r)) | 1;
                        let bits = if c == r { bits | transpose(bits) } else if c > r { transpose(bits) } else { bits };
                        (bits, c, r)
                    })
                    .collect();
                let n = side * 8;
                if !try_bytes(ctx, &encode_compressed(und, n, 1, &recs), c08_case) {
                    return;
                }
                let last = recs.len() - 1;
                let keep = recs[last];
                for bad in [recs[0], (0, keep.1, keep.2), (keep.0, side, 0), (keep.0, 0, side), (keep.0 ^ 2, keep.1, keep.2), (1, 3, 2)] {
                    recs[last] = bad;
                    if !try_bytes(ctx, &encode_compressed(und, n, 1, &recs), c08_case) {
                        return;
                    }
                }
                recs[last] = keep;
                recs.reverse();
                if !try_bytes(ctx, &encode_compressed(und, n, 1, &recs), c08_case) {
                    return;
                }
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C09

fn c09_graph(m: &RG) -> Res {
    let (g, q) = built(m);
    let b = g.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
    let d = decode_graph(&b).map_err(|e| format!("an independent reader refuses the saved bytes {}: {e}", hex(&b)))?;
    ensure!(
        d == q,
        "an independent reader finds {} in the saved bytes, expected {}",
        d.show(),
        q.show()
    );
    // Written independently, in order and reversed
    let mut e: Vec<Edge> = m.e.iter().copied().collect();
    for _ in 0..2 {
        let b = encode_graph(m.und, m.n, &e);
        let g = Graph::try_from(b.as_slice()).map_err(|e| format!("an independently written file is refused: {e}"))?;
        ensure!(
            g.is_undirected() == m.und && g.vertex_count() == m.n && g.edge_count() == m.e.len() as u64,
            "an independently written file loads with other counts ({})",
            m.show()
        );
        for (x, y) in &e {
            ensure!(
                g.does_edge_exist(*x, *y) && (m.has(*y, *x) || !g.does_edge_exist(*y, *x)),
                "an independently written file loads without edge ({x}, {y}) or with its mirror"
            );
        }
        e.reverse();
    }
    for level in [1u8, 2, 5, 64] {
        let c = g.compress(level);
        let cq = RC {
            blocks: q
                .compress(1)
                .blocks
                .keys()
                .map(|k| (*k, c.get_compressed_matrix_entry(k.0, k.1)))
                .filter(|x| x.1 != 0)
                .collect(),
            und: c.is_undirected(),
            n: c.vertex_count(),
            level: c.compression_level(),
        };
        let b = c.to_bytes().map_err(|e| format!("compressed to_bytes: {e}"))?;
        let d = decode_compressed(&b)
            .map_err(|e| format!("an independent reader refuses the saved compressed bytes {}: {e}", hex(&b)))?;
        ensure!(
            d == cq,
            "an independent reader finds {} in the saved compressed bytes, expected {}",
            d.show(),
            cq.show()
        );
        let rc = m.compress(level);
        let b = rc.encode();
        let c = CompressedGraph::try_from(b.as_slice())
            .map_err(|e| format!("an independently written compressed file is refused: {e}"))?;
        check_compressed(&c, &rc).map_err(|e| format!("an independently written file: {e}"))?;
    }
    Ok(())
}

pub fn c09(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    v.push(job("the shipped graph files", |ctx| {
        let dir = "/repo/sample-graphs";
        let Ok(bytes) = std::fs::read(format!("{dir}/ca-HepPh.gphrx")) else {
            ctx.note("sample_file_missing", 1);
            return;
        };
        let ok = ctx.case(
            || "load ca-HepPh.gphrx, compare, save, compress, save, load".into(),
            || {
                let want = decode_graph(&bytes).map_err(|e| format!("the shipped file is not well-formed: {e}"))?;
                let g = Graph::try_from(bytes.as_slice()).map_err(|e| format!("the shipped file is refused: {e}"))?;
                ensure!(
                    g.is_undirected() == want.und && g.vertex_count() == want.n && g.edge_count() == want.e.len() as u64,
                    "counts {} and {}",
                    g.vertex_count(),
                    g.edge_count()
                );
                ensure!(iter_edges(&g)? == want.e, "the shipped file loads with other edges");
                let b = g.to_bytes().map_err(|e| format!("{e}"))?;
                ensure!(decode_graph(&b).as_ref() == Ok(&want), "saved again, the shipped graph differs");
                for level in [1, 2, 7] {
                    let b = g.compress(level).to_bytes().map_err(|e| format!("{e}"))?;
                    ensure!(decode_compressed(&b) == Ok(want.compress(level)), "compressed at {level} and saved, the shipped graph differs");
                    let b = want.compress(level).encode();
                    let c = CompressedGraph::try_from(b.as_slice()).map_err(|e| format!("{e}"))?;
                    ensure!(iter_edges(&c.decompress())? == want.compress(level).edges(), "an independently compressed shipped graph decompresses differently");
                }
                Ok(())
            },
        );
        ctx.stats.transitions += 9;
        ctx.stats.traces += 1;
        ctx.stats.states += 1;
        let _ = ok;
    }));
    family_jobs(&mut v, tier, "formats", |ctx, m| {
        ctx.stats.transitions += 11;
        ctx.stats.traces += 1;
        ctx.case(|| format!("both formats both ways for {}", m.show()), || c09_graph(m))
    });
    graph_jobs(&mut v, tier, "formats", true, |ctx, m| {
        ctx.stats.transitions += 11;
        ctx.stats.traces += 1;
        ctx.case(|| format!("both formats both ways for {}", m.show()), || c09_graph(m))
    });
    // A file of the other kind, or of a version there is not, is no file of this one
    v.push(job("magic numbers and versions", |ctx| {
        let mut m = RG::with(false, 20, [(1, 2), (2, 1), (17, 19), (19, 17), (3, 3)]);
        for und in [false, true] {
            m.und = und;
            for (kind, bytes) in [("graph", m.encode()), ("compressed", m.compress(1).encode())] {
                let numbers: Vec<[u8; 8]> = (0..8)
                    .flat_map(|i| (0..=255u8).map(move |x| (i, x)))
                    .map(|(i, x)| {
                        let mut h: [u8; 8] = bytes[..8].try_into().unwrap();
                        h[i] = x;
                        h
                    })
                    .chain((0..8u8).flat_map(|v| {
                        [0x7ae71ffdu32, 0x71ff7aed, 0xfd1fe77a, 0xed7aff71].map(|magic| {
                            let mut h = [0; 8];
                            h[..4].copy_from_slice(&magic.to_be_bytes());
                            h[7] = v;
                            h
                        })
                    }))
                    .collect();
                for h in numbers {
                    let mut b = bytes.clone();
                    b[..8].copy_from_slice(&h);
                    let ok = ctx.case(
                        || format!("a {kind} file that starts {}", hex(&h)),
                        || {
                            let right = h == bytes[..8];
                            let g = Graph::try_from(b.as_slice()).is_ok();
                            let c = CompressedGraph::try_from(b.as_slice()).is_ok();
                            ensure!(g == (right && kind == "graph"), "loads as a graph: {g}");
                            ensure!(c == (right && kind == "compressed"), "loads as a compressed graph: {c}");
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 2;
                    ctx.stats.traces += 1;
                }
            }
        }
    }));
    // Fixed strings, byte for byte
    v.push(job("literal files", |ctx| {
        let unhex = |s: &str| -> Vec<u8> {
            let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
            s.chunks(2)
                .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
                .collect()
        };
        let plain = unhex(
            "7ae71ffd 00000001 0000000000000105 0000000000000002 00 00 \
             0000000000000103 0000000000000002 0000000000000000 0000000000000104",
        );
        let packed = unhex(
            "71ff7aed 00000002 0000000000000002 0000000000000002 0000000000000003 000000000000000c 00 05 \
             0000000000000402 0000000000000000 0000000000000001 8000000000000000 0000000000000000 0000000000000000",
        );
        ctx.stats.transitions += 4;
        ctx.stats.traces += 4;
        let ok = ctx.case(
            || "a literal graph file".into(),
            || {
                let g = Graph::try_from(plain.as_slice()).map_err(|e| format!("refused: {e}"))?;
                let m = RG::with(false, 261, [(259, 2), (0, 260)]);
                check_edges(&g, &m, &[0, 2, 259, 260, 261])?;
                let mut g = Graph::new_directed();
                g.add_vertex(260, None);
                g.add_edge(259, 2);
                let b = g.to_bytes().map_err(|e| format!("{e}"))?;
                let mut want = plain[..42].to_vec();
                want[23] = 1;
                ensure!(b == want, "saved as {}, expected {}", hex(&b), hex(&want));
                Ok(())
            },
        );
        if !ok {
            return;
        }
        ctx.case(
            || "a literal compressed graph file".into(),
            || {
                let c = CompressedGraph::try_from(packed.as_slice()).map_err(|e| format!("refused: {e}"))?;
                let m = RC {
                    und: false,
                    n: 12,
                    level: 5,
                    blocks: [((0, 1), 0x402), ((0, 0), 1 << 63)].into(),
                };
                check_compressed(&c, &m)?;
                let mut g = Graph::new_directed();
                g.add_vertex(11, None);
                g.add_edge(1, 8);
                g.add_edge(2, 9);
                let b = g.compress(2).to_bytes().map_err(|e| format!("{e}"))?;
                let mut want = packed[..66].to_vec();
                want[23] = 1;
                want[31] = 2;
                want[41] = 2;
                ensure!(b == want, "saved as {}, expected {}", hex(&b), hex(&want));
                Ok(())
            },
        );
    }));
    let _ = (tier, apply_m as fn(&mut RG, &GOp));
    live_jobs(&mut v, tier, "saved bytes", 1, |g, q, _| {
        let b = g.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
        let d = decode_graph(&b).map_err(|e| format!("an independent reader refuses the saved bytes {}: {e}", hex(&b)))?;
        ensure!(d == *q, "an independent reader finds {} in the saved bytes, expected {}", d.show(), q.show());
        Ok(())
    });
    v
}
