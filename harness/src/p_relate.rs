//! C20 (independence, purity of reads) and C26 (results depend only on the graph).

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::gen;
use crate::hist::*;
use crate::model::{Edge, RG};
use crate::obs::*;
use crate::reads::*;
use crate::swaps::apart;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

#[derive(Clone, Debug)]
struct Start {
    und: bool,
    hist: Vec<GOp>,
}

impl Start {
    fn graph(&self) -> Graph {
        let mut g = new_graph(self.und);
        for op in &self.hist {
            apply_g(&mut g, op);
        }
        g
    }
}

fn starts(tier: Tier) -> Vec<(Start, Vec<u64>)> {
    let mut v = Vec::new();
    for (labels, n) in [
        (vec![0u64, 1, 2], 2u64),
        (vec![7, 8, 3], 2),
        (vec![0, 9, 1], 2),
        (vec![u64::MAX - 1, 2, 0], 2),
        (vec![0, 1, 2], 3),
    ] {
        for und in [false, true] {
            let count = 1u64 << if und { gen::und_cells(n) } else { n * n };
            for mask in 0..count {
                if n == 3 && !und && tier == Tier::Quick && mask % 13 != 0 {
                    continue;
                }
                let m = gen::embed(&gen::small(und, n, mask), &labels, 0);
                let mut hist: Vec<GOp> = m
                    .e
                    .iter()
                    .filter(|(a, b)| !und || a <= b)
                    .map(|(a, b)| GOp::AddEdge(*a, *b))
                    .collect();
                v.push((Start { und, hist: hist.clone() }, labels.clone()));
                // The same with a vertex emptied by deletions and a trailing one
                if mask % 3 == 0 {
                    hist.insert(0, GOp::AddEdge(labels[2], labels[0]));
                    hist.push(GOp::DeleteEdge(labels[2], labels[0]));
                    hist.push(GOp::AddVertex(10));
                    v.push((Start { und, hist }, labels.clone()));
                }
            }
        }
    }
    v
}

fn edit_ops(labels: &[u64]) -> Vec<GOp> {
    let (a, b, c) = (labels[0], labels[1], labels[2]);
    vec![
        GOp::AddEdge(a, b),
        GOp::AddEdge(b, a),
        GOp::AddEdge(c, c),
        GOp::DeleteEdge(a, b),
        GOp::DeleteEdge(a, a),
        GOp::DeleteEdge(b, b),
        GOp::AddVertexWith(b, vec![a, c]),
        GOp::AddVertex(12),
    ]
}

fn diff(what: &str, reads: &[Read], got: &[String], want: &[String]) -> Res {
    for ((r, g), w) in reads.iter().zip(got).zip(want) {
        ensure!(g == w, "{what}: {r:?} gives {g}, expected {w}");
    }
    Ok(())
}

/// read r1, edit, read r2 for every r1, edit, r2; and r1, r2, r2 without an edit.
fn purity(ctx: &mut Ctx, s: &Start, labels: &[u64]) -> bool {
    let reads = all_reads(&labels[..2]);
    let base: Vec<String> = reads.iter().map(|r| apart(|| r.of(&s.graph()))).collect();
    for r1 in &reads {
        ctx.stats.transitions += 2 * reads.len() as u64;
        ctx.stats.traces += 1;
        if !ctx.case(
            || format!("{s:?}: {r1:?}, then every other read twice"),
            || {
                let g = s.graph();
                r1.of(&g);
                for round in ["first", "second"] {
                    let got: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                    diff(&format!("{round} time after {r1:?}"), &reads, &got, &base)?;
                }
                // And immediately after
                for (r2, want) in reads.iter().zip(&base) {
                    let g = s.graph();
                    r1.of(&g);
                    let got = r2.of(&g);
                    ensure!(got == *want, "right after {r1:?}: {r2:?} gives {got}, expected {want}");
                }
                Ok(())
            },
        ) {
            return false;
        }
    }
    for op in edit_ops(labels) {
        let edited = Start {
            und: s.und,
            hist: s.hist.iter().cloned().chain([op.clone()]).collect(),
        };
        let want: Vec<String> = reads.iter().map(|r| apart(|| r.of(&edited.graph()))).collect();
        for r1 in &reads {
            ctx.stats.transitions += reads.len() as u64;
            ctx.stats.traces += 1;
            if !ctx.case(
                || format!("{s:?}: {r1:?}, {op:?}, then every read"),
                || {
                    let mut g = s.graph();
                    r1.of(&g);
                    apply_g(&mut g, &op);
                    let got: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                    diff(&format!("{r1:?}, {op:?}"), &reads, &got, &want)
                },
            ) {
                return false;
            }
        }
    }
    true
}

/// One object read, edited several times, and read again: every single read before and after, and
/// everything read at every subset of the points between the edits. `spread` picks one in so many of
/// the longest edit sequences.
fn living(ctx: &mut Ctx, s: &Start, labels: &[u64], longest: usize, spread: usize) -> bool {
    let reads = all_reads(&labels[..2]);
    let ops = edit_ops(labels);
    for depth in 2..=longest {
        for x in 0..ops.len().pow(depth as u32) {
            if depth == longest && x % spread != 0 {
                continue;
            }
            let mut y = x;
            let steps: Vec<&GOp> = (0..depth)
                .map(|_| {
                    let op = &ops[y % ops.len()];
                    y /= ops.len();
                    op
                })
                .collect();
            ctx.stats.transitions += depth as u64;
            ctx.stats.traces += 1;
            if !ctx.case(
                || format!("{s:?}: edits {steps:?}, with reads before and between them"),
                || {
                    let want: Vec<String> = apart(|| {
                        let mut g = s.graph();
                        steps.iter().for_each(|op| apply_g(&mut g, op));
                        reads.iter().map(|r| r.of(&g)).collect()
                    });
                    for (r, w) in reads.iter().zip(&want) {
                        let mut g = s.graph();
                        r.of(&g);
                        steps.iter().for_each(|op| apply_g(&mut g, op));
                        let got = r.of(&g);
                        ensure!(got == *w, "{r:?}, the edits, {r:?} gives {got}, expected {w}");
                    }
                    for mask in 1..1u32 << depth {
                        let mut g = s.graph();
                        for (k, op) in steps.iter().enumerate() {
                            if mask >> k & 1 == 1 {
                                reads.iter().for_each(|r| drop(r.of(&g)));
                            }
                            apply_g(&mut g, op);
                        }
                        let got: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                        diff(&format!("with everything read before the edits with bits {mask:b}"), &reads, &got, &want)?;
                    }
                    Ok(())
                },
            ) {
                return false;
            }
        }
    }
    true
}

enum Derived {
    G(Graph),
    M(CsrSquareMatrix<f64>),
    C(CompressedGraph),
    B(Vec<u8>),
    L(Vec<u64>),
    A(CsrAdjacencyMatrix),
}

const DERIVATIONS: usize = 20;

fn derive(g: &Graph, which: usize, labels: &[u64]) -> Derived {
    match which {
        0 => Derived::G(g.clone()),
        1 => Derived::G(g.approximate(1, 0.5)),
        2 => Derived::G(g.approximate(2, 0.25)),
        3 => Derived::G(g.compress(1).decompress()),
        4 => Derived::M(g.find_avg_pool_matrix(1)),
        5 => Derived::M(g.find_avg_pool_matrix(2)),
        6 => Derived::C(g.compress(1)),
        7 => Derived::C(g.compress(1).clone()),
        8 => Derived::B(g.to_bytes().unwrap_or_default()),
        9 => Derived::L(g.get_vertex_out_edges(labels[0])),
        10 => Derived::L(g.get_vertex_in_edges(labels[1])),
        11 => Derived::G(Graph::try_from(g.to_bytes().unwrap_or_default().as_slice()).unwrap_or_else(|_| Graph::new_directed())),
        12 => Derived::M(g.find_avg_pool_matrix(1).clone()),
        13 => Derived::G(g.approximate(0, 1.0)),
        14 => {
            let mut a = CsrAdjacencyMatrix::new();
            for (c, r) in g {
                a.set_entry(1, c, r);
            }
            Derived::A(a)
        }
        15 => Derived::G(g.clone().clone()),
        16 => {
            let mut d = occupied(!g.is_undirected());
            d.clone_from(g);
            Derived::G(d)
        }
        17 => {
            let mut d = occupied(false).find_avg_pool_matrix(1);
            d.clone_from(&g.find_avg_pool_matrix(2));
            Derived::M(d)
        }
        18 => {
            let mut d = occupied(!g.is_undirected()).compress(2);
            d.clone_from(&g.compress(1));
            Derived::C(d)
        }
        _ => {
            let mut d = CsrAdjacencyMatrix::new();
            d.set_entry(1, 7, 30);
            let Derived::A(a) = derive(g, 14, labels) else { unreachable!() };
            d.clone_from(&a);
            Derived::A(d)
        }
    }
}

/// A graph to be overwritten
fn occupied(und: bool) -> Graph {
    let mut g = new_graph(und);
    for (a, b) in [(0, 1), (5, 5), (17, 3), (2, 17), (0, 0)] {
        g.add_edge(a, b);
    }
    g.add_vertex(30, None);
    g
}

/// Cloned, and cloned over an object that holds something else: equal, and equal after every edit.
fn copies(ctx: &mut Ctx, s: &Start, labels: &[u64]) -> bool {
    // A derivation and the same copied
    for (plain, copy) in [(0, 0), (0, 15), (0, 16), (5, 17), (4, 12), (6, 7), (6, 18), (14, 19)] {
        for k in 0..9 {
            ctx.stats.transitions += 1;
            ctx.stats.traces += 1;
            if !ctx.case(
                || format!("{s:?}: derivations {plain} and {copy}, edit {k}"),
                || {
                    let g = s.graph();
                    let (mut a, mut b) = (derive(&g, plain, labels), derive(&g, copy, labels));
                    if copy == 0 {
                        a = Derived::G(s.graph());
                    }
                    let (x, y) = (show_derived(&a, labels), show_derived(&b, labels));
                    ensure!(x == y, "the copy is {y}, the original {x}");
                    edit_derived(&mut a, k, labels);
                    edit_derived(&mut b, k, labels);
                    let (x, y) = (show_derived(&a, labels), show_derived(&b, labels));
                    ensure!(x == y, "after the same edit the copy is {y}, the original {x}");
                    Ok(())
                },
            ) {
                return false;
            }
        }
    }
    true
}

fn show_derived(d: &Derived, labels: &[u64]) -> String {
    match d {
        Derived::G(g) => everything(g, &labels[..2]).join("|"),
        Derived::M(m) => show_matrix(m),
        Derived::C(c) => show_compressed(c, true) + &show_graph(&c.decompress()),
        Derived::B(b) => records(b, 26, 16),
        Derived::L(l) => format!("{:?}", sorted(l.clone())),
        Derived::A(a) => {
            let mut e: Vec<Edge> = a.into_iter().collect();
            e.sort_unstable();
            format!("{} {} {e:?}", a.dimension(), a.entry_count())
        }
    }
}

/// Edits of the derived object; false when it has none of that number.
fn edit_derived(d: &mut Derived, k: usize, labels: &[u64]) -> bool {
    let ops = edit_ops(labels);
    match d {
        Derived::G(g) => {
            if k >= ops.len() {
                return false;
            }
            apply_g(g, &ops[k]);
        }
        Derived::M(m) => match k {
            0 => m.increment_entry(labels[0] % 3, 0),
            1 => m.set_entry(0.5, 0, 0),
            2 => m.zero_entry(0, 0),
            3 => m.set_entry(0.0, labels[0], labels[0]),
            4 => m.increment_entry(5, 6),
            _ => return false,
        },
        Derived::B(b) => match k {
            0 => b.push(9),
            1 => {
                b[8] = 0xff;
            }
            _ => return false,
        },
        Derived::L(l) => match k {
            0 => l.push(9),
            1 => l.clear(),
            _ => return false,
        },
        Derived::A(a) => match k {
            0 => a.set_entry(1, labels[0], labels[0]),
            1 => a.zero_entry(labels[0], labels[1]),
            _ => return false,
        },
        Derived::C(_) => return false,
    }
    true
}

/// Product of edits of the original and of the derived object, both read in full at every step.
fn independence(ctx: &mut Ctx, s: &Start, labels: &[u64], depth: usize) -> bool {
    let ops = edit_ops(labels);
    for which in 0..DERIVATIONS {
        // Steps: 0..ops edits the original, then the derived one's edits
        let kinds = ops.len() + 8;
        for x in 0..kinds.pow(depth as u32) {
            let mut steps = Vec::new();
            let mut y = x;
            for _ in 0..depth {
                steps.push(y % kinds);
                y /= kinds;
            }
            let mut applicable = true;
            if !ctx.case(
                || format!("{s:?}: derivation {which}, steps {steps:?} (edits of the original below {}, of the derived object from there)", ops.len()),
                || {
                    let mut g = s.graph();
                    let mut d = derive(&g, which, labels);
                    let mut g_now = everything(&g, &labels[..2]);
                    let mut d_now = show_derived(&d, labels);
                    for st in &steps {
                        if *st < ops.len() {
                            apply_g(&mut g, &ops[*st]);
                            let d_then = show_derived(&d, labels);
                            ensure!(d_then == d_now, "editing the original by {:?} changed the derived object from {d_now} to {d_then}", ops[*st]);
                            g_now = everything(&g, &labels[..2]);
                        } else {
                            if !edit_derived(&mut d, *st - ops.len(), labels) {
                                applicable = false;
                                return Ok(());
                            }
                            let g_then = everything(&g, &labels[..2]);
                            ensure!(g_then == g_now, "editing the derived object changed the original from {g_now:?} to {g_then:?}");
                            d_now = show_derived(&d, labels);
                        }
                    }
                    drop(g);
                    let d_then = show_derived(&d, labels);
                    ensure!(d_then == d_now, "dropping the original changed the derived object");
                    Ok(())
                },
            ) {
                return false;
            }
            if applicable {
                ctx.stats.transitions += depth as u64;
                ctx.stats.traces += 1;
            }
        }
    }
    true
}

/// Reads of one object between reads of another: every pair of graphs, every pair of reads.
fn cross(ctx: &mut Ctx, universe: &[(Start, Vec<u64>)], i: usize) -> bool {
    let labels = &universe[i].1;
    let reads = all_reads(&labels[..1]);
    for (b, lb) in universe {
        if lb != labels {
            continue;
        }
        let a = &universe[i].0;
        let want: Vec<String> = reads.iter().map(|r| apart(|| r.of(&b.graph()))).collect();
        if !ctx.case(
            || format!("reads of {a:?} between reads of {b:?}"),
            || {
                let ga = a.graph();
                let gb = b.graph();
                for r1 in &reads {
                    for (r2, w) in reads.iter().zip(&want) {
                        r1.of(&ga);
                        let got = r2.of(&gb);
                        ensure!(got == *w, "after {r1:?} of the other graph: {r2:?} gives {got}, expected {w}");
                    }
                }
                Ok(())
            },
        ) {
            return false;
        }
        ctx.stats.transitions += (reads.len() * reads.len()) as u64;
        ctx.stats.traces += 1;
    }
    true
}

pub fn c20(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    v.extend(crate::swaps::graph_jobs(tier, all_reads, tier.pick(5, 1)));
    v.extend(crate::p_copies::jobs(tier));
    crate::p_large::copies(&mut v, tier);
    let all = starts(tier);
    for (i, (s, labels)) in all.iter().enumerate() {
        let (s, labels) = (s.clone(), labels.clone());
        let k = i;
        v.push(job(format!("reads around edits from {s:?}"), move |ctx| {
            ctx.stats.states += 1;
            ctx.distinct(k as u64);
            purity(ctx, &s, &labels);
        }));
    }
    for (i, (s, labels)) in all.iter().enumerate() {
        let (s, labels) = (s.clone(), labels.clone());
        v.push(job(format!("reads between several edits from {s:?}"), move |ctx| {
            ctx.stats.states += 1;
            ctx.distinct(9000 + i as u64);
            living(ctx, &s, &labels, 3, tier.pick(5, 1));
        }));
    }
    for (i, (s, labels)) in all.iter().enumerate() {
        let (s, labels) = (s.clone(), labels.clone());
        let deep = i % tier.pick(24, 2) == 7 % tier.pick(24, 2);
        v.push(job(format!("edits of both sides from {s:?}"), move |ctx| {
            ctx.stats.states += 1;
            ctx.distinct(1000 + i as u64);
            independence(ctx, &s, &labels, if deep { 2 } else { 1 });
        }));
    }
    for (i, (s, labels)) in all.iter().enumerate() {
        let (s, labels) = (s.clone(), labels.clone());
        v.push(job(format!("copies of {s:?}"), move |ctx| {
            ctx.stats.states += 1;
            ctx.distinct(20_000 + i as u64);
            copies(ctx, &s, &labels);
        }));
    }
    let small: Vec<(Start, Vec<u64>)> = all
        .iter()
        .filter(|(s, l)| l[0] == 0 && l[1] == 1 && s.hist.len() <= 4 || l[0] == 7)
        .cloned()
        .collect();
    for i in 0..small.len() {
        let small = small.clone();
        v.push(job(format!("reads of two graphs, first {:?}", small[i].0), move |ctx| {
            ctx.stats.states += 1;
            ctx.distinct(5000 + i as u64);
            cross(ctx, &small, i);
        }));
    }
    // Clones of clones: three generations edited in every order
    v.push(job("three generations", |ctx| {
        for und in [false, true] {
            for x in 0..6u64.pow(4) {
                let m = RG::with(und, 3, [(0, 1), (2, 2)]);
                let ok = ctx.case(
                    || format!("und={und}, edits {x} of three generations of clones"),
                    || {
                        let a = build(&m);
                        let b = a.clone();
                        let c = b.clone();
                        let mut gs = [a, b, c];
                        let mut ms = [m.clone(), m.clone(), m.clone()];
                        let mut y = x;
                        for _ in 0..4 {
                            let who = (y % 3) as usize;
                            let op = if y / 3 % 2 == 0 { GOp::AddEdge(who as u64, 2) } else { GOp::DeleteEdge(2, 2) };
                            y /= 6;
                            apply_g(&mut gs[who], &op);
                            apply_m(&mut ms[who], &op);
                            for i in 0..3 {
                                let got = as_queried(&gs[i], &ms[i]);
                                ensure!(got.e == ms[i].e, "generation {i} holds {}, expected {}", got.show(), ms[i].show());
                            }
                        }
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 4;
                ctx.stats.traces += 1;
                ctx.distinct(x << 1 | u64::from(und));
            }
        }
    }));
    v
}

// ---------------------------------------------------------------- C26

const ROUTES: usize = 18;

fn by_route(m: &RG, route: usize) -> Option<Graph> {
    let und = m.und;
    let half: Vec<Edge> = m.e.iter().copied().filter(|(a, b)| !und || a <= b).collect();
    let mut g = new_graph(und);
    let grow = |g: &mut Graph| {
        if m.n > g.vertex_count() {
            g.add_vertex(m.n - 1, None);
        }
    };
    match route {
        0 => {
            for (a, b) in &half {
                g.add_edge(*a, *b);
            }
            grow(&mut g);
        }
        1 => {
            grow(&mut g);
            for (a, b) in half.iter().rev() {
                if und {
                    g.add_edge(*b, *a)
                } else {
                    g.add_edge(*a, *b)
                }
            }
        }
        2 => {
            // Every edge in both spellings, twice
            for _ in 0..2 {
                for (a, b) in &m.e {
                    g.add_edge(*a, *b);
                }
            }
            grow(&mut g);
        }
        3 => {
            // Vertex by vertex with edge lists
            let mut from: Vec<u64> = m.e.iter().map(|e| e.0).collect();
            from.dedup();
            for v in from {
                g.add_vertex(v, Some(&m.out(v)));
            }
            grow(&mut g);
        }
        4 => {
            let mut from: Vec<u64> = m.e.iter().map(|e| e.0).collect();
            from.dedup();
            grow(&mut g);
            for v in from.into_iter().rev() {
                let mut l = m.out(v);
                l.reverse();
                l.extend(m.out(v));
                g.add_vertex(v, Some(&l));
            }
        }
        5 => {
            // A complete graph over the ends, with the rest deleted
            let mut ends: Vec<u64> = m.e.iter().flat_map(|e| [e.0, e.1]).collect();
            ends.sort_unstable();
            ends.dedup();
            ends.truncate(40);
            for (a, b) in &m.e {
                g.add_edge(*a, *b);
            }
            for a in &ends {
                for b in &ends {
                    g.add_edge(*a, *b);
                }
            }
            for a in &ends {
                for b in &ends {
                    if !m.has(*a, *b) {
                        g.delete_edge(*a, *b);
                    }
                }
            }
            grow(&mut g);
        }
        6 => {
            // Added, all deleted, added again in another order
            for (a, b) in &half {
                g.add_edge(*a, *b);
            }
            for (a, b) in &half {
                g.delete_edge(*a, *b);
            }
            for (a, b) in half.iter().rev() {
                g.add_edge(*a, *b);
            }
            grow(&mut g);
        }
        7 | 8 => {
            let mut a = CsrAdjacencyMatrix::new();
            if m.n > 0 {
                a.set_entry(0, m.n - 1, 0);
            }
            let mut e: Vec<Edge> = m.e.iter().copied().collect();
            if route == 8 {
                e.reverse();
                for (c, r) in &e {
                    a.set_entry(200, *c, *r);
                    a.zero_entry(*c, *r);
                }
            }
            for (c, r) in &e {
                a.set_entry(1, *c, *r);
            }
            return if und {
                Graph::undirected_from(a).ok()
            } else {
                Some(Graph::directed_from(a))
            };
        }
        9 => return Some(by_route(m, 0)?.clone()),
        10 => {
            let b = by_route(m, 0)?.to_bytes().ok()?;
            return Graph::try_from(b.as_slice()).ok();
        }
        11 => {
            let mut e: Vec<Edge> = m.e.iter().copied().collect();
            e.reverse();
            let b = crate::model::encode_graph(und, m.n, &e);
            return Graph::try_from(b.as_slice()).ok();
        }
        12 => {
            let b = by_route(m, 1)?.to_bytes().ok()?;
            g = Graph::try_from(b.as_slice()).ok()?;
            // Edited after loading, and undone
            if m.n > 1 && !m.has(0, m.n - 1) {
                g.add_edge(0, m.n - 1);
                g.delete_edge(0, m.n - 1);
            }
        }
        13 => return Some(by_route(m, 0)?.approximate(0, 0.7)),
        14 => return Some(by_route(m, 0)?.compress(1).decompress()),
        15 | 16 => {
            // Among edges of many other vertices, which go again
            if m.n < 2 {
                return None;
            }
            let step = if route == 15 { 1 } else { (m.n / 64).max(1) };
            let others: Vec<Edge> = (0..64u64)
                .map(|i| i.saturating_mul(step))
                .filter(|x| *x < m.n)
                .flat_map(|x| [(x, m.n - 1), (m.n / 2, x), (x, x)])
                .filter(|(a, b)| !m.has(*a, *b))
                .collect();
            for (a, b) in &others {
                g.add_edge(*a, *b);
            }
            for (a, b) in &half {
                g.add_edge(*a, *b);
            }
            for (a, b) in &others {
                g.delete_edge(*a, *b);
            }
        }
        _ => {
            // Vertices one by one, edges interleaved with an unrelated one that goes again
            for v in 0..m.n.min(40) {
                g.add_vertex(v, Some(&[]));
            }
            grow(&mut g);
            for (a, b) in &half {
                let (c, d) = (m.n - 1, m.n / 2);
                let had = g.does_edge_exist(c, d);
                g.add_edge(c, d);
                if *a != c || *b != d {
                    g.add_edge(*a, *b);
                }
                if !had && !m.has(c, d) {
                    g.delete_edge(c, d);
                }
            }
        }
    }
    Some(g)
}

fn c26_graph(ctx: &mut Ctx, m: &RG) -> bool {
    let mut ids: Vec<u64> = if m.n <= 6 {
        (0..m.n + 1).collect()
    } else {
        m.e.iter().take(2).chain(m.e.iter().rev().take(2)).flat_map(|e| [e.0, e.1]).chain([0, m.n]).collect()
    };
    ids.sort_unstable();
    ids.dedup();
    let mut n = 0;
    let ok = ctx.case(
        || format!("{ROUTES} ways to {}", m.show()),
        || {
            let mut reads = all_reads(&ids);
            reads.extend([
                Read::Pool(m.n / 2),
                Read::Pool(m.n),
                Read::Approximate(m.n / 2, 0.1),
                Read::Approximate(m.n, 0.3),
                Read::Approximate(2, 0.75),
                Read::Approximate(2, 1.0),
                Read::Compress(9),
                Read::Compress(64),
                Read::Decompress(9),
            ]);
            // Results are compared between routes that report the same graph: whether a route
            // reaches the graph it should is another property's business
            let mut groups: Vec<(String, usize, Vec<String>)> = Vec::new();
            for route in 0..ROUTES {
                let Some(g) = by_route(m, route) else { continue };
                let q = as_queried(&g, m);
                let mut q2 = q.clone();
                if m.n > 48 {
                    // Routes over a big graph: only the edges can be asked about
                    q2.e = m.e.iter().copied().filter(|(a, b)| g.does_edge_exist(*a, *b)).collect();
                }
                let key = format!("{} {} {:?}", q2.und, q2.n, q2.e);
                let got: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                n += reads.len() as u64;
                match groups.iter().find(|x| x.0 == key) {
                    None => groups.push((key, route, got)),
                    Some((_, other, want)) => {
                        diff(&format!("route {route} against route {other} to the same graph"), &reads, &got, want)?
                    }
                }
            }
            Ok(())
        },
    );
    ctx.stats.transitions += n;
    ctx.stats.traces += ROUTES as u64;
    ok
}

pub fn c26(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    crate::p_large::routes(&mut v, tier);
    crate::p_large::shrunk(&mut v, tier);
    crate::p_derive::family_jobs(&mut v, tier, "routes", c26_graph);
    crate::p_derive::graph_jobs(&mut v, tier, "routes", true, |ctx, m| {
        if ctx.tier == Tier::Quick && m.n > 20 && mix(m.hash64()) % 2 == 0 {
            return true;
        }
        c26_graph(ctx, m)
    });
    // Every insertion order of up to five edges
    for und in [false, true] {
        v.push(job(format!("every insertion order und={und}"), move |ctx| {
            let sets: Vec<Vec<Edge>> = vec![
                vec![(0, 1), (1, 0), (2, 2), (0, 9)],
                vec![(7, 8), (8, 7), (8, 8), (0, 7), (15, 16)],
                vec![(0, 0), (1, 1), (2, 2), (3, 3)],
                vec![(0, 1), (0, 2), (0, 3), (1, 0), (2, 0)],
            ];
            for set in sets {
                let base = RG::with(und, 18, set.iter().copied());
                let reads = all_reads(&[0, 8]);
                let want: Vec<String> = reads.iter().map(|r| r.of(&build(&base))).collect();
                let mut orders: Vec<Vec<Edge>> = vec![vec![]];
                for e in &set {
                    let mut next = Vec::new();
                    for o in &orders {
                        for k in 0..=o.len() {
                            let mut p = o.clone();
                            p.insert(k, *e);
                            next.push(p);
                        }
                    }
                    orders = next;
                }
                for o in orders {
                    ctx.stats.transitions += reads.len() as u64;
                    ctx.stats.traces += 1;
                    ctx.stats.states += 1;
                    ctx.distinct(o.iter().fold(1, |h, e| mix(mix(h ^ e.0) ^ e.1)));
                    if !ctx.case(
                        || format!("edges added in the order {o:?}"),
                        || {
                            let mut g = new_graph(und);
                            for (a, b) in &o {
                                g.add_edge(*a, *b);
                            }
                            g.add_vertex(17, None);
                            if as_queried(&g, &base).e != base.e || g.vertex_count() != base.n {
                                return Ok(());
                            }
                            let got: Vec<String> = reads.iter().map(|r| r.of(&g)).collect();
                            diff("another order", &reads, &got, &want)
                        },
                    ) {
                        return;
                    }
                }
            }
        }));
    }
    v
}
