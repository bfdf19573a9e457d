//! Comparisons of real objects with references. Every function reads only through the public API.

use crate::model::{Edge, RC, RG};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;

pub type Res = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}
pub(crate) use ensure;

/// The vertex IDs worth asking about: the given ones, their neighbours' edge cases, and the limits.
pub fn probes(labels: &[u64], m: &RG) -> Vec<u64> {
    let mut s: BTreeSet<u64> = labels.iter().copied().collect();
    s.insert(m.n);
    s.insert(m.n.saturating_add(1));
    s.insert(u64::MAX);
    s.insert(0);
    s.into_iter().collect()
}

pub fn all_ids(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n + 2).collect();
    v.push(u64::MAX);
    v
}

/// What C01 speaks about: kind, counts, membership.
pub fn check_edges(g: &Graph, m: &RG, probes: &[u64]) -> Res {
    ensure!(
        g.is_undirected() == m.und,
        "is_undirected() is {}, expected {}",
        g.is_undirected(),
        m.und
    );
    ensure!(
        g.vertex_count() == m.n,
        "vertex_count() is {}, expected {} ({})",
        g.vertex_count(),
        m.n,
        m.show()
    );
    ensure!(
        g.edge_count() == m.e.len() as u64,
        "edge_count() is {}, expected {} ({})",
        g.edge_count(),
        m.e.len(),
        m.show()
    );
    for a in probes {
        for b in probes {
            let want = m.has(*a, *b);
            ensure!(
                g.does_edge_exist(*a, *b) == want,
                "does_edge_exist({a}, {b}) is {}, expected {want} ({})",
                !want,
                m.show()
            );
        }
    }
    Ok(())
}

pub fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

/// The edges by iteration; an edge listed twice is an error.
pub fn iter_edges(g: &Graph) -> Result<BTreeSet<Edge>, String> {
    let mut s = BTreeSet::new();
    let mut it = g.into_iter();
    while let Some(e) = it.next() {
        ensure!(s.insert(e), "iteration yields edge {e:?} twice");
    }
    ensure!(it.next().is_none(), "iteration goes on after its end");
    Ok(s)
}

/// What C02 speaks about: lists, degrees, iteration.
pub fn check_lists(g: &Graph, m: &RG, probes: &[u64]) -> Res {
    for v in probes {
        let (o, i) = (m.out(*v), m.inn(*v));
        let go = sorted(g.get_vertex_out_edges(*v));
        ensure!(
            go == o,
            "out-edges of {v} are {go:?}, expected {o:?} ({})",
            m.show()
        );
        let gi = sorted(g.get_vertex_in_edges(*v));
        ensure!(
            gi == i,
            "in-edges of {v} are {gi:?}, expected {i:?} ({})",
            m.show()
        );
        let (od, id) = (g.get_vertex_out_degree(*v), g.get_vertex_in_degree(*v));
        ensure!(
            od == o.len() as u64,
            "out-degree of {v} is {od}, expected {} ({})",
            o.len(),
            m.show()
        );
        ensure!(
            id == i.len() as u64,
            "in-degree of {v} is {id}, expected {} ({})",
            i.len(),
            m.show()
        );
    }
    let it = iter_edges(g)?;
    ensure!(
        it == m.e,
        "iteration yields {it:?}, expected {:?} ({})",
        m.e,
        m.show()
    );
    Ok(())
}

pub fn check_graph(g: &Graph, m: &RG, probes: &[u64]) -> Res {
    check_edges(g, m, probes)?;
    check_lists(g, m, probes)
}

/// Full comparison when the vertex count is small, else over the given labels and edges' ends.
pub fn check_graph_auto(g: &Graph, m: &RG) -> Res {
    if m.n <= 48 {
        check_graph(g, m, &all_ids(m.n))
    } else {
        let mut l: BTreeSet<u64> = BTreeSet::new();
        for (a, b) in m.e.iter().take(24) {
            l.insert(*a);
            l.insert(*b);
        }
        for (a, b) in m.e.iter().rev().take(24) {
            l.insert(*a);
            l.insert(*b);
        }
        let l: Vec<u64> = l.into_iter().collect();
        check_graph(g, m, &probes(&l, m))?;
        for (a, b) in &m.e {
            ensure!(g.does_edge_exist(*a, *b), "edge ({a}, {b}) is missing");
        }
        Ok(())
    }
}

pub fn build(m: &RG) -> Graph {
    let mut g = if m.und {
        Graph::new_undirected()
    } else {
        Graph::new_directed()
    };
    for (a, b) in &m.e {
        if !m.und || a <= b {
            g.add_edge(*a, *b);
        }
    }
    if m.n > g.vertex_count() {
        g.add_vertex(m.n - 1, None);
    }
    g
}

/// The graph as its own queries describe it (over candidate pairs that include all of `m`'s).
pub fn as_queried(g: &Graph, m: &RG) -> RG {
    let mut r = RG {
        und: g.is_undirected(),
        n: g.vertex_count(),
        e: BTreeSet::new(),
    };
    if m.n <= 48 {
        for a in 0..m.n {
            for b in 0..m.n {
                if g.does_edge_exist(a, b) {
                    r.e.insert((a, b));
                }
            }
        }
    } else {
        for (a, b) in &m.e {
            for e in [(*a, *b), (*b, *a)] {
                if g.does_edge_exist(e.0, e.1) {
                    r.e.insert(e);
                }
            }
        }
    }
    r
}

/// Builds the graph and returns it with the reference of what it holds.
pub fn built(m: &RG) -> (Graph, RG) {
    let g = build(m);
    let r = as_queried(&g, m);
    (g, r)
}

pub fn same_graphs(a: &Graph, b: &Graph, ids: &[u64], what: &str) -> Res {
    ensure!(
        a.is_undirected() == b.is_undirected(),
        "{what}: kinds differ"
    );
    ensure!(
        a.vertex_count() == b.vertex_count(),
        "{what}: vertex counts {} and {} differ",
        a.vertex_count(),
        b.vertex_count()
    );
    ensure!(
        a.edge_count() == b.edge_count(),
        "{what}: edge counts {} and {} differ",
        a.edge_count(),
        b.edge_count()
    );
    let (x, y) = (iter_edges(a)?, iter_edges(b)?);
    ensure!(x == y, "{what}: edges {x:?} and {y:?} differ");
    for v in ids {
        for w in ids {
            ensure!(
                a.does_edge_exist(*v, *w) == b.does_edge_exist(*v, *w),
                "{what}: edge queries ({v}, {w}) differ"
            );
        }
        ensure!(
            sorted(a.get_vertex_out_edges(*v)) == sorted(b.get_vertex_out_edges(*v))
                && sorted(a.get_vertex_in_edges(*v)) == sorted(b.get_vertex_in_edges(*v))
                && a.get_vertex_in_degree(*v) == b.get_vertex_in_degree(*v)
                && a.get_vertex_out_degree(*v) == b.get_vertex_out_degree(*v),
            "{what}: neighbours of {v} differ"
        );
    }
    Ok(())
}

pub fn check_compressed(c: &CompressedGraph, m: &RC) -> Res {
    ensure!(
        c.is_undirected() == m.und,
        "compressed: is_undirected() is {}",
        c.is_undirected()
    );
    ensure!(
        c.vertex_count() == m.n,
        "compressed: vertex_count() is {}, expected {}",
        c.vertex_count(),
        m.n
    );
    ensure!(
        c.compression_level() == m.level,
        "compressed: level is {}, expected {}",
        c.compression_level(),
        m.level
    );
    ensure!(
        c.edge_count() == m.edge_count(),
        "compressed: edge_count() is {}, expected {} ({})",
        c.edge_count(),
        m.edge_count(),
        m.show()
    );
    let dim = m.dim();
    let mut pos: BTreeSet<Edge> = m.blocks.keys().copied().collect();
    pos.extend(m.blocks.keys().map(|(a, b)| (*b, *a)).collect::<Vec<_>>());
    if dim <= 12 {
        for a in 0..dim + 1 {
            for b in 0..dim + 1 {
                pos.insert((a, b));
            }
        }
    }
    pos.insert((dim, 0));
    pos.insert((0, dim));
    pos.insert((u64::MAX, 0));
    pos.insert((u64::MAX / 8, u64::MAX / 8));
    for (a, b) in pos {
        let want = m.blocks.get(&(a, b)).copied().unwrap_or(0);
        let got = c.get_compressed_matrix_entry(a, b);
        ensure!(
            got == want,
            "compressed: block ({a}, {b}) is {got:#x}, expected {want:#x} ({})",
            m.show()
        );
    }
    // Edge queries: all pairs of small graphs, all cells of the blocks that matter of large ones
    if m.n <= 34 {
        let ids = all_ids(m.n);
        for a in &ids {
            for b in &ids {
                check_cedge(c, m, *a, *b)?;
            }
        }
    } else {
        for (a, b) in m.blocks.keys().take(40).chain(m.blocks.keys().rev().take(8)) {
            for i in 0..8 {
                for j in 0..8 {
                    check_cedge(c, m, a * 8 + i, b * 8 + j)?;
                    check_cedge(c, m, b * 8 + j, a * 8 + i)?;
                }
            }
        }
        for x in [0, 7, 8, m.n - 1, m.n, u64::MAX - 1, u64::MAX] {
            for y in [0, 7, 8, m.n - 1, m.n, u64::MAX - 1, u64::MAX] {
                check_cedge(c, m, x, y)?;
            }
        }
    }
    Ok(())
}

fn check_cedge(c: &CompressedGraph, m: &RC, a: u64, b: u64) -> Res {
    let want = m.has(a, b);
    ensure!(
        c.does_edge_exist(a, b) == want,
        "compressed: does_edge_exist({a}, {b}) is {}, expected {want} ({})",
        !want,
        m.show()
    );
    Ok(())
}

/// Token multiset of a Debug print: sees hidden state (emptied columns, caches) whatever the
/// iteration order of the maps.
pub fn debug_key(x: &impl std::fmt::Debug) -> u64 {
    let s = format!("{x:?}");
    let mut toks: Vec<&str> = s
        .split(|c: char| !c.is_ascii_alphanumeric() && c != '.' && c != '-')
        .filter(|t| !t.is_empty())
        .collect();
    toks.sort_unstable();
    let mut h = 7;
    for t in toks {
        h = crate::engine::mix(h ^ crate::engine::hash_str(t));
    }
    h
}
