//! The calls that bodies are made of. Each makes its library call with scheduling points inside.

use crate::cops::Handle;
use crate::model::{encode_compressed, encode_graph};
use crate::obs::sorted;
use crate::reads::{records, show_compressed, show_graph, show_matrix};
use crate::sched::fine;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

pub struct World {
    pub g: Graph,
    pub c: CompressedGraph,
    pub m: CsrSquareMatrix<f64>,
    pub i: CsrSquareMatrix<i32>,
    pub a: CsrAdjacencyMatrix,
    pub bytes: Vec<u8>,
    pub cbytes: Vec<u8>,
    /// A graph of the C library
    pub h: Handle,
}

impl World {
    /// Different for each thread; `und` and the edges differ so that results mixed up show.
    pub fn new(k: u64) -> World {
        let mut g = if k % 2 == 1 { Graph::new_undirected() } else { Graph::new_directed() };
        let edges: &[(u64, u64)] = match k {
            0 => &[(0, 1), (1, 2), (2, 0), (3, 9), (9, 3)],
            1 => &[(0, 2), (5, 5), (9, 8), (4, 1), (2, 2), (7, 10)],
            _ => &[(6, 6), (6, 7), (7, 6), (0, 0), (12, 1)],
        };
        for (a, b) in edges {
            g.add_edge(*a, *b);
        }
        // Neither compressed nor saved: the first time for that is in the threads
        let n = g.vertex_count();
        let mut both: BTreeSet<(u64, u64)> = edges.iter().copied().collect();
        if k % 2 == 1 {
            both.extend(edges.iter().map(|(a, b)| (*b, *a)));
        }
        let mut blocks: BTreeMap<(u64, u64), u64> = BTreeMap::new();
        for (f, t) in &both {
            *blocks.entry((f / 8, t / 8)).or_insert(0) |= 1 << (8 * (t % 8) + f % 8);
        }
        let mut b = CompressedGraphBuilder::new(k % 2 == 1, n, 1);
        for ((x, y), v) in &blocks {
            if k % 2 == 0 || x <= y {
                b.add_compressed_matrix_entry(*v, *x, *y, None);
            }
        }
        let c = unsafe { b.finish() };
        let mut m = CsrSquareMatrix::new();
        let mut i = CsrSquareMatrix::new();
        let mut a = CsrAdjacencyMatrix::new();
        for (j, (x, y)) in edges.iter().enumerate() {
            m.set_entry(0.125 * (j as f64 + 1.0) * (k as f64 + 1.0), *x % 4, *y % 4);
            i.set_entry(7 * j as i32 - 11 * k as i32, *x % 5, *y % 5);
            a.set_entry(1, *x % 6, *y % 6);
        }
        let bytes = encode_graph(k % 2 == 1, n, &both.into_iter().collect::<Vec<_>>());
        let recs: Vec<(u64, u64, u64)> = blocks.iter().map(|((x, y), v)| (*v, *x, *y)).collect();
        let cbytes = encode_compressed(k % 2 == 1, n, 1, &recs);
        World { g, c, m, i, a, bytes, cbytes, h: crate::cops::start(k, edges) }
    }

    /// With nothing in it: all that is ever done is done in the threads.
    pub fn empty(k: u64) -> World {
        World {
            g: Graph::new_directed(),
            c: unsafe { CompressedGraphBuilder::new(false, 0, 1).finish() },
            m: CsrSquareMatrix::new(),
            i: CsrSquareMatrix::new(),
            a: CsrAdjacencyMatrix::new(),
            bytes: encode_graph(false, 10, &[(0, 1), (1, 2 + k), (9, 3)]),
            cbytes: encode_compressed(false, 10, 1, &[(0x8040 + k, 0, 0), (2, 1, 0)]),
            h: Handle(std::ptr::null_mut()),
        }
    }

    pub fn report(&self) -> String {
        let mut e: Vec<_> = self.i.into_iter().collect();
        e.sort_unstable();
        let mut a: Vec<_> = self.a.into_iter().collect();
        a.sort_unstable();
        format!(
            "{} {:?} {:?} {} {:?} {} {e:?} {a:?} {} {} {}",
            show_graph(&self.g),
            self.g.matrix_string(),
            self.g.to_bytes().map(|b| records(&b, 26, 16)),
            show_compressed(&self.g.compress(1), false),
            self.c.to_bytes().map(|b| records(&b, 42, 24)),
            show_matrix(&self.m),
            self.i,
            self.a,
            crate::cops::report(self)
        )
    }
}

pub type Read = (&'static str, fn(&World, i32) -> String);
pub type Edit = (&'static str, fn(&mut World, i32) -> String);

fn text(r: Result<String, graphrox::error::GraphRoxError>) -> String {
    format!("{r:?}")
}

/// What the reads need, made in the threads.
pub const MAKES: &[Edit] = &[
    ("make a graph", |w, l| {
        let first = w.bytes[w.bytes.len() - 17];
        fine(l, || {
            w.g = if first % 2 == 0 { Graph::new_directed() } else { Graph::new_undirected() };
            w.g.add_edge(2, 0);
            w.g.add_edge(2, 9);
            w.g.add_edge(0, 2);
            w.g.delete_edge(2, 0);
        });
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("make a compressed graph", |w, l| {
        fine(l, || {
            let mut b = CompressedGraphBuilder::new(false, 10, 1);
            b.add_compressed_matrix_entry(0x8040201, 0, 0, None);
            b.add_compressed_matrix_entry(2, 0, 1, None);
            w.c = unsafe { b.finish() };
        });
        format!("{} {}", w.c.edge_count(), w.c.vertex_count())
    }),
    ("make matrices", |w, l| {
        fine(l, || {
            w.m.set_entry(2.5, 0, 1);
            w.m.increment_entry(1, 1);
            w.i.increment_entry(2, 2);
            w.i.set_entry(-3, 0, 0);
            w.a.set_entry(1, 3, 3);
            w.a.set_entry(1, 1, 0);
            w.a.zero_entry(1, 0);
        });
        format!("{} {}", w.m.entry_count(), w.i.entry_count())
    }),
    ("nothing", |_, _| String::new()),
];

/// The one of them that a read needs.
pub fn make_for(read: usize) -> usize {
    match READS[read].0 {
        s if s.starts_with("load") => 3,
        s if s.starts_with("compressed") || s == "decompress" => 1,
        s if s.contains("matrix ") => 2,
        _ => 0,
    }
}

pub const READS: &[Read] = &[
    ("does_edge_exist", |w, l| fine(l, || (w.g.does_edge_exist(9, 3), w.g.does_edge_exist(0, 2), w.g.does_edge_exist(6, 7))).into_text()),
    ("get_vertex_out_edges", |w, l| format!("{:?}", sorted(fine(l, || w.g.get_vertex_out_edges(2))))),
    ("get_vertex_in_edges", |w, l| format!("{:?}", sorted(fine(l, || w.g.get_vertex_in_edges(2))))),
    ("degrees", |w, l| fine(l, || (w.g.get_vertex_in_degree(2), w.g.get_vertex_out_degree(0), w.g.edge_count())).into_text()),
    ("iterate", |w, l| {
        let mut v: Vec<(u64, u64)> = fine(l, || w.g.into_iter().collect());
        v.sort_unstable();
        format!("{v:?}")
    }),
    ("matrix_string", |w, l| text(fine(l, || w.g.matrix_string()))),
    ("to_bytes", |w, l| records(&fine(l, || w.g.to_bytes()).unwrap(), 26, 16)),
    ("find_avg_pool_matrix(2)", |w, l| show_matrix(&fine(l, || w.g.find_avg_pool_matrix(2)))),
    ("find_avg_pool_matrix(3)", |w, l| show_matrix(&fine(l, || w.g.find_avg_pool_matrix(3)))),
    ("approximate(2, 0.3)", |w, l| show_graph(&fine(l, || w.g.approximate(2, 0.3)))),
    ("approximate(5, 0.0)", |w, l| show_graph(&fine(l, || w.g.approximate(5, 0.0)))),
    ("compress(1)", |w, l| show_compressed(&fine(l, || w.g.compress(1)), true)),
    ("compress(3)", |w, l| show_compressed(&fine(l, || w.g.compress(3)), true)),
    ("decompress", |w, l| show_graph(&fine(l, || w.c.decompress()))),
    ("compressed matrix_string", |w, l| text(fine(l, || w.c.matrix_string()))),
    ("compressed to_bytes", |w, l| records(&fine(l, || w.c.to_bytes()).unwrap(), 42, 24)),
    ("compressed queries", |w, l| fine(l, || (w.c.does_edge_exist(9, 3), w.c.does_edge_exist(0, 2), w.c.get_compressed_matrix_entry(0, 1))).into_text()),
    ("load a graph", |w, l| match fine(l, || Graph::try_from(w.bytes.as_slice())) {
        Ok(g) => show_graph(&g),
        Err(e) => format!("{e:?}"),
    }),
    ("load malformed bytes", |w, l| {
        let b = &w.bytes[..w.bytes.len() - 1];
        format!("{:?}", fine(l, || Graph::try_from(b)).is_err())
    }),
    ("load a compressed graph", |w, l| match fine(l, || CompressedGraph::try_from(w.cbytes.as_slice())) {
        Ok(g) => show_compressed(&g, true),
        Err(e) => format!("{e:?}"),
    }),
    ("clone", |w, l| {
        let (g, c) = fine(l, || (w.g.clone(), w.c.clone()));
        show_graph(&g) + &show_compressed(&c, true)
    }),
    ("matrix to_string", |w, l| fine(l, || w.m.to_string())),
    ("matrix to_string_with_precision(4)", |w, l| text(fine(l, || w.m.to_string_with_precision(4)))),
    ("integer matrix to_string_with_precision(1)", |w, l| text(fine(l, || w.i.to_string_with_precision(1)))),
    ("matrix queries", |w, l| format!("{:?}", fine(l, || (w.m.get_entry(0, 1), w.m.entry_count(), w.i.get_entry(2, 2), w.a.get_entry(3, 3))))),
    ("matrix iterate", |w, l| {
        let mut v: Vec<(i32, u64, u64)> = fine(l, || w.i.into_iter().collect());
        v.sort_unstable();
        format!("{v:?}")
    }),
    ("adjacency matrix string and vectors", |w, l| {
        let (s, c, r) = fine(l, || (w.a.to_string(), w.a.get_sparse_col_vector(2), w.a.get_sparse_row_vector(2)));
        format!("{s} {:?} {:?}", sorted(c), sorted(r))
    }),
];

pub const EDITS: &[Edit] = &[
    ("add_edge new", |w, l| {
        fine(l, || w.g.add_edge(4, 11));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("add_edge in a known column", |w, l| {
        fine(l, || w.g.add_edge(2, 1));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("delete_edge", |w, l| {
        fine(l, || w.g.delete_edge(0, 1));
        fine(l, || w.g.delete_edge(0, 2));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("add_vertex", |w, l| {
        fine(l, || w.g.add_vertex(13, None));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("add_vertex with edges", |w, l| {
        fine(l, || w.g.add_vertex(1, Some(&[1, 8, 0])));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("matrix set and increment", |w, l| {
        fine(l, || {
            w.m.set_entry(2.5, 3, 1);
            w.m.increment_entry(1, 3);
            w.i.increment_entry(0, 0);
        });
        format!("{} {}", w.m.entry_count(), w.i.entry_count())
    }),
    ("matrix zero", |w, l| {
        fine(l, || {
            w.m.zero_entry(0, 1);
            w.i.zero_entry(2, 2);
            w.a.zero_entry(1, 2);
        });
        format!("{} {} {}", w.m.entry_count(), w.i.entry_count(), w.a.entry_count())
    }),
    ("adjacency matrix set", |w, l| {
        fine(l, || {
            w.a.set_entry(1, 5, 4);
            w.a.set_entry(0, 0, 1);
        });
        format!("{}", w.a.entry_count())
    }),
    ("graph from a matrix", |w, l| {
        let a = w.a.clone();
        let (d, u) = fine(l, || (Graph::directed_from(a.clone()), Graph::undirected_from(a)));
        show_graph(&d) + &u.map_or("asymmetric".into(), |u| show_graph(&u))
    }),
    ("build a compressed graph", |w, l| {
        let n = w.g.vertex_count();
        let c = fine(l, || {
            let mut b = CompressedGraphBuilder::new(false, n, n as u8);
            b.add_compressed_matrix_entry(0x8040201 + n, 0, 0, None);
            b.add_compressed_matrix_entry(1, 1, 0, Some(1));
            unsafe { b.finish() }
        });
        show_compressed(&c, true)
    }),
    ("approximate and keep", |w, l| {
        w.g = fine(l, || w.g.approximate(2, 0.0));
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
    ("drop and start again", |w, l| {
        fine(l, || {
            w.g = Graph::new_directed();
            w.g.add_edge(1, 0);
        });
        format!("{} {}", w.g.edge_count(), w.g.vertex_count())
    }),
];

trait IntoText {
    fn into_text(self) -> String;
}
impl<T: std::fmt::Debug> IntoText for T {
    fn into_text(self) -> String {
        format!("{self:?}")
    }
}
