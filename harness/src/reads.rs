//! Every read-only call, as a function from an object to a canonical string (arbitrary orders
//! sorted away), for the properties that compare objects with each other.

use crate::obs::{iter_edges, sorted};
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

#[derive(Clone, Debug, PartialEq)]
pub enum Read {
    Kind,
    Vertices,
    Edges,
    Exists(u64, u64),
    Out(u64),
    In(u64),
    OutDegree(u64),
    InDegree(u64),
    Iterate,
    IterateHalf,
    Text,
    Bytes,
    Pool(u64),
    Approximate(u64, f64),
    Compress(u8),
    Decompress(u8),
    Clone,
}

pub fn records(b: &[u8], header: usize, record: usize) -> String {
    if b.len() < header || (b.len() - header) % record != 0 {
        return format!("odd length {}", b.len());
    }
    let mut r: Vec<&[u8]> = b[header..].chunks(record).collect();
    r.sort_unstable();
    format!("{:02x?} {:02x?}", &b[..header], r)
}

pub fn show_matrix(m: &CsrSquareMatrix<f64>) -> String {
    let mut e: Vec<(u64, u64, u64)> = m.into_iter().map(|(v, c, r)| (c, r, v.to_bits())).collect();
    e.sort_unstable();
    let mut s = format!("dim {} count {} {e:?}", m.dimension(), m.entry_count());
    for (c, r, _) in &e {
        s.push_str(&format!(" {:x}", m.get_entry(*c, *r).to_bits()));
    }
    if m.dimension() <= 6 {
        s.push_str(&format!(" {:?} {m}", m.to_string_with_precision(3)));
    }
    s
}

pub fn show_compressed(c: &CompressedGraph, full: bool) -> String {
    let mut s = format!(
        "kind {} v {} e {} l {}",
        c.is_undirected(),
        c.vertex_count(),
        c.edge_count(),
        c.compression_level()
    );
    s.push_str(&match c.to_bytes() {
        Ok(b) => records(&b, 42, 24),
        Err(e) => format!("{e:?}"),
    });
    let d = (c.vertex_count() / 8).min(3);
    for x in 0..=d {
        for y in 0..=d {
            s.push_str(&format!(" {:x}", c.get_compressed_matrix_entry(x, y)));
        }
    }
    if full && c.vertex_count() < 50 {
        s.push_str(&format!(" {:?}", c.matrix_string()));
    }
    for x in [0, 1, 2, 7, 8, 9] {
        for y in [0, 1, 2, 7, 8, 9] {
            s.push(if c.does_edge_exist(x, y) { '1' } else { '0' });
        }
    }
    s
}

pub fn show_graph(g: &Graph) -> String {
    format!(
        "kind {} v {} e {} {:?}",
        g.is_undirected(),
        g.vertex_count(),
        g.edge_count(),
        iter_edges(g)
    )
}

impl Read {
    pub fn of(&self, g: &Graph) -> String {
        match self {
            Read::Kind => format!("{}", g.is_undirected()),
            Read::Vertices => format!("{}", g.vertex_count()),
            Read::Edges => format!("{}", g.edge_count()),
            Read::Exists(a, b) => format!("{}", g.does_edge_exist(*a, *b)),
            Read::Out(v) => format!("{:?}", sorted(g.get_vertex_out_edges(*v))),
            Read::In(v) => format!("{:?}", sorted(g.get_vertex_in_edges(*v))),
            Read::OutDegree(v) => format!("{}", g.get_vertex_out_degree(*v)),
            Read::InDegree(v) => format!("{}", g.get_vertex_in_degree(*v)),
            Read::Iterate => format!("{:?}", iter_edges(g)),
            Read::IterateHalf => {
                // Abandons the iterator halfway; the answer itself must not depend on the order
                let n = g.into_iter().count();
                let mut it = g.into_iter();
                for _ in 0..n / 2 {
                    it.next();
                }
                format!("{n}")
            }
            Read::Text => match g.vertex_count() {
                0..=80 => format!("{:?}", g.matrix_string()),
                n if n > 1 << 40 => format!("{}", g.matrix_string().is_err()),
                _ => String::new(),
            },
            Read::Bytes => match g.to_bytes() {
                Ok(b) => records(&b, 26, 16),
                Err(e) => format!("{e:?}"),
            },
            Read::Pool(b) => show_matrix(&g.find_avg_pool_matrix(*b)),
            Read::Approximate(b, t) => show_graph(&g.approximate(*b, *t)),
            Read::Compress(l) => show_compressed(&g.compress(*l), true),
            Read::Decompress(l) => show_graph(&g.compress(*l).decompress()),
            Read::Clone => show_graph(&g.clone()),
        }
    }
}

pub fn all_reads(ids: &[u64]) -> Vec<Read> {
    let mut v = vec![
        Read::Kind,
        Read::Vertices,
        Read::Edges,
        Read::Iterate,
        Read::IterateHalf,
        Read::Text,
        Read::Bytes,
        Read::Pool(0),
        Read::Pool(2),
        Read::Pool(3),
        Read::Pool(8),
        Read::Approximate(2, 0.25),
        Read::Approximate(2, 0.5),
        Read::Approximate(3, 0.0),
        Read::Approximate(8, 1e-9),
        Read::Approximate(0, 1.0),
        Read::Compress(1),
        Read::Compress(2),
        Read::Compress(3),
        Read::Decompress(1),
        Read::Decompress(2),
        Read::Clone,
    ];
    for a in ids {
        v.push(Read::Out(*a));
        v.push(Read::In(*a));
        v.push(Read::OutDegree(*a));
        v.push(Read::InDegree(*a));
        for b in ids {
            v.push(Read::Exists(*a, *b));
        }
    }
    v
}

pub fn everything(g: &Graph, ids: &[u64]) -> Vec<String> {
    all_reads(ids).iter().map(|r| r.of(g)).collect()
}
