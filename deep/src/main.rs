//! Objects with very many columns, rows, blocks or records, emptied and not, gone through with the
//! crate compiled without optimisation and a stack of one megabyte: what takes stack in proportion
//! to the data ends here. `deep GROUP HISTORY N` runs one history; it prints the name of each
//! reading before it starts it, and "FAILED ..." when an answer is wrong.

use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeSet;
use std::fmt::Debug;

type Edge = (u64, u64);

pub const HISTORIES: [&str; 12] = [
    "columns",
    "columns-emptied",
    "columns-emptied-but-first",
    "columns-emptied-but-last",
    "columns-every-second-emptied",
    "row",
    "row-emptied",
    "row-emptied-but-last",
    "path",
    "path-emptied",
    "blocks",
    "blocks-emptied-but-last",
];

/// What is added and then deleted.
fn history(name: &str, n: u64) -> (Vec<Edge>, Vec<Edge>) {
    let columns: Vec<Edge> = (0..n).map(|i| (i, 0)).collect();
    let row: Vec<Edge> = (0..n).map(|i| (0, i)).collect();
    let path: Vec<Edge> = (0..n).map(|i| (i, i + 1)).collect();
    let blocks: Vec<Edge> = (0..n).map(|i| (8 * i, 8 * i + 3)).collect();
    let last = n.saturating_sub(1) as usize;
    match name {
        "columns" => (columns, vec![]),
        "columns-emptied" => (columns.clone(), columns),
        "columns-emptied-but-first" => (columns.clone(), columns[1.min(n as usize)..].to_vec()),
        "columns-emptied-but-last" => (columns.clone(), columns[..last].to_vec()),
        "columns-every-second-emptied" => (columns.clone(), columns.iter().copied().step_by(2).collect()),
        "row" => (row, vec![]),
        "row-emptied" => (row.clone(), row),
        "row-emptied-but-last" => (row.clone(), row[..last].to_vec()),
        "path" => (path, vec![]),
        "path-emptied" => (path.clone(), path),
        "blocks" => (blocks, vec![]),
        "blocks-emptied-but-last" => (blocks.clone(), blocks[..last].to_vec()),
        _ => panic!("no history {name}"),
    }
}

fn start(what: &str) {
    println!("{what}");
}

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) {
    if got != want {
        let text = |v: &T| format!("{v:?}").chars().take(300).collect::<String>();
        println!("FAILED {what} gives {}, expected {}", text(&got), text(&want));
        std::process::exit(1);
    }
}

struct Case {
    und: bool,
    n: u64,
    // As directed edges
    e: BTreeSet<Edge>,
    add: Vec<Edge>,
    delete: Vec<Edge>,
}

fn case(und: bool, name: &str, n: u64) -> Case {
    let (add, delete) = history(name, n);
    let mut e: BTreeSet<Edge> = BTreeSet::new();
    let mut dim = 0;
    for &(a, b) in &add {
        e.insert((a, b));
        if und {
            e.insert((b, a));
        }
        dim = dim.max(a.max(b) + 1);
    }
    for &(a, b) in &delete {
        e.remove(&(a, b));
        if und {
            e.remove(&(b, a));
        }
    }
    Case { und, n: dim, e, add, delete }
}

fn graph(c: &Case) -> Graph {
    let mut g = if c.und { Graph::new_undirected() } else { Graph::new_directed() };
    for &(a, b) in &c.add {
        g.add_edge(a, b);
    }
    for &(a, b) in &c.delete {
        g.delete_edge(a, b);
    }
    g
}

fn hubs(c: &Case) -> Vec<u64> {
    let mut v = vec![0, 1, 2, c.n / 2, c.n.saturating_sub(1)];
    v.dedup();
    v
}

fn reads(c: &Case, g: &Graph, what: &str) {
    start(&format!("{what}: counts"));
    same("vertex_count", g.vertex_count(), c.n);
    same("edge_count", g.edge_count(), c.e.len() as u64);
    same("is_undirected", g.is_undirected(), c.und);
    start(&format!("{what}: iteration"));
    same("iteration", g.into_iter().collect::<BTreeSet<_>>(), c.e.clone());
    same("length of iteration", g.into_iter().count(), c.e.len());
    start(&format!("{what}: half an iteration"));
    same("half an iteration", g.into_iter().take(c.e.len() / 2).count(), c.e.len() / 2);
    for v in hubs(c) {
        start(&format!("{what}: edges of vertex {v}"));
        let out: Vec<u64> = c.e.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
        let inn: Vec<u64> = c.e.iter().filter(|e| e.1 == v).map(|e| e.0).collect();
        let sorted = |mut v: Vec<u64>| {
            v.sort_unstable();
            v
        };
        same("out-degree", g.get_vertex_out_degree(v), out.len() as u64);
        same("in-degree", g.get_vertex_in_degree(v), inn.len() as u64);
        same("out-edges", sorted(g.get_vertex_out_edges(v)), out);
        same("in-edges", sorted(g.get_vertex_in_edges(v)), inn);
        same("edge exists", g.does_edge_exist(v, 0), c.e.contains(&(v, 0)));
    }
}

fn clone_of(c: &Case, g: &Graph) {
    start("clone");
    let h = g.clone();
    reads(c, &h, "clone");
    start("drop of a clone");
    drop(h);
    reads(c, g, "after the drop of a clone");
}

fn bytes(c: &Case, g: &Graph) {
    start("to_bytes");
    let Ok(b) = g.to_bytes() else { return same("to_bytes", "an error", "bytes") };
    same("length of the bytes", b.len(), 26 + 16 * c.e.len());
    start("from bytes");
    match Graph::try_from(b.as_slice()) {
        Ok(h) => reads(c, &h, "loaded"),
        Err(_) => same("loading", "an error", "a graph"),
    }
}

fn pooled(c: &Case, g: &Graph) {
    for b in [1, 2, 7, c.n / 2, c.n] {
        if b == 0 {
            continue;
        }
        start(&format!("pooled by {b}"));
        let p = g.find_avg_pool_matrix(b);
        same("dimension", p.dimension(), c.n.div_ceil(b));
        let want: BTreeSet<Edge> = c.e.iter().map(|(x, y)| (x / b, y / b)).collect();
        same("entry_count", p.entry_count(), want.len() as u64);
        start(&format!("iteration over that pooled by {b}"));
        same("cells", p.into_iter().map(|(_, x, y)| (x, y)).collect::<BTreeSet<_>>(), want);
    }
}

fn approximated(c: &Case, g: &Graph) {
    for b in [1, 2, 7, c.n / 2] {
        if b == 0 || c.n <= 1 {
            continue;
        }
        start(&format!("approximated by {b}"));
        let a = g.approximate(b, 0.0);
        let e: BTreeSet<Edge> = c.e.iter().map(|(x, y)| (x / b, y / b)).collect();
        let want = Case { und: c.und, n: c.n.div_ceil(b), e, add: vec![], delete: vec![] };
        reads(&want, &a, &format!("approximated by {b}"));
        start(&format!("approximated by {b}, nothing left"));
        if b > 1 && c.e.len() < c.n as usize {
            let a = g.approximate(c.n, 1.0);
            same("edge_count", a.edge_count(), 0);
        }
    }
}

fn block_counts(c: &Case) -> std::collections::BTreeMap<Edge, u64> {
    let mut m = std::collections::BTreeMap::new();
    for (f, t) in &c.e {
        *m.entry((f / 8, t / 8)).or_insert(0u64) |= 1 << (8 * (t % 8) + f % 8);
    }
    m
}

fn compressed(c: &Case, g: &Graph) {
    for level in [1, 2, 9] {
        start(&format!("compressed at level {level}"));
        let z = g.compress(level);
        let mut blocks = block_counts(c);
        blocks.retain(|_, v| v.count_ones() >= u32::from(level));
        same("vertex_count", z.vertex_count(), c.n);
        same("edge_count", z.edge_count(), blocks.values().map(|v| u64::from(v.count_ones())).sum());
        start(&format!("entries of that compressed at level {level}"));
        for (i, (&(x, y), &v)) in blocks.iter().enumerate() {
            if i % 97 == 0 {
                same("entry", z.get_compressed_matrix_entry(x, y), v);
            }
        }
    }
}

fn level_one(c: &Case, g: &Graph) -> CompressedGraph {
    start("compressed at level 1");
    let z = g.compress(1);
    same("edge_count", z.edge_count(), c.e.len() as u64);
    z
}

fn decompressed(c: &Case, g: &Graph) {
    let z = level_one(c, g);
    start("decompressed");
    let h = z.decompress();
    reads(c, &h, "decompressed");
    start("a clone decompressed");
    reads(c, &z.clone().decompress(), "a clone decompressed");
}

fn compressed_bytes(c: &Case, g: &Graph) {
    let z = level_one(c, g);
    start("compressed to_bytes");
    let Ok(b) = z.to_bytes() else { return same("to_bytes", "an error", "bytes") };
    start("compressed from bytes");
    match CompressedGraph::try_from(b.as_slice()) {
        Ok(y) => {
            start("loaded and decompressed");
            reads(c, &y.decompress(), "loaded and decompressed");
        }
        Err(_) => same("loading", "an error", "a graph"),
    }
}

fn built(c: &Case) {
    start("compressed builder");
    let mut b = CompressedGraphBuilder::new(false, c.n, 1);
    let blocks = block_counts(c);
    for (&(x, y), &v) in &blocks {
        b.add_compressed_matrix_entry(v, x, y, None);
    }
    start("compressed graph finished");
    let z = unsafe { b.finish() };
    same("edge_count", z.edge_count(), c.e.len() as u64);
    start("built and decompressed");
    let d = Case { und: false, n: c.n, e: c.e.clone(), add: vec![], delete: vec![] };
    reads(&d, &z.decompress(), "built and decompressed");
}

fn adjacency(c: &Case) {
    let mut a = CsrAdjacencyMatrix::new();
    start("entries set");
    for &(x, y) in &c.add {
        a.set_entry(1, x, y);
    }
    start("entries zeroed");
    for (i, &(x, y)) in c.delete.iter().enumerate() {
        if i % 2 == 0 {
            a.zero_entry(x, y);
        } else {
            a.set_entry(0, x, y);
        }
    }
    let look = |a: &CsrAdjacencyMatrix, what: &str| {
        start(&format!("{what}: iteration"));
        same("dimension", a.dimension(), c.n);
        same("entry_count", a.entry_count(), c.e.len() as u64);
        same("iteration", a.into_iter().collect::<BTreeSet<_>>(), c.e.clone());
        same("length of iteration", a.into_iter().count(), c.e.len());
        for v in hubs(c) {
            start(&format!("{what}: row and column {v}"));
            let rows: Vec<u64> = c.e.iter().filter(|e| e.0 == v).map(|e| e.1).collect();
            let cols: Vec<u64> = c.e.iter().filter(|e| e.1 == v).map(|e| e.0).collect();
            let sorted = |mut v: Vec<u64>| {
                v.sort_unstable();
                v
            };
            same("column count", a.col_nonzero_entry_count(v), rows.len() as u64);
            same("row count", a.row_nonzero_entry_count(v), cols.len() as u64);
            same("column vector", sorted(a.get_sparse_col_vector(v)), rows);
            same("row vector", sorted(a.get_sparse_row_vector(v)), cols);
            same("entry", a.get_entry(v, 0), u8::from(c.e.contains(&(v, 0))));
        }
    };
    look(&a, "matrix");
    start("clone");
    let b = a.clone();
    look(&b, "clone");
    start("graph from it");
    let mut g = Graph::directed_from(a);
    if g.vertex_count() < c.n {
        g.add_vertex(c.n - 1, None);
    }
    reads(&Case { und: false, n: c.n, e: c.e.clone(), add: vec![], delete: vec![] }, &g, "graph from it");
    start("undirected graph from it");
    let symmetric = c.e.iter().all(|(x, y)| c.e.contains(&(*y, *x)));
    same("undirected_from", Graph::undirected_from(b).is_ok(), symmetric);
}

fn square(c: &Case) {
    let mut a: CsrSquareMatrix<u64> = CsrSquareMatrix::new();
    let mut f: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
    let value = |x: u64, y: u64| x % 5 + y % 3 + 1;
    start("entries set");
    for &(x, y) in &c.add {
        a.set_entry(value(x, y) - 1, x, y);
        a.increment_entry(x, y);
        f.set_entry(value(x, y) as f64 / 2.0, x, y);
    }
    start("entries zeroed");
    for (i, &(x, y)) in c.delete.iter().enumerate() {
        if i % 2 == 0 {
            a.zero_entry(x, y);
            f.zero_entry(x, y);
        } else {
            a.set_entry(0, x, y);
            f.set_entry(0.0, x, y);
        }
    }
    for (a, f, what) in [(&a, &f, "matrix"), (&a.clone(), &f.clone(), "clone")] {
        start(&format!("{what}: counts"));
        same("dimension", (a.dimension(), f.dimension()), (c.n, c.n));
        same("entry_count", (a.entry_count(), f.entry_count()), (c.e.len() as u64, c.e.len() as u64));
        start(&format!("{what}: iteration"));
        let want: BTreeSet<(u64, u64, u64)> = c.e.iter().map(|&(x, y)| (value(x, y), x, y)).collect();
        same("iteration", a.into_iter().collect::<BTreeSet<_>>(), want.clone());
        same("iteration", f.into_iter().map(|(v, x, y)| ((v * 2.0) as u64, x, y)).collect::<BTreeSet<_>>(), want);
        same("length of iteration", a.into_iter().count(), c.e.len());
        start(&format!("{what}: entries"));
        for v in hubs(c) {
            same("entry", a.get_entry(v, 0), if c.e.contains(&(v, 0)) { value(v, 0) } else { 0 });
        }
    }
}

fn run(group: &str, und: bool, name: &str, n: u64) {
    let c = case(und, name, n);
    match group {
        "matrix" => return if !und { adjacency(&c) },
        "square" => return if !und { square(&c) },
        "builder" => return if !und { built(&c) },
        _ => {}
    }
    start("built");
    let g = graph(&c);
    match group {
        "reads" => {
            reads(&c, &g, "graph");
            clone_of(&c, &g);
        }
        "bytes" => bytes(&c, &g),
        "pool" => pooled(&c, &g),
        "approximate" => approximated(&c, &g),
        "compress" => compressed(&c, &g),
        "decompress" => decompressed(&c, &g),
        "compressed-bytes" => compressed_bytes(&c, &g),
        _ => panic!("no group {group}"),
    }
    start("end");
    drop(g);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        println!("{}", HISTORIES.join("\n"));
        return;
    }
    let (group, name, n) = (args[1].clone(), args[2].clone(), args[3].parse().expect("a number"));
    let work = move || {
        for und in [false, true] {
            start(if und { "UNDIRECTED" } else { "DIRECTED" });
            run(&group, und, &name, n);
        }
    };
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(work).expect("a thread");
    if t.join().is_err() {
        std::process::exit(1);
    }
}
