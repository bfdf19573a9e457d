//! The boring reference: sets of vertex pairs, maps of cells, and independent codecs.

use std::collections::{BTreeMap, BTreeSet};

pub type Edge = (u64, u64);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct RG {
    pub und: bool,
    pub n: u64,
    pub e: BTreeSet<Edge>,
}

impl RG {
    pub fn new(und: bool) -> RG {
        RG {
            und,
            ..RG::default()
        }
    }
    pub fn with(und: bool, n: u64, edges: impl IntoIterator<Item = Edge>) -> RG {
        let mut g = RG::new(und);
        g.n = n;
        for (a, b) in edges {
            g.add_edge(a, b);
        }
        g
    }
    fn grow(&mut self, id: u64) {
        self.n = self.n.max(id + 1);
    }
    pub fn add_edge(&mut self, a: u64, b: u64) {
        if a == u64::MAX || b == u64::MAX {
            return;
        }
        self.grow(a);
        self.grow(b);
        self.e.insert((a, b));
        if self.und {
            self.e.insert((b, a));
        }
    }
    pub fn delete_edge(&mut self, a: u64, b: u64) {
        self.e.remove(&(a, b));
        if self.und {
            self.e.remove(&(b, a));
        }
    }
    pub fn add_vertex(&mut self, v: u64, to: Option<&[u64]>) {
        match to {
            Some(l) if !l.is_empty() => {
                for t in l {
                    self.add_edge(v, *t);
                }
            }
            _ => {
                if v != u64::MAX {
                    self.grow(v)
                }
            }
        }
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        self.e.contains(&(a, b))
    }
    pub fn out(&self, a: u64) -> Vec<u64> {
        self.e
            .range((a, 0)..=(a, u64::MAX))
            .map(|(_, b)| *b)
            .collect()
    }
    pub fn inn(&self, b: u64) -> Vec<u64> {
        self.e
            .iter()
            .filter(|(_, t)| *t == b)
            .map(|(f, _)| *f)
            .collect()
    }
    pub fn pool_dim(&self, b: u64) -> u64 {
        if self.n == 0 {
            return 0;
        }
        let b = b.clamp(1, self.n);
        self.n / b + u64::from(self.n % b != 0)
    }
    /// Edges per block (column block, row block).
    pub fn pool_counts(&self, b: u64) -> BTreeMap<Edge, u64> {
        let mut m = BTreeMap::new();
        if self.n == 0 {
            return m;
        }
        let b = b.clamp(1, self.n);
        for (f, t) in &self.e {
            *m.entry((f / b, t / b)).or_insert(0) += 1;
        }
        m
    }
    pub fn approximate(&self, b: u64, threshold: f64) -> RG {
        if b == 0 || self.n <= 1 {
            return self.clone();
        }
        let b = b.min(self.n);
        let t = threshold.clamp(1.0 / 1e18, 1.0);
        let mut g = RG::new(self.und);
        g.n = self.pool_dim(b);
        // The correctly rounded fraction: cells is exact in u128, and one division rounds once
        let cells = (u128::from(b) * u128::from(b)) as f64;
        for ((c, r), k) in self.pool_counts(b) {
            if k as f64 / cells >= t {
                g.e.insert((c, r));
            }
        }
        g
    }
    pub fn compress(&self, level: u8) -> RC {
        let level = level.clamp(1, 64);
        let mut blocks: BTreeMap<Edge, u64> = BTreeMap::new();
        for (f, t) in &self.e {
            *blocks.entry((f / 8, t / 8)).or_insert(0) |= 1 << (8 * (t % 8) + f % 8);
        }
        blocks.retain(|_, v| v.count_ones() >= u32::from(level));
        RC {
            und: self.und,
            n: self.n,
            level,
            blocks,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        encode_graph(self.und, self.n, &self.e.iter().copied().collect::<Vec<_>>())
    }
    pub fn matrix_string(&self) -> String {
        let mut s = String::new();
        for row in 0..self.n {
            if row > 0 {
                s.push_str("\r\n");
            }
            s.push('[');
            for col in 0..self.n {
                s.push_str(if col == 0 { " " } else { ", " });
                s.push(if self.has(col, row) { '1' } else { '0' });
            }
            s.push_str(" ]");
        }
        s
    }
    pub fn symmetric(&self) -> bool {
        self.e.iter().all(|(a, b)| self.e.contains(&(*b, *a)))
    }
    pub fn show(&self) -> String {
        let kind = if self.und { "undirected" } else { "directed" };
        if self.e.len() > 40 {
            let first: Vec<_> = self.e.iter().take(12).collect();
            format!(
                "{kind} n={} |E|={} first {first:?} hash {:016x}",
                self.n,
                self.e.len(),
                self.hash64()
            )
        } else {
            format!("{kind} n={} {:?}", self.n, self.e)
        }
    }
    pub fn hash64(&self) -> u64 {
        let mut h = crate::engine::mix(self.n ^ (u64::from(self.und) << 63));
        for (a, b) in &self.e {
            h = crate::engine::mix(h ^ crate::engine::mix(*a) ^ b.rotate_left(17));
        }
        h
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RC {
    pub und: bool,
    pub n: u64,
    pub level: u8,
    pub blocks: BTreeMap<Edge, u64>,
}

impl RC {
    pub fn dim(&self) -> u64 {
        (self.n / 8 + u64::from(self.n % 8 != 0)).max(1)
    }
    pub fn edge_count(&self) -> u64 {
        self.blocks.values().map(|b| u64::from(b.count_ones())).sum()
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        self.blocks
            .get(&(a / 8, b / 8))
            .is_some_and(|v| v >> (8 * (b % 8) + a % 8) & 1 == 1)
    }
    pub fn edges(&self) -> BTreeSet<Edge> {
        let mut s = BTreeSet::new();
        for ((c, r), v) in &self.blocks {
            for i in 0..64u64 {
                if v >> i & 1 == 1 {
                    s.insert((c * 8 + i % 8, r * 8 + i / 8));
                }
            }
        }
        s
    }
    pub fn decompress(&self) -> RG {
        RG {
            und: self.und,
            n: self.n,
            e: self.edges(),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let recs: Vec<(u64, u64, u64)> = self.blocks.iter().map(|((c, r), v)| (*v, *c, *r)).collect();
        encode_compressed(self.und, self.n, self.level, &recs)
    }
    pub fn matrix_string(&self) -> String {
        let cells: BTreeMap<Edge, String> = self
            .blocks
            .iter()
            .map(|(k, v)| (*k, v.to_string()))
            .collect();
        grid(self.dim(), &cells, "0")
    }
    pub fn show(&self) -> String {
        let kind = if self.und { "undirected" } else { "directed" };
        let b: Vec<String> = self
            .blocks
            .iter()
            .take(12)
            .map(|(k, v)| format!("{k:?}:{v:#x}"))
            .collect();
        format!(
            "{kind} compressed n={} level={} {} blocks [{}]",
            self.n,
            self.level,
            self.blocks.len(),
            b.join(", ")
        )
    }
}

/// A numeric matrix string: cells by (col, row), right-aligned to the widest.
pub fn grid(dim: u64, cells: &BTreeMap<Edge, String>, zero: &str) -> String {
    let mut width = 0;
    let all = u128::from(dim) * u128::from(dim);
    if (cells.len() as u128) < all {
        width = zero.len();
    }
    for c in cells.values() {
        width = width.max(c.len());
    }
    let mut s = String::new();
    for row in 0..dim {
        if row > 0 {
            s.push_str("\r\n");
        }
        s.push('[');
        for col in 0..dim {
            s.push_str(if col == 0 { " " } else { ", " });
            let c = cells.get(&(col, row)).map_or(zero, |c| c.as_str());
            for _ in c.len()..width {
                s.push(' ');
            }
            s.push_str(c);
        }
        s.push_str(" ]");
    }
    s
}

// ---------------------------------------------------------------- independent codecs

fn be64(v: u64) -> [u8; 8] {
    let mut o = [0; 8];
    for (i, x) in o.iter_mut().enumerate() {
        *x = (v >> (56 - 8 * i)) as u8;
    }
    o
}

pub fn encode_graph(und: bool, n: u64, edges: &[Edge]) -> Vec<u8> {
    encode_graph_raw(0x7ae71ffd, 1, n, edges.len() as u64, u8::from(und), 0, edges)
}

pub fn encode_graph_raw(
    magic: u32,
    version: u32,
    n: u64,
    count: u64,
    und: u8,
    weighted: u8,
    edges: &[Edge],
) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&be64(u64::from(magic) << 32 | u64::from(version)));
    v.extend_from_slice(&be64(n));
    v.extend_from_slice(&be64(count));
    v.push(und);
    v.push(weighted);
    for (f, t) in edges {
        v.extend_from_slice(&be64(*f));
        v.extend_from_slice(&be64(*t));
    }
    v
}

pub fn encode_compressed(und: bool, n: u64, level: u8, recs: &[(u64, u64, u64)]) -> Vec<u8> {
    let dim = (n / 8 + u64::from(n % 8 != 0)).max(1);
    let total = recs.iter().map(|r| u64::from(r.0.count_ones())).sum();
    encode_compressed_raw(
        0x71ff7aed,
        2,
        dim,
        recs.len() as u64,
        total,
        n,
        u8::from(und),
        level,
        recs,
    )
}

#[allow(clippy::too_many_arguments)]
pub fn encode_compressed_raw(
    magic: u32,
    version: u32,
    dim: u64,
    count: u64,
    edge_count: u64,
    n: u64,
    und: u8,
    level: u8,
    recs: &[(u64, u64, u64)],
) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&be64(u64::from(magic) << 32 | u64::from(version)));
    for x in [dim, count, edge_count, n] {
        v.extend_from_slice(&be64(x));
    }
    v.push(und);
    v.push(level);
    for (b, c, r) in recs {
        v.extend_from_slice(&be64(*b));
        v.extend_from_slice(&be64(*c));
        v.extend_from_slice(&be64(*r));
    }
    v
}

fn rd(b: &[u8], at: usize, len: usize) -> u64 {
    let mut v = 0u64;
    for x in &b[at..at + len] {
        v = v << 8 | u64::from(*x);
    }
    v
}

/// The graph a byte string denotes, or why it is not well-formed.
pub fn decode_graph(b: &[u8]) -> Result<RG, &'static str> {
    if b.len() < 26 {
        return Err("short header");
    }
    if rd(b, 0, 4) != 0x7ae71ffd {
        return Err("magic");
    }
    if rd(b, 4, 4) != 1 {
        return Err("version");
    }
    let (n, count) = (rd(b, 8, 8), rd(b, 16, 8));
    if b[24] > 1 {
        return Err("direction flag");
    }
    if b[25] != 0 {
        return Err("weight flag");
    }
    if u128::from(count) * 16 + 26 != b.len() as u128 {
        return Err("length");
    }
    let mut g = RG {
        und: b[24] == 1,
        n,
        e: BTreeSet::new(),
    };
    for i in 0..count as usize {
        let e = (rd(b, 26 + 16 * i, 8), rd(b, 34 + 16 * i, 8));
        if e.0 >= n || e.1 >= n {
            return Err("vertex out of range");
        }
        if !g.e.insert(e) {
            return Err("duplicate edge");
        }
    }
    if g.und && !g.symmetric() {
        return Err("asymmetric");
    }
    Ok(g)
}

pub fn decode_compressed(b: &[u8]) -> Result<RC, &'static str> {
    if b.len() < 42 {
        return Err("short header");
    }
    if rd(b, 0, 4) != 0x71ff7aed {
        return Err("magic");
    }
    if rd(b, 4, 4) != 2 {
        return Err("version");
    }
    let (dim, count, edges, n) = (rd(b, 8, 8), rd(b, 16, 8), rd(b, 24, 8), rd(b, 32, 8));
    if b[40] > 1 {
        return Err("direction flag");
    }
    if b[41] == 0 || b[41] > 64 {
        return Err("level");
    }
    let mut c = RC {
        und: b[40] == 1,
        n,
        level: b[41],
        blocks: BTreeMap::new(),
    };
    if dim != c.dim() {
        return Err("dimension");
    }
    if u128::from(count) * 24 + 42 != b.len() as u128 {
        return Err("length");
    }
    for i in 0..count as usize {
        let (v, col, row) = (
            rd(b, 42 + 24 * i, 8),
            rd(b, 50 + 24 * i, 8),
            rd(b, 58 + 24 * i, 8),
        );
        if v == 0 {
            return Err("zero block");
        }
        if col >= dim || row >= dim {
            return Err("block out of range");
        }
        for j in 0..64u64 {
            if v >> j & 1 == 1
                && (u128::from(col) * 8 + u128::from(j % 8) >= u128::from(n)
                    || u128::from(row) * 8 + u128::from(j / 8) >= u128::from(n))
            {
                return Err("edge out of range");
            }
        }
        if c.blocks.insert((col, row), v).is_some() {
            return Err("duplicate block");
        }
    }
    if c.edge_count() != edges {
        return Err("edge total");
    }
    if c.und {
        for (a, b) in c.edges() {
            if !c.has(b, a) {
                return Err("asymmetric");
            }
        }
    }
    Ok(c)
}
