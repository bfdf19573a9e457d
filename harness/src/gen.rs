//! The universe of graphs that the derived-result properties are checked on.

use crate::engine::Tier;
use crate::model::{Edge, RG};

/// Every digraph on `n` labelled vertices (self-loops included), as a bit mask over n*n cells.
pub fn digraph(n: u64, mask: u64) -> RG {
    let mut g = RG::new(false);
    g.n = n;
    for a in 0..n {
        for b in 0..n {
            if mask >> (a * n + b) & 1 == 1 {
                g.e.insert((a, b));
            }
        }
    }
    g
}

/// Every undirected graph on `n` labelled vertices (self-loops included), over n(n+1)/2 cells.
pub fn ungraph(n: u64, mask: u64) -> RG {
    let mut g = RG::new(true);
    g.n = n;
    let mut i = 0;
    for a in 0..n {
        for b in a..n {
            if mask >> i & 1 == 1 {
                g.e.insert((a, b));
                g.e.insert((b, a));
            }
            i += 1;
        }
    }
    g
}

pub fn und_cells(n: u64) -> u64 {
    n * (n + 1) / 2
}

/// (kind, n): all graphs of that kind and size. The mask ranges over 0..count.
pub fn small_spaces(tier: Tier) -> Vec<(bool, u64, u64)> {
    let mut v = Vec::new();
    for n in 0..=3 {
        v.push((false, n, 1u64 << (n * n)));
    }
    for n in 0..=4 {
        v.push((true, n, 1u64 << und_cells(n)));
    }
    if tier == Tier::Thorough {
        v.push((false, 4, 1 << 16));
        v.push((true, 5, 1 << 15));
    }
    v
}

pub fn small(und: bool, n: u64, mask: u64) -> RG {
    if und {
        ungraph(n, mask)
    } else {
        digraph(n, mask)
    }
}

/// Renames vertex i to labels[i]; the vertex count becomes max label + 1 + trailing.
pub fn embed(g: &RG, labels: &[u64], trailing: u64) -> RG {
    let mut r = RG::new(g.und);
    r.n = if g.n == 0 {
        trailing
    } else {
        labels[..g.n as usize].iter().max().unwrap() + 1 + trailing
    };
    for (a, b) in &g.e {
        r.e.insert((labels[*a as usize], labels[*b as usize]));
    }
    r
}

/// Label triples/quadruples that cross the boundaries that matter: 8-blocks, bytes, words.
pub fn embeddings() -> Vec<Vec<u64>> {
    let m = u64::MAX;
    vec![
        vec![0, 1, 2, 3, 4],
        vec![6, 7, 8, 9, 10],
        vec![0, 8, 16, 24, 32],
        vec![7, 15, 16, 17, 63],
        vec![62, 63, 64, 65, 127],
        vec![254, 255, 256, 257, 511],
        vec![0, 256, 512, 1, 257],
        vec![65535, 65536, 65537, 0, 1],
        vec![0, 1 << 32, 1, (1 << 32) + 1, 1 << 33],
        vec![(1 << 32) - 1, 1 << 32, 7, 8, (1 << 31) - 1],
        vec![1 << 53, (1 << 53) + 1, 3, 1 << 63, (1 << 63) + 8],
        vec![m - 1, m - 2, 0, m - 8, m - 9],
    ]
}

pub fn sparse_families(sizes: &[u64]) -> Vec<RG> {
    let mut v = Vec::new();
    for &n in sizes {
        for und in [false, true] {
            let mut push = |e: Vec<Edge>| {
                v.push(RG::with(und, n, e));
            };
            push((0..n.saturating_sub(1)).map(|i| (i, i + 1)).collect()); // path
            push((0..n).map(|i| (i, (i + 1) % n.max(1))).collect()); // cycle
            push((0..n).map(|i| (i, i)).collect()); // loops
            push((0..n).map(|i| (0, i)).collect()); // star out of the first
            push((0..n).map(|i| (i, n - 1)).collect()); // star into the last
            push((0..n).map(|i| (i, n - 1 - i)).collect()); // antidiagonal
            if n > 0 {
                push(vec![(n - 1, n - 1)]);
                push(vec![(0, n - 1)]);
                push(vec![(n - 1, 0)]);
            }
        }
    }
    v
}

pub fn dense_families(sizes: &[u64]) -> Vec<RG> {
    let mut v = Vec::new();
    for &n in sizes {
        for und in [false, true] {
            let all = || (0..n).flat_map(move |a| (0..n).map(move |b| (a, b)));
            let mut push = |e: Vec<Edge>| {
                v.push(RG::with(und, n, e));
            };
            push(all().collect());
            push(all().filter(|(a, b)| a != b).collect());
            push(all().filter(|(a, b)| (a + b) % 2 == 0).collect());
            push(all().filter(|(a, b)| a / 8 == b / 8).collect());
            push(all().filter(|(a, b)| a < b).collect());
            push(all().filter(|(a, b)| (a * 7 + b * 3) % 5 == 0).collect());
            push(all().filter(|(a, b)| a % 8 == 7 || b % 8 == 7).collect());
        }
    }
    v
}

/// `k` vertex IDs with gaps between them, of several kinds.
pub fn spreads(k: u64) -> Vec<Vec<u64>> {
    let kinds: [fn(u64) -> u64; 8] = [
        |i| i * 2,
        |i| i * 10 + 3,
        |i| i * 17,
        |i| i * i,
        |i| i * 1_000_003,
        |i| i << 40 | i,
        |i| u64::MAX - 1 - i * 9,
        |i| i * 7919 % 4093,
    ];
    kinds.iter().map(|f| (0..k).map(f).collect()).collect()
}

/// Edges between few of many possible vertices: many columns, with gaps between them.
pub fn spread_families(counts: &[u64]) -> Vec<RG> {
    let mut v = Vec::new();
    for &k in counts {
        for l in spreads(k) {
            let n = l.iter().max().map_or(0, |x| x + 1);
            let at = |i: u64| l[i as usize];
            for und in [false, true] {
                let mut push = |e: Vec<Edge>| v.push(RG::with(und, n, e));
                push((0..k).map(|i| (at(i), at(1 % k))).collect());
                push((0..k).map(|i| (at(k / 2), at(i))).collect());
                push((0..k).flat_map(|i| [(at(i), at((i + 1) % k)), (at(i), at(i * 3 % k))]).collect());
                push((0..k).flat_map(|i| [(at(i), at(0)), (at(i), at(k - 1)), (at(i), at(i))]).collect());
            }
        }
    }
    v
}
