//! C15, C16: matrices as their histories describe them.

use crate::engine::{job, mix, Job, Tier};
use crate::gen;
use crate::hist::*;
use crate::model::Edge;
use crate::obs::*;
use crate::sq::{for_all_types, Sq};
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

pub fn around(labels: &[u64], dim: u64) -> Vec<u64> {
    let mut s: BTreeSet<u64> = labels.iter().copied().collect();
    s.extend([0, dim, dim.saturating_add(1), u64::MAX]);
    s.into_iter().collect()
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Default)]
pub struct AM {
    pub dim: u64,
    pub e: BTreeSet<Edge>,
}

#[derive(Clone, Debug)]
pub enum AOp {
    Set(u8, u64, u64),
    Zero(u64, u64),
}

pub fn apply_a(a: &mut CsrAdjacencyMatrix, op: &AOp) {
    match op {
        AOp::Set(v, c, r) => a.set_entry(*v, *c, *r),
        AOp::Zero(c, r) => a.zero_entry(*c, *r),
    }
}

pub fn apply_am(m: &mut AM, op: &AOp) {
    match op {
        AOp::Set(v, c, r) => {
            if *c == u64::MAX || *r == u64::MAX {
                return;
            }
            m.dim = m.dim.max(c + 1).max(r + 1);
            if *v == 0 {
                m.e.remove(&(*c, *r));
            } else {
                m.e.insert((*c, *r));
            }
        }
        AOp::Zero(c, r) => {
            m.e.remove(&(*c, *r));
        }
    }
}

pub fn check_adj(a: &CsrAdjacencyMatrix, m: &AM, ids: &[u64]) -> Res {
    ensure!(
        a.dimension() == m.dim,
        "dimension() is {}, expected {}",
        a.dimension(),
        m.dim
    );
    ensure!(
        a.entry_count() == m.e.len() as u64,
        "entry_count() is {}, expected {} ({:?})",
        a.entry_count(),
        m.e.len(),
        m.e
    );
    for c in ids {
        for r in ids {
            let want = u8::from(m.e.contains(&(*c, *r)));
            let got = a.get_entry(*c, *r);
            ensure!(got == want, "get_entry({c}, {r}) is {got}, expected {want} ({:?})", m.e);
        }
        let col: Vec<u64> = m.e.range((*c, 0)..=(*c, u64::MAX)).map(|e| e.1).collect();
        let row: Vec<u64> = m.e.iter().filter(|e| e.1 == *c).map(|e| e.0).collect();
        let (gc, gr) = (
            sorted(a.get_sparse_col_vector(*c)),
            sorted(a.get_sparse_row_vector(*c)),
        );
        ensure!(gc == col, "column {c} is {gc:?}, expected {col:?}");
        ensure!(gr == row, "row {c} is {gr:?}, expected {row:?}");
        let (nc, nr) = (a.col_nonzero_entry_count(*c), a.row_nonzero_entry_count(*c));
        ensure!(nc == col.len() as u64, "column {c} counts {nc}, expected {}", col.len());
        ensure!(nr == row.len() as u64, "row {c} counts {nr}, expected {}", row.len());
    }
    let mut s = BTreeSet::new();
    let mut it = a.into_iter();
    while let Some(e) = it.next() {
        ensure!(s.insert(e), "iteration yields {e:?} twice");
    }
    ensure!(it.next().is_none(), "iteration goes on after its end");
    ensure!(s == m.e, "iteration yields {s:?}, expected {:?}", m.e);
    Ok(())
}

struct ASys {
    labels: Vec<u64>,
    ops: Vec<AOp>,
    via_default: bool,
}

impl Sys for ASys {
    type Op = AOp;
    type Model = AM;
    type Real = CsrAdjacencyMatrix;
    fn ops(&self) -> Vec<AOp> {
        self.ops.clone()
    }
    fn real(&self) -> CsrAdjacencyMatrix {
        if self.via_default {
            CsrAdjacencyMatrix::default()
        } else {
            CsrAdjacencyMatrix::new()
        }
    }
    fn model(&self) -> AM {
        AM::default()
    }
    fn apply(&self, r: &mut CsrAdjacencyMatrix, op: &AOp) {
        apply_a(r, op)
    }
    fn apply_model(&self, m: &mut AM, op: &AOp) {
        apply_am(m, op)
    }
    fn check(&self, r: &CsrAdjacencyMatrix, m: &AM) -> Res {
        check_adj(r, m, &around(&self.labels, m.dim))
    }
    fn model_key(&self, m: &AM) -> u64 {
        m.e.iter()
            .fold(mix(m.dim), |h, e| mix(mix(h ^ e.0) ^ e.1.rotate_left(9)))
    }
}

fn adj_ops(labels: &[u64], values: &[u8]) -> Vec<AOp> {
    let mut v = Vec::new();
    for c in labels {
        for r in labels {
            for x in values {
                v.push(AOp::Set(*x, *c, *r));
            }
            v.push(AOp::Zero(*c, *r));
        }
    }
    v
}

pub fn label_sets() -> Vec<Vec<u64>> {
    let mut v = gen::embeddings();
    v.push(vec![u64::MAX, 2, u64::MAX - 1, 0, 1]);
    v
}

pub fn c15(tier: Tier) -> Vec<Job> {
    let mut v = crate::walks::adjacency_jobs(tier);
    v.extend(crate::swaps::adjacency_jobs(tier));
    v.extend(crate::deep::jobs(tier, &["matrix"]));
    for (i, l) in label_sets().into_iter().enumerate() {
        let k = if i < 4 || tier == Tier::Thorough { 3 } else { 2 };
        let labels = l[..k].to_vec();
        let values: Vec<u8> = if k == 2 { vec![1, 0, 2, 255] } else { vec![1, 0, 255] };
        v.push(job(format!("bfs labels={labels:?} values={values:?}"), move |ctx| {
            let s = ASys {
                ops: adj_ops(&labels, &values),
                labels: labels.clone(),
                via_default: false,
            };
            bfs(ctx, &s, 64, 80_000);
        }));
    }
    for (labels, depth) in [
        (vec![0u64, 1], tier.pick(4, 5)),
        (vec![u64::MAX - 1, u64::MAX], tier.pick(4, 5)),
        (vec![5u64, 9], tier.pick(4, 5)),
    ] {
        let ops = adj_ops(&labels, &[1, 0]);
        for first in 0..ops.len() {
            let (ops, labels) = (ops.clone(), labels.clone());
            v.push(job(
                format!("sequences labels={labels:?} depth={depth} first={first}"),
                move |ctx| {
                    let s = ASys {
                        ops: ops.clone(),
                        labels: labels.clone(),
                        via_default: true,
                    };
                    sequences(ctx, &s, depth, Some(first));
                },
            ));
        }
    }
    // Every value of the element type acts as one, except zero
    v.push(job("all 256 values", |ctx| {
        for v1 in 0..=255u8 {
            for v2 in 0..=255u8 {
                let ok = ctx.case(
                    || format!("set {v1}, set {v2}"),
                    || {
                        let mut a = CsrAdjacencyMatrix::new();
                        let mut m = AM::default();
                        for x in [v1, v2] {
                            let op = AOp::Set(x, 1, 2);
                            apply_a(&mut a, &op);
                            apply_am(&mut m, &op);
                            check_adj(&a, &m, &[0, 1, 2, 3])?;
                        }
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 2;
                ctx.stats.traces += 1;
                ctx.distinct(u64::from(v1) << 8 | u64::from(v2));
            }
        }
    }));
    // Pairs of interesting cells
    for c in crate::p_graph::interesting_ids() {
        v.push(job(format!("cell pairs with column {c}"), move |ctx| {
            let ids = crate::p_graph::interesting_ids();
            for r in &ids {
                for c2 in &ids {
                    for r2 in &ids {
                        if tier == Tier::Quick && (c2 ^ r2 ^ r) % 3 != 0 && *c2 != c && r2 != r {
                            continue;
                        }
                        let ok = ctx.case(
                            || format!("set ({c}, {r}), set ({c2}, {r2}), zero ({c}, {r})"),
                            || {
                                let mut a = CsrAdjacencyMatrix::new();
                                let mut m = AM::default();
                                for op in [AOp::Set(1, c, *r), AOp::Set(1, *c2, *r2), AOp::Zero(c, *r)] {
                                    apply_a(&mut a, &op);
                                    apply_am(&mut m, &op);
                                    check_adj(&a, &m, &[c, *r, *c2, *r2])
                                        .map_err(|e| format!("after {op:?}: {e}"))?;
                                }
                                Ok(())
                            },
                        );
                        if !ok {
                            return;
                        }
                        ctx.stats.transitions += 3;
                        ctx.stats.traces += 1;
                        ctx.distinct(mix(*r) ^ mix(*c2).rotate_left(2) ^ mix(*r2).rotate_left(3));
                    }
                }
            }
        }));
    }
    let n: u64 = tier.pick(70_000, 300_000);
    type Shape = (&'static str, fn(u64) -> Edge);
    let shapes: [Shape; 5] = [
        ("column", |i| (5, i)),
        ("row", |i| (i, 5)),
        ("diagonal", |i| (i, i)),
        ("square", |i| (i % 271, i / 271)),
        ("spread", |i| (i << 40, i << 24)),
    ];
    for (name, f) in shapes {
        v.push(job(format!("growth {name} n={n}"), move |ctx| {
            let mut a = CsrAdjacencyMatrix::new();
            let mut m = AM::default();
            for phase in 0..4 {
                for i in 0..n {
                    if phase == 1 && i % 2 == 0 {
                        continue;
                    }
                    let (c, r) = f(i);
                    let op = match (phase, i % 3) {
                        (0 | 2, _) => AOp::Set(1 + (i % 255) as u8, c, r),
                        (_, 0) => AOp::Set(0, c, r),
                        _ => AOp::Zero(c, r),
                    };
                    let ok = ctx.case(
                        || format!("phase {phase}: {op:?}"),
                        || {
                            apply_a(&mut a, &op);
                            apply_am(&mut m, &op);
                            ensure!(a.entry_count() == m.e.len() as u64, "entry_count() is {}, expected {}", a.entry_count(), m.e.len());
                            ensure!(a.dimension() == m.dim, "dimension() is {}, expected {}", a.dimension(), m.dim);
                            ensure!(a.get_entry(c, r) == u8::from(m.e.contains(&(c, r))), "get_entry({c}, {r}) is wrong");
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                }
                let ok = ctx.case(
                    || format!("{name}: everything after phase {phase}"),
                    || {
                        check_adj(&a, &m, &[0, 5, 7, 270, 271])?;
                        for i in 0..n {
                            let (c, r) = f(i);
                            ensure!(a.get_entry(c, r) == u8::from(m.e.contains(&(c, r))), "get_entry({c}, {r}) is wrong");
                        }
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
            }
            ctx.stats.traces += 1;
        }));
    }
    // Many columns with gaps between them, some of them emptied again
    for k in tier.pick(vec![5u64, 18, 40, 130], vec![3, 5, 9, 18, 33, 40, 70, 130, 300]) {
        v.push(job(format!("{k} columns with gaps between them"), move |ctx| {
            for g in crate::gen::spread_families(&[k]) {
                for emptied in [0u64, 6, 20] {
                    let ok = ctx.case(
                        || format!("{}, {emptied} more columns emptied", g.show()),
                        || {
                            let mut a = CsrAdjacencyMatrix::new();
                            let mut m = AM::default();
                            let mut step = |op: AOp| {
                                apply_a(&mut a, &op);
                                apply_am(&mut m, &op);
                            };
                            for i in 0..emptied {
                                step(AOp::Set(1, i * 7, 40));
                                step(AOp::Set(1, i, i));
                            }
                            for (c, r) in &g.e {
                                step(AOp::Set(1, *c, *r));
                            }
                            for i in 0..emptied {
                                step(AOp::Zero(i * 7, 40));
                                step(AOp::Set(0, i, i));
                            }
                            let mut ids: Vec<u64> = g.e.iter().take(6).chain(g.e.iter().rev().take(6)).flat_map(|e| [e.0, e.1]).collect();
                            ids.extend([0, 1, 7, 35, 40, u64::MAX]);
                            ids.sort_unstable();
                            ids.dedup();
                            check_adj(&a, &m, &ids)
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                    ctx.distinct(g.hash64() ^ emptied);
                }
            }
        }));
    }
    v
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
pub struct SM<T> {
    pub dim: u64,
    pub e: BTreeMap<Edge, T>,
}

#[derive(Clone, Debug)]
pub enum SOp<T> {
    Set(T, u64, u64),
    Zero(u64, u64),
    Inc(u64, u64),
}

pub fn apply_s<S: Sq>(a: &mut S, op: &SOp<S::T>) {
    match op {
        SOp::Set(v, c, r) => a.set(*v, *c, *r),
        SOp::Zero(c, r) => a.zero(*c, *r),
        SOp::Inc(c, r) => a.inc(*c, *r),
    }
}

pub fn apply_sm<S: Sq>(m: &mut SM<S::T>, op: &SOp<S::T>) {
    let (v, c, r) = match op {
        SOp::Zero(c, r) => {
            m.e.remove(&(*c, *r));
            return;
        }
        SOp::Set(v, c, r) => (*v, *c, *r),
        SOp::Inc(c, r) => {
            let old = m.e.get(&(*c, *r)).copied().unwrap_or(S::nought());
            (S::succ(old).expect("increment within the type"), *c, *r)
        }
    };
    if c == u64::MAX || r == u64::MAX {
        return;
    }
    m.dim = m.dim.max(c + 1).max(r + 1);
    if v == S::nought() {
        m.e.remove(&(c, r));
    } else {
        m.e.insert((c, r), v);
    }
}

pub fn check_sq<S: Sq>(a: &S, m: &SM<S::T>, ids: &[u64]) -> Res {
    ensure!(a.dim() == m.dim, "dimension() is {}, expected {}", a.dim(), m.dim);
    ensure!(
        a.count() == m.e.len() as u64,
        "entry_count() is {}, expected {} ({:?})",
        a.count(),
        m.e.len(),
        m.e
    );
    for c in ids {
        for r in ids {
            let want = m.e.get(&(*c, *r)).copied().unwrap_or(S::nought());
            let got = a.get(*c, *r);
            ensure!(
                S::same(got, want),
                "get_entry({c}, {r}) is {got}, expected {want} ({:?})",
                m.e
            );
        }
    }
    let mut s: BTreeMap<Edge, S::T> = BTreeMap::new();
    for (v, c, r) in a.entries() {
        ensure!(
            s.insert((c, r), v).is_none(),
            "iteration yields the entry at column {c}, row {r} twice"
        );
    }
    ensure!(
        s.len() == m.e.len() && s.iter().zip(&m.e).all(|(a, b)| a.0 == b.0 && S::same(*a.1, *b.1)),
        "iteration yields {s:?}, expected {:?}",
        m.e
    );
    Ok(())
}

struct SSys<S: Sq> {
    labels: Vec<u64>,
    ops: Vec<SOp<S::T>>,
    p: PhantomData<fn() -> S>,
}

impl<S: Sq> Sys for SSys<S> {
    type Op = SOp<S::T>;
    type Model = SM<S::T>;
    type Real = S;
    fn ops(&self) -> Vec<SOp<S::T>> {
        self.ops.clone()
    }
    fn real(&self) -> S {
        S::new()
    }
    fn model(&self) -> SM<S::T> {
        SM {
            dim: 0,
            e: BTreeMap::new(),
        }
    }
    fn apply(&self, r: &mut S, op: &SOp<S::T>) {
        apply_s(r, op)
    }
    fn apply_model(&self, m: &mut SM<S::T>, op: &SOp<S::T>) {
        if self.enabled(m, op) {
            apply_sm::<S>(m, op)
        }
    }
    fn enabled(&self, m: &SM<S::T>, op: &SOp<S::T>) -> bool {
        match op {
            SOp::Inc(c, r) => m
                .e
                .get(&(*c, *r))
                .is_none_or(|v| S::low(*v) && S::succ(*v).is_some()),
            _ => true,
        }
    }
    fn check(&self, r: &S, m: &SM<S::T>) -> Res {
        check_sq(r, m, &around(&self.labels, m.dim))
    }
}

pub fn sq_ops<S: Sq>(labels: &[u64], values: &[S::T]) -> Vec<SOp<S::T>> {
    let mut v = Vec::new();
    for c in labels {
        for r in labels {
            v.push(SOp::Inc(*c, *r));
            for x in values {
                v.push(SOp::Set(*x, *c, *r));
            }
            v.push(SOp::Zero(*c, *r));
        }
    }
    v
}

fn type_jobs<S: Sq>(tier: Tier, v: &mut Vec<Job>) {
    let f64like = S::NAME == "f64" || S::NAME == "u64";
    let name = S::NAME;
    // Two labels, a few values, to closure
    for (i, l) in label_sets().into_iter().enumerate() {
        if tier == Tier::Quick && !f64like && i > 1 && i < 11 {
            continue;
        }
        let labels = l[..2].to_vec();
        let vals: Vec<S::T> = S::values();
        let vals: Vec<S::T> = match tier {
            Tier::Quick => vals.into_iter().take(3).collect(),
            Tier::Thorough => vals.into_iter().take(5).collect(),
        };
        v.push(job(format!("{name} bfs labels={labels:?} values={vals:?}"), move |ctx| {
            let s = SSys::<S> {
                ops: sq_ops::<S>(&labels, &vals),
                labels: labels.clone(),
                p: PhantomData,
            };
            bfs(ctx, &s, 64, 40_000);
        }));
    }
    // One cell and its neighbour in the column, every value
    for labels in [vec![0u64], vec![7u64], vec![u64::MAX - 1]] {
        v.push(job(format!("{name} one cell, all values, labels={labels:?}"), move |ctx| {
            let s = SSys::<S> {
                ops: sq_ops::<S>(&labels, &S::values()),
                labels: labels.clone(),
                p: PhantomData,
            };
            bfs(ctx, &s, 12, 20_000);
        }));
    }
    // Three labels, presence only
    if f64like || tier == Tier::Thorough {
        for labels in [vec![0u64, 1, 2], vec![7u64, 8, 300]] {
            v.push(job(format!("{name} bfs3 labels={labels:?}"), move |ctx| {
                let mut ops = Vec::new();
                for c in &labels {
                    for r in &labels {
                        ops.push(SOp::Set(S::one(), *c, *r));
                        ops.push(SOp::Set(S::nought(), *c, *r));
                        ops.push(SOp::Zero(*c, *r));
                    }
                }
                let s = SSys::<S> {
                    ops,
                    labels: labels.clone(),
                    p: PhantomData,
                };
                bfs(ctx, &s, 64, 80_000);
            }));
        }
    }
    // All sequences
    for labels in [vec![0u64, 1], vec![u64::MAX - 1, u64::MAX]] {
        let vals: Vec<S::T> = S::values().into_iter().take(2).collect();
        let ops = sq_ops::<S>(&labels, &vals);
        let depth = if tier == Tier::Thorough { 5 } else if f64like { 4 } else { 3 };
        for first in 0..ops.len() {
            let (ops, labels) = (ops.clone(), labels.clone());
            v.push(job(
                format!("{name} sequences labels={labels:?} depth={depth} first={first}"),
                move |ctx| {
                    let s = SSys::<S> {
                        ops: ops.clone(),
                        labels: labels.clone(),
                        p: PhantomData,
                    };
                    sequences(ctx, &s, depth, Some(first));
                },
            ));
        }
    }
    // Counting up from every value of the lattice until the type ends or 300 steps
    v.push(job(format!("{name} increments"), move |ctx| {
        let mut starts = S::values();
        starts.extend(S::lattice());
        for start in starts {
            let ok = ctx.case(
                || format!("{name}: set {start}, then increment up to 300 times"),
                || {
                    let mut a = S::new();
                    let mut m: SM<S::T> = SM {
                        dim: 0,
                        e: BTreeMap::new(),
                    };
                    let op = SOp::Set(start, 3, 1);
                    apply_s(&mut a, &op);
                    apply_sm::<S>(&mut m, &op);
                    for i in 0..300 {
                        check_sq(&a, &m, &[0, 1, 3, 4]).map_err(|e| format!("after {i}: {e}"))?;
                        let v = m.e.get(&(3, 1)).copied().unwrap_or(S::nought());
                        if S::succ(v).is_none() {
                            break;
                        }
                        let op = SOp::Inc(3, 1);
                        apply_s(&mut a, &op);
                        apply_sm::<S>(&mut m, &op);
                    }
                    Ok(())
                },
            );
            if !ok {
                return;
            }
            ctx.stats.transitions += 300;
            ctx.stats.traces += 1;
            ctx.distinct(crate::engine::hash_str(&format!("{start}")));
        }
    }));
    // Growth
    let n: u64 = if tier == Tier::Thorough {
        300_000
    } else if f64like {
        70_000
    } else {
        3_000
    };
    type Shape = (&'static str, fn(u64) -> Edge);
    let shapes: [Shape; 4] = [
        ("column", |i| (5, i)),
        ("row", |i| (i, 5)),
        ("square", |i| (i % 271, i / 271)),
        ("spread", |i| (i << 40, i << 24)),
    ];
    for (shape, f) in shapes {
        v.push(job(format!("{name} growth {shape} n={n}"), move |ctx| {
            let mut a = S::new();
            let mut m: SM<S::T> = SM {
                dim: 0,
                e: BTreeMap::new(),
            };
            for phase in 0..4 {
                for i in 0..n {
                    if phase == 1 && i % 2 == 0 {
                        continue;
                    }
                    let (c, r) = f(i);
                    let op = match (phase, i % 3) {
                        (0, 0) => SOp::Inc(c, r),
                        (0, _) => SOp::Set(S::one(), c, r),
                        (2, _) => {
                            let old = m.e.get(&(c, r)).copied().unwrap_or(S::nought());
                            if S::succ(old).is_some() {
                                SOp::Inc(c, r)
                            } else {
                                SOp::Set(S::one(), c, r)
                            }
                        }
                        (_, 0) => SOp::Set(S::nought(), c, r),
                        _ => SOp::Zero(c, r),
                    };
                    let ok = ctx.case(
                        || format!("{name}: phase {phase}: {op:?}"),
                        || {
                            apply_s(&mut a, &op);
                            apply_sm::<S>(&mut m, &op);
                            ensure!(a.count() == m.e.len() as u64, "entry_count() is {}, expected {}", a.count(), m.e.len());
                            ensure!(a.dim() == m.dim, "dimension() is {}, expected {}", a.dim(), m.dim);
                            ensure!(S::same(a.get(c, r), m.e.get(&(c, r)).copied().unwrap_or(S::nought())), "get_entry({c}, {r}) is wrong");
                            Ok(())
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                }
                let ok = ctx.case(
                    || format!("{name} {shape}: everything after phase {phase}"),
                    || check_sq(&a, &m, &[0, 5, 7, 270, 271]),
                );
                if !ok {
                    return;
                }
            }
            ctx.stats.traces += 1;
        }));
    }
    // Many columns with gaps between them, some of them emptied again
    v.push(job(format!("{name} columns with gaps between them"), move |ctx| {
        for k in tier.pick(vec![5u64, 18, 40], vec![3, 5, 9, 18, 33, 40, 70, 130]) {
            for g in crate::gen::spread_families(&[k]).into_iter().filter(|g| !g.und) {
                for emptied in [0u64, 6, 20] {
                    let ok = ctx.case(
                        || format!("{name}: {}, {emptied} more columns emptied", g.show()),
                        || {
                            let mut a = S::new();
                            let mut m: SM<S::T> = SM { dim: 0, e: BTreeMap::new() };
                            let mut step = |op: SOp<S::T>| {
                                apply_s(&mut a, &op);
                                apply_sm::<S>(&mut m, &op);
                            };
                            for i in 0..emptied {
                                step(SOp::Set(S::one(), i * 7, 40));
                                step(SOp::Inc(i, i));
                            }
                            for (c, r) in &g.e {
                                step(if c % 2 == 0 { SOp::Zero(*c, *r) } else { SOp::Set(S::nought(), *c, *r) });
                                step(if (c ^ r) % 3 == 0 { SOp::Inc(*c, *r) } else { SOp::Set(S::one(), *c, *r) });
                            }
                            for i in 0..emptied {
                                step(SOp::Zero(i * 7, 40));
                                step(SOp::Set(S::nought(), i, i));
                            }
                            let mut ids: Vec<u64> = g.e.iter().take(4).chain(g.e.iter().rev().take(4)).flat_map(|e| [e.0, e.1]).collect();
                            ids.extend([0, 1, 7, 35, 40, u64::MAX]);
                            ids.sort_unstable();
                            ids.dedup();
                            check_sq(&a, &m, &ids)
                        },
                    );
                    if !ok {
                        return;
                    }
                    ctx.stats.transitions += 1;
                    ctx.stats.traces += 1;
                    ctx.distinct(g.hash64() ^ emptied);
                }
            }
        }
    }));
    // Interleaved iterators are covered by the graph's; here one iterator while another matrix changes
    v.push(job(format!("{name} emptied columns"), move |ctx| {
        for cols in 0..=6u64 {
            for emptied in 0..1u64 << cols {
                let ok = ctx.case(
                    || format!("{name}: {cols} columns, emptied {emptied:b}"),
                    || {
                        for style in 0..3 {
                            let mut a = S::new();
                            let mut m: SM<S::T> = SM {
                                dim: 0,
                                e: BTreeMap::new(),
                            };
                            let mut step = |op: SOp<S::T>| {
                                apply_s(&mut a, &op);
                                apply_sm::<S>(&mut m, &op);
                            };
                            for c in 0..cols {
                                step(SOp::Inc(c, (c * 5 + 1) % 7));
                                if c % 2 == 0 {
                                    step(SOp::Set(S::one(), c, 3));
                                }
                            }
                            for c in 0..cols {
                                if emptied >> c & 1 == 1 {
                                    for r in 0..7 {
                                        if style == 0 {
                                            step(SOp::Zero(c, r));
                                        } else {
                                            step(SOp::Set(S::nought(), c, r));
                                        }
                                    }
                                }
                            }
                            if style == 2 && cols > 0 {
                                step(SOp::Inc(0, 0));
                            }
                            check_sq(&a, &m, &[0, 1, 2, 3, 4, 5, 6, 7])?;
                        }
                        Ok(())
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 3;
                ctx.stats.traces += 3;
                ctx.distinct(cols << 32 | emptied);
            }
        }
    }));
}

pub fn c16(tier: Tier) -> Vec<Job> {
    let mut v = crate::deep::jobs(tier, &["square"]);
    for_all_types!(type_jobs, tier, &mut v);
    v.extend(crate::walks::square_jobs(tier));
    v.extend(crate::swaps::some_square_jobs(tier));
    v
}
