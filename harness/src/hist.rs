//! Exploration of operation histories on real objects: breadth-first search to closure with
//! hidden-state-aware deduplication, and exhaustive sequences without deduplication.

use crate::engine::{hash_str, mix, Ctx, IdSet};
use crate::model::RG;
use crate::obs::{debug_key, Res};
use graphrox::Graph;
use std::fmt::Debug;

pub trait Sys: Send + Sync + 'static {
    type Op: Clone + Debug + Send + Sync;
    type Model: Clone + Debug;
    type Real: Debug;
    fn ops(&self) -> Vec<Self::Op>;
    fn real(&self) -> Self::Real;
    fn model(&self) -> Self::Model;
    fn apply(&self, r: &mut Self::Real, op: &Self::Op);
    fn apply_model(&self, m: &mut Self::Model, op: &Self::Op);
    fn enabled(&self, _m: &Self::Model, _op: &Self::Op) -> bool {
        true
    }
    fn check(&self, r: &Self::Real, m: &Self::Model) -> Res;
    fn model_key(&self, m: &Self::Model) -> u64 {
        hash_str(&format!("{m:?}"))
    }
}

fn at(step: &str, r: Res) -> Res {
    r.map_err(|e| format!("{step}: {e}"))
}

/// Breadth-first search. Every transition is executed twice on a fresh object: reading only at the
/// end, and reading before the operation too.
pub fn bfs<S: Sys>(ctx: &mut Ctx, s: &S, max_depth: usize, max_states: usize) {
    let ops = s.ops();
    let mut seen = IdSet::default();
    let m0 = s.model();
    seen.insert(mix(s.model_key(&m0)) ^ debug_key(&s.real()));
    let mut frontier: Vec<(Vec<u16>, S::Model)> = vec![(Vec::new(), m0)];
    ctx.stats.states += 1;
    let mut depth = 0;
    let mut closed = true;
    while !frontier.is_empty() {
        if depth == max_depth || seen.len() >= max_states {
            closed = false;
            break;
        }
        depth += 1;
        let mut next = Vec::new();
        for (hist, model) in &frontier {
            for (i, op) in ops.iter().enumerate() {
                if !s.enabled(model, op) {
                    continue;
                }
                let mut m = model.clone();
                s.apply_model(&mut m, op);
                let mut key = 0;
                let ok = ctx.case(
                    || {
                        let h: Vec<_> = hist.iter().map(|i| &ops[*i as usize]).collect();
                        format!("history {h:?} then {op:?}")
                    },
                    || {
                        let mut r = s.real();
                        for h in hist {
                            s.apply(&mut r, &ops[*h as usize]);
                        }
                        s.apply(&mut r, op);
                        at("reading only at the end", s.check(&r, &m))?;
                        at("reading again", s.check(&r, &m))?;
                        key = debug_key(&r);
                        let mut r = s.real();
                        for h in hist {
                            s.apply(&mut r, &ops[*h as usize]);
                        }
                        at("before the last step", s.check(&r, model))?;
                        s.apply(&mut r, op);
                        at("having read before the last step", s.check(&r, &m))
                    },
                );
                if !ok {
                    return;
                }
                ctx.stats.transitions += 1;
                ctx.stats.traces += 2;
                let k = mix(s.model_key(&m)) ^ key;
                if seen.insert(k) {
                    ctx.stats.states += 1;
                    ctx.distinct(k);
                    let mut h = hist.clone();
                    h.push(i as u16);
                    next.push((h, m));
                }
            }
        }
        frontier = next;
    }
    ctx.note(if closed { "searches_closed" } else { "searches_cut_at_bound" }, 1);
}

/// Every sequence of exactly `depth` operations, without deduplication, with the object read at
/// every subset of the intermediate points.
pub fn sequences<S: Sys>(ctx: &mut Ctx, s: &S, depth: usize, first: Option<usize>) {
    let ops = s.ops();
    let n = ops.len();
    let mut seq = vec![0usize; depth];
    if let Some(f) = first {
        seq[0] = f;
    }
    loop {
        let mut models = vec![s.model()];
        let mut ok = true;
        for i in &seq {
            let mut m = models.last().unwrap().clone();
            ok &= s.enabled(&m, &ops[*i]);
            s.apply_model(&mut m, &ops[*i]);
            models.push(m);
        }
        if ok {
            for mask in 0..1u32 << (depth - 1) {
                if !ctx.case(
                    || {
                        let h: Vec<_> = seq.iter().map(|i| &ops[*i]).collect();
                        format!("sequence {h:?}, read after steps with bits {mask:b}")
                    },
                    || {
                        let mut r = s.real();
                        for (k, i) in seq.iter().enumerate() {
                            s.apply(&mut r, &ops[*i]);
                            if k + 1 == depth || mask >> k & 1 == 1 {
                                at(&format!("after step {}", k + 1), s.check(&r, &models[k + 1]))?;
                            }
                        }
                        Ok(())
                    },
                ) {
                    return;
                }
                ctx.stats.traces += 1;
            }
            ctx.stats.transitions += 1;
            ctx.distinct(seq.iter().fold(3, |h, i| mix(h ^ *i as u64)));
        }
        // Next sequence
        let mut p = depth;
        let low = usize::from(first.is_some());
        loop {
            if p == low {
                return;
            }
            p -= 1;
            seq[p] += 1;
            if seq[p] < n {
                break;
            }
            seq[p] = 0;
        }
    }
}

// ---------------------------------------------------------------- the graph as such a system

#[derive(Clone, Debug, PartialEq)]
pub enum GOp {
    AddEdge(u64, u64),
    DeleteEdge(u64, u64),
    AddVertex(u64),
    AddVertexWith(u64, Vec<u64>),
}

pub fn apply_g(g: &mut Graph, op: &GOp) {
    match op {
        GOp::AddEdge(a, b) => g.add_edge(*a, *b),
        GOp::DeleteEdge(a, b) => g.delete_edge(*a, *b),
        GOp::AddVertex(v) => g.add_vertex(*v, None),
        GOp::AddVertexWith(v, l) => g.add_vertex(*v, Some(l)),
    }
}

pub fn apply_m(g: &mut RG, op: &GOp) {
    match op {
        GOp::AddEdge(a, b) => g.add_edge(*a, *b),
        GOp::DeleteEdge(a, b) => g.delete_edge(*a, *b),
        GOp::AddVertex(v) => g.add_vertex(*v, None),
        GOp::AddVertexWith(v, l) => g.add_vertex(*v, Some(l)),
    }
}

pub type GCheck = fn(&Graph, &RG, &[u64]) -> Res;

pub struct GraphSys {
    pub und: bool,
    pub labels: Vec<u64>,
    pub ops: Vec<GOp>,
    pub check: GCheck,
}

impl Sys for GraphSys {
    type Op = GOp;
    type Model = RG;
    type Real = Graph;
    fn ops(&self) -> Vec<GOp> {
        self.ops.clone()
    }
    fn real(&self) -> Graph {
        new_graph(self.und)
    }
    fn model(&self) -> RG {
        RG::new(self.und)
    }
    fn apply(&self, r: &mut Graph, op: &GOp) {
        apply_g(r, op)
    }
    fn apply_model(&self, m: &mut RG, op: &GOp) {
        apply_m(m, op)
    }
    fn check(&self, r: &Graph, m: &RG) -> Res {
        (self.check)(r, m, &crate::obs::probes(&self.labels, m))
    }
    fn model_key(&self, m: &RG) -> u64 {
        m.hash64()
    }
}

pub fn new_graph(und: bool) -> Graph {
    if und {
        Graph::new_undirected()
    } else {
        Graph::new_directed()
    }
}

/// The editing alphabet over the labels: every edge added and deleted, every vertex added, and,
/// if `lists`, vertices added with every edge list of length 0, 1 and 2 over the labels.
pub fn graph_ops(labels: &[u64], lists: bool) -> Vec<GOp> {
    let mut v = Vec::new();
    for a in labels {
        for b in labels {
            v.push(GOp::AddEdge(*a, *b));
            v.push(GOp::DeleteEdge(*a, *b));
        }
        v.push(GOp::AddVertex(*a));
        if lists {
            v.push(GOp::AddVertexWith(*a, vec![]));
            for b in labels {
                v.push(GOp::AddVertexWith(*a, vec![*b]));
                for c in labels {
                    v.push(GOp::AddVertexWith(*a, vec![*b, *c]));
                }
            }
        }
    }
    v
}
