//! One object that is read between edits, for every property of something read from a graph: a
//! result kept from an earlier read must not come back after an edit.

use crate::engine::{job, mix, Job, Tier};
use crate::hist::*;
use crate::model::RG;
use crate::obs::*;
use graphrox::Graph;

/// Every edit sequence over the labels, read at every subset of the points between the edits and at
/// the end. Each variant of the read is used alone, and then all of them together.
pub fn live_jobs(v: &mut Vec<Job>, tier: Tier, what: &'static str, variants: usize, f: fn(&Graph, &RG, usize) -> Res) {
    for und in [false, true] {
        for labels in [vec![0u64, 1], vec![0, 9], vec![7, 8]] {
            for variant in 0..=variants {
                if variants == 1 && variant == 1 {
                    continue;
                }
                let labels = labels.clone();
                let depth = tier.pick(4, 5);
                v.push(job(format!("{what}: read between edits over {labels:?}, und={und}, variant {variant}"), move |ctx| {
                    let ops = graph_ops(&labels, false);
                    let mut idx = vec![0usize; depth];
                    loop {
                        let seq: Vec<&GOp> = idx.iter().map(|i| &ops[*i]).collect();
                        let mut m = RG::new(und);
                        seq.iter().for_each(|o| apply_m(&mut m, o));
                        ctx.stats.states += 1;
                        ctx.distinct(idx.iter().fold(mix(77 + variant as u64), |h, i| mix(h ^ *i as u64)));
                        for mask in 1..1u32 << (depth - 1) {
                            ctx.stats.traces += 1;
                            ctx.stats.transitions += depth as u64;
                            if !ctx.case(
                                || format!("und={und} {seq:?}, read after the steps with bits {mask:b}"),
                                || {
                                    let mut g = new_graph(und);
                                    for (i, o) in seq.iter().enumerate() {
                                        apply_g(&mut g, o);
                                        if i + 1 == depth || mask >> i & 1 == 1 {
                                            let q = as_queried(&g, &m);
                                            for k in 0..variants {
                                                if k == variant || variant == variants {
                                                    f(&g, &q, k).map_err(|e| format!("after step {}: {e}", i + 1))?;
                                                }
                                            }
                                        }
                                    }
                                    Ok(())
                                },
                            ) {
                                return;
                            }
                        }
                        let mut k = depth;
                        loop {
                            if k == 0 {
                                return;
                            }
                            k -= 1;
                            idx[k] += 1;
                            if idx[k] < ops.len() {
                                break;
                            }
                            idx[k] = 0;
                        }
                    }
                }));
            }
        }
    }
}
