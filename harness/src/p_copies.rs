//! C20 for the objects that are not derived from a graph: compressed graphs built by hand or loaded
//! (whose blocks may hold fewer edges than their level), and numeric and adjacency matrices.

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::model::RC;
use crate::obs::*;
use crate::p_derive::{by_hand, symmetrise, transpose};
use crate::p_matrix::{apply_s as apply_any, sq_ops, SOp};
use crate::reads::{records, show_compressed, show_graph};
use crate::sq::{for_all_types, Sq};
use graphrox::{CompressedGraph, GraphRepresentation};

/// Without increments that leave the range of the type, which are not specified
fn apply_s<S: Sq>(a: &mut S, op: &SOp<S::T>) {
    match op {
        SOp::Inc(c, r) if !S::low(a.get(*c, *r)) => {}
        _ => apply_any(a, op),
    }
}


/// Every read of a compressed graph, by number
const READS: usize = 9;

fn read(c: &CompressedGraph, rc: &RC, which: usize) -> String {
    match which {
        0 => format!("{} {} {} {}", c.is_undirected(), c.vertex_count(), c.edge_count(), c.compression_level()),
        1 => match c.to_bytes() {
            Ok(b) => records(&b, 42, 24),
            Err(e) => format!("{e:?}"),
        },
        2 => rc.blocks.keys().map(|(x, y)| format!("{:x} {:x} ", c.get_compressed_matrix_entry(*x, *y), c.get_compressed_matrix_entry(*y, *x))).collect(),
        3 => show_compressed(c, true),
        4 => show_graph(&c.decompress()),
        5 => rc.edges().iter().map(|(a, b)| format!("{}{}", c.does_edge_exist(*a, *b) as u8, c.does_edge_exist(*b, *a) as u8)).collect(),
        6 => format!("{:?}", (c.vertex_count() < 200).then(|| c.matrix_string())),
        7 => show_compressed(&c.clone(), false),
        _ => match c.to_bytes().map(|b| CompressedGraph::try_from(b.as_slice())) {
            Ok(Ok(l)) => show_compressed(&l, false),
            e => format!("{}", e.is_ok()),
        },
    }
}

fn all(c: &CompressedGraph, rc: &RC) -> Vec<String> {
    (0..READS).map(|k| read(c, rc, k)).collect()
}

fn same(what: &str, got: &[String], want: &[String]) -> Res {
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "{what}: read {k} gives {g}, expected {w}");
    }
    Ok(())
}

fn compressed(ctx: &mut Ctx, rc: &RC) -> bool {
    ctx.stats.states += 1;
    ctx.stats.transitions += 5 + (READS * READS) as u64;
    ctx.stats.traces += 1;
    ctx.case(
        || format!("copies and reads of {}", rc.show()),
        || {
            for origin in ["by hand", "loaded"] {
                let make = || -> Option<CompressedGraph> {
                    let c = by_hand(rc);
                    if origin == "by hand" {
                        return Some(c);
                    }
                    CompressedGraph::try_from(c.to_bytes().ok()?.as_slice()).ok()
                };
                let Some(c) = make() else { continue };
                let want = all(&c, rc);
                same(&format!("{origin}: everything again"), &all(&c, rc), &want)?;
                // Any read, then any other, on an object nothing has read
                for first in 0..READS {
                    let Some(o) = make() else { break };
                    read(&o, rc, first);
                    same(&format!("{origin}: after read {first}"), &all(&o, rc), &want)?;
                }
                let b = c.clone();
                same(&format!("{origin}: clone"), &all(&b, rc), &want)?;
                let cc = b.clone();
                drop(b);
                same(&format!("{origin}: clone of a clone that is gone"), &all(&cc, rc), &want)?;
                let mut d = by_hand(&RC { und: !rc.und, n: 50, level: 3, blocks: [((1, 1), 0xff00)].into() });
                d.clone_from(&c);
                same(&format!("{origin}: cloned over another"), &all(&d, rc), &want)?;
                // Edits of what is decompressed do not show
                let mut g = c.decompress();
                g.add_edge(1, 2);
                for (x, y) in rc.edges().into_iter().take(3) {
                    g.delete_edge(x, y);
                }
                same(&format!("{origin}: after edits of the decompressed graph"), &all(&c, rc), &want)?;
                drop(c);
                same(&format!("{origin}: clone whose original is gone"), &all(&cc, rc), &want)?;
            }
            Ok(())
        },
    )
}

fn show<S: Sq>(a: &S) -> String {
    let mut e: Vec<String> = a.entries().iter().map(|(v, c, r)| format!("({c}, {r}) {v} {}", a.get(*c, *r))).collect();
    e.sort_unstable();
    let text = if a.dim() < 20 { format!("{:?} {}", a.text(1), a.display()) } else { String::new() };
    format!("{} {} {e:?} {text}", a.dim(), a.count())
}

fn matrices<S: Sq>(tier: Tier, v: &mut Vec<Job>) {
    let name = S::NAME;
    for labels in [[0u64, 9], [8, u64::MAX - 1]] {
        v.push(job(format!("{name} matrices and their copies over {labels:?}"), move |ctx| {
            let vals: Vec<S::T> = S::values().into_iter().take(tier.pick(3, 5)).collect();
            let ops = sq_ops::<S>(&labels, &vals);
            let n = ops.len();
            for x in 0..n * n {
                let hist = [&ops[x % n], &ops[x / n]];
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += 2 * n as u64;
                ctx.distinct(mix(x as u64) ^ labels[0]);
                if !ctx.case(
                    || format!("{name} matrix with {hist:?}, copied, either edited"),
                    || {
                        let make = || {
                            let mut a = S::new();
                            hist.iter().for_each(|o| apply_s(&mut a, o));
                            a
                        };
                        let a = make();
                        let was = show(&a);
                        ensure!(show(&a) == was, "reading again gives {}, expected {was}", show(&a));
                        let mut over = S::new();
                        over.set(S::one(), 3, 5);
                        over.set(S::one(), 9, 9);
                        over.clone_from(&a);
                        for (what, copy) in [("clone", a.clone()), ("clone of a clone", a.clone().clone()), ("cloned over another", over)] {
                            ensure!(show(&copy) == was, "{what}: {}, expected {was}", show(&copy));
                            for op in &ops {
                                if matches!(op, SOp::Inc(c, r) if !S::low(a.get(*c, *r)) || S::succ(a.get(*c, *r)).is_none()) {
                                    continue;
                                }
                                let (mut p, mut q) = (make(), copy.clone());
                                apply_s(&mut p, op);
                                let now = show(&p);
                                ensure!(show(&copy) == was, "{what}: {op:?} on the original changed it to {}", show(&copy));
                                apply_s(&mut q, op);
                                ensure!(show(&q) == now, "{what}: after {op:?} it is {}, the original {now}", show(&q));
                                ensure!(show(&a) == was, "{what}: {op:?} on it changed the original to {}", show(&a));
                            }
                        }
                        Ok(())
                    },
                ) {
                    return;
                }
            }
        }));
    }
}

pub fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    for level in 1..=64u8 {
        v.push(job(format!("compressed graphs at level {level} by hand or loaded, copied"), move |ctx| {
            for k in [1u32, 2, 3, 8, 31, 32, 33, 62, 63, 64, u32::from(level), (u32::from(level) + 1).min(64), (u32::from(level) - 1).max(1)] {
                for und in [false, true] {
                    let bits = u64::MAX >> (64 - k);
                    let mut blocks = vec![(bits | transpose(bits) * u64::from(und), 0, 0), (bits, 0, 1), (bits << (64 - k), 2, 1)];
                    if und {
                        symmetrise(&mut blocks);
                    }
                    for n in [24u64, 31, 1 << 40] {
                        let rc = RC { und, n, level, blocks: blocks.iter().map(|(v, c, r)| ((*c, *r), *v)).collect() };
                        ctx.distinct(mix(u64::from(k)) ^ n ^ u64::from(level) << 8 ^ u64::from(und));
                        if !compressed(ctx, &rc) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    for_all_types!(matrices, tier, &mut v);
    v
}
