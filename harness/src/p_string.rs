//! C17, C18: matrix strings, compared with an independently laid out grid of the cells that the
//! object itself reports.

use crate::engine::{job, mix, Ctx, Job, Tier};
use crate::gen;
use crate::hist::*;
use crate::model::{grid, Edge, RC, RG};
use crate::obs::*;
use crate::p_live::live_jobs;
use crate::p_derive::{by_hand, c_as_queried, family_jobs, graph_jobs};
use crate::sq::{for_all_types, Sq};
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;

/// Where two strings part, shown around the place.
pub fn same_text(what: &str, got: &str, want: &str) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got
        .bytes()
        .zip(want.bytes())
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    let cut = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[at.saturating_sub(60).min(b.len())..(at + 60).min(b.len())]).into_owned()
    };
    Err(format!(
        "{what}: {} and {} bytes long, differ from byte {at}: got ..{:?}.., expected ..{:?}..",
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    ))
}

// ---------------------------------------------------------------- C17

fn graph_text(what: &str, g: &Graph, m: &RG) -> Res {
    let q = as_queried(g, m);
    match g.matrix_string() {
        Ok(s) => same_text(what, &s, &q.matrix_string()),
        Err(e) => Err(format!("{what}: {e:?} ({})", q.show())),
    }
}

/// The matrix as its own entry queries describe it.
fn adj_as_queried(a: &CsrAdjacencyMatrix, like: &RG) -> RG {
    let mut q = RG::new(false);
    q.n = a.dimension();
    if q.n <= 48 {
        for c in 0..q.n {
            for r in 0..q.n {
                if a.get_entry(c, r) != 0 {
                    q.e.insert((c, r));
                }
            }
        }
    } else {
        q.e = like.e.iter().copied().filter(|(c, r)| a.get_entry(*c, *r) != 0).collect();
    }
    q
}

fn adj_text(a: &CsrAdjacencyMatrix, like: &RG) -> Res {
    let q = adj_as_queried(a, like).matrix_string();
    match a.try_to_string() {
        Ok(s) => same_text("try_to_string()", &s, &q)?,
        Err(e) => return Err(format!("try_to_string(): {e:?}")),
    }
    same_text("to_string()", &a.to_string(), &q)?;
    same_text("format!()", &format!("{a}"), &q)
}

fn adj_of(m: &RG) -> CsrAdjacencyMatrix {
    let mut a = CsrAdjacencyMatrix::new();
    for (c, r) in &m.e {
        a.set_entry(1, *c, *r);
    }
    if m.n > a.dimension() {
        a.set_entry(0, m.n - 1, 0);
    }
    a
}

fn c17_one(ctx: &mut Ctx, m: &RG) -> bool {
    if m.n > 5000 {
        return true;
    }
    if m.n > 200 && ctx.tier == Tier::Quick && m.e.len() > 2 && m.hash64() % 4 != 0 {
        return true;
    }
    if m.n > 1100 && (m.hash64() % 8 != 0 || ctx.tier == Tier::Quick) {
        return true;
    }
    ctx.stats.transitions += 4;
    ctx.stats.traces += 2;
    ctx.case(
        || m.show(),
        || {
            graph_text("matrix_string()", &build(m), m)?;
            if m.und {
                Ok(())
            } else {
                adj_text(&adj_of(m), m)
            }
        },
    )
}

pub fn c17(tier: Tier) -> Vec<Job> {
    let mut v = Vec::new();
    graph_jobs(&mut v, tier, "print", true, c17_one);
    family_jobs(&mut v, tier, "print", c17_one);
    // Every graph of 4 vertices, also in the quick tier
    if tier == Tier::Quick {
        for lo in (0..1u64 << 16).step_by(4096) {
            v.push(job(format!("print: directed n=4 graphs {lo}.."), move |ctx| {
                for mask in lo..lo + 4096 {
                    let m = gen::digraph(4, mask);
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                    if !c17_one(ctx, &m) {
                        return;
                    }
                }
            }));
        }
    }
    // Every dimension
    let max = tier.pick(300u64, 700);
    for lo in (0..max).step_by(20) {
        v.push(job(format!("print: dimensions {lo}..{}", lo + 20), move |ctx| {
            for n in lo..lo + 20 {
                let mut gs = vec![RG::with(false, n, []), RG::with(true, n, [])];
                if n > 0 {
                    gs.extend(gen::sparse_families(&[n]));
                }
                for m in gs {
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                    if !c17_one(ctx, &m) {
                        return;
                    }
                }
            }
        }));
    }
    // Wide matrices
    for n in [511u64, 512, 513, 1000, 1001, 1024, 1025, 1500, 2049] {
        for part in 0..2u64 {
            v.push(job(format!("print: dimension {n}, part {part}"), move |ctx| {
                let ends = [0, 1, 63, 64, 65, 255, 256, 257, n / 2, n - 65, n - 64, n - 2, n - 1];
                let gs = match part {
                    0 => vec![
                        RG::with(true, n, (0..n - 1).map(|i| (i, i + 1)).collect::<Vec<_>>()),
                        RG::with(false, n, (0..n).map(|i| (i, (i * 64 + 1) % n)).collect::<Vec<_>>()),
                    ],
                    _ => vec![
                        RG::with(false, n, ends.iter().flat_map(|a| ends.map(|b| (*a, b))).collect::<Vec<_>>()),
                        RG::with(true, n, [(n - 1, 0)]),
                    ],
                };
                for m in gs {
                    ctx.stats.states += 1;
                    ctx.distinct(m.hash64());
                    if !c17_one(ctx, &m) {
                        return;
                    }
                }
            }));
        }
    }
    // One edge at every position
    for n in tier.pick(vec![5u64, 9, 17], vec![5, 9, 17, 33, 65]) {
        v.push(job(format!("print: one edge at every position, n={n}"), move |ctx| {
            for a in 0..n {
                for b in 0..n {
                    for und in [false, true] {
                        let m = RG::with(und, n, [(a, b)]);
                        ctx.stats.states += 1;
                        ctx.distinct(m.hash64());
                        if !c17_one(ctx, &m) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // After histories: every state within some steps of the empty graph
    for und in [false, true] {
        for labels in [vec![0u64, 1], vec![0, 1, 2], vec![0, 8], vec![7, 9]] {
            let depth = if labels.len() == 3 { tier.pick(3, 4) } else { tier.pick(4, 6) };
            v.push(job(format!("print after histories over {labels:?} und={und}"), move |ctx| {
                print_histories(ctx, und, &labels, depth)
            }));
        }
    }
    live_jobs(&mut v, tier, "print", 1, |g, _, _| {
        let q = RG { und: g.is_undirected(), n: g.vertex_count(), e: Default::default() };
        graph_text("matrix_string()", g, &q)
    });
    v
}

fn print_histories(ctx: &mut Ctx, und: bool, labels: &[u64], depth: usize) {
    let ops = graph_ops(labels, false);
    let mut idx = vec![0usize; depth];
    loop {
        let seq: Vec<&GOp> = idx.iter().map(|i| &ops[*i]).collect();
        let mut m = RG::new(und);
        for o in &seq {
            apply_m(&mut m, o);
        }
        ctx.stats.states += 1;
        ctx.stats.traces += 1;
        ctx.stats.transitions += depth as u64;
        ctx.distinct(idx.iter().fold(depth as u64, |h, i| mix(h ^ *i as u64)));
        if !ctx.case(
            || format!("und={und} {seq:?}"),
            || {
                let mut g = new_graph(und);
                for (i, o) in seq.iter().enumerate() {
                    apply_g(&mut g, o);
                    // Printing in between, too: the last string must not be an earlier one
                    if i + 2 >= seq.len() {
                        graph_text("matrix_string()", &g, &m)?;
                    }
                }
                graph_text("matrix_string() again", &g, &m)
            },
        ) {
            return;
        }
        let mut k = depth;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < ops.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

// ---------------------------------------------------------------- C18

/// The string the matrix's own entries call for.
fn want_text<M: Sq>(a: &M, digits: usize) -> String {
    let mut cells: BTreeMap<Edge, String> = BTreeMap::new();
    let zero = M::written(M::nought(), digits);
    for c in 0..a.dim() {
        for r in 0..a.dim() {
            let v = a.get(c, r);
            if v != M::nought() {
                let mut s = M::written(v, digits);
                // Infinities are the only entries that may be written shorter than a zero. Whether
                // columns of nothing else are as wide as a zero is not specified: as the code has it.
                if s.len() < zero.len() {
                    s = format!("{s:>0$}", zero.len());
                }
                cells.insert((c, r), s);
            }
        }
    }
    grid(a.dim(), &cells, &zero)
}

fn check_text<M: Sq>(a: &M, digits: &[usize]) -> Res {
    for d in digits {
        match a.text(*d) {
            Ok(s) => same_text(
                &format!("to_string_with_precision({d}) of a {} matrix", M::NAME),
                &s,
                &want_text(a, *d),
            )?,
            Err(e) => return Err(format!("to_string_with_precision({d}): {e:?}")),
        }
    }
    same_text(
        &format!("to_string() of a {} matrix", M::NAME),
        &a.display(),
        &want_text(a, if M::FLOAT { 2 } else { 0 }),
    )
}

fn matrix<M: Sq>(dim: u64, cells: &[(M::T, u64, u64)]) -> M {
    let mut a = M::new();
    for (v, c, r) in cells {
        a.set(*v, *c, *r);
    }
    if dim > a.dim() {
        a.set(M::nought(), dim - 1, 0);
    }
    a
}

const DIGITS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 16, 17, 18, 19, 20, 21, 25, 50];

fn singles<M: Sq>(v: &mut Vec<Job>, tier: Tier) {
    v.push(job(format!("{}: one value", M::NAME), move |ctx| {
        let places: &[(u64, u64, u64)] = &[(1, 0, 0), (2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (3, 1, 2), (3, 2, 1), (9, 8, 0)];
        for x in M::lattice() {
            for (i, (dim, c, r)) in places.iter().enumerate() {
                let digits: &[usize] = if i == 0 || i == 3 || tier == Tier::Thorough { DIGITS } else { &[0, 1, 2, 3] };
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += digits.len() as u64 + 1;
                ctx.distinct(crate::engine::hash_str(&format!("{x:?} {i}")));
                if !ctx.case(
                    || format!("{x:?} at column {c}, row {r} of {dim}, digits {digits:?}"),
                    || check_text::<M>(&matrix::<M>(*dim, &[(x, *c, *r)]), digits),
                ) {
                    return;
                }
            }
        }
    }));
    v.push(job(format!("{}: many digits", M::NAME), move |ctx| {
        let long: Vec<usize> = match tier {
            Tier::Quick => vec![100, 255, 256, 307, 308, 324, 400, 1000, 1073, 1074, 1075, 1076, 1100, 1200, 4096, 32767, 65534, 65535, 65536, 65537, 70000],
            Tier::Thorough => (60..1300).step_by(7).chain([1074, 1075, 2000, 4096, 32767, 65534, 65535, 65536, 65537, 100000, 1 << 20]).collect(),
        };
        let all = M::lattice();
        for (i, x) in all.iter().enumerate() {
            if tier == Tier::Quick && all.len() > 70 && i % 3 != 0 {
                continue;
            }
            ctx.stats.states += 1;
            ctx.stats.traces += 1;
            ctx.stats.transitions += long.len() as u64;
            ctx.distinct(crate::engine::hash_str(&format!("{x:?}")));
            if !ctx.case(
                || format!("{x:?} alone, digits {long:?}"),
                || check_text::<M>(&matrix::<M>(1, &[(*x, 0, 0)]), &long),
            ) {
                return;
            }
            if !ctx.case(
                || format!("{x:?} beside zeros, digits 65536 and 1074"),
                || check_text::<M>(&matrix::<M>(2, &[(*x, 1, 0)]), &[65536, 1074]),
            ) {
                return;
            }
        }
    }));
}

fn pairs<M: Sq>(v: &mut Vec<Job>, tier: Tier) {
    v.push(job(format!("{}: every pair of values", M::NAME), move |ctx| {
        let all = M::lattice();
        let digits: &[usize] = tier.pick(&[0, 2, 5], &[0, 1, 2, 3, 4, 5, 9, 17]);
        for (i, x) in all.iter().enumerate() {
            for (j, y) in all.iter().enumerate() {
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += digits.len() as u64 + 1;
                ctx.distinct((i * 1000 + j) as u64);
                if !ctx.case(
                    || format!("{x:?} at (0, 0) and {y:?} at (0, 1)"),
                    || {
                        check_text::<M>(&matrix::<M>(2, &[(*x, 0, 0), (*y, 0, 1)]), digits)?;
                        // No zero left anywhere
                        check_text::<M>(
                            &matrix::<M>(2, &[(*x, 0, 0), (*y, 0, 1), (*y, 1, 0), (*x, 1, 1)]),
                            &digits[..2],
                        )
                    },
                ) {
                    return;
                }
            }
        }
    }));
}

fn shapes<M: Sq>(v: &mut Vec<Job>, tier: Tier) {
    v.push(job(format!("{}: dimensions and positions", M::NAME), move |ctx| {
        let values = M::values();
        let digits: &[usize] = &[0, 1, 2, 7];
        if !ctx.case(|| "no entries".into(), || check_text::<M>(&M::new(), digits)) {
            return;
        }
        for dim in 1..tier.pick(12u64, 20) {
            for c in 0..dim {
                for r in 0..dim {
                    for x in values.iter().take(if dim < 5 { 99 } else { 4 }) {
                        ctx.stats.states += 1;
                        ctx.stats.traces += 1;
                        ctx.stats.transitions += digits.len() as u64;
                        ctx.distinct(crate::engine::hash_str(&format!("{x:?} {dim} {c} {r}")));
                        if !ctx.case(
                            || format!("{x:?} at column {c}, row {r} of {dim}"),
                            || check_text::<M>(&matrix::<M>(dim, &[(*x, c, r)]), digits),
                        ) {
                            return;
                        }
                    }
                }
            }
        }
        for dim in [16u64, 17, 31, 32, 33, 64, 100, 101, 128, 255, 256, 257] {
            let all = M::lattice();
            for step in [1u64, 7] {
                let cells: Vec<(M::T, u64, u64)> = (0..dim * dim)
                    .step_by(step as usize)
                    .enumerate()
                    .take(2000)
                    .map(|(k, i)| (all[k % all.len()], i % dim, i / dim))
                    .collect();
                ctx.stats.states += 1;
                ctx.stats.traces += 1;
                ctx.stats.transitions += 3;
                if !ctx.case(
                    || format!("{} values of the lattice over dimension {dim}", cells.len()),
                    || check_text::<M>(&matrix::<M>(dim, &cells), &[0, 3]),
                ) {
                    return;
                }
            }
        }
    }));
    for dim in [511u64, 513, 1000, 1001, 1025, 1300, 2049] {
        if dim > 1025 && tier == Tier::Quick && !["f64", "u8", "i128"].contains(&M::NAME) {
            continue;
        }
        v.push(job(format!("{}: dimension {dim}", M::NAME), move |ctx| {
            let all = M::values();
            let ends = [0, 1, 255, 256, 257, dim / 2, dim - 2, dim - 1];
            let cells: Vec<(M::T, u64, u64)> = (0..dim)
                .map(|i| (i * 131 % dim, i))
                .chain(ends.iter().flat_map(|a| ends.map(|b| (*a, b))))
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .enumerate()
                .map(|(k, (c, r))| (all[k % all.len().min(4)], c, r))
                .collect();
            ctx.stats.states += 1;
            ctx.stats.traces += 1;
            ctx.stats.transitions += 2;
            ctx.case(
                || format!("{} values over dimension {dim}", cells.len()),
                || check_text::<M>(&matrix::<M>(dim, &cells), &[0, 2]),
            );
            if dim > 1025 || dim > 513 && !["f64", "u32", "i128"].contains(&M::NAME) {
                return;
            }
            // One that is wide among many that are not, met early or late
            let lattice = M::lattice();
            let width = |x: &M::T| Some(x.to_string().len()).filter(|n| *n <= 12);
            let wide = *lattice.iter().filter(|x| width(x).is_some()).max_by_key(|x| width(x)).unwrap();
            let narrow = *lattice.iter().filter(|x| x.to_string() != "0").min_by_key(|x| x.to_string().len()).unwrap();
            for at in [(0, 1), (3, 0), (dim / 2, dim / 3), (dim - 1, dim - 2)] {
                for spread in [1, 0] {
                    let mut cells: Vec<(M::T, u64, u64)> = (0..dim).map(|i| (narrow, i, i * spread)).collect();
                    cells.push((wide, at.0, at.1));
                    ctx.stats.states += 1;
                    ctx.stats.traces += 1;
                    ctx.stats.transitions += 1;
                    ctx.case(
                        || format!("{wide:?} at {at:?} among {dim} of {narrow:?}"),
                        || check_text::<M>(&matrix::<M>(dim, &cells), &[0]),
                    );
                }
            }
        }));
    }
    v.push(job(format!("{}: read between settings", M::NAME), move |ctx| {
        // One matrix, printed the same way at every subset of the points between four steps
        let mut vals = M::values();
        vals.truncate(tier.pick(3, 4));
        vals.push(M::nought());
        let cells = [(0u64, 0u64), (1, 0), (2, 1)];
        let mut steps: Vec<(Option<M::T>, u64, u64)> = Vec::new();
        for (c, r) in cells {
            steps.extend(vals.iter().skip(1).map(|x| (Some(*x), c, r)));
            steps.push((None, c, r));
        }
        let n = steps.len();
        for i in 0..n.pow(4) {
            let seq = [i % n, i / n % n, i / n / n % n, i / n / n / n].map(|k| steps[k]);
            ctx.stats.states += 1;
            ctx.distinct(mix(i as u64 + 9));
            for mask in 1..8 {
                for digits in [0, 2] {
                    ctx.stats.traces += 1;
                    ctx.stats.transitions += 4;
                    if !ctx.case(
                        || format!("{seq:?} (None: increment), printed with {digits} digits after the steps with bits {mask:b}"),
                        || {
                            let mut a = M::new();
                            for (k, (x, c, r)) in seq.iter().enumerate() {
                                match x {
                                    Some(x) => a.set(*x, *c, *r),
                                    None if M::low(a.get(*c, *r)) => a.inc(*c, *r),
                                    None => {}
                                }
                                if k == 3 || mask >> k & 1 == 1 {
                                    match a.text(digits) {
                                        Ok(s) => same_text("to_string_with_precision()", &s, &want_text(&a, digits))?,
                                        Err(e) => return Err(format!("to_string_with_precision({digits}): {e:?}")),
                                    }
                                }
                            }
                            check_text::<M>(&a, &[0])
                        },
                    ) {
                        return;
                    }
                }
            }
        }
    }));
    v.push(job(format!("{}: after overwriting and zeroing", M::NAME), move |ctx| {
        // All histories of three settings over two cells: widths shrink again
        let mut vals = M::values();
        vals.truncate(tier.pick(6, 8));
        let cells = [(0u64, 0u64), (1, 0), (2, 1)];
        let n = vals.len() * cells.len();
        for i in 0..n * n * n {
            let seq: Vec<(M::T, u64, u64)> = [i % n, i / n % n, i / n / n]
                .iter()
                .map(|k| (vals[k % vals.len()], cells[k / vals.len()].0, cells[k / vals.len()].1))
                .collect();
            ctx.stats.states += 1;
            ctx.stats.traces += 1;
            ctx.stats.transitions += 3;
            ctx.distinct(i as u64);
            if !ctx.case(
                || format!("set {seq:?}, then the first zeroed"),
                || {
                    let mut a: M = matrix::<M>(0, &seq);
                    check_text::<M>(&a, &[0, 3])?;
                    a.zero(seq[0].1, seq[0].2);
                    check_text::<M>(&a, &[1])?;
                    if M::low(a.get(seq[1].1, seq[1].2)) {
                        a.inc(seq[1].1, seq[1].2);
                    }
                    check_text::<M>(&a, &[0])
                },
            ) {
                return;
            }
        }
    }));
}

fn compressed_text(c: &CompressedGraph, like: &RC) -> Res {
    let q = c_as_queried(c, like);
    match c.matrix_string() {
        Ok(s) => same_text("matrix_string() of a compressed graph", &s, &q.matrix_string()),
        Err(e) => Err(format!("matrix_string() of a compressed graph: {e:?}")),
    }
}

fn c18_graph(ctx: &mut Ctx, m: &RG) -> bool {
    if m.n > 900 {
        return true;
    }
    ctx.stats.traces += 1;
    for level in [1u8, 2, 3, 8, 64] {
        ctx.stats.transitions += 1;
        if !ctx.case(
            || format!("{} compressed at {level}", m.show()),
            || {
                let c = build(m).compress(level);
                compressed_text(&c, &m.compress(level))
            },
        ) {
            return false;
        }
    }
    for b in [1u64, 2, 3, 7, 8] {
        let digits: &[usize] = &[0, 1, 2, 3, 17];
        if m.n > 60 || m.n == 0 {
            continue;
        }
        ctx.stats.transitions += 6;
        if !ctx.case(
            || format!("{} pooled by {b}", m.show()),
            || check_text(&build(m).find_avg_pool_matrix(b), digits),
        ) {
            return false;
        }
    }
    true
}

pub fn c18(tier: Tier) -> Vec<Job> {
    let mut v = crate::swaps::some_square_jobs(tier);
    fn each<M: Sq>(v: &mut Vec<Job>, tier: Tier) {
        singles::<M>(v, tier);
        pairs::<M>(v, tier);
        shapes::<M>(v, tier);
    }
    for_all_types!(each, &mut v, tier);
    family_jobs(&mut v, tier, "blocks printed", c18_graph);
    graph_jobs(&mut v, tier, "blocks printed", false, c18_graph);
    for i in 0..64u64 {
        v.push(job(format!("compressed: bit {i} with others"), move |ctx| {
            for j in 0..64u64 {
                for pos in [(0u64, 0u64), (1, 0), (0, 1), (2, 2), (4, 9)] {
                    for bits in [1u64 << i | 1 << j, !(1u64 << i | 1 << j), (1u64 << i).wrapping_sub(1) | 1 << j] {
                        let mut rc = RC {
                            und: false,
                            n: (pos.0.max(pos.1) + 1) * 8,
                            level: 1,
                            blocks: [(pos, bits)].into(),
                        };
                        if j % 4 == 1 {
                            rc.blocks.insert((0, pos.1), 10u64.pow((j / 4) as u32));
                        }
                        ctx.stats.states += 1;
                        ctx.stats.traces += 1;
                        ctx.stats.transitions += 1;
                        ctx.distinct(mix(bits) ^ pos.0 ^ pos.1 << 9);
                        if !ctx.case(|| rc.show(), || compressed_text(&by_hand(&rc), &rc)) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // Every pooled fraction k/b^2
    let maxb = tier.pick(9u64, 16);
    for b in 1..=maxb {
        v.push(job(format!("pooled fractions of {b}x{b} blocks"), move |ctx| {
            for k in 0..=b * b {
                for extra in [0, 1, 2 * b] {
                    let m = RG::with(false, b + extra, (0..k).map(|i| (i % b, i / b)));
                    ctx.stats.states += 1;
                    ctx.stats.traces += 1;
                    ctx.stats.transitions += 10;
                    ctx.distinct(b << 20 | k << 4 | extra);
                    if !ctx.case(
                        || format!("{k} edges in a block of {b}x{b}, {extra} more vertices"),
                        || check_text(&build(&m).find_avg_pool_matrix(b), &[0, 1, 2, 3, 4, 5, 10, 16, 17, 20]),
                    ) {
                        return;
                    }
                }
            }
        }));
    }
    v
}
