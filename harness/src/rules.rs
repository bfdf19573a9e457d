//! What each check enumerates and what it takes for granted, for the evidence files.

pub const RULE_TEXT: &[(&str, &str)] = &[
    ("C01", "Case: one transition of the breadth-first search over edit histories (the whole history is replayed on a fresh graph and compared with a set of vertex pairs), or one whole sequence without state merging, or one long scripted history. Non-trivial and distinct: a different (model, object) state or operation sequence that reaches a graph with at least one operation applied."),
    ("C02", "Case: one reachable state of the search (or family graph) whose neighbour lists, degrees and iteration are compared with the edge set, rebuilt until its iteration orders repeat. Distinct: by model and object state."),
    ("C03", "Case: one undirected graph or compressed graph obtained by one of the producing calls (editing, from a matrix, from bytes, approximating, compressing, decompressing, cloning), every pair checked for symmetry. Distinct: by the history or content that produced it."),
    ("C04", "Case: one adjacency matrix (every 0/1 content up to the size bound, every small history, families) converted by both constructors. Distinct: by matrix content."),
    ("C05", "Case: one graph saved and loaded, all queries compared. Distinct: by graph content (kind, vertex count, edges)."),
    ("C06", "Case: one byte string given to the graph loader and judged by an independent decoder (accept exactly the well-formed ones, same graph, allocations bounded). Faults: truncation at every length, extension, every byte replaced, every pair of header fields out of a lattice, records permuted, duplicated, dropped and replaced. Distinct: by byte string."),
    ("C07", "Case: one compressed graph (by compressing or by hand) saved and loaded, all queries compared. Distinct: by content."),
    ("C08", "Case: one byte string given to the compressed-graph loader and judged by an independent decoder. Faults as for C06 plus every level byte, block position and bit pattern class. Distinct: by byte string."),
    ("C09", "Case: one graph or compressed graph whose bytes are compared with the written-down format, record by record, or one independently written file loaded (records in any order), or the repository's sample files. Distinct: by content."),
    ("C10", "Case: one graph pooled with each of a list of block sizes, every entry compared with the exact count over the block area. Distinct: by graph content."),
    ("C11", "Case: one graph approximated with a block size at every threshold that can matter (each k/b^2 present, its float neighbours, the clamps, infinities). Distinct: by graph content."),
    ("C12", "Case: one graph compressed at each of a list of levels, every block and query compared. Distinct: by graph content."),
    ("C13", "Case: one compressed graph decompressed, compared with what its own queries say; level-1 round trips. Distinct: by content."),
    ("C14", "Case: one sequence of blocks given to the builder (every order of up to four blocks, bit patterns, levels, weights given or not). Distinct: by sequence."),
    ("C15", "Case: one transition of the search over matrix histories (replayed on a fresh matrix), or one whole sequence. Distinct: by (model, object) state or sequence."),
    ("C16", "Case: as C15, for each of the 12 element types, with setting, incrementing and zeroing. Distinct: by (model, object) state or sequence, per type."),
    ("C17", "Case: one graph or adjacency matrix printed and compared, byte by byte, with the grid its own queries call for. Distinct: by content or edit history."),
    ("C18", "Case: one matrix of one element type printed at one list of digit counts and as a plain string, compared byte by byte with an independently laid out grid; or one compressed graph printed. Distinct: by content."),
    ("C19", "Case: one short history or call with operands from the powers of two, their neighbours and the type limits, compared with the reference, under an address-space limit. Distinct: by operands."),
    ("C20", "Case: one object, one derivation, one edit of either side (or one read followed by all reads), everything reported by both compared before and after; all pairs of operations on two objects. Distinct: by state, derivation and edits."),
    ("C25", "Case: the search of every schedule, within the preemption bound, of one scenario (call sequences for two or three real threads); in each complete execution every result, and what the objects report afterwards, is compared with that of the sequence run alone; each execution is one of traces_validated_against_impl. Distinct: by scenario."),
    ("C26", "Case: one graph reached by several routes (orders, detours through added and deleted edges, bytes, clones, matrices), all read-only calls compared between the routes. Distinct: by content and route."),
];

pub const COMMON: &[&str] = &[
    "Bounds: the sizes, alphabets and depths named by the jobs; nothing is claimed beyond them.",
    "The reference (sorted sets and maps in the harness) is correct; it was written from the documentation, independently of the code.",
    "Hash seeds are the only nondeterminism of the library; they are derived from VERIF_SEED.",
    "The library is built with overflow checks and debug assertions on.",
];

pub const THREADS: &[&str] = &[
    "Bounds: the scenarios, preemption bounds and kinds of scheduling points named in the samples; sequentially consistent memory (one thread runs at a time).",
    "Points inside calls come from compiler instrumentation of the crate (basic blocks, loads and stores off the stack), interposed allocation and interposed lock waits; code of the prebuilt standard library has none of its own.",
    "A body run alone in a fresh process gives the expected result.",
    "Hash seeds are derived from VERIF_SEED and the thread's number.",
];

pub fn rule(id: &str) -> &'static str {
    RULE_TEXT.iter().find(|r| r.0 == id).map_or("", |r| r.1)
}
