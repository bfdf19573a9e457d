#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json

COMMON = (" Within the stated bounds the enumeration is complete and runs on the real code built from the working tree;"
          " trusted: the small reference model in the harness, the compiler, and the bounds as a stand-in for 'every'.")

BFS = "explicit-state search of the real code over edit histories, compared with a set model on every transition"
ENUM = "bounded exhaustive enumeration of inputs on the real code against a reference model"
CHECKS = {
    "C01": (BFS, "model_checking", "All edit histories over small alphabets of vertex IDs (closing the state space where it is finite, so histories of any length over it), all sequences to a small depth without state merging, scripted long histories."),
    "C02": (BFS, "model_checking", "Neighbour lists, degrees and iteration in every reached state, under every iteration order of the internal tables that occurs."),
    "C03": (BFS, "model_checking", "Symmetry of every undirected object reachable by the bounded histories through every producing call, byte files included."),
    "C04": ("exhaustive enumeration of small matrices and matrix histories through both constructors", "model_checking", "All 0/1 matrices up to the bound, with and without trailing dimension, far labels."),
    "C05": ("exhaustive save/load of all small graphs and families, compared query by query", "model_checking", "All small graphs, renamed into ID ranges that cross block, word and type boundaries."),
    "C06": ("exhaustive enumeration of corruptions of valid files, judged by an independent decoder", "fault_enumeration", "Every truncation, every byte value at every position, header field pairs, record edits; the allocation of every load is bounded."),
    "C07": ("exhaustive save/load of compressed graphs, compared query by query", "model_checking", "Compressed graphs from all small graphs at several levels and hand-built block sets."),
    "C08": ("exhaustive enumeration of corruptions of valid compressed files, judged by an independent decoder", "fault_enumeration", "As C06, plus levels, block positions and bit patterns."),
    "C09": ("exhaustive comparison of written bytes with an independent encoder, and loading of independently written files", "model_checking", "All small graphs and families; record order is left free in both directions."),
    "C10": (ENUM, "model_checking", "Every small graph and block density at every block size up to the dimension and at type limits."),
    "C11": (ENUM, "model_checking", "Every density of small blocks against every threshold that can tell two behaviours apart (each fraction and its float neighbours)."),
    "C12": (ENUM, "model_checking", "Every edge count of a block at every level, all small graphs, every single edge and pair of a block."),
    "C13": (ENUM, "model_checking", "Every bit pair of a block, all small graphs at several levels, round trips at level 1."),
    "C14": (ENUM, "model_checking", "Every order of up to four blocks, bit patterns, weights, levels, vertex counts."),
    "C15": (BFS.replace("edit", "matrix"), "model_checking", "All histories of setting and zeroing over small alphabets of positions and values."),
    "C16": (BFS.replace("edit", "matrix"), "model_checking", "As C15 for each of the 12 element types, with increments and each type's limits."),
    "C17": (ENUM, "model_checking", "All graphs of up to 4 vertices, every dimension up to 300, one edge at every position, edit histories; byte for byte."),
    "C18": (ENUM, "model_checking", "All single values and ordered pairs of a lattice of values for each of the 12 types at many digit counts, shapes, overwriting histories, every pooled fraction of small blocks, compressed graphs."),
    "C19": (ENUM, "model_checking", "All pairs of operands from the powers of two, their neighbours and the type limits, for every call; strings too large for memory must be refused."),
    "C20": ("exhaustive enumeration of derivations, edits and reads on pairs of real objects", "model_checking", "Every derivation followed by every edit of either side; every read followed by every read; operations on two objects interleaved."),
    "C21": ("exhaustive enumeration of call histories through the C header, run on the built library and compared with a set model", "model_checking", "All call histories to length 3 over the whole alphabet of calls and to length 4 over a part of it, and graphs of every size up to a bound; everything readable is read back through every function."),
    "C22": ("exhaustive enumeration of object-producing call histories with every order of release, under an accounting allocator", "model_checking", "Every history of up to 3 producing calls with every release order; blocks of the library carry canaries, are poisoned and quarantined on release and counted at the end; every function with nulls; results too large to build."),
    "C23": ("exhaustive enumeration of call histories through the Python module, run on the built library and compared with a set model", "model_checking", "All call histories of up to 2 calls over the whole alphabet and of 3 over most of it, graphs of every size up to a bound; everything readable is read back through every method."),
    "C24": ("exhaustive enumeration of making, reading, advancing and deleting graphs, lists and iterators, under an accounting allocator", "model_checking", "All histories of up to 5 such steps with up to two lists and two iterators; memory of the library is poisoned on release, quarantined and counted."),
    "C25": ("stateless exploration of every schedule, within a preemption bound, of real threads running the real code under a controlled scheduler", "model_checking", "Pairs and triples of calls, of the crate and of the C library, on objects of their own or on one shared object; scheduling points at every basic block and off-stack access of the crate, at allocations, statics and call boundaries; lock waits are virtual, so deadlocks are seen."),
    "C26": ("exhaustive comparison of all routes to the same graph", "model_checking", "Every insertion order of small edge sets, detours, bytes, clones and matrices, compared on all read-only calls."),
    "C27": ("stateless exploration of every schedule, within a preemption bound, of two threads in the real Python module under a controlled scheduler", "model_checking", "Every ordered pair of 42 calls on objects of their own, and of the reads on one set of objects, preempted before every opcode of the module; twice, at lines, for each call with itself; from a freshly imported module. Preemption inside the C library's calls is C25's."),
}
PENDING = {
}

checks = []
for pid, (tech, level, note) in sorted(CHECKS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/check.sh {pid}",
        "thorough_cmd": f"bin/check.sh {pid} thorough",
        "technique": tech,
        "level": level,
        "level_note": note + COMMON,
    })
m = {
    "version": 1,
    "setup_cmd": "bin/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(PENDING.items()) if k not in CHECKS],
    "notes": "No hooks: every check uses the public interfaces only. The tier is taken from VERIF_TIER.",
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
