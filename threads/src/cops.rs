//! Calls of the C library, as the bodies of C25 make them: through the symbols that C links to.

use crate::ops::{Edit, Read, World};
use crate::reads::records;
use crate::sched::fine;
use std::ffi::{c_char, c_void, CStr};
use std::ptr::{null, null_mut};

extern crate gphrx_c as _;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Handle(pub *mut c_void);

#[repr(C)]
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Entry(f64, u64, u64);

extern "C" {
    fn free_gphrx_string_buffer(b: *const c_char);
    fn free_gphrx_bytes_buffer(b: *const u8, n: usize);
    fn free_gphrx_graph(g: Handle);
    fn free_gphrx_edge_list(l: *const [u64; 2], n: usize);
    fn free_gphrx_vertex_list(l: *const u64, n: usize);
    fn gphrx_new_undirected() -> Handle;
    fn gphrx_new_directed() -> Handle;
    fn gphrx_from_bytes(b: *const u8, n: usize, error: *mut u8) -> Handle;
    fn gphrx_duplicate(g: Handle) -> Handle;
    fn gphrx_matrix_string(g: Handle) -> *const c_char;
    fn gphrx_to_bytes(g: Handle, n: *mut usize) -> *const u8;
    fn gphrx_is_undirected(g: Handle) -> i8;
    fn gphrx_vertex_count(g: Handle) -> u64;
    fn gphrx_edge_count(g: Handle) -> u64;
    fn gphrx_does_edge_exist(g: Handle, a: u64, b: u64) -> i8;
    fn gphrx_find_avg_pool_matrix(g: Handle, b: u64) -> Handle;
    fn gphrx_approximate(g: Handle, b: u64, t: f64) -> Handle;
    fn gphrx_compress(g: Handle, level: u8) -> Handle;
    fn gphrx_get_edge_list(g: Handle, n: *mut usize) -> *const [u64; 2];
    fn gphrx_add_vertex(g: Handle, v: u64, l: *const u64, n: usize);
    fn gphrx_add_edge(g: Handle, a: u64, b: u64);
    fn gphrx_delete_edge(g: Handle, a: u64, b: u64);
    fn gphrx_get_vertex_in_edges_list(g: Handle, v: u64, n: *mut usize) -> *const u64;
    fn gphrx_get_vertex_out_edges_list(g: Handle, v: u64, n: *mut usize) -> *const u64;
    fn gphrx_get_vertex_in_degree(g: Handle, v: u64) -> u64;
    fn gphrx_get_vertex_out_degree(g: Handle, v: u64) -> u64;
    fn free_gphrx_compressed_graph(c: Handle);
    fn gphrx_compressed_graph_duplicate(c: Handle) -> Handle;
    fn gphrx_compressed_graph_compression_level(c: Handle) -> u8;
    fn gphrx_compressed_graph_edge_count(c: Handle) -> u64;
    fn gphrx_compressed_graph_does_edge_exist(c: Handle, a: u64, b: u64) -> i8;
    fn gphrx_get_compressed_matrix_entry(c: Handle, a: u64, b: u64) -> u64;
    fn gphrx_compressed_graph_matrix_string(c: Handle) -> *const c_char;
    fn gphrx_compressed_graph_to_bytes(c: Handle, n: *mut usize) -> *const u8;
    fn gphrx_compressed_graph_from_bytes(b: *const u8, n: usize, error: *mut u8) -> Handle;
    fn gphrx_decompress(c: Handle) -> Handle;
    fn free_gphrx_matrix(m: Handle);
    fn free_gphrx_matrix_entry_list(l: *const Entry, n: usize);
    fn gphrx_matrix_duplicate(m: Handle) -> Handle;
    fn gphrx_matrix_dimension(m: Handle) -> u64;
    fn gphrx_matrix_get_entry(m: Handle, a: u64, b: u64) -> f64;
    fn gphrx_matrix_to_string(m: Handle) -> *const c_char;
    fn gphrx_matrix_to_string_with_precision(m: Handle, d: usize) -> *const c_char;
    fn gphrx_matrix_get_entry_list(m: Handle, n: *mut usize) -> *const Entry;
}

/// A graph made by calls of the C library, like those of `World::new`.
pub fn start(k: u64, edges: &[(u64, u64)]) -> Handle {
    unsafe {
        let g = if k % 2 == 1 { gphrx_new_undirected() } else { gphrx_new_directed() };
        edges.iter().for_each(|(a, b)| gphrx_add_edge(g, *a, *b));
        g
    }
}

unsafe fn text(s: *const c_char) -> String {
    if s.is_null() {
        return "null".into();
    }
    let t = CStr::from_ptr(s).to_string_lossy().into_owned();
    free_gphrx_string_buffer(s);
    t
}

unsafe fn copied<T: Copy>(l: *const T, n: usize) -> Vec<T> {
    if l.is_null() {
        Vec::new()
    } else {
        std::slice::from_raw_parts(l, n).to_vec()
    }
}

fn show<T: PartialOrd + std::fmt::Debug>(mut v: Vec<T>) -> String {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    format!("{v:?}")
}

unsafe fn edges(g: Handle) -> Vec<[u64; 2]> {
    let mut n = 99;
    let l = gphrx_get_edge_list(g, &mut n);
    let v = copied(l, n);
    free_gphrx_edge_list(l, n);
    v
}

unsafe fn vertices(g: Handle, v: u64, f: unsafe extern "C" fn(Handle, u64, *mut usize) -> *const u64) -> Vec<u64> {
    let mut n = 99;
    let l = f(g, v, &mut n);
    let x = copied(l, n);
    free_gphrx_vertex_list(l, n);
    x
}

unsafe fn bytes(g: Handle, f: unsafe extern "C" fn(Handle, *mut usize) -> *const u8) -> Vec<u8> {
    let mut n = 99;
    let b = f(g, &mut n);
    let v = copied(b, n);
    free_gphrx_bytes_buffer(b, n);
    v
}

unsafe fn entries(m: Handle) -> Vec<Entry> {
    let mut n = 99;
    let l = gphrx_matrix_get_entry_list(m, &mut n);
    let v = copied(l, n);
    free_gphrx_matrix_entry_list(l, n);
    v
}

unsafe fn counts(g: Handle) -> (i8, u64, u64) {
    (gphrx_is_undirected(g), gphrx_vertex_count(g), gphrx_edge_count(g))
}

pub fn report(w: &World) -> String {
    if w.h.0.is_null() {
        return String::new();
    }
    unsafe { format!("{:?} {} {}", counts(w.h), show(edges(w.h)), text(gphrx_matrix_string(w.h))) }
}

pub const MAKE: Edit = ("C: make a graph", |w, l| {
    w.h = fine(l, || unsafe {
        let g = gphrx_new_directed();
        gphrx_add_edge(g, 2, 0);
        gphrx_add_vertex(g, 2, [9u64, 0].as_ptr(), 2);
        gphrx_add_edge(g, 0, 2);
        gphrx_delete_edge(g, 2, 0);
        g
    });
    format!("{:?}", unsafe { counts(w.h) })
});

pub const READS: &[Read] = &[
    ("C: queries", |w, l| {
        format!("{:?}", fine(l, || unsafe { (counts(w.h), gphrx_does_edge_exist(w.h, 2, 0), gphrx_does_edge_exist(w.h, 0, 2), gphrx_get_vertex_in_degree(w.h, 2), gphrx_get_vertex_out_degree(w.h, 2)) }))
    }),
    ("C: lists", |w, l| {
        let (e, i, o) = fine(l, || unsafe { (edges(w.h), vertices(w.h, 2, gphrx_get_vertex_in_edges_list), vertices(w.h, 2, gphrx_get_vertex_out_edges_list)) });
        format!("{} {} {}", show(e), show(i), show(o))
    }),
    ("C: matrix string", |w, l| fine(l, || unsafe { text(gphrx_matrix_string(w.h)) })),
    ("C: save and load", |w, l| {
        let (b, c, e, v) = fine(l, || unsafe {
            let b = bytes(w.h, gphrx_to_bytes);
            let mut e = 77;
            let g = gphrx_from_bytes(b.as_ptr(), b.len(), &mut e);
            let x = (counts(g), edges(g));
            free_gphrx_graph(g);
            (b, x.0, e, x.1)
        });
        format!("{} {c:?} {e} {}", records(&b, 26, 16), show(v))
    }),
    ("C: load malformed bytes", |w, l| {
        let n = w.bytes.len();
        format!("{:?}", fine(l, || unsafe {
            let (mut e, mut f) = (77, 77);
            let g = gphrx_from_bytes(w.bytes.as_ptr(), n - 1, &mut e);
            let c = gphrx_compressed_graph_from_bytes(null(), 0, &mut f);
            (g.0.is_null(), e, c.0.is_null(), f)
        }))
    }),
    ("C: pool and print", |w, l| {
        let (d, e, x, s, t) = fine(l, || unsafe {
            let m = gphrx_find_avg_pool_matrix(w.h, 3);
            let n = gphrx_matrix_duplicate(m);
            let r = (gphrx_matrix_dimension(m), entries(m), gphrx_matrix_get_entry(n, 0, 0), text(gphrx_matrix_to_string(m)), text(gphrx_matrix_to_string_with_precision(n, 4)));
            free_gphrx_matrix(m);
            free_gphrx_matrix(n);
            r
        });
        format!("{d} {} {x} {s} {t}", show(e))
    }),
    ("C: approximate", |w, l| {
        let (c, e) = fine(l, || unsafe {
            let g = gphrx_approximate(w.h, 2, 0.3);
            let r = (counts(g), edges(g));
            free_gphrx_graph(g);
            r
        });
        format!("{c:?} {}", show(e))
    }),
    ("C: compress and decompress", |w, l| {
        let (q, s, b, e) = fine(l, || unsafe {
            let c = gphrx_compress(w.h, 1);
            let g = gphrx_decompress(c);
            let q = (gphrx_compressed_graph_compression_level(c), gphrx_compressed_graph_edge_count(c), gphrx_compressed_graph_does_edge_exist(c, 2, 0), gphrx_get_compressed_matrix_entry(c, 0, 0));
            let r = (q, text(gphrx_compressed_graph_matrix_string(c)), bytes(c, gphrx_compressed_graph_to_bytes), edges(g));
            free_gphrx_compressed_graph(c);
            free_gphrx_graph(g);
            r
        });
        format!("{q:?} {s} {} {}", records(&b, 42, 24), show(e))
    }),
    ("C: load a compressed graph", |w, l| {
        let (e, s, v) = fine(l, || unsafe {
            let mut e = 77;
            let c = gphrx_compressed_graph_from_bytes(w.cbytes.as_ptr(), w.cbytes.len(), &mut e);
            let d = gphrx_compressed_graph_duplicate(c);
            free_gphrx_compressed_graph(c);
            let g = gphrx_decompress(d);
            let r = (e, text(gphrx_compressed_graph_matrix_string(d)), edges(g));
            free_gphrx_compressed_graph(d);
            free_gphrx_graph(g);
            r
        });
        format!("{e} {s} {}", show(v))
    }),
    ("C: duplicate", |w, l| {
        let v = fine(l, || unsafe {
            let g = gphrx_duplicate(w.h);
            gphrx_add_edge(g, 3, 3);
            let v = edges(g);
            free_gphrx_graph(g);
            v
        });
        show(v)
    }),
];

pub const EDITS: &[Edit] = &[
    ("C: edit", |w, l| {
        fine(l, || unsafe {
            gphrx_add_edge(w.h, 4, 11);
            gphrx_add_vertex(w.h, 1, [1u64, 8, 0].as_ptr(), 3);
            gphrx_add_vertex(w.h, 13, null_mut(), 0);
            gphrx_delete_edge(w.h, 0, 2);
        });
        format!("{:?}", unsafe { counts(w.h) })
    }),
    ("C: free and start again", |w, l| {
        fine(l, || unsafe {
            free_gphrx_graph(w.h);
            w.h = gphrx_new_undirected();
            gphrx_add_edge(w.h, 2, 1);
        });
        format!("{:?}", unsafe { counts(w.h) })
    }),
];
