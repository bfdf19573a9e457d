From 649088aa2723ac62f8333f80b537a022634757d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 01/17] fix: lay out numeric matrix strings by the width of the
 formatted entries

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 111 ++++++++------------
 1 file changed, 45 insertions(+), 66 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..c64ef43 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -8,6 +8,9 @@ use crate::error::GraphRoxError;
 use crate::matrix::MatrixRepresentation;
 use crate::util::Numeric;
 
+// No f64 has more non-zero digits after the decimal
+const MAX_FLOAT_DECIMALS: usize = 1074;
+
 /// A matrix in CSR (Compressed Sparse Row) format. The matrix uses a HashMap to map columns
 /// to a HashMap mapping rows to entry values. Any matrix entry not contained in a row HashMap
 /// is assumed to be zero.
@@ -159,49 +162,25 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
+        // Every cell is as wide as the widest entry, which may be a zero
+        let smallest_entry_chars = Self::format_entry(T::zero(), decimal_digits).len();
+        let mut entry_size = smallest_entry_chars;
 
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                entry_size = entry_size.max(Self::format_entry(*val, decimal_digits).len());
             }
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
-        };
-
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
-        }
-
-        // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
-
         let entry_left_padding = entry_size - smallest_entry_chars;
-        let chars_per_entry = entry_size + 2;
+
+        let trailing_zeros = Self::trailing_zero_count(decimal_digits);
+        let (entry_size, chars_per_entry) = entry_size
+            .checked_add(trailing_zeros)
+            .and_then(|size| Some((size, size.checked_add(2)?)))
+            .ok_or_else(|| {
+                GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
+            })?;
 
         let dimension = usize::try_from(self.dimension).map_err(|_| {
             GraphRoxError::CapacityOverflow(String::from(
@@ -279,35 +258,14 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
+                let num = Self::format_entry(*value, decimal_digits);
+                let cell = &mut buffer[pos..pos + entry_size];
+                let (num_cell, zeros_cell) = cell.split_at_mut(entry_size - trailing_zeros);
+                let (padding_cell, num_cell) = num_cell.split_at_mut(num_cell.len() - num.len());
 
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
-                };
-
-                let num = num.as_bytes();
-
-                for b in num {
-                    buffer[pos] = *b;
-                    pos += 1;
-                }
+                padding_cell.fill(b' ');
+                num_cell.copy_from_slice(num.as_bytes());
+                zeros_cell.fill(b'0');
             }
         }
 
@@ -315,6 +273,27 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             GraphRoxError::InvalidFormat(String::from("Generated matrix string was not UTF-8"))
         })
     }
+
+    /// Formats an entry without the zeros given by `trailing_zero_count()`.
+    fn format_entry(entry: T, decimal_digits: usize) -> String {
+        if T::has_decimal() {
+            format!("{:.*}", decimal_digits.min(MAX_FLOAT_DECIMALS), entry)
+        } else if decimal_digits > 0 {
+            format!("{}.", entry)
+        } else {
+            entry.to_string()
+        }
+    }
+
+    /// The number of zeros that are at the end of every entry in a matrix string, whatever the
+    /// entry.
+    fn trailing_zero_count(decimal_digits: usize) -> usize {
+        if T::has_decimal() {
+            decimal_digits.saturating_sub(MAX_FLOAT_DECIMALS)
+        } else {
+            decimal_digits
+        }
+    }
 }
 
 impl CsrSquareMatrix<f64> {
-- 
2.43.0


From ed0f87519b2b82c4215935771bb6ad5e71fa8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 02/17] fix: divide when average pooling so that full blocks
 are exactly 1.0

---
 graphrox-rs/src/graph/standard.rs           | 6 ++++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..51fad2d 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,12 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        // Dividing (rather than multiplying by the inverse) gives the exact fraction whenever it can
+        // be represented, so a full block is always 1.0
+        let block_size = (block_dimension * block_dimension) as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(block_size);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index c64ef43..412ff4a 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -298,10 +298,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From a779e9c5ac5672ae2e7836a14d42e1bfbdf1e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 03/17] fix: avoid integer overflow for block dimensions of
 2^32 and above

---
 graphrox-rs/src/graph/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 51fad2d..22df1ea 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -469,7 +469,7 @@ impl StandardGraph {
 
         // Dividing (rather than multiplying by the inverse) gives the exact fraction whenever it can
         // be represented, so a full block is always 1.0
-        let block_size = (block_dimension * block_dimension) as f64;
+        let block_size = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
         avg_pool_matrix.divide_entries_by(block_size);
-- 
2.43.0


From e877a7f5cdfbe53d2eea880fe4f60fb765b6fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 04/17] fix: i128 has no decimal

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..c36c21d 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 6e8e19ce38b5b0a0dfbd20209a722257b85fc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 05/17] fix: setting an adjacency matrix entry to zero
 overwrites the entry

---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 63aee83befcd6bf665207af53eef4d3d0c978f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 06/17] fix: setting a square matrix entry to zero overwrites
 the entry

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 412ff4a..7e22e92 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -345,6 +345,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 611a8da2185b3f83afe90e6e4bb6478e27afff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 07/17] fix: an entry incremented to zero is a zero entry

---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 7e22e92..55a67e3 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -96,15 +96,20 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
         }
 
         let row_table = self.edges_table.entry(col).or_default();
-        let entry = row_table.entry(row);
+        match row_table.entry(row) {
+            Entry::Vacant(entry) => {
+                entry.insert(T::one());
+                self.entry_count += 1;
+            }
+            Entry::Occupied(mut entry) => {
+                *entry.get_mut() = entry.get().add_one();
 
-        if let Entry::Vacant(_) = entry {
-            self.entry_count += 1;
+                if *entry.get() == T::zero() {
+                    entry.remove();
+                    self.entry_count -= 1;
+                }
+            }
         }
-
-        entry
-            .and_modify(|e| *e = e.add_one())
-            .or_insert_with(T::one);
     }
 
     #[inline]
-- 
2.43.0


From 51302e2c34f00273bb11c84a46842f67e6d2e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 08/17] fix: reject compressed graph bytes that repeat a block

---
 graphrox-rs/src/graph/compressed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..ac9be04 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,7 +376,15 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains duplicate entries",
+            )));
+        }
+
+        Ok(compressed_graph)
     }
 }
 
-- 
2.43.0


From cb91ea3b85a17332961e560e259e75fdb2b29929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 09/17] fix: reject undirected compressed graph bytes with
 asymmetric blocks

---
 graphrox-rs/src/graph/compressed.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index ac9be04..bb3ca51 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,6 +384,18 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
+        if compressed_graph.is_undirected {
+            for (entry, col, row) in &compressed_graph.adjacency_matrix {
+                let mirror = compressed_graph.get_compressed_matrix_entry(row, col);
+
+                if entry != transpose_compressed_entry(mirror) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "CompressedGraph does not represent an undirected graph",
+                    )));
+                }
+            }
+        }
+
         Ok(compressed_graph)
     }
 }
@@ -424,6 +436,18 @@ fn compressed_matrix_dimension(vertex_count: u64) -> u64 {
     dimension
 }
 
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+
+    for bit in 0..64 {
+        let col = bit % COMPRESSION_BLOCK_DIMENSION;
+        let row = bit / COMPRESSION_BLOCK_DIMENSION;
+        transposed |= ((entry >> bit) & 1) << (COMPRESSION_BLOCK_DIMENSION * col + row);
+    }
+
+    transposed
+}
+
 fn validate_compressed_entry_bounds(
     entry: u64,
     col: u64,
-- 
2.43.0


From 60f254106d0a83574fcd7aed8bc2c30f3a9e67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 10/17] fix: reject undirected graph bytes that do not list
 both directions of an edge

---
 graphrox-rs/src/graph/standard.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 22df1ea..b74bffd 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -794,11 +794,9 @@ impl TryFrom<&[u8]> for StandardGraph {
             )));
         }
 
-        let mut graph = if is_undirected == 0 {
-            Self::new_directed()
-        } else {
-            Self::new_undirected()
-        };
+        // Every edge in an undirected graph is listed in both directions, so the edges must not
+        // be replicated as they are read
+        let mut adjacency_matrix = CsrAdjacencyMatrix::new();
 
         let mut pos = GRAPH_BYTES_HEADER_SIZE;
 
@@ -814,15 +812,21 @@ impl TryFrom<&[u8]> for StandardGraph {
                     "Graph edge exceeds matrix dimension",
                 )));
             }
-            graph.add_edge(col, row);
+            adjacency_matrix.set_entry(1, col, row);
         }
 
-        if graph.edge_count() != adjacency_matrix_entry_count {
+        if adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
             return Err(GraphRoxError::InvalidFormat(String::from(
                 "Graph edge count does not match header",
             )));
         }
 
+        let mut graph = if is_undirected == 0 {
+            Self::directed_from(adjacency_matrix)
+        } else {
+            Self::undirected_from(adjacency_matrix)?
+        };
+
         if adjacency_matrix_dimension > 0 {
             graph.add_vertex(adjacency_matrix_dimension - 1, None);
         }
-- 
2.43.0


From 743fc6d1a1b8f1258a19b63122450bec4971a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 11/17] fix: clamp positive thresholds below 10^-18

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index c36c21d..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 7fb02db42b47e2ecd128beda09cff3124f2b2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 12/17] fix: return null from gphrx_matrix_to_string when the
 string is too large

---
 graphrox-c/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..b69b580 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,14 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    // CsrSquareMatrix::to_string() uses the same precision but panics if the string is too large
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From c180d7b1603f35c6a36518b62708f1f30223aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 13/17] fix: raise ValueError when Python loads malformed bytes

---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 104d1cb2a8c4566a0cad24130f080a1d3c0265b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 14/17] fix: raise IndexError for a negative index into an
 empty Python list

---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..b8996e3 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0


From e3de0c1c16f9af97737ec35a29b52b4271c93f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 15/17] fix: make the Python list iterators iterable

---
 graphrox-py/graphrox/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index b8996e3..6b1344d 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -506,6 +506,9 @@ class _GraphEdgeListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -562,6 +565,9 @@ class _GraphVertexListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -777,6 +783,9 @@ class _CsrSquareMatrixEntryListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
-- 
2.43.0


From 4d4002be918c6e8d5b770772b9ee310845719feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 16/17] fix: apply the compression level to edge counts in
 graphs of fewer than 8 vertices

---
 graphrox-rs/src/graph/standard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index b74bffd..b657f8a 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -626,9 +626,14 @@ impl StandardGraph {
     pub fn compress(&self, compression_level: u8) -> CompressedGraph {
         let compression_level = util::clamp_compression_level(compression_level);
 
+        // Average pooling reduces the block dimension of a graph with fewer than 8 vertices to the
+        // vertex count, so its entries are then not fractions of 64
+        let block_dimension = COMPRESSION_BLOCK_DIMENSION.min(self.vertex_count().max(1));
+        let block_size = (block_dimension * block_dimension) as f64;
+
         // Subract a very small number to ensure the floating-point imprecision errs on the
         // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        let threshold = compression_level as f64 / block_size - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From 6163a1c8c203ba2b785c51c2351f0574d0001c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 17/17] fix: keep copy.copy from releasing the memory of a
 Python object twice

---
 graphrox-py/graphrox/__init__.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 6b1344d..dc2dc36 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -300,6 +300,10 @@ class Graph:
         c_graph = _lib.gphrx_duplicate(self._graph)
         return Graph(_c_graph=c_graph)
 
+    def __copy__(self):
+        # Copying the attributes would have both objects free the same memory
+        return self.duplicate()
+
     def matrix_string(self):
         """Returns the adjacency matrix of the graph as a string."""
         c_str = _lib.gphrx_matrix_string(self._graph)
@@ -474,6 +478,10 @@ class _GraphEdgeList:
     def __del__(self):
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # A list cannot be changed, and a copy would free the same memory
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
@@ -533,6 +541,10 @@ class _GraphVertexList:
     def __del__(self):
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # A list cannot be changed, and a copy would free the same memory
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
@@ -621,6 +633,10 @@ class CompressedGraph:
         c_graph = _lib.gphrx_compressed_graph_duplicate(self._graph)
         return CompressedGraph(c_graph)
 
+    def __copy__(self):
+        # Copying the attributes would have both objects free the same memory
+        return self.duplicate()
+
     def matrix_string(self):
         """Returns a string of the underlying matrix that represents the `CompressedGraph`.
 
@@ -704,6 +720,10 @@ class CsrSquareMatrix:
         c_matrix = _lib.gphrx_matrix_duplicate(self._matrix)
         return CsrSquareMatrix(c_matrix)
 
+    def __copy__(self):
+        # Copying the attributes would have both objects free the same memory
+        return self.duplicate()
+
     def dimension(self):
         """Returns the dimension of the matrix as a single integer."""
         return int(_lib.gphrx_matrix_dimension(self._matrix))
@@ -751,6 +771,10 @@ class _CsrSquareMatrixEntryList:
     def __del__(self):
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
+    def __copy__(self):
+        # A list cannot be changed, and a copy would free the same memory
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
-- 
2.43.0

