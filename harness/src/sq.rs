//! One face for the numeric matrices of every element type.

use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use std::fmt::{Debug, Display};

pub trait Sq: Debug + Clone + Send + Sync + 'static {
    type T: Copy + PartialEq + Display + Debug + Send + Sync + 'static;
    const NAME: &'static str;
    const FLOAT: bool;
    fn new() -> Self;
    fn dim(&self) -> u64;
    fn count(&self) -> u64;
    fn get(&self, c: u64, r: u64) -> Self::T;
    fn set(&mut self, v: Self::T, c: u64, r: u64);
    fn zero(&mut self, c: u64, r: u64);
    fn inc(&mut self, c: u64, r: u64);
    fn entries(&self) -> Vec<(Self::T, u64, u64)>;
    fn text(&self, digits: usize) -> Result<String, GraphRoxError>;
    fn display(&self) -> String;
    fn nought() -> Self::T;
    fn one() -> Self::T;
    /// The value one more, if the type has it.
    fn succ(v: Self::T) -> Option<Self::T>;
    /// Values for histories: zero first, simplest first.
    fn values() -> Vec<Self::T>;
    /// Values worth printing.
    fn lattice() -> Vec<Self::T>;
    /// Small enough to keep incrementing in a search.
    fn low(v: Self::T) -> bool;
    fn written(v: Self::T, digits: usize) -> String;
    /// Equal, or neither is a number
    fn same(a: Self::T, b: Self::T) -> bool;
}

macro_rules! common {
    ($t:ty, $name:expr, $float:expr) => {
        type T = $t;
        const NAME: &'static str = $name;
        const FLOAT: bool = $float;
        fn new() -> Self {
            CsrSquareMatrix::new()
        }
        fn dim(&self) -> u64 {
            self.dimension()
        }
        fn count(&self) -> u64 {
            self.entry_count()
        }
        fn get(&self, c: u64, r: u64) -> $t {
            self.get_entry(c, r)
        }
        fn set(&mut self, v: $t, c: u64, r: u64) {
            self.set_entry(v, c, r)
        }
        fn zero(&mut self, c: u64, r: u64) {
            self.zero_entry(c, r)
        }
        fn inc(&mut self, c: u64, r: u64) {
            self.increment_entry(c, r)
        }
        fn entries(&self) -> Vec<($t, u64, u64)> {
            let mut v = Vec::new();
            let mut it = self.into_iter();
            while let Some(e) = it.next() {
                v.push(e);
            }
            assert!(it.next().is_none(), "iteration goes on after its end");
            v
        }
        fn text(&self, digits: usize) -> Result<String, GraphRoxError> {
            self.to_string_with_precision(digits)
        }
        fn display(&self) -> String {
            self.to_string()
        }
    };
}

macro_rules! ints {
    ($($t:ident),*) => {$(
        impl Sq for CsrSquareMatrix<$t> {
            common!($t, stringify!($t), false);
            fn nought() -> $t { 0 }
            fn one() -> $t { 1 }
            fn succ(v: $t) -> Option<$t> { v.checked_add(1) }
            fn same(a: $t, b: $t) -> bool { a == b }
            fn values() -> Vec<$t> {
                let mut v = vec![0, 1, 2, $t::MAX - 1, $t::MAX, $t::MIN];
                if $t::MIN != 0 { v.push((0 as $t).wrapping_sub(1)); v.push((0 as $t).wrapping_sub(2)); }
                let mut o: Vec<$t> = Vec::new();
                for x in v { if !o.contains(&x) { o.push(x); } }
                o
            }
            fn lattice() -> Vec<$t> {
                let mut v: Vec<$t> = vec![0, 1, 2, 5, 9];
                let mut p: $t = 1;
                while let Some(q) = p.checked_mul(10) {
                    v.extend([q - 1, q, q + 1]);
                    p = q;
                }
                v.extend([$t::MAX, $t::MAX - 1, $t::MAX / 2]);
                if $t::MIN != 0 {
                    let neg: Vec<$t> = v.iter().map(|x| (0 as $t).wrapping_sub(*x)).collect();
                    v.extend(neg);
                    v.push($t::MIN);
                }
                let mut o: Vec<$t> = Vec::new();
                for x in v { if !o.contains(&x) { o.push(x); } }
                o
            }
            #[allow(unused_comparisons)]
            fn low(v: $t) -> bool { v < 3 || v == $t::MAX - 1 }
            fn written(v: $t, digits: usize) -> String {
                let mut s = format!("{v}");
                if digits > 0 { s.push('.'); for _ in 0..digits { s.push('0'); } }
                s
            }
        }
    )*};
}

macro_rules! floats {
    ($($t:ident),*) => {$(
        impl Sq for CsrSquareMatrix<$t> {
            common!($t, stringify!($t), true);
            fn nought() -> $t { 0.0 }
            fn one() -> $t { 1.0 }
            fn succ(v: $t) -> Option<$t> { Some(v + 1.0) }
            fn same(a: $t, b: $t) -> bool { a == b || a.is_nan() && b.is_nan() }
            fn values() -> Vec<$t> {
                vec![0.0, 1.0, -1.0, 0.5, -0.0, -2.0, -0.5, 1e30, $t::MIN_POSITIVE, $t::INFINITY, $t::NEG_INFINITY, $t::NAN]
            }
            fn lattice() -> Vec<$t> {
                let mut v: Vec<$t> = vec![
                    0.0, 1.0, 0.5, 0.25, 0.125, 0.1, 0.9, 0.99, 0.999, 0.9999, 0.4999, 0.95, 0.995, 0.9995,
                    0.05, 0.005, 0.0005, 0.045, 0.0049, 1.5, 2.5, 3.5, 1.005, 2.675, 9.5, 9.9, 9.99, 9.995,
                    9.9999, 10.0, 99.5, 99.95, 99.995, 100.0, 999.4, 999.5, 999.95, 1234.5678, 0.33333333,
                    0.6666667, 1e-3, 1e-7, 1e-10, 1e7, 1e10, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e30,
                    16777216.0, 16777217.0, 9007199254740992.0, 9007199254740993.0, 18446744073709551616.0,
                    4294967295.0, 4294967296.0, 123456789.0, $t::MIN_POSITIVE, $t::MAX, $t::EPSILON,
                ];
                v.push($t::from_bits(1));
                let neg: Vec<$t> = v.iter().map(|x| -*x).filter(|x| *x != 0.0).collect();
                v.extend(neg);
                v
            }
            fn low(v: $t) -> bool { v < 3.0 && v > -10.0 }
            fn written(v: $t, digits: usize) -> String {
                let v = if v == 0.0 { 0.0 } else { v };
                if digits > 1200 {
                    let mut s = format!("{v:.1200}");
                    for _ in 1200..digits { s.push('0'); }
                    s
                } else {
                    format!("{v:.digits$}")
                }
            }
        }
    )*};
}

ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
floats!(f32, f64);

/// Calls `$f::<CsrSquareMatrix<T>>($args)` for every element type T.
macro_rules! for_all_types {
    ($f:ident, $($a:expr),*) => {{
        use graphrox::matrix::CsrSquareMatrix as M;
        $f::<M<f64>>($($a),*);
        $f::<M<u64>>($($a),*);
        $f::<M<i64>>($($a),*);
        $f::<M<u8>>($($a),*);
        $f::<M<i8>>($($a),*);
        $f::<M<u16>>($($a),*);
        $f::<M<i16>>($($a),*);
        $f::<M<u32>>($($a),*);
        $f::<M<i32>>($($a),*);
        $f::<M<u128>>($($a),*);
        $f::<M<i128>>($($a),*);
        $f::<M<f32>>($($a),*);
    }};
}
pub(crate) use for_all_types;
