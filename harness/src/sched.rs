//! Scheduling points exist only in the threads harness.
pub fn point() {}
