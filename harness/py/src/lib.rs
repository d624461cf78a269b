//! Only here to build rust-cpython.
