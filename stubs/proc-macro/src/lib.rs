//! Outside of a running compiler the types of `proc_macro` are those of `proc_macro2`.
pub use proc_macro2::*;
