#![allow(clippy::all)]
pub mod driver;
pub mod gen;
pub mod hist;
pub mod lazyx;
pub mod ops;
pub mod reffst;
pub mod refw;
pub mod rng;
pub mod util;
