//! Offline stand-in for the unreachable `ordered_iter` crate: stable_bst only
//! implements these two traits for its iterators, and rustfst never uses them.
pub trait OrderedMapIterator: Iterator {
    type Key;
    type Val;
}
pub trait OrderedSetIterator: Iterator {}
