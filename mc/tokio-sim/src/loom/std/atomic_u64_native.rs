pub(crate) use std::sync::atomic::{AtomicU64, Ordering};

pub(crate) type StaticAtomicU64 = AtomicU64;
