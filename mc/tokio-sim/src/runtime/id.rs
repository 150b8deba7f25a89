use std::fmt;
use std::num::NonZeroU64;

#[derive(Clone, Copy, Debug, Hash, Eq, PartialEq)]
pub struct Id(NonZeroU64);

impl Id {
    pub(crate) fn new(integer: impl Into<NonZeroU64>) -> Self {
        Self(integer.into())
    }
}

impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
