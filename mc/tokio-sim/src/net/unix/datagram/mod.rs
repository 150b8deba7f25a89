
pub(crate) mod socket;
