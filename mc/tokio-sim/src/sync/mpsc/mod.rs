#![cfg_attr(not(feature = "sync"), allow(dead_code, unreachable_pub))]


pub(super) mod block;

mod bounded;
pub use self::bounded::{
    channel, OwnedPermit, Permit, PermitIterator, Receiver, Sender, WeakSender,
};

mod chan;

pub(super) mod list;

mod unbounded;
pub use self::unbounded::{
    unbounded_channel, UnboundedReceiver, UnboundedSender, WeakUnboundedSender,
};

pub mod error;

#[cfg(all(target_pointer_width = "64", not(loom)))]
pub(crate) const BLOCK_CAP: usize = 32;

#[cfg(all(not(target_pointer_width = "64"), not(loom)))]
pub(crate) const BLOCK_CAP: usize = 16;

#[cfg(loom)]
pub(crate) const BLOCK_CAP: usize = 2;
