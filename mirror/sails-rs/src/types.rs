pub use core::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8};
pub use gprimitives::{ActorId, CodeId, MessageId, NonZeroU256};
pub use primitive_types::*;

pub type ValueUnit = u128;

pub type GasUnit = u64;
