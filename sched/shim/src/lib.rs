//! Everything of `core`, except that atomics and spinning go through the shuttle scheduler, and
//! that atomics carry the happens-before relation their orderings establish (see `hb`).
pub use ::std::*;

pub mod hb;

pub mod hint {
    pub use ::std::hint::{assert_unchecked, black_box, unreachable_unchecked};
    pub fn spin_loop() {
        shuttle::hint::spin_loop()
    }
}

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::hb::atomic::*;
    }
}
