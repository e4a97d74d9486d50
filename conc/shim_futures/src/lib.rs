//! `futures` with `task::AtomicWaker` and `task::ArcWake` replaced by scheduled ones.
pub use ::futures::*;

pub mod task {
    pub use ::futures::task::*;
    pub use ::vsched::sync::task::{waker, waker_ref, ArcWake, AtomicWaker, WakerRef};
}
