//! `std` with the shared-memory primitives replaced by scheduled ones.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use ::vsched::sync::{Arc, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard, Weak};
    pub mod atomic {
        pub use ::vsched::sync::atomic::*;
    }
}

pub mod task {
    pub use ::std::task::*;
    pub use ::vsched::sync::task::Wake;
}
