pub use vsched::sync::pl::{const_mutex, const_rwlock, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard};
