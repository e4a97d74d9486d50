//! Stand-ins for the shared-memory primitives of `std::sync`, `parking_lot` and `futures::task`.
//! Every operation is a scheduling point; memory is sequentially consistent.
use crate::{block, point, unblock};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::sync as real;
pub use std::sync::atomic::Ordering;
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

const MAGIC: u32 = 0x5afe_a70b;

/// Marks an object that has not been freed, and when a static one was last used: statics start
/// afresh in each execution.
struct Tag {
    magic: u32,
    epoch: Cell<u64>,
}

impl Tag {
    const fn new() -> Tag {
        Tag { magic: MAGIC, epoch: Cell::new(0) }
    }

    /// True when the object was last used in an earlier execution.
    fn check(&self, what: &'static str) -> bool {
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        if m != MAGIC {
            crate::fail(|| format!("use after free: {what} on freed memory"));
            crate::give_up();
        }
        let e = crate::epoch();
        let old = self.epoch.replace(e);
        old != 0 && old != e
    }
}

pub mod atomic {
    pub use super::Ordering;
    use super::*;
    pub use std::sync::atomic::{compiler_fence, AtomicI16, AtomicI8, AtomicU16};

    pub fn fence(_: Ordering) {
        point("fence");
    }

    macro_rules! base {
        ($name:ident, $t:ty, [$($g:tt)*], [$($u:tt)*]) => {
            pub struct $name $($u)* { tag: Tag, init: $t, v: UnsafeCell<$t> }
            unsafe impl $($g)* Send for $name $($u)* {}
            unsafe impl $($g)* Sync for $name $($u)* {}
            impl $($g)* UnwindSafe for $name $($u)* {}
            impl $($g)* RefUnwindSafe for $name $($u)* {}
            impl $($g)* $name $($u)* {
                pub const fn new(v: $t) -> Self {
                    $name { tag: Tag::new(), init: v, v: UnsafeCell::new(v) }
                }
                #[inline]
                fn cell(&self, what: &'static str) -> &mut $t {
                    point(what);
                    if self.tag.check(what) {
                        unsafe { *self.v.get() = self.init };
                    }
                    unsafe { &mut *self.v.get() }
                }
                pub fn load(&self, _: Ordering) -> $t { *self.cell("load") }
                pub fn store(&self, v: $t, _: Ordering) { *self.cell("store") = v }
                pub fn swap(&self, v: $t, _: Ordering) -> $t { std::mem::replace(self.cell("swap"), v) }
                pub fn compare_exchange(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    let c = self.cell("compare_exchange");
                    let v = *c;
                    if v == old { *c = new; Ok(v) } else { Err(v) }
                }
                pub fn compare_exchange_weak(&self, old: $t, new: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(old, new, a, b)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut v = *self.cell("load");
                    while let Some(new) = f(v) {
                        match self.compare_exchange(v, new, Ordering::SeqCst, Ordering::SeqCst) {
                            Ok(x) => return Ok(x),
                            Err(x) => v = x,
                        }
                    }
                    Err(v)
                }
                pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
                pub fn into_inner(self) -> $t { self.v.into_inner() }
                pub fn as_ptr(&self) -> *mut $t { self.v.get() }
            }
            impl $($g)* fmt::Debug for $name $($u)* {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    unsafe { fmt::Debug::fmt(&*self.v.get(), f) }
                }
            }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => { $(
            base!($name, $t, [], []);
            impl Default for $name { fn default() -> Self { Self::new(0) } }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
            impl $name {
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_add"); let o = *c; *c = o.wrapping_add(v); o }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_sub"); let o = *c; *c = o.wrapping_sub(v); o }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_or"); let o = *c; *c = o | v; o }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_and"); let o = *c; *c = o & v; o }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_xor"); let o = *c; *c = o ^ v; o }
                pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_max"); let o = *c; *c = o.max(v); o }
                pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { let c = self.cell("fetch_min"); let o = *c; *c = o.min(v); o }
            }
        )* };
    }
    int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU8 u8);
    base!(AtomicBool, bool, [], []);
    impl Default for AtomicBool {
        fn default() -> Self {
            Self::new(false)
        }
    }
    impl AtomicBool {
        pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { let c = self.cell("fetch_or"); std::mem::replace(c, *c | v) }
        pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { let c = self.cell("fetch_and"); std::mem::replace(c, *c & v) }
        pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { let c = self.cell("fetch_xor"); std::mem::replace(c, *c ^ v) }
        pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool { let c = self.cell("fetch_nand"); std::mem::replace(c, !(*c & v)) }
        pub fn fetch_not(&self, _: Ordering) -> bool { let c = self.cell("fetch_not"); std::mem::replace(c, !*c) }
    }
    base!(AtomicPtr, *mut T, [<T>], [<T>]);
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(std::ptr::null_mut())
        }
    }
}

// ---------------------------------------------------------------- locks

struct Raw {
    tag: Tag,
    held: Cell<bool>,
    poisoned: Cell<bool>,
}

impl Raw {
    const fn new() -> Raw {
        Raw { tag: Tag::new(), held: Cell::new(false), poisoned: Cell::new(false) }
    }

    fn check(&self, what: &'static str) {
        if self.tag.check(what) {
            self.held.set(false);
            self.poisoned.set(false);
        }
    }

    fn lock(&self) {
        point("lock");
        self.check("lock");
        while self.held.get() {
            block(self as *const Raw as usize);
            self.check("lock");
        }
        self.held.set(true);
    }

    fn try_lock(&self) -> bool {
        point("try_lock");
        self.check("try_lock");
        !self.held.replace(true)
    }

    fn is_locked(&self) -> bool {
        point("is_locked");
        self.check("is_locked");
        self.held.get()
    }

    fn unlock(&self) {
        // what follows an unlock starts with a scheduling point of its own
        self.check("unlock");
        self.held.set(false);
        unblock(self as *const Raw as usize);
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Mutex<T> {
        Mutex { raw: Raw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard { m: self, panicking: std::thread::panicking() }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        if self.raw.poisoned.get() { Err(PoisonError::new(self.guard())) } else { Ok(self.guard()) }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !self.raw.try_lock() {
            return Err(TryLockError::WouldBlock);
        }
        if self.raw.poisoned.get() { Err(TryLockError::Poisoned(PoisonError::new(self.guard()))) } else { Ok(self.guard()) }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.raw.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.m.raw.poisoned.set(true);
        }
        self.m.raw.unlock();
    }
}

/// Readers and a writer.
struct RawRw {
    tag: Tag,
    /// -1: a writer; n > 0: readers
    n: Cell<i32>,
}
impl RawRw {
    const fn new() -> RawRw {
        RawRw { tag: Tag::new(), n: Cell::new(0) }
    }
    fn check(&self) {
        if self.tag.check("RwLock") {
            self.n.set(0);
        }
    }
    fn acquire(&self, write: bool, wait: bool) -> bool {
        point(if write { "write lock" } else { "read lock" });
        self.check();
        while if write { self.n.get() != 0 } else { self.n.get() < 0 } {
            if !wait {
                return false;
            }
            block(self as *const RawRw as usize);
            self.check();
        }
        self.n.set(if write { -1 } else { self.n.get() + 1 });
        true
    }
    fn release(&self) {
        self.check();
        self.n.set(if self.n.get() < 0 { 0 } else { self.n.get() - 1 });
        unblock(self as *const RawRw as usize);
    }
}

macro_rules! rw_guards {
    () => {
        pub struct RwLock<T: ?Sized> {
            raw: RawRw,
            v: UnsafeCell<T>,
        }
        unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
        unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
        impl<T: ?Sized> UnwindSafe for RwLock<T> {}
        impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
        pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
        pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
        impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
        impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
        impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.0.v.get() }
            }
        }
        impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
            fn drop(&mut self) {
                self.0.raw.release()
            }
        }
        impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
            fn drop(&mut self) {
                self.0.raw.release()
            }
        }
        impl<T: Default> Default for RwLock<T> {
            fn default() -> Self {
                RwLock::new(T::default())
            }
        }
        impl<T: ?Sized> fmt::Debug for RwLock<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("RwLock")
            }
        }
        impl<T> RwLock<T> {
            pub const fn new(v: T) -> Self {
                RwLock { raw: RawRw::new(), v: UnsafeCell::new(v) }
            }
        }
    };
}
rw_guards!();
impl<T> RwLock<T> {
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.acquire(false, true);
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.acquire(true, true);
        Ok(RwLockWriteGuard(self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.raw.acquire(false, false) { Ok(RwLockReadGuard(self)) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.raw.acquire(true, false) { Ok(RwLockWriteGuard(self)) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}

pub mod pl {
    //! `parking_lot`
    use super::*;
    rw_guards!();
    impl<T> RwLock<T> {
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> RwLockReadGuard<'_, T> {
            self.raw.acquire(false, true);
            RwLockReadGuard(self)
        }
        pub fn write(&self) -> RwLockWriteGuard<'_, T> {
            self.raw.acquire(true, true);
            RwLockWriteGuard(self)
        }
        pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
            self.raw.acquire(false, false).then(|| RwLockReadGuard(self))
        }
        pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
            self.raw.acquire(true, false).then(|| RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }
    pub const fn const_mutex<T>(v: T) -> Mutex<T> {
        Mutex::new(v)
    }
    pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
        RwLock::new(v)
    }
    pub use super::Once;
    pub struct Mutex<T: ?Sized> {
        raw: Raw,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Mutex<T> {
            Mutex { raw: Raw::new(), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> MutexGuard<'_, T> {
            self.raw.lock();
            MutexGuard(self)
        }
        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
            self.raw.try_lock().then(|| MutexGuard(self))
        }
        pub fn is_locked(&self) -> bool {
            self.raw.is_locked()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.raw.unlock();
        }
    }
}

// ---------------------------------------------------------------- Arc

pub struct Arc<T: ?Sized>(ManuallyDrop<real::Arc<Tagged<T>>>);
pub struct Weak<T: ?Sized>(ManuallyDrop<real::Weak<Tagged<T>>>);

#[repr(transparent)]
pub struct Tagged<T: ?Sized>(T);

unsafe impl<T: ?Sized + Send + Sync> Send for Arc<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Arc<T> {}
unsafe impl<T: ?Sized + Send + Sync> Send for Weak<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Weak<T> {}
impl<T: ?Sized + RefUnwindSafe> UnwindSafe for Arc<T> {}

/// The counters of an `Arc` precede its value.
fn check_counts<T: ?Sized>(p: *const T, what: &'static str) {
    if p as *const u8 as usize == usize::MAX {
        return; // a dangling Weak
    }
    let counts = unsafe { std::slice::from_raw_parts((p as *const u8 as *const usize).sub(2), 2) };
    let poison = usize::from_ne_bytes([crate::alloc::POISON; 8]);
    if counts[0] == poison || counts[1] == poison {
        crate::fail(|| format!("use after free: {what} on freed memory"));
        crate::give_up();
    }
}

impl<T> Arc<T> {
    pub fn new(v: T) -> Arc<T> {
        assert!(std::mem::align_of::<T>() <= 16, "Arc stand-in: alignment");
        Arc(ManuallyDrop::new(real::Arc::new(Tagged(v))))
    }
    pub fn pin(v: T) -> std::pin::Pin<Arc<T>> {
        unsafe { std::pin::Pin::new_unchecked(Arc::new(v)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
        Arc(ManuallyDrop::new(real::Arc::new_cyclic(|w| Tagged(f(&Weak(ManuallyDrop::new(w.clone())))))))
    }
    pub fn into_raw(this: Arc<T>) -> *const T {
        let mut this = ManuallyDrop::new(this);
        real::Arc::into_raw(unsafe { ManuallyDrop::take(&mut this.0) }) as *const T
    }
    pub unsafe fn from_raw(p: *const T) -> Arc<T> {
        check_counts(p, "Arc::from_raw");
        Arc(ManuallyDrop::new(real::Arc::from_raw(p as *const Tagged<T>)))
    }
    pub unsafe fn increment_strong_count(p: *const T) {
        std::mem::forget(ManuallyDrop::new(Arc::from_raw(p)).deref().clone())
    }
    pub unsafe fn decrement_strong_count(p: *const T) {
        drop(Arc::from_raw(p))
    }
    pub fn as_ptr(this: &Arc<T>) -> *const T {
        real::Arc::as_ptr(&this.0) as *const T
    }
    pub fn try_unwrap(this: Arc<T>) -> Result<T, Arc<T>> {
        point("Arc::try_unwrap");
        let mut this = ManuallyDrop::new(this);
        real::Arc::try_unwrap(unsafe { ManuallyDrop::take(&mut this.0) }).map(|t| t.0).map_err(|a| Arc(ManuallyDrop::new(a)))
    }
    pub fn into_inner(this: Arc<T>) -> Option<T> {
        point("Arc::into_inner");
        let mut this = ManuallyDrop::new(this);
        real::Arc::into_inner(unsafe { ManuallyDrop::take(&mut this.0) }).map(|t| t.0)
    }
    pub fn downgrade(this: &Arc<T>) -> Weak<T> {
        check_counts(Arc::as_ptr(this), "Arc::downgrade");
        Weak(ManuallyDrop::new(real::Arc::downgrade(&this.0)))
    }
    pub fn strong_count(this: &Arc<T>) -> usize {
        point("Arc::strong_count");
        real::Arc::strong_count(&this.0)
    }
    pub fn weak_count(this: &Arc<T>) -> usize {
        point("Arc::weak_count");
        real::Arc::weak_count(&this.0)
    }
    pub fn ptr_eq(a: &Arc<T>, b: &Arc<T>) -> bool {
        real::Arc::ptr_eq(&a.0, &b.0)
    }
    pub fn get_mut(this: &mut Arc<T>) -> Option<&mut T> {
        point("Arc::get_mut");
        real::Arc::get_mut(&mut this.0).map(|t| &mut t.0)
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &(**self.0).0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        check_counts(real::Arc::as_ptr(&self.0), "Arc::clone");
        Arc(ManuallyDrop::new(real::Arc::clone(&self.0)))
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        check_counts(real::Arc::as_ptr(&self.0), "Arc::drop");
        // dropping the only reference there is concerns no other thread
        if real::Arc::strong_count(&self.0) > 1 || real::Arc::weak_count(&self.0) > 0 {
            point("Arc::drop");
            check_counts(real::Arc::as_ptr(&self.0), "Arc::drop");
        }
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> From<T> for Arc<T> {
    fn from(v: T) -> Self {
        Arc::new(v)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + std::hash::Hash> std::hash::Hash for Arc<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: ?Sized> std::borrow::Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        self
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&(&**self as *const T), f)
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Arc<T>) -> &mut T {
        point("Arc::make_mut");
        if real::Arc::get_mut(&mut this.0).is_none() {
            let v = (**this).clone();
            *this = Arc::new(v);
        }
        real::Arc::get_mut(&mut this.0).map(|t| &mut t.0).unwrap()
    }
    pub fn unwrap_or_clone(this: Arc<T>) -> T {
        Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
    }
}
impl<T> Weak<T> {
    pub const fn new() -> Weak<T> {
        Weak(ManuallyDrop::new(real::Weak::new()))
    }
    pub fn into_raw(self) -> *const T {
        let mut this = ManuallyDrop::new(self);
        unsafe { ManuallyDrop::take(&mut this.0) }.into_raw() as *const T
    }
    pub unsafe fn from_raw(p: *const T) -> Weak<T> {
        check_counts(p, "Weak::from_raw");
        Weak(ManuallyDrop::new(real::Weak::from_raw(p as *const Tagged<T>)))
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr() as *const T
    }
    pub fn upgrade(&self) -> Option<Arc<T>> {
        point("Weak::upgrade");
        check_counts(self.0.as_ptr(), "Weak::upgrade");
        self.0.upgrade().map(|a| Arc(ManuallyDrop::new(a)))
    }
    pub fn strong_count(&self) -> usize {
        point("Weak::strong_count");
        self.0.strong_count()
    }
    pub fn ptr_eq(&self, o: &Weak<T>) -> bool {
        self.0.ptr_eq(&o.0)
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        check_counts(self.0.as_ptr(), "Weak::clone");
        Weak(ManuallyDrop::new(real::Weak::clone(&self.0)))
    }
}
impl<T: ?Sized> Drop for Weak<T> {
    fn drop(&mut self) {
        check_counts(self.0.as_ptr(), "Weak::drop");
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}

// ---------------------------------------------------------------- once

pub struct OnceLock<T>(Mutex<(u64, Option<Box<T>>)>);
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock(Mutex::new((0, None)))
    }
    fn cell(&self) -> MutexGuard<'_, (u64, Option<Box<T>>)> {
        let mut g = self.0.lock().unwrap();
        if g.0 != crate::epoch() {
            g.0 = crate::epoch();
            std::mem::forget(g.1.take());
        }
        g
    }
    pub fn get(&self) -> Option<&T> {
        self.cell().1.as_ref().map(|b| unsafe { &*(&**b as *const T) })
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut g = self.cell();
        if g.1.is_some() {
            return Err(v);
        }
        g.1 = Some(Box::new(v));
        Ok(())
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let mut g = self.cell();
        if g.1.is_none() {
            g.1 = Some(Box::new(f()));
        }
        let b = g.1.as_ref().unwrap();
        unsafe { &*(&**b as *const T) }
    }
}

impl<T> OnceLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> {
        let mut g = self.cell();
        g.1.as_mut().map(|b| unsafe { &mut *(&mut **b as *mut T) })
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell().1.take().map(|b| *b)
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock")
    }
}

pub struct LazyLock<T, F = fn() -> T>(OnceLock<T>, ManuallyDrop<F>);
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock(OnceLock::new(), ManuallyDrop::new(f))
    }
    pub fn force(this: &Self) -> &T {
        // each execution initialises it anew
        this.0.get_or_init(|| unsafe { std::ptr::read(&*this.1)() })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}

// ---------------------------------------------------------------- futures::task

pub mod task {
    use super::*;
    use std::marker::PhantomData;
    use std::task::{RawWaker, RawWakerVTable, Waker};

    /// `futures::task::AtomicWaker`, each operation atomic.
    pub struct AtomicWaker {
        tag: Tag,
        v: UnsafeCell<Option<Waker>>,
    }
    unsafe impl Send for AtomicWaker {}
    unsafe impl Sync for AtomicWaker {}
    impl AtomicWaker {
        pub const fn new() -> Self {
            AtomicWaker { tag: Tag::new(), v: UnsafeCell::new(None) }
        }
        pub fn register(&self, w: &Waker) {
            point("AtomicWaker::register");
            self.tag.check("AtomicWaker::register");
            let old = unsafe { (*self.v.get()).replace(w.clone()) };
            drop(old);
        }
        pub fn take(&self) -> Option<Waker> {
            point("AtomicWaker::take");
            self.tag.check("AtomicWaker::take");
            unsafe { (*self.v.get()).take() }
        }
        pub fn wake(&self) {
            if let Some(w) = self.take() {
                w.wake();
            }
        }
    }
    impl Default for AtomicWaker {
        fn default() -> Self {
            Self::new()
        }
    }
    impl fmt::Debug for AtomicWaker {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("AtomicWaker")
        }
    }

    pub trait ArcWake: Send + Sync {
        fn wake_by_ref(arc_self: &Arc<Self>);
    }

    struct Table<W>(PhantomData<W>);
    impl<W: ArcWake + 'static> Table<W> {
        const T: RawWakerVTable = RawWakerVTable::new(Self::clone, Self::wake, Self::wake_by_ref, Self::drop);
        unsafe fn clone(p: *const ()) -> RawWaker {
            let a = ManuallyDrop::new(Arc::from_raw(p as *const W));
            let c = Arc::clone(&a);
            RawWaker::new(Arc::into_raw(c) as *const (), &Self::T)
        }
        unsafe fn wake(p: *const ()) {
            let a = Arc::from_raw(p as *const W);
            W::wake_by_ref(&a);
        }
        unsafe fn wake_by_ref(p: *const ()) {
            let a = ManuallyDrop::new(Arc::from_raw(p as *const W));
            W::wake_by_ref(&a);
        }
        unsafe fn drop(p: *const ()) {
            drop(Arc::from_raw(p as *const W));
        }
    }
    pub fn waker<W: ArcWake + 'static>(w: Arc<W>) -> Waker {
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(w) as *const (), &Table::<W>::T)) }
    }
    /// As long as the reference, without touching the count.
    pub struct WakerRef<'a>(ManuallyDrop<Waker>, PhantomData<&'a ()>);
    impl std::ops::Deref for WakerRef<'_> {
        type Target = Waker;
        fn deref(&self) -> &Waker {
            &self.0
        }
    }
    pub fn waker_ref<W: ArcWake + 'static>(w: &Arc<W>) -> WakerRef<'_> {
        WakerRef(ManuallyDrop::new(unsafe { Waker::from_raw(RawWaker::new(Arc::as_ptr(w) as *const (), &Table::<W>::T)) }), PhantomData)
    }

    /// `std::task::Wake`
    pub trait Wake {
        fn wake(self: Arc<Self>);
        fn wake_by_ref(self: &Arc<Self>) {
            self.clone().wake();
        }
    }
    struct StdTable<W>(PhantomData<W>);
    impl<W: Wake + Send + Sync + 'static> StdTable<W> {
        const T: RawWakerVTable = RawWakerVTable::new(Self::clone, Self::wake, Self::wake_by_ref, Self::drop);
        unsafe fn clone(p: *const ()) -> RawWaker {
            let a = ManuallyDrop::new(Arc::from_raw(p as *const W));
            let c = Arc::clone(&a);
            RawWaker::new(Arc::into_raw(c) as *const (), &Self::T)
        }
        unsafe fn wake(p: *const ()) {
            W::wake(Arc::from_raw(p as *const W));
        }
        unsafe fn wake_by_ref(p: *const ()) {
            let a = ManuallyDrop::new(Arc::from_raw(p as *const W));
            W::wake_by_ref(&a);
        }
        unsafe fn drop(p: *const ()) {
            drop(Arc::from_raw(p as *const W));
        }
    }
    impl<W: Wake + Send + Sync + 'static> From<Arc<W>> for Waker {
        fn from(w: Arc<W>) -> Waker {
            unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(w) as *const (), &StdTable::<W>::T)) }
        }
    }
}
