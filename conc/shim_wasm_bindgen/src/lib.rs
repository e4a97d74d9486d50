//! As much of wasm-bindgen as the crate uses outside `js.rs`: callbacks are boxed closures.
use std::cell::RefCell;
use std::rc::Rc;

type Callback = Rc<RefCell<Option<Box<dyn FnOnce()>>>>;

#[derive(Clone, Default)]
pub struct JsValue(Option<Callback>);

impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JsValue")
    }
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(None);
    pub fn undefined() -> JsValue {
        JsValue(None)
    }
    #[doc(hidden)]
    pub fn take_callback(&self) -> Box<dyn FnOnce()> {
        self.0.as_ref().and_then(|c| c.borrow_mut().take()).expect("not a callback, or used twice")
    }
}

/// Types that wrap a `JsValue` and nothing else.
pub unsafe trait JsCast: Sized {
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        // SAFETY: implementers are transparent wrappers
        unsafe { &*(self as *const Self as *const T) }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        let this = std::mem::ManuallyDrop::new(self);
        unsafe { std::ptr::read(&*this as *const Self as *const T) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        Some(self.unchecked_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        Ok(self.unchecked_into())
    }
}
unsafe impl JsCast for JsValue {}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub mod closure {
    use super::*;
    pub struct Closure<T: ?Sized>(JsValue, std::marker::PhantomData<Box<T>>);
    impl Closure<dyn FnOnce()> {
        pub fn once_into_js<F: FnOnce() + 'static>(f: F) -> JsValue {
            JsValue(Some(Rc::new(RefCell::new(Some(Box::new(f))))))
        }
    }
    impl Closure<dyn FnMut()> {
        pub fn once<F: FnOnce() + 'static>(f: F) -> Closure<dyn FnMut()> {
            Closure(JsValue(Some(Rc::new(RefCell::new(Some(Box::new(f)))))), Default::default())
        }
    }
    impl<T: ?Sized> Closure<T> {
        /// One that may be called again is called at most once: a host timeout.
        pub fn forget(self) {}
        pub fn into_js_value(self) -> JsValue {
            self.0
        }
    }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.0
        }
    }
}

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
}
pub use closure::Closure;
