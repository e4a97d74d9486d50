#![allow(dead_code, unused_imports)]
pub use std::cell::{Cell, RefCell};
pub use std::future::Future;
pub use std::pin::{pin, Pin};
pub use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub use std::sync::{Arc, Mutex};
pub use std::task::{Context, Poll, Wake, Waker};
pub use std::time::Duration;
pub use wasm_bindgen::prelude::*;
pub use wasmtimer::std::{Instant, SystemTime};

#[wasm_bindgen]
extern "C" {
    #[wasm_bindgen(js_namespace = demo)]
    pub fn now() -> f64;
    /// time passes while the host is busy: no timer runs
    #[wasm_bindgen(js_namespace = demo)]
    pub fn pass(us: f64);
    /// a punctual event loop for this long
    #[wasm_bindgen(js_namespace = demo)]
    pub fn run(us: f64);
    #[wasm_bindgen(js_namespace = demo)]
    pub fn turn();
    #[wasm_bindgen(js_namespace = demo)]
    pub fn fired() -> u32;
    #[wasm_bindgen(js_namespace = demo)]
    pub fn pending() -> u32;
    #[wasm_bindgen(js_namespace = demo)]
    pub fn date(ms: f64);
    #[wasm_bindgen(js_namespace = demo)]
    pub fn perf(us: f64);
    #[wasm_bindgen(js_namespace = demo)]
    pub fn say(s: &str);
}
pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
type Hook = Box<dyn FnMut()>;
/// Counts wakes and runs a closure inside each (not re-entrantly).
pub struct W {
    pub n: AtomicUsize,
    pub hook: Mutex<Option<Hook>>,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.n.fetch_add(1, SeqCst);
        let h = self.hook.lock().unwrap().take();
        if let Some(mut h) = h {
            h();
        }
    }
}
impl W {
    pub fn new() -> Arc<W> {
        Arc::new(W { n: AtomicUsize::new(0), hook: Mutex::new(None) })
    }
    pub fn hooked(f: impl FnMut() + 'static) -> Arc<W> {
        // single threaded
        let w = W::new();
        let b: Box<dyn FnMut()> = Box::new(f);
        *w.hook.lock().unwrap() = Some(b);
        w
    }
    pub fn woken(&self) -> usize {
        self.n.load(SeqCst)
    }
}
pub fn waker(w: &Arc<W>) -> Waker {
    // SAFETY: single threaded, the closure never leaves this thread
    struct Any(Arc<W>);
    unsafe impl Send for Any {}
    unsafe impl Sync for Any {}
    impl Wake for Any {
        fn wake(self: Arc<Self>) {
            self.0.clone().wake();
        }
    }
    Waker::from(Arc::new(Any(w.clone())))
}
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>, w: &Arc<W>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(&waker(w)))
}
pub fn noop<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}
/// Starts the runtime, so that the program meets a driver that already runs.
pub fn warm() {
    let s = Box::pin(wasmtimer::tokio::sleep(ms(1)));
    run(20_000.0);
    drop(s);
    run(20_000.0);
}
#[wasm_bindgen]
pub fn run_demo() {
    std::panic::set_hook(Box::new(|i| say(&format!("{i}"))));
    crate::demo();
}
