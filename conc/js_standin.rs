//! Stands in for the crate's `js.rs`: the virtual host of the model checker.
pub fn performance_now() -> f64 {
    vsched::host::now_ms()
}

#[cfg(feature = "tokio")]
pub fn set_timeout(
    handler: &::js_sys::Function,
    timeout: i32,
) -> Result<wasm_bindgen::JsValue, wasm_bindgen::JsValue> {
    vsched::host::set_timeout(handler.0.take_callback(), timeout);
    Ok(wasm_bindgen::JsValue::UNDEFINED)
}
