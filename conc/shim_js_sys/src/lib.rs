use shim_wasm_bindgen::{JsCast, JsValue};

#[repr(transparent)]
#[derive(Clone, Debug)]
pub struct Function(pub JsValue);
unsafe impl JsCast for Function {}

pub struct Date;
impl Date {
    pub fn now() -> f64 {
        vsched::host::now_ms()
    }
}

impl From<JsValue> for Function {
    fn from(v: JsValue) -> Function {
        Function(v)
    }
}
impl From<Function> for JsValue {
    fn from(f: Function) -> JsValue {
        f.0
    }
}
impl AsRef<JsValue> for Function {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
