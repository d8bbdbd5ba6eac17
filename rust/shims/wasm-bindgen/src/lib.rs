//! Offline native stand-in: `#[wasm_bindgen]` leaves the item as it is, JsValue is opaque.
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub String);
impl JsValue {
    pub fn from_str(s: &str) -> Self {
        JsValue(s.to_string())
    }
    pub const NULL: JsValue = JsValue(String::new());
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue(s.to_string())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(s)
    }
}
pub mod prelude {
    pub use super::JsValue;
    pub use wasm_bindgen_macro_shim::wasm_bindgen;
}
