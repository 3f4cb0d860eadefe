//! Stand-in for `uniffi`: see uniffi-macros.
pub use uniffi_macros_shim::*;
pub fn uniffi_bindgen_main() {}
