//! The sources of the WebAssembly bindings, which build for a browser only,
//! against a stand-in for what the browser gives them.
#![allow(warnings)]
pub extern crate js;
extern crate js as js_sys;
extern crate js as serde_wasm_bindgen;
extern crate js as tsify_next;
extern crate js as wasm_bindgen;
extern crate js as wasm_bindgen_futures;

include!(concat!(env!("OUT_DIR"), "/modules.rs"));
