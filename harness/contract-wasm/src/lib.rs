#![no_std]
pub use invariant::wasm::*;
