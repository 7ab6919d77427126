#![allow(clippy::all)]
#[macro_use]
pub mod el;
#[macro_use] pub mod lane;
pub mod rt;
#[macro_use]
pub mod stream;
#[macro_use]
pub mod zipx;
