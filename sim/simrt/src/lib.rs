#![feature(thread_local, alloc_error_hook)]
#![allow(clippy::all, static_mut_refs)]
pub mod api;
pub mod engine;
pub mod driver;
pub mod rng;
pub mod sys;
pub mod tsan;
pub use api::*;
pub use rng::Rng;
