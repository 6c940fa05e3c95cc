pub mod alloc_meter;
pub mod cfg;
#[cfg(feature = "cfgs")]
pub mod configs;
pub mod engine;
pub mod explore;
pub mod fault;
pub mod keys;
pub mod parts;
pub mod suite;
pub mod sys;
#[cfg(feature = "cnt")]
pub mod counted;
#[cfg(feature = "trk")]
pub mod tracked;
