pub mod alloc;
pub mod ctx;
pub mod hashers;
pub mod history;
pub mod model;
pub mod mon;
pub mod pool;
pub mod rng;
pub mod subj;
pub mod tok;
#[cfg(feature = "typed")]
pub mod typed;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

#[cfg(feature = "serde")]
pub mod ser;
#[cfg(feature = "serde")]
pub mod sertypes;
