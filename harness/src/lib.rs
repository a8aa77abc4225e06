//! Shared machinery of the property checks.
pub mod alloc;
pub mod cli;
pub mod engine;
pub mod mats;
pub mod mul;
pub mod scal;
pub mod shapes;
pub mod user;

#[global_allocator]
static A: alloc::Guarded = alloc::Guarded;
