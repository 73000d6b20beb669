//! Shared machinery of the numeric property checks: the generated-input engine and the
//! reference arithmetic used as oracle.
pub mod engine;
pub mod refint;
pub mod big;
pub mod gen;
pub mod heap;
#[global_allocator]
static ALLOC: heap::Heap = heap::Heap;

pub use engine::*;
