//! Exhaustive choice-tree exploration of executions of real code.
pub mod alloc;
pub mod ast;
pub mod drive;
pub mod explore;
pub mod prim;
pub mod seq;
pub mod live;
pub mod stream;
pub mod utf8;

pub use explore::*;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: alloc::CheckAlloc = alloc::CheckAlloc;
