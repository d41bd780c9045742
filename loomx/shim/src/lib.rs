//! The standard library with loom's synchronisation types in place of its own.
pub use ::std::*;
pub mod sync {
    pub use ::loom::sync::{mpsc, Arc, Barrier, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
    pub use ::std::sync::{LazyLock, LockResult, PoisonError, TryLockError, TryLockResult};
    pub use crate::once::OnceLock;
    pub mod atomic {
        pub use ::loom::sync::atomic::*;
        pub use ::std::sync::atomic::compiler_fence;
    }
}
pub mod hint {
    pub use ::loom::hint::spin_loop;
    pub use ::std::hint::{assert_unchecked, black_box, unreachable_unchecked};
}
pub mod thread {
    pub use ::loom::thread::{park, yield_now};
    pub use ::std::thread::*;
}
pub mod once;
