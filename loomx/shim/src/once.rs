//! std::sync::OnceLock with its orderings made visible to loom.
use loom::cell::UnsafeCell;
use loom::sync::atomic::{AtomicUsize, Ordering::*};

const EMPTY: usize = 0;
const BUSY: usize = 1;
const SET: usize = 2;

pub struct OnceLock<T> {
    state: AtomicUsize,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}

impl<T> OnceLock<T> {
    pub fn new() -> Self {
        OnceLock { state: AtomicUsize::new(EMPTY), value: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.state.load(Acquire) == SET {
            // Once set it is only changed through `&mut self`.
            self.value.with(|p| unsafe { (*p).as_ref() })
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.with_mut(|p| unsafe { (*p).as_mut() })
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        loop {
            match self.state.compare_exchange(EMPTY, BUSY, AcqRel, Acquire) {
                Ok(_) => {
                    self.value.with_mut(|p| unsafe { *p = Some(value) });
                    self.state.store(SET, Release);
                    return Ok(());
                }
                Err(BUSY) => loom::thread::yield_now(),
                Err(_) => return Err(value),
            }
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.get().is_none() {
            let _ = self.set(f());
        }
        self.get().unwrap()
    }
    pub fn take(&mut self) -> Option<T> {
        self.state.with_mut(|s| *s = EMPTY);
        self.value.with_mut(|p| unsafe { (*p).take() })
    }
    pub fn into_inner(mut self) -> Option<T> {
        self.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        OnceLock { state: AtomicUsize::new(SET), value: UnsafeCell::new(Some(v)) }
    }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("OnceLock")
    }
}
