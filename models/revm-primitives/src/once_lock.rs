//! Verification model of `OnceLock`: single-threaded, no `std::sync::Once` state machine.
use core::cell::UnsafeCell;
use std::boxed::Box;

/// A cell written at most once (single-threaded model).
#[derive(Debug)]
pub struct OnceLock<T> {
    inner: UnsafeCell<*mut T>,
}
unsafe impl<T> Sync for OnceLock<T> {}
unsafe impl<T> Send for OnceLock<T> {}

impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> OnceLock<T> {
    /// Creates a new empty `OnceLock`.
    pub const fn new() -> Self {
        Self { inner: UnsafeCell::new(core::ptr::null_mut()) }
    }
    /// Gets the contents, initializing it if necessary.
    pub fn get_or_init<F>(&self, f: F) -> &T
    where
        F: FnOnce() -> T,
    {
        unsafe {
            if (*self.inner.get()).is_null() {
                *self.inner.get() = Box::into_raw(Box::new(f()));
            }
            &**self.inner.get()
        }
    }
    /// Gets the contents, if initialized.
    pub fn get(&self) -> Option<&T> {
        unsafe { (*self.inner.get()).as_ref() }
    }
}
