//! The futures crate with a scheduling point around every use of AtomicWaker.
pub use futures::*;

pub mod task {
    pub use futures::task::*;
    use shuttle::sync::atomic::{AtomicBool, Ordering::SeqCst};

    #[derive(Debug)]
    pub struct AtomicWaker {
        inner: futures::task::AtomicWaker,
        point: AtomicBool,
    }

    impl Default for AtomicWaker {
        fn default() -> Self {
            Self::new()
        }
    }

    impl AtomicWaker {
        pub fn new() -> Self {
            AtomicWaker { inner: futures::task::AtomicWaker::new(), point: AtomicBool::new(false) }
        }
        fn switch(&self) {
            self.point.load(SeqCst);
        }
        pub fn register(&self, w: &Waker) {
            self.switch();
            self.inner.register(w);
            self.switch();
        }
        pub fn wake(&self) {
            self.switch();
            self.inner.wake();
        }
        pub fn take(&self) -> Option<Waker> {
            self.switch();
            self.inner.take()
        }
    }
}
