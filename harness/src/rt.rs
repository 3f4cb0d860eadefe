//! Driving futures: a one-future executor that knows whether the waker was called.
use crate::sym;
use std::{
    cell::UnsafeCell,
    future::Future,
    pin::{pin, Pin},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

pub struct Flag(AtomicUsize);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}
impl Flag {
    pub fn new() -> (Arc<Flag>, Waker) {
        let f = Arc::new(Flag(AtomicUsize::new(0)));
        (f.clone(), Waker::from(f))
    }
    pub fn take(&self) -> bool {
        self.0.swap(0, Ordering::Relaxed) > 0
    }
}
const MAX_POLLS: usize = 100_000;
/// Run to completion, polling again whether or not the future asked for it.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let (_fl, w) = Flag::new();
    for _ in 0..MAX_POLLS {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
    }
    sym::fail("operation never completes")
}
/// Run to completion as an executor would: polls again only if the waker was called.
pub fn block_on_woken<F: Future>(f: F, msg: &'static str) -> F::Output {
    let mut f = pin!(f);
    let (fl, w) = Flag::new();
    for _ in 0..MAX_POLLS {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !fl.take() {
                    sym::fail(msg)
                }
            }
        }
    }
    sym::fail("operation never completes")
}
/// Poll once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let (_fl, w) = Flag::new();
    f.poll(&mut Context::from_waker(&w))
}

/// Single-threaded interior mutability for the models (everything here runs on one thread).
pub struct Cell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
unsafe impl<T> Send for Cell<T> {}
impl<T> Cell<T> {
    pub const fn new(t: T) -> Self {
        Cell(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
