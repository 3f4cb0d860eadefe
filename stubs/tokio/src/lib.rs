//! Real tokio, except for the `runtime` module: there a runtime is a single-threaded executor that
//! the checking harness drives, so that the C interface runs without OS threads.
pub use real_tokio::*;
pub mod runtime {
    use std::{
        future::Future,
        pin::{pin, Pin},
        sync::{Arc, Mutex},
        task::{Context, Poll, Wake, Waker},
    };
    type Task = Pin<Box<dyn Future<Output = ()> + Send + 'static>>;
    /// Tasks that were spawned and have not finished.
    static TASKS: Mutex<Vec<Task>> = Mutex::new(Vec::new());
    struct Noop;
    impl Wake for Noop {
        fn wake(self: Arc<Self>) {}
    }
    /// Poll every spawned task until none makes progress any more; returns how many are left.
    pub fn run_spawned(max_rounds: usize) -> usize {
        let waker = Waker::from(Arc::new(Noop));
        for _ in 0..max_rounds {
            let mut tasks = std::mem::take(&mut *TASKS.lock().unwrap());
            let mut left = vec![];
            for mut t in tasks.drain(..) {
                if t.as_mut().poll(&mut Context::from_waker(&waker)).is_pending() {
                    left.push(t);
                }
            }
            let mut q = TASKS.lock().unwrap();
            left.append(&mut q);
            *q = left;
            if q.is_empty() {
                return 0;
            }
        }
        TASKS.lock().unwrap().len()
    }
    #[derive(Debug)]
    pub struct Runtime(Handle);
    /// What a spawned task will have returned.
    pub struct JoinHandle<T>(Arc<Mutex<Option<T>>>);
    impl<T> JoinHandle<T> {
        pub fn is_finished(&self) -> bool {
            self.0.lock().unwrap().is_some()
        }
    }
    impl<T> std::fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "JoinHandle")
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, real_tokio::task::JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.0.lock().unwrap().take() {
                Some(v) => Poll::Ready(Ok(v)),
                None => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            }
        }
    }
    #[derive(Debug, Clone)]
    pub struct Handle(());
    #[derive(Debug)]
    pub struct EnterGuard<'a>(&'a ());
    /// The model has one kind of runtime, whatever is asked for.
    #[derive(Debug)]
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Runtime::new()
        }
    }
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(Handle(())))
        }
        pub fn handle(&self) -> &Handle {
            &self.0
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(&())
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            self.0.block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            self.0.spawn(f)
        }
    }
    impl Handle {
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let waker = Waker::from(Arc::new(Noop));
            let mut f = pin!(f);
            loop {
                if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                    return v;
                }
            }
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            let slot = Arc::new(Mutex::new(None));
            let s2 = slot.clone();
            TASKS.lock().unwrap().push(Box::pin(async move {
                let v = f.await;
                *s2.lock().unwrap() = Some(v);
            }));
            JoinHandle(slot)
        }
    }
}
