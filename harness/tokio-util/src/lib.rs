//! The real tokio-util, except that TaskTracker spawns on the harness's scheduler.
pub use real_tokio_util::*;
pub mod task {
    pub use real_tokio_util::task::*;
    pub use self::task_tracker::TaskTracker;
    pub mod task_tracker {
        pub use real_tokio_util::task::task_tracker::{TaskTrackerToken, TaskTrackerWaitFuture, TrackedFuture};
        use std::future::Future;
        use tokio::task::JoinHandle;
        #[derive(Clone, Debug, Default)]
        pub struct TaskTracker(real_tokio_util::task::TaskTracker);
        impl TaskTracker {
            pub fn new() -> Self { Self(real_tokio_util::task::TaskTracker::new()) }
            pub fn wait(&self) -> TaskTrackerWaitFuture<'_> { self.0.wait() }
            pub fn close(&self) -> bool { self.0.close() }
            pub fn reopen(&self) -> bool { self.0.reopen() }
            pub fn is_closed(&self) -> bool { self.0.is_closed() }
            pub fn len(&self) -> usize { self.0.len() }
            pub fn is_empty(&self) -> bool { self.0.is_empty() }
            pub fn token(&self) -> TaskTrackerToken { self.0.token() }
            pub fn track_future<F: Future>(&self, f: F) -> TrackedFuture<F> { self.0.track_future(f) }
            pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
                tokio::task::spawn(self.0.track_future(f))
            }
            pub fn spawn_local<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static {
                tokio::task::spawn_local(self.0.track_future(f))
            }
        }
    }
}
