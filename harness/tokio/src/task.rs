//! Task spawning on the modelled scheduler.
use crate::kernel::{self};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub use real_tokio::task::{unconstrained, Unconstrained};

#[derive(Debug)]
pub struct JoinError(());
impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "task was cancelled") } }
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error { fn from(e: JoinError) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) } }

struct Slot<T> { val: Option<T>, waker: Option<Waker> }
pub struct JoinHandle<T> { id: usize, slot: Rc<RefCell<Slot<T>>> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "JoinHandle") } }
#[derive(Debug, Clone)]
pub struct AbortHandle(usize);
impl AbortHandle { pub fn abort(&self) { defer_abort(self.0) } pub fn is_finished(&self) -> bool { kernel::finished(self.0) } }
fn defer_abort(id: usize) { kernel::spawn(async move { kernel::abort(id) }); }
impl<T> JoinHandle<T> {
    pub fn abort(&self) { defer_abort(self.id); if let Some(w) = self.slot.borrow_mut().waker.take() { w.wake() } }
    pub fn is_finished(&self) -> bool { kernel::finished(self.id) }
    pub fn abort_handle(&self) -> AbortHandle { AbortHandle(self.id) }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.borrow_mut();
        if let Some(v) = s.val.take() { return Poll::Ready(Ok(v)); }
        if kernel::finished(self.id) { return Poll::Ready(Err(JoinError(()))); }
        s.waker = Some(cx.waker().clone()); Poll::Pending
    }
}
pub fn spawn_local<F: Future + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: 'static {
    let slot = Rc::new(RefCell::new(Slot { val: None, waker: None }));
    let s2 = slot.clone();
    let id = kernel::spawn(async move {
        let v = f.await;
        let mut s = s2.borrow_mut(); s.val = Some(v);
        if let Some(w) = s.waker.take() { w.wake() }
    });
    JoinHandle { id, slot }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { spawn_local(f) }
pub fn spawn_blocking<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> JoinHandle<R> { spawn_local(async move { f() }) }
pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R { f() }
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|cx| if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending }).await
}
/// Tasks that are joined in the order they end; dropping the set aborts them.
pub struct JoinSet<T> { all: Vec<JoinHandle<T>> }
impl<T> Default for JoinSet<T> { fn default() -> Self { Self { all: Vec::new() } } }
impl<T> std::fmt::Debug for JoinSet<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "JoinSet") } }
impl<T> JoinSet<T> {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { self.all.len() }
    pub fn is_empty(&self) -> bool { self.all.is_empty() }
    pub fn abort_all(&mut self) { for h in &self.all { h.abort() } }
    pub fn detach_all(&mut self) { self.all.clear() }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.all.is_empty() { return Poll::Ready(None) }
        for i in 0..self.all.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.all[i]).poll(cx) { self.all.remove(i); return Poll::Ready(Some(r)) }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> { std::future::poll_fn(|cx| self.poll_join_next(cx)).await }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> { match self.poll_join_next(&mut Context::from_waker(Waker::noop())) { Poll::Ready(r) => r, Poll::Pending => None } }
    pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
}
impl<T: 'static> JoinSet<T> {
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static, T: Send { self.spawn_local(f) }
    pub fn spawn_local<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + 'static { let h = spawn_local(f); let a = h.abort_handle(); self.all.push(h); a }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle where F: FnOnce() -> T + Send + 'static, T: Send { let h = spawn_local(async move { f() }); let a = h.abort_handle(); self.all.push(h); a }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.all { if !h.is_finished() { h.abort() } } } }
