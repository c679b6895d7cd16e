//! Virtual time.
use crate::kernel::{self, k};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self { Instant(k().now) }
    pub fn elapsed(&self) -> Duration { k().now.saturating_sub(self.0) }
    pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d).map(Instant) }
}
impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0.checked_add(d).expect("overflow when adding duration to instant")) } }
impl std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl std::ops::Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0.checked_sub(d).expect("overflow when subtracting duration from instant")) } }
impl std::ops::SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

#[derive(Debug)]
#[must_use = "futures do nothing unless you `.await` or poll them"]
pub struct Sleep { at: Instant, reg: Option<u64>, _pin: std::marker::PhantomPinned }
impl Sleep {
    pub fn deadline(&self) -> Instant { self.at }
    pub fn is_elapsed(&self) -> bool { self.at.0 <= k().now }
    pub fn reset(self: Pin<&mut Self>, at: Instant) {
        let s = unsafe { self.get_unchecked_mut() };
        let at = Instant(round(at.0)); s.at = at;
        // a registered timer moves; the task that polled it is woken at the new deadline
        if let Some(id) = s.reg { kernel::move_timer(id, at.0) }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let s = unsafe { self.get_unchecked_mut() };
        if !kernel::charge(cx) { return Poll::Pending; }
        if let Some(id) = s.reg.take() { kernel::del_timer(id) }
        if s.at.0 <= k().now { return Poll::Ready(()); }
        s.reg = Some(kernel::add_timer(s.at.0, cx.waker()));
        Poll::Pending
    }
}
impl Drop for Sleep { fn drop(&mut self) { if let Some(id) = self.reg { kernel::del_timer(id) } } }
// tokio rounds deadlines up to whole milliseconds
fn round(t: Duration) -> Duration {
    let n = (t.subsec_nanos() + 999_999) / 1_000_000 * 1_000_000;
    if n == 1_000_000_000 { Duration::from_secs(t.as_secs().saturating_add(1)) } else { Duration::new(t.as_secs(), n) }
}
pub fn sleep_until(at: Instant) -> Sleep { Sleep { at: Instant(round(at.0)), reg: None, _pin: std::marker::PhantomPinned } }
pub fn sleep(d: Duration) -> Sleep { sleep_until(Instant::now().checked_add(d).unwrap_or(Instant(Duration::from_secs(u64::MAX / 2)))) }

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { "deadline has elapsed".fmt(f) } }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error { fn from(_: Elapsed) -> Self { std::io::ErrorKind::TimedOut.into() } }
}
#[derive(Debug)]
pub struct Timeout<F> { fut: F, sleep: Sleep }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let s = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut s.fut) }.poll(cx) { return Poll::Ready(Ok(v)); }
        unsafe { Pin::new_unchecked(&mut s.sleep) }.poll(cx).map(|_| Err(error::Elapsed(())))
    }
}
pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> { Timeout { fut, sleep: sleep(d) } }
pub fn timeout_at<F: Future>(at: Instant, fut: F) -> Timeout<F> { Timeout { fut, sleep: sleep_until(at) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }
#[derive(Debug)]
pub struct Interval { next: Instant, period: Duration, beh: MissedTickBehavior }
pub fn interval(period: Duration) -> Interval { interval_at(Instant::now(), period) }
pub fn interval_at(next: Instant, period: Duration) -> Interval { assert!(period > Duration::ZERO, "`period` must be non-zero."); Interval { next, period, beh: Default::default() } }
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let t = self.next;
        self.next = match self.beh {
            MissedTickBehavior::Burst => t + self.period,
            MissedTickBehavior::Delay => Instant::now() + self.period,
            MissedTickBehavior::Skip => { let mut n = t + self.period; while n <= Instant::now() { n += self.period } n }
        };
        t
    }
    pub fn reset(&mut self) { self.next = Instant::now() + self.period }
    pub fn reset_immediately(&mut self) { self.next = Instant::now() }
    pub fn reset_after(&mut self, d: Duration) { self.next = Instant::now() + d }
    pub fn reset_at(&mut self, i: Instant) { self.next = i }
    pub fn period(&self) -> Duration { self.period }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { self.beh = b }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { self.beh }
}
