//! Scheduler, virtual clock and network of the modelled world. One thread; a task runs until it returns Pending.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub use std::time::Duration;
/// Polls of modelled resources a task may make before it has to yield (tokio's cooperative budget).
const BUDGET: u32 = 128;

pub struct Flag { woken: AtomicBool, id: usize }
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) { if !self.woken.swap(true, Ordering::Relaxed) { sx::foreign(|| k().ready.push_back(self.id)) } }
}
struct Task { fut: Option<Pin<Box<dyn Future<Output = ()>>>>, flag: Arc<Flag> }

/// One TCP connection as the outside sees it.
#[derive(Default)]
pub struct Conn {
    /// bytes the peer has sent; `rpos` of them have been read by the broker
    pub inbox: Vec<u8>, pub rpos: usize,
    /// how many of the sent bytes have arrived
    pub avail: usize,
    pub eof: bool, pub read_err: Option<std::io::ErrorKind>,
    /// at most so many bytes per read (0: no limit)
    pub max_read: usize,
    /// bytes the broker wrote
    pub outbox: Vec<u8>,
    /// how many more bytes the transport takes before it blocks
    pub window: usize,
    /// at most so many bytes per write (0: no limit); if `sym_write`, any number up to that, chosen by the solver
    pub max_write: usize, pub sym_write: bool, pub sym_read: bool,
    pub write_err: Option<std::io::ErrorKind>,
    pub shutdown: bool, pub closed: bool, pub accepted: bool,
    /// write calls the broker made
    pub writes: u32,
    pub rwaker: Option<Waker>, pub wwaker: Option<Waker>,
}

#[derive(Default)]
pub struct Kernel {
    tasks: Vec<Task>, pub ready: VecDeque<usize>,
    pub now: Duration, timers: Vec<(Duration, u64, Waker)>, timer_id: u64,
    pub conns: Vec<Conn>, backlog: VecDeque<Result<usize, std::io::ErrorKind>>, accept_waker: Option<Waker>,
    pub binds: Vec<std::net::SocketAddr>, pub listener_open: bool,
    pub ctrl_c: bool, ctrl_waker: Vec<Waker>,
    budget: u32,
    /// task polls since the last quiescent state
    pub polls: u32, pub total_polls: u64,
    /// the next so many scheduling decisions / select starts are chosen by the solver
    pub sym_sched: u32, pub sym_select: u32,
    pub select_fixed: u32,
    /// count what the broker allocates
    pub measure: bool,
    /// tasks run in pairs, in parallel; one may interrupt the other so many times, where the solver chooses
    pub par: u64,
}
#[cfg(not(feature = "native"))]
static mut K: *mut Kernel = std::ptr::null_mut();
#[cfg(feature = "native")]
thread_local!(static K: std::cell::Cell<*mut Kernel> = std::cell::Cell::new(std::ptr::null_mut()));
/// Natively every thread has a world of its own.
#[cfg(feature = "native")]
pub fn k() -> &'static mut Kernel {
    unsafe { if K.get().is_null() { K.set(Box::into_raw(Box::new(Kernel::default()))); } &mut *K.get() }
}
#[cfg(not(feature = "native"))]
pub fn k() -> &'static mut Kernel {
    unsafe { if K.is_null() { K = Box::into_raw(Box::new(Kernel::default())); } &mut *K }
}

/// Charges one poll of a modelled resource; false if the task has to yield first.
pub fn charge(cx: &mut Context<'_>) -> bool {
    let k = k();
    if k.par > 0 { return true; }
    if k.budget == 0 { cx.waker().wake_by_ref(); return false; }
    k.budget -= 1; true
}
pub fn select_start(n: u32) -> u32 {
    let k = k();
    if k.sym_select > 0 { k.sym_select -= 1; return sx::choice(n as u64, "select") as u32; }
    k.select_fixed % n
}
pub fn spawn(f: impl Future<Output = ()> + 'static) -> usize {
    let k = k(); let id = k.tasks.len();
    let fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(f);
    sx::foreign(|| { k.tasks.push(Task { fut: Some(fut), flag: Arc::new(Flag { woken: AtomicBool::new(true), id }) }); k.ready.push_back(id) });
    id
}
pub fn abort(id: usize) { let f = k().tasks[id].fut.take(); drop(f); }
pub fn finished(id: usize) -> bool { k().tasks[id].fut.is_none() }
/// Number of tasks that have not finished.
pub fn live() -> usize { k().tasks.iter().filter(|t| t.fut.is_some()).count() }

/// One of two tasks that run in parallel.
struct Side { id: usize, fut: Option<Pin<Box<dyn Future<Output = ()>>>>, w: Waker, over: bool }
fn side(id: usize) -> Side { let t = &mut k().tasks[id]; t.flag.woken.store(false, Ordering::Relaxed); let fut = t.fut.take(); Side { id, over: fut.is_none(), fut, w: Waker::from(t.flag.clone()) } }
extern "C" fn go(p: *mut u8) {
    let s = unsafe { &mut *(p as *mut Side) };
    if let Some(f) = &mut s.fut { s.over = f.as_mut().poll(&mut Context::from_waker(&s.w)).is_ready() }
}
/// Polls one ready task. False if there is none.
pub fn step() -> bool {
    let n = k().ready.len();
    if n == 0 { return false; }
    let i = if n > 1 && k().sym_sched > 0 { k().sym_sched -= 1; sx::choice(n as u64, "schedule") as usize } else { 0 };
    let id = k().ready.remove(i).unwrap();
    if n > 1 && k().par > 0 {
        let other = k().ready.pop_front().unwrap();
        let (mut a, mut b) = (side(id), side(other));
        k().polls += 2; k().total_polls += 2;
        sx::slice(true);
        let left = sx::par(go, go, &mut a as *mut Side as *mut u8, &mut b as *mut Side as *mut u8, k().par);
        sx::slice(false);
        k().par = left;
        for x in [a, b] { if !x.over { k().tasks[x.id].fut = x.fut } }
        return true;
    }
    let (fut, flag) = { let t = &mut k().tasks[id]; t.flag.woken.store(false, Ordering::Relaxed); (t.fut.take(), t.flag.clone()) };
    let Some(mut fut) = fut else { return true };
    let w = Waker::from(flag);
    k().budget = BUDGET; k().polls += 1; k().total_polls += 1;
    sx::slice(true);
    if k().measure { sx::own(true); }
    let r = fut.as_mut().poll(&mut Context::from_waker(&w));
    sx::own(false); sx::slice(false);
    match r {
        Poll::Ready(()) => drop(fut),
        Poll::Pending => k().tasks[id].fut = Some(fut),
    }
    true
}
/// Runs until no task is ready. False if the tasks are still busy after `max` polls.
pub fn run(max: u32) -> bool {
    k().polls = 0;
    while step() { if k().polls > max { return false; } }
    true
}

pub fn add_timer(at: Duration, w: &Waker) -> u64 { let k = k(); k.timer_id += 1; sx::foreign(|| k.timers.push((at, k.timer_id, w.clone()))); k.timer_id }
pub fn move_timer(id: u64, at: Duration) { for t in k().timers.iter_mut() { if t.1 == id { t.0 = at } } }
pub fn del_timer(id: u64) { k().timers.retain(|t| t.1 != id) }
pub fn next_timer() -> Option<Duration> { k().timers.iter().map(|t| t.0).min() }
/// Lets time pass, up to `to`, firing timers in order and running the tasks at each of them.
pub fn advance_to(to: Duration, max: u32) -> bool {
    loop {
        match next_timer() {
            Some(t) if t <= to => {
                if t > k().now { k().now = t; }
                let mut due = vec![];
                k().timers.retain(|x| if x.0 <= t { due.push(x.2.clone()); false } else { true });
                for w in due { w.wake(); }
                if !run(max) { return false; }
            }
            _ => { if to > k().now { k().now = to; } return run(max); }
        }
    }
}

pub fn connect() -> usize {
    let k = k(); let id = k.conns.len();
    k.conns.push(Conn { window: usize::MAX, ..Default::default() });
    k.backlog.push_back(Ok(id));
    if let Some(w) = k.accept_waker.take() { w.wake(); }
    id
}
/// A connection is gone before it could be accepted.
pub fn fail_accept(e: std::io::ErrorKind) { let k = k(); k.backlog.push_back(Err(e)); if let Some(w) = k.accept_waker.take() { w.wake(); } }
pub fn poll_accept(cx: &mut Context<'_>) -> Poll<std::io::Result<usize>> {
    if !charge(cx) { return Poll::Pending; }
    let k = k();
    match k.backlog.pop_front() {
        Some(Ok(id)) => { k.conns[id].accepted = true; Poll::Ready(Ok(id)) }
        Some(Err(e)) => Poll::Ready(Err(e.into())),
        None => { k.accept_waker = Some(cx.waker().clone()); Poll::Pending }
    }
}
fn wake_r(id: usize) { if let Some(w) = k().conns[id].rwaker.take() { w.wake() } }
fn wake_w(id: usize) { if let Some(w) = k().conns[id].wwaker.take() { w.wake() } }
/// The peer sends bytes and they arrive.
pub fn send(id: usize, b: &[u8]) { let c = &mut k().conns[id]; c.inbox.extend_from_slice(b); c.avail = c.inbox.len(); wake_r(id) }
/// The peer sends bytes that arrive only when `arrive` says so.
pub fn queue(id: usize, b: &[u8]) { k().conns[id].inbox.extend_from_slice(b) }
pub fn arrive(id: usize, n: usize) { let c = &mut k().conns[id]; c.avail = (c.avail + n).min(c.inbox.len()); wake_r(id) }
pub fn close(id: usize) { k().conns[id].eof = true; wake_r(id) }
pub fn fail_read(id: usize, e: std::io::ErrorKind) { k().conns[id].read_err = Some(e); wake_r(id) }
pub fn fail_write(id: usize, e: std::io::ErrorKind) { k().conns[id].write_err = Some(e); wake_w(id) }
pub fn set_window(id: usize, n: usize) { k().conns[id].window = n; wake_w(id) }
pub fn interrupt() { let k = k(); k.ctrl_c = true; for w in std::mem::take(&mut k.ctrl_waker) { w.wake() } }
pub fn poll_ctrl_c(cx: &mut Context<'_>) -> Poll<()> {
    if k().ctrl_c { return Poll::Ready(()); }
    sx::foreign(|| { let c = &mut k().ctrl_waker; if !c.iter().any(|w| w.will_wake(cx.waker())) { c.push(cx.waker().clone()) } }); Poll::Pending
}
pub fn poll_read(id: usize, cx: &mut Context<'_>, room: usize) -> Poll<std::io::Result<Vec<u8>>> {
    if !charge(cx) { return Poll::Pending; }
    let c = &mut k().conns[id];
    if let Some(e) = c.read_err { if c.rpos == c.avail { return Poll::Ready(Err(e.into())); } }
    let mut n = (c.avail - c.rpos).min(room);
    if n == 0 {
        if room == 0 || (c.eof && c.rpos == c.inbox.len()) { return Poll::Ready(Ok(vec![])); }
        c.rwaker = Some(cx.waker().clone()); return Poll::Pending;
    }
    if c.max_read > 0 { n = n.min(c.max_read); }
    if c.sym_read && n > 1 { n = 1 + sx::choice(n.min(256) as u64, "read size") as usize; }
    let v = c.inbox[c.rpos..c.rpos + n].to_vec();
    c.rpos += n;
    Poll::Ready(Ok(v))
}
pub fn poll_write(id: usize, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
    if !charge(cx) { return Poll::Pending; }
    let c = &mut k().conns[id];
    if let Some(e) = c.write_err { return Poll::Ready(Err(e.into())); }
    if c.shutdown { return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())); }
    if b.is_empty() { return Poll::Ready(Ok(0)); }
    let mut n = b.len().min(c.window);
    if n == 0 { c.wwaker = Some(cx.waker().clone()); return Poll::Pending; }
    if c.max_write > 0 { n = n.min(c.max_write); }
    if c.sym_write && n > 1 { n = 1 + sx::choice(n.min(256) as u64, "write size") as usize; }
    if c.window != usize::MAX { c.window -= n; }
    c.writes += 1;
    sx::foreign(|| c.outbox.extend_from_slice(&b[..n]));
    Poll::Ready(Ok(n))
}
