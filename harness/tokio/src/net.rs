//! Modelled TCP.
use crate::kernel::{self, k};
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub use std::net::ToSocketAddrs;

#[derive(Debug)]
pub struct TcpListener { addr: SocketAddr }
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let addr = a.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput)?;
        sx::foreign(|| k().binds.push(addr)); k().listener_open = true;
        Ok(TcpListener { addr })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.addr) }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        kernel::poll_accept(cx).map_ok(|id| (TcpStream(Arc::new(Sock(id))), peer(id)))
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { poll_fn(|cx| self.poll_accept(cx)).await }
}
impl Drop for TcpListener { fn drop(&mut self) { k().listener_open = false; } }
fn peer(id: usize) -> SocketAddr { SocketAddr::from(([127, 0, 0, 1], 40000 + id as u16)) }

#[derive(Debug)]
struct Sock(usize);
impl Drop for Sock { fn drop(&mut self) { k().conns[self.0].closed = true; } }
#[derive(Debug)]
pub struct TcpStream(Arc<Sock>);
fn rd(id: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    match kernel::poll_read(id, cx, buf.remaining()) {
        Poll::Ready(Ok(v)) => { buf.put_slice(&v); Poll::Ready(Ok(())) }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}
fn wrv(id: usize, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
    let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
    kernel::poll_write(id, cx, &all)
}
fn shut(id: usize) -> Poll<io::Result<()>> { k().conns[id].shutdown = true; Poll::Ready(Ok(())) }
impl TcpStream {
    fn id(&self) -> usize { self.0 .0 }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(peer(self.id())) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1883))) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(true) }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { (tcp::OwnedReadHalf(self.0.clone()), tcp::OwnedWriteHalf(self.0)) }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) { (tcp::ReadHalf(self), tcp::WriteHalf(self)) }
    pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        match kernel::poll_write(self.id(), &mut Context::from_waker(&noop()), b) { Poll::Ready(r) => r, Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
    }
    pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
        match kernel::poll_read(self.id(), &mut Context::from_waker(&noop()), b.len()) {
            Poll::Ready(Ok(v)) => { b[..v.len()].copy_from_slice(&v); Ok(v.len()) } Poll::Ready(Err(e)) => Err(e), Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) }
    }
}
struct Noop;
impl std::task::Wake for Noop { fn wake(self: Arc<Self>) {} }
fn noop() -> std::task::Waker { Arc::new(Noop).into() }
macro_rules! reader { ($t:ty, $s:ident, $id:expr) => {
    impl AsyncRead for $t { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { let $s = &*self; rd($id, cx, b) } }
} }
macro_rules! writer { ($t:ty, $s:ident, $id:expr) => {
    impl AsyncWrite for $t {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let $s = &*self; kernel::poll_write($id, cx, b) }
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> { let $s = &*self; wrv($id, cx, b) }
        fn is_write_vectored(&self) -> bool { true }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { let $s = &*self; shut($id) }
    }
} }
reader!(TcpStream, s, s.id());
writer!(TcpStream, s, s.id());
pub mod tcp {
    use super::*;
    #[derive(Debug)] pub struct OwnedReadHalf(pub(super) Arc<Sock>);
    #[derive(Debug)] pub struct OwnedWriteHalf(pub(super) Arc<Sock>);
    #[derive(Debug)] pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)] pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    reader!(OwnedReadHalf, s, s.0 .0);
    writer!(OwnedWriteHalf, s, s.0 .0);
    reader!(ReadHalf<'_>, s, s.0.id());
    writer!(WriteHalf<'_>, s, s.0.id());
    // dropping the owned write half shuts the write direction down
    impl Drop for OwnedWriteHalf { fn drop(&mut self) { k().conns[self.0 .0].shutdown = true; } }
}
