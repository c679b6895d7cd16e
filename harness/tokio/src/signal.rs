//! The shutdown signal of the modelled world.
use crate::kernel;
pub async fn ctrl_c() -> std::io::Result<()> { std::future::poll_fn(kernel::poll_ctrl_c).await; Ok(()) }
pub mod unix {
    use crate::kernel;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind { pub fn interrupt() -> Self { Self(2) } pub fn terminate() -> Self { Self(15) } pub fn hangup() -> Self { Self(1) } pub fn quit() -> Self { Self(3) } }
    #[derive(Debug)]
    pub struct Signal(SignalKind);
    pub fn signal(k: SignalKind) -> std::io::Result<Signal> { Ok(Signal(k)) }
    impl Signal { pub async fn recv(&mut self) -> Option<()> { if self.0 == SignalKind::interrupt() { std::future::poll_fn(kernel::poll_ctrl_c).await } else { std::future::pending::<()>().await } Some(()) } }
}
