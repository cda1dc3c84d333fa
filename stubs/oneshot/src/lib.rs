//! Type-only stand-in for the `oneshot` crate (never executed).
pub struct Sender<T>(std::marker::PhantomData<T>);
pub struct Receiver<T>(std::marker::PhantomData<T>);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RecvError;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TryRecvError { Empty, Disconnected }
pub struct SendError<T>(T);
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("send") } }
impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("recv") } }
impl std::error::Error for RecvError {}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { unimplemented!() }
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
impl<T> Sender<T> { pub fn send(self, _m: T) -> Result<(), SendError<T>> { unimplemented!() } }
impl<T> Receiver<T> {
    pub fn recv(self) -> Result<T, RecvError> { unimplemented!() }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { unimplemented!() }
}
impl<T> std::future::Future for Receiver<T> {
    type Output = Result<T, RecvError>;
    fn poll(self: std::pin::Pin<&mut Self>, _c: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { unimplemented!() }
}
