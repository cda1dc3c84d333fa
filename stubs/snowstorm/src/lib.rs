use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
#[derive(Clone, Debug)]
pub struct NoiseParams(());
impl std::str::FromStr for NoiseParams { type Err = Error; fn from_str(_: &str) -> Result<Self, Error> { Ok(Self(())) } }
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "snow") } }
impl std::error::Error for Error {}
pub type SnowstormError = Error;
pub struct Keypair { pub private: Vec<u8>, pub public: Vec<u8> }
pub struct Builder<'b>(std::marker::PhantomData<&'b ()>);
pub struct HandshakeState(());
pub struct StatelessTransportState(());
impl StatelessTransportState { pub fn get_remote_static(&self) -> Option<&[u8]> { unimplemented!() } }
impl<'b> Builder<'b> {
    pub fn new(_: NoiseParams) -> Self { Self(std::marker::PhantomData) }
    pub fn generate_keypair(&self) -> Result<Keypair, Error> { unimplemented!() }
    pub fn local_private_key(self, _k: &'b [u8]) -> Self { self }
    pub fn build_initiator(self) -> Result<HandshakeState, Error> { unimplemented!() }
    pub fn build_responder(self) -> Result<HandshakeState, Error> { unimplemented!() }
}
pub struct NoiseStream<T>(T, StatelessTransportState);
impl<T: AsyncRead + AsyncWrite + Unpin> NoiseStream<T> {
    pub async fn handshake(_t: T, _s: HandshakeState) -> Result<Self, SnowstormError> { unimplemented!() }
}
impl<T> NoiseStream<T> {
    pub fn get_inner(&self) -> &T { &self.0 }
    pub fn get_state(&self) -> &StatelessTransportState { &self.1 }
}
impl<T: AsyncRead + AsyncWrite + Unpin> AsyncRead for NoiseStream<T> { fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> { unimplemented!() } }
impl<T: AsyncRead + AsyncWrite + Unpin> AsyncWrite for NoiseStream<T> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> { unimplemented!() }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { unimplemented!() }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { unimplemented!() }
}
